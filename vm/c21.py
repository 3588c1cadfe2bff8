"""C21: wavefront, spot, derivative and Zernike analyses against an independent optical-path computation."""
import warnings
import numpy as np
import batoid
from . import gen, mon, ref

L = np.longdouble
E = 2.0 ** -52
PERTURB = ["withLocallyShiftedOptic", "withGloballyShiftedOptic", "withLocallyRotatedOptic"]


# ------------------------------------------------------------------ systems
def ideal(rng):
    """A system that focuses a beam along its axis perfectly, and its focal length."""
    k = int(rng.integers(5))
    f = float(rng.uniform(4, 12))
    D = float(rng.uniform(0.5, 1.2)) * f / rng.uniform(4, 12)
    if k == 0:       # paraboloid
        m = batoid.ConstMedium(float(rng.uniform(1, 1.6))) if rng.random() < 0.5 else batoid.ConstMedium(1.0)
        items = [batoid.Mirror(batoid.Paraboloid(2 * f), name="M1", inMedium=m, outMedium=m),
                 batoid.Detector(batoid.Plane(), name="D", coordSys=batoid.CoordSys([0, 0, f]), inMedium=m, outMedium=m)]
        n0 = n1 = m.n
        F = f
    elif k == 1:     # ellipsoid: air to glass
        n = float(rng.uniform(1.3, 1.8))
        R = f * (n - 1) / n          # back focal distance inside glass is nR/(n-1)
        a, g = batoid.ConstMedium(1.0), batoid.ConstMedium(n)
        items = [batoid.RefractiveInterface(batoid.Quadric(-R, -1 / n ** 2), name="M1", inMedium=a, outMedium=g),
                 batoid.Detector(batoid.Plane(), name="D", coordSys=batoid.CoordSys([0, 0, -f]), inMedium=g, outMedium=g)]
        n0, n1 = 1.0, n
        F = f / n
        m = a
    elif k == 2:     # hyperboloid: glass to air
        n = float(rng.uniform(1.3, 1.8))
        R = f * (n - 1)
        a, g = batoid.ConstMedium(1.0), batoid.ConstMedium(n)
        items = [batoid.RefractiveInterface(batoid.Quadric(R, -n ** 2), name="M1", inMedium=g, outMedium=a),
                 batoid.Detector(batoid.Plane(), name="D", coordSys=batoid.CoordSys([0, 0, -f]), inMedium=a, outMedium=a)]
        n0, n1 = n, 1.0
        F = f
        m = g
    elif k == 4:     # paraboloid and a flat: the image is seen mirrored
        b, q = f * rng.uniform(0.2, 0.4), int(rng.choice([-1, 1]))
        a = batoid.ConstMedium(1.0)
        items = [batoid.Mirror(batoid.Paraboloid(2 * f), name="M1", inMedium=a, outMedium=a),
                 batoid.Mirror(batoid.Plane(), name="M2", coordSys=batoid.CoordSys([0, 0, f - b], batoid.RotX(q * np.pi / 4)), inMedium=a, outMedium=a),
                 batoid.Detector(batoid.Plane(), name="D", coordSys=batoid.CoordSys([0, q * b, f - b], batoid.RotX(-q * np.pi / 2)),
                                 inMedium=a, outMedium=a)]
        n0 = n1 = 1.0
        F = f
        m = a
    else:            # paraboloid and hyperboloidal secondary (Cassegrain)
        s = f * rng.uniform(0.55, 0.75)      # secondary position
        p = f - s                            # its distance to the first focus
        q = s + 0.2 * f                      # and to the second, behind the primary
        M = q / p
        R2 = 2 * p * q / (q - p)
        k2 = -((M + 1) / (M - 1)) ** 2
        a = batoid.ConstMedium(1.0)
        items = [batoid.Mirror(batoid.Paraboloid(2 * f), name="M1", inMedium=a, outMedium=a),
                 batoid.Mirror(batoid.Quadric(R2, k2), name="M2", coordSys=batoid.CoordSys([0, 0, s]), inMedium=a, outMedium=a),
                 batoid.Detector(batoid.Plane(), name="D", coordSys=batoid.CoordSys([0, 0, s - q]), inMedium=a, outMedium=a)]
        n0 = n1 = 1.0
        F = f * M
        m = a
    T = batoid.CompoundOptic(items, name="T", stopSurface=batoid.Interface(batoid.Plane(), name="stop"), backDist=2 * f,
                             pupilSize=D, pupilObscuration=0.0, sphereRadius=f * (1 if k != 3 else 1.5), inMedium=m)
    return T, dict(kind=k, f=F, D=D, n0=n0, n1=n1)


def system(rng):
    """A shipped telescope, as it is or disturbed, or a synthetic one."""
    u = rng.random()
    if u < 0.3:
        T, o = ideal(rng)
        if rng.random() < 0.5:
            T = disturb(rng, T, 1e-5)
        mx = 0.01
        return "ideal%d" % o["kind"], T, (rng.normal(size=2) * mx * rng.choice([0, 1.0])), float(rng.uniform(4e-7, 9e-7))
    nm, T = gen.pick_scope(rng)
    if rng.random() < 0.6:
        T = disturb(rng, T, 1e-4)
    th = gen.field(rng, nm, 1.0) if rng.random() < 0.9 else (0.0, 0.0)
    return nm, T, np.array(th), float(gen.scope_wl(rng, nm))


def disturb(rng, T, a):
    names = [k for k in T.itemDict if k != T.name]
    for _ in range(int(rng.integers(1, 4))):
        q = str(names[rng.integers(len(names))])
        k = rng.integers(4)
        if k == 0:
            T = T.withLocallyShiftedOptic(q, rng.normal(size=3) * a * [1, 1, 0.3])
        elif k == 1:
            T = T.withLocallyRotatedOptic(q, batoid.RotX(rng.normal() * a) @ batoid.RotY(rng.normal() * a))
        elif k == 2:
            T = T.withLocallyRotatedOptic(q, batoid.RotZ(rng.normal() * 0.3))
        elif hasattr(T.itemDict[q], "surface"):
            s = batoid.Zernike(rng.normal(size=12) * 1e-7, R_outer=2.5)
            T = T.withSurface(q, batoid.Sum([T.itemDict[q].surface, s]))
    if rng.random() < 0.3:
        T = T.withGlobalShift(rng.normal(size=3))
    return T


# ------------------------------------------------------------------ reference
def opd(rv, point, R, wl, keep=None):
    """Times (long double) at which rays reach the sphere of radius |R| about `point`, the sheet through the point's
    far side point + R z; rays given in the frame in which `point` is given."""
    r, v = ref.ld(rv.r) - ref.ld(point), ref.ld(rv.v)
    vv, rdv, rr = np.sum(v * v, -1), np.sum(r * v, -1), np.sum(r * r, -1)
    R = L(R)
    disc = rdv * rdv - vv * (rr - R * R)
    with np.errstate(all="ignore"):
        q = np.sqrt(disc)
        t1, t2 = (-rdv - q) / vv, (-rdv + q) / vv
        z1, z2 = r[:, 2] + v[:, 2] * t1, r[:, 2] + v[:, 2] * t2
        t = np.where(np.abs(z1 - R) < np.abs(z2 - R), t1, t2)
    return t + ref.ld(rv.t)


def chief(T, wl, th, proj):
    rv = batoid.RayVector.fromStop(0.0, 0.0, optic=T, wavelength=wl, theta_x=float(th[0]), theta_y=float(th[1]), projection=proj)
    return T.trace(rv)


def stop_xy(T, rv):
    e = rv.copy().toCoordSys(T.stopSurface.coordSys)
    batoid.intersect(T.stopSurface.surface, e)
    return np.array(e.x), np.array(e.y)


def kwargs(rng, small=True):
    kw, proj = {}, "postel"
    if rng.random() < 0.5:
        proj = kw["projection"] = str(rng.choice(ref.PROJECTIONS))
    return kw, proj


def pick_ref(rng, kw):
    if rng.random() < 0.6:
        kw["reference"] = str(rng.choice(["chief", "mean"]))
    return kw.get("reference", "chief")


def pick_radius(rng, kw, T):
    if rng.random() < 0.4:
        kw["sphereRadius"] = float(T.sphereRadius * rng.uniform(0.5, 2) * rng.choice([1, 1, -1]))
    return kw.get("sphereRadius", T.sphereRadius)


def wtol(rv, R, wl, point):
    s = np.nanmax(np.abs(rv.t)) + abs(R) + np.nanmax(np.abs(rv.r)) + np.nanmax(np.abs(rv.coordSys.origin))
    return float(400 * E * s / wl + 1e-7)


def grid(T, th, proj, wl, nx):
    kw = dict(optic=T, wavelength=wl, nx=nx, theta_x=float(th[0]), theta_y=float(th[1]), projection=proj)
    return batoid.RayVector.asGrid(**kw)


def reference_map(T, th, proj, wl, nx, R, reference):
    """(phase map in waves, mask, tolerance, start bundle) from our own trace; None when the reference does not exist."""
    g = grid(T, th, proj, wl, nx)
    rv = T.trace(g.copy())
    good = ~rv.vignetted
    if reference == "chief":
        ch = chief(T, wl, th, proj)
        if ch.failed[0] or not np.isfinite(ch.r).all():
            return None
        pt = ch.r[0]
    else:
        if not good.any():
            return None
        pt = np.mean(rv.r[good], axis=0)
    t = opd(rv, pt, R, wl)
    bad = ~np.isfinite(t.astype(float)) | rv.failed
    t0 = opd(ch, pt, R, wl)[0] if reference == "chief" else np.mean(t[good & ~bad])
    W = ((t0 - t) / L(wl)).astype(float)
    return W, ~good | bad, wtol(rv, R, wl, pt), g, rv, pt


def maps(c, rng, i):
    """Wavefront maps and spots."""
    nm, T, th, wl = system(rng)
    kw, proj = kwargs(rng)
    nx = int(rng.integers(4, 34))
    rf, R = pick_ref(rng, kw), pick_radius(rng, kw, T)
    m = reference_map(T, th, proj, wl, nx, R, rf)
    if m is None:
        c.event()
        c.note("no reference ray")
        return
    W, mask, tol, g, rv, pt = m
    out = batoid.analysis.wavefront(T, float(th[0]), float(th[1]), wl, nx=nx, **kw)
    c.ok(isinstance(out, batoid.Lattice) and out.array.shape == (nx, nx), "map:shape")
    got = out.array
    gm = np.ma.getmaskarray(got).ravel()
    c.equal(gm, mask, "map:mask", nm)
    use = ~mask
    c.close(np.ma.getdata(got).ravel()[use], W[use], "map:values", atol=tol, msg="%s %s R=%g nx=%d" % (nm, rf, R, nx))
    d = T.pupilSize / (nx - 2 if nx % 2 == 0 else nx - 1)
    c.close(out.primitiveVectors, d * np.eye(2), "map:lattice", rtol=1e-14)
    x, y = stop_xy(T, g)
    co = out.coords
    # samples are stored [y, x]
    c.close(co[..., 0].T.ravel(), x, "map:x", atol=1e-11 * (1 + T.pupilSize))
    c.close(co[..., 1].T.ravel(), y, "map:y", atol=1e-11 * (1 + T.pupilSize))
    if rf == "chief":
        j = nx // 2
        c.close(float(np.ma.getdata(got)[j, j]), 0.0, "map:chief", atol=1e-9)
    elif use.any():
        c.close(float(np.mean(got)), 0.0, "map:mean", atol=tol)
    # spots
    kw.pop("sphereRadius", None)
    good = ~rv.vignetted
    if rng.random() < 0.15:
        kw["reference"], pt = "none", np.zeros(3)
    sx, sy = batoid.analysis.spot(T, float(th[0]), float(th[1]), wl, nx=nx, **kw)
    at = 1e-13 * (1 + np.nanmax(np.abs(rv.r)))
    c.close(sx, rv.x[good] - pt[0], "spot:x", atol=at)
    c.close(sy, rv.y[good] - pt[1], "spot:y", atol=at)
    c.label("map", nm, nx, rf, R > 0, int(10 * mask.mean()))
    c.sample(system=nm, nx=nx, waves=float(np.ptp(W[use])) if use.any() else 0.0, masked=float(mask.mean()))


def fit(A, b):
    """Least squares in long double (QR by modified Gram-Schmidt, twice)."""
    A, b = ref.ld(A).copy(), ref.ld(b)
    n = A.shape[1]
    Q, R = A.copy(), np.eye(n, dtype=L)
    for j in range(n):
        for _ in range(2):
            for k in range(j):
                h = np.sum(Q[:, k] * Q[:, j])
                Q[:, j] -= h * Q[:, k]
                R[k, j] += h
        R[j, j] = np.sqrt(np.sum(Q[:, j] ** 2))
        Q[:, j] /= R[j, j]
    y = np.sum(Q * (b[:, None] if b.ndim == 1 else b), 0)
    x = np.zeros(n, dtype=L)
    for j in range(n - 1, -1, -1):
        x[j] = (y[j] - np.sum(R[j, j + 1:] * x[j + 1:])) / R[j, j]
    return x.astype(float)


def basis(jmax, x, y, Ro, eps):
    return np.stack([ref.zern_basis(j, ref.ld(x) / L(Ro), ref.ld(y) / L(Ro), eps) for j in range(1, jmax + 1)], 1)


def dbasis(jmax, x, y, Ro, eps):
    """Gradients, by fourth-order differences in long double."""
    h = L(Ro) * L(1e-4)
    x, y = ref.ld(x), ref.ld(y)

    def f(a, b):
        return basis(jmax, a, b, Ro, eps)
    gx = (8 * (f(x + h, y) - f(x - h, y)) - (f(x + 2 * h, y) - f(x - 2 * h, y))) / (12 * h)
    gy = (8 * (f(x, y + h) - f(x, y - h)) - (f(x, y + 2 * h) - f(x, y - 2 * h))) / (12 * h)
    return gx, gy


def jm(rng, n):
    return int(min(rng.choice([3, 4, 6, 11, 15, 22, 28]), max(3, n)))


def fits(c, rng, i):
    """Least-squares Zernike decomposition of the map."""
    nm, T, th, wl = system(rng)
    kw, proj = kwargs(rng)
    nx = int(rng.integers(8, 30))
    rf, R = pick_ref(rng, kw), pick_radius(rng, kw, T)
    m = reference_map(T, th, proj, wl, nx, R, rf)
    if m is None or (~m[1]).sum() < 8:
        c.event()
        return
    W, mask, tol, g, rv, pt = m
    use = ~mask
    jmax = 22
    if rng.random() < 0.7:
        kw["jmax"] = jmax = jm(rng, use.sum() // 3)
    eps = 0.0
    if rng.random() < 0.6:
        kw["eps"] = eps = float(rng.choice([0.0, 0.3, 0.61, T.pupilObscuration if hasattr(T, "pupilObscuration") else 0.2]))
    x, y = stop_xy(T, g)
    A = basis(jmax, x[use], y[use], T.pupilSize / 2, eps)
    sv = np.linalg.svd(A.astype(float), compute_uv=False)
    args = (T, float(th[0]), float(th[1]), wl)
    if len(A) < jmax or sv[-1] < 1e-16 * sv[0]:
        c.raises(RuntimeError, lambda: batoid.analysis.zernike(*args, nx=nx, **kw), "fit:rank", "%d samples, %d terms" % (len(A), jmax))
        return
    if sv[-1] < 1e-9 * sv[0]:
        c.event()
        return
    z = batoid.analysis.zernike(*args, nx=nx, **kw)
    c.ok(z.shape == (jmax + 1,) and z[0] == 0, "fit:shape", repr(z.shape))
    want = fit(A, W[use])
    at = (tol + 1e-12 * np.abs(W[use]).max()) * 50 * np.sqrt(len(A)) / sv[-1]
    c.close(z[1:], want, "fit", atol=float(at), msg="%s jmax=%d eps=%g" % (nm, jmax, eps))
    c.label("fit", nm, jmax, eps, rf, nx % 2)


def quadrature(c, rng, i):
    """Gaussian quadrature decomposition, and the double one."""
    nm, T, th, wl = system(rng)
    kw, proj = kwargs(rng)
    rf, R = pick_ref(rng, kw), pick_radius(rng, kw, T)
    rings = int(rng.integers(3, 8))
    spokes = 2 * rings + 1
    jmax = 22
    if rng.random() < 0.7:
        kw["jmax"] = jmax = int(rng.choice([4, 11, 15, 22]))
    eps = 0.0
    if rng.random() < 0.6:
        kw["eps"] = eps = float(rng.choice([0.0, 0.3, 0.61]))
    dbl = rng.random() < 0.25
    if rng.random() < 0.3 and not dbl:
        kw["spokes"] = spokes = spokes + int(rng.integers(0, 4))

    def one(tx, ty, kw_spokes):
        """Our quadrature at one field point: (coefs or None when a ray fails, tolerance)."""
        g = batoid.RayVector.asSpokes(optic=T, wavelength=wl, inner=eps * T.pupilSize / 2, theta_x=float(tx), theta_y=float(ty),
                                      projection=proj, rings=rings, spokes=kw_spokes, spacing="GQ")
        x, y = stop_xy(T, g)
        B = basis(jmax, x, y, T.pupilSize / 2, eps)
        # the documented quadrature weights, from first principles
        xi, w = np.polynomial.legendre.leggauss(rings)
        rad = np.sqrt(eps ** 2 + (1 - eps ** 2) * (1 + xi) / 2) * T.pupilSize / 2
        w = w / (2 * kw_spokes)
        rho = np.hypot(x, y)
        near = np.argmin(np.abs(rho[:, None] - rad[None, :]), axis=1)
        c.close(rho, rad[near], "gq:radii", atol=1e-10 * T.pupilSize)
        c.equal(np.bincount(near, minlength=rings), np.full(rings, kw_spokes), "gq:count")
        rv = T.trace(g.copy())
        if rv.failed.any():
            return None, 0
        if rf == "mean":
            good = ~rv.vignetted
            if not good.any():
                return None, 0
            pt = np.mean(rv.r[good], 0)
            t = opd(rv, pt, R, wl)
            t0 = np.mean(t[good])
        else:
            ch = chief(T, wl, (tx, ty), proj)
            if ch.failed[0]:
                return None, 0
            pt = ch.r[0]
            t = opd(rv, pt, R, wl)
            t0 = opd(ch, pt, R, wl)[0]
        W = (t0 - t) / L(wl)
        if not np.isfinite(W.astype(float)).all():
            return None, 0
        a = np.sum(B * (W * ref.ld(w[near]))[:, None], 0).astype(float)
        return np.concatenate([[np.nan], a]), wtol(rv, R, wl, pt) * 30
    if not dbl:
        a, tol = one(th[0], th[1], spokes)
        args = (T, float(th[0]), float(th[1]), wl)
        if a is None:
            c.event()
            c.note("quadrature with failed rays")
            return
        z = batoid.analysis.zernikeGQ(*args, rings=rings, **kw)
        c.ok(z.shape == (jmax + 1,), "gq:shape")
        c.close(z[1:], a[1:], "gq", atol=tol, msg="%s rings=%d eps=%g %s" % (nm, rings, eps, rf))
        c.label("gq", nm, rings, jmax, eps, rf)
        return
    rings = 3
    spokes = 7
    sp = {}
    if rng.random() < 0.3:
        sp["spokes"] = spokes = 8
    fieldr = float(max(1e-4, abs(th[0]) + abs(th[1])))
    kmax = int(rng.choice([3, 6, 10]))
    xi, w = np.polynomial.legendre.leggauss(rings)
    rad, az = np.sqrt((1 + xi) / 2) * fieldr, np.arange(spokes) * 2 * np.pi / spokes
    want, tol = 0.0, 0.0
    for r, q in zip(rad, w):
        for p in az:
            a, t = one(r * np.cos(p), r * np.sin(p), spokes)
            if a is None:
                c.event()
                return
            tol = max(tol, t)
            zb = basis(kmax, [r * np.cos(p)], [r * np.sin(p)], fieldr, 0.0)[0].astype(float)
            want = want + np.outer(zb, a[1:]) * q / (2 * spokes)
    got = batoid.analysis.doubleZernike(T, fieldr, wl, rings=rings, kmax=kmax, **sp, **kw)
    c.ok(got.shape == (kmax + 1, jmax + 1), "double:shape", repr(got.shape))
    c.close(got[1:, 1:], want, "double", atol=tol * 10, msg=nm)
    c.label("double", nm, kmax, jmax, eps, rf)


def polar(T, th, proj, wl, nrad, naz):
    return batoid.RayVector.asPolar(optic=T, wavelength=wl, theta_x=float(th[0]), theta_y=float(th[1]), projection=proj, nrad=nrad, naz=naz)


def counts(rng):
    kw = {}
    if rng.random() < 0.6:
        kw["nrad"], kw["naz"] = int(rng.integers(3, 9)), int(rng.integers(8, 45))
    return kw, kw.get("nrad", 6), kw.get("naz", 36)


def transverse(c, rng, i):
    """Decompositions of transverse aberrations."""
    nm, T, th, wl = system(rng)
    kw, proj = kwargs(rng)
    rf = pick_ref(rng, kw)
    k2, nrad, naz = counts(rng)
    kw.update(k2)
    g = polar(T, th, proj, wl, nrad, naz)
    u, v = stop_xy(T, g)
    rv = T.trace(g.copy())
    good = ~rv.vignetted
    if good.sum() < 12:
        c.event()
        return
    if rf == "chief":
        ch = chief(T, wl, th, proj)
        if ch.failed[0]:
            c.event()
            return
        pt = ch.r[0]
    else:
        pt = np.mean(rv.r[good], 0)
    jmax = 22
    if rng.random() < 0.7:
        kw["jmax"] = jmax = jm(rng, good.sum() // 3)
    eps = 0.0
    if rng.random() < 0.5:
        kw["eps"] = eps = float(rng.choice([0.0, 0.3, 0.61]))
    args = (T, float(th[0]), float(th[1]), wl)
    Ro = T.pupilSize / 2
    scale = np.nanmax(np.abs(rv.r)) + np.abs(rv.coordSys.origin).max()
    if rng.random() < 0.5:
        fl = None
        if rng.random() < 0.7:
            kw["focal_length"] = fl = float(rng.uniform(1, 30))
        gx, gy = dbasis(jmax, u[good], v[good], Ro, eps)
        A = np.concatenate([gx, gy])[:, 1:]
        b = np.concatenate([rv.x[good] - pt[0], rv.y[good] - pt[1]])
        sv = np.linalg.svd(A.astype(float), compute_uv=False)
        if sv[-1] < 1e-9 * sv[0]:
            c.event()
            return
        if fl is None:
            J = batoid.analysis.drdth(*args, projection=proj)
            det = np.linalg.det(J)
            if not det > 0:
                c.event()
                return
            fl = np.sqrt(det)
        z = batoid.analysis.zernikeTA(*args, **kw)
        c.ok(z.shape == (jmax + 1,) and z[0] == 0, "ta:shape")
        want = -fit(A, b) / fl / wl
        at = 1e-13 * scale * 50 * np.sqrt(len(A)) / sv[-1] / fl / wl + 1e-9 * np.abs(want).max() * (1 + sv[0] / sv[-1] * 1e-3)
        c.close(z[2:], want[0:], "ta", atol=float(at), msg="%s jmax=%d eps=%g %s" % (nm, jmax, eps, rf))
        c.close(z[1], 0.0, "ta:piston", atol=1e-6)
        c.label("ta", nm, jmax, eps, rf)
        return
    use = good
    if rng.random() < 0.5:
        kw["include_vignetted"] = inc = bool(rng.random() < 0.6)
        use = ~rv.failed if inc else good
        if inc and rv.failed.any():
            c.event()
            return
    A = basis(jmax, u[use], v[use], Ro, eps)
    sv = np.linalg.svd(A.astype(float), compute_uv=False)
    if len(A) < jmax or sv[-1] < 1e-9 * sv[0]:
        c.event()
        return
    zx, zy = batoid.analysis.zernikeXYAberrations(*args, **kw)
    at = 1e-13 * scale * 50 * np.sqrt(len(A)) / sv[-1]
    for z, q, k in ((zx, rv.x[use] - pt[0], "x"), (zy, rv.y[use] - pt[1], "y")):
        c.ok(z.shape == (jmax + 1,) and z[0] == 0, "xy:shape")
        c.close(z[1:], fit(A, q), "xy:" + k, atol=float(at + 1e-12 * np.abs(q).max() * sv[0] / sv[-1]),
                msg="%s jmax=%d eps=%g %s" % (nm, jmax, eps, rf))
    c.label("xy", nm, jmax, eps, rf)


def derivatives(c, rng, i):
    """Pupil-to-direction and field-to-image derivatives, focal length and exit pupil."""
    nm, T, th, wl = system(rng)
    kw, proj = kwargs(rng)
    k2, nrad, naz = counts(rng)
    kw.update(k2)
    args = (T, float(th[0]), float(th[1]), wl)
    g = polar(T, th, proj, wl, nrad, naz)
    u, v = stop_xy(T, g)
    rv = T.trace(g.copy())
    good = ~rv.vignetted
    if good.sum() < 6:
        c.event()
        return
    A = np.stack([np.ones(good.sum()), u[good], v[good]], 1)
    if np.linalg.svd(A, compute_uv=False)[-1] < 1e-6:
        c.event()
        return
    vv = np.sum(ref.ld(rv.v) ** 2, -1)
    k = 2 * L(np.pi) * ref.ld(rv.v) / vv[:, None] / L(wl)
    want = np.stack([fit(A, k[good, 0]), fit(A, k[good, 1])], 1)[1:]
    got = batoid.analysis.dkdu(*args, **kw)
    ks = float(np.abs(k[good]).max())
    c.close(got, want, "dkdu", atol=1e-11 * ks * 10 / T.pupilSize, msg=nm)
    # the fit behind it: offset and slopes of points on a plane, exactly; any points, like a fit in long double
    m = rng.normal(size=(3, 2)) * 10.0 ** rng.uniform(-2, 2)
    px, py = rng.normal(size=(2, int(rng.integers(5, 40))))
    z = np.stack([np.ones_like(px), px, py], 1)
    on = z @ m
    c.close(batoid.utils.bilinear_fit(px, py, on[:, 0], on[:, 1]), m, "bilinear:plane", atol=1e-11 * float(np.abs(m).max()))
    q = on + rng.normal(size=on.shape)
    c.close(batoid.utils.bilinear_fit(list(px), list(py), q[:, 0], q[:, 1]), np.stack([fit(z, q[:, 0]), fit(z, q[:, 1])], 1), "bilinear:fit",
            atol=1e-10 * float(np.abs(q).max()))
    # image position as a function of the field angle: central differences with two steps

    def centre(tx, ty):
        q = T.trace(polar(T, (tx, ty), proj, wl, nrad, naz))
        return np.array([np.mean(q.x[good]), np.mean(q.y[good])])
    J = []
    for e in (np.array([1, 0.0]), np.array([0, 1.0])):
        d = {h: (centre(*(th + h * e)) - centre(*(th - h * e))) / (2 * h) for h in (1e-5, 2e-5)}
        J.append((4 * d[1e-5] - d[2e-5]) / 3)
    J = np.array(J).T        # J[i, j] = d r_i / d theta_j
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        got = batoid.analysis.drdth(*args, **kw)
        if np.isfinite(J).all() and np.isfinite(got).all():
            s = np.abs(J).max()
            c.close(got, J, "drdth", atol=3e-4 * s + 1e-8, msg=nm)
            inv = batoid.analysis.dthdr(*args, **kw)
            c.close(inv @ got, np.eye(2), "dthdr", atol=1e-9)
            f = batoid.analysis.focalLength(*args, **kw)
            c.close(f, np.sqrt(np.abs(np.linalg.det(got))), "focalLength", rtol=1e-9)
    # exit pupil: closest approach of the small-angle chief rays to the axis
    if nm in ("LSST_r.yaml", "HSC.yaml", "DECam.yaml", "AuxTel.yaml", "SDSS.yaml", "DESI.yaml") or nm.startswith("ideal") and nm != "ideal4":
        a = float(rng.choice([4.848136811095360e-6, 2e-5]))
        P = []
        for tx, ty in ((0, a), (0, -a), (a, 0), (-a, 0)):
            q = chief(T, wl, (tx, ty), "postel")
            q.toCoordSys(batoid.CoordSys())
            r, w = ref.ld(q.r[0]), ref.ld(q.v[0])
            w = w / np.sqrt(np.sum(w * w))
            s = -(r[0] * w[0] + r[1] * w[1]) / (w[0] ** 2 + w[1] ** 2)
            P.append(r + s * w)
        P = np.array(P)
        if np.isfinite(P.astype(float)).all() and np.abs(P).max() < 1e4:
            e = batoid.analysis.exitPupilPos(T, wl, **({} if a < 1e-5 else {"smallAngle": a}))
            c.close(e, np.mean(P, 0).astype(float), "exitPupil", atol=1e-3 * float(1 + np.abs(P).max()), msg=nm)
    c.label("derivatives", nm, proj, nrad, naz // 8)


def additive(c, rng, i):
    """A known aberration put into a perfect system comes out in every decomposition."""
    T, o = ideal(rng)
    while o["kind"] == 4:
        T, o = ideal(rng)
    wl = float(rng.uniform(5e-7, 9e-7))
    Ro = T.pupilSize / 2
    z0 = batoid.analysis.zernikeGQ(T, 0.0, 0.0, wl, jmax=15)
    c.close(z0[1:], np.zeros(15), "perfect", atol=1e-4 if o["kind"] == 3 else 2e-5, msg=str(o))
    w0 = batoid.analysis.wavefront(T, 0.0, 0.0, wl, nx=16)
    c.close(np.asarray(w0.array[~w0.array.mask]), np.zeros((~w0.array.mask).sum()), "perfect:map", atol=1e-4 if o["kind"] == 3 else 2e-5)
    co = np.zeros(16)
    js = rng.choice(np.arange(2, 16), int(rng.integers(1, 4)), replace=False)
    co[js] = rng.normal(size=len(js)) * 0.03 * wl
    how = int(rng.integers(2))
    items = [it for it in T.items]
    if how == 0 or o["kind"] in (1, 2):     # a screen at the stop adds its height to the path
        m = T.inMedium
        sc = batoid.OPDScreen(batoid.Plane(), batoid.Zernike(co, R_outer=Ro), name="S", inMedium=m, outMedium=m)
        # rays approach from +z, the screen sits where they pass the stop for the first time
        items = [sc] + items
        ta = want = -co / wl
        stop = T.stopSurface
        if o["kind"] in (0, 3):
            z = 1.5 * o["f"] if o["kind"] == 0 else 2.0 * T.sphereRadius
        else:
            z = 0.6 * o["f"]
        sc = batoid.OPDScreen(batoid.Plane(), batoid.Zernike(co, R_outer=Ro), name="S", coordSys=batoid.CoordSys([0, 0, z]), inMedium=m, outMedium=m)
        items[0] = sc
        stop = batoid.Interface(batoid.Plane(), name="stop", coordSys=batoid.CoordSys([0, 0, z]))
    else:            # bump on the primary: path shortened twice
        q = items[0]
        items[0] = batoid.Mirror(batoid.Sum([q.surface, batoid.Zernike(co / 2, R_outer=Ro)]), name="M1", inMedium=q.inMedium, outMedium=q.outMedium)
        want = co / wl * o["n0"]
        ta = co / wl
        stop = T.stopSurface
    kw = {k: getattr(T, k) for k in ("backDist", "pupilSize", "pupilObscuration", "sphereRadius", "inMedium")}
    kw["backDist"] = 4 * kw["backDist"]
    P = batoid.CompoundOptic(items, name="P", stopSurface=stop, **kw)
    size = np.abs(want).max()
    # beam speed limits how well first order holds
    slack = 0.03 + 1.5 * (o["D"] / 2 / abs(o["f"])) ** 2
    at = slack * size + 2e-4
    ref_ = np.array(want[1:])
    z = batoid.analysis.zernikeGQ(P, 0.0, 0.0, wl, jmax=15, rings=8)[1:]
    # tilt terms are absorbed by the reference point, piston by the reference ray
    keep = np.arange(1, 16) >= 4
    c.close(z[keep], ref_[keep], "added:gq", atol=at, msg="%s %s" % (o, how))
    z = batoid.analysis.zernike(P, 0.0, 0.0, wl, jmax=15, nx=24)[1:]
    c.close(z[1:][keep[1:]], ref_[1:][keep[1:]], "added:fit", atol=at, msg="%s %s" % (o, how))
    z = batoid.analysis.zernikeTA(P, 0.0, 0.0, wl, jmax=15, reference="mean", nrad=10, naz=60)
    # transverse aberrations are the slopes themselves, whatever the index
    c.close(z[1:][keep], ta[1:][keep], "added:ta", atol=at + 0.02 * size, msg="%s %s" % (o, how))
    c.label("added", o["kind"], how, tuple(int(j) for j in sorted(js)))


CASES = [
    ("maps", maps, 110, 5000),
    ("fits", fits, 40, 2000),
    ("quadrature", quadrature, 60, 3000),
    ("transverse", transverse, 60, 2500),
    ("derivatives", derivatives, 60, 3000),
    ("additive", additive, 30, 1500),
]
