"""C17: generated bundles against their documented pattern on the stop, lifted and moved back in long double."""
import numpy as np
import batoid
from . import gen, mon, ref

L = np.longdouble
STOPS = ["Plane", "Plane", "Tilted", "Paraboloid", "Sphere", "Quadric", "Asphere", "Zernike"]


def optic(rng):
    """A system that carries defaults for the generators."""
    kw = {}
    if rng.random() < 0.6:
        kw["pupilObscuration"] = float(rng.uniform(0.05, 0.8))
    if rng.random() < 0.6:
        kw["inMedium"] = gen.medium(rng)
    return batoid.CompoundOptic([batoid.Detector(batoid.Plane(), name="D")], name="T", coordSys=gen.csys(rng),
                                stopSurface=batoid.Interface(gen.surf(rng, str(rng.choice(STOPS)), 4.0, True), coordSys=gen.csys(rng)),
                                backDist=float(rng.uniform(0.5, 30)), pupilSize=float(rng.uniform(0.3, 4)), **kw)


def setting(rng, coord=True, plane=False):
    """Keyword arguments and what they mean: stop, index, distance, frame, direction or source."""
    kw, o = {}, {}
    u = rng.random()
    T = None
    if u < 0.35:
        T = optic(rng)
    elif u < 0.5:
        T = gen.pick_scope(rng)[1]
    if T is not None:
        kw["optic"] = T
    o["optic"] = T
    if T is None or rng.random() < 0.3 or plane:
        if T is not None or rng.random() < 0.8 or plane:
            kw["stopSurface"] = batoid.Interface(gen.surf(rng, "Plane" if plane else str(rng.choice(STOPS)), 4.0, True), coordSys=gen.csys(rng))
    o["stop"] = kw.get("stopSurface") or (T.stopSurface if T is not None else batoid.Interface(batoid.Plane()))
    wl = kw["wavelength"] = float(rng.uniform(3.5e-7, 9e-7))
    if rng.random() < 0.4:
        kw["medium"] = gen.medium(rng)
    o["n"] = ref.index(kw.get("medium") or (T.inMedium if T is not None else batoid.vacuum), wl)
    if rng.random() < 0.4:
        kw["backDist"] = float(rng.choice([0.0, rng.uniform(-5, 0), rng.uniform(0, 100)]))
    o["back"] = kw.get("backDist", T.backDist if T is not None else 40.0)
    if coord and rng.random() < 0.4:
        kw["coordSys"] = gen.csys(rng, 5)
    o["cs"] = kw.get("coordSys") or (T.coordSys if T is not None else batoid.CoordSys())
    o["source"] = o["dir"] = None
    u = rng.random()
    if u < 0.3:
        s = rng.normal(size=3) * 10.0 ** rng.uniform(0.7, 4) + o["stop"].coordSys.origin
        kw["source"] = o["source"] = s if rng.random() < 0.7 else list(map(float, s))
    elif u < 0.65:
        d = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 2)
        if rng.random() < 0.3:
            d = np.eye(3)[rng.integers(3)] * rng.choice([-1.0, 1.0, 3.0])
        kw["dirCos"] = d if rng.random() < 0.7 else tuple(map(float, d))
        o["dir"] = ref.ld(d) / np.sqrt(np.sum(ref.ld(d) ** 2))
    else:
        p = str(rng.choice(ref.PROJECTIONS))
        tx, ty = map(float, rng.uniform(-0.6, 0.6, 2) * rng.choice([1.0, 1e-3, 0.0]))
        kw.update(theta_x=tx, theta_y=ty)
        if p != "postel" or rng.random() < 0.5:
            kw["projection"] = p
        o["dir"] = np.array(ref.to_dircos(tx, ty, p))
    if rng.random() < 0.3:
        kw["flux"] = float(rng.uniform(0.1, 9))
    o["flux"] = kw.get("flux", 1.0)
    o["wl"] = wl
    return kw, o


def lift(o, x, y):
    """Stop points in the frame of the rays (long double)."""
    s = o["stop"].surface
    z = ref.sag(s, ref.ld(x), ref.ld(y))
    p = np.stack(np.broadcast_arrays(ref.ld(x), ref.ld(y), z), -1)
    return ref.to_frame(o["stop"].coordSys, o["cs"], p)


def judge(c, rv, x, y, o, tag, flux=None):
    """The whole bundle against its requested stop points (stop frame), one by one and in order."""
    x, y = np.broadcast_arrays(np.atleast_1d(ref.ld(x)), np.atleast_1d(ref.ld(y)))
    c.ok(len(rv) == x.size, tag + ":count", "%d rays, expected %d" % (len(rv), x.size))
    c.ok(rv.coordSys == o["cs"], tag + ":frame")
    c.equal(rv.wavelength, np.full(x.size, o["wl"]), tag + ":wavelength")
    c.ok(not rv.failed.any() and not rv.vignetted.any(), tag + ":flags")
    c.close(rv.flux, np.broadcast_to(o["flux"] if flux is None else flux, x.shape), tag + ":flux", rtol=1e-13)
    p = lift(o, x, y)
    if not np.isfinite(p).all():
        # the pattern reaches beyond the domain of the stop surface
        c.note("beyond the stop surface")
        return
    r, v = ref.ld(rv.r), ref.ld(rv.v)
    ext = float(np.abs(p).max(initial=0))
    sc = 1 + ext + abs(o["back"]) + np.abs(o["stop"].coordSys.origin).max() + np.abs(o["cs"].origin).max() + mon.rmax(o["stop"].surface)
    c.equal(rv.t, np.zeros(x.size), tag + ":in-phase", "rays start at different times")
    if o["source"] is not None:
        S = ref.to_frame(batoid.CoordSys(), o["cs"], np.array([o["source"]], float))[0]
        ssc = sc + float(np.abs(S).max())
        c.close(r.astype(float), np.broadcast_to(S.astype(float), r.shape), tag + ":source", atol=1e-15 * 8 * ssc)
        d = p - S
        dist = np.sqrt(np.sum(d * d, -1))
        want = d / dist[:, None] / o["n"]
        c.close(v.astype(float), want.astype(float), tag + ":direction", atol=1e-14 * (1 + ssc / float(dist.min(initial=1e9))))
        return
    want = o["dir"] / o["n"]
    c.close(v.astype(float), np.broadcast_to(want.astype(float), v.shape), tag + ":direction", atol=2e-15)
    d = o["dir"]
    off = p - r
    along = off @ d
    perp = off - along[:, None] * d
    c.close(np.sqrt(np.sum(perp ** 2, -1)).astype(float), 0, tag + ":stop-point", atol=2e-14 * sc, msg="a ray does not pass its stop point")
    o0 = lift(o, np.zeros(1), np.zeros(1))[0]
    c.close(((r - o0) @ d).astype(float), np.full(x.size, -float(o["back"])), tag + ":wavefront", atol=2e-14 * sc,
            msg="starting points are not on the plane backDist before the stop")


# ------------------------------------------------------------------ patterns
def vec(rng, a):
    """An extent as a scalar or a vector, and its documented vector."""
    if rng.random() < 0.6:
        return a, np.array([a, 0.0])
    t = rng.uniform(0, 2 * np.pi)
    w = np.array([a * np.cos(t), a * np.sin(t)])
    return (w if rng.random() < 0.7 else list(w)), w


def count(rng):
    return int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16]))


def span(n, step):
    """Length of a side from number and separation."""
    return step * (2 if n == 2 else n - 2 if n % 2 == 0 else n - 1)


def frac(n):
    k = np.arange(n) - n // 2
    return ref.ld(k) / (1 if n == 1 else 2 if n == 2 else n - 2 if n % 2 == 0 else n - 1)


def grid(c, rng, i):
    """asGrid: all ways of giving numbers, separations and lengths."""
    kw, o = setting(rng)
    nx, ny = count(rng), count(rng)
    two = rng.random() < 0.5
    mode = ["n-l", "n-d", "l-d", "optic"][rng.integers(4)]
    if mode == "optic" and o["optic"] is None:
        mode = "n-l"
    if mode in ("n-l", "n-d"):
        a, A = vec(rng, float(rng.uniform(0.1, 2.5)) / (1 if mode == "n-l" else max(nx, ny)))
        kw["nx"] = nx
        if two:
            kw["ny"] = ny
        else:
            ny = nx
        if rng.random() < 0.4:
            if rng.random() < 0.5:
                b = float(rng.uniform(0.1, 2.0)) / (1 if mode == "n-l" else max(nx, ny))
                B = np.array([0.0, b])
            else:
                b = B = rng.normal(size=2) * 0.4 / (1 if mode == "n-l" else max(nx, ny))
            kw["ly" if mode == "n-l" else "dy"] = b
        else:
            B = np.array([-A[1], A[0]])
        kw["lx" if mode == "n-l" else "dx"] = a
        if mode == "n-d":
            A, B = span(nx, A), span(ny, B)
    elif mode == "l-d":
        def pair():
            step = float(rng.uniform(0.05, 0.4))
            if rng.random() < 0.5:
                n = int(rng.integers(1, 7)) * 2
                return step, step * (n - 2) if n > 2 else step * 0.5, n
            while True:
                q = rng.uniform(0.2, 12)
                if 1e-3 < (q + 0.1) % 2 < 2 - 1e-3:
                    return step, step * q, int((q + 0.1) // 2) * 2 + 2
        step, a, nx = pair()
        kw["dx"], kw["lx"] = vec(rng, step)[0], None
        kw["lx"], A = vec(rng, a)
        ny, B = nx, np.array([-A[1], A[0]])
        if two:
            step, b, ny = pair()
            kw["dy"], kw["ly"] = step, b
            B = np.array([0.0, b])
    else:
        nx = kw["nx"] = count(rng)
        ny = nx
        a = o["optic"].pupilSize
        A, B = np.array([a, 0.0]), np.array([0.0, a])
    keep = {k: np.array(v, copy=True) for k, v in kw.items() if isinstance(v, np.ndarray)}
    rv = batoid.RayVector.asGrid(**kw)
    fx, fy = np.meshgrid(frac(nx), frac(ny))
    fx, fy = fx.ravel(), fy.ravel()
    judge(c, rv, fx * A[0] + fy * B[0], fx * A[1] + fy * B[1], o, "grid-" + mode)
    for k, w in keep.items():
        c.equal(kw[k], w, "grid:arguments-changed", k)
    if rng.random() < 0.1 and "nx" in kw and mode == "n-l":
        c.raises(ValueError, lambda: batoid.RayVector.asGrid(**{**kw, "dx": 0.1}), "grid:overdetermined")
        c.raises(ValueError, lambda: batoid.RayVector.asGrid(**{**kw, "wavelength": None}), "grid:wavelength")
        if o["optic"] is None:
            c.raises(ValueError, lambda: batoid.RayVector.asGrid(**{**kw, "nx": None, "ny": None}), "grid:underdetermined")
    c.label("grid", mode, nx, ny, type(o["stop"].surface).__name__, "source" if o["source"] is not None else "plane")
    c.sample(mode=mode, nx=nx, ny=ny, args=sorted(kw), stop=repr(o["stop"].surface)[:60], n=len(rv))


def fan(c, rng, i):
    kw, o = setting(rng)
    nx, ny = int(rng.integers(1, 12)), int(rng.integers(1, 12))
    if nx == 1 and ny == 1:
        nx = 3
    lx = float(rng.uniform(0.1, 3))
    rv = batoid.RayVector.asFan(nx=nx, ny=ny, lx=lx, **kw)
    x, y = [], []
    if nx > 1:
        x += list(frac(nx) * lx)
        y += [0.0] * nx
    if ny > 1:
        x += [0.0] * ny
        y += list(frac(ny) * lx)
    judge(c, rv, np.array(x, dtype=L), np.array(y, dtype=L), o, "fan")
    c.label("fan", nx, ny, "source" if o["source"] is not None else "plane")


def rings(outer, inner, nrad, naz, kfold):
    """(radius, azimuths) from outside in, or None when a count depends on rounding."""
    out = []
    for k in range(nrad):
        rho = outer + (inner - outer) * (L(k) / (nrad - 1) if nrad > 1 else 0)
        q = L(naz) * rho / outer / kfold
        if abs(q - np.round(q)) < 1e-9 and k:
            if not (rho == 0 or (k == nrad - 1 and inner == 0)):
                return None
        n = int(np.floor(q + 1e-9)) * kfold or kfold
        if inner == 0 and k == nrad - 1:
            n = 1
        out.append((rho, n))
    return out


def polar(c, rng, i):
    """asPolar on hexapolar (or k-fold) rings."""
    kw, o = setting(rng)
    T = o["optic"]
    while True:
        outer = float(rng.choice([1.0, 0.5, 1.75, rng.uniform(0.2, 2.0)]))
        inner = float(rng.choice([0.0, 0.0, rng.uniform(0.05, 0.95)])) * outer
        nrad, naz = int(rng.integers(2, 9)), int(rng.integers(1, 40))
        kfold = int(rng.choice([6, 6, 1, 4, 5, 8]))
        fromoptic = T is not None and rng.random() < 0.5
        if fromoptic:
            outer = T.pupilSize / 2
            inner = T.pupilSize * getattr(T, "pupilObscuration", 0.0) / 2
        if naz % kfold == 0 and outer not in (1.0, 0.5, 1.75):
            naz += 1
        if naz % kfold == 0 and kfold == 1 and outer not in (1.0, 0.5, 1.75):
            continue
        R = rings(L(outer), L(inner), nrad, naz, kfold)
        if R:
            break
    if not fromoptic:
        kw["outer"] = outer
        if inner or T is not None or rng.random() < 0.5:
            kw["inner"] = inner
    if kfold != 6 or rng.random() < 0.5:
        kw["kfold"] = kfold
    rv = batoid.RayVector.asPolar(nrad=nrad, naz=naz, **kw)
    rr = np.concatenate([np.full(n, r, dtype=L) for r, n in R])
    th = np.concatenate([2 * L(np.pi) * np.arange(n) / n for r, n in R])
    judge(c, rv, rr * np.cos(th), rr * np.sin(th), o, "polar")
    c.label("polar", nrad, kfold, inner > 0, fromoptic, "source" if o["source"] is not None else "plane")


def spokes(c, rng, i):
    """asSpokes: uniform or quadrature rings, numbers or explicit values."""
    kw, o = setting(rng)
    T = o["optic"]
    outer = float(rng.uniform(0.2, 2.0))
    if T is not None and rng.random() < 0.5:
        outer = T.pupilSize / 2
    else:
        kw["outer"] = outer
    inner = float(rng.choice([0.0, rng.uniform(0.05, 0.95)])) * outer
    if inner or rng.random() < 0.5:
        kw["inner"] = inner
    gq = rng.random() < 0.45
    nr, ns = int(rng.integers(1, 9)), int(rng.integers(1, 14))
    flux = None
    s = ns
    sp = 2 * L(np.pi) * np.arange(ns) / ns
    if rng.random() < 0.3:
        s = rng.uniform(0, 7, ns)
        sp = ref.ld(s)
    if gq:
        kw["spacing"] = "GQ"
        kw["rings"] = nr
        if rng.random() < 0.4:
            ns = 2 * nr + 1
            sp = 2 * L(np.pi) * np.arange(ns) / ns
        else:
            kw["spokes"] = s
        eps2 = L(inner) ** 2 / L(outer) ** 2
        xi, w = np.polynomial.legendre.leggauss(nr)
        rg = np.sqrt(eps2 + (1 + ref.ld(xi)) * (1 - eps2) / 2) * L(outer)
        flux = np.tile((w * np.pi * (1 - eps2) / (2 * ns)).astype(float), ns)
    else:
        kw["spokes"] = s
        if rng.random() < 0.5:
            kw["spacing"] = "uniform"
        if rng.random() < 0.3:
            rg = kw["rings"] = np.sort(rng.uniform(0, outer, nr))
        else:
            kw["rings"] = nr
            rg = L(inner) + (L(outer) - L(inner)) * (np.arange(nr) / L(nr - 1) if nr > 1 else np.zeros(1, L))
    rv = batoid.RayVector.asSpokes(**kw)
    R, S = np.meshgrid(ref.ld(rg), sp)
    R, S = R.ravel(), S.ravel()
    x, y = R * np.cos(S), R * np.sin(S)
    judge(c, rv, x, y, o, "spokes", flux)
    if gq and np.ndim(kw.get("spokes", 1)) == 0:
        # the weights integrate polynomials over the annulus of unit outer radius exactly
        e = inner / outer
        for _ in range(6):
            a, b = int(rng.integers(0, 6)), int(rng.integers(0, 6))
            if a + b >= ns or a + b > 4 * nr - 2:
                continue
            got = float(np.sum(rv.flux * (x / outer) ** a * (y / outer) ** b))
            want = (1 - e ** (a + b + 2)) / (a + b + 2) * moment(a, b)
            c.close(got, want, "spokes:quadrature", atol=1e-12, msg="x^%d y^%d over %d rings, %d spokes" % (a, b, nr, ns))
    c.label("spokes", "GQ" if gq else "uniform", nr, ns, np.ndim(s), "source" if o["source"] is not None else "plane")


def moment(a, b):
    """Integral of cos^a sin^b over the circle."""
    if a % 2 or b % 2:
        return 0.0
    from math import gamma
    return 2 * gamma((a + 1) / 2) * gamma((b + 1) / 2) / gamma((a + b + 2) / 2)


def stop(c, rng, i):
    """fromStop: arbitrary points, in every argument form."""
    kw, o = setting(rng)
    n = int(rng.integers(1, 12))
    x, y = rng.uniform(-2, 2, (2, n))
    k = rng.integers(6)
    if k == 0:
        X, Y = float(x[0]), float(y[0])
        x, y = x[:1], y[:1]
    elif k == 1:
        X, Y = list(map(float, x)), list(map(float, y))
    elif k == 2:
        X, y = x, np.full(n, y[0])
        Y = float(y[0])
    elif k == 3:
        X, Y = np.stack([x, y], 1).T
    elif k == 4:
        x, y = np.round(x), np.round(y)
        X, Y = x.astype(int), y.astype(int)
    else:
        X, Y = x, y
    if rng.random() < 0.2:
        kw["flux"] = f = rng.uniform(0, 2, len(x))
    else:
        f = None
    keep = [np.array(q, copy=True) for q in (X, Y)]
    rv = batoid.RayVector.fromStop(X, Y, **kw)
    judge(c, rv, x, y, o, "stop", f)
    c.ok(all(np.array_equal(p, q) for p, q in zip(keep, (X, Y))), "stop:arguments-changed")
    c.label("stop", int(k), n, type(o["stop"].surface).__name__, "source" if o["source"] is not None else "plane")


def fields(c, rng, i):
    """fromFieldAngles: one stop point, many directions."""
    kw, o = setting(rng, coord=False)
    p = kw.get("projection", "postel")
    for k in ("source", "dirCos", "theta_x", "theta_y"):
        kw.pop(k, None)
    n = int(rng.integers(1, 12))
    lim = 0.65
    tx, ty = rng.uniform(-lim, lim, (2, n)) * rng.choice([1.0, 1e-2])
    a = (tx, ty)
    if rng.random() < 0.2:
        a = (float(tx[0]), float(ty[0]))
        tx, ty = tx[:1], ty[:1]
    xy = {}
    x = y = 0.0
    if rng.random() < 0.7:
        x, y = map(float, rng.uniform(-2, 2, 2))
        xy = dict(x=x, y=y)
    keep = [np.array(q, copy=True) for q in a]
    rv = batoid.RayVector.fromFieldAngles(*a, **xy, **kw)
    c.ok(all(np.array_equal(u, w) for u, w in zip(keep, a)), "fields:arguments-changed")
    n = len(tx)
    st = o["stop"]
    c.ok(len(rv) == n, "fields:count")
    c.ok(rv.coordSys == st.coordSys, "fields:frame")
    d = np.array(ref.to_dircos(tx, ty, p)).T
    c.close(rv.v, (d / o["n"]).astype(float), "fields:direction", atol=2e-15)
    P = np.array([x, y, ref.sag(st.surface, L(x), L(y))])
    sc = 1 + np.abs(P).max() + abs(o["back"])
    c.close(rv.r, (P - d * o["back"]).astype(float), "fields:start", atol=4e-15 * float(sc))
    c.close(rv.t, np.full(n, float(-o["back"] * o["n"])), "fields:time", atol=4e-15 * float(sc))
    c.close(rv.positionAtTime(0.0), np.broadcast_to(P.astype(float), (n, 3)), "fields:stop-point", atol=1e-14 * float(sc))
    c.equal(rv.wavelength, np.full(n, o["wl"]), "fields:wavelength")
    c.close(rv.flux, np.full(n, o["flux"]), "fields:flux")
    c.ok(not rv.failed.any() and not rv.vignetted.any(), "fields:flags")
    c.label("fields", p, n, type(st.surface).__name__)


def ks(u):
    """Kolmogorov distance from uniform on [0, 1], scaled by sqrt(n)."""
    u = np.sort(u)
    n = len(u)
    k = np.arange(n)
    return np.sqrt(n) * max(np.max(u - k / n), np.max((k + 1) / n - u))


def random(c, rng, i):
    """Random sampling: bounds, uniformity, reproducibility, and the same optics as regular patterns."""
    kw, o = setting(rng, plane=True)
    n = int(rng.choice([1, 7, 1500]))
    seed = int(rng.integers(2 ** 31))
    how = rng.integers(2)
    if how:
        outer = float(rng.uniform(0.2, 2))
        inner = float(rng.choice([0.0, rng.uniform(0.1, 0.95)])) * outer
        f = lambda r: batoid.RayVector.asPolar(outer=outer, inner=inner, nrandom=n, rng=r, **kw)
    else:
        A = rng.normal(size=2)
        B = rng.normal(size=2)
        if abs(A[0] * B[1] - A[1] * B[0]) < 0.2:
            B = np.array([-A[1], A[0]])
        f = lambda r: batoid.RayVector.asGrid(lx=A, ly=B, nx=1, nrandom=n, rng=r, **kw)
    rv = f(np.random.default_rng(seed))
    # where each ray meets the plane of the stop
    R, V = ref.to_frame(o["cs"], o["stop"].coordSys, rv.r, rv.v)
    if abs(float(V[0, 2])) * float(o["n"]) < 0.05:
        c.ok(len(rv) == n, "random:count")
        return
    s = -R[:, 2] / V[:, 2]
    x, y = R[:, 0] + s * V[:, 0], R[:, 1] + s * V[:, 1]
    judge(c, rv, x, y, o, "random")
    c.ok(len(rv) == n, "random:count")
    tol = 1e-9
    if o["source"] is not None:
        tol *= 1e4
    if how:
        r2 = ((x * x + y * y).astype(float) - inner ** 2) / (outer ** 2 - inner ** 2)
        c.ok(np.all(r2 > -tol * 100) and np.all(r2 < 1 + tol * 100), "random:bounds", "annulus %g..%g: %g..%g" % (inner, outer, r2.min(), r2.max()))
        u, w = r2, (np.arctan2(y, x).astype(float) / (2 * np.pi)) % 1
    else:
        det = A[0] * B[1] - A[1] * B[0]
        u = ((x * B[1] - y * B[0]) / det).astype(float) + 0.5
        w = ((A[0] * y - A[1] * x) / det).astype(float) + 0.5
        for q in (u, w):
            c.ok(np.all(q > -tol * 100) and np.all(q < 1 + tol * 100), "random:bounds", "%g..%g" % (q.min(), q.max()))
    if n == 1500:
        for q in (u, w, (u + w) % 1, (u - w) % 1):
            c.ok(ks(q) < 3.5, "random:uniform", lambda: "Kolmogorov distance * sqrt(n) = %g" % ks(q))
        # two samples of one law: as close as this only when one is made of the other
        both = np.searchsorted(np.sort(u), np.sort(np.concatenate([u, w]))) - np.searchsorted(np.sort(w), np.sort(np.concatenate([u, w])))
        c.ok(np.abs(both).max() / np.sqrt(2 * n) > 0.2, "random:independent", "one coordinate is a permutation of the other")
    c.ok(f(np.random.default_rng(seed)) == rv, "random:reproducible", "the same generator gives other rays")
    if rng.random() < 0.5:
        c.ok(f(seed) == f(seed), "random:seed", "the same integer seed gives other rays")
        c.ok(f(seed) == rv, "random:seed", "an integer seed is not the seed of the generator")
    g = np.random.default_rng(seed)
    a, b = f(g), f(g)
    c.ok(a == rv and not (b == rv), "random:advance", "a generator is not advanced by the rays drawn from it")
    if n > 1:
        c.ok(not (f(None) == f(None)), "random:fresh", "without a generator the rays are always the same")
        c.ok(not (f(seed + 1) == rv), "random:seeds-differ")
    c.label("random", "polar" if how else "grid", n, "source" if o["source"] is not None else "plane")


CASES = [
    ("grid", grid, 1200, 40000),
    ("fan", fan, 200, 5000),
    ("polar", polar, 600, 20000),
    ("spokes", spokes, 700, 20000),
    ("stop", stop, 600, 20000),
    ("fields", fields, 500, 15000),
    ("random", random, 300, 8000),
]
