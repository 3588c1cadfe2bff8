"""Seeded generators of hostile-but-documented inputs: surfaces, frames, rays, media, systems."""
import numpy as np
import batoid

D = batoid.datadir


def rot(rng, kind=None):
    """A random proper rotation: identity, tiny, about an axis, or anything."""
    kind = kind or rng.choice(["id", "small", "axis", "any", "any"])
    if kind == "id":
        return np.eye(3)
    if kind == "small":
        a = rng.normal(size=3) * 10.0 ** rng.uniform(-12, -1)
        return batoid.RotX(a[0]) @ batoid.RotY(a[1]) @ batoid.RotZ(a[2])
    if kind == "axis":
        f = [batoid.RotX, batoid.RotY, batoid.RotZ][rng.integers(3)]
        return f(rng.choice([np.pi / 2, np.pi, -np.pi / 2, rng.uniform(-np.pi, np.pi)]))
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    if np.linalg.det(q) < 0:
        q[:, 0] *= -1
    return q


def csys(rng, scale=2.0, kind=None):
    if kind is None and rng.random() < 0.15:
        return batoid.CoordSys()
    o = rng.normal(size=3) * scale * rng.choice([0, 1, 1])
    if rng.random() < 0.12:         # round numbers
        o = np.round(o * 2) / 2
    return batoid.CoordSys(o, rot(rng, kind))


NICE = [0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0, 5.0, 8.0, 10.0, 16.0, 20.0, 100.0]


def nice(rng, lo, hi, p=0.12):
    """Now and then a round number between lo and hi (1.0 most of all), else None."""
    if rng.random() > p:
        return None
    v = [q for q in NICE if lo <= q <= hi]
    if not v:
        return None
    return 1.0 if 1.0 in v and rng.random() < 0.5 else float(v[rng.integers(len(v))])


def count(rng, lo, hi, many, p=0.06):
    """How many of something: lo..hi-1, now and then hi..many-1."""
    return int(rng.integers(hi, many)) if many > hi and rng.random() < p else int(rng.integers(lo, hi))


SURFS = ["Plane", "Tilted", "Paraboloid", "Sphere", "Quadric", "Asphere", "Zernike", "Bicubic", "Sum"]
CONICS = ["Paraboloid", "Sphere", "Quadric"]


def surf(rng, kind=None, size=1.0, mild=False, depth=0):
    """A surface usable over a disc of radius `size` (semi-diameter)."""
    kind = kind or SURFS[rng.integers(len(SURFS))]
    lo = 2.5 if mild else 1.3
    R = rng.choice([-1, 1]) * (nice(rng, size * lo, size * 20) or size * 10 ** rng.uniform(np.log10(lo), 1.3))
    if kind == "Plane":
        return batoid.Plane()
    if kind == "Tilted":
        tx, ty = rng.normal(size=2) * (0.05 if mild else 0.4)
        if rng.random() < 0.15:
            tx, ty = [(0.0, ty), (tx, 0.0), (0.0, 0.0), (tx, tx)][rng.integers(4)]
        return batoid.Tilted(tx, ty)
    if kind == "Paraboloid":
        return batoid.Paraboloid(R)
    if kind == "Sphere":
        return batoid.Sphere(R)
    if kind in ("Quadric", "Asphere"):
        k = rng.choice([0.0, -1.0, rng.uniform(-1, 0), rng.uniform(-4, -1), rng.uniform(0, 0.5)])
        k = float(k)
        if 1 + k > 0 and not mild:
            R = np.sign(R) * max(abs(R), 1.2 * size * np.sqrt(1 + k))
        if kind == "Quadric":
            return batoid.Quadric(R, k)
        n = count(rng, 1, 5, 12)
        imin = int(rng.choice([1, 2, 2, 3]))
        a = 0.003 if mild else 0.03
        co = [float(rng.normal() * a * size / size ** (2 * (i + imin))) for i in range(n)]
        return batoid.Asphere(R, k, co, imin) if imin != 2 else batoid.Asphere(R, k, co)
    if kind == "Zernike":
        a = size * (0.001 if mild else 0.01)
        n = count(rng, 2, 29, 46)
        co = rng.normal(size=n) * a / np.arange(1, n + 1)
        Ro = nice(rng, size * 0.9, size * 1.5, 0.3) or size * rng.uniform(0.9, 1.5)
        Ri = Ro * rng.choice([0.0, rng.uniform(0.05, 0.7 if n < 29 else 0.15)])     # high annular orders are ill-conditioned
        if rng.random() < 0.4:
            return batoid.Zernike(co, Ro, Ri, *(rng.normal(size=2) * 0.1 * size))
        return batoid.Zernike(co, Ro, Ri)
    if kind == "Bicubic":
        return bicubic(rng, size, 0.001 if mild else 0.01)
    if kind == "Sum":
        first = surf(rng, rng.choice(["Plane", "Paraboloid", "Sphere", "Quadric", "Asphere"]), size, mild, depth + 1)
        rest = []
        for _ in range(count(rng, 1, 4, 9) if depth == 0 else int(rng.integers(1, 4))):
            kk = rng.choice(["Zernike", "Bicubic", "Asphere", "Paraboloid", "Sum", "Tilted"] if depth < 2 else ["Zernike"])
            rest.append(surf(rng, str(kk), size, True, depth + 1))
        return batoid.Sum([first] + rest)
    raise ValueError(kind)


def bicubic(rng, size=1.0, amp=0.01, nx=None, ny=None, deriv=None, policy=None):
    nx = nx or count(rng, 4, 24, 90)
    ny = ny or count(rng, 4, 24, 90)
    cx, cy = rng.normal(size=2) * 0.1 * size
    xs = cx + np.linspace(-1, 1, nx) * size * rng.uniform(1.2, 1.8)
    ys = cy + np.linspace(-1, 1, ny) * size * rng.uniform(1.2, 1.8)
    k = rng.normal(size=(4, 2)) / size
    ph = rng.uniform(0, 2 * np.pi, 4)
    w = rng.normal(size=4) * amp * size / 2
    X, Y = np.meshgrid(xs, ys)
    arg = [k[j, 0] * X + k[j, 1] * Y + ph[j] for j in range(4)]
    zs = sum(w[j] * np.sin(arg[j]) for j in range(4))
    deriv = rng.random() < 0.5 if deriv is None else deriv
    kw = {}
    if policy:
        kw["nanpolicy"] = policy
    elif rng.random() < 0.3:
        kw["nanpolicy"] = str(rng.choice(["zero", "nan", "NaN", "Zero", "NAN"]))
    if deriv:
        kw["dzdxs"] = sum(w[j] * k[j, 0] * np.cos(arg[j]) for j in range(4))
        kw["dzdys"] = sum(w[j] * k[j, 1] * np.cos(arg[j]) for j in range(4))
        kw["d2zdxdys"] = sum(-w[j] * k[j, 0] * k[j, 1] * np.sin(arg[j]) for j in range(4))
    return batoid.Bicubic(xs, ys, zs, **kw)


def medium(rng, kind=None):
    kind = kind or rng.choice(["Const", "Const", "Table", "Sellmeier", "Sumita", "Air"])
    if kind == "Const":
        return batoid.ConstMedium(float(rng.uniform(1, 2.2)))
    if kind == "Table":
        n = count(rng, 2, 30, 300)
        w = np.sort(rng.uniform(250e-9, 1300e-9, n))
        w[0], w[-1] = 250e-9, 1300e-9
        w = np.unique(w)
        ns = rng.uniform(1.3, 1.8) + rng.normal(size=len(w)) * 0.05
        return batoid.TableMedium(w, ns)
    if kind == "Sellmeier":
        co = np.array([0.6961663, 0.4079426, 0.8974794, 0.00467914825849, 0.013512063073959999,
                       97.93400253792099]) * rng.uniform(0.9, 1.1, 6)
        return batoid.SellmeierMedium(co) if rng.random() < 0.5 else batoid.SellmeierMedium(*co)
    if kind == "Sumita":
        co = np.array([2.25, -0.0091, 0.0108, 2e-4, -5e-6, 2e-7]) * rng.uniform(0.9, 1.1, 6)
        return batoid.SumitaMedium(co) if rng.random() < 0.5 else batoid.SumitaMedium(*co)
    if kind == "Air":
        return batoid.Air(pressure=rng.uniform(40, 101), temperature=rng.uniform(250, 320),
                          h2o_pressure=rng.uniform(0, 2))
    raise ValueError(kind)


def coating(rng):
    r = rng.uniform(0, 1)
    return batoid.SimpleCoating(float(r), float((1 - r) * rng.uniform(0.5, 1)))


def rays_at(rng, s, n, size=1.0, cs=None, side=None, spread=0.25, medium=None, dist=None, n_index=None,
            flags=True, wl=None):
    """n rays aimed at points of the disc of radius ~size of a surface in frame cs, expressed in the
    surface's own frame; half of the bundles come from below."""
    side = side if side is not None else rng.choice([-1, 1])
    th = rng.uniform(0, 2 * np.pi, n)
    r = size * np.sqrt(rng.random(n)) * 0.98
    if rng.random() < 0.2:                               # some hardly off the axis
        r = np.where(rng.random(n) < 0.3, r * 10.0 ** rng.uniform(-12, 0, n), r)
    px, py = r * np.cos(th), r * np.sin(th)
    if rng.random() < 0.1:                               # some exactly on an axis, a diagonal or the vertex
        q = rng.integers(0, 6, n)
        px = np.where(q == 2, px * 0.7, px)
        py = np.where(q == 2, px, py)
        px, py = np.where(q == 0, 0.0, px), np.where(q == 1, 0.0, py)
        px, py = np.where(q == 3, 0.0, px), np.where(q == 3, 0.0, py)
    pz = np.asarray(s.sag(px, py)) if s is not None else np.zeros(n)
    pz = np.where(np.isfinite(pz), pz, 0.0)
    d = np.stack([rng.normal(size=n) * spread, rng.normal(size=n) * spread, -side * np.ones(n)], axis=1)
    if rng.random() < 0.3:
        d[:, :2] = 0.0
        if rng.random() < 0.5:
            d[:, 0] = rng.normal() * spread
    elif s is not None and spread and rng.random() < 0.2:      # along the normals, or hardly off them
        q = np.asarray(s.normal(px, py)) * -side
        g = np.isfinite(q).all(axis=1)
        d[g] = q[g] + rng.normal(size=(n, 3))[g] * 10.0 ** rng.uniform(-10, -3)
    d /= np.linalg.norm(d, axis=1)[:, None]
    if dist is None:
        dist = size * rng.uniform(0.1, 3.0, n) * rng.choice([1, 1, 1, 0, -1], n)
    wl = rng.uniform(300e-9, 1100e-9, n) if wl is None else np.full(n, wl)
    if n_index is None:
        n_index = 1.0 if medium is None else np.array([medium.getN(w) for w in wl])
    v = d / np.reshape(n_index, (-1, 1))
    p = np.stack([px, py, pz], axis=1) - d * np.reshape(dist, (-1, 1))
    if s is not None and spread and rng.random() < 0.12:       # starting exactly on a plane special to the surface
        R = getattr(s, "R", None)
        zs = float(rng.choice([0.0] if R is None or not abs(R) < 100 * size else [0.0, R, 2 * R, R / 2]))
        up = rng.random(n) < 0.5
        g = up & (np.abs(d[:, 2]) > 0.3)
        k = (zs - p[g, 2]) / d[g, 2]
        p[g] += d[g] * k[:, None]
        p[g, 2] = zs
    t = rng.normal(size=n) * 10
    fl = fluxes(rng, n)
    kw = {}
    if flags:
        failed = rng.random(n) < 0.06
        kw = dict(vignetted=(rng.random(n) < 0.15) | failed, failed=failed)
    return batoid.RayVector(p[:, 0], p[:, 1], p[:, 2], v[:, 0], v[:, 1], v[:, 2], t, wl, fl,
                            coordSys=cs if cs is not None else batoid.CoordSys(), **kw)


def fluxes(rng, n):
    """Any fluxes, sometimes with rays that carry nothing or hardly anything (a lot would be split for ever)."""
    f = rng.uniform(0, 2, n)
    u = rng.random()
    if u < 0.25:
        f = np.where(rng.random(n) < 0.3, [0.0, 0.0, 1e-300, 1.0][rng.integers(4)], f)
    elif u < 0.28:
        f[:] = 0.0
    return f


def express(rv, cs):
    """The same rays expressed in another frame, by definition (numpy, not the code under test)."""
    R1, o1 = rv.coordSys.rot, rv.coordSys.origin
    r = rv.r @ R1.T + o1
    v = rv.v @ R1.T
    r = (r - cs.origin) @ cs.rot
    v = v @ cs.rot
    return batoid.RayVector(r[:, 0].copy(), r[:, 1].copy(), r[:, 2].copy(), v[:, 0].copy(), v[:, 1].copy(),
                            v[:, 2].copy(), rv.t.copy(), rv.wavelength.copy(), rv.flux.copy(),
                            rv.vignetted.copy(), rv.failed.copy(), coordSys=cs)


def build(r, v, t, wl, fl, vig=None, fail=None, cs=None):
    r, v = np.asarray(r, float), np.asarray(v, float)
    n = len(r)
    return batoid.RayVector(r[:, 0].copy(), r[:, 1].copy(), r[:, 2].copy(), v[:, 0].copy(), v[:, 1].copy(),
                            v[:, 2].copy(), np.array(t, float), np.array(wl, float), np.array(fl, float),
                            np.zeros(n, bool) if vig is None else np.array(vig, bool),
                            np.zeros(n, bool) if fail is None else np.array(fail, bool),
                            coordSys=cs if cs is not None else batoid.CoordSys())


def shifted(rng, o, size):
    dx, dy = rng.normal(size=2) * size * 0.7
    if isinstance(o, batoid.ObscCircle):
        return batoid.ObscCircle(o.radius, o.x + dx, o.y + dy)
    if isinstance(o, batoid.ObscRectangle):
        return batoid.ObscRectangle(o.width, o.height, o.x + dx, o.y + dy, o.theta)
    return batoid.ObscPolygon(np.asarray(o.xs) + dx, np.asarray(o.ys) + dy)


def obsc(rng, size=1.0, depth=0, kind=None):
    kinds = ["ObscCircle", "ObscAnnulus", "ObscRectangle", "ObscRay", "ObscPolygon"]
    if depth < 3:
        kinds += ["ObscNegation", "ObscUnion", "ObscIntersection"]
    kind = kind or kinds[rng.integers(len(kinds))]
    x, y = rng.normal(size=2) * size * rng.choice([0, 0.4])
    th = float(rng.choice([0.0, np.pi / 2, np.pi, rng.uniform(-7, 7)]))
    if kind == "ObscCircle":
        return batoid.ObscCircle(size * rng.uniform(0.1, 1.0), x, y)
    if kind == "ObscAnnulus":
        a, b = np.sort(rng.uniform(0.0, 1.2, 2)) * size
        return batoid.ObscAnnulus(a, b, x, y)
    if kind == "ObscRectangle":
        return batoid.ObscRectangle(*(rng.uniform(0.1, 1.8, 2) * size), x, y, th)
    if kind == "ObscRay":
        return batoid.ObscRay(size * rng.uniform(0.02, 0.6), th, x, y)
    if kind == "ObscPolygon":
        n = count(rng, 3, 9, 150)
        mode = rng.integers(4)
        if mode == 0:      # star-shaped
            a = np.sort(rng.uniform(0, 2 * np.pi, n))
            r = rng.uniform(0.2, 1.2, n) * size
            px, py = x + r * np.cos(a), y + r * np.sin(a)
        elif mode == 1:    # arbitrary, self-intersecting
            px, py = rng.normal(size=(2, n)) * size * 0.6
        elif mode == 2:    # axis aligned staircase on lattice values
            px = np.array([-1, 1, 1, 0, 0, -1]) * size * 0.5 + x
            py = np.array([-1, -1, 0, 0, 1, 1]) * size * 0.5 + y
        else:
            px = np.array([-1, 1, 1, -1]) * size * 0.5
            py = np.array([-1, -1, 1, 1]) * size * 0.5
        if rng.random() < 0.5:
            px, py = px[::-1], py[::-1]
        if rng.random() < 0.3:    # explicitly closed
            px, py = np.append(px, px[0]), np.append(py, py[0])
        return batoid.ObscPolygon(list(px) if rng.random() < 0.5 else px, list(py) if rng.random() < 0.5 else py)
    if kind == "ObscNegation":
        return batoid.ObscNegation(obsc(rng, size, depth + 1))
    if depth == 0 and rng.random() < 0.1:       # many small ones: holes in a mask, or spots
        one = ["ObscCircle", "ObscRectangle", "ObscPolygon"]
        items = [obsc(rng, size * 0.3, 3, one[rng.integers(3)]) for _ in range(int(rng.integers(4, 30)))]
        items = [shifted(rng, q, size) for q in items]
        if kind == "ObscIntersection":
            items = [batoid.ObscNegation(q) for q in items]
    else:
        items = [obsc(rng, size, depth + 1) for _ in range(int(rng.integers(1, 4)))]
    return (batoid.ObscUnion if kind == "ObscUnion" else batoid.ObscIntersection)(items)


# ------------------------------------------------------------------ systems
SCOPES = ["LSST_r.yaml", "HSC.yaml", "DECam.yaml", "DESI.yaml", "AuxTel.yaml", "SDSS.yaml", "ComCam_r.yaml",
          "LSST_g.yaml", "LSST_i.yaml", "LSST_r_baffles.yaml", "LSST_r_align_holes.yaml", "HSC_old.yaml",
          "Rubin_v3.12_r.yaml", "Rubin_v3.14_i.yaml", "PFS.yaml", "HSC_no_obsc.yaml", "LSST_r_noobsc.yaml"]
FIELD = {"LSST": 0.028, "Rubin": 0.028, "HSC": 0.012, "DECam": 0.017, "DESI": 0.025, "AuxTel": 0.001,
         "SDSS": 0.015, "ComCam": 0.006, "PFS": 0.05}
_cache = {}


def scope(name):
    """A fresh object each time is not needed by readers: load once per worker."""
    if name not in _cache:
        _cache[name] = batoid.Optic.fromYaml(name)
    return _cache[name]


def pick_scope(rng, names=None):
    names = names or SCOPES
    nm = str(names[rng.integers(len(names))])
    return nm, scope(nm)


def field(rng, name, frac=0.9):
    f = [v for k, v in FIELD.items() if name.startswith(k)][0]
    th = rng.uniform(0, 2 * np.pi)
    r = f * np.sqrt(rng.random()) * frac
    return r * np.cos(th), r * np.sin(th)


def scope_wl(rng, name):
    if "_u" in name:
        return rng.uniform(330e-9, 400e-9)
    return rng.uniform(550e-9, 690e-9)


def beam(rng, name, tel, n=60, wl=None, **kw):
    """Random rays over (slightly more than) the pupil at a random field point."""
    thx, thy = field(rng, name)
    wl = wl or scope_wl(rng, name)
    return batoid.RayVector.asPolar(optic=tel, nrandom=n, theta_x=thx, theta_y=thy, wavelength=wl,
                                    rng=np.random.default_rng(int(rng.integers(2 ** 31))), inner=0.0,
                                    outer=tel.pupilSize / 2 * 1.02, **kw)


def interfaces(optic):
    """Leaves in order, as traced."""
    if isinstance(optic, batoid.optic.Interface):
        return [optic]
    out = []
    for it in optic.items:
        out += interfaces(it)
    return out


def system(rng, mirrors=True, obscured=True, split=False, media=True, screens=False, depthmax=2, nelem=None,
           prefix=""):
    """A random folded system that light travelling towards -z (in its own frame) gets through:
    elements listed along a random chain of positions; mirrors flip the direction.

    Returns CompoundOptic with nested compounds/lenses and unique names."""
    n = nelem or count(rng, 2, 6, 6 if split else 13)
    z, d = 0.0, -1.0
    items = []
    med = batoid.ConstMedium(1.0)
    size = 1.0
    names = iter(prefix + s for s in rng.permutation(
        ["M1", "M10", "M", "L1", "L11", "L", "A", "AB", "B", "Filter", "F", "Cam", "C", "D2", "S1", "S12"]))

    def cs_at(z):
        small = rng.normal(size=2) * 0.01
        return batoid.CoordSys(np.array([rng.normal() * 0.01, rng.normal() * 0.01, z]),
                               batoid.RotX(small[0]) @ batoid.RotY(small[1]))

    def ob():
        if not obscured or rng.random() < 0.3:
            return None
        k = rng.integers(3)
        if k == 0:
            return batoid.ObscNegation(batoid.ObscCircle(size * rng.uniform(0.6, 1.2)))
        if k == 1:
            return batoid.ObscNegation(batoid.ObscAnnulus(rng.uniform(0.05, 0.3) * size, rng.uniform(0.7, 1.2) * size))
        return batoid.ObscUnion([batoid.ObscNegation(batoid.ObscCircle(1.2 * size)),
                                 batoid.ObscRectangle(0.2 * size, 0.3 * size, 0.1, -0.2, 0.4)])

    def sf():
        return surf(rng, str(rng.choice(["Plane", "Paraboloid", "Sphere", "Quadric", "Asphere", "Sum"])), size * 3, True)

    for k in range(n):
        z += d * rng.uniform(0.3, 1.0)
        u = rng.random()
        if mirrors and u < 0.3:
            items.append(batoid.Mirror(sf(), name=next(names), coordSys=cs_at(z), obscuration=ob(),
                                       inMedium=med, outMedium=med))
            d = -d
        elif u < 0.6:
            m2 = medium(rng) if media else batoid.ConstMedium(1.5)
            nm = next(names)
            z2 = z + d * rng.uniform(0.1, 0.3)
            a = batoid.RefractiveInterface(sf(), name=nm + "_entrance", coordSys=cs_at(z), obscuration=ob(),
                                           inMedium=med, outMedium=m2)
            b = batoid.RefractiveInterface(sf(), name=nm + "_exit", coordSys=cs_at(z2), obscuration=ob(),
                                           inMedium=m2, outMedium=med)
            z = z2
            if split:
                for q in (a, b):
                    q.forwardCoating = coating(rng)
                    q.reverseCoating = coating(rng)
            items.append(batoid.Lens([a, b], name=nm, coordSys=cs_at(z), inMedium=med, outMedium=med))
        elif u < 0.75:
            items.append(batoid.Baffle(batoid.Plane(), name=next(names), coordSys=cs_at(z), obscuration=ob()))
        elif screens and u < 0.88:
            items.append(batoid.OPDScreen(batoid.Plane(), batoid.Zernike(rng.normal(size=12) * 1e-6, R_outer=2.0),
                                          name=next(names), coordSys=cs_at(z), obscuration=ob(),
                                          inMedium=med, outMedium=med))
        else:
            nm = next(names)
            q = batoid.RefractiveInterface(sf(), name=nm, coordSys=cs_at(z), obscuration=ob(),
                                           inMedium=med, outMedium=med)
            if split:
                q.forwardCoating, q.reverseCoating = coating(rng), coating(rng)
            items.append(q)
    z += d * 0.5
    items.append(batoid.Detector(batoid.Plane(), name=prefix + "Det", coordSys=cs_at(z), inMedium=med, outMedium=med))
    # nest a random run of consecutive items, up to depthmax times
    for lev in range(int(rng.integers(0, depthmax + 1))):
        if len(items) < 3:
            break
        a = int(rng.integers(0, len(items) - 1))
        b = int(rng.integers(a + 1, len(items) + 1))
        if b - a < 1 or b - a == len(items):
            continue
        items[a:b] = [batoid.CompoundOptic(items[a:b], name=next(names), coordSys=cs_at(0.0))]
    stop = batoid.optic.Interface(batoid.Plane(), name=prefix + "stop", coordSys=batoid.CoordSys(np.array([0, 0, 0.2])))
    return batoid.CompoundOptic(items, name=prefix + "Sys", stopSurface=stop, backDist=3.0, pupilSize=1.6,
                                pupilObscuration=0.1, sphereRadius=5.0)


def system_beam(rng, sysm, n=50, wl=None):
    """Rays entering a random system from above, in global coordinates."""
    s = None
    rv = rays_at(rng, s, n, 0.8, dist=np.full(n, 1.5) + rng.random(n), side=1, spread=0.02,
                 flags=False, wl=wl)
    return rv


def moved(optic, Q, d):
    """A copy of a system with every frame moved by the rigid motion p -> Q p + d (by definition)."""
    import copy
    m = copy.deepcopy(optic)

    def walk(o):
        o.coordSys = batoid.CoordSys(Q @ o.coordSys.origin + d, Q @ o.coordSys.rot)
        for it in getattr(o, "items", ()):
            walk(it)
    walk(m)
    st = getattr(m, "stopSurface", None)
    if st is not None:
        if not any(st is it for it in interfaces(m)):
            st.coordSys = batoid.CoordSys(Q @ st.coordSys.origin + d, Q @ st.coordSys.rot)
    return m


def move_rays(rv, Q, d, cs=None):
    """The same motion applied to rays; the result is expressed in cs (global by default)."""
    R1, o1 = rv.coordSys.rot, rv.coordSys.origin
    r = (rv.r @ R1.T + o1) @ Q.T + d
    v = rv.v @ R1.T @ Q.T
    g = build(r, v, rv.t, rv.wavelength, rv.flux, rv.vignetted, rv.failed)
    return g if cs is None else express(g, cs)
