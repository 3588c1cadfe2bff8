"""C04: height and normal of every surface type against the documented equation (long double)."""
import numpy as np
import batoid
from . import gen, mon, ref

L = np.longdouble


def amp(s, x, y):
    """Magnitude of the terms summed when evaluating s at (x, y): sets the rounding tolerance."""
    t = type(s).__name__
    r2 = x * x + y * y
    if t == "Sum":
        return sum(amp(q, x, y) for q in s.surfaces)
    if t == "Tilted":
        return np.abs(x * s.tanx) + np.abs(y * s.tany)
    if t == "Zernike":
        rho = np.hypot(x - s.x_origin, y - s.y_origin) / s.R_outer
        n = 1 + int(np.sqrt(2 * len(s.coef)))
        eps = s.R_inner / s.R_outer
        return np.sum(np.abs(s.coef)) * 8 * n * ((2.5 * (1 + rho)) ** n) / (1 - eps) ** n
    if t == "Bicubic":
        return np.full(np.shape(x), np.abs(s.zs).max() * 20)
    base = rmax1(s) + np.abs(r2 / rmax1(s))
    if t == "Asphere":
        base = base + sum(np.abs(c) * r2 ** (i + s.imin) for i, c in enumerate(s.coefs))
    return base


def rmax1(s):
    return abs(getattr(s, "R", 1.0))


def curv(s, x, y):
    """Tolerance for slopes."""
    t = type(s).__name__
    if t == "Sum":
        return sum(curv(q, x, y) for q in s.surfaces)
    if t == "Zernike":
        n = 1 + int(np.sqrt(2 * len(s.coef)))
        return amp(s, x, y) / s.R_outer * n * 300
    if t == "Bicubic":
        return amp(s, x, y) / min(np.min(np.abs(np.diff(s.xs))), np.min(np.abs(np.diff(s.ys)))) * 10
    if t == "Asphere":
        r = np.hypot(x, y)
        return np.ones(np.shape(x)) + sum(np.abs(c) * 2 * (i + s.imin) * r ** (2 * (i + s.imin) - 1) for i, c in enumerate(s.coefs))
    return np.ones(np.shape(x))


def steep(s, x, y):
    """1 + the squared slope of the conics inside (which may cancel against the rest)."""
    t = type(s).__name__
    if t == "Sum":
        return sum(steep(q, x, y) for q in s.surfaces)
    gx, gy = ref.grad(type("Quadric", (), dict(R=s.R, conic=s.conic))() if t == "Asphere" else s, x, y)
    return 1 + (gx ** 2 + gy ** 2).astype(float)


def domain(s):
    """(limit radius, None) for conics, box for bicubic, None when unbounded."""
    t = type(s).__name__
    if t == "Sum":
        lims = [domain(q) for q in s.surfaces]
        lims = [q for q in lims if q is not None]
        return min(lims) if lims else None
    if t == "Sphere":
        return abs(s.R)
    if t in ("Quadric", "Asphere") and 1 + s.conic > 0:
        return abs(s.R) / np.sqrt(1 + s.conic)
    return None


def points(rng, s, size, n):
    th = rng.uniform(0, 2 * np.pi, n)
    lim = domain(s)
    top = size * 1.2 if lim is None else lim
    r = top * rng.choice([rng.uniform(0, 0.3, n), rng.uniform(0.3, 0.999, n), np.zeros(n)],
                         p=None)[:n] if rng.random() < 0.3 else top * np.sqrt(rng.random(n)) * 0.9999
    if lim is None and rng.random() < 0.2:
        r = r * 3
    near = rng.random(n) < 0.15                       # hardly off the axis
    r = np.where(near, top * 10.0 ** rng.uniform(-14, 0, n) * 0.9, r)
    x, y = r * np.cos(th), r * np.sin(th)
    k = rng.integers(0, n, 3)
    x[k[0]] = y[k[0]] = 0.0
    x[k[1]] = 0.0
    y[k[2]] = 0.0
    return x, y


def surface(rng, i, size):
    kind = gen.SURFS[i % len(gen.SURFS)]
    if kind == "Sum" and rng.random() < 0.2:
        return batoid.Plane() + gen.surf(rng, "Zernike", size)
    return gen.surf(rng, kind, size)


def inside(s, x, y):
    """1 clearly inside the domain, 0 clearly outside, -1 too near the edge to say."""
    t = type(s).__name__
    if t == "Sum":
        parts = [inside(q, x, y) for q in s.surfaces]
        out = np.minimum.reduce([np.where(p == -1, 0.5, p) for p in parts])
        return np.where(out == 0.5, -1, out)
    lim = domain(s)
    if lim is not None:
        q = np.hypot(x, y) / lim
        return np.where(q < 1 - 1e-7, 1, np.where(q > 1 + 1e-7, 0, -1))
    if t == "Bicubic":
        if s.nanpolicy.upper() != "NAN":
            m = 1e-9 * (abs(s.xs[-1]) + abs(s.ys[-1]))
            far = (np.abs(x - s.xs[0]) > m) & (np.abs(x - s.xs[-1]) > m) & (np.abs(y - s.ys[0]) > m) & (np.abs(y - s.ys[-1]) > m)
            return np.where(far, 1, -1)
        d = np.minimum(np.minimum(x - min(s.xs[0], s.xs[-1]), max(s.xs[0], s.xs[-1]) - x) / abs(s.xs[-1] - s.xs[0]),
                       np.minimum(y - min(s.ys[0], s.ys[-1]), max(s.ys[0], s.ys[-1]) - y) / abs(s.ys[-1] - s.ys[0]))
        return np.where(d > 1e-9, 1, np.where(d < -1e-9, 0, -1))
    return np.ones(np.shape(x))


def judge_sag(c, s, x, y, got, tag):
    x, y = np.broadcast_arrays(x, y)
    got = np.asarray(got)
    c.ok(got.shape == x.shape, tag + ":shape", "shape %s for inputs %s" % (got.shape, x.shape))
    want = ref.sag(s, x, y)
    dom = inside(s, x, y)
    i, o = dom == 1, dom == 0
    if np.any(i):
        gx, gy = ref.grad(s, x[i], y[i])
        slope = np.hypot(gx, gy).astype(float)
        slope = np.where(np.isfinite(slope), slope, 1e8)
        tol = 3e-15 * np.asarray(amp(s, x, y))[i] + 1e-15 * slope * np.hypot(x, y)[i] + 1e-300
        c.close(got[i], want[i].astype(float), tag + ":sag", atol=tol, surface=repr(s)[:300])
    if np.any(o):
        c.ok(np.all(np.isnan(got[o])), tag + ":outside", "height outside the domain is not NaN", surface=repr(s)[:300])


def judge_normal(c, s, x, y, got, tag):
    x, y = np.broadcast_arrays(x, y)
    got = np.asarray(got)
    c.ok(got.shape == x.shape + (3,), tag + ":nshape", "normal has shape %s for points %s" % (got.shape, x.shape))
    dom = inside(s, x, y)
    i, o = dom == 1, dom == 0
    if np.any(o):
        c.ok(np.all(np.isnan(got[o])), tag + ":noutside", "normal outside the domain is not NaN: %s" % got[o][:2], surface=repr(s)[:300])
    if not np.any(i):
        return
    want = ref.normal(s, x, y)[i].astype(float)
    g = got[i]
    if type(s).__name__ == "Tilted" and not np.allclose(g, want, rtol=0, atol=1e-12):
        bug = mon.buggy_tilted_normal(s, len(g)).astype(float)
        c.event()
        if np.allclose(g, bug, rtol=0, atol=1e-12, equal_nan=True):
            c.known(mon.TILT, "Tilted(%r, %r).normal -> %s" % (s.tanx, s.tany, g[0]))
            return
    tol = 4e-15 * (1 + np.asarray(curv(s, x, y))[i]) + 1e-14 * (steep(s, x[i], y[i]) if domain(s) is not None else 1)
    c.close(g, want, tag + ":normal", atol=np.minimum(tol, 1e-3)[:, None], surface=repr(s)[:300])
    c.close(np.sum(g * g, axis=1), 1.0, tag + ":unit", atol=1e-14)
    c.ok(np.all(g[:, 2] > 0), tag + ":upward", "normal points down", surface=repr(s)[:300])


def equation(c, rng, i):
    size = 10 ** rng.uniform(-2, 1.2)
    s = surface(rng, i, size)
    x, y = points(rng, s, size, 60)
    judge_sag(c, s, x, y, s.sag(x, y), type(s).__name__)
    judge_normal(c, s, x, y, s.normal(x, y), type(s).__name__)
    c.label("eq", type(s).__name__, getattr(s, "imin", ""), len(getattr(s, "coef", ())), len(getattr(s, "surfaces", ())),
            np.sign(getattr(s, "R", 0)), round(float(getattr(s, "conic", 0))))
    c.sample(surface=repr(s)[:200], x=x[:2], y=y[:2], sag=np.asarray(s.sag(x, y))[:2])


def shapes(c, rng, i):
    """Scalars, lists, n-d, strided, reversed, Fortran, integer and broadcast arguments agree pointwise."""
    size = 10 ** rng.uniform(-1, 1)
    s = surface(rng, i, size)
    lim = domain(s) or size
    mode = ["scalar", "list", "nd", "strided", "fortran", "broadcast", "empty", "float32", "int", "readonly"][(i // len(gen.SURFS)) % 10]
    h = lim * 0.6
    u = lambda *sh: rng.uniform(-h, h, sh)
    if mode == "scalar":
        x, y = float(u()), float(u())
        g, n = s.sag(x, y), s.normal(x, y)
        c.ok(np.ndim(g) == 0, "scalar:dim")
        judge_sag(c, s, np.array(x), np.array(y), g, mode)
        c.ok(np.shape(n) == (3,), "scalar:normal-shape", str(np.shape(n)))
        judge_normal(c, s, np.array([x]), np.array([y]), np.asarray(n)[None], mode)
    else:
        if mode == "list":
            a, b = u(5), u(5)
            x, y = list(a), list(b)
        elif mode == "nd":
            sh = tuple(rng.integers(1, 5, rng.integers(2, 4)))
            x, y = u(*sh), u(*sh)
        elif mode == "strided":
            big = u(12, 9)
            x, y = big[::2, ::-3], big[1::2, ::3]
        elif mode == "fortran":
            x, y = np.asfortranarray(u(4, 7)), u(4, 7)
        elif mode == "broadcast":
            x, y = [(u(6), float(u())), (float(u()), u(2, 3)), (u(5, 1), u(1, 4)), (u(3, 4), u(4)), (u(1), u(7))][rng.integers(5)]
        elif mode == "empty":
            x, y = np.zeros((0,)), np.zeros((0,))
        elif mode == "float32":
            x, y = u(5).astype(np.float32), u(5).astype(np.float32)
        elif mode == "int":
            m = max(1, int(h))
            x, y = rng.integers(-m, m + 1, 6), rng.integers(-m, m + 1, 6)
            if h < 2:
                x, y = x * 0, y * 0
        else:
            x, y = u(6), u(6)
            x.flags.writeable = y.flags.writeable = False
        xa, ya = np.asarray(x, float), np.asarray(y, float)
        judge_sag(c, s, xa, ya, s.sag(x, y), mode)
        judge_normal(c, s, xa, ya, s.normal(x, y), mode)
    c.label("shape", mode, type(s).__name__)


def edges(c, rng, i):
    """Outside the domain: NaN heights and normals; far away for unbounded ones: still the equation."""
    size = 10 ** rng.uniform(-1, 1)
    kind = ["Sphere", "Quadric", "Asphere", "Bicubic", "Sum"][i % 5]
    if kind == "Sum":
        s = batoid.Sum([gen.surf(rng, str(rng.choice(["Plane", "Paraboloid", "Sphere"])), size),
                        gen.surf(rng, str(rng.choice(["Sphere", "Bicubic", "Zernike"])), size)])
    elif kind == "Quadric":
        s = batoid.Quadric(rng.choice([-1, 1]) * size, float(rng.uniform(-0.9, 2)))
    else:
        s = gen.surf(rng, kind, size)
    lim = domain(s) or 1.5 * size
    n = 60
    r = lim * rng.choice([rng.uniform(0.9, 1.1, n), rng.uniform(0, 3, n), 1 + rng.normal(size=n) * 1e-5])
    th = rng.uniform(0, 2 * np.pi, n)
    x, y = r * np.cos(th), r * np.sin(th)
    judge_sag(c, s, x, y, s.sag(x, y), "edge-" + kind)
    dom = inside(s, x, y)
    # normals are not judged within 1e-3 of a vertical tangent
    ok = (dom == 0) | (np.abs(r / lim - 1) > 1e-3 if domain(s) else dom == 1)
    if ok.any():
        judge_normal(c, s, x[ok], y[ok], s.normal(x[ok], y[ok]), "edge-" + kind)
    c.label("edge", kind, int((dom == 0).sum()) // 8, getattr(s, "nanpolicy", ""))


def telescopes(c, rng, i):
    """The surfaces of the shipped telescopes, over their clear apertures."""
    nm, tel = gen.pick_scope(rng)
    items = gen.interfaces(tel)
    it = items[rng.integers(len(items))]
    R = it.outRadius or 0.1
    x, y = rng.uniform(-R, R, (2, 40))
    judge_sag(c, it.surface, x, y, it.surface.sag(x, y), "tel")
    judge_normal(c, it.surface, x, y, it.surface.normal(x, y), "tel")
    c.label("tel", nm, it.name)


CASES = [
    ("equation", equation, 1800, 40000),
    ("shapes", shapes, 900, 9000),
    ("edges", edges, 600, 9000),
    ("telescopes", telescopes, 300, 4000),
]
