"""C25: gridded (bicubic) surfaces against their samples, an own Hermite interpolation in long double, and polynomials."""
import copy
import pickle
import numpy as np
import batoid
from . import gen, mon, ref

L = np.longdouble


def grid(rng, small=False):
    """Uniform coordinates: any size, place, spacing, either direction."""
    n = int(rng.choice([2, 3, 4, int(rng.integers(2, 8 if small else 30))]))
    d = float(10.0 ** rng.uniform(-3, 1)) * rng.choice([1, 1, 1, -1])
    k = rng.integers(4)
    if k == 0:
        return np.linspace(-1, 1, n) * abs(d) * (1 if d > 0 else -1)
    if k == 1:
        return np.arange(n) * d
    if k == 2:
        return rng.normal() * 10 * abs(d) + np.arange(n) * d
    a = rng.normal() * 5 * abs(d)
    return np.linspace(a, a + d * (n - 1), n)


def arg(rng, a):
    """The same numbers in another container."""
    k = rng.integers(6)
    if k == 0:
        return a.tolist()
    if k == 1:
        return np.asfortranarray(a)
    if k == 2:
        b = np.zeros(tuple(2 * q for q in a.shape))
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 3:
        return [tuple(r) for r in a.tolist()] if a.ndim == 2 else tuple(a.tolist())
    if k == 4:
        b = a[tuple(slice(None, None, -1) for _ in a.shape)].copy()
        return b[tuple(slice(None, None, -1) for _ in a.shape)]
    return a.copy()


def differences(z, d, axis):
    z = np.moveaxis(ref.ld(z), axis, -1)
    o = np.empty_like(z)
    o[..., 1:-1] = (z[..., 2:] - z[..., :-2]) / (2 * d)
    o[..., 0] = (z[..., 1] - z[..., 0]) / d
    o[..., -1] = (z[..., -1] - z[..., -2]) / d
    return np.moveaxis(o, -1, axis)


def samples(rng, xs, ys):
    """zs and optional derivative arrays, rough or smooth, some left out; and what should be in force."""
    sh = (len(ys), len(xs))
    a = 10.0 ** rng.uniform(-6, 1)
    dx, dy = (xs[-1] - xs[0]) / (len(xs) - 1), (ys[-1] - ys[0]) / (len(ys) - 1)
    zs = rng.normal(size=sh) * a
    if rng.random() < 0.2:
        zs = np.round(zs / a * 10)
    given = {}
    for k, s in (("dzdxs", abs(dx)), ("dzdys", abs(dy)), ("d2zdxdys", abs(dx * dy))):
        if rng.random() < 0.5:
            given[k] = rng.normal(size=sh) * a / s
    want = dict(given)
    if "dzdxs" not in want:
        want["dzdxs"] = differences(zs, L(dx), 1)
    if "dzdys" not in want:
        want["dzdys"] = differences(zs, L(dy), 0)
    if "d2zdxdys" not in want:
        want["d2zdxdys"] = differences(want["dzdys"], L(dx), 1)
    return zs, given, want


def build(rng, xs, ys, zs, given, policy):
    kw = {k: arg(rng, v) for k, v in given.items()}
    if policy != "nan" or rng.random() < 0.5:
        kw["nanpolicy"] = str(rng.choice([policy, policy.upper(), policy.capitalize()]))
    s = batoid.Bicubic(arg(rng, xs), arg(rng, ys), arg(rng, zs), **kw)
    u = rng.random()
    if u < 0.1:
        return pickle.loads(pickle.dumps(s))
    if u < 0.2:
        return copy.deepcopy(s)
    if u < 0.3:
        return batoid.Sum([s])
    return s


def inner(s):
    return s.surfaces[0] if isinstance(s, batoid.Sum) else s


def where(rng, xs, ys, n):
    """Points: nodes, on grid lines, just beside them, anywhere inside."""
    def one(g):
        k = rng.integers(0, len(g), n)
        v = g[k]
        m = rng.integers(0, 4, n)
        a, b = min(g[0], g[-1]), max(g[0], g[-1])
        v = np.where(m == 1, np.nextafter(v, np.where(rng.random(n) < 0.5, a, b)), v)
        v = np.where(m >= 2, rng.uniform(a, b, n), v)
        return np.clip(v, a, b)
    return one(xs), one(ys)


def scale(zs, want, dx, dy):
    return float(np.abs(zs).max() + np.abs(want["dzdxs"]).max() * abs(dx) + np.abs(want["dzdys"]).max() * abs(dy)
                 + np.abs(want["d2zdxdys"]).max() * abs(dx * dy)) + 1e-300


def position_noise(xs, dx):
    """Rounding of a coordinate, in cells."""
    return 8 * 2.0 ** -52 * (np.abs(xs).max() / abs(dx) + len(xs))


def normal_of(gx, gy):
    n = np.sqrt(1 + gx * gx + gy * gy)
    return np.stack([-gx / n, -gy / n, 1 / n], -1).astype(float)


def values(c, rng, i):
    xs, ys = grid(rng), grid(rng)
    zs, given, want = samples(rng, xs, ys)
    policy = str(rng.choice(["nan", "nan", "zero"]))
    s = build(rng, xs, ys, zs, given, policy)
    b = inner(s)
    dx, dy = (xs[-1] - xs[0]) / (len(xs) - 1), (ys[-1] - ys[0]) / (len(ys) - 1)
    S = scale(zs, want, dx, dy)
    # what is kept
    c.equal(b.xs, xs, "kept:xs")
    c.equal(b.ys, ys, "kept:ys")
    c.equal(b.zs, zs, "kept:zs")
    for k, sl in (("dzdxs", abs(dx)), ("dzdys", abs(dy)), ("d2zdxdys", abs(dx * dy))):
        c.close(getattr(b, k), want[k].astype(float), "kept:" + k, atol=1e-13 * S / sl if k not in given else 0.0)
    eps = 40 * 2.0 ** -52 + 20 * (position_noise(xs, dx) + position_noise(ys, dy))
    # every node
    X, Y = np.meshgrid(xs, ys)
    c.close(s.sag(X, Y), zs, "node:sag", atol=eps * S, msg=repr(given.keys()))
    got = s.normal(X, Y)
    gx, gy = want["dzdxs"], want["dzdys"]
    st = lambda gx, gy: 1e-14 + eps * S * (1 / abs(dx) + 1 / abs(dy))
    c.close(got, normal_of(gx, gy), "node:normal", atol=st(gx, gy))
    # and between them
    x, y = where(rng, xs, ys, 60)
    z, gx, gy = inside_edges(xs, ys, zs, want, x, y)
    c.close(s.sag(x, y), z.astype(float), "between:sag", atol=eps * S)
    c.close(s.normal(x, y), normal_of(gx, gy), "between:normal", atol=st(gx, gy))
    # scalars, one point at a time
    k = int(rng.integers(60))
    c.equal(s.sag(float(x[k]), float(y[k])), s.sag(x, y)[k], "scalar")
    c.label("values", len(xs), len(ys), tuple(sorted(given)), policy, dx > 0, dy > 0)
    c.sample(nx=len(xs), ny=len(ys), given=sorted(given), policy=policy)


def inside_edges(xs, ys, zs, want, x, y):
    """Reference values; points are inside or on the edge, so clamp the reference into the closed grid."""
    def clampf(v, g):
        a, b = min(g[0], g[-1]), max(g[0], g[-1])
        return np.clip(v, a, b)
    X, Y = ref.ld(clampf(x, xs)), ref.ld(clampf(y, ys))
    nx, ny = len(xs), len(ys)
    fx = (X - L(xs[0])) / ((L(xs[-1]) - L(xs[0])) / (nx - 1))
    fy = (Y - L(ys[0])) / ((L(ys[-1]) - L(ys[0])) / (ny - 1))
    fx, fy = np.clip(fx, 0, nx - 1), np.clip(fy, 0, ny - 1)
    # evaluate on the unit grid
    dx = (L(xs[-1]) - L(xs[0])) / (nx - 1)
    dy = (L(ys[-1]) - L(ys[0])) / (ny - 1)
    ix, iy = np.minimum(np.floor(fx).astype(int), nx - 2), np.minimum(np.floor(fy).astype(int), ny - 2)
    tx, ty = fx - ix, fy - iy

    def basis(t):
        return ((1 + 2 * t) * (1 - t) ** 2, t * (1 - t) ** 2, t * t * (3 - 2 * t), t * t * (t - 1)), \
               (6 * t * t - 6 * t, 3 * t * t - 4 * t + 1, 6 * t - 6 * t * t, 3 * t * t - 2 * t)
    (bx, px), (by, py) = basis(tx), basis(ty)
    A = [ref.ld(zs), ref.ld(want["dzdxs"]) * dx, ref.ld(want["dzdys"]) * dy, ref.ld(want["d2zdxdys"]) * dx * dy]
    z = gx = gy = 0
    for i in (0, 1):
        for j in (0, 1):
            q = (iy + j, ix + i)
            for (m, w) in ((0, A[0]), (1, A[1])):
                for (n, e) in ((0, 0), (1, 2)):
                    a = (A[m] if n == 0 else (A[2] if m == 0 else A[3]))[q]
                    z = z + a * bx[2 * i + m] * by[2 * j + n]
                    gx = gx + a * px[2 * i + m] * by[2 * j + n]
                    gy = gy + a * bx[2 * i + m] * py[2 * j + n]
    return z, gx / dx, gy / dy


def seams(c, rng, i):
    """Height and slopes agree on both sides of every cell boundary (no reference involved)."""
    xs, ys = grid(rng), grid(rng)
    if len(xs) < 3 and len(ys) < 3:
        xs = np.linspace(0, 1, 5)
    zs, given, want = samples(rng, xs, ys)
    s = build(rng, xs, ys, zs, given, "nan")
    dx, dy = (xs[-1] - xs[0]) / (len(xs) - 1), (ys[-1] - ys[0]) / (len(ys) - 1)
    S = scale(zs, want, dx, dy)
    h = 1e-8
    for ax in (0, 1):
        g, d, o = (xs, dx, ys) if ax == 0 else (ys, dy, xs)
        if len(g) < 3:
            continue
        k = rng.integers(1, len(g) - 1, 20)
        w = rng.uniform(min(o[0], o[-1]), max(o[0], o[-1]), 20)
        a, b = g[k] - h * abs(d), g[k] + h * abs(d)
        A = (a, w) if ax == 0 else (w, a)
        B = (b, w) if ax == 0 else (w, b)
        M = (g[k], w) if ax == 0 else (w, g[k])
        eps = 40 * 2.0 ** -52 + 20 * (position_noise(xs, dx) + position_noise(ys, dy)) + 20 * h
        for P in (A, B):
            c.close(s.sag(*P), s.sag(*M), "seam:sag", atol=eps * S * 4)
            c.close(s.normal(*P), s.normal(*M), "seam:normal", atol=1e-14 + 20 * eps * S * (1 / abs(dx) + 1 / abs(dy)))
    c.label("seam", len(xs), len(ys), tuple(sorted(given)))


def polynomial(c, rng, i):
    """Polynomials of degree up to three in each coordinate come back exactly when their derivatives are supplied;
    up to degree one when nothing is."""
    xs, ys = grid(rng), grid(rng)
    deg = int(rng.integers(0, 4))
    exact = rng.random() < 0.7
    if not exact:
        deg = min(deg, 1)
    C = rng.normal(size=(deg + 1, deg + 1)).astype(L)
    ux, uy = np.abs(xs).max(), np.abs(ys).max()

    def P(x, y, p=0, q=0):
        x, y = ref.ld(x) / ux, ref.ld(y) / uy
        o = 0
        for m in range(deg + 1):
            for n in range(deg + 1):
                if m >= p and n >= q:
                    f = (m if p else 1) * (n if q else 1)
                    o = o + C[m, n] * f * x ** (m - p) * y ** (n - q)
        return o / L(ux) ** p / L(uy) ** q + x * 0 + y * 0
    X, Y = np.meshgrid(xs, ys)
    zs = P(X, Y).astype(float)
    kw = {}
    if exact:
        kw = dict(dzdxs=P(X, Y, 1).astype(float), dzdys=P(X, Y, 0, 1).astype(float), d2zdxdys=P(X, Y, 1, 1).astype(float))
    s = batoid.Bicubic(xs, ys, zs, **kw)
    x, y = where(rng, xs, ys, 80)
    dx, dy = (xs[-1] - xs[0]) / (len(xs) - 1), (ys[-1] - ys[0]) / (len(ys) - 1)
    S = float(np.abs(C).sum()) * 4
    cells = 1 + abs(dx) / ux + abs(dy) / uy
    eps = (200 * 2.0 ** -52 + 20 * (position_noise(xs, dx) + position_noise(ys, dy))) * cells
    c.close(s.sag(x, y), P(x, y).astype(float), "polynomial:sag", atol=eps * S)
    c.close(s.normal(x, y), normal_of(P(x, y, 1), P(x, y, 0, 1)), "polynomial:normal",
            atol=1e-14 + 10 * eps * S * (1 / abs(dx) + 1 / abs(dy)))
    c.label("polynomial", deg, exact, len(xs), len(ys))


def outside(c, rng, i):
    """Requests and rays off the grid."""
    xs, ys = grid(rng, True), grid(rng, True)
    zs, given, want = samples(rng, xs, ys)
    policy = str(rng.choice(["nan", "zero"]))
    s = build(rng, xs, ys, zs, given, policy)
    n = 60
    ax, bx, ay, by = min(xs), max(xs), min(ys), max(ys)
    x, y = rng.uniform(ax, bx, n), rng.uniform(ay, by, n)
    far = 10.0 ** rng.uniform(-6, 3, n)
    side = rng.integers(0, 4, n)
    wx, wy = (bx - ax), (by - ay)
    x = np.where(side == 0, ax - far * wx, np.where(side == 1, bx + far * wx, x))
    y = np.where(side == 2, ay - far * wy, np.where(side == 3, by + far * wy, y))
    k = rng.integers(0, n, 4)
    x[k[0]], y[k[1]] = 1e300, -1e300
    x[k[2]] = rng.choice([3e9, -3e9, 1e19]) * wx
    m = (x < ax - 1e-9 * abs(ax)) | (x > bx + 1e-9 * abs(bx)) | (y < ay - 1e-9 * abs(ay)) | (y > by + 1e-9 * abs(by))
    x, y = x[m], y[m]
    fill = np.nan if policy == "nan" else 0.0
    c.equal(s.sag(x, y), np.full(len(x), fill), "outside:sag", msg=policy)
    nn = np.array(s.normal(x, y))
    c.equal(nn, np.broadcast_to([0, 0, 1.0] if policy == "zero" else [np.nan] * 3, nn.shape), "outside:normal", msg=policy)
    bad = np.array([np.nan, np.inf, -np.inf])
    if policy == "nan":
        c.ok(np.isnan(s.sag(bad, np.full(3, y.mean() * 0 + ys[0]))).all(), "outside:not-a-number")
    # vertical rays, inside and outside
    N = 40
    px, py = rng.uniform(ax - 0.5 * wx, bx + 0.5 * wx, N), rng.uniform(ay - 0.5 * wy, by + 0.5 * wy, N)
    ins = (px > ax + 1e-9 * wx) & (px < bx - 1e-9 * wx) & (py > ay + 1e-9 * wy) & (py < by - 1e-9 * wy)
    edge = (np.minimum(np.abs(px - ax), np.abs(px - bx)) < 1e-8 * wx) | (np.minimum(np.abs(py - ay), np.abs(py - by)) < 1e-8 * wy)
    h = float(rng.normal() * 3)
    sg = 1.0 if rng.random() < 0.5 else -1.0
    rv = batoid.RayVector(px, py, np.full(N, h), np.zeros(N), np.zeros(N), np.full(N, sg), 0.0, 5e-7, 1.0)
    out = batoid.intersect(s, rv.copy())
    z = np.array(s.sag(px, py))
    if policy == "nan":
        c.equal(np.array(out.failed)[~edge], ~ins[~edge], "outside:rays")
        c.ok(np.all(np.array(out.vignetted)[np.array(out.failed)]), "outside:vignetted")
    else:
        c.ok(not np.any(np.array(out.failed)), "outside:rays-zero")
        w = ~ins & ~edge
        c.close(np.array(out.z)[w], 0.0, "outside:plane", atol=4e-16 * abs(h))
    g = ins & ~np.array(out.failed)
    c.equal(np.array(out.x)[g], px[g], "vertical:x")
    c.close(np.array(out.z)[g], z[g], "vertical:z", atol=1e-15 * abs(h) + 1e-15 * np.abs(zs).max())
    c.close(np.array(out.t)[g], (z[g] - h) * sg, "vertical:t", atol=4e-15 * abs(h) + 4e-15 * np.abs(zs).max())
    c.label("outside", policy, len(xs), len(ys), int(ins.sum()) // 5)


def slanted(c, rng, i):
    """Slanted rays land on gentle gridded surfaces, or leave the grid and fail."""
    s = gen.bicubic(rng, 1.0, 0.003, policy="nan")
    rv = gen.rays_at(rng, s, 60, 1.9, spread=0.3, flags=False)
    b = mon.snap(rv)
    op = [batoid.intersect, batoid.reflect][rng.integers(2)]
    out = mon.snap(op(s, rv))
    g = ~out["fail"]
    d = b["v"] / np.linalg.norm(b["v"], axis=1)[:, None]
    # where the ray meets the slab the surface lies in
    H = float(np.abs(s.zs).max() * 1.5)
    t0, t1 = (-H - b["r"][:, 2]) / d[:, 2], (H - b["r"][:, 2]) / d[:, 2]
    p0, p1 = b["r"] + d * t0[:, None], b["r"] + d * t1[:, None]
    m = 0.05     # iterating may overshoot a little
    lo, hi = np.array([min(s.xs), min(s.ys)]), np.array([max(s.xs), max(s.ys)])
    inn = np.all((p0[:, :2] > lo + m) & (p0[:, :2] < hi - m) & (p1[:, :2] > lo + m) & (p1[:, :2] < hi - m), axis=1)
    off = np.any((np.maximum(p0, p1)[:, :2] < lo) | (np.minimum(p0, p1)[:, :2] > hi), axis=1)
    c.ok(np.all(g[inn]), "slanted:lost", lambda: "%d of %d rays aimed inside fail" % (np.sum(inn & ~g), inn.sum()))
    c.ok(not np.any(g[off]), "slanted:off-grid", lambda: "%d rays hit outside the grid" % np.sum(off & g))
    c.ok(np.all(out["vig"][~g]), "slanted:vignetted")
    r = out["r"][g]
    z, gx, gy = inside_edges(s.xs, s.ys, s.zs, dict(dzdxs=s.dzdxs, dzdys=s.dzdys, d2zdxdys=s.d2zdxdys), r[:, 0], r[:, 1])
    c.close(r[:, 2], z.astype(float), "slanted:on", atol=1e-12)
    if op is batoid.reflect and len(r):
        want = ref.reflect_dir(ref.ld(b["v"][g]), ref.ld(normal_of(gx, gy))).astype(float)
        c.close(out["v"][g], want, "slanted:reflect", atol=1e-11)
    c.label("slanted", len(s.xs), len(s.ys), int(g.sum()) // 10, int(off.sum()) // 5)


CASES = [
    ("values", values, 1500, 40000),
    ("seams", seams, 800, 20000),
    ("polynomial", polynomial, 1200, 40000),
    ("outside", outside, 1000, 30000),
    ("slanted", slanted, 800, 20000),
]
