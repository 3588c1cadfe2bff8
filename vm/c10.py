"""C10: obscurations against their documented geometry, in long double, for every form of query."""
import copy
import pickle
import numpy as np
import batoid
from . import gen, mon, ref


def prims(o):
    if type(o).__name__ == "ObscNegation":
        return prims(o.original)
    if type(o).__name__ in ("ObscUnion", "ObscIntersection"):
        return [p for q in o.items for p in prims(q)]
    return [o]


def kinds(o, depth=0):
    t = type(o).__name__[4:]
    if t == "Negation":
        return "N(%s)" % kinds(o.original)
    if t in ("Union", "Intersection"):
        return "%s(%s)" % (t[0], ",".join(sorted(kinds(q) for q in o.items)))
    return t[:3]


def boundary(rng, p, n):
    """n points on the boundary of a primitive."""
    t = type(p).__name__
    a = rng.uniform(0, 2 * np.pi, n)
    if t == "ObscCircle":
        return p.x + p.radius * np.cos(a), p.y + p.radius * np.sin(a)
    if t == "ObscAnnulus":
        r = np.where(rng.random(n) < 0.5, p.inner, p.outer)
        return p.x + r * np.cos(a), p.y + r * np.sin(a)
    if t in ("ObscRectangle", "ObscRay"):
        w = p.width / 2
        if t == "ObscRay":
            L = 3.0
            u = np.where(rng.random(n) < 0.7, rng.uniform(0, L, n), 0.0)
            v = np.where(u == 0, rng.uniform(-w, w, n), rng.choice([-w, w], n))
        else:
            h = p.height / 2
            e = rng.random(n) < 0.5
            u = np.where(e, rng.uniform(-w, w, n), rng.choice([-w, w], n))
            v = np.where(e, rng.choice([-h, h], n), rng.uniform(-h, h, n))
        c, s = np.cos(p.theta), np.sin(p.theta)
        return p.x + u * c - v * s, p.y + u * s + v * c
    m = len(p.xs)
    k = rng.integers(0, m, n)
    f = np.where(rng.random(n) < 0.3, 0.0, rng.random(n))
    return p.xs[k] + f * (p.xs[(k + 1) % m] - p.xs[k]), p.ys[k] + f * (p.ys[(k + 1) % m] - p.ys[k])


def points(rng, o, size, n):
    """Random, far, lattice and boundary-hugging points; lattice points share coordinates with corners."""
    ps = prims(o)
    k = n // 4
    X = [rng.normal(size=k) * size, rng.uniform(-1, 1, k) * size * 10 ** rng.uniform(-2, 2)]
    Y = [rng.normal(size=k) * size, rng.uniform(-1, 1, k) * size * 10 ** rng.uniform(-2, 2)]
    p = ps[rng.integers(len(ps))]
    bx, by = boundary(rng, p, k)
    e = size * 10 ** rng.uniform(-7, -1, k)
    a = rng.uniform(0, 2 * np.pi, k)
    X.append(bx + e * np.cos(a))
    Y.append(by + e * np.sin(a))
    cx = [getattr(p, "x", 0.0)] + list(getattr(p, "xs", ())) + [0.0, 0.5 * size, -0.5 * size]
    cy = [getattr(p, "y", 0.0)] + list(getattr(p, "ys", ())) + [0.0, 0.5 * size, -0.5 * size]
    lx = np.where(rng.random(k) < 0.5, rng.choice(cx, k), rng.uniform(-1.5, 1.5, k) * size)
    ly = np.where(rng.random(k) < 0.8, rng.choice(cy, k), rng.uniform(-1.5, 1.5, k) * size)
    X.append(lx)
    Y.append(ly)
    return np.concatenate(X), np.concatenate(Y)


def sure(mar, x, y, size):
    return np.asarray(mar, float) > 1e-13 * (np.abs(x) + np.abs(y) + size)


def shapes(c, rng, i):
    size = 10 ** rng.uniform(-2, 1.5)
    base = ["ObscCircle", "ObscAnnulus", "ObscRectangle", "ObscRay", "ObscPolygon", "ObscNegation", "ObscUnion", "ObscIntersection"]
    o = gen.obsc(rng, size, kind=base[i % 8])
    x, y = points(rng, o, size, 120)
    want, mar = ref.signed_contains(o, x, y)
    s = sure(mar, x, y, size)
    got = o.contains(x, y)
    c.ok(isinstance(got, np.ndarray) and got.dtype == bool and got.shape == x.shape, "array:type", repr(type(got)))
    bad = s & (got != want)
    c.event(int(s.sum()))
    if bad.any():
        j = int(np.argmax(bad))
        c.fail("contains", "contains(%r, %r) is %s for %r" % (x[j], y[j], got[j], o))
    # other forms of the same query
    form = i % 5
    if form == 0:
        for j in rng.integers(0, len(x), 12):
            g = o.contains(float(x[j]), float(y[j]))
            c.ok(np.ndim(g) == 0 and bool(g) == bool(got[j]), "scalar", "contains(%r, %r)" % (x[j], y[j]))
    elif form == 1:
        g = o.contains(x.reshape(4, 5, -1)[::-1].swapaxes(0, 2), y.reshape(4, 5, -1)[::-1].swapaxes(0, 2))
        c.equal(g, got.reshape(4, 5, -1)[::-1].swapaxes(0, 2), "nd-array")
    elif form == 2:
        g = o.contains(x[:7, None], y[None, :9])
        w, m = ref.signed_contains(o, x[:7, None], y[None, :9])
        k = sure(m, x[:7, None], y[None, :9], size)
        c.ok(g.shape == (7, 9), "broadcast:shape")
        c.equal(g[k], w[k], "broadcast")
    elif form == 3:
        xi, yi = np.round(x[:20]).astype(int), np.round(y[:20]).astype(int)
        w, m = ref.signed_contains(o, xi, yi)
        k = sure(m, xi, yi, size)
        c.equal(o.contains(xi, yi)[k], w[k], "integers")
        c.equal(o.contains(list(x[:9]), tuple(y[:9])), got[:9], "lists")
    else:
        z = np.zeros(0)
        c.ok(o.contains(z, z).shape == (0,), "empty")
        for q in (copy.copy(o), copy.deepcopy(o), pickle.loads(pickle.dumps(o))):
            c.equal(q.contains(x, y), got, "copies")
    # Boolean algebra of the real objects
    c.equal(batoid.ObscNegation(o).contains(x, y), ~got, "negation")
    p = gen.obsc(rng, size, depth=2)
    gp = p.contains(x, y)
    for cls, f in ((batoid.ObscUnion, np.logical_or), (batoid.ObscIntersection, np.logical_and)):
        c.equal(cls(o, p).contains(x, y), f(got, gp), "logic:args")
        c.equal(cls([p, o]).contains(x, y), f(got, gp), "logic:list")
        c.equal(cls((p, o, p)).contains(x, y), f(got, gp), "logic:tuple")
        c.equal(cls(o).contains(x, y), got, "logic:one")
    c.label("shapes", kinds(o)[:60], int(got.mean() * 4), form)
    c.note("near-boundary", int(np.sum(s & (np.asarray(mar, float) < 1e-3 * size))))
    c.sample(obscuration=repr(o)[:200], inside=int(got.sum()), points=len(x))


def grids(c, rng, i):
    size = 10 ** rng.uniform(-2, 1.5)
    o = gen.obsc(rng, size, kind="ObscPolygon")
    nx, ny = (int(k) for k in rng.integers(0 if i % 11 == 0 else 1, 40, 2))
    mode = i % 4
    if mode == 0:
        gx, gy = np.linspace(-1.5, 1.5, nx) * size, np.linspace(-1.5, 1.5, ny) * size
    elif mode == 1:      # irregular, ascending
        gx, gy = np.sort(rng.uniform(-2, 2, nx)) * size, np.sort(rng.uniform(-2, 2, ny)) * size
    elif mode == 2:      # through the corners
        gx = np.sort(np.concatenate([o.xs, rng.uniform(-1.5, 1.5, nx) * size]))
        gy = np.sort(np.concatenate([o.ys, rng.uniform(-1.5, 1.5, ny) * size]))
    else:                # a coarse lattice, like the staircase polygons
        gx, gy = np.arange(-3, 4) * 0.25 * size, np.arange(-2, 4) * 0.25 * size
    form = (i // 4) % 5
    ax, ay = gx, gy
    if form == 1:
        ax, ay = list(gx), tuple(gy)
    elif form == 2:
        ax, ay = np.repeat(gx, 3)[::3], np.stack([gy, gy]).T[:, 0]
        assert len(ax) == len(gx)
    elif form == 3:
        gx, gy = np.arange(-4, 5), np.arange(-3, 4)
        ax, ay = (gx, gy) if i % 8 < 4 else (gx.astype(np.float32), gy.astype(np.int16))
    elif form == 4:
        ax, ay = gx.astype(">f8"), gy[:]
    got = o.containsGrid(ax, ay)
    gx, gy = np.asarray(gx, float), np.asarray(gy, float)
    c.ok(got.shape == (len(gy), len(gx)) and got.dtype == bool, "grid:shape", "%s %s" % (got.shape, got.dtype))
    X, Y = np.meshgrid(gx, gy)
    if X.size:
        want, mar = ref.signed_contains(o, X, Y)
        s = sure(mar, X, Y, size)
        bad = s & (got != want)
        c.event(int(s.sum()))
        if bad.any():
            j = np.unravel_index(np.argmax(bad), bad.shape)
            c.fail("grid", "containsGrid at (%r, %r) is %s for %r, grid %dx%d" % (X[j], Y[j], got[j], o, len(gx), len(gy)))
        pt = o.contains(X, Y)
        c.equal(got[s], pt[s], "grid:points")
    c.label("grid", len(o.xs), mode, form, len(gx) > len(gy), int(got.mean() * 4) if got.size else "empty")


def rays(c, rng, i):
    """Vignetting of rays: directly, through an element, in the element's own frame."""
    size = 10 ** rng.uniform(-1, 1)
    o = gen.obsc(rng, size)
    n = int(rng.choice([0, 1, 2, 40, 300]))
    cs = gen.csys(rng)
    s = gen.surf(rng, str(rng.choice(["Plane", "Paraboloid", "Sphere"])), size, True)
    rv = gen.rays_at(rng, s, n, 1.5 * size, cs=cs, n_index=1.0)
    p = rv.copy()
    b = mon.snap(p)
    out = o.obscure(p)
    c.ok(out is p, "obscure:returns", "obscure does not return its argument")
    a = mon.snap(p)
    for k in ("r", "v", "t", "w", "f", "fail"):
        c.equal(a[k], b[k], "obscure:changes", k)
    c.ok(a["cs"] == b["cs"], "obscure:changes", "frame")
    want, mar = ref.signed_contains(o, b["r"][:, 0], b["r"][:, 1])
    k = sure(mar, b["r"][:, 0], b["r"][:, 1], size)
    c.equal(a["vig"][k], (b["vig"] | want)[k], "obscure:vignetted", repr(o)[:500])
    c.equal(a["vig"], b["vig"] | o.contains(b["r"][:, 0], b["r"][:, 1]), "obscure:contains")
    p2 = mon.snap(o.obscure(p))
    c.equal(p2["vig"], a["vig"], "obscure:twice")
    # an element applies it to the x/y of its own frame, where the rays land
    cls = [batoid.Mirror, batoid.RefractiveInterface, batoid.Baffle, batoid.Detector, batoid.OPDScreen][i % 5]
    kw = dict(name="E", coordSys=cs, inMedium=batoid.ConstMedium(1.0), outMedium=batoid.ConstMedium(1.0 if i % 5 else 1.4))
    args = (s, batoid.Plane()) if cls is batoid.OPDScreen else (s,)
    e0, e1 = cls(*args, **kw), cls(*args, obscuration=o, **kw)
    far = gen.express(rv, gen.csys(rng))
    q0, q1 = mon.snap(e0.trace(far.copy())), mon.snap(e1.trace(far.copy()))
    for k in ("r", "v", "t", "f", "fail"):
        c.equal(q1[k], q0[k], "element:changes", k)
    want, mar = ref.signed_contains(o, q0["r"][:, 0], q0["r"][:, 1])
    sc = 1 + size + np.abs(cs.origin).max()
    k = (np.asarray(mar, float) > 1e-9 * sc) & ~q0["fail"]
    c.equal(q1["vig"][k], (q0["vig"] | want)[k], "element:vignetted", "%s %r" % (cls.__name__, o))
    c.ok(not np.any(q0["vig"] & ~q1["vig"]), "element:unvignetted", "an obscuration cleared a ray")
    c.label("rays", kinds(o)[:40], cls.__name__, n)
    # the same through a system, by trace and by the log
    if n:
        sy = batoid.CompoundOptic([e1, batoid.Detector(batoid.Plane(), name="D", coordSys=cs)], name="S")
        c.equal(mon.snap(sy.traceFull(far)["E"]["out"])["vig"], q1["vig"], "log:vignetted")


def shipped(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    its = [q for q in gen.interfaces(tel) if q.obscuration is not None]
    if not its:
        c.event()
        return
    q = its[rng.integers(len(its))]
    o = q.obscuration
    p = prims(o)[0]
    size = max([abs(v) for k, v in p.__dict__.items() if isinstance(v, (int, float))] + [float(np.abs(p.xs).max()) if hasattr(p, "xs") else 0.1])
    x, y = points(rng, o, size, 400)
    want, mar = ref.signed_contains(o, x, y)
    s = sure(mar, x, y, size)
    c.equal(o.contains(x, y)[s], want[s], "shipped", "%s of %s" % (q.name, nm))
    c.label("shipped", nm, q.name)


def algebra(c, rng, i):
    """Identities between documented shapes."""
    size = 10 ** rng.uniform(-2, 2)
    x0, y0 = rng.normal(size=2) * size
    a, b = np.sort(rng.uniform(0.1, 1, 2)) * size
    x, y = x0 + rng.normal(size=200) * size, y0 + rng.normal(size=200) * size
    r = np.hypot(x - x0, y - y0)
    k = (np.abs(r - a) > 1e-9 * size) & (np.abs(r - b) > 1e-9 * size)
    big, small, ann = batoid.ObscCircle(b, x0, y0), batoid.ObscCircle(a, x0, y0), batoid.ObscAnnulus(a, b, x0, y0)
    c.equal(batoid.ObscUnion(small, ann).contains(x, y)[k], big.contains(x, y)[k], "circle=small+annulus")
    c.equal(batoid.ObscIntersection(big, batoid.ObscNegation(small)).contains(x, y)[k], ann.contains(x, y)[k], "annulus=big-small")
    # a rectangle is its four-sided polygon, and a long half of a ray
    w, h, th = rng.uniform(0.1, 2) * size, rng.uniform(0.1, 2) * size, rng.uniform(-7, 7)
    ct, st = np.cos(th), np.sin(th)
    cx = np.array([-1, 1, 1, -1]) * w / 2
    cy = np.array([-1, -1, 1, 1]) * h / 2
    px, py = x0 + cx * ct - cy * st, y0 + cx * st + cy * ct
    R = batoid.ObscRectangle(w, h, x0, y0, th)
    d = int(rng.integers(4))
    P = batoid.ObscPolygon(np.roll(px, d), np.roll(py, d))
    _, mar = ref.signed_contains(R, x, y)
    _, mar2 = ref.signed_contains(P, x, y)
    k = (np.minimum(mar, mar2) > 1e-9 * size)
    c.equal(R.contains(x, y)[k], P.contains(x, y)[k], "rectangle=polygon")
    ray = batoid.ObscRay(h, th, x0, y0)
    half = batoid.ObscRectangle(1e3 * size, h, x0 + 500 * size * ct, y0 + 500 * size * st, th)
    _, m1 = ref.signed_contains(ray, x, y)
    k = m1 > 1e-9 * size
    c.equal(ray.contains(x, y)[k], half.contains(x, y)[k], "ray=long-rectangle")
    # doubled boundaries cancel, reversed ones do not matter
    c.equal(batoid.ObscPolygon(px[::-1], py[::-1]).contains(x, y)[k & (mar2 > 1e-9 * size)],
            P.contains(x, y)[k & (mar2 > 1e-9 * size)], "reversed-polygon")
    c.label("algebra", int(R.contains(x, y).mean() * 8), d)


CASES = [
    ("shapes", shapes, 1600, 40000),
    ("grids", grids, 600, 15000),
    ("rays", rays, 500, 10000),
    ("shipped", shipped, 120, 2000),
    ("algebra", algebra, 200, 4000),
]
