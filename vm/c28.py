"""C28: what is drawn is what the model is: element outlines, slices, ray paths and the Zernike pyramid."""
import copy
import numpy as np
import batoid
from . import gen, ref
from .canon import canon, diff

L = np.longdouble
Circ, Ann, Neg = batoid.ObscCircle, batoid.ObscAnnulus, batoid.ObscNegation


# ------------------------------------------------------------ axes that record
class Ax:
    """A drawing surface (matplotlib's and plotly's calls) that remembers what it was given."""

    def __init__(self):
        self.lines, self.kw, self.fills, self.texts = [], [], [], []

    def plot(self, *a, **kw):
        a = [np.array(q, dtype=float) for q in a]
        if getattr(self, "dim", 3) == 2:
            for k in range(0, len(a), 2):
                self.lines.append(tuple(a[k:k + 2]))
        else:
            self.lines.append(tuple(a))
        self.kw.append(kw)

    def add_scatter3d(self, x=None, y=None, z=None, **kw):
        self.lines.append(tuple(np.array(q, dtype=float) for q in (x, y, z)))
        self.kw.append(kw)

    def fill(self, x, z, **kw):
        self.fills.append((np.array(x, float), np.array(z, float)))
        self.kw.append(kw)

    def text(self, x, y, s, **kw):
        self.texts.append((x, y, s))


def ax2():
    a = Ax()
    a.dim = 2
    return a


# ------------------------------------------------------------ what is to be seen
def radii(el):
    """(inner, outer) of an interface, by its obscuration; None if it has none of the simple kinds."""
    o = el.obscuration
    if isinstance(o, Neg):
        o = o.original
    if isinstance(o, Ann):
        return o.inner, o.outer
    if isinstance(o, Circ):
        return 0.0, o.radius
    return None


def drawable(el):
    """Radii, if the documented surface exists all over them."""
    rr = radii(el)
    if rr is None:
        return None
    ri, ro = rr
    th = np.linspace(0, 2 * np.pi, 33)
    for r in (ri, 0.5 * (ri + ro), ro):
        with np.errstate(all="ignore"):
            if not np.all(np.isfinite(np.asarray(ref.sag(el.surface, r * np.cos(th) * (1 + 1e-9), r * np.sin(th) * (1 + 1e-9)), float))):
                return None
    return ri, ro


def to_local(el, P):
    R, o = ref.ld(el.coordSys.rot), ref.ld(el.coordSys.origin)
    return (ref.ld(P) - o) @ R


def on_element(c, el, P, tag):
    """Every point lies on the surface of the element, between its radii."""
    ri, ro = radii(el)
    p = to_local(el, P)
    r = np.hypot(p[:, 0], p[:, 1])
    sc = float(np.abs(el.coordSys.origin).max() + ro + np.abs(p[:, 2]).max()) + 1e-3
    tol = 2e-13 * sc + 1e-13 * ro
    c.ok(r.max() <= ro + tol * 10 and r.min() >= ri - tol * 10, tag + ":outside",
         lambda: "points at radius %.17g..%.17g of an element from %r to %r" % (r.min(), r.max(), ri, ro))
    with np.errstate(all="ignore"):
        z = ref.sag(el.surface, np.asarray(p[:, 0], float), np.asarray(p[:, 1], float))
        g = np.abs(np.asarray(ref.grad(el.surface, np.asarray(p[:, 0], float), np.asarray(p[:, 1], float)), float)).max()
    if not np.isfinite(g):
        g = 1e3
    c.close(np.asarray(p[:, 2], float), np.asarray(z, float), tag + ":off-surface",
            atol=(1 + g) * tol * 20 + 1e-12 * float(np.nanmax(np.abs(np.asarray(z, float))) if len(z) else 0))
    return np.asarray(p, float)


def gaps(a, lo, hi):
    a = np.sort(np.concatenate([[lo], a[(a >= lo) & (a <= hi)], [hi]]))
    return np.diff(a).max()


def covered(c, el, p, tag):
    """Both edges all around and both meridians (x = 0 and y = 0) are there."""
    ri, ro = radii(el)
    r = np.hypot(p[:, 0], p[:, 1])
    th = np.arctan2(p[:, 1], p[:, 0])
    tol = 1e-9 * (ro + np.abs(el.coordSys.origin).max()) + 1e-12
    for name, rad in (("outer", ro), ("inner", ri)):
        if rad < 1e-6 * ro or (name == "inner" and ri >= ro):
            continue
        m = np.abs(r - rad) < tol
        g = gaps(th[m], -np.pi, np.pi)
        c.ok(g < 0.3, tag + ":edge", lambda: "the %s edge (radius %r) has a gap of %g rad" % (name, rad, g))
    for k, name in ((0, "x = 0"), (1, "y = 0")):
        m = np.abs(p[:, k]) < tol
        w = p[m, 1 - k]
        for lo, hi in ((-ro, -ri), (ri, ro)):
            g = gaps(w, lo, hi)
            c.ok(g <= 0.2 * (hi - lo) + 2 * tol, tag + ":meridian",
                 lambda: "the line %s from %r to %r has a gap of %g" % (name, lo, hi, g))


def connected(c, el, p, tag):
    """No line crosses from one part of the outline to another."""
    ro = radii(el)[1]
    d = np.hypot(np.diff(p[:, 0]), np.diff(p[:, 1]))
    if len(d):
        c.ok(d.max() <= 0.35 * ro, tag + ":jump", lambda: "a line jumps by %g on an element of radius %g" % (d.max(), ro))


def pieces(mesh):
    X = np.stack([np.asarray(q, float) for q in mesh], 1)
    cut = np.isnan(X).any(1)
    out, cur = [], []
    for row, k in zip(X, cut):
        if k:
            if cur:
                out.append(np.array(cur))
            cur = []
        else:
            cur.append(row)
    if cur:
        out.append(np.array(cur))
    return out


# ------------------------------------------------------------ systems
def element(rng):
    """One interface with a simple aperture of any kind."""
    kind = str(rng.choice(["Plane", "Paraboloid", "Sphere", "Quadric", "Asphere", "Tilted", "Zernike", "Sum", "Bicubic"]))
    size = float(rng.choice([1e-3, 1.0, 1.0, 4.0, 300.0]))
    s = gen.surf(rng, kind, size * 3, True)
    ro = size * rng.uniform(0.3, 1.0)
    ri = ro * rng.uniform(0.01, 0.95)
    k = int(rng.integers(6))
    ob = [lambda: Circ(ro), lambda: Neg(Circ(ro)), lambda: Ann(ri, ro), lambda: Neg(Ann(ri, ro)), lambda: None,
          lambda: batoid.ObscUnion([Neg(Circ(ro)), batoid.ObscRectangle(0.1, 0.1)])][k if k < 4 or rng.random() < 0.4 else 1]()
    if rng.random() < 0.1 and isinstance(ob, Neg) and isinstance(ob.original, Ann):
        ob = Neg(Ann(0.0, ro))
    cls = [batoid.Mirror, batoid.RefractiveInterface, batoid.Baffle, batoid.Detector, batoid.optic.Interface][int(rng.integers(5))]
    return cls(s, name="E", obscuration=ob, coordSys=gen.csys(rng, scale=size)), kind


def any_system(rng):
    u = rng.random()
    if u < 0.3:
        nm, t = gen.pick_scope(rng)
        if rng.random() < 0.5:
            t = gen.moved(t, gen.rot(rng), rng.normal(size=3) * 3)
            nm += "+moved"
        return nm, t
    s = gen.system(rng)
    for el in gen.interfaces(s):
        if rng.random() < 0.15:
            el_ob = el.obscuration
            if isinstance(el_ob, Neg) and isinstance(el_ob.original, (Circ, Ann)):
                pass
    v = rng.random()
    if v < 0.3:
        s = gen.moved(s, gen.rot(rng), rng.normal(size=3) * 3)
        return "system+moved", s
    if v < 0.5:
        return "system+derived", s.withGlobalShift(rng.normal(size=3)).withLocalRotation(gen.rot(rng))
    return "system", s


# ------------------------------------------------------------ cases
def c_element(c, rng, i):
    """Outline of one element, by every way of asking for it."""
    el, kind = element(rng)
    rr = radii(el)
    before = canon(el)
    kw = {"c": "k", "lw": 2} if rng.random() < 0.5 else {}
    m = el.get3dmesh()
    a, b = Ax(), Ax()
    el.draw3d(a, **kw)
    el.draw3d(b, plotly=True, **kw)
    c.ok(not diff(before, canon(el)), "changed", "drawing an element changes it")
    if rr is None:
        c.event()
        if el.obscuration is None:
            c.ok(m is None and not a.lines and not b.lines, "no-radius", "an element without radius is drawn")
        return
    dr = drawable(el)
    c.label("element", kind, type(el.obscuration).__name__, rr[0] == 0, dr is None)
    for ax in (a, b):
        c.ok(all(k == kw for k in ax.kw), "keywords", lambda: "drawn with %r, asked with %r" % (ax.kw, kw))
    if dr is None:
        return
    P = pieces(m)
    alls = []
    for q in P:
        p = on_element(c, el, q, "mesh")
        connected(c, el, p, "mesh")
        alls.append(p)
    covered(c, el, np.concatenate(alls), "mesh")
    for tag, ax in (("draw3d", a), ("plotly", b)):
        alls = []
        for l in ax.lines:
            p = on_element(c, el, np.stack(l, 1), tag)
            connected(c, el, p, tag)
            alls.append(p)
        covered(c, el, np.concatenate(alls), tag)


def c_slice(c, rng, i):
    """The (x, z) slice of one element."""
    el, kind = element(rng)
    rr = drawable(el)
    u = rng.random()
    if u < 0.7:
        R = np.eye(3) if u < 0.4 else batoid.RotY(float(rng.normal() * rng.choice([1, 1e-3])))
        el = el.__class__(el.surface, name="E", obscuration=el.obscuration, coordSys=batoid.CoordSys(el.coordSys.origin, R))
    if rr is None:
        if el.obscuration is None:
            c.ok(len(el.getXZSlice()) == 0, "no-radius", "an element without radius has a slice")
        return
    if u >= 0.7:
        return
    ri, ro = rr
    n = int(rng.choice([0, 0, 2, 3, 10, 77]))
    sl = el.getXZSlice(nslice=n) if n or rng.random() < 0.5 else el.getXZSlice()
    if ri == 0 and not (len(sl) in (1, 2)):
        c.fail("slice:parts", "%d parts" % len(sl))
    c.ok(len(sl) == (1 if ri == 0 else 2), "slice:parts", lambda: "%d parts for inner radius %r" % (len(sl), ri))
    want = n or (2 if kind == "Plane" else None)
    for q in sl:
        q = np.asarray(q)
        c.ok(q.ndim == 2 and q.shape[0] == 2, "slice:shape", lambda: "shape %r" % (q.shape,))
        if want is not None:
            m = want if ri != 0 else 2 * want - 1
            c.ok(q.shape[1] == m, "slice:points", lambda: "%d points, asked for %d each half" % (q.shape[1], want))
    o = el.coordSys.origin
    pts = []
    for q in sl:
        x, z = np.asarray(q)
        P = np.stack([x, np.full_like(x, o[1]), z], 1)
        p = on_element(c, el, P, "slice")
        c.ok(np.all(np.diff(p[:, 0]) > -1e-12 * (ro + abs(o).max())), "slice:order", lambda: "x goes back: %r" % p[:, 0].tolist())
        pts.append(p)
    tol = 1e-12 * (ro + np.abs(o).max()) * 10
    for lo, hi, p in zip([-ro, ri], [-ri, ro], pts if len(pts) == 2 else [pts[0], pts[0]]):
        w = p[:, 0]
        k = (w >= lo - tol) & (w <= hi + tol)
        c.ok(abs(w[k].min() - lo) <= tol and abs(w[k].max() - hi) <= tol, "slice:ends",
             lambda: "half slice from %.17g to %.17g, edges at %r, %r" % (w[k].min(), w[k].max(), lo, hi))
        c.ok(gaps(w[k], lo, hi) <= (hi - lo) * (1.05 / max(1, (want or 10) - 1) if (want or 10) > 2 else 1.0) * 3 + tol, "slice:gap",
             lambda: "gap of %g" % gaps(w[k], lo, hi))
    a = ax2()
    el.draw2d(a, c="r")
    c.ok(len(a.lines) == len(el.getXZSlice()) and all(k == {"c": "r"} for k in a.kw), "draw2d", lambda: "%d lines" % len(a.lines))
    for l, q in zip(a.lines, el.getXZSlice()):
        c.equal(np.stack(l), np.asarray(q), "draw2d:points")
    c.label("slice", kind, ri == 0, n, R is None or np.array_equal(R, np.eye(3)))


def leaf_lines(el):
    a = ax2()
    el.draw2d(a)
    return a.lines


def c_system(c, rng, i):
    """Outlines of systems are those of their elements; restricted to types in 2d."""
    nm, t = any_system(rng)
    before = canon(t)
    els = gen.interfaces(t)
    m = t.get3dmesh()
    a, b = Ax(), Ax()
    t.draw3d(a, c="k")
    t.draw3d(b, plotly=True)
    ms, la = [], []
    for el in els:
        q = el.get3dmesh()
        if q is not None:
            ms.append(np.stack(q))
        e = Ax()
        el.draw3d(e)
        la += e.lines
    c.ok((m is None) == (not ms), "mesh:none", lambda: "mesh %s, %d elements have one" % (type(m), len(ms)))
    if ms:
        P = pieces(m)
        Q = [q for w in ms for q in pieces(w)]
        c.ok(len(P) == len(Q), "mesh:parts", lambda: "%d lines, its elements have %d" % (len(P), len(Q)))
        for p, q in zip(P, Q):
            c.equal(p, q, "mesh:points")
    for ax in (a, b):
        c.ok(len(ax.lines) == len(la), "draw3d:lines", lambda: "%d lines, elements have %d" % (len(ax.lines), len(la)))
        for p, q in zip(ax.lines, la):
            c.equal(np.stack(p), np.stack(q), "draw3d:points")
    for el in els:
        rr = drawable(el)
        if rr is None:
            continue
        P = pieces(el.get3dmesh())
        ps = [on_element(c, el, q, "mesh") for q in P]
        covered(c, el, np.concatenate(ps), "mesh")
    # two dimensions
    a2 = ax2()
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        t.draw2d(a2, c="k")
        want = [l for el in els for l in leaf_lines(el)]
        c.ok(len(a2.lines) == len(want), "draw2d:lines", lambda: "%d lines, elements have %d" % (len(a2.lines), len(want)))
        for p, q in zip(a2.lines, want):
            c.equal(np.stack(p), np.stack(q), "draw2d:points")
        types = [batoid.Mirror, batoid.Detector, batoid.Baffle, batoid.RefractiveInterface, batoid.optic.Interface]
        k = rng.permutation(5)[:int(rng.integers(1, 4))]
        only = tuple(types[q] for q in k)
        form = int(rng.integers(3))
        arg = only[0] if form == 0 else (only if form == 1 else list(only))
        if form == 0:
            only = only[:1]
        a3 = ax2()
        t.draw2d(a3, only=arg, c="b")
        want = [l for el in els if isinstance(el, only) for l in leaf_lines(el)]
        c.ok(len(a3.lines) == len(want), "draw2d:only", lambda: "%d lines with only=%r, %d expected" % (len(a3.lines), arg, len(want)))
        for p, q in zip(a3.lines, want):
            c.equal(np.stack(p), np.stack(q), "draw2d:only")
        a4 = ax2()
        t.draw2d(a4, only=batoid.Lens, fc="c")
        lenses = []

        def walk(o):
            if isinstance(o, batoid.Lens):
                lenses.append(o)
            for it in getattr(o, "items", ()):
                walk(it)
        walk(t)
        want = []
        for ln in lenses:
            want += list(zip(ln.items[0].getXZSlice(), ln.items[1].getXZSlice()))
        c.ok(not a4.lines and len(a4.fills) == len(want), "draw2d:lens", lambda: "%d areas and %d lines, %d expected" % (len(a4.fills), len(a4.lines), len(want)))
        for (x, z), (s1, s2) in zip(a4.fills, want):
            pts = set(zip(x.tolist(), z.tolist()))
            need = set(zip(*np.hstack([s1, s2]).tolist()))
            nan = any(v != v for q in need for v in q)
            c.ok(nan or pts == need, "draw2d:lens", "the area of a lens is not bounded by its two slices")
            poly = np.hstack([s1, s2[:, ::-1]])
            ar = lambda x, z: 0.5 * abs(np.sum(x * np.roll(z, -1) - z * np.roll(x, -1)))
            if not nan:
                x0, z0 = x.mean(), z.mean()
                c.close(ar(x - x0, z - z0), ar(poly[0] - x0, poly[1] - z0), "draw2d:lens-area", atol=1e-12 * (np.ptp(x) + np.ptp(z)) ** 2)
    c.ok(not diff(before, canon(t)), "changed", "drawing a system changes it")
    c.label("system", nm, len(els), sum(radii(e) is None for e in els) > 0, form)


def c_rays(c, rng, i):
    """Ray paths in global (or any other) coordinates."""
    if rng.random() < 0.35:
        nm, t = gen.pick_scope(rng)
        rv = gen.beam(rng, nm, t, n=int(rng.integers(1, 30)))
        if rng.random() < 0.3:
            Q, d = gen.rot(rng), rng.normal(size=3) * 3
            t, rv, nm = gen.moved(t, Q, d), gen.move_rays(rv, Q, d), nm + "+moved"
    else:
        nm, t = "system", gen.system(rng)
        rv = gen.system_beam(rng, t, n=int(rng.integers(1, 30)))
    if rng.random() < 0.3:
        rv = gen.express(rv, gen.csys(rng))
    path = None
    if rng.random() < 0.2 and len(gen.interfaces(t)) > 2:
        names = [e.name for e in gen.interfaces(t)]
        path = names[:3] + names[1:2][::-1] + names[1:]
    tf = t.traceFull(rv, path=path) if path else t.traceFull(rv)
    keys = list(tf)
    p, q = sorted(rng.integers(0, len(keys), 2))
    start = None if rng.random() < 0.3 else keys[p]
    end = None if rng.random() < 0.3 else keys[q]
    gs = gen.csys(rng) if rng.random() < 0.4 else None
    kw = {} if gs is None else {"globalSys": gs}
    before = canon({k: [tf[k]["in"], tf[k]["out"]] for k in keys})
    xyz, raylen = batoid.optic.getGlobalRays(tf, start, end, **kw) if rng.random() < 0.5 else batoid.optic.getGlobalRays(tf, start=start, end=end, **kw)
    a = 0 if start is None else p
    b = len(keys) - 1 if end is None else q
    ks = keys[a:b + 1]
    n = len(rv)
    c.equal(np.shape(xyz), (n, 3, len(ks) + 1), "shape", "%s to %s" % (start, end))
    c.equal(np.shape(raylen), (n,), "shape")
    g = gs or batoid.globalCoordSys
    vis = np.ones(n, int)
    for j in range(len(ks) + 1):
        r = tf[ks[0]]["in"] if j == 0 else tf[ks[j - 1]]["out"]
        w = np.asarray(ref.to_frame(r.coordSys, g, r.r), float)
        sc = float(np.nanmax(np.abs(np.where(np.isfinite(r.r), r.r, 0)), initial=1)) + np.abs(r.coordSys.origin).max() + np.abs(g.origin).max()
        fin = np.isfinite(r.r).all(1)
        c.close(xyz[fin, :, j], w[fin], "vertex", atol=5e-15 * sc, msg="vertex %d (%s)" % (j, ks[max(0, j - 1)]))
        if j:
            vis += ~r.vignetted
    c.equal(raylen, vis, "visible")
    c.ok(not diff(before, canon({k: [tf[k]["in"], tf[k]["out"]] for k in keys})), "changed", "looking at rays changes them")
    # lines
    a3, ap, a2 = Ax(), Ax(), ax2()
    batoid.drawTrace3d(a3, tf, start, end, c="k", **kw)
    batoid.drawTrace3d(ap, tf, start, end, plotly=True, **kw)
    batoid.drawTrace2d(a2, tf, start, end, c="b", **kw)
    for tag, ax, sel in (("3d", a3, [0, 1, 2]), ("plotly", ap, [0, 1, 2]), ("2d", a2, [0, 2])):
        c.ok(len(ax.lines) == n, "lines:" + tag, lambda: "%d lines for %d rays" % (len(ax.lines), n))
        for k, l in enumerate(ax.lines):
            c.equal(np.stack(l), xyz[k][sel][:, :raylen[k]], "lines:" + tag)
    c.ok(all(k == {"c": "k"} for k in a3.kw) and all(k == {"c": "b"} for k in a2.kw), "keywords", "keywords are not passed on")
    c.raises(ValueError, lambda: batoid.optic.getGlobalRays(tf, "nowhere", end), "unknown")
    c.raises(ValueError, lambda: batoid.optic.getGlobalRays(tf, start, "nowhere"), "unknown")
    if len(keys) > 1:
        c.raises(ValueError, lambda: batoid.optic.getGlobalRays(tf, keys[-1], keys[0]), "backwards")
    c.label("rays", nm, len(ks), gs is not None, path is not None, bool(np.any(vis < len(ks) + 1)))


def c_matplotlib(c, rng, i):
    """The same, on real figures."""
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    nm, t = any_system(rng)
    f = Figure()
    FigureCanvasAgg(f)
    a3 = f.add_subplot(1, 2, 1, projection="3d")
    a2 = f.add_subplot(1, 2, 2)
    r3, r2 = Ax(), ax2()
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        t.draw3d(a3, c="k")
        t.draw3d(r3, c="k")
        t.draw2d(a2, c="k")
        t.draw2d(r2, c="k")
    c.ok(len(a3.lines) == len(r3.lines) and len(a2.lines) == len(r2.lines), "figure:lines", "lines are missing in a figure")
    for l, w in zip(a3.lines, r3.lines):
        c.equal(np.stack(l.get_data_3d()), np.stack(w), "figure:points")
    for l, w in zip(a2.lines, r2.lines):
        c.equal(np.stack(l.get_data()), np.stack(w), "figure:points")
    if "system" in nm and "moved" not in nm and "derived" not in nm:
        rv = gen.system_beam(rng, t, n=8)
        tf = t.traceFull(rv)
        n0 = len(a2.lines)
        batoid.drawTrace2d(a2, tf, c="b")
        xyz, rl = batoid.optic.getGlobalRays(tf)
        got = a2.lines[n0:]
        c.ok(len(got) == 8, "figure:rays", lambda: "%d lines for 8 rays" % len(got))
        for k, l in enumerate(got):
            c.equal(np.stack(l.get_data()), xyz[k][[0, 2], :rl[k]], "figure:rays")
    c.label("figure", nm, len(a3.lines) > 0)


def c_pyramid(c, rng, i):
    """Each Zernike in its own place, with its own values."""
    from matplotlib.figure import Figure
    import batoid.plotUtils as pu
    jmin = int(rng.choice([4, 4, 1, 2, 3, 5, 6, 7, 10, 11]))
    jmax = jmin + int(rng.choice([0, 1, 2, 3, 7, 18]))
    npt = int(rng.integers(1, 12))
    xs, ys = rng.normal(size=(2, npt))
    zs = rng.normal(size=(jmax - jmin + 1, npt))
    kw = {}
    vmin, vmax = -1, 1
    if rng.random() < 0.5:
        vmin, vmax = -float(rng.uniform(0.1, 3)), float(rng.uniform(0.1, 3))
        kw.update(vmin=vmin, vmax=vmax)
    vdim = True
    if rng.random() < 0.4:
        vdim = bool(rng.random() < 0.5)
        kw["vdim"] = vdim
    if jmin != 4 or rng.random() < 0.5:
        kw["jmin"] = jmin
    fig = None
    if rng.random() < 0.5:
        fig = Figure(figsize=(8, 6))
        kw["fig"] = fig
    elif rng.random() < 0.5:
        kw["figsize"] = tuple(float(q) for q in rng.uniform(3, 15, 2))
    seen = {}
    before = canon([xs, ys, zs])
    out = pu.zernikePyramid(xs, ys, zs, callback=lambda fig, axes: seen.update(fig=fig, axes=dict(axes)), **kw)
    c.ok(not diff(before, canon([xs, ys, zs])), "changed", "plotting changes the data")
    c.ok(seen.get("fig") is out and (fig is None or out is fig), "pyramid:figure", "another figure is returned")
    if fig is None:
        c.close(out.get_size_inches(), kw.get("figsize", (13, 8)), "pyramid:figsize", rtol=1e-12)
    A = seen["axes"]
    c.ok(sorted(A) == list(range(jmin, jmax + 1)), "pyramid:which", lambda: "plots %r" % sorted(A))
    P = []
    for j, ax in A.items():
        n, m = ref.noll(j)
        col = [q for q in ax.collections]
        c.ok(len(col) == 1, "pyramid:points", lambda: "%d sets of points" % len(col))
        c.equal(np.asarray(col[0].get_offsets()), np.stack([xs, ys], 1), "pyramid:points")
        c.equal(np.asarray(col[0].get_array()), zs[j - jmin], "pyramid:values", "Z%d" % j)
        k = max(n, 1) if vdim else 1
        if n or not vdim:
            c.close(col[0].get_clim(), [vmin / k, vmax / k], "pyramid:range", rtol=1e-15, msg="Z%d" % j)
        c.ok(ax.get_title() == "Z%d" % j, "pyramid:title", lambda: "Z%d is called %r" % (j, ax.get_title()))
        q = ax.get_position()
        P.append((n, m, q.x0 + q.width / 2, q.y0 + q.height / 2, q.width))
    P = np.array(P)
    if len(P) > 2 and len(set(P[:, 1])) > 1:
        M = np.stack([np.ones(len(P)), P[:, 1]], 1)
        s = np.linalg.lstsq(M, P[:, 2], rcond=None)[0]
        c.close(P[:, 2], M @ s, "pyramid:columns", atol=1e-6, msg="place against m")
        c.ok(s[1] > 0, "pyramid:columns", "m grows to the left")
        for n in set(P[:, 0]):
            r = np.sort(P[P[:, 0] == n, 2])
            c.ok(len(r) < 2 or np.diff(r).min() > 0.5 * P[0, 4], "pyramid:overlap", "plots lie on each other")
    for n1 in set(P[:, 0]):
        for n2 in set(P[:, 0]):
            if n1 < n2:
                c.ok(P[P[:, 0] == n1, 3].min() > P[P[:, 0] == n2, 3].max(), "pyramid:rows", "a higher order is not lower")
    c.label("pyramid", jmin, jmax - jmin, vdim, fig is not None)


CASES = [
    ("element", c_element, 500, 6000),
    ("slice", c_slice, 600, 8000),
    ("system", c_system, 60, 900),
    ("rays", c_rays, 200, 3000),
    ("matplotlib", c_matplotlib, 12, 120),
    ("pyramid", c_pyramid, 24, 240),
]
