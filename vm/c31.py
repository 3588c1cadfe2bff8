"""C31: conservation monitor over rays and their close neighbours: Fermat's principle (clock against eikonal) and the symplectic
form of every pair of small displacements (etendue) stay as they were through any optics."""
import numpy as np
import batoid
from . import gen, mon, c12


def unit(v):
    return v / np.linalg.norm(v, axis=1)[:, None]


def family(rng, m, h, what):
    """For rays m (state, local to its frame): [base, +1, -1, +2, -2, ... ] for four random displacements, with steps h."""
    n = len(m["w"])
    speed = np.linalg.norm(m["v"], axis=1)
    u = unit(m["v"])
    r, v, t = [m["r"]], [m["v"]], [m["t"]]
    for k in range(4):
        a, b = rng.normal(size=(2, n, 3))
        b -= np.sum(b * u, axis=1)[:, None] * u
        if what == "source":            # all from one point
            a *= 0
        elif what == "wave":            # parallel
            b *= 0
        for s in (1, -1):
            d = unit(u + s * h * b)
            r.append(m["r"] + s * h * a)
            v.append(d * speed[:, None])
            # start on one wavefront: a plane for parallel rays; any clock will do for the conservation law
            t.append(m["t"])
    q = lambda z: np.concatenate(z)
    rep = lambda z: np.tile(z, 9)
    return gen.build(q(r), q(v), q(t), rep(m["w"]), rep(m["f"]), cs=m["cs"])


def forms(m, n, h):
    """Per base ray: the six symplectic products of the displacements, four clock-against-path derivatives, their sizes, ok."""
    R1 = m["cs"].rot
    r = (m["r"] @ R1.T + m["cs"].origin).reshape(9, n, 3)
    v = (m["v"] @ R1.T).reshape(9, n, 3)
    t = m["t"].reshape(9, n)
    p = v / np.sum(v * v, axis=2)[:, :, None]
    dr = [(r[1 + 2 * k] - r[2 + 2 * k]) / (2 * h) for k in range(4)]
    dp = [(p[1 + 2 * k] - p[2 + 2 * k]) / (2 * h) for k in range(4)]
    dt = [(t[1 + 2 * k] - t[2 + 2 * k]) / (2 * h) for k in range(4)]
    w, sw = [], []
    for a in range(4):
        for b in range(a):
            w.append(np.sum(dr[a] * dp[b] - dr[b] * dp[a], axis=1))
            sw.append(np.linalg.norm(dr[a], axis=1) * np.linalg.norm(dp[b], axis=1) + np.linalg.norm(dr[b], axis=1) * np.linalg.norm(dp[a], axis=1))
    e = [dt[k] - np.sum(p[0] * dr[k], axis=1) for k in range(4)]
    se = [np.abs(dt[k]) + np.linalg.norm(dr[k], axis=1) * np.linalg.norm(p[0], axis=1) for k in range(4)]
    ok = ~(m["fail"].reshape(9, n).any(axis=0))
    # second differences over the step: of smooth maps they shrink with it, at a crease they stay
    kink = np.max([np.linalg.norm(q[1 + 2 * k] + q[2 + 2 * k] - 2 * q[0], axis=1) / h for q in (r, p) for k in range(4)], axis=0)
    return np.array(w), np.array(e), np.array(sw), np.array(se), ok, kink


def slip(s):
    """How far the known wrong normal of a tilted plane is from the true one (0 for anything else)."""
    if not isinstance(s, batoid.Tilted):
        return 0.0
    n = np.array([-s.tanx, -s.tany, 1.0])
    b = mon.buggy_tilted_normal(s, 1)[0].astype(float)
    return float(np.linalg.norm(n / np.linalg.norm(n) - b))


def conserved(c, rng, m, go, tag, what="any", known=0.0):
    """Run `go` on the families of the rays m at two step sizes and judge what is conserved.

    known: the error of the normal of the tilted planes involved, a known finding; what it can account for (deviations in
    proportion to it) is reported as such."""
    n = len(m["w"])
    res = []
    s = int(rng.integers(2 ** 31))
    # rounding in the differences: positions and clocks are known to about 1e-15 of the distances, over the step
    for h in (4e-6, 2e-6):
        f = family(np.random.default_rng(s), m, h, what)
        a = mon.snap(f)
        out = go(f)
        if out is None:
            return 0
        b = mon.snap(out)
        if len(b["w"]) != len(a["w"]):
            return 0
        wa, ea = forms(a, n, h)[:2]
        wb, eb, sw, se, ok, kink = forms(b, n, h)
        far = np.abs(b["r"]).reshape(9, n, 3).max(axis=(0, 2)) + np.abs(b["t"]).reshape(9, n).max(axis=0) + np.abs(a["r"]).max() + np.abs(a["t"]).max()
        res.append((wb - wa, eb - ea, sw, se, ok, far, h, kink))
    (w1, e1, sw, se, k1, far, h, j1), (w2, e2, sw2, se2, k2, _, _, j2) = res
    ok = k1 & k2 & np.isfinite(sw).all(axis=0) & np.isfinite(se).all(axis=0)
    # finite differences that have not converged say nothing (edges of grid cells, near-grazing rays): the two steps disagree
    gain = np.maximum(1, np.maximum(sw.max(axis=0), se.max(axis=0)))
    ok &= (gain < 1e4) & (far < 1e4)
    smooth = np.all(np.abs(sw - sw2) <= 1e-4 * sw + 1e-6, axis=0) & np.all(np.abs(se - se2) <= 1e-4 * se + 1e-6, axis=0)
    tw = 1e-6 * (1 + sw) + 60 * 2e-16 * (far + 1) / h * (1 + np.sqrt(sw))
    te = 1e-6 * (1 + se) + 60 * 2e-16 * (far + 1) / h
    for a, b, tol in ((w1, w2, tw), (e1, e2, te)):
        smooth &= np.all(np.abs(a - b) <= 0.3 * tol + 0.05 * np.abs(b), axis=0)
    smooth &= (j2 <= 0.75 * j1) | (j2 <= 1e-6 + 60 * 2e-16 * (far + 1) / h)
    c.note(tag + ":rays", int(ok.sum()))
    c.note(tag + ":not-smooth", int((ok & ~smooth).sum()))
    ok &= smooth
    if not ok.any():
        c.event()
        return 0
    # Richardson: the quadratic error of the central difference drops out
    w, e = (4 * w2 - w1) / 3, (4 * e2 - e1) / 3
    for name, d, tol in (("etendue", w, tw), ("eikonal", e, te)):
        tol = np.broadcast_to(tol, d.shape)
        if known and np.any(np.abs(d[:, ok]) > tol[:, ok]):
            c.known(mon.TILT, "%s of light through tilted planes is off by up to %.3g" % (name, np.abs(d[:, ok]).max()))
            size = sw if name == "etendue" else se
            tol = tol + 8 * known * (1 + size.max(axis=0))
        c.close(d[:, ok], np.zeros_like(d[:, ok]), tag + ":" + name, atol=tol[:, ok])
        with np.errstate(all="ignore"):
            c.maxerr[tag + ":" + name] = max(c.maxerr.get(tag + ":" + name, 0.0), float(np.max(np.abs(d[:, ok]) / tol[:, ok])))
    return int(ok.sum())


def some(m, k):
    return {q: (v if q == "cs" else v[:k]) for q, v in m.items()}


# ------------------------------------------------------------ single surfaces and chains of operations
def surfaces(c, rng, i):
    """One operation of one surface, any media, any frame."""
    kind = gen.SURFS[i % len(gen.SURFS)]
    s = gen.surf(rng, kind, 1.0, True)
    cs = gen.csys(rng)
    m1, m2 = gen.medium(rng), gen.medium(rng)
    op = ["refract", "reflect", "intersect"][i % 3]
    rv = gen.express(gen.rays_at(rng, s, 12, 0.8, cs=cs, medium=m1, flags=False, spread=0.2), gen.csys(rng))
    what = str(rng.choice(["any", "any", "source", "wave"]))
    go = {"refract": lambda q: s.refract(q, m1, m2, coordSys=cs), "reflect": lambda q: s.reflect(q, coordSys=cs),
          "intersect": lambda q: s.intersect(q, coordSys=cs)}[op]
    n = conserved(c, rng, mon.snap(rv), go, op, what, known=slip(s))
    c.label("surfaces", op, kind, what, n // 4)
    c.sample(surface=repr(s)[:160], operation=op, rays=n, displacements=what)


def screens(c, rng, i):
    """Path-difference screens on any carrier in vacuum: the added path is a function of place, so light stays light."""
    on = batoid.Plane() if i % 3 == 0 else gen.surf(rng, str(rng.choice(["Tilted", "Sphere", "Paraboloid", "Quadric", "Asphere", "Zernike"])), 1.0, i % 3 == 1)
    sc = gen.surf(rng, str(rng.choice(["Zernike", "Quadric", "Asphere", "Bicubic", "Paraboloid", "Sum"])), 1.0, True)
    cs = gen.csys(rng)
    med = batoid.ConstMedium(1.0)
    rv = gen.express(gen.rays_at(rng, on, 12, 0.7, cs=cs, flags=False, spread=0.15), gen.csys(rng))
    el = batoid.OPDScreen(on, sc, name="S", coordSys=cs, inMedium=med, outMedium=med)
    # the screen acts the same way round for light from either side: judged by the side of arrival
    go = [lambda q: el.trace(q), lambda q: on.refractScreen(q, sc, coordSys=cs)][i % 2]
    n = conserved(c, rng, mon.snap(rv), go, "screen", known=slip(on) + slip(sc))
    c.label("screens", type(on).__name__, type(sc).__name__, n // 4)


def chains(c, rng, i):
    """Several operations in a row, with changes of frame and propagation between them."""
    med = [gen.medium(rng) for _ in range(4)]
    k = 0
    steps = []
    z, d = 0.0, -1.0
    for j in range(int(rng.integers(2, 6))):
        z += d * rng.uniform(0.4, 1.2)
        cs = batoid.CoordSys(np.array([0.0, 0.0, z]) + rng.normal(size=3) * 0.01, batoid.RotX(rng.normal() * 0.03) @ batoid.RotY(rng.normal() * 0.03))
        s = gen.surf(rng, str(rng.choice(["Plane", "Sphere", "Quadric", "Asphere", "Zernike", "Paraboloid"])), 3.0, True)
        u = rng.random()
        if u < 0.4:
            a, b = med[k], med[(k + 1) % 4]
            k = (k + 1) % 4
            steps.append(("refract", lambda q, s=s, a=a, b=b, cs=cs: s.refract(q, a, b, coordSys=cs)))
        elif u < 0.7:
            d = -d
            steps.append(("reflect", lambda q, s=s, cs=cs: s.reflect(q, coordSys=cs)))
        elif u < 0.8:
            steps.append(("intersect", lambda q, s=s, cs=cs: s.intersect(q, coordSys=cs)))
        elif u < 0.9:
            to = gen.csys(rng)
            steps.append(("frame", lambda q, to=to: q.toCoordSys(to)))
        else:
            t = float(rng.normal() * 3)
            steps.append(("propagate", lambda q, t=t: q.propagate(t)))

    def go(q):
        for nm, f in steps:
            q = f(q)
        return q
    rv = gen.rays_at(rng, None, 12, 0.8, cs=batoid.CoordSys(), medium=med[0], dist=np.full(12, 1.5), side=1, flags=False, spread=0.03)
    n = conserved(c, rng, mon.snap(rv), go, "chain", str(rng.choice(["any", "source", "wave"])))
    c.label("chains", [q[0] for q in steps], n > 0)


# ------------------------------------------------------------ systems
def systems(c, rng, i):
    """Random systems: forwards, along every path light splits into, and backwards."""
    s = gen.system(rng, split=True, screens=i % 3 == 0, depthmax=2)
    rv = gen.system_beam(rng, s, 8)
    if any(isinstance(q, batoid.OPDScreen) and q.inMedium.getN(5e-7) != 1 for q in gen.interfaces(s)):
        c.event()
        return
    if rng.random() < 0.5:
        rv = gen.express(rv, gen.csys(rng))
    m = mon.snap(rv)
    mode = i % 4
    n = conserved(c, rng, m, lambda q: s.trace(q), "system", str(rng.choice(["any", "source", "wave"])))
    leaves = c12.leaves(s)
    if mode == 1 and len(leaves) < 10:
        fs, rs = s.traceSplit(rv.copy(), minFlux=0.02)
        paths = {tuple(q.path) for q in fs if len(q)}
        for pth in sorted(paths)[:6]:
            conserved(c, rng, m, lambda q: s.trace(q, path=list(pth)), "ghost")
    elif mode == 2:
        o = s.trace(rv.copy())
        b = mon.snap(o[~o.failed])
        if len(b["w"]):
            b["v"] = -b["v"]
            b["t"] = -b["t"]
            conserved(c, rng, b, lambda q: s.trace(q, reverse=True), "back")
    c.label("systems", sorted(type(q).__name__ for q in leaves), mode, n > 0)


def telescopes(c, rng, i):
    """The shipped telescopes, perturbed or not, from the sky and from points of the focal surface."""
    nm, T = gen.pick_scope(rng)
    T0 = T
    if rng.random() < 0.5:
        names = [k for k in T.itemDict if not isinstance(T.itemDict[k], batoid.Detector)]
        k = str(names[rng.integers(len(names))])
        try:
            T = T.withLocallyRotatedOptic(k, batoid.RotX(rng.normal() * 1e-3)) if rng.random() < 0.5 else T.withGloballyShiftedOptic(
                k, rng.normal(size=3) * 1e-3)
        except ValueError:      # ambiguous names
            T = T0
    rv = gen.beam(rng, nm, T0, 10)
    m = mon.snap(rv)
    known = [q for q in gen.interfaces(T) if slip(q.surface)]
    known = sum(slip(q.surface) * float(abs(q.inMedium.getN(6e-7) - q.outMedium.getN(6e-7))) for q in known)
    n = conserved(c, rng, m, lambda q: T.trace(q), "telescope", str(rng.choice(["any", "wave"])), known=known)
    if i % 3 == 0:
        o = T.trace(rv.copy())
        b = mon.snap(o[~o.failed])
        if len(b["w"]):
            b["v"] = -b["v"]
            conserved(c, rng, b, lambda q: T.trace(q, reverse=True), "telescope-back", "source", known=known)
    c.label("telescopes", nm, T is T0, n > 0)


CASES = [
    ("surfaces", surfaces, 1800, 40000),
    ("screens", screens, 300, 6000),
    ("chains", chains, 700, 15000),
    ("systems", systems, 400, 8000),
    ("telescopes", telescopes, 120, 1500),
]
