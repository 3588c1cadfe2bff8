"""C22: every crossing of an optical path screen: where, when and in which direction rays leave, and which fail."""
import numpy as np
import batoid
from . import gen, mon, ref
from .c03 import wild

L = np.longdouble
SCREENS = ["Plane", "Zernike", "Zernike", "Bicubic", "Paraboloid", "Sphere", "Quadric", "Asphere", "Tilted", "Sum"]
BASES = ["Plane", "Plane", "Paraboloid", "Sphere", "Quadric", "Asphere", "Zernike", "Bicubic", "Sum"]


def screen(rng, size):
    """A screen of any strength: waves, strong, or grazing-strong."""
    k = str(rng.choice(SCREENS))
    if rng.random() < 0.6 and k in ("Zernike", "Bicubic"):
        a = 10.0 ** rng.uniform(-8, -1) * size
        if k == "Zernike":
            n = int(rng.integers(2, 29))
            return batoid.Zernike(rng.normal(size=n) * a, size * rng.uniform(0.9, 1.5), size * rng.choice([0.0, 0.3]))
        return gen.bicubic(rng, size, a / size)
    return gen.surf(rng, k, size)


def judge(c, s, sc, b, a, cs, tag, hit=None, extra_vig=None):
    """One recorded crossing; hit: (mask, points) of the separately observed intersection."""
    c.ok(a["cs"] == cs, tag + ":frame", "rays are not in the frame of the surface")
    if extra_vig is None:
        mon.flags(c, b, a, tag)
    c.equal(a["f"], b["f"], tag + ":flux")
    c.equal(a["w"], b["w"], tag + ":wavelength")
    r0, v0 = mon.local(b, cs)
    live = ~b["fail"]
    u = ~a["fail"]
    sp = np.sqrt(np.sum(v0 * v0, axis=1))

    def leave(P, v):
        """Outgoing velocities, squared tangential cosine, its uncertainty scale."""
        n = ref.normal(s, P[:, 0], P[:, 1])
        gx, gy = ref.grad(sc, P[:, 0], P[:, 1])
        g = np.stack([gx, gy, np.zeros_like(gx)], -1)
        gt = g - np.sum(g * n, -1)[:, None] * n
        m = np.sqrt(np.sum(v * v, -1))
        d = v / m[:, None]
        dn = np.sum(d * n, -1)
        t = d - dn[:, None] * n + gt
        s2 = np.sum(t * t, -1)
        with np.errstate(all="ignore"):
            w = t + np.where(dn < 0, -1, 1)[:, None] * np.sqrt(1 - s2)[:, None] * n
        return m[:, None] * w, s2, np.sqrt(gx * gx + gy * gy), dn
    it = type(s).__name__ in ("Asphere", "Zernike", "Bicubic", "Sum")

    def tols(P, g):
        pos = (2e-12 if it else 0) + 1e-13 * (mon.scale_of(b, cs) + float(np.abs(P).max(initial=0)))
        tn = mon.ntol(s, P, pos)
        x, y = P[:, 0], P[:, 1]
        h = L(1e-6) * (1 + np.hypot(x, y))
        g0 = np.stack(ref.grad(sc, x, y))
        with np.errstate(all="ignore"):
            k = np.maximum(np.abs(np.stack(ref.grad(sc, x + h, y)) - g0).max(0), np.abs(np.stack(ref.grad(sc, x, y + h)) - g0).max(0)) / h
            k = np.where(np.isfinite(k), k, 1e6)
            r = 1 + np.hypot(x, y)
        zern = 1e-10 if type(sc).__name__ in ("Zernike", "Sum") else 1e-12
        return (tn * (1 + g) + k * pos + zern * (1e-3 + g) * 1e-1 + 1e-15 * r).astype(float)
    if hit is not None:
        h, P = hit
        c.ok(not np.any(live & ~h & u), tag + ":missed-not-failed", "a ray that misses the surface is not failed")
        q = live & h
        P = P[q].astype(L)
        if len(P):
            _, s2, g, dn = leave(P, v0[q])
            tn = tols(P, g)
            m = 1e-9 + 10 * tn * (1 + g)
            must_fail = ~(s2 < 1 + m) & np.isfinite(m)
            must_fail &= np.isfinite(m)
            must_fail |= np.isnan(s2.astype(float))
            must_live = s2 < 1 - m
            c.ok(not np.any(must_fail & u[q]), tag + ":grazing-not-failed", "%d rays deflected past grazing go on" % np.sum(must_fail & u[q]))
            c.ok(not np.any(must_live & ~u[q]), tag + ":failed", "%d rays that pass the screen are failed" % np.sum(must_live & ~u[q]))
            for k, w in (("past-grazing", must_fail), ("pass", must_live)):
                if w.any():
                    c.note(tag + ":" + k, int(w.sum()))
                    c.label("class", tag, type(s).__name__, type(sc).__name__, k)
    if not u.any():
        return u
    R = a["r"].astype(L)
    with np.errstate(all="ignore"):
        add = ref.sag(sc, R[:, 0], R[:, 1])
    mon.landed(c, s, b, dict(a, v=np.where(u[:, None], v0.astype(float), a["v"])), cs, tag, extra_t=np.where(u, add, 0))
    mon.finite(c, a, tag)
    want, s2, g, dn = leave(R[u], v0[u])
    got = a["v"][u]
    m = sp[u]
    c.close(np.sqrt(np.sum(got.astype(L) ** 2, -1)).astype(float), m.astype(float), tag + ":speed", rtol=1e-12)
    tn = tols(R[u], g)
    cz = np.sqrt(np.maximum(1 - s2, 0))
    tol = (20 * (tn + 1e-14) * (1 + g) * (1 + 1 / np.maximum(cz, 1e-4)) * m).astype(float)
    ok = (cz > 1e-3) & (np.abs(dn) > 1e-9 + 10 * tn) & (tol < 1e-2 * m)
    if ok.any():
        c.close(got[ok], want[ok].astype(float), tag + ":deflection", atol=tol[ok][:, None], msg="screen %s on %s" % (type(sc).__name__, type(s).__name__))
        # what the comparison is able to see: deflections well above its tolerance
        seen = (np.abs((want - v0[u]).astype(float)).max(-1) > 100 * tol)[ok]
        c.note("deflections above tolerance", int(seen.sum()))
        up = int(np.sum((dn > 0)[ok] & seen))
        c.note("of these going up the normal", up)
        c.label("crossing", tag, type(s).__name__, type(sc).__name__, min(int(seen.sum()) // 5, 9), min(up, 1), int(np.log10(float(g.max()) + 1e-12)))
    return u


def bundle(rng, s, size, cs, n=40):
    if rng.random() < 0.7:
        rv = gen.rays_at(rng, s, n, size, cs=cs, spread=rng.choice([0.0, 0.02, 0.3, 2.0]), n_index=rng.choice([1.0, 1.5]))
    else:
        r, v = wild(rng, s, n, size)
        fail = rng.random(n) < 0.05
        rv = gen.build(r, v, rng.normal(size=n), rng.uniform(3e-7, 1e-6, n), rng.random(n), fail | (rng.random(n) < 0.1), fail, cs=cs)
    return gen.express(rv, gen.csys(rng)) if rng.random() < 0.7 else rv


def crossings(c, rng, i):
    """Bare surfaces carrying bare screens."""
    size = 10 ** rng.uniform(-1, 1)
    kind = str(rng.choice(BASES))
    s = gen.surf(rng, kind, size, mild=bool(rng.random() < 0.5))
    sc = screen(rng, size)
    cs = gen.csys(rng)
    rv = bundle(rng, s, size, cs)
    b = mon.snap(rv)
    q = batoid.intersect(s, rv.copy(), coordSys=cs)
    hit = (~np.array(q.failed), np.array(q.r))
    k = int(rng.integers(3))
    if rv.coordSys == cs and rng.random() < 0.5:
        out = s.refractScreen(rv, sc) if k else batoid.refractScreen(s, rv, sc) if hasattr(batoid, "refractScreen") else batoid.trace.refractScreen(s, rv, sc)
    elif k == 0:
        out = s.refractScreen(rv, sc, coordSys=cs)
    elif k == 1:
        out = s.refractScreen(rv, sc, cs)
    else:
        out = batoid.trace.refractScreen(s, rv, sc, coordSys=cs)
    c.ok(out is rv, "in-place", "refractScreen does not return its argument")
    a = mon.snap(rv)
    u = judge(c, s, sc, b, a, cs, "cross", hit)
    c.sample(surface=repr(s)[:120], screen=repr(sc)[:120], passed=int(u.sum()))


def nothing(c, rng, i):
    """A screen without height is no screen, and one of constant height only delays."""
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, str(rng.choice(BASES)), size)
    cs = gen.csys(rng)
    rv = bundle(rng, s, size, cs)
    k = int(rng.integers(4))
    h = 0.0
    if k == 0:
        sc = batoid.Plane()
    elif k == 1:
        sc = batoid.Zernike([0.0] * int(rng.integers(1, 12)), R_outer=size)
    elif k == 2:
        h = float(rng.normal() * 10.0 ** rng.uniform(-7, 0))
        sc = batoid.Zernike([0.0, h] + [0.0] * int(rng.integers(0, 5)), R_outer=size)
    else:
        sc = batoid.Sum([batoid.Paraboloid(3.0), batoid.Paraboloid(-3.0)])
    q = batoid.intersect(s, rv.copy(), coordSys=cs)
    a = batoid.trace.refractScreen(s, rv.copy(), sc, coordSys=cs)
    with np.errstate(all="ignore"):
        n = ref.normal(s, ref.ld(q.r[:, 0]), ref.ld(q.r[:, 1]))
        cz = np.nan_to_num(np.abs(np.sum(n * q.v, -1)).astype(float))
    u = ~q.failed & (cz > 1e-6)       # along the surface, rounding decides
    w = u | q.failed
    c.equal(a.failed[w], q.failed[w], "zero:failed")
    c.equal(a.vignetted[w], q.vignetted[w], "zero:vignetted")
    big = 1 + np.abs(q.r[u]).max(initial=0)
    c.equal(a.r[u], q.r[u], "zero:point")
    c.close(a.v[u], q.v[u], "zero:direction", atol=(1e-13 + (1e-14 * big if k == 3 else 0)) * (1 + 1 / cz[u])[:, None])
    # cosines near grazing lose digits in the square root
    c.close(a.t[u], q.t[u] + h, "zero:time", atol=1e-13 * (1 + np.abs(q.t[u]).max(initial=0) + abs(h)) + (1e-15 * big ** 2 if k == 3 else 0))
    c.label("nothing", type(s).__name__, k)


def there_back(c, rng, i):
    """Sent back, rays retrace their way and the path is taken off the clock again."""
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, str(rng.choice(BASES)), size, mild=True)
    sc = screen(rng, size)
    cs = gen.csys(rng)
    rv = gen.rays_at(rng, s, 40, size, cs=cs, spread=0.2, n_index=1.0, dist=0.2 * size * np.ones(40))
    b = mon.snap(batoid.intersect(s, rv.copy()))
    b["v"] = mon.local(mon.snap(rv), cs)[1].astype(float)
    rv = batoid.trace.refractScreen(s, rv, sc)
    u = ~rv.failed
    if not u.any():
        c.event()
        return
    q = mon.snap(rv[u])
    back = gen.build(q["r"], -q["v"], -q["t"], q["w"], q["f"], cs=cs)
    again = batoid.intersect(s, back.copy())        # may be another crossing of the surface
    near = ~np.array(again.failed) & (np.linalg.norm(np.array(again.r) - q["r"], axis=1) < 1e-10 * size)
    out = mon.snap(batoid.trace.refractScreen(s, back, sc))
    g = ~out["fail"]
    n = ref.normal(s, ref.ld(q["r"][:, 0]), ref.ld(q["r"][:, 1]))
    cosb = np.abs(np.sum(n * q["v"], -1)).astype(float)
    cosa = np.abs(np.sum(n * b["v"][u], -1)).astype(float)
    w = near & (cosb > 1e-2) & (cosa > 1e-2)
    c.ok(not np.any(w & ~g), "back:failed", "%d" % np.sum(w & ~g))
    w &= g
    c.close(out["v"][w], -b["v"][u][w], "back:direction", atol=1e-8)
    c.close(out["t"][w], -b["t"][u][w], "back:time", atol=1e-9 * (1 + size + np.abs(b["t"]).max()))
    c.label("back", type(s).__name__, type(sc).__name__, int(w.sum()) // 8)


def elements(c, rng, i):
    """Screens as elements: tracing either way, interaction, splitting, obscured."""
    size = 10 ** rng.uniform(-1, 0.7)
    s = gen.surf(rng, str(rng.choice(BASES)), size, mild=True)
    sc = screen(rng, size)
    cs = gen.csys(rng)
    ob = gen.obsc(rng, size) if rng.random() < 0.5 else None
    m = gen.medium(rng)
    el = batoid.OPDScreen(s, sc, name="S", coordSys=cs, obscuration=ob, inMedium=m, outMedium=m)
    rv = gen.express(gen.rays_at(rng, s, 40, size, cs=cs, spread=0.2, n_index=rng.choice([1.0, 1.4])), gen.csys(rng))
    b = mon.snap(rv)
    q = batoid.intersect(s, rv.copy(), coordSys=cs)
    hit = (~np.array(q.failed), np.array(q.r))
    k = int(rng.integers(6))
    if k == 0:
        out = el.trace(rv)
    elif k == 1:
        out = el.trace(rv, reverse=True)
    elif k == 2:
        out = el.interact(rv)
        ob = None
    elif k == 3:
        out = el.refract(rv)
        ob = None
    elif k == 4:
        out, other = el.rSplit(rv)
        c.ok(other is None or len(other) == 0, "element:reflected", "a screen reflects %r" % (other,))
        ob = None
    else:
        log = el.traceFull(rv)
        out = log["S"]["out"]
        c.ok(list(log) == ["S"], "element:log")
    a = mon.snap(out)
    if ob is not None:
        live = ~a["fail"]
        con, mar = ref.signed_contains(ob, a["r"][:, 0], a["r"][:, 1])
        sure = (mar > 1e-9 * (1 + size)) & live
        c.equal(a["vig"][sure], (b["vig"] | con)[sure], "element:obscured")
        a["vig"] = b["vig"] | a["fail"]
    judge(c, s, sc, b, a, cs, "element", hit)


def systems(c, rng, i):
    """Screens inside systems: every crossing in the recorded history, forward and backward."""
    nm = None
    if rng.random() < 0.5:
        T = gen.system(rng, screens=True)
        rv = gen.system_beam(rng, T, 40, wl=rng.uniform(4e-7, 9e-7))
    else:
        nm, T = gen.pick_scope(rng)
        rv = gen.beam(rng, nm, T, 40)
    names = [k for k in T.itemDict]
    leaves = gen.interfaces(T)
    q = leaves[int(rng.integers(len(leaves) - 1))]
    size = T.pupilSize
    # a screen right behind an element (in the medium it leaves into)
    sc = batoid.Zernike(rng.normal(size=12) * 10.0 ** rng.uniform(-7, -3), R_outer=size)
    S = batoid.OPDScreen(batoid.Plane() if rng.random() < 0.5 else batoid.Sphere(50.0), sc, name="SCREEN",
                         coordSys=q.coordSys.shiftLocal([0, 0, float(rng.normal() * 0.01)]), inMedium=q.outMedium, outMedium=q.outMedium)

    def put(o):
        if o is q:
            return [o, S]
        if hasattr(o, "items"):
            kids = [k for it in o.items for k in put(it)]
            if len(kids) == len(o.items) and all(a is b for a, b in zip(kids, o.items)):
                return [o]
            n = batoid.CompoundOptic(kids, name=o.name, coordSys=o.coordSys, inMedium=o.inMedium, outMedium=o.outMedium,
                                     skip=o.skip, **{k: getattr(o, k) for k in ("stopSurface", "backDist", "pupilSize", "pupilObscuration", "sphereRadius")
                                                     if hasattr(o, k)})
            return [n]
        return [o]
    T2 = put(T)[0]
    rev = rng.random() < 0.3
    if rev:
        out = T2.trace(rv.copy())
        ok = ~(out.failed | out.vignetted)
        if not ok.any():
            c.event()
            return
        z = mon.snap(out[ok])
        rv = gen.build(z["r"], -z["v"], -z["t"], z["w"], z["f"], cs=z["cs"])
    log = T2.traceFull(rv, reverse=bool(rev))
    seen = 0
    for name, ev in log.items():
        el = S if name.endswith("SCREEN") else next((w for w in leaves if w.name == ev["name"]), None)
        if not isinstance(el, batoid.OPDScreen):
            continue
        b, a = mon.snap(ev["in"]), mon.snap(ev["out"])
        a["vig"] = b["vig"] | a["fail"]
        judge(c, el.surface, el.screen, b, a, el.coordSys, "system")
        seen += 1
    c.ok(seen >= 1 or getattr(q, "skip", False) or any(getattr(T2[k], "skip", False) for k in T2.itemDict), "system:not-traced", "the screen is not in the history")
    if seen and not rev:
        # all forms of tracing agree
        o1 = T2.trace(rv.copy())
        o2 = list(log.values())[-1]["out"]
        c.equal(o1.v, o2.v, "system:forms")
        c.equal(o1.t, o2.t, "system:forms")
        p = T2.trace(rv.copy(), path=[k for k in log]) if len(set(log)) == len(log) else o1
        c.equal(p.t[~p.failed], o1.t[~p.failed], "system:path")
    c.label("system", nm or "random", seen, rev)


CASES = [
    ("crossings", crossings, 1200, 25000),
    ("nothing", nothing, 300, 6000),
    ("there_back", there_back, 300, 6000),
    ("elements", elements, 500, 10000),
    ("systems", systems, 150, 3000),
]
