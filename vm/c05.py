"""C05: every reflection event obeys the law of reflection at the surface point of its ray."""
import numpy as np
import batoid
from . import gen, mon, ref
from .c03 import wild


def intersections(s, rv, cs):
    q = s.intersect(rv.copy(), coordSys=cs)
    return ~np.array(q.failed), np.array(q.r)


def bundle(rng, s, size, cs, n=40):
    if rng.random() < 0.6:
        rv = gen.rays_at(rng, s, n, size, cs=cs, spread=rng.choice([0.02, 0.3, 2.0]), n_index=rng.choice([1.0, 1.5]))
    else:
        r, v = wild(rng, s, n, size)
        fail = rng.random(n) < 0.05
        rv = gen.build(r, v, rng.normal(size=n), rng.uniform(3e-7, 1e-6, n), gen.fluxes(rng, n),
                       fail | (rng.random(n) < 0.1), fail, cs=cs)
    return gen.express(rv, gen.csys(rng)) if rng.random() < 0.7 else rv


def surfaces(c, rng, i):
    kind = gen.SURFS[i % len(gen.SURFS)]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size)
    cs = gen.csys(rng)
    rv = bundle(rng, s, size, cs)
    b = mon.snap(rv)
    hit, P = intersections(s, rv, cs)
    co = gen.coating(rng) if rng.random() < 0.4 else None
    out = s.reflect(rv, coordSys=cs, coating=co)
    c.ok(out is rv, "in-place", "reflect does not return its argument")
    a = mon.snap(rv)
    mon.reflected(c, s, b, a, cs, kind, co)
    live = ~b["fail"]
    c.equal(a["fail"][live], ~hit[live], "fails-as-intersect", "reflection fails other rays than intersection")
    u = ~a["fail"]
    c.equal(a["r"][u], P[u], "point", "reflection point is not the intersection point")
    c.sample(surface=repr(s)[:200], rays=len(u), reflected=int(u.sum()))


def compose(c, rng, i):
    """Reflecting in a frame = transforming first; reflecting twice in place restores the velocity."""
    kind = gen.SURFS[i % len(gen.SURFS)]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size, mild=True)
    cs = gen.csys(rng)
    rv = gen.express(gen.rays_at(rng, s, 30, size, cs=cs, spread=0.2), gen.csys(rng))
    one = s.reflect(rv.copy(), coordSys=cs)
    two = s.reflect(rv.copy().toCoordSys(cs))
    u = ~(one.failed | two.failed)
    c.equal(one.failed, two.failed, "compose:failed")
    if kind == "Tilted" and not np.isfinite(one.v[u]).all():
        return
    sc = 1 + np.abs(one.r[u]).max(initial=0) + np.abs(cs.origin).max() + np.abs(rv.r).max()
    c.close(one.r[u], two.r[u], "compose:r", atol=1e-10 * sc)
    c.close(one.v[u], two.v[u], "compose:v", atol=1e-9)
    c.close(one.t[u], two.t[u], "compose:t", atol=1e-10 * sc)
    # again, in place: the crossing is where the rays are (conics: the lowest), so v comes back
    v0 = mon.local(mon.snap(rv), cs)[1]
    back = s.reflect(one[u])
    g = ~back.failed
    near = np.linalg.norm(back.r - one.r[u], axis=1) < 1e-9 * sc
    w = g & near
    if w.any():
        c.close(back.v[w], v0[u][w].astype(float), "twice:v", atol=1e-9)
    c.label("compose", kind, int(w.sum()) // 5)


def mirrors(c, rng, i):
    """Mirror elements, both directions, with coatings and obscurations."""
    size = 10 ** rng.uniform(-1, 0.7)
    s = gen.surf(rng, None, size, mild=True)
    cs = gen.csys(rng)
    ob = gen.obsc(rng, size) if rng.random() < 0.6 else None
    med = batoid.ConstMedium(float(rng.choice([1.0, 1.33])))
    m = batoid.Mirror(s, obscuration=ob, coordSys=cs, inMedium=med, outMedium=med, name="M")
    fw, rc = gen.coating(rng), gen.coating(rng)
    if rng.random() < 0.6:
        m.forwardCoating, m.reverseCoating = fw, rc
    rev = bool(rng.random() < 0.4)
    rv = gen.express(gen.rays_at(rng, s, 40, size, cs=cs, spread=0.2, n_index=med.n), gen.csys(rng))
    b = mon.snap(rv)
    a = mon.snap(m.trace(rv, reverse=rev))
    live = ~a["fail"]
    if ob is not None:
        con, mar = ref.signed_contains(ob, a["r"][:, 0], a["r"][:, 1])
        sure = mar > 1e-9 * (1 + size)
        c.equal(a["vig"][live & sure], (b["vig"] | con)[live & sure], "obscured")
    mon.reflected(c, s, b, dict(a, vig=b["vig"] | a["fail"]), cs, "mirror")   # plain tracing ignores coatings


def telescopes(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    tel_mirrors = {it.name for it in gen.interfaces(tel) if isinstance(it, batoid.Mirror)}
    log = tel.traceFull(gen.beam(rng, nm, tel, 60))
    for name, ev in log.items():
        if ev["name"] in tel_mirrors:
            it = tel[name]
            b, a = mon.snap(ev["in"]), mon.snap(ev["out"])
            a["vig"] = b["vig"] | a["fail"]
            u = mon.reflected(c, it.surface, b, a, it.coordSys, "tel")
            c.label("tel", nm, name, int(u.sum()) // 20)
    c.event()
    # the same beam back again: every mirror in reverse
    out = tel.trace(gen.beam(rng, nm, tel, 30))
    ok = ~(out.failed | out.vignetted)
    if ok.any():
        q = mon.snap(out[ok])
        back = gen.build(q["r"], -q["v"], -q["t"], q["w"], q["f"], cs=q["cs"])
        for name, ev in tel.traceFull(back, reverse=True).items():
            if ev["name"] in tel_mirrors:
                it = tel[name.rsplit("_", 1)[0]] if name not in tel.itemDict else tel[name]
                b, a = mon.snap(ev["in"]), mon.snap(ev["out"])
                a["vig"] = b["vig"] | a["fail"]
                mon.reflected(c, it.surface, b, a, it.coordSys, "tel-back")


CASES = [
    ("surfaces", surfaces, 1200, 20000),
    ("compose", compose, 400, 6000),
    ("mirrors", mirrors, 400, 6000),
    ("telescopes", telescopes, 80, 1500),
]
