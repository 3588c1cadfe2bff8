"""C06: every refraction event obeys Snell's law at the ray's own wavelength, sets the speed, fails totally reflected rays."""
import numpy as np
import batoid
from . import gen, mon, ref
from .c05 import intersections
from .c03 import wild


def media(rng):
    """(m1, m2, wavelengths) incl. dispersive pairs and both orders."""
    m1 = gen.medium(rng)
    m2 = gen.medium(rng)
    if rng.random() < 0.1:
        m2 = m1
    if rng.random() < 0.25:
        m1, m2 = batoid.ConstMedium(float(rng.uniform(1.3, 2.2))), batoid.ConstMedium(float(rng.uniform(1, 1.3)))
    return m1, m2


def bundle(rng, s, size, cs, m1, n=40, wide=None):
    wl = rng.uniform(320e-9, 1100e-9, n)
    n1 = np.array(ref.index(m1, wl), float)
    wide = rng.random() < 0.4 if wide is None else wide
    if wide:
        r, d = wild(rng, s, n, size)
        d = d / np.linalg.norm(d, axis=1)[:, None]
        fail = rng.random(n) < 0.05
        rv = gen.build(r, d / n1[:, None], rng.normal(size=n), wl, gen.fluxes(rng, n), fail | (rng.random(n) < 0.1), fail, cs=cs)
    else:
        q = gen.rays_at(rng, s, n, size, cs=cs, spread=rng.choice([0.02, 0.3, 1.5]))
        rv = gen.build(q.r, q.v / n1[:, None], q.t, wl, q.flux, q.vignetted, q.failed, cs=cs)
    return gen.express(rv, gen.csys(rng)) if rng.random() < 0.7 else rv


def surfaces(c, rng, i):
    kind = gen.SURFS[i % len(gen.SURFS)]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size)
    cs = gen.csys(rng)
    m1, m2 = media(rng)
    if i % 7 == 0:
        m2 = batoid.TableMedium([400e-9, 700e-9, 800e-9], [1.4, 1.5, 1.45])   # has no index at most wavelengths
    rv = bundle(rng, s, size, cs, m1)
    b = mon.snap(rv)
    hm = intersections(s, rv, cs)
    co = gen.coating(rng) if rng.random() < 0.4 else None
    out = s.refract(rv, m1, m2, coordSys=cs, coating=co)
    c.ok(out is rv, "in-place", "refract does not return its argument")
    a = mon.snap(rv)
    u = mon.refracted(c, s, b, a, cs, m2, kind, co, hm)
    c.sample(surface=repr(s)[:200], m1=repr(m1)[:100], m2=repr(m2)[:100], rays=len(u), refracted=int(u.sum()))


def critical(c, rng, i):
    """Bundles straddling the critical angle on a plane, from either side, in any frame."""
    n1, n2 = rng.uniform(1.35, 2.2), rng.uniform(1.0, 1.3)
    s = [batoid.Plane(), batoid.Tilted(*(rng.normal(size=2) * 0.2)), batoid.Sphere(rng.choice([-1, 1]) * 50.0),
         batoid.Paraboloid(30.0)][i % 4]
    k = 60
    x, y = rng.uniform(-1, 1, (2, k))
    nn = np.asarray(ref.normal(s, x, y), float)
    th_c = np.arcsin(n2 / n1)
    th = np.clip(th_c + rng.choice([1e-8, 1e-5, 1e-2, 0.3], k) * rng.normal(size=k), 0, 1.56)
    e = np.cross(nn, rng.normal(size=(k, 3)))
    e /= np.linalg.norm(e, axis=1)[:, None]
    side = rng.choice([-1, 1], (k, 1))
    d = side * nn * np.cos(th)[:, None] + e * np.sin(th)[:, None]
    p = np.stack([x, y, np.asarray(ref.sag(s, x, y), float)], axis=1)
    dist = rng.choice([0.0, 0.5, -0.5], k)
    cs = gen.csys(rng)
    rv = gen.build(p - d * dist[:, None], d / n1, np.zeros(k), np.full(k, 5e-7), np.ones(k), cs=cs)
    rv = gen.express(rv, gen.csys(rng))
    b = mon.snap(rv)
    hm = intersections(s, rv, cs)
    s.refract(rv, batoid.ConstMedium(n1), batoid.ConstMedium(n2), coordSys=cs)
    u = mon.refracted(c, s, b, mon.snap(rv), cs, batoid.ConstMedium(n2), "critical", None, hm)
    c.label("critical", type(s).__name__, int(u.sum()) // 5)


def compose(c, rng, i):
    """Frame given = transform first; m1->m2->m1 at one surface restores the velocity; same media change nothing."""
    kind = gen.SURFS[i % len(gen.SURFS)]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size, mild=True)
    cs = gen.csys(rng)
    m1, m2 = media(rng)
    rv = bundle(rng, s, size, cs, m1, 30, wide=False)
    one = s.refract(rv.copy(), m1, m2, coordSys=cs)
    two = s.refract(rv.copy().toCoordSys(cs), m1, m2)
    u = ~(one.failed | two.failed)
    if u.any():
        sc = 1 + np.abs(one.r[u]).max() + np.abs(cs.origin).max() + np.abs(rv.r).max()
        c.close(one.r[u], two.r[u], "compose:r", atol=1e-10 * sc)
        v0 = mon.local(mon.snap(rv), cs)[1][u].astype(float)
        n1, n2 = 1 / np.linalg.norm(v0, axis=1), 1 / np.linalg.norm(one.v[u], axis=1)
        n = np.asarray(ref.normal(s, one.r[u][:, 0], one.r[u][:, 1]), float)
        cosg = np.abs(np.sum(one.v[u] * n, axis=1) * n2)
        k = cosg > 1e-2
        c.close(one.v[u][k], two.v[u][k], "compose:v", atol=1e-7)
        back = s.refract(one[u], m2, m1)
        near = ~back.failed & (np.linalg.norm(back.r - one.r[u], axis=1) < 1e-9 * sc) & k & (np.abs(np.sum(v0 * n, axis=1) * n1) > 1e-2)
        if near.any():
            c.close(back.v[near], v0[near], "back:v", atol=1e-7)
        same = s.refract(rv.copy(), m1, m1, coordSys=cs)
        w = ~same.failed & (np.abs(np.sum(mon.local(mon.snap(rv), cs)[1] * ref.normal(s, same.r[:, 0], same.r[:, 1]), axis=1)) > 1e-3)
        c.close(same.v[w], mon.local(mon.snap(rv), cs)[1][w].astype(float), "same-medium:v", atol=1e-9)
    c.event()
    c.label("compose", kind, int(u.sum()) // 5)


def elements(c, rng, i):
    """RefractiveInterface elements in both directions."""
    size = 10 ** rng.uniform(-1, 0.7)
    s = gen.surf(rng, None, size, mild=True)
    cs = gen.csys(rng)
    m1, m2 = media(rng)
    ob = gen.obsc(rng, size) if rng.random() < 0.5 else None
    it = batoid.RefractiveInterface(s, obscuration=ob, coordSys=cs, inMedium=m1, outMedium=m2, name="I")
    if rng.random() < 0.6:
        it.forwardCoating, it.reverseCoating = gen.coating(rng), gen.coating(rng)
    rev = bool(rng.random() < 0.5)
    rv = bundle(rng, s, size, cs, m2 if rev else m1)
    b = mon.snap(rv)
    hm = intersections(s, rv, cs)
    a = mon.snap(it.trace(rv, reverse=rev))
    live = ~a["fail"]
    if ob is not None:
        con, mar = ref.signed_contains(ob, a["r"][:, 0], a["r"][:, 1])
        sure = mar > 1e-9 * (1 + size)
        c.equal(a["vig"][live & sure], (b["vig"] | con)[live & sure], "obscured")
    mon.refracted(c, s, b, dict(a, vig=b["vig"] | a["fail"]), cs, m1 if rev else m2, "element", None, hm)


def telescopes(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    ri = {it.name for it in gen.interfaces(tel) if type(it) is batoid.RefractiveInterface}
    rv = gen.beam(rng, nm, tel, 60)
    n = len(rv)
    lo, hi = (330e-9, 400e-9) if "_u" in nm else (550e-9, 690e-9)
    wl = rng.uniform(lo, hi, n)          # every ray its own wavelength
    rv = gen.build(rv.r, rv.v, rv.t, wl, rv.flux, rv.vignetted, rv.failed, cs=rv.coordSys)
    log = tel.traceFull(rv)
    for name, ev in log.items():
        if ev["name"] in ri:
            it = tel[name]
            b, a = mon.snap(ev["in"]), mon.snap(ev["out"])
            hm = intersections(it.surface, ev["in"], it.coordSys)
            a["vig"] = b["vig"] | a["fail"]
            u = mon.refracted(c, it.surface, b, a, it.coordSys, it.outMedium, "tel", None, hm)
            c.label("tel", nm, name, int(u.sum()) // 20)
    c.event()
    out = tel.trace(gen.beam(rng, nm, tel, 30))
    ok = ~(out.failed | out.vignetted)
    if ok.any():
        q = mon.snap(out[ok])
        back = gen.build(q["r"], -q["v"], -q["t"], q["w"], q["f"], cs=q["cs"])
        for name, ev in tel.traceFull(back, reverse=True).items():
            if ev["name"] in ri and name in tel.itemDict:
                it = tel[name]
                b, a = mon.snap(ev["in"]), mon.snap(ev["out"])
                a["vig"] = b["vig"] | a["fail"]
                mon.refracted(c, it.surface, b, a, it.coordSys, it.inMedium, "tel-back")


CASES = [
    ("surfaces", surfaces, 1200, 20000),
    ("critical", critical, 400, 6000),
    ("compose", compose, 400, 6000),
    ("elements", elements, 400, 6000),
    ("telescopes", telescopes, 80, 1500),
]
