"""C12: ray splitting partitions flux; split tracing finds every path once with the right rays and flux."""
import copy
import numpy as np
import batoid
from . import gen, mon, ref
from .c05 import intersections
from .c06 import media, bundle
from .c13 import leaves, mark_skips


def coefs(c, rng, i):
    R, T = rng.uniform(0, 1, 2)
    co = batoid.SimpleCoating(R, T)
    w, k = rng.uniform(3e-7, 1e-6, 5), rng.uniform(-1, 1, 5)
    r, t = co.getCoefs(w[0], k[0])
    c.ok(r == R and t == T, "coefs", "%r %r" % (r, t))
    c.ok(co.getReflect(w[0], k[0]) == R, "reflect")
    c.ok(co.getTransmit(w[0], k[0]) == T, "transmit")
    c.label("coefs", int(R * 10), int(T * 10))


def surfaces(c, rng, i):
    """rSplit on one surface against the laws of reflection and refraction."""
    kind = gen.SURFS[i % len(gen.SURFS)]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size)
    while kind == "Tilted" and s.tanx ** 2 + s.tany ** 2 > 0.4:
        s = gen.surf(rng, kind, size)
    cs = gen.csys(rng)
    m1, m2 = media(rng)
    rv = bundle(rng, s, size, cs, m1)
    given = {"coordSys": cs}
    if rng.random() < 0.3:                               # rays in the surface's own frame, none given
        rv, given = gen.express(rv, cs), {}
    b = mon.snap(rv)
    hm = intersections(s, rv, cs)
    co = gen.coating(rng)
    r1, r2 = s.refract(rv.copy(), m1, m2, coordSys=cs), s.reflect(rv.copy(), coordSys=cs)
    mode = i % 3
    if mode == 0:
        t, r = s.rSplit(rv, m1, m2, co, **given)
    elif mode == 1:
        t, r = batoid.rSplit(s, rv, m1, m2, co, **given)
    else:
        kw = dict(coordSys=cs, inMedium=m1, outMedium=m2)
        other = gen.coating(rng)
        if i % 2:
            e = batoid.RefractiveInterface(s, forwardCoating=co, reverseCoating=other, **kw)
            t, r = e.rSplit(rv)
        else:
            kw.update(inMedium=m2, outMedium=m1)
            e = batoid.RefractiveInterface(s, forwardCoating=other, reverseCoating=co, **kw)
            t, r = e.rSplit(rv, reverse=True)
    c.ok(t is not None and r is not None and r is not t, "returns")
    at, ar = mon.snap(t), mon.snap(r)
    if kind != "Tilted":     # judged against the laws (the normal of tilted planes is a known finding of C04-C06)
        mon.refracted(c, s, b, at, cs, m2, "split:" + kind, co, hm)
        mon.reflected(c, s, b, ar, cs, "split:" + kind, co)
    # the same rays as refracting and reflecting
    for a, w, k, f in ((at, mon.snap(r1), "refracted", co.transmissivity), (ar, mon.snap(r2), "reflected", co.reflectivity)):
        c.equal(a["fail"], w["fail"], k + ":failed", repr(s)[:200])
        c.equal(a["vig"], w["vig"], k + ":vignetted")
        u = ~w["fail"]
        sc = mon.scale_of(b, cs) + np.abs(w["r"][u]).max(initial=0)
        c.close(a["r"][u], w["r"][u], k + ":r", atol=1e-11 * sc)
        c.close(a["v"][u], w["v"][u], k + ":v", atol=1e-9)
        c.close(a["t"][u], w["t"][u], k + ":t", atol=1e-11 * sc)
        c.close(a["f"][u], b["f"][u] * f, k + ":flux", rtol=1e-14)
        c.ok(a["cs"] == cs, k + ":frame")
    both = ~at["fail"] & ~ar["fail"]
    c.ok(np.all((at["f"] + ar["f"])[both] <= b["f"][both] * (co.reflectivity + co.transmissivity) * (1 + 1e-14)), "sum")
    c.label("surface", kind, mode, int(at["fail"].mean() * 4), int(ar["fail"].mean() * 4))
    c.sample(surface=repr(s)[:160], coating=repr(co), refracted=int((~at["fail"]).sum()), reflected=int((~ar["fail"]).sum()))


def elements(c, rng, i):
    """What each kind of element does when asked to split, and flux under coatings of plain operations."""
    size = 1.0
    s = gen.surf(rng, str(rng.choice(["Plane", "Sphere", "Paraboloid", "Quadric", "Asphere"])), size, True)
    cs = gen.csys(rng)
    med = batoid.ConstMedium(rng.uniform(1, 1.6))
    rv = gen.express(gen.rays_at(rng, s, 30, size, cs=cs, n_index=med.n), gen.csys(rng))
    b = mon.snap(rv)
    kw = dict(name="E", coordSys=cs, inMedium=med, outMedium=med)
    rev = bool(rng.random() < 0.5)
    which = i % 4

    def alike(a, w, tag, f=1.0):
        a, w = mon.snap(a), mon.snap(w)
        c.equal(a["fail"], w["fail"], tag + ":failed")
        c.equal(a["vig"], w["vig"], tag + ":vignetted")
        u = ~w["fail"]
        c.close(a["r"][u], w["r"][u], tag + ":r", atol=1e-10)
        c.close(a["v"][u], w["v"][u], tag + ":v", atol=1e-10)
        c.close(a["t"][u], w["t"][u], tag + ":t", atol=1e-10)
        c.close(a["f"][u], b["f"][u] * f, tag + ":flux", rtol=1e-13)
        c.ok(a["cs"] == cs, tag + ":frame")
    if which == 0:
        t, r = batoid.Mirror(s, **kw).rSplit(rv.copy(), reverse=rev)
        c.ok(t is None, "mirror:transmits")
        alike(r, s.reflect(rv.copy(), coordSys=cs), "mirror")
    elif which == 1:
        t, r = batoid.Baffle(s, **kw).rSplit(rv.copy(), reverse=rev)
        c.ok(r is None, "baffle:reflects")
        alike(t, s.intersect(rv.copy(), coordSys=cs), "baffle")
    elif which == 2:
        t, r = batoid.Detector(s, **kw).rSplit(rv.copy())
        alike(t, s.intersect(rv.copy(), coordSys=cs), "detector")
        alike(r, s.reflect(rv.copy(), coordSys=cs), "detector:reflected", 0.0)
        co = gen.coating(rng)
        t, r = batoid.Detector(s, forwardCoating=co, **kw).rSplit(rv.copy())
        alike(t, s.intersect(rv.copy(), coordSys=cs), "detector", co.transmissivity)
        alike(r, s.reflect(rv.copy(), coordSys=cs), "detector:reflected", co.reflectivity)
    else:
        sc = batoid.Zernike(rng.normal(size=8) * 1e-5, R_outer=2.0)
        t, r = batoid.OPDScreen(s, sc, **kw).rSplit(rv.copy(), reverse=rev)
        c.ok(r is None, "screen:reflects")
        alike(t, s.refractScreen(rv.copy(), sc, coordSys=cs), "screen")
    # a refractive element with no coating given passes everything
    t, r = batoid.RefractiveInterface(s, **kw).rSplit(rv.copy(), reverse=rev)
    alike(t, s.intersect(rv.copy(), coordSys=cs), "uncoated")
    alike(r, s.reflect(rv.copy(), coordSys=cs), "uncoated:reflected", 0.0)
    # coatings of plain operations
    co = gen.coating(rng)
    for op, f, kk in (("intersect", co.transmissivity, ()), ("reflect", co.reflectivity, ()), ("refract", co.transmissivity, (med, med))):
        q = getattr(s, op)(rv.copy(), *kk, coordSys=cs, coating=co)
        u = ~q.failed
        c.close(q.flux[u], b["f"][u] * f, op + ":coating", rtol=1e-14)
        q = getattr(s, op)(rv.copy(), *kk, coordSys=cs)
        c.equal(q.flux, b["f"], op + ":uncoated-flux")
    # an element's coatings do not act unless rays are split
    e = batoid.RefractiveInterface(s, forwardCoating=co, reverseCoating=gen.coating(rng), **kw)
    c.equal(e.trace(rv.copy(), reverse=rev).flux, b["f"], "trace:flux")
    c.label("element", which, rev, type(s).__name__)


def outcomes(it, rv, reverse):
    """(transmitted, reflected) bundles of one element by documented rules; None where there is none."""
    s, cs = it.surface, it.coordSys
    if isinstance(it, batoid.Mirror):
        return None, s.reflect(rv.copy(), coordSys=cs)
    if isinstance(it, batoid.Baffle):
        return s.intersect(rv.copy(), coordSys=cs), None
    if isinstance(it, batoid.OPDScreen):
        return s.refractScreen(rv.copy(), it.screen, coordSys=cs), None
    m1, m2 = (it.outMedium, it.inMedium) if reverse else (it.inMedium, it.outMedium)
    co = it.reverseCoating if reverse else it.forwardCoating
    t = s.refract(rv.copy(), m1, m2, coordSys=cs)
    r = s.reflect(rv.copy(), coordSys=cs)
    t.flux[:] *= co.transmissivity
    r.flux[:] *= co.reflectivity
    return t, r


def walk(seq, rv, minFlux, reverse, exact=False):
    """Every path through the sequence of surfaces: {(direction, path): recorded rays}, and rays (by wavelength)
    that came too close to an edge or to the flux limit to be sure about."""
    out, unsure, steps = {}, set(), 0
    q = [(rv, len(seq) - 1 if reverse else 0, -1 if reverse else 1, ())]
    while q:
        rays, k, d, path = q.pop()
        it = seq[k]
        steps += 1
        t, r = outcomes(it, rays, d < 0)
        mirror = isinstance(it, batoid.Mirror)
        for bundle_, nd in ((t, d), (r, d if mirror else -d)):
            if bundle_ is None:
                continue
            m = mon.snap(bundle_)
            vig = m["vig"].copy()
            if it.obscuration is not None:
                con, mar = ref.signed_contains(it.obscuration, m["r"][:, 0], m["r"][:, 1])
                unsure |= set(m["w"][(np.asarray(mar, float) < 1e-9) & ~vig])
                vig |= con
            if not exact:
                unsure |= set(m["w"][(np.abs(m["f"] - minFlux) < 1e-9 * minFlux) & ~vig])
            keep = ~vig & (m["f"] >= minFlux)
            if not keep.any():
                continue
            sel = gen.build(m["r"][keep], m["v"][keep], m["t"][keep], m["w"][keep], m["f"][keep], cs=m["cs"])
            p = path + (it.name,)
            nk = k + nd
            if 0 <= nk < len(seq):
                q.append((sel, nk, nd, p))
            else:
                out[("fwd" if nd > 0 else "rev", p)] = mon.snap(sel)
    return out, unsure, steps


def split(c, s, rv, minFlux, reverse, tag, explicit=True, exact=False):
    seq = leaves(s)
    b = mon.snap(rv)
    f, r = s.traceSplit(rv.copy(), minFlux=minFlux, reverse=reverse)
    want, unsure, steps = walk(seq, rv.copy(), minFlux, reverse, exact)
    got = {}
    tot = {}
    for d, lst in (("fwd", f), ("rev", r)):
        for rr in lst:
            key = (d, tuple(rr.path))
            c.ok(key not in got, tag + ":path-twice", str(key))
            got[key] = m = mon.snap(rr)
            c.ok(len(m["w"]) > 0, tag + ":empty-path", str(key))
            for w, fl in zip(m["w"], m["f"]):
                tot[w] = tot.get(w, 0) + fl
    for w, fl in zip(b["w"], b["f"]):
        c.ok(tot.get(w, 0) <= fl * (1 + 1e-12), tag + ":more-flux", "%r came in, %r went out" % (fl, tot.get(w)))
    for key in set(want) | set(got):
        a, w = got.get(key), want.get(key)
        aw = set(a["w"]) if a else set()
        ww = set(w["w"]) if w else set()
        diff = (aw ^ ww) - unsure
        c.ok(not diff, tag + ":rays", "%s: %d rays reported, %d expected; %d differ" % (key, len(aw), len(ww), len(diff)))
        both = sorted(aw & ww)
        if not both:
            continue
        ia = [list(a["w"]).index(x) for x in both]
        iw = [list(w["w"]).index(x) for x in both]
        last = s[key[1][-1]]
        c.ok(a["cs"] == last.coordSys, tag + ":frame", str(key))
        c.ok(not a["vig"].any() and not a["fail"].any(), tag + ":vignetted", str(key))
        c.ok(np.all(a["f"] >= minFlux), tag + ":limit", str(key))
        sc = 1e-8 * (10 + np.abs(w["r"]).max())
        c.close(a["r"][ia], w["r"][iw], tag + ":r", atol=sc, msg=str(key))
        c.close(a["v"][ia], w["v"][iw], tag + ":v", atol=1e-8, msg=str(key))
        c.close(a["t"][ia], w["t"][iw], tag + ":t", atol=sc, msg=str(key))
        c.close(a["f"][ia], w["f"][iw], tag + ":flux", rtol=1e-12, msg=str(key))
        if explicit and not reverse and len(seq) > 1:
            e = mon.snap(s.trace(rv.copy(), path=list(key[1])))
            ie = [list(e["w"]).index(x) for x in both]
            c.ok(not e["vig"][ie].any() and not e["fail"][ie].any(), tag + ":explicit:vignetted", str(key))
            c.close(a["r"][ia], e["r"][ie], tag + ":explicit:r", atol=sc, msg=str(key))
            c.close(a["v"][ia], e["v"][ie], tag + ":explicit:v", atol=1e-8, msg=str(key))
            c.close(a["t"][ia], e["t"][ie], tag + ":explicit:t", atol=sc, msg=str(key))
            c.ok(e["cs"] == a["cs"], tag + ":explicit:frame")
    c.note("paths", len(got))
    c.note("elements-visited", steps)
    return got


def beamed(rng, s, n=12):
    rv = gen.system_beam(rng, s, n)
    f = rng.random(n) < 0.05
    v = f | (rng.random(n) < 0.08)
    if rng.random() < 0.06:     # nothing left of the light
        f, v = f | (rng.random() < 0.5), v | True
    return gen.build(rv.r, rv.v, rv.t, np.sort(rng.uniform(4e-7, 9e-7, n)), rng.uniform(0.2, 1.5, n), v, f, cs=rv.coordSys)


def systems(c, rng, i):
    s = gen.system(rng, split=True, screens=True, nelem=int(rng.integers(1, 5)), depthmax=3)
    hi = rng.choice([0.1, 0.4])
    for q in leaves(s, skips=False):
        if isinstance(q, batoid.RefractiveInterface) and rng.random() < 0.8:
            r = rng.uniform(0, hi)
            q.forwardCoating = batoid.SimpleCoating(r, (1 - r) * rng.uniform(0.7, 1))
            r = rng.uniform(0, hi)
            q.reverseCoating = batoid.SimpleCoating(r, (1 - r) * rng.uniform(0.7, 1))
        elif isinstance(q, batoid.RefractiveInterface):
            pass
        elif isinstance(q, batoid.Detector) and rng.random() < 0.6:
            r = rng.uniform(0, hi)
            q.forwardCoating = batoid.SimpleCoating(r, 1 - r)
    k = mark_skips(rng, s) if rng.random() < 0.3 else 0
    if not leaves(s):
        c.event()
        return
    rv = beamed(rng, s)
    if rng.random() < 0.5:
        rv = gen.express(rv, gen.csys(rng, 3))
    mf = 10 ** rng.uniform(-2.5, -0.5)
    seq = leaves(s)
    # half a lens skipped: light reaches elements declared to be in another medium, plain tracing and splitting may differ there
    solid = [q for q in seq if not isinstance(q, batoid.Baffle)]
    one_medium = all(a.outMedium == b.inMedium for a, b in zip(solid, solid[1:]))
    got = split(c, s, rv, mf, False, "sys", k == 0 or one_medium)
    c.label("system", len(seq), k > 0, len(got), *sorted({type(q).__name__ for q in seq}))
    c.sample(surfaces=[q.name for q in seq], paths=len(got), minFlux=mf)


def backwards(c, rng, i):
    """Split tracing in reverse, from the far end of a system without its detector."""
    s = gen.system(rng, split=True, nelem=int(rng.integers(2, 5)), depthmax=2)
    seq = leaves(s)
    s = batoid.CompoundOptic([it for it in s.items if not any(isinstance(q, batoid.Detector) for q in leaves(it))] or list(s.items)[:1], name="Whole")
    if any(isinstance(q, batoid.Detector) for q in leaves(s)):
        c.event()
        return
    rv = beamed(rng, s)
    rv = gen.build(rv.r, rv.v, rv.t, rv.wavelength, rv.flux, cs=rv.coordSys)
    o = s.trace(rv.copy())
    ok = ~o.vignetted
    if not ok.any():
        c.event()
        return
    m = mon.snap(o[ok])
    back = gen.build(m["r"], -m["v"], -m["t"], m["w"], m["f"], cs=m["cs"])
    got = split(c, s, back, 10 ** rng.uniform(-2, -0.5), True, "back", False)
    c.label("back", len(leaves(s)), len(got))


def telescopes(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    tel = copy.deepcopy(tel)
    for q in gen.interfaces(tel):
        if isinstance(q, batoid.RefractiveInterface):
            r1, r2 = rng.uniform(0, 0.06, 2)
            q.forwardCoating = batoid.SimpleCoating(r1, 1 - r1)
            q.reverseCoating = batoid.SimpleCoating(r2, 1 - r2)
        elif isinstance(q, batoid.Detector):
            q.forwardCoating = batoid.SimpleCoating(0.05, 0.95)
    rv = gen.beam(rng, nm, tel, 10)
    m = mon.snap(rv)
    rv = gen.build(m["r"], m["v"], m["t"], m["w"] * (1 + 1e-6 * np.arange(10)), np.ones(10), cs=m["cs"])
    got = split(c, tel, rv, 0.01 if i % 2 else 2e-3, False, "tel")
    c.label("telescope", nm, min(len(got), 50) // 5)


def limit(c, rng, i):
    """Fluxes that are exact powers of two, so that many rays sit exactly on the limit: those are still followed."""
    s = gen.system(rng, split=True, screens=True, nelem=int(rng.integers(1, 4)), depthmax=2)
    pairs = [(0.5, 0.5), (0.25, 0.5), (0.125, 0.5), (0.0625, 0.5), (0.0, 1.0)]
    for q in leaves(s, skips=False):
        if isinstance(q, (batoid.RefractiveInterface, batoid.Detector)):
            q.forwardCoating = batoid.SimpleCoating(*pairs[rng.integers(5)])
            q.reverseCoating = batoid.SimpleCoating(*pairs[rng.integers(5)])
    if not leaves(s):
        c.event()
        return
    rv = beamed(rng, s)
    n = len(rv)
    rv = gen.build(rv.r, rv.v, rv.t, rv.wavelength, rng.choice([1.0, 0.5, 2.0], n), rv.vignetted, rv.failed, cs=rv.coordSys)
    mf = 2.0 ** -int(rng.integers(0, 7))
    solid = [q for q in leaves(s) if not isinstance(q, batoid.Baffle)]
    one_medium = all(a.outMedium == b.inMedium for a, b in zip(solid, solid[1:]))
    got = split(c, s, rv, mf, False, "limit", one_medium, exact=True)
    at = sum(int((q["f"] == mf).sum()) for q in got.values())
    c.label("limit", mf, len(leaves(s)), min(at, 5))
    c.sample(paths=len(got), minFlux=mf, rays_exactly_at_the_limit=at)


def conserve(c, rng, i):
    """Loss-free, unobscured systems: everything comes out again, down to the flux limit."""
    s = gen.system(rng, split=True, mirrors=False, obscured=False, media=False, nelem=int(rng.integers(1, 4)))
    for q in leaves(s):
        r = rng.uniform(0, 0.2)
        if isinstance(q, batoid.RefractiveInterface):
            q.forwardCoating = q.reverseCoating = batoid.SimpleCoating(r, 1 - r)
        elif isinstance(q, batoid.Detector):
            q.forwardCoating = batoid.SimpleCoating(0, 1)
    n = 10
    rv = gen.system_beam(rng, s, n)
    rv = gen.build(rv.r, rv.v, rv.t, np.sort(rng.uniform(4e-7, 9e-7, n)), np.ones(n))
    mf = 3e-4
    f, r = s.traceSplit(rv.copy(), minFlux=mf)
    tot = sum(float(q.flux.sum()) for q in f + r) / n
    direct = s.trace(rv.copy())
    if not direct.vignetted.any():
        c.ok(tot <= 1 + 1e-12, "gain", "total %r" % tot)
        c.ok(tot > 0.9, "loss", "total %r with lossless coatings" % tot)
    else:
        c.event()
    for a, w, k in zip(s.traceSplit(rv.copy()), s.traceSplit(rv.copy(), minFlux=1e-3), ("forward", "reverse")):
        c.ok([(tuple(q.path), len(q)) for q in a] == [(tuple(q.path), len(q)) for q in w], "default-limit:" + k)
    # continuing an existing path
    rv.path = ["elsewhere"]
    g, _ = s.traceSplit(rv, minFlux=mf)
    c.ok(sorted(tuple(q.path) for q in g) == sorted(("elsewhere",) + tuple(q.path) for q in f), "path-continued")
    c.label("conserve", len(leaves(s)), int(100 * (1 - tot)))


CASES = [
    ("coefs", coefs, 20, 200),
    ("surfaces", surfaces, 600, 15000),
    ("limit", limit, 120, 1500),
    ("elements", elements, 300, 6000),
    ("systems", systems, 160, 3000),
    ("backwards", backwards, 80, 1500),
    ("telescopes", telescopes, 24, 300),
    ("conserve", conserve, 60, 1000),
]
