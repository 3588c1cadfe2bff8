"""C13: every form of tracing a system against an independent step-by-step tracer over its public tree."""
import numpy as np
import batoid
from . import gen, mon, ref

KEYS = ("r", "v", "t", "w", "f", "vig", "fail")


def leaves(o, reverse=False, skips=True):
    """Interfaces in the order light meets them, skipped elements left out."""
    if not hasattr(o, "items"):
        return [o]
    out = []
    for it in (reversed(o.items) if reverse else o.items):
        if not (skips and it.skip):
            out += leaves(it, reverse, skips)
    return out


def step(it, rv, reverse=False):
    """What the documentation says one element does to rays (on a copy), without the element's own code."""
    rv = rv.copy()
    s, cs = it.surface, it.coordSys
    if isinstance(it, batoid.Mirror):
        s.reflect(rv, coordSys=cs)
    elif isinstance(it, batoid.RefractiveInterface):
        m1, m2 = (it.outMedium, it.inMedium) if reverse else (it.inMedium, it.outMedium)
        s.refract(rv, m1, m2, coordSys=cs)
    elif isinstance(it, batoid.OPDScreen):
        s.refractScreen(rv, it.screen, coordSys=cs)
    else:
        s.intersect(rv, coordSys=cs)
    return rv


def judge(c, it, before, after, tag, reverse=False):
    """One element's observed in/out pair."""
    want = mon.snap(step(it, before, reverse))
    a = mon.snap(after)
    sc = mon.scale_of(mon.snap(before), it.coordSys)
    c.ok(a["cs"] == it.coordSys, tag + ":frame", it.name)
    c.equal(a["fail"], want["fail"], tag + ":failed", it.name)
    u = ~want["fail"]
    c.close(a["r"][u], want["r"][u], tag + ":r", atol=1e-11 * sc, msg=it.name)
    c.close(a["v"][u], want["v"][u], tag + ":v", atol=1e-10, msg=it.name)
    c.close(a["t"][u], want["t"][u], tag + ":t", atol=1e-11 * sc, msg=it.name)
    c.close(a["f"][u], want["f"][u], tag + ":flux", rtol=1e-13, msg=it.name)
    c.equal(a["w"], want["w"], tag + ":wavelength", it.name)
    if it.obscuration is None:
        c.equal(a["vig"], want["vig"], tag + ":vignetted", "nothing obscures at %s" % it.name)
    else:
        con, mar = ref.signed_contains(it.obscuration, want["r"][:, 0], want["r"][:, 1])
        sure = (mar > 1e-9 * sc) & u
        c.equal(a["vig"][sure], (want["vig"] | con)[sure], tag + ":vignetted", "obscuration of %s" % it.name)
        n = int(np.sum(con & ~want["vig"] & sure))
        if n:
            c.note("newly-vignetted", n)
    return a


def same(c, a, b, tag, sc=10.0, msg=""):
    c.ok(a["cs"] == b["cs"], tag + ":frame", msg)
    c.equal(a["fail"], b["fail"], tag + ":failed", msg)
    c.equal(a["vig"], b["vig"], tag + ":vignetted", msg)
    u = ~b["fail"]
    c.close(a["r"][u], b["r"][u], tag + ":r", atol=1e-11 * sc, msg=msg)
    c.close(a["v"][u], b["v"][u], tag + ":v", atol=1e-10, msg=msg)
    c.close(a["t"][u], b["t"][u], tag + ":t", atol=1e-11 * sc, msg=msg)
    c.close(a["f"][u], b["f"][u], tag + ":flux", rtol=1e-13, msg=msg)
    c.equal(a["w"], b["w"], tag + ":wavelength", msg)


def allforms(c, s, rv, tag, reverse=False, rng=None):
    """trace, traceFull, element by element, item by item, explicit path: one computation."""
    before = mon.snap(rv)
    log = s.traceFull(rv, reverse=reverse)
    now = mon.snap(rv)
    for k in KEYS:
        c.equal(now[k], before[k], tag + ":input-modified", k)
    c.ok(now["cs"] == before["cs"], tag + ":input-modified", "frame")
    seq = leaves(s, reverse)
    c.ok(list(log) == [q.name for q in seq], tag + ":surfaces", "log has %s, light meets %s" % (list(log), [q.name for q in seq]))
    sc = 10 + np.abs(before["r"]).max(initial=0)
    prev = before
    for q in seq:
        ev = log[q.name]
        c.ok(ev["name"] == q.name, tag + ":name")
        i = mon.snap(ev["in"])
        for k in KEYS:
            c.equal(i[k], prev[k], tag + ":chain", "%s enters %s changed" % (k, q.name))
        c.ok(i["cs"] == prev["cs"], tag + ":chain", "frame")
        prev = judge(c, q, ev["in"], ev["out"], tag + ":step", reverse)
    one = gen.build(before["r"], before["v"], before["t"], before["w"], before["f"], before["vig"], before["fail"], before["cs"])
    two, three = one.copy(), one.copy()
    ret = s.trace(one, reverse=reverse)
    c.ok(ret is one, tag + ":in-place", "trace does not return its argument")
    if seq:
        c.ok(one.coordSys == seq[-1].coordSys, tag + ":last-frame")
    same(c, mon.snap(one), prev, tag + ":trace", sc)
    for q in seq:
        r = q.trace(two, reverse=reverse)
        c.ok(r is two, tag + ":in-place")
    same(c, mon.snap(two), prev, tag + ":one-by-one", sc)
    if hasattr(s, "items") and not reverse:
        for it in s.items:
            if not it.skip:
                it.trace(three)
        same(c, mon.snap(three), prev, tag + ":items", sc)
        if len(seq) > 1:
            path = [q.name for q in seq]
            four = gen.build(before["r"], before["v"], before["t"], before["w"], before["f"], before["vig"], before["fail"], before["cs"])
            lp = s.traceFull(four, path=path)
            c.ok(list(lp) == [p + "_0" for p in path], tag + ":path-keys", str(list(lp)))
            now = mon.snap(four)
            for k in KEYS:
                c.equal(now[k], before[k], tag + ":path-input-modified", k)
            for p in path:
                same(c, mon.snap(lp[p + "_0"]["out"]), mon.snap(log[p]["out"]), tag + ":path-log", sc, p)
                c.ok(lp[p + "_0"]["name"] == p, tag + ":path-name")
            s.trace(four, path=path)
            same(c, mon.snap(four), prev, tag + ":path", sc)
    return log, seq


def mark_skips(rng, o):
    n = 0
    for it in getattr(o, "items", ()):
        if rng.random() < 0.25 and not isinstance(it, batoid.Detector):
            it.skip = True
            n += 1
        n += mark_skips(rng, it)
    return n


def rebuilt_with_skips(o):
    """The same tree built anew, skip marks given at construction."""
    kw = {k: v for k, v in o.__dict__.items() if k not in ("items", "surface", "itemDict", "_names", "path", "obscuration", "screen", "lens")}
    if hasattr(o, "items"):
        return type(o)([rebuilt_with_skips(i) for i in o.items], **kw)
    if isinstance(o, batoid.OPDScreen):
        return batoid.OPDScreen(o.surface, o.screen, obscuration=o.obscuration, **kw)
    return type(o)(o.surface, obscuration=o.obscuration, **kw)


def systems(c, rng, i):
    s = gen.system(rng, screens=True, nelem=int(rng.integers(2, 8)), depthmax=3)
    k = mark_skips(rng, s) if rng.random() < 0.5 else 0
    rv = gen.system_beam(rng, s, 40, wl=rng.uniform(4e-7, 9e-7))
    f = rng.random(40) < 0.05
    v = f | (rng.random(40) < 0.1)
    dark = int(rng.integers(12))
    if dark < 2:        # nothing left of the light
        f, v = f | (dark == 0), v | True
    rv = gen.build(rv.r, rv.v, rv.t, rng.uniform(4e-7, 9e-7, 40), rv.flux, v, f, cs=rv.coordSys)
    if rng.random() < 0.5:
        rv = gen.express(rv, gen.csys(rng, 3))
    log, seq = allforms(c, s, rv, "sys")
    if rng.random() < 0.3:
        r2 = rebuilt_with_skips(s)
        l2 = r2.traceFull(rv)
        c.ok(list(l2) == list(log), "skip-at-construction", "%s / %s" % (list(l2), list(log)))
        for p in log:
            same(c, mon.snap(l2[p]["out"]), mon.snap(log[p]["out"]), "rebuilt", 20, p)
    # reverse, from the exit
    if seq and rng.random() < 0.5:
        o = log[list(log)[-1]]["out"]
        ok = ~o.failed
        if ok.any():
            q = mon.snap(o[ok])
            allforms(c, s, gen.build(q["r"], -q["v"], -q["t"], q["w"], q["f"], q["vig"], q["fail"], cs=q["cs"]), "rev", True)
    types = sorted({type(q).__name__ for q in seq})
    c.label("sys", len(seq), k > 0, *types)
    c.label("depth", *sorted(n.count(".") for n in s.itemDict))
    c.sample(surfaces=[q.name for q in seq], skipped=k)


def telescopes(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    rv = gen.beam(rng, nm, tel, 50)
    if rng.random() < 0.12:     # nothing left of the light
        f = np.full(len(rv), rng.random() < 0.5)
        rv = gen.build(rv.r, rv.v, rv.t, rv.wavelength, rv.flux, np.full(len(rv), True), f, cs=rv.coordSys)
    if rng.random() < 0.5:
        rv = gen.express(rv, gen.csys(rng, 5))
    log, seq = allforms(c, tel, rv, "tel")
    c.label("tel", nm, len(seq), int((~log[list(log)[-1]]["out"].vignetted).sum()) // 10)
    # a sub-assembly traced on its own sees the same rays
    groups = [o for o in tel.itemDict.values() if hasattr(o, "items") and o is not tel]
    if groups:
        g = groups[rng.integers(len(groups))]
        sub = leaves(g)
        r = log[sub[0].name]["in"].copy()
        g.trace(r)
        same(c, mon.snap(r), mon.snap(log[sub[-1].name]["out"]), "sub", 100, g.name)
    q = tel.withLocallyShiftedOptic(seq[0].name, [0, 0, 0]) if rng.random() < 0.3 else None
    if q is not None:
        same(c, mon.snap(q.trace(rv.copy())), mon.snap(log[list(log)[-1]]["out"]), "unshifted", 100)


def ghosts(c, rng, i):
    """Paths that reflect twice inside a system, against the same steps taken one by one."""
    s = gen.system(rng, mirrors=False, screens=False, nelem=int(rng.integers(2, 5)))
    seq = [q for q in leaves(s)]
    names = [q.name for q in seq]
    if len(seq) < 4:
        c.event()
        return
    a = int(rng.integers(0, len(seq) - 2))
    b = int(rng.integers(a + 1, len(seq) - 1))
    # forward to b (reflect there), back to a (reflect there), forward to the end
    path = names[:b + 1] + [names[k] for k in range(b - 1, a, -1)] + names[a:]
    rv = gen.system_beam(rng, s, 30, wl=6e-7)
    keep = mon.snap(rv)
    cur = rv.copy()
    ops = [(k, "f") for k in range(b)] + [(b, "r")] + [(k, "b") for k in range(b - 1, a, -1)] + [(a, "r")] + \
        [(k, "f") for k in range(a + 1, len(seq))]
    lp = s.traceFull(rv, path=path)
    c.ok([e["name"] for e in lp.values()] == path, "ghost:path", "%s" % path)
    for (k, o), ev in zip(ops, lp.values()):
        it = seq[k]
        if o == "r":
            it.surface.reflect(cur, coordSys=it.coordSys)
        else:
            cur = step(it, cur, o == "b")
        if it.obscuration is not None:
            it.obscuration.obscure(cur)
        same(c, mon.snap(ev["out"]), mon.snap(cur), "ghost:step", 20, "%s %s in %s" % (it.name, o, path))
    t = s.trace(rv.copy(), path=path)
    same(c, mon.snap(t), mon.snap(cur), "ghost:trace", 20, str(path))
    for k in KEYS:
        c.equal(mon.snap(rv)[k], keep[k], "ghost:input-modified")
    c.label("ghost", a, b, len(seq))


def skipped_in_path(c, rng, i):
    """Elements named in a path take part although marked to be skipped."""
    s = gen.system(rng, mirrors=False, nelem=3)
    allseq = leaves(s, skips=False)
    rv = gen.system_beam(rng, s, 20, wl=6e-7)
    want = mon.snap(s.trace(rv.copy()))
    pick = allseq[int(rng.integers(len(allseq) - 1))]
    pick.skip = True
    got = mon.snap(s.trace(rv.copy(), path=[q.name for q in allseq]))
    same(c, got, want, "skip-in-path", 20)
    less = s.traceFull(rv)
    c.ok(pick.name not in less, "skip:traced", "a skipped element was traced")
    c.ok(list(less) == [q.name for q in allseq if q is not pick], "skip:others")
    c.label("skip", type(pick).__name__, len(allseq))


def history(c, rng, i):
    """getGlobalRays shows the vertices of the log in global coordinates."""
    if i % 2:
        nm, s = gen.pick_scope(rng)
        rv = gen.beam(rng, nm, s, 20)
    else:
        nm, s = "random", gen.system(rng)
        rv = gen.system_beam(rng, s, 20, wl=6e-7)
    log = s.traceFull(rv)
    names = list(log)
    a = int(rng.integers(len(names)))
    b = int(rng.integers(a, len(names)))
    kw = {}
    if a > 0 or rng.random() < 0.5:
        kw["start"] = names[a]
    if b < len(names) - 1 or rng.random() < 0.5:
        kw["end"] = names[b]
    xyz, n = batoid.optic.getGlobalRays(log, **kw)
    c.ok(xyz.shape == (20, 3, b - a + 2), "rays:shape", str(xyz.shape))
    g = batoid.CoordSys()
    first = log[names[a]]["in"]
    c.close(xyz[:, :, 0], np.asarray(ref.to_frame(first.coordSys, g, first.r), float), "rays:first", atol=1e-10, nan_ok=True)
    cnt = np.ones(20, int)
    for k in range(a, b + 1):
        o = log[names[k]]["out"]
        c.close(xyz[:, :, k - a + 1], np.asarray(ref.to_frame(o.coordSys, g, o.r), float), "rays:vertex", atol=1e-10, nan_ok=True)
        cnt += ~o.vignetted
    c.equal(n, cnt, "rays:length")
    c.label("history", nm, a, b)


CASES = [
    ("systems", systems, 500, 8000),
    ("telescopes", telescopes, 60, 1000),
    ("ghosts", ghosts, 300, 5000),
    ("skipped_in_path", skipped_in_path, 150, 2500),
    ("history", history, 100, 1500),
]
