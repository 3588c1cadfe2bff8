"""C08: trace histories of a system and of its rigidly moved copy, compared surface by surface."""
import numpy as np
import batoid
from . import gen, mon, ref


def compare(c, sysA, logA, logB, tag, sc):
    """Every surface of B shows, in its own frame, the rays A showed in its own frame."""
    c.ok(list(logA) == list(logB), tag + ":surfaces", "%s / %s" % (list(logA), list(logB)))
    drop = None
    scale = sc
    for (name, ea), eb in zip(logA.items(), logB.values()):
        a, b = mon.snap(ea["out"]), mon.snap(eb["out"])
        if drop is None:
            drop = np.zeros(len(a["t"]), bool)
        scale = max(scale, np.nanmax(np.abs(a["r"][~a["fail"]]), initial=0))
        it = sysA[name]
        d = (a["fail"] != b["fail"]) & ~drop
        if d.any():
            # allowed only where the ray is at the edge of what the surface can do
            c.note("borderline-failed", int(d.sum()))
            c.ok(d.sum() <= max(1, 0.02 * len(d)), tag + ":failed", "%d rays fail differently at %s" % (d.sum(), name))
        drop = drop | d
        d = (a["vig"] != b["vig"]) & ~drop
        if d.any():
            if it.obscuration is None:
                c.fail(tag + ":vignetted", "vignetting differs at %s, which obscures nothing" % name)
            _, m = ref.signed_contains(it.obscuration, a["r"][:, 0], a["r"][:, 1])
            c.ok(np.all(m[d] < 1e-8 * scale), tag + ":vignetted", "vignetting differs at %s, %g m from any edge" % (
                name, float(m[d].max())))
            drop = drop | d
        u = ~a["fail"] & ~drop
        if not u.any():
            continue
        # rays hitting far outside the clear aperture are ill-conditioned: not compared
        lim = getattr(it, "outRadius", None)
        if lim:
            u &= np.hypot(a["r"][:, 0], a["r"][:, 1]) < 3 * lim
        tol = 2e-10 * scale
        c.close(b["r"][u], a["r"][u], tag + ":r", atol=tol, msg=name)
        c.close(b["v"][u], a["v"][u], tag + ":v", atol=2e-9, msg=name)
        c.close(b["t"][u], a["t"][u], tag + ":t", atol=tol, msg=name)
        c.equal(b["f"][u], a["f"][u], tag + ":flux")
        c.equal(b["w"], a["w"], tag + ":wavelength")
    return drop


def motion(rng, big=None):
    Q = gen.rot(rng)
    d = rng.normal(size=3) * 10.0 ** rng.uniform(-3, 1.5)
    if rng.random() < 0.2:
        Q = np.eye(3)
    return Q, d


def frame_for(rng, t, scale=2.0):
    """A frame to express rays in: any, or one that shares its origin or its orientation with an element."""
    els = gen.interfaces(t)
    el = els[0] if rng.random() < 0.6 else els[int(rng.integers(len(els)))]
    o, R = el.coordSys.origin, el.coordSys.rot
    u = rng.random()
    if u < 0.2:
        return batoid.CoordSys(o, gen.rot(rng))
    if u < 0.3:
        return batoid.CoordSys(o + rng.normal(size=3) * 10.0 ** rng.uniform(-9, 0.5), R)
    if u < 0.35:
        return batoid.CoordSys(o, R)
    return gen.csys(rng, scale)


def systems(c, rng, i):
    s = gen.system(rng, split=False, screens=bool(rng.random() < 0.3))
    if rng.random() < 0.3:                               # neighbours that share a vertex
        els = gen.interfaces(s)
        k = int(rng.integers(len(els) - 1)) if len(els) > 1 else 0
        if len(els) > 1:
            els[k + 1].coordSys = batoid.CoordSys(els[k].coordSys.origin, els[k + 1].coordSys.rot)
    rv = gen.system_beam(rng, s, 40, wl=rng.uniform(4e-7, 9e-7))
    Q, d = motion(rng)
    m = gen.moved(s, Q, d)
    rm = gen.move_rays(rv, Q, d, frame_for(rng, m) if rng.random() < 0.7 else None)
    la, lb = s.traceFull(rv), m.traceFull(rm)
    drop = compare(c, s, la, lb, "sys", 10 + np.abs(d).max())
    c.label("sys", len(la), int((~la[list(la)[-1]]["out"].failed).sum()) // 8, np.allclose(Q, np.eye(3)))
    c.sample(surfaces=list(la), rotation=Q, shift=d, dropped=int(drop.sum()))


def telescopes(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    rv = gen.beam(rng, nm, tel, 50)
    Q, d = motion(rng)
    m = gen.moved(tel, Q, d)
    rm = gen.move_rays(rv, Q, d, frame_for(rng, m) if rng.random() < 0.7 else None)
    la, lb = tel.traceFull(rv), m.traceFull(rm)
    compare(c, tel, la, lb, "tel", 100 + np.abs(d).max())
    # the derived system of the same motion
    w = tel.withGlobalRotation(Q).withGlobalShift(d)
    compare(c, tel, la, w.traceFull(gen.move_rays(rv, Q, d)), "derived", 100 + np.abs(d).max())
    c.label("tel", nm, int((~la[list(la)[-1]]["out"].vignetted).sum()) // 8)


def expression(c, rng, i):
    """The frame in which incoming rays are expressed never matters."""
    if i % 3 == 0:
        nm, t = gen.pick_scope(rng)
        rv = gen.beam(rng, nm, t, 40)
    else:
        nm, t = "random", gen.system(rng, screens=True)
        rv = gen.system_beam(rng, t, 40, wl=6e-7)
    cs = frame_for(rng, t, 10)
    la, lb = t.traceFull(rv), t.traceFull(gen.express(rv, cs))
    compare(c, t, la, lb, "expr", 100)
    out = t.trace(gen.express(rv, frame_for(rng, t, 10)))
    last = la[list(la)[-1]]["out"]
    c.ok(out.coordSys == last.coordSys, "expr:last-frame")
    c.label("expr", nm, len(la))


def reverse(c, rng, i):
    s = gen.system(rng)
    rv = gen.system_beam(rng, s, 40, wl=6e-7)
    o = s.trace(rv)
    ok = ~o.failed
    if not ok.any():
        c.event()
        return
    q = mon.snap(o[ok])
    back = gen.build(q["r"], -q["v"], -q["t"], q["w"], q["f"], cs=q["cs"])
    Q, d = motion(rng)
    la = s.traceFull(back, reverse=True)
    lb = gen.moved(s, Q, d).traceFull(gen.move_rays(back, Q, d, frame_for(rng, s)), reverse=True)
    compare(c, s, la, lb, "rev", 10 + np.abs(d).max())
    c.label("rev", len(la), int(ok.sum()) // 8)


def analysis(c, rng, i):
    """Wavefront, spots and vignetting of a telescope do not change when it is shifted."""
    nm, tel = gen.pick_scope(rng, ["LSST_r.yaml", "HSC.yaml", "DECam.yaml", "DESI.yaml", "AuxTel.yaml", "SDSS.yaml"])
    thx, thy = gen.field(rng, nm, 0.7)
    wl = gen.scope_wl(rng, nm)
    d = rng.normal(size=3) * 10.0 ** rng.uniform(-2, 1.5)
    m = gen.moved(tel, np.eye(3), d)
    nx = int(rng.choice([8, 9, 12]))
    a = batoid.wavefront(tel, thx, thy, wl, nx=nx)
    b = batoid.wavefront(m, thx, thy, wl, nx=nx)
    ma, mb = np.ma.getmaskarray(a.array), np.ma.getmaskarray(b.array)
    c.ok((ma != mb).sum() <= max(6, 0.06 * ma.size), "opd:mask", "%d samples masked differently" % (ma != mb).sum())
    w = ~ma & ~mb
    c.close(b.array.data[w], a.array.data[w], "opd", atol=3e-5, msg=nm)
    sa, sb = batoid.spot(tel, thx, thy, wl, nx=nx), batoid.spot(m, thx, thy, wl, nx=nx)
    if len(sa[0]) == len(sb[0]):
        for p, q in zip(sa, sb):
            c.close(q, p, "spot", atol=1e-10)
    c.label("analysis", nm, nx, int(w.sum()))


CASES = [
    ("systems", systems, 400, 8000),
    ("telescopes", telescopes, 50, 800),
    ("expression", expression, 150, 3000),
    ("reverse", reverse, 250, 5000),
    ("analysis", analysis, 50, 800),
]
