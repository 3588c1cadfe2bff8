"""C14: rays sent back along their own path return to where they started."""
import numpy as np
import batoid
from . import gen, mon, ref


def flip(q):
    return gen.build(q["r"], -q["v"], -q["t"], q["w"], q["f"], cs=q["cs"])


def there_and_back(c, s, rv, tag, n_in=1.0, obsc_ok=True):
    b = mon.snap(rv)
    out = s.trace(rv.copy())
    ok = ~(out.failed | out.vignetted)
    c.note(tag + ":through", int(ok.sum()))
    if not ok.any():
        c.event()
        return 0
    q = mon.snap(out[ok])
    back = flip(q)
    log = s.traceFull(back, reverse=True)
    fwd = s.traceFull(rv)
    sc = 10 + np.abs(b["r"]).max() + max(np.abs(o.coordSys.origin).max() for o in gen.interfaces(s))
    names = list(fwd)
    c.ok(list(log) == names[::-1], tag + ":order", "%s / %s" % (list(log), names))
    for name in names[::-1]:
        # on its way back each ray meets each element where it met it before, the other way round
        i, o = mon.snap(fwd[name]["in"]), mon.snap(fwd[name]["out"])
        j, p = mon.snap(log[name]["in"]), mon.snap(log[name]["out"])
        c.ok(not p["fail"].any(), tag + ":failed", "%d rays lost on the way back at %s" % (p["fail"].sum(), name))
        c.close(p["r"], o["r"][ok], tag + ":point", atol=1e-9 * sc, msg=name)
        want = mon.local(i, o["cs"])[1][ok].astype(float)
        c.close(p["v"], -want, tag + ":direction", atol=1e-8, msg=name)
        c.close(np.linalg.norm(p["v"], axis=1), np.linalg.norm(want, axis=1), tag + ":speed", rtol=1e-11, msg=name)
        e = next((w for w in gen.interfaces(s) if w.name == fwd[name]["name"]), None)
        # a screen takes its path off the clock again on the way back, after the point has been reached
        add = np.asarray(ref.sag(e.screen, ref.ld(o["r"][ok, 0]), ref.ld(o["r"][ok, 1])), float) if isinstance(e, batoid.OPDScreen) else 0.0
        c.close(p["t"], -(o["t"][ok] - add), tag + ":clock", atol=1e-9 * sc, msg=name)
        c.ok(not np.any(p["vig"]), tag + ":vignetted", "%d rays obscured on the way back at %s" % (p["vig"].sum(), name)) \
            if s[name].obscuration is None else None
    end = mon.snap(s.trace(flip(q), reverse=True))
    v = mon.local(b, end["cs"])[1][ok].astype(float)
    c.close(end["v"], -v, tag + ":end-direction", atol=1e-8)
    r0 = mon.local(b, end["cs"])[0][ok].astype(float)
    # at the clock reading -t0 the ray is where it started
    rv2 = gen.build(end["r"], end["v"], end["t"], end["w"], end["f"], cs=end["cs"])
    p = np.array([rv2[k:k + 1].positionAtTime(-b["t"][ok][k])[0] for k in range(min(10, len(rv2)))])
    c.close(p, r0[:len(p)], tag + ":start", atol=1e-8 * sc)
    c.close(end["f"], q["f"], tag + ":flux", rtol=1e-13)
    return int(ok.sum())


def systems(c, rng, i):
    s = gen.system(rng, obscured=bool(rng.random() < 0.5), screens=bool(rng.random() < 0.5))
    rv = gen.system_beam(rng, s, 40, wl=rng.uniform(4e-7, 9e-7))
    rv = gen.build(rv.r, rv.v, rv.t, rng.uniform(4e-7, 9e-7, 40), rv.flux)
    n = there_and_back(c, s, rv, "sys")
    if isinstance(s, batoid.CompoundOptic) and n:
        # systems derived from one that has been used both ways are as reversible
        for k in range(int(rng.integers(1, 3))):
            q = str(rng.choice(list(s.itemDict)))
            a = rng.normal(size=3) * 10.0 ** rng.uniform(-6, -3)
            s = [lambda: s.withGloballyShiftedOptic(q, a), lambda: s.withLocallyRotatedOptic(q, batoid.RotX(a[0]) @ batoid.RotY(a[1])),
                 lambda: s.withGlobalShift(a), lambda: s.withLocallyShiftedOptic(q, a)][rng.integers(4)]()
        there_and_back(c, s, rv, "sys")
    c.label("sys", len(gen.interfaces(s)), n // 8, *sorted({type(q).__name__ for q in gen.interfaces(s)}))
    c.sample(surfaces=[q.name for q in gen.interfaces(s)], returned=n)


def telescopes(c, rng, i):
    nm, tel = gen.pick_scope(rng)
    rv = gen.beam(rng, nm, tel, 60)
    n = there_and_back(c, tel, rv, "tel")
    c.label("tel", nm, n // 10)


def moving(c, rng, i):
    """Propagating, positions and intersections backwards in time undo going forwards."""
    n = 30
    med = gen.medium(rng)
    wl = rng.uniform(3.2e-7, 1.1e-6, n)
    nn = np.asarray(ref.index(med, wl), float)
    d = rng.normal(size=(n, 3))
    d /= np.linalg.norm(d, axis=1)[:, None]
    r, t0 = rng.normal(size=(n, 3)) * 10.0 ** rng.uniform(-2, 3), rng.normal(size=n) * 5
    rv = gen.build(r, d / nn[:, None], t0, wl, np.ones(n), cs=gen.csys(rng))
    sc = 1 + np.abs(r).max()
    t1 = float(rng.normal() * 100)
    p = rv.positionAtTime(t1)
    c.close(p, (r + d / nn[:, None] * (t1 - t0)[:, None]), "positionAtTime", atol=1e-12 * (sc + abs(t1)))
    q = rv.copy()
    out = q.propagate(t1)
    c.ok(out is q, "in-place")
    c.close(q.r, p, "propagate:r", atol=1e-13 * (sc + abs(t1)))
    c.close(q.t, np.full(n, t1), "propagate:t")
    c.equal(q.v, rv.v, "propagate:v")
    # back, each ray to its own time (times differ: by single rays)
    for k in range(4):
        w = q[k:k + 1].propagate(t0[k])
        c.close(w.r[0], r[k], "propagate:back", atol=1e-12 * (sc + abs(t1)))
    # intersect forwards, then go back to the old plane of positions
    s = gen.surf(rng, ["Plane", "Paraboloid", "Sphere", "Quadric", "Asphere"][i % 5], 1.0, mild=True)
    rv = gen.rays_at(rng, s, n, 0.8, spread=0.1, dist=0.5 + rng.random(n), flags=False)
    b = mon.snap(rv)
    s.intersect(rv)
    u = ~rv.failed
    c.ok(u.all(), "hit")
    far = rv.copy()
    far.propagate(float(b["t"].max() + 5))
    s.intersect(far)
    c.ok(not far.failed.any(), "back-hit")
    c.close(far.r, rv.r, "back:r", atol=1e-10)
    c.close(far.t, rv.t, "back:t", atol=1e-10)
    neg = gen.build(rv.r, -rv.v, -rv.t, rv.wavelength, rv.flux)
    neg.propagate(float(-b["t"].min() + 3))
    s.intersect(neg)
    c.close(neg.r, rv.r, "neg:r", atol=1e-10)
    c.close(neg.t, -rv.t, "neg:t", atol=1e-10)
    c.label("moving", type(med).__name__, type(s).__name__, int(np.log10(sc)))


CASES = [
    ("systems", systems, 700, 12000),
    ("telescopes", telescopes, 80, 1500),
    ("moving", moving, 400, 8000),
]
