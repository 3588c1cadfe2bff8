"""C09: batching never matters, bit for bit; failure flags only accumulate through any history of operations."""
import numpy as np
import batoid
from . import gen, mon, ref


def program(rng):
    """A random sequence of operations; each is a function bundle -> bundle, transforming in place where the library does."""
    ops = []
    n = int(rng.integers(2, 7))
    size = 1.0
    med = [batoid.ConstMedium(1.0), batoid.ConstMedium(1.5), batoid.SellmeierMedium(
        0.6961663, 0.4079426, 0.8974794, 0.00467914825849, 0.013512063073959999, 97.93400253792099),
        batoid.TableMedium([300e-9, 600e-9, 900e-9], [1.3, 1.4, 1.35])]
    for _ in range(n):
        k = str(rng.choice(["frame", "intersect", "reflect", "refract", "screen", "obscure", "propagate", "split", "trace",
                            "element", "reverse-transform", "queries"]))
        s = gen.surf(rng, None, size * 2)
        if isinstance(s, batoid.Tilted) and s.tanx ** 2 + s.tany ** 2 > 0.9:
            s = batoid.Tilted(s.tanx / 4, s.tany / 4)     # known finding: NaN normals above 45 degrees (C04)
        cs = gen.csys(rng, 0.5, str(rng.choice(["id", "small", "any"])))
        co = gen.coating(rng) if rng.random() < 0.5 else None
        m2 = med[rng.integers(len(med))]
        if k == "frame":
            f = lambda rv, cs=cs: rv.toCoordSys(cs)
        elif k == "intersect":
            f = lambda rv, s=s, cs=cs, co=co: s.intersect(rv, coordSys=cs, coating=co)
        elif k == "reflect":
            f = lambda rv, s=s, cs=cs, co=co: s.reflect(rv, coordSys=cs, coating=co)
        elif k == "refract":
            f = lambda rv, s=s, cs=cs, co=co, m2=m2: s.refract(rv, med[0], m2, coordSys=cs, coating=co)
        elif k == "screen":
            z = batoid.Zernike(rng.normal(size=8) * 10.0 ** rng.uniform(-6, -1), 2.0)
            f = lambda rv, s=s, cs=cs, z=z: s.refractScreen(rv, z, coordSys=cs)
        elif k == "obscure":
            o = gen.obsc(rng, size)
            f = lambda rv, o=o: (o.obscure(rv), rv)[1]
        elif k == "propagate":
            t = float(rng.normal() * 3)
            f = lambda rv, t=t: rv.propagate(t)
        elif k == "split":
            co = gen.coating(rng)
            w = bool(rng.random() < 0.5)
            f = lambda rv, s=s, cs=cs, co=co, m2=m2, w=w: s.rSplit(rv, med[0], m2, co, coordSys=cs)[0 if w else 1]
        elif k == "trace":
            y = gen.system(rng, screens=True)
            f = lambda rv, y=y: y.trace(rv)
        elif k == "element":
            o = gen.obsc(rng, size)
            q = batoid.Mirror(s, name="m", coordSys=cs, obscuration=o) if rng.random() < 0.5 else \
                batoid.RefractiveInterface(s, name="m", coordSys=cs, obscuration=o, inMedium=med[0], outMedium=m2)
            f = lambda rv, q=q: q.trace(rv)
        elif k == "reverse-transform":
            f = lambda rv, cs=cs: batoid.CoordTransform(cs, rv.coordSys).applyReverse(rv)
        else:
            r, t = rng.normal(size=3), float(rng.normal())
            f = lambda rv, r=r, t=t: (rv.positionAtTime(t), rv.phase(r, t), rv.amplitude(r, t), rv)[3]
        ops.append((k, f))
    return ops


def start(rng, n):
    fail = rng.random(n) < rng.choice([0.0, 0.15])
    r = rng.normal(size=(n, 3)) * [1, 1, 2]
    v = rng.normal(size=(n, 3)) * [0.3, 0.3, 1]
    v /= np.linalg.norm(v, axis=1)[:, None]
    return gen.build(r, v, rng.normal(size=n), rng.uniform(310e-9, 880e-9, n), gen.fluxes(rng, n), fail | (rng.random(n) < 0.15), fail,
                     cs=gen.csys(rng, 0.5, "small"))


KEYS = ("r", "v", "t", "w", "f", "vig", "fail")


def same(c, a, b, tag, msg=""):
    for k in KEYS:
        c.equal(a[k], b[k], tag + ":" + k, msg)
    c.ok(a["cs"] == b["cs"], tag + ":frame")


def pick(b, idx):
    return {k: (b[k][idx] if k != "cs" else b[k]) for k in b}


def of(b):
    return gen.build(b["r"], b["v"], b["t"], b["w"], b["f"], b["vig"], b["fail"], b["cs"])


def run(ops, b, rec=None):
    rv = of(b)
    if rec is not None:
        rec.append(mon.snap(rv))
    for k, f in ops:
        rv = f(rv)
        if rec is not None:
            rec.append(mon.snap(rv))
    return mon.snap(rv)


def batching(c, rng, i):
    n = int(rng.choice([1, 2, 3, 7, 16, 33, 64, 129]))
    ops = program(rng)
    b = mon.snap(start(rng, n))
    names = [k for k, _ in ops]
    hist = []
    full = run(ops, b, hist)
    # flags along the history
    for (k, _), p, q in zip(ops, hist, hist[1:]):
        c.ok(not np.any(p["fail"] & ~q["fail"]), "flags:unfailed", k)
        c.ok(not np.any(p["vig"] & ~q["vig"]), "flags:unvignetted", k)
        new = q["fail"] & ~p["fail"]
        c.ok(not np.any(new & ~q["vig"]), "flags:failed-not-vignetted", k)
        c.equal(q["w"], p["w"], "flags:wavelength", k)
        if k in ("intersect", "reflect", "refract", "screen", "split", "trace", "element", "obscure", "queries"):
            c.equal(q["t"][p["fail"]], p["t"][p["fail"]], "failed-ray-moved", k)
        if k in ("obscure", "queries"):
            same(c, dict(q, vig=p["vig"]), p, "unchanged", k)
        if k == "frame":
            c.equal(q["fail"], p["fail"], "frame:fail")
            c.equal(q["vig"], p["vig"], "frame:vig")
        u = ~q["fail"]
        if k != "propagate":
            c.ok(np.isfinite(q["r"][u]).all() and np.isfinite(q["t"][u]).all(), "non-finite", k)
        c.label("flags", k, int(new.sum()) > 0, int(p["fail"].sum()) > 0)
    how = int(rng.integers(5))
    if how == 0:
        p = rng.permutation(n)
        same(c, run(ops, pick(b, p)), pick(full, p), "permute", str(names))
    elif how == 1:
        cut = np.sort(rng.integers(0, n + 1, 2))
        for a, z in ((0, cut[0]), (cut[0], cut[1]), (cut[1], n)):
            same(c, run(ops, pick(b, slice(a, z))), pick(full, slice(a, z)), "split", str(names))
    elif how == 2:
        for j in rng.integers(0, n, min(n, 6)):
            same(c, run(ops, pick(b, [j])), pick(full, [j]), "alone", str(names))
    elif how == 3:
        d = rng.integers(0, n, 2 * n + 3)
        same(c, run(ops, pick(b, d)), pick(full, d), "duplicate", str(names))
    else:
        # via the library's own selection and concatenation
        k = int(rng.integers(0, n + 1))
        rv = of(b)
        one, two = rv[:k], rv[k:]
        if len(one) and len(two):
            both = batoid.concatenateRayVectors([two, one])
            same(c, run(ops, mon.snap(both)), pick(full, np.r_[k:n, 0:k]), "concatenate", str(names))
        else:
            same(c, run(ops, b), full, "repeat", str(names))
    c.label("batch", how, n, *sorted(set(names))[:3])
    c.sample(ops=names, n=n, how=how, failed=int(full["fail"].sum()))


def telescopes(c, rng, i):
    """Whole telescopes: any batching, any form of tracing, same bits; flags accumulate along the log."""
    nm, tel = gen.pick_scope(rng)
    rv = gen.beam(rng, nm, tel, 80)
    b = mon.snap(rv)
    log = tel.traceFull(rv)
    prev = b
    for name, ev in log.items():
        q = mon.snap(ev["out"])
        c.ok(not np.any(prev["fail"] & ~q["fail"]), "tel:unfailed", name)
        c.ok(not np.any(prev["vig"] & ~q["vig"]), "tel:unvignetted", name)
        c.ok(not np.any(q["fail"] & ~prev["fail"] & ~q["vig"]), "tel:failed-not-vignetted", name)
        c.equal(q["w"], prev["w"], "tel:wavelength", name)
        prev = q
    p = rng.permutation(len(rv))[:int(rng.integers(1, 80))]
    got = mon.snap(tel.trace(of(pick(b, p))))
    same(c, got, pick(prev, p), "tel", nm)
    j = int(rng.integers(len(rv)))
    same(c, mon.snap(tel.trace(of(pick(b, [j])))), pick(prev, [j]), "tel-alone", nm)
    c.label("tel", nm, int(prev["vig"].sum()) // 10)


def hostile(c, rng, i):
    """NaN, infinite, failed and huge rays in the bundle leave the others alone."""
    n = 40
    ops = program(rng)
    b = mon.snap(start(rng, n))
    full = run(ops, b)
    bad = {k: (v.copy() if k != "cs" else v) for k, v in b.items()}
    w = rng.random(n) < 0.4
    for j in np.flatnonzero(w):
        k = rng.integers(5)
        if k == 0:
            bad["r"][j] = np.nan
        elif k == 1:
            bad["r"][j, rng.integers(3)] = np.inf
        elif k == 2:
            bad["v"][j] = 0.0
        elif k == 3:
            bad["fail"][j] = bad["vig"][j] = True
        else:
            bad["r"][j] *= 1e150
    same(c, pick(run(ops, bad), ~w), pick(full, ~w), "poisoned", str([k for k, _ in ops]))
    c.label("hostile", *[k for k, _ in ops][:3])


CASES = [
    ("batching", batching, 1500, 30000),
    ("telescopes", telescopes, 80, 1500),
    ("hostile", hostile, 400, 8000),
]
