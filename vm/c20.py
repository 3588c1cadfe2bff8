"""C20: bundles as sequences of rays: programs of selections, joins and in-place operations against plain arrays."""
import copy
import pickle
import numpy as np
import batoid
from . import gen, mon, c19

KEYS = ("r", "v", "t", "w", "f", "vig", "fail")


def arrays(rv):
    """The bundle read through every public attribute (twice over: columns and stacked)."""
    a = dict(x=rv.x, y=rv.y, z=rv.z, vx=rv.vx, vy=rv.vy, vz=rv.vz, t=rv.t, w=rv.wavelength, f=rv.flux, vig=rv.vignetted, fail=rv.failed)
    return {k: np.array(v) for k, v in a.items()}


def frame(cs):
    return np.concatenate([np.ravel(cs.origin), np.ravel(cs.rot)])


def check(c, rv, want, cs, tag, msg=""):
    """rv holds exactly the rays `want` (bit for bit), in frame cs, through every accessor."""
    c.ok(isinstance(rv, batoid.RayVector), tag + ":type", lambda: repr(type(rv)))
    got = arrays(rv)
    for k in want:
        c.event()
        u, w = got[k], want[k]
        if u.shape != w.shape or u.dtype != w.dtype or not np.array_equal(u, w, equal_nan=u.dtype.kind == "f"):
            c.fail(tag, "%s is %r, expected %r. %s" % (k, u.tolist()[:8], w.tolist()[:8], msg))
    c.ok(len(rv) == len(want["t"]), tag + ":len", lambda: "%d / %d" % (len(rv), len(want["t"])))
    c.equal(rv.r, np.stack([want["x"], want["y"], want["z"]], -1), tag + ":r")
    c.equal(rv.v, np.stack([want["vx"], want["vy"], want["vz"]], -1), tag + ":v")
    c.equal(frame(rv.coordSys), cs, tag + ":frame")


def touch(rng, rv):
    """Change a bundle in place, one of the documented ways."""
    k = rng.integers(6)
    if k == 0:
        rv.propagate(float(rng.normal() * 10))
    elif k == 1:
        rv.toCoordSys(gen.csys(rng))
    elif k == 2:
        batoid.intersect(batoid.Plane(), rv, coordSys=gen.csys(rng))
    elif k == 3:
        batoid.obscure(batoid.ObscNegation(batoid.ObscCircle(1e-9)), rv)
    elif k == 4:
        batoid.reflect(batoid.Sphere(3.0), rv, coordSys=gen.csys(rng))
    else:
        batoid.refract(batoid.Paraboloid(5.0), rv, batoid.ConstMedium(1.0), batoid.ConstMedium(1.4))
    return int(k)


def selector(rng, n):
    """(kind, index for the bundle, equivalent numpy index on the arrays)."""
    k = int(rng.integers(9))
    if k == 0 and n:
        j = int(rng.integers(-n, n))
        return "int", j, slice(j, j + 1 or None)
    if k == 1 and n:
        j = int(rng.integers(0, n))
        t = [np.int64, np.int32, np.int16, np.uint8, np.intp][rng.integers(5)]
        j = min(j, 200)
        return "np.int", t(j), slice(j, j + 1)
    if k == 2 and n:
        t = [np.int64, np.int32, np.int16][rng.integers(3)]
        j = int(rng.integers(1, n + 1))
        return "np.negative", t(-j), slice(n - j, n - j + 1)
    if k in (3, 4):
        def e():
            return None if rng.random() < 0.3 else int(rng.integers(-n - 3, n + 4))
        st = rng.choice([None, 1, 2, 3, -1, -2, -5, 7])
        s = slice(e(), e(), None if st is None else int(st))
        return "slice", s, s
    if k == 5:
        m = int(rng.integers(0, 2 * n + 1)) if n else 0
        j = rng.integers(-n, n, m) if n else np.zeros(0, int)
        j = j.astype([np.int64, np.int32, np.int16][rng.integers(3)])
        return "intarray", j if rng.random() < 0.5 or not m else [int(q) for q in j], j.astype(int)
    if k == 6:
        m = rng.random(n) < rng.choice([0.0, 0.3, 0.9, 1.0])
        return "mask", m if rng.random() < 0.6 or not n else [bool(q) for q in m], m
    if k == 7:
        p = rng.permutation(n)
        return "permutation", p, p
    return "all", slice(None), slice(None)


def bad_index(rng, n):
    k = int(rng.integers(4))
    if k == 0:
        return n + int(rng.integers(0, 5))
    if k == 1:
        return -n - 1 - int(rng.integers(0, 5))
    if k == 2:
        return np.int64(n + int(rng.integers(0, 3)))
    return np.array([0, n + 1]) if n else np.array([0])


def start(rng):
    rv = c19.bundle(rng, int(rng.choice([0, 1, 2, 3, 5, 17, 64, 150])))
    if rng.random() < 0.5:
        touch(rng, rv)
    return rv


def program(c, rng, i):
    """A history of selections, joins, copies and in-place operations over several live bundles."""
    live = []
    rv = start(rng)
    live.append([rv, arrays(rv), frame(rv.coordSys)])
    ops = []
    for step in range(int(rng.integers(3, 12))):
        a = live[int(rng.integers(len(live)))]
        rv, m, cs = a
        n = len(m["t"])
        u = rng.random()
        if u < 0.45:
            kind, idx, nidx = selector(rng, n)
            new = rv[idx]
            want = {k: v[nidx] for k, v in m.items()}
            check(c, new, want, cs, "select:" + kind, "index %.200r of %d" % (idx, n))
            live.append([new, arrays(new), cs])
        elif u < 0.55:
            j = bad_index(rng, n)
            c.raises(IndexError, lambda: rv[j], "out-of-range", "index %r of %d" % (j, n))
            kind = "bad"
        elif u < 0.67:
            same = [b for b in live if np.array_equal(b[2], cs)]
            pick = [same[int(rng.integers(len(same)))] for _ in range(int(rng.integers(1, 5)))]
            form = int(rng.integers(2))
            bs = [b[0] for b in pick]
            new = batoid.concatenateRayVectors(bs if form else tuple(bs))
            want = {k: np.concatenate([b[1][k] for b in pick]) for k in m}
            check(c, new, want, cs, "concatenate", "%d bundles" % len(pick))
            live.append([new, want, cs])
            kind = "concatenate"
        elif u < 0.77:
            k = int(rng.integers(4))
            new = [rv.copy, lambda: copy.deepcopy(rv), lambda: pickle.loads(pickle.dumps(rv)), lambda: rv[:]][k]()
            check(c, new, m, cs, "copy%d" % k)
            live.append([new, arrays(new), cs])
            kind = "copy"
        else:
            k = touch(rng, rv)
            a[1], a[2] = arrays(rv), frame(rv.coordSys)
            c.ok(len(rv) == n, "in-place:len", "")
            kind = "touch%d" % k
        ops.append(kind)
        # nothing but the bundle operated on has changed
        for b in live:
            check(c, b[0], b[1], b[2], "shared-after-" + kind, "history %s" % ops)
        if len(live) > 6:
            del live[int(rng.integers(len(live)))]
    c.label("program", *ops[-4:])
    c.sample(ops=ops, sizes=[len(b[0]) for b in live])


def sequence(c, rng, i):
    """Iteration, reversal, length, membership of the sequence protocol."""
    rv = start(rng)
    m, cs = arrays(rv), frame(rv.coordSys)
    n = len(m["t"])
    c.ok(len(rv) == n and isinstance(len(rv), int), "len")
    c.ok(bool(n) == bool(rv), "truth")
    rays = [q for q in rv]
    c.ok(len(rays) == n, "iter:len", lambda: "%d / %d" % (len(rays), n))
    for j, q in enumerate(rays):
        check(c, q, {k: v[j:j + 1] for k, v in m.items()}, cs, "iter", "ray %d of %d" % (j, n))
    back = list(reversed(rv))
    c.ok(len(back) == n, "reversed:len")
    for j, q in enumerate(back):
        check(c, q, {k: v[n - 1 - j:n - j] for k, v in m.items()}, cs, "reversed")
    if n:
        new = batoid.concatenateRayVectors(rays)
        check(c, new, m, cs, "rejoined")
        fin = all(np.isfinite(v).all() for k, v in m.items() if v.dtype.kind == "f")
        if fin:
            c.ok(new == rv, "rejoined:eq")
            j = int(rng.integers(n))
            c.ok(rv[j] == rays[j] and rv[j - n] == rays[j], "getitem:eq")
        # unpacking
        *_, last = rv
        check(c, last, {k: v[n - 1:] for k, v in m.items()}, cs, "unpack")
        # cut anywhere and join again
        cut = np.sort(rng.integers(0, n + 1, int(rng.integers(1, 4))))
        parts = [rv[a:b] for a, b in zip([0, *cut], [*cut, n])]
        check(c, batoid.concatenateRayVectors(parts), m, cs, "cut-and-joined", str(cut))
        # mask and complement partition
        k = rng.random(n) < 0.5
        c.ok(len(rv[k]) + len(rv[~k]) == n, "partition")
        check(c, rv[np.flatnonzero(k)], arrays(rv[k]), cs, "mask=flatnonzero")
        s = rv[~rv.vignetted]
        c.ok(not s.vignetted.any() and len(s) == int((~m["vig"]).sum()), "unvignetted")
        # chained
        a, b = int(rng.integers(0, n)), int(rng.integers(0, n + 1))
        check(c, rv[a:][:b], {q: v[a:][:b] for q, v in m.items()}, cs, "chained")
        # a single ray does what it does in the bundle
        j = int(rng.integers(-n, n))
        one, all_ = rv[j], rv.copy()
        T = float(rng.normal())
        one.propagate(T)
        all_.propagate(T)
        check(c, one, arrays(all_[j]), cs, "single-propagate")
    check(c, rv, m, cs, "original")
    c.label("sequence", n, int(m["fail"].sum() > 0))


def different(c, rng, i):
    """Bundles are equal only when every attribute of every ray is."""
    n = int(rng.choice([1, 2, 3, 5, 17, 70]))
    x = rng.normal(size=(7, n))
    w, fl = rng.uniform(3e-7, 1e-6, n), rng.random(n)
    vig, fail = rng.random(n) < 0.4, rng.random(n) < 0.2
    cs = gen.csys(rng)
    cols = dict(zip("x y z vx vy vz t".split(), x))
    cols.update(wavelength=w, flux=fl, vignetted=vig, failed=fail)
    mk = lambda d, cs: batoid.RayVector(*[d[k].copy() for k in cols], coordSys=cs)
    a = mk(cols, cs)
    twin = mk(cols, batoid.CoordSys(cs.origin.copy(), cs.rot.copy()))
    c.ok(a == twin and twin == a and not (a != twin), "twin")
    for k in cols:
        j = [0, n - 1, int(rng.integers(n))][(i + len(k)) % 3]
        d = dict(cols)
        v = d[k] = d[k].copy()
        v[j] = (not v[j]) if v.dtype == bool else [np.nextafter(v[j], np.inf), v[j] + 1.0, -v[j]][rng.integers(3)]
        b = mk(d, cs)
        c.ok(not (a == b) and not (b == a) and a != b and b != a, "differs:" + k, "ray %d of %d" % (j, n))
    for far in (batoid.CoordSys(cs.origin + [0, 0, 1e-9], cs.rot), batoid.CoordSys(cs.origin, cs.rot.T @ batoid.RotX(0.1))):
        b = mk(cols, far)
        c.ok(not (a == b) and a != b, "differs:coordSys")
    b = mk({k: np.append(v, v[-1]) for k, v in cols.items()}, cs)
    c.ok(not (a == b) and not (b == a), "differs:length")
    c.ok(not (a == None) and not (a == 3) and a != "x", "differs:kind")
    c.label("different", n, i % 3)


FORMS = ["scalar", "int", "npscalar", "zero-d", "list", "tuple", "one", "array", "float32", "intarray", "strided", "reversed",
         "readonly", "bigendian"]


def form(rng, n, flag=False):
    """A value for one attribute in some form, and its float64 (or bool) meaning."""
    k = FORMS[rng.integers(len(FORMS))]
    if flag:
        a = rng.random(n) < 0.5
        k = k if k in ("scalar", "list", "array", "one", "strided", "zero-d", "tuple", "intarray") else "array"
    else:
        a = rng.normal(size=n)
    if k in ("int", "intarray", "float32") and not flag:
        a = np.round(a * 4)
    if k in ("scalar", "int", "npscalar", "zero-d"):
        v = a.ravel()[0] if n else a.dtype.type(1)
        meaning = v
        v = {"scalar": v.item(), "int": int(v), "npscalar": v, "zero-d": np.array(v)}[k]
        return k, v, meaning
    if k == "one":
        w = a[:1] if n else np.ones(1, a.dtype)
        return k, w.copy(), w
    if k == "list":
        return k, a.tolist(), a
    if k == "tuple":
        return k, tuple(a.tolist()), a
    if k == "float32":
        return k, a.astype(np.float32), a
    if k == "intarray":
        return k, a.astype(int), a
    if k == "strided":
        w = np.zeros(2 * n + 1, a.dtype)
        w[1::2] = a
        return k, w[1::2], a
    if k == "reversed":
        return k, a[::-1].copy()[::-1], a
    if k == "readonly":
        w = a.copy()
        w.setflags(write=False)
        return k, w, a
    if k == "bigendian":
        return k, a.astype(">f8"), a
    return k, a.copy(), a


def construction(c, rng, i):
    """Scalars and arrays of any form broadcast by array rules; the bundle is independent of what was passed."""
    n = int(rng.choice([0, 1, 2, 3, 8, 33]))
    cols = ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")
    keys = ("x", "y", "z", "vx", "vy", "vz", "t", "w", "f", "vig", "fail")
    dflt = dict(t=0.0, wavelength=0.0, flux=1.0, vignetted=False, failed=False)
    args, mean, forms = {}, {}, []
    for q in cols:
        if q in dflt and rng.random() < 0.3:
            mean[q] = dflt[q]
            continue
        k, args[q], mean[q] = form(rng, n, q in ("vignetted", "failed"))
        forms.append(k)
    if n != 1 and not any(np.ndim(v) and np.size(v) == n for v in mean.values()):
        args["y"] = mean["y"] = rng.normal(size=n)
    if n == 0:      # an empty array only broadcasts with scalars and single values
        pass
    before = {q: np.array(v, copy=True) for q, v in args.items()}
    cs = gen.csys(rng)
    if rng.random() < 0.7:
        args["coordSys"] = cs
    else:
        cs = batoid.CoordSys()
    if rng.random() < 0.5:
        rv = batoid.RayVector(**args)
    else:
        pos = []
        rest = dict(args)
        for q in cols:
            if q not in rest:
                break
            pos.append(rest.pop(q))
        rv = batoid.RayVector(*pos, **rest)
    shape = np.broadcast(*[np.asarray(v) for v in mean.values()]).shape or (1,)
    want = {k: np.array(np.broadcast_to(np.asarray(mean[q], bool if k in ("vig", "fail") else float), shape)) for k, q in zip(keys, cols)}
    check(c, rv, want, frame(cs), "construct", "forms %s" % forms)
    # broadcast attributes are n independent values
    touch(rng, rv)
    for q, v in before.items():
        c.ok(np.array_equal(np.asarray(args[q]), v), "arguments-changed", q)
    rv2 = batoid.RayVector(**args)
    for q, v in args.items():
        if isinstance(v, np.ndarray) and v.flags.writeable and v.size:
            v[...] = 1 - v if v.dtype == bool else 99
    check(c, rv2, want, frame(cs), "shares-arguments", "forms %s" % forms)
    if n > 1:
        q = ["x", "t", "flux", "failed"][rng.integers(4)]
        wrong = {k: (np.zeros(n) if k == "y" else 0.0) for k in cols[:6]}
        wrong[q] = np.zeros(n + 1)
        c.raises(ValueError, lambda: batoid.RayVector(**wrong), "mismatched", "%s has %d, y has %d" % (q, n + 1, n))
    c.label("construct", n, *sorted(set(forms))[:5])


CASES = [
    ("different", different, 120, 2000),
    ("program", program, 900, 40000),
    ("sequence", sequence, 250, 8000),
    ("construction", construction, 1500, 50000),
]
