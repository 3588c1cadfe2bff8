"""C29: an object is what its constructor was told, however the arguments are spelled, with the documented defaults."""
import numpy as np
import batoid
from . import c04, gen, mon, ref


def spec(t, **kw):
    """A stand-in holding the parameters as stated, for the reference formulas."""
    return type(t, (), kw)()


def spelled(rng, names, values, defaults):
    """Some documented spelling of the same call: positional head, keywords in any order, defaults left out or not."""
    left = {n: v for n, v in zip(names, values)}
    k = int(rng.integers(0, len(names) + 1))
    args = [left.pop(n) for n in names[:k]]
    kw = {}
    for n in rng.permutation(list(left)) if left else []:
        n = str(n)
        if n in defaults and left[n] is defaults[n] and rng.random() < 0.7:
            continue
        kw[n] = left[n]
    while args and names[len(args) - 1] in defaults and args[-1] is defaults[names[len(args) - 1]] and rng.random() < 0.7:
        args.pop()
    return args, kw


def number(rng, v):
    """The same value as another kind of number."""
    k = rng.integers(4)
    return np.float64(v) if k == 0 else float(v)


def held(c, o, names, values, tag):
    for n, v in zip(names, values):
        c.ok(hasattr(o, n), tag + ":no-" + n, repr(o)[:300])
        g = getattr(o, n)
        if isinstance(v, tuple) and v and isinstance(v[0], batoid.Surface):
            c.ok(len(g) == len(v) and all(p is q or p == q for p, q in zip(g, v)), tag + ":" + n)
        elif isinstance(v, (list, tuple, np.ndarray, float, int)) and not isinstance(v, bool):
            c.equal(np.asarray(g, float), np.asarray(v, float), tag + ":" + n, repr(o)[:300])
        else:
            c.ok(g is v or g == v, tag + ":" + n, "%r instead of %r" % (g, v))


def seq(rng, a):
    k = rng.integers(3)
    return [list, tuple, np.array][k]([float(q) for q in a])


SURFS = ["Plane", "Tilted", "Paraboloid", "Sphere", "Quadric", "Asphere", "Zernike", "Bicubic", "Sum"]


def make_surface(rng, kind, size, depth=0):
    """(object, spec, spelling)"""
    N = lambda *sh: rng.normal(size=sh) if sh else float(rng.normal())
    R = float(rng.choice([-1, 1]) * size * rng.uniform(2, 20))
    D = {}
    if kind == "Plane":
        names, vals = [], []
    elif kind == "Tilted":
        names, vals = ["tanx", "tany"], [number(rng, N() * 0.3), number(rng, N() * 0.3)]
    elif kind in ("Paraboloid", "Sphere"):
        names, vals = ["R"], [number(rng, R)]
    elif kind == "Quadric":
        names, vals = ["R", "conic"], [number(rng, R), number(rng, rng.uniform(-3, 1))]
    elif kind == "Asphere":
        imin = int(rng.choice([1, 2, 2, 2, 3, 5]))
        imin = D["imin"] = 2 if imin == 2 else imin
        if imin != 2:
            D = {"imin": object()}
        n = int(rng.integers(0, 6))
        co = [N() * 0.01 * size / size ** (2 * (j + imin)) for j in range(n)]
        names, vals = ["R", "conic", "coefs", "imin"], [R, number(rng, rng.uniform(-3, 1)), seq(rng, co), imin]
    elif kind == "Zernike":
        n = int(rng.integers(2, 23))
        co = seq(rng, N(n) * 0.01 * size)
        full = rng.random() < 0.6
        D = dict(R_outer=1.0, R_inner=0.0, x_origin=0.0, y_origin=0.0)
        vals = [co] + [D[k] for k in ("R_outer", "R_inner", "x_origin", "y_origin")]
        if full:
            Ro = size * rng.uniform(0.8, 2)
            for j, v in enumerate([Ro, Ro * rng.uniform(0.05, 0.7), N() * 0.2 * size, N() * 0.2 * size]):
                if rng.random() < 0.7:
                    vals[j + 1] = number(rng, v)
            if vals[2] >= 0.8 * vals[1]:
                vals[2] = 0.3 * vals[1]
        names = ["coef", "R_outer", "R_inner", "x_origin", "y_origin"]
    elif kind == "Bicubic":
        nx, ny = int(rng.integers(2, 9)), int(rng.integers(2, 9))
        xs = np.linspace(-1, 1, nx) * size * rng.uniform(1, 2) + N() * 0.2 * size
        ys = np.linspace(-1, 1, ny) * size * rng.uniform(1, 2) + N() * 0.2 * size
        if rng.random() < 0.3:
            xs = xs[::-1].copy()
        z = [N(ny, nx) * 0.01 * size] + [N(ny, nx) * 0.01 for _ in range(2)] + [N(ny, nx) * 0.01 / size]
        pol = str(rng.choice(["nan", "zero", "NaN", "ZERO"])) if rng.random() < 0.6 else "nan"
        D = dict(nanpolicy=pol if pol == "nan" else object())
        names = ["xs", "ys", "zs", "dzdxs", "dzdys", "d2zdxdys", "nanpolicy"]
        vals = [seq(rng, xs), seq(rng, ys)] + [q if rng.random() < 0.6 else q.tolist() for q in z] + [pol]
    else:
        parts = [make_surface(rng, str(rng.choice(SURFS[:-1] if depth else SURFS)), size, depth + 1) for _ in range(int(rng.integers(1, 4)))]
        objs = [p[0] for p in parts]
        form = int(rng.integers(3))
        o = batoid.Sum(*objs) if form == 0 else batoid.Sum(list(objs)) if form == 1 else batoid.Sum(tuple(objs))
        return o, spec("Sum", surfaces=[p[1] for p in parts]), ("Sum", form, len(parts)), ["surfaces"], [tuple(objs)]
    args, kw = spelled(rng, names, vals, D)
    o = getattr(batoid, kind)(*args, **kw)
    s = spec(kind, **{n: (np.asarray(v, float) if isinstance(v, (list, tuple)) else v) for n, v in zip(names, vals)})
    return o, s, (kind, len(args), tuple(sorted(kw))), names, vals


def surfaces(c, rng, i):
    kind = SURFS[i % len(SURFS)]
    size = 10.0 ** rng.uniform(-2, 1)
    o, s, sp, names, vals = make_surface(rng, kind, size)
    held(c, o, names, vals, kind)
    c.ok(type(o) is getattr(batoid, kind) and isinstance(o, batoid.Surface), kind + ":type")
    x, y = rng.uniform(-0.7, 0.7, (2, 30)) * size
    c04.judge_sag(c, s, x, y, o.sag(x, y), kind)
    if kind not in ("Bicubic", "Sum", "Tilted"):
        c04.judge_normal(c, s, x, y, o.normal(x, y), kind)
    c.label(*sp)
    c.sample(spelling=sp, surface=repr(o)[:200])


def judge_index(c, s, m, w, tag):
    from . import c11
    with np.errstate(all="ignore"):
        c.close(np.asarray(m.getN(w)), ref.index(s, w).astype(float), tag, atol=c11.tol(s, w), nan_ok=True, msg=repr(m)[:300])


def media(c, rng, i):
    kind = ["ConstMedium", "TableMedium", "SellmeierMedium", "SumitaMedium", "Air"][i % 5]
    w = rng.uniform(300e-9, 1100e-9, 20)
    D = {}
    if kind == "ConstMedium":
        names, vals = ["n"], [number(rng, rng.uniform(1, 3))]
    elif kind == "TableMedium":
        n = int(rng.integers(2, 20))
        names = ["wavelengths", "ns"]
        vals = [seq(rng, np.sort(rng.uniform(250e-9, 1200e-9, n))), seq(rng, rng.uniform(1, 2, n))]
    elif kind == "Air":
        names = ["pressure", "temperature", "h2o_pressure"]
        D = dict(pressure=69.328, temperature=293.15, h2o_pressure=1.067)
        vals = [D[k] if rng.random() < 0.5 else number(rng, D[k] * rng.uniform(0.5, 1.5)) for k in names]
    else:
        co = [float(q) for q in (np.r_[rng.uniform(0.1, 1.5, 3), np.sort(rng.uniform(0.001, 0.06, 3))] if kind[1] == "e"
                                 else np.r_[2.25, rng.normal(size=5) * [0.01, 0.01, 1e-4, 1e-5, 1e-6]])]
        keys = ["B1", "B2", "B3", "C1", "C2", "C3"] if kind[1] == "e" else ["A0", "A1", "A2", "A3", "A4", "A5"]
        form = int(rng.integers(3))
        T = getattr(batoid, kind)
        if form == 0:
            m = T(*co)
        elif form == 1:
            m = T(seq(rng, co))
        else:
            m = T(**{keys[j]: co[j] for j in rng.permutation(6)})
        c.equal(np.asarray(m.coefs, float), co, kind + ":coefs")
        judge_index(c, spec(kind, coefs=co), m, w, kind)
        c.label(kind, form)
        for bad in ((), tuple(co[:5])):
            c.raises(Exception, lambda: T(*bad), kind + ":too-few")
        if form == 2:
            c.raises(Exception, lambda: T(**{k: v for k, v in zip(keys[:-1], co)}), kind + ":missing")
        return
    args, kw = spelled(rng, names, vals, D)
    m = getattr(batoid, kind)(*args, **kw)
    held(c, m, names, vals, kind)
    judge_index(c, spec(kind, **dict(zip(names, vals))), m, w, kind)
    c.label(kind, len(args), tuple(sorted(kw)))
    c.sample(medium=repr(m)[:200])


OBSC = ["ObscCircle", "ObscAnnulus", "ObscRectangle", "ObscRay", "ObscPolygon", "ObscNegation", "ObscUnion", "ObscIntersection"]


def make_obsc(rng, kind, size):
    D = dict(x=0.0, y=0.0, theta=0.0)
    U = lambda: number(rng, size * rng.uniform(0.2, 1))
    if kind in ("ObscNegation", "ObscUnion", "ObscIntersection"):
        n = 1 if kind == "ObscNegation" else int(rng.integers(1, 4))
        parts = [make_obsc(rng, OBSC[rng.integers(5)], size) for _ in range(n)]
        objs = [p[0] for p in parts]
        T = getattr(batoid, kind)
        if n == 1 and kind == "ObscNegation":
            o = T(objs[0]) if rng.random() < 0.5 else T(original=objs[0])
            return o, spec(kind, original=parts[0][1]), (kind, parts[0][2]), ["original"], objs
        form = int(rng.integers(3))
        o = T(*objs) if form == 0 else T(list(objs)) if form == 1 else T(tuple(objs))
        return o, spec(kind, items=[p[1] for p in parts]), (kind, form, n), [], []
    if kind == "ObscPolygon":
        n = int(rng.integers(3, 8))
        a = np.sort(rng.uniform(0, 2 * np.pi, n))
        names, vals = ["xs", "ys"], [seq(rng, size * np.cos(a)), seq(rng, size * np.sin(a))]
    else:
        if kind == "ObscCircle":
            names, vals = ["radius"], [U()]
        elif kind == "ObscAnnulus":
            names, vals = ["inner", "outer"], sorted([U(), U()])
        elif kind == "ObscRectangle":
            names, vals = ["width", "height"], [U(), U()]
        else:
            names, vals = ["width", "theta"], [U(), number(rng, rng.uniform(-4, 4))]
        for k in ("x", "y") + (("theta",) if kind == "ObscRectangle" else ()):
            names.append(k)
            vals.append(D[k] if rng.random() < 0.5 else number(rng, rng.normal() * (size if k != "theta" else 1)))
        if kind == "ObscRay":
            D.pop("theta")
    args, kw = spelled(rng, names, vals, D)
    o = getattr(batoid, kind)(*args, **kw)
    return o, spec(kind, **{n: (np.asarray(v, float) if isinstance(v, (list, tuple)) else v) for n, v in zip(names, vals)}), (
        kind, len(args), tuple(sorted(kw))), names, vals


def obscurations(c, rng, i):
    kind = OBSC[i % len(OBSC)]
    size = 10.0 ** rng.uniform(-2, 1)
    o, s, sp, names, vals = make_obsc(rng, kind, size)
    held(c, o, names, vals, kind)
    x, y = rng.normal(size=(2, 80)) * size
    want, mar = ref.signed_contains(s, x, y)
    k = np.asarray(mar, float) > 1e-12 * size
    c.equal(o.contains(x, y)[k], want[k], kind, repr(o)[:300])
    c.label(*sp)
    c.sample(spelling=sp, obscuration=repr(o)[:200])


def frames(c, rng, i):
    o = rng.normal(size=3)
    R = gen.rot(rng)
    D = dict(origin=None, rot=None)
    vals = [None if rng.random() < 0.3 else o, None if rng.random() < 0.3 else R]
    args, kw = spelled(rng, ["origin", "rot"], [v if v is None or rng.random() < 0.6 else v.tolist() for v in vals], D)
    cs = batoid.CoordSys(*args, **kw)
    O = np.zeros(3) if vals[0] is None else o
    M = np.eye(3) if vals[1] is None else R
    c.equal(cs.origin, O, "origin")
    c.equal(cs.rot, M, "rot")
    for k, nm in enumerate(("xhat", "yhat", "zhat")):
        c.equal(getattr(cs, nm), M[:, k], nm)
    B = gen.csys(rng, 3)
    form = i % 3
    t = batoid.CoordTransform(cs, B) if form == 0 else batoid.CoordTransform(fromSys=cs, toSys=B) if form == 1 else batoid.CoordTransform(cs, toSys=B)
    c.ok(t.fromSys == cs and t.toSys == B, "transform:ends")
    p = rng.normal(size=(6, 3))
    got = np.asarray(t.applyForwardArray(*p.T.copy())).T
    c.close(got, ((p @ M.T + O) - B.origin) @ B.rot, "transform", atol=1e-12)
    c.label("frame", vals[0] is None, vals[1] is None, len(args), tuple(sorted(kw)), form)


def coatings(c, rng, i):
    a, b = float(rng.random()), float(rng.random())
    args, kw = spelled(rng, ["reflectivity", "transmissivity"], [a, b], {})
    k = batoid.SimpleCoating(*args, **kw)
    held(c, k, ["reflectivity", "transmissivity"], [a, b], "coating")
    ca, w = float(rng.uniform(0, 1)), 5e-7
    c.equal(k.getReflect(ca, w), a, "reflect")
    c.equal(k.getTransmit(ca, w), b, "transmit")
    c.equal(np.asarray(k.getCoefs(ca, w)), [a, b], "both")
    c.label("coating", len(args), tuple(sorted(kw)))


DEFC = dict(Mirror=((1.0, 0.0), (1.0, 0.0)), RefractiveInterface=((0.0, 1.0), (0.0, 1.0)), Baffle=((0.0, 1.0), (0.0, 1.0)),
            Detector=((0.0, 1.0), None))


def elements(c, rng, i):
    """Interfaces: every keyword, and what holds when it is left out."""
    kind = ["Mirror", "RefractiveInterface", "Baffle", "Detector", "OPDScreen"][i % 5]
    T = batoid.optic.__dict__.get(kind) or getattr(batoid, kind)
    size = 1.0
    s = gen.surf(rng, str(rng.choice(["Plane", "Quadric", "Sphere", "Asphere"])), size, True)
    kw, want = {}, dict(name=None, coordSys=batoid.CoordSys(), inMedium=batoid.ConstMedium(1.0), outMedium=batoid.ConstMedium(1.0),
                        skip=False, obscuration=None, inRadius=None, outRadius=None, surface=s)
    give = lambda: rng.random() < 0.5
    if give():
        kw["name"] = "E%d" % i
    if give():
        kw["coordSys"] = gen.csys(rng, 2)
    if give():
        kw["inMedium"] = gen.medium(rng, "Const")
        kw["outMedium"] = kw["inMedium"] if kind == "OPDScreen" else gen.medium(rng, "Const")
    elif kind not in ("OPDScreen",) and give():
        kw[str(rng.choice(["inMedium", "outMedium"]))] = gen.medium(rng, "Const")
    if give():
        kw["skip"] = bool(give())
    if give():
        a, b = sorted(float(q) for q in rng.uniform(0.1, 0.9, 2))
        form = int(rng.integers(3))
        if form == 0:
            kw["obscuration"] = batoid.ObscNegation(batoid.ObscCircle(b))
            want["outRadius"] = b
        elif form == 1:
            kw["obscuration"] = batoid.ObscNegation(batoid.ObscAnnulus(a, b))
            want["inRadius"], want["outRadius"] = a, b
        else:
            kw["obscuration"] = gen.obsc(rng, 1.0, kind="ObscRectangle")
    extra = {}
    if give():
        extra["note"] = "n%d" % i
        kw["note"] = extra["note"]
    coats = dict(zip(("forwardCoating", "reverseCoating"), DEFC.get(kind, (None, None))))
    for k in list(coats):
        if kind != "OPDScreen" and rng.random() < 0.4:
            r = float(rng.random())
            kw[k] = batoid.SimpleCoating(r, 1 - r)
            coats[k] = (r, 1 - r)
    want.update({k: v for k, v in kw.items() if k in want})
    lead = [s]
    kws = dict(kw)
    if kind == "OPDScreen":
        scr = gen.surf(rng, "Zernike", size, True)
        lead.append(scr)
        want["screen"] = scr
    elif "obscuration" in kws and give():
        lead.append(kws.pop("obscuration"))
    if give():
        nm = ["surface", "screen"] if kind == "OPDScreen" else ["surface", "obscuration"]
        kws.update(dict(zip(nm, lead)))
        lead = []
    kws = {k: kws[k] for k in [str(q) for q in rng.permutation(list(kws))]}
    o = T(*lead, **kws)
    for k, v in want.items():
        if k in ("inRadius", "outRadius"):
            if want["obscuration"] is None or not isinstance(want["obscuration"], batoid.ObscNegation):
                continue
            if v is None:
                continue
            c.equal(getattr(o, k), v, kind + ":" + k)
            continue
        g = getattr(o, k)
        c.ok(g is v or (g == v and type(g) is type(v)), kind + ":" + k, "%r instead of %r (given %s)" % (g, v, sorted(kw)))
    for k, v in extra.items():
        c.equal(getattr(o, k), v, kind + ":extra")
    for k, v in coats.items():
        if kind == "OPDScreen":
            break
        g = getattr(o, k)
        if v is None:
            c.ok(g is None, kind + ":" + k)
        else:
            c.close([g.reflectivity, g.transmissivity], v, kind + ":" + k, atol=0)
    # the element does what these parameters say
    n = 25
    m1, m2 = want["inMedium"], want["outMedium"]
    rv = gen.rays_at(rng, s, n, size, n_index=m1.n)
    world = gen.express(rv, batoid.CoordSys())
    b = gen.build(rv.r @ want["coordSys"].rot.T + want["coordSys"].origin, rv.v @ want["coordSys"].rot.T, rv.t, rv.wavelength, rv.flux,
                  rv.vignetted, rv.failed)
    before = mon.snap(b)
    o.trace(b)
    a = mon.snap(b)
    if want["obscuration"] is not None:
        inside, mar = ref.signed_contains(want["obscuration"], a["r"][:, 0], a["r"][:, 1])
        k = (np.asarray(mar, float) > 1e-9) & ~a["fail"]
        c.equal(a["vig"][k], (before["vig"] | inside)[k], kind + ":vignetting")
        a["vig"] = before["vig"] | a["fail"]
    if kind in ("Baffle", "Detector"):
        mon.landed(c, s, before, a, want["coordSys"], kind)
    elif kind == "Mirror":
        mon.reflected(c, s, before, a, want["coordSys"], kind)
    elif kind == "RefractiveInterface":
        mon.refracted(c, s, before, a, want["coordSys"], m2, kind)
    c.label(kind, tuple(sorted(kw)), len(lead))
    c.sample(kind=kind, given=sorted(kw))


def compounds(c, rng, i):
    """Compounds: items in order, path, and access to every item by every unambiguous name."""
    cnt = [0]
    objs = {}

    def leaf(prefix):
        nm = "E%d" % cnt[0] if rng.random() < 0.7 else str(rng.choice(["X", "Y"]))
        cnt[0] += 1
        o = batoid.optic.Baffle(batoid.Plane(), name=nm, coordSys=batoid.CoordSys().shiftGlobal([0, 0, -float(cnt[0])]))
        return o

    def comp(depth, name):
        items, used = [], set()
        for _ in range(int(rng.integers(1, 4))):
            if depth and rng.random() < 0.45:
                nm = "C%d" % cnt[0] if rng.random() < 0.7 else "Z"
                cnt[0] += 1
                if nm in used:
                    continue
                q = comp(depth - 1, nm)
            else:
                q = leaf(None)
                if q.name in used:
                    continue
            used.add(q.name)
            items.append(q)
        if not items:
            items = [leaf(None)]
        kw = {}
        if rng.random() < 0.5:
            kw["coordSys"] = gen.csys(rng, 1)
        if rng.random() < 0.3:
            kw["skip"] = bool(rng.random() < 0.5)
        if rng.random() < 0.4:
            kw["inMedium"] = gen.medium(rng, "Const")
        if rng.random() < 0.4:
            kw["outMedium"] = gen.medium(rng, "Const")
        lens = len(items) == 2 and items[0].outMedium == items[1].inMedium and rng.random() < 0.5
        T = batoid.optic.Lens if lens else batoid.CompoundOptic
        src = list(items) if rng.random() < 0.5 else tuple(items)
        o = T(src, name=name, **kw) if rng.random() < 0.7 else T(items=src, name=name, **kw)
        c.ok(type(o) is T and o.name == name, "compound:type")
        c.ok(len(o.items) == len(items) and all(a is b for a, b in zip(o.items, items)), "compound:items")
        c.ok(o.coordSys == kw.get("coordSys", batoid.CoordSys()), "compound:coordSys")
        c.ok(o.skip == kw.get("skip", False), "compound:skip")
        for k in ("inMedium", "outMedium"):
            c.ok(getattr(o, k) == kw.get(k, batoid.ConstMedium(1.0)), "compound:" + k)
        return o

    top = comp(3, "Top")
    full = {}

    def walk(o, pre):
        full[pre] = o
        for q in getattr(o, "items", ()):
            walk(q, pre + "." + q.name)
    walk(top, "Top")
    leaves = [o for o in full.values() if not hasattr(o, "items")]
    c.ok(list(top.path) == [o.name for o in leaves], "path", "%r" % (list(top.path),))
    c.ok(set(top.itemDict) == set(full), "itemDict:keys", "%r, expected %r" % (sorted(top.itemDict), sorted(full)))
    parts = {}
    for k, o in full.items():
        c.ok(top.itemDict[k] is o, "itemDict:item", k)
        c.ok(top[k] is o, "by-full-name", k)
        tok = k.split(".")
        for j in range(len(tok)):
            parts.setdefault(".".join(tok[j:]), []).append(o)
    for k, os_ in parts.items():
        if len(os_) == 1:
            c.ok(top[k] is os_[0], "by-name", k)
        elif k not in full:
            c.raises((ValueError, KeyError), lambda: top[k], "ambiguous-name", k)
    c.raises((ValueError, KeyError), lambda: top["nothing"], "unknown-name")
    c.label("compound", len(full), len(leaves), sum(len(v) > 1 for v in parts.values()))
    c.sample(names=sorted(full)[:8])


def lattices(c, rng, i):
    d = int(rng.integers(1, 4))
    sh = tuple(int(q) for q in rng.integers(1, 7, d))
    a = rng.normal(size=sh)
    pv = rng.normal(size=(d, d))
    p = [pv, pv.tolist(), [list(q) for q in pv]][rng.integers(3)]
    if d == 1 and rng.random() < 0.5:
        p = pv[0]
    args, kw = spelled(rng, ["array", "primitiveVectors"], [a, p], {})
    l = batoid.Lattice(*args, **kw)
    c.equal(l.array, a, "lattice:array")
    c.equal(l.primitiveVectors, pv, "lattice:vectors")
    c.ok(l.coords.shape == sh + (d,), "lattice:shape", str(l.coords.shape))
    for _ in range(8):
        k = tuple(int(rng.integers(q)) for q in sh)
        want = sum((k[j] - sh[j] // 2) * pv[j] for j in range(d))
        c.close(l.coords[k], want, "lattice:coords", atol=1e-13 * 10)
    c.raises(Exception, lambda: batoid.Lattice(a, rng.normal(size=(d + 1, d + 1))), "lattice:dims")
    c.label("lattice", d, tuple(q % 2 for q in sh))


def refused(c, rng, i):
    """What makes no object must not make one."""
    P = batoid.Plane()
    n = int(rng.integers(1, 6))
    u = lambda k: rng.uniform(0.1, 1, k)
    table = [
        ("Asphere:imin=0", lambda: batoid.Asphere(3.0, -1.0, [1e-3], 0)),
        ("Asphere:imin<0", lambda: batoid.Asphere(3.0, -1.0, [1e-3], imin=-n)),
        ("Asphere:imin-float", lambda: batoid.Asphere(3.0, -1.0, [1e-3], 2.5)),
        ("Asphere:coefs-str", lambda: batoid.Asphere(3.0, -1.0, ["a"])),
        ("Asphere:coefs-complex", lambda: batoid.Asphere(3.0, -1.0, [1e-3, 1j])),
        ("Sum:none", lambda: batoid.Sum()),
        ("Sum:empty", lambda: batoid.Sum([])),
        ("Sum:not-a-surface", lambda: batoid.Sum(P, 3.0)),
        ("Table:lengths", lambda: batoid.TableMedium(np.sort(u(n)), u(n + 1))),
        ("Table:empty", lambda: batoid.TableMedium([], [])),
        ("Table:2d", lambda: batoid.TableMedium(u((2, n)), u((2, n)))),
        ("Polygon:lengths", lambda: batoid.ObscPolygon(u(n + 2), u(n + 3))),
        ("Polygon:2d", lambda: batoid.ObscPolygon(u((2, 3)), u((2, 3)))),
        ("Union:none", lambda: batoid.ObscUnion()),
        ("Intersection:none", lambda: batoid.ObscIntersection()),
        ("Union:not-an-obscuration", lambda: batoid.ObscUnion(batoid.ObscCircle(1.0), 3.0)),
        ("Intersection:not-an-obscuration", lambda: batoid.ObscIntersection([batoid.ObscCircle(1.0), "x"])),
        ("Union:one-number", lambda: batoid.ObscUnion(3.0)),
        ("Bicubic:policy", lambda: batoid.Bicubic([0., 1], [0., 1], np.zeros((2, 2)), nanpolicy="none")),
        ("OPDScreen:media", lambda: batoid.OPDScreen(P, P, inMedium=batoid.ConstMedium(1.1), outMedium=batoid.ConstMedium(1.2))),
        ("Lens:items", lambda: batoid.Lens([batoid.RefractiveInterface(P, name="a")] * 3, name="l")),
        ("Lattice:vectors", lambda: batoid.Lattice(np.zeros((2, 3)), [[1.0, 0.0]])),
        ("Lattice:short-vectors", lambda: batoid.Lattice(np.zeros((2, 3)), [[1.0], [1.0]])),
    ]
    k, f = table[i % len(table)]
    c.raises(Exception, f, "refused:" + k)
    c.label("refused", k)


CASES = [
    ("surfaces", surfaces, 900, 20000),
    ("media", media, 400, 6000),
    ("obscurations", obscurations, 500, 8000),
    ("frames", frames, 200, 3000),
    ("coatings", coatings, 60, 400),
    ("elements", elements, 500, 8000),
    ("compounds", compounds, 200, 3000),
    ("lattices", lattices, 100, 1500),
    ("refused", refused, 23, 92),
]
