"""C16: comparing, hashing, copying, pickling and printing, judged against the documented parameters of each object."""
import copy
import pickle
import sys
import numpy as np
import batoid
from . import gen, mon
from .canon import canon, diff, PARAMS

NS = {k: getattr(batoid, k) for k in dir(batoid)}
NS.update(np=np, numpy=np, array=np.array, float64=np.float64, nan=np.nan, inf=np.inf)
ELEMENTS = [batoid.Interface, batoid.Mirror, batoid.RefractiveInterface, batoid.Baffle, batoid.Detector, batoid.OPDScreen]


# ------------------------------------------------------------------ objects
def rays(rng, n=None):
    n = int(rng.integers(0, 9)) if n is None else n
    f = rng.random(n) < 0.2
    return batoid.RayVector(*rng.normal(size=(7, n)), rng.uniform(3e-7, 1e-6, n), rng.random(n), (rng.random(n) < 0.3) | f, f,
                            gen.csys(rng))


def lattice(rng):
    d = int(rng.integers(1, 4))
    shape = tuple(int(q) for q in rng.integers(1, 6, d))
    a = rng.normal(size=shape)
    if rng.random() < 0.3:
        a = a + 1j * rng.normal(size=shape)
    return batoid.Lattice(a, rng.normal(size=(d, d)))


def element(rng, deep=0):
    u = rng.random()
    kw = dict(name=str(rng.choice(["A", "M1", "x"])) if rng.random() < 0.9 else None, coordSys=gen.csys(rng))
    if rng.random() < 0.5:
        kw["inMedium"] = gen.medium(rng)
    if deep < 2 and u < 0.25:
        items = [element(rng, deep + 1) for _ in range(int(rng.integers(1, 4)))]
        for k, it in enumerate(items):
            it.name = "I%d" % k
        for k in range(len(items)):
            if hasattr(items[k], "items"):
                items[k] = type(items[k])(items[k].items, **{q: w for q, w in vars(items[k]).items() if q in (
                    "name", "coordSys", "inMedium", "outMedium", "skip")})
        kw["name"] = kw["name"] or "T"
        if len(items) == 2 and items[0].outMedium == items[1].inMedium:
            return batoid.Lens(items, **kw)
        return batoid.CompoundOptic(items, skip=bool(rng.random() < 0.2), **kw)
    cls = ELEMENTS[rng.integers(len(ELEMENTS))]
    kw["obscuration"] = gen.obsc(rng) if rng.random() < 0.5 else None
    if rng.random() < 0.5:
        kw["outMedium"] = gen.medium(rng)
    if cls is not batoid.Interface:
        if rng.random() < 0.4:
            kw["forwardCoating"] = gen.coating(rng)
        if rng.random() < 0.4:
            kw["reverseCoating"] = gen.coating(rng)
    if rng.random() < 0.3:
        kw["skip"] = True
    if rng.random() < 0.3:
        kw["sphereRadius"] = 2.5
    s = surface(rng)
    if cls is batoid.OPDScreen:
        kw["outMedium"] = kw.get("inMedium", batoid.vacuum)
        return cls(s, surface(rng), **kw)
    return cls(s, **kw)


def surface(rng):
    if rng.random() < 0.15:
        return gen.bicubic(rng, nx=int(rng.integers(2, 7)), ny=int(rng.integers(2, 7)))
    return gen.surf(rng)


def transform(rng):
    return batoid.CoordTransform(gen.csys(rng), gen.csys(rng))


MAKERS = [surface, surface, gen.medium, gen.coating, gen.obsc, gen.csys, transform, lattice, rays, element]


def anything(rng):
    return MAKERS[rng.integers(len(MAKERS))](rng)


def params(x):
    """Constructor parameters that matter to equality, by name."""
    if isinstance(x, batoid.optic.Optic):
        ks = ["items"] if hasattr(x, "items") else ["surface", "obscuration"]
        ks += ["screen"] if isinstance(x, batoid.OPDScreen) else []
        return {k: getattr(x, k) for k in ks + ["name", "inMedium", "outMedium", "coordSys"]}
    return {k: getattr(x, k) for k in PARAMS[type(x).__name__]}


def make(x, p):
    """An object of the kind of x with parameters p, through the public constructor only."""
    cls, p = type(x), dict(p)
    if isinstance(x, batoid.optic.Optic):
        first = [p.pop("items")] if "items" in p else [p.pop("surface")]
        first += [p.pop("screen")] if "screen" in p else []
        for k in ("skip", "forwardCoating", "reverseCoating", "sphereRadius"):
            if getattr(x, k, None) is not None:
                p[k] = getattr(x, k)
        return cls(*first, **p)
    v = [np.array(q) if isinstance(q, np.ndarray) else q for q in p.values()]
    if cls in (batoid.Sum, batoid.ObscUnion, batoid.ObscIntersection):
        return cls(list(v[0]))
    return cls(*v)


def parts(x):
    """Everything equality should depend on, as plain data."""
    if isinstance(x, batoid.optic.Optic) or (type(x).__name__ in PARAMS and type(x).__module__.startswith("batoid")):
        return (type(x).__name__,) + tuple(parts(v) for v in params(x).values())
    if isinstance(x, np.ndarray):
        return ("array", x.shape) + tuple(x.ravel().tolist())
    if isinstance(x, (list, tuple)):
        return ("seq",) + tuple(parts(v) for v in x)
    return x


def tweak(rng, v):
    """Another value of the same type, or None when there is no other."""
    if isinstance(v, bool) or isinstance(v, np.bool_):
        return not v
    if isinstance(v, (int, np.integer)):
        return int(v) + 1
    if isinstance(v, (float, np.floating)):
        k = rng.integers(3)
        if k == 0 and v != 0:
            return -float(v)
        return float(np.nextafter(v, rng.choice([-np.inf, np.inf]))) if k == 1 else float(v) + float(rng.normal()) + 3.0
    if isinstance(v, str):
        return v + "q"
    if v is None:
        return None
    if isinstance(v, np.ndarray):
        if v.size == 0:
            return None
        w = v.copy()
        j = tuple(int(rng.integers(q)) for q in v.shape)
        if v.dtype == bool:
            w[j] = not w[j]
        elif v.dtype.kind == "c":
            w[j] += 1j * 2.0 ** -20
        else:
            w[j] = tweak(rng, float(w[j]))
        return w
    if isinstance(v, (list, tuple)):
        w = list(v)
        if len(w) > 1 and rng.random() < 0.3:
            k = rng.integers(2)
            if k == 0:
                del w[rng.integers(len(w))]
            else:
                w = w[::-1]
        else:
            j = int(rng.integers(len(w)))
            w[j] = tweak(rng, w[j])
            if w[j] is None:
                return None
        return type(v)(w)
    return variant(rng, v)


def variant(rng, x):
    """An object of the same kind that differs from x in one parameter (None when there is none to change)."""
    name = type(x).__name__
    if name == "Plane":
        return batoid.Tilted(0.0, 0.0) if rng.random() < 0.5 else batoid.Paraboloid(1.0)
    p = params(x)
    k = list(p)[rng.integers(len(p))]
    if name == "Bicubic":
        if k in ("xs", "ys"):
            p[k] = p[k] * rng.choice([1 + 2.0 ** -50, 2.0, -1.0])
        elif k == "nanpolicy":
            p[k] = "zero" if p[k].lower() == "nan" else "nan"
        else:
            p[k] = tweak(rng, p[k])
    elif name in ("Asphere", "Zernike") and k in ("coefs", "coef") and rng.random() < 0.4:
        p[k] = np.append(p[k], 0.0)
    elif name == "Zernike" and k in ("R_outer", "R_inner"):
        p[k] = p[k] * (1 + 2.0 ** -50) if rng.random() < 0.5 and p[k] else p[k] * 1.01 + 0.01
        if p["R_inner"] >= p["R_outer"]:
            return None
    elif name in ("SellmeierMedium", "SumitaMedium"):
        co = list(p[k])
        j = int(rng.integers(6))
        co[j] = tweak(rng, float(co[j]))
        p[k] = co
    elif name == "TableMedium" and rng.random() < 0.4:
        p = {q: np.asarray(w)[:-1] if rng.random() < 0.5 else np.append(w, w[-1] + 1e-6) for q, w in p.items()}
        if len(p["wavelengths"]) != len(p["ns"]) or len(p["ns"]) == 0:
            return None
    elif name == "TableMedium" and k == "wavelengths":
        p[k] = np.asarray(p[k]) * (1 + 2.0 ** -50)
    elif name == "ObscPolygon" and rng.random() < 0.3:
        p = {q: np.append(w, 0.25) for q, w in p.items()}
    elif name == "RayVector" and rng.random() < 0.3 and len(x):
        a, b = (1, None) if rng.random() < 0.5 else (0, -1)
        p = {q: (w if q == "coordSys" else w[a:b]) for q, w in p.items()}
    elif isinstance(x, batoid.optic.Optic) and k == "name":
        p[k] = "other" if x.name != "other" else "another"
    elif name == "OPDScreen" and k in ("inMedium", "outMedium"):
        p["inMedium"] = p["outMedium"] = tweak(rng, p[k])
        if p[k] is None:
            return None
    elif k == "obscuration" and p[k] is None:
        p[k] = gen.obsc(rng)
    elif k == "obscuration" and rng.random() < 0.4:
        p[k] = None
    else:
        p[k] = tweak(rng, p[k])
        if p[k] is None:
            return None
        if name == "Lens" and k == "items" and (len(p[k]) != 2 or p[k][0].outMedium != p[k][1].inMedium):
            return None
    y = make(x, p)
    return None if parts(y) == parts(x) else y


def probe(x):
    """What an object does, as a dict of arrays (bit-compared)."""
    g = np.random.default_rng(7)
    X, Y = g.normal(size=(2, 20)) * 0.5
    out = {}
    if isinstance(x, batoid.Surface):
        out["sag"], out["normal"] = x.sag(X, Y), x.normal(X, Y)
        rv = gen.rays_at(np.random.default_rng(3), None, 20, 0.5, flags=False)
        out.update(mon.snap(batoid.intersect(x, rv)))
    elif isinstance(x, batoid.Medium):
        out["n"] = x.getN(np.linspace(2e-7, 2e-6, 40))
    elif isinstance(x, batoid.Coating):
        out["c"] = np.array(x.getCoefs(np.array([5e-7]), np.array([0.7]))) if False else np.array(
            [x.getReflect(5e-7, 0.7), x.getTransmit(5e-7, 0.7)])
    elif isinstance(x, batoid.Obscuration):
        out["in"] = np.array([x.contains(float(a), float(b)) for a, b in zip(X, Y)])
    elif isinstance(x, batoid.CoordSys):
        out["g"], out["l"] = x.toGlobal(g.normal(size=(4, 3))), x.toLocal(g.normal(size=(4, 3)))
    elif isinstance(x, batoid.CoordTransform):
        out["f"] = np.array(x.applyForwardArray(X, Y, X))
        out["r"] = np.array(x.applyReverseArray(X, Y, X))
        out.update(mon.snap(x.applyForward(batoid.RayVector(X, Y, X, Y, X, Y, coordSys=x.fromSys))))
    elif isinstance(x, batoid.Lattice):
        out["c"], out["a"] = x.coords, x.array
    elif isinstance(x, batoid.RayVector):
        with np.errstate(all="ignore"):
            out["phase"] = x.phase([0.1, 0.2, 0.3], 0.4)
            out["at"] = x.positionAtTime(0.7)
            out.update(mon.snap(x.copy().toCoordSys(batoid.CoordSys([1, 2, 3.0], batoid.RotX(0.2)))))
            out["len"] = np.array(len(x))
    else:
        rv = gen.rays_at(np.random.default_rng(3), None, 12, 0.5, flags=False, wl=5e-7)
        out.update(mon.snap(x.trace(rv.copy())))
        out["rev"] = mon.snap(x.trace(rv.copy(), reverse=True))["r"]
        if hasattr(x, "items"):
            out["names"] = np.array(sorted(x.itemDict))
    return {k: (v if isinstance(v, np.ndarray) else np.asarray(0)) for k, v in out.items()}


def bits(c, a, b, tag, msg=""):
    c.event()
    for k in a:
        u, v = a[k], b[k]
        if u.shape != v.shape or u.dtype != v.dtype or not (u.tobytes() == v.tobytes() or np.array_equal(
                u, v, equal_nan=u.dtype.kind in "fc")):
            c.fail(tag, "%s differs. %s" % (k, msg))


def hashed(x):
    return not isinstance(x, batoid.RayVector)


def eq(c, a, b, want, tag, msg=""):
    """Equality as observed, in both directions and both spellings."""
    # a numpy scalar on the left decides the comparison itself
    for p, q in ((a, b), (b, a)) if not isinstance(b, np.generic) else ((a, b),):
        r, n = p == q, p != q
        c.ok(isinstance(r, (bool, np.bool_)) and isinstance(n, (bool, np.bool_)), tag + ":type", lambda: "== gives %r. %s" % (r, msg))
        c.ok(bool(r) == want, tag + ":eq", lambda: "== is %s, expected %s: %.300r / %.300r %s" % (r, want, p, q, msg))
        c.ok(bool(n) == (not want), tag + ":ne", lambda: "!= is %s, expected %s: %.300r %s" % (n, not want, p, msg))
    if want and hashed(a):
        c.ok(hash(a) == hash(b), tag + ":hash", lambda: "equal objects with different hashes: %.300r %s" % (a, msg))
        c.ok({a: 1}.get(b) == 1 and len({a, b}) == 1, tag + ":set", lambda: "%.200r" % a)


UNRELATED = [None, 0, 1.5, "Plane()", (), [], {}, object(), int, np.float64(2.0)]


def identity(c, rng, i):
    """One object, its rebuilt twin, all forms of copies, and variants differing in one parameter."""
    x = anything(rng)
    kind = type(x).__name__
    before = canon(x)
    h = hash(x) if hashed(x) else None
    eq(c, x, x, True, "self")
    eq(c, x, make(x, params(x)), True, "twin", kind)
    for u in UNRELATED:
        eq(c, x, u, False, "unrelated", repr(u))
    ref = probe(x)
    c.ok(not diff(before, canon(x)), "changed-by-use", diff(before, canon(x)))
    if h is not None:
        c.ok(hash(x) == h, "hash-changed", kind)
    for k in range(3):
        y = variant(rng, x)
        if y is not None:
            eq(c, x, y, False, "variant", kind)
    c.label("identity", kind, len(str(before)) // 300)
    c.sample(kind=kind, object=repr(x)[:200])


def copies(c, rng, i):
    """Copies are equal, complete, behave the same and are independent."""
    x = anything(rng)
    kind = type(x).__name__
    before, ref = canon(x), probe(x)
    proto = int(rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    forms = [("pickle", pickle.loads(pickle.dumps(x, protocol=proto))), ("deepcopy", copy.deepcopy(x)), ("copy", copy.copy(x))]
    if hasattr(x, "copy"):
        forms.append((".copy", x.copy()))
    if rng.random() < 0.3:
        a, b = pickle.loads(pickle.dumps([x, {"k": (x, 1)}]))
        forms += [("nested", a), ("nested", b["k"][0])]
    for how, y in forms:
        c.ok(type(y) is type(x), how + ":type", kind)
        eq(c, x, y, True, how, kind)
        d = diff(before, canon(y))
        c.ok(not d, how + ":state", "%s: %s" % (kind, d))
        bits(c, ref, probe(y), how + ":behaviour", kind)
        y2 = pickle.loads(pickle.dumps(y))
        eq(c, x, y2, True, how + "-again", kind)
    for how, y in forms:
        if how == "copy":
            continue
        scribble(rng, y)
        d = diff(before, canon(x))
        c.ok(not d, how + ":independent", "changing the copy changed the original (%s): %s" % (kind, d))
    bits(c, ref, probe(x), "original:behaviour", kind)
    c.label("copies", kind, proto, len(str(before)) // 300)


def scribble(rng, y, depth=0):
    """Change everything a caller can change in place."""
    if isinstance(y, batoid.RayVector) and len(y):
        batoid.intersect(batoid.Plane(), y, coordSys=batoid.CoordSys([0, 0, 5.0]))
        batoid.obscure(batoid.ObscNegation(batoid.ObscCircle(1e-9)), y)
        y.coordSys.origin[...] = 17.0
    if isinstance(y, batoid.optic.Optic):
        for it in getattr(y, "items", ()):
            scribble(rng, it, depth + 1)
        y.clearObscuration()
        y.name, y.skip = "scribbled", not y.skip
        if hasattr(y, "surface"):
            scribble(rng, y.surface, depth + 1)
        scribble(rng, y.coordSys, depth + 1)
        y.coordSys = batoid.CoordSys([9, 9, 9.0])
        return
    for k in PARAMS.get(type(y).__name__, ()):
        v = getattr(y, k)
        if isinstance(v, np.ndarray):
            try:
                v[...] = 3
            except ValueError:
                pass
        elif type(v).__name__ in PARAMS and depth < 4:
            scribble(rng, v, depth + 1)
        elif isinstance(v, (list, tuple)) and depth < 4:
            for q in v:
                scribble(rng, q, depth + 1)


def relation(c, rng, i):
    """All pairs of a pool with twins, near twins and other kinds: == is exactly 'same kind and parameters'."""
    pool = [anything(rng) for _ in range(4)]
    for x in list(pool[:3]):
        pool.append(make(x, params(x)))
        y = variant(rng, x)
        if y is not None:
            pool += [y, make(y, params(y))]
    if rng.random() < 0.5:
        x = surface(rng)
        R = float(rng.uniform(1, 5))
        pool += [batoid.Sphere(R), batoid.Paraboloid(R), batoid.Quadric(R, 0.0), batoid.Asphere(R, 0.0, []),
                 batoid.Asphere(R, 0.0, [0.0]), batoid.Sum([x]), x, batoid.Sum([x, x]), batoid.Sum([batoid.Sum([x]), x])]
    if rng.random() < 0.5:
        a, b = gen.obsc(rng, depth=2), gen.obsc(rng, depth=2)
        pool += [a, batoid.ObscNegation(a), batoid.ObscUnion([a]), batoid.ObscIntersection([a]), batoid.ObscUnion([a, b]),
                 batoid.ObscIntersection(a, b), batoid.ObscNegation(batoid.ObscNegation(a)), batoid.ObscCircle(1.0),
                 batoid.ObscAnnulus(0.0, 1.0), batoid.ObscCircle(1, 0, 0)]
    keys = [parts(x) for x in pool]
    M = np.zeros((len(pool),) * 2, bool)
    for j, x in enumerate(pool):
        for k, y in enumerate(pool):
            M[j, k] = x == y
            c.ok((x != y) == (not M[j, k]), "pool:ne", lambda: "%.200r / %.200r" % (x, y))
            same = keys[j] == keys[k]
            if same and hashed(x):
                c.ok(hash(x) == hash(y), "pool:hash", lambda: "%.300r" % x)
            c.ok(bool(M[j, k]) == same, "pool:eq", lambda: "== is %s, same parameters: %s: %.300r / %.300r" % (M[j, k], same, x, y))
    c.ok(np.array_equal(M, M.T), "pool:symmetric")
    hs = [x for x in pool if hashed(x)]
    groups = 0
    for j, x in enumerate(hs):
        groups += not any(x == y for y in hs[:j])
    c.note("equal pairs", int(M.sum()) - len(pool))
    c.ok(len(set(hs)) == groups, "pool:set", lambda: "%d / %d" % (len(set(hs)), groups))
    c.label("relation", *sorted({type(x).__name__ for x in pool})[:6])


def printing(c, rng, i):
    """repr is an expression rebuilding an equal object (at full array precision) that prints the same."""
    x = anything(rng)
    kind = type(x).__name__
    with np.printoptions(precision=17, threshold=sys.maxsize, floatmode="unique"):
        s = repr(x)
        try:
            y = eval(s, dict(NS))
        except Exception as e:
            c.fail("repr:eval", "%s: %s: %.500s" % (type(e).__name__, e, s))
        c.ok(repr(y) == s, "repr:full", "%.600s / %.600s" % (s, repr(y)))
        c.ok(type(y) is type(x), "repr:type", s[:200])
        eq(c, x, y, True, "repr:full", s[:300])
    s = repr(x)
    small = "..." not in s
    c.ok(str(x) == s, "str")
    if small:
        y = eval(s, dict(NS))
        c.ok(repr(y) == s, "repr:default", "%.900s / %.900s" % (s, repr(y)))
    c.label("printing", kind, len(s) // 100)


def telescopes(c, rng, i):
    """A whole shipped telescope survives copying and pickling, and differs from its modifications."""
    nm, tel = gen.pick_scope(rng)
    before = canon(tel)
    how = int(rng.integers(3))
    y = pickle.loads(pickle.dumps(tel)) if how == 0 else copy.deepcopy(tel) if how == 1 else copy.copy(tel)
    eq(c, tel, y, True, "tel", nm)
    d = diff(before, canon(y))
    c.ok(not d, "tel:state", "%s: %s" % (nm, d))
    rv = gen.beam(rng, nm, tel, 40)
    bits(c, {k: v for k, v in mon.snap(tel.trace(rv.copy())).items() if k != "cs"},
         {k: v for k, v in mon.snap(y.trace(rv.copy())).items() if k != "cs"}, "tel:behaviour", nm)
    names = [k for k in tel.itemDict if k != tel.name]
    q = str(names[rng.integers(len(names))])
    z = y.withGloballyShiftedOptic(q, [0.0, 0.0, float(rng.choice([1e-12, 1e-3]))])
    if canon(z.itemDict[q].coordSys)["origin"] != canon(tel.itemDict[q].coordSys)["origin"]:
        eq(c, tel, z, False, "tel:moved", "%s %s" % (nm, q))
    c.ok(not diff(before, canon(tel)), "tel:changed", nm)
    with np.printoptions(precision=17, threshold=sys.maxsize, floatmode="unique"):
        s = repr(tel)
        y = eval(s, dict(NS))
        c.ok(repr(y) == s, "tel:repr", nm)
        eq(c, tel, y, True, "tel:repr", nm)
    c.label("telescope", nm, how)


CASES = [
    ("identity", identity, 1600, 40000),
    ("copies", copies, 800, 20000),
    ("relation", relation, 600, 10000),
    ("printing", printing, 1200, 30000),
    ("telescopes", telescopes, 24, 400),
]
