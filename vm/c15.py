"""C15: every derived system is exactly the documented change of the original, which stays as it was."""
import copy
import numpy as np
import batoid
from . import gen, mon, ref
from .canon import canon, diff, arr
from .c13 import same, leaves

NAMES = ["A", "B", "AB", "A1", "A10", "L", "L1", "L10", "L1_entrance", "M", "M1"]


def tree(rng, depth=0, name="A"):
    """A random tree of named parts; the same name may occur in different branches, names are prefixes of each other."""
    n = int(rng.integers(1, 5))
    items = []
    for nm in rng.permutation(NAMES)[:n]:
        nm = str(nm)
        if depth < 3 and rng.random() < 0.4:
            items.append(tree(rng, depth + 1, nm))
        else:
            items.append(leaf(rng, nm))
    kw = extras(rng)
    if depth == 0 or rng.random() < 0.2:
        kw["stopSurface"] = batoid.optic.Interface(batoid.Plane(), name="stop", coordSys=gen.csys(rng))
    if len(items) == 2 and rng.random() < 0.5 and items[0].outMedium == items[1].inMedium:
        return batoid.Lens(items, name=name, coordSys=gen.csys(rng), **kw)
    return batoid.CompoundOptic(items, name=name, coordSys=gen.csys(rng), **kw)


def extras(rng):
    kw = {}
    if rng.random() < 0.5:
        kw["backDist"] = float(rng.uniform(1, 9))
    if rng.random() < 0.5:
        kw["pupilSize"] = float(rng.uniform(1, 9))
    if rng.random() < 0.3:
        kw["skip"] = True
    if rng.random() < 0.3:
        kw["sphereRadius"] = 3.5
        kw["pupilObscuration"] = 0.2
    if rng.random() < 0.3:
        kw["remark"] = ["anything", int(rng.integers(99))]
    if rng.random() < 0.3:
        kw["inMedium"] = batoid.ConstMedium(1.2)
    return kw


def leaf(rng, name):
    kw = extras(rng)
    cls = [batoid.Mirror, batoid.RefractiveInterface, batoid.Baffle, batoid.Detector, batoid.OPDScreen, batoid.optic.Interface][rng.integers(6)]
    s = gen.surf(rng, str(rng.choice(["Plane", "Sphere", "Zernike", "Sum", "Asphere", "Bicubic"])), 1.0, True)
    kw.update(name=name, coordSys=gen.csys(rng), obscuration=gen.obsc(rng) if rng.random() < 0.6 else None)
    if rng.random() < 0.15:
        kw["stopSurface"] = batoid.optic.Interface(batoid.Plane(), name="stop", coordSys=gen.csys(rng))
    if cls is batoid.OPDScreen:
        m = batoid.ConstMedium(1.1)
        kw.update(inMedium=m, outMedium=m)
        return cls(s, gen.surf(rng, "Zernike", 1.0, True), **kw)
    kw["outMedium"] = batoid.ConstMedium(float(rng.choice([1.0, 1.2, 1.5])))
    if cls is not batoid.optic.Interface:
        if rng.random() < 0.6:
            kw["forwardCoating"] = gen.coating(rng)
        if rng.random() < 0.6:
            kw["reverseCoating"] = gen.coating(rng)
    return cls(s, **kw)


# ------------------------------------------------------------------ the model: plain data
def paths(d, pre=()):
    """{full path (tuple of names): node} of a canonical tree."""
    me = pre + (d["name"],)
    out = {me: d}
    for it in d.get("items", ()):
        for k, v in paths(it, me).items():
            out.setdefault(k, v)
    return out


def resolve(d, name):
    """The full path a name stands for, or None (unknown or ambiguous)."""
    ps = list(paths(d))
    t = tuple(name.split("."))
    if t in ps:
        return t
    m = [p for p in ps if len(p) >= len(t) and p[-len(t):] == t]
    return m[0] if len(m) == 1 else None


def rewrite(d, path, f):
    """Tree with f applied to the node at path; f returns a list of replacements."""
    if path == (d["name"],):
        return f(d)
    e = dict(d)
    e["items"] = tuple(q for it in d["items"] for q in
                       (rewrite(it, path[1:], f) if path[1] == it["name"] else [it]))
    return [e]


def rigid(d, Q, t):
    """Node and all its parts moved by p -> Q p + t."""
    e = dict(d)
    cs = d["coordSys"]
    o, R = arr(cs["origin"]), arr(cs["rot"])
    e["coordSys"] = dict(cs, origin=canon(np.asarray(Q @ o + t)), rot=canon(np.asarray(Q @ R)))
    if "items" in d:
        e["items"] = tuple(rigid(i, Q, t) for i in d["items"])
    if "stopSurface" in d:
        e["stopSurface"] = rigid(d["stopSurface"], Q, t)
    return e


def frame(d):
    return arr(d["coordSys"]["origin"]), arr(d["coordSys"]["rot"])


def pick(rng, d, leaf_only=False, proper=False):
    """A name a user may write for a random part, full or partial, plus its full path."""
    ps = [p for p, n in paths(d).items() if not (leaf_only and "items" in n) and not (proper and len(p) == 1)]
    if not ps:
        return None, None
    p = ps[rng.integers(len(ps))]
    forms = [".".join(p[k:]) for k in range(len(p))]
    forms = [f for f in forms if resolve(d, f) == p]
    return forms[rng.integers(len(forms))], p


def apply(rng, s, d):
    """One random operation on the real system and on the model: (label, real result, model result)."""
    op = str(rng.choice(["gshift", "lshift", "grot", "lrot", "pgshift", "plshift", "plrot", "surface", "perturb", "insert", "remove"]))
    compound = "items" in d
    I = np.eye(3)
    v = rng.normal(size=3) * rng.choice([1e-3, 1.0])
    va = [v, list(v), tuple(v)][rng.integers(3)]
    R = gen.rot(rng)
    cen = rng.normal(size=3)
    fr = gen.csys(rng)
    kw, (co, cR) = {}, (None, None)
    mode = rng.integers(3)
    if mode >= 1:
        kw["rotCenter"] = [cen, list(cen)][rng.integers(2)]
        if mode == 2:
            kw["coordSys"] = fr
    o, L = frame(d)

    def centre(default):
        f = fr if mode == 2 else default
        return f.rot @ (cen if mode >= 1 else np.zeros(3)) + f.origin
    if op == "gshift":
        return op, s.withGlobalShift(va), rigid(d, I, v)
    if op == "lshift":
        return op, s.withLocalShift(va), rigid(d, I, L @ v)
    if op == "grot":
        ctr = centre(batoid.CoordSys())
        return op, s.withGlobalRotation(R, **kw), rigid(d, R, ctr - R @ ctr)
    if op == "lrot":
        ctr = centre(batoid.CoordSys(o, L))
        G = L @ R @ L.T
        return op, s.withLocalRotation(R, **kw), rigid(d, G, ctr - G @ ctr)
    if not compound:
        if op in ("surface", "pgshift"):
            n = gen.surf(rng, "Sphere")
            return "surface", s.withSurface(n), dict(d, surface=canon(n))
        n = gen.surf(rng, "Zernike")
        return "perturb", s.withPerturbedSurface(n), dict(d, surface=canon(s.surface + n))
    if op in ("pgshift", "plshift", "plrot"):
        nm, p = pick(rng, d)
        po, pL = frame(paths(d)[p])
        if op == "pgshift":
            return op, s.withGloballyShiftedOptic(nm, va), rewrite(d, p, lambda e: [rigid(e, I, v)])[0]
        if op == "plshift":
            return op, s.withLocallyShiftedOptic(nm, va), rewrite(d, p, lambda e: [rigid(e, I, pL @ v)])[0]
        ctr = centre(batoid.CoordSys(po, pL))
        G = pL @ R @ pL.T
        return op, s.withLocallyRotatedOptic(nm, R, **kw), rewrite(d, p, lambda e: [rigid(e, G, ctr - G @ ctr)])[0]
    if op in ("surface", "perturb"):
        nm, p = pick(rng, d, leaf_only=True, proper=True)
        if nm is None:
            return apply(rng, s, d)
        n = gen.surf(rng, str(rng.choice(["Sphere", "Zernike", "Sum", "Plane"])), 1.0, True)
        if op == "surface":
            return op, s.withSurface(nm, n), rewrite(d, p, lambda e: [dict(e, surface=canon(n))])[0]
        new = canon(s[".".join(p)].surface + n)
        return op, s.withPerturbedSurface(nm, n), rewrite(d, p, lambda e: [dict(e, surface=new)])[0]
    nm, p = pick(rng, d, proper=True)
    if nm is None:
        return apply(rng, s, d)
    if op == "insert":
        sib = {q["name"] for q in paths(d)[p[:-1]]["items"]}
        free = [x for x in NAMES + ["New"] if x not in sib]
        n = leaf(rng, str(rng.choice(free))) if rng.random() < 0.7 else tree(rng, 3, str(rng.choice(free)))
        return op, s.withInsertedOptic(nm, n), rewrite(d, p, lambda e: [canon(n), e])[0]
    return op, s.withRemovedOptic(nm), rewrite(d, p, lambda e: [])[0]


def unknown(c, rng, s, d):
    """Names that resolve to nothing, or to several parts, are refused by everything."""
    bad = ["Nowhere", d["name"] + ".Nowhere"]
    count = {}
    for p in paths(d):
        for k in range(len(p)):
            count.setdefault(p[k:], set()).add(p)
    bad += [".".join(t) for t, w in count.items() if len(w) > 1 and t not in paths(d)][:3]
    for b in bad:
        E = (ValueError, KeyError)
        c.raises(E, lambda: s[b], "unknown:getitem", b)
        c.raises(E, lambda: s.withGloballyShiftedOptic(b, [0, 0, 1]), "unknown:gshift", b)
        c.raises(E, lambda: s.withLocallyShiftedOptic(b, [0, 0, 1]), "unknown:lshift", b)
        c.raises(E, lambda: s.withLocallyRotatedOptic(b, np.eye(3)), "unknown:lrot", b)
        c.raises(E, lambda: s.withSurface(b, batoid.Plane()), "unknown:surface", b)
        c.raises(E, lambda: s.withPerturbedSurface(b, batoid.Plane()), "unknown:perturb", b)
        c.raises(E, lambda: s.withInsertedOptic(b, batoid.Baffle(batoid.Plane(), name="N")), "unknown:insert", b)
        c.raises(E, lambda: s.withRemovedOptic(b), "unknown:remove", b)
        c.label("unknown", len(b.split(".")))


def trees(c, rng, i):
    """Sequences of operations on random trees."""
    s = tree(rng) if i % 5 else leaf(rng, "A")
    d0 = d = canon(s)
    first = s
    seen = []
    for k in range(int(rng.integers(1, 6))):
        op, s2, d2 = apply(rng, s, d)
        seen.append(op)
        c.ok(s2 is not s, op + ":same-object")
        df = diff(d, canon(s), s.name)
        c.ok(not df, op + ":original-changed", "%s: %s" % (op, df))
        df = diff(d2, canon(s2), s.name, 1e-12 * (k + 1))
        c.ok(not df, op + ":derived", "%s (expected / got) %s" % (op, df))
        s, d = s2, canon(s2)
        if "items" in d:
            # every name reaches its part
            ps = paths(d)
            for p, node in list(ps.items())[:12]:
                c.ok(not diff(node, canon(s[".".join(p)])), "name", ".".join(p))
            c.ok({tuple(q.split(".")) for q in s.itemDict} == set(ps), "names", str(sorted(s.itemDict)))
            nm, p = pick(rng, d)
            c.ok(not diff(ps[p], canon(s[nm])), "partial-name", nm)
    df = diff(d0, canon(first), "first")
    c.ok(not df, "first-changed", str(seen) + df)
    if "items" in d:
        unknown(c, rng, s, d)
    c.label("ops", *seen)
    c.label("tree", len(paths(d)) if "items" in d else 0, seen[-1])
    c.sample(operations=seen, parts=[".".join(p) for p in paths(d)][:12] if "items" in d else d["name"])


def rebuild(o, d):
    """A real system with the frames and surfaces of the model put in by hand."""
    m = copy.deepcopy(o)

    def walk(q, e):
        q.coordSys = batoid.CoordSys(arr(e["coordSys"]["origin"]), arr(e["coordSys"]["rot"]))
        for a, b in zip(getattr(q, "items", ()), e.get("items", ())):
            walk(a, b)
    walk(m, d)
    return m


def traced(c, rng, i):
    """What a modified system does to light is what the moved elements do."""
    if i % 3 == 0:
        nm, s = gen.pick_scope(rng)
        rv = gen.beam(rng, nm, s, 20)
    else:
        nm, s = "random", gen.system(rng, screens=True)
        rv = gen.system_beam(rng, s, 20, wl=6e-7)
    d = canon(s)
    before = mon.snap(s.trace(rv.copy()))
    eps = 1e-3
    p, node = list(paths(d).items())[int(rng.integers(len(paths(d))))]
    name = ".".join(p)
    o, L = frame(node)
    v = rng.normal(size=3) * eps
    R = batoid.RotX(rng.normal() * eps) @ batoid.RotY(rng.normal() * eps)
    which = i % 4
    if which == 0:
        t, dd = s.withGloballyShiftedOptic(name, v), rewrite(d, p, lambda e: [rigid(e, np.eye(3), v)])[0]
    elif which == 1:
        t, dd = s.withLocallyShiftedOptic(name, v), rewrite(d, p, lambda e: [rigid(e, np.eye(3), L @ v)])[0]
    elif which == 2:
        G = L @ R @ L.T
        t, dd = s.withLocallyRotatedOptic(name, R), rewrite(d, p, lambda e: [rigid(e, G, o - G @ o)])[0]
    else:
        lv = [q for q, n in paths(d).items() if "items" not in n]
        p = lv[int(rng.integers(len(lv)))]
        name = ".".join(p)
        z = batoid.Zernike(rng.normal(size=10) * 1e-6, R_outer=4.0)
        t = s.withPerturbedSurface(name, z)
        m = copy.deepcopy(s)
        m[name].surface = batoid.Sum([s[name].surface, z])
        dd = None
    if dd is not None:
        m = rebuild(s, dd)
        df = diff(dd, canon(t), "", 1e-12)
        c.ok(not df, "derived", df)
    got, want = mon.snap(t.trace(rv.copy())), mon.snap(m.trace(rv.copy()))
    k = got["fail"] == want["fail"]
    k &= got["vig"] == want["vig"]
    c.ok((~k).sum() <= 1, "traced:flags", "%d rays differ" % (~k).sum())
    u = k & ~want["fail"]
    c.close(got["r"][u], want["r"][u], "traced:r", atol=1e-8)
    c.close(got["v"][u], want["v"][u], "traced:v", atol=1e-8)
    c.close(got["t"][u], want["t"][u], "traced:t", atol=1e-8)
    same(c, mon.snap(s.trace(rv.copy())), before, "original")
    c.label("traced", nm, which, len(p), int(u.sum()) // 5)


def scopes(c, rng, i):
    """Shipped telescopes: sequences of operations, and undoing them."""
    nm, s = gen.pick_scope(rng)
    d0 = d = canon(s)
    t = s
    seen = []
    for k in range(2):
        op, t2, d2 = apply(rng, t, d)
        seen.append(op)
        df = diff(d2, canon(t2), s.name, 1e-12)
        c.ok(not df, op + ":derived", df)
        df = diff(d, canon(t), s.name)
        c.ok(not df, op + ":original-changed", df)
        t, d = t2, canon(t2)
    df = diff(d0, canon(s))
    c.ok(not df, "first-changed", df)
    v, R = rng.normal(size=3), gen.rot(rng)
    name, p = pick(rng, d0)
    u = s.withGloballyShiftedOptic(name, v).withGloballyShiftedOptic(name, -v)
    df = diff(d0, canon(u), "", 1e-12)
    c.ok(not df, "undo:shift", df)
    u = s.withLocallyRotatedOptic(name, R).withLocallyRotatedOptic(name, R.T)
    df = diff(d0, canon(u), "", 1e-11)
    c.ok(not df, "undo:rotation", df)
    c.label("scope", nm, *seen)


CASES = [
    ("trees", trees, 500, 12000),
    ("traced", traced, 150, 3000),
    ("scopes", scopes, 60, 1000),
]
