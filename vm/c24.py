"""C24: what a configuration says against what was built from it (an own reader of the documented format), and the shipped files."""
import copy
import glob
import os
import numpy as np
import yaml
import batoid
from batoid import parse
from . import gen, ref
from .canon import canon, diff

L = np.longdouble
ATTRS = ["backDist", "sphereRadius", "pupilSize", "pupilObscuration", "R_outer", "R_inner"]
LEAVES = ["Mirror", "RefractiveInterface", "Baffle", "Detector", "Interface", "OPDScreen"]


# ------------------------------------------------------------ writing configurations
def num(x):
    return [num(v) for v in x] if isinstance(x, (list, tuple, np.ndarray)) else (float(x) if not isinstance(x, (int, np.integer)) else int(x))


def obsc_conf(rng, o):
    """A configuration of that obscuration; what is built must equal it."""
    t = type(o).__name__
    if t == "ObscNegation":
        d = obsc_conf(rng, o.original)
        if not d["type"].startswith("Clear") and d["type"] != "ObscNegation" and rng.random() < 0.6:
            d["type"] = d["type"].replace("Obsc", "Clear")
            return d
        return {"type": "ObscNegation", "original": d}
    if t in ("ObscUnion", "ObscIntersection"):
        return {"type": t, "items": [obsc_conf(rng, q) for q in o.items]}
    keys = {"ObscCircle": ["radius", "x", "y"], "ObscAnnulus": ["inner", "outer", "x", "y"],
            "ObscRectangle": ["width", "height", "x", "y", "theta"], "ObscRay": ["width", "theta", "x", "y"],
            "ObscPolygon": ["xs", "ys"]}[t]
    d = {k: num(getattr(o, k)) for k in keys}
    if t != "ObscPolygon":
        for k in ("x", "y", "theta"):
            if d.get(k) == 0 and k != "theta" and rng.random() < 0.7:
                del d[k]
    return shuffled(rng, dict(d, type=t))


def surf_conf(rng, s):
    t = type(s).__name__
    if t == "Sum":
        return shuffled(rng, {"type": t, "items": [surf_conf(rng, q) for q in s.surfaces]})
    keys = {"Plane": [], "Tilted": ["tanx", "tany"], "Paraboloid": ["R"], "Sphere": ["R"], "Quadric": ["R", "conic"],
            "Asphere": ["R", "conic", "coefs", "imin"], "Zernike": ["coef", "R_outer", "R_inner", "x_origin", "y_origin"],
            "Bicubic": ["xs", "ys", "zs", "dzdxs", "dzdys", "d2zdxdys", "nanpolicy"]}[t]
    d = {k: (getattr(s, k) if isinstance(getattr(s, k), str) else num(getattr(s, k))) for k in keys}
    if t == "Asphere" and d["imin"] == 2 and rng.random() < 0.7:
        del d["imin"]
    if t == "Zernike":
        for k in ("x_origin", "y_origin", "R_inner"):
            if d[k] == 0 and rng.random() < 0.7:
                del d[k]
    return shuffled(rng, dict(d, type=t))


def medium_conf(rng, m):
    t = type(m).__name__
    if t == "ConstMedium":
        return num(m.n) if rng.random() < 0.6 else {"type": t, "n": num(m.n)}
    if t == "TableMedium":
        return shuffled(rng, {"type": t, "wavelengths": num(m.wavelengths), "ns": num(m.ns)})
    if t == "SellmeierMedium":
        return shuffled(rng, dict(zip(["B1", "B2", "B3", "C1", "C2", "C3"], num(m.coefs)), type=t))
    if t == "SumitaMedium":
        return shuffled(rng, dict(zip(["A0", "A1", "A2", "A3", "A4", "A5"], num(m.coefs)), type=t))
    return shuffled(rng, {"type": t, "pressure": num(m.pressure), "temperature": num(m.temperature), "h2o_pressure": num(m.h2o_pressure)})


def frame_conf(rng):
    ks = [k for k in ("x", "y", "z", "rotX", "rotY", "rotZ") if rng.random() < 0.4]
    d = {k: float(rng.normal() * (2 if k in "xyz" else rng.choice([1, 0.01]))) for k in ks}
    if rng.random() < 0.25:
        d["shift"] = num(rng.normal(size=3) * 3)
    if rng.random() < 0.1:
        d = {k: int(round(v)) if not isinstance(v, list) else v for k, v in d.items()}
    return shuffled(rng, d)


def shuffled(rng, d):
    ks = list(d)
    rng.shuffle(ks)
    return {k: d[k] for k in ks}


def optic_conf(rng, names, deep=0, pool=None, bare=False):
    """(configuration, description) of a random tree; the description keeps the objects it was written from."""
    u = rng.random()
    cf, ds = {}, {}
    if rng.random() < 0.95:
        cf["name"] = ds["name"] = "N%d" % len(names) if rng.random() < 0.8 else "a b.%d" % len(names)
        names.append(cf["name"])
    else:
        ds["name"] = ""
    if rng.random() < 0.6:
        cf["coordSys"] = ds["frame"] = pool["frame"] if pool.get("frame") and rng.random() < 0.2 else frame_conf(rng)
        pool["frame"] = cf["coordSys"]

    def med(key):
        if pool.get("medium") and rng.random() < 0.4:
            m, d = pool["medium"]           # one and the same dict in several places, as YAML anchors give
        else:
            m = gen.medium(rng)
            d = medium_conf(rng, m)
            pool["medium"] = (m, d)
        cf[key] = d
        ds[key] = m
    for k in ATTRS:
        if rng.random() < 0.15:
            cf[k] = ds[k] = float(rng.uniform(0.1, 5))
    if rng.random() < 0.15:
        c2, d2 = optic_conf(rng, [], 9, pool)
        cf["stopSurface"], ds["stopSurface"] = c2, d2
    if deep < 3 and u < (0.85 if deep == 0 else 0.3):
        if rng.random() < 0.35:
            cf["type"] = ds["type"] = "Lens"
            med("medium")
            if rng.random() < 0.3:
                med("inMedium")
                med("outMedium")
            n = 2
        else:
            cf["type"] = ds["type"] = "CompoundOptic"
            if rng.random() < 0.4:
                med("inMedium")
                med("outMedium")
            n = int(rng.integers(1, 5))
        lens = cf["type"] == "Lens"
        kids = [optic_conf(rng, names, 9 if lens else deep + 1, pool, lens) for _ in range(n)]
        cf["items"] = [k[0] for k in kids]
        ds["items"] = [k[1] for k in kids]
        return shuffled(rng, cf), ds
    t = cf["type"] = ds["type"] = str(LEAVES[rng.integers(len(LEAVES) - bare)])
    s = gen.surf(rng)
    cf["surface"], ds["surface"] = surf_conf(rng, s), s
    if t == "OPDScreen":
        z = gen.surf(rng)
        cf["screen"], ds["screen"] = surf_conf(rng, z), z
        med("inMedium")
        cf["outMedium"], ds["outMedium"] = cf["inMedium"], ds["inMedium"]
    else:
        if rng.random() < 0.5:
            if pool.get("obsc") and rng.random() < 0.3:
                cf["obscuration"], ds["obscuration"] = pool["obsc"]
            else:
                o = gen.obsc(rng)
                cf["obscuration"], ds["obscuration"] = obsc_conf(rng, o), o
                pool["obsc"] = (cf["obscuration"], o)
        if rng.random() < 0.3 and not bare:
            med("outMedium")
            if rng.random() < 0.6:
                med("inMedium")
    return shuffled(rng, cf), ds


# ------------------------------------------------------------ an own reading of the format
def lrot(axis, a):
    a = L(a)
    s, co = np.sin(a), np.cos(a)
    M = np.eye(3, dtype=L)
    j, k = {"rotX": (1, 2), "rotY": (2, 0), "rotZ": (0, 1)}[axis]
    M[j, j] = M[k, k] = co
    M[j, k], M[k, j] = -s, s
    return M


def place(frame, conf):
    """Shift and turn, in the order written, along and about the frame's own axes."""
    o, R = frame
    for k, v in conf.items():
        if k in ("x", "y", "z"):
            o = o + R[:, "xyz".index(k)] * L(v)
        elif k == "shift":
            o = o + R @ np.array(v, L)
        else:
            R = R @ lrot(k, v)
    return o, R


def read_obsc(d):
    t, d = d["type"], {k: v for k, v in d.items() if k != "type"}
    if t.startswith("Clear"):
        return batoid.ObscNegation(read_obsc(dict(d, type="Obsc" + t[5:])))
    if t == "ObscNegation":
        return batoid.ObscNegation(read_obsc(d["original"]))
    if t in ("ObscUnion", "ObscIntersection"):
        return getattr(batoid, t)([read_obsc(q) for q in d["items"]])
    return getattr(batoid, t)(**d)


def read_surf(d):
    t, d = d["type"], {k: v for k, v in d.items() if k != "type"}
    return batoid.Sum([read_surf(q) for q in d["items"]]) if t == "Sum" else getattr(batoid, t)(**d)


def read_medium(d):
    if not isinstance(d, dict):
        return batoid.ConstMedium(d)
    return getattr(batoid, d["type"])(**{k: v for k, v in d.items() if k != "type"})


def describe(d):
    """A raw configuration (as loaded from a file) as a description."""
    r = {"name": d.get("name", ""), "type": d["type"]}
    if "coordSys" in d:
        r["frame"] = d["coordSys"]
    for k in ("inMedium", "outMedium") + (("medium",) if d["type"] == "Lens" else ()):
        if d.get(k) is not None:
            r[k] = read_medium(d[k])
    for k in ("surface", "screen"):
        if k in d:
            r[k] = read_surf(d[k])
    if "obscuration" in d:
        r["obscuration"] = read_obsc(d["obscuration"])
    if "items" in d:
        r["items"] = [describe(q) for q in d["items"]]
    if "stopSurface" in d:
        r["stopSurface"] = describe(d["stopSurface"])
    for k in ATTRS:
        if k in d:
            r[k] = d[k]
    return r


def compare(c, T, ds, frame, mi, mo, path="top"):
    """The built optic T against its description, default media mi, mo (None: as the incoming one)."""
    c.ok(type(T).__name__ == ds["type"], "type", lambda: "%s: %s for %s" % (path, type(T).__name__, ds["type"]))
    path = "%s/%s" % (path, ds["name"])
    c.ok(T.name == ds["name"], "name", lambda: "%s: %r" % (path, T.name))
    if "frame" in ds:
        frame = place(frame, ds["frame"])
    s = 1 + float(np.abs(frame[0]).max())
    c.close(T.coordSys.origin, frame[0].astype(float), "frame:origin", atol=2e-14 * s, msg=path)
    c.close(T.coordSys.rot, frame[1].astype(float), "frame:rot", atol=1e-14, msg=path)
    mi = ds.get("inMedium", mi)
    mo = ds.get("outMedium", mo)
    mo = mi if mo is None else mo
    for k, want in (("inMedium", mi), ("outMedium", mo), ("surface", ds.get("surface")), ("screen", ds.get("screen")),
                    ("obscuration", ds.get("obscuration")), ("medium", ds.get("medium"))):
        if want is None and k in ("surface", "screen", "medium"):
            continue
        got = getattr(T, k, None)
        d = diff(plain(want), plain(got))
        c.ok(not d, k, lambda: "%s: %s" % (path, d))
    for k in ATTRS:
        if k in ds:
            c.ok(hasattr(T, k) and getattr(T, k) == ds[k], "attribute:" + k, lambda: "%s: %r for %r" % (path, getattr(T, k, None), ds[k]))
        elif k[:2] != "R_":
            c.ok(getattr(T, k, None) is None, "attribute-extra:" + k, lambda: "%s: %r" % (path, getattr(T, k)))
    if "stopSurface" in ds:
        c.ok(hasattr(T, "stopSurface"), "stopSurface", lambda: path)
        compare(c, T.stopSurface, ds["stopSurface"], GLOBAL, batoid.ConstMedium(1.0), None, path + ":stop")
    else:
        c.ok(getattr(T, "stopSurface", None) is None, "stopSurface-extra", lambda: path)
    if "items" in ds:
        c.ok(len(T.items) == len(ds["items"]), "items", lambda: "%s: %d for %d" % (path, len(T.items), len(ds["items"])))
        for j, (a, b) in enumerate(zip(T.items, ds["items"])):
            if ds["type"] == "Lens":
                m = ds["medium"]
                compare(c, a, b, frame, mi if j == 0 else m, m if j == 0 else mo, path)
            else:
                compare(c, a, b, frame, mi, mo, path)


GLOBAL = (np.zeros(3, L), np.eye(3, dtype=L))


def plain(x):
    """Canonical state with numbers as floats (a configuration may write 1 for 1.0)."""
    def f(v):
        if isinstance(v, dict):
            return {k: f(q) for k, q in v.items()}
        if isinstance(v, tuple) and v[:1] == ("array",):
            from .canon import arr
            return ("nums", v[1]) + tuple(float(q) for q in arr(v).ravel())
        if isinstance(v, tuple):
            return tuple(f(q) for q in v)
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            return float(v)
        return v
    return f(canon(x))


def freeze(d):
    return copy.deepcopy(d)


def same_conf(a, b):
    """Same keys in the same order, same values of the same types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_conf(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same_conf(x, y) for x, y in zip(a, b))
    return a == b


# ------------------------------------------------------------ cases
def pieces(c, rng, i):
    """Surfaces, media, obscurations, frames by themselves."""
    k = int(rng.integers(4))
    if k == 0:
        o = gen.surf(rng) if rng.random() < 0.85 else gen.bicubic(rng, nx=4, ny=5)
        cf, fn = surf_conf(rng, o), parse.parse_surface
    elif k == 1:
        o = gen.medium(rng)
        cf, fn = medium_conf(rng, o), parse.parse_medium
    elif k == 2:
        o = gen.obsc(rng)
        cf, fn = obsc_conf(rng, o), parse.parse_obscuration
    else:
        cf = frame_conf(rng)
        cs = gen.csys(rng)
        was = freeze(cf)
        if rng.random() < 0.3:
            want = place(GLOBAL, cf)
            got = parse.parse_coordSys(cf)
        else:
            want = place((ref.ld(cs.origin), ref.ld(cs.rot)), cf)
            before = canon(cs)
            got = parse.parse_coordSys(cf, cs)
            c.ok(canon(cs) == before, "frame:parent-modified")
        c.close(got.origin, want[0].astype(float), "frame:origin", atol=2e-14 * (1 + float(np.abs(want[0]).max())))
        c.close(got.rot, want[1].astype(float), "frame:rot", atol=1e-14)
        c.ok(same_conf(cf, was), "config-modified", lambda: "%r / %r" % (was, cf))
        c.label("frame", tuple(cf))
        return
    was = freeze(cf)
    a = fn(cf)
    d = diff(plain(o), plain(a))
    c.ok(not d, "piece", lambda: "%s from %r" % (d, was))
    c.ok(a == o, "piece:equal", lambda: repr(was))
    c.ok(same_conf(cf, was), "config-modified", lambda: "%r / %r" % (was, cf))
    b = fn(cf)
    c.ok(a == b and canon(a) == canon(b), "twice", lambda: repr(was))
    if isinstance(cf, dict):
        t = dict(cf, type="Nonsense")
        c.ok(raises(lambda: fn(t)), "unknown-type", lambda: repr(t))
    if k == 1:
        c.ok(parse.parse_medium(o) is o or parse.parse_medium(o) == o, "medium:object")
        c.ok(parse.parse_medium(None) is None, "medium:none")
    c.label("piece", k, type(o).__name__, len(str(cf)) // 60)


def raises(fn):
    try:
        fn()
    except Exception:
        return True
    return False


def trees(c, rng, i):
    """Whole systems, directly or through a file."""
    pool = {}
    cf, ds = optic_conf(rng, [], 0, pool)
    was = freeze(cf)
    mode = int(rng.integers(4))
    frame, mi, mo = GLOBAL, batoid.ConstMedium(1.0), None
    kw = {}
    if mode == 0:        # through a file, where equal parts become anchors
        fn = os.path.join(os.environ.get("VM_SCRATCH", "/tmp"), "c24_%d_%d.yaml" % (os.getpid(), i))
        with open(fn, "w") as fh:
            yaml.safe_dump({"opticalSystem": cf}, fh, sort_keys=False)
        try:
            build = lambda: batoid.Optic.fromYaml(fn)
            T, T2 = build(), build()
        finally:
            os.remove(fn)
    else:
        if mode == 1:
            cs = gen.csys(rng)
            frame = (ref.ld(cs.origin), ref.ld(cs.rot))
            kw["coordSys"] = cs
        if mode == 2:
            mi = kw["inMedium"] = gen.medium(rng)
            if rng.random() < 0.5:
                mo = kw["outMedium"] = gen.medium(rng)
        T = parse.parse_optic(cf, **kw)
        T2 = parse.parse_optic(cf, **kw)
    c.ok(same_conf(cf, was), "config-modified", lambda: "%r / %r" % (was, cf))
    compare(c, T, ds, frame, mi, mo)
    d = diff(canon(T), canon(T2))
    c.ok(not d and T == T2, "twice", lambda: d)
    # the same with a part of a type nobody knows
    bad = copy.deepcopy(cf)
    at = bad
    while at.get("items") and rng.random() < 0.6:
        at = at["items"][rng.integers(len(at["items"]))]
    at["type"] = str(rng.choice(["Nonsense", "mirror", "", "Optic", "Compound"]))
    c.ok(raises(lambda: parse.parse_optic(bad)), "unknown-type", lambda: repr(bad)[:400])
    # built systems own their data
    before = canon(T)
    scramble(cf)
    c.ok(not diff(before, canon(T)), "captured", lambda: diff(before, canon(T)))
    c.label("tree", len(str(was)) // 300, mode, depth(ds))
    c.sample(config=was)


def scramble(d):
    """Spoil every list and dict of the configuration in place."""
    if isinstance(d, dict):
        for k in list(d):
            scramble(d[k])
            if isinstance(d[k], float):
                d[k] = d[k] + 17.0
        d["extra"] = 1
    elif isinstance(d, list):
        for q in d:
            scramble(q)
        for k in range(len(d)):
            if isinstance(d[k], float):
                d[k] += 17.0
        d.append(3.0)


def depth(ds):
    return 1 + max([depth(q) for q in ds.get("items", [])], default=0)


def files():
    return sorted(glob.glob(os.path.join(batoid.datadir, "**", "*.yaml"), recursive=True))


def shipped(c, rng, i):
    """Each shipped file: found by name, read as written, images a star."""
    fs = files()
    if i >= len(fs):
        c.event()
        return
    f = fs[i]
    nm = os.path.basename(f)
    raw = yaml.safe_load(open(f))["opticalSystem"]
    T = batoid.Optic.fromYaml(nm)
    twins = [g for g in fs if os.path.basename(g) == nm]
    c.ok(len(twins) == 1, "ambiguous", nm)
    U = batoid.CompoundOptic.fromYaml(f)
    d = diff(canon(T), canon(U))
    c.ok(not d and T == U and hash(T) == hash(U), "by-name", lambda: "%s: %s" % (nm, d))
    was = freeze(raw)
    V = parse.parse_optic(raw)
    c.ok(same_conf(raw, was), "config-modified", lambda: nm)
    c.ok(V == T, "by-config", lambda: nm)
    compare(c, T, describe(raw), GLOBAL, batoid.ConstMedium(1.0), None, nm)
    c.ok(raises(lambda: batoid.Optic.fromYaml("x" + nm)), "not-found", nm)
    try:
        batoid.Optic.fromYaml("no/such/" + nm)
        c.ok(False, "not-found", nm)
    except FileNotFoundError:
        pass
    # every item can be asked for by its full name
    for k, v in T.itemDict.items() if hasattr(T, "itemDict") else ():
        c.ok(T[k] is v, "item", lambda: "%s[%s]" % (nm, k))
    if not (hasattr(T, "backDist") and hasattr(T, "pupilSize")):
        c.label("shipped", nm, "no beam")
        return
    image(c, rng, nm, T, 0.0, 0.0)
    c.label("shipped", nm)


def band(nm):
    b = [q for q in nm[:-5].split("_") if len(q) == 1]
    return {"u": 365e-9, "g": 480e-9, "r": 620e-9, "i": 750e-9, "z": 870e-9, "y": 970e-9}.get((b + ["r"])[0], 620e-9)


def image(c, rng, nm, T, thx, thy, spot=4e-5, light=0.5):
    wl = band(nm)
    rv = batoid.RayVector.asPolar(optic=T, nrad=10, naz=int(rng.integers(50, 70)), theta_x=thx, theta_y=thy, wavelength=wl,
                                  inner=T.pupilSize / 2 * getattr(T, "pupilObscuration", 0.0))
    out = T.trace(rv)
    g = ~np.array(out.vignetted)
    last = T
    while hasattr(last, "items"):
        last = last.items[-1]
    c.ok(type(last).__name__ == "Detector", "detector", lambda: "%s ends in a %s" % (nm, type(last).__name__))
    c.ok(g.mean() > light, "image:light", lambda: "%s: %.3f of the beam arrives" % (nm, g.mean()))
    r = np.array(out.r)[g]
    c.ok(np.isfinite(r).all() and np.isfinite(np.array(out.v)[g]).all(), "image:finite", nm)
    c.ok(out.coordSys == last.coordSys, "image:frame", nm)
    s = np.array(last.surface.sag(r[:, 0].copy(), r[:, 1].copy()))
    c.close(r[:, 2], s, "image:surface", atol=1e-12)
    c.ok(r[:, :2].std(0).max() < spot, "image:spot", lambda: "%s: spot of %s" % (nm, r[:, :2].std(0)))
    c.ok(np.hypot(*r[:, :2].mean(0)) < 0.006 or thx or thy, "image:place", lambda: "%s: image at %s" % (nm, r[:, :2].mean(0)))


def field(c, rng, i):
    """Beams across the field of view of the shipped telescopes reach their detectors."""
    nm = str(gen.SCOPES[rng.integers(len(gen.SCOPES))])
    T = gen.scope(nm)
    thx, thy = gen.field(rng, nm, 0.6)
    wl = band(nm)
    rv = batoid.RayVector.asPolar(optic=T, nrad=6, naz=36, theta_x=thx, theta_y=thy, wavelength=wl,
                                  inner=T.pupilSize / 2 * getattr(T, "pupilObscuration", 0.0))
    out = T.trace(rv)
    g = ~np.array(out.vignetted)
    c.ok(g.mean() > 0.3, "field:light", lambda: "%s %s %s: %.3f" % (nm, thx, thy, g.mean()))
    r = np.array(out.r)[g]
    c.ok(np.isfinite(r).all(), "field:finite", nm)
    c.ok(r[:, :2].std(0).max() < 3e-4, "field:spot", lambda: "%s %s %s: %s" % (nm, thx, thy, r[:, :2].std(0)))
    c.label("field", nm, round(float(np.hypot(thx, thy)) * 200))


CASES = [
    ("pieces", pieces, 4000, 120000),
    ("trees", trees, 1500, 40000),
    ("shipped", shipped, 45, 60),
    ("field", field, 60, 1200),
]
