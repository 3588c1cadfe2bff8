"""C26: snapshots of every argument, of the shared library state and of the objects around each public call."""
import inspect
import numpy as np
import batoid
from batoid import analysis, parse, utils, lattice
from . import gen, mon, ref
from .canon import canon, diff
from . import c15, c16, c21, c24

ELEMENT = (batoid.Interface,)


# ------------------------------------------------------------ state
def state(x):
    """Everything about an argument, including the identity and order of what its containers hold."""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, dict):
        return ("dict",) + tuple((k, id(v), state(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple((id(v), state(v)) for v in x)
    if isinstance(x, batoid.optic.Optic):
        return (canon(x), tuple(sorted(k for k in vars(x) if k not in CACHES)), x.path if hasattr(x, "path") else None) + tuple(
            state(q) for q in getattr(x, "items", ()))
    if isinstance(x, (np.random.Generator, type(lambda: 0))):
        return id(x)
    return canon(x)


CACHES = {"itemDict", "_names", "R_outer", "R_inner"}


def changed(a, b):
    """A short description of the first difference, '' for none."""
    if a == b:
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for u, v in zip(a, b):
            d = changed(u, v)
            if d:
                return d
    if isinstance(a, dict) and isinstance(b, dict):
        return diff(a, b) if diff(a, b) else ""
    if isinstance(a, float) and a != a and b != b:
        return ""
    return "%s -> %s" % (str(a)[:120], str(b)[:120])


def defaults():
    """Default arguments of every public callable: objects shared by all calls."""
    out, seen = [], set()

    def look(o):
        try:
            sig = inspect.signature(o)
        except (TypeError, ValueError):
            return
        for p in sig.parameters.values():
            if p.default is not inspect._empty and not isinstance(p.default, (int, float, str, bool, type(None))):
                if id(p.default) not in seen:
                    seen.add(id(p.default))
                    out.append(p.default)
    for mod in (batoid, analysis, parse, utils, lattice, batoid.optic, batoid.trace):
        for o in vars(mod).values():
            if inspect.isclass(o) and o.__module__.startswith("batoid"):
                look(o)
                for f in vars(o).values():
                    look(getattr(f, "__func__", f) if callable(getattr(f, "__func__", f)) else None)
            elif inspect.isfunction(o):
                look(o)
    return out


SHARED = defaults() + [batoid.globalCoordSys, batoid.vacuum]


def library():
    """State of the library and of numpy that all callers share."""
    return (tuple(state(q) for q in SHARED), dict(batoid.global_vars.__dict__.items() - {None}) if False else tuple(
        sorted((k, v) for k, v in vars(batoid.global_vars).items() if isinstance(v, (int, float)))),
        tuple(sorted(np.geterr().items())), np.random.get_state()[1].tobytes(), np.random.get_state()[2])


def buffers(x, depth=0):
    """Arrays reachable from an argument or result."""
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, dict):
        return [q for v in x.values() for q in buffers(v, depth + 1)]
    if isinstance(x, (list, tuple)):
        return [q for v in x for q in buffers(v, depth + 1)]
    if depth < 3 and type(x).__module__.startswith("batoid"):
        return [q for v in getattr(x, "__dict__", {}).values() for q in buffers(v, depth + 1)]
    return []


def guarded(c, tag, fn, args, kw=None, work=(), me=None):
    """Call and check that nothing given changed; `work` are the positions of bundles transformed in place."""
    kw = kw or {}
    watch = [a for k, a in enumerate(args) if k not in work] + list(kw.values()) + ([me] if me is not None else [])
    was = [state(a) for a in watch]
    lib = library()
    out = fn(*args, **kw)
    for a, b in zip(watch, was):
        d = changed(b, state(a))
        c.ok(not d, tag + ":modified", lambda: "%s: %s" % (type(a).__name__, d))
    d = changed(lib, library())
    c.ok(not d, tag + ":shared-state", lambda: d)
    return out


def separate(c, tag, out, *given):
    """The result shares no memory with what was given."""
    mine = buffers(out)
    theirs = [q for g in given for q in buffers(g)]
    for a in mine:
        for b in theirs:
            c.ok(not (a.size and b.size and np.shares_memory(a, b)), tag + ":shares-memory", lambda: "%s %s" % (a.shape, b.shape))


def spoil(x):
    """Overwrite every array and list reachable without going through objects."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable and x.size:
            x[...] = True if x.dtype == bool else 77
    elif isinstance(x, dict):
        for v in x.values():
            spoil(v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            spoil(v)
        if isinstance(x, list):
            for k in range(len(x)):
                if isinstance(x[k], (int, float)):
                    x[k] = 77
            if x:
                x.append(x[0])
                x.reverse()


def form(rng, a, dtype=True):
    """The numbers of `a` in some container."""
    a = np.asarray(a)
    k = int(rng.integers(7))
    if k == 0:
        return a.tolist()
    if k == 1 and a.ndim == 1:
        return tuple(a.tolist())
    if k == 2:
        return np.asfortranarray(a).copy(order="F")
    if k == 3 and a.ndim:
        b = np.repeat(a, 2, axis=-1)
        return b[..., ::2]
    if k == 4 and dtype and a.dtype == float:
        return a.astype(np.float32)
    if k == 5 and a.ndim:
        return a[..., ::-1].copy()[..., ::-1]
    return a.copy()


# ------------------------------------------------------------ constructors
def constructor(rng):
    """(name, callable, positional arguments, keyword arguments) with the data in arrays or lists."""
    k = int(rng.integers(17))
    f = lambda a: form(rng, a)
    n = int(rng.integers(1, 9))
    if k == 0:
        return "Asphere", batoid.Asphere, (float(rng.uniform(2, 5)), -0.5, f(rng.normal(size=n) * 1e-3)), dict(imin=int(rng.integers(1, 4)))
    if k == 1:
        return "Zernike", batoid.Zernike, (f(rng.normal(size=n + 1) * 1e-2),), dict(R_outer=2.0, R_inner=0.3)
    if k == 2:
        b = gen.bicubic(rng, nx=n + 2, ny=4)
        kw = {q: f(getattr(b, q)) for q in ("dzdxs", "dzdys", "d2zdxdys") if rng.random() < 0.6}
        return "Bicubic", batoid.Bicubic, (form(rng, b.xs, False), form(rng, b.ys, False), f(b.zs)), kw
    if k == 3:
        s = [gen.surf(rng) for _ in range(int(rng.integers(1, 4)))]
        return "Sum", batoid.Sum, (s if rng.random() < 0.5 else tuple(s),), {}
    if k == 4:
        m = gen.medium(rng, "Table")
        return "TableMedium", batoid.TableMedium, (f(m.wavelengths) if rng.random() < 0.5 else form(rng, m.wavelengths, False), f(m.ns)), {}
    if k == 5:
        m = gen.medium(rng, "Sellmeier" if rng.random() < 0.5 else "Sumita")
        return type(m).__name__, type(m), (f(m.coefs),), {}
    if k == 6:
        o = gen.obsc(rng, kind="ObscPolygon")
        return "ObscPolygon", batoid.ObscPolygon, (f(o.xs), f(o.ys)), {}
    if k == 7:
        t = batoid.ObscUnion if rng.random() < 0.5 else batoid.ObscIntersection
        s = [gen.obsc(rng) for _ in range(int(rng.integers(1, 4)))]
        return t.__name__, t, (s if rng.random() < 0.5 else tuple(s),), {}
    if k == 8:
        cs = gen.csys(rng)
        return "CoordSys", batoid.CoordSys, (f(cs.origin), f(cs.rot)), {}
    if k == 9:
        d = int(rng.integers(1, 4))
        return "Lattice", batoid.Lattice, (rng.normal(size=tuple(rng.integers(1, 5, d))), f(rng.normal(size=(d, d)))), {}
    if k == 10:
        a = [form(rng, rng.normal(size=n)) if rng.random() < 0.8 else float(rng.normal()) for _ in range(9)]
        g = [form(rng, rng.random(n) < 0.3) for _ in range(2)]
        return "RayVector", batoid.RayVector, tuple(a + g), dict(coordSys=gen.csys(rng))
    if k == 11:
        rv = [c16.rays(rng) for _ in range(int(rng.integers(1, 4)))]
        for r in rv:
            r.coordSys = rv[0].coordSys
        return "concatenate", batoid.concatenateRayVectors, (rv if rng.random() < 0.5 else tuple(rv),), {}
    if k == 12:
        it = [batoid.Mirror(gen.surf(rng), name="A%d" % j, coordSys=gen.csys(rng), obscuration=gen.obsc(rng)) for j in range(int(rng.integers(1, 4)))]
        return "CompoundOptic", batoid.CompoundOptic, (it if rng.random() < 0.5 else tuple(it),), dict(name="T", coordSys=gen.csys(rng))
    kw = dict(wavelength=5e-7, backDist=3.0, stopSurface=batoid.Interface(gen.surf(rng, "Paraboloid", 3.0, True), coordSys=gen.csys(rng)),
              medium=gen.medium(rng) if rng.random() < 0.5 else batoid.ConstMedium(1.1))
    u = rng.random()
    if u < 0.4:
        kw["source"] = f(np.array([0.3, 0.2, 20.0]))
    elif u < 0.7:
        kw["dirCos"] = f(np.array(ref.to_dircos(0.01, 0.02, "gnomonic"), float))
    else:
        kw.update(theta_x=0.01, theta_y=0.02, projection=str(rng.choice(ref.PROJECTIONS)))
    if rng.random() < 0.3:
        kw["coordSys"] = gen.csys(rng)
    if k == 13:
        kw.update(nx=n, ny=3, lx=f(np.array([1.0, 0.2])), ly=f(np.array([0.1, 1.5])), flux=f(rng.random((3, n))) if rng.random() < 0.5 else 2.0)
        if np.ndim(kw["flux"]) == 2 and not isinstance(kw["flux"], np.ndarray):
            kw["flux"] = np.array(kw["flux"])
        if np.ndim(kw["flux"]):
            kw["flux"] = np.ravel(kw["flux"])
        return "asGrid", batoid.RayVector.asGrid, (), kw
    if k == 14:
        sp, rg = rng.random(4), np.sort(rng.random(3))
        kw.update(spokes=f(sp), rings=f(rg), outer=1.0)
        return "asSpokes", batoid.RayVector.asSpokes, (), kw
    if k == 15:
        kw["flux"] = f(rng.random(n))
        return "fromStop", batoid.RayVector.fromStop, (f(rng.normal(size=n)), f(rng.normal(size=n))), kw
    for q in ("source", "dirCos", "theta_x", "theta_y", "coordSys"):
        kw.pop(q, None)
    kw["flux"] = f(rng.random(n))
    return "fromFieldAngles", batoid.RayVector.fromFieldAngles, tuple(np.asarray(f(rng.normal(size=n) * 0.01)) for _ in range(2)), kw


def construct(c, rng, i):
    """Constructors and factories neither modify nor keep the data they are given."""
    nm, fn, args, kw = constructor(rng)
    x = guarded(c, nm, fn, args, kw)
    y = fn(*args, **kw)
    d = diff(canon(x), canon(y))
    c.ok(not d, nm + ":twice", lambda: d)
    was, does = canon(x), c16.probe(x)
    keep = args[1:] if nm == "Lattice" else args      # a lattice is a container of the array it is given
    for a in list(keep) + list(kw.values()):
        spoil(a)
    d = diff(was, canon(x))
    c.ok(not d, nm + ":captured", lambda: d)
    c16.bits(c, does, c16.probe(x), nm + ":captured-behaviour")
    if nm != "Lattice":
        separate(c, nm, x, [a for a in list(args) + list(kw.values()) if isinstance(a, (np.ndarray, list, tuple))
                            and not any(type(q).__module__.startswith("batoid") and not isinstance(q, batoid.RayVector) for q in a)])
    c.label("construct", nm, tuple(type(a).__name__ for a in args)[:4], tuple(sorted(kw)))
    c.sample(constructor=nm)


# ------------------------------------------------------------ queries
def query(rng):
    """(name, object or None, callable, args, kwargs): calls that only answer."""
    k = int(rng.integers(16))
    n = int(rng.integers(1, 12))
    f = lambda a: form(rng, a)
    g = lambda a: a.copy() if rng.random() < 0.5 else form(rng, a)
    pt = lambda: rng.normal(size=n) * 0.4
    if k in (0, 1):
        s = c16.surface(rng)
        return type(s).__name__ + (".sag" if k == 0 else ".normal"), s, s.sag if k == 0 else s.normal, (g(pt()), g(pt())), {}
    if k == 2:
        m = gen.medium(rng)
        w = rng.uniform(3e-7, 1e-6, n)
        return type(m).__name__ + ".getN", m, m.getN, (f(w) if rng.random() < 0.7 else w.reshape(1, -1),), {}
    if k == 3:
        o = gen.obsc(rng)
        if isinstance(o, batoid.ObscPolygon) and rng.random() < 0.6:
            return "containsGrid", o, o.containsGrid, (np.sort(pt()), np.sort(pt())), {}
        return type(o).__name__ + ".contains", o, o.contains, (g(pt()), g(pt())), {}
    if k == 4:
        cs = gen.csys(rng)
        q = rng.normal(size=(n, 3)) if rng.random() < 0.6 else rng.normal(size=3)
        name = str(rng.choice(["toGlobal", "toLocal", "shiftGlobal", "shiftLocal"]))
        return "CoordSys." + name, cs, getattr(cs, name), (f(q) if name[:2] == "to" else f(rng.normal(size=3)),), {}
    if k == 5:
        cs = gen.csys(rng)
        name = str(rng.choice(["rotateGlobal", "rotateLocal"]))
        kw = {}
        if rng.random() < 0.7:
            kw["rotCenter"] = f(rng.normal(size=3))
            if rng.random() < 0.5:
                kw["coordSys"] = gen.csys(rng)
        return "CoordSys." + name, cs, getattr(cs, name), (gen.rot(rng),), kw
    if k == 6:
        t = c16.transform(rng)
        name = str(rng.choice(["applyForwardArray", "applyReverseArray"]))
        return "CoordTransform." + name, t, getattr(t, name), (f(pt()), f(pt()), f(pt())), {}
    if k in (7, 8):
        rv = c16.rays(rng, n)
        name = str(rng.choice(["positionAtTime", "phase", "amplitude", "sumAmplitude", "copy", "__getitem__", "k", "omega", "r", "v"]))
        if name in ("phase", "amplitude", "sumAmplitude"):
            return "RayVector." + name, rv, getattr(rv, name), (f(rng.normal(size=3)), float(rng.normal())), {}
        if name == "positionAtTime":
            return "RayVector." + name, rv, rv.positionAtTime, (float(rng.normal()),), {}
        if name == "copy":
            return "RayVector.copy", rv, rv.copy, (), {}
        if name == "__getitem__":
            ix = [rng.random(n) < 0.5, rng.integers(0, n, 4), slice(0, n), int(rng.integers(n)), slice(None, None, 2)][rng.integers(5)]
            return "RayVector[]", rv, rv.__getitem__, (ix,), {}
        return "RayVector." + name, rv, lambda: getattr(rv, name), (), {}
    if k == 9:
        p = str(rng.choice(ref.PROJECTIONS))
        if rng.random() < 0.5:
            u, v = rng.normal(size=n) * 0.1, rng.normal(size=n) * 0.1
            fn = getattr(utils, p + "ToDirCos") if rng.random() < 0.5 else (lambda a, b: utils.fieldToDirCos(a, b, projection=p))
            return "toDirCos." + p, None, fn, (u, v), {}
        a = np.array(ref.to_dircos(rng.normal(size=n) * 0.1, rng.normal(size=n) * 0.1, p), float)
        fn = getattr(utils, "dirCosTo" + p.capitalize()) if rng.random() < 0.5 else (lambda x, y, z: utils.dirCosToField(x, y, z, projection=p))
        return "fromDirCos." + p, None, fn, tuple(q.copy() for q in a), {}
    if k == 10:
        d = int(rng.integers(1, 4))
        return "primitiveToLattice", None, lattice.primitiveToLattice, (rng.normal(size=(d, d)), [int(q) for q in rng.integers(1, 5, d)]), {}
    if k == 11:
        la = c16.lattice(rng)
        return "Lattice", la, lambda: (la == la, hash(la) if np.isrealobj(la.array) else 0, repr(la)), (), {}
    if k == 12:
        co = gen.coating(rng)
        return "Coating", co, [co.getCoefs, co.getReflect, co.getTransmit][rng.integers(3)], (float(rng.uniform(3e-7, 9e-7)), float(rng.random())), {}
    if k == 13:
        x = c16.anything(rng)
        return type(x).__name__ + ".compare", x, lambda y: (x == y, repr(x)), (c16.make(x, c16.params(x)),), {}
    if k == 14:
        cs = gen.csys(rng)
        name = str(rng.choice(["xhat", "yhat", "zhat"]))
        return "CoordSys." + name, cs, lambda: getattr(cs, name), (), {}
    u = rng.normal(size=(4, n))
    if rng.random() < 0.5:
        return "bilinear_fit", None, utils.bilinear_fit, tuple(u), {}
    return "normalized", None, utils.normalized, (f(u[0]),), {}


def ask(c, rng, i):
    """Questions change neither their arguments nor the object, and their answers belong to the caller."""
    nm, me, fn, args, kw = query(rng)
    with np.errstate(all="ignore"):
        a = guarded(c, nm, fn, args, kw, me=me)
        was = bytes_of(a)
        separate(c, nm, data(a), args, data(me))
        spoil(a)
        if isinstance(a, batoid.RayVector):
            batoid.intersect(batoid.Plane(), a)
            spoil([a.x, a.flux, a.failed])
        b = guarded(c, nm, fn, args, kw, me=me)
        c.ok(bytes_of(b) == was, nm + ":answer-shared", "the answer changed after an earlier answer was overwritten")
    c.label("ask", nm, tuple(type(q).__name__ for q in args), sorted(kw))


FIELDS = ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")


def data(a):
    """A bundle owns its rays; its frame is held by reference."""
    return [getattr(a, "_" + k) for k in FIELDS] if isinstance(a, batoid.RayVector) else a


def bytes_of(a):
    if isinstance(a, np.ndarray):
        return (a.shape, a.dtype.str, a.tobytes())
    if isinstance(a, (tuple, list)):
        return tuple(bytes_of(q) for q in a)
    if isinstance(a, batoid.RayVector):
        return tuple((k, v.tobytes()) for k, v in mon.snap(a).items() if isinstance(v, np.ndarray))
    if type(a).__module__.startswith("batoid"):
        return str(canon(a))
    return str(a)


# ------------------------------------------------------------ operations on bundles
def rays_near(rng, s, cs, n_index=1.0):
    return gen.express(gen.rays_at(rng, s, int(rng.integers(1, 20)), 1.0, cs=cs, n_index=n_index), gen.csys(rng))


def operate(c, rng, i):
    """Operations on a bundle change that bundle, return it, and change nothing else."""
    k = int(rng.integers(12))
    s = gen.surf(rng, None, 1.0, True)
    cs = gen.csys(rng)
    rv = rays_near(rng, s, cs)
    twin = rv.copy()
    frame = rv.coordSys
    m1, m2 = gen.medium(rng), gen.medium(rng)
    co = gen.coating(rng) if rng.random() < 0.5 else None
    kw = dict(coordSys=cs)
    if rng.random() < 0.5:
        if co is not None and k in (0, 1, 2):
            kw["coating"] = co
    meth = rng.random() < 0.5
    nm = ["intersect", "reflect", "refract", "rSplit", "screen", "obscure", "propagate", "toCoordSys", "forward", "reverse", "element", "log"][k]
    out = None
    if k in (0, 1):
        out = guarded(c, nm, getattr(batoid, nm), (s, rv), kw, work=(1,)) if not meth else guarded(c, nm, getattr(s, nm), (rv,), kw, work=(0,), me=s)
    elif k == 2:
        out = guarded(c, nm, batoid.refract, (s, rv, m1, m2), kw, work=(1,)) if not meth else guarded(c, nm, s.refract, (rv, m1, m2), kw, work=(0,), me=s)
    elif k == 3:
        co = gen.coating(rng)
        args = (rv, m1, m2, co)
        res = guarded(c, nm, s.rSplit, args, dict(coordSys=cs), work=(0,), me=s) if meth else guarded(
            c, nm, batoid.rSplit, (s,) + args, dict(coordSys=cs), work=(1,))
        separate(c, nm, data(res[0]), data(twin))
        alone(c, nm, res[0], res[1])
    elif k == 4:
        z = gen.surf(rng, None, 1.0, True)
        out = guarded(c, nm, s.refractScreen, (rv, z), dict(coordSys=cs), work=(0,), me=s)
    elif k == 5:
        o = gen.obsc(rng)
        out = guarded(c, nm, batoid.obscure, (o, rv), {}, work=(1,)) if meth else guarded(c, nm, o.obscure, (rv,), {}, work=(0,), me=o)
    elif k == 6:
        out = guarded(c, nm, rv.propagate, (float(rng.normal()),), {})
    elif k == 7:
        out = guarded(c, nm, rv.toCoordSys, (cs,), {})
    elif k in (8, 9):
        other = gen.csys(rng)
        t = batoid.CoordTransform(frame, other) if k == 8 else batoid.CoordTransform(other, frame)
        if meth:
            out = guarded(c, nm, t.applyForward if k == 8 else t.applyReverse, (rv,), {}, work=(0,), me=t)
        else:
            out = guarded(c, nm, batoid.applyForwardTransform if k == 8 else batoid.applyReverseTransform, (t, rv), {}, work=(1,))
    else:
        cls = [batoid.Mirror, batoid.RefractiveInterface, batoid.Baffle, batoid.Detector][rng.integers(4)]
        ekw = dict(name="E", coordSys=cs, obscuration=gen.obsc(rng) if rng.random() < 0.5 else None, inMedium=m1, outMedium=m2)
        if rng.random() < 0.5:
            ekw["forwardCoating"] = ekw["reverseCoating"] = gen.coating(rng)
        el = cls(s, **ekw)
        if k == 10:
            rev = bool(rng.random() < 0.4)
            fn = [el.trace, el.interact, el.intersect][rng.integers(3)]
            out = guarded(c, nm, fn, (rv,), dict(reverse=rev), work=(0,), me=el)
        else:
            log = guarded(c, nm, el.traceFull, (rv,), {}, me=el)
            alone(c, nm, log["E"]["out"], rv)
            same_rays(c, nm, rv, twin)
    if out is not None:
        c.ok(out is rv, nm + ":identity", "returns another object")
    c.ok(frame_unmoved(frame, twin), nm + ":frame-modified")
    c.label("operate", nm, type(s).__name__, meth)


def alone(c, nm, a, b):
    if a is None or b is None or a is b:
        return
    A, B = data(a), data(b)
    for u in A:
        for v in B:
            c.ok(not (u.size and v.size and np.shares_memory(u, v)), nm + ":shares-memory", "two bundles share memory")


def same_rays(c, nm, a, b):
    p, q = bytes_of(a), bytes_of(b)
    c.ok(p == q and a.coordSys == b.coordSys, nm + ":rays-modified")


def frame_unmoved(frame, twin):
    return frame == twin.coordSys


# ------------------------------------------------------------ systems
def systems(c, rng, i):
    """Tracing, analysing, deriving: the system and the other arguments stay as they were."""
    if rng.random() < 0.5:
        nm, T = gen.pick_scope(rng)
        rv = gen.beam(rng, nm, T, n=15)
        th = gen.field(rng, nm)
        wl = float(gen.scope_wl(rng, nm))
    else:
        T = gen.system(rng)
        T = getattr(T, "optic", T)
        nm = "random"
        rv = gen.system_beam(rng, T, n=15)
        th = None
    k = int(rng.integers(8))
    twin = rv.copy()
    if k == 0:
        out = guarded(c, "trace", T.trace, (rv,), dict(reverse=bool(rng.random() < 0.3)), work=(0,), me=T)
        c.ok(out is rv, "trace:identity")
    elif k == 1:
        log = guarded(c, "traceFull", T.traceFull, (rv,), {}, me=T)
        same_rays(c, "traceFull", rv, twin)
        es = list(log.values())
        for a in es:
            alone(c, "traceFull", a["out"], rv)
        for a, b in zip(es[:6], es[1:7]):
            alone(c, "traceFull", a["out"], b["out"])
        names = list(log)
        kw = {}
        if rng.random() < 0.5:
            kw["start"] = names[0]
        if rng.random() < 0.3:
            kw["globalSys"] = gen.csys(rng)
        xyz = guarded(c, "getGlobalRays", batoid.optic.getGlobalRays, (log,), kw)
        separate(c, "getGlobalRays", xyz, [data(q) for e in es for q in (e["in"], e["out"])])
        ax = Recorder()
        guarded(c, "drawTrace3d", batoid.drawTrace3d, (ax, log), {})
        guarded(c, "drawTrace2d", batoid.drawTrace2d, (ax, log), {})
    elif k == 2:
        fs, rs = guarded(c, "traceSplit", T.traceSplit, (rv,), dict(minFlux=0.05), work=(0,), me=T)
        outs = [q for q in list(fs) + list(rs) if q is not None and q is not rv]
        for a, b in zip(outs[:5], outs[1:6]):
            alone(c, "traceSplit", a, b)
            c.ok(a.path is not b.path, "traceSplit:path-shared")
    elif k == 3:
        s = T
        for _ in range(3):
            was, lib = state(s), library()
            op, s2, _ = c15.apply(rng, s, canon(s))
            d = changed(was, state(s))
            c.ok(not d, "with:" + op + ":modified", lambda: d)
            c.ok(not changed(lib, library()), "with:" + op + ":shared-state")
            s = s2
    elif k == 4:
        derive(c, rng, T)
    elif k == 5 and th is not None:
        analyse(c, rng, T, th, wl)
    elif k == 6:
        ax = Recorder()
        guarded(c, "draw2d", T.draw2d, (ax,), {}, me=T)
        guarded(c, "draw3d", T.draw3d, (ax,), {}, me=T)
        if all(q.outRadius is not None for q in gen.interfaces(T)):
            guarded(c, "get3dmesh", T.get3dmesh, (), {}, me=T)
        guarded(c, "repr", lambda: (repr(T), T == T, hash(T)), (), {}, me=T)
    else:
        if hasattr(T, "items"):
            nme = list(T.itemDict)
            guarded(c, "getitem", lambda: [T[q] for q in nme], (), {}, me=T)
            path = [q.split(".")[-1] for q in nme][:0]
        guarded(c, "radii", lambda: [(q.R_outer, q.R_inner) for q in gen.interfaces(T)], (), {}, me=T)
    c.label("system", nm, k)


def derive(c, rng, T):
    """Derived systems keep no view of the shifts, rotations and centres they were made with."""
    f = lambda a: form(rng, a)
    nm = str(rng.choice(list(T.itemDict))) if hasattr(T, "items") else None
    k = int(rng.integers(7))
    kw = {}
    if k in (2, 3, 6) and rng.random() < 0.6:
        kw["rotCenter"] = f(rng.normal(size=3))
        if rng.random() < 0.5:
            kw["coordSys"] = gen.csys(rng)
    R = gen.rot(rng)
    fn, args = [(T.withGlobalShift, (f(rng.normal(size=3)),)), (T.withLocalShift, (f(rng.normal(size=3)),)),
                (T.withGlobalRotation, (R,)), (T.withLocalRotation, (R,)),
                (getattr(T, "withGloballyShiftedOptic", None), (nm, f(rng.normal(size=3)))),
                (getattr(T, "withLocallyShiftedOptic", None), (nm, f(rng.normal(size=3)))),
                (getattr(T, "withLocallyRotatedOptic", None), (nm, R))][k]
    if fn is None or (k >= 4 and nm is None):
        c.event()
        return
    D = guarded(c, fn.__name__, fn, args, kw, me=T)
    was = canon(D)
    for a in list(args) + list(kw.values()):
        spoil(a)
    d = diff(was, canon(D))
    c.ok(not d, fn.__name__ + ":captured", lambda: d)
    # changing the derived frames does not reach the original, where it was moved
    if k < 2:
        t = state(T)
        D.coordSys.origin[...] = 5.0
        c.ok(not changed(t, state(T)), fn.__name__ + ":frame-shared")
    c.label("derive", fn.__name__, tuple(sorted(kw)))


def analyse(c, rng, T, th, wl):
    x, y = float(th[0]), float(th[1])
    A = analysis
    P = dict(projection=str(rng.choice(["postel", "gnomonic", "zemax"])))
    R = dict(reference=str(rng.choice(["chief", "mean"])))
    dx = form(rng, np.array([2e-6, 1e-7]), False)
    dy = form(rng, np.array([1e-7, 2e-6]), False)
    fn, args, kw = [
        (A.huygensPSF, (T, x, y, wl), dict(P, nx=6, nxOut=4, dx=dx, dy=dy)), (A.fftPSF, (T, x, y, wl), dict(P, nx=6)),
        (A.wavefront, (T, x, y, wl), dict(P, nx=6, **R)), (A.spot, (T, x, y, wl), dict(P, nx=6)),
        (A.zernike, (T, x, y, wl), dict(P, nx=8, jmax=8)), (A.zernikeGQ, (T, x, y, wl), dict(P, jmax=8)),
        (A.zernikeTA, (T, x, y, wl), dict(P, jmax=8)), (A.zernikeXYAberrations, (T, x, y, wl), dict(P, jmax=6)),
        (A.doubleZernike, (T, 1e-3, wl), dict(jmax=6, kmax=3, rings=2, spokes=5)),
        (A.drdth, (T, x, y, wl), dict(P)), (A.dthdr, (T, x, y, wl), dict(P)),
        (A.dkdu, (T, x, y, wl), dict(P)), (A.exitPupilPos, (T, wl), {}), (A.focalLength, (T, x, y, wl), {})][rng.integers(14)]
    a = guarded(c, fn.__name__, fn, args, kw)
    was = bytes_of(a) if not isinstance(a, batoid.Lattice) else (bytes_of(a.array), bytes_of(a.primitiveVectors))
    spoil(a if not isinstance(a, batoid.Lattice) else [a.array, a.primitiveVectors])
    b = guarded(c, fn.__name__, fn, args, kw)
    now = bytes_of(b) if not isinstance(b, batoid.Lattice) else (bytes_of(b.array), bytes_of(b.primitiveVectors))
    c.ok(was == now, fn.__name__ + ":answer-shared", "repeating the call gives another answer")
    c.label("analyse", fn.__name__)


class Recorder:
    """Stands in for plotting axes."""

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: [spoil(q) for q in a if isinstance(q, np.ndarray)] and None


# ------------------------------------------------------------ shared defaults
def fresh(c, rng, i):
    """What a caller does to objects made from defaults does not reach the defaults."""
    lib = library()
    a = batoid.RayVector(0, 0, 0, 0, 0, 1.0, 0, 5e-7)
    b = batoid.Mirror(batoid.Plane(), name="M")
    d = parse.parse_optic({"type": "Mirror", "name": "M", "surface": {"type": "Plane"}})
    e = batoid.CoordSys()
    g = batoid.RayVector.asGrid(stopSurface=batoid.Interface(batoid.Plane()), wavelength=5e-7, backDist=1.0, nx=3, lx=1.0, theta_x=0.0, theta_y=0.0)
    f = parse.parse_coordSys({"x": 0.0} if rng.random() < 0.5 else {})
    for cs in [[a.coordSys], [b.coordSys], [d.coordSys], [e], [g.coordSys], [f]][rng.integers(6)]:
        for q in (cs.origin, cs.rot, cs.xhat, cs.yhat, cs.zhat):
            if rng.random() < 0.7:
                try:
                    q[...] = rng.normal()
                except ValueError:
                    pass
    x = changed(lib, library())
    c.ok(not x, "defaults", lambda: x)
    n = batoid.RayVector(0, 0, 0, 0, 0, 1.0)
    c.ok(n.coordSys == batoid.CoordSys() and batoid.Mirror(batoid.Plane()).coordSys == batoid.CoordSys(), "defaults:frame")
    c.equal(batoid.globalCoordSys.rot, np.eye(3), "defaults:global")
    c.equal(batoid.globalCoordSys.origin, np.zeros(3), "defaults:global")
    c.label("fresh", i % 7)


def configuration(c, rng, i):
    """Parsing (also judged by C24): the tree of dicts and lists stays as it was, down to the identity of its parts."""
    cf, ds = c24.optic_conf(rng, [], 0, {})
    T = guarded(c, "parse", parse.parse_optic, (cf,), {})
    was = canon(T)
    c24.scramble(cf)
    d = diff(was, canon(T))
    c.ok(not d, "parse:captured", lambda: d)
    c.label("configuration", len(str(ds)) // 400)


CASES = [
    ("construct", construct, 3000, 100000),
    ("ask", ask, 4000, 120000),
    ("operate", operate, 2500, 70000),
    ("systems", systems, 1200, 15000),
    ("fresh", fresh, 60, 1000),
    ("configuration", configuration, 300, 6000),
]
