"""C30: the same call gives the same result whatever happened before: repeated, interleaved, on reused memory, after changed
arguments or refused calls, in another process."""
import gc
import json
import os
import subprocess
import sys
import tempfile
import numpy as np
import batoid
from batoid import analysis
from . import gen, mon, c02, c16, c26
from .canon import canon


# ------------------------------------------------------------ what a call gave, as plain data
def given(x):
    """Everything observable about a result."""
    if isinstance(x, batoid.RayVector):
        return {k: np.asarray(v) for k, v in mon.snap(x).items() if k != "cs"} | {"frame": str(canon(x.coordSys))}
    if isinstance(x, batoid.Lattice):
        return [np.array(x.array), np.array(x.primitiveVectors), np.array(x.coords)]
    if isinstance(x, (tuple, list)):
        return [given(q) for q in x]
    if isinstance(x, dict):
        return {str(k): given(v) for k, v in x.items()}
    if type(x).__module__.startswith("batoid"):
        return repr(canon(x))
    if isinstance(x, (str, int, float, complex, bool, type(None))):
        return x
    if isinstance(x, (np.ndarray, np.generic)):
        return np.array(x)
    return repr(type(x))


def first(a, b, tol=0, at=""):
    """Where two results first differ ('' if nowhere)."""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return at + " keys %s / %s" % (list(a)[:9], list(b)[:9])
        for k in a:
            d = first(a[k], b[k], tol, at + "." + k)
            if d:
                return d
        return ""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return at + " length %d / %d" % (len(a), len(b))
        for k in range(len(a)):
            d = first(a[k], b[k], tol, at + "[%d]" % k)
            if d:
                return d
        return ""
    return "" if c02.same(a, b, tol) else "%s: %s / %s" % (at, str(a)[:160], str(b)[:160])


def agree(c, a, b, tag, tol=0, msg=""):
    d = first(a, b, tol)
    c.event(c02.sizes(a))
    c.ok(not d, tag, lambda: "%s %s" % (msg, d))


# ------------------------------------------------------------ calls: seed -> (name, result, tolerance)
def question(rng):
    nm, me, fn, args, kw = c26.query(rng)
    tol = 1e-14 * (8 + len(me)) * (1 + float(np.nansum(np.abs(me.flux)))) if nm == "RayVector.sumAmplitude" else 0
    x = fn(*args, **kw)
    return [(nm, x[::2] if nm == "Lattice" else x, tol)]      # hashes differ between processes


def construction(rng):
    nm, fn, args, kw = c26.constructor(rng)
    x = fn(*args, **kw)
    return [(nm, x, 0), (nm + " at work", c16.probe(x), 0), (nm + " printed", repr(x), 0)]


def study(rng):
    """An analysis of a shipped telescope."""
    nm, T = gen.pick_scope(rng)
    x, y = (float(q) for q in gen.field(rng, nm))
    wl = float(gen.scope_wl(rng, nm))
    A = analysis
    fn, args, kw = [
        (A.wavefront, (T, x, y, wl), dict(nx=int(rng.integers(4, 12)))), (A.spot, (T, x, y, wl), dict(nx=int(rng.integers(4, 12)))),
        (A.zernike, (T, x, y, wl), dict(nx=10, jmax=int(rng.integers(4, 12)))), (A.zernikeGQ, (T, x, y, wl), dict(jmax=int(rng.integers(4, 12)))),
        (A.zernikeTA, (T, x, y, wl), dict(jmax=6)), (A.zernikeXYAberrations, (T, x, y, wl), dict(jmax=6)),
        (A.fftPSF, (T, x, y, wl), dict(nx=6)), (A.drdth, (T, x, y, wl), {}), (A.dthdr, (T, x, y, wl), {}),
        (A.dkdu, (T, x, y, wl), {}), (A.exitPupilPos, (T, wl), {}), (A.focalLength, (T, x, y, wl), {}),
        (A.huygensPSF, (T, x, y, wl), dict(nx=6, nxOut=4))][rng.integers(13)]
    return [(fn.__name__ + " " + nm, fn(*args, **kw), 1e-10 if fn is A.huygensPSF else 0)]


def drawn(rng):
    """Samples drawn from the generator given, nothing else."""
    nm, T = gen.pick_scope(rng)
    th = gen.field(rng, nm)
    g = np.random.default_rng(int(rng.integers(2 ** 31)))
    rv = batoid.RayVector.asPolar(optic=T, nrandom=int(rng.integers(1, 40)), theta_x=th[0], theta_y=th[1], wavelength=6e-7, rng=g)
    return [("asPolar random", rv, 0), ("asPolar generator", g.bit_generator.state["state"]["state"].__repr__(), 0)]


WORK = c02.WORK + [question, construction, study, drawn]
SHARE = [.12, .1, .08, .12, .08, .04, .06, .18, .14, .05, .03]


def run(k, seed):
    return [(nm, given(v), tol) for nm, v, tol in WORK[k](np.random.default_rng(seed))]


def pick(rng):
    return int(rng.choice(len(WORK), p=SHARE)), int(rng.integers(2 ** 31))


def match(c, a, b, tag, msg):
    c.ok([q[0] for q in a] == [q[0] for q in b], tag + ":calls", msg)
    for (nm, u, tol), (_, v, _) in zip(a, b):
        agree(c, u, v, tag + ":" + nm.split()[0], tol, msg)


REFUSED = [
    lambda: batoid.Sum([]), lambda: batoid.Asphere(1.0, 0.0, [1e-3], imin=0), lambda: batoid.TableMedium([1.0, 2.0], [1.0]),
    lambda: batoid.SellmeierMedium([1.0]), lambda: batoid.Bicubic([0.0, 1.0], [0.0, 1.0], np.zeros((3, 3))),
    lambda: batoid.Optic.fromYaml("no such telescope.yaml"), lambda: gen.scope("HSC.yaml")["nobody"],
    lambda: batoid.fieldToDirCos(0.1, 0.1, projection="mercator"), lambda: batoid.ObscPolygon([0, 1, 1], [0, 1]),
    lambda: batoid.Plane().intersect(3), lambda: batoid.RayVector([1.0, 2.0], [1.0, 2.0, 3.0], 0, 0, 0, 1),
    lambda: batoid.Plane().sag("x", "y"), lambda: batoid.parse.parse_optic({"type": "Nothing", "name": "n"}),
    lambda: gen.scope("DECam.yaml").withGloballyShiftedOptic("nobody", [0, 0, 1]),
    lambda: batoid.RayVector.asGrid(nx=3), lambda: batoid.wavefront(gen.scope("HSC.yaml"), 0.0, 0.0, 6e-7, projection="mercator", nx=4),
]


def disturb(rng, world):
    """Something in between that must not matter."""
    k = int(rng.integers(8))
    if k == 0:
        try:
            REFUSED[rng.integers(len(REFUSED))]()
        except Exception:
            pass
    elif k == 1:
        np.random.seed(int(rng.integers(1000)))
        np.random.random(3)
    elif k == 2:
        batoid.global_vars._batoid_max_threads = int(rng.integers(1, 5))
    elif k == 3:
        np.seterr(all=str(rng.choice(["ignore", "warn"])))
    elif k == 4:
        os.chdir(str(world[rng.integers(len(world))]))
    elif k == 5:
        gc.collect()
    else:
        for _ in range(2):
            w, s = pick(rng)
            try:
                run(w, s)
            except Exception:
                pass
    return k


def between(c, rng, i):
    """A call gives the same before and after any other calls, and in whatever order calls come."""
    here, nth, err = os.getcwd(), batoid.global_vars._batoid_max_threads, np.geterr()
    try:
        todo = [pick(rng) for _ in range(int(rng.integers(2, 6)))]
        was = [run(*t) for t in todo]
        seen = []
        for k in rng.permutation(np.tile(np.arange(len(todo)), 2)):
            seen.append(disturb(rng, [here, "/", "/tmp"]))
            match(c, was[k], run(*todo[k]), "history", "after %s" % seen)
        c.label("between", sorted(WORK[w].__name__ for w, _ in todo), sorted(set(seen)))
        c.sample(calls=[q[0] for r in was for q in r][:12], disturbances=seen)
    finally:
        os.chdir(here)
        batoid.global_vars._batoid_max_threads = nth
        np.seterr(**err)


# ------------------------------------------------------------ the same objects and arrays again
def arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x] if x.size and x.flags.writeable and x.dtype.kind == "f" else []
    if isinstance(x, dict):
        return [q for v in x.values() for q in arrays_in(v)]
    if isinstance(x, (list, tuple)):
        return [q for v in x for q in arrays_in(v)]
    return []


def alter(rng, arrs, how):
    """The same arrays with other contents (in place): everything, one element only, or the elements in another order."""
    for a in arrs:
        if how == 0:
            a *= 0.9375
        elif how == 1:
            j = np.unravel_index(int(rng.integers(a.size)), a.shape)
            a[j] *= 0.9375
        elif a.ndim == 1:
            a[...] = a[::-1].copy()


def altered(c, rng, i):
    """Arrays reused with new contents: calls and constructors go by what is in them now."""
    ask = rng.random() < 0.6
    seed, how, s2 = int(rng.integers(2 ** 31)), int(rng.integers(3)), int(rng.integers(2 ** 31))

    def setup():
        r = np.random.default_rng(seed)
        if ask:
            nm, me, fn, args, kw = c26.query(r)
        else:
            nm, fn, args, kw = c26.constructor(r)
        return nm, fn, args, kw

    def result(fn, args, kw):
        x = fn(*args, **kw)
        return [given(x)] + ([given(c16.probe(x))] if not ask else [])
    nm, fn, args, kw = setup()
    if nm in ("Bicubic", "TableMedium") or nm.startswith("toDirCos") and how == 2:     # order matters to the meaning
        how = 0
    a0 = result(fn, args, kw)
    alter(np.random.default_rng(s2), arrays_in([args, kw]), how)
    try:
        a1 = result(fn, args, kw)
    except Exception as e:
        a1 = type(e).__name__
    _, fn, args, kw = setup()
    if nm == "asPolar":
        c.event()
        return
    alter(np.random.default_rng(s2), arrays_in([args, kw]), how)
    try:
        b1 = result(fn, args, kw)
    except Exception as e:
        b1 = type(e).__name__
    agree(c, b1, a1, "altered:" + nm, msg="how %d" % how)
    n = len(arrays_in([args, kw]))
    c.label("altered", nm, how, n)
    c.note("arrays-altered", n)
    _, fn, args, kw = setup()
    agree(c, a0, result(fn, args, kw), "again:" + nm)


def bundles(c, rng, i):
    """A bundle whose rays are overwritten in place is then the bundle of the new rays, in every operation; likewise a
    frame, an element's attributes."""
    s = gen.surf(rng, None, 1.0, True)
    cs = gen.csys(rng, 0.3)
    n = int(rng.integers(1, 30))
    a, b = (gen.rays_at(rng, s, n, 1.0, cs=cs) for _ in range(2))
    med = [gen.medium(rng), gen.medium(rng)]
    el = [batoid.RefractiveInterface(s, name="E", coordSys=cs, inMedium=med[0], outMedium=med[1]), batoid.Mirror(s, name="E", coordSys=cs)][rng.integers(2)]
    t, r = float(rng.normal()), rng.normal(size=3)
    to = gen.csys(rng)
    o = gen.obsc(rng)
    co = gen.coating(rng)
    # a copy belongs to the result so that later operations do not reach it
    ops = [("positionAtTime", lambda q: q.positionAtTime(t)), ("phase", lambda q: q.phase(r, t)), ("amplitude", lambda q: q.amplitude(r, t)),
           ("k", lambda q: q.k), ("omega", lambda q: q.omega), ("r", lambda q: q.r), ("v", lambda q: q.v), ("copy", lambda q: q.copy()),
           ("slice", lambda q: q[::2]), ("mask", lambda q: q[q.flux > 1]), ("toCoordSys", lambda q: q.copy().toCoordSys(to)),
           ("intersect", lambda q: s.intersect(q.copy(), coordSys=cs)), ("reflect", lambda q: s.reflect(q.copy(), coordSys=cs, coating=co)),
           ("refract", lambda q: s.refract(q.copy(), *med, coordSys=cs)), ("rSplit", lambda q: s.rSplit(q.copy(), *med, co, coordSys=cs)),
           ("obscure", lambda q: o.obscure(q.copy())), ("trace", lambda q: el.trace(q.copy())), ("traceFull", lambda q: el.traceFull(q)),
           ("len", lambda q: len(q)), ("repr", lambda q: repr(q) if n < 6 else 0), ("equal", lambda q: [q == b, q == a, q == q.copy()]),
           ("concatenate", lambda q: batoid.concatenateRayVectors([q, q])), ("in place", lambda q: s.intersect(q)),
           ("propagate", lambda q: q.propagate(t)), ("kept", lambda q: [q, q.r, q.v, q.t])]
    seq = [ops[k] for k in rng.integers(len(ops), size=int(rng.integers(2, 7)))]
    w = a.copy()
    for nm, f in seq:           # whatever is remembered, is remembered now
        f(w)
    kw = dict(x=b.x, y=b.y, z=b.z, vx=b.vx, vy=b.vy, vz=b.vz, t=b.t, wavelength=b.wavelength, flux=b.flux, vignetted=b.vignetted, failed=b.failed)
    part = rng.random() < 0.3
    for k, v in kw.items():
        if part and rng.random() < 0.7:
            kw[k] = np.array(getattr(w, k))
            continue
        getattr(w, k)[...] = v
    w.coordSys = cs
    f = batoid.RayVector(*kw.values(), coordSys=cs)
    for nm, g in seq + [ops[-1]]:
        if nm == "equal":
            agree(c, given(g(f)), given(g(w)), "overwritten:equal")
        else:
            agree(c, given(g(f)), given(g(w)), "overwritten:" + nm, msg="after %s" % [q[0] for q in seq])
    c.label("bundles", type(s).__name__, part, [q[0] for q in seq][:3])


KINDS = ["surface", "medium", "obscuration", "frame", "transform", "bundle", "coating", "lattice", "system"]


def make(kind, rng):
    """(object, what it says and does)."""
    if kind == "surface":
        s = gen.surf(rng)
        x, y = rng.normal(size=(2, 7)) * 0.5
        return s, lambda: [s.sag(x, y), s.normal(x, y), repr(s), hash(s)]
    if kind == "medium":
        m = gen.medium(rng)
        w = rng.uniform(3e-7, 1e-6, 5)
        return m, lambda: [m.getN(w), m.getN(float(w[0])), repr(m), hash(m)]
    if kind == "obscuration":
        o = gen.obsc(rng)
        x, y = rng.normal(size=(2, 30)) * 0.6
        return o, lambda: [o.contains(x, y), repr(o), hash(o)]
    if kind == "frame":
        cs = gen.csys(rng)
        q = rng.normal(size=(4, 3))
        return cs, lambda: [cs.toGlobal(q), cs.toLocal(q), cs.xhat, cs.yhat, cs.zhat, repr(cs), cs.shiftLocal(q[0]), cs.rotateGlobal(cs.rot)]
    if kind == "transform":
        t = batoid.CoordTransform(gen.csys(rng), gen.csys(rng))
        q = rng.normal(size=(3, 4))
        return t, lambda: [t.applyForwardArray(*q), t.applyReverseArray(*q), t.dr, t.drot]
    if kind == "bundle":
        rv = c16.rays(rng, int(rng.integers(1, 9)))
        t, r = float(rng.normal()), rng.normal(size=3)
        return rv, lambda: [rv, rv.phase(r, t), rv.k, rv.omega, rv.positionAtTime(t), rv[0:1]]
    if kind == "coating":
        co = gen.coating(rng)
        return co, lambda: [co.getCoefs(5e-7, 0.5), co.getReflect(5e-7, 0.5), co.getTransmit(5e-7, 0.5), repr(co), hash(co)]
    if kind == "lattice":
        la = c16.lattice(rng)
        return la, lambda: [la.coords, la.array, repr(la)]
    T = gen.system(rng)
    rv = gen.system_beam(rng, T, 5)
    return T, lambda: [T.trace(rv.copy()), list(T.itemDict), repr(T), [q.name for q in T.path] if hasattr(T, "path") and hasattr(T.path[0], "name") else 0]


def reused(c, rng, i):
    """Objects that take the place (and memory) of others say and do what they were made for."""
    kind = KINDS[i % len(KINDS)]
    seeds = [int(q) for q in rng.integers(2 ** 31, size=int(rng.integers(2, 6)))]
    live = [make(kind, np.random.default_rng(q)) for q in seeds]
    was = [given(f()) for _, f in live]
    del live
    gc.collect()
    ids = set()
    for k in rng.permutation(np.repeat(np.arange(len(seeds)), 3)):
        x, f = make(kind, np.random.default_rng(seeds[k]))
        ids.add(id(x))
        a = given(f())
        agree(c, was[k], a, "reused:" + kind)
        if rng.random() < 0.5:
            agree(c, was[k], given(f()), "repeated:" + kind)
        del x, f
    c.note("addresses-reused", 3 * len(seeds) - len(ids))
    c.label("reused", kind, len(seeds), len(ids) < 3 * len(seeds))


# ------------------------------------------------------------ elements changed by assignment
def assigned(c, rng, i):
    """After an attribute of an element is assigned, tracing goes by the new value, and by the old one when it is put back."""
    seed = int(rng.integers(2 ** 31))
    build = lambda: gen.system(np.random.default_rng(seed), split=True)
    T = build()
    names = [q.name for q in gen.interfaces(T)]
    nm = str(names[rng.integers(len(names))])
    what = str(rng.choice(["obscuration", "forwardCoating", "coordSys", "surface", "skip"]))
    val = {"obscuration": lambda: gen.obsc(rng), "forwardCoating": lambda: gen.coating(rng),
           "coordSys": lambda: batoid.CoordSys(T[nm].coordSys.origin + [0.01, 0.0, 0.02], T[nm].coordSys.rot),
           "surface": lambda: gen.surf(rng, "Quadric", 3.0, True), "skip": lambda: True}[what]()
    rv = gen.system_beam(rng, T, 12)

    def look(S):
        full = S.traceFull(rv)
        f, r = S.traceSplit(rv.copy()[:6], minFlux=0.05)
        return given([S.trace(rv.copy()), full, f, r])
    old = look(T)
    keep = getattr(T[nm], what)
    setattr(T[nm], what, val)
    new = look(T)
    F = build()
    setattr(F[nm], what, val)
    agree(c, look(F), new, "assigned:" + what, msg=nm)
    setattr(T[nm], what, keep)
    agree(c, old, look(T), "restored:" + what, msg=nm)
    c.label("assigned", what, len(names), bool(first(old, new)))


# ------------------------------------------------------------ other processes
CHILD = """
import sys, json, pickle, os
import numpy as np
cfg = json.load(open(sys.argv[1]))
import warnings; warnings.simplefilter("ignore"); np.seterr(all="ignore")
if cfg["np_first"]:
    np.random.seed(cfg["np_first"])
import batoid
if cfg["threads"]:
    batoid.global_vars._batoid_max_threads = cfg["threads"]
sys.path.insert(0, cfg["verif"])
from vm import c30
os.chdir(cfg["cwd"])
out = {}
for w, s in cfg["todo"]:
    out["%d/%d" % (w, s)] = c30.run(w, s)
with open(cfg["out"], "wb") as fh:
    pickle.dump(out, fh)
"""


def process(c, rng, i):
    """Another process, with other hash seeds, threads, folder, locale and order of calls, gives the same bits."""
    import pickle
    todo = [pick(rng) for _ in range(40)]
    todo += [(6, int(q)) for q in rng.integers(2 ** 31, size=3)]
    was = {"%d/%d" % t: run(*t) for t in todo}
    d = tempfile.mkdtemp(prefix="c30_", dir=os.environ.get("VM_SCRATCH"))
    try:
        order = [todo[k] for k in rng.permutation(len(todo))]
        cfg = dict(todo=order, out=d + "/out", cwd=d, verif=os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   threads=int(rng.integers(0, 5)), np_first=int(rng.integers(0, 100)))
        os.mkdir(d + "/home")
        with open(d + "/cfg", "w") as fh:
            json.dump(cfg, fh)
        with open(d + "/child.py", "w") as fh:
            fh.write(CHILD)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 4000))), LC_ALL=str(rng.choice(["C", "C.UTF-8"])), TZ="UTC+5",
                   PYTHONDONTWRITEBYTECODE="1", HOME=d + "/home")
        env["PYTHONPATH"] = os.path.dirname(os.path.dirname(os.path.abspath(batoid.__file__)))
        p = subprocess.run([sys.executable, d + "/child.py", d + "/cfg"], env=env, cwd=d, capture_output=True, text=True, timeout=300)
        c.ok(p.returncode == 0, "process:failed", p.stderr[-600:])
        with open(d + "/out", "rb") as fh:
            got = pickle.load(fh)
        for k in was:
            match(c, was[k], got[k], "process", "in another process (hash seed %s)" % env["PYTHONHASHSEED"])
        c.ok(sorted(os.listdir(d)) == ["cfg", "child.py", "home", "out"], "process:files", str(os.listdir(d)))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    c.label("process", i, env["PYTHONHASHSEED"])
    c.note("calls-repeated-in-another-process", len(todo))
    c.sample(hash_seed=env["PYTHONHASHSEED"], threads=cfg["threads"], calls=len(todo))


CASES = [
    ("between", between, 500, 12000),
    ("altered", altered, 3000, 80000),
    ("bundles", bundles, 900, 25000),
    ("reused", reused, 450, 9000),
    ("assigned", assigned, 250, 5000),
    ("process", process, 16, 200),
]
