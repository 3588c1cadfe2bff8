"""C27: every block the core asks for (memcount.cpp, preloaded) and every object and reference the interpreter holds are accounted for
while the same history is repeated: what a history leaves behind when everything it made is dropped must not grow with the repetitions."""
import copy
import ctypes
import gc
import os
import pickle
import weakref
from collections import Counter
import numpy as np
import batoid
from . import gen, c01, c16, c26
from .ctx import Stop, rng_for
from .c01 import Silent

LIB = ctypes.CDLL(None)
for _n in ("vm_live_blocks", "vm_live_bytes", "vm_made", "vm_lost"):
    getattr(LIB, _n).restype = ctypes.c_long
LIB.vm_core_range.argtypes = [ctypes.c_size_t] * 2
_r = [q.split()[0].split("-") for q in open("/proc/self/maps") if "/_batoid." in q]
LIB.vm_core_range(min(int(a, 16) for a, b in _r), max(int(b, 16) for a, b in _r))


def live():
    """(blocks of the core, bytes of the core, objects of the interpreter, references they hold)"""
    gc.collect()
    o = gc.get_objects()
    return np.array([LIB.vm_live_blocks(), LIB.vm_live_bytes(), len(o), len(gc.get_referents(*o)) if o else 0])


def handles():
    return len(os.listdir("/proc/self/fd")), len(os.listdir("/proc/self/task"))


def steady(c, fn, tag, per=6):
    """Repeat fn; free lists and caches fill up and stop growing, what leaks grows in every batch by the same repetitions."""
    for _ in range(3):
        fn()
    h0 = handles()
    m0 = LIB.vm_made()
    log = np.zeros((12, 4), int)
    a = live()
    for k in range(12):
        for _ in range(per):
            fn()
        b = live()
        log[k] = b - a
        a = b
        up = (log[:k + 1] >= per).all(axis=0)
        if not up.any():
            break
    else:
        n0 = Counter(type(q).__name__ for q in gc.get_objects())
        for _ in range(per):
            fn()
        gc.collect()
        more = (Counter(type(q).__name__ for q in gc.get_objects()) - n0).most_common(4)
        c.fail("memory-kept", "%s: every %d repetitions keep (core blocks, core bytes, objects, references) %s %s" % (tag, per, log.tolist(), more))
    if LIB.vm_lost():
        raise MemoryError("memcount: table full")
    c.event((k + 1) * per)
    c.note("batches", k + 1)
    c.note("core_blocks_watched", int(LIB.vm_made() - m0))
    h1 = handles()
    if h1 != h0:      # thread pools and first uses may add some once; every repetition adding some is a leak
        for _ in range(2 * per):
            fn()
        gc.collect()
        h2 = handles()
        for _ in range(2 * per):
            fn()
        gc.collect()
        h3 = handles()
        c.event()
        if any(h3[q] > h2[q] > h1[q] for q in (0, 1)):
            c.fail("handles-kept", "%s: files and threads: %s" % (tag, [h0, h1, h2, h3]))


def again(c, key, i):
    """The same random numbers for every repetition."""
    return rng_for("C27", c.seed, key, i)


# ------------------------------------------------------------ making, using and dropping one object of every kind
def kinds(rng, j):
    K = gen.SURFS
    mk = [lambda k=k: gen.surf(rng, k) for k in K]
    mk += [lambda k=k: gen.medium(rng, k) for k in ("Const", "Table", "Sellmeier", "Sumita", "Air")]
    mk += [lambda k=k: gen.obsc(rng, kind=k) for k in (
        "ObscCircle", "ObscAnnulus", "ObscRectangle", "ObscRay", "ObscPolygon", "ObscNegation", "ObscUnion", "ObscIntersection")]
    mk += [lambda: c16.rays(rng, 50), lambda: c16.lattice(rng), lambda: c16.transform(rng), lambda: gen.csys(rng),
           lambda: c16.element(rng), lambda: gen.system(rng, obscured=True), lambda: gen.coating(rng)]
    return mk[j % len(mk)], len(mk)


NKIND = kinds(None, 0)[1]


def use(x, rng):
    """What the object is for, including what fails."""
    n = 12
    xy = rng.normal(size=(2, n)) * 0.5
    if isinstance(x, batoid.Surface):
        x.sag(*xy)
        x.normal(*xy)
        rv = gen.rays_at(rng, x, n)
        x.intersect(rv.copy())
        x.reflect(rv.copy(), coordSys=gen.csys(rng))
        x.refract(rv.copy(), gen.medium(rng), gen.medium(rng), coordSys=gen.csys(rng))
        x.rSplit(rv.copy(), gen.medium(rng), gen.medium(rng), batoid.SimpleCoating(0.1, 0.9))
        x.refractScreen(rv.copy(), gen.surf(rng))
    elif isinstance(x, batoid.Medium):
        x.getN(np.abs(xy[0]) * 1e-6 + 3e-7)
    elif isinstance(x, batoid.obscuration.Obscuration):
        x.contains(*xy)
        x.obscure(c16.rays(rng, n))
        if isinstance(x, batoid.ObscPolygon):
            x.containsGrid(np.sort(xy[0]), np.sort(xy[1]))
    elif isinstance(x, batoid.RayVector):
        x.phase([0.1, 0, 0], 0.3), x.amplitude([0.1, 0, 0], 0.3), x.positionAtTime(0.1), x.x, x.k, x.omega
        x[1:5], x[np.arange(50) % 3 == 0], x[3], x.copy().propagate(0.2), x.toCoordSys(gen.csys(rng))
        batoid.concatenateRayVectors([x, x]) if hasattr(batoid, "concatenateRayVectors") else None
    elif isinstance(x, batoid.Lattice):
        x.coords
    elif isinstance(x, batoid.CoordTransform):
        rv = c16.rays(rng, n)
        rv.coordSys = x.fromSys
        x.applyForward(rv.copy())
        x.applyForwardArray(*rng.normal(size=(3, n)))
        x.applyReverseArray(*rng.normal(size=(3, n)))
    elif isinstance(x, batoid.CoordSys):
        x.shiftGlobal([1, 2, 3]).rotateLocal(batoid.RotX(0.1)), x.xhat
    elif isinstance(x, batoid.Optic):
        rv = c16.rays(rng, n)
        x.trace(rv.copy())
        x.traceFull(rv)
        if isinstance(x, batoid.CompoundOptic):
            x.itemDict, x.clear_radius if hasattr(x, "clear_radius") else None
            x.withGloballyShiftedOptic(x.items[0].name, [0, 0, 0.1])
        x.withGlobalShift([1, 0, 0]), x.withLocalRotation(batoid.RotY(0.1))


def quiet(fn):
    try:
        return fn()
    except Exception:
        return None


def objects(c, rng, i):
    j = i % NKIND
    names = []

    def once():
        r = again(c, "objects", i)
        x = kinds(r, j)[0]()
        names[:] = [type(x).__name__]
        quiet(lambda: use(x, r))
        y = pickle.loads(pickle.dumps(x))
        z = copy.deepcopy(x)
        x == y, hash(z) if getattr(type(z), "__hash__", None) else None, repr(x)
        quiet(lambda: use(y, r))
        if isinstance(x, batoid.Surface) and not isinstance(x, batoid.Sum):
            quiet(lambda: (x + z).sag(0.1, 0.1))
        w = batoid.ObscNegation(x) if isinstance(x, batoid.obscuration.Obscuration) else copy.copy(x)
        quiet(lambda: use(w, r))
    steady(c, once, "objects", per=6)
    c.label("objects", names[0], i // NKIND % 5)


def gone(c, rng, i):
    """An object nobody holds is gone (at the latest when the cycle collector ran), whatever it was used for and derived from it."""
    j = i % NKIND
    x = kinds(rng, j)[0]()
    nm = type(x).__name__
    quiet(lambda: use(x, rng))
    kept = [pickle.loads(pickle.dumps(x)), copy.deepcopy(x)]     # full copies, so no reason to hold the original
    x == kept[0]
    repr(x)
    if isinstance(x, batoid.RayVector):
        kept += [x.x.copy(), x.copy(), x.copy().toCoordSys(batoid.CoordSys((0, 0, 1.0))), x[2:5]]
    try:
        ref = weakref.ref(x)
    except TypeError:
        c.note("no_weakref:" + nm)
        c.event()
        return
    x = None
    gc.collect()
    c.ok(ref() is None, "still-held", lambda: "%s is held by %s" % (nm, [type(q) for q in gc.get_referrers(ref())][:6]))
    c.label("gone", nm)


# ------------------------------------------------------------ chains: only the last one stays
def chain(c, rng, i):
    f = lambda s=0.01: rng.normal(size=3) * s
    R = lambda: gen.rot(rng, "small")
    sysm = gen.system(rng)
    el = c16.element(rng)
    rv = c16.rays(rng, 40)
    cs = gen.csys(rng)
    s = gen.surf(rng)
    ob = gen.obsc(rng)
    nmi = sysm.items[0].name if isinstance(sysm, batoid.CompoundOptic) else None
    steps = [
        ("globalShift", el, lambda x: x.withGlobalShift(f())),
        ("localRotation", el, lambda x: x.withLocalRotation(R())),
        ("localShift", el, lambda x: x.withLocalShift(f())),
        ("sysShift", sysm, lambda x: x.withGlobalShift(f())),
        ("sysRotation", sysm, lambda x: x.withLocalRotation(R())),
        ("optic", sysm, lambda x: x.withGloballyShiftedOptic(nmi, f()) if nmi else x.withGlobalShift(f())),
        ("opticRotation", sysm, lambda x: x.withLocallyRotatedOptic(nmi, R()) if nmi else x.withLocalRotation(R())),
        ("propagate", rv, lambda x: x.copy().propagate(float(rng.normal()))),
        ("inplace", rv, lambda x: x.propagate(float(rng.normal()))),
        ("toCoordSys", rv, lambda x: x.toCoordSys(gen.csys(rng))),
        ("copy", rv, copy.copy), ("deepcopy", el, copy.deepcopy),
        ("pickle", el, lambda x: pickle.loads(pickle.dumps(x))),
        ("index", rv, lambda x: x[rng.permutation(len(x))]),
        ("slice", rv, lambda x: x[::-1]),
        ("trace", rv, lambda x: quiet(lambda: el.trace(x.copy())) or x),
        ("traceInPlace", rv, lambda x: quiet(lambda: el.trace(x)) or x),
        ("intersect", rv, lambda x: quiet(lambda: s.intersect(x, coordSys=gen.csys(rng))) or x),
        ("obscure", rv, lambda x: ob.obscure(x)),
        ("csys", cs, lambda x: x.shiftGlobal(f()).rotateLocal(R())),
        ("csysAbout", cs, lambda x: x.rotateGlobal(R(), (1, 2, 3), gen.csys(rng))),
        ("twice", ob, lambda x: pickle.loads(pickle.dumps(x))),
        ("insertRemove", sysm, lambda x: x.withInsertedOptic(nmi, batoid.Detector(
            batoid.Plane(), name="extra", coordSys=gen.csys(rng))).withRemovedOptic("extra") if nmi else copy.copy(x)),
    ]
    nm, x0, step = steps[i % len(steps)]
    st = [x0]

    def once():
        r = step(st[0])
        st[0] = x0 if r is None else r
    try:
        step(x0)
    except Exception as e:
        c.note("step_refused:%s:%s" % (nm, type(e).__name__))
        c.event()
        return
    steady(c, once, "chain:" + nm, per=10)
    c.label("chain", nm, type(x0).__name__)


# ------------------------------------------------------------ calls that raise, and every other monitor's workload
ALL = [("C01", "degenerate", c01.degenerate), ("C01", "layouts", c01.layouts), ("C01", "extremes", c01.extremes),
       ("C01", "lifetimes", c01.lifetimes), ("C01", "threads", c01.threads)] + list(c01.OTHERS)


def others(c, rng, i):
    """One case of another monitor, the same numbers again and again."""
    prop, name, fn = ALL[i % len(ALL)]

    def once():
        q = Silent(prop, "quick", c.seed)
        q.flavour = c.flavour
        q.begin(name, i)
        try:
            fn(q, rng_for(prop, c.seed, name, i), i // len(ALL))
        except (Stop, Exception):
            pass
    steady(c, once, "%s/%s" % (prop, name), per=3)
    c.label("others", prop, name)


def refused(c, rng, i):
    """Calls that raise half-way leave nothing behind either."""
    def once():
        r = again(c, "refused", i)
        for k in range(12):
            q = Silent("C01", "quick", 1)
            q.begin("degenerate", i)
            quiet(lambda: c01.degenerate(q, r, i + 7 * k))
        quiet(lambda: batoid.Sum([gen.surf(r), None]))
        quiet(lambda: batoid.ObscUnion([gen.obsc(r), 3]))
        quiet(lambda: batoid.Bicubic(np.arange(3.0), np.arange(4.0), np.zeros((2, 2))))
        quiet(lambda: batoid.parse.parse_optic({"type": "Nonsense", "name": "x"}))
        quiet(lambda: batoid.Optic.fromYaml("/nonexistent/file.yaml"))
        quiet(lambda: gen.system(r).withGloballyShiftedOptic("no such thing", [0, 0, 1]))
        quiet(lambda: gen.system(r)["no such thing"])
        quiet(lambda: batoid.RayVector.asPolar(outer=1.0))
        quiet(lambda: batoid.RayVector.asGrid(nx=3, lx=1.0, wavelength=5e-7, dirCos=[0, 0, -1], dist=3, medium="none"))
    steady(c, once, "refused", per=4)
    c.label("refused", i)


# ------------------------------------------------------------ whole systems and their analyses
def telescopes(c, rng, i):
    names = gen.SCOPES
    nm = names[i % len(names)]

    def once():
        r = again(c, "telescopes", i)
        tel = batoid.Optic.fromYaml(nm)
        wl = gen.scope_wl(r, nm)
        rv = gen.beam(r, nm, tel, 20, wl=wl)
        quiet(lambda: tel.trace(rv.copy()))
        quiet(lambda: tel.traceFull(rv))
        quiet(lambda: tel.traceSplit(rv.copy(), minFlux=0.2))
        k = i // len(names) % 6
        th = gen.field(r, nm)
        fns = [lambda: batoid.zernike(tel, *th, wl, nx=8, jmax=6), lambda: batoid.fftPSF(tel, *th, wl, nx=8, pad_factor=2),
               lambda: batoid.huygensPSF(tel, *th, wl, nx=6, nxOut=4), lambda: batoid.zernikeGQ(tel, *th, wl, rings=3, spokes=7, jmax=6),
               lambda: batoid.doubleZernike(tel, 0.001, wl, rings=2, spokes=5, jmax=4, kmax=3), lambda: batoid.dthdr(tel, *th, wl)]
        quiet(fns[k])
        quiet(lambda: pickle.loads(pickle.dumps(tel)) == tel)
        quiet(lambda: tel.withGlobalShift([0, 0, 1]))
    steady(c, once, "telescope:" + nm, per=2)
    c.label("telescope", nm, i // len(names) % 6)


CASES = [
    ("objects", objects, 250, 6000, ("mem",)),
    ("gone", gone, 500, 9000, ("mem",)),
    ("chain", chain, 230, 6000, ("mem",)),
    ("others", others, 300, 8000, ("mem",)),
    ("refused", refused, 60, 1500, ("mem",)),
    ("telescopes", telescopes, 32, 900, ("mem",)),
]
