"""C02: the number of threads and their interleaving never show in a result; ThreadSanitizer watches the core over an OpenMP runtime
whose only edges are fork, join, barriers and locks, and the same runtime can run a team one thread at a time in any chosen order."""
import ctypes
import sys
import threading
import numpy as np
import batoid
from . import gen, mon, c09, c16, c26
from .ctx import rng_for

COUNTS = [2, 3, 4, 5, 7, 8, 16, 33, 64]


class Threads:
    """Everything inside runs with n threads; under our own runtime also in the given mode."""

    def __init__(self, n, mode=None, seed=1):
        self.n, self.mode, self.seed = n, mode, seed

    def __enter__(self):
        G = batoid.global_vars
        self.was = G._batoid_max_threads
        G._batoid_max_threads = self.n
        if LIB is not None:
            LIB.vm_shim_set(self.mode or 0, self.seed)

    def __exit__(self, *a):
        batoid.global_vars._batoid_max_threads = self.was
        if LIB is not None:
            LIB.vm_shim_set(0, self.seed)


def _lib():
    try:
        lib = ctypes.CDLL(batoid._batoid.__file__)
        lib.vm_shim_set.argtypes = [ctypes.c_int, ctypes.c_ulong]
        lib.vm_shim_stats.argtypes = [ctypes.POINTER(ctypes.c_long)]
        return lib
    except (AttributeError, OSError):
        return None


LIB = _lib()


def stats(c):
    if LIB is None:
        assert c.flavour not in ("shim", "tsan"), "our OpenMP runtime is not in this build"
        return
    q = (ctypes.c_long * 6)()
    LIB.vm_shim_stats(q)
    for k, v, w in zip(("regions", "parallel_regions", "threads_started", "permuted_orders", "barriers", "loops_handed_out"), q, stats.was):
        c.note("%s:%s" % (c.flavour, k), v - w)
    stats.was = list(q)


stats.was = [0] * 6


# ------------------------------------------------------------ workloads: rng -> [(name, what, tolerance)]
def nrays(rng, top=130):
    return int(rng.choice([0, 1, 2, 3, 5, 7, 8, 9, 16, 31, 64, 100, 129, 700], p=[.04, .06, .06, .06, .06, .06, .06, .1, .1, .1, .1, .1, .06, .04]))


def bundle(rng, n, s=None, cs=None, size=1.0):
    if n == 0:
        return batoid.RayVector([], [], [], [], [], [], [], [], []).toCoordSys(cs or batoid.CoordSys())
    return gen.rays_at(rng, s, n, size, cs=cs, flags=rng.random() < 0.5)


MEDIA = [batoid.ConstMedium(1.0), batoid.ConstMedium(1.4), batoid.TableMedium([3e-7, 6e-7, 9e-7, 2e-6], [1.3, 1.4, 1.35, 1.6]),
         batoid.SellmeierMedium(0.6961663, 0.4079426, 0.8974794, 0.00467914825849, 0.012513062073959999 + 0.001, 97.93400253792099)]


def surface_ops(rng):
    out = []
    s = gen.surf(rng)
    for k in ("intersect", "reflect", "refract", "rSplit", "screen"):
        n = nrays(rng)
        cs = gen.csys(rng, 0.4, str(rng.choice(["id", "small", "any"])))
        rv = bundle(rng, n, s, cs)
        to = cs if rng.random() < 0.7 else None
        co = gen.coating(rng) if rng.random() < 0.5 else None
        a, b = [MEDIA[rng.integers(4)] for _ in range(2)]
        if k == "intersect":
            got = s.intersect(rv, coordSys=to, coating=co)
        elif k == "reflect":
            got = s.reflect(rv, coordSys=to, coating=co)
        elif k == "refract":
            got = s.refract(rv, a, b, coordSys=to, coating=co)
        elif k == "rSplit":
            got = s.rSplit(rv, a, b, gen.coating(rng), coordSys=to)
        else:
            sc = gen.surf(rng, str(rng.choice(["Zernike", "Bicubic", "Sum", "Asphere"])))
            got = s.refractScreen(rv, sc, coordSys=to)
        out.append((k + " " + type(s).__name__, got, 0))
    return out


def ray_ops(rng):
    out = []
    n = nrays(rng)
    cs = gen.csys(rng, 0.4)
    rv = bundle(rng, n, None, cs)
    t, r = float(rng.normal()), rng.normal(size=3)
    out.append(("positionAtTime", rv.positionAtTime(t), 0))
    out.append(("phase", rv.phase(r, t), 0))
    out.append(("amplitude", rv.amplitude(r, t), 0))
    ig = bool(rng.random() < 0.5)
    out.append(("sumAmplitude", rv.sumAmplitude(r, t, ig), 1e-15 * (n + 8) * (1.0 + float(np.nansum(np.abs(rv.flux))) if n else 1.0)))
    o = gen.obsc(rng)
    out.append(("obscure", o.obscure(rv.copy()), 0))
    out.append(("propagate", rv.copy().propagate(t), 0))
    to = gen.csys(rng, 3.0)
    out.append(("toCoordSys", rv.copy().toCoordSys(to), 0))
    ct = batoid.CoordTransform(cs, to)
    w = rv.copy()
    out.append(("applyForward", ct.applyForward(w), 0))
    out.append(("applyReverse", ct.applyReverse(w.copy()), 0))
    p = rng.normal(size=(3, nrays(rng)))
    out.append(("applyForwardArray", ct.applyForwardArray(*p), 0))
    out.append(("applyReverseArray", ct.applyReverseArray(*p), 0))
    return out


def point_ops(rng):
    out = []
    x, y = rng.normal(size=(2, nrays(rng))) * 0.6
    s = gen.surf(rng)
    out.append(("sag", s.sag(x, y), 0))
    out.append(("normal", s.normal(x, y), 0))
    o = gen.obsc(rng)
    out.append(("contains", o.contains(x, y), 0))
    p = gen.obsc(rng, kind="ObscPolygon")
    out.append(("containsGrid", p.containsGrid(np.sort(x[:40]), np.sort(y[:30])), 0))
    out.append(("getN", gen.medium(rng).getN(rng.uniform(3e-7, 1e-6, nrays(rng))), 0))
    return out


def history(rng):
    ops = c09.program(rng)
    rv = c09.start(rng, max(1, nrays(rng)))
    out = []
    for k, f in ops:
        rv = f(rv)
        out.append((k, rv.copy(), 0))
    return out


def systems(rng):
    s = gen.system(rng, split=True, screens=rng.random() < 0.5)
    n = max(1, nrays(rng) % 200)
    rv = gen.system_beam(rng, s, n)
    out = [("trace", s.trace(rv.copy()), 0), ("traceFull", s.traceFull(rv.copy()), 0)]
    if rng.random() < 0.6:
        f, r = s.traceSplit(rv.copy()[:20], minFlux=0.02)
        out.append(("traceSplit", (f, r), 0))
    back = s.trace(rv.copy())
    back = batoid.RayVector(back.x, back.y, back.z, -back.vx, -back.vy, -back.vz, -back.t, back.wavelength, back.flux, back.vignetted, back.failed,
                            back.coordSys)
    out.append(("trace reverse", s.trace(back, reverse=True), 0))
    return out


def telescopes(rng):
    nm, tel = gen.pick_scope(rng)
    rv = gen.beam(rng, nm, tel, int(rng.integers(5, 150)))
    return [("trace " + nm, tel.trace(rv.copy()), 0), ("traceFull " + nm, tel.traceFull(rv), 0)]


def generators(rng):
    nm, tel = gen.pick_scope(rng)
    th = gen.field(rng, nm)
    wl = gen.scope_wl(rng, nm)
    k = int(rng.integers(5))
    kw = dict(optic=tel, theta_x=th[0], theta_y=th[1], wavelength=wl)
    out = []
    if k == 0:
        out.append(("asGrid", batoid.RayVector.asGrid(nx=int(rng.integers(2, 20)), **kw), 0))
    elif k == 1:
        out.append(("asSpokes", batoid.RayVector.asSpokes(rings=3, spokes=int(rng.integers(2, 9)), **kw), 0))
    elif k == 2:
        out.append(("asPolar", batoid.RayVector.asPolar(naz=int(rng.integers(6, 40)), nrad=int(rng.integers(2, 6)), **kw), 0))
    elif k == 3:
        out.append(("wavefront", batoid.wavefront(tel, *th, wl, nx=int(rng.integers(4, 20))).array, 0))
    else:
        out.append(("spot", batoid.spot(tel, *th, wl, nx=int(rng.integers(4, 16))), 0))
    if rng.random() < 0.3:
        tol = 1e-10
        out.append(("huygensPSF", batoid.huygensPSF(tel, *th, wl, nx=6, nxOut=4).array, tol))
    return out


WORK = [surface_ops, ray_ops, point_ops, history, systems, telescopes, generators]
SHARE = [.25, .2, .12, .18, .12, .06, .07]


def freeze(x):
    """Results as they are now (bundles may be changed in place later)."""
    if isinstance(x, batoid.RayVector):
        b = mon.snap(x)
        return {k: v for k, v in b.items() if k != "cs"}
    if isinstance(x, (tuple, list)):
        return [freeze(q) for q in x]
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    return x if isinstance(x, (str, int, float, complex, bool, type(None))) else np.array(x)


def same(a, b, tol):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, (str, type(None))):
        return a == b
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape or a.dtype != b.dtype:
        return False
    if tol:
        with np.errstate(all="ignore"):
            scale = max(1.0, float(np.nanmax(np.abs(a))) if tol < 1e-9 and a.size and np.isfinite(a).any() and a.ndim else 1.0)
            return bool(np.all((np.abs(a - b) <= tol * scale) | (a == b) | ((a != a) & (b != b))))
    return a.tobytes() == b.tobytes() or bool(np.all((a == b) | ((a != a) & (b != b))))


def sizes(x):
    if isinstance(x, dict):
        return sum(sizes(v) for v in x.values())
    if isinstance(x, list):
        return sum(sizes(v) for v in x)
    return int(np.size(x))


def do(work, seed):
    return [(k, freeze(v), tol) for k, v, tol in work(np.random.default_rng(seed))]


def compare(c, one, many, T, how):
    c.ok(len(one) == len(many), "threads:calls", how)
    for (k, a, tol), (_, b, _) in zip(one, many):
        c.event(sizes(a))
        c.ok(same(a, b, tol), "threads:" + k.split()[0], lambda: "%s with %d threads (%s) differs from 1 thread: %s / %s" % (
            k, T, how, str(b)[:300], str(a)[:300]))


def identical(c, rng, i):
    """Any thread count gives the bits of one thread, every time (libgomp, and our runtime with random starts)."""
    work = WORK[rng.choice(len(WORK), p=SHARE)]
    seed = int(rng.integers(2 ** 31))
    with Threads(1):
        one = do(work, seed)
    for T in rng.choice(COUNTS, 3, replace=False):
        with Threads(int(T), 0, seed):
            compare(c, one, do(work, seed), int(T), "concurrent")
        c.label("identical", work.__name__, int(T), one[0][0], min(sizes([q[1] for q in one]), 4096).bit_length())
    stats(c)


def orders(c, rng, i):
    """One thread at a time in random orders: what one thread leaves behind must not reach another."""
    work = WORK[rng.choice(len(WORK), p=SHARE)]
    seed = int(rng.integers(2 ** 31))
    with Threads(1):
        one = do(work, seed)
    for k in range(3):
        T = int(rng.choice(COUNTS[:7]))
        with Threads(T, 1, int(rng.integers(1, 2 ** 31))):
            compare(c, one, do(work, seed), T, "one at a time")
        c.label("orders", work.__name__, T, one[0][0])
    stats(c)


def races(c, rng, i):
    """Under ThreadSanitizer: no two threads touch the same memory, one of them writing."""
    work = WORK[rng.choice(len(WORK), p=SHARE)]
    seed = int(rng.integers(2 ** 31))
    with Threads(1):
        one = do(work, seed)
    T = int(rng.choice([2, 3, 4, 8]))
    with Threads(T, 0, seed):
        compare(c, one, do(work, seed), T, "concurrent")
    c.label("races", work.__name__, T, one[0][0])
    stats(c)


def pythreads(c, rng, i):
    """Several Python threads using the same optics, surfaces, media and frames on bundles of their own: as if alone."""
    kind = int(rng.integers(3))
    if kind == 0:
        s = gen.system(rng, split=True, screens=True)
        shared = lambda: gen.system_beam(rng, s, int(rng.integers(1, 60)))
    elif kind == 1:
        nm, s = gen.pick_scope(rng)
        shared = lambda: gen.beam(rng, nm, s, int(rng.integers(5, 60)))
    else:
        s = gen.surf(rng)
        shared = lambda: bundle(rng, max(1, nrays(rng)), s, None)
    cs = gen.csys(rng, 0.4)
    ob = gen.obsc(rng)
    med = MEDIA[2:]
    jobs = []
    for _ in range(int(rng.integers(2, 6))):
        jobs.append([(shared(), int(rng.integers(5)), rng.normal(size=3)) for _ in range(3)])

    def one(job):
        out = []
        for rv, what, r in job:
            rv = rv.copy()
            if isinstance(s, batoid.Surface):
                got = [lambda: s.intersect(rv, coordSys=cs), lambda: s.refract(rv, med[0], med[1], coordSys=cs), lambda: s.reflect(rv),
                       lambda: (s.sag(rv.x, rv.y), s.normal(rv.x, rv.y)), lambda: s.rSplit(rv, med[0], med[1], batoid.SimpleCoating(0.4, 0.6))][what]()
            else:
                got = [lambda: s.trace(rv), lambda: s.traceFull(rv), lambda: ob.obscure(s.trace(rv)),
                       lambda: s.trace(rv).toCoordSys(cs), lambda: s.trace(rv).phase(r, 0.3)][what]()
            out.append(freeze(got))
        return out

    want = [one(j) for j in jobs]
    got = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def run(k):
        gate.wait()
        try:
            got[k] = one(jobs[k])
        except Exception as e:
            got[k] = repr(e)

    was = sys.getswitchinterval()
    sys.setswitchinterval(float(rng.choice([1e-6, 1e-5, 1e-4])))
    try:
        with Threads(int(rng.choice([1, 2, 4])), 0, i + 1):
            th = [threading.Thread(target=run, args=(k,)) for k in range(len(jobs))]
            for t in th:
                t.start()
            for t in th:
                t.join()
    finally:
        sys.setswitchinterval(was)
    for w, g in zip(want, got):
        c.event(sizes(w))
        c.ok(isinstance(g, list) and same(w, g, 0), "python-threads", lambda: "%s: %s" % (type(s).__name__, str(g)[:300]))
    c.label("pythreads", kind, type(s).__name__, len(jobs))


CASES = [
    ("identical", identical, 400, 12000, ("plain", "shim")),
    ("orders", orders, 300, 12000, ("shim",)),
    ("races", races, 260, 6000, ("tsan",)),
    ("pythreads", pythreads, 60, 1500, ("plain", "tsan")),
]
