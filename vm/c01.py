"""C01: AddressSanitizer and UndefinedBehaviorSanitizer watch the core; every case runs under two fill patterns of fresh and freed
memory, and its results must not depend on the pattern, on the container the numbers came in, or on what became of the sources."""
import copy
import gc
import importlib
import pickle
import numpy as np
import batoid
from . import gen, mon, c16, c26
from .ctx import Ctx, Stop
from .canon import canon, diff

BOTH = ("asan", "asan2")


# ------------------------------------------------------------ other workloads, judged by the sanitizers only
class Silent(Ctx):
    """Lets a workload run without judging it; that is its own property's business."""

    def fail(self, *a, **kw):
        raise Stop()

    def known(self, *a, **kw):
        pass

    def ok(self, cond, *a, **kw):
        self.event()

    def close(self, *a, **kw):
        self.event()

    equal = close

    def raises(self, exc, fn, *a, **kw):
        self.event()
        try:
            fn()
        except Exception:
            pass


OTHERS = []
for _k in range(3, 27):
    _m = importlib.import_module("vm.c%02d" % _k)
    OTHERS += [("C%02d" % _k,) + tuple(q[:2]) for q in _m.CASES]
HEAVY = {}


def reuse(c, rng, i):
    """One case of another monitor (all 24 in turn) under the sanitizers, with hostile containers where it takes data."""
    prop, name, fn = OTHERS[i % len(OTHERS)]
    q = Silent(prop, c.tier, c.seed)
    q.flavour = c.flavour
    q.begin(name, i)
    was = c26.form
    c26.form = lambda r, a, dtype=True: lay(r, a, dtype)[0]
    try:
        fn(q, rng, i // len(OTHERS) + (c.seed << 12))
    except (Stop, Exception) as e:
        c.note("reuse_stopped:%s" % prop if isinstance(e, Stop) else "reuse_exception:%s" % prop)
    finally:
        c26.form = was
    c.event(1 + q.events)
    c.label("reuse", prop, name, sorted(q.labels)[:1])


# ------------------------------------------------------------ containers
def lay(rng, a, dtype=True):
    """(container, float64 array of exactly the numbers it holds)"""
    a = np.array(a)
    kind = a.dtype.kind
    if kind == "f" and dtype and rng.random() < 0.4:
        d = str(rng.choice(["f4", "f2", ">f8", ">f4", "g", "i8", "i4", "i2", "<f8"]))
        with np.errstate(all="ignore"):
            b = a.astype(d)
            if d[0] == "i" and not np.all(np.abs(a) < 3e4):
                b = a
            if np.all(np.isfinite(b.astype(float)) == np.isfinite(a)):
                a = b
    plain = np.array(a, dtype=float if kind == "f" else a.dtype, order="C")
    k = int(rng.integers(12))
    if k == 0:
        return a.tolist(), plain
    if k == 1 and a.ndim == 1:
        return tuple(a.tolist()), plain
    if k == 2:
        return np.asfortranarray(a), plain
    if k in (3, 4) and a.ndim:
        st = int(rng.integers(2, 5))
        b = np.repeat(a, st, axis=-1)
        if b.size:
            b[..., 1::st] = 1 if kind in "bi" else -7.5
        return b[..., ::st], plain
    if k == 5 and a.ndim:
        return a[..., ::-1].copy()[..., ::-1], plain
    if k == 6 and a.ndim == 1:
        b = np.zeros((a.size, 3), a.dtype)
        b[:, 1] = a
        return b[:, 1], plain
    if k == 7 and a.size:      # not aligned
        raw = np.empty(a.nbytes + 1, np.uint8)
        b = raw[1:].view(a.dtype).reshape(a.shape)
        b[...] = a
        return b, plain
    if k == 8:
        b = a.copy()
        b.flags.writeable = False
        return b, plain
    if k == 9 and a.ndim > 1:
        return np.ascontiguousarray(a.T).T, plain
    if k == 10 and a.ndim:
        return [q for q in a], plain
    if k == 11 and a.dtype.names is None:
        b = np.zeros(a.shape, dtype=[("q", "u1"), ("v", a.dtype)])
        b["v"] = a
        return b["v"], plain
    return a.copy(), plain


def size(rng):
    return int(rng.choice([0, 1, 2, 3, 7, 16, 33, 130, 257, 1500], p=[.1, .1, .1, .1, .15, .15, .1, .1, .05, .05]))


def result(a):
    """Bytes of a result of any kind."""
    return c26.bytes_of(a)


ARITH = ("CoordSys", "CoordSys()", "Zernike", "transformArray", "asGrid", "asSpokes", "fromStop")


def judge(c, nm, make, use, data, rng):
    """make(*data) then use(object); containers must not matter."""
    got = [lay(rng, a) if isinstance(a, np.ndarray) else (a, a) for a in data]
    x, y = make(*[g[0] for g in got]), make(*[g[1] for g in got])
    a, b = use(x), use(y)
    c.ok(same(a, b, 1e-12 if nm in ARITH else 0.0), nm + ":container", lambda: "data as %s; %s instead of %s" % (
        [describe(g[0]) for g in got], str(a)[:300], str(b)[:300]))
    c.digest(result(b))
    c.label("layout", nm, tuple(describe(g[0]) for g in got)[:3])


def same(a, b, tol=0.0):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(p, q, tol) for p, q in zip(a, b))
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, batoid.RayVector):
        return same(mon.snap(a), mon.snap(b), tol)
    if isinstance(a, (np.ndarray, np.generic, float, int, bool, complex)):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if not tol or a.dtype.kind not in "fc":
            return bool(np.all((a == b) | ((a != a) & (b != b))))
        with np.errstate(all="ignore"):      # numpy may sum strided data in another order
            m = np.abs(b[np.isfinite(b)]).max(initial=1.0)
            return bool(np.all((a == b) | (np.abs(a - b) <= tol * m) | ((a != a) & (b != b))))
    if type(a).__module__.startswith("batoid"):
        return not diff(canon(a), canon(b), tol=tol)
    return a == b


def describe(a):
    if isinstance(a, np.ndarray):
        return "%s%s%s" % (a.dtype.str, "" if a.flags.c_contiguous else "s", "" if a.flags.aligned else "u")
    return type(a).__name__


def points(rng, n, s=0.5):
    if rng.random() < 0.2:
        r, q = max(1, n // 5), int(rng.integers(1, 4))
        sh = (r, q) if rng.random() < 0.7 else (r, 1, q)
        return rng.normal(size=sh) * s, rng.normal(size=sh if rng.random() < 0.6 else sh[-1:]) * s
    x = rng.normal(size=n) * s
    u = rng.random()
    y = rng.normal(size=n) * s if u < 0.8 else np.array(rng.normal() * s)
    return (x, y) if rng.random() < 0.8 else (y, x)


def layouts(c, rng, i):
    """The same numbers in any container give the same result."""
    k = i % 20
    n = size(rng)
    probe = lambda o: {q: v for q, v in c16.probe(o).items()}
    if k == 0:
        s = c16.surface(rng)
        judge(c, type(s).__name__ + ".sag", lambda x, y: s.sag(x, y), lambda r: np.asarray(r), points(rng, n), rng)
    elif k == 1:
        s = c16.surface(rng)
        judge(c, type(s).__name__ + ".normal", lambda x, y: s.normal(x, y), lambda r: np.asarray(r), points(rng, n), rng)
    elif k == 2:
        m = gen.medium(rng)
        judge(c, type(m).__name__, lambda w: m.getN(w), np.asarray, (rng.uniform(3e-7, 1e-6, n),), rng)
    elif k == 3:
        o = gen.obsc(rng)
        judge(c, type(o).__name__, lambda x, y: o.contains(x, y), np.asarray, points(rng, n), rng)
    elif k == 4:
        o = gen.obsc(rng, kind="ObscPolygon")
        judge(c, "containsGrid", o.containsGrid, np.asarray, (np.sort(rng.normal(size=n)), np.sort(rng.normal(size=size(rng)))), rng)
    elif k == 5:
        m = max(3, min(n, 300))
        judge(c, "ObscPolygon", batoid.ObscPolygon, lambda o: (np.array([o.contains(a, b) for a, b in rng_pts]), o.containsGrid(*grid)),
              (rng.normal(size=m), rng.normal(size=m)), rng) if not poly(rng) else None
    elif k == 6:
        judge(c, "Asphere", lambda q: batoid.Asphere(3.0, -0.5, q), probe, (rng.normal(size=min(n, 40)) * 1e-3,), rng)
    elif k == 7:
        judge(c, "Zernike", lambda q: batoid.Zernike(q, R_inner=0.2), probe, (rng.normal(size=min(n, 60) + 1) * 1e-3,), rng)
    elif k == 8:
        b = gen.bicubic(rng, nx=2 + n % 17, ny=2 + n % 13, deriv=True) if rng.random() < 0.5 else gen.bicubic(rng, nx=2 + n % 11, ny=2 + n % 19)
        d = [np.array(b.zs)] + [np.array(getattr(b, q)) if rng.random() < 0.6 else None for q in ("dzdxs", "dzdys", "d2zdxdys")]
        xs, ys = np.arange(b.zs.shape[1]) * 0.25 - 1, np.arange(b.zs.shape[0]) * 0.5 - 2
        judge(c, "Bicubic", batoid.Bicubic, probe, [xs, ys] + d, rng)
    elif k == 9:
        m = max(2, min(n, 500))
        judge(c, "TableMedium", batoid.TableMedium,
              lambda t: t.getN(np.linspace(300, 1000, 97)), (np.linspace(300, 1000, m).round(), rng.uniform(1, 2, m)), rng)
    elif k == 10:
        cls = [batoid.SellmeierMedium, batoid.SumitaMedium][rng.integers(2)]
        judge(c, cls.__name__, cls, lambda m: m.getN(np.linspace(3e-7, 1e-6, 30)), (rng.uniform(0.1, 1, 6),), rng)
    elif k == 11:
        a = [rng.normal(size=n) if rng.random() < 0.7 else np.array(rng.normal()) for _ in range(9)] + [rng.random(n) < 0.3, rng.random(n) < 0.2]
        judge(c, "RayVector", batoid.RayVector, lambda r: (mon.snap(r), r.positionAtTime(0.5), r.phase([1, 2, 3.0], 0.1)), a, rng)
    elif k == 12:
        t = c16.transform(rng)
        f = t.applyForwardArray if rng.random() < 0.5 else t.applyReverseArray
        judge(c, "transformArray", lambda x, y, z: f(x, y, z), np.asarray, tuple(rng.normal(size=(3, n))), rng)
    elif k == 13:
        rv = c16.rays(rng, n)
        j = int(rng.integers(4))
        judge(c, "RayVector." + "phase amplitude sumAmplitude sumAmplitude".split()[j], lambda r: [
            rv.phase, rv.amplitude, rv.sumAmplitude, lambda q, t: rv.sumAmplitude(q, t, True)][j](r, 0.3), np.asarray, (rng.normal(size=3),), rng)
    elif k == 14:
        rv = c16.rays(rng, n)
        if n:
            ix = np.sort(rng.integers(-n, n, size(rng))) if rng.random() < 0.5 else rng.random(n) < 0.5
            judge(c, "RayVector[]", lambda q: rv[np.asarray(q, dtype=ix.dtype)], mon.snap, (ix,), rng)
        else:
            c.digest(result(rv[:0]))
    elif k == 15:
        m = min(n, 200)
        kw = dict(backDist=3.0, wavelength=5e-7, dirCos=[0.1, 0.2, -1.0], stopSurface=batoid.Interface(batoid.Paraboloid(3.0)))
        if rng.random() < 0.4:
            kw.pop("dirCos")
            kw["source"] = [0.1, 0.2, 30.0]
        j = int(rng.integers(3))
        if j == 0:
            judge(c, "asSpokes", lambda r, s: batoid.RayVector.asSpokes(rings=r, spokes=s, outer=1.0, **kw), mon.snap,
                  (np.sort(rng.random(m % 20)), rng.random(m % 13)), rng)
        elif j == 1:
            judge(c, "fromStop", lambda x, y, f: batoid.RayVector.fromStop(x, y, flux=f, **kw), mon.snap,
                  (rng.normal(size=m), rng.normal(size=m), rng.random(m)), rng)
        else:
            a, b = int(rng.integers(1, 20)), int(rng.integers(1, 20))
            judge(c, "asGrid", lambda p, q, f: batoid.RayVector.asGrid(nx=a, ny=b, lx=p, ly=q, flux=f, **kw), mon.snap,
                  (np.array([1.0, 0.25]), np.array([-0.25, 1.5]), rng.random(a * b)), rng)
    elif k == 16:
        cs = gen.csys(rng)
        j = int(rng.integers(4))
        f = [cs.toGlobal, cs.toLocal, cs.shiftGlobal, cs.shiftLocal][j]
        judge(c, "CoordSys", lambda q: f(q), lambda r: r if isinstance(r, np.ndarray) else (r.origin, r.rot), (
            rng.normal(size=(max(n, 1), 3)) if j < 2 else rng.normal(size=3),), rng)      # (an empty list has no columns)
    elif k == 17:
        judge(c, "CoordSys()", batoid.CoordSys, lambda s: mon.snap(batoid.RayVector(
            np.arange(9.0), 1.0, 2.0, 0.1, 0.2, 1.0).toCoordSys(s)), (rng.normal(size=3), np.array(gen.rot(rng))), rng)
    elif k == 18:
        rv = c16.rays(rng, n)
        s = c16.surface(rng)
        ratio = rng.random(4)
        out = s.rSplit(rv, batoid.ConstMedium(1.0), batoid.ConstMedium(1.5), gen.coating(rng), coordSys=gen.csys(rng))
        c.event()
        c.digest(tuple(result(q) for q in out))
        c.label("layout", "rSplit", type(s).__name__, n)
    else:
        parts = [c16.rays(rng, size(rng) % 50) for _ in range(int(rng.integers(1, 5)))]
        for p in parts:
            p.coordSys = parts[0].coordSys
        whole = batoid.concatenateRayVectors(parts)
        c.ok(len(whole) == sum(len(p) for p in parts), "concatenate:size")
        c.digest(result(whole))
        c.label("layout", "concatenate", tuple(len(p) for p in parts))


rng_pts, grid = [], ()


def poly(rng):
    global rng_pts, grid
    rng_pts = rng.normal(size=(30, 2)).tolist()
    grid = (np.sort(rng.normal(size=12)), np.sort(rng.normal(size=9)))
    return False


# ------------------------------------------------------------ lifetimes
gc.collect()
gc.freeze()      # the modules themselves need not be looked through at every collection


def churn(rng):
    """Reuse whatever memory has been given back."""
    keep = []
    for n in rng.integers(1, 400, 12):
        keep.append(np.full(int(n), np.nan))
        keep.append(np.full(int(n), True))
        keep.append(bytearray(b"\xff" * int(n)))
    keep.append([c16.surface(rng) if rng.random() < 0.5 else gen.medium(rng) for _ in range(2)])
    return keep


def outcome(x):
    if isinstance(x, np.ndarray):
        return {"array": x}
    if isinstance(x, batoid.RayVector):
        return dict(mon.snap(x), at=x.positionAtTime(0.25))
    return c16.probe(x)


def reach(rng, x):
    """A part, a derivative or a container of x."""
    k = int(rng.integers(8))
    if isinstance(x, np.ndarray):
        return [x[::2], x, x.ravel()][rng.integers(3)] if x.ndim else x
    if k < 2:
        return copy.deepcopy(x) if k else pickle.loads(pickle.dumps(x))
    if isinstance(x, batoid.Surface):
        if isinstance(x, batoid.Sum) and k < 5 and x.surfaces:
            return x.surfaces[rng.integers(len(x.surfaces))]
        if isinstance(x, batoid.Bicubic) and k < 5:
            return [x.zs, x.xs, x.dzdxs, x.d2zdxdys][rng.integers(4)]
        if isinstance(x, batoid.Zernike) and k == 2:
            return np.asarray(x.coef)
        if k < 6:
            return batoid.Sum([x, c16.surface(rng)])
        return batoid.Mirror(x, name="M", coordSys=gen.csys(rng))
    if isinstance(x, batoid.Obscuration):
        if hasattr(x, "items") and k < 4 and x.items:
            return x.items[rng.integers(len(x.items))]
        if hasattr(x, "original") and k < 4:
            return x.original
        return [batoid.ObscNegation, lambda q: batoid.ObscUnion([q, gen.obsc(rng)]), lambda q: batoid.ObscIntersection([q, gen.obsc(rng)]),
                lambda q: batoid.Baffle(batoid.Plane(), name="B", obscuration=q)][rng.integers(4)](x)
    if isinstance(x, batoid.Medium):
        return batoid.RefractiveInterface(gen.surf(rng, "Paraboloid"), name="R", inMedium=batoid.vacuum, outMedium=x)
    if isinstance(x, batoid.Coating):
        return batoid.RefractiveInterface(gen.surf(rng, "Paraboloid"), name="R", forwardCoating=x, reverseCoating=x)
    if isinstance(x, batoid.CoordSys):
        return [x.origin, x.rot, batoid.CoordTransform(x, gen.csys(rng)), x.shiftLocal([1, 2, 3])][rng.integers(4)]
    if isinstance(x, batoid.CoordTransform):
        return [x.fromSys, x.toSys, x.dr, x.drot][rng.integers(4)]
    if isinstance(x, batoid.Lattice):
        return [x.array, x.coords, x.primitiveVectors][rng.integers(3)]
    if isinstance(x, batoid.RayVector):
        n = len(x)
        return [lambda: x.x, lambda: x.vignetted, lambda: x.r, lambda: x.flux, lambda: x.copy(), lambda: x[::2], lambda: x.coordSys,
                lambda: batoid.concatenateRayVectors([x, x]), lambda: x[rng.integers(n)] if n else x][rng.integers(9)]()
    if hasattr(x, "items"):
        if k < 5:
            return x.items[rng.integers(len(x.items))]
        return x.withGlobalShift([0.1, 0.2, 0.3])
    if k < 5:
        return [x.surface, x.coordSys, x.inMedium, x.outMedium][rng.integers(4)]
    if k < 7 and x.obscuration is not None:
        return x.obscuration
    return batoid.CompoundOptic([x], name="C") if x.name else x


def lifetimes(c, rng, i):
    """A random history of making, deriving and dropping objects; whatever is still held goes on doing what it did."""
    pool = []
    done = []
    for step in range(int(rng.integers(6, 18))):
        u = rng.random()
        if u < 0.35 or not pool:
            x = c16.anything(rng)
            done.append("make " + type(x).__name__)
        elif u < 0.75:
            x = reach(rng, pool[rng.integers(len(pool))][0])
            done.append("reach " + type(x).__name__)
        else:
            j = int(rng.integers(len(pool)))
            done.append("drop " + type(pool[j][0]).__name__)
            del pool[j]
            x = None
        if x is not None:
            pool.append((x, outcome(x), str(done[-1])))
            x = None
        if rng.random() < 0.3:
            gc.collect()
        if rng.random() < 0.4:
            churn(rng)
        for obj, was, how in pool[-3:]:
            now = outcome(obj)
            c.ok(same(was, now), "lifetime", lambda: "%s changed after %s" % (how, done))
        if rng.random() < 0.15:
            pool = pool[-1:]
    gc.collect()
    churn(rng)
    for obj, was, how in pool:
        c.ok(same(was, outcome(obj)), "lifetime", lambda: "%s changed after %s" % (how, done))
        c.digest(tuple(sorted((k, np.asarray(v).tobytes()) for k, v in was.items() if np.asarray(v).dtype.kind in "fbiuc")))
    c.label("lifetime", tuple(sorted(set(done)))[:4], len(pool))


# ------------------------------------------------------------ values
ODD = [np.nan, np.inf, -np.inf, 1e308, -1e308, 5e-324, 0.0, -0.0, 1e-300, 1e19, -1e19, 2.0 ** 31, -2.0 ** 31, 2.0 ** 63, 2.0 ** 64, 1e16, 1.0]


def odd(rng, n, p=0.3, s=0.6):
    a = rng.normal(size=n) * s
    m = rng.random(n) < p
    a[m] = rng.choice(ODD, int(m.sum()))
    return a


def extremes(c, rng, i):
    """Non-finite, huge and tiny numbers anywhere."""
    n = size(rng)
    k = i % 7
    if k == 0:
        s = c16.surface(rng)
        x, y = odd(rng, n), odd(rng, n)
        out = (s.sag(x, y), s.normal(x, y))
        nm = type(s).__name__
    elif k == 1:
        m = gen.medium(rng)
        w = np.abs(odd(rng, n, 0.3, 1e-6)) if rng.random() < 0.5 else odd(rng, n)
        out, nm = m.getN(w), type(m).__name__
    elif k == 2:
        o = gen.obsc(rng)
        out, nm = o.contains(odd(rng, n), odd(rng, n)), type(o).__name__
        if isinstance(o, batoid.ObscPolygon):
            out = (out, o.containsGrid(np.sort(odd(rng, n)), np.sort(odd(rng, 20))))
    elif k == 3:
        rv = batoid.RayVector(*[odd(rng, n, 0.1) for _ in range(7)], np.abs(odd(rng, n, 0.2, 1e-6)), odd(rng, n, 0.1), rng.random(n) < 0.2, rng.random(n) < 0.2)
        s = c16.surface(rng)
        kw = dict(coordSys=gen.csys(rng))
        m1, m2 = gen.medium(rng), gen.medium(rng)
        j = int(rng.integers(6))
        out = [lambda: s.intersect(rv, **kw), lambda: s.reflect(rv, **kw), lambda: s.refract(rv, m1, m2, **kw),
               lambda: s.rSplit(rv, m1, m2, gen.coating(rng), **kw), lambda: s.refractScreen(rv, c16.surface(rng), **kw),
               lambda: gen.obsc(rng).obscure(rv)][j]()
        nm = type(s).__name__ + str(j)
    elif k == 4:
        rv = batoid.RayVector(*[odd(rng, n, 0.1) for _ in range(7)], odd(rng, n, 0.2, 1e-6), odd(rng, n, 0.1), rng.random(n) < 0.2, rng.random(n) < 0.2)
        r = odd(rng, 3)
        out = (rv.phase(r, 0.1), rv.amplitude(r, float(odd(rng, 1)[0])), rv.positionAtTime(float(odd(rng, 1)[0])), rv.propagate(float(odd(rng, 1)[0])))
        nm = "waves"
    elif k == 5:      # parameters
        m = 2 + n % 30
        q = [lambda: batoid.Asphere(3.0, -1.0, odd(rng, m, 0.1)), lambda: batoid.Zernike(odd(rng, m, 0.1)),
             lambda: batoid.Bicubic(np.arange(m + 0.0), np.arange(4.0), odd(rng, 4 * m, 0.1).reshape(4, m)),
             lambda: batoid.TableMedium(np.sort(np.abs(odd(rng, m, 0.2, 1e-6))), odd(rng, m, 0.1)),
             lambda: batoid.ObscPolygon(odd(rng, 3 * m, 0.1), odd(rng, 3 * m, 0.1)),
             lambda: batoid.Bicubic(np.array([0.0, 1e-300]), np.array([0.0, 1e300]), odd(rng, 4).reshape(2, 2)),
             lambda: batoid.Quadric(*odd(rng, 2, 0.5)), lambda: batoid.Sphere(odd(rng, 1, 1.0)[0]), lambda: batoid.Tilted(*odd(rng, 2, 0.5))][rng.integers(9)]()
        g = np.sort(odd(rng, 40))
        out = (c16.probe(q), q.containsGrid(g, g) if isinstance(q, batoid.ObscPolygon) else 0, q.sag(g, g) if isinstance(q, batoid.Surface) else 0)
        out = tuple(sorted((a, b.tobytes()) for a, b in out[0].items())) + out[1:]
        nm = type(q).__name__
    else:
        t = batoid.CoordTransform(batoid.CoordSys(odd(rng, 3), gen.rot(rng)), gen.csys(rng))
        rv = c16.rays(rng, n)
        rv.coordSys = t.fromSys
        out = (t.applyForwardArray(*[odd(rng, n) for _ in range(3)]), t.applyForward(rv))
        nm = "transform"
    c.event()
    c.digest(result(out))
    c.label("extreme", nm, n)


def threads(c, rng, i):
    """Bundles of 0..40 rays on 1..33 threads."""
    G = batoid.global_vars
    was = G._batoid_max_threads
    try:
        G._batoid_max_threads = int(rng.choice([1, 2, 3, 5, 8, 17, 33]))
        n = int(rng.integers(0, 40))
        rv = c16.rays(rng, n)
        x = element_of(rng)
        a = x.trace(rv.copy())
        b = x.traceFull(rv)
        out = (a, rv.sumAmplitude([0, 0, 0.1], 0.3) if n < 2 else 0, rv.phase([0, 0, 0.1], 0.3))
    finally:
        G._batoid_max_threads = was
    c.event()
    c.digest(result(out))
    c.label("threads", n, type(x).__name__)


def element_of(rng):
    return c16.element(rng)


# ------------------------------------------------------------ wrong shapes
def small_grid(rng):
    nx, ny = [int(q) for q in rng.integers(0, 6, 2)]      # (sizes must agree with the coordinates: an existing test relies on that being unchecked)
    return batoid.Bicubic(np.arange(float(nx)), np.arange(float(ny)), rng.normal(size=(ny, nx)), *[
        rng.normal(size=(ny, nx)) if rng.random() < 0.3 else None for _ in range(3)], nanpolicy=str(rng.choice(["nan", "zero"])))


def degenerate(c, rng, i):
    """Sizes that fit nothing: an exception is an answer, a wild access is not."""
    z = lambda: rng.normal(size=tuple(int(q) for q in rng.choice([0, 1, 2, 3, 5, 9, 200], int(rng.choice([0, 1, 1, 1, 2, 2, 3])))))
    v = lambda: z() if rng.random() < 0.8 else rng.normal(size=int(rng.integers(0, 7)))
    makers = [
        ("Bicubic", lambda: small_grid(rng)),
        ("TableMedium", lambda: batoid.TableMedium(v(), v())), ("ObscPolygon", lambda: batoid.ObscPolygon(v(), v())),
        ("Zernike", lambda: batoid.Zernike(v())), ("Asphere", lambda: batoid.Asphere(1.0, 0.0, v())),
        ("Sum", lambda: batoid.Sum([gen.surf(rng)] * int(rng.integers(0, 3)))),
        ("ObscUnion", lambda: batoid.ObscUnion([gen.obsc(rng)] * int(rng.integers(0, 3)))),
        ("ObscIntersection", lambda: batoid.ObscIntersection([gen.obsc(rng)] * int(rng.integers(0, 3)))),
        ("Sellmeier", lambda: batoid.SellmeierMedium(v())), ("Sumita", lambda: batoid.SumitaMedium(v())),
        ("CoordSys", lambda: batoid.CoordSys(v(), z())), ("Lattice", lambda: batoid.Lattice(z(), z())),
        ("RayVector", lambda: batoid.RayVector(*[v()[:3] if rng.random() < 0.3 else 1.0 for _ in range(11)])),
        ("polygon.containsGrid", lambda: gen.obsc(rng, kind="ObscPolygon").containsGrid(v(), v())),
        ("sag", lambda: c16.surface(rng).sag(z(), z())), ("normal", lambda: c16.surface(rng).normal(z(), z())),
        ("getN", lambda: gen.medium(rng).getN(z())), ("contains", lambda: gen.obsc(rng).contains(z(), z())),
        ("transform", lambda: c16.transform(rng).applyForwardArray(z(), z(), z())),
        ("phase", lambda: c16.rays(rng).phase(v(), 0.1)), ("sumAmplitude", lambda: c16.rays(rng).sumAmplitude(v(), 0.1)),
        ("fromStop", lambda: batoid.RayVector.fromStop(v(), v(), wavelength=5e-7, theta_x=0.0, theta_y=0.0, flux=v())),
        ("asSpokes", lambda: batoid.RayVector.asSpokes(rings=v(), spokes=v(), outer=1.0, wavelength=5e-7, theta_x=0.0, theta_y=0.0)),
        ("asGrid", lambda: batoid.RayVector.asGrid(nx=int(rng.integers(0, 5)), lx=v(), flux=v(), wavelength=5e-7, theta_x=0.0, theta_y=0.0)),
        ("fromFieldAngles", lambda: batoid.RayVector.fromFieldAngles(v(), v(), wavelength=5e-7, flux=v())),
        ("index", lambda: c16.rays(rng)[z().astype(int)]),
    ]
    nm, fn = makers[i % len(makers)]
    how = "made"
    try:
        x = fn()
        if hasattr(x, "__dict__"):
            q = c16.probe(x)
            if isinstance(x, batoid.ObscPolygon):
                x.containsGrid(np.arange(4.0), np.arange(5.0))
        else:
            how = str(np.shape(x))
    except Exception as e:
        how = type(e).__name__
    c.event()
    c.label("degenerate", nm, how)


CASES = [
    ("layouts", layouts, 2400, 60000, BOTH),
    ("lifetimes", lifetimes, 500, 12000, BOTH),
    ("extremes", extremes, 2000, 60000, BOTH),
    ("threads", threads, 200, 4000, BOTH),
    ("degenerate", degenerate, 1600, 40000, ("asan",)),
    ("reuse", reuse, 700, 30000, ("asan",)),
]
