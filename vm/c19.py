"""C19: wave numbers, phases, amplitudes and sums of plane waves, and propagation, in long double."""
import numpy as np
import batoid
from . import gen, mon, ref

L = np.longdouble
E = 2.0 ** -52
PI2 = 2 * L("3.14159265358979323846264338327950288")


def bundle(rng, n=None):
    """Rays of any speed, scale, frame; some vignetted, some failed (a few of those with no coordinates at all)."""
    n = int(rng.choice([0, 1, 2, 7, 33, 200])) if n is None else n
    sc = 10.0 ** rng.uniform(-3, 2)
    d = rng.normal(size=(n, 3))
    d /= np.linalg.norm(d, axis=1)[:, None] if n else 1
    sp = rng.choice([1.0, rng.uniform(0.4, 1.0)]) if rng.random() < 0.5 else rng.uniform(0.3, 1.0, (n, 1))
    fail = rng.random(n) < 0.1
    vig = fail | (rng.random(n) < 0.2)
    if rng.random() < 0.1:
        vig[:] = True
    if rng.random() < 0.05:
        fail[:] = vig[:] = True
    r, v = rng.normal(size=(n, 3)) * sc, d * sp
    w = rng.uniform(3e-7, 1.1e-6, n) * (1 if rng.random() < 0.8 else 10.0 ** rng.uniform(0, 6))
    t = rng.normal(size=n) * sc
    lost = fail & (rng.random(n) < 0.5)
    r[lost] = v[lost] = np.nan
    return gen.build(r, v, t, w, rng.uniform(-0.5, 2, n) if rng.random() < 0.3 else rng.uniform(0, 2, n), vig, fail, gen.csys(rng))


def phases(b, R, t):
    """Reference phases and the rounding they carry in double."""
    r, v = ref.ld(b["r"]), ref.ld(b["v"])
    d = ref.ld(R) - r
    v2 = np.sum(v * v, -1)
    path = np.sum(d * v, -1) / v2
    ph = (path - (L(t) - ref.ld(b["t"]))) * PI2 / ref.ld(b["w"])
    size = np.sum(np.abs(d * v), -1) / v2 + np.abs(ref.ld(R)).max() * np.sqrt(1 / v2) + np.abs(r).max(-1, initial=0) * np.sqrt(1 / v2) \
        + abs(t) + np.abs(b["t"])
    tol = 8 * E * (size * PI2 / b["w"] + 1)
    return ph, tol.astype(float)


def where(rng, b):
    sc = max(1e-3, float(np.nanmax(np.abs(b["r"]), initial=0)))
    R = rng.normal(size=3) * sc
    t = float(rng.normal() * sc)
    k = rng.integers(5)
    if k == 0:
        return [float(q) for q in R], t
    if k == 1:
        return tuple(R), int(np.round(t))
    if k == 2:
        return np.round(R).astype(int), t
    return R, t


def waves(c, rng, i):
    """One bundle questioned at random points and times."""
    rv = bundle(rng)
    b = mon.snap(rv)
    n = len(rv)
    with np.errstate(all="ignore"):
        v2 = np.sum(ref.ld(b["v"]) ** 2, -1)
        k = PI2 * ref.ld(b["v"]) / v2[:, None] / ref.ld(b["w"])[:, None]
        kk = k.astype(float)
        mag = np.sqrt(np.sum(k * k, -1)).astype(float)
    c.close(rv.k, kk, "k", rtol=1e-14, atol=1e-15 * mag[:, None] if n else 0, nan_ok=True)
    for q, a in zip((rv.kx, rv.ky, rv.kz), kk.T):
        c.close(q, a, "k-component", rtol=1e-14, atol=1e-15 * mag if n else 0, nan_ok=True)
    c.close(rv.omega, (PI2 / ref.ld(b["w"])).astype(float), "omega", rtol=1e-15)
    for _ in range(2):
        R, t = where(rng, b)
        ph, tol = phases(b, R, t)
        p = rv.phase(R, t)
        a = rv.amplitude(R, t)
        c.ok(p.shape == (n,) and a.shape == (n,) and np.iscomplexobj(a), "shape")
        with np.errstate(all="ignore"):
            c.close(p, ph.astype(float), "phase", atol=np.where(np.isfinite(tol), tol, 0), nan_ok=True)
            w = (np.cos(ph) + 1j * np.sin(ph)).astype(complex)
        fin = np.isfinite(w)
        c.close(a[fin], w[fin], "amplitude", atol=tol[fin] + 4 * E)
        c.ok(not np.isfinite(a[~fin]).any(), "amplitude:nan")
        for flag in (True, False, None):
            s = rv.sumAmplitude(R, t) if flag is None else (
                rv.sumAmplitude(R, t, flag) if rng.random() < 0.5 else rv.sumAmplitude(R, t, ignoreVignetted=flag))
            use = ~b["fail"] & (~b["vig"] | (flag is False))
            want = complex(np.sum(w[use] * b["f"][use]))
            st = float(np.sum((tol[use] + (4 + n) * E) * np.abs(b["f"][use])))
            c.close(np.array([s.real, s.imag]), np.array([want.real, want.imag]), "sum", atol=2 * st + 1e-300,
                    msg="ignoreVignetted=%s, %d of %d rays" % (flag, use.sum(), n))
        # linear in flux: splitting the bundle splits the sum
        if n > 1:
            m = int(rng.integers(1, n))
            s1, s2, s = rv[:m].sumAmplitude(R, t), rv[m:].sumAmplitude(R, t), rv.sumAmplitude(R, t)
            tot = float(np.sum(np.abs(b["f"])))
            c.close(np.array([(s1 + s2).real, (s1 + s2).imag]), np.array([s.real, s.imag]), "sum:parts", atol=1e-14 * tot + 1e-300)
    after = mon.snap(rv)
    same(c, after, b, "asking-changes-rays")
    c.label("waves", n, int(b["fail"].sum() > 0), int(b["vig"].all()) if n else 2, int(np.log10(b["w"].max(initial=1e-6))))
    c.sample(n=n, failed=int(b["fail"].sum()), vignetted=int(b["vig"].sum()))


def same(c, a, b, tag):
    for q in ("r", "v", "t", "w", "f", "vig", "fail"):
        c.equal(a[q], b[q], tag)
    c.ok(a["cs"] == b["cs"], tag)


def propagation(c, rng, i):
    """A history of propagations: each lands where it should, nothing else changes, phases stay."""
    rv = bundle(rng)
    b0 = mon.snap(rv)
    R, T = where(rng, b0)
    for step in range(int(rng.integers(1, 5))):
        b = mon.snap(rv)
        sc = max(1e-3, float(np.nanmax(np.abs(b["r"]), initial=0)))
        t = float(rng.choice([0.0, rng.normal() * sc, rng.normal() * sc * 100]))
        if rng.random() < 0.2:
            t = int(np.round(t))
        dt = L(t) - ref.ld(b["t"])
        want = ref.ld(b["r"]) + ref.ld(b["v"]) * dt[:, None]
        tol = 4 * E * (np.abs(b["r"]) + np.abs(b["v"]) * (abs(t) + np.abs(b["t"]))[:, None])
        tol = np.where(np.isfinite(tol), tol, 0)
        with np.errstate(all="ignore"):
            c.close(rv.positionAtTime(t), want.astype(float), "position", atol=tol, nan_ok=True)
        same(c, mon.snap(rv), b, "position-changes-rays")
        q = rv.propagate(t)
        c.ok(q is rv, "propagate:result", "not the same object")
        a = mon.snap(rv)
        with np.errstate(all="ignore"):
            c.close(a["r"], want.astype(float), "propagate", atol=tol, nan_ok=True)
        c.equal(a["t"], np.full(len(rv), float(t)), "propagate:time")
        for k in ("v", "w", "f", "vig", "fail"):
            c.equal(a[k], b[k], "propagate:" + k)
        c.ok(a["cs"] == b["cs"], "propagate:frame")
        # the wave each ray stands for has not moved
        ph, t0 = phases(b, R, T)
        ph2, t1 = phases(a, R, T)
        got = rv.phase(R, T)
        with np.errstate(all="ignore"):
            moved = (tol.sum(-1) + 8 * E * abs(t)) * 8 / b["w"] / np.sqrt(np.sum(b["v"] ** 2, -1))
            at = t0 + t1 + moved
            c.close(got, ph.astype(float), "phase-after-propagation", atol=np.where(np.isfinite(at), at, 0), nan_ok=True)
    c.label("propagation", len(rv), step)


def wavefronts(c, rng, i):
    """Generated plane and spherical waves are in phase: every ray of the bundle gives the same phase."""
    m = gen.medium(rng)
    wl = float(rng.uniform(3.5e-7, 9e-7))
    cs = gen.csys(rng)
    kw = dict(wavelength=wl, medium=m, coordSys=cs, backDist=float(rng.uniform(0, 5)),
              stopSurface=batoid.Interface(gen.surf(rng, str(rng.choice(["Plane", "Sphere", "Tilted"])), 3.0, True), coordSys=gen.csys(rng)))
    src = rng.random() < 0.4
    if src:
        S = rng.normal(size=3) * 5 + [0, 0, 20]
        kw["source"] = S
    else:
        kw["dirCos"] = rng.normal(size=3)
    rv = batoid.RayVector.asPolar(outer=1.0, nrad=3, naz=9, **kw)
    if rng.random() < 0.5:
        rv.propagate(float(rng.normal()))
    if src:
        R = (S - cs.origin) @ cs.rot
    else:
        R = rng.normal(size=3)
    T = float(rng.normal())
    ph = rv.phase(R, T)
    b = mon.snap(rv)
    _, tol = phases(b, R, T)
    size = 60 + np.abs(b["r"]).max()
    at = tol.max() * 4 + 100 * E * size * 2 * np.pi / wl * 2
    c.close(ph, np.full(len(rv), ph[0]), "in-phase", atol=at, msg="source" if src else "plane wave")
    s = rv.sumAmplitude(R, T)
    c.close(abs(s), float(np.sum(b["f"])), "coherent", atol=float(np.sum(b["f"]) * at))
    c.label("wavefronts", src, type(m).__name__)


CASES = [
    ("waves", waves, 1500, 60000),
    ("propagation", propagation, 1000, 40000),
    ("wavefronts", wavefronts, 400, 15000),
]
