"""C23: lattice coordinates, and point spread functions against direct coherent sums in long double."""
import numpy as np
import batoid
from . import gen, mon, ref
from . import c21

L = np.longdouble
PI2 = 2 * L("3.14159265358979323846264338327950288")


def lattices(c, rng, i):
    """Coordinates of lattices of any dimension, shape and (skewed) vectors."""
    d = int(rng.choice([1, 2, 2, 2, 3, 4]))
    shape = tuple(int(q) for q in rng.integers(1, 9 if d > 2 else 20, d))
    kind = int(rng.integers(5))
    P = rng.normal(size=(d, d)) * 10.0 ** rng.uniform(-7, 3)
    if kind == 0:
        P = np.diag(np.diag(P))
    if kind == 1:
        P = np.tril(P)
    a = rng.normal(size=shape)
    a = [a, a + 1j, a.astype(np.float32), (a * 10).astype(int), np.ma.masked_array(a, mask=a > 1)][rng.integers(5)]
    arg = P if rng.random() < 0.5 else P.tolist()
    if d == 1 and rng.random() < 0.5:
        arg = [float(P[0, 0])] if rng.random() < 0.5 else P[0]
    if kind == 2:
        arg = [list(map(int, r)) for r in np.round(P / np.abs(P).max() * 20)]
        P = np.array(arg, float)
    la = batoid.Lattice(a, arg)
    c.close(la.primitiveVectors, P, "vectors", rtol=1e-15)
    co = la.coords
    c.ok(co.shape == shape + (d,), "coords:shape", lambda: "%s for %s" % (co.shape, shape))
    want = np.zeros(shape + (d,), L)
    for ax, n in enumerate(shape):
        m = (np.arange(n) - n // 2).reshape([-1 if q == ax else 1 for q in range(d)])
        want = want + m[..., None] * ref.ld(P[ax])
    c.close(co, want.astype(float), "coords", atol=1e-14 * float(np.abs(P).max()) * sum(shape))
    c.equal(co[tuple(n // 2 for n in shape)], np.zeros(d), "coords:centre")
    c.equal(np.ma.getdata(la.array), np.ma.getdata(a), "array")
    # one step along any axis is that primitive vector
    for ax in range(d):
        if shape[ax] > 1:
            s = np.diff(co, axis=ax).reshape(-1, d)
            c.close(s, np.broadcast_to(P[ax], s.shape), "coords:step", atol=1e-13 * float(np.abs(P).max()) * sum(shape))
    got = batoid.lattice.primitiveToLattice(P, shape)
    c.equal(got, co, "primitiveToLattice")
    if rng.random() < 0.3:
        bad = rng.normal(size=(d + 1, d + 1)) if rng.random() < 0.5 or d == 1 else rng.normal(size=(d, d - 1))
        c.raises(ValueError, lambda: batoid.Lattice(a, bad), "mismatch", "%s with %s" % (shape, bad.shape))
    c.label("lattice", d, shape if d < 3 else len(shape), kind)
    c.sample(shape=shape, vectors=P)


def reciprocal(c, X, K, N, tag):
    """X[i] . K[j] = 2 pi delta_ij / N: samples X resolve the pupil samples K on N points."""
    G = ref.ld(X) @ ref.ld(K).T * N / PI2
    s = float(np.abs(X).max() * np.abs(K).max()) * N / 6.28
    c.close(G.astype(float), np.eye(2), tag, atol=1e-11 * (1 + s))


def setup(rng, small=True):
    nm, T, th, wl = c21.system(rng)
    kw, proj = c21.kwargs(rng)
    rf = c21.pick_ref(rng, kw)
    nx = int(rng.integers(5, 15))
    return nm, T, th, wl, kw, proj, rf, nx


def huygens(c, rng, i):
    nm, T, th, wl, kw, proj, rf, nx = setup(rng)
    g = c21.grid(T, th, proj, wl, nx)
    rv = T.trace(g.copy())
    good = ~rv.vignetted
    if rf == "mean":
        if not good.any():
            c.event()
            return
        pt = np.mean(rv.r[good], 0)
    else:
        ch = c21.chief(T, wl, th, proj)
        if ch.failed[0]:
            c.event()
            return
        pt = ch.r[0]
    form = int(rng.integers(5))
    d = 1e-6 * 10.0 ** rng.uniform(-0.5, 1)
    pad, X = 1, None
    if form == 0:
        pad = 2
    elif form == 1:
        kw["dx"] = d
        X = np.diag([d, d])
    elif form == 2:
        kw.update(dx=d, dy=2 * d)
        X = np.diag([d, 2 * d])
    else:
        X = rng.normal(size=(2, 2)) * d
        kw.update(dx=X[0] if form == 3 else X[0].tolist(), dy=X[1] if form == 3 else X[1].tolist())
    n = nx
    if rng.random() < 0.5:
        kw["nxOut"] = n = int(rng.integers(1, 14))
    out = batoid.analysis.huygensPSF(T, float(th[0]), float(th[1]), wl, nx=nx, **kw)
    N = n * pad
    c.ok(isinstance(out, batoid.Lattice) and out.array.shape == (N, N), "huygens:shape", lambda: "%s / %d" % (out.array.shape, N))
    if X is not None:
        c.close(out.primitiveVectors, X, "huygens:vectors", rtol=1e-15)
    else:
        u = T.pupilSize / (nx - 2 if nx % 2 == 0 else nx - 1)
        J = batoid.analysis.dkdu(T, float(th[0]), float(th[1]), wl, projection=proj)
        reciprocal(c, out.primitiveVectors, J * u, 2 * nx, "huygens:reciprocal")
    c.ok(np.isrealobj(out.array) and np.all(out.array >= 0), "huygens:negative")
    # the coherent sum over the rays that get through, at the reported coordinates (stored [y, x])
    r, v, t = (ref.ld(q[good]) for q in (rv.r, rv.v, rv.t))
    k = PI2 * v / np.sum(v * v, -1)[:, None] / L(wl)
    xy = ref.ld(out.primitiveVectors)
    m = np.arange(N) - N // 2
    x = m[None, :, None] * xy[0] + m[:, None, None] * xy[1]       # [row, column] -> column steps along the first vector
    x = x + ref.ld(pt[:2])
    pts = np.concatenate([x.reshape(-1, 2), np.zeros((N * N, 1), L)], 1)
    if not good.any():
        c.equal(out.array, np.zeros((N, N)), "huygens:dark")
        return
    own = np.sum(k * r, -1) - PI2 / L(wl) * t
    ph = pts @ k.T - (own - own[0])
    A = np.sum(rv.flux[good] * np.exp(1j * np.mod(ph, PI2).astype(float)), -1)
    want = np.abs(A) ** 2
    tot = float(np.sum(rv.flux[good])) ** 2
    s = float(np.abs(own).max()) + float(np.abs(t).max() * PI2 / wl) + float(np.abs(pts).max() * np.abs(k).max())
    c.close(out.array.ravel(), want, "huygens:intensity", atol=tot * (64 * 2.0 ** -52 * s + 1e-9), msg="%s nx=%d form=%d %s" % (nm, nx, form, rf))
    c.label("huygens", nm, form, nx, rf, n)
    c.sample(system=nm, form=form, nx=nx, nxOut=n)


def fourier(c, rng, i):
    nm, T, th, wl, kw, proj, rf, nx = setup(rng)
    nx = int(rng.integers(5, 26))
    R = c21.pick_radius(rng, kw, T)
    m = c21.reference_map(T, th, proj, wl, nx, R, rf)
    if m is None:
        c.event()
        return
    W, mask, tol, g, rv, pt = m
    pad = 2
    if rng.random() < 0.7:
        kw["pad_factor"] = pad = int(rng.integers(1, 5))
    out = batoid.analysis.fftPSF(T, float(th[0]), float(th[1]), wl, nx=nx, **kw)
    N = nx * pad
    c.ok(isinstance(out, batoid.Lattice) and out.array.shape == (N, N), "fft:shape", lambda: "%s / %d" % (out.array.shape, N))
    u = T.pupilSize / (nx - 2 if nx % 2 == 0 else nx - 1)
    J = batoid.analysis.dkdu(T, float(th[0]), float(th[1]), wl, projection=proj)
    reciprocal(c, out.primitiveVectors, J * u, N, "fft:reciprocal")
    a = np.asarray(out.array)
    c.ok(np.isrealobj(a) and np.all(a >= 0) and np.isfinite(a).all(), "fft:negative")
    n = int((~mask).sum())
    c.close(np.sum(a), float(n) * N * N, "fft:parseval", rtol=1e-10)
    # the transform, summed directly: rows of the pupil are y, columns x, both centred
    E = np.where(mask, 0, np.exp(2j * np.pi * np.where(mask, 0, W))).reshape(nx, nx)
    f = np.arange(N) - N // 2
    p = np.arange(nx)
    F = np.exp(-2j * np.pi * np.outer(f, p) / N)
    want = np.abs(F @ E @ F.T) ** 2
    at = n * n * (4 * np.pi * tol + 1e-9) + 1e-9
    c.close(a, want, "fft:intensity", atol=at, msg="%s nx=%d pad=%d %s" % (nm, nx, pad, rf))
    c.label("fft", nm, nx, pad, rf, int(10 * mask.mean()))


def agreement(c, rng, i):
    """Direct and Fourier computations agree where they sample the same points, in well corrected slow systems."""
    T, o = c21.ideal(rng)
    while o["kind"] in (2, 4):
        T, o = c21.ideal(rng)
    if rng.random() < 0.7:      # an asymmetric aberration and a field angle make orientation visible
        q = T.items[0]
        co = np.zeros(12)
        co[rng.integers(4, 12, 3)] = rng.normal(size=3) * 0.15 * 5e-7
        T = T.withSurface("M1", batoid.Sum([q.surface, batoid.Zernike(co, R_outer=o["D"] / 2)]))
    th = rng.normal(size=2) * 1e-3 * rng.choice([0, 1])
    wl = float(rng.uniform(5e-7, 9e-7))
    nx = int(rng.integers(12, 25))
    kw = {}
    if rng.random() < 0.5:
        kw["reference"] = str(rng.choice(["chief", "mean"]))
    a = batoid.analysis.fftPSF(T, float(th[0]), float(th[1]), wl, nx=nx, **kw)
    b = batoid.analysis.huygensPSF(T, float(th[0]), float(th[1]), wl, nx=nx, **kw)
    c.close(a.primitiveVectors, b.primitiveVectors, "agree:vectors", rtol=1e-9, atol=1e-12 * float(np.abs(b.primitiveVectors).max()))
    pa, pb = np.asarray(a.array), np.asarray(b.array)
    # the centre of the pattern, where most light is
    k = nx // 2
    s = slice(nx - k // 2, nx + k // 2 + 1)
    pk = pb.max()
    x, y = pa[s, s].ravel(), pb[s, s].ravel()
    cor = float(x @ y / np.sqrt((x @ x) * (y @ y)))
    c.ok(cor > (0.75 if o["kind"] == 3 else 0.95), "agree", lambda: "correlation %g: %s nx=%d %s" % (cor, o, nx, kw))
    lim = pb > 0.02 * pb.max()
    c.label("agree", o["kind"], nx, kw.get("reference"), int(lim.sum()) // 4)


def perfect(c, rng, i):
    """A perfect on-axis system puts the peak, of the full coherent height, at the centre of the lattice."""
    T, o = c21.ideal(rng)
    wl = float(rng.uniform(5e-7, 9e-7))
    nx = int(rng.integers(6, 25))
    pad = int(rng.integers(1, 4))
    m = c21.reference_map(T, (0.0, 0.0), "postel", wl, nx, T.sphereRadius, "chief")
    n = int((~m[1]).sum())
    a = np.asarray(batoid.analysis.fftPSF(T, 0.0, 0.0, wl, nx=nx, pad_factor=pad).array)
    N = nx * pad
    c.close(a[N // 2, N // 2], float(n * n), "perfect:peak", rtol=1e-4)
    c.ok(a.max() <= a[N // 2, N // 2] * (1 + 1e-6), "perfect:centre")
    if rng.random() < 0.4:
        k = int(rng.integers(3, 10))
        b = np.asarray(batoid.analysis.huygensPSF(T, 0.0, 0.0, wl, nx=nx, nxOut=k, dx=float(wl * o["f"] / o["D"] / 4)).array)
        c.close(b[k // 2, k // 2], float(n * n), "perfect:huygens-peak", rtol=1e-4)
        c.ok(b.max() <= b[k // 2, k // 2] * (1 + 1e-6), "perfect:huygens-centre")
    c.label("perfect", o["kind"], nx, pad)


CASES = [
    ("lattices", lattices, 1500, 40000),
    ("huygens", huygens, 120, 3000),
    ("fourier", fourier, 120, 3000),
    ("agreement", agreement, 60, 1500),
    ("perfect", perfect, 60, 1500),
]
