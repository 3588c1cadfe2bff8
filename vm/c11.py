"""C11: refractive indices against the documented formulas in long double."""
import copy
import glob
import pickle
import os
import numpy as np
import batoid
from . import gen, mon, ref


def tol(m, w):
    """Rounding of double precision, amplified near poles and cancellations of the dispersion formulas."""
    t = type(m).__name__
    n = np.abs(ref.index(m, w).astype(float))
    base = 4e-15 * (1 + n)
    with np.errstate(all="ignore"):
        if t == "TableMedium":
            h = np.abs(np.diff(m.ns)).max(initial=0)
            base = base + 1e-14 * h
        if t == "SellmeierMedium":
            x = (np.asarray(w, float) * 1e6) ** 2
            B, C = m.coefs[:3], m.coefs[3:]
            amp = sum(np.abs(B[k] * x / (x - C[k])) * (1 + np.abs(x + C[k]) / np.abs(x - C[k])) for k in range(3))
            base = base + 4e-15 * amp / np.maximum(n, 1e-3)
        if t == "Air":
            s2 = 1 / (np.asarray(w, float) * 1e6) ** 2
            base = base + 1e-15 * (29498.1 * (146 + s2) / (146 - s2) ** 2 + 255.4 * (41 + s2) / (41 - s2) ** 2) * 1e-6 * (1 + m.pressure / 100)
        if t == "SumitaMedium":
            x = (np.asarray(w, float) * 1e6) ** 2
            A = m.coefs
            amp = np.abs(A[0]) + np.abs(A[1]) * x + sum(np.abs(A[k]) / x ** (k - 1) for k in range(2, 6))
            base = base + 1e-14 * amp / np.maximum(n, 1e-3)
    return base


def judge(c, m, w, tag):
    got = np.asarray(m.getN(w))
    want = ref.index(m, w).astype(float)
    c.ok(got.shape == np.shape(w), tag + ":shape", "%s for %s" % (got.shape, np.shape(w)))
    c.ok(got.dtype == float, tag + ":dtype", str(got.dtype))
    with np.errstate(all="ignore"):
        c.close(got, want, tag, atol=np.broadcast_to(tol(m, np.asarray(w, float)), got.shape), nan_ok=True, msg=repr(m)[:400])
    return got


def asked(rng, m, n):
    """Wavelengths worth asking for."""
    w = rng.uniform(250e-9, 1300e-9, n)
    if type(m).__name__ == "TableMedium":
        ws = m.wavelengths
        lo, hi = ws[0], ws[-1]
        e = np.concatenate([ws, np.nextafter(ws, -1), np.nextafter(ws, 1), (ws[1:] + ws[:-1]) / 2])
        w = np.concatenate([rng.uniform(lo, hi, n), rng.choice(e, n), [lo, hi, lo * (1 - 1e-15), hi * (1 + 1e-15), lo / 2, hi * 2, 0.0, -1e-6]])
    elif rng.random() < 0.3:
        w = 10 ** rng.uniform(-7, -5, n)
    return w


def media(c, rng, i):
    kind = ["Const", "Table", "Table", "Sellmeier", "Sumita", "Air"][i % 6]
    m = gen.medium(rng, kind)
    w = asked(rng, m, 40)
    got = judge(c, m, w, kind)
    form = (i // 6) % 6
    if form == 0:
        for j in rng.integers(0, len(w), 10):
            g = m.getN(float(w[j]))
            c.ok(np.ndim(g) == 0, "scalar:shape")
            c.equal(g, got[j], "scalar")
    elif form == 1:
        k = len(w) // 4 * 4
        c.equal(m.getN(w[:k].reshape(2, 2, -1)[::-1]), got[:k].reshape(2, 2, -1)[::-1], "nd")
        c.equal(m.getN(w[::-2]), got[::-2], "strided")
        c.equal(m.getN(np.asfortranarray(w[:k].reshape(4, -1))), got[:k].reshape(4, -1), "fortran")
    elif form == 2:
        c.equal(m.getN(list(w)), got, "list")
        c.ok(np.shape(m.getN(np.zeros((0, 3)))) == (0, 3), "empty")
    elif form == 3:
        for q in (copy.copy(m), copy.deepcopy(m), pickle.loads(pickle.dumps(m))):
            c.equal(q.getN(w), got, "copies")
    elif form == 4:
        # rays carry the index of their own wavelength
        v = np.concatenate([w[np.isfinite(got) & (w > 0)][:20], w[:2]])
        n = len(v)
        rv = gen.build(np.c_[rng.normal(size=(n, 2)) * 0.1, np.full(n, 1.0)], np.tile([0, 0, -1.0], (n, 1)), np.zeros(n), v, np.ones(n))
        batoid.Plane().refract(rv, batoid.ConstMedium(1.0), m)
        sp = np.linalg.norm(rv.v, axis=1)
        want = ref.index(m, v).astype(float)
        u = np.isfinite(want) & (want >= 1)
        c.close(sp[u] * want[u], 1.0, "rays", atol=1e-12)
        c.ok(not np.any(~np.isfinite(want) & ~rv.failed), "rays:invented", "a ray without an index goes on")
    else:
        c.equal(m.getN(w), got, "again")
    c.label(kind, form, int(np.isnan(got).sum()) > 0, len(getattr(m, "wavelengths", ())))
    c.sample(medium=repr(m)[:200], wavelength=w[0], n=got[0])


def tables(c, rng, i):
    """Tables of any size, spacing and type."""
    n = int(rng.choice([1, 2, 3, 5, 30, 300]))
    mode = i % 5
    if mode == 0:
        w = np.linspace(300e-9, 1100e-9, n) if n > 1 else np.array([5e-7])
    elif mode == 1:
        w = np.sort(10 ** rng.uniform(-7, -5, n))
    elif mode == 2:
        w = np.arange(1, n + 1)                  # integers, any unit
    elif mode == 3:
        w = np.cumsum(10.0 ** rng.uniform(-12, -7, n)) + 3e-7
    else:
        w = np.linspace(1, 2, n).astype(np.float32)
    w = np.unique(w)
    n = len(w)
    ns = (1 + rng.integers(0, 3, n)) if i % 3 == 0 else rng.uniform(1, 2.5, n)
    form = (i // 5) % 5
    ww, nn = w, ns
    if form == 1:
        ww, nn = w.tolist(), tuple(ns.tolist())
    elif form == 2:
        ww, nn = np.repeat(w, 2)[::2], np.stack([ns, -ns], axis=1)[:, 0]
    elif form == 3:
        ww, nn = w[::-1].copy()[::-1], ns[::-1].copy()[::-1]
    m = batoid.TableMedium(ww, nn)
    wf, nf = np.asarray(w, float), np.asarray(ns, float)
    c.equal(m.getN(wf), nf, "nodes", "%s" % repr(m)[:300])
    if n > 1:
        q = asked(rng, m, 60)
        got = judge(c, m, q, "table")
        ins = (q >= wf[0]) & (q <= wf[-1])
        c.equal(np.isnan(got), ~ins, "outside")
        k = np.clip(np.searchsorted(wf, q[ins], side="right") - 1, 0, n - 2)
        lo, hi = np.minimum(nf[k], nf[k + 1]), np.maximum(nf[k], nf[k + 1])
        c.ok(np.all((got[ins] >= lo - 1e-14 * (1 + hi)) & (got[ins] <= hi + 1e-14 * (1 + hi))), "between", "not between its neighbours")
        # independent interpolation
        c.close(got[ins], np.interp(q[ins], wf, nf), "interp", rtol=1e-12)
    c.ok(np.isnan(m.getN(np.nan)), "nan")
    c.label("table", n, mode, form, i % 3 == 0)


def forms(c, rng, i):
    """All ways of giving coefficients build the same medium."""
    co = rng.uniform(0.1, 1.5, 6)
    co[3:] *= [0.01, 0.02, 90]
    w = rng.uniform(400e-9, 1000e-9, 20)
    if i % 2:
        cls, names = batoid.SellmeierMedium, ["B1", "B2", "B3", "C1", "C2", "C3"]
    else:
        cls, names = batoid.SumitaMedium, ["A0", "A1", "A2", "A3", "A4", "A5"]
        co = np.array([2.2, -0.01, 0.01, 1e-4, 1e-6, 1e-8]) * rng.uniform(0.5, 1.5, 6)
    a = judge(c, cls(co), w, "array")
    c.equal(cls(*co).getN(w), a, "args")
    c.equal(cls(list(co)).getN(w), a, "list")
    perm = rng.permutation(6)
    c.equal(cls(**{names[k]: co[k] for k in perm}).getN(w), a, "keywords")
    # air with defaults and in every combination of keywords
    kw = dict(pressure=rng.uniform(10, 110), temperature=rng.uniform(220, 330), h2o_pressure=rng.uniform(0, 3))
    if rng.random() < 0.3:      # thin or dry air, and none
        kw[str(rng.choice(["pressure", "h2o_pressure"]))] = float(rng.choice([0.0, 10.0 ** rng.uniform(-7, 0)]))
    kw = {k: v for k, v in kw.items() if rng.random() < 0.7}
    judge(c, batoid.Air(**kw), w, "air")
    c.label("forms", i % 2, sorted(kw))


def shipped(c, rng, i):
    """Shipped tables and the media of shipped telescopes."""
    files = sorted(glob.glob(os.path.join(gen.D, "**", "*_dispersion.txt")))
    f = files[i % len(files)]
    data = np.loadtxt(f)
    m = batoid.TableMedium.fromTxt(os.path.basename(f)) if i % 4 < 2 else batoid.TableMedium.fromTxt(f)
    c.equal(m.getN(data[:, 0] * 1e-6), data[:, 1], "file-nodes", f)
    q = rng.uniform(data[0, 0], data[-1, 0], 50) * 1e-6
    c.close(m.getN(q), np.interp(q, data[:, 0] * 1e-6, data[:, 1]), "file-interp", rtol=1e-12)
    c.raises(FileNotFoundError, lambda: batoid.TableMedium.fromTxt("no_such_dispersion.txt"), "missing-file")
    nm, tel = gen.pick_scope(rng)
    its = gen.interfaces(tel)
    e = its[rng.integers(len(its))]
    for md in (e.inMedium, e.outMedium):
        judge(c, md, rng.uniform(300e-9, 1100e-9, 30), "telescope")
        c.label("shipped", nm, type(md).__name__)
    c.label("file", os.path.basename(f))


CASES = [
    ("media", media, 1500, 40000),
    ("tables", tables, 900, 20000),
    ("forms", forms, 200, 4000),
    ("shipped", shipped, 80, 1000),
]
