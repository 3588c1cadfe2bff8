"""C18: every conversion between field angles and direction cosines against the definition of its projection."""
import numpy as np
import batoid
from batoid import utils
from . import ref

E = 2.0 ** -52
TO = {p: getattr(utils, p + "ToDirCos") for p in ref.PROJECTIONS}
FROM = {p: getattr(utils, "dirCosTo" + p.capitalize()) for p in ref.PROJECTIONS}
# furthest distance from the tangent point each projection is defined for (zemax: per axis)
REACH = dict(postel=np.pi, zemax=np.pi / 2, gnomonic=50.0, stereographic=20.0, lambert=2.0, orthographic=1.0)


def angles(rng, p, n):
    """Field angles over the whole domain: zero, tiny, axis-aligned, moderate and near the edge."""
    top = REACH[p]
    mode = rng.integers(6)
    if mode == 0:
        r = 10.0 ** rng.uniform(-200, -3, n)
    elif mode == 1:
        r = top * (1 - 10.0 ** rng.uniform(-9, -1, n))
    elif mode == 2:
        r = np.minimum(10.0 ** rng.uniform(-8, 0, n), top * 0.9)
    else:
        r = top * 0.98 * np.sqrt(rng.random(n))
    th = rng.uniform(0, 2 * np.pi, n)
    u, v = r * np.cos(th), r * np.sin(th)
    if mode == 4:
        u[:] = 0.0
    if mode == 5:
        v[:] = -0.0
    if n and rng.random() < 0.3:
        u[rng.integers(n)] = v[rng.integers(n)] = 0.0
        k = rng.integers(n)
        u[k] = v[k] = 0.0
    return u, v, "tiny edge log mid axis axis".split()[mode]


def shaped(rng, u, v):
    """The same values in one of the accepted argument forms; returns the arguments and the expected shape."""
    k = int(rng.integers(7))
    n = len(u)
    if k == 0:
        return (float(u[0]), float(v[0])), (u[0], v[0]), "float"
    if k == 1:
        return (np.float64(u[0]), np.float64(v[0])), (u[0], v[0]), "np.float64"
    if k == 2:
        return (u, v), (u, v), "1d"
    if k == 3:
        m = n // 2 * 2
        a, b = u[:m].reshape(2, -1), v[:m].reshape(2, -1)
        return (a, b), (a, b), "2d"
    if k == 4:
        a, b = np.asfortranarray(np.stack([u, v])), np.stack([u, v], 1)
        return (a[0], b[:, 1]), (u, v), "strided"
    if k == 5:
        return (u[:0], v[:0]), (u[:0], v[:0]), "empty"
    return (u[:1].copy(), v[:1].copy()), (u[:1], v[:1]), "one"


def tol_forward(p, a, b, g):
    t = np.full(np.shape(a), 8 * E)
    if p == "orthographic":
        with np.errstate(all="ignore"):
            return t, t + 4 * E / np.maximum(np.abs(np.float64(g)), 1e-9)
    if p == "lambert":
        # sqrt(1 - rho^2/4) near the far edge, where rho^2/4 is rounded
        return t + 4 * E / np.sqrt(np.maximum((1 - np.float64(g)) / 2, 1e-15)), t
    return t, t


def forward(c, rng, i):
    """Angles to direction cosines and back."""
    p = ref.PROJECTIONS[i % 6]
    u, v, mode = angles(rng, p, int(rng.integers(2, 40)))
    args, (u, v), form = shaped(rng, u, v)
    if rng.random() < 0.15 and form == "1d":
        args = (args[0], float(v[0]))
        v = np.full_like(u, v[0])
        if p != "zemax":
            keep = np.hypot(u, v) < REACH[p]
            args, u, v = (u[keep], args[1]), u[keep], v[keep]
        form = "mixed"
    before = [np.array(a, copy=True) for a in args]
    how = rng.integers(2)
    d = TO[p](*args) if how else batoid.utils.fieldToDirCos(*args, projection=p)
    if p == "postel" and rng.random() < 0.3:
        d = batoid.utils.fieldToDirCos(*args)
    c.ok(isinstance(d, tuple) and len(d) == 3, p + ":result", repr(type(d)))
    w = ref.to_dircos(u, v, p)
    t, tg = tol_forward(p, *w)
    shape = np.shape(u)
    for q, (got, want, tt) in enumerate(zip(d, w, (t, t, tg))):
        c.ok(np.shape(got) == shape or form == "mixed", p + ":shape", "%s for arguments of shape %s (%s)" % (np.shape(got), shape, form))
        got = np.broadcast_to(got, shape)
        c.close(np.asarray(got, float), np.asarray(want, float), p + ":dircos", atol=tt, msg="component %d, %s %s" % (q, mode, form))
    small = np.hypot(np.float64(u), np.float64(v)) < 1e-8
    for got, want in zip(d[:2], (u, v)):
        got = np.broadcast_to(got, shape)
        c.close(np.asarray(got)[small], np.asarray(want)[small], p + ":axis", rtol=1e-14, atol=1e-323, msg="small angles are direction cosines")
    n2 = sum(np.asarray(q, np.longdouble) ** 2 for q in d)
    c.close(np.asarray(n2, float), np.ones(shape), p + ":unit", atol=2 * (tg + 2 * t), msg=mode)
    for a, b in zip(args, before):
        c.ok(np.array_equal(np.asarray(a), b), p + ":arguments-changed", form)
    # and back
    keep = [np.array(q, copy=True) for q in d]
    bk = FROM[p](*d) if rng.integers(2) else batoid.utils.dirCosToField(*d, projection=p)
    c.ok(isinstance(bk, tuple) and len(bk) == 2, p + ":back:result")
    rho2 = np.float64(u) ** 2 + np.float64(v) ** 2
    rel = 16 * E
    if p == "stereographic":
        rel = 16 * E * (1 + rho2 / 4)
    elif p == "lambert":
        rel = 16 * E * (1 + 1 / np.maximum(1 - rho2 / 4, 1e-15))
    at = 16 * E * np.minimum(np.sqrt(rho2), 4) if p == "postel" else 0.0
    if p == "zemax":
        # alpha/gamma keeps its relative precision
        at = 4 * E
        at = np.minimum(at, 16 * E * np.maximum(np.abs(np.float64(u)), np.abs(np.float64(v))))
    for got, want in zip(bk, (u, v)):
        c.ok(np.shape(got) == shape or form == "mixed", p + ":back:shape", "%s for %s (%s)" % (np.shape(got), shape, form))
        got = np.broadcast_to(got, shape)
        c.close(np.asarray(got), want, p + ":back", atol=at + rel * np.abs(want) + 1e-320, msg="%s %s" % (mode, form))
    for a, b in zip(d, keep):
        c.ok(np.array_equal(np.asarray(a), b), p + ":arguments-changed", form)
    c.label("forward", p, mode, form)
    c.sample(projection=p, mode=mode, form=form, u=np.ravel(u)[:2], v=np.ravel(v)[:2], d=[np.ravel(q)[:2] for q in d])


def backward(c, rng, i):
    """Unit vectors anywhere in the domain to angles and back to the same unit vectors."""
    p = ref.PROJECTIONS[i % 6]
    n = int(rng.integers(1, 40))
    top = {"postel": np.pi, "stereographic": 2.9, "lambert": np.pi - 0.02}.get(p, np.pi / 2)
    th = rng.uniform(0, top, n) * (1 - 10.0 ** rng.uniform(-6, -0.2)) if rng.random() < 0.7 else 10.0 ** rng.uniform(-20, -1, n)
    ph = rng.uniform(0, 2 * np.pi, n)
    a, b, g = np.sin(th) * np.cos(ph), np.sin(th) * np.sin(ph), -np.cos(th)
    if rng.random() < 0.2:
        a[0], b[0], g[0] = 0.0, 0.0, -1.0
    if rng.random() < 0.2:
        a, b, g = float(a[0]), float(b[0]), float(g[0])
    elif rng.random() < 0.2:
        a, b, g = (q[:n // 2 * 2].reshape(-1, 2) for q in (a, b, g))
    u, v = batoid.utils.dirCosToField(a, b, g, projection=p)
    wu, wv = ref.to_field(a, b, g, p)
    c.ok(np.shape(u) == np.shape(a) == np.shape(v), p + ":field:shape", "%s for %s" % (np.shape(u), np.shape(a)))
    G = np.abs(np.asarray(g, float))
    r = np.hypot(np.float64(wu), np.float64(wv))
    cond = {"postel": 1.0, "gnomonic": 1.0, "zemax": 1.0, "orthographic": 1.0, "lambert": np.sqrt(2 / np.maximum(1 - np.asarray(g, float), 1e-15)) * 2 / np.maximum(1 - np.asarray(g, float), 1e-15),
            "stereographic": 1 / np.maximum(1 - np.asarray(g, float), 1e-15)}[p]
    at = 16 * E * (1 + cond) * np.maximum(r, 1e-300)
    # rounding of a near-unit vector itself moves the angle of vectors close to horizontal
    c.close(np.asarray(u), np.asarray(wu, float), p + ":field", atol=at)
    c.close(np.asarray(v), np.asarray(wv, float), p + ":field", atol=at)
    back = batoid.utils.fieldToDirCos(u, v, projection=p)
    extra = 4 * E / np.maximum(G, 1e-9) if p == "orthographic" else 0.0
    sens = 16 * E * (1 + (cond if p in ("lambert", "stereographic") else 0) + (1 / np.maximum(G, 1e-12) if p == "zemax" else 0))
    for got, want, k in zip(back, (a, b, g), range(3)):
        c.close(np.asarray(got), np.asarray(want), p + ":there-and-back", atol=sens + (extra if k == 2 else 0), msg="component %d" % k)
    c.label("backward", p, np.ndim(a), int(np.max(th) * 4))


def together(c, rng, i):
    """The projections agree near the axis, the rotation-invariant ones commute with rotations about the axis, and
    unknown names are rejected."""
    n = 20
    h = 10.0 ** rng.uniform(-7, -2)
    u, v = rng.uniform(-h, h, (2, n))
    res = {p: batoid.utils.fieldToDirCos(u, v, projection=p) for p in ref.PROJECTIONS}
    for p in ref.PROJECTIONS:
        c.close(res[p][0], u, "agree:" + p, atol=2 * h ** 3)
        c.close(res[p][1], v, "agree:" + p, atol=2 * h ** 3)
        c.close(res[p][2], -1 + (u * u + v * v) / 2, "agree:" + p, atol=2 * h ** 3 + 4 * E)
        c.ok(np.all(res[p][2] < 0), "down:" + p)
        if p != "zemax":
            R = min(REACH[p], 1.5)
            f = rng.uniform(0, 2 * np.pi)
            U, V = rng.uniform(-R / 1.5, R / 1.5, (2, n))
            a, b, g = batoid.utils.fieldToDirCos(U, V, projection=p)
            a2, b2, g2 = batoid.utils.fieldToDirCos(U * np.cos(f) - V * np.sin(f), U * np.sin(f) + V * np.cos(f), projection=p)
            c.close(a2, a * np.cos(f) - b * np.sin(f), "rotate:" + p, atol=1e-14)
            c.close(b2, a * np.sin(f) + b * np.cos(f), "rotate:" + p, atol=1e-14)
            c.close(g2, g, "rotate:" + p, atol=1e-13)
    bad = str(rng.choice(["Postel", "", "tan", "orthographic ", "mercator"]))
    c.raises(ValueError, lambda: batoid.utils.fieldToDirCos(0.1, 0.1, projection=bad), "unknown")
    c.raises(ValueError, lambda: batoid.utils.dirCosToField(0.0, 0.0, -1.0, projection=bad), "unknown")
    c.label("together", int(np.log10(h)))


def rays(c, rng, i):
    """The conversion as seen through generated rays."""
    p = ref.PROJECTIONS[i % 6]
    lim = {"orthographic": 0.6, "lambert": 0.8}.get(p, 1.0)
    tx, ty = rng.uniform(-lim, lim, (2, 8))
    rv = batoid.RayVector.fromFieldAngles(tx, ty, projection=p, wavelength=5e-7)
    want = np.array(ref.to_dircos(tx, ty, p), float).T
    c.close(rv.v, want, p + ":rays", atol=1e-14)
    g = batoid.RayVector.asGrid(nx=3, lx=1.0, theta_x=float(tx[0]), theta_y=float(ty[0]), projection=p, wavelength=5e-7)
    c.close(g.v, np.broadcast_to(want[0], (9, 3)), p + ":grid", atol=1e-14)
    back = np.array(batoid.utils.dirCosToField(*rv.v.T, projection=p))
    c.close(back, np.array([tx, ty]), p + ":rays-back", atol=1e-13)
    c.label("rays", p)


CASES = [
    ("forward", forward, 3000, 120000),
    ("backward", backward, 2000, 80000),
    ("together", together, 200, 6000),
    ("rays", rays, 300, 6000),
]
