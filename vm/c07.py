"""C07: every coordinate transform observed is the rigid motion its two frames define."""
import numpy as np
import batoid
from . import gen, mon, ref

L = np.longdouble


def rigid(c, b, a, to, tag):
    """One observed transform of a bundle: positions, velocities per definition; everything else untouched."""
    c.ok(a["cs"] == to, tag + ":frame")
    r, v = mon.local(b, to)
    sc = mon.scale_of(b, to)
    vs = np.abs(np.nan_to_num(b["v"], nan=0, posinf=0, neginf=0)).max(initial=1.0)
    fin = np.isfinite(b["r"]).all(axis=1) & np.isfinite(b["v"]).all(axis=1)
    c.close(a["r"][fin], r[fin].astype(float), tag + ":r", atol=2e-14 * sc)
    c.close(a["v"][fin], v[fin].astype(float), tag + ":v", atol=2e-14 * vs)
    for k in ("t", "w", "f", "vig", "fail"):
        c.equal(a[k], b[k], tag + ":" + k, "a transform changed " + k)


def anyrays(rng, n=25, cs=None):
    sc = 10.0 ** rng.uniform(-2, 3)
    fail = rng.random(n) < 0.15
    return gen.build(rng.normal(size=(n, 3)) * sc, rng.normal(size=(n, 3)), rng.normal(size=n), rng.uniform(3e-7, 1e-6, n),
                     gen.fluxes(rng, n), fail | (rng.random(n) < 0.3), fail, cs=cs if cs is not None else gen.csys(rng, 10))


def rays(c, rng, i):
    """Chains of frames: each step by definition, A->B->C equals A->C, and back equals the start."""
    rv = anyrays(rng)
    first = mon.snap(rv)
    chain = [gen.csys(rng, 10.0 ** rng.uniform(-1, 2)) for _ in range(int(rng.integers(1, 5)))]
    if rng.random() < 0.4:      # a frame hardly different from the one before
        k = int(rng.integers(len(chain)))
        was = chain[k - 1] if k else rv.coordSys
        chain[k] = batoid.CoordSys(was.origin + rng.normal(size=3) * 10.0 ** rng.uniform(-12, 0) * rng.integers(0, 2),
                                   was.rot @ gen.rot(rng, "small") if rng.random() < 0.8 else was.rot.copy())
    if rng.random() < 0.25:     # frames that differ and yet hash alike (hash(-1) == hash(-2)), one after the other
        k, a = int(rng.integers(len(chain))), int(rng.integers(3))
        o = chain[k].origin.copy()
        R = np.eye(3) if rng.random() < 0.4 else chain[k].rot
        o[a] = -1.0
        p = batoid.CoordSys(o, R)
        o = o.copy()
        o[a] = -2.0
        q = batoid.CoordSys(o, R)
        home = batoid.CoordSys(rv.coordSys.origin, rv.coordSys.rot)
        chain[k:k] = [[p, home, q], [p, q, p, q], [p, home, q, home, p]][rng.integers(3)]
    for k, cs in enumerate(chain):
        b = mon.snap(rv)
        if rng.random() < 0.5:
            out = rv.toCoordSys(cs)
            c.ok(out is rv, "in-place")
        else:
            ct = batoid.CoordTransform(rv.coordSys, cs)
            out = ct.applyForward(rv)
            c.ok(out is rv, "in-place")
        rigid(c, b, mon.snap(rv), cs, "step")
    direct = gen.build(first["r"], first["v"], first["t"], first["w"], first["f"], first["vig"], first["fail"], first["cs"])
    direct.toCoordSys(chain[-1])
    sc = mon.scale_of(first, chain[-1]) + max(np.abs(q.origin).max() for q in chain)
    c.close(rv.r, direct.r, "compose:r", atol=1e-13 * sc)
    c.close(rv.v, direct.v, "compose:v", atol=1e-13 * (1 + np.abs(first["v"]).max()))
    b = mon.snap(rv)
    ct = batoid.CoordTransform(first["cs"], chain[-1])
    out = ct.applyReverse(rv)
    c.ok(out is rv, "in-place")
    rigid(c, b, mon.snap(rv), first["cs"], "reverse")
    c.close(rv.r, first["r"], "back:r", atol=1e-13 * sc)
    c.close(rv.v, first["v"], "back:v", atol=1e-13 * (1 + np.abs(first["v"]).max()))
    # distances, angles, handedness
    k = min(8, len(rv))
    d0 = np.linalg.norm(first["r"][:k, None] - first["r"][None, :k], axis=2)
    d1 = np.linalg.norm(direct.r[:k, None] - direct.r[None, :k], axis=2)
    c.close(d1, d0, "distances", atol=1e-13 * sc)
    w0, w1 = first["v"], np.array(direct.v)
    c.close(np.einsum("ij,ij->i", np.cross(w1[:-2], w1[1:-1]), w1[2:]), np.einsum("ij,ij->i", np.cross(w0[:-2], w0[1:-1]), w0[2:]),
            "handedness", atol=1e-12 * (1 + np.abs(w0).max()) ** 3)
    c.label("rays", len(chain), first["cs"] == batoid.CoordSys(), int(np.log10(sc)))
    c.sample(chain=[repr(q)[:80] for q in chain], rays=len(rv))


def arrays(c, rng, i):
    """applyForwardArray/applyReverseArray on scalars, lists, nd, strided and integer arrays."""
    A, B = gen.csys(rng, 5), gen.csys(rng, 5)
    p = rng.normal(size=(int(rng.integers(1, 200)), 3)) * 10.0 ** rng.uniform(-2, 2)
    for there, g in (("applyForwardTransformArrays", (A, B)), ("applyReverseTransformArrays", (B, A))):
        f = getattr(batoid.trace, there, None)       # the in-place forms behind the generators of rays
        if f is None:
            continue
        q = [np.ascontiguousarray(v) for v in p.T.copy()]
        f(batoid.CoordTransform(A, B), *q)
        want = ((p @ g[0].rot.T + g[0].origin) - g[1].origin) @ g[1].rot
        c.close(np.stack(q, axis=1), want, there, atol=1e-13 * (1 + np.abs(p).max() + np.abs(A.origin).max() + np.abs(B.origin).max()) * 4)
    if rng.random() < 0.2:
        B = batoid.CoordSys(A.origin + rng.normal(size=3) * rng.integers(0, 2), A.rot @ gen.rot(rng, "small"))
    ct = batoid.CoordTransform(A, B)
    mode = ["scalar", "1d", "list", "2d", "3d", "strided", "fortran", "int", "empty", "one", "float32"][i % 11]
    sh = {"scalar": (), "1d": (7,), "list": (5,), "2d": (3, 4), "3d": (2, 3, 4), "strided": (6, 5), "fortran": (4, 5),
          "int": (6,), "empty": (0,), "one": (1,), "float32": (5,)}[mode]
    xyz = rng.normal(size=(3,) + sh) * 5
    if mode == "strided":
        big = rng.normal(size=(3, 12, 15))
        xyz = big[:, ::2, ::-3]
    if mode == "int":
        xyz = rng.integers(-9, 9, (3,) + sh)
    if mode == "float32":
        xyz = xyz.astype(np.float32)
    args = [np.asfortranarray(q) if mode == "fortran" else q for q in xyz]
    if mode == "list":
        args = [list(q) for q in args]
    if mode == "scalar":
        args = [float(q) for q in args]
    keep = [np.array(q) for q in args]
    P = np.asarray(xyz, float).reshape(3, -1).T
    for fwd in (True, False):
        got = np.asarray((ct.applyForwardArray if fwd else ct.applyReverseArray)(*args))
        c.ok(got.shape == (3,) + sh, "array:shape", "%s -> %s (%s)" % (sh, got.shape, mode))
        want = ref.to_frame(A, B, P) if fwd else ref.to_frame(B, A, P)
        c.close(got, np.asarray(want, float).T.reshape((3,) + sh), "array:value", atol=1e-12)
        for q, k in zip(args, keep):
            c.equal(q, k, "array:argument-modified")
        back = np.asarray((ct.applyReverseArray if fwd else ct.applyForwardArray)(*got))
        c.close(back, np.asarray(xyz, float), "array:back", atol=1e-12)
    # agreement with the ray transform
    if xyz[0].ndim == 1 and len(P):
        rv = gen.build(P, P * 0 + 1, np.zeros(len(P)), np.zeros(len(P)), np.ones(len(P)), cs=A).toCoordSys(B)
        c.close(np.asarray(ct.applyForwardArray(*args)).T, rv.r, "array:as-rays", atol=1e-12)
    c.label("array", mode)


def frames(c, rng, i):
    """Histories of shifts and rotations of a frame against the documented meaning of each."""
    cs = gen.csys(rng, 5)
    o, R = np.array(cs.origin, L), np.array(cs.rot, L)
    hist = []
    for step in range(int(rng.integers(1, 7))):
        k = str(rng.choice(["shiftGlobal", "shiftLocal", "rotateGlobal", "rotateLocal"]))
        prev, po, pr = cs, cs.origin.copy(), cs.rot.copy()
        if k.startswith("shift"):
            dr = rng.normal(size=3) * 3
            arg = [dr, list(dr), tuple(dr)][rng.integers(3)]
            cs = getattr(cs, k)(arg)
            o = o + (dr if k == "shiftGlobal" else R @ np.array(dr, L))
        else:
            Q = gen.rot(rng)
            mode = int(rng.integers(4))
            other = gen.csys(rng, 5)
            cen = rng.normal(size=3) * 3
            if mode == 0:
                cs = getattr(cs, k)(Q)
                # default centre: the origin of the frame the centre is expressed in
                g = np.zeros(3, L) if k == "rotateGlobal" else o
            elif mode == 1:
                cs = getattr(cs, k)(Q, cen)
                g = np.array(cen, L) if k == "rotateGlobal" else R @ np.array(cen, L) + o
            elif mode == 2:
                cs = getattr(cs, k)(Q, rotCenter=tuple(cen), coordSys=other)
                g = np.array(other.rot, L) @ np.array(cen, L) + other.origin
            else:
                cs = getattr(cs, k)(Q, coordSys=other)
                g = np.array(other.origin, L)
            G = np.array(Q, L) if k == "rotateGlobal" else R @ np.array(Q, L) @ R.T   # the motion, in global axes
            o, R = G @ (o - g) + g, G @ R
        hist.append(k)
        c.close(cs.origin, o.astype(float), "history:origin", atol=1e-10, msg=str(hist))
        c.close(cs.rot, R.astype(float), "history:rot", atol=1e-11, msg=str(hist))
        c.equal(prev.origin, po, "history:modified", k)
        c.equal(prev.rot, pr, "history:modified", k)
    c.close(cs.rot @ cs.rot.T, np.eye(3), "orthogonal", atol=1e-13)
    c.close(np.linalg.det(cs.rot), 1.0, "handed", atol=1e-13)
    c.equal(cs.xhat, cs.rot[:, 0], "xhat")
    c.equal(cs.yhat, cs.rot[:, 1], "yhat")
    c.equal(cs.zhat, cs.rot[:, 2], "zhat")
    v = rng.normal(size=(5, 3)) * 4
    g = cs.toGlobal(v)
    c.close(g, (np.array(v, L) @ R.T + o).astype(float), "toGlobal", atol=1e-10)
    c.close(cs.toLocal(g), v, "toLocal", atol=1e-12)
    c.close(cs.toGlobal(v[0]), g[0], "toGlobal:one", atol=1e-13)
    c.close(cs.toLocal(g[1]), v[1], "toLocal:one", atol=1e-12)
    w = np.asarray(batoid.CoordTransform(cs, batoid.CoordSys()).applyForwardArray(*v.T)).T
    c.close(w, g, "transform-to-global", atol=1e-12)
    c.label("frames", *hist)


def rotations(c, rng, i):
    """RotX, RotY, RotZ: right-handed rotations about the named axis."""
    th = float(rng.choice([rng.uniform(-10, 10), 0.0, np.pi / 2, np.pi, rng.normal() * 1e-8]))
    t = L(th)
    C, S = np.cos(t), np.sin(t)
    want = dict(RotX=[[1, 0, 0], [0, C, -S], [0, S, C]], RotY=[[C, 0, S], [0, 1, 0], [-S, 0, C]],
                RotZ=[[C, -S, 0], [S, C, 0], [0, 0, 1]])
    for k, w in want.items():
        c.close(getattr(batoid, k)(th), np.array(w, float), k, atol=1e-15)
    c.label("rot", i % 50)


CASES = [
    ("rays", rays, 1500, 30000),
    ("arrays", arrays, 1100, 11000),
    ("frames", frames, 1500, 30000),
    ("rotations", rotations, 200, 2000),
]
