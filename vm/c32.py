"""C32: nothing depends on the unit of length, on handedness or on what the axes are called: mirrored, relabelled and scaled
copies of surfaces, rays, apertures and telescopes must give mirrored, relabelled and scaled results."""
import warnings
import numpy as np
import batoid
from . import gen, mon, ref, c12

ITER = ("Asphere", "Zernike", "Bicubic", "Sum")


class Sym:
    """p -> k M p with M a signed permutation that keeps the z axis; k a power of two, so that the copy is exact."""

    def __init__(self, rng, scale=True, flip=True, mirror=True, gentle=False):
        # searches for an intersection end on an absolute bound: not in much larger units
        wide = 12 if rng.random() < 0.6 else 36
        self.k = float(2.0 ** (rng.integers(-5, 1) if gentle else rng.integers(-wide, wide + 1))) if scale and rng.random() < 0.6 else 1.0
        self.sx, self.sy = [float(q) for q in rng.choice([-1, 1], 2)] if mirror else (1.0, 1.0)
        self.sz = -1.0 if flip and rng.random() < 0.3 else 1.0
        self.swap = bool(mirror and rng.random() < 0.4)
        self.refresh()

    def refresh(self):
        P = np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.0]]) if self.swap else np.eye(3)
        self.M = P @ np.diag([self.sx, self.sy, self.sz]) + 0.0     # signs first, then the names

    def up(self):
        """The same without turning over, for path-difference screens: their height is a path, not a place."""
        o = object.__new__(Sym)
        o.__dict__.update(self.__dict__, sz=1.0)
        o.refresh()
        return o

    def xy(self, x, y):
        x, y = self.sx * np.asarray(x), self.sy * np.asarray(y)
        return (y, x) if self.swap else (x, y)

    def __str__(self):
        return "scale %g signs %d%d%d%s" % (self.k, self.sx, self.sy, self.sz, " swap" if self.swap else "")

    # ---- frames and rays
    def frame(self, cs):
        return batoid.CoordSys(self.k * (self.M @ cs.origin), self.M @ cs.rot @ self.M.T)

    def rays(self, rv, f=1.0):
        return gen.build(self.k * rv.r @ self.M.T, rv.v @ self.M.T, self.k * np.asarray(rv.t), rv.wavelength, f * np.asarray(rv.flux),
                         rv.vignetted, rv.failed, cs=self.frame(rv.coordSys))

    # ---- objects
    def angle(self, th):
        th = np.arctan2(self.sy * np.sin(th), self.sx * np.cos(th))
        return float(np.pi / 2 - th) if self.swap else float(th)

    def zernikes(self, co):
        """Coefficients of the mirrored function (index 0 is not used)."""
        co = np.asarray(co, float)
        out = np.zeros(len(co) + 1)
        out[0] = co[0]
        for j in range(1, len(co)):
            n, m = ref.noll(j)
            a = abs(m)
            s = co[j]
            # cos(a(pi - t)) = (-1)^a cos, sin(a(pi - t)) = -(-1)^a sin; t -> -t turns sin over
            if self.sx < 0:
                s *= (-1) ** a * (1 if m >= 0 else -1)
            if self.sy < 0 and m < 0:
                s = -s
            if not self.swap or a == 0:
                out[j] += s
            else:
                # f'(x, y) = f(y, x): cos(a(pi/2 - t)), sin(a(pi/2 - t))
                C, S = [(1, 0), (0, 1), (-1, 0), (0, -1)][a % 4]
                o = partner(j)
                cj, sj = (j, o) if m >= 0 else (o, j)
                for q, w in ((cj, C if m >= 0 else S), (sj, S if m >= 0 else -C)):
                    if w:
                        out[q] += w * s
        return out if out[-1] else out[:-1]

    def surface(self, s):
        t, k, sz = type(s).__name__, self.k, self.sz
        if t == "Plane":
            return batoid.Plane()
        if t == "Tilted":
            a, b = self.xy(s.tanx, s.tany)
            return batoid.Tilted(sz * float(a), sz * float(b))
        if t in ("Paraboloid", "Sphere"):
            return type(s)(sz * k * s.R)
        if t == "Quadric":
            return batoid.Quadric(sz * k * s.R, s.conic)
        if t == "Asphere":
            co = [sz * a * k ** (1 - 2 * (j + s.imin)) for j, a in enumerate(s.coefs)]
            return batoid.Asphere(sz * k * s.R, s.conic, co, imin=s.imin)
        if t == "Zernike":
            x, y = self.xy(s.x_origin, s.y_origin)
            return batoid.Zernike(sz * k * self.zernikes(s.coef), k * s.R_outer, k * s.R_inner, k * float(x), k * float(y))
        if t == "Bicubic":
            xs, ys = np.array(s.xs), np.array(s.ys)
            z, zx, zy, zxy = [np.array(q) for q in (s.zs, s.dzdxs, s.dzdys, s.d2zdxdys)]
            if self.sx < 0:
                xs = -xs[::-1]
                z, zx, zy, zxy = z[:, ::-1], -zx[:, ::-1], zy[:, ::-1], -zxy[:, ::-1]
            if self.sy < 0:
                ys = -ys[::-1]
                z, zx, zy, zxy = z[::-1], zx[::-1], -zy[::-1], -zxy[::-1]
            if self.swap:
                xs, ys, z, zx, zy, zxy = ys, xs, z.T, zy.T, zx.T, zxy.T
            return batoid.Bicubic(k * xs, k * ys, sz * k * z, sz * zx, sz * zy, sz / k * zxy, nanpolicy=s.nanpolicy)
        if t == "Sum":
            return batoid.Sum([self.surface(q) for q in s.surfaces])
        raise ValueError(t)

    def obsc(self, o):
        t, k = type(o).__name__, self.k
        if t == "ObscNegation":
            return batoid.ObscNegation(self.obsc(o.original))
        if t in ("ObscUnion", "ObscIntersection"):
            return type(o)([self.obsc(q) for q in o.items])
        if t == "ObscPolygon":
            x, y = self.xy(o.xs, o.ys)
            return batoid.ObscPolygon(k * x, k * y)
        x, y = [k * float(q) for q in self.xy(o.x, o.y)]
        if t == "ObscCircle":
            return batoid.ObscCircle(k * o.radius, x, y)
        if t == "ObscAnnulus":
            return batoid.ObscAnnulus(k * o.inner, k * o.outer, x, y)
        if t == "ObscRectangle":
            return batoid.ObscRectangle(k * o.width, k * o.height, x, y, self.angle(o.theta))
        if t == "ObscRay":
            return batoid.ObscRay(k * o.width, self.angle(o.theta), x, y)
        raise ValueError(t)

    def optic(self, o):
        kw = dict(name=o.name, coordSys=self.frame(o.coordSys), inMedium=o.inMedium, outMedium=o.outMedium, skip=o.skip)
        for q in ("backDist", "pupilSize", "sphereRadius"):
            if getattr(o, q, None) is not None:
                kw[q] = self.k * getattr(o, q)
        if getattr(o, "pupilObscuration", None) is not None:
            kw["pupilObscuration"] = o.pupilObscuration
        if getattr(o, "stopSurface", None) is not None:
            kw["stopSurface"] = self.optic(o.stopSurface)
        if isinstance(o, batoid.CompoundOptic):
            return type(o)([self.optic(q) for q in o.items], **kw)
        if o.obscuration is not None:
            kw["obscuration"] = self.obsc(o.obscuration)
        for q in ("forwardCoating", "reverseCoating"):
            if getattr(o, q, None) is not None:
                kw[q] = getattr(o, q)
        if isinstance(o, batoid.OPDScreen):
            return batoid.OPDScreen(self.surface(o.surface), self.up().surface(o.screen), **kw)
        return type(o)(self.surface(o.surface), **kw)


def partner(j):
    """The other one of a cosine/sine pair."""
    n, m = ref.noll(j)
    for q in (j - 1, j + 1):
        if q > 0 and ref.noll(q) == (n, -m):
            return q
    raise ValueError(j)


def surfaces_of(o):
    for q in gen.interfaces(o):
        yield q.surface
        if isinstance(q, batoid.OPDScreen):
            yield q.screen


def loose(ss):
    """Surfaces where rounding may decide differently: searched for with an absolute bound, or of mixed coefficients."""
    return any(type(q).__name__ in ITER for q in ss)


# ------------------------------------------------------------ comparison
def alike(c, G, a, b, tag, soft=False, f=1.0, el=None, drop=None, rtol=2e-11):
    """Bundle b (of the copy) shows bundle a mapped. Returns the rays no longer compared (rounding decided their fate)."""
    A, B = mon.snap(a), mon.snap(b)
    n = len(A["t"])
    c.ok(len(B["t"]) == n, tag + ":size", "%d / %d rays, %s" % (n, len(B["t"]), G))
    drop = np.zeros(n, bool) if drop is None else drop
    c.ok(np.allclose(b.coordSys.origin, G.frame(a.coordSys).origin, rtol=0, atol=1e-12 * G.k * (1 + np.abs(a.coordSys.origin).max()))
         and np.allclose(b.coordSys.rot, G.frame(a.coordSys).rot, rtol=0, atol=1e-13), tag + ":frame", str(G))
    d = (A["fail"] != B["fail"]) & ~drop
    if d.any():
        c.note("borderline-failed", int(d.sum()))
        c.ok(soft and (G.k != 1 or d.sum() <= max(1, 0.05 * n)), tag + ":failed", lambda: "%d of %d rays fail differently, %s" % (d.sum(), n, G))
    drop = drop | d
    d = (A["vig"] != B["vig"]) & ~drop
    if d.any():
        if el is None or el.obscuration is None:
            c.fail(tag + ":vignetted", "vignetting differs where nothing obscures, %s" % G)
            return drop | d
        _, m = ref.signed_contains(el.obscuration, A["r"][:, 0], A["r"][:, 1])
        c.ok(np.all(m[d] < 1e-9 * (1 + np.abs(A["r"][d]).max())), tag + ":vignetted", lambda: "vignetting differs %g from any edge, %s" % (m[d].max(), G))
        drop = drop | d
    u = ~A["fail"] & ~drop & np.isfinite(A["r"]).all(axis=1) & (np.abs(A["r"]).max(axis=1) < 1e3)
    if u.any():
        sc = 1 + np.abs(A["r"][u]).max() + np.abs(A["t"][u]).max()
        c.close(B["r"][u] / G.k, A["r"][u] @ G.M.T, tag + ":r", atol=rtol * sc, msg=str(G))
        va, vb = A["v"][u] @ G.M.T, B["v"][u]
        h = np.isfinite(va).all(axis=1)
        c.ok(np.array_equal(h, np.isfinite(vb).all(axis=1)), tag + ":v:where", str(G))
        h &= np.isfinite(vb).all(axis=1)
        if h.any():
            c.close(vb[h], va[h], tag + ":v", atol=10 * rtol, msg=str(G))
        c.close(B["t"][u] / G.k, A["t"][u], tag + ":t", atol=rtol * sc, msg=str(G))
    c.equal(B["w"], A["w"], tag + ":wavelength")
    u = ~drop
    c.close(B["f"][u], f * A["f"][u], tag + ":flux", rtol=1e-12 if soft or el is None else 1e-13)
    return drop


# ------------------------------------------------------------ cases
def surfaces(c, rng, i):
    """Heights, normals and every operation of one surface."""
    kind = gen.SURFS[i % len(gen.SURFS)]
    G = Sym(rng, gentle=kind in ITER and rng.random() < 0.7)
    if kind in ITER:
        G.k = float(np.clip(G.k, 2.0 ** -12, 2.0 ** 12))
    s = gen.surf(rng, kind, 1.0, bool(rng.random() < 0.6))
    t = G.surface(s)
    x, y = rng.uniform(-0.9, 0.9, (2, 30))
    X, Y = [G.k * q for q in G.xy(x, y)]
    z, Z = np.asarray(s.sag(x, y)), np.asarray(t.sag(X, Y))
    n, N = np.asarray(s.normal(x, y)), np.asarray(t.normal(X, Y))
    g = np.isfinite(z)
    c.ok(np.array_equal(g, np.isfinite(Z)) or kind in ("Bicubic", "Sum"), "sag:where", str(G))
    g &= np.isfinite(Z)
    if g.any():
        c.close(Z[g] / G.k, G.sz * z[g], "sag", atol=2e-13 * (1 + np.abs(z[g]).max()), msg="%s %s" % (kind, G))
    g &= np.isfinite(n).all(axis=1) & np.isfinite(N).all(axis=1)
    if g.any():
        c.close(N[g], G.sz * n[g] @ G.M.T, "normal", atol=2e-11, msg="%s %s" % (kind, G))
    cs = gen.csys(rng)
    m1, m2 = gen.medium(rng), gen.medium(rng)
    rv = gen.express(gen.rays_at(rng, s, 25, 0.8, cs=cs, medium=m1, spread=0.2), gen.csys(rng) if rng.random() < 0.7 else cs)
    f = float(2.0 ** rng.integers(-8, 9))
    op = ["refract", "reflect", "intersect", "split", "screen"][i % 5]
    coat = gen.coating(rng) if rng.random() < 0.4 or op == "split" else None
    a, b = rv.copy(), G.rays(rv, f)
    cb = G.frame(cs)
    soft = loose([s])
    if op == "split":
        A, B = s.rSplit(a, m1, m2, coat, coordSys=cs), t.rSplit(b, m1, m2, coat, coordSys=cb)
        for k, (p, q) in enumerate(zip(A, B)):
            alike(c, G, p, q, "split%d" % k, soft, f)
    elif op == "screen":
        sc = gen.surf(rng, str(rng.choice(["Zernike", "Quadric", "Asphere", "Bicubic", "Tilted", "Sum"])), 1.0, True)
        s.refractScreen(a, sc, coordSys=cs)
        t.refractScreen(b, G.up().surface(sc), coordSys=cb)
        alike(c, G, a, b, "screen", soft or loose([sc]), f)
    else:
        if op == "refract":
            s.refract(a, m1, m2, coating=coat, coordSys=cs)
            t.refract(b, m1, m2, coating=coat, coordSys=cb)
        else:
            getattr(s, op)(a, coating=coat, coordSys=cs)
            getattr(t, op)(b, coating=coat, coordSys=cb)
        alike(c, G, a, b, op, soft, f)
    c.label("surfaces", op, kind, G.k == 1, G.sx, G.sy, G.sz, G.swap)
    c.sample(surface=repr(s)[:160], operation=op, symmetry=str(G), hit=int((~a.failed).sum()))


def shapes(c, rng, i):
    """Apertures."""
    G = Sym(rng, flip=False)
    o = gen.obsc(rng, 1.0)
    p = G.obsc(o)
    x, y = rng.normal(size=(2, 300))
    X, Y = [G.k * q for q in G.xy(x, y)]
    a, b = np.asarray(o.contains(x, y)), np.asarray(p.contains(X, Y))
    c.event(300)
    if not np.array_equal(a, b):
        _, m = ref.signed_contains(o, x, y)
        c.ok(np.all(m[a != b] < 1e-11), "contains", lambda: "differs %g from any edge of %r, %s" % (m[a != b].max(), o, G))
    rv = gen.rays_at(rng, None, 60, 1.0, cs=gen.csys(rng))
    q, w = o.obscure(rv.copy()), p.obscure(G.rays(rv))
    alike(c, G, q, w, "obscure", el=Holder(o))
    c.label("shapes", type(o).__name__, G.k == 1, G.sx, G.sy, G.swap)


class Holder:
    def __init__(self, o):
        self.obscuration = o


def logs(c, G, T, U, la, lb, tag, f, rtol):
    c.ok(list(la) == list(lb), tag + ":elements", lambda: "%s / %s" % (list(la), list(lb)))
    soft = loose(surfaces_of(T))
    drop = None
    for k in la:
        drop = alike(c, G, la[k]["out"], lb[k]["out"], tag, soft, f, T[la[k]["name"]] if k not in T.itemDict else T[k], drop, rtol)
    return drop


def systems(c, rng, i):
    """Random systems, traced every way."""
    T = gen.system(rng, split=True, screens=i % 3 == 0)
    G = Sym(rng, gentle=loose(surfaces_of(T)))
    U = G.optic(T)
    f = float(2.0 ** rng.integers(-6, 7))
    rv = gen.system_beam(rng, T, 30)
    if rng.random() < 0.5:
        rv = gen.express(rv, gen.csys(rng))
    la, lb = T.traceFull(rv), U.traceFull(G.rays(rv, f))
    logs(c, G, T, U, la, lb, "system", f, 1e-10)
    mode = i % 4
    if mode == 0:
        o = la[list(la)[-1]]["out"]
        back = gen.build(o.r, -o.v, -o.t, o.wavelength, o.flux, o.vignetted, o.failed, cs=o.coordSys)
        logs(c, G, T, U, T.traceFull(back, reverse=True), U.traceFull(G.rays(back, f), reverse=True), "reverse", f, 1e-10)
    elif mode == 1 and len(c12.leaves(T)) < 9:
        good = rv[~rv.vignetted]
        m = 0.03
        A, B = T.traceSplit(good.copy(), minFlux=m), U.traceSplit(G.rays(good, f), minFlux=m * f)
        for p, q, nm in ((A[0], B[0], "out"), (A[1], B[1], "back")):
            P, Q = keyed(p), keyed(q)
            if loose(surfaces_of(T)) or T_obscured(T):          # rounding at an edge may take a ray away
                for k in set(P) & set(Q):
                    if len(P[k]) == len(Q[k]):
                        alike(c, G, P[k], Q[k], "split-" + nm, True, f, drop=None, rtol=1e-9)
                c.note("split:paths", len(set(P) & set(Q)))
                c.ok(len(set(P) ^ set(Q)) <= 0.3 * max(3, len(P)), "split-%s:paths" % nm, lambda: "%s / %s" % (sorted(P), sorted(Q)))
                continue
            c.ok(sorted(P) == sorted(Q), "split-%s:paths" % nm, lambda: "%s / %s" % (sorted(P), sorted(Q)))
            for k in P:
                alike(c, G, P[k], Q[k], "split-" + nm, False, f, rtol=1e-9)
    c.label("systems", mode, G.k == 1, G.sx, G.sy, G.sz, G.swap, len(la))


def T_obscured(T):
    return any(q.obscuration is not None for q in gen.interfaces(T))


def keyed(rs):
    return {tuple(q.path): q for q in rs if len(q)}


def telescopes(c, rng, i):
    """The shipped telescopes."""
    G = Sym(rng, gentle=True)
    nm, T = gen.pick_scope(rng)
    U = G.optic(T)
    rv = gen.beam(rng, nm, T, 40)
    la, lb = T.traceFull(rv), U.traceFull(G.rays(rv))
    logs(c, G, T, U, la, lb, "telescope", 1.0, 1e-9)
    c.label("telescopes", nm, G.k == 1, G.sx, G.sy, G.sz, G.swap)


# ------------------------------------------------------------ analysis
PAIRS = [3, 4, 6, 8, 10, 11, 13, 15, 17, 19, 21, 22]


def grid(G, a):
    """A map over x (last axis) and y, of the mirrored thing."""
    if G.sx < 0:
        a = a[:, ::-1]
    if G.sy < 0:
        a = a[::-1]
    return a.T if G.swap else a


def analysis(c, rng, i):
    """What is derived from rays: spots, wavefronts, coefficients, derivatives, images."""
    A = batoid.analysis
    nm, T = gen.pick_scope(rng)
    if rng.random() < 0.5:      # no symmetry of its own
        names = [k for k in T.itemDict if not isinstance(T.itemDict[k], batoid.Detector)]
        k = str(names[rng.integers(len(names))])
        try:
            T = T.withLocallyRotatedOptic(k, batoid.RotX(rng.normal() * 1e-4) @ batoid.RotY(rng.normal() * 1e-4))
        except ValueError:
            pass
    do = ["spot", "wavefront", "zernikeGQ", "zernike", "derivatives", "huygens"][i % 6]
    G = Sym(rng, scale=do != "huygens", flip=False, gentle=True)    # diffraction depends on the wavelength
    U = G.optic(T)
    th = np.asarray(gen.field(rng, nm), float)
    ph = np.array([float(q) for q in G.xy(*th)])
    wl = float(gen.scope_wl(rng, nm))
    proj = str(rng.choice(["postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"]))
    kw = dict(projection=proj)
    nx = int(rng.choice([7, 9, 15, 21]))
    rf = str(rng.choice(["chief", "mean"]))
    M2 = G.M[:2, :2]
    c.label("analysis", do, nm, G.k == 1, G.sx, G.sy, G.swap, proj, rf)
    call = lambda fn, **q: (fn(T, th[0], th[1], wl, **kw, **q), fn(U, ph[0], ph[1], wl, **kw, **q))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if do == "spot":
            p, q = call(A.spot, nx=nx, reference=rf)
            a, b = np.array(p), np.array(q) / G.k
            if a.shape == b.shape:
                a = np.array(G.xy(a[0], a[1]))
                a, b = [s[:, np.lexsort(np.round(s / 1e-9))] for s in (a, b)]
                c.event(a.size)
                if a.size:
                    # in any order: every spot has its image
                    d = np.abs(a[:, :, None] - b[:, None, :]).max(axis=0)
                    c.ok(np.all(d.min(axis=0) < 1e-10) and np.all(d.min(axis=1) < 1e-10), "spot", lambda: "%s %s: %g" % (nm, G, max(d.min(axis=0).max(), d.min(axis=1).max())))
            else:
                c.note("spot:edge")
        elif do == "wavefront":
            p, q = call(A.wavefront, nx=nx, reference=rf)
            a, b = grid(G, p.array), q.array / G.k
            ma, mb = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
            if not np.array_equal(ma, mb) and rf == "mean":
                c.note("wavefront:edge")
                return
            c.ok((ma != mb).sum() <= 4, "wavefront:mask", lambda: "%s %s: %d differ" % (nm, G, (ma != mb).sum()))
            g = ~ma & ~mb
            if g.any():
                s = 1 + float(np.abs(np.asarray(a[g])).max())
                c.close(np.asarray(b[g]), np.asarray(a[g]), "wavefront", atol=2e-6 * s, msg="%s %s" % (nm, G))
            c.close(np.sort(np.abs(q.primitiveVectors / G.k).ravel()), np.sort(np.abs(p.primitiveVectors).ravel()), "wavefront:lattice", rtol=1e-9, atol=1e-15)
        elif do in ("zernikeGQ", "zernike"):
            jm = int(rng.choice(PAIRS))
            q = dict(jmax=jm, eps=float(rng.choice([0.0, rng.uniform(0.1, 0.6)])))
            if do == "zernike":
                q["nx"] = 15 if jm < 12 else 31
                q["reference"] = rf
            else:
                q.update(rings=int(rng.integers(5, 10)), spokes=int(rng.choice([16, 20, 24])))      # a symmetric pattern
            r = []
            for S, f in ((T, th), (U, ph)):
                try:
                    r.append(getattr(A, do)(S, f[0], f[1], wl, **kw, **q))
                except ValueError as e:
                    c.ok("failed rays" in str(e), do + ":refused", str(e))
                    r.append(None)
            a, b = r
            c.ok((a is None) == (b is None), do + ":refused-one", "%s %s" % (nm, G))
            if a is None or b is None:
                return
            if not (np.isfinite(a).all() and np.isfinite(b).all()):
                c.event()
                return
            w = G.zernikes(np.append(a, 0.0))[:len(a)]
            s = 1 + np.abs(a).max()
            # rays at the edge of an aperture may change sides: seen as a jump in the fit, judged by counting such rays
            if do == "zernike" and edges(G, T, U, th, ph, wl, proj, q["nx"]):
                c.note("zernike:edge")
                return
            c.close(b[1:] / G.k, w[1:], do, atol=(2e-5 if do == "zernike" else 1e-6) * s, msg="%s %s" % (nm, G))
        elif do == "derivatives":
            q = dict(nrad=int(rng.integers(3, 7)), naz=int(rng.choice([12, 24])))
            p = G.M[:2, :2]
            a, b = call(A.dkdu, **q)
            # the fans of rays are not quite symmetric: only as good as the linear fit
            c.close(b * G.k, p @ a @ p.T, "dkdu", atol=(0.03 if G.swap else 1e-3) * np.abs(a).max(), msg="%s %s" % (nm, G))
            a, b = call(A.drdth, **q)
            if np.isfinite(a).all() and np.isfinite(b).all():
                c.close(b / G.k, p @ a @ p.T, "drdth", atol=(0.01 if G.swap else 1e-3) * np.abs(a).max(), msg="%s %s" % (nm, G))
            if nm in ("LSST_r.yaml", "HSC.yaml", "DECam.yaml", "SDSS.yaml"):
                a, b = A.exitPupilPos(T, wl), A.exitPupilPos(U, wl)
                c.close(b / G.k, G.M @ a, "exitPupilPos", atol=1e-4 * np.abs(a).max(), msg="%s %s" % (nm, G))
        else:
            n = int(rng.choice([5, 7, 9]))
            dx, dy = rng.uniform(0.5e-6, 5e-6, 2)
            p = A.huygensPSF(T, *th, wl, nx=nx, nxOut=n, dx=dx, dy=dy, reference="chief", **kw)
            if G.swap:
                dx, dy = dy, dx
            q = A.huygensPSF(U, *ph, wl, nx=nx, nxOut=n, dx=dx, dy=dy, reference="chief", **kw)
            c.close(q.coords, p.coords[..., ::-1].transpose(1, 0, 2) if G.swap else p.coords, "huygens:lattice", atol=1e-18)
            if edges(G, T, U, th, ph, wl, proj, nx):
                c.note("huygens:edge")
                return
            c.close(q.array, grid(G, p.array), "huygens", atol=1e-5 * p.array.max(), msg="%s %s" % (nm, G))


def edges(G, T, U, th, ph, wl, proj, nx):
    """Does rounding take other rays of a grid away in the copy?"""
    m = []
    for S, f in ((T, th), (U, ph)):
        g = batoid.RayVector.asGrid(optic=S, wavelength=wl, nx=nx, dirCos=batoid.utils.fieldToDirCos(*f, projection=proj))
        S.trace(g)
        m.append(np.array(g.vignetted | g.failed).reshape(nx, nx))
    return not np.array_equal(grid(G, m[0]), m[1])


def bundles(c, rng, i):
    """The generators of rays and the phases of bundles, in another unit."""
    G = Sym(rng, mirror=False, flip=False)
    k = G.k
    nm, T = gen.pick_scope(rng)
    U = G.optic(T)
    wl = float(gen.scope_wl(rng, nm))
    th = gen.field(rng, nm)
    kw, kl = dict(wavelength=wl), {}
    if rng.random() < 0.6:
        kw.update(theta_x=float(th[0]), theta_y=float(th[1]))
    else:
        d = np.array([rng.normal() * 0.1, rng.normal() * 0.1, -1.0])
        kw["dirCos"] = d / np.linalg.norm(d)
    if rng.random() < 0.4:
        kl["backDist"] = float(rng.uniform(1, 50))
    how = ["asGrid", "asPolar", "asSpokes", "fromStop", "asGrid", "source"][i % 6]
    D = T.pupilSize
    R = batoid.RayVector
    if how == "asGrid":
        kw["nx"] = int(rng.integers(2, 20))
        if rng.random() < 0.5:
            kl["lx"] = float(D * rng.uniform(0.2, 2))
        fn = R.asGrid
    elif how == "asPolar":
        kw.update(nrad=int(rng.integers(1, 7)), naz=int(rng.integers(3, 30)))
        kl.update(outer=D / 2, inner=float(D * rng.uniform(0, 0.3)))
        fn = R.asPolar
    elif how == "asSpokes":
        kw.update(spokes=int(rng.integers(2, 9)), rings=int(rng.integers(2, 9)))
        kl.update(outer=D / 2, inner=float(D * rng.uniform(0, 0.3)))
        fn = R.asSpokes
    elif how == "fromStop":
        x, y = rng.normal(size=(2, 9)) * D / 4
        fn = lambda **q: R.fromStop(*q.pop("at"), **q)
        kl["at"] = np.array([x, y])
    else:
        kw = dict(wavelength=wl, nx=5)
        kl["source"] = np.array([rng.normal() * 10, rng.normal() * 10, rng.uniform(100, 1e4)])
        fn = R.asGrid
    a = fn(optic=T, **kw, **kl)
    b = fn(optic=U, **kw, **{q: k * v for q, v in kl.items()})
    alike(c, G, a, b, how, rtol=1e-11)
    # phases: lengths and wavelengths in the same unit
    p, t = rng.normal(size=3), float(rng.normal())
    e = gen.build(k * a.r, a.v, k * a.t, k * a.wavelength, a.flux, a.vignetted, a.failed)
    a = gen.build(a.r, a.v, a.t, a.wavelength, a.flux, a.vignetted, a.failed)
    ph, qh = a.phase(p, t), e.phase(k * p, k * t)
    s = 1 + np.abs(ph).max(initial=0)
    c.close(qh, ph, "phase", atol=1e-14 * s)
    c.close(e.amplitude(k * p, k * t), a.amplitude(p, t), "amplitude", atol=1e-14 * s)
    c.close(e.sumAmplitude(k * p, k * t), a.sumAmplitude(p, t), "sum", atol=1e-14 * s * len(a))
    c.close(e.positionAtTime(k * t) / k, a.positionAtTime(t), "position", atol=1e-12 * (1 + np.abs(a.r).max()))
    c.label("bundles", how, nm, k)


CASES = [
    ("surfaces", surfaces, 2400, 60000),
    ("shapes", shapes, 1200, 30000),
    ("systems", systems, 700, 15000),
    ("telescopes", telescopes, 200, 4000),
    ("analysis", analysis, 240, 4000),
    ("bundles", bundles, 900, 20000),
]
