"""Online checkers: each takes the observed before/after of one public operation on a ray bundle
and judges it against the reference physics (vm/ref.py)."""
import numpy as np
import batoid
from . import ref

L = np.longdouble


def snap(rv):
    """Values of a bundle, copied out (the event as recorded)."""
    return dict(r=np.array(rv.r), v=np.array(rv.v), t=np.array(rv.t), w=np.array(rv.wavelength),
                f=np.array(rv.flux), vig=np.array(rv.vignetted), fail=np.array(rv.failed), cs=rv.coordSys)


def local(b, cs):
    """Recorded positions and velocities expressed in frame cs (long double)."""
    return ref.to_frame(b["cs"], cs, b["r"], b["v"])


def scale_of(b, cs, s=None):
    r = np.abs(np.nan_to_num(b["r"].astype(float), nan=0, posinf=0, neginf=0))
    return 1.0 + (r.max() if r.size else 0) + np.abs(b["cs"].origin).max() + np.abs(cs.origin).max()


def rmax(s):
    """Largest radius of curvature in a surface: R*(1-sqrt(1-r^2/R^2)) is rounded at R*eps."""
    if type(s).__name__ == "Sum":
        return max(rmax(q) for q in s.surfaces)
    return abs(getattr(s, "R", 0.0))


def flags(c, b, a, tag, newly=None):
    """failed/vignetted only accumulate, failed implies vignetted for rays failed here."""
    c.ok(not np.any(b["fail"] & ~a["fail"]), tag + ":unfailed", "a failed ray was revived")
    c.ok(not np.any(b["vig"] & ~a["vig"]), tag + ":unvignetted", "a vignetted ray was revived")
    new = a["fail"] & ~b["fail"]
    c.ok(not np.any(new & ~a["vig"]), tag + ":failed-not-vignetted", "a ray failed but is not vignetted")
    c.ok(not np.any(~new & (a["vig"] != b["vig"]) & ~b["fail"]), tag + ":vignetted-changed",
         "an unfailed ray became vignetted")
    c.equal(a["w"], b["w"], tag + ":wavelength")
    return new


def finite(c, a, tag):
    u = ~a["fail"]
    good = np.isfinite(a["r"][u]).all() and np.isfinite(a["v"][u]).all() and np.isfinite(a["t"][u]).all()
    c.ok(good, tag + ":non-finite", "an unfailed ray has non-finite coordinates, velocity or time")


def landed(c, s, b, a, cs, tag, extra_t=None, gsel=None):
    """Every unfailed ray lies on the surface, on its own line, at the right time.  Returns (mask, r0, v0)."""
    c.ok(a["cs"] == cs, tag + ":frame", "rays are not in the frame of the surface")
    finite(c, a, tag)
    r0, v0 = local(b, cs)
    u = ~a["fail"]
    if not u.any():
        return u, r0, v0
    sc = scale_of(b, cs)
    R = a["r"][u].astype(L)
    dr = R - r0[u]
    vv = np.sum(v0[u] * v0[u], axis=1)
    dt = np.sum(dr * v0[u], axis=1) / vv
    off = dr - dt[:, None] * v0[u]
    tol = 4e-14 * (sc + np.abs(dr).max())
    c.close(off.astype(float), np.zeros(off.shape), tag + ":off-line", atol=tol)
    extra = 0 if extra_t is None else extra_t[u]
    c.close(a["t"][u], (b["t"][u] + dt + extra).astype(float), tag + ":time",
            atol=4e-14 * (sc + float(np.abs(b["t"][u]).max()) + float(np.abs(dt).max())) * float(1 / np.sqrt(vv.min())))
    z = ref.sag(s, R[:, 0], R[:, 1])
    gx, gy = ref.grad(s, R[:, 0], R[:, 1])
    steep = np.sqrt(1 + gx * gx + gy * gy)
    it = type(s).__name__ in ("Asphere", "Zernike", "Bicubic", "Sum")
    tz = ((2e-12 if it else 0) + 1e-15 * rmax(s) + 4e-14 * (sc + np.abs(dr).max())) * np.where(np.isfinite(steep), steep, 1e8)
    bad = ~(np.abs(z - R[:, 2]) <= tz)
    c.event(len(bad))
    if bad.any():
        j = int(np.argmax(bad))
        c.fail(tag + ":off-surface", "%d of %d rays not on the surface; e.g. (x,y)=(%r,%r) z=%r sag=%r" % (
            bad.sum(), len(bad), float(R[j, 0]), float(R[j, 1]), float(R[j, 2]), float(z[j])), surface=repr(s)[:400])
    return u, r0, v0


def conic_expect(s, r0, v0):
    """Per ray: +1 a unique robust crossing of the vertex sheet exists, -1 clearly none, 0 borderline;
    and the time of the documented crossing."""
    t = type(s).__name__
    n = len(r0)
    if t in ("Plane", "Tilted"):
        tx, ty = (0, 0) if t == "Plane" else (L(s.tanx), L(s.tany))
        den = v0[:, 2] - tx * v0[:, 0] - ty * v0[:, 1]
        num = tx * r0[:, 0] + ty * r0[:, 1] - r0[:, 2]
        vn = np.sqrt(np.sum(v0 * v0, axis=1))
        with np.errstate(all="ignore"):
            return np.where(np.abs(den) > 1e-9 * vn, 1, 0), num / den
    T, ok, reld, sheet, Z = ref.conic_crossings(s, r0, v0)
    fin = np.isfinite(T)
    with np.errstate(all="ignore"):
        robust = np.abs(sheet) > 1e-7
        Zabs = np.where(ok, np.abs(Z), np.inf)
        pick = np.argmin(Zabs, axis=1)
        tt = T[np.arange(n), pick]
        nok = ok.sum(axis=1)
        border = (np.abs(reld) < 1e-9) | np.any(fin & ~robust, axis=1)
        # two candidates nearly equally high: either may be chosen by rounding
        both = ok.all(axis=1)
        tie = both & (np.abs(np.abs(Z[:, 0]) - np.abs(Z[:, 1])) <= 1e-9 * (1 + np.abs(Z).max(axis=1)))
        # grazing / nearly linear equations: far-away second root
        huge = np.any(fin & (np.abs(Z) > 1e7), axis=1)
    verdict = np.where(nok > 0, 1, -1)
    verdict = np.where(border | tie | (np.isnan(reld)), 0, verdict)
    del huge
    return verdict, tt


def hits(c, s, b, a, cs, tag, mild=False):
    """Rays that must (not) meet the surface, and which crossing."""
    kind = type(s).__name__
    r0, v0 = local(b, cs)
    live = ~b["fail"]
    if kind in ("Plane", "Tilted", "Paraboloid", "Sphere", "Quadric"):
        ver, tt = conic_expect(s, r0, v0)
        c.ok(not np.any(live & (ver == 1) & a["fail"]), tag + ":missed",
             "rays that meet the surface are marked failed: %d" % np.sum(live & (ver == 1) & a["fail"]),
             surface=repr(s))
        c.ok(not np.any(live & (ver == -1) & ~a["fail"]), tag + ":false-hit",
             "rays that do not meet the surface are not failed", surface=repr(s))
        sel = live & (ver == 1)
        if sel.any():
            want = (r0 + v0 * tt[:, None])[sel]
            sc = scale_of(b, cs) + float(np.abs(want).max())
            # grazing incidence: the crossing moves along the line by rounding/sin(grazing)
            g = ref.normal(s, want[:, 0], want[:, 1])
            cosi = np.abs(np.sum(g * v0[sel], axis=1)) / np.sqrt(np.sum(v0[sel] ** 2, axis=1))
            ok = cosi > 1e-3
            if ok.any():
                c.close(a["r"][sel][ok], want[ok].astype(float), tag + ":wrong-crossing",
                        atol=(1e-13 * sc / np.maximum(cosi[ok], 1e-6) ** 2).astype(float)[:, None])
        for k, v in ((1, "hit"), (-1, "miss"), (0, "borderline")):
            n = int(np.sum(live & (ver == k)))
            if n:
                c.note("%s:%s" % (kind, v), n)
                c.label("crossing", kind, v, min(n, 9), tag)
    elif mild:
        c.ok(not np.any(live & a["fail"]), tag + ":missed",
             "rays aimed inside a gently perturbed surface failed: %d" % np.sum(live & a["fail"]), surface=repr(s)[:300])


TILT = "tilted-normal"


def true_normal(s, R):
    return ref.normal(s, R[:, 0], R[:, 1])


def buggy_tilted_normal(s, n):
    t2 = s.tanx ** 2 + s.tany ** 2
    nz = np.sqrt(1 - t2) if t2 < 1 else np.nan
    return np.broadcast_to(np.array([-s.tanx, -s.tany, nz]), (n, 3)).astype(L)


# ---------------------------------------------------------------- reflection, refraction
def ntol(s, R, postol):
    """Per-ray tolerance of a unit normal at points known to postol."""
    from . import c04
    x, y = R[:, 0], R[:, 1]
    h = L(1e-6) * (1 + np.hypot(x, y))
    n0 = ref.normal(s, x, y)
    with np.errstate(all="ignore"):
        k = np.maximum(np.abs(ref.normal(s, x + h, y) - n0).max(axis=1), np.abs(ref.normal(s, x, y + h) - n0).max(axis=1)) / h
        k2 = np.maximum(np.abs(ref.normal(s, x - h, y) - n0).max(axis=1), np.abs(ref.normal(s, x, y - h) - n0).max(axis=1)) / h
        gx, gy = ref.grad(s, x, y)
        slope2 = 1 + gx * gx + gy * gy
        k = np.where(np.isfinite(k), k, k2)
        k = np.where(np.isfinite(k), k, 1e6)
    t = 2e-14 + 4e-15 * np.asarray(c04.curv(s, x.astype(float), y.astype(float))) + k * postol
    if c04.domain(s) is not None:
        t = t + 2e-14 * slope2
    return t.astype(float)


def tilted_known(c, s, R, got, want_of, tol_of):
    """Tilted surfaces: True when the observed velocities follow the known wrong normal (not the true one).

    want_of(n) -> velocities for normals n; tol_of(n) -> per-ray tolerance (inf where not judged)."""
    if type(s).__name__ != "Tilted" or not len(R):
        return False

    def follows(n):
        w = np.asarray(want_of(n), float)
        with np.errstate(all="ignore"):
            d = np.abs(got - w).max(axis=1)
            t = tol_of(n)
            return not np.any((d > t) | (np.isnan(d) & np.isfinite(t) & ~(np.isnan(w).any(axis=1) & np.isnan(got).any(axis=1))))
    if follows(true_normal(s, R)):
        return False
    if follows(buggy_tilted_normal(s, len(R))):
        c.event(len(R))
        c.known(TILT, "Tilted(%r, %r)" % (s.tanx, s.tany))
        return True
    return False


def reflected(c, s, b, a, cs, tag, coating=None, new_ok=None):
    """Judge one reflection event."""
    c.ok(a["cs"] == cs, tag + ":frame", "rays are not in the frame of the surface")
    new = flags(c, b, a, tag)
    u = ~a["fail"]
    fac = np.ones(len(u)) if coating is None else np.where(u, coating.reflectivity, 1.0)
    c.close(a["f"], b["f"] * fac, tag + ":flux", rtol=1e-14)
    if not u.any():
        return u
    r0, v0 = local(b, cs)
    R = a["r"][u].astype(L)
    vw = v0[u]
    if type(s).__name__ == "Tilted" and s.tanx ** 2 + s.tany ** 2 >= 1 and not np.isfinite(a["v"][u]).any():
        c.known(TILT, "Tilted(%r, %r)" % (s.tanx, s.tany))
        return u
    if tilted_known(c, s, R, a["v"][u], lambda n: ref.reflect_dir(vw, n), lambda n: np.full(len(R), 1e-12)):
        return u
    # the incoming ray carried to the surface is judged by landed() on a bundle that still has its old velocity
    landed(c, s, b, dict(a, v=np.where(u[:, None], v0.astype(float), a["v"])), cs, tag)
    finite(c, a, tag)
    sc = scale_of(b, cs) + float(np.abs(R).max())
    n = true_normal(s, R)
    sp = np.sqrt(np.sum(vw * vw, axis=1))
    it = type(s).__name__ in ("Asphere", "Zernike", "Bicubic", "Sum")
    tn = ntol(s, R, (2e-12 if it else 0) + 1e-13 * sc)
    want = ref.reflect_dir(vw, n)
    got = a["v"][u]
    ok = tn < 1e-4        # far outside a Zernike disc the normal is not known well enough
    if ok.any():
        c.close(got[ok], want[ok].astype(float), tag + ":law", atol=(6 * sp * tn + 1e-14).astype(float)[ok][:, None],
                msg="law of reflection on %s" % repr(s)[:300])
    c.note(tag + ":judged", int(ok.sum()))
    c.close(np.sqrt(np.sum(got.astype(L) ** 2, axis=1)).astype(float), sp.astype(float), tag + ":speed",
            rtol=1e-13 + 0.0 * float(tn.max()))
    ci = np.abs(np.sum(n * vw, axis=1) / sp)
    for lo, hi, k in ((0, .1, "grazing"), (.1, .9, "oblique"), (.9, 2, "steep")):
        m = int(np.sum((ci >= lo) & (ci < hi)))
        if m:
            c.note(tag + ":" + k, m)
    c.label("reflect", tag, type(s).__name__, int(np.sum(np.sum(n * vw, axis=1) > 0)) // 10, int(new.sum()) // 10)
    return u


def refracted(c, s, b, a, cs, m2, tag, coating=None, hitmask=None):
    """Judge one refraction event; hitmask: which live rays reach the surface (observed separately)."""
    c.ok(a["cs"] == cs, tag + ":frame", "rays are not in the frame of the surface")
    new = flags(c, b, a, tag)
    u = ~a["fail"]
    fac = np.ones(len(u)) if coating is None else np.where(u, coating.transmissivity, 1.0)
    c.close(a["f"][u], (b["f"] * fac)[u], tag + ":flux", rtol=1e-14)
    r0, v0 = local(b, cs)
    n2 = ref.index(m2, b["w"])
    sp = np.sqrt(np.sum(v0 * v0, axis=1))
    tilted = type(s).__name__ == "Tilted"
    if hitmask is not None:
        # where each live ray meets the surface, from the separately observed intersection
        hit, P = hitmask
        live = ~b["fail"]
        c.ok(not np.any(live & ~hit & u), tag + ":missed-not-failed", "a ray that misses the surface is not failed")
        h = live & hit
        P = P[h].astype(L)
        n = true_normal(s, P)
        _, s2 = ref.refract_dir(v0[h], n, 1 / sp[h], n2[h])
        must_fail = ~(s2 < 1 + 1e-9)
        must_live = s2 < 1 - 1e-9
        bad1 = must_fail & u[h]
        bad2 = must_live & ~u[h]
        if tilted and (bad1.any() or bad2.any()):
            nb = buggy_tilted_normal(s, len(P))
            _, sb = ref.refract_dir(v0[h], nb, 1 / sp[h], n2[h])
            if not np.any(~(sb < 1 + 1e-9) & u[h]) and not np.any((sb < 1 - 1e-9) & ~u[h]):
                c.known(TILT, "Tilted(%r, %r)" % (s.tanx, s.tany))
                bad1, bad2 = bad1 & False, bad2 & False
        c.ok(not bad1.any(), tag + ":tir-not-failed", "%d totally reflected (or index-less) rays are not failed" % bad1.sum(),
             surface=repr(s)[:300], medium=repr(m2)[:200])
        c.ok(not bad2.any(), tag + ":failed", "%d rays that refract are failed" % bad2.sum(),
             surface=repr(s)[:300], medium=repr(m2)[:200])
        for k, m in (("total-reflection", must_fail & np.isfinite(s2.astype(float))), ("no-index", np.isnan(s2.astype(float))),
                     ("refracted", must_live)):
            if m.any():
                c.note(tag + ":" + k, int(m.sum()))
                c.label("class", tag, type(s).__name__, type(m2).__name__, k)
    if not u.any():
        return u
    R = a["r"][u].astype(L)
    vw = v0[u]
    sgn = lambda n: np.sign(np.sum(vw * n, axis=1))
    want_of = lambda n: ref.refract_dir(vw, n, 1 / sp[u], n2[u])[0]

    def tol_of(n):
        n2u = n2[u]
        eta = (1 / sp[u]) / n2u
        _, s2 = ref.refract_dir(vw, n, 1 / sp[u], n2u)
        c2 = np.sqrt(np.maximum(1 - s2, 0))
        c1 = np.abs(np.sum(vw * n, axis=1)) / sp[u]
        t = 1e-12 * (1 + eta) ** 2 * (1 + 1 / np.maximum(c2, 1e-4))
        return np.where((c2 > 1e-4) & (c1 > 1e-8), t, np.inf).astype(float)
    if tilted_known(c, s, R, a["v"][u], want_of, tol_of):
        return u
    landed(c, s, b, dict(a, v=np.where(u[:, None], v0.astype(float), a["v"])), cs, tag)
    finite(c, a, tag)
    n = true_normal(s, R)
    want, s2 = ref.refract_dir(vw, n, 1 / sp[u], n2[u])
    got = a["v"][u]
    gs = np.sqrt(np.sum(got.astype(L) ** 2, axis=1))
    c.close((gs * n2[u]).astype(float), 1.0, tag + ":speed", atol=2e-12, msg="speed is not 1/n2 (%s)" % repr(m2)[:200])
    sc = scale_of(b, cs) + float(np.abs(R).max())
    it = type(s).__name__ in ("Asphere", "Zernike", "Bicubic", "Sum")
    tn = ntol(s, R, (2e-12 if it else 0) + 1e-13 * sc) + 1e-14
    c2 = np.sqrt(np.maximum(1 - s2, 0))
    eta = (1 / sp[u]) / n2[u]
    tol = (30 * (1 + eta) ** 2 * (tn + 1e-14) * (1 + 1 / np.maximum(c2, 1e-4)) / n2[u]).astype(float)
    c1 = np.abs(np.sum(vw * n, axis=1)) / sp[u]
    # not judged: leaving along the surface, arriving along it, normals known too poorly (far outside a Zernike disc)
    ok = (c2 > 1e-4) & (c1 > 1e-9 + 10 * tn) & (tol < 1e-3)
    if ok.any():
        c.close(got[ok], want[ok].astype(float), tag + ":snell", atol=tol[ok][:, None],
                msg="Snell's law on %s into %s" % (repr(s)[:300], repr(m2)[:200]))
    side = sgn(n) * np.sign(np.sum(got * n, axis=1))
    c.ok(not np.any(side[ok] < 0), tag + ":side", "a refracted ray does not go through the surface")
    c.label("refract", tag, type(s).__name__, type(m2).__name__, int(np.sum(sgn(n) > 0)) // 10, int(new.sum()) // 10)
    return u
