"""C33: the interactive view shows what its controls say, whatever was turned before: sky, telescope, rays, frames, spots, wavefront."""
import copy
import os
import numpy as np
import batoid
from . import gen, mon

L = np.longdouble
LAT, LON, DIST, WL = -30.2446, -70.7494, 15000.0, 620e-9
FLAGS = ["telescope", "horizon", "rays", "CCS", "OCS", "ZCS", "EDCS", "DVCS"]
FIELD = dict(ra="ra", dec="dec", jd="jd", alt="alt", az="az", rtp="rtp", thx="thx", thy="thy", z="z_offset", noll="noll", perturb="perturb")
_mods = {}


def module():
    """The application, without a screen."""
    if not _mods:
        import matplotlib
        matplotlib.use("agg")
        import matplotlib.pyplot as plt
        import IPython.display
        plt.show = lambda *a, **k: None
        IPython.display.display = lambda *a, **k: None
        from astropy.io import fits
        import batoid.app as A
        _mods["A"] = A
        d = os.path.join(batoid.datadir, "misc")
        _mods["lines"] = np.array(fits.getdata(os.path.join(d, "constellations.fits")), float)
        t = fits.getdata(os.path.join(d, "BSC5.fits"))
        _mods["stars"] = np.array(t["ra"], float), np.array(t["dec"], float), np.array(t["mag"], float)
        _mods["T"] = batoid.Optic.fromYaml("LSST_r_align_holes.yaml")
    return _mods["A"]


# ------------------------------------------------------------ the sky
def gmst(jd):
    """Mean sidereal time at Greenwich (degrees), IAU 2006, from the rotation angle of the Earth; UT1 for TT."""
    d = L(jd) - L(2451545)
    t = d / L(36525)
    era = 360 * (L("0.7790572732640") + L("0.00273781191135448") * d + d % 1)
    return (era + (L("0.014506") + L("4612.156534") * t + L("1.3915817") * t * t) / 3600) % 360


def rad(q):
    return np.asarray(q, L) * (L(np.pi) + L("1.2246467991473531772e-16")) / 180


def above(v, lst):
    """Equatorial directions as north, west, up for sidereal time lst (degrees)."""
    h, p = rad(lst), rad(LAT)
    x = np.cos(h) * v[0] + np.sin(h) * v[1]       # towards the equator on the meridian
    y = -np.sin(h) * v[0] + np.cos(h) * v[1]      # east
    z = v[2]
    return np.array([-np.sin(p) * x + np.cos(p) * z, -y, np.cos(p) * x + np.sin(p) * z])


def equatorial(ra, dec):
    a, d = rad(ra), rad(dec)
    return np.array([np.cos(d) * np.cos(a), np.cos(d) * np.sin(a), np.sin(d)])


def horizontal(alt, az):
    """North, west, up; azimuth from north through east."""
    a, z = rad(alt), rad(az)
    return np.array([np.cos(a) * np.cos(z), -np.cos(a) * np.sin(z), np.sin(a)])


def sky(c, rng, i):
    """Sidereal time, and equatorial to horizontal coordinates and back."""
    A = module()
    n = 50
    jd = rng.uniform(2415020, 2488070, n)           # 1900 to 2100
    if i % 3 == 0:
        jd = 2451545 + rng.integers(-20000, 20000, n) * 0.5
    lon = rng.uniform(-180, 180, n)
    s = np.array([A.lst(float(a), float(b)) for a, b in zip(jd, lon)], float)
    c.ok(np.all((s >= 0) & (s < 360)), "lst:range")
    d = (s - (gmst(jd) + lon).astype(float) + 180) % 360 - 180
    c.ok(np.all(np.abs(d) < 2e-3), "lst", lambda: "%g degrees from the mean sidereal time" % np.abs(d).max())
    ra = rng.uniform(-360, 720, n)
    dec = np.rad2deg(np.arcsin(rng.uniform(-0.9999, 0.9999, n)))
    lat = rng.uniform(-89, 89, n)
    for k in range(n):
        alt, az = A.eq_to_az(ra[k], dec[k], jd[k], lat[k], lon[k])
        global LAT
        keep, LAT = LAT, lat[k]
        try:
            want = above(equatorial(ra[k], dec[k]), s[k])
        finally:
            LAT = keep
        c.close(horizontal(alt, az).astype(float), want.astype(float), "eq_to_az", atol=3e-8)
        if abs(float(want[2])) < 0.99999999:
            r, e = A.az_to_eq(alt, az, jd[k], lat[k], lon[k])
            c.close(equatorial(r, e).astype(float), equatorial(ra[k], dec[k]).astype(float), "az_to_eq", atol=1e-7)
    c.label("sky", int(i % 3))


# ------------------------------------------------------------ the telescope, by rigid motions alone
class View:
    """What should be seen, from the values of the controls."""

    def __init__(self, S):
        self.S = S
        T = module() and _mods["T"]
        self.T = T.withLocallyRotatedOptic("LSSTCamera", batoid.RotZ(np.deg2rad(S["rtp"])))
        a, b = np.deg2rad(90 - S["az"]), np.deg2rad(90 - S["alt"])
        ca, sa, cb, sb = np.cos(a), np.sin(a), np.cos(b), np.sin(b)
        self.R = np.array([[ca, -sa, 0], [sa, ca, 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, cb, -sb], [0, sb, cb]])

    def place(self, p):
        """From the telescope's own frame: M1 3.53 m above ground, elevation axis at 5.425 m."""
        return (np.asarray(p) + [0, 0, 3.53 - 5.425]) @ self.R.T + [0, 0, 5.425]

    def frame(self, name):
        cs = self.T[name].coordSys
        return self.place(cs.origin), self.R @ cs.rot

    def axes(self, o, R, n):
        return [(o, o + n * R[:, k]) for k in range(3)]

    def mesh(self):
        return self.place(np.array(self.T.get3dmesh()).T).T

    def rays(self):
        S = self.S
        rv = batoid.RayVector.asFan(optic=self.T, wavelength=WL, theta_x=np.deg2rad(S["thx"]), theta_y=np.deg2rad(S["thy"]),
                                    nx=30, ny=30, lx=8.359, ly=8.359)
        tf = self.T.traceFull(rv.copy())
        p = [glob(rv, rv.positionAtTime(-DIST))]
        for e in tf.values():
            q = glob(e["out"], np.array(e["out"].r))
            q[np.array(e["out"].vignetted)] = np.nan
            p.append(q)
        p.append(np.full_like(p[0], np.nan))
        return self.place(np.array(p).transpose(1, 0, 2))       # ray, vertex, xyz

    def screen(self):
        S = self.S
        if abs(S["perturb"]) <= 1e-6:
            return None
        return batoid.Zernike(np.array([0] * S["noll"] + [S["perturb"] * 1e-6]), R_outer=4.18, R_inner=0.61 * 4.18)

    def through(self, rv, T):
        z = self.screen()
        rv = rv.copy()
        if z is not None:
            cs = T.stopSurface.coordSys
            batoid.Plane().refractScreen(rv, z, coordSys=cs)
            batoid.ObscNegation(batoid.ObscCircle(5.0)).obscure(rv)
        return T.trace(rv)

    def spot(self):
        S = self.S
        th = dict(theta_x=np.deg2rad(S["thx"]), theta_y=np.deg2rad(S["thy"]), wavelength=WL)
        T = self.T.withLocallyShiftedOptic("Detector", [0, 0, S["z"] * 1e-3])
        rv = batoid.RayVector.asPolar(optic=T, nrad=50, naz=300, **th)
        at = T.stopSurface.surface.intersect(rv.copy())
        rp = np.hypot(at.x, at.y)
        ch = self.through(batoid.RayVector.fromStop(optic=T, x=0, y=0, **th), T)
        rv = self.through(rv, T)
        return np.array(rv.x - ch.x[0]), np.array(rv.y - ch.y[0]), ~np.array(rv.vignetted), rp

    def wavefront(self):
        S = self.S
        T = self.T
        z = self.screen()
        if z is not None:
            T = batoid.CompoundOptic(
                [batoid.OPDScreen(batoid.Plane(), z, name="screen", obscuration=batoid.ObscNegation(batoid.ObscCircle(5.0)),
                                  coordSys=T.stopSurface.coordSys)] + list(T.items),
                name="with screen", backDist=T.backDist, pupilSize=T.pupilSize, inMedium=T.inMedium, stopSurface=T.stopSurface,
                sphereRadius=T.sphereRadius, pupilObscuration=T.pupilObscuration, coordSys=T.coordSys)
        return batoid.analysis.wavefront(T, np.deg2rad(S["thx"]), np.deg2rad(S["thy"]), WL, nx=256).array


def glob(rv, p):
    return np.asarray(p) @ rv.coordSys.rot.T + rv.coordSys.origin


def shown(s):
    return np.array([np.asarray(s.x, float), np.asarray(s.y, float), np.asarray(s.z, float)])


def drawn(c, s, want, tag, atol, lenient=0):
    got = shown(s)
    want = np.asarray(want, float)
    if not c.ok(got.shape == want.shape, tag + ":points", "%s for %s" % (got.shape, want.shape)):
        return
    d = ~((np.abs(got - want) <= atol) | (np.isnan(got) & np.isnan(want))).all(axis=0)
    c.event(got.size)
    c.ok(d.sum() <= lenient, tag, lambda: "%d of %d points elsewhere: %s for %s" % (d.sum(), len(d), got[:, d][:, 0], want[:, d][:, 0]))


def horizon(S, p):
    p = np.array(p, float)
    if S["horizon"]:
        p[:, p[2] < 0] = np.nan
    return p


def equal_sky(c, S, got, want, tag):
    """Points at the horizon may be on either side of it."""
    want = np.asarray(want, float)
    if not c.ok(got.shape == want.shape, tag + ":points", "%s for %s" % (got.shape, want.shape)):
        return
    up = want[2] >= 0 if S["horizon"] else np.ones(want.shape[1], bool)
    near = np.abs(want[2]) < 1e-4 * DIST
    d = ~np.where(up, (np.abs(got - want) < 1e-5 * DIST).all(axis=0), np.isnan(got).all(axis=0)) & ~(near & bool(S["horizon"]))
    d &= np.isfinite(want).all(axis=0)
    c.event(want.size)
    c.ok(not d.any(), tag, lambda: "%d of %d points elsewhere: %s for %s" % (d.sum(), len(d), got[:, d][:, 0], want[:, d][:, 0]))


def look(c, app, S, all=True):
    """Everything on show against the values of the controls."""
    A = module()
    V = View(S)
    for k in FIELD:
        v = getattr(app, k + "_control").value
        if k in ("ra", "az"):
            c.ok(abs((v - S[k] + 180) % 360 - 180) < 1e-6 + 1e-6 / max(1e-6, np.cos(np.deg2rad(S["dec" if k == "ra" else "alt"]))), "control:" + k, lambda: "%r for %r" % (v, S[k]))
        else:
            c.ok(abs(v - S[k]) < 1e-6, "control:" + k, lambda: "%r for %r" % (v, S[k]))
    for k in FLAGS:
        c.ok(getattr(app, k + "_control").value == S[k], "control:" + k)
    # the sky
    s = A.lst(S["jd"], LON)
    stars = _mods["stars"]
    w = stars[2] < 5.5
    c.ok(w.sum() > 100, "harness:stars")
    equal_sky(c, S, shown(app.stars), DIST * above(equatorial(np.rad2deg(stars[0][w]), np.rad2deg(stars[1][w])), s), "stars")
    equal_sky(c, S, shown(app.constellations), DIST * above(_mods["lines"].astype(L), s), "constellations")
    # the pointing: the telescope looks at the place the controls name
    want = above(equatorial(S["ra"], S["dec"]), s).astype(float)
    c.close(V.R[:, 2], horizontal(S["alt"], S["az"]).astype(float), "harness:pointing", atol=1e-12)
    c.close(V.R[:, 2], want, "pointing", atol=1e-7)
    # the telescope and what is fixed to it
    drawn(c, app.telescope, V.mesh(), "telescope", 1e-7)
    c.ok(bool(app.telescope.visible) == S["telescope"], "telescope:visible")
    T = app.actual_telescope
    for nm in ("M1", "M2", "LSSTCamera", "Detector"):
        o, R = V.frame(nm)
        c.close(T[nm].coordSys.origin, o, "actual:origin", atol=1e-7)
        c.close(T[nm].coordSys.rot, R, "actual:rot", atol=1e-8)
    P = np.stack([np.cos(np.linspace(0, 2 * np.pi, 100)), np.sin(np.linspace(0, 2 * np.pi, 100))])
    a = np.deg2rad(90 - S["az"])
    got = shown(app.elevation_bearings)
    g = np.isfinite(got).all(axis=0)
    u = np.array([np.cos(a), np.sin(a), 0.0])
    q = (got[:, g].T - [0, 0, 5.425])
    along, out = q @ u, np.linalg.norm(q - np.outer(q @ u, u), axis=1)
    c.ok(g.sum() >= 400 and np.all(np.minimum(abs(np.abs(along) - 4.4), abs(np.abs(along) - 4.5)) < 1e-6)
         and np.all(np.minimum(abs(out - 1.5), abs(out - 1.75)) < 1e-6), "bearings", "not rings about the elevation axis")
    c.ok((along > 0).sum() == (along < 0).sum(), "bearings:sides")
    got = shown(app.azimuth_ring)
    g = np.isfinite(got).all(axis=0)
    c.ok(np.all(np.minimum(abs(np.hypot(*got[:2, g]) - 4.5), abs(np.hypot(*got[:2, g]) - 5)) < 1e-9) and np.all(abs(abs(got[2, g]) - 0.1) < 1e-12), "ring")
    # rays
    c.ok(bool(app.rays.visible) == S["rays"], "rays:visible")
    if S["rays"]:
        r = V.rays()
        drawn(c, app.rays, r.reshape(-1, 3).T, "rays", 1e-4, lenient=2 * r.shape[1])
    # frames
    d0, dR = V.frame("Detector")
    flip = dR @ np.diag([-1, -1, 1.0])                     # the sky through the telescope is turned half way round
    s0 = DIST * flip[:, 2]
    tr = np.array([[0, 1, 0], [1, 0, 0], [0, 0, -1.0]])    # x and y exchanged
    big = np.deg2rad(5.0) * DIST
    m1 = V.frame("M1")
    lists = dict(CCS=V.axes(*V.frame("LSSTCamera"), 2), OCS=V.axes(*m1, 2), ZCS=V.axes(m1[0], m1[1] @ np.diag([-1, 1, -1.0]), 2),
                 EDCS=V.axes(d0, dR, 2) + V.axes(s0, flip, big), DVCS=V.axes(d0, dR @ tr, 2) + V.axes(s0, flip @ tr, big))
    for k, want in lists.items():
        got = getattr(app, k)
        c.ok(len(got) == len(want), k + ":axes")
        for q, (p0, p1) in zip(got, want):
            c.ok(bool(q.visible) == S[k], k + ":visible")
            if S[k]:
                drawn(c, q, np.array([p0, p1]).T, k, 1e-6 * max(1, np.abs(p1).max()))
        for q in getattr(app, k + "_mpl", ()):
            c.ok(bool(q.get_visible()) == S[k], k + ":rose")
    # the focal plane, on the detector and on the sky
    got = shown(app.fp)
    g = np.isfinite(got).all(axis=0)
    n = np.linalg.norm(got, axis=0) > 1000
    for w, (o, R, size) in ((g & ~n, (d0, dR, 0.31527 * 2 / 5)), (g & n, (s0, flip, DIST * np.deg2rad(0.7)))):
        q = (got[:, w].T - o) @ R / size
        c.ok(w.sum() == 24 and np.all(np.abs(q[:, 2]) < 1e-6), "fp:plane", lambda: "%d points, %g off the plane" % (w.sum(), np.abs(q[:, 2]).max()))
        c.ok(np.allclose(np.sort(np.abs(q[:, :2]), axis=1)[:, 1], 2.5, atol=1e-6)
             or np.allclose(np.round(2 * q[:, :2]), 2 * q[:, :2], atol=1e-6), "fp:lattice")
        c.ok(abs(np.abs(q[:, 0]).max() - 2.5) < 1e-6 and abs(np.abs(q[:, 1]).max() - 2.5) < 1e-6 and not np.any((np.abs(q[:, :2]) > 1.6).all(axis=1)), "fp:outline")
    if not all:
        return
    pictures(c, app, S, V)


def pictures(c, app, S, V):
    # spots, scaled to the axes: 1 is half as far again as nearly all of them
    x, y, vis, rp = V.spot()
    off = np.ma.getdata(app.spot_scatter.get_offsets())
    if not vis.any():
        c.ok(len(off) == 0, "spot:none")
    else:
        m = 1.5 * np.quantile(np.abs([x[vis], y[vis]]), 0.98)
        al = np.asarray(app.spot_scatter.get_alpha())
        if c.ok(len(off) == len(x) and al.shape == vis.shape, "spot:points", "%d for %d" % (len(off), len(x))):
            sure = (al > 0) == vis
            c.ok(sure.sum() >= len(x) - 20, "spot:visible", lambda: "%d rays differ" % (~sure).sum())
            k = vis & sure
            tol = 1e-3 + 1e-9 / m
            c.ok(np.all(np.abs(off[k] - np.stack([x, y], 1)[k] / m) < tol), "spot", lambda: "off by %g" % np.abs(off[k] - np.stack([x, y], 1)[k] / m).max())
            col = np.asarray(app.spot_scatter.get_array())
            r = (rp - rp[vis].min()) / np.ptp(rp[vis])
            c.ok(np.all(np.abs(col[k] - r[k]) < 1e-3), "spot:colour")
            c.event(len(x))
    # the wavefront without piston, tip and tilt, where the axes say
    im = app.wf_imshow
    got = np.ma.array(im.get_array())
    want = np.ma.array(V.wavefront())
    ny, nx = got.shape
    c.ok(got.shape == want.shape, "wavefront:shape")
    l, r, b, t = im.get_extent()
    # the pixels in order of growing x and y, as drawn (columns from left to right, rows from the origin)
    cx = l + (r - l) * (np.arange(nx) + 0.5) / nx
    cy = b + (t - b) * (np.arange(ny) + 0.5) / ny
    if im.origin == "upper":
        cy = cy[::-1]
    got = got[np.argsort(cy)][:, np.argsort(cx)]
    gm, wm = np.ma.getmaskarray(got), np.ma.getmaskarray(want)
    c.ok((gm != wm).sum() <= 12, "wavefront:where", lambda: "%d pixels differ" % (gm != wm).sum())
    k = ~gm & ~wm
    if k.sum() < 100:
        c.note("wavefront:dark")
        return
    X, Y = np.meshgrid(np.linspace(-1, 1, nx), np.linspace(-1, 1, ny))
    d = np.asarray(want[k] - got[k])
    B = np.stack([np.ones(k.sum()), X[k], Y[k]], 1)
    co = np.linalg.lstsq(B, d, rcond=None)[0]
    sc = 1 + np.abs(want[k]).max()
    c.ok(np.abs(d - B @ co).max() < 1e-6 * sc, "wavefront", lambda: "%g waves from the wavefront less piston and tilt" % np.abs(d - B @ co).max())
    import galsim
    Z = galsim.zernike.zernikeBasis(22, X[k], Y[k], R_inner=0.61)
    z = np.linalg.lstsq(Z.T, np.asarray(got[k]), rcond=None)[0]
    if k.sum() > 20000:
        c.ok(np.abs(z[1:4]).max() < 1e-3 * sc, "wavefront:tilt", lambda: "piston, tip and tilt left: %s" % z[1:4])
    c.event(int(k.sum()))


def settings(app):
    S = {k: getattr(app, k + "_control").value for k in list(FIELD) + FLAGS}
    return S


def turn(c, rng, app, S):
    """One control turned; what the others must then say."""
    A = module()
    k = str(rng.choice(["ra", "dec", "jd", "alt", "az", "rtp", "thx", "thy", "z", "noll", "perturb"] + 2 * ["alt", "az", "ra", "rtp"] + FLAGS))
    new = dict(S)
    if k in FLAGS:
        new[k] = not S[k]
    elif k in ("ra", "az"):
        new[k] = float(rng.choice([rng.uniform(0, 360), S[k] + 3.0, S[k] - 3.0, rng.uniform(-180, 180), np.round(rng.uniform(0, 360))]))
    elif k in ("alt", "dec"):
        new[k] = float(np.clip(rng.choice([rng.uniform(-85, 85), S[k] + 3.0, S[k] - 3.0, np.round(rng.uniform(10, 85))]), -88, 88))
    elif k == "jd":
        new[k] = float(S[k] + rng.choice([0.01, -0.01, rng.uniform(-1, 1), rng.uniform(-400, 400)]))
    elif k == "rtp":
        new[k] = float(rng.choice([S[k] + 3.0, rng.uniform(-90, 90), rng.uniform(-400, 400), 0.0]))
    elif k in ("thx", "thy"):
        new[k] = float(rng.choice([0.0, 0.25, -1.0, rng.uniform(-1.7, 1.7), rng.uniform(-1.7, 1.7), 3.0]))
    elif k == "z":
        new[k] = float(rng.choice([0.0, rng.uniform(-2, 2)]))
    elif k == "noll":
        new[k] = int(rng.integers(1, 24))
    else:
        new[k] = float(rng.choice([0.0, rng.uniform(-2, 2), 0.1, rng.choice([-1, 1]) * 10 ** rng.uniform(-2.5, 0)]))
    getattr(app, k + "_control").value = new[k]
    s = A.lst(new["jd"], LON)
    if k in ("ra", "dec"):
        v = above(equatorial(new["ra"], new["dec"]), s)
        new["alt"], new["az"] = float(np.rad2deg(np.arcsin(v[2]))), float(np.rad2deg(np.arctan2(-v[1], v[0])))
    elif k in ("alt", "az", "jd"):          # as time goes by the telescope stays where it is
        n, w, u = horizontal(new["alt"], new["az"])
        p, h = rad(LAT), rad(s)
        x, y, z = -np.sin(p) * n + np.cos(p) * u, -w, np.cos(p) * n + np.sin(p) * u
        new["ra"] = float(np.rad2deg(np.arctan2(np.sin(h) * x + np.cos(h) * y, np.cos(h) * x - np.sin(h) * y)))
        new["dec"] = float(np.rad2deg(np.arcsin(np.clip(z, -1, 1))))
    return k, new


def session(c, rng, i):
    """An observer turning one control after another."""
    import matplotlib.pyplot as plt
    A = module()
    app = A.RubinCSApp()
    app.display()
    S = settings(app)
    look(c, app, S, i % 4 == 0)
    seen = []
    for step in range(int(rng.integers(3, 10))):
        k, S = turn(c, rng, app, S)
        seen.append(k)
        if min(90 - abs(S["alt"]), 90 - abs(S["dec"])) < 0.5:       # at the poles angles are lost
            c.note("pole")
            break
        look(c, app, S, bool(rng.random() < 0.25))
    else:
        pictures(c, app, S, View(S))
    plt.close("all")
    c.label("session", *sorted(set(seen)))
    c.note("turns", len(seen))
    c.sample(turned=seen, settings={k: (v if isinstance(v, (bool, int)) else round(float(v), 4)) for k, v in S.items()})


CASES = [
    ("sky", sky, 60, 1500),
    ("session", session, 120, 2500),
]
