"""C03: intersection events judged against the line, the documented sag, and closed-form crossings."""
import numpy as np
import batoid
from . import gen, mon, ref

MILD = ["Asphere", "Zernike", "Bicubic", "Sum"]


def wild(rng, s, n, size):
    """Lines in every direction, from every side, some starting on the surface itself."""
    r = rng.normal(size=(n, 3)) * size * 10 ** rng.uniform(-1, 1.5, (n, 1))
    v = rng.normal(size=(n, 3))
    axis = rng.random(n) < 0.15
    v[axis] = np.eye(3)[rng.integers(3, size=axis.sum())] * rng.choice([-1, 1], (axis.sum(), 1))
    v /= np.linalg.norm(v, axis=1)[:, None]
    v /= rng.choice([1.0, 1.5, 1.0001], (n, 1))
    # aim some of them at the neighbourhood of the vertex
    aim = rng.random(n) < 0.6
    p = rng.normal(size=(n, 3)) * size * 0.5
    z = np.asarray(s.sag(p[:, 0].copy(), p[:, 1].copy()))
    p[:, 2] = np.where(np.isfinite(z), z, p[:, 2])
    d = size * 10 ** rng.uniform(-2, 1.5, n) * rng.choice([-1, 1], n)
    r[aim] = (p - v * d[:, None])[aim]
    on = aim & (rng.random(n) < 0.1)
    r[on] = p[on]
    return r, v


def observe(c, s, rv, cs, tag, mild=False, coating=None, same=False):
    b = mon.snap(rv)
    if coating is None:
        out = s.intersect(rv) if same else s.intersect(rv, coordSys=cs)
    else:
        out = s.intersect(rv, coordSys=cs, coating=coating)
    c.ok(out is rv, tag + ":returned", "intersect does not return its argument")
    a = mon.snap(rv)
    mon.flags(c, b, a, tag)
    u, r0, v0 = mon.landed(c, s, b, a, cs, tag)
    if u.any():
        c.close(a["v"][u], v0[u].astype(float), tag + ":velocity", atol=2e-15 * 4)
    if coating is None:
        c.equal(a["f"], b["f"], tag + ":flux")
    mon.hits(c, s, b, a, cs, tag, mild)
    return b, a, u


def conics(c, rng, i):
    kind = gen.CONICS[i % 3] if rng.random() < 0.85 else ["Plane", "Tilted"][i % 2]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size)
    if kind == "Quadric" and rng.random() < 0.3:
        s = batoid.Quadric(float(rng.choice([-1, 1]) * size * 10 ** rng.uniform(0, 1.5)),
                           float(rng.choice([-1.0, 0.0, 1.0, rng.uniform(-9, 3)])))
    n = int(rng.choice([1, 5, 60]))
    r, v = wild(rng, s, n, size)
    fail = rng.random(n) < 0.05
    local = gen.build(r, v, rng.normal(size=n) * 5, rng.uniform(3e-7, 1e-6, n), gen.fluxes(rng, n),
                      fail | (rng.random(n) < 0.1), fail)
    cs = gen.csys(rng)
    if rng.random() < 0.3:
        observe(c, s, local, batoid.CoordSys(), "same-frame", same=True)
    else:
        # rays given in an unrelated frame, but placed with respect to the surface's frame
        other = gen.csys(rng)
        at = gen.build(r, v, local.t, local.wavelength, local.flux, local.vignetted, local.failed, cs)
        observe(c, s, gen.express(at, other), cs, "other-frame")
    c.sample(surface=repr(s), rays=n, failed=int(np.sum(local.failed)))


def anysurf(c, rng, i):
    """Every surface type, wild parameters: what is not failed must be right."""
    kind = gen.SURFS[i % len(gen.SURFS)]
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, kind, size)
    n = 50
    cs, other = gen.csys(rng), gen.csys(rng)
    if rng.random() < 0.5:
        rv = gen.rays_at(rng, s, n, size * 1.2, cs=cs, spread=rng.choice([0.05, 0.5]))
    else:
        r, v = wild(rng, s, n, size)
        rv = gen.build(r, v, rng.normal(size=n), rng.uniform(3e-7, 1e-6, n), gen.fluxes(rng, n), cs=cs)
    b, a, u = observe(c, s, gen.express(rv, other), cs, kind)
    c.label("any", kind, int(u.sum()) // 10, int((a["fail"] & ~b["fail"]).sum()) // 10)
    c.sample(surface=repr(s)[:300], hit=int(u.sum()), of=n)


def gentle(c, rng, i):
    """Gently perturbed surfaces: every ray aimed inside the domain must be found."""
    kind = MILD[i % 4]
    size = 10 ** rng.uniform(-1, 0.7)
    s = gen.surf(rng, kind, size, mild=True)
    cs = gen.csys(rng)
    far = rng.random() < 0.4 and kind in ("Asphere", "Sum")      # these start from a closed form, the others from where the ray is
    d = size * rng.uniform(0, 0.3, 60)
    if far:      # the core finds points to 1e-12 m, so not so far that numbers are coarser
        d = 10.0 ** rng.uniform(np.log10(size), 2, 60)
    rv = gen.rays_at(rng, s, 60, size * 0.9, cs=cs, spread=0.08, dist=d)
    observe(c, s, gen.express(rv, gen.csys(rng)), cs, "gentle-" + kind, mild=True)
    c.label("gentle", kind, getattr(s, "nanpolicy", ""))


def outside(c, rng, i):
    """Lines meeting a gridded surface outside its grid fail; inside they do not."""
    s = gen.bicubic(rng, 1.0, 0.002, policy="nan")
    n = 80
    p = rng.uniform(-3, 3, (n, 2))
    lo, hi = np.array([s.xs[0], s.ys[0]]), np.array([s.xs[-1], s.ys[-1]])
    r = np.concatenate([p, np.full((n, 1), rng.choice([-2.0, 2.0]))], axis=1)
    v = np.zeros((n, 3))
    v[:, 2] = rng.choice([-1, 1])
    rv = gen.build(r, v, np.zeros(n), np.full(n, 5e-7), np.ones(n))
    s.intersect(rv)
    ins = np.all((p > lo + 1e-9) & (p < hi - 1e-9), axis=1)
    out = np.any((p < lo - 1e-9) | (p > hi + 1e-9), axis=1)
    c.ok(not np.any(ins & rv.failed), "grid:missed", "axis-parallel rays inside the grid failed")
    c.ok(not np.any(out & ~rv.failed), "grid:false-hit", "rays outside the grid did not fail")
    c.ok(np.all(rv.vignetted[rv.failed]), "grid:vig")
    c.label("grid", int(ins.sum()) // 10, len(s.xs), len(s.ys))


def telescopes(c, rng, i):
    """Event log of full telescope traces: at every surface the outgoing rays sit on that surface, on the
    line of the incoming ray, at the right time."""
    nm, tel = gen.pick_scope(rng)
    rv = gen.beam(rng, nm, tel, 40)
    log = tel.traceFull(rv)
    for name, ev in log.items():
        it = tel[name]
        b, a = mon.snap(ev["in"]), mon.snap(ev["out"])
        mon.landed(c, it.surface, b, a, it.coordSys, "log")
        mon.hits(c, it.surface, b, dict(a, fail=a["fail"] & (a["fail"] if isinstance(it, batoid.Mirror) else a["fail"])),
                 it.coordSys, "log") if not isinstance(it, batoid.RefractiveInterface) else None
        c.label("telescope", nm, name)
    c.sample(telescope=nm, surfaces=len(log), unvignetted=int(np.sum(~a["vig"])))


def extremes(c, rng, i):
    """On-surface, at-vertex, axis-parallel, perpendicular and already-failed rays; empty bundles."""
    size = 10 ** rng.uniform(-1, 1)
    s = gen.surf(rng, [*gen.CONICS, "Plane", "Asphere"][i % 5], size)
    k = 12
    th = rng.uniform(0, 2 * np.pi, k)
    x, y = 0.6 * size * np.cos(th), 0.6 * size * np.sin(th)
    x[:3] = y[:3] = 0.0
    z = np.asarray(s.sag(x, y))
    d = rng.normal(size=(k, 3)) * [0.3, 0.3, 1]
    d[3:6] = [0, 0, 1]
    d[6:8] = [0, 0, -1]
    d /= np.linalg.norm(d, axis=1)[:, None]
    step = np.where(rng.random(k) < 0.5, 0.0, rng.choice([1e-9, 1e-3, 1.0], k) * size)
    r = np.stack([x, y, z], axis=1) - d * step[:, None]
    rv = gen.build(r, d, np.zeros(k), np.full(k, 5e-7), np.ones(k))
    b, a, u = observe(c, s, rv, batoid.CoordSys(), "edge", same=True)
    # idempotence: intersecting again leaves unfailed rays in place (crossing of smallest |z| is where we are)
    rv2 = gen.build(a["r"][u], a["v"][u], a["t"][u], a["w"][u], a["f"][u])
    if len(rv2):
        observe(c, s, rv2, batoid.CoordSys(), "again", same=True)
    e = gen.build(np.zeros((0, 3)), np.zeros((0, 3)), [], [], [])
    s.intersect(e, coordSys=gen.csys(rng))
    c.ok(len(e) == 0, "empty")
    c.label("edge", type(s).__name__, int(u.sum()))


CASES = [
    ("conics", conics, 1500, 40000),
    ("anysurf", anysurf, 700, 12000),
    ("gentle", gentle, 600, 12000),
    ("outside", outside, 200, 3000),
    ("telescopes", telescopes, 60, 1500),
    ("extremes", extremes, 500, 10000),
]
