"""Reference physics, written from batoid's documentation in long-double numpy.

Nothing here calls the code under test: surfaces, media and coordinate systems are read only
through their public constructor parameters.
"""
from functools import lru_cache
import math
import numpy as np

L = np.longdouble


def ld(x):
    return np.asarray(x, dtype=L)


# ---------------------------------------------------------------- surfaces
def conic_sag(R, k, r2):
    R, k = L(R), L(k)
    return r2 / (R * (1 + np.sqrt(1 - (1 + k) * r2 / (R * R))))


def conic_dzdr2(R, k, r2):
    """dz/d(r^2) of the conic."""
    R, k = L(R), L(k)
    return 1 / (2 * R * np.sqrt(1 - (1 + k) * r2 / (R * R)))


@lru_cache(maxsize=None)
def noll(j):
    """Noll index -> (n, m)   (Noll 1976: even j <=> cosine term)."""
    n = 0
    while (n + 1) * (n + 2) // 2 < j:
        n += 1
    rest = j - n * (n + 1) // 2  # 1..n+1
    # within order n, |m| ascends: m = n%2, then pairs
    if n % 2 == 0:
        m = 2 * (rest // 2)
    else:
        m = 2 * ((rest - 1) // 2) + 1
    if m == 0:
        return n, 0
    return n, (m if j % 2 == 0 else -m)


@lru_cache(maxsize=None)
def annular_radial(n, m, eps):
    """Coefficients {power: c} of the annular radial polynomial with unit mean square of
    R(r) * trig(m theta) over the annulus eps<=r<=1 (trig = 1, cos or sin)."""
    eps = L(eps)

    def inner(p, q):
        # <p, q> = int_eps^1 p q r dr
        s = L(0)
        for a, ca in p.items():
            for b, cb in q.items():
                d = a + b + 2
                s += ca * cb * (1 - eps ** d) / d
        return s
    basis = []
    for pw in range(m, n + 1, 2):
        v = {pw: L(1)}
        for b in basis:
            c = inner(v, b) / inner(b, b)
            for a, cb in b.items():
                v[a] = v.get(a, L(0)) - c * cb
        # re-orthogonalise once (long double Gram-Schmidt)
        for b in basis:
            c = inner(v, b) / inner(b, b)
            for a, cb in b.items():
                v[a] = v.get(a, L(0)) - c * cb
        basis.append(v)
    v = basis[-1]
    # mean square over the annulus: (1/(pi(1-eps^2))) * int R^2 r dr * int trig^2 dth
    ang = 2 * L(np.pi) if m == 0 else L(np.pi)
    ms = inner(v, v) * ang / (L(np.pi) * (1 - eps ** 2))
    f = 1 / np.sqrt(ms)
    return {a: c * f for a, c in v.items()}


def zern_basis(j, u, v, eps):
    """Annular Zernike Z_j(eps; u, v)."""
    n, m = noll(j)
    u, v = ld(u), ld(v)
    r = np.hypot(u, v)
    th = np.arctan2(v, u)
    R = sum(c * r ** a for a, c in annular_radial(n, abs(m), float(eps)).items())
    if m == 0:
        return R
    return R * (np.cos(m * th) if m > 0 else np.sin(-m * th))


def zern_sag(coef, x, y, Ro=1.0, Ri=0.0, x0=0.0, y0=0.0):
    u = (ld(x) - L(x0)) / L(Ro)
    v = (ld(y) - L(y0)) / L(Ro)
    out = np.zeros(np.broadcast(u, v).shape, dtype=L)
    for j in range(1, len(coef)):
        if coef[j] != 0:
            out = out + L(coef[j]) * zern_basis(j, u, v, float(Ri) / float(Ro))
    return out


def _h(t):
    """Cubic Hermite basis and derivative: values h00,h10,h01,h11."""
    t2, t3 = t * t, t * t * t
    return ((2 * t3 - 3 * t2 + 1, t3 - 2 * t2 + t, -2 * t3 + 3 * t2, t3 - t2),
            (6 * t2 - 6 * t, 3 * t2 - 4 * t + 1, -6 * t2 + 6 * t, 3 * t2 - 2 * t))


def bicubic_eval(xs, ys, zs, zx, zy, zxy, x, y):
    """Bicubic Hermite interpolation: returns z, dz/dx, dz/dy, inside-mask, cell ix, iy."""
    xs, ys = ld(xs), ld(ys)
    x, y = np.broadcast_arrays(ld(x), ld(y))
    nx, ny = len(xs), len(ys)
    dx = (xs[-1] - xs[0]) / (nx - 1)
    dy = (ys[-1] - ys[0]) / (ny - 1)
    fx, fy = (x - xs[0]) / dx, (y - ys[0]) / dy
    inside = (fx >= 0) & (fx <= nx - 1) & (fy >= 0) & (fy <= ny - 1)
    ix = np.clip(np.floor(np.where(inside, fx, 0)).astype(int), 0, nx - 2)
    iy = np.clip(np.floor(np.where(inside, fy, 0)).astype(int), 0, ny - 2)
    tx, ty = fx - ix, fy - iy
    hx, hpx = _h(tx)
    hy, hpy = _h(ty)
    z = np.zeros(x.shape, dtype=L)
    gx = np.zeros(x.shape, dtype=L)
    gy = np.zeros(x.shape, dtype=L)
    Z, ZX, ZY, ZXY = ld(zs), ld(zx) * dx, ld(zy) * dy, ld(zxy) * dx * dy
    for jx, (a, b) in enumerate(((0, 1), (2, 3))):
        for jy, (c, d) in enumerate(((0, 1), (2, 3))):
            q = (iy + jy, ix + jx)
            z += hx[a] * hy[c] * Z[q] + hx[b] * hy[c] * ZX[q] + hx[a] * hy[d] * ZY[q] + hx[b] * hy[d] * ZXY[q]
            gx += hpx[a] * hy[c] * Z[q] + hpx[b] * hy[c] * ZX[q] + hpx[a] * hy[d] * ZY[q] + hpx[b] * hy[d] * ZXY[q]
            gy += hx[a] * hpy[c] * Z[q] + hx[b] * hpy[c] * ZX[q] + hx[a] * hpy[d] * ZY[q] + hx[b] * hpy[d] * ZXY[q]
    return z, gx / dx, gy / dy, inside, ix, iy


def sag(s, x, y):
    """Documented height of a batoid surface (NaN outside its domain)."""
    t = type(s).__name__
    x, y = np.broadcast_arrays(ld(x), ld(y))
    r2 = x * x + y * y
    with np.errstate(all="ignore"):
        if t == "Plane":
            return np.zeros(x.shape, dtype=L)
        if t == "Tilted":
            return x * L(s.tanx) + y * L(s.tany)
        if t == "Paraboloid":
            return r2 / (2 * L(s.R))
        if t == "Sphere":
            return conic_sag(s.R, 0, r2)
        if t == "Quadric":
            return conic_sag(s.R, s.conic, r2)
        if t == "Asphere":
            z = conic_sag(s.R, s.conic, r2)
            for i, c in enumerate(s.coefs):
                z = z + L(c) * r2 ** (i + s.imin)
            return z
        if t == "Zernike":
            return zern_sag(s.coef, x, y, s.R_outer, s.R_inner, s.x_origin, s.y_origin)
        if t == "Bicubic":
            z, _, _, ins, _, _ = bicubic_eval(s.xs, s.ys, s.zs, s.dzdxs, s.dzdys, s.d2zdxdys, x, y)
            return np.where(ins, z, L(np.nan) if s.nanpolicy.upper() == "NAN" else L(0))
        if t == "Sum":
            return sum(sag(q, x, y) for q in s.surfaces)
    raise TypeError(t)


def grad(s, x, y):
    """(dz/dx, dz/dy) of the documented height."""
    t = type(s).__name__
    x, y = np.broadcast_arrays(ld(x), ld(y))
    r2 = x * x + y * y
    with np.errstate(all="ignore"):
        if t == "Plane":
            return np.zeros(x.shape, dtype=L), np.zeros(x.shape, dtype=L)
        if t == "Tilted":
            return np.full(x.shape, L(s.tanx)), np.full(x.shape, L(s.tany))
        if t == "Paraboloid":
            return x / L(s.R), y / L(s.R)
        if t in ("Sphere", "Quadric", "Asphere"):
            d = conic_dzdr2(s.R, 0.0 if t == "Sphere" else s.conic, r2)
            if t == "Asphere":
                for i, c in enumerate(s.coefs):
                    d = d + L(c) * (i + s.imin) * r2 ** (i + s.imin - 1)
            return 2 * x * d, 2 * y * d
        if t == "Zernike":
            h = L(s.R_outer) * L(1e-4)
            def f(a, b):
                return sag(s, a, b)
            gx = (8 * (f(x + h, y) - f(x - h, y)) - (f(x + 2 * h, y) - f(x - 2 * h, y))) / (12 * h)
            gy = (8 * (f(x, y + h) - f(x, y - h)) - (f(x, y + 2 * h) - f(x, y - 2 * h))) / (12 * h)
            return gx, gy
        if t == "Bicubic":
            _, gx, gy, ins, _, _ = bicubic_eval(s.xs, s.ys, s.zs, s.dzdxs, s.dzdys, s.d2zdxdys, x, y)
            out = L(np.nan) if s.nanpolicy.upper() == "NAN" else L(0)
            return np.where(ins, gx, out), np.where(ins, gy, out)
        if t == "Sum":
            g = [grad(q, x, y) for q in s.surfaces]
            return sum(a for a, _ in g), sum(b for _, b in g)
    raise TypeError(t)


def normal(s, x, y):
    gx, gy = grad(s, x, y)
    n = 1 / np.sqrt(1 + gx * gx + gy * gy)
    return np.stack([-gx * n, -gy * n, n], axis=-1)


def slopes(n):
    return n


# ---------------------------------------------------------------- conic crossings
def conic_params(s):
    t = type(s).__name__
    if t == "Paraboloid":
        return L(s.R), L(-1)
    if t == "Sphere":
        return L(s.R), L(0)
    if t == "Quadric":
        return L(s.R), L(s.conic)
    return None


def conic_crossings(s, r, v):
    """All crossings of each line r+v*t with the *sheet through the vertex* of a conic.

    Returns (t, ok) with shape (n, 2) plus the relative discriminant (how far from tangency)."""
    R, k = conic_params(s)
    cp1 = 1 + k
    r, v = ld(r), ld(v)
    x, y, z = r.T
    vx, vy, vz = v.T
    with np.errstate(all="ignore"):
        a = vx * vx + vy * vy + cp1 * vz * vz
        b = 2 * (x * vx + y * vy + cp1 * z * vz - R * vz)
        c = x * x + y * y + cp1 * z * z - 2 * R * z
        D = b * b - 4 * a * c
        q = -(b + np.where(b >= 0, 1, -1) * np.sqrt(D)) / 2
        t1, t2 = q / a, c / q
        T = np.stack([t1, t2], axis=1)
        Z = z[:, None] + vz[:, None] * T
        sheet = 1 - cp1 * Z / R          # = sqrt term of the sag: >=0 on the vertex sheet
        ok = np.isfinite(T) & (sheet >= 0)
        scale = b * b + np.abs(4 * a * c)
        reld = np.where(scale > 0, D / scale, 0)
    return T, ok, reld, sheet, Z


# ---------------------------------------------------------------- media
def index(m, w):
    t = type(m).__name__
    w = ld(w)
    with np.errstate(all="ignore"):
        if t == "ConstMedium":
            return np.full(w.shape, L(m.n))
        if t == "TableMedium":
            ws, ns = ld(m.wavelengths), ld(m.ns)
            out = np.full(w.shape, L(np.nan))
            for i in range(len(ws) - 1):
                sel = (w >= ws[i]) & (w <= ws[i + 1])
                f = (w - ws[i]) / (ws[i + 1] - ws[i])
                out = np.where(sel, ns[i] * (1 - f) + ns[i + 1] * f, out)
            return out
        if t == "SellmeierMedium":
            B1, B2, B3, C1, C2, C3 = [L(c) for c in m.coefs]
            x = (w * L(10) ** 6) ** 2
            return np.sqrt(1 + B1 * x / (x - C1) + B2 * x / (x - C2) + B3 * x / (x - C3))
        if t == "SumitaMedium":
            A = [L(c) for c in m.coefs]
            x = (w * L(10) ** 6) ** 2
            return np.sqrt(A[0] + A[1] * x + A[2] / x + A[3] / x ** 2 + A[4] / x ** 3 + A[5] / x ** 4)
        if t == "Air":
            P = L(m.pressure) * L("7.50061683")
            T = L(m.temperature) - L("273.15")
            W = L(m.h2o_pressure) * L("7.50061683")
            s2 = 1 / (w * L(10) ** 6) ** 2
            n = (L("64.328") + L("29498.1") / (146 - s2) + L("255.4") / (41 - s2)) * L("1e-6")
            n = n * P * (1 + (L("1.049") - L("0.0157") * T) * L("1e-6") * P) / (
                L("720.883") * (1 + L("0.003661") * T))
            n = n - (L("0.0624") - L("0.000680") * s2) / (1 + L("0.003661") * T) * W * L("1e-6")
            return 1 + n
    raise TypeError(t)


# ---------------------------------------------------------------- coordinate systems
def to_frame(cs_from, cs_to, r, v=None):
    """Points (n,3) and vectors from one CoordSys to another by definition via global."""
    R1, R2 = ld(cs_from.rot), ld(cs_to.rot)
    o1, o2 = ld(cs_from.origin), ld(cs_to.origin)
    g = ld(r) @ R1.T + o1
    out = (g - o2) @ R2
    if v is None:
        return out
    return out, (ld(v) @ R1.T) @ R2


# ---------------------------------------------------------------- obscurations
def signed_contains(o, x, y):
    """(contained?, distance-like margin to the nearest boundary of any primitive)."""
    t = type(o).__name__
    x, y = np.broadcast_arrays(ld(x), ld(y))
    if t == "ObscCircle":
        d = np.hypot(x - L(o.x), y - L(o.y)) - L(o.radius)
        return d <= 0, np.abs(d)
    if t == "ObscAnnulus":
        r = np.hypot(x - L(o.x), y - L(o.y))
        return (r >= L(o.inner)) & (r < L(o.outer)), np.minimum(np.abs(r - L(o.inner)), np.abs(r - L(o.outer)))
    if t == "ObscRectangle":
        th = L(o.theta)
        u = (x - L(o.x)) * np.cos(th) + (y - L(o.y)) * np.sin(th)
        w = -(x - L(o.x)) * np.sin(th) + (y - L(o.y)) * np.cos(th)
        du, dw = np.abs(u) - L(o.width) / 2, np.abs(w) - L(o.height) / 2
        return (du < 0) & (dw < 0), np.minimum(np.abs(du), np.abs(dw))
    if t == "ObscRay":
        th = L(o.theta)
        u = (x - L(o.x)) * np.cos(th) + (y - L(o.y)) * np.sin(th)
        w = -(x - L(o.x)) * np.sin(th) + (y - L(o.y)) * np.cos(th)
        dw = np.abs(w) - L(o.width) / 2
        return (u > 0) & (dw < 0), np.minimum(np.abs(u), np.abs(dw))
    if t == "ObscPolygon":
        px, py = ld(o.xs), ld(o.ys)
        n = len(px)
        cnt = np.zeros(x.shape, dtype=int)
        dist = np.full(x.shape, L(np.inf))
        for i in range(n):
            x1, y1, x2, y2 = px[i], py[i], px[(i + 1) % n], py[(i + 1) % n]
            if x1 == x2 and y1 == y2:
                continue
            with np.errstate(all="ignore"):
                crosses = ((y1 <= y) & (y < y2)) | ((y2 <= y) & (y < y1))
                xi = x1 + (y - y1) * (x2 - x1) / (y2 - y1) if y1 != y2 else np.zeros(x.shape, dtype=L)
            cnt += (crosses & (x < xi)).astype(int)
            ll = (x2 - x1) ** 2 + (y2 - y1) ** 2
            f = np.clip(((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / ll, 0, 1)
            dist = np.minimum(dist, np.hypot(x - x1 - f * (x2 - x1), y - y1 - f * (y2 - y1)))
        return cnt % 2 == 1, dist
    if t == "ObscNegation":
        a, d = signed_contains(o.original, x, y)
        return ~a, d
    if t in ("ObscUnion", "ObscIntersection"):
        parts = [signed_contains(q, x, y) for q in o.items]
        m = np.minimum.reduce([d for _, d in parts])
        f = np.logical_or if t == "ObscUnion" else np.logical_and
        return f.reduce([a for a, _ in parts]), m
    raise TypeError(t)


# ---------------------------------------------------------------- laws
def reflect_dir(v, n):
    v, n = ld(v), ld(n)
    return v - 2 * np.sum(v * n, axis=-1, keepdims=True) * n


def refract_dir(v, n, n1, n2):
    """Direction after refraction at speed 1/n2, by tangential momentum conservation.

    The tangential component of n*unit-direction is conserved; the ray keeps crossing in the same
    sense.  Returns (velocity, sin^2 of the exit angle)."""
    v, n = ld(v), ld(n)
    n1, n2 = ld(n1)[:, None], ld(n2)[:, None]
    d = v / np.sqrt(np.sum(v * v, axis=-1, keepdims=True))
    cos1 = np.sum(d * n, axis=-1, keepdims=True)
    tang = n1 * (d - cos1 * n)               # conserved
    s2 = np.sum(tang * tang, axis=-1, keepdims=True) / (n2 * n2)
    with np.errstate(all="ignore"):
        out = tang / n2 + np.sign(cos1) * np.sqrt(1 - s2) * n
    return out / n2, s2[:, 0]


# ------------------------------------------------------------------ field projections
PROJECTIONS = ["postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"]


def to_dircos(u, v, projection):
    """Unit vectors (long double) from the definition of each projection: the angle from -z as a function of the
    distance from the tangent point (zemax: two independent angles)."""
    u, v = np.broadcast_arrays(ld(u), ld(v))
    if projection == "zemax":
        a, b, g = np.sin(u) / np.cos(u), np.sin(v) / np.cos(v), -np.ones_like(u)
        n = np.sqrt(a * a + b * b + g * g)
        return a / n, b / n, g / n
    m = np.maximum(np.abs(u), np.abs(v))
    with np.errstate(all="ignore"):
        rho = np.where(m > 0, m * np.sqrt((u / m) ** 2 + (v / m) ** 2), 0)
        cu, cv = np.where(rho > 0, u / rho, 1), np.where(rho > 0, v / rho, 0)
        th = {"postel": lambda: rho, "gnomonic": lambda: np.arctan(rho), "stereographic": lambda: 2 * np.arctan(rho / 2),
              "lambert": lambda: 2 * np.arcsin(rho / 2), "orthographic": lambda: np.arcsin(rho)}[projection]()
    return np.sin(th) * cu, np.sin(th) * cv, -np.cos(th)


def to_field(a, b, g, projection):
    """The inverse, in long double."""
    a, b, g = np.broadcast_arrays(ld(a), ld(b), ld(g))
    if projection == "zemax":
        return np.arctan2(a, -g), np.arctan2(b, -g)
    s = np.hypot(a, b)
    th = np.arctan2(s, -g)
    with np.errstate(all="ignore"):
        rho = {"postel": lambda: th, "gnomonic": lambda: np.tan(th), "stereographic": lambda: 2 * np.tan(th / 2),
               "lambert": lambda: 2 * np.sin(th / 2), "orthographic": lambda: np.sin(th)}[projection]()
        f = np.where(s > 0, rho / s, 1)
    return a * f, b * f
