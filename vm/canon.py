"""The documented state of any public object, as plain comparable data (constructor parameters only, never caches)."""
import numpy as np
import batoid

PARAMS = dict(
    Plane=(), Tilted=("tanx", "tany"), Paraboloid=("R",), Sphere=("R",), Quadric=("R", "conic"),
    Asphere=("R", "conic", "coefs", "imin"), Zernike=("coef", "R_outer", "R_inner", "x_origin", "y_origin"),
    Bicubic=("xs", "ys", "zs", "dzdxs", "dzdys", "d2zdxdys", "nanpolicy"), Sum=("surfaces",),
    ConstMedium=("n",), TableMedium=("wavelengths", "ns"), SellmeierMedium=("coefs",), SumitaMedium=("coefs",),
    Air=("pressure", "temperature", "h2o_pressure"), SimpleCoating=("reflectivity", "transmissivity"),
    ObscCircle=("radius", "x", "y"), ObscAnnulus=("inner", "outer", "x", "y"),
    ObscRectangle=("width", "height", "x", "y", "theta"), ObscRay=("width", "theta", "x", "y"),
    ObscPolygon=("xs", "ys"), ObscNegation=("original",), ObscUnion=("items",), ObscIntersection=("items",),
    CoordSys=("origin", "rot"), CoordTransform=("fromSys", "toSys"), Lattice=("array", "primitiveVectors"),
    RayVector=("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed", "coordSys"),
)
OPTIC = ("name", "coordSys", "inMedium", "outMedium", "skip", "surface", "obscuration", "forwardCoating", "reverseCoating",
         "screen", "items")
# set by the package itself while building or drawing, derived from the above
DERIVED = {"path", "itemDict", "_names", "inRadius", "outRadius", "R_inner", "R_outer", "lens"}


def canon(x, drop=()):
    """Nested dicts/tuples of plain values; arrays become (shape, bytes-exact list)."""
    if isinstance(x, batoid.optic.Optic):
        d = {"type": type(x).__name__}
        for k in OPTIC:
            if hasattr(x, k) and k not in drop:
                d[k] = canon(getattr(x, k), drop)
        for k in sorted(vars(x)):
            if k not in d and k not in DERIVED and k not in drop and not k.startswith("_"):
                d[k] = canon(getattr(x, k), drop)
        return d
    t = type(x).__name__
    if t in PARAMS and type(x).__module__.startswith("batoid"):
        d = {"type": t}
        for k in PARAMS[t]:
            d[k] = canon(getattr(x, k), drop)
        return d
    if isinstance(x, np.ndarray):
        return ("array", x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, drop) for v in x)
    if isinstance(x, dict):
        return {k: canon(v, drop) for k, v in x.items()}
    if isinstance(x, np.generic):
        return x.item()
    return x


def diff(a, b, path="", tol=0.0, where=None):
    """First difference between two canonical states ('' when equal); coordinate frames within tol."""
    if isinstance(a, dict) and isinstance(b, dict):
        if tol and a.get("type") == "CoordSys" == b.get("type"):
            for k in ("origin", "rot"):
                u, v = arr(a[k]), arr(b[k])
                if u.shape != v.shape or not np.all(np.abs(u - v) <= tol * (1 + np.abs(u).max(initial=0))):
                    return "%s.%s: %s / %s" % (path, k, u.tolist(), v.tolist())
            return ""
        for k in list(a) + [k for k in b if k not in a]:
            if k not in a or k not in b:
                return "%s.%s only on one side" % (path, k)
            d = diff(a[k], b[k], "%s.%s" % (path, k), tol)
            if d:
                return d
        return ""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if a[:1] == ("array",) or b[:1] == ("array",):
            return "" if a == b else "%s: %s / %s" % (path, show(a), show(b))
        if len(a) != len(b):
            return "%s: %d / %d entries" % (path, len(a), len(b))
        for i, (u, v) in enumerate(zip(a, b)):
            d = diff(u, v, "%s[%d]" % (path, i), tol)
            if d:
                return d
        return ""
    try:
        same = (a == b) or (a != a and b != b)
    except Exception:
        same = a is b
    return "" if same else "%s: %r / %r" % (path, a, b)


def arr(a):
    return np.frombuffer(a[3], dtype=a[2]).reshape(a[1])


def show(a):
    if isinstance(a, tuple) and a[:1] == ("array",):
        return "%s%s" % (a[1], arr(a).ravel()[:6].tolist())
    return repr(a)[:80]
