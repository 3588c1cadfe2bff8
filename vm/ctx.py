"""Per-worker recorder: every oracle evaluation on an observed event goes through here."""
import hashlib
import json
import numpy as np

MAXV = 3


def jsonable(o, depth=0):
    if isinstance(o, np.ndarray):
        if o.dtype.kind == "g":
            o = o.astype(float)
        if o.dtype.kind == "c":
            return repr(o)[:400]
        return o.tolist() if o.size <= 64 else "array%s[%s...]" % (o.shape, o.ravel()[:4].tolist())
    if isinstance(o, np.generic):
        return float(o) if o.dtype.kind in "fgiu" else repr(o)
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)) and depth < 6:
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, (int, float, str, bool)) or o is None:
        return o
    return repr(o)[:600]


class Stop(Exception):
    """Raised to abandon the rest of one case after a violation was recorded."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.events = 0
        self.per_case = {}
        self.labels = set()
        self.kinds = {}
        self.samples = []
        self.violations = []
        self.knowns = {}
        self.notes = {}
        self.case = None
        self.index = None
        self.maxerr = {}
        self.digests = {}

    # -- bookkeeping ---------------------------------------------------
    def begin(self, case, index):
        self.case, self.index = case, index

    def event(self, n=1):
        self.events += int(n)
        self.per_case[self.case] = self.per_case.get(self.case, 0) + int(n)

    def label(self, *parts):
        """Structural signature of a non-trivial observed event (for the distinct count)."""
        s = "|".join(str(p) for p in parts)
        self.labels.add(hashlib.blake2b(s.encode(), digest_size=8).hexdigest())
        k = str(parts[0])
        self.kinds[k] = self.kinds.get(k, 0) + 1

    def sample(self, **kw):
        if len(self.samples) < 4 and not any(
                s.get("case") == self.case for s in self.samples):
            self.samples.append(dict(case=self.case, i=self.index, **jsonable(kw)))

    def digest(self, x):
        """Fingerprint of this case's results, compared between builds (or settings) that must agree."""
        k = "%s/%s" % (self.case, self.index)
        h = hashlib.blake2b(repr(x).encode() + self.digests.get(k, "").encode(), digest_size=8).hexdigest()
        self.digests[k] = h

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n

    def known(self, key, detail=""):
        self.knowns[key] = str(detail)[:300]

    # -- oracles ---------------------------------------------------------
    def fail(self, mech, msg, **info):
        if len(self.violations) < MAXV:
            self.violations.append(dict(
                property=self.prop, case=self.case, i=self.index, mech=mech,
                msg=str(msg)[:2000], info=jsonable(info), seed=self.seed, tier=self.tier))
        raise Stop()

    def ok(self, cond, mech, msg="", **info):
        self.event()
        if not bool(cond):
            self.fail(mech, msg() if callable(msg) else msg, **info)

    def close(self, got, want, mech, atol=0.0, rtol=0.0, msg="", nan_ok=False, **info):
        g = np.asarray(got)
        w = np.asarray(want)
        self.event(max(1, g.size))
        if g.shape != w.shape:
            try:
                w = np.broadcast_to(w, g.shape)
            except ValueError:
                self.fail(mech, "shape %s, expected %s. %s" % (g.shape, w.shape, msg), **info)
        with np.errstate(all="ignore"):
            diff = np.abs(g - w)
            bad = ~(diff <= atol + rtol * np.abs(w))
            bad &= ~((g == w))
            if nan_ok:
                bad &= ~(np.isnan(g) & np.isnan(w))
        if np.any(bad):
            j = np.unravel_index(np.argmax(bad), bad.shape) if bad.shape else ()
            self.fail(mech, "%s: got %r, expected %r (atol=%g rtol=%g) at %s, %d/%d wrong. %s" % (
                mech, g[j] if bad.shape else g[()], w[j] if bad.shape else w[()],
                float(np.max(atol)), rtol, tuple(map(int, j)), int(bad.sum()), bad.size, msg), **info)
        if g.size and np.size(atol) == 1 and g.dtype.kind in "fgc":
            den = np.abs(w) * rtol + atol
            with np.errstate(all="ignore"):
                r = np.nanmax(np.where(den > 0, diff / den, 0.0)) if g.size else 0
            if r > self.maxerr.get(mech, 0):
                self.maxerr[mech] = float(r)

    def equal(self, got, want, mech, msg="", **info):
        g, w = np.asarray(got), np.asarray(want)
        self.event(max(1, g.size))
        same = g.shape == w.shape and bool(np.all((g == w) | ((g != g) & (w != w))))
        if not same:
            self.fail(mech, "%s: got %r, expected %r. %s" % (mech, jsonable(g), jsonable(w), msg), **info)

    def raises(self, exc, fn, mech, msg=""):
        self.event()
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            self.fail(mech, "raised %s: %s instead of %s. %s" % (type(e).__name__, e, exc, msg))
        self.fail(mech, "did not raise %s (returned %r). %s" % (exc, r, msg))

    def dump(self):
        return dict(events=self.events, per_case=self.per_case, labels=sorted(self.labels),
                    kinds=self.kinds, samples=self.samples, violations=self.violations,
                    knowns=self.knowns, notes=self.notes, maxerr=self.maxerr, digests=self.digests)


def rng_for(prop, seed, case, i):
    h = hashlib.blake2b(("%s/%s/%s/%s" % (prop, seed, case, i)).encode(), digest_size=16).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))
