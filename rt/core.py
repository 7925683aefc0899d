"""Case context: recording of calls, oracle comparisons and violations (used inside worker processes)."""
import collections
import hashlib
import warnings
import zlib

import numpy as np

import pywt

EPS = {"f": float(np.finfo(np.float32).eps), "d": float(np.finfo(np.float64).eps)}


class Violation(Exception):
    def __init__(self, key, msg):
        super().__init__(msg)
        self.key = key
        self.msg = msg


class Skip(Exception):
    """The generated case is not applicable (counted, never a verdict)."""


def rng_for(seed, prop, family, index):
    return np.random.default_rng([seed, zlib.crc32(f"{prop}/{family}".encode()), index])


def eps_of(dtype):
    dtype = np.dtype(dtype)
    return EPS["f"] if dtype in (np.float32, np.complex64, np.float16) else EPS["d"]


def describe(v, depth=0):
    """Compact description of an argument for evidence and violation messages."""
    if isinstance(v, np.ndarray):
        flat = np.array2string(v.ravel()[:6], precision=4, threshold=6) if v.size else "[]"
        return f"array{v.shape}{v.dtype.str}{'' if v.flags.c_contiguous else ' strides=' + str(v.strides)}{flat}"
    if isinstance(v, pywt.Wavelet):
        return f"Wavelet({v.name or 'custom'}, len {v.dec_len})"
    if isinstance(v, pywt.ContinuousWavelet):
        return f"ContinuousWavelet({v.name})"
    if isinstance(v, dict):
        if depth > 2:
            return "{...}"
        return "{" + ", ".join(f"{k}: {describe(x, depth + 1)}" for k, x in list(v.items())[:4]) + "}"
    if isinstance(v, (list, tuple)):
        if depth > 2:
            return "[...]"
        s = ", ".join(describe(x, depth + 1) for x in list(v)[:6]) + (", ..." if len(v) > 6 else "")
        return ("[%s]" if isinstance(v, list) else "(%s)") % s
    s = repr(v)
    return s if len(s) < 120 else s[:117] + "..."


def result_shape(r, depth=0):
    if isinstance(r, np.ndarray):
        return f"{r.shape}{r.dtype.str}"
    if isinstance(r, (list, tuple)) and depth < 3:
        return "[" + ", ".join(result_shape(x, depth + 1) for x in r[:6]) + "]"
    if isinstance(r, dict) and depth < 3:
        return "{" + ", ".join(f"{k}: {result_shape(v, depth + 1)}" for k, v in list(r.items())[:8]) + "}"
    return type(r).__name__


class Ctx:
    def __init__(self, prop, family, index, seed, tier, shared):
        self.prop, self.family, self.index, self.seed, self.tier = prop, family, index, seed, tier
        self.rng = rng_for(seed, prop, family, index)
        self.sh = shared            # Shared: counters of this worker
        self.trace = []
        self.notes = []
        self.oracles = 0

    # ---- events ------------------------------------------------------------------------------
    def call(self, fn, *args, **kw):
        """A monitored library call that is expected to succeed."""
        name = getattr(fn, "__name__", str(fn))
        self.sh.calls[name] += 1
        if len(self.trace) < 40:
            self.trace.append(f"{name}(" + ", ".join([describe(a) for a in args] +
                                                     [f"{k}={describe(v)}" for k, v in kw.items()]) + ")")
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                return fn(*args, **kw)
            except Exception as e:
                raise Violation(f"unexpected-exception:{name}:{type(e).__name__}",
                                f"{self.trace[-1] if self.trace else name} raised {type(e).__name__}: {str(e)[:300]}") from e

    def warned(self, fn, *args, **kw):
        """call(), returning the result and whether a UserWarning was issued."""
        seen = []

        def inner(*a, **k):
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                r = fn(*a, **k)
            seen.append(any(issubclass(w.category, UserWarning) for w in rec))
            return r
        inner.__name__ = getattr(fn, "__name__", str(fn))
        return self.call(inner, *args, **kw), seen[0]

    def raises(self, fn, *args, exc=Exception, key=None, **kw):
        """A monitored call that must be rejected with one of exc."""
        name = getattr(fn, "__name__", str(fn))
        self.sh.calls[name] += 1
        self.sh.rejections[name] += 1
        self.oracles += 1
        desc = f"{name}(" + ", ".join([describe(a) for a in args] + [f"{k}={describe(v)}" for k, v in kw.items()]) + ")"
        if len(self.trace) < 40:
            self.trace.append("reject? " + desc)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = fn(*args, **kw)
            except exc as e:
                return e
            except Exception as e:
                raise Violation(f"{key or 'wrong-exception'}:{name}:{type(e).__name__}",
                                f"{desc} raised {type(e).__name__}: {e}; expected {exc}") from e
        raise Violation(f"{key or 'accepted'}:{name}", f"{desc} was accepted and returned {result_shape(r)}")

    def sig(self, *parts):
        """Configuration signature of this case, for counting distinct cases."""
        h = hashlib.blake2b(repr((self.family,) + parts).encode(), digest_size=8).hexdigest()
        self.sh.pending_sig = h
        self.notes.append(" ".join(str(p) for p in parts)[:300])

    def see(self, what, value=1):
        """Count an observed state / branch."""
        self.sh.seen[f"{what}"] += value

    # ---- oracles -----------------------------------------------------------------------------
    def fail(self, key, msg):
        raise Violation(key, msg)

    def check(self, ok, key, msg=""):
        self.oracles += 1
        if not ok:
            raise Violation(key, msg() if callable(msg) else msg)

    def equal(self, a, b, key, what=""):
        self.oracles += 1
        if a != b:
            raise Violation(key, f"{what}: {describe(a)} != {describe(b)}")

    def same(self, a, b, key, what=""):
        """Bit-identical structures (NaN equals NaN)."""
        self.oracles += 1
        d = diff_bits(a, b)
        if d:
            raise Violation(key, f"{what}: {d}")

    def near(self, a, b, key, what="", scale=0.0, factor=256.0):
        """Same structure, shapes and dtypes; values equal to rounding error (NaN equals NaN)."""
        self.oracles += 1
        if diff_bits(a, b) is None:
            return
        fa, fb = leaves(a), leaves(b)
        if fa is None or fb is None or len(fa) != len(fb) or any(u.shape != v.shape or u.dtype != v.dtype for u, v in zip(fa, fb)):
            raise Violation(key, f"{what}: {diff_bits(a, b)}")
        s = max([scale] + [float(np.max(np.abs(v))) for v in fb if v.size])
        for u, v in zip(fa, fb):
            self.close(u, v, key, what, scale=s, factor=factor)

    def close(self, got, ref, key, what="", scale=None, dtype=None, factor=64.0, shape=True, atol=0.0):
        """|got - ref| <= factor * eps * scale + atol. A scalar scale is raised to max|ref|; an array is element-wise."""
        self.oracles += 1
        got = np.asarray(got)
        ref = np.asarray(ref)
        if shape and got.shape != ref.shape:
            raise Violation(key + ":shape", f"{what}: shape {got.shape} instead of {ref.shape}")
        if not got.size:
            return
        eps = eps_of(dtype if dtype is not None else got.dtype)
        s = float(np.max(np.abs(ref))) if np.all(np.isfinite(ref)) else np.nan
        if scale is not None:
            s = np.maximum(np.abs(ref), scale) if isinstance(scale, np.ndarray) and scale.ndim else max(s, float(scale))
        with np.errstate(all="ignore"):
            err = np.abs(got - ref)
            tol = factor * eps * s + atol
            bad = ~(err <= tol)
        if np.any(bad):
            i = np.unravel_index(int(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err), -1))), err.shape)
            t = float(np.broadcast_to(tol, err.shape)[i])
            raise Violation(key, f"{what}: element {tuple(int(k) for k in i)} is {got[i]!r}, expected {ref[i]!r} "
                                 f"(error {float(err[i]):.3g}, allowed {t:.3g}; {int(bad.sum())} of {bad.size} wrong)")
        with np.errstate(all="ignore"):
            r = float(np.max(np.where(tol > 0, err / np.where(tol > 0, tol, 1), 0)))
            if r > self.sh.worst.get(key, 0.0):
                self.sh.worst[key] = r


def leaves(a):
    """The arrays of a nested list / tuple, in order; None if there is anything else in it."""
    if isinstance(a, np.ndarray):
        return [a]
    if not isinstance(a, (list, tuple)):
        return None
    out = []
    for v in a:
        u = leaves(v)
        if u is None:
            return None
        out += u
    return out


def diff_bits(a, b, path=""):
    """None if bit-identical, else a description."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)):
            return f"{path}: {type(a).__name__} vs {type(b).__name__}"
        if a.shape != b.shape or a.dtype != b.dtype:
            return f"{path}: {a.shape}{a.dtype} vs {b.shape}{b.dtype}"
        if a.dtype.kind in "fc":
            ok = (a == b) | ((a != a) & (b != b))
        else:
            ok = a == b
        if not np.all(ok):
            i = tuple(int(k) for k in np.argwhere(~ok)[0]) if np.ndim(ok) else ()
            return f"{path}: element {i}: {a[i]!r} vs {b[i]!r} ({int((~ok).sum())} differ)"
        return None
    if isinstance(a, (list, tuple)):
        if type(a) is not type(b) or len(a) != len(b):
            return f"{path}: {type(a).__name__}[{len(a)}] vs {type(b).__name__}" + \
                (f"[{len(b)}]" if hasattr(b, "__len__") else "")
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff_bits(x, y, f"{path}[{i}]")
            if d:
                return d
        return None
    if isinstance(a, dict):
        if not isinstance(b, dict) or list(a) != list(b):
            return f"{path}: keys {list(a)} vs {list(b) if isinstance(b, dict) else type(b)}"
        for k in a:
            d = diff_bits(a[k], b[k], f"{path}[{k!r}]")
            if d:
                return d
        return None
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)):
        return None if (a == b or (a != a and b != b)) else f"{path}: {a!r} vs {b!r}"
    if isinstance(a, pywt.FswavedecnResult):
        if not isinstance(b, pywt.FswavedecnResult):
            return f"{path}: {type(a)} vs {type(b)}"
        return diff_bits((a.coeffs, [list(map(str, s)) for s in a.coeff_slices], a.modes, a.wavelet_names, list(a.axes)),
                         (b.coeffs, [list(map(str, s)) for s in b.coeff_slices], b.modes, b.wavelet_names, list(b.axes)), path)
    if isinstance(a, (pywt.Wavelet, pywt.ContinuousWavelet)):
        return None if str(a) == str(b) else f"{path}: {a} vs {b}"
    try:
        return None if a == b else f"{path}: {a!r} vs {b!r}"
    except Exception as e:      # pragma: no cover
        return f"{path}: {e}"


class Shared:
    """Per-worker accumulators."""

    def __init__(self):
        self.calls = collections.Counter()
        self.rejections = collections.Counter()
        self.seen = collections.Counter()
        self.cases = collections.Counter()
        self.skipped = collections.Counter()
        self.oracles = 0
        self.sigs = set()
        self.pending_sig = None
        self.worst = {}
        self.samples = {}
        self.violations = []

    def dump(self):
        return {"calls": dict(self.calls), "rejections": dict(self.rejections), "seen": dict(self.seen),
                "cases": dict(self.cases), "skipped": dict(self.skipped), "oracles": self.oracles,
                "sigs": sorted(self.sigs), "worst": self.worst, "samples": self.samples,
                "violations": self.violations}
