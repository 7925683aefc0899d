"""C18: thresholding, element by element."""
import math

import numpy as np

import pywt
from rt import gen
from rt.fam import Family

LD = np.longdouble
MODES = ["soft", "hard", "garrote", "garotte", "greater", "less"]


def mag(x):
    if isinstance(x, complex):
        return LD(np.hypot(LD(x.real), LD(x.imag)))
    return LD(abs(LD(x)))


def mag2(a, b):
    return np.hypot(LD(a.real) - LD(b.real), LD(a.imag) - LD(b.imag))


def formula(x, v, mode, sub):
    """Documented value for one element (real: longdouble, complex: pair), and whether it was substituted."""
    m = mag(x)
    v = LD(v)
    if mode == "greater":
        return (sub if LD(x) < v else x)
    if mode == "less":
        return (sub if LD(x) > v else x)
    if mode == "hard":
        return sub if m < v else x
    if m < v:
        return sub
    if m == 0:
        return 0.0
    if math.isnan(m):
        f = m
    elif math.isinf(m):
        f = LD(1) if not math.isinf(v) else None
    elif mode == "soft":
        f = (m - v) / m
    else:
        f = (m - v) * (m + v) / (m * m) if m < LD("1e2000") else LD(1)
    if f is None:
        return None
    if isinstance(x, complex):
        return complex(float(LD(x.real) * f), float(LD(x.imag) * f))
    return LD(x) * f if not math.isinf(m) else x


def firm(x, lo, hi):
    m, lo, hi = mag(x), LD(lo), LD(hi)
    if m <= lo:
        return 0.0
    if m > hi:
        return x
    if math.isinf(hi):
        f = (m - lo) / m if not math.isinf(m) else LD(1)
    else:
        f = hi * (m - lo) / (m * (hi - lo))
    if isinstance(x, complex):
        return complex(float(LD(x.real) * f), float(LD(x.imag) * f))
    return LD(x) * f if not math.isinf(m) else x


def make(rng, shape, dt, v):
    """Data with many elements at, next to and around the threshold."""
    n = int(np.prod(shape))
    vf = float(v)
    out = []
    one = np.dtype(dt).type(0).real.dtype.type if np.dtype(dt).kind == "c" else np.dtype(dt).type
    fin = np.finfo(one) if np.dtype(dt).kind in "fc" else None
    for _ in range(n):
        k = rng.integers(10)
        if k == 0:
            r = 0.0
        elif k <= 2:
            r = vf
        elif k == 3 and fin is not None and math.isfinite(vf):
            r = float(np.nextafter(one(np.clip(vf, fin.min, fin.max)), one([np.inf, -np.inf][rng.integers(2)])))
        elif k == 4 and fin is not None and rng.random() < .3:
            r = [float(fin.max), float(fin.tiny), float(fin.smallest_subnormal), np.inf, np.nan][rng.integers(5)]
        else:
            r = rng.normal() * (vf if math.isfinite(vf) and vf else 1) * 2
        if rng.random() < .5:
            r = -r
        if np.dtype(dt).kind == "c":
            j = rng.integers(4)
            if math.isinf(r):
                r = 1.0
            r = complex(r, 0) if j == 0 else complex(0, r) if j == 1 else complex(r * .6, r * .8) if j == 2 else \
                complex(r, rng.normal() * (abs(r) if abs(r) < 1e4 else 1e4))
        elif fin is None:
            r = int(np.clip(np.round(r if math.isfinite(r) else 1), -100, 100))
            if np.dtype(dt).kind == "u":
                r = abs(r)
        out.append(r)
    with np.errstate(all="ignore"):
        return np.array(out, dtype=object).astype(dt).reshape(shape)


def values(rng, dt):
    k = rng.integers(9)
    top = 6e4 if np.dtype(dt) == np.float16 else 1e30
    v = [0.0, 1.0, 2, float(np.round(rng.uniform(0, 4), 1)), float(abs(rng.normal())), 1e-30, min(top, 1e30), 1e-3, 10.0][k]
    if np.dtype(dt) == np.float16:
        v = float(np.float16(v))
    elif gen.is32(dt) and np.dtype(dt).kind in "fc":
        v = float(np.float32(v))
    return v


def pick_dtype(rng):
    return np.dtype(["<f8", "<f8", "<f4", "<c16", "<c8", "<f2", "<i4", "<i8", "|u1", ">f8"][rng.integers(10)])


def fdtype(dt):
    return dt.newbyteorder("=") if dt.kind in "fc" else np.dtype(np.float64)


def judge(ctx, got, x, want, key, what, vs, mode, sub):
    """Compare element-wise: exactly for copied elements, to rounding for computed ones."""
    eps = float(np.finfo(fdtype(x.dtype)).eps)
    tiny = float(np.finfo(fdtype(x.dtype)).smallest_subnormal)
    for i, (g, xi, w) in enumerate(zip(got.ravel().tolist(), x.ravel().tolist(), want)):
        if w is None:
            continue
        if isinstance(xi, complex) and abs(mag(xi) - LD(vs[i])) <= 4 * eps * mag(xi):
            # the rounded magnitude may fall on either side of the threshold
            alt = [complex(sub), xi if mode == "hard" else 0j]
            if any(mag2(complex(g), a) <= 8 * LD(eps) * mag(xi) or str(complex(g)) == str(a) for a in alt):
                continue
        parts = [(g.real, w.real), (g.imag, w.imag)] if isinstance(g, complex) else [(g, w)]
        if isinstance(w, complex) and not isinstance(g, complex):
            parts = [(g, w.real), (0, w.imag)]
        for a, b in parts:
            ok = (math.isnan(a) and math.isnan(b)) or a == b
            if not ok and not math.isnan(a):
                m = float(mag(xi))
                ok = abs(LD(a) - LD(b)) <= LD(8 * eps) * m + 2 * tiny if math.isfinite(m) else False
            ctx.check(ok, key, lambda: f"{what}: element {i} is {xi!r} -> {g!r}, expected {w!r}")
    ctx.see("elements compared", got.size)


def element(ctx):
    rng = ctx.rng
    dt = pick_dtype(rng)
    shape = tuple(int(v) for v in rng.integers(1, 8, int(rng.integers(0, 4))))
    if shape and gen.LONG * gen.WIDE > 1:
        shape = (shape[0] * gen.log_between(rng, 2, 10 * gen.LONG * gen.WIDE),) + shape[1:]
    mode = MODES[rng.integers(len(MODES))]
    if dt.kind == "c" and mode in ("greater", "less"):
        mode = MODES[rng.integers(4)]
    v = values(rng, dt)
    if mode in ("greater", "less", "hard") and rng.random() < .3:
        v = -v
    sub = [0, 0, 0.0, 1, -2.5, 7, float("nan"), float("inf")][rng.integers(8)]
    if dt.kind == "c" and rng.random() < .2:
        sub = 1 - 2j
    x = make(rng, shape, dt, abs(v))
    ctx.sig(str(dt), shape, mode, v, sub)
    varg = v
    vs = np.full(shape, v)
    if shape and rng.random() < .35:
        # an array threshold that broadcasts to the data
        vshape = tuple(n if rng.random() < .6 else 1 for n in shape[int(rng.integers(0, len(shape))):])
        va = np.array([values(rng, dt) for _ in range(int(np.prod(vshape)))], float).reshape(vshape)
        va.flat[int(rng.integers(va.size))] = v
        if rng.random() < .5 and dt.kind in "fc":
            va = va.astype(np.zeros(1, fdtype(dt)).real.dtype)
        vs = np.broadcast_to(va.astype(np.float64), shape)
        varg = va if rng.random() < .8 else va.tolist()
        ctx.see("array thresholds")
        fl = isinstance(varg, np.ndarray) and va.dtype != np.float64
    else:
        fl = True
    xa = gen.layout(rng, x)
    if rng.random() < .1 and dt in (np.float64, np.int64, np.complex128) and shape:
        xa = x.tolist()
    args = [xa, varg]
    kw = {}
    if mode != "soft" or rng.random() < .7:
        if rng.random() < .5:
            args.append(mode)
        else:
            kw["mode"] = mode
    if not (isinstance(sub, (int, float)) and sub == 0) or rng.random() < .4:
        kw["substitute"] = sub
    got = np.asarray(ctx.call(pywt.threshold, *args, **kw))
    ctx.equal(got.shape, shape, "shape", f"{mode} {shape}")
    if dt.kind in "fc" and fl and dt.isnative and not isinstance(sub, complex):
        ctx.equal(got.dtype, dt, "dtype", f"{mode} {dt} value {type(varg).__name__} substitute {sub!r}")
    with np.errstate(all="ignore"):
        want = [formula(xi, vi, mode, sub) for xi, vi in zip(x.ravel().tolist(), vs.ravel().tolist())]
    # NaN substitutes in integer results and values rounded to the data's precision are the caller's choice
    judge(ctx, got, x, want, mode, f"{mode} value {v} substitute {sub!r} {dt}", vs.ravel().tolist(), mode, sub)
    if x.size and dt.kind != "u":
        i = int(rng.integers(x.size))
        one = np.asarray(ctx.call(pywt.threshold, x.ravel()[i:i + 1], float(vs.ravel()[i]), mode, substitute=sub))
        g = got.ravel()[i:i + 1]
        m = float(mag(x.ravel()[i].item()))
        ctx.check(bool(np.all((one == g) | ((one != one) & (g != g)) | (np.abs(one - g) <= 1e-6 * m + 1e-30))) or not fl or math.isinf(m),
                  "independence", lambda: f"{mode}: alone {one}, in the array {g}")
        if mode in ("soft", "garrote", "garotte", "hard") and dt.kind in "fc" and not isinstance(sub, complex) and sub == 0:
            neg = np.asarray(ctx.call(pywt.threshold, -x, varg, mode))
            with np.errstate(all="ignore"):
                near = np.abs(neg + got) <= 8 * float(np.finfo(fdtype(dt)).eps) * np.abs(x) if dt.kind == "c" else neg == -got
            ctx.check(bool(np.all(near | (neg == -got) | ((neg != neg) & (got != got)))), "odd symmetry", lambda: f"{mode} of -x is not -({mode} of x): {x} -> {got}, {neg}")


def firm_case(ctx):
    rng = ctx.rng
    dt = pick_dtype(rng)
    shape = tuple(int(v) for v in rng.integers(1, 8, int(rng.integers(0, 4))))
    lo = values(rng, dt)
    k = rng.integers(8)
    hi = [lo, float("inf"), lo + 1, lo * 2, lo + abs(float(rng.normal())), 1e5, 1e300, lo * (1 + 1e-7)][k]
    hi = max(lo, hi)
    if gen.is32(dt) and dt.kind in "fc" and math.isfinite(hi) and hi < 3e38:
        one = np.zeros(1, dt).real.dtype.type
        h = float(one(hi))
        hi = h if math.isfinite(h) else hi
        hi = max(lo, hi)
    x = make(rng, shape, dt, [lo, hi][rng.integers(2)] if math.isfinite(hi) else lo)
    ctx.sig("firm", str(dt), shape, lo, hi)
    with np.errstate(all="ignore"):
        got = np.asarray(ctx.call(pywt.threshold_firm, gen.layout(rng, x), lo, hi))
        want = [firm(xi, lo, hi) for xi in x.ravel().tolist()]
    ctx.equal(got.shape, shape, "shape", "firm")
    if dt.kind in "fc" and dt.isnative:
        ctx.equal(got.dtype, dt, "dtype", f"firm {dt}")
    # between the thresholds the slope is hi/(hi-lo), so the rounding of |x|-lo is amplified by it
    amp = float(LD(hi) / (LD(hi) - LD(lo))) if math.isfinite(hi) and hi > lo else 1.0
    eps = float(np.finfo(fdtype(dt)).eps)
    for i, (g, xi, w) in enumerate(zip(got.ravel().tolist(), x.ravel().tolist(), want)):
        parts = [(g.real, w.real), (g.imag, w.imag)] if isinstance(g, complex) and isinstance(w, complex) else [(g, w)]
        if isinstance(xi, complex) and min(abs(mag(xi) - LD(t)) for t in (lo, hi)) <= 4 * eps * mag(xi) and \
                any(mag2(complex(g), a) <= 8 * LD(eps * amp) * mag(xi) for a in (0j, xi)):
            continue
        m = float(mag(xi))
        if isinstance(xi, complex) and not math.isfinite(m):
            continue
        for a, b in parts:
            a = a.real if isinstance(a, complex) else a
            ok = a == b or (math.isnan(a) and math.isnan(m)) or (not math.isnan(a) and math.isfinite(m) and abs(LD(a) - LD(b)) <= LD(8 * eps * amp) * m + LD(2e-7 if dt == np.float16 else 1e-44 if gen.is32(dt) and dt.kind in "fc" else 1e-323))
            ctx.check(ok, "firm", lambda: f"firm({lo}, {hi}) {dt}: element {i} is {xi!r} -> {g!r}, expected {w!r}")
    ctx.see("elements compared", got.size)
    fin = np.isfinite(np.abs(x)) if dt.kind in "fc" else np.ones(shape, bool)
    ctx.check(not np.any(np.isnan(got) & fin), "NaN", "NaN for finite input")
    if hi == lo and lo > 0:
        keep = np.abs(x) != np.asarray(lo).astype(np.abs(x).dtype if dt.kind in "fc" else float)
        h = np.asarray(ctx.call(pywt.threshold, x, lo, "hard"))
        ctx.check(bool(np.all((got == h) | ~keep | (got != got))), "firm limit", "value_low == value_high is not hard thresholding") if dt.kind != "c" else None
        ctx.see("firm limit hard")
    if math.isinf(hi) and fin.all():
        s = np.asarray(ctx.call(pywt.threshold, x, lo, "soft"))
        with np.errstate(all="ignore"):
            d = np.abs(got.astype(np.clongdouble) - s.astype(np.clongdouble))
            lim = 8 * eps * np.abs(x.astype(np.clongdouble)) + 1e-44 + (2e-7 if dt == np.float16 else 0)
        ctx.check(bool(np.all((d <= lim) | ~np.isfinite(np.abs(x)))), "firm limit", "value_high = inf is not soft thresholding")
        ctx.see("firm limit soft")


def rejected(ctx):
    rng = ctx.rng
    x = rng.normal(size=int(rng.integers(1, 9)))
    kind = rng.integers(5)
    ctx.sig(int(kind), ctx.index)
    if kind == 0:
        ctx.raises(pywt.threshold, x, 1.0, ["Soft", "", "firm", "nope", None, 3, "soft "][rng.integers(7)], exc=(ValueError, TypeError))
    elif kind == 1:
        ctx.raises(pywt.threshold, x + 1j, 1.0, ["greater", "less"][rng.integers(2)], exc=ValueError)
        ctx.raises(pywt.threshold, [1j], 1.0, ["greater", "less"][rng.integers(2)], exc=ValueError)
    elif kind == 2:
        lo = -float(abs(rng.normal())) - 1e-9
        ctx.raises(pywt.threshold_firm, x, lo, [1.0, lo, np.inf][rng.integers(3)], exc=ValueError)
    elif kind == 3:
        lo = float(abs(rng.normal()))
        ctx.raises(pywt.threshold_firm, x, lo, [lo - 1e-9, 0, -1, -np.inf][rng.integers(4)] if lo > 1e-9 else -1, exc=ValueError)
    else:
        ctx.raises(pywt.threshold, ["a", "b"], 1.0, MODES[rng.integers(6)], exc=Exception)
        ctx.raises(pywt.threshold, x, "a", MODES[rng.integers(6)], exc=Exception)
        ctx.raises(pywt.threshold, np.ones(3), np.ones(4), MODES[rng.integers(6)], exc=ValueError)
    ctx.see("rejected")


FAMILIES = [Family(element, 6000, 250000, boost=.015), Family(firm_case, 4000, 150000), Family(rejected, 400, 10000)]
