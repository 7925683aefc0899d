"""C21: dtype rules, complex = real + i*imag, array-likes."""
import array

import numpy as np

import pywt
from rt import api, gen
from rt.core import diff_bits, eps_of
from rt.fam import Family

POOL = {k: v for k, v in api.LINEAR.items() if k != "pad"}
CASTS = ["<f4", "<f2", "<f16", "<c8", "<c32", "<i4", "|i1", "<i8", "|u1", "<u2", "|b1", ">f8", ">f4", ">c16", ">i2", "<f8"]
FLOATS = ["<f4", "<f2", "<f16", ">f8", ">f4", "<f8"]


def top(arrs):
    m = 0.0
    for a in arrs:
        if a.size and a.dtype.kind in "fciub":
            m = max(m, float(np.max(np.abs(a.astype(complex if a.dtype.kind == "c" else float)))))
    return m


def cast_to(a, dt):
    dt = np.dtype(dt)
    if dt.kind in "iub":
        a = np.round(np.clip(a.real * 4, -100, 100))
        if dt.kind == "u":
            a = np.abs(a)
        return (a > 0) if dt.kind == "b" else a.astype(dt)
    if dt.kind != "c":
        a = a.real
    if dt.itemsize in (2,):
        a = np.clip(a, -6e3, 6e3)
    return a.astype(dt)


def native(a):
    """The equivalent native floating array."""
    return a.astype(gen.out_dtype(a.dtype))


def double(a):
    return a.astype(np.complex128 if a.dtype.kind == "c" else np.float64)


def expect(c, dts):
    """Documented dtype of every result of call c for data of dtypes dts."""
    out = {gen.out_dtype(d) for d in dts}
    return out.pop() if len(out) == 1 else None


def strip(c, r):
    """cwt frequencies are not a transform of the data."""
    return r[0] if c.name == "cwt" else r


def compare(ctx, got, want, call, key, what, eps, factor, scale=None):
    ga, wa = api.arrays(got), api.arrays(want)
    s = max(top(wa), top(call.arrays()), scale or 0.0)
    ctx.check(len(ga) == len(wa), key, lambda: f"{what}: {len(ga)} arrays instead of {len(wa)}")
    for i, (a, b) in enumerate(zip(ga, wa)):
        ctx.check(a.shape == b.shape, key + ":shape", lambda: f"{what}: array {i} has shape {a.shape} instead of {b.shape}")
        d = np.abs(a.astype(np.result_type(a, b)) - b) if a.size else np.zeros(1)
        worst = float(np.max(d))
        tol = factor * eps * s
        ctx.check(bool(np.all(d <= tol)), key, lambda: f"{what}: array {i} off by {worst:.3g}, allowed {tol:.3g}")
        if tol:
            ctx.sh.worst[key] = max(ctx.sh.worst.get(key, 0.0), worst / tol)


def keykind(c):
    return c.name


def dtypes(ctx):
    rng = ctx.rng
    dt = np.dtype(CASTS[rng.integers(len(CASTS))])
    c = api.make(rng, POOL, dt="<c16" if dt.kind == "c" else "<f8")
    if c.name.startswith("imra") and dt.kind not in "fc":
        dt = np.dtype("<f4")
    v = c.mapped(lambda a: cast_to(a, dt))
    if c.name.startswith("imra") and dt.str not in ("<f4", "<f8", "<c8", "<c16"):
        v = v.mapped(native)                   # summation only: keeps what it is given
        dt = gen.out_dtype(dt)
    ctx.sig(c.name, dt.str, repr(v)[:300])
    ctx.trace.append(repr(v)[:500])
    out = v.outcome()
    ctx.check(out[0] == "ok", f"rejected:{c.name}:{dt.kind}", lambda: f"{v!r} raised {out[1:]}")
    r = strip(c, out[1])
    want = gen.out_dtype(dt)
    if not c.identity:
        for i, a in enumerate(api.arrays(r)):
            if c.view and i == 0 and c.name.endswith("walk"):
                continue                       # the data it was given
            w = want
            if c.name == "cwt" and a.dtype.kind == "c":
                w = np.dtype(np.complex64 if gen.is32(dt) else np.complex128)
            ctx.check(a.dtype == w, f"result dtype:{c.name}", lambda: f"{v!r}: result {i} has dtype {a.dtype} for {dt} data (documented: {w})")
    ctx.see("call " + c.name)
    ctx.see("dtype " + dt.str)
    n = v.mapped(native)
    rn = strip(c, ctx.call(n.run))
    if not c.identity:
        d = diff_bits(r, rn)
        if d is None:
            ctx.see("bit-identical to the native array")
        else:
            compare(ctx, r, rn, n, f"native:{c.name}", f"{v!r} against native {want}", eps_of(want), 2000.0)
    if gen.is32(dt):
        m = n.mapped(double)
        rd = strip(c, ctx.call(m.run))
        compare(ctx, rn, rd, m, f"single precision:{c.name}", f"{n!r} against double precision", eps_of(np.float32), 30000.0 if c.name == "cwt" else 4000.0)
        ctx.see("single against double")


def mixed(ctx):
    """Containers mixing dtypes lose neither precision nor an imaginary part."""
    rng = ctx.rng
    names = ["idwt", "idwt2", "idwtn", "waverec", "waverec2", "waverecn", "iswt", "iswt2", "iswtn"]
    c = api.make(rng, api.TRANSFORMS, names[rng.integers(len(names))], dt="<c16")
    dts = [["<f8", "<f4", "<c16", "<c8", "<i4", "<f2", ">f8", "<f16"][k] for k in rng.integers(0, 8, 3)]
    v = c.mapped(lambda a: cast_to(a, dts[rng.integers(3)]))
    used = {a.dtype for a in v.arrays()}
    eps = max(eps_of(gen.out_dtype(d)) for d in used)
    ctx.sig(c.name, sorted(d.str for d in used), repr(v)[:300])
    ctx.trace.append(repr(v)[:500])
    out = v.outcome()
    ctx.check(out[0] == "ok", f"mixed rejected:{c.name}", lambda: f"{v!r} raised {out[1:]}")
    m = v.mapped(lambda a: a.astype(np.complex128))
    want = ctx.call(m.run)
    compare(ctx, out[1], want, m, f"mixed:{c.name}", f"{v!r} against all complex128", eps, 4000.0)
    ctx.see("mixed dtypes" if len(used) > 1 else "one dtype")
    # the same with the single-precision arrays tiny: what the others lose shows at double precision
    k = 2.0 ** -int(rng.integers(16, 40))
    def shrink(a):
        return a * np.asarray(k, a.dtype) if gen.is32(a.dtype) and a.dtype.itemsize > 2 else a
    u = v.mapped(shrink)
    small = [a for a in u.arrays() if gen.is32(a.dtype)]
    if small and len(small) < len(u.arrays()) and all(a.dtype.itemsize > 2 for a in small):
        got = ctx.call(u.run)
        m = u.mapped(lambda a: a.astype(np.complex128))
        tol = eps_of(np.float32) * top(small) + eps_of(np.float64) * top(m.arrays())
        compare(ctx, got, ctx.call(m.run), m, f"mixed:{c.name}", f"{u!r} (single-precision arrays scaled by {k:.3g}) against all complex128", 1.0, 4000.0 * tol / max(top(m.arrays()), 1e-300), 0.0)
        ctx.see("mixed precision, magnitudes apart")


def parts(ctx):
    """T(x + i*y) == T(x) + i*T(y)"""
    rng = ctx.rng
    dt = ["<c16", "<c8"][rng.integers(2)]
    c = api.make(rng, POOL, dt=dt)
    ctx.sig(c.name, dt, repr(c)[:300])
    ctx.trace.append(repr(c)[:500])
    r = strip(c, ctx.call(c.run))
    re = strip(c, ctx.call(c.mapped(lambda a: a.real.copy()).run))
    im = strip(c, ctx.call(c.mapped(lambda a: a.imag.copy()).run))
    ar, ai = api.arrays(re), api.arrays(im)
    k = iter([a + 1j * b for a, b in zip(ar, ai)])
    ctx.check(len(ar) == len(ai) == len(api.arrays(r)), f"complex:{c.name}", lambda: f"{c!r}: numbers of arrays differ")
    real_wavelet = c.name != "cwt" or not (pywt.ContinuousWavelet(c.args[2]) if isinstance(c.args[2], str) else c.args[2]).complex_cwt
    for a in ar:
        if not c.identity and real_wavelet:
            ctx.check(a.dtype.kind == "f", f"real in, real out:{c.name}", lambda: f"{c!r}: real data gave {a.dtype}")
    sums = list(k)
    compare(ctx, r, sums, c, f"complex:{c.name}", repr(c)[:500], eps_of(dt), 30000.0 if c.name == "cwt" else 4000.0)
    ctx.see("complex " + c.name)


FWD = ["dwt", "downcoef", "upcoef", "dwt2", "dwtn", "wavedec", "wavedec2", "wavedecn", "fswavedecn", "swt", "swt2", "swtn", "mra", "mra2", "mran", "cwt", "idwt", "packet_nodes"]


class Lazy:
    """An object numpy can convert, and nothing else."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return self.a if dtype is None else self.a.astype(dtype)


def likes(ctx):
    """Lists, nested sequences, integer lists and other array-likes against the equivalent array."""
    rng = ctx.rng
    dt = ["<f8", "<c16", "int", "bool"][rng.choice([0, 0, 1, 2, 3])]
    c = api.make(rng, api.LINEAR, FWD[rng.integers(len(FWD))], dt="<c16" if dt == "<c16" else "<f8")
    if dt in ("int", "bool"):
        c = c.mapped(lambda a: cast_to(a, "<i8" if dt == "int" else "|b1"))
    ref = c.mapped(double)
    want = ctx.call(ref.run)
    kind = ["list", "tuple", "rows", "mixed", "subclass", "lazy", "array", "objects"][rng.integers(8)]

    def tup(v):
        return tuple(tup(x) for x in v) if isinstance(v, list) else v

    def like(a):
        if kind == "list":
            return a.tolist()
        if kind == "tuple":
            return tup(a.tolist())
        if kind == "rows":
            return [np.array(r) for r in a] if a.ndim > 1 else [np.asarray(v)[()] for v in a]
        if kind == "mixed" and a.ndim > 1:
            return [tuple(r.tolist()) if i % 2 else r.tolist() for i, r in enumerate(a)]
        if kind == "array" and a.ndim == 1 and a.dtype.kind in "fi":
            return array.array("d" if a.dtype.kind == "f" else "q", a.tolist())
        if kind == "lazy":
            return Lazy(a)
        if kind == "subclass":
            class L(list):
                pass
            return L(a.tolist())
        return a.tolist()
    args = [like(a) if i in c.data and isinstance(a, np.ndarray) else a for i, a in enumerate(c.args)]
    v = c.with_args(args)
    ctx.sig(c.name, dt, kind, repr(c)[:300])
    ctx.trace.append(f"{kind} {dt}: {c!r}"[:500])
    out = v.outcome()
    ctx.check(out[0] == "ok", f"array-like rejected:{c.name}:{kind}", lambda: f"{c!r} with data as {kind} raised {out[1:]}")
    if c.identity and dt != "<f8" and dt != "<c16":
        return
    d = diff_bits(strip(c, out[1]), strip(c, want))
    if d is None:
        ctx.see("bit-identical " + kind)
        ctx.check(True, "")
    else:
        ga, wa = api.arrays(strip(c, out[1])), api.arrays(strip(c, want))
        ctx.check([a.dtype for a in ga] == [a.dtype for a in wa], f"array-like dtype:{c.name}:{kind}", lambda: f"{c!r} with data as {kind} of {dt}: {d}")
        compare(ctx, out[1], want, ref, f"array-like:{c.name}:{kind}", f"{c!r} with data as {kind} of {dt}", eps_of(np.float64), 2000.0)


FAMILIES = [Family(dtypes, 14000, 200000, boost=.015), Family(mixed, 4000, 60000, boost=0.006), Family(parts, 6000, 80000, boost=0.006), Family(likes, 6000, 60000)]
