"""C19: pad against the extension formulas, and against the extension the DWT applies implicitly."""
import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family


def widths(rng, shape, big=False):
    """Random (before, after) per axis and a form to pass them in."""
    nd = len(shape)
    top = [min(4 * n + 3, (70 if nd == 1 else 12) * gen.LONG) for n in shape]

    def one(t):
        return int([0, 1, 2, rng.integers(0, t + 1), rng.integers(0, t + 1), t][rng.integers(6)])
    k = rng.integers(6)
    if k == 0:
        v = one(min(top))
        return [(v, v)] * nd, [v, (v,), np.int64(v), [v], ((v,),), ((v, v),), np.array(v), float(v)][rng.integers(8)]
    if k == 1:
        p = (one(min(top)), one(min(top)))
        return [p] * nd, [p, list(p), (p,), np.array(p), [list(p)]][rng.integers(5)]
    if k == 2:
        v = [one(t) for t in top]
        return [(a, a) for a in v], [[a] for a in v]
    p = [(one(t), one(t)) for t in top]
    if k == 3:
        side = rng.integers(2)
        p = [(a, 0) if side else (0, b) for a, b in p]
    return p, [tuple(p), [list(a) for a in p], np.array(p)][rng.integers(3)]


def expand(x, p, mname):
    """Reference extension, and a bound on the absolute weights for the tolerance."""
    mag = np.abs(x)
    if mname == "periodization":
        for ax in range(x.ndim):
            x, mag = ref.per_pad(x, ax), ref.per_pad(mag, ax)
    growth = 1.0
    for ax, (a, b) in enumerate(p):
        n = x.shape[ax]
        x = ref.extend(x, a, b, mname, ax)
        growth *= 1 + (2 * (max(a, b) + 1) if mname == "smooth" else 4 * (max(a, b) + n) / max(n - 1, 1) if mname == "antireflect" else 0)
    return x, growth


SIGNED = ["<f8", "<f4", "<c16", "<c8", "<i4", "<i8", ">f8", ">i4", "<f2"]


def formula(ctx):
    rng = ctx.rng
    mname = ref.MODES[rng.integers(9)]
    nd = int(rng.choice([1, 1, 1, 2, 2, 3]))
    shape = tuple(int(v) for v in rng.integers(1, {1: 20, 2: 8, 3: 5}[nd], nd))
    if gen.LONG > 1 or gen.WIDE > 1:
        i = int(rng.integers(nd))
        shape = shape[:i] + (shape[i] * gen.log_between(rng, 2, 10 * gen.LONG * gen.WIDE),) + shape[i + 1:]
    if mname in ("reflect", "antireflect"):
        shape = tuple(max(v, 2) for v in shape)
    dt = np.dtype(SIGNED[rng.integers(len(SIGNED))])
    if mname in ("zero", "constant", "symmetric", "reflect", "periodic", "periodization") and rng.random() < .15:
        dt = np.dtype(["|u1", "|b1", "<u8", "|i1"][rng.integers(4)])
    x = gen.data(rng, shape, dt)
    if dt.kind == "i" and dt.itemsize < 4:
        x = (x // 8).astype(dt)
    if dt == np.float16:
        x = np.round(x % 50).astype(dt)
    p, arg = widths(rng, shape)
    if dt == np.float16 and mname in ("smooth", "antireflect"):
        dt = np.dtype("<f8")
        x = x.astype(dt)
    ctx.sig(mname, shape, p, dt.str)
    ctx.see("mode:" + mname)
    if any((a == 0) != (b == 0) for a, b in p):
        ctx.see("one-sided")
    if any(max(w) > n for w, n in zip(p, shape)):
        ctx.see("wider than the signal")
    xa = gen.layout(rng, x)
    got = ctx.call(pywt.pad, xa, arg, mname)
    exact = dt.kind in "iub"
    wide = x.astype(np.complex128 if dt.kind == "c" else np.longdouble if dt.kind in "iu" else np.float64)
    want, growth = expand(wide, p, mname)
    what = f"pad of {shape} {dt} by {p}, {mname}"
    ctx.equal(got.shape, want.shape, "shape", what)
    ctx.equal(got.dtype.newbyteorder("="), dt.newbyteorder("="), "dtype", what)
    if exact:
        ctx.same(np.asarray(got).astype(np.longdouble), np.asarray(want).astype(np.longdouble), "pad", what)
    else:
        top = float(np.max(np.abs(wide))) if wide.size else 0.0
        ctx.close(np.asarray(got), want, "pad", what, scale=top * growth, factor=8 * nd, dtype=dt.newbyteorder("="))
        if mname not in ("smooth", "antireflect"):
            ctx.check(bool(np.all(np.asarray(got) == want.astype(dt.newbyteorder("=")))), "pad copies", what)
    core = tuple(slice(a, a + n) for (a, b), n in zip(p, shape))
    ctx.same(np.ascontiguousarray(got)[core].astype(x.dtype), np.ascontiguousarray(x), "original samples", what)
    ctx.see("elements", got.size)
    if got.size:
        before = x.copy()
        np.asarray(got)[...] = 1
        ctx.same(np.asarray(xa).copy(), before, "alias", what)


def interior(ctx):
    """dwt of the padded signal has the coefficients of the original in its interior, whatever its own mode."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=50)
    marg, mname = gen.mode(rng)
    N = gen.length(rng, w.F, hi=120)
    if gen.bad_one(N, mname):
        N = 2
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, N, dt)
    other = ref.MODES[rng.integers(8)]
    want = ctx.call(pywt.dwt, x, w.arg, marg)
    per = mname == "periodization"
    L = w.F + int(rng.integers(0, 9))
    if per:
        L += (L + w.F // 2 + 1) % 2
        first = (L + w.F // 2 - 1) // 2
    else:
        L += L % 2
        first = L // 2
    R = w.F + int(rng.integers(0, 9)) + 2
    y = ctx.call(pywt.pad, x, (L, R), mname)
    got = ctx.call(pywt.dwt, y, w.arg, other)
    ctx.sig(w, mname, N, L, R, dt.str, other)
    ctx.see("interior " + mname)
    top = float(np.max(np.abs(y)))
    for g, r, nm in zip(got, want, ("cA", "cD")):
        ctx.close(g[first:first + len(r)], r, "interior", f"{nm} of {w} {mname} N={N} from padding by ({L}, {R}), then {other}",
                  scale=top * gen.gain(w.fb), factor=16 + w.F, dtype=dt)
    ctx.see("interior coefficients", 2 * len(r))


def interior_nd(ctx):
    """The same in several dimensions with one mode for all axes."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=10)
    mname = ref.MODES[rng.integers(9)]
    nd = int(rng.integers(2, 4))
    shape = tuple(int(v) for v in rng.integers(2, 14 if nd == 2 else 7, nd))
    x = gen.data(rng, shape, np.dtype(["<f8", "<c16"][rng.integers(2)]))
    want = ctx.call(pywt.dwtn, x, w.arg, mname)
    L = w.F + int(rng.integers(0, 4))
    if mname == "periodization":
        L += (L + w.F // 2 + 1) % 2
        first = (L + w.F // 2 - 1) // 2
    else:
        L += L % 2
        first = L // 2
    R = w.F + 3
    y = ctx.call(pywt.pad, x, (L, R), mname)
    got = ctx.call(pywt.dwtn, y, w.arg, ["zero", "constant", "symmetric"][rng.integers(3)])
    ctx.sig(w, mname, shape, L)
    ctx.see("interior nd")
    top = float(np.max(np.abs(y)))
    for k, r in want.items():
        sl = tuple(slice(first, first + n) for n in r.shape)
        ctx.close(got[k][sl], r, "interior", f"{k} of {w} {mname} {shape}", scale=top * gen.gain(w.fb) ** nd, factor=(16 + w.F) * nd)


def empty(ctx):
    """Data with an empty axis: padded along the other axes, or rejected where there is nothing to extend."""
    rng = ctx.rng
    mname = ref.MODES[rng.integers(9)]
    nd = int(rng.integers(1, 4))
    shape = [int(v) for v in rng.integers(2, 5, nd)]
    e = int(rng.integers(nd))
    shape[e] = 0
    p = [(int(a), int(b)) for a, b in rng.integers(0, 3, (nd, 2))]
    if rng.random() < .6:
        p[e] = (0, 0)
    ctx.sig(mname, tuple(shape), p)
    ctx.see("empty")
    x = np.zeros(shape)
    if p[e] != (0, 0) and mname != "zero":
        ctx.raises(pywt.pad, x, p, mname, exc=ValueError)
        return
    got = ctx.call(pywt.pad, x, p, mname)
    want = [n + (n % 2 if mname == "periodization" else 0) + a + b for n, (a, b) in zip(shape, p)]
    ctx.equal(list(got.shape), want, "shape", f"pad of {shape} by {p}, {mname}")
    ctx.check(not np.any(got), "pad", "padding of nothing")


def rejected(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    x = rng.normal(size=tuple(rng.integers(2, 5, nd)))
    mname = ref.MODES[rng.integers(9)]
    kind = ["mode", "negative", "shape", "text"][rng.integers(4)]
    ctx.sig(kind, nd, mname, ctx.index)
    ctx.see("rejected " + kind)
    E = (ValueError, TypeError)
    if kind == "mode":
        ctx.raises(pywt.pad, x, int(rng.integers(0, 4)), ["nope", "", "edge", "wrap", "linear_ramp", None, "symm", "mean", "empty"][rng.integers(9)], exc=E)
    elif kind == "negative":
        p = rng.integers(0, 4, (nd, 2))
        p[rng.integers(nd), rng.integers(2)] = -int(rng.integers(1, 5))
        arg = [p, p.tolist(), int(p.min()), (int(p.min()), 2)][rng.integers(4)]
        ctx.raises(pywt.pad, x, arg, mname, exc=E)
    elif kind == "shape":
        bad = [[1, 2, 3], [[1, 2]] * (nd + 1), [], [[[1, 2]]], [[1, 2, 3]] * nd, [[1], [1], [1], [1]]][rng.integers(6)]
        ctx.raises(pywt.pad, x, bad, mname, exc=E)
    else:
        ctx.raises(pywt.pad, x, ["a", None, [None, 1], "12x", {}][rng.integers(5)], mname, exc=E)


FAMILIES = [Family(formula, 6000, 80000, boost=.03), Family(interior, 4000, 60000, boost=0.01), Family(interior_nd, 600, 8000), Family(empty, 600, 2000), Family(rejected, 600, 2000)]
