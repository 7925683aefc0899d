"""C01: dwt against the defining sum with explicit signal extension."""
import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family


def judge(ctx, x, w, mname, axis, cA, cD, key="dwt"):
    xn = gen.native(x)
    F = w.F
    odt = gen.out_dtype(np.asarray(x).dtype)
    n = ref.coeff_len(xn.shape[axis], F, mname)
    for c, f, nm in ((cA, w.fb.dec_lo, "cA"), (cD, w.fb.dec_hi, "cD")):
        ctx.check(c.dtype == odt, f"{key}:dtype", lambda: f"{nm} has dtype {c.dtype}, expected {odt}")
        ctx.check(c.shape[axis] == n, f"{key}:length", lambda: f"{nm} has {c.shape[axis]} coefficients, expected {n}")
        r = ref.dwt_part(xn, f, mname, axis)
        mag = ref.dwt_mag(xn, f, mname, axis)
        ctx.close(c, r, f"{key}:{nm}", f"{nm} of {w} {mname} N={xn.shape[axis]}", scale=mag, factor=16 + F, dtype=odt)


def random_1d(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    marg, mname = gen.mode(rng)
    N = gen.length(rng, w.F)
    if N == 1 and mname in ("reflect", "antireflect"):
        mname = marg = "symmetric"
    dt = gen.dtype(rng)
    x = gen.layout(rng, gen.data(rng, N, dt))
    ctx.sig(w, mname, N, dt.str, hash(x.tobytes()) & 0xffff)
    ctx.see("mode:" + mname)
    ctx.see("N<F" if N < w.F else "N>=F")
    if N % 2:
        ctx.see("odd N")
    cA, cD = ctx.call(pywt.dwt, x, w.arg, marg)
    judge(ctx, x, w, mname, 0, cA, cD)
    ctx.equal(ctx.call(pywt.dwt_coeff_len, N, w.F, marg), len(cA), "dwt_coeff_len", "dwt_coeff_len")
    ctx.equal(ctx.call(pywt.dwt_coeff_len, N, w.obj(), marg), len(cA), "dwt_coeff_len", "dwt_coeff_len with a Wavelet")


def sweep(ctx):
    """One (wavelet, mode): every data length from 1 to beyond twice the filter."""
    nw = len(gen.DISCRETE)
    name = gen.DISCRETE[ctx.index % nw]
    mname = ref.MODES[(ctx.index // nw) % 9]
    dt = np.dtype(["<f8", "<f4", "<c16", "<c8"][(ctx.index // nw // 9 + ctx.index) % 4])
    w = gen.builtin(ctx.rng, [name])
    ctx.sig(name, mname, dt.str)
    ctx.see("mode:" + mname)
    top = 2 * w.F + 6
    lens = range(1, top) if ctx.tier != "quick" or top < 40 else \
        sorted(set(range(1, 8)) | set(range(w.F - 4, w.F + 5)) | {int(v) for v in ctx.rng.integers(1, top, 12)})
    for N in lens:
        if N == 1 and mname in ("reflect", "antireflect"):
            continue
        x = ctx.rng.normal(size=N).astype(dt)
        if dt.kind == "c":
            x = (x + 1j * ctx.rng.normal(size=N)).astype(dt)
        cA, cD = ctx.call(pywt.dwt, x, w.arg, mname)
        judge(ctx, x, w, mname, 0, cA, cD)
        ctx.see("lengths swept")


def axis_nd(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    marg, mname = gen.mode(rng)
    nd = int(rng.integers(1, 6))
    axp, ax = gen.axis_of(rng, nd)
    shape = list(gen.shape_nd(rng, nd, hi=7, cap=400))
    shape[ax] = gen.length(rng, w.F, hi=120)
    if shape[ax] == 1 and mname in ("reflect", "antireflect"):
        shape[ax] = 2
    dt = gen.dtype(rng)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig(w, mname, tuple(shape), ax, dt.str, x.strides)
    ctx.see(f"rank {nd}")
    cA, cD = ctx.call(pywt.dwt, x, w.arg, marg, axis=axp)
    judge(ctx, x, w, mname, ax, cA, cD)


def operator(ctx):
    """The whole matrix of the transform, by applying it to the identity (no random data can hide an entry)."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=40)
    marg, mname = gen.mode(rng)
    N = gen.length(rng, w.F, hi=90)
    if N == 1 and mname in ("reflect", "antireflect"):
        N = 2
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    eye = np.eye(N, dtype=dt)
    ctx.sig(w, mname, N, dt.str)
    ax = int(rng.integers(2))
    cA, cD = ctx.call(pywt.dwt, eye, w.arg, marg, axis=ax)
    judge(ctx, eye, w, mname, ax, cA, cD)
    ctx.see("operator entries", N * cA.shape[ax] * 2)


def large(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=40)
    marg, mname = gen.mode(rng)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    if rng.random() < .5:
        N = int(10 ** rng.uniform(3.2, 5.3 if ctx.tier == "quick" else 6.2))
        x = gen.data(rng, N, dt)
        ax = 0
    else:
        shape = [int(rng.integers(2, 60)), int(rng.integers(300, 3000))]
        ax = int(rng.integers(2))
        if ax == 0:
            shape.reverse()
        if rng.random() < .3:
            ax = 1 - ax
        x = gen.data(rng, shape, dt)
        N = shape[ax]
    ctx.sig(w, mname, x.shape, ax, dt.str)
    cA, cD = ctx.call(pywt.dwt, x, w.arg, marg, axis=ax)
    judge(ctx, x, w, mname, ax, cA, cD)
    ctx.see("large", x.size)


def rejections(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    marg, mname = gen.mode(rng)
    nd = int(rng.integers(1, 4))
    axp, ax = gen.axis_of(rng, nd)
    shape = list(gen.shape_nd(rng, nd, hi=5))
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    if rng.random() < .5:
        shape[ax] = 0
        ctx.sig("empty", w, mname, tuple(shape), ax)
        x = np.zeros(shape, dt)
        ctx.raises(pywt.dwt, x, w.arg, marg, axis=axp)
    else:
        shape[ax] = 1
        x = gen.data(rng, shape, dt)
        ctx.sig("one", w, mname, tuple(shape), ax)
        if mname in ("reflect", "antireflect"):
            ctx.raises(pywt.dwt, x, w.arg, marg, axis=axp)
        else:
            cA, cD = ctx.call(pywt.dwt, x, w.arg, marg, axis=axp)
            judge(ctx, x, w, mname, ax, cA, cD)
    # dwt_coeff_len on arguments outside the domain
    ctx.raises(pywt.dwt_coeff_len, int(rng.integers(-3, 1)), w.F, marg)
    ctx.raises(pywt.dwt_coeff_len, 5, int(rng.integers(-3, 1)), marg)
    # the length formula far beyond what can be transformed
    N, F = int(10 ** rng.uniform(0, 9)), 2 * int(rng.integers(1, 60))
    ctx.equal(ctx.call(pywt.dwt_coeff_len, N, F, marg), ref.coeff_len(N, F, mname), "dwt_coeff_len", f"dwt_coeff_len({N}, {F}, {mname})")


FAMILIES = [
    Family(random_1d, 9000, 250000),
    Family(sweep, 1143, 4572),
    Family(axis_nd, 5000, 120000),
    Family(operator, 1500, 30000),
    Family(large, 60, 1500),
    Family(rejections, 1500, 20000),
]
