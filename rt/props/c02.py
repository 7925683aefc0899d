"""C02: round trips."""
import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family


MAXF = {1: None, 2: 56, 3: 20, 4: 10, 5: 8}      # keeps coefficient arrays of several axes small


def rt_close(ctx, got, x, scale, defect, key, what):
    """got must equal x up to one trailing sample per odd axis."""
    odt = gen.out_dtype(np.asarray(x).dtype)
    xn = gen.native(x)
    ctx.check(got.dtype == odt, key + ":dtype", lambda: f"{what}: dtype {got.dtype}, expected {odt}")
    ctx.check(got.ndim == xn.ndim, key + ":ndim", lambda: f"{what}: {got.shape} for data of shape {xn.shape}")
    for g, n in zip(got.shape, xn.shape):
        ctx.check(g == n or (n % 2 and g == n + 1), key + ":size", lambda: f"{what}: {got.shape} for data of shape {xn.shape}")
        if g != n:
            ctx.see("odd axis with an extra sample")
    got = got[tuple(slice(0, n) for n in xn.shape)]
    ctx.close(got, xn, key, what, scale=scale, dtype=odt, factor=32, atol=8 * defect * scale)


def level_scale(x, levels, ws, modes, axes):
    """Bound on |intermediate values| reached and amplified by the synthesis, and the filter defect."""
    a, scale, amp = gen.native(x), 0.0, 1.0
    g = p = e = 1.0
    defect = 0.0
    for w, m, ax in zip(ws, modes, axes):
        g *= gen.gain(w.fb)
        p *= max(1.0, gen.polygain(w.fb))
        e *= gen.ext_growth(m, 2, w.F)
        defect += gen.pr_defect(w.fb)
    s = float(np.max(np.abs(a))) if a.size else 0.0
    scale = s
    for _ in range(max(levels, 0)):
        amp *= p
        scale += amp * g * e * s
        if _ + 1 < levels:
            for w, m, ax in zip(ws, modes, axes):
                a = pywt.dwt(a, w.arg, m, axis=ax)[0]
            s = max(s, float(np.max(np.abs(a)))) if a.size else s
    return scale, defect


def pick(ctx, kmin, kmax, hi, cap, pr=True, nd_max=4, max_len=None):
    rng = ctx.rng
    nd = int(rng.integers(kmin, nd_max + 1))
    axp, ax = gen.axes_of(rng, nd, int(rng.integers(kmin, min(kmax, nd) + 1)))
    warg, ws, marg, ms = gen.per_axis(rng, len(ax), pr, max_len or MAXF[len(ax)])
    shape = list(gen.shape_nd(rng, nd, hi=hi, cap=cap))
    if len(ax) == 1 and rng.random() < .6:
        shape[ax[0]] = gen.length(rng, ws[0].F, hi=150)
    for a, m in zip(ax, ms):
        if gen.bad_one(shape[a], m):
            shape[a] = int(rng.integers(2, 6))
    dt = gen.dtype(rng)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    return x, axp, ax, warg, ws, marg, ms, dt


def one_level(ctx):
    rng = ctx.rng
    x, axp, ax, warg, ws, marg, ms, dt = pick(ctx, 1, 1, 9, 300)
    warg = ws[0].arg
    marg = ms[0]
    ctx.sig(ws[0], ms[0], x.shape, ax, dt.str)
    ctx.see("mode:" + ms[0])
    cA, cD = ctx.call(pywt.dwt, x, warg, marg, axis=axp[0])
    r = ctx.call(pywt.idwt, cA, cD, warg, marg, axis=axp[0])
    sc, de = level_scale(x, 1, ws, ms, ax)
    rt_close(ctx, r, x, sc, de, "idwt(dwt)", f"{ws[0]} {ms[0]} axis {ax} {x.shape}")


def dwtn_rt(ctx):
    x, axp, ax, warg, ws, marg, ms, dt = pick(ctx, 1, 4, 14, 900)
    use2 = len(ax) == 2 and ctx.rng.random() < .5
    if ctx.rng.random() < .25 and not use2:
        axp = None
        ax = tuple(range(x.ndim))
        warg, ws, marg, ms = gen.per_axis(ctx.rng, x.ndim, True, MAXF[x.ndim])
        if any(gen.bad_one(x.shape[a], m) for a, m in zip(ax, ms)):
            marg, ms = "symmetric", ["symmetric"] * x.ndim
    ctx.sig([str(w) for w in ws], ms, x.shape, ax, dt.str, use2)
    ctx.see(f"{len(ax)} axes")
    if use2:
        c = ctx.call(pywt.dwt2, x, warg, marg, axes=axp)
        r = ctx.call(pywt.idwt2, c, warg, marg, axes=axp)
    else:
        c = ctx.call(pywt.dwtn, x, warg, marg, axes=axp)
        r = ctx.call(pywt.idwtn, c, warg, marg, axes=axp)
    sc, de = level_scale(x, 1, ws, ms, ax)
    rt_close(ctx, r, x, sc, de, "idwt2(dwt2)" if use2 else "idwtn(dwtn)", f"{ws} {ms} {x.shape} axes {ax}")


def choose_level(ctx, x, ax, ws, ms, deep=False):
    """(level argument, levels) valid for the data."""
    rng = ctx.rng
    sizes = [x.shape[a] for a in ax]
    auto = min(ref.max_level(n, w.F) for n, w in zip(sizes, ws))
    if rng.random() < .35 and gen.ok_levels(sizes, ws, ms, auto) == auto:
        return None, auto
    want = int(rng.integers(0, auto + 3)) if not deep else auto + int(rng.integers(-1, 2))
    lev = gen.ok_levels(sizes, ws, ms, max(0, min(want, 12)))
    return lev, lev


def wavedec_rt(ctx):
    x, axp, ax, warg, ws, marg, ms, dt = pick(ctx, 1, 1, 9, 300)
    lev, n = choose_level(ctx, x, ax, ws, ms)
    ctx.sig(ws[0], ms[0], x.shape, ax, n, dt.str)
    ctx.see(f"wavedec level {n}")
    c = ctx.call(pywt.wavedec, x, ws[0].arg, ms[0], level=lev, axis=axp[0])
    r = ctx.call(pywt.waverec, c, ws[0].arg, ms[0], axis=axp[0])
    sc, de = level_scale(x, n, ws, ms, ax)
    if n == 0:
        r = np.asarray(r).astype(gen.out_dtype(dt))
    rt_close(ctx, r, x, sc, de * max(n, 1), "waverec(wavedec)", f"{ws[0]} {ms[0]} {x.shape} axis {ax} level {n}")


def wavedec2_rt(ctx):
    x, axp, ax, warg, ws, marg, ms, dt = pick(ctx, 2, 2, 40, 1500)
    lev, n = choose_level(ctx, x, ax, ws, ms)
    ctx.sig([str(w) for w in ws], ms, x.shape, ax, n, dt.str)
    ctx.see(f"wavedec2 level {n}")
    c = ctx.call(pywt.wavedec2, x, warg, marg, level=lev, axes=axp)
    r = ctx.call(pywt.waverec2, c, warg, marg, axes=axp)
    sc, de = level_scale(x, n, ws, ms, ax)
    if n == 0:
        r = np.asarray(r).astype(gen.out_dtype(dt))
    rt_close(ctx, r, x, sc, de * max(n, 1), "waverec2(wavedec2)", f"{ws} {ms} {x.shape} axes {ax} level {n}")


def wavedecn_rt(ctx):
    x, axp, ax, warg, ws, marg, ms, dt = pick(ctx, 1, 4, 24, 1500)
    if ctx.rng.random() < .25:
        axp = None
        ax = tuple(range(x.ndim))
        warg, ws, marg, ms = gen.per_axis(ctx.rng, x.ndim, True, MAXF[x.ndim])
    elif len(axp) == 1 and ctx.rng.random() < .5:
        axp = axp[0]
    lev, n = choose_level(ctx, x, ax, ws, ms)
    ctx.sig([str(w) for w in ws], ms, x.shape, ax, n, dt.str)
    ctx.see(f"wavedecn level {n}")
    c = ctx.call(pywt.wavedecn, x, warg, marg, level=lev, axes=axp)
    r = ctx.call(pywt.waverecn, c, warg, marg, axes=axp)
    sc, de = level_scale(x, n, ws, ms, ax)
    if n == 0:
        r = np.asarray(r).astype(gen.out_dtype(dt))
    rt_close(ctx, r, x, sc, de * max(n, 1), "waverecn(wavedecn)", f"{ws} {ms} {x.shape} axes {ax} level {n}")


def sweep(ctx):
    """Every built-in wavelet x mode, all lengths around the filter length, one and several levels."""
    name = gen.DISCRETE[ctx.index % len(gen.DISCRETE)]
    mname = ref.MODES[(ctx.index // len(gen.DISCRETE)) % 9]
    rng = ctx.rng
    w = gen.builtin(rng, [name])
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    ctx.sig(name, mname, dt.str)
    top = 2 * w.F + 5
    lens = range(1, top) if ctx.tier != "quick" or top < 30 else \
        sorted(set(range(1, 6)) | set(range(w.F - 3, w.F + 4)) | {int(v) for v in rng.integers(1, top, 8)})
    for N in lens:
        if gen.bad_one(N, mname):
            continue
        x = gen.data(rng, N, dt)
        c = ctx.call(pywt.dwt, x, w.arg, mname)
        r = ctx.call(pywt.idwt, *c, w.arg, mname)
        sc, de = level_scale(x, 1, [w], [mname], [0])
        rt_close(ctx, r, x, sc, de, "idwt(dwt)", f"{name} {mname} N={N}")
        ctx.see("lengths swept")
    N = int(rng.integers(2, 300))
    lev = gen.ok_levels([N], [w], [mname], int(rng.integers(1, 9)))
    x = gen.data(rng, N, dt)
    c = ctx.call(pywt.wavedec, x, w.arg, mname, level=lev)
    r = ctx.call(pywt.waverec, c, w.arg, mname)
    sc, de = level_scale(x, lev, [w], [mname], [0])
    rt_close(ctx, r, x, sc, de * max(1, lev), "waverec(wavedec)", f"{name} {mname} N={N} level {lev}")


def large(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, True, max_len=40)
    marg, mname = gen.mode(rng)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    if rng.random() < .6:
        shape = [int(10 ** rng.uniform(3.3, 5.2 if ctx.tier == "quick" else 6))]
    else:
        shape = [int(v) for v in rng.integers(100, 400 if ctx.tier == "quick" else 1500, 2)]
    x = gen.data(rng, shape, dt)
    ax = tuple(range(len(shape)))
    lev = gen.ok_levels(shape, [w] * 2, [mname] * 2, int(rng.integers(1, 12)))
    ctx.sig(w, mname, x.shape, lev, dt.str)
    c = ctx.call(pywt.wavedecn, x, w.arg, marg, level=lev)
    r = ctx.call(pywt.waverecn, c, w.arg, marg)
    sc, de = level_scale(x, lev, [w] * 2, [mname] * 2, ax)
    rt_close(ctx, r, x, sc, de * lev, "waverecn(wavedecn)", f"{w} {mname} {x.shape} level {lev}")
    ctx.see("large", x.size)


FAMILIES = [
    Family(one_level, 5000, 120000, boost=.015),
    Family(dwtn_rt, 3500, 80000, boost=.015),
    Family(wavedec_rt, 4000, 100000, boost=.015),
    Family(wavedec2_rt, 2500, 60000, boost=.015),
    Family(wavedecn_rt, 2500, 60000, boost=.015),
    Family(sweep, 1143, 4572),
    Family(large, 40, 900),
]
