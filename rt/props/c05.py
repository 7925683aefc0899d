"""C05: structure, levels and predicted shapes of multilevel decompositions."""
import itertools
import warnings

import numpy as np

import pywt
from rt import gen, ref
from rt.core import Violation
from rt.fam import Family
from rt.props.c02 import MAXF


def shapes_model(shape, ws, ms, ax, lev):
    out, s = [], tuple(shape)
    keys = ["".join(c) for c in itertools.product("ad", repeat=len(ax))][1:]
    for _ in range(lev):
        t = list(s)
        for a, w, m in zip(ax, ws, ms):
            t[a] = ref.coeff_len(t[a], w.F, m)
        s = tuple(t)
        out.append({k: s for k in keys})
    return [s] + out[::-1]


def pick_level(rng, sizes, ws, ms, top=3):
    auto = min(ref.max_level(n, w.F) for n, w in zip(sizes, ws))
    if rng.random() < .4 and gen.ok_levels(sizes, ws, ms, auto) == auto:
        return None, auto
    want = int(rng.integers(0, min(auto + top, 14) + 1))
    lev = gen.ok_levels(sizes, ws, ms, want)
    return lev, lev


def config(ctx, kmin=1, kmax=3, nd_max=4, hi=40, cap=1200, max_len=None):
    rng = ctx.rng
    nd = int(rng.integers(kmin, nd_max + 1))
    k = int(rng.integers(kmin, min(kmax, nd) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    if rng.random() < .25 and k == nd:
        axp, ax = None, tuple(range(nd))
    warg, ws, marg, ms = gen.per_axis(rng, k, None, max_len or MAXF[k])
    shape = list(gen.shape_nd(rng, nd, hi=hi, cap=cap))
    for a, m in zip(ax, ms):
        if gen.bad_one(shape[a], m):
            shape[a] = int(rng.integers(2, 7))
    dt = gen.dtype(rng)
    return axp, ax, warg, ws, marg, ms, shape, dt


def gain_of(ws, ax, lev):
    return float(np.prod([max(1.0, gen.gain(w.fb)) for w in ws])) ** lev


def decomposition(ctx):
    """wavedecn, wavedecn_shapes, wavedecn_size and the level-by-level definition agree."""
    rng = ctx.rng
    axp, ax, warg, ws, marg, ms, shape, dt = config(ctx)
    if axp is not None and len(axp) == 1 and rng.random() < .3:
        axp = axp[0]
    arg, lev = pick_level(rng, [shape[a] for a in ax], ws, ms)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, arg is None, dt.str)
    ctx.see(f"levels {lev}")
    if arg is None:
        ctx.see("default level")
    c = ctx.call(pywt.wavedecn, x, warg, marg, level=arg, axes=axp)
    mod = shapes_model(shape, ws, ms, ax, lev)
    sh = ctx.call(pywt.wavedecn_shapes, tuple(shape), warg, marg, level=arg, axes=axp)
    ctx.equal(sh, mod, "wavedecn_shapes", f"shapes {ws} {ms} {shape} axes {ax} level {arg}")
    ctx.equal(len(c), lev + 1, "wavedecn:levels", f"number of levels for {ws} {ms} {shape} axes {ax} level {arg}")
    got = [c[0].shape] + [{q: v.shape for q, v in d.items()} for d in c[1:]]
    ctx.check(got[0] == mod[0] and all(sorted(g.items()) == sorted(h.items()) for g, h in zip(got[1:], mod[1:])),
              "wavedecn:shapes", lambda: f"{got} instead of {mod}")
    n = int(np.prod(mod[0])) + sum(int(np.prod(s)) for d in mod[1:] for s in d.values())
    ctx.equal(int(ctx.call(pywt.wavedecn_size, sh)), n, "wavedecn_size", "size of predicted shapes")
    ctx.equal(int(ctx.call(pywt.wavedecn_size, c)), n, "wavedecn_size", "size of coefficients")
    ctx.equal(ctx.call(pywt.dwtn_max_level, tuple(shape), warg, axes=axp),
              min(ref.max_level(shape[a], w.F) for a, w in zip(ax, ws)), "dwtn_max_level", f"{ws} {shape} axes {ax}")
    # level by level
    a = np.asarray(x).astype(gen.out_dtype(dt))
    s = float(np.max(np.abs(a)))
    for j in range(lev, 0, -1):
        d = ctx.call(pywt.dwtn, a, warg, marg, axes=ax)
        s = max(s, float(max(np.max(np.abs(v)) for v in d.values())))
        a = d.pop("a" * len(ax))
        for q in d:
            ctx.near(c[j][q], d[q], "wavedecn:level", f"entry {j} {q} and single-level transform", scale=s * gain_of(ws, ax, 1))
    if lev:
        ctx.near(c[0], a, "wavedecn:approx", "approximation and repeated single-level transform", scale=s * gain_of(ws, ax, 1))


def one_d(ctx):
    rng = ctx.rng
    axp, ax, warg, ws, marg, ms, shape, dt = config(ctx, kmax=1, hi=10, cap=120)
    w, m, a = ws[0], ms[0], ax[0]
    shape[a] = gen.length(rng, w.F, lo=2, hi=500)
    arg, lev = pick_level(rng, [shape[a]], ws, ms)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig(w, m, shape, a, lev, arg is None, dt.str)
    ctx.see(f"levels {lev}")
    axis = axp[0] if axp else a
    c = ctx.call(pywt.wavedec, x, w.arg, m, level=arg, axis=axis)
    ctx.check(isinstance(c, list), "wavedec:type", lambda: f"{type(c)}")
    ctx.equal(len(c), lev + 1, "wavedec:levels", f"number of arrays for {w} {m} N={shape[a]} level {arg}")
    cn = ctx.call(pywt.wavedecn, x, w.arg, m, level=arg, axes=(axis,))
    ctx.near(c, [cn[0]] + [d["d"] for d in cn[1:]], "wavedec-vs-wavedecn", "wavedec and wavedecn along one axis", scale=float(np.max(np.abs(x))) * gain_of(ws, ax, lev))
    mod = shapes_model(shape, ws, ms, ax, lev)
    ctx.equal([v.shape for v in c], [mod[0]] + [d["d"] for d in mod[1:]], "wavedec:shapes", "shapes")
    y = np.asarray(x).astype(gen.out_dtype(dt))
    s = float(np.max(np.abs(y)))
    for j in range(lev, 0, -1):
        y, d = ctx.call(pywt.dwt, y, w.arg, m, axis=axis)
        s = max(s, float(np.max(np.abs(y))))
        ctx.near(c[j], d, "wavedec:level", f"entry {j} and single-level transform", scale=s * gain_of(ws, ax, 1))
    if lev:
        ctx.near(c[0], y, "wavedec:approx", "approximation", scale=s * gain_of(ws, ax, 1))


def two_d(ctx):
    rng = ctx.rng
    axp, ax, warg, ws, marg, ms, shape, dt = config(ctx, kmin=2, kmax=2, hi=50, cap=2500)
    arg, lev = pick_level(rng, [shape[a] for a in ax], ws, ms)
    axp = axp or ax
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, arg is None, dt.str)
    ctx.see(f"levels {lev}")
    c = ctx.call(pywt.wavedec2, x, warg, marg, level=arg, axes=axp)
    ctx.equal(len(c), lev + 1, "wavedec2:levels", f"number of entries for {ws} {ms} {shape} level {arg}")
    cn = ctx.call(pywt.wavedecn, x, warg, marg, level=arg, axes=axp)
    conv = [cn[0]] + [(d["da"], d["ad"], d["dd"]) for d in cn[1:]]
    ctx.near(c, conv, "wavedec2-vs-wavedecn", "wavedec2 and wavedecn on two axes", scale=float(np.max(np.abs(x))) * gain_of(ws, ax, lev))
    mod = shapes_model(shape, ws, ms, ax, lev)
    ctx.equal([v.shape for d in c[1:] for v in d], [s for d in mod[1:] for s in (d["da"], d["ad"], d["dd"])], "wavedec2:shapes", "")
    y = np.asarray(x).astype(gen.out_dtype(dt))
    s = float(np.max(np.abs(y)))
    for j in range(lev, 0, -1):
        y, d = ctx.call(pywt.dwt2, y, warg, marg, axes=axp)
        s = max(s, float(np.max(np.abs(y))))
        ctx.near(tuple(c[j]), tuple(d), "wavedec2:level", f"entry {j} and single-level transform", scale=s * gain_of(ws, ax, 1))
    if lev:
        ctx.near(c[0], y, "wavedec2:approx", "approximation", scale=s * gain_of(ws, ax, 1))


def max_level(ctx):
    rng = ctx.rng
    F = 2 * int(rng.integers(1, 60)) if rng.random() < .8 else int(rng.integers(2, 120))
    k = int(rng.integers(5))
    if k == 0:
        N = (F - 1) * 2 ** int(rng.integers(0, 20)) + int(rng.integers(-1, 2))
    elif k == 1:
        N = int(10 ** rng.uniform(0, 12))
    else:
        N = int(rng.integers(0, 2000))
    N = max(N, 0)
    ctx.sig(N, F)
    ctx.equal(ctx.call(pywt.dwt_max_level, N, F), ref.max_level(N, F), "dwt_max_level", f"dwt_max_level({N}, {F})")
    w = gen.wavelet(rng)
    n = (w.F - 1) * 2 ** int(rng.integers(0, 12)) + int(rng.integers(-1, 2))
    n = max(n, 1)
    for arg in (w.arg, w.obj(), w.F):
        ctx.equal(ctx.call(pywt.dwt_max_level, n, arg), ref.max_level(n, w.F), "dwt_max_level", f"dwt_max_level({n}, {w})")
    # n-D
    nd = int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(1, 3000, nd))
    kk = int(rng.integers(1, nd + 1))
    axp, ax = gen.axes_of(rng, nd, kk)
    warg, ws, marg, ms = gen.per_axis(rng, kk)
    ctx.equal(ctx.call(pywt.dwtn_max_level, shape, warg, axes=axp), min(ref.max_level(shape[a], v.F) for a, v in zip(ax, ws)),
              "dwtn_max_level", f"dwtn_max_level({shape}, {ws}, {axp})")
    # default shapes for sizes that cannot be transformed in memory
    lev = min(ref.max_level(shape[a], v.F) for a, v in zip(ax, ws))
    if not any(gen.bad_one(shape[a], m) for a, m in zip(ax, ms)) and \
            gen.ok_levels([shape[a] for a in ax], ws, ms, lev) == lev:
        ctx.equal(ctx.call(pywt.wavedecn_shapes, shape, warg, marg, axes=axp), shapes_model(shape, ws, ms, ax, lev),
                  "wavedecn_shapes", f"{shape} {ws} {ms} {axp}")
    ctx.raises(pywt.dwt_max_level, n, int(rng.integers(-5, 2)))
    ctx.raises(pywt.dwt_max_level, -int(rng.integers(1, 100)), w.F)


def level_limits(ctx):
    """Negative levels are rejected; levels above the useful maximum work, and warn; below it they do not warn."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=24)
    m = ["zero", "constant", "symmetric", "periodic", "smooth", "antisymmetric", "periodization"][rng.integers(7)]
    n = int(rng.integers(2, 60))
    auto = ref.max_level(n, w.F)
    extra = int(rng.integers(-auto, 4)) if rng.random() < .6 else int(rng.integers(1, 4))
    lev = auto + extra
    fn = [pywt.wavedec, pywt.wavedec2, pywt.wavedecn][rng.integers(3)]
    nd = {pywt.wavedec: 1, pywt.wavedec2: 2, pywt.wavedecn: int(rng.integers(1, 3))}[fn]
    shape = (n,) + tuple(int(v) for v in rng.integers(n, n + 5, nd - 1))
    x = rng.normal(size=shape)
    ctx.sig(w, m, shape, lev, fn.__name__)
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        try:
            c = fn(x, w.arg, m, level=lev)
        except Exception as e:
            raise Violation(f"level-rejected:{fn.__name__}", f"{fn.__name__} {w} {m} {shape} level={lev}: {e!r}") from e
    ctx.sh.calls[fn.__name__] += 1
    ctx.equal(len(c), lev + 1, "level-count", f"{fn.__name__} level={lev}")
    warned = any(issubclass(r.category, UserWarning) for r in rec)
    ctx.check(warned == (lev > auto), "level-warning", lambda: f"{fn.__name__} {w} {shape} level={lev} (maximum {auto}) warned={warned}")
    ctx.see("warned" if warned else "not warned")
    ctx.raises(fn, x, w.arg, m, level=-int(rng.integers(1, 5)), key="negative-level")
    ctx.raises(pywt.wavedecn_shapes, shape, w.arg, m, level=-int(rng.integers(1, 5)), key="negative-level")
    ctx.raises(pywt.fswavedecn, x, w.arg, m, levels=-int(rng.integers(1, 5)), key="negative-level")


FAMILIES = [
    Family(decomposition, 3500, 80000, boost=.03),
    Family(one_d, 4500, 100000, boost=.03),
    Family(two_d, 2500, 60000, boost=.02),
    Family(max_level, 4000, 60000),
    Family(level_limits, 1500, 30000),
]
