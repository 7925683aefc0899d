"""C04: n-D transforms as successive 1-D transforms; axis handling; batch axes."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family
from rt.props.c02 import MAXF
from rt.props.c03 import min_n, syn_scale


def scale_nd(x, ws, ms):
    s = float(np.max(np.abs(x))) if x.size else 0.0
    for w, m in zip(ws, ms):
        s *= max(1.0, gen.gain(w.fb)) * gen.ext_growth(m, 2, w.F)
    return s


def config(ctx, kmin=1, kmax=4, nd_max=5, hi=9, cap=400):
    rng = ctx.rng
    nd = int(rng.integers(kmin, nd_max + 1)) if rng.random() > .05 else nd_max + int(rng.integers(1, 4))
    k = int(rng.integers(kmin, min(kmax, nd) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    warg, ws, marg, ms = gen.per_axis(rng, k, None, MAXF[k])
    shape = list(gen.shape_nd(rng, nd, hi=hi, cap=cap))
    for a, m in zip(ax, ms):
        if gen.bad_one(shape[a], m):
            shape[a] = int(rng.integers(2, 7))
    dt = gen.dtype(rng)
    return axp, ax, warg, ws, marg, ms, shape, dt


def forward(ctx):
    rng = ctx.rng
    axp, ax, warg, ws, marg, ms, shape, dt = config(ctx)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    if ax == tuple(range(len(shape))) and rng.random() < .5:
        axp = None
    elif rng.random() < .3:
        axp = list(axp)
    ctx.sig([str(w) for w in ws], ms, shape, ax, dt.str)
    ctx.see(f"rank {len(shape)}, {len(ax)} axes")
    if list(ax) != sorted(ax):
        ctx.see("axes out of order")
    e = ref.dwtn(gen.native(x), [w.fb for w in ws], ms, ax)
    sc = scale_nd(gen.native(x), ws, ms)
    odt = gen.out_dtype(dt)
    if len(ax) == 2 and rng.random() < .5:
        cA, (cH, cV, cD) = ctx.call(pywt.dwt2, x, warg, marg, axes=axp if axp is not None else (0, 1))
        c = {"aa": cA, "da": cH, "ad": cV, "dd": cD}
        key = "dwt2"
    else:
        c = ctx.call(pywt.dwtn, x, warg, marg, axes=axp)
        key = "dwtn"
    ctx.equal(sorted(c), sorted(e), key + ":keys", "subband names")
    for q in e:
        ctx.check(c[q].dtype == odt, key + ":dtype", lambda: f"{q}: {c[q].dtype} instead of {odt}")
        ctx.close(c[q], e[q], key, f"subband {q} of {ws} {ms} {shape} axes {ax}", scale=sc, factor=16, dtype=odt)


def inverse(ctx):
    rng = ctx.rng
    axp, ax, warg, ws, marg, ms, shape, dt = config(ctx, kmax=3)
    for a, w, m in zip(ax, ws, ms):
        shape[a] = min_n(w, m) + int(rng.integers(0, 5))
    if np.prod(shape) > 30000:
        shape = [s if i in ax else 1 for i, s in enumerate(shape)]
    keys = ["".join(c) for c in itertools.product("ad", repeat=len(ax))]
    c = {q: gen.layout(rng, gen.data(rng, shape, dt)) for q in keys}
    ctx.sig([str(w) for w in ws], ms, shape, ax, dt.str)
    e = ref.idwtn({q: gen.native(v) for q, v in c.items()}, [w.fb for w in ws], ms, ax)
    sc = syn_scale([np.asarray(v) for v in c.values()], [w.fb for w in ws])
    if len(ax) == 2 and rng.random() < .5:
        r = ctx.call(pywt.idwt2, (c["aa"], (c["da"], c["ad"], c["dd"])), warg, marg, axes=axp)
        key = "idwt2"
    else:
        r = ctx.call(pywt.idwtn, c, warg, marg, axes=axp)
        key = "idwtn"
    ctx.close(r, e, key, f"{ws} {ms} {shape} axes {ax}", scale=sc, factor=32, dtype=gen.out_dtype(dt))


def multilevel(ctx):
    rng = ctx.rng
    two = rng.random() < .4
    axp, ax, warg, ws, marg, ms, shape, dt = config(ctx, kmin=2 if two else 1, kmax=2 if two else 3, nd_max=4, hi=26, cap=900)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    lev = gen.ok_levels([shape[a] for a in ax], ws, ms, gen.depth(rng, 1, 4, 10))
    if lev == 0:
        ctx.see("no level possible")
        return
    ctx.sig([str(w) for w in ws], ms, shape, ax, dt.str, lev, two)
    e = ref.wavedecn(gen.native(x), [w.fb for w in ws], ms, ax, lev)
    odt = gen.out_dtype(dt)
    a = gen.native(x)
    if two:
        c = ctx.call(pywt.wavedec2, x, warg, marg, level=lev, axes=axp)
        c = [c[0]] + [{"da": t[0], "ad": t[1], "dd": t[2]} for t in c[1:]]
    else:
        c = ctx.call(pywt.wavedecn, x, warg, marg, level=lev, axes=axp)
    ctx.equal(len(c), lev + 1, "levels", "number of levels")
    amp = 1.0
    for w, m in zip(ws, ms):
        amp *= max(1.0, gen.gain(w.fb)) * gen.ext_growth(m, 2, w.F)
    # what each level starts from, finest first: its size and the error carried over from the levels before
    mag, err = [], 0.0
    for i in range(lev):
        if i:
            a = ref.dwtn(a, [w.fb for w in ws], ms, ax)["a" * len(ax)]
        mag.append(float(np.max(np.abs(a))) + err)
        err = mag[-1] * max(1.0, amp)
    for i, (g, h) in enumerate(zip(c, e)):
        s = mag[-1] * amp if i == 0 else mag[lev - i] * amp
        s *= max(1.0, amp) ** 0.5
        if i == 0:
            ctx.close(g, h, "approx", f"approximation {ws} {ms} {shape} axes {ax}", scale=s, factor=32, dtype=odt)
        else:
            ctx.equal(sorted(g), sorted(h), "keys", "subband names")
            for q in h:
                ctx.close(g[q], h[q], "detail", f"{q} of entry {i} {ws} {ms} {shape} axes {ax}", scale=s, factor=32, dtype=odt)


def batch(ctx):
    """Axes not selected are batch axes: each slice is transformed as if alone (exactly)."""
    rng = ctx.rng
    nd = int(rng.integers(2, 6))
    k = int(rng.integers(1, min(nd - 1, 3) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    warg, ws, marg, ms = gen.per_axis(rng, k, None, 24)
    shape = list(gen.shape_nd(rng, nd, hi=8, cap=500))
    for a, m in zip(ax, ms):
        shape[a] = max(shape[a], 2)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, shape, dt)
    rest = [a for a in range(nd) if a not in ax]
    ctx.sig([str(w) for w in ws], ms, shape, ax, dt.str)
    inv = rng.random() < .4
    c = ctx.call(pywt.dwtn, x, warg, marg, axes=axp)
    order = sorted(ax)
    sub_axes = tuple(order.index(a) for a in ax)
    tol = dict(factor=16, dtype=dt)
    sc = scale_nd(x, ws, ms)
    for _ in range(3):
        at = {a: int(rng.integers(shape[a])) for a in rest}
        sl = tuple(at.get(a, slice(None)) for a in range(nd))
        c1 = ctx.call(pywt.dwtn, x[sl], warg, marg, axes=sub_axes)
        for q in c1:
            ctx.close(c[q][sl], c1[q], "batch", f"slice {at} subband {q} axes {ax} of {shape}", scale=sc, **tol)
        if inv:
            r = ctx.call(pywt.idwtn, c, warg, marg, axes=axp)
            r1 = ctx.call(pywt.idwtn, c1, warg, marg, axes=sub_axes)
            ctx.close(r[sl], r1, "batch-inverse", f"slice {at} axes {ax} of {shape}",
                      scale=syn_scale(list(c.values()), [w.fb for w in ws]), **tol)
        ctx.see("slices compared")
    # negative numbers name the same axes
    neg = tuple(a - nd for a in ax)
    cn = ctx.call(pywt.dwtn, x, warg, marg, axes=neg)
    ctx.same(cn, ctx.call(pywt.dwtn, x, warg, marg, axes=ax), "negative-axes", f"axes {neg} and {ax}")
    w = ws[0]
    a = ax[0]
    ctx.same(ctx.call(pywt.dwt, x, w.arg, ms[0], axis=a - nd), ctx.call(pywt.dwt, x, w.arg, ms[0], axis=a),
             "negative-axes", f"dwt axis {a - nd} and {a}")
    r1, r2 = (ctx.call(pywt.idwtn, c, warg, marg, axes=q) for q in (neg, ax))
    ctx.same(r1, r2, "negative-axes", f"idwtn axes {neg} and {ax}")


def repeated(ctx):
    """dwtn applies a repeated axis repeatedly; the multilevel transforms reject it."""
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    w = gen.wavelet(rng, max_len=16)
    marg, m = gen.mode(rng)
    shape = [int(v) for v in rng.integers(6, 18, nd)]
    ax = [int(rng.integers(nd)) for _ in range(int(rng.integers(2, 4)))]
    if len(set(ax)) == len(ax):
        ax[1] = ax[0]
    axp = tuple(a - nd if rng.random() < .4 else a for a in ax)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, shape, dt)
    ctx.sig(w, m, shape, tuple(ax), dt.str)
    c = ctx.call(pywt.dwtn, x, w.arg, marg, axes=axp)
    e = ref.dwtn(gen.native(x), [w.fb] * len(ax), [m] * len(ax), ax)
    sc = scale_nd(gen.native(x), [w] * len(ax), [m] * len(ax))
    for q in e:
        ctx.close(c[q], e[q], "repeated", f"{q} of {w} {m} {shape} axes {ax}", scale=sc, factor=16, dtype=dt)
    if w.pr and m == "periodization" and all(s % 2 ** len(ax) == 0 for s in shape):
        r = ctx.call(pywt.idwtn, c, w.arg, marg, axes=axp)
        ctx.close(r, gen.native(x), "repeated-inverse", f"{w} {m} {shape} axes {ax}", scale=sc * 100, factor=32, dtype=dt,
                  atol=sc * gen.pr_defect(w.fb) * 8)
    ctx.raises(pywt.wavedecn, x, w.arg, marg, level=1, axes=axp, key="repeated-accepted")
    ctx.raises(pywt.wavedecn_shapes, x.shape, w.arg, marg, level=1, axes=axp, key="repeated-accepted")
    ctx.raises(pywt.fswavedecn, x, w.arg, marg, levels=1, axes=axp, key="repeated-accepted")
    if len(axp) == 2:
        ctx.raises(pywt.wavedec2, np.zeros((8, 8)), w.arg, marg, level=1, axes=(1, -1), key="repeated-accepted")


def rejections(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    w = gen.wavelet(rng, max_len=16)
    marg, m = gen.mode(rng)
    shape = [int(v) for v in rng.integers(2, 9, nd)]
    x = rng.normal(size=shape)
    far = int(rng.choice([nd, -nd - 1, nd + 3, -nd - 7, 1000, -1000, 2 ** 31, -2 ** 31]))
    ctx.sig(w, m, shape, far)
    ctx.raises(pywt.dwt, x, w.arg, marg, axis=far)
    ctx.raises(pywt.idwt, x, x, w.arg, marg, axis=far)
    ctx.raises(pywt.dwtn, x, w.arg, marg, axes=(0, far)[1:] if rng.random() < .5 else (far,))
    ctx.raises(pywt.idwtn, {"a": x, "d": x}, w.arg, marg, axes=(far,))
    ctx.raises(pywt.wavedec, x, w.arg, marg, level=1, axis=far)
    ctx.raises(pywt.wavedecn, x, w.arg, marg, level=1, axes=(far,))
    ctx.raises(pywt.wavedecn_shapes, x.shape, w.arg, marg, level=1, axes=(far,))
    ctx.raises(pywt.fswavedecn, x, w.arg, marg, levels=1, axes=(far,))
    ctx.raises(pywt.dwtn_max_level, x.shape, w.arg, axes=(far,))
    ctx.raises(pywt.dwt2, x, w.arg, marg, axes=(0, far))
    ctx.raises(pywt.wavedec2, x, w.arg, marg, level=1, axes=(0, far))
    ctx.raises(pywt.dwt2, rng.normal(size=(4, 4)), w.arg, marg, axes=(0,) * int(rng.choice([1, 3])))
    ctx.raises(pywt.idwt2, (np.ones((9, 9)), (None, None, None)), w.arg, marg, axes=(0,))
    if nd == 1:
        ctx.raises(pywt.dwt2, x, w.arg, marg)
        ctx.raises(pywt.wavedec2, x, w.arg, marg, level=1)
    # per-axis arguments of the wrong length
    n = nd + int(rng.choice([-1, 1, 2]))
    if n != nd and n > 1:
        ctx.raises(pywt.dwtn, x, (w.arg,) * n, marg)
        ctx.raises(pywt.dwtn, x, w.arg, ("zero",) * n)
        ctx.raises(pywt.wavedecn, x, (w.arg,) * n, marg, level=1)
        ctx.raises(pywt.wavedecn, x, w.arg, ("zero",) * n, level=1)


FAMILIES = [
    Family(forward, 6000, 150000, boost=.02),
    Family(inverse, 3500, 90000, boost=.02),
    Family(multilevel, 2500, 60000, boost=.02),
    Family(batch, 1800, 40000, boost=.03),
    Family(repeated, 800, 20000),
    Family(rejections, 700, 10000),
]
