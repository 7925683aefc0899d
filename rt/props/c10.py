"""C10: fully separable transform and its container."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family
from rt.props.c02 import rt_close


def config(ctx, nd_max=4, hi=26, cap=900):
    rng = ctx.rng
    nd = int(rng.integers(1, nd_max + 1))
    k = int(rng.integers(1, nd + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    if k == nd and rng.random() < .4:
        axp, ax = None, tuple(range(nd))
    warg, ws, marg, ms = gen.per_axis(rng, k, True, {1: 80, 2: 30, 3: 14, 4: 8}[k])
    shape = list(gen.shape_nd(rng, nd, hi=hi, cap=cap))
    if k == 1:
        shape[ax[0]] = gen.length(rng, ws[0].F, hi=150)
    for a, m in zip(ax, ms):
        if gen.bad_one(shape[a], m):
            shape[a] = int(rng.integers(2, 7))
    lev, arg = [], []
    for a, w, m in zip(ax, ws, ms):
        auto = ref.max_level(shape[a], w.F)
        if rng.random() < .3 and gen.ok_levels([shape[a]], [w], [m], auto) == auto:
            lev.append(auto)
            arg.append(None)
        else:
            v = gen.ok_levels([shape[a]], [w], [m], int(rng.integers(0, min(auto + 2, 6) + 1)))
            lev.append(v)
            arg.append(v)
    if rng.random() < .2 and len(set(lev)) == 1:
        arg = lev[0]
    elif all(v is None for v in arg) and rng.random() < .7:
        arg = None
    dt = gen.dtype(rng)
    return nd, axp, ax, warg, ws, marg, ms, shape, lev, arg, dt


def ref_fsw(x, ws, ms, ax, lev, with_scale=False):
    offs, scale = [], float(np.max(np.abs(x))) if x.size else 0.0
    for w, m, a, L in zip(ws, ms, ax, lev):
        g = max(1.0, gen.gain(w.fb)) * gen.ext_growth(m, 2, w.F)
        app, reach = x, 0.0
        for _ in range(L):
            reach = max(reach, float(np.max(np.abs(app))))
            app = ref.dwt_part(app, w.fb.dec_lo, m, a)
        if L:
            scale = (scale + reach) * g * max(1.0, gen.gain(w.fb)) ** (L - 1)
        c = ref.wavedecn(x, [w.fb], [m], [a], L)
        parts = [c[0]] + [d["d"] for d in c[1:]]
        offs.append(np.cumsum([0] + [p.shape[a] for p in parts]))
        x = np.concatenate(parts, axis=a)
    return (x, offs, scale) if with_scale else (x, offs)


def forward(ctx):
    rng = ctx.rng
    nd, axp, ax, warg, ws, marg, ms, shape, lev, arg, dt = config(ctx)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, dt.str)
    what = f"{ws} {ms} {shape} axes {ax} levels {arg}"
    r = ctx.call(pywt.fswavedecn, x, warg, marg, levels=arg, axes=axp)
    odt = gen.out_dtype(dt) if any(lev) else np.dtype(dt)
    ctx.check(isinstance(r, pywt.FswavedecnResult), "type", what)
    e, offs, sc = ref_fsw(gen.native(x), ws, ms, ax, lev, True)
    ctx.check(gen.out_dtype(r.coeffs.dtype) == gen.out_dtype(dt), "dtype", lambda: f"{what}: {r.coeffs.dtype}")
    ctx.close(r.coeffs, e, "coeffs", what, scale=sc, factor=64, dtype=gen.out_dtype(dt))
    ctx.equal(list(r.levels), lev, "levels", what)
    ctx.equal([a % nd for a in r.axes], list(ax), "axes", what)
    ctx.equal(list(r.modes), ms, "modes", what)
    ctx.equal(r.ndim, nd, "ndim", what)
    ctx.equal(r.ndim_transform, len(ax), "ndim_transform", what)
    ctx.equal([w.dec_len for w in r.wavelets], [w.F for w in ws], "wavelets", what)
    ctx.equal(list(r.wavelet_names), [w.name for w in r.wavelets], "wavelet_names", what)
    # every coefficient belongs to exactly one index, and the index names the documented block
    used = np.zeros(r.coeffs.shape, int)
    mark = np.arange(r.coeffs.size, dtype=float).reshape(r.coeffs.shape)
    probe = pywt.FswavedecnResult(mark, r.coeff_slices, r.wavelets, [getattr(pywt.Modes, m) for m in r.modes], r.axes)
    keys = list(itertools.product(*(range(L + 1) for L in lev)))
    for kx in keys:
        v = r[kx]
        sl = [slice(None)] * nd
        for a, o, i in zip(ax, offs, kx):
            sl[a] = slice(int(o[i]), int(o[i + 1]))
        ctx.close(np.asarray(v), e[tuple(sl)], "subband", f"{what}: index {kx}", scale=sc, factor=64, dtype=gen.out_dtype(dt))
        ids = np.asarray(probe[kx]).astype(int).ravel()
        used.ravel()[ids] += 1
        ctx.see("subbands read")
    ctx.check(bool(np.all(used == 1)), "partition", lambda: f"{what}: coefficients used {used.min()}..{used.max()} times")
    ctx.same(np.asarray(r.approx), np.asarray(r[(0,) * len(ax)]), "approx", what)
    dk = r.detail_keys()
    ctx.equal(sorted(map(tuple, dk)), sorted(keys)[1:], "detail_keys", what)


def roundtrip(ctx):
    rng = ctx.rng
    nd, axp, ax, warg, ws, marg, ms, shape, lev, arg, dt = config(ctx)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, dt.str)
    r = ctx.call(pywt.fswavedecn, x, warg, marg, levels=arg, axes=axp)
    y = ctx.call(pywt.fswaverecn, r)
    sc = ref_fsw(gen.native(x), ws, ms, ax, lev, True)[2]
    de = 0.0
    for w, L in zip(ws, lev):
        sc *= max(1.0, gen.polygain(w.fb)) ** min(L, 6)
        de += gen.pr_defect(w.fb) * L
    y = y.astype(gen.out_dtype(y.dtype)) if not any(lev) else y
    rt_close(ctx, y, x, sc, de, "fswaverecn", f"{ws} {ms} {shape} axes {ax} levels {lev}")
    ctx.see("round trips")


def history(ctx):
    """A sequence of reads, writes and invalid operations on the container, against an array model."""
    rng = ctx.rng
    nd, axp, ax, warg, ws, marg, ms, shape, lev, arg, dt = config(ctx, 3, 16, 400)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, shape, dt)
    r = ctx.call(pywt.fswavedecn, x, warg, marg, levels=arg, axes=axp)
    _, offs = ref_fsw(gen.native(x), ws, ms, ax, lev)
    model = np.array(r.coeffs, copy=True)
    if not any(lev):
        r.coeffs = model.copy()
    keys = list(itertools.product(*(range(L + 1) for L in lev)))
    ops = []

    def where(kx):
        sl = [slice(None)] * nd
        for a, o, i in zip(ax, offs, kx):
            sl[a] = slice(int(o[i]), int(o[i + 1]))
        return tuple(sl)

    for _ in range(int(rng.integers(3, 14))):
        kx = keys[rng.integers(len(keys))]
        op = int(rng.integers(8))
        ops.append((op, kx))
        ctx.see(f"op {op}")
        form = [tuple(kx), list(kx), tuple(float(v) for v in kx), tuple(np.int64(v) for v in kx)][rng.integers(4)]
        if op in (0, 1):
            v = gen.data(rng, model[where(kx)].shape, dt)
            r[form] = v
            model[where(kx)] = v
        elif op == 2:
            ctx.same(np.ascontiguousarray(r[form]), np.ascontiguousarray(model[where(kx)]), "read", f"{ops}")
        elif op == 3:
            v = gen.data(rng, model[where((0,) * len(ax))].shape, dt)
            r.approx = v
            model[where((0,) * len(ax))] = v
        elif op == 4:
            bad = list(kx)
            i = int(rng.integers(len(bad)))
            bad[i] = [-1, lev[i] + 1, lev[i] + 5, 0.5, "a", None][rng.integers(6)]
            ctx.raises(r.__getitem__, tuple(bad), key="bad-index")
            ctx.raises(r.__setitem__, tuple(bad), model[where(kx)], key="bad-index")
        elif op == 5:
            ctx.raises(r.__getitem__, tuple(kx) + (0,), key="bad-index")
            if len(kx) > 1:
                ctx.raises(r.__getitem__, tuple(kx)[:-1], key="bad-index")
            ctx.raises(r.__setitem__, tuple(kx), np.zeros([s + 1 for s in model[where(kx)].shape], dt), key="bad-shape")
            for other in ((1, *model[where(kx)].shape), model[where(kx)].shape[::-1], (model[where(kx)].size,), ()):
                if other != model[where(kx)].shape:
                    ctx.raises(r.__setitem__, tuple(kx), np.ones(other, dt), key="bad-shape")
            for other in ((1, *model.shape), model.shape[::-1], (model.size,)):
                if other != model.shape:
                    ctx.raises(setattr, r, "coeffs", np.ones(other, dt), key="bad-shape")
            ctx.raises(setattr, r, "coeffs", np.zeros([s + 1 for s in model.shape], dt), key="bad-shape")
            ctx.raises(setattr, r, "approx", np.zeros([s + 1 for s in r.approx.shape], dt), key="bad-shape")
        elif op == 6:
            v = gen.data(rng, model.shape, dt)
            r.coeffs = v.copy()
            model = v
        else:
            ctx.same(np.ascontiguousarray(r.approx), np.ascontiguousarray(model[where((0,) * len(ax))]), "approx", f"{ops}")
        ctx.same(np.ascontiguousarray(r.coeffs), np.ascontiguousarray(model), "state", f"after {ops}")
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, dt.str, tuple(o for o, _ in ops))
    # the inverse uses the edited coefficients
    cur = gen.native(model)
    s = float(np.max(np.abs(cur))) if cur.size else 0.0
    # axes are independent: any order of inversion gives the same array, up to the crop of odd sizes inside one axis
    for w, m, a, o in zip(ws, ms, ax, offs):
        parts = [np.take(cur, range(int(o[i]), int(o[i + 1])), axis=a) for i in range(len(o) - 1)]
        cur = ref.waverecn([parts[0]] + [{"d": p} for p in parts[1:]], [w.fb], [m], [a]) if len(parts) > 1 else parts[0]
        s *= max(1.0, gen.polygain(w.fb)) ** min(len(parts), 6)
    y = ctx.call(pywt.fswaverecn, r)
    ctx.close(y, cur, "inverse-of-edited", f"{ws} {ms} {shape} axes {ax} {ops}", scale=s, factor=64, dtype=dt)


def rejections(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 4))
    w = gen.wavelet(rng, max_len=12)
    x = rng.normal(size=[int(v) for v in rng.integers(4, 9, nd)])
    ctx.sig(nd, w, x.shape)
    ctx.raises(pywt.fswavedecn, x, w.arg, levels=[1] * (nd + 1))
    ctx.raises(pywt.fswavedecn, x, w.arg, levels=-1)
    ctx.raises(pywt.fswavedecn, x, w.arg, axes=(0, 0))
    ctx.raises(pywt.fswavedecn, x, w.arg, axes=(0, -nd))
    ctx.raises(pywt.fswavedecn, x, w.arg, axes=(nd,))
    ctx.raises(pywt.fswavedecn, x, w.arg, "bogus")
    ctx.raises(pywt.fswavedecn, x, "bogus")
    if nd > 1:
        ctx.raises(pywt.fswavedecn, x, w.arg, levels=[1] * (nd - 1))
    r = pywt.fswavedecn(x, w.arg, levels=1)
    ctx.raises(pywt.FswavedecnResult, r.coeffs, r.coeff_slices, ["db1"] * nd, [0] * nd, r.axes)
    ctx.raises(pywt.FswavedecnResult, r.coeffs, r.coeff_slices, r.wavelets, ["zero"] * nd, r.axes)


FAMILIES = [
    Family(forward, 3000, 70000, boost=.03),
    Family(roundtrip, 3000, 70000, boost=.03),
    Family(history, 2500, 60000),
    Family(rejections, 200, 2000),
]
