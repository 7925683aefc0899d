"""C08: iswt, iswt2, iswtn: round trips, definition on arbitrary coefficients, equivalences."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family
from rt.props.c07 import R2, nd_config, scaled, swt_len, as_dicts


def iswtn_ref(coeffs, fbs, ax):
    """coeffs: list coarsest first, [approx, dict, ...]."""
    A = "a" * len(ax)
    a = coeffs[0]
    lev = len(coeffs) - 1
    for i, d in enumerate(coeffs[1:]):
        j = lev - i
        cur = dict(d)
        cur[A] = a
        for pos in range(len(ax) - 1, -1, -1):
            new = {}
            for key in sorted({k[:pos] for k in cur}):
                new[key] = ref.iswt_step(cur[key + "a"], cur[key + "d"], fbs[pos], j, ax[pos])
            cur = new
        a = cur[""]
    return a


def inv_scale(coeffs, fbs):
    arrs = [coeffs[0]] + [v for d in coeffs[1:] for v in d.values()]
    s = max(float(np.max(np.abs(v))) for v in arrs)
    p = 1.0
    for fb in fbs:
        p *= max(1.0, gen.polygain(fb))
    return s * sum(p ** k for k in range(1, len(coeffs)))


def roundtrip_1d(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, True)
    lev = gen.depth(rng, 1, 7, 11)
    nd = int(rng.choice([1, 1, 1, 2, 3]))
    axp, ax = gen.axis_of(rng, nd)
    shape = list(gen.shape_nd(rng, nd, hi=4, cap=16))
    shape[ax] = swt_len(rng, w, lev, 200)
    dt = gen.dtype(rng)
    norm, trim = rng.random() < .3, rng.random() < .4
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig(w, shape, ax, lev, norm, trim, dt.str)
    ctx.see(f"level {lev}")
    c = ctx.call(pywt.swt, x, w.arg, level=lev, axis=axp, norm=norm, trim_approx=trim)
    r = ctx.call(pywt.iswt, c, w.arg, norm=norm, axis=axp)
    odt = gen.out_dtype(dt)
    ctx.check(r.dtype == odt, "iswt:dtype", lambda: f"{r.dtype} instead of {odt}")
    fb = scaled(w.fb, R2) if norm else w.fb
    cs = [c[0]] + [{"d": d} for d in c[1:]] if trim else [c[0][0]] + [{"d": d} for _, d in c]
    sc = inv_scale(cs, [fb])
    ctx.close(r, gen.native(x), "iswt(swt)", f"{w} {shape} axis {ax} levels {lev} norm={norm} trim={trim}", scale=sc,
              factor=64, dtype=odt, atol=8 * lev * gen.pr_defect(w.fb) * sc)


def roundtrip_nd(ctx):
    rng = ctx.rng
    two = rng.random() < .4
    nd, axp, ax, warg, ws, lev, start, shape, dt = nd_config(ctx, 2 if two else 1, 2 if two else 3)
    warg, ws, _, _ = gen.per_axis(rng, len(ax), True, 30)
    norm, trim = rng.random() < .3, rng.random() < .4
    x = gen.layout(rng, gen.data(rng, shape, dt))
    ctx.sig([str(w) for w in ws], shape, ax, lev, norm, trim, two, dt.str)
    f, g = (pywt.swt2, pywt.iswt2) if two else (pywt.swtn, pywt.iswtn)
    if ax == tuple(range(nd)) and not two and rng.random() < .5:
        axp = None
    c = ctx.call(f, x, warg, level=lev, axes=axp, norm=norm, trim_approx=trim)
    d = as_dicts(c, trim, two, len(ax))
    A = "a" * len(ax)
    cs = [d[0]] + d[1:] if trim else [d[0][A]] + [{k: v for k, v in q.items() if k != A} for q in d]
    r = ctx.call(g, c, warg, axes=axp, norm=norm)
    fbs = [scaled(w.fb, R2) if norm else w.fb for w in ws]
    sc = inv_scale(cs, fbs)
    odt = gen.out_dtype(dt)
    ctx.check(r.dtype == odt, g.__name__ + ":dtype", lambda: f"{r.dtype} instead of {odt}")
    ctx.close(r, gen.native(x), g.__name__, f"{ws} {shape} axes {ax} levels {lev} norm={norm} trim={trim}", scale=sc,
              factor=64, dtype=odt, atol=8 * lev * len(ax) * max(gen.pr_defect(w.fb) for w in ws) * sc)


def arbitrary(ctx):
    """Coefficients that are not a transform of anything: definition, agreement of the three functions, both formats."""
    rng = ctx.rng
    two = rng.random() < .35
    nd, axp, ax, warg, ws, lev, start, shape, dt = nd_config(ctx, 2 if two else 1, 2 if two else 3)
    norm, trim = rng.random() < .3, rng.random() < .5
    keys = ["".join(c) for c in itertools.product("ad", repeat=len(ax))]
    A = keys[0]
    cs = [gen.data(rng, shape, dt)] + [{q: gen.data(rng, shape, dt) for q in keys[1:]} for _ in range(lev)]
    junk = gen.data(rng, shape, dt)     # intermediate approximations are ignored
    ctx.sig([str(w) for w in ws], shape, ax, lev, norm, trim, two, dt.str)
    fbs = [scaled(w.fb, R2) if norm else w.fb for w in ws]
    e = iswtn_ref([gen.native(cs[0])] + [{q: gen.native(v) for q, v in d.items()} for d in cs[1:]], fbs, ax)
    sc = inv_scale(cs, fbs)
    odt = gen.out_dtype(dt)
    lay = (lambda v: gen.layout(rng, v)) if rng.random() < .4 else (lambda v: v)
    if two:
        if trim:
            c = [lay(cs[0])] + [(lay(d["da"]), lay(d["ad"]), lay(d["dd"])) for d in cs[1:]]
        else:
            c = [(lay(cs[0]) if i == 0 else junk, (d["da"], d["ad"], d["dd"])) for i, d in enumerate(cs[1:])]
        r = ctx.call(pywt.iswt2, c, warg, axes=axp, norm=norm)
        key = "iswt2"
    elif len(ax) == 1 and rng.random() < .6:
        if trim:
            c = [lay(cs[0])] + [lay(d["d"]) for d in cs[1:]]
        else:
            c = [(lay(cs[0]) if i == 0 else junk, lay(d["d"])) for i, d in enumerate(cs[1:])]
        r = ctx.call(pywt.iswt, c, ws[0].arg, norm=norm, axis=axp[0])
        key = "iswt"
    else:
        if trim:
            c = [lay(cs[0])] + [{q: lay(v) for q, v in d.items()} for d in cs[1:]]
        else:
            c = [{A: (cs[0] if i == 0 else junk), **d} for i, d in enumerate(cs[1:])]
        r = ctx.call(pywt.iswtn, c, warg, axes=axp, norm=norm)
        key = "iswtn"
    ctx.see(key + " on arbitrary coefficients")
    ctx.check(r.dtype == odt, key + ":dtype", lambda: f"{r.dtype} instead of {odt}")
    ctx.close(r, e, key + ":definition", f"{ws} {shape} axes {ax} levels {lev} norm={norm} trim={trim}", scale=sc, factor=64, dtype=odt)


def shift_linear(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=30)
    lev = gen.depth(rng, 1, 5, 10)
    n = 2 ** lev * int(rng.integers(1, 10))
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    norm = rng.random() < .3

    def make():
        return [gen.data(rng, n, dt) for _ in range(lev + 1)]
    c, d = make(), make()
    by = int(rng.integers(-n, n + 1))
    ctx.sig(w, n, lev, by, norm, dt.str)
    r = ctx.call(pywt.iswt, c, w.arg, norm=norm)
    q = ctx.call(pywt.iswt, d, w.arg, norm=norm)
    s = ctx.call(pywt.iswt, [np.roll(v, by) for v in c], w.arg, norm=norm)
    t = ctx.call(pywt.iswt, [a + b for a, b in zip(c, d)], w.arg, norm=norm)
    fb = scaled(w.fb, R2) if norm else w.fb
    sc = inv_scale([c[0]] + [{"d": v} for v in c[1:]], [fb]) + inv_scale([d[0]] + [{"d": v} for v in d[1:]], [fb])
    ctx.close(s, np.roll(r, by), "shift", f"{w} N={n} levels {lev} shift {by}", scale=sc, dtype=dt)
    ctx.close(t, r.astype(complex) + q, "linear", f"{w} N={n} levels {lev}", scale=sc, dtype=dt)


def rejections(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, True, max_len=12)
    x = rng.normal(size=(8, 8))
    ctx.sig(w, ctx.index)
    c2 = pywt.swt2(x, w.arg, 2)
    cn = pywt.swtn(x, w.arg, 2)
    bad = [(a, (h, v, d[:-1])) for a, (h, v, d) in c2]
    ctx.raises(pywt.iswt2, bad, w.arg)
    ctx.raises(pywt.iswtn, [{**d, "dd": d["dd"][:, :-1]} for d in cn], w.arg)
    ctx.raises(pywt.iswtn, cn, w.arg, axes=(0,))
    ctx.raises(pywt.iswtn, cn, w.arg, axes=(0, 0))
    ctx.raises(pywt.iswtn, cn, w.arg, axes=(0, -2))
    ctx.raises(pywt.iswtn, cn, w.arg, axes=(0, 5))
    ctx.raises(pywt.iswt, pywt.swt(x[0], w.arg, 1), w.arg, axis=1)


FAMILIES = [
    Family(roundtrip_1d, 4000, 100000, boost=.03),
    Family(roundtrip_nd, 2200, 50000, boost=.03),
    Family(arbitrary, 2500, 60000, boost=.03),
    Family(shift_linear, 1500, 40000),
    Family(rejections, 60, 500),
]
