"""C09: multiresolution analysis."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family
from rt.props.c02 import level_scale
from rt.props.c07 import R2, ref_max, scaled
from rt.props.c08 import iswtn_ref


def comps(fn, r):
    """Flat list [(name, array)]."""
    out = [("approx", r[0])]
    for i, d in enumerate(r[1:], 1):
        if isinstance(d, dict):
            out += [(f"{i}{q}", d[q]) for q in sorted(d)]
        elif isinstance(d, (tuple, list)):
            out += [(f"{i}{q}", v) for q, v in zip(("da", "ad", "dd"), d)]
        else:
            out.append((f"{i}d", d))
    return sorted(out, key=lambda t: t[0])


def ref_mra(x, ws, ms, ax, lev, swt):
    A = "a" * len(ax)
    fbs = [w.fb for w in ws]
    if swt:
        f1 = [scaled(f, 1 / R2) for f in fbs]
        f2 = [scaled(f, R2) for f in fbs]
        e = ref.swtn(x, f1, ax, lev)
        cs = [e[0][A]] + [{q: v for q, v in d.items() if q != A} for d in e]
    else:
        cs = ref.wavedecn(x, fbs, ms, ax, lev)
    out = []
    names = [(0, None)] + [(i, q) for i in range(1, lev + 1) for q in sorted(cs[i])]
    for i, q in names:
        z = [np.zeros_like(cs[0])] + [{k: np.zeros_like(v) for k, v in d.items()} for d in cs[1:]]
        if i == 0:
            z[0] = cs[0]
        else:
            z[i][q] = cs[i][q]
        r = iswtn_ref(z, f2, ax) if swt else ref.waverecn(z, fbs, ms, ax)
        out.append(("approx" if i == 0 else f"{i}{q}", ref.fit(r, x.shape)))
    return sorted(out, key=lambda t: t[0]), cs


def config(ctx):
    rng = ctx.rng
    which = int(rng.integers(3))
    kmin, kmax = [(1, 1), (2, 2), (1, 3)][which]
    swt = rng.random() < .5
    nd = int(rng.integers(kmin, 4 if which < 2 else 4))
    k = int(rng.integers(kmin, min(kmax, nd) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    pr = True
    warg, ws, marg, ms = gen.per_axis(rng, k, pr, 20 if k > 1 else 60)
    if which == 0:
        warg, marg = ws[0].arg, ms[0]
    shape = [int(rng.integers(1, 4)) for _ in range(nd)]
    if swt:
        marg, ms = "periodization", ["periodization"] * k
        lev = gen.depth(rng, 1, 5, 9) if k == 1 else gen.depth(rng, 1, 3, 4)
        for a in ax:
            shape[a] = 2 ** lev * int(rng.integers(1, 10 if k == 1 and lev < 6 else 4 if lev < 6 else 2))
    else:
        for a in ax:
            shape[a] = int(rng.integers(2, 80 if k == 1 else 16 if k == 2 else 9))
        lev = gen.ok_levels([shape[a] for a in ax], ws, ms, gen.depth(rng, 1, 5, 10) if k == 1 else gen.depth(rng, 1, 3, 5))
    if (gen.WIDE > 1 or gen.LONG > 1) and lev < 6:
        i = int(rng.choice(ax) if gen.LONG > 1 else rng.integers(nd))
        shape[i] *= gen.log_between(rng, 2, gen.LONG * gen.WIDE)
    dt = gen.dtype(rng)
    return which, swt, axp, ax, warg, ws, marg, ms, shape, lev, dt


def run(ctx, which, swt, x, warg, marg, axp, lev):
    f = [pywt.mra, pywt.mra2, pywt.mran][which]
    t = ("swt" if swt else "dwt") + ["", "2", "n"][which]
    kw = {"axis": axp[0]} if which == 0 else {"axes": axp}
    return ctx.call(f, x, warg, level=lev, transform=t, mode=marg, **kw)


def definition(ctx):
    rng = ctx.rng
    which, swt, axp, ax, warg, ws, marg, ms, shape, lev, dt = config(ctx)
    x = gen.layout(rng, gen.data(rng, shape, dt))
    arg = lev
    if rng.random() < .25:
        auto = min(ref_max(shape[a]) for a in ax) if swt else min(ref.max_level(shape[a], w.F) for a, w in zip(ax, ws))
        if (not swt or 1 <= auto <= 5) and gen.ok_levels([shape[a] for a in ax], ws, ms, auto) == auto:
            lev, arg = auto, None
            ctx.see("default level")
    ctx.sig(which, swt, [str(w) for w in ws], ms, shape, ax, lev, dt.str)
    what = f"{['mra', 'mra2', 'mran'][which]} {'swt' if swt else 'dwt'} {ws} {ms} {shape} axes {ax} level {arg}"
    r = run(ctx, which, swt, x, warg, marg, axp, arg)
    ctx.equal(len(r), lev + 1, "mra:levels", what)
    got = comps(which, r)
    xn = gen.native(x)
    want, cs = ref_mra(xn, ws, ms, ax, lev, swt)
    ctx.equal([n for n, _ in got], [n for n, _ in want], "mra:names", what)
    sc, de = level_scale(x, lev, ws, ms, ax)
    sc *= 2 ** (.5 * len(ax)) if swt else 1
    odt = gen.out_dtype(dt)
    total = 0
    for (n, g), (_, e) in zip(got, want):
        ctx.check(g.shape == tuple(shape), "mra:shape", lambda: f"{what}: component {n} has shape {g.shape}")
        ctx.close(g, e, "mra:component", f"{what}: component {n}", scale=sc, factor=32, dtype=odt)
        total = total + g.astype(complex)
        ctx.see("components compared")
    inv = [pywt.imra, pywt.imra2, pywt.imran][which]
    s1 = ctx.call(inv, r)
    s2 = ctx.call(inv, r)
    ctx.same(s1, s2, "imra:repeatable", what)
    ctx.close(s1, total, "imra:sum", what, scale=sc, dtype=odt)
    ctx.close(s1, xn, "imra:reconstruction", what, scale=sc, factor=64, dtype=odt, atol=16 * max(lev, 1) * de * sc)


def agree(ctx):
    """mran on 1-D and 2-D data agrees with mra and mra2."""
    rng = ctx.rng
    which, swt, axp, ax, warg, ws, marg, ms, shape, lev, dt = config(ctx)
    if which == 2:
        which = len(ax) - 1
        if which > 1:
            return
        if which == 0:
            warg, marg = ws[0].arg, ms[0]
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, shape, dt)
    ctx.sig(which, swt, [str(w) for w in ws], ms, shape, ax, lev, dt.str)
    a = comps(which, run(ctx, which, swt, x, warg, marg, axp, lev))
    b = comps(2, run(ctx, 2, swt, x, warg, marg, axp, lev))
    sc, _ = level_scale(x, lev, ws, ms, ax)
    ctx.equal([n for n, _ in a], [n for n, _ in b], "mran-vs-mra:names", "")
    for (n, g), (_, e) in zip(a, b):
        ctx.close(g, e, "mran-vs-mra", f"{ws} {ms} {shape} axes {ax} component {n}", scale=sc * 2, dtype=dt)


def linear(ctx):
    rng = ctx.rng
    which, swt, axp, ax, warg, ws, marg, ms, shape, lev, dt = config(ctx)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x, y = gen.data(rng, shape, dt), gen.data(rng, shape, dt)
    ctx.sig(which, swt, [str(w) for w in ws], ms, shape, ax, lev, dt.str)
    a, b, c = (comps(which, run(ctx, which, swt, v, warg, marg, axp, lev)) for v in (x, y, x + y))
    sc = level_scale(x, lev, ws, ms, ax)[0] + level_scale(y, lev, ws, ms, ax)[0]
    for (n, g), (_, h), (_, e) in zip(a, b, c):
        ctx.close(e, g.astype(complex) + h, "linear", f"{ws} {ms} {shape} axes {ax} component {n}", scale=sc * 2, dtype=dt)


def rejections(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, True, max_len=10)
    m = ref.MODES[rng.integers(8)]
    ctx.sig(w, m)
    x = rng.normal(size=(8, 8))
    ctx.raises(pywt.mra, x, w.arg, transform="swt", mode=m)
    ctx.raises(pywt.mra2, x, w.arg, transform="swt2", mode=m)
    ctx.raises(pywt.mran, x, w.arg, transform="swtn", mode=m)
    for f in (pywt.mra, pywt.mra2, pywt.mran):
        ctx.raises(f, x, w.arg, transform="fft")
        ctx.raises(f, x, w.arg, level=-1)
    ctx.raises(pywt.mra, x, w.arg, axis=2)
    ctx.raises(pywt.mran, x, w.arg, axes=(0, 0))
    ctx.raises(pywt.mra2, x, w.arg, axes=(0, 0))
    ctx.raises(pywt.mra, rng.normal(size=7), w.arg, level=1)


FAMILIES = [
    Family(definition, 3500, 70000, boost=.03),
    Family(agree, 1500, 30000, boost=.03),
    Family(linear, 1200, 25000),
    Family(rejections, 100, 1000),
]
