"""C07: swt, swt2, swtn against the a-trous definition; shift equivariance; options; rejections."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family

R2 = np.sqrt(2.0)


def scaled(fb, s):
    return ref.FB([fb.dec_lo * s, fb.dec_hi * s, fb.rec_lo * s, fb.rec_hi * s])


def swt_len(rng, w, lev, hi=400):
    """A multiple of 2**lev; often shorter than the (upsampled) filter."""
    u = 2 ** lev
    r = rng.integers(4)
    if r == 0:
        n = u * int(rng.integers(1, 4))
    elif r == 1:
        n = u * max(1, (w.F + int(rng.integers(-4, 5))) // u)
    else:
        n = u * int(rng.integers(1, max(2, hi // u)))
    return u * gen.grow(rng, n // u) if u < 64 else n


def amp_of(ws, norm):
    p = 1.0
    for w in ws:
        p *= max(1.0, gen.gain(w.fb) / (R2 if norm else 1.0))
    return p


def carried(tops, amp):
    """Error scale of what each level starts from: its own size and the error of the levels before, amplified."""
    out, err = [], 0.0
    for t in tops:                      # finest first
        out.append(t + err)
        err = amp * out[-1]
    return out


def one_d(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    lev = gen.depth(rng, 1, 6, 10)
    start = int(rng.integers(0, 4)) if rng.random() < .35 else 0
    nd = int(rng.choice([1, 1, 1, 2, 3]))
    axp, ax = gen.axis_of(rng, nd)
    shape = list(gen.shape_nd(rng, nd, hi=5, cap=40))
    n = swt_len(rng, w, lev + start)
    shape[ax] = n
    dt = gen.dtype(rng)
    norm = rng.random() < .3
    trim = rng.random() < .4
    x = gen.layout(rng, gen.data(rng, shape, dt))
    mx = ref_max(n)
    arg = None if start == 0 and mx <= 6 and rng.random() < .2 else lev
    if arg is None:
        lev = mx
    ctx.sig(w, shape, ax, lev, start, norm, trim, dt.str, arg is None)
    ctx.see(f"level {start + lev}")
    if w.F * 2 ** (start + lev - 1) > n:
        ctx.see("upsampled filter longer than the signal")
    fb = scaled(w.fb, 1 / R2) if norm else w.fb
    e = ref.swtn(gen.native(x), [fb], [ax], lev, start)
    c, warned = ctx.warned(pywt.swt, x, w.arg, level=arg, start_level=start, axis=axp, trim_approx=trim, norm=norm)
    ctx.equal(warned, norm and not w.obj().orthogonal, "norm warning", f"swt {w} norm={norm}")
    check_1d(ctx, c, e, w, ax, lev, trim, gen.out_dtype(dt), x, amp_of([w], norm), f"{w} {shape} axis {ax} levels {lev} from {start} norm={norm} trim={trim}")


def ref_max(n):
    k = 0
    while n and n % 2 == 0:
        n //= 2
        k += 1
    return k


def check_1d(ctx, c, e, w, ax, lev, trim, odt, x, amp, what):
    s0 = float(np.max(np.abs(gen.native(x))))
    ctx.equal(len(c), lev + (1 if trim else 0), "swt:levels", what)
    s = carried([s0] + [float(np.max(np.abs(d["a"]))) for d in e[::-1]], amp)
    got = []
    if trim:
        ctx.check(isinstance(c[0], np.ndarray), "swt:type", what)
        got.append((c[0], e[0]["a"], s[lev - 1], "cA"))
        for i, d in enumerate(c[1:]):
            got.append((d, e[i]["d"], s[lev - 1 - i], f"cD {i}"))
    else:
        for i, p in enumerate(c):
            ctx.check(isinstance(p, tuple) and len(p) == 2, "swt:type", what)
            got.append((p[0], e[i]["a"], s[lev - 1 - i], f"cA {i}"))
            got.append((p[1], e[i]["d"], s[lev - 1 - i], f"cD {i}"))
    for g, r, sc, nm in got:
        ctx.check(g.dtype == odt, "swt:dtype", lambda: f"{what}: {nm} {g.dtype} instead of {odt}")
        ctx.close(g, r, "swt", f"{what}: {nm}", scale=sc * amp, factor=32 + w.F, dtype=odt)


def sweep(ctx):
    name = gen.DISCRETE[ctx.index % len(gen.DISCRETE)]
    rng = ctx.rng
    w = gen.builtin(rng, [name])
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    ctx.sig(name, dt.str, ctx.index)
    for n in [2, 4, 6, 8, 12, 16, 24, 32, 40, 64, w.F, w.F + 2, 2 * (w.F // 2 + 1), 4 * ((w.F + 3) // 4)]:
        if n < 2 or n % 2:
            continue
        lev = min(ref_max(n), 1 + int(rng.integers(0, 5)))
        x = gen.data(rng, n, dt)
        e = ref.swtn(gen.native(x), [w.fb], [0], lev)
        c = ctx.call(pywt.swt, x, w.arg, level=lev)
        check_1d(ctx, c, e, w, 0, lev, False, gen.out_dtype(dt), x, amp_of([w], False), f"{name} N={n} levels {lev}")
        ctx.see("lengths swept")


def nd_config(ctx, kmin, kmax, maxlev=3):
    rng = ctx.rng
    nd = int(rng.integers(kmin, 5))
    k = int(rng.integers(kmin, min(kmax, nd) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    warg, ws, _, _ = gen.per_axis(rng, k, None, 30)
    lev = int(rng.integers(1, maxlev + 1))
    start = int(rng.integers(0, 3)) if rng.random() < .3 else 0
    shape = [int(rng.integers(1, 4)) for _ in range(nd)]
    u = 2 ** (lev + start)
    for a in ax:
        shape[a] = u * int(rng.integers(1, max(2, min(6, 40 // u)) + (k == 1)))
    if gen.WIDE > 1 or gen.LONG > 1:
        i = int(rng.integers(nd))
        shape[i] *= gen.log_between(rng, 2, gen.LONG * gen.WIDE)
    while np.prod(shape) > 6000 * gen.LONG * gen.WIDE:
        a = ax[int(np.argmax([shape[q] for q in ax]))]
        if shape[a] == u:
            break
        shape[a] -= u
    return nd, axp, ax, warg, ws, lev, start, shape, gen.dtype(rng)


def as_dicts(c, trim, two, k):
    if two:
        if trim:
            return [c[0]] + [{"da": d[0], "ad": d[1], "dd": d[2]} for d in c[1:]]
        return [{"aa": a, "da": d[0], "ad": d[1], "dd": d[2]} for a, d in c]
    return list(c)


def multi_d(ctx):
    rng = ctx.rng
    two = rng.random() < .4
    nd, axp, ax, warg, ws, lev, start, shape, dt = nd_config(ctx, 2 if two else 1, 2 if two else 3)
    norm, trim = rng.random() < .3, rng.random() < .4
    x = gen.layout(rng, gen.data(rng, shape, dt))
    if not two and ax == tuple(range(nd)) and rng.random() < .5:
        axp = None
    ctx.sig([str(w) for w in ws], shape, ax, lev, start, norm, trim, two, dt.str)
    ctx.see(f"{len(ax)} axes, level {lev + start}")
    fbs = [scaled(w.fb, 1 / R2) if norm else w.fb for w in ws]
    e = ref.swtn(gen.native(x), fbs, ax, lev, start)
    fn = pywt.swt2 if two else pywt.swtn
    c, warned = ctx.warned(fn, x, warg, level=lev, start_level=start, axes=axp, trim_approx=trim, norm=norm)
    ctx.equal(warned, norm and not all(w.obj().orthogonal for w in ws), "norm warning", f"{fn.__name__} {ws} norm={norm}")
    what = f"{fn.__name__} {ws} {shape} axes {ax} levels {lev} from {start} norm={norm} trim={trim}"
    ctx.equal(len(c), lev + (1 if trim else 0), "swtn:levels", what)
    d = as_dicts(c, trim, two, len(ax))
    A = "a" * len(ax)
    amp = amp_of(ws, norm)
    s = carried([float(np.max(np.abs(gen.native(x))))] + [float(np.max(np.abs(q[A]))) for q in e[::-1]], amp)
    odt = gen.out_dtype(dt)
    if trim:
        ctx.close(d[0], e[0][A], "swtn", what + ": approximation", scale=s[lev - 1] * amp, factor=64, dtype=odt)
        d = d[1:]
    for i, (g, h) in enumerate(zip(d, e)):
        want = sorted(q for q in h if not (trim and q == A))
        ctx.equal(sorted(g), want, "swtn:keys", what)
        for q in want:
            ctx.check(g[q].dtype == odt, "swtn:dtype", lambda: f"{what}: {g[q].dtype} instead of {odt}")
            ctx.close(g[q], h[q], "swtn", f"{what}: entry {i} {q}", scale=s[lev - 1 - i] * amp, factor=64, dtype=odt)


def shift(ctx):
    """A circular shift of the data circularly shifts every coefficient array."""
    rng = ctx.rng
    nd, axp, ax, warg, ws, lev, start, shape, dt = nd_config(ctx, 1, 3)
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, shape, dt)
    by = [int(rng.integers(-50, 50)) for _ in ax]
    ctx.sig([str(w) for w in ws], shape, ax, lev, start, by, dt.str)
    norm = rng.random() < .3
    c = ctx.call(pywt.swtn, x, warg, level=lev, start_level=start, axes=axp, norm=norm)
    s = ctx.call(pywt.swtn, np.roll(x, by, ax), warg, level=lev, start_level=start, axes=axp, norm=norm)
    amp = amp_of(ws, norm)
    m = float(np.max(np.abs(gen.native(x))))
    for i, (p, q) in enumerate(zip(c, s)):
        for k in p:
            sc = max(m, *(float(np.max(np.abs(v))) for e in c for v in e.values())) * amp ** lev
            ctx.close(q[k], np.roll(p[k], by, ax), "shift", f"{ws} {shape} axes {ax} shift {by} entry {i} {k}", scale=sc, factor=64, dtype=dt)
    ctx.see("shifts compared")


def options(ctx):
    """trim_approx only drops approximations; start_level only renumbers; orthogonal + norm keeps the energy."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=30)
    lev = int(rng.integers(1, 5))
    n = 2 ** lev * int(rng.integers(1, 12))
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, n, dt)
    norm = rng.random() < .5
    ctx.sig(w, n, lev, dt.str, norm)
    full = ctx.call(pywt.swt, x, w.arg, level=lev, norm=norm)
    trim = ctx.call(pywt.swt, x, w.arg, level=lev, norm=norm, trim_approx=True)
    ctx.near([full[0][0]] + [d for _, d in full], trim, "trim", "swt", scale=float(np.max(np.abs(x))))
    nfull = ctx.call(pywt.swtn, x, w.arg, level=lev, norm=norm)
    sc = max(float(np.max(np.abs(v))) for p in full for v in p) * amp_of([w], norm)
    for (a, d), q in zip(full, nfull):
        ctx.close(q["a"], a, "swtn-vs-swt", "approximation", scale=sc, dtype=dt)
        ctx.close(q["d"], d, "swtn-vs-swt", "detail", scale=sc, dtype=dt)
    # continuing from an intermediate level
    cut = int(rng.integers(1, lev)) if lev > 1 else 0
    if cut:
        first = ctx.call(pywt.swt, x, w.arg, level=cut, norm=norm)
        rest = ctx.call(pywt.swt, first[0][0], w.arg, level=lev - cut, start_level=cut, norm=norm)
        ctx.near(rest + first, full, "start-level", f"swt in two parts, {w} N={n} levels {cut} + {lev - cut}",
                 scale=float(np.max(np.abs(x))))
        ctx.see("continued")
    if w.orth and w.exact and norm:
        e0 = float(np.sum(np.abs(gen.native(x)) ** 2))
        e1 = sum(float(np.sum(np.abs(np.asarray(v, complex)) ** 2)) for v in trim)
        tol = (1e-4 if gen.is32(dt) else 1e-8) + 50 * gen.pr_defect(w.fb)
        ctx.check(abs(e1 - e0) <= tol * max(e0, 1e-300), "energy", lambda: f"{w} N={n}: energy {e1} of {e0}")
        xm = gen.native(x)
        v0 = float(np.var(xm))
        v1 = sum(float(np.var(np.asarray(v, complex))) for v in trim)
        ctx.check(abs(v1 - v0) <= tol * max(e0 / n, 1e-300) * 10, "variance", lambda: f"{w} N={n}: variance {v1} of {v0}")
        ctx.see("energy compared")


def max_level(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 5000)) if rng.random() < .5 else int(2 ** rng.integers(0, 40) * rng.integers(1, 9))
    ctx.sig(n)
    ctx.equal(ctx.call(pywt.swt_max_level, n), ref_max(n), "swt_max_level", f"swt_max_level({n})")
    ctx.raises(pywt.swt_max_level, 0)
    w = gen.wavelet(rng, max_len=20)
    # lengths not divisible by 2**level, levels out of range
    lev = int(rng.integers(1, 6))
    m = int(rng.integers(1, 70))
    x = rng.normal(size=m)
    start = int(rng.integers(0, 3))
    if m % 2 ** (lev + start):
        ctx.raises(pywt.swt, x, w.arg, level=lev, start_level=start, key="indivisible-accepted")
        ctx.raises(pywt.swtn, np.ones((m, 8)), w.arg, level=lev, start_level=start, axes=(0,), key="indivisible-accepted")
        ctx.raises(pywt.swt2, np.ones((m, 2 ** (lev + start))), w.arg, level=lev, start_level=start, key="indivisible-accepted")
        ctx.raises(pywt.swt, np.ones((3, m)), w.arg, level=lev, start_level=start, key="indivisible-accepted")
    else:
        ctx.see("divisible")
        ctx.call(pywt.swt, x, w.arg, level=lev, start_level=start)
    ctx.raises(pywt.swt, np.ones(8), w.arg, level=0)
    ctx.raises(pywt.swt, np.ones(8), w.arg, level=-1)
    ctx.raises(pywt.swt, np.ones(8), w.arg, level=1, start_level=-1)
    ctx.raises(pywt.swt, np.ones(8), w.arg, level=1, start_level=3)
    ctx.raises(pywt.swt, np.ones(0), w.arg, level=1)
    ctx.raises(pywt.swtn, np.ones((8, 8)), w.arg, level=1, axes=(0, -2))
    ctx.raises(pywt.swtn, np.ones((8, 8)), w.arg, level=1, axes=(0, 2))
    ctx.raises(pywt.swt2, np.ones((8, 8)), w.arg, level=1, axes=(0,))
    ctx.raises(pywt.swt2, np.ones(8), w.arg, level=1)
    ctx.raises(pywt.swt, np.ones((8, 8)), w.arg, level=1, axis=2)


FAMILIES = [
    Family(one_d, 6000, 150000, boost=.03),
    Family(sweep, 254, 2540),
    Family(multi_d, 3500, 80000, boost=.03),
    Family(shift, 1500, 40000),
    Family(options, 1500, 40000),
    Family(max_level, 500, 8000),
]
