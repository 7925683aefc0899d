"""C27: downcoef / upcoef against the multilevel transforms and the convolution cascade."""
import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family


def level_for(rng, n, F, mname, most=7):
    want = int(rng.choice([1, 1, 2, 2, 3, 4, 5, int(rng.integers(1, most + 1))]))
    lev, k = 0, n
    while lev < want and not gen.bad_one(k, mname):
        k = ref.coeff_len(k, F, mname)
        lev += 1
    return lev


def down(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    marg, mname = gen.mode(rng)
    N = gen.length(rng, w.F)
    if gen.bad_one(N, mname):
        N = 2
    lev = level_for(rng, N, w.F, mname)
    dt = gen.dtype(rng)
    x = gen.data(rng, N, dt)
    xa = gen.layout(rng, x)
    odt = gen.out_dtype(dt)
    ctx.sig(w, mname, N, lev, dt.str)
    ctx.see("mode:" + mname)
    ctx.see(f"level {lev}")
    a = ctx.call(pywt.downcoef, "a", xa, w.arg, marg, lev)
    d = ctx.call(pywt.downcoef, "d", xa, w.arg, mode=marg, level=lev)
    full = ctx.call(pywt.wavedec, x, w.arg, marg, lev)
    g = gen.gain(w.fb)
    growth, scale, n = 1.0, max(float(np.max(np.abs(gen.native(x)))), 0.0), N
    for _ in range(lev):
        growth *= g * gen.ext_growth(mname, n, w.F)
        n = ref.coeff_len(n, w.F, mname)
    for got, want, nm in ((a, full[0], "a"), (d, full[1], "d")):
        ctx.check(type(got) is np.ndarray and got.ndim == 1, "not an array", "downcoef")
        ctx.equal(got.dtype, odt, "dtype", f"downcoef {dt}")
        ctx.close(got, want, "downcoef", f"downcoef({nm!r}) of {w} {mname} N={N} level {lev}", scale=scale * growth, factor=16 * (w.F + lev))
    # and against the definition, step by step
    r = gen.native(x)
    for _ in range(lev - 1):
        r = ref.dwt_part(r, w.fb.dec_lo, mname)
    for got, f, nm in ((a, w.fb.dec_lo, "a"), (d, w.fb.dec_hi, "d")):
        ctx.close(got, ref.dwt_part(r, f, mname), "downcoef definition", f"downcoef({nm!r}) of {w} {mname} N={N} level {lev}",
                  scale=scale * growth, factor=16 * (w.F + lev), dtype=odt)


def up(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    lev = gen.depth(rng, 1, 6, 10)
    n = gen.length(rng, w.F, hi=150 if lev < 4 else 40)
    n = max(1, n >> max(0, lev - 6))
    dt = gen.dtype(rng)
    c = gen.data(rng, n, dt)
    part = "ad"[rng.integers(2)]
    L = n
    for _ in range(lev):
        L = 2 * L + w.F - 2
    k = rng.integers(7)
    take = int([0, 1, max(L - 1, 0), L, L + 3, rng.integers(0, L + 1), rng.integers(0, L + 1)][k])
    ctx.sig(w, part, n, lev, take, dt.str)
    ctx.see(f"part {part} level {lev}")
    ctx.see("take none" if take == 0 or take >= L else "take odd margin" if (L - take) % 2 else "take even margin")
    got = ctx.call(pywt.upcoef, part, gen.layout(rng, c), w.arg, level=lev, take=take)
    ctx.check(type(got) is np.ndarray, "not an array", "upcoef")
    ctx.equal(got.dtype, gen.out_dtype(dt), "dtype", f"upcoef {dt}")
    want = ref.upcoef(part, gen.native(c), w.fb, lev, take)
    mag = ref.upcoef(part, np.abs(gen.native(c)), ref.FB([np.abs(f) for f in (w.fb.dec_lo, w.fb.dec_hi, w.fb.rec_lo, w.fb.rec_hi)]), lev, take)
    ctx.close(got, want, "upcoef", f"upcoef({part!r}) {w} n={n} level {lev} take {take} (full length {L})", scale=mag,
              factor=8 * lev + 2 * w.F, dtype=gen.out_dtype(dt), atol=1e-30 if gen.is32(dt) else 0)
    if take and take < L:
        whole = ctx.call(pywt.upcoef, part, c, w.arg, lev)
        left = (L - take) // 2
        ctx.same(got, whole[left:left + take].copy(), "take", f"the {take} central samples of {L}")


def sums(ctx):
    """Reconstruction of every subband by upcoef adds up to the signal."""
    rng = ctx.rng
    w = gen.wavelet(rng, pr=True, max_len=40)
    mname = ref.MODES[rng.integers(8)]
    assert mname != "periodization"
    lev = int(rng.integers(1, 5))
    N = gen.length(rng, w.F, hi=250)
    if rng.random() < .5 and w.F >= 2:
        # all intermediate lengths even: then take=N is aligned with the signal
        n = 2 * int(rng.integers(w.F, 2 * w.F + 20))
        for _ in range(lev - 1):
            n = 2 * n - w.F + 2
            if n % 2 or n < 2:
                break
        N = max(n - int(rng.integers(2)), 2)
    if gen.bad_one(N, mname):
        N = 2
    lev = min(lev, level_for(rng, N, w.F, mname, lev)) or 1
    x = gen.data(rng, N, np.dtype(["<f8", "<c16", "<f4"][rng.integers(3)]))
    c = ctx.call(pywt.wavedec, x, w.arg, mname, lev)
    lens = [N]
    for _ in range(lev):
        lens.append(ref.coeff_len(lens[-1], w.F, mname))
    aligned = all(n % 2 == 0 for n in lens[1:-1])
    ctx.sig(w, mname, N, lev, aligned)
    ctx.see("aligned" if aligned else "not aligned")
    ctx.see(f"levels summed {lev}")
    rec = np.zeros(N, x.dtype if x.dtype.kind == "c" else float)
    scale = 0.0
    off = (2 ** lev - 1) * (w.F - 2)
    for j in range(len(c)):
        l = lev if j == 0 else lev - j + 1
        o = (2 ** l - 1) * (w.F - 2)
        part = "a" if j == 0 else "d"
        full = ctx.call(pywt.upcoef, part, c[j], w.arg, level=l)
        rec = rec + full[o:o + N]
        scale += float(np.max(np.abs(full))) if full.size else 0
        if aligned:
            t = ctx.call(pywt.upcoef, part, c[j], w.arg, level=l, take=N)
            ctx.same(t, full[o:o + N].copy(), "take alignment", f"take={N} of subband {j} of {w} {mname} level {lev}")
    growth = max(1.0, gen.rgain(w.fb) ** lev)
    cm = max(float(np.max(np.abs(v))) for v in c)
    ctx.close(rec, gen.native(x), "sum of upcoef", f"sum of all upcoef reconstructions, {w} {mname} N={N} level {lev}",
              scale=max(scale, cm * growth), factor=64 * (lev + 1) + w.F, dtype=x.dtype,
              atol=(gen.pr_defect(w.fb) * 4 + 1e-15) * growth * max(cm, 1e-300) * lev)


def rejected(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=30)
    marg, mname = gen.mode(rng)
    N = int(rng.integers(2, 60))
    x = gen.data(rng, N, np.dtype(gen.FLOATS[rng.integers(4)]))
    kind = ["part", "level", "take", "2-D", "empty", "mode", "wavelet", "one"][rng.integers(8)]
    ctx.sig(kind, w, mname, N)
    ctx.see("rejected " + kind)
    E = (ValueError, TypeError)
    both = rng.random() < .5
    if kind == "part":
        p = ["", "A", "D", "ad", "da", "aa", "h", "approx", "0", None, 0, "a ", "dd"][rng.integers(13)]
        if both:
            ctx.raises(pywt.downcoef, p, x, w.arg, marg, exc=E)
        else:
            ctx.raises(pywt.upcoef, p, x, w.arg, exc=E)
    elif kind == "level":
        l = [0, -1, -7, None, "1"][rng.integers(5)]
        if both:
            ctx.raises(pywt.downcoef, "ad"[rng.integers(2)], x, w.arg, marg, l, exc=E)
        else:
            ctx.raises(pywt.upcoef, "ad"[rng.integers(2)], x, w.arg, l, exc=E)
    elif kind == "take":
        ctx.raises(pywt.upcoef, "ad"[rng.integers(2)], x, w.arg, take=int(-rng.integers(1, 50)), exc=E + (OverflowError,))
    elif kind == "2-D":
        y = x.reshape([(1, N), (N, 1), (1, 1, N)][rng.integers(3)])
        if both:
            ctx.raises(pywt.downcoef, "a", y, w.arg, marg, exc=E)
        else:
            ctx.raises(pywt.upcoef, "d", y, w.arg, exc=E)
    elif kind == "empty":
        if both:
            ctx.raises(pywt.downcoef, "ad"[rng.integers(2)], x[:0], w.arg, marg, exc=E + (RuntimeError,))
        else:
            ctx.raises(pywt.upcoef, "ad"[rng.integers(2)], x[:0], w.arg, exc=E + (RuntimeError,))
    elif kind == "mode":
        ctx.raises(pywt.downcoef, "a", x, w.arg, ["nope", "", None, 99, -1, "zer"][rng.integers(6)], exc=E)
    elif kind == "wavelet":
        bad = ["db0", "db39", "nope", None, 3, "mexh", "cmor1.5-1.0"][rng.integers(7)]
        if both:
            ctx.raises(pywt.downcoef, "a", x, bad, marg, exc=E + (AttributeError,))
        else:
            ctx.raises(pywt.upcoef, "a", x, bad, exc=E + (AttributeError,))
    else:
        m = ["reflect", "antireflect"][rng.integers(2)]
        ctx.raises(pywt.downcoef, "ad"[rng.integers(2)], x[:1], w.arg, m, int(rng.integers(1, 4)), exc=E)
        # ... at any level
        if w.F == 2:
            ctx.raises(pywt.downcoef, "ad"[rng.integers(2)], x, w.arg, m, 12, exc=E)


FAMILIES = [Family(down, 5000, 60000, boost=.03), Family(up, 5000, 60000, boost=0.01), Family(sums, 2500, 40000, boost=0.01), Family(rejected, 1500, 6000)]
