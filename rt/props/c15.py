"""C15: wavelet function approximations, their integrals and frequency conversions."""
import warnings

import numpy as np

import pywt
from rt import gen
from rt.fam import Family
from rt.props.c14 import CW

CF = {"morl": 0.8125, "mexh": 0.25, "gaus1": 0.2, "gaus2": 0.3, "gaus4": 0.5, "gaus8": 0.6, "cgau1": 0.3, "haar": 0.9961089494163424,
      "db2": 0.6666666666666666, "db4": 0.7142857142857143}


def cascade(first, lo, n, level):
    """(the approximation, its length)"""
    c = np.array([n])
    f = first
    for _ in range(level):
        u = np.zeros(2 * len(c) - 1)
        u[::2] = c
        c = np.convolve(u, f)
        f = lo
    return c


def expected(w, fb, level, sign):
    """[phi, psi] or [phi_d, psi_d, phi_r, psi_r] and the number of grid points, from the plain filters."""
    n = 2.0 ** (level / 2)
    F = fb.dec_len
    out = []
    banks = [(fb.rec_lo, fb.rec_hi)]
    if not w.orthogonal:
        banks.insert(0, (fb.dec_lo[::-1], fb.dec_hi[::-1]))
    for lo, hi in banks:
        out += [cascade(lo, lo, n, level), sign * cascade(hi, lo, n, level)]
    total = (F - 1) * 2 ** level + (1 if w.orthogonal else 0)
    total = max(total, len(out[0]) + 2)
    return out, total


def discrete(ctx):
    rng = ctx.rng
    W = gen.wavelet(rng, max_len=90)
    w = W.obj()
    builtin = W.label in gen.GOLD["discrete"]
    if not builtin and rng.random() < .4:
        w.biorthogonal = True
    top = 1
    while W.F * 2 ** (top + 1) <= (4096 if ctx.tier == "quick" else 16384) and top < 10:
        top += 1
    if rng.random() < .02 and W.F <= 20:
        top = 13
        ctx.see("level above 10")
    level = int(rng.integers(1, top + 1)) if top < 13 else int(rng.integers(11, 14))
    ctx.sig(W.label, level, w.orthogonal, w.biorthogonal)
    r = ctx.call(w.wavefun, level) if rng.random() < .5 else ctx.call(w.wavefun, level=level)
    ctx.equal(len(r), 3 if w.orthogonal else 5, "number of results", W.label)
    x = np.asarray(r[-1])
    signs = [1]
    if w.biorthogonal and not w.orthogonal:
        signs = [1, -1] if not builtin else [1 if w.vanishing_moments_psi % 4 == 1 else -1]
    if len(signs) == 2:     # for a user bank the sign convention of psi is free, but one sign holds for both sides
        e, total = expected(w, W.fb, level, 1)
        s = sum(float(np.vdot(np.asarray(r[i])[1:len(e[i]) + 1], e[i])) for i in (1, 3))
        sign = 1 if s >= 0 else -1
    else:
        sign = signs[0]
    want, total = expected(w, W.fb, level, sign)
    p = 2.0 ** level
    ctx.check(x.shape == (total,), "grid length", lambda: f"{W.label} level {level}: {x.shape} instead of {total}")
    ctx.close(x, np.arange(total) / p, "grid", f"{W.label} level {level}", factor=16)
    for i, e in enumerate(want):
        g = np.asarray(r[i])
        full = np.zeros(total)
        full[1:1 + len(e)] = e
        # the rounding error of an iterated convolution follows the positive version of the same cascade
        bank = (np.abs(W.fb.rec_lo), np.abs(W.fb.rec_hi)) if len(want) == 2 or i >= 2 else \
            (np.abs(W.fb.dec_lo[::-1]), np.abs(W.fb.dec_hi[::-1]))
        sc = cascade(bank[i % 2], bank[0], 2.0 ** (level / 2), level)
        fs = np.zeros(total)
        fs[1:1 + len(e)] = sc
        ctx.close(g, full, "cascade", f"{W.label} level {level} function {i}", scale=fs + np.max(fs) * 1e-3, factor=16 * (level + 2))
        ctx.see("functions compared")
    # the two-scale relation between consecutive levels
    if level > 1:
        q = ctx.call(w.wavefun, level - 1)
        for i in range(0, len(want), 2):
            lo, hi = ((W.fb.rec_lo, W.fb.rec_hi) if len(want) == 2 or i >= 2 else (W.fb.dec_lo[::-1], W.fb.dec_hi[::-1]))
            small = np.asarray(q[i])[1:]
            for k, f in ((0, lo), (1, sign * hi)):
                # f_level(x) = sqrt(2) sum_m f[m] phi_{level-1}(2 x - m): on the grid, one step of 2x is 2**(level-1) samples
                big = np.zeros(len(small) + (len(f) - 1) * 2 ** (level - 1))
                pos = np.zeros_like(big)
                for m, c in enumerate(f):
                    o = m * 2 ** (level - 1)
                    big[o:o + len(small)] += np.sqrt(2) * c * small
                    pos[o:o + len(small)] += np.sqrt(2) * abs(c) * np.abs(small)
                g = np.asarray(r[i + k])[1:]
                n = min(len(g), len(big))
                ctx.close(g[:n], big[:n], "two-scale", f"{W.label} level {level}", scale=float(np.max(pos)) if pos.size else 1.0,
                          factor=4096 * (level + 2) * (1 if W.pr else 1000))
                ctx.see("two-scale relations")
    if builtin:
        for i in range(0, len(want), 2):
            phi, psi = np.asarray(r[i]), np.asarray(r[i + 1])
            ctx.check(abs(phi.sum() / p - 1) < 1e-8, "integral of phi", lambda: f"{W.label} level {level}: {phi.sum() / p!r}")
            ctx.check(abs(psi.sum() / p) < (3e-3 if W.label == "dmey" else 1e-8), "integral of psi", lambda: f"{W.label} level {level}: {psi.sum() / p!r}")
            if w.orthogonal:
                for f in (phi, psi):
                    ctx.check(abs((f ** 2).sum() / p - 1) < (3e-3 * (level + 1) if W.label == "dmey" else 1e-8), "energy",
                              lambda: f"{W.label} level {level}: {(f ** 2).sum() / p!r}")
    arg = W.arg if rng.random() < .5 else w
    if not isinstance(arg, str):
        arg = w
    integ = ctx.call(pywt.integrate_wavelet, arg, level) if rng.random() < .5 else \
        ctx.call(pywt.integrate_wavelet, arg, precision=level)
    psis = [r[1]] if len(r) == 3 else [r[1], r[3]]
    ctx.equal(len(integ), len(psis) + 1, "integrate results", W.label)
    step = x[1] - x[0]
    ctx.same(np.asarray(integ[-1]), x, "integrate grid", W.label)
    for g, s in zip(integ, psis):
        s = np.asarray(s)
        ctx.close(g, np.array([s[:k + 1].sum() for k in range(0, len(s))]) * step if len(s) < 400 else np.cumsum(s) * step,
                  "integral", W.label, scale=float(np.abs(s).sum() * step), factor=64)


def freq_oracle(ctx, cf, psi, x, label):
    psi = np.asarray(psi).astype(np.complex128)
    N = len(psi)
    domain = float(x[-1] - x[0])
    mag = np.abs(np.fft.fft(psi))[1:]
    top = np.max(mag)
    k = np.arange(1, N)
    near = k[mag >= top * (1 - 1e-5)]
    ok = np.minimum(near, N - near) / domain
    if np.any(2 * near + 1 >= N) and np.any(2 * near - 1 <= N) and np.any(np.abs(2 * near - N) <= 1):
        ctx.see("peak at the Nyquist frequency")
        return
    ctx.check(bool(np.any(np.abs(ok - cf) <= 1e-6 * np.maximum(ok, 1e-300))), "central frequency",
              lambda: f"{label}: {cf!r}, spectral peak at {ok}")
    ctx.see("central frequencies")


def psi_of(rng):
    n = int(rng.integers(2, 60))
    y = rng.standard_normal(n)
    if rng.random() < .3:
        y = y + 1j * rng.standard_normal(n)
    a = rng.uniform(-9, 9)
    return y, np.linspace(a, a + rng.uniform(.1, 30), n)


def frequencies(ctx):
    rng = ctx.rng
    if rng.random() < .5:
        n = gen.DISCRETE[rng.integers(len(gen.DISCRETE))]
        w = pywt.Wavelet(n)
        P = int(rng.integers(2, 9 if w.dec_len < 50 else 7))
    else:
        n = CW[rng.integers(len(CW))]
        w = pywt.ContinuousWavelet(n, [np.float64, np.float64, np.float32][rng.integers(3)])
        if rng.random() < .4:
            w.lower_bound, w.upper_bound = float(rng.uniform(-10, -3)), float(rng.uniform(3, 10))
        P = int(rng.integers(4, 12))
    ctx.sig(n, P, isinstance(w, pywt.Wavelet))
    arg = w
    r = ctx.call(w.wavefun, P)
    psi, x = (r[0], r[1]) if len(r) == 2 else (r[1], r[-1])
    cf = ctx.call(pywt.central_frequency, arg, P) if rng.random() < .5 else ctx.call(pywt.central_frequency, arg, precision=P)
    freq_oracle(ctx, cf, psi, x, f"{n} precision {P}")
    if isinstance(w, pywt.ContinuousWavelet):
        integ = ctx.call(pywt.integrate_wavelet, w, P)
        step = np.asarray(x)[1] - np.asarray(x)[0]
        s = np.asarray(psi)
        ctx.same(np.asarray(integ[1]), np.asarray(x), "integrate grid", n)
        ctx.close(integ[0], np.cumsum(s.astype(np.complex128)) * float(step), "integral", n,
                  scale=float(np.abs(s).sum() * step), factor=64 + 2 * P)
        ctx.equal(integ[0].dtype, s.dtype, "integral dtype", n)
    # conversions
    kind = rng.integers(4)
    shape = () if kind == 0 else (int(rng.integers(1, 9)),) if kind == 1 else tuple(int(v) for v in rng.integers(1, 4, 2))
    v = np.exp(rng.uniform(-6, 6, shape))
    if kind == 0:
        v = [float(v), int(v) + 1, np.float32(v)][rng.integers(3)]
    elif kind == 3:
        v = gen.layout(rng, v)
    elif rng.random() < .3:
        v = np.ceil(v).astype(int)
    f = ctx.call(pywt.scale2frequency, arg, v, P)
    s = ctx.call(pywt.frequency2scale, arg, v, precision=P)
    for g, what in ((f, "scale2frequency"), (s, "frequency2scale")):
        ctx.equal(np.shape(g), np.shape(v), what + " shape", n)
        ctx.close(np.asarray(g), cf / np.asarray(v, dtype=np.float64), what, n, dtype=np.asarray(g).dtype, factor=4,
                  scale=np.asarray(cf / np.asarray(v, dtype=np.float64)))
    back = ctx.call(pywt.frequency2scale, arg, f, P)
    ctx.close(back, np.asarray(v, dtype=np.float64), "inverse conversions", n, factor=8, scale=np.asarray(v, dtype=np.float64),
              dtype=np.asarray(back).dtype)
    # the default precision is 8, a name is as good as the object, the old names still work
    if rng.random() < .3 and n not in ("dmey",) and not isinstance(w, pywt.ContinuousWavelet):
        ctx.equal(ctx.call(pywt.central_frequency, n), ctx.call(pywt.central_frequency, pywt.Wavelet(n), precision=8), "by name", n)
        ctx.equal(ctx.call(pywt.scale2frequency, n, 2), ctx.call(pywt.central_frequency, n, 8) / 2, "by name", n)
    if rng.random() < .2:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ctx.equal(ctx.call(pywt.centrfrq, arg, P), cf, "old name", n)
            ctx.same(ctx.call(pywt.scal2frq, arg, v, P), f, "old name", n)
            ctx.same(ctx.call(pywt.intwave, arg, P), ctx.call(pywt.integrate_wavelet, arg, P), "old name", n)
    if rng.random() < .2:
        # sampled functions are integrated as they are
        y, g = psi_of(rng)
        got = ctx.call(pywt.integrate_wavelet, [(y, g), [y, g], (y.tolist(), g.tolist()), [y, g, None]][rng.integers(4)])
        ctx.check(isinstance(got, tuple) and len(got) == 2, "integral of samples", "integrate_wavelet((psi, x)) does not return (integral, x)")
        ctx.same(np.asarray(got[1]), g, "integral of samples", "x of integrate_wavelet((psi, x))")
        ctx.close(got[0], np.cumsum(y.astype(np.longdouble if y.dtype.kind == "f" else np.clongdouble)) * (g[1] - g[0]), "integral of samples",
                  f"{len(y)} samples", factor=64 + len(y), scale=float(np.sum(np.abs(y)) * abs(g[1] - g[0])), dtype=np.float64)
        ctx.see("sampled functions integrated")
    if rng.random() < .1:
        for k, e in CF.items():
            g = ctx.call(pywt.central_frequency, k)
            ctx.check(abs(g - e) <= 1e-9, "documented central frequency", lambda: f"{k}: {g!r}, documented {e!r}")
        for _ in range(4):
            B, C = np.round(rng.uniform(1, 4), 2), np.round(rng.uniform(.5, 2), 2)
            g = ctx.call(pywt.central_frequency, f"cmor{B}-{C}", 10)
            ctx.check(abs(g - C) <= .07, "cmor central frequency", lambda: f"cmor{B}-{C}: {g!r}")
    for bad in (0, -1, -7):
        if isinstance(w, pywt.Wavelet):
            ctx.raises(w.wavefun, bad, exc=(ValueError, MemoryError))
    ctx.raises(pywt.central_frequency, "nope", exc=ValueError)
    ctx.raises(pywt.integrate_wavelet, "nope", exc=ValueError)


FAMILIES = [Family(discrete, 1200, 30000), Family(frequencies, 1200, 40000)]
