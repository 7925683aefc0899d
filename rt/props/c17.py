"""C17: continuous wavelets against their closed forms."""
import warnings

import numpy as np

import pywt
from rt import cw, gen
from rt.fam import Family

COMPLEX = ("cgau", "shan", "fbsp", "cmor")


def f32(v):
    return float(np.float32(v))


def shapes(ctx):
    rng = ctx.rng
    n, par = cw.name(rng)
    dt = [None, np.float64, np.float32][rng.integers(3)]
    spelled = gen.rand_case(rng, n)
    cls = pywt.DiscreteContinuousWavelet if dt is None and rng.random() < .3 else pywt.ContinuousWavelet
    w = ctx.call(cls, spelled) if dt is None else ctx.call(cls, spelled, dt)
    dt = np.dtype(dt or np.float64)
    fam = n if n in ("mexh", "morl") else n[:4]
    ctx.check(isinstance(w, pywt.ContinuousWavelet), "class", n)
    ctx.equal(w.name, n.lower(), "name", n)
    g = gen.GOLD["continuous"][n if n in gen.GOLD["continuous"] else fam]
    for k, v in g.items():
        if k in par:
            v = par[k]
        got = getattr(w, k)
        if isinstance(v, float):
            ctx.check(got is not None and abs(got - v) <= 1e-6 * max(abs(v), 1e-3), "parameter:" + k, lambda: f"{n}.{k} is {got!r}, expected {v!r}")
        else:
            ctx.equal(got, v, "metadata:" + k, f"{n}.{k}")
    ctx.equal(w.short_family_name, fam, "family", n)
    ctx.equal(w.complex_cwt, fam in COMPLEX, "complex flag", n)
    ctx.see("family " + fam)
    changed = []
    if rng.random() < .4:
        lo, hi = float(rng.uniform(-15, 0)), float(rng.uniform(.5, 15))
        w.lower_bound, w.upper_bound = lo, hi
        ctx.check(abs(w.lower_bound - lo) <= 1e-5 and abs(w.upper_bound - hi) <= 1e-5, "bounds", n)
        changed += ["bounds"]
    if fam in ("cmor", "shan", "fbsp") and rng.random() < .5:
        B, C = float(rng.uniform(.1, 4)), float(rng.uniform(.1, 4))
        w.bandwidth_frequency, w.center_frequency = B, C
        ctx.check(abs(w.bandwidth_frequency - B) <= 1e-6 and abs(w.center_frequency - C) <= 1e-6, "parameter set", n)
        if fam == "fbsp":
            w.fbsp_order = M = int(rng.integers(1, 9))
            ctx.equal(w.fbsp_order, M, "parameter set", n)
        changed += ["parameters"]
    lo, hi = w.lower_bound, w.upper_bound
    k = rng.integers(4)
    if k == 0:
        N, r = 256, ctx.call(w.wavefun)
    elif k == 1:
        L = int(rng.integers(0, 13))
        N, r = 2 ** L, ctx.call(w.wavefun, L) if rng.random() < .5 else ctx.call(w.wavefun, level=L)
    else:
        N = int(rng.integers(1, 2000)) if rng.random() < .7 else int(rng.integers(1, 12))
        r = ctx.call(w.wavefun, length=N) if rng.random() < .6 else ctx.call(w.wavefun, int(rng.integers(1, 9)), N)
    ctx.sig(n, str(dt), N, *changed)
    ctx.equal(len(r), 2, "number of results", n)
    psi, x = r
    cdt = np.dtype(np.complex64 if dt == np.float32 else np.complex128)
    ctx.equal(x.dtype, dt, "grid dtype", n)
    ctx.equal(psi.dtype, cdt if fam in COMPLEX else dt, "psi dtype", n)
    grid = np.linspace(lo, hi, N)
    ctx.close(x, grid, "grid", f"{n} length {N} [{lo}, {hi}]", factor=8, dtype=dt, scale=max(abs(lo), abs(hi)))
    e = cw.psi(w, x)
    top = max(1.0, float(np.max(np.abs(cw.psi(w, np.linspace(lo, hi, 257))))))
    # polynomial forms cancel: their terms grow like (2 t)**N
    if fam in ("gaus", "cgau"):
        N_ = w.family_number
        t = np.abs(x.astype(float))
        P = cw.derivative_poly(N_, -1j if fam == "cgau" else 0.0, -2.0)
        sc = np.polyval(np.abs(P)[::-1], t) * np.exp(-t * t) * (1 + t + t * t) / np.sqrt(cw.energy(P))
    elif fam == "fbsp":
        sc = top * (1 + cw.phase(w, x)) * w.fbsp_order
    else:
        sc = top * (1 + cw.phase(w, x) + (np.abs(x.astype(float)) ** 2 if fam in ("mexh", "morl", "cmor") else 0))
    ctx.close(psi, e, "closed form", f"{n} {dt} length {N} {changed}", scale=np.asarray(sc + 1e-3), dtype=dt, factor=24)
    ctx.see("samples compared", N)
    if N > 200 and not changed and fam in ("gaus", "cgau", "mexh", "shan") and hi - lo > 9.9:
        en = float(np.sum(np.abs(psi.astype(complex)) ** 2) * (hi - lo) / (N - 1))
        ctx.check(abs(en - 1) < (.08 if fam == "shan" else .02), "unit energy", lambda: f"{n}: {en}")
        ctx.see("energies")
    rr = ctx.call(w.wavefun, length=N)
    ctx.same([np.array(rr[0]), np.array(rr[1])], [np.array(psi), np.array(x)], "repeatable", n)


def rejected(ctx):
    rng = ctx.rng
    fam = ["cmor", "shan", "fbsp"][rng.integers(3)]
    need = 3 if fam == "fbsp" else 2
    kind = ["count", "order", "text", "no such order", "suffix"][rng.integers(5)]

    def num():
        return cw.number(rng, .3, 3)[0]
    if kind == "count":
        k = int(rng.choice([v for v in (1, 2, 3, 4, 5) if v != need]))
        n = fam + "-".join([str(int(rng.integers(1, 4)))] + [num() for _ in range(k - 1)])
    elif kind == "order":
        n = "fbsp" + ["1.5", "0", "0.0", "2.25", "0.5", ".5"][rng.integers(6)] + "-1.5-1.0"
    elif kind == "text":
        n = fam + ["B-C", "x", "-", "--", ".", "M-B-C", "1.5.2-1.5.3", "1..2-3"][rng.integers(8)]
    elif kind == "no such order":
        n = ["gaus", "cgau"][rng.integers(2)] + str(["0", "9", "10", "", "x", "1.0", "-1", "01"][rng.integers(8)])
    else:
        n = ["mexh", "morl", "gaus1", "cgau2"][rng.integers(4)] + ["1.5-1.0", "2", "-", " ", "."][rng.integers(5)]
        if n in cw.PLAIN:
            n += "x"
    n = gen.rand_case(rng, n)
    ctx.sig(n)
    for cls in (pywt.ContinuousWavelet, pywt.DiscreteContinuousWavelet):
        ctx.raises(cls, n, exc=ValueError, key="malformed name accepted")
    ctx.raises(pywt.cwt, np.arange(10.), [2.], n, exc=ValueError, key="malformed name accepted")
    ctx.see("rejected " + kind)
    # bare family names are deprecated but work with the documented defaults
    for f, full in (("cmor", "cmor1.0-0.5"), ("shan", "shan0.5-1.0"), ("fbsp", "fbsp2-1.0-0.5")):
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            w = pywt.ContinuousWavelet(f)
        ctx.check(any(issubclass(r.category, FutureWarning) for r in rec), "deprecation warning", f)
        ctx.same(w.wavefun(6), pywt.ContinuousWavelet(full).wavefun(6), "default parameters", f)
    w = pywt.ContinuousWavelet("morl")
    for bad in (0, -1, -5):
        ctx.raises(w.wavefun, length=bad, exc=(ValueError, RuntimeError, OverflowError), key="bad length accepted")


FAMILIES = [Family(shapes, 4000, 150000), Family(rejected, 400, 20000)]
