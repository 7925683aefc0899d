"""C23: sanitizers on the native code, guard bands around the data and heap-fill comparison of the results."""
import ctypes
import os

import numpy as np

import pywt
from rt import api, gen
from rt.core import Skip, diff_bits
from rt.fam import Family

POOL = {**api.ALL, **api.PACKETS}
OKX = (ValueError, TypeError, IndexError, KeyError, AttributeError, RuntimeError, ArithmeticError, AssertionError, MemoryError, NotImplementedError)

# ---- heap fills (plain flavor) ----------------------------------------------------------------------------------------

libc = ctypes.CDLL(None)
M_PERTURB = -6
FILLS = {"zero-ish": (0xBF, 0.0), "nan": (0x01, float("nan")), "huge": (0x80, 1e300), "ones": (0x40, 1.0)}


SIZES = [k for k in range(1, 129) for _ in range(7)]


def dirty(name):
    """Every later malloc block starts filled with one byte; numpy's own cache of small blocks with one value."""
    byte, value = FILLS[name]
    libc.mallopt(M_PERTURB, byte)
    keep = [np.full(k, value) for k in SIZES]
    del keep


def spot_fill(name):
    """How the fill shows in a fresh block (evidence that the monitor is armed)."""
    a = np.empty(4096, np.uint8)
    big = int(a[2048])
    b = np.empty(16)
    return big, b[8]


def tight(rng, a):
    """Same values; the array's memory extent touches both ends of its own allocation."""
    if not isinstance(a, np.ndarray) or a.ndim == 0 or a.size == 0:
        return np.array(a)
    k = rng.integers(5)
    if k == 0:
        return np.array(a, order="C")
    if k == 1:
        return np.array(a, order="F")
    perm = rng.permutation(a.ndim)
    steps = rng.integers(1, 4, a.ndim)
    base = np.empty([(a.shape[i] - 1) * steps[i] + 1 for i in perm], a.dtype)
    base.fill(7)
    v = base[tuple(slice(None, None, steps[i]) for i in perm)].transpose(np.argsort(perm))
    if k >= 3:
        v = v[tuple(slice(None, None, -1) if rng.random() < .5 else slice(None) for _ in range(a.ndim))]
    v[...] = a
    return v


def fills(ctx):
    """The result does not depend on what the heap held before."""
    rng = ctx.rng
    c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)], big=1 if rng.random() < .8 else 20)
    if rng.random() < .25 and c.data:
        c = api.hostile(rng, c)
    names = list(FILLS)
    i, j = rng.permutation(len(names))[:2]
    ctx.trace.append(repr(c)[:500])
    dirty(names[i])
    big, small = spot_fill(names[i])
    ctx.check(big == (FILLS[names[i]][0] ^ 0xff), "heap fill not armed", lambda: f"{names[i]}: {big}")
    one = c.outcome()
    keep = api.frozen(one[1]) if one[0] == "ok" else one
    dirty(names[j])
    two = c.outcome()
    libc.mallopt(M_PERTURB, 0)
    ctx.check(one[0] == two[0], f"outcome depends on heap contents:{c.name}", lambda: f"{c!r}: {one} with {names[i]}, {two} with {names[j]}"[:900])
    ctx.sig(c.name, repr(c)[:400])
    if one[0] == "ok":
        d = diff_bits(keep, two[1])
        ctx.check(d is None, f"uninitialised memory:{c.name}", lambda: f"{c!r}: heap filled with {names[i]} / {names[j]}: {d}")
        ctx.see("fills compared " + c.name)
    else:
        ctx.see("fills raised")


# ---- guard bands (plain flavor) ---------------------------------------------------------------------------------------

def banded(rng, a, value, seed):
    """The values of a inside a larger buffer whose other elements all hold `value`; the same placement for one seed."""
    r = np.random.default_rng(seed)
    if a.ndim == 0 or a.dtype.kind not in "fc":
        return a
    perm = r.permutation(a.ndim)
    steps = r.integers(1, 3, a.ndim)
    lead, tail = r.integers(1, 5, a.ndim), r.integers(1, 5, a.ndim)
    base = np.full([max(0, a.shape[i] - 1) * steps[i] + 1 + lead[i] + tail[i] for i in perm], value, a.dtype)
    v = base[tuple(slice(lead[i], lead[i] + (a.shape[i] - 1) * steps[i] + 1 if a.shape[i] else lead[i], steps[i]) for i in perm)].transpose(np.argsort(perm))
    if r.random() < .5:
        v = v[tuple(slice(None, None, -1) if r.random() < .5 else slice(None) for _ in range(a.ndim))]
    v[...] = a
    return v


def guards(ctx):
    """Elements next to the data, inside the same allocation, are neither read nor written."""
    rng = ctx.rng
    c = api.make(rng, api.WITH_DATA, dt=gen.FLOATS[rng.integers(4)])
    s0 = int(rng.integers(1 << 40))

    def place(value):
        k = [0]
        bases = []

        def f(a):
            k[0] += 1
            v = banded(rng, a, value, [s0, k[0]])
            b = v
            while b.base is not None:
                b = b.base
            bases.append((b, v))
            return v
        return c.mapped(f), bases
    a, ba = place(np.nan)
    b, bb = place(3e30)
    ctx.trace.append(repr(a)[:500])
    one, two = a.outcome(), b.outcome()
    ctx.check(one[0] == two[0], f"outcome depends on neighbours:{c.name}", lambda: f"{a!r}: {one[:2]} / {two[:2]}"[:900])
    ctx.sig(c.name, repr(a)[:400])
    if one[0] == "ok":
        d = diff_bits(one[1], two[1])
        ctx.check(d is None, f"reads outside the array:{c.name}", lambda: f"{a!r}: NaN against 3e30 around the data: {d}")
        ctx.see("guarded " + c.name)
    n = 0
    for base, v in bb:
        n += base.size - v.size
        if base is v:
            continue
        keep = v.copy()
        v[...] = 3e30
        bad = base != np.asarray(3e30, base.dtype)
        v[...] = keep
        ctx.check(not bad.any(), f"writes outside the array:{c.name}", lambda: f"{b!r}: {int(bad.sum())} guard elements changed")
    ctx.see("guard elements", n)


# ---- sanitizer workloads ---------------------------------------------------------------------------------------------

def run(ctx, c, kind):
    ctx.trace.append(repr(c)[:600])
    ctx.sig(kind, c.name, repr(c)[:400])
    try:
        r = c.run()
    except OKX as e:
        ctx.see(f"{kind} raised {type(e).__name__}")
    else:
        for a in api.arrays(r):
            a.tobytes()
        ctx.see(f"{kind} {c.name}")
        ctx.see("result arrays", len(api.arrays(r)))
    ctx.check(True, "")


def valid(ctx):
    rng = ctx.rng
    big = 1 if rng.random() < .85 else float(rng.integers(2, 60))
    c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)], big=big, maxf=40 if rng.random() < .8 else 102)
    if c.data:
        c = c.mapped(lambda a: tight(rng, a))
    run(ctx, c, "valid")


def hostile(ctx):
    rng = ctx.rng
    c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)])
    if c.data and rng.random() < .5:
        c = c.mapped(lambda a: tight(rng, a))
    run(ctx, api.hostile(rng, c), "hostile")


def small(ctx):
    """Every extent between 0 and 3 in any combination, mutually inconsistent coefficient shapes."""
    rng = ctx.rng
    c = api.make(rng, {**api.TRANSFORMS, **api.PACKETS, **api.PACKING}, dt=gen.FLOATS[rng.integers(4)], maxf=60)
    k = rng.integers(4)
    common = [int(v) for v in rng.integers(0, 4, 8)]

    def f(a):
        if a.ndim == 0:
            return a
        if k == 0:
            s = common[:a.ndim]
        elif k == 1:
            s = [int(v) for v in rng.integers(0, 4, a.ndim)]
        elif k == 2:
            s = [max(0, n + int(rng.integers(-1, 2))) for n in a.shape]
        else:
            s = [n if rng.random() < .7 else int(rng.integers(0, 3)) for n in a.shape]
        if rng.random() < .04:
            s = s[:-1] if rng.random() < .5 else s + [1]
        return gen.data(rng, tuple(s), a.dtype) if np.prod(s) else np.zeros(s, a.dtype)
    if c.name == "fswaverecn":
        raise Skip                   # its result object checks every shape itself (hostile covers it)
    run(ctx, c.mapped(f), "small")


LENS = [0, 1, 1, 2, 3, 4, 5, 7, 10, 17, 40, 101, 255, 1000]


def banks(ctx):
    """Filter banks of any lengths (odd, one tap, unequal, thousands of taps) given to every kernel."""
    rng = ctx.rng
    n = int(LENS[rng.integers(1, len(LENS))])
    ls = [n] * 4
    k = rng.integers(5)
    if k == 0:
        ls = [LENS[i] for i in rng.integers(0, len(LENS), 4)]
    elif k == 1:
        ls = [n, n, n + 1, n + 1]
    elif k == 2:
        ls[rng.integers(4)] += int(rng.integers(-1, 2))
    scale = [1, 1e-300, 1e300, np.inf, np.nan][rng.choice(5, p=[.8, .05, .05, .05, .05])]
    bank = [tight(rng, rng.normal(size=m) * scale) if rng.random() < .5 else (rng.normal(size=m) * scale).tolist() for m in ls]
    if rng.random() < .05:
        bank = bank[:int(rng.integers(0, 4))]
    ctx.trace.append(f"bank {ls}")
    try:
        w = pywt.Wavelet("mine", filter_bank=bank)
    except OKX as e:
        ctx.see(f"bank refused {type(e).__name__}")
        ctx.sig("refused", ls, k)
        ctx.check(True, "")
        return
    if rng.random() < .3:
        # replaced attributes
        for name, vals in (("orthogonal", [True, False]), ("biorthogonal", [True, False])):
            try:
                setattr(w, name, vals[rng.integers(2)])
            except OKX:
                pass
    for _ in range(4):
        c = api.make(rng, {**api.TRANSFORMS, **api.PACKETS}, dt=gen.FLOATS[rng.integers(4)])
        b = api.bind(c)
        if b is None or "wavelet" not in b.arguments or c.name == "cwt":
            continue
        nd = max([a.ndim for a in c.arrays()] + [1])
        if max(ls) > {1: 2000, 2: 60, 3: 20}.get(nd, 6):
            continue                 # every level adds a filter length to each axis
        b.arguments["wavelet"] = w
        h = c.with_args(list(b.args), dict(b.kwargs))
        if h.data:
            h = h.mapped(lambda a: tight(rng, a))
        run(ctx, h, "bank")
    for f in (lambda: w.wavefun(int(rng.integers(0, 4))), lambda: w.filter_bank, lambda: w.inverse_filter_bank, lambda: str(w), lambda: len(w),
              lambda: pywt.dwt_max_level(50, w), lambda: pywt.central_frequency(w, 3), lambda: pywt.dwt_coeff_len(9, w, "zero")):
        try:
            f()
        except OKX as e:
            ctx.see("bank raised " + type(e).__name__)
        ctx.see("bank attribute calls")
    ctx.sig("bank", ls, k)
    ctx.see("bank lengths %s" % ("equal" if len(set(ls)) == 1 else "unequal"))


def churn(ctx):
    """Objects created, copied, kept and dropped in any order: use after free, double free."""
    rng = ctx.rng
    import copy
    import gc
    import pickle
    pool, kept = [], []
    for _ in range(int(rng.integers(10, 40))):
        k = rng.integers(9)
        try:
            if k == 0 or not pool:
                pool.append(gen.wavelet(rng).arg if rng.random() < .7 else pywt.ContinuousWavelet(["morl", "cmor1.5-1.0", "gaus3", "shan1-2", "fbsp2-1-1.5"][rng.integers(5)]))
                if isinstance(pool[-1], str):
                    pool[-1] = pywt.Wavelet(pool[-1])
                continue
            w = pool[rng.integers(len(pool))]
            if k == 1:
                pool.append([copy.copy, copy.deepcopy, lambda v: pickle.loads(pickle.dumps(v))][rng.integers(3)](w))
            elif k == 2:
                pool.remove(w)
                del w
                gc.collect(0)
            elif k == 3:
                kept.append((w.filter_bank if isinstance(w, pywt.Wavelet) else w.wavefun(4)))
            elif k == 4:
                kept.append(w.wavefun(level=int(rng.integers(1, 6))))
            elif k == 5 and isinstance(w, pywt.Wavelet):
                w.__init__("db3") if rng.random() < .5 else w.__init__("again", filter_bank=([1., 2.], [1., 2.], [1., 2.], [1., 2.]))
            elif k == 6:
                for a in ("bandwidth_frequency", "center_frequency", "fbsp_order", "lower_bound", "upper_bound", "orthogonal", "symmetry", "vanishing_moments_psi", "name", "dec_lo", "complex_cwt"):
                    try:
                        kept.append(getattr(w, a))
                        setattr(w, a, [1.0, 2, 0, -3, 1e300, None, "x", 2 ** 40, float("nan")][rng.integers(9)])
                    except OKX:
                        pass
            elif k == 7 and isinstance(w, pywt.Wavelet):
                kept.append(pywt.dwt(rng.normal(size=int(rng.integers(1, 40))), w))
            elif k == 8 and isinstance(w, pywt.ContinuousWavelet) and abs(w.upper_bound) < 1e3 and abs(w.lower_bound) < 1e3:
                kept.append(pywt.cwt(rng.normal(size=12), [1, 2], w, precision=6))
        except OKX as e:
            ctx.see("churn raised " + type(e).__name__)
        ctx.see("churn operations")
        if len(kept) > 12:
            del kept[:int(rng.integers(1, 12))]
    for v in kept:
        for a in api.arrays(v):
            a.tobytes()
    ctx.trace.append(f"{len(pool)} objects alive")
    ctx.sig("churn", ctx.index)
    ctx.check(True, "")


A = ("asan",)
FAMILIES = [Family(fills, 6000, 80000), Family(guards, 6000, 80000), Family(valid, 6000, 120000, flavors=A), Family(hostile, 6000, 120000, flavors=A),
            Family(small, 5000, 100000, flavors=A), Family(banks, 3000, 50000, flavors=A), Family(churn, 300, 5000, flavors=A)]
