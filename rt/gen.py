"""Random generation of wavelets, modes, shapes, data and memory layouts."""
import json
import os

import numpy as np

import pywt
from rt import ref

MODES = ref.MODES
with open(os.path.join(os.path.dirname(__file__), "golden_filters.json")) as _f:
    GOLD = json.load(_f)
DISCRETE = sorted(GOLD["discrete"])
CONTINUOUS = sorted(GOLD["continuous"])
_bank = {}


def gold_bank(name):
    if name not in _bank:
        g = GOLD["discrete"][name]
        _bank[name] = ref.FB([[float.fromhex(v) for v in g[k]] for k in ("dec_lo", "dec_hi", "rec_lo", "rec_hi")], name)
    return _bank[name]


class W:
    """A wavelet as passed to the library (arg) and as plain filters (fb)."""

    def __init__(self, arg, fb, label, pr, orth=False, exact=True):
        self.arg, self.fb, self.label, self.pr, self.orth, self.exact = arg, fb, label, pr, orth, exact
        self.F = fb.dec_len

    def __repr__(self):
        return self.label

    def obj(self):
        return self.arg if isinstance(self.arg, pywt.Wavelet) else pywt.Wavelet(self.arg)


def rand_case(rng, name):
    r = rng.integers(4)
    if r == 0:
        return name.upper()
    if r == 1:
        return "".join(c.upper() if rng.random() < .5 else c for c in name)
    return name


def builtin(rng, names=None, as_object=None, max_len=None):
    for _ in range(100):
        if names is None and rng.random() < .35:
            n = ["haar", "db1", "db2", "db3", "sym4", "bior1.3", "bior2.2", "rbio3.1", "coif1", "db4", "rbio2.8",
                 "bior3.3"][rng.integers(12)]
        else:
            pool = names or DISCRETE
            n = pool[rng.integers(len(pool))]
        fb = gold_bank(n)
        if max_len is None or fb.dec_len <= max_len:
            break
    g = GOLD["discrete"][n]
    if as_object is None:
        as_object = rng.random() < .4
    arg = pywt.Wavelet(n) if as_object else rand_case(rng, n)
    return W(arg, fb, n, True, g["orthogonal"], exact=n != "dmey")


def _custom(bank, label, pr, orth=False, flag=None):
    odd = len(bank[0]) % 2
    w = pywt.Wavelet(label, filter_bank=[list(map(float, b)) for b in bank])
    if orth:
        w.orthogonal = True
        w.biorthogonal = True
    padded = [list(map(float, b)) + [0.0] * odd for b in bank]
    return W(w, ref.FB(padded, label), label, pr, orth)


def lattice(rng, K=None):
    """Random orthonormal filter bank of length 2K."""
    K = K or int(rng.integers(1, 11))
    E = np.zeros((2, 2 * K))          # polyphase rows as polynomials in z^-2
    th = rng.uniform(0, 2 * np.pi, K)
    c, s = np.cos(th[0]), np.sin(th[0])
    P = [np.array([[c, s], [-s, c]])]
    for k in range(1, K):
        c, s = np.cos(th[k]), np.sin(th[k])
        R = np.array([[c, s], [-s, c]])
        n = len(P)
        Q = [np.zeros((2, 2)) for _ in range(n + 1)]
        for i in range(n):
            Q[i] += P[i] @ np.diag([1.0, 0.0]) @ R
            Q[i + 1] += P[i] @ np.diag([0.0, 1.0]) @ R
        P = Q
    h = np.zeros(2 * K)
    for i in range(K):
        h[2 * i], h[2 * i + 1] = P[i][0, 0], P[i][0, 1]
    return h


def orth_bank(h):
    """The bank of an orthonormal scaling filter h (as rec_lo)."""
    rec_lo = np.asarray(h, float)
    n = len(rec_lo)
    rec_hi = rec_lo[::-1] * (-1.0) ** np.arange(n)
    return [rec_lo[::-1], rec_hi[::-1], rec_lo, rec_hi]


def custom_orth(rng):
    h = lattice(rng)
    return _custom(orth_bank(h), f"orth{len(h)}x{int(abs(h[0]) * 1e6)}", True, rng.random() < .5)


def custom_bior(rng, max_len=None):
    for _ in range(50):
        n = DISCRETE[rng.integers(len(DISCRETE))]
        if n != "dmey" and (max_len is None or gold_bank(n).dec_len <= max_len):
            break
    else:
        n = "bior2.2"
    fb = gold_bank(n)
    s, t = rng.uniform(.5, 2, 2) * rng.choice([-1, 1], 2)
    return _custom([fb.dec_lo * s, fb.dec_hi * t, fb.rec_lo / s, fb.rec_hi / t], f"scaled-{n}-{s:.3f}-{t:.3f}", True)


def custom_any(rng, max_len=None):
    """Arbitrary filters; no reconstruction property."""
    L = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 8, int(rng.integers(9, 25)), int(rng.integers(25, 70))]))
    if max_len:
        L = min(L, max_len)
    bank = rng.normal(size=(4, L))
    if rng.random() < .2:
        bank = np.round(bank * 4)
    return _custom(bank, f"rand{L}x{int(abs(bank[0, 0]) * 1e6)}", False)


def wavelet(rng, pr=None, max_len=None):
    r = rng.random()
    if r < .6:
        return builtin(rng, max_len=max_len)
    if r < .75:
        while True:
            w = custom_orth(rng)
            if max_len is None or w.F <= max_len:
                return w
    if r < .82:
        return custom_bior(rng, max_len)
    if pr:
        return builtin(rng, max_len=max_len)
    return custom_any(rng, max_len)


def mode(rng):
    """(argument, canonical name)"""
    m = MODES[rng.integers(len(MODES))]
    return (getattr(pywt.Modes, m) if rng.random() < .3 else m), m


LONG = WIDE = 1                             # set per case by the worker: lengths / row counts up to this much larger


def boost(rng, most):
    """Choose larger lengths or larger shapes for the current case; None to return to ordinary ones."""
    global LONG, WIDE
    LONG = WIDE = 1
    if rng is not None:
        b = int(rng.integers(4, most))
        if rng.random() < .5:
            LONG = b
        else:
            WIDE = b


def log_between(rng, a, b):
    return int(np.exp(rng.uniform(np.log(max(1, a)), np.log(max(2, a, b)))))


def depth(rng, lo, hi, deep):
    """A number of levels in [lo, hi); up to `deep` in cases with larger lengths, and now and then in others."""
    if LONG > 1 and rng.random() < .5 or rng.random() < .02:
        return int(rng.integers(hi, deep + 1))
    return int(rng.integers(lo, hi))


def grow(rng, n):
    """A transformed length in a case with larger lengths."""
    return n if LONG == 1 else n * log_between(rng, 2, LONG)


def length(rng, F=4, lo=1, hi=400):
    if LONG > 1:
        return max(lo, log_between(rng, hi // 2, hi * LONG))
    r = rng.integers(12)
    if r == 0:
        n = rng.integers(1, 5)
    elif r == 1:
        n = rng.integers(1, 12)
    elif r == 2:
        n = F + rng.integers(-3, 4)
    elif r == 3:
        n = 2 * F + rng.integers(-3, 4)
    elif r == 4:
        n = rng.integers(1, F + 2)
    elif r == 5:
        n = F // 2 + rng.integers(-2, 3)
    elif r == 6:
        n = 2 ** rng.integers(0, 9) + rng.integers(-1, 2)
    elif r == 7:
        n = rng.integers(1, 40)
    elif r == 8:
        n = rng.integers(1, 130)
    elif r == 9:
        n = F * rng.integers(1, 6)
    else:
        n = rng.integers(2, hi)
    return int(min(max(n, lo), hi))


FLOATS = ["<f8", "<f4", "<c16", "<c8"]
OTHERS = ["<f2", "<i4", "<i8", "|u1", "|b1", "<f16", ">f8", ">f4", ">c16", ">c8", "<i2", "|i1", "<c32", "<u8"]


def dtype(rng, others=.15):
    if rng.random() < others:
        return np.dtype(OTHERS[rng.integers(len(OTHERS))])
    return np.dtype(FLOATS[[0, 0, 0, 1, 1, 2, 2, 3][rng.integers(8)]])


def out_dtype(dt):
    """Documented computation dtype."""
    dt = np.dtype(dt)
    if dt.kind == "c":
        return np.dtype(np.complex64) if dt.itemsize == 8 else np.dtype(np.complex128)
    if dt.kind == "f" and dt.itemsize <= 4:
        return np.dtype(np.float32)
    return np.dtype(np.float64)


def is32(dt):
    return out_dtype(dt) in (np.float32, np.complex64)


def data(rng, shape, dt=np.float64):
    dt = np.dtype(dt)
    shape = tuple(shape) if np.ndim(shape) else (int(shape),)
    if dt.kind == "b":
        return rng.random(shape) < .5
    if dt.kind in "iu":
        lo, hi = (0, 100) if dt.kind == "u" else (-100, 100)
        return rng.integers(lo, hi, shape).astype(dt)
    kind = rng.integers(10)

    def real():
        if kind <= 4:
            x = rng.normal(size=shape)
        elif kind == 5:
            x = rng.integers(-9, 10, shape).astype(float)
        elif kind == 6:
            x = np.zeros(shape)
            if x.size:
                x.flat[rng.integers(x.size)] = rng.normal() + 2
                if rng.random() < .5:
                    x.flat[[0, x.size - 1][rng.integers(2)]] = rng.normal() + 1
        elif kind == 7:
            x = np.cumsum(np.ones(shape), axis=-1) * rng.normal() + rng.normal()
        elif kind == 8:
            x = rng.normal(size=shape) * (rng.random(shape) < .3)
        else:
            x = rng.normal(size=shape) + rng.normal() * 50
        return x
    x = real()
    if dt.kind == "c":
        x = x + 1j * real() * (0.0 if rng.random() < .05 else 1.0)
    return np.asarray(x).astype(dt)


LAYOUTS = ["C", "C", "F", "step", "neg", "perm", "offset", "readonly", "subclass", "mixed", "unaligned"]


class Sub(np.ndarray):
    pass


def layout(rng, x, kind=None):
    """An array equal to x with another memory layout."""
    x = np.asarray(x)
    kind = kind or LAYOUTS[rng.integers(len(LAYOUTS))]
    if x.ndim == 0 or kind == "C":
        return np.ascontiguousarray(x).reshape(x.shape)
    if kind == "F":
        return np.asfortranarray(x)
    if kind == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if kind == "subclass":
        return x.copy().view(Sub)
    if kind == "unaligned" and x.size and x.itemsize > 1:
        buf = np.zeros(x.nbytes + 16, np.uint8)
        y = np.frombuffer(buf.data, dtype=x.dtype, count=x.size, offset=1).reshape(x.shape)
        y[...] = x
        return y
    if kind == "perm":
        p = rng.permutation(x.ndim)
        y = np.empty([x.shape[i] for i in p], x.dtype)
        inv = np.argsort(p)
        v = y.transpose(inv)
        v[...] = x
        return v
    big, sl = [], []
    for n in x.shape:
        k = {"step": int(rng.integers(1, 4)), "neg": -1, "offset": 1,
             "mixed": int(rng.choice([-3, -2, -1, 1, 2, 3]))}.get(kind, 1)
        off = int(rng.integers(0, 3)) if kind in ("offset", "mixed") else 0
        m = abs(k) * max(n, 1) + off + 1
        big.append(m)
        if k > 0:
            sl.append(slice(off, off + k * n, k) if n else slice(0, 0))
        else:
            start = off + abs(k) * (n - 1)
            stop = off - 1
            sl.append(slice(start, stop if stop >= 0 else None, k) if n else slice(0, 0))
    filler = np.full(big, 77, dtype=x.dtype) if x.dtype.kind != "b" else np.ones(big, bool)
    if x.dtype.kind in "fc" and rng.random() < .5:
        filler[...] = np.nan
    if rng.random() < .3:
        filler = np.asfortranarray(filler)
    v = filler[tuple(sl)]
    assert v.shape == x.shape, (v.shape, x.shape, kind)
    v[...] = x
    return v


def axis_of(rng, ndim):
    """(axis as passed, canonical)"""
    a = int(rng.integers(ndim))
    return (a - ndim if rng.random() < .4 else a), a


def axes_of(rng, ndim, k=None, order=True):
    """Distinct axes in random order, some negative: (as passed, canonical)."""
    k = k or int(rng.integers(1, ndim + 1))
    ax = [int(v) for v in rng.permutation(ndim)[:k]]
    if not order:
        ax.sort()
    passed = tuple(a - ndim if rng.random() < .3 else a for a in ax)
    return passed, tuple(ax)


def shape_nd(rng, ndim, lo=1, hi=24, cap=6000):
    if LONG > 1:
        cap = max(4, cap // LONG)
    s = list(shape_small(rng, ndim, lo, hi, cap))
    if WIDE > 1 and ndim:
        if rng.random() < .5:               # one long axis
            i = rng.integers(ndim)
            s[i] = max(lo, log_between(rng, hi, cap * WIDE // max(1, int(np.prod(s)))))
        else:                               # every axis larger
            s = [max(lo, int(n * rng.uniform(1, WIDE ** (1 / ndim)))) for n in s]
    return tuple(s)


def shape_small(rng, ndim, lo, hi, cap):
    s = []
    for _ in range(ndim):
        room = max(lo, min(hi, int(cap / max(1, np.prod(s)))))
        n = int(rng.integers(lo, room + 1)) if rng.random() < .8 else int(rng.integers(lo, min(room, lo + 4) + 1))
        s.append(n)
    return tuple(s)


def norm1(f):
    return float(np.sum(np.abs(f)))


def gain(fb):
    """Largest amplification of one analysis filter."""
    return max(norm1(fb.dec_lo), norm1(fb.dec_hi), 1e-300)


def rgain(fb):
    return max(norm1(fb.rec_lo), norm1(fb.rec_hi), 1e-300)


def ext_growth(mode, N, F):
    """Growth of |extended samples| relative to max|x|: linear extrapolation grows with distance."""
    if mode == "smooth":
        return 1.0 + 2.0 * (F + 1)
    if mode == "antireflect":
        return 1.0 + 4.0 * (F + N + 1) / max(N - 1, 1)
    return 1.0


def ends(x, axis=-1):
    return float(np.max(np.abs(x))) if np.size(x) else 0.0


def native(x):
    """The values the library computes with, as float64/complex128."""
    x = np.asarray(x)
    x = x.astype(out_dtype(x.dtype))
    return x.astype(np.complex128 if x.dtype.kind == "c" else np.float64)


_defect = {}


def pr_defect(fb):
    """Largest deviation of the filter bank itself from perfect reconstruction (operator infinity norm)."""
    key = (fb.dec_lo.tobytes(), fb.rec_lo.tobytes(), fb.dec_hi.tobytes(), fb.rec_hi.tobytes())
    if key not in _defect:
        n = 2 * fb.dec_len + 2
        eye = np.eye(n)
        t = ref.idwt(*ref.dwt(eye, fb, "periodization"), fb, "periodization") - eye
        _defect[key] = float(np.max(np.sum(np.abs(t), axis=0)))
    return _defect[key]


def polygain(fb):
    """Largest amplification of one synthesis step (infinity norm)."""
    return max(norm1(fb.rec_lo[p::2]) + norm1(fb.rec_hi[p::2]) for p in (0, 1))


def per_axis(rng, k, pr=None, max_len=None):
    """One wavelet and mode per axis, or one for all: (wavelet arg, [W], mode arg, [mode name])."""
    if rng.random() < .5:
        w = wavelet(rng, pr, max_len)
        ws, warg = [w] * k, w.arg
        if rng.random() < .3:
            warg = [[w.arg] * k, [w.arg], (w.arg,)][rng.integers(3)]
    else:
        ws = [wavelet(rng, pr, max_len) for _ in range(k)]
        warg = tuple(w.arg for w in ws) if rng.random() < .6 else [w.arg for w in ws]
    if rng.random() < .5:
        marg, m = mode(rng)
        return warg, ws, [marg] if rng.random() < .2 else marg, [m] * k
    ms = [mode(rng) for _ in range(k)]
    marg = tuple(a for a, _ in ms) if rng.random() < .6 else [a for a, _ in ms]
    return warg, ws, marg, [m for _, m in ms]


def bad_one(n, m):
    return n == 1 and m in ("reflect", "antireflect")


def ok_levels(sizes, ws, modes, want):
    """Largest number of levels <= want that never meets a length-1 reflecting axis."""
    sizes = list(sizes)
    for lev in range(want):
        if any(bad_one(n, m) or n < 1 for n, m in zip(sizes, modes)):
            return lev
        sizes = [ref.coeff_len(n, w.F, m) for n, w, m in zip(sizes, ws, modes)]
    return want


def size_after(n, w, m, levels):
    for _ in range(levels):
        n = ref.coeff_len(n, w.F, m)
    return n
