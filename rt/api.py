"""Random calls of every public entry point: the shared workload of the cross-cutting properties.

make(rng, ...) returns a Call whose data slots (signals, coefficient containers) can be cloned, mapped and inspected.
All calls it makes are inside the documented domain; hostile(rng, call) moves one out of it (or to its edge).
"""
import collections
import copy
import warnings

import numpy as np

import pywt
import pywt.data
from rt import cw, gen, ref


RUNS = collections.Counter()        # every library call made through this module


class Call:
    def __init__(self, name, fn, args, kw=None, data=(0,), linear=True, identity=False, view=False, real_only=False, note=""):
        self.name, self.fn, self.args, self.kw = name, fn, list(args), dict(kw or {})
        self.data, self.linear, self.identity, self.view, self.real_only, self.note = data, linear, identity, view, real_only, note

    def run(self):
        RUNS[self.name] += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                return self.fn(*self.args, **self.kw)

    def outcome(self):
        """('ok', result) or ('raised', type name, text)."""
        try:
            return ("ok", self.run())
        except Exception as e:
            return ("raised", type(e).__name__, str(e))

    def with_args(self, args, kw=None):
        c = copy.copy(self)
        c.args, c.kw = list(args), dict(self.kw if kw is None else kw)
        return c

    def mapped(self, f):
        """The same call with f applied to every data array."""
        return self.with_args([mapa(a, f) if i in self.data else a for i, a in enumerate(self.args)])

    def clone(self):
        return self.mapped(lambda a: a.copy())

    def arrays(self):
        out = []
        for i in self.data:
            out += arrays(self.args[i])
        return out

    def __repr__(self):
        from rt.core import describe
        return f"{self.name}(" + ", ".join([describe(a) for a in self.args] + [f"{k}={describe(v)}" for k, v in self.kw.items()]) + ")"


def mapa(v, f):
    if isinstance(v, np.ndarray):
        return f(v)
    if isinstance(v, (list, tuple)):
        return type(v)(mapa(x, f) for x in v)
    if isinstance(v, dict):
        return {k: mapa(x, f) for k, x in v.items()}
    if isinstance(v, pywt.FswavedecnResult):
        r = copy.copy(v)
        r.coeffs = f(v.coeffs)
        return r
    return v


def arrays(v):
    """Every array of a result or argument, depth first."""
    if isinstance(v, np.ndarray):
        return [v]
    if isinstance(v, (list, tuple)):
        return [a for x in v for a in arrays(x)]
    if isinstance(v, dict):
        return [a for x in v.values() for a in arrays(x)]
    if isinstance(v, pywt.FswavedecnResult):
        return [v.coeffs]
    return []


def frozen(v):
    """A value copy of a result, for later bit comparison."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, (list, tuple)):
        return type(v)(frozen(x) for x in v)
    if isinstance(v, dict):
        return {k: frozen(x) for k, x in v.items()}
    if isinstance(v, pywt.FswavedecnResult):
        return mapa(v, lambda a: a.copy())
    return v


# ---- helpers ---------------------------------------------------------------------------------------------------------

class G:
    """Generation settings."""

    def __init__(self, rng, dt="<f8", big=1, maxf=24, dmax=10 ** 9, exact=False):
        self.rng, self.dt, self.big, self.maxf, self.exact = rng, np.dtype(dt), big, maxf, exact

    def w(self):
        w = gen.wavelet(self.rng, max_len=self.maxf)
        return w

    def wa(self):
        w = self.w()
        return w, w.arg

    def mode(self):
        return gen.mode(self.rng)

    def n(self, lo=2, hi=48):
        hi = int(hi * self.big)
        return int(self.rng.integers(lo, hi + 1)) if self.rng.random() < .7 else int(self.rng.integers(lo, min(hi, lo + 8) + 1))

    def shape(self, nd, lo=2):
        hi = {1: 64, 2: 14, 3: 8, 4: 5, 5: 3}[nd]
        if self.big > 1:
            hi = max(lo, int(hi * self.big ** (1.0 / nd)))
        return tuple(int(v) for v in self.rng.integers(lo, hi + 1, nd))

    def x(self, shape):
        return gen.data(self.rng, shape, self.dt)

    def coin(self, p=.5):
        return self.rng.random() < p

    def like(self, v):
        """Arbitrary coefficients of the same structure (or the given ones)."""
        if self.coin():
            return v
        return mapa(v, lambda a: gen.data(self.rng, a.shape, a.dtype))


def ax(g, nd, k=None):
    passed, _ = gen.axes_of(g.rng, nd, k)
    return passed


def lev(g, hi=3, zero=.03):
    return 0 if g.coin(zero) else int(g.rng.integers(1, hi + 1))


def safe_level(sizes, ws, modes, want):
    return gen.ok_levels(sizes, ws, modes, want)


SAFE = ["zero", "constant", "symmetric", "periodic", "smooth", "antisymmetric", "periodization"]


def mode_for(g, sizes, levels, F):
    """A mode that never meets a length-1 axis in its own restricted cases."""
    m, name = g.mode()
    s = list(sizes)
    for _ in range(levels):
        if any(gen.bad_one(n, name) for n in s):
            return SAFE[g.rng.integers(len(SAFE))]
        s = [ref.coeff_len(n, F, name) for n in s]
    return m


# ---- transforms ------------------------------------------------------------------------------------------------------

def c_dwt(g):
    w = g.w()
    nd = int(g.rng.choice([1, 1, 1, 2, 3]))
    s = g.shape(nd)
    if nd == 1:
        return Call("dwt", pywt.dwt, [g.x(s), w.arg, g.mode()[0]])
    return Call("dwt", pywt.dwt, [g.x(s), w.arg], {"mode": g.mode()[0], "axis": ax(g, nd, 1)[0]})


def c_idwt(g):
    w = g.w()
    nd = int(g.rng.choice([1, 1, 2, 3]))
    s = list(g.shape(nd))
    a = gen.axis_of(g.rng, nd)
    s[a[1]] = max(s[a[1]], w.F // 2)
    m = g.mode()[0]
    cA, cD = g.x(s), g.x(s)
    k = g.rng.integers(6)
    if k == 0:
        cA = None
    elif k == 1:
        cD = None
    return Call("idwt", pywt.idwt, [cA, cD, w.arg, m] if nd == 1 else [cA, cD, w.arg, m, a[0]], data=(0, 1))


def c_downcoef(g):
    w = g.w()
    n = g.n(2)
    l = lev(g, 3, 0)
    return Call("downcoef", pywt.downcoef, ["ad"[g.rng.integers(2)], g.x(n), w.arg, mode_for(g, [n], l, w.F), l], data=(1,))


def c_upcoef(g):
    w = g.w()
    n = g.n(1, 20)
    return Call("upcoef", pywt.upcoef, ["ad"[g.rng.integers(2)], g.x(n), w.arg], {"level": lev(g, 3, 0), "take": int(g.rng.integers(0, 40))}, data=(1,))


def c_dwt2(g):
    w = g.w()
    nd = int(g.rng.choice([2, 2, 3]))
    return Call("dwt2", pywt.dwt2, [g.x(g.shape(nd)), w.arg], {"mode": g.mode()[0], "axes": ax(g, nd, 2)})


def c_dwtn(g):
    nd = int(g.rng.integers(1, 5))
    axes = None if g.coin(.3) else ax(g, nd)
    k = nd if axes is None else len(axes)
    warg, ws, marg, ms = gen.per_axis(g.rng, k, max_len=g.maxf)
    return Call("dwtn", pywt.dwtn, [g.x(g.shape(nd)), warg, marg, axes])


def idwt_coeffs(g, nd, k):
    """dict of subbands large enough to invert"""
    w = g.w()
    s = [max(v, w.F // 2) for v in g.shape(nd)]
    axes, can = gen.axes_of(g.rng, nd, k)
    keys = [""]
    for _ in range(k):
        keys = [a + b for a in keys for b in "ad"]
    d = {key: g.x(s) for key in (keys if g.coin() else [keys[i] for i in g.rng.permutation(len(keys))])}
    return w, axes, d


def c_idwtn(g):
    nd = int(g.rng.integers(1, 4))
    k = int(g.rng.integers(1, nd + 1))
    w, axes, d = idwt_coeffs(g, nd, k)
    if len(d) > 1 and g.coin(.4):
        key = list(d)[g.rng.integers(len(d))]
        if g.coin():
            d[key] = None
        else:
            del d[key]
    return Call("idwtn", pywt.idwtn, [d, w.arg, g.mode()[0], axes])


def c_idwt2(g):
    w, axes, d = idwt_coeffs(g, int(g.rng.choice([2, 2, 3])), 2)
    c = (d["aa"], (d["da"], d["ad"], d["dd"]))
    if g.coin(.3):
        i = g.rng.integers(4)
        c = (None, c[1]) if i == 3 else (c[0], tuple(None if j == i else v for j, v in enumerate(c[1])))
    return Call("idwt2", pywt.idwt2, [c, w.arg], {"mode": g.mode()[0], "axes": axes})


def c_wavedec(g):
    w = g.w()
    nd = int(g.rng.choice([1, 1, 1, 2, 3]))
    s = g.shape(nd)
    a, can = gen.axis_of(g.rng, nd)
    l = None if g.coin(.25) else lev(g)
    return Call("wavedec", pywt.wavedec, [g.x(s), w.arg], {"mode": mode_for(g, [s[can]], l or 1, w.F), "level": l, "axis": a}, identity=l == 0 or l is None)


def c_wavedec2(g):
    w = g.w()
    nd = int(g.rng.choice([2, 2, 3]))
    s = g.shape(nd)
    a, can = gen.axes_of(g.rng, nd, 2)
    l = None if g.coin(.25) else lev(g)
    return Call("wavedec2", pywt.wavedec2, [g.x(s), w.arg], {"mode": mode_for(g, [s[i] for i in can], l or 1, w.F), "level": l, "axes": a}, identity=l in (0, None))


def wdn(g, name, fn, rank=None):
    nd = rank or int(g.rng.integers(1, 4))
    s = g.shape(nd)
    k = int(g.rng.integers(1, nd + 1))
    axes, can = gen.axes_of(g.rng, nd, k)
    if g.coin(.25):
        axes, can = None, tuple(range(nd))
    warg, ws, marg, ms = gen.per_axis(g.rng, len(can), max_len=g.maxf)
    want = lev(g)
    l = safe_level([s[i] for i in can], ws, ms, want)
    return s, warg, marg, l, axes


def c_wavedecn(g):
    s, warg, marg, l, axes = wdn(g, None, None)
    return Call("wavedecn", pywt.wavedecn, [g.x(s), warg, marg, l, axes], identity=l == 0)


def c_wavedecn_shapes(g):
    s, warg, marg, l, axes = wdn(g, None, None)
    return Call("wavedecn_shapes", pywt.wavedecn_shapes, [s, warg, marg, l, axes], data=(), linear=False)


def c_wavedecn_size(g):
    s, warg, marg, l, axes = wdn(g, None, None)
    return Call("wavedecn_size", pywt.wavedecn_size, [pywt.wavedecn_shapes(s, warg, marg, l, axes)], data=(), linear=False)


def some_levels(n, F, mname, want):
    l = 0
    while l < want and not gen.bad_one(n, mname):
        n = ref.coeff_len(n, F, mname)
        l += 1
    return l


def c_waverec(g):
    w = g.w()
    nd = int(g.rng.choice([1, 1, 2, 3]))
    s = g.shape(nd)
    a, can = gen.axis_of(g.rng, nd)
    m, mn = g.mode()
    l = some_levels(s[can], w.F, mn, lev(g))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = g.like(pywt.wavedec(g.x(s), w.arg, m, l, axis=a))
    if l and g.coin(.2):
        c[-1] = None
    return Call("waverec", pywt.waverec, [c if g.coin() else tuple(c), w.arg, m, a], identity=l == 0)


def c_waverec2(g):
    w = g.w()
    nd = int(g.rng.choice([2, 2, 3]))
    s = g.shape(nd)
    a, can = gen.axes_of(g.rng, nd, 2)
    m, mn = g.mode()
    l = min(some_levels(s[i], w.F, mn, lev(g)) for i in can)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = g.like(pywt.wavedec2(g.x(s), w.arg, m, l, axes=a))
    if l and g.coin(.2):
        i = int(g.rng.integers(1, len(c)))
        j = g.rng.integers(3)
        c[i] = tuple(None if q == j else v for q, v in enumerate(c[i]))
    return Call("waverec2", pywt.waverec2, [c if g.coin() else tuple(c), w.arg, m, a], identity=l == 0)


def wavedecn_coeffs(g, rank=None):
    s, warg, marg, l, axes = wdn(g, None, None, rank)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        c = g.like(pywt.wavedecn(g.x(s), warg, marg, l, axes))
    return c, warg, marg, axes, l


def c_waverecn(g):
    c, warg, marg, axes, l = wavedecn_coeffs(g)
    return Call("waverecn", pywt.waverecn, [c if g.coin() else tuple(c), warg, marg, axes], identity=l == 0)


def c_coeffs_to_array(g):
    c, warg, marg, axes, l = wavedecn_coeffs(g)
    return Call("coeffs_to_array", pywt.coeffs_to_array, [c, 0 if g.coin() else float(g.rng.normal()), axes], linear=False, identity=l == 0)


def c_array_to_coeffs(g):
    c, warg, marg, axes, l = wavedecn_coeffs(g)
    a, sl = pywt.coeffs_to_array(c, axes=axes)
    return Call("array_to_coeffs", pywt.array_to_coeffs, [a, sl], {"output_format": "wavedecn"}, view=True)


def c_ravel_coeffs(g):
    c, warg, marg, axes, l = wavedecn_coeffs(g)
    return Call("ravel_coeffs", pywt.ravel_coeffs, [c], {"axes": axes}, identity=l == 0)


def c_unravel_coeffs(g):
    c, warg, marg, axes, l = wavedecn_coeffs(g)
    a, sl, sh = pywt.ravel_coeffs(c, axes=axes)
    return Call("unravel_coeffs", pywt.unravel_coeffs, [a, sl, sh], {"output_format": "wavedecn"}, view=True)


def fsw(g):
    nd = int(g.rng.integers(1, 4))
    s = g.shape(nd)
    axes, can = gen.axes_of(g.rng, nd)
    warg, ws, marg, ms = gen.per_axis(g.rng, len(can), max_len=g.maxf)
    ls = [some_levels(s[a], w.F, m, lev(g, 2, .1)) for a, w, m in zip(can, ws, ms)]
    levels = ls[0] if len(set(ls)) == 1 and g.coin() else tuple(ls)
    return g.x(s), warg, marg, levels, axes


def c_fswavedecn(g):
    x, warg, marg, levels, axes = fsw(g)
    return Call("fswavedecn", pywt.fswavedecn, [x, warg, marg, levels, axes], identity=not np.any(levels))


def c_fswaverecn(g):
    x, warg, marg, levels, axes = fsw(g)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        r = pywt.fswavedecn(x, warg, marg, levels, axes)
    return Call("fswaverecn", pywt.fswaverecn, [g.like(r)], identity=not np.any(levels))


def swt_shape(g, nd, l):
    k = 2 ** l
    return tuple(int(k * g.rng.integers(1, max(2, int({1: 40, 2: 16, 3: 8}[nd] * g.big ** (1 / nd)) // k + 1))) for _ in range(nd))


def swt_kw(g, l):
    kw = {"trim_approx": g.coin(), "norm": g.coin()}
    if g.coin(.2):
        kw["start_level"] = int(g.rng.integers(0, l))
    return kw


def c_swt(g):
    w = g.w()
    l = int(g.rng.integers(1, 4))
    nd = int(g.rng.choice([1, 1, 2, 3]))
    a = gen.axis_of(g.rng, nd)
    s = list(g.shape(nd))
    s[a[1]] = swt_shape(g, 1, l)[0]
    kw = swt_kw(g, l)
    n = None if g.coin(.2) and not kw.get("start_level") else l - kw.get("start_level", 0)
    return Call("swt", pywt.swt, [g.x(s), w.arg, n], {**kw, "axis": a[0]})


def c_swt2(g):
    w = g.w()
    l = int(g.rng.integers(1, 3))
    nd = int(g.rng.choice([2, 2, 3]))
    a = ax(g, nd, 2)
    kw = swt_kw(g, l)
    return Call("swt2", pywt.swt2, [g.x(swt_shape(g, nd, l)), w.arg, l - kw.get("start_level", 0)], {**kw, "axes": a})


def c_swtn(g):
    l = int(g.rng.integers(1, 3))
    nd = int(g.rng.integers(1, 4))
    axes = None if g.coin(.3) else ax(g, nd)
    k = nd if axes is None else len(axes)
    ws = [g.w() for _ in range(k)]
    warg = ws[0].arg if g.coin() else tuple(w.arg for w in ws)
    kw = swt_kw(g, l)
    return Call("swtn", pywt.swtn, [g.x(swt_shape(g, nd, l)), warg, l - kw.get("start_level", 0)], {**kw, "axes": axes})


def c_iswt(g):
    w = g.w()
    l = int(g.rng.integers(1, 4))
    nd = int(g.rng.choice([1, 1, 2]))
    a = gen.axis_of(g.rng, nd)
    s = list(g.shape(nd))
    s[a[1]] = swt_shape(g, 1, l)[0]
    norm = g.coin()
    c = g.like(pywt.swt(g.x(s), w.arg, l, axis=a[0], norm=norm, trim_approx=g.coin()))
    return Call("iswt", pywt.iswt, [c if g.coin() else tuple(c), w.arg, norm, a[0]])


def c_iswt2(g):
    w = g.w()
    l = int(g.rng.integers(1, 3))
    nd = int(g.rng.choice([2, 2, 3]))
    a = ax(g, nd, 2)
    norm = g.coin()
    c = g.like(pywt.swt2(g.x(swt_shape(g, nd, l)), w.arg, l, axes=a, norm=norm, trim_approx=g.coin()))
    return Call("iswt2", pywt.iswt2, [c if g.coin() else tuple(c), w.arg, norm, a])


def c_iswtn(g):
    w = g.w()
    l = int(g.rng.integers(1, 3))
    nd = int(g.rng.integers(1, 4))
    a = ax(g, nd)
    norm = g.coin()
    c = g.like(pywt.swtn(g.x(swt_shape(g, nd, l)), w.arg, l, axes=a, norm=norm, trim_approx=g.coin()))
    return Call("iswtn", pywt.iswtn, [c if g.coin() else tuple(c), w.arg, a, norm])


def mra_args(g, nd, k, swt):
    w = g.w()
    l = int(g.rng.integers(1, 3))
    s = list(swt_shape(g, nd, l)) if swt else list(g.shape(nd))
    m = SAFE[g.rng.integers(len(SAFE))]
    return w, l, s, m


def c_mra(g):
    swt = g.coin()
    nd = int(g.rng.choice([1, 1, 2]))
    w, l, s, m = mra_args(g, nd, 1, swt)
    return Call("mra", pywt.mra, [g.x(s), w.arg, l], {"axis": ax(g, nd, 1)[0], "transform": "swt" if swt else "dwt", "mode": "periodization" if swt else m})


def c_mra2(g):
    swt = g.coin()
    nd = int(g.rng.choice([2, 2, 3]))
    w, l, s, m = mra_args(g, nd, 2, swt)
    return Call("mra2", pywt.mra2, [g.x(s), w.arg, l], {"axes": ax(g, nd, 2), "transform": "swt2" if swt else "dwt2", "mode": "periodization" if swt else m})


def c_mran(g):
    swt = g.coin()
    nd = int(g.rng.integers(1, 4))
    w, l, s, m = mra_args(g, nd, nd, swt)
    return Call("mran", pywt.mran, [g.x(s), w.arg, l], {"axes": ax(g, nd), "transform": "swtn" if swt else "dwtn", "mode": "periodization" if swt else m})


def imra_of(name, f, fi):
    def c(g):
        c0 = f(g)
        comps = g.like(c0.run())
        return Call(name, fi, [comps], identity=False)
    return c


def c_cwt(g):
    name = cw.name(g.rng)[0]
    obj = name if g.coin() else pywt.ContinuousWavelet(name)
    nd = int(g.rng.choice([1, 1, 2]))
    s = g.shape(nd)
    k = int(g.rng.integers(1, 5))
    scales = [float(v) for v in np.exp(g.rng.uniform(.7, 2.5, k))]
    form = [scales, tuple(scales), np.array(scales), scales[0]][g.rng.integers(4)]
    return Call("cwt", pywt.cwt, [g.x(s), form, obj if g.coin() else obj],
                {"method": ["conv", "fft"][g.rng.integers(2)], "axis": ax(g, nd, 1)[0], "sampling_period": float(np.exp(g.rng.normal()))})


def c_threshold(g):
    x = g.x(g.shape(int(g.rng.integers(1, 4))))
    m = ["soft", "hard", "garrote", "garotte"] + (["greater", "less"] if g.dt.kind != "c" else [])
    v = float(abs(g.rng.normal()))
    t = v if g.coin(.7) else np.abs(g.rng.normal(size=x.shape))
    return Call("threshold", pywt.threshold, [x, t, m[g.rng.integers(len(m))], [0, 1.5][g.rng.integers(2)]], linear=False)


def c_threshold_firm(g):
    x = g.x(g.shape(int(g.rng.integers(1, 4))))
    lo = float(abs(g.rng.normal()))
    return Call("threshold_firm", pywt.threshold_firm, [x, lo, lo + [0, 1, np.inf][g.rng.integers(3)]], linear=False)


def c_pad(g):
    nd = int(g.rng.integers(1, 3))
    s = g.shape(nd)
    p = [(int(a), int(b)) for a, b in g.rng.integers(0, 9, (nd, 2))]
    return Call("pad", pywt.pad, [g.x(s), p, ref.MODES[g.rng.integers(9)]])


# ---- packets ---------------------------------------------------------------------------------------------------------

def packet_nodes(data, cls, wavelet, mode, axes, level, order):
    wp = packet(data, cls, wavelet, mode, axes)
    return [np.asarray(n.data) for n in flat_nodes(wp.get_level(level, order) if order else wp.get_level(level))]


def flat_nodes(v):
    return [n for x in v for n in flat_nodes(x)] if isinstance(v, list) else [v]


def packet(data, cls, wavelet, mode, axes):
    if cls == 1:
        return pywt.WaveletPacket(data, wavelet, mode, axis=axes)
    return (pywt.WaveletPacket2D if cls == 2 else pywt.WaveletPacketND)(data, wavelet, mode, axes=axes)


def packet_rebuild(data, cls, wavelet, mode, axes, level):
    wp = packet(data, cls, wavelet, mode, axes)
    wp.get_level(level)
    wp.data = None if False else wp.data
    return np.asarray(wp.reconstruct(update=False))


def packet_walk(data, cls, wavelet, mode, axes, level):
    wp = packet(data, cls, wavelet, mode, axes)
    wp.get_level(level, decompose=True)
    seen = []
    wp.walk(lambda n: (seen.append(np.asarray(n.data)), True)[1] if n.level <= level else True, decompose=False)
    return seen


def packet_args(g):
    cls = int(g.rng.integers(1, 4))
    w = gen.wavelet(g.rng, max_len=10)
    nd = {1: int(g.rng.choice([1, 1, 2])), 2: int(g.rng.choice([2, 2, 3])), 3: int(g.rng.integers(1, 4))}[cls]
    # large enough for the levels asked for, given the packets' own maximum level
    l = int(g.rng.integers(1, 3))
    need = max(2, (w.F - 1) * 2 ** l)
    s = tuple(int(v) + need for v in g.rng.integers(0, 6, nd))
    if np.prod(s) > 20000:
        w = gen.builtin(g.rng, ["haar", "db1", "db2"])
        l = 1
        s = tuple(int(v) for v in g.rng.integers(6, 12, nd))
    if cls == 1:
        axes = gen.axis_of(g.rng, nd)[0]
    else:
        axes = ax(g, nd, 2 if cls == 2 else None)
    m = SAFE[g.rng.integers(len(SAFE))]
    return cls, w, m, axes, l, s


def c_packet_nodes(g):
    cls, w, m, axes, l, s = packet_args(g)
    return Call("WaveletPacket.get_level", packet_nodes, [g.x(s), cls, w.arg, m, axes, l, [None, "natural", "freq"][g.rng.integers(3)] if cls < 3 else None], view=True)


def c_packet_rebuild(g):
    cls, w, m, axes, l, s = packet_args(g)
    return Call("WaveletPacket.reconstruct", packet_rebuild, [g.x(s), cls, w.arg, m, axes, l], view=True)


def c_packet_walk(g):
    cls, w, m, axes, l, s = packet_args(g)
    return Call("WaveletPacket.walk", packet_walk, [g.x(s), cls, w.arg, m, axes, l], view=True)


# ---- functions without signal data -------------------------------------------------------------------------------------

def wavelet_props(name):
    w = pywt.DiscreteContinuousWavelet(name)
    out = [w.name, w.family_name, w.short_family_name, w.symmetry]
    if isinstance(w, pywt.Wavelet):
        out += [w.filter_bank, w.dec_len, w.rec_len, w.orthogonal, w.biorthogonal, w.vanishing_moments_psi, w.vanishing_moments_phi, w.inverse_filter_bank]
    else:
        out += [w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency, w.fbsp_order, w.complex_cwt]
    return out


def c_props(g):
    n = gen.DISCRETE[g.rng.integers(len(gen.DISCRETE))] if g.coin(.7) else cw.name(g.rng)[0]
    return Call("Wavelet attributes", wavelet_props, [n], data=(), linear=False)


def wavefun(name, level):
    return list(pywt.DiscreteContinuousWavelet(name).wavefun(level=level))


def c_wavefun(g):
    if g.coin():
        n = gen.builtin(g.rng, as_object=False, max_len=40).label
    else:
        n = cw.name(g.rng)[0]
    return Call("wavefun", wavefun, [n, int(g.rng.integers(1, 7))], data=(), linear=False)


def c_integrate(g):
    n = gen.builtin(g.rng, max_len=30).arg if g.coin() else cw.name(g.rng)[0]
    return Call("integrate_wavelet", pywt.integrate_wavelet, [n, int(g.rng.integers(4, 9))], data=(), linear=False)


def c_central(g):
    n = gen.builtin(g.rng, max_len=30).arg if g.coin() else cw.name(g.rng)[0]
    return Call("central_frequency", pywt.central_frequency, [n, int(g.rng.integers(4, 9))], data=(), linear=False)


def c_s2f(g):
    n = cw.name(g.rng)[0]
    f = [pywt.scale2frequency, pywt.frequency2scale][g.rng.integers(2)]
    return Call(f.__name__, f, [n, np.exp(g.rng.normal(size=int(g.rng.integers(1, 6)))), 8], data=(), linear=False)


def c_qmf(g):
    x = g.x(2 * g.n(1, 10))
    if x.dtype.kind in "ub":                # the negative of these is meaningless
        x = x.astype("<i4")
    return Call("qmf", pywt.qmf, [x], linear=True)


def c_ofb(g):
    return Call("orthogonal_filter_bank", pywt.orthogonal_filter_bank, [g.x(2 * g.n(1, 10))], linear=False, identity=True)


def c_lens(g):
    k = g.rng.integers(4)
    w = g.w()
    if k == 0:
        return Call("dwt_coeff_len", pywt.dwt_coeff_len, [g.n(1, 200), w.obj() if g.coin() else w.F, g.mode()[0]], data=(), linear=False)
    if k == 1:
        return Call("dwt_max_level", pywt.dwt_max_level, [g.n(1, 500), w.F], data=(), linear=False)
    if k == 2:
        nd = int(g.rng.integers(1, 4))
        return Call("dwtn_max_level", pywt.dwtn_max_level, [g.shape(nd), w.arg, ax(g, nd)], data=(), linear=False)
    return Call("swt_max_level", pywt.swt_max_level, [g.n(1, 500)], data=(), linear=False)


def bank_of(bank):
    w = pywt.Wavelet("bank", filter_bank=bank)
    return w.filter_bank


def c_bank(g):
    L = int(g.rng.integers(1, 12))
    b = [g.rng.normal(size=L) for _ in range(4)]
    if g.coin():
        b = [v.tolist() for v in b]
    return Call("Wavelet(filter_bank)", bank_of, [b if g.coin() else tuple(b)], data=(0,), linear=False)


def c_demo(g):
    n = pywt.data.demo_signal("list")
    n = [v for v in n if v not in ("Gabor", "sineoneoverx")]
    return Call("demo_signal", pywt.data.demo_signal, [n[g.rng.integers(len(n))], g.n(1, 200)], data=(), linear=False)


def c_lists(g):
    f = [lambda: pywt.wavelist(), lambda: pywt.wavelist(kind="discrete"), lambda: pywt.wavelist("db"), lambda: pywt.families(),
         lambda: pywt.families(False), lambda: list(pywt.Modes.modes), lambda: pywt.wavelist(kind="continuous")][g.rng.integers(7)]
    return Call("wavelist/families", f, [], data=(), linear=False)


def c_loader(g):
    n = ["aero", "ascent", "camera", "ecg", "nino"][g.rng.integers(5)]
    return Call("data." + n, getattr(pywt.data, n), [], data=(), linear=False)


TRANSFORMS = {f.__name__[2:]: f for f in (
    c_dwt, c_idwt, c_downcoef, c_upcoef, c_dwt2, c_idwt2, c_dwtn, c_idwtn, c_wavedec, c_waverec, c_wavedec2, c_waverec2, c_wavedecn, c_waverecn,
    c_fswavedecn, c_fswaverecn, c_swt, c_swt2, c_swtn, c_iswt, c_iswt2, c_iswtn, c_mra, c_mra2, c_mran, c_cwt, c_pad)}
TRANSFORMS["imra"] = imra_of("imra", c_mra, pywt.imra)
TRANSFORMS["imra2"] = imra_of("imra2", c_mra2, pywt.imra2)
TRANSFORMS["imran"] = imra_of("imran", c_mran, pywt.imran)
PACKETS = {"packet_nodes": c_packet_nodes, "packet_rebuild": c_packet_rebuild, "packet_walk": c_packet_walk}
PACKING = {f.__name__[2:]: f for f in (c_coeffs_to_array, c_array_to_coeffs, c_ravel_coeffs, c_unravel_coeffs)}
POINTWISE = {"threshold": c_threshold, "threshold_firm": c_threshold_firm}
FILTERS = {"qmf": c_qmf, "orthogonal_filter_bank": c_ofb, "bank": c_bank}
META = {f.__name__[2:]: f for f in (c_wavedecn_shapes, c_wavedecn_size, c_props, c_wavefun, c_integrate, c_central, c_s2f, c_lens, c_demo, c_lists)}
LOADERS = {"loader": c_loader}
WITH_DATA = {**TRANSFORMS, **PACKETS, **PACKING, **POINTWISE}
LINEAR = {**TRANSFORMS, **PACKETS}
ALL = {**WITH_DATA, **FILTERS, **META}


def make(rng, pool=None, name=None, dt="<f8", big=1, maxf=24):
    pool = pool or ALL
    name = name or list(pool)[rng.integers(len(pool))]
    if big == 1 and gen.LONG * gen.WIDE > 1:
        big = gen.log_between(rng, 2, gen.LONG * gen.WIDE)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return pool[name](G(rng, dt, big, maxf))


# ---- monitors over a call ----------------------------------------------------------------------------------------------

def base_of(a):
    while isinstance(a.base, np.ndarray):
        a = a.base
    return a


def wstate(w):
    if isinstance(w, pywt.Wavelet):
        return (w.name, w.filter_bank, w.orthogonal, w.biorthogonal, w.dec_len, w.rec_len, w.symmetry, w.family_name, w.vanishing_moments_psi, w.vanishing_moments_phi)
    return (w.name, w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency, w.fbsp_order, w.complex_cwt, w.symmetry)


def snapshot(v, depth=0):
    """Everything observable of an argument: contents of whole buffers, container identity, order of keys, wavelet settings."""
    if isinstance(v, np.ndarray):
        b = base_of(v)
        return ("array", id(v), v.dtype.str, v.shape, v.strides, v.flags.writeable, v.ravel().tobytes() if v.dtype.kind != "O" else repr(v.ravel().tolist()),
                b.tobytes() if b is not v and b.dtype.kind != "O" else None)
    if isinstance(v, (list, tuple)):
        return (type(v), id(v), [snapshot(x, depth + 1) for x in v])
    if isinstance(v, dict):
        return (type(v), id(v), [(k, snapshot(x, depth + 1)) for k, x in v.items()])
    if isinstance(v, pywt.FswavedecnResult):
        return ("fsw", id(v), snapshot(v.coeffs), repr(v.coeff_slices), repr(v.axes), v.modes, [wstate(w) for w in v.wavelets])
    if isinstance(v, (pywt.Wavelet, pywt.ContinuousWavelet)):
        return ("wavelet", id(v), wstate(v))
    return ("value", repr(v))


def snap_call(c):
    return [snapshot(a) for a in c.args] + [(k, snapshot(v)) for k, v in c.kw.items()]


def snap_diff(a, b, path="arguments"):
    if a == b:
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = snap_diff(x, y, f"{path}[{i}]")
            if d:
                return d
    s, t = repr(a), repr(b)
    i = next((k for k in range(min(len(s), len(t))) if s[k] != t[k]), 0)
    return f"{path}: ...{s[max(0, i - 60):i + 60]} became ...{t[max(0, i - 60):i + 60]}"


def bind(c):
    """(BoundArguments of the call) or None for callables without a signature."""
    import inspect
    try:
        return inspect.signature(c.fn).bind(*c.args, **c.kw)
    except (TypeError, ValueError):
        return None


HOSTILE = [None, "", "x", "nope", b"db2", 0, -1, 1, 2, 7, 10 ** 6, -10 ** 9, 2 ** 31, 2 ** 63, -2 ** 63, 2 ** 70, 1.5, float("nan"), float("inf"), 1j, True, (), [], {}, (0,),
           (0, 0), (0, 1), (1, 0), [-1], (5,), (-7, 2), ("a",), [None], object(), Ellipsis, slice(None), "db2", "haar", "dmey", "cmor1.5-1.0", "symmetric",
           ("db1", "db3"), [["haar"]], "periodization", np.float32(2), np.int8(1), np.array(3), np.array([1, 2]), np.zeros((0,)), lambda *a: 0, range(3), set()]


def quiet(f):
    def g(*a, **k):
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            return f(*a, **k)
    return g


def hostile_array(rng, a, deep=False):
    k = rng.integers(22)
    if k == 0:
        return a[..., :0]
    if k == 1:
        return a[:0]
    if k == 2:
        return a[..., :1]
    if k == 3:
        return a[:1]
    if k == 4:
        return a.reshape(a.shape + (1,))
    if k == 5:
        return a.ravel()
    if k == 6:
        return np.asarray(a.flat[0]) if a.size else np.asarray(1.0)
    if k == 7:
        return a.astype(object)
    if k == 8:
        return a.astype(str)
    if k == 9:
        return np.full(a.shape, np.nan)
    if k == 10:
        return a * np.inf
    if k == 11:
        return a.tolist()
    if k == 12:
        return np.zeros(a.shape, [("a", "f8"), ("b", "i4")])
    if k == 13:
        return np.zeros(a.shape, "M8[s]")
    if k == 14:
        return None
    if k == 15:
        return np.concatenate([a, a[:1]]) if a.ndim else a
    if k == 16:
        return a[..., ::2]
    if k == 17:
        return np.broadcast_to(a.flat[0] if a.size else 1.0, a.shape)
    if k == 18:
        return np.ma.masked_array(a, mask=np.zeros(a.shape, bool)) if a.dtype.kind in "fc" else a
    if k == 19:
        return a.reshape((1,) * int(rng.integers(1, 28 if deep else 3)) + a.shape)
    if k == 20:
        return a.astype(["|u1", "|b1", "<f2", "<f16", "<c32", ">f8", "|i1", ">c8"][rng.integers(8)])
    return a.T


DEEP = ("dwt", "idwt", "dwt2", "idwt2", "wavedec", "waverec", "swt", "swt2", "iswt", "cwt", "threshold", "threshold_firm", "downcoef", "upcoef", "mra", "mra2")


@quiet
def hostile(rng, c):
    """The call with one to three arguments moved to the edge of the domain or beyond."""
    b = bind(c)
    args, kw = list(c.args), dict(c.kw)
    for _ in range(int(rng.choice([1, 1, 2, 3]))):
        arr = c.data and rng.random() < .45
        if arr:
            i = c.data[rng.integers(len(c.data))]
            v = args[i]
            n = len(arrays(v))
            hit = set(rng.permutation(max(n, 1))[:int(rng.integers(1, 3))].tolist())
            cnt = [-1]

            def f(a):
                cnt[0] += 1
                return hostile_array(rng, a, c.name in DEEP) if cnt[0] in hit else a
            try:
                if n:
                    args[i] = mapa(v, f)
                if isinstance(args[i], list) and len(args[i]) and rng.random() < .35:
                    j = int(rng.integers(len(args[i])))
                    op = rng.integers(5)
                    l = list(args[i])
                    if op == 0:
                        l.pop(j)
                    elif op == 1:
                        l.insert(j, l[j])
                    elif op == 2:
                        l.reverse()
                    elif op == 3:
                        l[j] = HOSTILE[rng.integers(len(HOSTILE))]
                    else:
                        l = l[:1]
                    args[i] = l
                elif isinstance(args[i], dict) and args[i] and rng.random() < .35:
                    d = dict(args[i])
                    key = list(d)[rng.integers(len(d))]
                    op = rng.integers(4)
                    if op == 0:
                        d.pop(key)
                    elif op == 1:
                        d[["q", "", "aaaa", 3, "A", None][rng.integers(6)]] = d[key]
                    elif op == 2:
                        d[key] = HOSTILE[rng.integers(len(HOSTILE))]
                    else:
                        d = {}
                    args[i] = d
            except Exception:
                pass
        else:
            names = list(range(len(args))) + list(kw)
            if b is not None and rng.random() < .3:
                names += [n for n in b.signature.parameters if n not in b.arguments]
            if not names:
                continue
            n = names[rng.integers(len(names))]
            v = HOSTILE[rng.integers(len(HOSTILE))]
            if rng.random() < .2:
                v = tuple(HOSTILE[q] for q in rng.integers(0, len(HOSTILE), int(rng.integers(1, 4))))
            if isinstance(n, int):
                args[n] = v
            else:
                kw[n] = v
    h = c.with_args(args, kw)
    h.note = "hostile"
    return bounded(h)


HUGE_OK = {"axis", "axes", "mode", "wavelet", "part", "take", "value", "value_low", "value_high", "substitute", "norm", "trim_approx", "transform",
           "method", "sampling_period", "order", "output_format", "filter_len", "data_len", "padding", "input_len"}


def smaller(v):
    if isinstance(v, np.ndarray) and v.ndim == 0 and v.dtype.kind == "i":
        return v[()]                 # (`level -= 1` on a 0-d array would count as modifying the argument)
    if isinstance(v, (bool, np.ndarray)):
        return v
    if isinstance(v, (int, np.integer)) and abs(v) > 12:
        return 9 if v > 0 else -9
    if isinstance(v, (float, np.floating)) and abs(v) > 1e4:
        return 9.0
    if type(v) in (list, tuple):
        return type(v)(smaller(x) for x in v)
    return v


def bounded(c):
    """Numbers that ask for unbounded work (levels, lengths, precisions) are kept small; everything else stays hostile."""
    names = []
    try:
        import inspect
        names = list(inspect.signature(c.fn).parameters)
    except (TypeError, ValueError):
        pass
    ok = set(HUGE_OK) | ({"level", "start_level"} if c.name.startswith("swt") else set())

    def keep(n, v, data):
        if data or n in ok:
            return v
        return smaller(v)
    args = [keep(names[i] if i < len(names) else "", a, i in c.data) for i, a in enumerate(c.args)]
    return c.with_args(args, {k: keep(k, v, False) for k, v in c.kw.items()})
