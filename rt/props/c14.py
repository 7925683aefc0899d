"""C14: Wavelet and ContinuousWavelet objects are values."""
import copy
import gc
import pickle

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family

FILTERS = ("dec_lo", "dec_hi", "rec_lo", "rec_hi")
D_ATTR = ("name", "dec_len", "rec_len", "family_number", "family_name", "short_family_name", "orthogonal", "biorthogonal",
          "symmetry", "vanishing_moments_psi", "vanishing_moments_phi", "filter_bank")
C_ATTR = ("name", "family_number", "family_name", "short_family_name", "orthogonal", "biorthogonal", "complex_cwt",
          "lower_bound", "upper_bound", "center_frequency", "bandwidth_frequency", "fbsp_order", "symmetry")


class WithAttr:
    def __init__(self, bank):
        self.filter_bank = bank


class WithProp:
    def __init__(self, bank):
        self._b = bank

    @property
    def filter_bank(self):
        return self._b


class WithMethod:
    def __init__(self, bank):
        self._b = bank

    def get_filters_coeffs(self):
        return self._b


def bank(rng):
    L = int(rng.choice([1, 2, 2, 3, 4, 4, 5, 6, 7, 8, int(rng.integers(9, 40)), int(rng.integers(40, 130))]))
    b = rng.normal(size=(4, L))
    if rng.random() < .2:
        b = np.round(b * 4)
    if rng.random() < .15:
        b = b * 10.0 ** rng.integers(-12, 12)
    return b


FORMS = ["lists", "tuple", "arrays", "2-D array", "float32", "ints", "attr", "prop", "method", "wavelet", "views", "mixed"]


def present(rng, b, form):
    """(the filter_bank argument, its values, the mutable parts inside)"""
    if form == "float32":
        b = b.astype(np.float32)
    if form == "ints":
        b = np.round(np.clip(b * 4, -1e9, 1e9)).astype(np.int64)
    val = b.astype(np.float64)
    if form in ("lists", "attr", "prop", "method"):
        inner = [r.tolist() for r in b]
    elif form == "tuple":
        inner = [r.tolist() for r in b]
        return tuple(inner), val, inner
    elif form == "2-D array":
        a = b.copy()
        return a, val, [a[i] for i in range(4)]
    elif form == "views":
        inner = [gen.layout(rng, r, ["neg", "step", "offset", "mixed"][rng.integers(4)]) for r in b]
    elif form == "mixed":
        inner = [r.tolist() if rng.random() < .5 else r.copy() for r in b]
    elif form == "wavelet":
        return pywt.Wavelet("source", [r.tolist() for r in b]), val, []
    else:
        inner = [r.copy() for r in b]
    outer = inner
    if form == "attr":
        outer = WithAttr(inner)
    elif form == "prop":
        outer = WithProp(inner)
    elif form == "method":
        outer = WithMethod(inner)
    return outer, val, inner


def padded(val):
    return [list(map(float, r)) + [0.0] * (len(r) % 2) for r in val]


def scramble(parts):
    for p in parts:
        for i in range(len(p)):
            p[i] = -77


def expect(w):
    """Everything observable about a wavelet object."""
    if isinstance(w, pywt.Wavelet):
        return {k: getattr(w, k) for k in D_ATTR}
    return {k: getattr(w, k) for k in C_ATTR}


def drives(ctx, w, fb, label):
    """The object's filters are those the kernels use, in both precisions."""
    rng = ctx.rng
    n = int(rng.integers(2, 3 * fb.dec_len + 6))
    m = gen.mode(rng)[1]
    dt = gen.FLOATS[rng.integers(4)]
    x = gen.data(rng, n, dt)
    xn = gen.native(x)
    if gen.bad_one(n, m):
        return
    s = np.max(np.abs(xn)) * gen.gain(fb) * gen.ext_growth(m, n, fb.dec_len)
    for got, e in zip(ctx.call(pywt.dwt, x, w, m), ref.dwt(xn, fb, m)):
        ctx.close(got, e, "filters used by dwt", f"{label} {m} n={n} {dt}", scale=s, dtype=gen.out_dtype(dt), factor=2 * fb.dec_len + 32)
    k = fb.dec_len // 2 + int(rng.integers(0, 8))
    a, d = gen.data(rng, k, dt), gen.data(rng, k, dt)
    an, dn = gen.native(a), gen.native(d)
    if m == "periodization" or 2 * k - fb.dec_len + 2 > 0:
        ctx.close(ctx.call(pywt.idwt, a, d, w, m), ref.idwt(an, dn, fb, m), "filters used by idwt", f"{label} {m} k={k} {dt}",
                  scale=(np.max(np.abs(an)) + np.max(np.abs(dn))) * gen.rgain(fb), dtype=gen.out_dtype(dt),
                  factor=2 * fb.dec_len + 32)


def custom(ctx):
    rng = ctx.rng
    b = bank(rng)
    form = FORMS[rng.integers(len(FORMS))]
    arg, val, parts = present(rng, b, form)
    name = ["", "mine", "HaAr", "db2", "ünïcode"][rng.integers(5)]
    ctx.sig(form, b.shape, name)
    w = ctx.call(pywt.Wavelet, name, arg) if rng.random() < .5 else ctx.call(pywt.Wavelet, name=name, filter_bank=arg)
    ctx.see("form " + form)
    want = padded(val)
    F = len(want[0])

    def check(o, what):
        for f, e in zip(FILTERS, want):
            ctx.check(getattr(o, f) == e, "reported filters", lambda: f"{what}: {f} is {getattr(o, f)}, given {e}")
        ctx.equal((len(o), o.dec_len, o.rec_len), (F, F, F), "length", what)
        ctx.equal(o.name, name, "name", what)
        ctx.equal((o.family_number, o.orthogonal, o.biorthogonal), (None, False, False), "custom metadata", what)
    check(w, "after construction")
    scramble(parts)
    check(w, "after the arrays it was built from were overwritten")
    for f in FILTERS:
        scramble([getattr(w, f)])
    scramble(w.filter_bank)
    scramble(w.inverse_filter_bank)
    check(w, "after the lists it reported were overwritten")
    fb = ref.FB(want, name)
    drives(ctx, w, fb, form)
    flags = (bool(rng.integers(2)), bool(rng.integers(2)))
    w2 = ctx.call(pywt.Wavelet, name, w)
    w2.orthogonal, w2.biorthogonal = flags
    check(w, "after a wavelet built from it was changed")
    for how, c in copies(ctx, w2):
        ctx.same(expect(c), expect(w2), "copy", f"{how} of a custom wavelet")
        ctx.equal((c.orthogonal, c.biorthogonal), flags, "copied flags", how)
        drives(ctx, c, fb, how)
    del w
    gc.collect()
    drives(ctx, w2, fb, "after the wavelet it was built from was deleted")


def copies(ctx, w):
    how = ctx.rng.integers(4)
    if how == 0:
        return [("copy.copy", ctx.call(copy.copy, w))]
    if how == 1:
        return [("copy.deepcopy", ctx.call(copy.deepcopy, w))]
    if how == 2:
        return [("deepcopy in a container", ctx.call(copy.deepcopy, {"a": [w]})["a"][0])]
    p = int(ctx.rng.integers(2, pickle.HIGHEST_PROTOCOL + 1))
    return [(f"pickle protocol {p}", ctx.call(pickle.loads, ctx.call(pickle.dumps, w, p)))]


CW = [n for n in gen.CONTINUOUS if n not in ("cmor", "shan", "fbsp")] + \
     ["cmor1.5-1.0", "cmor0.7-0.3", "cmor2-1", "shan1.5-1.0", "shan0.5-2", "fbsp2-1.0-0.5", "fbsp1-1.5-1.0", "fbsp3-0.5-2"]
SETTABLE = {"orthogonal": "b", "biorthogonal": "b", "complex_cwt": "b", "lower_bound": "lo", "upper_bound": "hi",
            "center_frequency": "f", "bandwidth_frequency": "f", "fbsp_order": "i"}


def close_attr(a, b):
    if isinstance(a, float) and isinstance(b, (float, int)) and not isinstance(b, bool):
        return abs(a - b) <= 1e-6 * max(1.0, abs(b))
    return a == b


def history(ctx):
    """A random history of a pool of wavelet objects; after each step every object must match its model."""
    rng = ctx.rng
    pool = []                   # (object, model dict)
    base_d = gen.DISCRETE[rng.integers(len(gen.DISCRETE))]
    base_c = CW[rng.integers(len(CW))]
    steps = int(rng.integers(6, 24))
    ctx.sig(base_d, base_c, steps, ctx.index)
    fresh_d, fresh_c = expect(pywt.Wavelet(base_d)), expect(pywt.ContinuousWavelet(base_c))
    for step in range(steps):
        op = ["new", "newc", "set", "set", "setc", "setc", "copy", "use", "read", "del", "custom"][rng.integers(11)]
        ds = [p for p in pool if isinstance(p[0], pywt.Wavelet)]
        cs = [p for p in pool if not isinstance(p[0], pywt.Wavelet)]
        if op == "new" or not pool:
            w = ctx.call([pywt.Wavelet, pywt.DiscreteContinuousWavelet][rng.integers(2)], gen.rand_case(rng, base_d))
            pool.append((w, dict(fresh_d)))
        elif op == "newc":
            w = ctx.call([pywt.ContinuousWavelet, pywt.DiscreteContinuousWavelet][rng.integers(2)], gen.rand_case(rng, base_c))
            pool.append((w, dict(fresh_c)))
        elif op == "set" and ds:
            w, m = ds[rng.integers(len(ds))]
            k = ["orthogonal", "biorthogonal"][rng.integers(2)]
            v = int(rng.choice([0, 1, 1, 0, 5]))
            setattr(w, k, v)
            m[k] = bool(v)
            ctx.see("set " + k)
        elif op == "setc" and cs:
            w, m = cs[rng.integers(len(cs))]
            k = list(SETTABLE)[rng.integers(len(SETTABLE))]
            t = SETTABLE[k]
            v = {"b": bool(rng.integers(2)), "lo": float(np.round(rng.uniform(-9, -1), 3)), "f": float(np.round(rng.uniform(.2, 3), 3)),
                 "hi": float(np.round(rng.uniform(1, 9), 3)), "i": int(rng.integers(1, 6))}[t]
            setattr(w, k, v)
            m[k] = v
            ctx.see("set " + k)
        elif op == "copy":
            w, m = pool[rng.integers(len(pool))]
            how, c = copies(ctx, w)[0]
            pool.append((c, dict(m)))
            ctx.see("copies")
        elif op == "use":
            w, m = pool[rng.integers(len(pool))]
            if isinstance(w, pywt.Wavelet):
                x = rng.normal(size=40)
                ctx.call(pywt.dwt, x, w)
                ctx.call(pywt.wavedec, x, w, level=1)
                ctx.call(w.wavefun, 2)
                str(w), repr(w)
            elif m["complex_cwt"] == fresh_c["complex_cwt"]:
                ctx.call(pywt.cwt, rng.normal(size=30), [2.0, 3.5], w)
                ctx.call(w.wavefun, 5)
                str(w), repr(w)
        elif op == "read":
            w, m = pool[rng.integers(len(pool))]
            if isinstance(w, pywt.Wavelet):
                scramble(w.filter_bank)
                scramble(w.inverse_filter_bank)
            elif m["complex_cwt"] == fresh_c["complex_cwt"]:
                for a in w.wavefun(4):
                    a[...] = 0
        elif op == "custom":
            src = ds[rng.integers(len(ds))][0] if ds else pywt.Wavelet(base_d)
            w = ctx.call(pywt.Wavelet, "copy of " + base_d, src)
            m = expect(w)
            ctx.equal(m["filter_bank"], src.filter_bank, "custom from wavelet", base_d)
            pool.append((w, m))
        elif op == "del" and len(pool) > 1:
            pool.pop(int(rng.integers(len(pool))))
            gc.collect()
        if len(pool) > 7:
            pool.pop(0)
        for w, m in pool:
            got = expect(w)
            for k, v in m.items():
                ctx.check(close_attr(got[k], v), "state:" + k,
                          lambda: f"after step {step} ({op}) {k} of {w.name or 'custom'} is {got[k]!r}, expected {v!r}")
        ctx.see("history steps")
    got = expect(pywt.Wavelet(base_d)), expect(pywt.ContinuousWavelet(base_c))
    ctx.same(got[0], fresh_d, "fresh object", base_d)
    ctx.same(got[1], fresh_c, "fresh object", base_c)


def behaviour(ctx):
    """Copies and equal-named objects give bit-identical results."""
    rng = ctx.rng
    if rng.random() < .5:
        w = gen.wavelet(rng)
        o = w.obj()
        ctx.sig("discrete", w.label)
        x = gen.data(rng, int(rng.integers(2, 60)), gen.FLOATS[rng.integers(4)])
        lev = int(rng.integers(1, 5))

        def run(v):
            return [pywt.dwt(x, v), pywt.wavedec(x, v, level=2), v.wavefun(lev), pywt.swt(np.resize(x, 8), v, 1),
                    pywt.upcoef("d", x, v, level=2)]
        others = [("copy", copies(ctx, o)[0][1])]
        if w.label in gen.GOLD["discrete"]:
            others += [("object of the same name", pywt.Wavelet(gen.rand_case(rng, w.label)))]
        if w.label in gen.GOLD["discrete"] and o.orthogonal == pywt.Wavelet(w.label).orthogonal:
            r = run(o)
            ctx.same(pywt.dwt(x, w.label), r[0], "by name", w.label)
    else:
        name = CW[rng.integers(len(CW))]
        dt = [np.float64, np.float32][rng.integers(2)]
        o = ctx.call(pywt.ContinuousWavelet, name, dt)
        if rng.random() < .6:
            o.lower_bound, o.upper_bound = float(rng.uniform(-9, -2)), float(rng.uniform(2, 9))
        if rng.random() < .6 and name[:4] in ("cmor", "shan", "fbsp"):
            o.center_frequency, o.bandwidth_frequency = float(rng.uniform(.3, 2)), float(rng.uniform(.3, 2))
            if name[:4] == "fbsp":
                o.fbsp_order = int(rng.integers(1, 5))
        ctx.sig("continuous", name, str(np.dtype(dt)))
        x = rng.normal(size=int(rng.integers(5, 60)))

        def run(v):
            return [v.wavefun(6), v.wavefun(length=50), pywt.cwt(x, [1.5, 3], v), pywt.central_frequency(v),
                    pywt.integrate_wavelet(v, 7)]
        others = [("copy", copies(ctx, o)[0][1])]
    e = ctx.call(run, o)
    for what, v in others:
        ctx.same(ctx.call(run, v), e, "behaviour of " + what, f"{what} of {o.name or 'custom'}")
        ctx.same(expect(v), expect(o), "attributes of " + what, f"{what} of {o.name or 'custom'}")
    ctx.same(ctx.call(run, o), e, "behaviour", "the same object again")
    if isinstance(o, pywt.ContinuousWavelet):
        for i in range(2):
            ctx.equal(others[0][1].wavefun(4)[i].dtype, o.wavefun(4)[i].dtype, "dtype", "wavefun of a copy")


def malformed(ctx):
    rng = ctx.rng
    kind = ["count", "count", "unequal", "zero", "one empty", "text", "none", "2d", "scalar", "object", "bad attr", "number", "ragged"]
    kind = kind[rng.integers(len(kind))]
    L = int(rng.integers(1, 12))
    b = rng.normal(size=(4, L)).tolist()
    if kind == "count":
        n = int(rng.choice([0, 1, 2, 3, 5, 6, 8]))
        b = rng.normal(size=(n, L)).tolist()
    elif kind == "unequal":
        i = int(rng.integers(4))
        b[i] = b[i] + [1.0] * int(rng.integers(1, 3))
    elif kind == "zero":
        b = [[], [], [], []]
    elif kind == "one empty":
        b[int(rng.integers(4))] = []
    elif kind == "text":
        b[int(rng.integers(4))][int(rng.integers(L))] = "x"
    elif kind == "none":
        b[int(rng.integers(4))] = None
    elif kind == "2d":
        b[int(rng.integers(4))] = [b[0]]
    elif kind == "scalar":
        b[int(rng.integers(4))] = 1.0
    elif kind == "object":
        b[int(rng.integers(4))] = object()
    elif kind == "bad attr":
        b = WithAttr(rng.normal(size=(int(rng.choice([0, 1, 2, 3, 5])), L)).tolist())
    elif kind == "number":
        b = float(rng.normal())
    elif kind == "ragged":
        b[int(rng.integers(4))] = [[1.0], [1.0, 2.0]]
    wrap = rng.integers(4)
    if kind not in ("bad attr", "number") and wrap:
        b = [None, WithAttr, WithProp, WithMethod][wrap](b)
    ctx.sig(kind, L, int(wrap))
    ctx.raises(pywt.Wavelet, "bad", b, exc=(ValueError, TypeError), key="malformed bank accepted")
    ctx.see("malformed " + kind)
    ctx.raises(pywt.Wavelet, exc=(ValueError, TypeError))
    for bad in ("", "nope", "db0", "db39", "sym1", "haar1", 5, None, b"haar", ["haar"], 1.5):
        ctx.raises(pywt.Wavelet, bad, exc=(ValueError, TypeError, AttributeError), key="bad name accepted")
    ctx.raises(pywt.Wavelet, "morl", exc=ValueError)
    ctx.raises(pywt.ContinuousWavelet, "haar", exc=ValueError)
    ctx.raises(pywt.ContinuousWavelet, "morl", [np.complex128, np.int32, "<f2", np.longdouble][rng.integers(4)], exc=(ValueError, TypeError))
    o = pywt.Wavelet("db2")
    for a in ("dec_lo", "filter_bank", "dec_len", "symmetry", "family_name", "vanishing_moments_psi"):
        ctx.raises(setattr, o, a, 3, exc=(AttributeError, TypeError), key="read-only attribute was set")
    ctx.same(expect(o), expect(pywt.Wavelet("db2")), "unchanged", "after rejected assignments")


FAMILIES = [Family(custom, 1500, 60000), Family(history, 700, 30000), Family(behaviour, 1200, 40000), Family(malformed, 400, 10000)]
