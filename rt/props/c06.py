"""C06: coeffs_to_array / array_to_coeffs / ravel_coeffs / unravel_coeffs."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family
from rt.props.c02 import MAXF, rt_close, level_scale
from rt.props.c05 import shapes_model


def rebuild(shapes, rng, dt, unique):
    """Coefficients of the given shapes holding distinct values."""
    n = int(np.prod(shapes[0])) + sum(int(np.prod(s)) for d in shapes[1:] for s in d.values())
    v = np.arange(1, n + 1) if unique else rng.normal(size=n)
    v = v.astype(dt)
    if dt.kind == "c":
        v = v * (1 - 2j)
        v = v.astype(dt)
    out, pos = [], 0

    def take(s):
        nonlocal pos
        k = int(np.prod(s))
        pos += k
        return v[pos - k:pos].reshape(s).copy()
    out.append(take(shapes[0]))
    for d in shapes[1:]:
        out.append({q: take(s) for q, s in d.items()})
    return out, n


def mix(ctx, c, dt):
    """Now and then the arrays of a list differ in dtype (a user quantised some, made others complex ...): none may lose values."""
    rng = ctx.rng
    r = rng.random()
    if r < .1:
        d = np.dtype(["<i4", "<i8", "<i2", "<f2", "|u1"][rng.integers(5)])
        c = [(np.abs(v) % 100).astype(d) for v in c[:1]] + [{q: (np.abs(v) % 100).astype(d) for q, v in e.items()} for e in c[1:]]
        ctx.see("integer coefficients" if d.kind != "f" else "half precision coefficients")
        return c, d
    if r > .25 or len(c) < 2:
        return c, dt
    pool = [np.dtype(t) for t in ("<f4", "<f8", "<c8", "<c16", "<i4")]
    used = []

    def cast(v):
        t = pool[rng.integers(5)]
        used.append(t)
        v = v.real if t.kind != "c" else v * (1 + 1j)
        return (v + (.1 if t.kind != "i" else 0)).astype(t)
    c = [cast(c[0])] + [{q: cast(v) for q, v in e.items()} for e in c[1:]]
    ctx.see("arrays of different dtype")
    return c, np.result_type(*used)


def fits_in(v, dt):
    return np.ascontiguousarray(v).astype(dt)


def to_format(c, fmt):
    if fmt == "wavedec":
        return [c[0]] + [d["d"] for d in c[1:]]
    if fmt == "wavedec2":
        return [c[0]] + [(d["da"], d["ad"], d["dd"]) for d in c[1:]]
    return [c[0]] + [dict(d) for d in c[1:]]


def from_format(c, fmt):
    if fmt == "wavedec":
        return [c[0]] + [{"d": d} for d in c[1:]]
    if fmt == "wavedec2":
        return [c[0]] + [{"da": d[0], "ad": d[1], "dd": d[2]} for d in c[1:]]
    return c


def pairs(c):
    yield (0, ""), c[0]
    for i, d in enumerate(c[1:], 1):
        for q in d:
            yield (i, q), d[q]


def structure(ctx, real=False):
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    k = int(rng.integers(1, min(nd, 3) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    if k == nd and rng.random() < .4:
        axp, ax = None, tuple(range(nd))
    warg, ws, marg, ms = gen.per_axis(rng, k, real or None, MAXF[k])
    shape = list(gen.shape_nd(rng, nd, hi=30, cap=900))
    for a, m in zip(ax, ms):
        if gen.bad_one(shape[a], m):
            shape[a] = int(rng.integers(2, 7))
    lev = gen.ok_levels([shape[a] for a in ax], ws, ms, gen.depth(rng, 0, 5, 10))
    fmt = "wavedecn"
    if k == 1 and nd == 1 and rng.random() < .6:
        fmt = "wavedec"
    elif k == 1 and nd > 1 and rng.random() < .5:
        fmt = "wavedec"
    elif k == 2 and rng.random() < .5:
        fmt = "wavedec2"
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    return shape, axp, ax, warg, ws, marg, ms, lev, fmt, dt


def fits(ctx, shapes):
    return True


def to_array(ctx):
    rng = ctx.rng
    shape, axp, ax, warg, ws, marg, ms, lev, fmt, dt = structure(ctx)
    if fmt == "wavedec" and len(shape) > 1:
        fmt = "wavedecn"        # n-D wavedec lists are not accepted by the packing functions
    shapes = shapes_model(shape, ws, ms, ax, lev)
    unique = rng.random() < .8
    c, n = rebuild(shapes, rng, dt, unique)
    c, dt = mix(ctx, c, dt)
    pad = [0, 7.5, -1, np.nan, np.inf][rng.integers(5)] if dt.kind not in "iu" else int(rng.integers(0, 9))
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, fmt, dt.str, str(pad))
    lst = to_format(c, fmt)
    arr, sl = ctx.call(pywt.coeffs_to_array, lst, padding=pad, axes=axp)
    what = f"{ws} {ms} {shape} axes {axp} level {lev} {fmt}"
    ctx.equal(arr.dtype, dt, "array:dtype", what)
    ctx.equal(len(sl), lev + 1, "slices:levels", what)
    # expected extents
    size = list(shapes[0])
    for d in shapes[1:]:
        for i, a in enumerate(ax):
            size[a] += d["d" * len(ax)][a]
    ctx.equal(list(arr.shape), size, "array:shape", what)
    used = np.zeros(arr.shape, int)
    for (i, q), v in pairs(c):
        s = sl[0] if i == 0 else sl[i][q]
        ctx.same(np.ascontiguousarray(arr[s]), fits_in(v, dt), "array:content", f"{what}: entry {i} {q}")
        used[s] += 1
        ctx.see("subbands located")
    ctx.check(used.max() <= 1, "array:overlap", lambda: f"{what}: {int((used > 1).sum())} elements used twice")
    ctx.equal(int(used.sum()), n, "array:count", what)
    rest = arr[used == 0]
    if lev:
        want = np.asarray(pad).astype(dt)
        ctx.check(bool(np.all((rest == want) | ((rest != rest) & (want != want)))), "array:padding", lambda: f"{what}: padding {rest[:5]}")
    if lev:
        ctx.equal([sorted(d) for d in sl[1:]], [sorted(d) for d in c[1:]], "slices:keys", what)
    if rest.size:
        ctx.see("padded")
        ctx.raises(pywt.coeffs_to_array, lst, padding=None, axes=axp, key="ragged-accepted")
    else:
        ctx.see("tight")
        arr2, _ = ctx.call(pywt.coeffs_to_array, lst, padding=None, axes=axp)
        ctx.same(np.ascontiguousarray(arr2), np.ascontiguousarray(arr), "array:tight", what)
    fmts = ["wavedecn"] + (["wavedec"] if len(ax) == 1 else []) + (["wavedec2"] if len(ax) == 2 else [])
    for f in fmts:
        back = ctx.call(pywt.array_to_coeffs, arr, sl, output_format=f)
        ctx.equal(len(back), lev + 1, "back:levels", what)
        d = from_format(back, f)
        for (i, q), v in pairs(c):
            g = d[0] if i == 0 else d[i][q]
            ctx.same(np.ascontiguousarray(g), fits_in(v, dt), "back:content", f"{what}: {f} entry {i} {q}")
    if lev:
        ctx.raises(pywt.array_to_coeffs, arr, sl, output_format="wavelet")
    ctx.raises(pywt.array_to_coeffs, arr, [])


def ravel(ctx):
    rng = ctx.rng
    shape, axp, ax, warg, ws, marg, ms, lev, fmt, dt = structure(ctx)
    if fmt == "wavedec" and len(shape) > 1:
        fmt = "wavedecn"
    shapes = shapes_model(shape, ws, ms, ax, lev)
    c, n = rebuild(shapes, rng, dt, True)
    c, dt = mix(ctx, c, dt)
    if rng.random() < .4:
        c = [gen.layout(rng, c[0], "neg")] + [{q: gen.layout(rng, v, ["F", "step", "neg", "C"][rng.integers(4)]) for q, v in d.items()} for d in c[1:]]
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, fmt, dt.str)
    what = f"{ws} {ms} {shape} axes {axp} level {lev} {fmt}"
    arr, sl, shp = ctx.call(pywt.ravel_coeffs, to_format(c, fmt), axes=axp)
    ctx.equal(arr.shape, (n,), "ravel:size", what)
    ctx.equal(arr.dtype, dt, "ravel:dtype", what)
    used = np.zeros(n, int)
    for (i, q), v in pairs(c):
        s, sh = (sl[0], shp[0]) if i == 0 else (sl[i][q], shp[i][q])
        ctx.equal(tuple(sh), v.shape, "ravel:shape", what)
        ctx.same(arr[s].reshape(sh), fits_in(v, dt), "ravel:content", f"{what}: entry {i} {q}")
        used[s] += 1
        ctx.see("subbands located")
    ctx.check(bool(np.all(used == 1)), "ravel:partition", lambda: f"{what}: elements used {used.min()}..{used.max()} times")
    if lev:
        # equal dictionaries, whatever the order they were filled in, give the same vector
        alt = ctx.call(pywt.ravel_coeffs, [c[0]] + [{q: d[q] for q in list(d)[::-1]} for d in c[1:]], axes=axp)
        ctx.same(alt[0], arr, "ravel:order", what)
        ctx.equal(alt[1:], (sl, shp), "ravel:order-slices", what)
    names = {1: ["wavedec", "swt"], 2: ["wavedec2", "swt2"]}.get(len(ax), []) + ["wavedecn", "swtn"]
    for f in names:
        back = ctx.call(pywt.unravel_coeffs, arr, sl, shp, output_format=f)
        d = from_format(back, {"swt": "wavedec", "swt2": "wavedec2"}.get(f, f))
        ctx.equal(len(d), lev + 1, "unravel:levels", what)
        for (i, q), v in pairs(c):
            g = d[0] if i == 0 else d[i][q]
            ctx.same(np.ascontiguousarray(g), fits_in(v, dt), "unravel:content", f"{what}: {f} entry {i} {q}")
    if lev:
        ctx.raises(pywt.unravel_coeffs, arr, sl, shp, output_format="bogus")
        ctx.raises(pywt.unravel_coeffs, arr, sl, shp[:-1])
    ctx.raises(pywt.unravel_coeffs, arr, [], [])


def reconstruct(ctx):
    """Forward transform, pack, unpack, inverse: same signal as without packing."""
    rng = ctx.rng
    shape, axp, ax, warg, ws, marg, ms, lev, fmt, dt = structure(ctx, True)
    if fmt == "wavedec" and len(shape) > 1:
        fmt = "wavedecn"
    x = gen.data(rng, shape, dt)
    ctx.sig([str(w) for w in ws], ms, shape, ax, lev, fmt, dt.str)
    what = f"{ws} {ms} {shape} axes {axp} level {lev} {fmt}"
    if fmt == "wavedec":
        c = ctx.call(pywt.wavedec, x, ws[0].arg, ms[0], level=lev)
    elif fmt == "wavedec2":
        c = ctx.call(pywt.wavedec2, x, warg, marg, level=lev, axes=axp or ax)
    else:
        c = ctx.call(pywt.wavedecn, x, warg, marg, level=lev, axes=axp)

    def inv(cc):
        if fmt == "wavedec":
            return ctx.call(pywt.waverec, cc, ws[0].arg, ms[0])
        if fmt == "wavedec2":
            return ctx.call(pywt.waverec2, cc, warg, marg, axes=axp or ax)
        return ctx.call(pywt.waverecn, cc, warg, marg, axes=axp)
    direct = inv(c)
    arr, sl = ctx.call(pywt.coeffs_to_array, c, axes=axp)
    r1 = inv(ctx.call(pywt.array_to_coeffs, arr, sl, output_format=fmt))
    ctx.same(np.ascontiguousarray(r1), np.ascontiguousarray(direct), "packed-reconstruction", what)
    arr, sl, shp = ctx.call(pywt.ravel_coeffs, c, axes=axp)
    r2 = inv(ctx.call(pywt.unravel_coeffs, arr, sl, shp, output_format=fmt))
    ctx.same(np.ascontiguousarray(r2), np.ascontiguousarray(direct), "raveled-reconstruction", what)
    sc, de = level_scale(x, lev, ws, ms, ax)
    rt_close(ctx, np.asarray(r1), x, sc, de * max(1, lev), "packed-roundtrip", what)


def stationary(ctx):
    """ravel/unravel of swt*, trim_approx=True lists."""
    rng = ctx.rng
    k = int(rng.integers(1, 4))
    w = gen.wavelet(rng, True, max_len=20)
    lev = int(rng.integers(1, 3))
    shape = [2 ** lev * int(rng.integers(1, 5)) for _ in range(k)]
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    x = gen.data(rng, shape, dt)
    fn = {1: pywt.swt, 2: pywt.swt2}.get(k, pywt.swtn) if rng.random() < .7 else pywt.swtn
    ctx.sig(w, shape, lev, dt.str, fn.__name__)
    c = ctx.call(fn, x, w.arg, level=lev, trim_approx=True)
    arr, sl, shp = ctx.call(pywt.ravel_coeffs, c)
    ctx.equal(arr.size, x.size * (1 + lev * (2 ** k - 1)), "swt-ravel:size", "")
    back = ctx.call(pywt.unravel_coeffs, arr, sl, shp, output_format=fn.__name__)
    for a, b in zip(c, back):
        if isinstance(a, dict):
            ctx.equal(sorted(a), sorted(b), "swt-ravel:keys", "")
            for q in a:
                ctx.same(np.ascontiguousarray(b[q]), np.ascontiguousarray(a[q]), "swt-ravel:content", q)
        elif isinstance(a, (tuple, list)):
            for u, v in zip(a, b):
                ctx.same(np.ascontiguousarray(v), np.ascontiguousarray(u), "swt-ravel:content", "")
        else:
            ctx.same(np.ascontiguousarray(b), np.ascontiguousarray(a), "swt-ravel:content", "")


def rejections(ctx):
    rng = ctx.rng
    k = int(rng.integers(1, 4))
    shape = [int(v) for v in rng.integers(4, 10, k)]
    c = pywt.wavedecn(rng.normal(size=shape), "db2", level=1)
    fn = [pywt.coeffs_to_array, pywt.ravel_coeffs][rng.integers(2)]
    ctx.sig(k, shape, fn.__name__)
    ctx.raises(fn, [])
    ctx.raises(fn, tuple(c))
    ctx.raises(fn, [None] + c[1:])
    ctx.raises(fn, [c[0], {**c[1], "d" * k: None}])
    ctx.raises(fn, [c[0].tolist()] + c[1:])
    ctx.raises(fn, [c[0], "abc"])
    ctx.raises(fn, c, axes=tuple(range(k + 1)))
    ctx.raises(fn, [c[0][None]] + [{q: v[None] for q, v in c[1].items()}])


FAMILIES = [
    Family(to_array, 4500, 120000, boost=.015),
    Family(ravel, 4000, 100000, boost=.015),
    Family(reconstruct, 2500, 60000, boost=.02),
    Family(stationary, 900, 20000),
    Family(rejections, 400, 5000),
]
