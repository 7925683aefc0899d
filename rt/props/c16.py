"""C16: the continuous transform against its definition."""
import numpy as np

import pywt
from rt import cw, gen
from rt.core import Skip
from rt.fam import Family


def scale(rng):
    if rng.random() < .03:
        return float(np.exp(rng.uniform(np.log(100), np.log(1500))))
    k = rng.integers(6)
    if k == 0:
        return float(rng.uniform(.15, 2))
    if k == 1:
        return int(rng.integers(1, 40))
    if k == 2:
        return float(2.0 ** rng.integers(0, 7))
    if k == 3:
        return float(rng.uniform(1, 100))
    return float(np.round(rng.uniform(.3, 30), int(rng.integers(0, 3))) + .5)


def operator(w, s, dt):
    """The sampled, reversed integral of the wavelet at scale s: (taps, uncertainty of each tap)."""
    psi, x = w.wavefun(10)
    psi = psi.astype(np.complex128)
    step0 = float(x[1].astype(x.dtype) - x[0])
    ip = np.cumsum(psi) * step0
    if w.complex_cwt:
        ip = np.conj(ip)
    else:
        ip = ip.real
    rdt = np.float32 if gen.is32(dt) else np.float64
    xr = x
    s = np.atleast_1d(s)[0]
    step = xr[1] - xr[0]
    span = xr[-1] - xr[0]
    # both the index and the number of samples may fall on a boundary: then either side is right
    n = float(s) * float(span)
    rel = 2e-6 if x.dtype == np.float32 else 1e-12
    if abs(n - round(n)) <= rel * max(n, 1) and n > 1000:
        raise Skip
    k = np.arange(s * span + 1)
    q = k / (float(s) * float(step))
    j = np.floor(q).astype(int)
    keep = j < len(ip)
    amb = np.abs(q - np.round(q)) <= rel * np.maximum(q, 1) * 4
    if np.any(amb & (np.round(q) == len(ip))):
        raise Skip
    j = j[keep]
    jj = np.stack([np.clip(np.round(q[keep]).astype(int) + d, 0, len(ip) - 1) for d in (-1, 0, 1)])
    unc = np.where(amb[keep], np.max(np.abs(ip[jj] - ip[j]), axis=0), 0.0)
    # the integral is rounded to the precision of the data, and carries the error of a 1024-term sum
    e = (1.2e-7 if x.dtype == np.float32 or rdt == np.float32 else 2.3e-16)
    unc = unc + e * 64 * (np.max(np.abs(np.cumsum(np.abs(psi)) * step0)) * .05 + np.abs(ip[j]))
    return ip[j][::-1], unc[::-1]


def reference(xn, w, s, dt):
    """(coefficients, error bound) of one 1-D signal."""
    h, u = operator(w, s, dt)
    if len(h) < 2:
        return None, None
    f = float(np.atleast_1d(s)[0]) ** .5
    N = len(xn)
    M = len(h)
    full = np.convolve(xn, h)
    coef = -f * np.diff(full)
    a = np.abs(xn)
    err = f * 2 * (np.convolve(a, u) + gen_eps(dt) * 16 * np.convolve(a, np.abs(h)))
    err = np.maximum(err[1:], err[:-1])
    o = (M - 2) // 2
    return coef[o:o + N], err[o:o + N]


def gen_eps(dt):
    return 1.2e-7 if gen.is32(dt) else 2.3e-16


def run(ctx, x, scales, w, **kw):
    return ctx.call(pywt.cwt, x, scales, w, **kw)


def compare(ctx, got, e, b, key, what, extra=0.0):
    err = np.abs(got - e)
    tol = b + extra
    bad = ~(err <= tol + 1e-300)
    ctx.check(not np.any(bad), key, lambda: f"{what}: element {int(np.argmax(bad))} is {got[np.argmax(bad)]!r}, expected "
              f"{e[np.argmax(bad)]!r} (error {err[np.argmax(bad)]:.3g}, allowed {np.broadcast_to(tol, err.shape)[np.argmax(bad)]:.3g})")
    with np.errstate(all="ignore"):
        r = float(np.max(np.where(tol > 0, err / tol, 0))) if err.size else 0
    if r > ctx.sh.worst.get(key, 0):
        ctx.sh.worst[key] = r


def definition(ctx):
    rng = ctx.rng
    w, name, changed = cw.wavelet(rng)
    ndim = int(rng.choice([1, 1, 1, 2, 2, 3]))
    hi = 200 if ndim == 1 else 24
    shape = tuple(gen.length(rng, 8, 1, hi) if ndim == 1 else int(rng.integers(1, hi)) for _ in range(ndim))
    if ndim == 3:
        shape = tuple(min(v, 7) for v in shape[:2]) + shape[2:]
    if gen.WIDE > 1:
        shape = shape[:-1] + (shape[-1] * gen.log_between(rng, 2, gen.WIDE),)
    if ndim == 3:
        shape = tuple(shape[i] for i in rng.permutation(3))
    axp, ax = gen.axis_of(rng, ndim)
    dt = gen.dtype(rng)
    if dt.kind == "f" and dt.itemsize == 16 or dt.kind == "c" and dt.itemsize == 32:
        dt = np.dtype("<f8")
    x = gen.data(rng, shape, dt)
    ns = int(rng.integers(1, 5))
    scales = [scale(rng) for _ in range(ns)]
    if rng.random() < .2:
        scales.append(scales[0])
    method = ["conv", "fft"][rng.integers(2)]
    period = 1.0 if rng.random() < .4 else float(np.exp(rng.uniform(-4, 4)))
    form = rng.integers(4)
    sarg = scales if form == 0 else np.array(scales) if form == 1 else tuple(scales) if form == 2 else \
        gen.layout(rng, np.array(scales))
    if ns == 1 and len(scales) == 1 and rng.random() < .5:
        sarg = scales[0]
    warg = w if changed or w.wavefun(1)[0].dtype in (np.float32, np.complex64) or rng.random() < .5 else gen.rand_case(rng, name)
    ctx.sig(name, changed, shape, ax, str(dt), [round(float(s), 3) for s in scales], method)
    refs = []
    xn = gen.native(x)
    tr = np.moveaxis(xn, ax, -1)
    for s in scales:
        h, _ = operator(w, np.asarray(scales)[0] * 0 + s, dt)
        if len(h) < 2:
            ctx.raises(pywt.cwt, x, scales, warg, method=method, axis=axp, exc=ValueError, key="too small scale accepted")
            return
    kw = {}
    if method == "fft" or rng.random() < .5:
        kw["method"] = method
    if axp != -1 or rng.random() < .5:
        kw["axis"] = axp
    if period != 1.0:
        kw["sampling_period"] = period
    xa = gen.layout(rng, x)
    if rng.random() < .1 and x.dtype in (np.float64, np.complex128, np.int64):
        xa = x.tolist()
    coef, freq = run(ctx, xa, sarg, warg, **kw)
    odt = gen.out_dtype(dt)
    if w.complex_cwt and odt.kind == "f":
        odt = np.dtype(np.complex64 if odt == np.float32 else np.complex128)
    ctx.equal((coef.shape, coef.dtype), ((len(scales),) + shape, odt), "shape and dtype", name)
    cf = pywt.central_frequency(w, precision=10)
    ctx.close(freq, np.array([cf / s for s in scales]) / period, "frequencies", name, factor=8,
              scale=np.array([cf / s for s in scales]) / period)
    ctx.check(isinstance(freq, np.ndarray) and freq.shape == (len(scales),), "frequencies shape", name)
    for i, s in enumerate(scales):
        g = np.moveaxis(coef[i], ax, -1).reshape(-1, tr.shape[-1])
        rows = tr.reshape(-1, tr.shape[-1])
        for r in {int(v) for v in rng.integers(0, len(rows), 3)}:
            e, b = reference(rows[r], w, s, dt)
            extra = 0.0
            if method == "fft":
                h, _ = operator(w, s, dt)
                nrm = np.sqrt(np.sum(np.abs(rows[r]) ** 2)) * np.sqrt(np.sum(np.abs(h) ** 2))
                extra = 4 * float(s) ** .5 * gen_eps(dt) * 8 * nrm * np.log2(len(h) + len(rows[r]) + 2)
            compare(ctx, g[r].astype(np.complex128), e, b, "definition", f"{name} scale {s} {method} {shape} axis {ax} {dt}", extra)
            ctx.see("rows compared " + method)


def structure(ctx):
    """Batching, order of scales, methods, linearity - bit-exact where the same arithmetic is done."""
    rng = ctx.rng
    w, name, changed = cw.wavelet(rng)
    ndim = int(rng.integers(1, 5))
    shape = tuple(int(rng.integers(1, 9)) for _ in range(ndim))
    ax = int(rng.integers(ndim))
    shape = shape[:ax] + (int(rng.integers(1, 60)),) + shape[ax + 1:]
    dt = gen.FLOATS[rng.integers(4)]
    x = gen.data(rng, shape, dt)
    scales = [scale(rng) + .5 for _ in range(int(rng.integers(1, 6)))]
    scales = [max(s, 1.1 / (w.upper_bound - w.lower_bound)) for s in scales]
    method = ["conv", "fft"][rng.integers(2)]
    ctx.sig(name, changed, shape, ax, dt, len(scales), method)
    kw = dict(method=method)
    c, f = run(ctx, x, scales, w, axis=ax, **kw)
    # every coefficient is at most the sum of |data| times the largest sample of the integrated wavelet
    psi = np.asarray(pywt.integrate_wavelet(w, precision=10)[0])
    big = float(np.max(np.abs(x).sum(axis=ax)) * np.max(np.abs(psi)) * np.sqrt(max(scales)))
    p = rng.permutation(len(scales))
    c2, f2 = run(ctx, x, [scales[i] for i in p], w, axis=ax - ndim, **kw)
    ctx.near(c2, c[p], "order of scales", name, scale=big)
    ctx.near(f2, f[p], "order of scales", name)
    one = int(rng.integers(len(scales)))
    c3, _ = run(ctx, x, scales[one], w, axis=ax, **kw)
    ctx.near(c3, c[one:one + 1], "scales independent", name, scale=big)
    c4, f4 = run(ctx, x, scales, w, sampling_period=7.5, axis=ax, **kw)
    ctx.near(c4, c, "sampling period", name, scale=big)
    ctx.close(f4 * 7.5, f, "sampling period", name, scale=f, factor=4)
    rest = [np.arange(n) for i, n in enumerate(shape) if i != ax]
    idx = [int(rng.integers(len(r))) for r in rest]
    full = list(idx)
    full.insert(ax, slice(None))
    c5, _ = run(ctx, np.array(x[tuple(full)]), scales, w, **kw)
    want = c[(slice(None),) + tuple(full)]
    nrm = float(np.max(np.abs(x))) * shape[ax] * 8
    sc = nrm * max(scales) ** .5 * 4
    if method == "conv":
        ctx.close(c5, want, "batch", name, scale=sc, factor=4)
    else:
        ctx.close(c5, want, "batch", name, scale=sc, factor=64)
    perm = rng.permutation(ndim)
    y = np.ascontiguousarray(x.transpose(perm))
    c6, _ = run(ctx, y, scales, w, axis=int(np.argsort(perm)[ax]), **kw)
    ctx.close(c6, c.transpose((0,) + tuple(perm + 1)), "axes permuted", name, scale=sc, factor=64 if method == "fft" else 4)
    other, _ = run(ctx, x, scales, w, axis=ax, method={"conv": "fft", "fft": "conv"}[method])
    ctx.close(other, c, "methods agree", name, scale=sc, factor=64)
    a = float(rng.normal())
    z = gen.data(rng, shape, dt)
    cz, _ = run(ctx, z, scales, w, axis=ax, **kw)
    cs, _ = run(ctx, (x + np.asarray(a, x.real.dtype) * z).astype(x.dtype), scales, w, axis=ax, **kw)
    ctx.close(cs, c + a * cz, "linear", name, scale=sc + abs(a) * float(np.max(np.abs(z))) * shape[ax] * 32 * max(scales) ** .5, factor=64)
    if x.dtype.kind == "c":
        cr, _ = run(ctx, x.real, scales, w, axis=ax, **kw)
        ci, _ = run(ctx, x.imag, scales, w, axis=ax, **kw)
        ctx.close(c, cr + 1j * ci, "complex data", name, scale=sc, factor=64)
    ctx.see("structure " + method)


def rejected(ctx):
    rng = ctx.rng
    x = rng.normal(size=tuple(int(v) for v in rng.integers(1, 12, int(rng.integers(1, 4)))))
    name = cw.name(rng)[0]
    kind = ["scale", "scale", "method", "axis", "axis", "discrete", "unknown", "empty", "nan scale", "axis type"][rng.integers(10)]
    s = [2.0, 3.0]
    m = ["conv", "fft"][rng.integers(2)]
    ctx.sig(kind, x.shape, name, ctx.index)
    if kind == "scale":
        s[int(rng.integers(2))] = [0, 0.0, -1, -1e-9, -np.inf][rng.integers(5)]
        ctx.raises(pywt.cwt, x, s if rng.random() < .7 else s[0] * 0 - 1, name, method=m, exc=ValueError)
    elif kind == "nan scale":
        ctx.raises(pywt.cwt, x, [2.0, np.nan], name, method=m, exc=(ValueError, OverflowError, MemoryError))
    elif kind == "method":
        ctx.raises(pywt.cwt, x, s, name, method=["auto", "FFT", "", "direct", 5][rng.integers(5)], exc=(ValueError, TypeError))
    elif kind == "axis":
        if x.ndim == 1:
            x = x.reshape(1, -1)        # 1-D data are transformed whatever the axis argument says
        a = x.ndim + int(rng.integers(0, 3))
        ctx.raises(pywt.cwt, x, s, name, axis=a if rng.random() < .5 else -a - 1, method=m, exc=(ValueError, IndexError))
    elif kind == "axis type":
        if x.ndim == 1:
            x = x.reshape(1, -1)
        ctx.raises(pywt.cwt, x, s, name, axis=[(0,), [0], None, "0", (0, 1)][rng.integers(5)], method=m, exc=(ValueError, TypeError, IndexError))
    elif kind == "discrete":
        n = gen.DISCRETE[rng.integers(len(gen.DISCRETE))]
        ctx.raises(pywt.cwt, x, s, pywt.Wavelet(n) if rng.random() < .5 else n, method=m, exc=(ValueError, TypeError))
    elif kind == "unknown":
        ctx.raises(pywt.cwt, x, s, ["nope", "", "gaus9", None, 5][rng.integers(5)], method=m, exc=(ValueError, TypeError, AttributeError))
    elif kind == "empty":
        ax = int(rng.integers(x.ndim))
        e = np.zeros(x.shape[:ax] + (0,) + x.shape[ax + 1:])
        ctx.raises(pywt.cwt, e, s, name, axis=ax, method=m, exc=ValueError, key="empty data accepted")
    ctx.see("rejected " + kind)


FAMILIES = [Family(definition, 1600, 60000, boost=0.02), Family(structure, 500, 20000, boost=0.02), Family(rejected, 400, 10000)]
