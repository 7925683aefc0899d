"""C30: linearity - powers of two and signs exactly, sums to rounding, zero to zero; at every size."""
import numpy as np

import pywt
from rt import api, gen, ref
from rt.core import Skip, diff_bits, eps_of
from rt.fam import Family

TINY = {"f": 1.2e-38, "d": 2.3e-308}


def strip(c, r):
    return r[0] if c.name == "cwt" else r


def top(arrs):
    m = 0.0
    for a in arrs:
        if a.size:
            m = max(m, float(np.max(np.abs(a))))
    return m


def run(ctx, c):
    out = c.outcome()
    ctx.check(out[0] == "ok", f"unexpected exception:{c.name}", lambda: f"{c!r} raised {out[1:]}")
    return api.arrays(strip(c, out[1]))


def exact(ctx, got, want, c, key, what):
    ctx.check(len(got) == len(want), key, lambda: f"{what}: {len(got)} arrays instead of {len(want)}")
    for i, (a, b) in enumerate(zip(got, want)):
        ctx.check(a.shape == b.shape and a.dtype == b.dtype, key, lambda: f"{what}: array {i}: {a.shape}{a.dtype} instead of {b.shape}{b.dtype}")
        bad = a != b
        if np.any(bad):
            # gradual underflow is the only excuse
            tiny = 256 * TINY["f" if eps_of(a.dtype) > 1e-10 else "d"]
            bad &= np.abs(a - b) > tiny
            ctx.see("underflow" if not np.any(bad) else "inexact")
        ctx.check(not np.any(bad), key, lambda: f"{what}: array {i} differs at {np.argwhere(bad)[0]}: {a[tuple(np.argwhere(bad)[0])]!r} instead of {b[tuple(np.argwhere(bad)[0])]!r}")


def laws(ctx, c):
    rng = ctx.rng
    ctx.sig(c.name, repr(c)[:400])
    ctx.trace.append(repr(c)[:500])
    ctx.see("call " + c.name)
    r = run(ctx, c)
    s32 = any(gen.is32(a.dtype) for a in c.arrays())
    ctx.check(all(np.all(np.isfinite(a)) for a in r), f"not finite:{c.name}", lambda: f"{c!r} gave a result that is not finite")
    # exact scaling
    k = int(rng.integers(-30, 31)) if s32 else int(rng.integers(-400, 401))
    f = 2.0 ** k
    v = c.mapped(lambda a: (a * a.dtype.type(f)).astype(a.dtype))
    if top(v.arrays()) > 0:
        got = run(ctx, v)
        exact(ctx, got, [(a * a.dtype.type(f)).astype(a.dtype) for a in r], c, f"scaling:{c.name}", f"{c!r} scaled by 2**{k}")
        ctx.see("scaled up" if k > 0 else "scaled down")
    # sign
    got = run(ctx, c.mapped(lambda a: -a))
    exact(ctx, got, [-a for a in r], c, f"sign:{c.name}", f"{c!r} negated")
    # zero
    got = run(ctx, c.mapped(np.zeros_like))
    for i, a in enumerate(got):
        ctx.check(not np.any(a != 0), f"zero:{c.name}", lambda: f"{c!r} with zero data: array {i} has {a[a != 0][:3]}")
    # sums
    xs = c.arrays()
    al = xs[0].dtype.type(rng.normal()) if xs else 1
    ys = [gen.data(rng, a.shape, a.dtype) for a in xs]
    it = iter(ys)
    y = run(ctx, c.mapped(lambda a: next(it)))
    it2 = iter([al * a + b for a, b in zip(xs, ys)])
    z = run(ctx, c.mapped(lambda a: next(it2)))
    S = max(top(r) * abs(al), top(y), top(z), top(xs) * abs(al), top(ys))
    ctx.check(len(r) == len(y) == len(z), f"sum:{c.name}", lambda: f"{c!r}: different numbers of arrays")
    e = max(eps_of(a.dtype) for a in r + xs)
    for i, (a, b, s) in enumerate(zip(r, y, z)):
        err = float(np.max(np.abs(s - (al * a + b)))) if s.size else 0.0
        tol = 3000.0 * e * S
        ctx.check(err <= tol, f"sum:{c.name}", lambda: f"{c!r}: T({al}*x + y) differs from {al}*T(x) + T(y) by {err:.3g} in array {i}, allowed {tol:.3g}")
        if tol:
            ctx.sh.worst[f"sum:{c.name}"] = max(ctx.sh.worst.get(f"sum:{c.name}", 0.0), err / tol)
    ctx.see("sums compared")


def small(ctx):
    laws(ctx, api.make(ctx.rng, api.LINEAR, dt=gen.FLOATS[ctx.rng.choice([0, 0, 1, 2, 3])]))


def big(ctx):
    """Long signals and large images."""
    rng = ctx.rng
    b = [300, 1000, 2500][rng.integers(3)]
    pool = {k: v for k, v in api.TRANSFORMS.items() if k != "cwt"}
    c = api.make(rng, pool, dt=gen.FLOATS[rng.choice([0, 0, 1, 2, 3])], big=b)
    n = sum(a.size for a in c.arrays())
    if n > 3e6:
        raise Skip
    ctx.see("samples", n)
    ctx.see("large call" if n >= 10000 else "small call")
    if n >= 100000:
        ctx.see("calls of 10**5 samples and more")
    laws(ctx, c)


def local(ctx):
    """A block of data far inside a long zero signal gives the coefficients it gives inside a short one, shifted; zero elsewhere."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=40)
    L = int(rng.integers(1, 5))
    q = 2 ** L
    m, name = gen.mode(rng)
    reach = (w.F + 2) * q
    N1 = -(-(4 * reach + 64) // q) * q
    N2 = N1 + q * int(rng.integers(1000, 60000))
    p1 = 2 * reach // q * q
    p2 = int(rng.integers(2 * reach // q, (N2 - 2 * reach - 64) // q)) * q
    blk = gen.data(rng, int(rng.integers(1, 60)), gen.FLOATS[rng.integers(4)])
    xs = []
    for N, p in ((N1, p1), (N2, p2)):
        x = np.zeros(N, blk.dtype)
        x[p:p + len(blk)] = blk
        xs.append(x)
    kind = ["wavedec", "dwt", "downcoef", "swt", "waverec", "idwt"][rng.integers(6)]
    ctx.sig(kind, w.label, name, L, N1, N2, p2, blk.dtype)
    ctx.see("local " + kind)

    def t(x):
        if kind == "wavedec":
            return ctx.call(pywt.wavedec, x, w.arg, m, level=L), [L] + list(range(L, 0, -1))
        if kind == "dwt":
            return list(ctx.call(pywt.dwt, x, w.arg, m)), [1, 1]
        if kind == "downcoef":
            return [ctx.call(pywt.downcoef, "ad"[N1 % 2], x, w.arg, m, L)], [L]
        if kind == "swt":
            return [a for t2 in ctx.call(pywt.swt, x, w.arg, L) for a in t2], [0] * (2 * L)
        if kind == "idwt":
            return [ctx.call(pywt.idwt, x, None, w.arg, m), ctx.call(pywt.idwt, None, x, w.arg, m)], [-1, -1]
        # the block in a detail subband of a two-level container
        return [ctx.call(pywt.waverec, [np.zeros_like(x), x, None], w.arg, m)], [-2]
    (a, lev), (b, _) = t(xs[0]), t(xs[1])
    for i, (u, v, l) in enumerate(zip(a, b, lev)):
        d = (p2 - p1) >> l if l >= 0 else (p2 - p1) << -l
        nz = np.flatnonzero(u)
        lo, hi = (int(nz[0]), int(nz[-1]) + 1) if len(nz) else (0, 0)
        got = np.zeros_like(v)
        got[lo + d:hi + d] = u[lo:hi]
        diff = diff_bits(np.asarray(got), np.asarray(v))
        ctx.oracles += 1
        if diff:
            e = 200 * eps_of(v.dtype) * max(top([u]), top([v]), top([blk]))
            bad = np.abs(got - v) > e
            ctx.check(not np.any(bad), f"locality:{kind}", lambda: f"{ctx.trace[-1]}: a block at {p2} of {N2} samples against {p1} of {N1}, array {i}: {diff}")
    ctx.see("long signals")


def batch(ctx):
    """Many rows, and high ranks, against the transform of each row."""
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=20)
    m, name = gen.mode(rng)
    n = int(rng.integers(2, 40))
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    high = rng.random() < .4
    if high:
        rank = int(rng.integers(6, 15))
        lead = tuple(int(v) for v in rng.choice([1, 1, 2], rank - 1))
        while np.prod(lead) > 4096:
            lead = lead[:-1]
        ctx.see("high rank")
    else:
        lead = (int(rng.integers(2000, 30000)),) if rng.random() < .7 else (int(rng.integers(50, 200)), int(rng.integers(50, 200)))
        if rng.random() < .25:              # more than 2**16 of them
            n = int(rng.integers(2, 7))
            lead = (int(rng.integers(66000, 200000)),) if rng.random() < .5 else (int(rng.integers(2, 700)), int(rng.integers(2, 700)))
            while np.prod(lead) < 66000:
                lead = (lead[0] * 2, lead[1])
            ctx.see("more than 2**16 rows")
        ctx.see("many rows")
    ax = int(rng.integers(len(lead) + 1))
    shape = lead[:ax] + (n,) + lead[ax:]
    if gen.bad_one(n, name):
        n = 4
    x = gen.data(rng, shape, dt)
    kind = ["dwt", "idwt", "swt", "wavedec", "dwtn", "wavedecn"][rng.integers(6)]
    if kind == "swt":
        n2 = n // 2 * 2
        x = np.ascontiguousarray(np.take(x, range(n2), axis=ax))
    axis = ax if rng.random() < .5 else ax - x.ndim
    ctx.sig(kind, w.label, name, x.shape, ax, dt.str)
    f = {"dwt": lambda v, a: list(pywt.dwt(v, w.arg, m, axis=a)),
         "idwt": lambda v, a: [pywt.idwt(v, v, w.arg, m, axis=a)],
         "swt": lambda v, a: list(pywt.swt(v, w.arg, 1, axis=a)[0]),
         "wavedec": lambda v, a: pywt.wavedec(v, w.arg, m, level=1, axis=a),
         "dwtn": lambda v, a: list(pywt.dwtn(v, w.arg, m, axes=(a,)).values()),
         "wavedecn": lambda v, a: [pywt.wavedecn(v, w.arg, m, level=1, axes=(a,))[0]]}[kind]
    if kind == "idwt" and x.shape[ax] < w.F // 2:
        f2 = w.F // 2
        x = np.ascontiguousarray(np.take(x, np.arange(f2) % x.shape[ax], axis=ax))
    r = ctx.call(f, gen.layout(rng, x) if not high else x.copy("CF"[rng.integers(2)]), axis)
    rows = np.moveaxis(x, ax, -1).reshape(-1, x.shape[ax])
    outs = [np.moveaxis(v, ax, -1).reshape(len(rows), -1) for v in r]
    pick = set(rng.integers(0, len(rows), 12).tolist()) | {0, len(rows) - 1}
    for k in sorted(pick):
        one = f(rows[k].copy(), -1)
        for i, (o, u) in enumerate(zip(outs, one)):
            if diff_bits(o[k], u):
                ctx.close(o[k], u, f"batch:{kind}", f"row {k} of {x.shape} along {ax} ({w.label}, {name}), array {i}", dtype=dt, scale=top([rows[k]]), factor=200)
            else:
                ctx.oracles += 1
        ctx.see("rows compared")


def nonfinite(ctx):
    """A sample that is not finite makes every output that depends on it not finite, and leaves the others as they are."""
    rng = ctx.rng
    c = api.make(rng, api.LINEAR, dt=gen.FLOATS[rng.choice([0, 0, 1, 2, 3])])
    xs = [a for a in c.arrays() if a.size]
    if not xs:
        raise Skip
    ctx.sig(c.name, repr(c)[:400])
    ctx.trace.append(repr(c)[:500])
    i = int(rng.integers(len(xs)))
    p = int(rng.choice([0, xs[i].size - 1, rng.integers(xs[i].size)]))
    step = 1e3 * (1 + top(xs))
    bad = [np.nan, np.inf, -np.inf][rng.choice([0, 0, 1, 2])]

    def variant(v, add=False):
        n = iter(range(10 ** 6))

        def f(a):
            if not a.size or next(n) != i:
                return a.copy()
            a = a.copy()
            a.reshape(-1)[p] = a.reshape(-1)[p] + v if add else v
            return a
        return c.mapped(lambda a: f(np.ascontiguousarray(a)))
    with np.errstate(all="ignore"):
        y0, y1, yn = run(ctx, variant(0.0, True)), run(ctx, variant(step, True)), run(ctx, variant(bad))
    ctx.check(len(y0) == len(y1) == len(yn), f"not finite in:{c.name}", lambda: f"{c!r}: different numbers of arrays")
    for k, (a, b, n) in enumerate(zip(y0, y1, yn)):
        ctx.check(a.shape == n.shape and a.dtype == n.dtype, f"not finite in:{c.name}", lambda: f"{c!r}: array {k}: {n.shape}{n.dtype} instead of {a.shape}{a.dtype}")
        if not a.size:
            continue
        e = eps_of(a.dtype)
        dep = np.abs(b - a) > 1e5 * e * step
        fin = np.isfinite(n)
        hid = dep & fin
        ctx.check(not np.any(hid), f"hidden:{c.name}", lambda: f"{c!r} with {bad} at {p} of array {i}: result {k} at {np.argwhere(hid)[0]} depends on it and is {n[tuple(np.argwhere(hid)[0])]!r}")
        ch = fin & (np.abs(np.where(fin, n, 0) - a) > 1e4 * e * max(top(y0), top(xs)))
        ctx.check(not np.any(ch), f"disturbed:{c.name}", lambda: f"{c!r} with {bad} at {p} of array {i}: result {k} at {np.argwhere(ch)[0]} is {n[tuple(np.argwhere(ch)[0])]!r} instead of {a[tuple(np.argwhere(ch)[0])]!r}")
        ctx.see("outputs that depend on the sample", int(dep.sum()))
        ctx.see("outputs that do not", int(fin.sum()))
    ctx.see("not finite " + c.name)


FAMILIES = [Family(nonfinite, 4000, 60000), Family(small, 8000, 120000), Family(big, 250, 3000), Family(local, 700, 8000), Family(batch, 700, 8000)]
