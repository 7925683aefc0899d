"""C03: inverse transforms of arbitrary coefficients against the synthesis sum."""
import itertools

import numpy as np

import pywt
from rt import gen, ref
from rt.fam import Family


def syn_scale(arrs, fbs, levels=1):
    s = max([float(np.max(np.abs(a))) for a in arrs if a is not None and a.size] + [0.0])
    p = 1.0
    for fb in fbs:
        p *= max(1.0, gen.polygain(fb))
    return s * sum(p ** k for k in range(1, levels + 1))


def min_n(w, m):
    """Smallest coefficient length that gives at least one sample."""
    return 1 if m == "periodization" else max(1, w.F // 2)


def pair_dtype(a, b):
    a, b = gen.out_dtype(a), gen.out_dtype(b)
    if a == b:
        return a
    return np.dtype(np.complex128 if "c" in (a.kind, b.kind) else np.float64)


def idwt_1d(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng)
    marg, mname = gen.mode(rng)
    nd = int(rng.choice([1, 1, 1, 2, 3, 4]))
    axp, ax = gen.axis_of(rng, nd)
    shape = list(gen.shape_nd(rng, nd, hi=6, cap=300))
    shape[ax] = max(min_n(w, mname), gen.length(rng, w.F, hi=120) if rng.random() < .7 else min_n(w, mname) + int(rng.integers(0, 4)))
    dtA = gen.dtype(rng)
    dtD = gen.dtype(rng) if rng.random() < .15 else dtA
    cA = gen.layout(rng, gen.data(rng, shape, dtA))
    cD = gen.layout(rng, gen.data(rng, shape, dtD))
    which = rng.integers(6)
    if which == 0:
        cA = None
    elif which == 1:
        cD = None
    odt = pair_dtype((cA if cA is not None else cD).dtype, (cD if cD is not None else cA).dtype)
    ctx.sig(w, mname, tuple(shape), ax, dtA.str, dtD.str, which in (0, 1) and int(which))
    ctx.see("mode:" + mname)
    if which in (0, 1):
        ctx.see("None coefficient")
    if shape[ax] < w.F // 2:
        ctx.see("fewer coefficients than half the filter")
    r = ctx.call(pywt.idwt, cA, cD, w.arg, marg, axis=axp)
    e = ref.idwt(None if cA is None else gen.native(cA), None if cD is None else gen.native(cD), w.fb, mname, ax)
    ctx.check(r.dtype == odt, "idwt:dtype", lambda: f"dtype {r.dtype}, expected {odt}")
    ctx.equal(r.shape[ax], ref.idwt_len(shape[ax], w.F, mname), "idwt:length", "length")
    lo = np.dtype(np.float32) if gen.is32(odt) else odt
    ctx.close(r, e, "idwt", f"{w} {mname} n={shape[ax]} axis {ax}", scale=syn_scale([cA, cD], [w.fb]), factor=16 + w.F, dtype=lo)


def sweep(ctx):
    """Each built-in wavelet x mode: impulses at every position of short coefficient arrays (the whole operator)."""
    name = gen.DISCRETE[ctx.index % len(gen.DISCRETE)]
    mname = ref.MODES[(ctx.index // len(gen.DISCRETE)) % 9]
    rng = ctx.rng
    w = gen.builtin(rng, [name])
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    ctx.sig(name, mname, dt.str)
    lo = min_n(w, mname)
    for n in sorted({lo, lo + 1, lo + 2, int(rng.integers(lo, 2 * w.F + 3)), int(rng.integers(lo, w.F + 3))}):
        eye = np.eye(n, dtype=dt)
        zero = np.zeros((n, n), dt)
        for cA, cD in ((eye, zero), (zero, eye)):
            r = ctx.call(pywt.idwt, cA, cD, w.arg, mname, axis=0)
            e = ref.idwt(cA, cD, w.fb, mname, 0)
            ctx.close(r, e, "idwt", f"{name} {mname} n={n} impulse", scale=syn_scale([eye], [w.fb]), factor=16, dtype=dt)
            ctx.see("operator entries", e.size)


def idwtn_missing(ctx):
    rng = ctx.rng
    nd = int(rng.integers(1, 5))
    k = int(rng.integers(1, min(nd, 3) + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    warg, ws, marg, ms = gen.per_axis(rng, k, max_len=30)
    shape = list(gen.shape_nd(rng, nd, hi=8, cap=300))
    for a, w, m in zip(ax, ws, ms):
        shape[a] = min_n(w, m) + int(rng.integers(0, 6))
    if np.prod(shape) > 60000:
        shape = [s if i in ax else 1 for i, s in enumerate(shape)]
    dt = gen.dtype(rng)
    keys = ["".join(c) for c in itertools.product("ad", repeat=k)]
    p = rng.uniform(0, 1)
    present = [q for q in keys if rng.random() < p] or [keys[rng.integers(len(keys))]]
    coeffs, full = {}, {}
    for q in keys:
        if q in present:
            d = gen.data(rng, shape, dt)
            coeffs[q] = gen.layout(rng, d)
            full[q] = gen.native(coeffs[q])
        else:
            if rng.random() < .5:
                coeffs[q] = None
            full[q] = np.zeros(shape)
    if rng.random() < .5:
        coeffs = {q: coeffs[q] for q in rng.permutation(sorted(coeffs))}
    ctx.sig([str(w) for w in ws], ms, tuple(shape), ax, dt.str, present)
    ctx.see(f"{len(present)} of {len(keys)} subbands")
    if k == 2 and rng.random() < .4:
        c2 = (coeffs.get("aa"), (coeffs.get("da"), coeffs.get("ad"), coeffs.get("dd")))
        r = ctx.call(pywt.idwt2, c2, warg, marg, axes=axp)
        key = "idwt2"
    elif ax == tuple(range(k)) and rng.random() < .4:
        r = ctx.call(pywt.idwtn, coeffs, warg, marg)
        key = "idwtn"
    else:
        r = ctx.call(pywt.idwtn, coeffs, warg, marg, axes=axp)
        key = "idwtn"
    e = ref.idwtn(full, [w.fb for w in ws], ms, ax)
    odt = gen.out_dtype(dt)
    ctx.check(r.dtype == odt, key + ":dtype", lambda: f"dtype {r.dtype}, expected {odt}")
    ctx.close(r, e, key, f"{ws} {ms} {shape} axes {ax} with {present}",
              scale=syn_scale(list(full.values()), [w.fb for w in ws]), factor=32, dtype=odt)


def waverec_model(cs, w, m, ax):
    """Definition for a list with None details: None is zeros of the running approximation's shape."""
    a = cs[0]
    for d in cs[1:]:
        if d is None:
            d = np.zeros(a.shape)
        else:
            if a.shape[ax] == d.shape[ax] + 1:
                a = np.moveaxis(np.moveaxis(a, ax, 0)[:-1], 0, ax)
            if a.shape[ax] != d.shape[ax]:
                return None
        a = ref.idwt(a, d, w.fb, m, ax)
    return a


def waverec_none(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=40)
    marg, m = gen.mode(rng)
    nd = int(rng.choice([1, 1, 2, 3]))
    axp, ax = gen.axis_of(rng, nd)
    levels = gen.depth(rng, 1, 6, 12)
    shape = list(gen.shape_nd(rng, nd, hi=5, cap=40))
    n = min_n(w, m) + int(rng.integers(0, 6))
    dt = gen.dtype(rng)
    cs = []
    shape[ax] = n
    cs.append(gen.data(rng, shape, dt))
    for _ in range(levels):
        # the detail may be one shorter than the approximation reached (an odd size in the forward transform)
        nn = n - 1 if rng.random() < .4 and n - 1 >= min_n(w, m) and len(cs) > 1 else n
        shape[ax] = nn
        none = rng.random() < .3
        cs.append(None if none else gen.data(rng, shape, dt))
        n = ref.idwt_len(n if none else nn, w.F, m)
        if n < min_n(w, m) or n > 3000:
            break
    mod = waverec_model([None if c is None else gen.native(c) for c in cs], w, m, ax)
    ctx.sig(w, m, [None if c is None else c.shape for c in cs], ax, dt.str)
    ctx.see("None details", sum(c is None for c in cs))
    args = [None if c is None else gen.layout(rng, c) for c in cs]
    if mod is None:
        return
    r = ctx.call(pywt.waverec, args if rng.random() < .5 else tuple(args), w.arg, marg, axis=axp)
    ctx.close(r, mod, "waverec", f"{w} {m} None pattern {[c is None for c in cs]}",
              scale=syn_scale([c for c in cs if c is not None], [w.fb], len(cs)), factor=32, dtype=gen.out_dtype(dt))


def waverecn_missing(ctx):
    """waverecn / waverec2 with missing subbands or None; shapes from a forward transform of some data."""
    rng = ctx.rng
    two = rng.random() < .5
    nd = int(rng.integers(2 if two else 1, 4))
    k = 2 if two else int(rng.integers(1, nd + 1))
    axp, ax = gen.axes_of(rng, nd, k)
    warg, ws, marg, ms = gen.per_axis(rng, k, max_len=24)
    shape = list(gen.shape_nd(rng, nd, hi=22, cap=700))
    lev = gen.ok_levels([shape[a] for a in ax], ws, ms, gen.depth(rng, 1, 4, 10))
    if lev < 1:
        ctx.see("no level possible")
        return
    dt = gen.dtype(rng)
    sizes = [tuple(shape)]
    for _ in range(lev):
        s = list(sizes[-1])
        for a, w, m in zip(ax, ws, ms):
            s[a] = ref.coeff_len(s[a], w.F, m)
        sizes.append(tuple(s))
    keys = ["".join(c) for c in itertools.product("ad", repeat=k)][1:]
    cs, full, drop = [], [], rng.random() < .7
    x = gen.data(rng, sizes[-1], dt)
    cs.append(x)
    full.append(gen.native(x))
    for j in range(lev, 0, -1):
        keep = [q for q in keys if not (drop and rng.random() < .4)] or [keys[rng.integers(len(keys))]]
        vals = {q: gen.data(rng, sizes[j], dt) for q in keep}
        full.append({q: gen.native(vals[q]) if q in vals else np.zeros(sizes[j]) for q in keys})
        if two:
            cs.append(tuple(gen.layout(rng, vals[q]) if q in vals else None for q in ("da", "ad", "dd")))
        else:
            cs.append({q: gen.layout(rng, v) for q, v in vals.items()})
    e = ref.waverecn(full, [w.fb for w in ws], ms, ax)
    ctx.sig([str(w) for w in ws], ms, sizes, ax, dt.str, two, drop)
    ctx.see("with missing subbands" if drop else "complete")
    if two:
        r = ctx.call(pywt.waverec2, cs, warg, marg, axes=axp)
    else:
        if rng.random() < .1:
            cs[0], full[0] = None, np.zeros(sizes[-1])
            e = ref.waverecn(full, [w.fb for w in ws], ms, ax)
        r = ctx.call(pywt.waverecn, cs, warg, marg, axes=axp)
    arrs = [full[0]] + [v for d in full[1:] for v in d.values()]
    ctx.close(r, e, "waverec2" if two else "waverecn", f"{ws} {ms} {sizes} axes {ax}",
              scale=syn_scale(arrs, [w.fb for w in ws], lev), factor=32, dtype=gen.out_dtype(dt))


def rejections(ctx):
    rng = ctx.rng
    w = gen.wavelet(rng, max_len=30)
    marg, m = gen.mode(rng)
    nd = int(rng.integers(1, 4))
    axp, ax = gen.axis_of(rng, nd)
    shape = list(gen.shape_nd(rng, nd, hi=6, cap=100))
    shape[ax] = min_n(w, m) + int(rng.integers(1, 6))
    dt = np.dtype(gen.FLOATS[rng.integers(4)])
    a = gen.data(rng, shape, dt)
    kind = int(rng.integers(7))
    ctx.sig(w, m, tuple(shape), ax, dt.str, kind)
    ctx.see(f"rejection kind {kind}")
    if kind == 0:
        s2 = list(shape)
        s2[ax] += int(rng.choice([-1, 1, 2]))
        if s2[ax] < 1:
            s2[ax] = shape[ax] + 1
        ctx.raises(pywt.idwt, a, gen.data(rng, s2, dt), w.arg, marg, axis=axp)
    elif kind == 1:
        ctx.raises(pywt.idwt, None, None, w.arg, marg, axis=axp)
    elif kind == 2 and m != "periodization" and w.F > 4:
        s2 = list(shape)
        s2[ax] = int(rng.integers(0, (w.F - 2) // 2))
        b = np.zeros(s2, dt)
        ctx.raises(pywt.idwt, b, b, w.arg, marg, axis=axp, key="too-few-accepted")
    elif kind == 3 and nd > 1:
        s2 = list(shape)
        o = (ax + 1) % nd
        s2[o] += 1
        ctx.raises(pywt.idwt, a, gen.data(rng, s2, dt), w.arg, marg, axis=axp)
        ctx.raises(pywt.idwtn, {"a" * nd: a, "d" * nd: gen.data(rng, s2, dt)}, w.arg, marg)
    elif kind >= 5:
        # a detail of the multilevel transforms that is neither as long as the approximation reached nor one shorter
        lev = int(rng.integers(1, 4))
        s2 = list(shape)
        s2[ax] = max(s2[ax], 2 * w.F)
        at = int(rng.integers(lev))
        by = int(rng.choice([-3, -2, 1, 2, 3]))
        one = kind == 5
        s2 = [max(v, min_n(w, m) if one else w.F) for v in s2]
        cs = [gen.data(rng, s2, dt)]
        for i in range(lev):
            if i == at:
                s2[ax] += by
            d = gen.data(rng, s2, dt)
            cs.append(d if one else {"d" * nd: d, "a" * (nd - 1) + "d": d} if nd > 1 else {"d": d})
            s2 = [ref.idwt_len(v, w.F, m) if q == ax or not one else v for q, v in enumerate(s2)]
        if one:
            ctx.raises(pywt.waverec, cs, w.arg, marg, axis=axp, key="multilevel-mismatch")
        else:
            ctx.raises(pywt.waverecn, cs, w.arg, marg, key="multilevel-mismatch")
            if nd == 2:
                ctx.raises(pywt.waverec2, [cs[0]] + [(c["dd"], c["ad"], None) for c in cs[1:]], w.arg, marg,
                           key="multilevel-mismatch")
    else:
        k = "a" * nd
        ctx.raises(pywt.idwtn, {k: None}, w.arg, marg)
        ctx.raises(pywt.idwtn, {}, w.arg, marg)
        ctx.raises(pywt.idwtn, {k: a, "d" * (nd + 1): a}, w.arg, marg)
        ctx.raises(pywt.idwtn, {"x" * nd: a}, w.arg, marg)
        ctx.raises(pywt.idwtn, {k: a}, w.arg, marg, axes=tuple(range(nd + 1)))
        ctx.raises(pywt.waverec, [], w.arg, marg)
        ctx.raises(pywt.waverecn, [a, {"d" * nd: None}], w.arg, marg)


FAMILIES = [
    Family(idwt_1d, 8000, 200000, boost=.02),
    Family(sweep, 1143, 4572),
    Family(idwtn_missing, 4000, 100000, boost=.02),
    Family(waverec_none, 3000, 80000, boost=.02),
    Family(waverecn_missing, 3000, 80000, boost=.02),
    Family(rejections, 1500, 20000),
]
