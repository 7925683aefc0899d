"""C22: the same values in another memory layout give the same results."""
import os
import tempfile

import numpy as np

import pywt
from rt import api, gen
from rt.core import diff_bits, eps_of
from rt.fam import Family

POOL = {**api.WITH_DATA, **api.FILTERS}


def top(arrs):
    m = 0.0
    for a in arrs:
        if a.size and a.dtype.kind in "fciub":
            m = max(m, float(np.max(np.abs(a))))
    return m


def near(ctx, got, want, call, what, key, factor=2000.0):
    """Bit-identical, or equal to rounding."""
    d = diff_bits(got, want)
    ctx.oracles += 1
    if d is None:
        ctx.see("bit-identical results")
        return
    ga, wa = api.arrays(got), api.arrays(want)
    s = max(top(wa), top(call.arrays()))
    e = max([eps_of(a.dtype) for a in wa + call.arrays() if a.dtype.kind in "fc"] or [0.0])
    ctx.check(len(ga) == len(wa), key, lambda: f"{what}: {len(ga)} arrays instead of {len(wa)}")
    for a, b in zip(ga, wa):
        ctx.check(a.shape == b.shape and a.dtype == b.dtype, key, lambda: f"{what}: {a.shape}{a.dtype} instead of {b.shape}{b.dtype}; {d}")
        ctx.check(bool(np.all(np.abs(a - b) <= factor * e * s)), key, lambda: f"{what}: {d}")
    ctx.see("equal to rounding")


def layouts(ctx):
    rng = ctx.rng
    dt = ["<f8", "<f4", "<c16", "<c8", "<i4", ">f8", "<f2", "|u1"][int(rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 7]))]
    base = "<c16" if dt[1] == "c" else "<f8"
    c = api.make(rng, POOL, dt=dt if dt in gen.FLOATS else base)
    if dt not in gen.FLOATS and c.name not in ("imra", "imra2", "imran", "Wavelet(filter_bank)") and not (c.name in ("pad", "qmf") and dt == "|u1"):
        c = c.mapped(lambda a: np.round(np.abs(a.real) * 4 % 100).astype(dt) if np.dtype(dt).kind in "iu" else a.real.astype(dt))
    c = c.clone()
    plain = c.mapped(np.ascontiguousarray)
    with_axes = c.arrays()
    r0 = ctx.call(plain.run)
    kind = gen.LAYOUTS[rng.integers(len(gen.LAYOUTS))] if rng.random() < .7 else None
    used = []

    def f(a):
        y = gen.layout(rng, a, kind)
        used.append(y)
        return y
    v = c.mapped(f)
    ctx.sig(c.name, dt, kind, [(a.shape, a.strides) for a in used][:4], repr(c)[:200])
    ctx.trace.append(repr(v)[:500])
    ctx.see("call " + c.name)
    for a in used[:3]:
        ctx.see("layout " + ("contiguous" if a.flags.c_contiguous else "fortran" if a.flags.f_contiguous else "negative" if min(a.strides or (0,)) < 0 else "strided"))
        if not a.flags.writeable:
            ctx.see("layout read-only")
        if not a.flags.aligned:
            ctx.see("layout unaligned")
    out = v.outcome()
    ctx.check(out[0] == "ok", f"layout rejected:{c.name}", lambda: f"{v!r} raised {out[1:]} but a contiguous copy works")
    near(ctx, strip(out[1]), strip(r0), c, repr(v)[:500], f"layout:{c.name}")
    for i, a in enumerate(api.arrays(out[1])):
        if not c.view and not c.identity:
            ctx.check(a.flags.writeable and a.flags.aligned, f"unusable output:{c.name}", lambda: f"{v!r}: result {i} flags {a.flags}")


def strip(v):
    """Results as plain arrays (subclasses may or may not be kept)."""
    return api.mapa(v, lambda a: np.asarray(a)) if not isinstance(v, pywt.FswavedecnResult) else v


def broadcast(ctx):
    """Zero-stride arrays against their materialised copies."""
    rng = ctx.rng
    c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)])

    def zero(a):
        if a.ndim == 0 or not a.size:
            return a
        ax = int(rng.integers(a.ndim))
        return np.broadcast_to(np.take(a, [0], axis=ax), a.shape)
    v = c.mapped(zero)
    plain = v.mapped(lambda a: np.array(a, order="C"))
    r0 = ctx.call(plain.run)
    out = v.outcome()
    ctx.sig(c.name, repr(c)[:300])
    ctx.trace.append(repr(v)[:500])
    ctx.see("broadcast " + c.name)
    ctx.check(out[0] == "ok", f"broadcast rejected:{c.name}", lambda: f"{v!r} raised {out[1:]} but a contiguous copy works")
    near(ctx, strip(out[1]), strip(r0), plain, repr(v)[:500], f"broadcast:{c.name}")


def mapped_files(ctx):
    """numpy.memmap inputs, read-only and copy-on-write."""
    rng = ctx.rng
    c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)])
    r0 = ctx.call(c.clone().run)
    with tempfile.TemporaryDirectory(dir=os.environ.get("VP_TMP")) as d:
        k = [0]

        def f(a):
            if not a.size or a.ndim == 0:
                return a
            k[0] += 1
            p = os.path.join(d, str(k[0]))
            with open(p, "wb") as h:
                h.write(b"\0" * 8 * (k[0] % 3))
                h.write(np.ascontiguousarray(a).tobytes())
            return np.memmap(p, a.dtype, ["r", "c", "r+"][rng.integers(3)], 8 * (k[0] % 3), a.shape)
        v = c.mapped(f)
        out = v.outcome()
        ctx.sig(c.name, repr(c)[:300])
        ctx.see("memmap " + c.name)
        ctx.check(out[0] == "ok", f"memmap rejected:{c.name}", lambda: f"{v!r} raised {out[1:]} but an array works")
        near(ctx, strip(out[1]), strip(r0), c, repr(v)[:500], f"memmap:{c.name}")
        del v, out


FAMILIES = [Family(layouts, 20000, 250000, boost=.015), Family(broadcast, 3000, 30000, boost=0.006), Family(mapped_files, 1500, 8000)]
