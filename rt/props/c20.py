"""C20: snapshot monitors around every call - nothing passed in changes, nothing returned is shared."""
import numpy as np

import pywt
from rt import api, gen
from rt.core import diff_bits
from rt.fam import Family

DT = ["<f8", "<f8", "<f4", "<c16", "<c8", "<i4", "|u1", "<f2", "<f16", ">f8"]


def cast(rng, c):
    dt = np.dtype(DT[rng.integers(len(DT))])
    if c.name in ("imra", "imra2", "imran") and dt.kind != "f" or c.name in ("pad", "qmf") and dt.kind == "u":
        return c
    if dt.kind in "iu":
        return c.mapped(lambda a: np.round(a.real * 4 % 100).astype(dt) if a.dtype.kind in "fc" else a)
    if dt.kind == "f":
        return c.mapped(lambda a: a.real.astype(dt) if a.dtype.kind == "c" and dt.kind != "c" else a.astype(dt))
    return c.mapped(lambda a: a.astype(dt))


def prepare(ctx, pool, quiet=False):
    rng = ctx.rng
    c = api.make(rng, pool, dt=["<f8", "<c16"][rng.integers(2)] if pool is not api.POINTWISE else "<f8")
    if c.data and c.name not in ("Wavelet(filter_bank)", "threshold"):
        c = cast(rng, c)
    if c.data:
        c = c.mapped(lambda a: gen.layout(rng, a))
    # lists and dicts nested in the arguments keep their kind
    return c


def results(r):
    return [a for a in api.arrays(r)]


def mutate(ctx):
    c = prepare(ctx, api.ALL)
    before = api.snap_call(c)
    out = c.outcome()
    ctx.trace.append(repr(c)[:600])
    ctx.check(out[0] == "ok", "unexpected exception", lambda: f"{c!r} raised {out[1:]}")
    ctx.sig(c.name, repr(c)[:400])
    ctx.see("call " + c.name)
    d = api.snap_diff(before, api.snap_call(c))
    ctx.check(d is None, f"argument changed:{c.name}", lambda: f"{c!r}: {d}")
    ctx.see("arguments compared", len(c.args) + len(c.kw))
    if c.view or c.identity:
        return
    r = out[1]
    rs = results(r)
    keep = api.frozen(r)
    ins = c.arrays()
    for i, a in enumerate(rs):
        ctx.check(a.flags.writeable, f"read-only result:{c.name}", lambda: f"{c!r}: result {i} is read-only")
    for i, a in enumerate(rs):
        a[...] = (i % 100) + 1
    for i, a in enumerate(rs):
        ctx.check(bool(np.all(a == (i % 100) + 1)), f"results alias each other:{c.name}", lambda: f"{c!r}: result array {i} changed by writing another")
    d = api.snap_diff(before, api.snap_call(c))
    ctx.check(d is None, f"result aliases argument:{c.name}", lambda: f"{c!r}: writing to the results changed {d}")
    ctx.see("results overwritten", len(rs))
    again = c.outcome()
    ctx.check(again[0] == "ok", f"second call failed:{c.name}", lambda: f"{c!r}: {again[1:]}")
    d = diff_bits(keep, again[1])
    ctx.check(d is None, f"later call affected:{c.name}", lambda: f"{c!r}: after writing to the first results, the same call differs: {d}")
    # and changing the inputs afterwards does not change results already returned
    keep2 = api.frozen(again[1])
    for a in ins:
        if a.flags.writeable and a.size:
            a[...] = 5
    d = diff_bits(keep2, again[1])
    ctx.check(d is None, f"result follows argument:{c.name}", lambda: f"{c!r}: writing to the arguments changed the results: {d}")


def raising(ctx):
    """Calls that fail must leave their arguments alone too."""
    rng = ctx.rng
    c = prepare(ctx, api.WITH_DATA)
    c = api.hostile(rng, c)
    before = api.snap_call(c)
    out = c.outcome()
    ctx.trace.append(repr(c)[:600])
    ctx.see("raised " + out[1] if out[0] == "raised" else "accepted")
    ctx.sig(c.name, repr(c)[:400])
    d = api.snap_diff(before, api.snap_call(c))
    ctx.check(d is None, f"argument changed:{c.name}", lambda: f"{c!r} ({out[0]}{': ' + out[1] if out[0] == 'raised' else ''}): {d}")


FAMILIES = [Family(mutate, 12000, 150000, boost=.015), Family(raising, 12000, 150000)]
