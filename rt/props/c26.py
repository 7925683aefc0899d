"""C26: every native allocation made to fail in turn; live native blocks, array buffers and Python objects counted over repetitions."""
import gc
import os
import sys
import time

import numpy as np

import pywt
from rt import api, gen
from rt.core import Skip, diff_bits
from rt.fam import Family

sys.path.insert(0, os.environ.get("VP_FAULT_DIR", "/nonexistent"))
import vpfault  # noqa: E402

PATCHED = vpfault.install()
POOL = {**api.ALL, **api.PACKETS}
KINDS = ("native", "glue", "array data")
gc.disable()
ignored = []
sys.unraisablehook = lambda u: ignored.append(f"{type(u.exc_value).__name__}: {u.exc_value} in {u.object!r}")


def live():
    s = vpfault.stats()
    return {"native blocks": s[1][0], "array buffers": s[1][1]}, s[2][0]


def totals():
    return vpfault.stats()[0]


def settle():
    gc.collect()


def alloc_counts(c):
    a = totals()
    o = c.outcome()
    b = totals()
    return o, [y - x for x, y in zip(a, b)]


def pick_call(ctx):
    rng = ctx.rng
    names = None
    if rng.random() < .5:
        # the calls with native temporaries
        names = ["dwt", "idwt", "dwt2", "idwt2", "dwtn", "swt", "swt2", "iswt2", "downcoef", "upcoef", "wavedec2", "waverec2", "bank", "props", "wavefun", "cwt"]
    c = api.make(rng, POOL, name=names[rng.integers(len(names))] if names else None, dt=gen.FLOATS[rng.integers(4)])
    if c.identity or c.view:
        raise Skip
    return c


def inject(ctx):
    rng = ctx.rng
    c = pick_call(ctx)
    o, _ = alloc_counts(c)
    ctx.check(o[0] == "ok", "unexpected exception", lambda: f"{c!r}: {o[1:]}")
    good = api.frozen(o[1])
    del o
    o, n = alloc_counts(c)
    del o
    ctx.sig(c.name, n, repr(c)[:300])
    ctx.trace.append(f"allocations {n}: {c!r}"[:500])
    before = api.snap_call(c)
    settle()
    t0 = time.process_time()
    for kind in rng.permutation(3):
        kind = int(kind)
        if not n[kind]:
            continue
        idx = range(1, n[kind] + 1)
        most = (24, 8, 12)[kind] if ctx.tier == "quick" else (80, 30, 40)[kind]
        if len(idx) > most:
            idx = sorted(int(v) + 1 for v in rng.permutation(n[kind])[:most])
        for k in idx:
            if time.process_time() - t0 > 4:
                break
            persist = bool(rng.random() < .25)
            l0, df0 = live()
            vpfault.arm(kind, k, persist)
            try:
                r = c.run()
                res = "ok"
            except Exception as e:
                r, res = None, type(e).__name__
            nf = vpfault.disarm()
            what = f"{KINDS[kind]} allocation {k} of {n[kind]}{' and all later' if persist else ''} failed in {c!r}"
            if nf:
                ctx.see(f"{KINDS[kind]} failures injected", nf)
                ctx.see(f"failed call {res}")
                ctx.sh.sites.add((c.name, kind, k))
            if res == "ok":
                d = diff_bits(good, r)
                ctx.check(d is None, f"wrong result after failure:{c.name}:{KINDS[kind]}", lambda: f"{what}: {d}")
            else:
                ctx.check(nf > 0, f"raised without a failure:{c.name}", lambda: f"{what}: {res}")
            del r
            l1, df1 = live()
            if l1 != l0:
                settle()                     # cycles are not leaks
                l1, df1 = live()
            ctx.check(df1 == df0, f"freed twice:{c.name}", lambda: what)
            ctx.check(all(l1[q] <= l0[q] for q in l0), f"leak after failure:{c.name}:{KINDS[kind]}", lambda: f"{what} ({res}): live before {l0}, after {l1}")
            ctx.see("balances checked")
            if rng.random() < .35:
                again = c.outcome()
                ctx.check(again[0] == "ok", f"unusable after failure:{c.name}", lambda: f"{what}: then {again[1:]}")
                d = diff_bits(good, again[1])
                ctx.check(d is None, f"different after failure:{c.name}", lambda: f"{what}: then {d}")
                del again
    d = api.snap_diff(before, api.snap_call(c))
    ctx.check(d is None, f"argument changed by failure:{c.name}", lambda: f"{c!r}: {d}")
    again = c.outcome()
    d = diff_bits(good, again[1]) if again[0] == "ok" else str(again[1:])
    ctx.check(d is None, f"unusable after failure:{c.name}", lambda: f"{c!r}: {d}")
    ctx.see("recoveries")
    ctx.see("ignored exceptions", len(ignored))
    ignored.clear()


def grow(ctx, c, what, arm=None, n=24):
    """Blocks and buffers after n more repetitions, twice."""
    def once():
        if arm:
            vpfault.arm(*arm)
        try:
            c.run()
        except Exception:
            pass
        if arm:
            vpfault.disarm()
    def measure():
        settle()
        l, df = live()
        return {**l, "python blocks": sys.getallocatedblocks(), "python objects": len(gc.get_objects())}

    def windows(k):
        marks = [measure()]
        for _ in range(k):
            for _ in range(n):
                once()
            marks.append(measure())
        return {q: [y[q] - x[q] for x, y in zip(marks, marks[1:])] for q in marks[0]}
    for _ in range(4):
        once()
    g = windows(2)
    # growth by at least one per repetition in every window; caches and free lists fill up, leaks do not stop
    if any(min(v) >= n for v in g.values()):
        g = windows(14)
        ctx.see("growth examined further")
    for q, v in g.items():
        ctx.check(min(v) < n, f"leak:{c.name}:{q}", lambda: f"{what}: live {q} grew by {v} over {len(v)} times {n} repetitions")
    ctx.see("repetitions", 2 * n + 4)
    ctx.see("growth checked " + ("failing" if arm else "plain"))
    ctx.sig(c.name, what[:300])
    ctx.trace.append(what[:400])


def repeat(ctx):
    c = api.make(ctx.rng, {**POOL, **api.LOADERS}, dt=gen.FLOATS[ctx.rng.integers(4)])
    grow(ctx, c, repr(c))


def repeat_rejected(ctx):
    rng = ctx.rng
    for _ in range(10):
        c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)])
        h = api.hostile(rng, c)
        if h.outcome()[0] != "ok":
            break
    grow(ctx, h, "rejected " + repr(h))


def repeat_failing(ctx):
    """The same allocation failing again and again."""
    rng = ctx.rng
    c = pick_call(ctx)
    c.outcome()
    o, n = alloc_counts(c)
    del o
    kinds = [k for k in range(3) if n[k]]
    if not kinds:
        raise Skip
    k = int(kinds[rng.integers(len(kinds))])
    i = int(rng.integers(1, n[k] + 1))
    grow(ctx, c, f"{KINDS[k]} allocation {i} of {n[k]} failing in {c!r}", (k, i, bool(rng.random() < .3)))


def objects(ctx):
    """Creation, copies, reinitialisation and destruction of wavelet objects: native blocks return to where they were."""
    import copy
    import pickle
    rng = ctx.rng
    names = pywt.wavelist(kind="discrete")
    n = names[rng.integers(len(names))]
    bank = tuple(rng.normal(size=8) for _ in range(4))
    cn = ["morl", "cmor1.5-1", "gaus3", "shan1-1", "fbsp2-1-1", "mexh"][rng.integers(6)]

    def f():
        w = pywt.Wavelet(n)
        v = pywt.Wavelet("mine", filter_bank=bank)
        c = pywt.ContinuousWavelet(cn)
        out = [w, v, c]
        for o in (w, v, c):
            out += [copy.copy(o), copy.deepcopy(o), pickle.loads(pickle.dumps(o))]
        for a in (n, "db2", "haar"):
            try:
                w.__init__(a)
            except Exception:
                pass
        try:
            v.__init__("z", filter_bank=bank)
        except Exception:
            pass
        for bad in ({"name": "nope"}, {"name": "x", "filter_bank": ([1], [2], [3])}, {"name": "x", "filter_bank": ([], [], [], [])}, {"name": "x", "filter_bank": (["a"] * 4,) * 4},
                    {"name": "x", "filter_bank": (bank[0], bank[1], bank[2], [1., "a"] * 4)}, {"name": None}):
            try:
                out.append(pywt.Wavelet(**bad))
            except Exception:
                pass
        for bad in ("nope", "cmor-", None, "shan1-x"):
            try:
                out.append(pywt.ContinuousWavelet(bad))
            except Exception:
                pass
        r = [o.wavefun(3) for o in out[:4]]
        cyc = [out]
        cyc.append(cyc)
        return len(r)
    c = api.Call("objects", f, [], data=())
    if rng.random() < .5:
        grow(ctx, c, f"objects {n} {cn}", n=40)
    else:
        o, k = alloc_counts(c)
        i = int(rng.integers(1, k[0] + 1))
        grow(ctx, c, f"objects {n} {cn}: allocation {i} of {k[0]} failing", (0, i, bool(rng.random() < .3)), n=40)


def inject_case(ctx):
    if not hasattr(ctx.sh, "sites"):
        ctx.sh.sites = set()
    inject(ctx)


inject_case.__name__ = "inject"


def finish(sh, a):
    return {"flavor": a.flavor, "redirected_slots": PATCHED, "distinct_failed_sites": len(getattr(sh, "sites", ()))}


T = ("plain", "asan")
FAMILIES = [Family(inject_case, 900, 15000, flavors=T), Family(repeat, 500, 8000), Family(repeat_rejected, 300, 5000), Family(repeat_failing, 400, 6000), Family(objects, 120, 2000)]
