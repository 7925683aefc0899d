"""C25: calls made at the same time from several threads against the same calls made alone; race detector on the native code."""
import collections
import ctypes
import os
import subprocess
import sys
import threading
import time

import numpy as np

import pywt
from rt import api, cw, gen
from rt.core import Skip, diff_bits
from rt.fam import Family

POOL = {**api.ALL, **api.PACKETS}
FAST = (1e-6, 1e-5, 1e-4, 5e-3)
DEADLOCK = 150.0


def jitter(rng):
    """A trace function that gives up the interpreter lock inside the library's own Python code."""
    import random
    rnd = random.Random(int(rng.integers(1 << 40)))
    p = [.005, .03, .1][rng.integers(3)]
    n = [0]

    def trace(frame, event, arg):
        if "/pywt/" not in frame.f_code.co_filename:
            return None
        if rnd.random() < p:
            n[0] += 1
            time.sleep(0 if rnd.random() < .9 else 2e-5)
        return trace
    return trace, n


def share(rng, calls):
    """Make some calls use the very same objects."""
    out = list(calls)
    w = pywt.Wavelet(["db2", "bior2.4", "sym5", "haar"][rng.integers(4)])
    for i, c in enumerate(calls):
        k = rng.random()
        if k < .45:
            out.append(c)                                # the same Call: same arrays, lists and wavelet objects
        elif k < .6:
            b = api.bind(c)
            if b is not None and isinstance(b.arguments.get("wavelet"), (str, pywt.Wavelet)) and c.name != "cwt":
                b.arguments["wavelet"] = w
                h = c.with_args(list(b.args), dict(b.kwargs))
                if h.outcome()[0] == "ok":
                    out.append(h)
    return [out[i] for i in rng.permutation(len(out))]


def together(ctx, calls, nthreads, rounds, delays):
    """Run the calls from several threads; every result is compared with the result obtained alone."""
    rng = ctx.rng
    alone, t0 = [], time.process_time()
    for c in calls:
        o = c.outcome()
        alone.append(("ok", api.frozen(o[1])) if o[0] == "ok" else o)
    cost = (time.process_time() - t0) * nthreads
    if cost > .05:
        delays = False
    if cost > 1.5:
        raise Skip
    rounds = min(rounds, max(1, int(.3 / max(cost, 1e-9))))
    before = [api.snap_call(c) for c in calls]
    plans = [[int(v) for v in rng.permutation(len(calls))] * rounds for _ in range(nthreads)]
    if rng.random() < .3:
        plans = [plans[0]] * nthreads                    # lock step: all threads in the same call
    gate = threading.Barrier(nthreads)
    got = [[] for _ in plans]
    errors = []
    tr, n = jitter(rng) if delays else (None, [0])

    def work(k):
        try:
            if tr:
                sys.settrace(tr)
            gate.wait()
            for i in plans[k]:
                t0 = time.perf_counter()
                o = calls[i].outcome()
                got[k].append((i, t0, time.perf_counter(), o))
        except BaseException as e:      # noqa: BLE001
            errors.append(e)
        finally:
            sys.settrace(None)
    old = sys.getswitchinterval()
    sys.setswitchinterval(FAST[rng.integers(4)] if cost < .1 else FAST[rng.integers(2, 4)])
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(nthreads)]
    try:
        [t.start() for t in ts]
        end = time.time() + DEADLOCK
        for t in ts:
            t.join(max(0.0, end - time.time()))
    finally:
        sys.setswitchinterval(old)
    stuck = [k for k, t in enumerate(ts) if t.is_alive()]
    if stuck:
        c0 = time.process_time()
        time.sleep(20)
        busy = time.process_time() - c0 > 2
        ctx.check(busy and not all(t.is_alive() for t in ts), "deadlock", lambda: f"threads {stuck} made no progress for {DEADLOCK:.0f} s in {[repr(calls[i])[:150] for i in plans[stuck[0]][len(got[stuck[0]]):][:1]]}")
        for t in ts:
            t.join(600)
    if errors:
        raise errors[0]
    flat = [g + (k,) for k, gs in enumerate(got) for g in gs]
    for i, t0, t1, o, k in flat:
        ctx.check(o[0] == alone[i][0], f"outcome differs:{calls[i].name}", lambda: f"{calls[i]!r}: alone {alone[i][:2]}, with others {o[:3]}"[:900])
        if o[0] == "ok":
            d = diff_bits(alone[i][1], o[1])
            ctx.check(d is None, f"result differs:{calls[i].name}", lambda: f"{calls[i]!r} in thread {k}: {d}")
    for c, b in zip(calls, before):
        d = api.snap_diff(b, api.snap_call(c))
        ctx.check(d is None, f"argument changed:{c.name}", lambda: f"{c!r}: {d}")
    # evidence: which calls really were in progress at the same time
    ev = sorted((t0, t1, calls[i].name, k) for i, t0, t1, o, k in flat)
    live, pairs = [], 0
    for t0, t1, nme, k in ev:
        live = [v for v in live if v[0] > t0]
        for e, m, q in live:
            if q != k:
                pairs += 1
                ctx.sh.pairs.add(tuple(sorted((nme, m))))
        live.append((t1, nme, k))
    ctx.see("overlapping pairs", pairs)
    ctx.see("concurrent calls", len(flat))
    ctx.see("delays injected", n[0])
    ctx.sig(sorted(c.name for c in calls), nthreads, delays, ctx.index)
    ctx.trace.append(f"{nthreads} threads, {len(calls)} calls, {pairs} overlaps: " + "; ".join(repr(c)[:120] for c in calls[:3]))


def pairs_set(ctx):
    if not hasattr(ctx.sh, "pairs"):
        ctx.sh.pairs = set()


def mix(ctx):
    """Different small calls, many switches, delays inside the library's Python code."""
    pairs_set(ctx)
    rng = ctx.rng
    calls = [api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)], big=1) for _ in range(int(rng.integers(2, 6)))]
    together(ctx, share(rng, calls), int(rng.integers(2, 7)), int(rng.integers(1, 4)), rng.random() < .6)


def same(ctx):
    """Every thread makes the same call on the same objects."""
    pairs_set(ctx)
    rng = ctx.rng
    c = api.make(rng, POOL, dt=gen.FLOATS[rng.integers(4)], big=1 if rng.random() < .7 else 30)
    together(ctx, [c], int(rng.integers(2, 9)), int(rng.integers(2, 8)), rng.random() < .5)


def kernels(ctx):
    """Arrays large enough that the kernels overlap while the interpreter lock is released."""
    pairs_set(ctx)
    rng = ctx.rng
    names = ["dwt", "idwt", "dwt2", "idwt2", "dwtn", "idwtn", "wavedec", "waverec", "wavedec2", "waverec2", "swt", "swt2", "iswt", "iswt2", "downcoef", "upcoef", "fswavedecn", "cwt"]
    pick = [names[i] for i in rng.integers(0, len(names), int(rng.integers(1, 4)))]
    calls = []
    for n in pick:
        for _ in range(20):
            c = api.make(rng, POOL, name=n, dt=gen.FLOATS[rng.integers(4)], big=[1, 100, 800][rng.integers(3)] if n not in ("cwt", "iswt", "iswt2", "swt2") else 4)
            if n == "cwt" or sum(a.size for a in c.arrays()) < 300000:
                break
        calls.append(c)
    together(ctx, share(rng, calls), int(rng.integers(2, 6)), int(rng.integers(1, 4)), False)


def axis_kernels(ctx):
    """The strided kernels (temporary buffers) of one shared array along different axes at the same time."""
    pairs_set(ctx)
    rng = ctx.rng
    nd = int(rng.integers(2, 4))
    x = gen.data(rng, tuple(int(v) for v in rng.integers(20, {2: 200, 3: 40}[nd], nd)), gen.FLOATS[rng.integers(4)])
    w = pywt.Wavelet(["db4", "haar", "bior3.5", "coif2"][rng.integers(4)])
    calls = []
    for a in range(nd):
        m = pywt.Modes.modes[rng.integers(len(pywt.Modes.modes))]
        calls.append(api.Call("dwt", pywt.dwt, [x, w, m], {"axis": a}))
        calls.append(api.Call("dwt", pywt.dwt, [x[::-1].T, w, m], {"axis": a}))
        cA, cD = pywt.dwt(x, w, m, axis=a)
        calls.append(api.Call("idwt", pywt.idwt, [cA, cD, w, m], {"axis": a}, data=(0, 1)))
        calls.append(api.Call("dwtn", pywt.dwtn, [x, w, m, (a,)]))
    together(ctx, calls, int(rng.integers(2, 6)), 1, rng.random() < .2)


def objects(ctx):
    """Wavelet objects shared between threads: attributes, functions, transforms and copies."""
    pairs_set(ctx)
    import copy
    rng = ctx.rng
    w = pywt.Wavelet(["db5", "sym3", "bior2.2", "dmey"][rng.integers(4)]) if rng.random() < .6 else gen.custom_random(rng).arg if hasattr(gen, "custom_random") else pywt.Wavelet("db2")
    c = pywt.ContinuousWavelet(["cmor1.5-1.0", "shan1-1.5", "fbsp2-1-1.5", "gaus4", "mexh", "morl", "cgau3"][rng.integers(7)])
    lv = int(rng.integers(1, 7))
    x = rng.normal(size=int(rng.integers(8, 60)))
    P = ("dec_lo dec_hi rec_lo rec_hi orthogonal biorthogonal symmetry vanishing_moments_psi vanishing_moments_phi filter_bank inverse_filter_bank dec_len rec_len "
         "family_name short_family_name name").split()
    prop = P[rng.integers(len(P))]
    CP = "family_name short_family_name name symmetry lower_bound upper_bound center_frequency bandwidth_frequency fbsp_order complex_cwt".split()
    cprop = CP[rng.integers(len(CP))]
    mk = lambda n, f: api.Call(n, f, [], data=())        # noqa: E731
    calls = [mk("attribute", lambda: getattr(w, prop)), mk("attribute", lambda: getattr(c, cprop)), mk("wavefun", lambda: w.wavefun(lv)), mk("wavefun", lambda: c.wavefun(lv)),
             mk("str", lambda: (str(w), repr(c))), mk("dwt", lambda: pywt.dwt(x, w, "smooth")), mk("copy", lambda: copy.deepcopy(w).filter_bank),
             mk("cwt", lambda: pywt.cwt(x, [1, 3.5], c, precision=7)), mk("integrate", lambda: pywt.integrate_wavelet(c, 6)), mk("new", lambda: pywt.Wavelet("coif3").filter_bank),
             mk("central", lambda: pywt.central_frequency(w, 6)), mk("swt", lambda: pywt.swt(np.resize(x, 16), w, 2, norm=True)), mk("demo", lambda: pywt.data.demo_signal("Bumps", 40)),
             mk("lists", lambda: (pywt.wavelist("db"), pywt.families(), pywt.Modes.modes)), mk("bad", lambda: pywt.Wavelet("nope")), mk("loader", lambda: pywt.data.ecg())]
    calls = [calls[i] for i in rng.permutation(len(calls))[:int(rng.integers(3, 9))]]
    together(ctx, calls, int(rng.integers(2, 7)), int(rng.integers(1, 5)), rng.random() < .5)


def lists(ctx):
    """Shared coefficient containers read by several inverses at once."""
    pairs_set(ctx)
    rng = ctx.rng
    names = ["waverec", "waverec2", "waverecn", "iswt", "iswt2", "iswtn", "imra", "imra2", "imran", "coeffs_to_array", "ravel_coeffs", "unravel_coeffs", "array_to_coeffs", "fswaverecn",
             "idwtn", "idwt2"]
    c = api.make(rng, POOL, name=names[rng.integers(len(names))], dt=gen.FLOATS[rng.integers(4)])
    others = [api.make(rng, POOL, dt="<f8") for _ in range(int(rng.integers(0, 3)))]
    together(ctx, [c] + others, int(rng.integers(2, 6)), int(rng.integers(2, 5)), rng.random() < .7)


def fresh(ctx):
    """First calls of a new interpreter, all at once."""
    seed = int(ctx.rng.integers(1 << 30))
    p = subprocess.run([sys.executable, "-S", "-m", "rt.threads", str(seed), str(int(ctx.rng.integers(2, 7)))], capture_output=True, text=True, timeout=500)
    ctx.trace.append(p.stdout[:400])
    ctx.sig("fresh", seed)
    ctx.check("DEADLOCK" not in p.stdout, "deadlock:fresh", lambda: f"seed {seed}: threads of a new interpreter never finished")
    ctx.check(p.returncode == 0 and p.stdout, "crash:fresh", lambda: f"seed {seed}: rc {p.returncode}: {p.stderr[-800:]}")
    by = collections.defaultdict(set)
    for line in p.stdout.splitlines():
        n, d = line.split(" ", 1)
        by[n].add(d)
        ctx.see("first calls")
    for n, ds in by.items():
        ctx.check(len(ds) == 1, f"result differs:fresh {n}", lambda: f"seed {seed}: {n} gave {sorted(ds)}"[:600])


def finish(sh, a):
    """Evidence of overlap; in the race-detector build, a deliberate race that must be reported."""
    ex = {"flavor": a.flavor, "distinct_overlapping_function_pairs": len(getattr(sh, "pairs", ()))}
    lib = os.environ.get("VP_RACE_LIB")
    if a.flavor == "tsan" and lib:
        f = ctypes.CDLL(lib).vp_deliberate_race
        ts = [threading.Thread(target=f, args=(ctypes.c_long(200000),)) for _ in range(3)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    return ex


T = ("plain", "tsan")
FAMILIES = [Family(mix, 500, 10000, flavors=T), Family(same, 300, 6000, flavors=T), Family(kernels, 120, 3000, flavors=T), Family(axis_kernels, 80, 2000, flavors=T),
            Family(objects, 250, 5000, flavors=T), Family(lists, 250, 5000, flavors=T), Family(fresh, 20, 300)]
