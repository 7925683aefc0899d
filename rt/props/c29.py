"""C29: every call is a pure function of its arguments, whatever happened before in the process."""
import copy
import json
import pickle
import subprocess
import sys
import warnings

import numpy as np

import pywt
from rt import api, cw, digest, gen
from rt.core import Skip, diff_bits
from rt.fam import Family

LOG = {}            # canonical call -> digests observed in this process
RAN = 0


def environment():
    """Process-wide settings no call may leave changed."""
    s = np.random.get_state()
    return (np.geterr(), len(warnings.filters), tuple(map(str, warnings.filters[:6])), s[0], s[1].tobytes(), s[2:], np.get_printoptions()["precision"],
            sys.getrecursionlimit(), sorted(pywt.Modes.modes), len(pywt.wavelist()), len(pywt.families()))


def other(ctx, objs):
    """One call of the history: valid or hostile, sometimes on the objects of the case itself."""
    global RAN
    rng = ctx.rng
    RAN += 1
    if objs and rng.random() < .5:
        w = objs[rng.integers(len(objs))]
        k = rng.integers(8)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if k == 0:
                    w.wavefun(level=int(rng.integers(1, 7)))
                elif k == 1:
                    pywt.integrate_wavelet(w, int(rng.integers(3, 11)))
                elif k == 2:
                    pywt.central_frequency(w, int(rng.integers(4, 9)))
                elif k == 3:
                    str(w), repr(w), w.name, w.family_name, w.symmetry
                elif k == 4 and isinstance(w, pywt.Wavelet):
                    b = w.filter_bank
                    for f in b:
                        f[:] = [0.0] * len(f)         # it is the caller's own list
                elif k == 5 and isinstance(w, pywt.Wavelet):
                    pywt.wavedec(gen.data(rng, int(rng.integers(2, 300)), gen.FLOATS[rng.integers(4)]), w, gen.mode(rng)[0], level=2)
                elif k == 6 and isinstance(w, pywt.Wavelet):
                    pywt.swt(gen.data(rng, 4 * int(rng.integers(1, 60)), gen.FLOATS[rng.integers(4)]), w, 2, norm=bool(rng.integers(2)))
                elif k == 7 and isinstance(w, pywt.ContinuousWavelet):
                    pywt.cwt(gen.data(rng, int(rng.integers(2, 100)), "<f8"), [2, 3.5], w)
                else:
                    copy.copy(w)
        except Exception:
            pass
        ctx.see("history on the same object")
        return
    c = api.make(rng, api.ALL, dt=gen.FLOATS[rng.integers(4)])
    if rng.random() < .4:
        c = api.hostile(rng, c)
    ctx.see("history " + c.outcome()[0])


def same(ctx, a, b, key, what):
    ctx.oracles += 1
    if a[0] != b[0]:
        ctx.fail(key, f"{what}: {a[0]} {a[1] if a[0] != 'ok' else ''} became {b[0]} {b[1:] if b[0] != 'ok' else ''}")
    d = diff_bits(a[1], b[1])
    if d:
        ctx.fail(key, f"{what}: {d}")


def outcome(c):
    o = c.outcome()
    return ("ok", api.frozen(o[1])) if o[0] == "ok" else o[:2]


def objects(v):
    if isinstance(v, (pywt.Wavelet, pywt.ContinuousWavelet)):
        return [v]
    if isinstance(v, (list, tuple)):
        return [o for x in v for o in objects(x)]
    if isinstance(v, pywt.FswavedecnResult):
        return objects(v.wavelets)
    return []


def repeat(ctx):
    rng = ctx.rng
    c = api.make(rng, {**api.ALL, **(api.LOADERS if rng.random() < .1 else {})}, dt=gen.FLOATS[rng.choice([0, 0, 1, 2, 3])])
    if rng.random() < .15:
        c = api.hostile(rng, c)
    c = c.clone() if c.note != "hostile" else c
    ctx.sig(c.name, repr(c)[:400])
    ctx.trace.append(repr(c)[:500])
    ctx.see("call " + c.name)
    env = environment()
    first = outcome(c)
    ctx.check(environment() == env, f"global state:{c.name}", lambda: f"{c!r} changed process-wide settings: {[(a, b) for a, b in zip(env, environment()) if a != b]}"[:900])
    objs = objects(c.args) + objects(list(c.kw.values()))
    for _ in range(int(rng.integers(1, 6))):
        other(ctx, objs)
        if rng.random() < .3:
            same(ctx, first, outcome(c), f"history:{c.name}", f"{c!r} repeated after other calls")
    same(ctx, first, outcome(c), f"history:{c.name}", f"{c!r} repeated after other calls")
    ctx.check(environment() == env, f"global state:{c.name}", lambda: f"calls around {c!r} changed process-wide settings")
    ctx.see("repetitions")


def variants(rng, v):
    """Another spelling of a wavelet."""
    if isinstance(v, str):
        k = rng.integers(4)
        if k == 0:
            return v.upper(), "upper case"
        if k == 1:
            return v.lower(), "lower case"
        if k == 2:
            return "".join(x.upper() if rng.random() < .5 else x for x in v), "mixed case"
        return pywt.DiscreteContinuousWavelet(v), "object"
    if isinstance(v, pywt.Wavelet):
        k = rng.integers(4)
        if k == 0:
            return copy.copy(v), "copy"
        if k == 1:
            return copy.deepcopy(v), "deepcopy"
        if k == 2:
            return pickle.loads(pickle.dumps(v)), "pickle"
        return pywt.Wavelet(v.name or "x", filter_bank=v.filter_bank), "same filter bank"
    if isinstance(v, pywt.ContinuousWavelet):
        k = rng.integers(3)
        return (copy.copy(v), "copy") if k == 0 else (copy.deepcopy(v), "deepcopy") if k == 1 else (pickle.loads(pickle.dumps(v)), "pickle")
    return v, None


def spelling(ctx):
    """Name in any case, object, copies; mode as name or as Modes attribute."""
    rng = ctx.rng
    c = api.make(rng, {**api.TRANSFORMS, **api.PACKETS}, dt=gen.FLOATS[rng.integers(4)])
    b = api.bind(c)
    first = outcome(c.clone())
    args = dict(b.arguments)
    done = []
    for n in ("wavelet", "mode", "modes"):
        if n not in args or n != "wavelet" and (c.name == "pad" or str(args.get("transform")).startswith("swt")):
            continue                           # those document names only
        v = args[n]
        if n == "wavelet":
            if isinstance(v, (list, tuple)):
                pairs = [variants(rng, x) for x in v]
                args[n] = type(v)(p[0] for p in pairs)
                done += [p[1] for p in pairs]
            else:
                args[n], d = variants(rng, v)
                done.append(d)
        else:
            def m(x):
                if isinstance(x, str) and x in pywt.Modes.modes:
                    done.append("mode number")
                    return getattr(pywt.Modes, x)
                if isinstance(x, int) and 0 <= x < 9:
                    done.append("mode name")
                    return next(k for k in pywt.Modes.modes if getattr(pywt.Modes, k) == x)
                return x
            args[n] = type(v)(m(x) for x in v) if isinstance(v, (list, tuple)) else m(v)
    done = [d for d in done if d]
    v = c.with_args(list(args.values()), {}) if False else c.with_args([], {})
    b.arguments.update(args)
    v.args, v.kw = list(b.args), dict(b.kwargs)
    ctx.sig(c.name, sorted(done), repr(c)[:300])
    ctx.trace.append(f"{c!r} with {done}"[:500])
    for d in done:
        ctx.see("spelling " + d)
    if "same filter bank" in done and any(gen.is32(a.dtype) for a in c.arrays()):
        # built-in filters are stored in both precisions, given ones are rounded
        got = outcome(v)
        for x, y in zip(api.arrays(first[1]), api.arrays(got[1])):
            ctx.close(y, x, f"spelling:{c.name}", f"{c!r} with its filter bank", factor=4000, dtype=np.float32,
                      scale=max([float(np.max(np.abs(q))) for q in c.arrays() + api.arrays(first[1]) if q.size] + [0.0]))
        return
    same(ctx, first, outcome(v), f"spelling:{c.name}", f"{c!r} with wavelet and mode given as {done}: {v!r}"[:900])


def spelling_meta(ctx):
    """The same for functions of a wavelet only."""
    rng = ctx.rng
    disc = rng.random() < .5
    n = gen.DISCRETE[rng.integers(len(gen.DISCRETE))] if disc else cw.name(rng)[0]
    if disc and n == "dmey" and rng.random() < .8:
        n = "db7"
    p = int(rng.integers(4, 9))
    fs = {"integrate_wavelet": lambda w: pywt.integrate_wavelet(w, p), "central_frequency": lambda w: pywt.central_frequency(w, p),
          "scale2frequency": lambda w: pywt.scale2frequency(w, np.array([1., 3.]), p), "attributes": lambda w: api.wstate(w if not isinstance(w, str) else pywt.DiscreteContinuousWavelet(w)),
          "wavefun": lambda w: list((w if not isinstance(w, str) else pywt.DiscreteContinuousWavelet(w)).wavefun(level=p - 2))}
    if disc:
        fs["dwt_coeff_len"] = lambda w: pywt.dwt_coeff_len(100, w if not isinstance(w, str) else pywt.Wavelet(w), "symmetric")
        fs["dwt_max_level"] = lambda w: pywt.dwt_max_level(1000, w)
    k = list(fs)[rng.integers(len(fs))]
    a = fs[k](n)
    v, d = variants(rng, n)
    if not isinstance(v, str) and rng.random() < .6:
        v, d2 = variants(rng, v)
        if d2 == "same filter bank" and k not in ("dwt_coeff_len", "dwt_max_level"):
            v = copy.copy(v) if False else pywt.DiscreteContinuousWavelet(n)
        d = d2
    b = fs[k](v)
    ctx.sig(k, n, d, p)
    ctx.trace.append(f"{k}({n}) as {d}")
    ctx.see("function " + k)
    dd = diff_bits(a, b)
    ctx.check(dd is None, f"spelling:{k}", lambda: f"{k} of {n} and of its {d} differ: {dd}")


def canon(ctx):
    """Digests of canonical calls, compared between processes with different histories (in the parent)."""
    global RAN
    i = int(ctx.rng.integers(0, 4000)) if ctx.tier == "thorough" else int(ctx.rng.integers(0, 900))
    for _ in range(int(ctx.rng.integers(0, 3))):
        other(ctx, [])
    c, d = digest.run(ctx.seed, i)
    ctx.sig("canonical", i)
    ctx.trace.append(f"canonical {i}: {c!r}"[:300])
    ctx.see("canonical digests")
    e = LOG.setdefault(str(i), {})
    e.setdefault(d, RAN)
    ctx.check(len(e) == 1, f"canonical:{c.name}", lambda: f"{c!r} gave different results at different times in one process (after {sorted(e.values())} other calls)")


def fresh(ctx):
    """The same calls in a new interpreter."""
    i0 = 900000 + 8 * ctx.index
    here = [digest.run(ctx.seed, i0 + k) for k in range(8)]
    order = list(ctx.rng.permutation(8))
    p = subprocess.run([sys.executable, "-S", "-m", "rt.digest", str(ctx.seed)] + [str(i0 + k) for k in order], capture_output=True, text=True, timeout=300)
    ctx.check(p.returncode == 0, "fresh process failed", lambda: p.stderr[-800:])
    got = json.loads(p.stdout)
    ctx.sig("fresh", ctx.index)
    for k, g in zip(order, got):
        c, d = here[k]
        ctx.check(g == d, f"fresh process:{c.name}", lambda: f"{c!r} gives another result in a fresh process")
        ctx.see("compared with a fresh process")


def twins(rng):
    """Objects of one name but different content, each with an equally behaving object of another name; and functions of one object."""
    p = int(rng.integers(4, 9))
    n = 8 * int(rng.integers(2, 9))
    x = gen.data(rng, n, gen.FLOATS[rng.integers(4)])
    x2 = gen.data(rng, (n, 16), "<f8")
    s = np.sort(rng.uniform(1, 6, 3))
    fs = {"central_frequency": lambda w: pywt.central_frequency(w, p), "integrate_wavelet": lambda w: pywt.integrate_wavelet(w, p),
          "scale2frequency": lambda w: pywt.scale2frequency(w, s, p), "frequency2scale": lambda w: pywt.frequency2scale(w, s / 20, p),
          "wavefun": lambda w: list(w.wavefun(level=p - 2))}
    if rng.random() < .5:
        k = int(rng.integers(2, 4))
        a, b, c, d = (float(v) for v in np.round(rng.uniform(.3, 3, 4), 3))
        fam = ["cmor", "shan", "fbsp"][rng.integers(3)]
        base = f"fbsp{k}-{a}-{b}" if fam == "fbsp" else f"{fam}{a}-{b}"
        like = f"fbsp{k}-{c}-{d}" if fam == "fbsp" else f"{fam}{c}-{d}"
        lo, hi = [(None, None), (-5.0, 6.0), (-3.0, 3.0)][rng.integers(3)]
        def one(name, bw, fc, bounds):
            w = pywt.ContinuousWavelet(name)
            if w.bandwidth_frequency != bw:
                w.bandwidth_frequency = bw
            if w.center_frequency != fc:
                w.center_frequency = fc
            if bounds[0] is not None:
                w.lower_bound, w.upper_bound = bounds
            return w
        made = {"as named": (lambda: one(base, a, b, (None, None)), lambda: one(base.replace(fam, fam.upper()), a, b, (None, None))),
                "attributes set": (lambda: one(base, c, d, (None, None)), lambda: one(like, c, d, (None, None))),
                "bounds set": (lambda: one(base, a, b, (lo, hi)), lambda: one(base + "0", a, b, (lo, hi))),
                "attributes and bounds set": (lambda: one(base, c, d, (lo, hi)), lambda: one(like, c, d, (lo, hi)))}
        fs["cwt"] = lambda w: pywt.cwt(x, s, w, method="conv" if p % 2 else "fft")
        fs["attributes"] = lambda w: [w.lower_bound, w.upper_bound, w.center_frequency, w.bandwidth_frequency, w.complex_cwt]
        return fam, made, fs
    name = gen.DISCRETE[rng.integers(len(gen.DISCRETE))] if rng.random() < .6 else "mine"
    banks = [gen.wavelet(rng, pr=True, max_len=16).obj().filter_bank for _ in range(3)]
    flags = [bool(v) for v in rng.integers(0, 2, 3)]
    def build(nm, i):
        w = pywt.Wavelet(nm, filter_bank=banks[i])
        w.orthogonal = flags[i]
        w.biorthogonal = True
        return w
    made = {f"bank {i}": ((lambda i=i: build(name, i)), (lambda i=i: build(f"unique {rng.integers(10 ** 9)}", i))) for i in range(3)}
    if name != "mine":
        made["built-in"] = (lambda: pywt.Wavelet(name), lambda: pywt.Wavelet(name.upper()))
    m = gen.mode(rng)[0]
    fs.update({"wavedec": lambda w: pywt.wavedec(x, w, m, level=2), "dwt": lambda w: pywt.dwt(x, w, m), "idwt": lambda w: pywt.idwt(x, x, w, "periodization"),
               "swt": lambda w: pywt.swt(x, w, 2, norm=bool(p % 2)), "iswt": lambda w: pywt.iswt([(x, x)], w, norm=bool(p % 2)),
               "swt2": lambda w: pywt.swt2(x2, w, 1, norm=bool(p % 2)), "dwtn": lambda w: pywt.dwtn(x2, (w, "haar"), m), "waverecn": lambda w: pywt.waverecn([x2, {"dd": x2}], w, "periodization"),
               "fswavedecn": lambda w: pywt.fswavedecn(x2, w, m, levels=1).coeffs, "packet": lambda w: [q.data for q in pywt.WaveletPacket(x, w, m, maxlevel=2).get_level(2)],
               "packet rebuilt": lambda w: api.packet_rebuild(x, 1, w, "periodization", -1, 2), "mra": lambda w: pywt.mra(x, w, 2),
               "upcoef": lambda w: pywt.upcoef("d", x, w, 2), "downcoef": lambda w: pywt.downcoef("d", x, w, m, 2), "filters": lambda w: [w.filter_bank, w.inverse_filter_bank, w.dec_len],
               "max level": lambda w: [pywt.dwt_max_level(1000, w), pywt.dwtn_max_level((300, 200), w)], "shapes": lambda w: str(pywt.wavedecn_shapes((40, 33), w, m, 2)),
               "pickle": lambda w: pickle.loads(pickle.dumps(w)).filter_bank, "copy": lambda w: copy.deepcopy(w).filter_bank})
    return "discrete", made, fs


def lookalike(ctx):
    """Objects that share a name (and perhaps an address, as they come and go) but not their content do not affect each other."""
    rng = ctx.rng
    fam, made, fs = twins(rng)
    names = list(fs)
    k = names[rng.integers(len(names))]
    labels = list(made)
    order = [labels[i] for i in rng.integers(0, len(labels), int(rng.integers(2, 6)))]
    ctx.sig(fam, k, order, ctx.index)
    ctx.trace.append(f"{fam} {k}: {order}")
    ctx.see(f"lookalike {fam} {k}")
    alive = []
    def run(w):
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return "ok", api.frozen(fs[k](w))
        except Exception as e:
            return "raised", type(e).__name__, str(e)
    got = []
    for q in order:
        w = made[q][0]()
        got.append(run(w))
        if rng.random() < .5:
            alive.append(w)
        del w
    for q, g in zip(order, got):
        same(ctx, run(made[q][1]()), g, f"lookalike:{k}", f"{fam} {k} of {q!r} (after {order}) against an equal object of another name")
    # one object whose attributes change between calls
    if fam != "discrete":
        w = made["as named"][0]()
        run(w)
        v = made["attributes set"][0]()
        w.bandwidth_frequency, w.center_frequency = v.bandwidth_frequency, v.center_frequency
        same(ctx, run(v), run(w), f"attribute change:{k}", f"{fam} {k} after its attributes were changed")
        ctx.see("attributes changed between calls")


def mutated(ctx):
    """The same array objects with new contents: the result follows the contents."""
    rng = ctx.rng
    c = api.make(rng, {**api.TRANSFORMS, **api.PACKETS, **api.PACKING, **api.POINTWISE}, dt=gen.FLOATS[rng.integers(4)])
    if c.view:
        raise Skip
    c = c.clone()
    ctx.sig(c.name, repr(c)[:400])
    ctx.trace.append(repr(c)[:500])
    c.outcome()
    for a in c.arrays():
        if a.flags.writeable and a.size:
            a[...] = np.roll(a, 1, axis=0) * np.asarray(-.5, a.real.dtype) if a.ndim else a * 2
    want = outcome(c.clone())
    got = c.outcome()
    same(ctx, want, ("ok", got[1]) if got[0] == "ok" else got[:2], f"new contents:{c.name}", f"{c!r} after the contents of its arrays changed")
    ctx.see("contents changed between calls")


def finish(sh, a):
    return {"canonical": LOG, "history_calls": RAN}


FAMILIES = [Family(repeat, 6000, 90000), Family(spelling, 5000, 60000), Family(spelling_meta, 1500, 15000), Family(lookalike, 4000, 60000), Family(mutated, 2500, 40000), Family(canon, 5000, 60000), Family(fresh, 24, 400)]
