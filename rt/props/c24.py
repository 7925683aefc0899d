"""C24: invalid arguments are rejected, every call terminates, and failed calls leave the library usable."""
import time

import numpy as np

import pywt
import pywt.data
from rt import api, cw, gen, ref
from rt.core import diff_bits
from rt.fam import Family

OK = (ValueError, TypeError, IndexError, KeyError, AttributeError, RuntimeError, OverflowError, ArithmeticError, AssertionError)
NEVER = ("SystemError", "MemoryError", "RecursionError", "UnboundLocalError", "NameError", "BufferError", "UnicodeDecodeError", "NotImplementedError")
LIMIT = 12.0            # seconds of CPU for one small call: thousands of times what any of them needs

BAD_NAMES = ["nope", "db", "db0", "db39", "db-1", "sym1", "sym21", "coif18", "bior9.9", "", "haar1", "db2 ", "dmeyer", "rbio1.2", "2db", "db2.0", "db1e1", "\0", "d\xfcb2"]
BAD_MODES = ["nope", "", "SYMMETRIC", "sym ", "symmetrical", "from_object", "modes", "__class__", -1, 9, 10 ** 6, -2 ** 31, None, 1.5, (1, 2, 3, 4, 5, 6), b"zero", object()]
NOT_NUMERIC = [None, "abc", b"abc", object(), {}, {"a": 1}, lambda: 0, [[1, 2], [3]], ["a", "b"], [object()], np.array(["x", "y", "z", "w"]),
               np.array([object(), object()])]
SIMPLE = set("dwt wavedec downcoef swt cwt mra dwt2 dwtn wavedec2 wavedecn fswavedecn swt2 swtn mra2 mran".split())
FORWARD_MODES = {"dwt", "wavedec", "downcoef", "dwt2", "dwtn", "wavedec2", "wavedecn", "fswavedecn", "idwt", "idwt2", "idwtn", "waverec", "waverec2", "waverecn",
                 "dwt_coeff_len", "WaveletPacket.get_level", "WaveletPacket.reconstruct", "wavedecn_shapes", "pad"}


def pick(rng, v):
    return v[rng.integers(len(v))]


def resized(rng, v, ax, k):
    """v with k samples along ax."""
    return np.take(v, np.arange(max(k, 0)) % max(v.shape[ax], 1), axis=ax)


def norm_axes(c, a, nd):
    """Axes the call works along (non-negative)."""
    if "axis" in a:
        return [a["axis"] % nd]
    ax = a.get("axes")
    if ax is None:
        return list(range(nd)) if c.name not in ("dwt2", "wavedec2", "swt2", "mra2", "idwt2", "waverec2", "iswt2") else [nd - 2, nd - 1]
    return [v % nd for v in (ax if isinstance(ax, (tuple, list)) else [ax])]


def mutations(rng, c, b):
    """(label, replacement arguments) of documented-domain violations that apply to call c."""
    b.apply_defaults()
    a = dict(b.arguments)
    out = []
    arrs = c.arrays()
    nd = arrs[0].ndim if arrs else 0
    n = c.name
    if "wavelet" in a and n not in ("wavedecn_size",):
        if n in ("scale2frequency", "frequency2scale", "central_frequency", "integrate_wavelet"):
            bad = pick(rng, BAD_NAMES)
        elif n == "cwt":
            bad = pick(rng, BAD_NAMES + ["db2", "haar", "dmey", 5, None, "cmor"] + [pywt.Wavelet("db2")])
            if bad in ("cmor",):
                bad = "nope"
        else:
            bad = pick(rng, BAD_NAMES + ["mexh", "cmor1.5-1.0", "gaus2", 5, None, 1.5, b"\xff", object(), pywt.ContinuousWavelet("morl")])
            if bad == "":
                bad = "nope"
        out.append(("wavelet", {"wavelet": bad}))
        if n in ("dwtn", "idwtn", "wavedecn", "waverecn", "fswavedecn", "swtn", "dwt2", "idwt2", "wavedec2", "waverec2", "swt2", "mran"):
            k = len(norm_axes(c, a, nd)) if nd else 2
            out.append(("wavelets per axis", {"wavelet": ["db1"] * (k + int(rng.integers(1, 3))) if k > 1 or rng.random() < .5 else ["db1", "db2"]}))
            if k == 1:
                out[-1] = ("wavelets per axis", {"wavelet": ["db1", "db2"]})
            out.append(("bad wavelet in tuple", {"wavelet": tuple(["db1"] * (k - 1) + ["nope"])}))
    if "mode" in a and n in FORWARD_MODES:
        if n == "pad":
            out.append(("mode", {"mode": pick(rng, ["nope", "", None, 5, "SYMMETRIC", object()])}))
        else:
            m = pick(rng, BAD_MODES)
            out.append(("mode", {"mode": m}))
            if n in ("dwtn", "idwtn", "wavedecn", "waverecn", "fswavedecn", "dwt2", "idwt2", "wavedec2", "waverec2"):
                k = len(norm_axes(c, a, nd)) if nd else 2
                out.append(("modes per axis", {"mode": ["zero"] * (k + 1) if k > 1 else ["zero", "zero"]}))
    if "mode" in a and n in ("threshold",):
        out.append(("threshold mode", {"mode": pick(rng, ["nope", "", None, 5, "SOFT"])}))
    if nd and "axis" in a and n not in ("cwt",):
        out.append(("axis", {"axis": pick(rng, [nd, -nd - 1, nd + 7, -nd - 9, 2 ** 31, -2 ** 31, 2 ** 62, "a", (0, 1, 2, 3, 4, 5)])}))
    elif n == "cwt" and nd > 1:
        out.append(("axis", {"axis": pick(rng, [nd, -nd - 1, nd + 7, 2 ** 31, "a"])}))
    if nd and "axes" in a and n not in ("coeffs_to_array", "ravel_coeffs", "array_to_coeffs"):
        cur = norm_axes(c, a, nd)
        k = len(cur)
        i = int(rng.integers(k))
        far = list(cur)
        far[i] = pick(rng, [nd, -nd - 1, nd + 5, 2 ** 31, -2 ** 40])
        out.append(("axes out of range", {"axes": tuple(far)}))
        if k > 1:
            rep = list(cur)
            j = int(rng.integers(k))
            rep[i] = cur[j] if i != j else cur[(j + 1) % k]
            if rng.random() < .5:
                rep[i] -= nd
        else:
            rep = [cur[0], cur[0] - nd]
        if n not in ("dwtn", "idwtn", "dwt2", "idwt2"):         # documented: applied repeatedly
            out.append(("axes repeated", {"axes": tuple(rep)}))
        out.append(("axes type", {"axes": pick(rng, [("a",) * k, (None,) * k, ([0],) * k, object()])}))
        if n in ("dwt2", "wavedec2", "swt2", "mra2", "idwt2", "waverec2", "iswt2"):
            out.append(("axes count", {"axes": pick(rng, [(0,), (), (0, 1, 1), tuple(range(nd)) + (0,) if nd > 1 else (0,)])}))
    if "level" in a and n in SIMPLE | {"wavedecn_shapes"}:
        if n in ("swt", "swt2", "swtn"):
            s = [arrs[0].shape[i] for i in norm_axes(c, a, nd)]
            mx = min(ref.swt_max_level(v) if hasattr(ref, "swt_max_level") else int(v & -v).bit_length() - 1 for v in s)
            out.append(("swt level", {"level": pick(rng, [-1, -7, mx + 1, mx + 5, 64, 2 ** 31, "a", 10 ** 6]), "start_level": 0}))
            out.append(("start level", {"start_level": pick(rng, [-1, -5, mx, mx + 1, 64, 10 ** 6]), "level": 1}))
        elif n in ("mra", "mra2", "mran"):
            out.append(("level", {"level": pick(rng, [-1, -7, "a", (1, 2, 3, 4, 5), 1j])}))
        elif n == "downcoef":
            out.append(("level", {"level": pick(rng, [0, -1, -7, "a", None, 1j])}))
        elif n == "fswavedecn":
            k = len(norm_axes(c, a, nd))
            out.append(("levels", {"levels": pick(rng, [-1, tuple([1] * (k + 1)), "a" * k, tuple([-1] * k), 1.5, tuple([1.5] * k)])}))
        else:
            out.append(("level", {"level": pick(rng, [-1, -7, "a", 1j, -2 ** 40])}))
    if n == "fswavedecn":
        k = len(norm_axes(c, a, nd))
        out.append(("levels", {"levels": pick(rng, [-1, tuple([1] * (k + 1)), tuple([-1] * k)])}))
    if n == "upcoef":
        out.append(("level", {"level": pick(rng, [0, -1, -7, "a", None])}))
        out.append(("take", {"take": pick(rng, [-1, -10 ** 9, "a", 1j])}))
    if "part" in a:
        out.append(("part", {"part": pick(rng, ["x", "", "aa", "A", "D", None, 1, b"a", "approx", "\0"])}))
    if "transform" in a:
        out.append(("transform", {"transform": pick(rng, ["nope", "", "SWT", None, 3])}))
        if str(a["transform"]).startswith("swt"):
            out.append(("mra mode", {"mode": pick(rng, ["nope", "symmetric", "zero"])}))
    if "method" in a:
        out.append(("method", {"method": pick(rng, ["nope", "", "FFT", None, 3])}))
    if "scales" in a and n == "cwt":
        out.append(("scales", {"scales": pick(rng, [0, -1, [1., 0.], [2., -3.], np.array([-1.]), 0.0, [1, "a"], "a", -np.inf])}))
    if n in ("dwt_max_level",):
        out.append(("filter_len", {"filter_len": pick(rng, [-1, 0, 1, "nope", -2 ** 40, object(), [2]])}))
        out.append(("data_len", {"data_len": pick(rng, [-1, "a", -2 ** 40, None])}))
    if n == "dwt_coeff_len":
        out.append(("data_len", {"data_len": pick(rng, [0, -1, "a", None])}))
        out.append(("filter_len", {"filter_len": pick(rng, [0, -1, "nope", None, object()])}))
    if n == "swt_max_level":
        out.append(("input_len", {"input_len": pick(rng, [-1, "a", None])}))
    if n == "pad":
        x = arrs[0]
        k = x.ndim
        out.append(("pad_widths", {"pad_widths": pick(rng, [-1, (1, -1), (-2, -2), [(1, -1)] * k, "a", None, [(1, 2)] * (k + 1) if k > 1 else [(1, 2)] * 3])}))
    if n == "threshold_firm":
        out.append(("threshold values", pick(rng, [{"value_low": -1.0}, {"value_low": 2.0, "value_high": 1.0}, {"value_high": -1.0}])))
    if n == "threshold" and a.get("mode") in ("soft", "garrote", "garotte") and False:
        out.append(("threshold value", {"value": -1.0}))
    if "output_format" in a and arrs[0].size > 1 and len(a["coeff_slices"]) > 1:
        out.append(("output_format", {"output_format": pick(rng, ["nope", "", None, 4])}))
    if n == "demo_signal":
        out.append(("signal name", {"name": pick(rng, ["nope", "", "Doppler2", "list "])}))
        out.append(("signal length", {"n": pick(rng, [-1, 0, "a"])}))
    if "order" in a and n == "WaveletPacket.get_level" and a.get("cls", 3) < 3:
        out.append(("order", {"order": pick(rng, ["nope", "Freq", 1])}))
    # ---- data ----
    if "data" in a and isinstance(a["data"], np.ndarray) and n not in ("array_to_coeffs", "unravel_coeffs"):
        x = a["data"]
        if n not in ("threshold", "threshold_firm", "pad"):
            bad = NOT_NUMERIC[rng.integers(len(NOT_NUMERIC))]
            if not (n.startswith("Wavelet") and bad is None):
                out.append(("not numeric", {"data": bad}))
            out.append(("text data", {"data": np.full(x.shape, pick(rng, ["x", "one", "", "1.0.0"]))}))
            axs = [0] if n in ("downcoef", "upcoef") else norm_axes(c, a, nd)
            if not n.startswith("Wavelet"):
                s = list(x.shape)
                s[pick(rng, axs)] = 0
                out.append(("empty data", {"data": np.zeros(s, x.dtype), **({"levels": 1} if n == "fswavedecn" else {})}))
            out.append(("0-d data", {"data": np.asarray(x.flat[0])}))
            if n in ("downcoef", "upcoef"):
                out.append(("2-d data", {"data": np.zeros((4, 4))}))
            if n in ("dwt2", "wavedec2", "swt2", "mra2"):
                out.append(("1-d data", {"data": np.ones(16)}))
            if n in ("dwt", "downcoef", "dwt2", "dwtn", "wavedec", "wavedec2", "wavedecn", "fswavedecn"):
                # a transformed axis of length 1 with a reflecting mode, at the first or a later level
                m = pick(rng, ["reflect", "antireflect"])
                ax = pick(rng, axs)
                s = list(x.shape)
                s[ax] = 1
                mm = m
                if isinstance(a["mode"], (list, tuple)) and len(a["mode"]) > 1:
                    mm = [m] * len(a["mode"])
                r = {"data": np.ones(s, x.dtype), "mode": mm}
                if "level" in a and n != "downcoef":
                    r["level"] = 1 if n in ("wavedec", "wavedec2") or a["level"] in (None, 0) else a["level"]
                if n == "fswavedecn":
                    r["levels"] = 1
                out.append(("length 1 reflected", r))
                w = a["wavelet"]
                if n in ("wavedec", "downcoef", "wavedec2"):
                    # haar halves the length: 2**k reaches 1 after k levels and must be refused at level k + 1
                    k = int(rng.integers(1, 4))
                    s[ax] = 2 ** k
                    for q in axs:
                        s[q] = 2 ** k if n == "wavedec2" else s[q]
                    r = {"data": np.ones(s, x.dtype), "mode": m, "wavelet": pick(rng, ["haar", "db1"]), "level": k + int(rng.integers(1, 3))}
                    out.append(("length 1 reached by levels", r))
    if n == "idwt":
        cA, cD = a["cA"], a["cD"]
        if cA is not None and cD is not None:
            ax = norm_axes(c, a, nd)[0]
            if cD.size:
                which, v = [("cA", cA), ("cD", cD)][rng.integers(2)]
                q = ax if rng.random() < .6 else int(rng.integers(v.ndim))
                out.append(("coefficient shapes", {which: resized(rng, v, q, v.shape[q] + pick(rng, [-1, 1, 1, 2, -2, v.shape[q]]))}))
        out.append(("both None", {"cA": None, "cD": None}))
        z = list(arrs[0].shape)
        z[norm_axes(c, a, nd)[0]] = 0
        out.append(("empty coefficients", {"cA": np.zeros(z), "cD": np.zeros(z)}))
        bad = pick(rng, ["abc", object(), ["a", "b"], {"a": 1}])
        out.append(("not numeric", {"cA": bad, "cD": None} if rng.random() < .5 else {"cD": bad, "cA": None}))
    if n == "idwtn" and isinstance(a["coeffs"], dict):
        d = dict(a["coeffs"])
        k = len(next(iter(d)))
        real = [q for q in d if d[q] is not None]
        if len(real) > 1:
            q = pick(rng, real)
            e = dict(d)
            ax = int(rng.integers(nd))
            e[q] = np.concatenate([d[q], np.take(d[q], [0], axis=ax)], axis=ax)
            out.append(("coefficient shapes", {"coeffs": e}))
        e = dict(d)
        e[pick(rng, ["x" * k, "A" * k, "q", "ab"[:k] + "z"])] = d[real[0]]
        out.append(("unknown subband", {"coeffs": e}))
        out.append(("empty dict", {"coeffs": {}}))
        q = pick(rng, real)
        out.append(("subband names of different lengths", {"coeffs": {**d, pick(rng, [q + pick(rng, "ad")] + ([q[:-1]] if k > 1 else [])): d[q]}}))
        out.append(("all None", {"coeffs": {q: None for q in d}}))
    if n in ("waverec", "waverec2", "waverecn") and len(a["coeffs"]) > 1:
        cs = list(a["coeffs"])
        out.append(("empty list", {"coeffs": []}))
        out.append(("not a list", {"coeffs": pick(rng, [None, 5, "abc", object(), {"a": 1}])}))
        lens = [v if n == "waverec" else v[0] if n == "waverec2" and isinstance(v, tuple) else next(iter(v.values()), None) if isinstance(v, dict) else v for v in cs]
        if all(v is not None for v in lens) and cs[0] is not None and lens[1].size:
            e = list(cs)
            i = int(rng.integers(1, len(cs)))
            axs = norm_axes(c, a, nd)
            q = int(rng.integers(nd))
            k = lens[i].shape[q]
            if q in axs:                # one sample less than the approximation is documented
                new = k + (pick(rng, [2, 3, -2, k + 2]) if i > 1 else pick(rng, [1, 2, -2, k + 1]))
            else:
                new = k + pick(rng, [1, -1, 2, -2])
            if new > 0:
                f = lambda v: None if v is None else resized(rng, v, q, new)
                e[i] = f(e[i]) if n == "waverec" else tuple(map(f, e[i])) if n == "waverec2" else {t: f(v) for t, v in e[i].items()}
                out.append(("coefficient shapes" if q in axs else "batch shapes", {"coeffs": e}))
            if q not in axs:
                # everything coarser than level j has one more row along the batch axis
                j = int(rng.integers(1, len(cs)))
                f = lambda v: None if v is None else resized(rng, v, q, v.shape[q] + 1)
                out.append(("batch shapes", {"coeffs": [f(v) if t == 0 or n == "waverec" else tuple(map(f, v)) if n == "waverec2" else
                                                        {u: f(b) for u, b in v.items()} for t, v in enumerate(cs[:j])] + cs[j:]}))
            if new <= 0 and q not in axs:
                j = 0 if n == "waverec" or rng.random() < .5 else i
                if j == 0:
                    e[0] = resized(rng, e[0], q, k + 1)
                    out.append(("batch shapes", {"coeffs": e}))
        if n == "waverec2":
            e = list(cs)
            i = int(rng.integers(1, len(cs)))
            e[i] = pick(rng, [e[i][:2], e[i] + e[i][:1], e[i][0], 5])
            if not isinstance(e[i], tuple) or len(e[i]) != 3:
                if not (isinstance(e[i], np.ndarray) and len(e[i]) == 3):
                    out.append(("subband tuple", {"coeffs": e}))
        if n == "waverecn":
            e = list(cs)
            i = int(rng.integers(1, len(cs)))
            if isinstance(e[i], dict) and e[i]:
                d = dict(e[i])
                d[pick(rng, ["x", "A", "zz"]) * 1] = next(iter(d.values()))
                e[i] = d
                out.append(("unknown subband", {"coeffs": e}))
                d = dict(cs[i])
                q = next(iter(d))
                d[q + "d" if len(q) < 2 or rng.random() < .5 else q[:-1]] = d[q]
                out.append(("subband names of different lengths", {"coeffs": cs[:i] + [d] + cs[i + 1:]}))
                # multilevel: a detail set to None is refused with advice, one left out stands for zeros
                d = dict(cs[i])
                d[q] = None
                out.append(("detail set to None", {"coeffs": cs[:i] + [d] + cs[i + 1:]}))
    if n == "iswtn" and isinstance(a["coeffs"], list) and a["coeffs"]:
        cs = list(a["coeffs"])
        i = len(cs) - 1
        if isinstance(cs[i], dict) and cs[i]:
            d = dict(cs[i])
            q = pick(rng, sorted(d))
            d[q + "d" if len(q) < 2 or rng.random() < .5 else q[:-1]] = d[q]
            out.append(("subband names of different lengths", {"coeffs": cs[:i] + [d]}))
    if n == "fswaverecn":
        out.append(("not a result", {"fswavedecn_result": pick(rng, [None, arrs[0], [arrs[0]], 5, "x"])}))
    if n in ("iswt", "iswt2", "iswtn"):
        out.append(("empty list", {"coeffs": []}))
    if n in ("array_to_coeffs",):
        out.append(("coeff_slices", {"coeff_slices": pick(rng, [[], None, 5, [("a",)]])}))
    if n in ("coeffs_to_array", "ravel_coeffs") and len(a["coeffs"]) > 1:
        cs = list(a["coeffs"])
        out.append(("not a list", {"coeffs": pick(rng, [None, 5, "abc", object()])}))
        d = dict(cs[-1])
        d[pick(rng, ["x", "q"]) * len(next(iter(d)))] = next(iter(d.values()))
        if n == "coeffs_to_array":
            out.append(("unknown subband", {"coeffs": cs[:-1] + [d]}))
    return out


def invalid(ctx):
    rng = ctx.rng
    pool = {**api.TRANSFORMS, **api.PACKING, **api.POINTWISE, **api.PACKETS, **{k: api.META[k] for k in ("lens", "demo", "s2f", "central", "integrate", "wavedecn_shapes")}}
    c = api.make(rng, pool, dt=gen.FLOATS[rng.integers(4)] if rng.random() < .4 else "<f8")
    if c.identity and rng.random() < .9:
        c = api.make(rng, pool)
    b = api.bind(c)
    if b is None or c.identity:
        from rt.core import Skip
        raise Skip
    first = c.outcome()
    ctx.check(first[0] == "ok", "unexpected exception", lambda: f"{c!r} raised {first[1:]}")
    keep = api.frozen(first[1])
    muts = mutations(rng, c, b)
    if not muts:
        from rt.core import Skip
        raise Skip
    for label, new in [muts[i] for i in rng.permutation(len(muts))[:2]]:
        b2 = api.bind(c)
        b2.apply_defaults()
        b2.arguments.update(new)
        h = c.with_args(list(b2.args), dict(b2.kwargs))
        judge(ctx, h, c.name, label)
    ctx.sig(c.name, [m[0] for m in muts], repr(c)[:300])
    again = c.outcome()
    d = diff_bits(keep, again[1]) if again[0] == "ok" else str(again[1:])
    ctx.check(d is None, f"unusable after failures:{c.name}", lambda: f"{c!r} after rejected calls: {d}")
    ctx.see("valid call repeated")


def judge(ctx, h, name, label):
    ctx.trace.append(f"{label}: {h!r}"[:600])
    t0 = time.process_time()
    try:
        r = h.run()
    except OK as e:
        ctx.check(True, "")
        ctx.see("rejected " + label)
        ctx.see("exception " + type(e).__name__)
        ctx.sh.rejections[name] += 1
    except Exception as e:
        ctx.fail(f"wrong exception:{name}:{label}", f"{h!r} raised {type(e).__name__}: {str(e)[:200]}")
    else:
        from rt.core import result_shape
        ctx.fail(f"accepted:{name}:{label}", f"{h!r} was accepted and returned {result_shape(r)}")
    t = time.process_time() - t0
    ctx.check(t < LIMIT, f"slow rejection:{name}:{label}", lambda: f"{h!r} took {t:.1f} s of CPU to be rejected")


def hostile(ctx):
    """Anything at all: a result or an ordinary exception, soon."""
    rng = ctx.rng
    c = api.make(rng, {**api.ALL, **api.PACKETS}, dt=gen.FLOATS[rng.integers(4)])
    h = api.hostile(rng, c)
    ctx.sig(c.name, repr(h)[:400])
    ctx.trace.append(repr(h)[:600])
    t0 = time.process_time()
    out = h.outcome()
    t = time.process_time() - t0
    ctx.see(out[0] if out[0] == "ok" else "raised " + out[1])
    ctx.check(out[0] == "ok" or out[1] not in NEVER, f"wrong exception:{c.name}", lambda: f"{h!r} raised {out[1:]}"[:900])
    ctx.check(t < LIMIT, f"slow:{c.name}", lambda: f"{h!r} took {t:.1f} s of CPU")
    ctx.sh.worst["seconds of CPU / limit"] = max(ctx.sh.worst.get("seconds of CPU / limit", 0), t / LIMIT)
    if c.note != "hostile" and rng.random() < .3:
        again = c.outcome()
        ctx.check(again[0] == "ok", f"unusable after failures:{c.name}", lambda: f"{c!r} after {h!r}: {again[1:]}")


def packets(ctx):
    """Node access, levels and edits outside a packet tree's domain."""
    rng = ctx.rng
    cls = int(rng.integers(1, 4))
    w = gen.builtin(rng, ["haar", "db2", "sym3"])
    nd = {1: 1, 2: 2, 3: int(rng.integers(1, 4))}[cls]
    x = rng.normal(size=(16,) * nd)
    wp = api.packet(x, cls, w.arg, "symmetric", -1 if cls == 1 else (0, 1) if cls == 2 else tuple(range(nd)))
    L = int(rng.integers(1, min(2, wp.maxlevel) + 1))
    good = wp.get_level(L) if cls == 3 or rng.random() < .5 else wp.get_level(L, "freq")
    ref0 = [n.data.copy() for n in api.flat_nodes(good)]
    letters = {1: "ad", 2: "ahvd"}.get(cls)
    mx = wp.maxlevel
    path = "a" * (nd if cls == 3 else 1)
    acts = {
        "bad letter": lambda: wp[pick(rng, ["x", "A", "q", path + "z", "b" * nd, "0"]) if cls < 3 else "x" * nd],
        "too deep": lambda: wp[path * (mx + 1)],
        "get_level too deep": lambda: wp.get_level(mx + 1),
        "bad key type": lambda: wp[pick(rng, [object(), 1.5, {}, b"a", lambda: 0])],
        "bad order": lambda: wp.get_level(1, "nope") if cls < 3 else wp["x" * nd],
        "bad node value": lambda: wp.__setitem__(path, pick(rng, ["abc", object(), np.array(["a"])])),
        "bad wavelet": lambda: api.packet(x, cls, pick(rng, ["nope", "mexh", 5]), "symmetric", -1 if cls == 1 else (0, 1) if cls == 2 else None),
        "bad mode": lambda: api.packet(x, cls, "haar", pick(rng, ["nope", -1, 9]), -1 if cls == 1 else (0, 1) if cls == 2 else None).get_level(1),
        "bad axes": lambda: api.packet(x, cls, "haar", "zero", pick(rng, [7, -9]) if cls == 1 else pick(rng, [(0, 7), (0, 0), (-9, 1)])).get_level(1),
        "missing node": lambda: wp.get_node(path * (mx + 1)) if False else wp.__delitem__(pick(rng, [object(), 5])),
    }
    if cls == 3 and nd == 1:
        acts["bad axes"] = lambda: api.packet(x, 3, "haar", "zero", pick(rng, [(7,), (-9,), (0, 0)])).get_level(1)
    if cls == 3:
        acts["partial node name"] = lambda: wp["a" * (nd + 1)] if nd > 1 else wp["x"]
        acts["bad order"] = acts["bad letter"]
    names = list(acts)
    for k in rng.integers(0, len(names), 4):
        nme = names[k]
        ctx.trace.append(f"class {cls} rank {nd} {w.label}: {nme}")
        try:
            r = acts[nme]()
        except OK as e:
            ctx.check(True, "")
            ctx.see("packets " + nme)
        except Exception as e:
            ctx.fail(f"wrong exception:packets:{nme}", f"class {cls} rank {nd}: {nme} raised {type(e).__name__}: {e}")
        else:
            ctx.fail(f"accepted:packets:{nme}", f"class {cls} rank {nd} {w.label} maxlevel {mx}: {nme} was accepted: {type(r).__name__}")
    ctx.sig(cls, nd, w.label, L, names)
    now = [wp[n.path].data for n in api.flat_nodes(good)]
    for p, q in zip(ref0, now):
        d = diff_bits(p, np.asarray(q))
        ctx.check(d is None, "packets changed by a rejected access", lambda: f"class {cls}: {d}")


FAMILIES = [Family(invalid, 16000, 200000), Family(hostile, 16000, 250000), Family(packets, 1500, 15000)]
