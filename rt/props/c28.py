"""C28: demo signals against the published formulas; data loaders against recorded contents, under histories of writes."""
import hashlib
import math

import numpy as np

import pywt
import pywt.data
from rt import gen
from rt.fam import Family

NAMES = ['Blocks', 'Bumps', 'HeaviSine', 'Doppler', 'Ramp', 'HiSine', 'LoSine', 'LinChirp', 'TwoChirp', 'QuadChirp', 'MishMash',
         'WernerSorrows', 'HypChirps', 'LinChirps', 'Chirps', 'Gabor', 'sineoneoverx', 'Piece-Regular', 'Piece-Polynomial', 'Riemann']
FIXED = {"gabor": 512, "sineoneoverx": 1024}
POS = [.1, .13, .15, .23, .25, .40, .44, .65, .76, .78, .81]
BLK = [4, -5, 3, -4, 5, -4.2, 2.1, 4.3, -3.1, 2.1, -4.2]
HGT = [4, 5, 3, 4, 5, 4.2, 2.1, 4.3, 3.1, 5.1, 4.2]
WTH = [.005, .005, .006, .01, .01, .03, .01, .01, .005, .008, .005]
pi = np.pi


def bumps(t):
    f = np.zeros(len(t))
    for p, h, w in zip(POS, HGT, WTH):
        f += h * (1 + abs((t - p) / w)) ** -4.0
    return f


def half_cosine(p):
    """Rising cut-off of p samples."""
    return np.array([(1 + math.sin(-pi / 2 + k / (p - 1) * pi)) / 2 if p > 1 else 0.0 for k in range(p)])


def formula(name, n):
    """(values, mask of samples sitting on a discontinuity of the formula). Where the grid point i/n and the position of a jump are the same
    real number they are the same double, so the value there is settled: sign(0) = 0 and >= as published."""
    i = np.arange(1, n + 1, dtype=float)
    t = i / n
    no = np.zeros(n, bool)

    def edge(*pts):
        return np.min([abs(t - p) for p in pts], axis=0) < 1e-9
    if name == "blocks":
        f = np.zeros(n)
        for p, h in zip(POS, BLK):
            f += h * (1 + np.sign(t - p)) / 2
        return f, edge(*POS)
    if name == "bumps":
        return bumps(t), no
    if name == "heavisine":
        return 4 * np.sin(4 * pi * t) - np.sign(t - .3) - np.sign(.72 - t), edge(.3, .72)
    if name == "doppler":
        return np.sqrt(t * (1 - t)) * np.sin(2.1 * pi / (t + .05)), no
    if name == "ramp":
        return t - (t >= .37), edge(.37)
    if name == "hisine":
        return np.sin(pi * .6902 * i), no
    if name == "losine":
        return np.sin(pi * .3333 * i), no
    if name == "linchirp":
        return np.sin(pi * .5 * i * t), no
    if name == "twochirp":
        return np.sin(pi * i * t) + np.sin(pi / 3 * i * t), no
    if name == "quadchirp":
        return np.sin(pi / 3 * i * t * t), no
    if name == "mishmash":
        return np.sin(pi / 3 * i * t * t) + np.sin(pi * .6902 * i) + np.sin(pi * .125 * i * t), no
    if name == "wernersorrows":
        return np.sin(pi / 2 * i * t * t) + np.sin(pi * .6902 * i) + np.sin(pi * i * t) + bumps(t), no
    if name == "hypchirps":
        u = (i + .001) / n
        a, b = 15 * n * pi / 1024, 5 * n * pi / 1024
        with np.errstate(all="ignore"):
            f = np.where((u > .1) & (u < .68), np.sin(a / (.8 - u)), 0) + np.where((u > .1) & (u < .75), np.sin(b / (.8 - u)), 0)
        out = []
        for m in {int(np.floor(.65 * n + .5)), int(np.round(.65 * n))}:
            p = m // 4
            env = np.ones(m)
            r = half_cosine(p)
            env[:p] = r
            env[m - p:] = r[::-1]
            s = -(-n // 10) - 1
            e = np.zeros(n)
            e[s:s + m] = env[:n - s]
            out.append(f * e)
        return out, np.min([abs(u - p) for p in (.1, .68, .75)], axis=0) < 1e-9
    if name == "linchirps":
        a, b = 250 * n * pi / 1024, 100 * n * pi / 1024
        return np.sqrt((i - 1) / n * (1 - t)) * (np.cos(a * t * t) + np.cos(b * t + a * t * t)), no
    if name == "chirps":
        f1 = np.cos((t * 10 * pi) ** 2 * n / 1024)
        f2 = np.cos(30 * n / 1024 * (t[::-1] * pi) ** 3)

        def g(first):
            k = np.arange(first - n, first)     # grid position of the n samples starting at `first` in -n..n
            return np.exp(-(k / n * 20.0) ** 2 * 4 * n / 1024)
        f = f1 + f2 + g(n // 2) * np.cos(50 * pi * i / 1024) + g(n // 8) * np.cos(350 * pi * i / 1024)
        p = n // 8
        r = half_cosine(p)
        env = np.ones(n)
        env[:p] = r
        env[n - p:] = r[::-1]
        return f * env, no
    if name == "gabor":
        n = 512
        j = np.arange(1, n + 1) / n

        def g(first):
            return np.exp(-(np.arange(first - n, first) * 5 / n) ** 2 * 20)
        return 3 * g(n // 2) * np.exp(1j * 32 * pi * j) + 3 * g(n // 4) * np.exp(1j * 128 * pi * j), np.zeros(n, bool)
    if name == "sineoneoverx":
        k = np.arange(-511, 513, dtype=float)
        k[k == 0] = .01
        return np.sin(1.5 * 1023 / k), np.zeros(1024, bool)
    if name == "riemann":
        f = np.zeros(n)
        m = np.arange(n)
        for k in range(1, math.isqrt(n) + 1):
            f += np.cos(2 * pi * ((k * k - 1) * m % n) / n) / k
        return f / n, no
    if name == "piece-regular":
        q = {d: n // d for d in (2, 3, 5, 7, 12, 20)}
        f = np.zeros(n)
        b = -15 * bumps(t)
        u3 = np.arange(1, q[3] + 1) / q[3] if q[3] else np.zeros(0)
        six = -70 * np.exp(-((u3 - .5) ** 2) / (2 * .15 ** 2))
        for k in range(q[2]):
            if k < q[7]:
                f[k] = six[k]
            elif k < q[5]:
                f[k] = six[k] / 2
            elif k < q[3]:
                f[k] = six[k]
            else:
                f[k] = b[k]
        for k in range(q[12]):
            v = -math.exp(4 * (k + 1) / q[12])
            f[q[2] + k] = v
            f[q[2] + 2 * q[12] - 1 - k] = v
        k0 = q[2] + 2 * q[12] + q[20]
        f[k0:k0 + 2 * q[20]] = -25
        k0 += 2 * q[20]
        for k in range(q[7]):
            f[k0 + k] = math.exp(4 * (k + 1) / q[7]) - math.exp(4)
        d = n - 5 * q[5]
        f[5 * q[5]:] = f[:d][::-1]
        return f.sum() / n - f, no
    if name == "piece-polynomial":
        p, r, s = n // 5, n // 10, n // 20
        f = np.zeros(n)
        for k in range(p):
            u = (k + 1) / p
            f[k] = 20 * (u ** 3 + u ** 2 + 4)
            f[2 * p - 1 - k] = 10 * u ** 3 + 45
            f[2 * p + k] = 40 * (2 * u ** 3 + u) + 100
            f[3 * p + k] = 16 * u ** 2 + 8 * u + 16
            f[5 * p - 1 - k] = 20 * (u + 4)
        d = n - 5 * p
        f[5 * p:] = f[:d][::-1]
        f[s:s + r] = 10
        f[n - r:n - r + s] = 150
        return f - f.sum() / n, no
    raise AssertionError(name)


def signals(ctx):
    rng = ctx.rng
    if ctx.index < 20 * 40:
        name, n = NAMES[ctx.index % 20], ctx.index // 20 + 1
    else:
        name = NAMES[rng.integers(20)]
        k = rng.integers(5)
        n = int([rng.integers(1, 260), 2 ** rng.integers(3, 13), rng.integers(1, 3000), 10 * rng.integers(1, 120), 100 * rng.integers(1, 30)][k])
    low = name.lower()
    arg = gen.rand_case(rng, name)
    narg = None if low in FIXED else [n, n, float(n), np.int64(n)][rng.integers(4)]
    if low in ("blocks", "heavisine", "ramp") and ctx.index >= 20 * 40 and rng.random() < .5:
        n = 100 * int(rng.integers(1, 40))               # a grid point on every jump
        narg = n
    ctx.sig(low, n if low not in FIXED else 0)
    ctx.see("signal " + low)
    f = ctx.call(pywt.data.demo_signal, arg, narg)
    N = FIXED.get(low, n)
    ctx.check(type(f) is np.ndarray and f.shape == (N,), "length", lambda: f"demo_signal({arg!r}, {narg}) has shape {np.shape(f)}")
    ctx.check(f.dtype == (np.complex128 if low == "gabor" else np.float64), "dtype", lambda: f"{name} {f.dtype}")
    ctx.check(bool(np.all(np.isfinite(f))), "not finite", lambda: f"demo_signal({arg!r}, {narg})")
    want, unsure = formula(low, N)
    tol = 1e-11 * max(1, N) * max(1.0, float(np.max(np.abs(f))))
    for w in want if isinstance(want, list) else [want]:
        bad = np.abs(f - w) > tol
        if not bad.any():
            break
    ctx.check(not bad.any(), "formula", lambda: f"demo_signal({name!r}, {N})[{int(np.argmax(bad))}] = {f[np.argmax(bad)]!r}, "
              f"expected {w[np.argmax(bad)]!r} ({int(bad.sum())} samples differ)")
    if unsure.any():
        ctx.see("samples on a jump", int(unsure.sum()))
    ctx.see("samples compared", N)
    # deterministic, and independent of what happens to earlier results
    keep = f.copy()
    f[...] = 7
    ctx.same(ctx.call(pywt.data.demo_signal, name, narg), keep, "determinism", f"second demo_signal({name!r}, {narg})")


def names(ctx):
    rng = ctx.rng
    kind = ["list", "unknown", "n for fixed", "no n", "bad n"][ctx.index % 5]
    ctx.sig(kind, ctx.index)
    ctx.see("names " + kind)
    if kind == "list":
        l = ctx.call(pywt.data.demo_signal, gen.rand_case(rng, "list"), [None, 5][rng.integers(2)])
        ctx.equal(l, NAMES, "list", "demo_signal('list')")
        l.clear()
        l.append("x")
        ctx.equal(ctx.call(pywt.data.demo_signal, "list"), NAMES, "list shared", "demo_signal('list') after editing the result")
    elif kind == "unknown":
        bad = ["nope", "", "block", "bumps ", "piece_regular", "sine", "listx", "doppler2"][rng.integers(8)]
        ctx.raises(pywt.data.demo_signal, bad, [16, 100][rng.integers(2)], exc=ValueError)
    elif kind == "n for fixed":
        nm = ["gabor", "SineOneOverX", "Gabor"][rng.integers(3)]
        ctx.raises(pywt.data.demo_signal, nm, [512, 1024, 1, 20][rng.integers(4)], exc=ValueError)
    elif kind == "no n":
        nm = [v for v in NAMES if v.lower() not in FIXED][rng.integers(18)]
        ctx.raises(pywt.data.demo_signal, gen.rand_case(rng, nm), exc=ValueError)
    else:
        nm = [v for v in NAMES if v.lower() not in FIXED][rng.integers(18)]
        ctx.raises(pywt.data.demo_signal, nm, [0, -1, -100, 1.5, 10.25, .5][rng.integers(6)], exc=ValueError)


SHA = {"aero": ("cc768db67eab13ef8dab887b1b4957796993f501035e8c230d736066de7a8f1e", (512, 512), np.uint8),
       "ascent": ("c7777d46c3f4e3119ddbec92ad28c09193202a7a4aab08622bc7e4b4a3ba88e6", (512, 512), np.uint8),
       "camera": ("5cb24482a53416f99052258be2b1ee38cd31c559a70c8a8b321cba231b332e21", (512, 512), np.uint8),
       "ecg": ("96b58a5df18fc798a1db5af5e7041d86ad0dce11f552420bf14a0cc07de66b89", (1024,), np.dtype("<i4"))}
_first = {}


def check_loader(ctx, name, r):
    if name == "nino":
        ctx.check(isinstance(r, tuple) and len(r) == 2, "loader", "nino does not return (time, sst)")
        t, s = r
        ctx.check(t.shape == s.shape == (264,) and t.dtype == s.dtype == np.float64, "loader shape", "nino")
        ctx.check(bool(np.all(t == 1950 + np.arange(264) / 4)), "loader value", "nino: quarterly time axis from 1950")
        ctx.check(abs(s.mean()) < 1e-12 and abs(s.std(ddof=1) - 1) < 1e-12, "loader value", "nino: standardised anomalies")
        for i, v in NINO.items():
            ctx.check(abs(s[i] - v) < 1e-7, "loader value", lambda: f"nino sst[{i}] = {s[i]!r}, expected {v}")
    else:
        sha, shape, dt = SHA[name]
        ctx.check(type(r) is np.ndarray and r.shape == shape and r.dtype == dt, "loader shape",
                  lambda: f"{name}: {np.shape(r)} {getattr(r, 'dtype', None)}")
        ctx.check(hashlib.sha256(np.ascontiguousarray(r).tobytes()).hexdigest() == sha, "loader value", lambda: f"{name} differs from the shipped data")
    parts = r if isinstance(r, tuple) else (r,)
    for p in parts:
        ctx.check(p.flags.writeable, "loader read-only", name)
    if name in _first:
        ctx.same(r, _first[name], "loader repeat", name)
    else:
        _first[name] = tuple(p.copy() for p in r) if isinstance(r, tuple) else r.copy()
    ctx.see("loads of " + name)


def loaders(ctx):
    """A history of loads, writes and transforms; every load must give the shipped data."""
    rng = ctx.rng
    held = []
    steps = []
    for _ in range(int(rng.integers(3, 12))):
        name = ["aero", "ascent", "camera", "ecg", "nino"][rng.integers(5)]
        r = ctx.call(getattr(pywt.data, name))
        check_loader(ctx, name, r)
        parts = r if isinstance(r, tuple) else (r,)
        for p in parts:
            for _, q, _ in held:
                ctx.check(not np.shares_memory(p, q), "loader alias", f"{name} shares memory with an earlier result")
            held.append((name, p, p.copy()))
        op = rng.integers(5)
        steps.append((name, int(op)))
        p = held[rng.integers(len(held))][1]
        if op == 0:
            p[...] = 3
        elif op == 1:
            p.sort(axis=0)
        elif op == 2:
            p.shape = (-1,)
            p[::2] = 0
        elif op == 3 and p.size:
            pywt.dwt(p, "db2")
        else:
            p.flat[rng.integers(p.size)] = 1
        if op != 3:
            held = [(a, b, b.copy()) if b is p else (a, b, c) for a, b, c in held]
        for a, b, c in held:
            ctx.same(b, c, "loader alias", f"an earlier {a} array changed")
    ctx.sig(tuple(steps))


NINO = {0: -0.654497834, 7: -0.030208617, 14: -0.31450934, 21: -0.044863294, 28: 0.224782753, 35: -0.798113664, 42:
        -0.76294244, 49: 0.3449511, 56: 0.415293547, 63: 0.350812971, 70: -1.275856116, 77: 1.455775576, 84: -0.739494958, 91:
        0.995618735, 98: -0.883110787, 105: 0.878381323, 112: 0.447533835, 119: -0.232443152, 126: -0.859663305, 133:
        2.493326669, 140: -0.220719411, 147: -0.068310776, 154: -1.706703604, 161: 1.165612982, 168: 1.479223058, 175:
        -0.502089199, 182: -1.053105034, 189: 1.69611227, 196: -0.068310776, 203: -1.082414387, 210: 0.078235989, 217:
        1.065961182, 224: 0.236506494, 231: -1.630499286, 238: 0.183749659, 245: 1.016135282, 252: 0.163233112, 259: 0.0459957,
        263: 1.540772699}
FAMILIES = [Family(signals, 4000, 40000), Family(names, 800, 2000), Family(loaders, 300, 3000)]
