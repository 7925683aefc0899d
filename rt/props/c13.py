"""C13: the built-in filter banks, their metadata and identities."""
import numpy as np

import pywt
from rt import gen
from rt.fam import Family

FILTERS = ("dec_lo", "dec_hi", "rec_lo", "rec_hi")
META = ("orthogonal", "biorthogonal", "symmetry", "family_name", "short_family_name", "vanishing_moments_psi",
        "vanishing_moments_phi", "family_number")
# how well the published coefficients themselves satisfy their identities (they are printed with 11-16 digits)
TOL = {"bior": 1e-11, "rbio": 1e-11, "sym": 1e-10, "dmey": 2.5e-3}
EXTRACT = [np.float64, np.float32, np.complex128, np.complex64]


def fam_of(name):
    return "".join(c for c in name if c.isalpha())


def ulp_close(ctx, got, want, dt, key, what):
    got, want = np.asarray(got), np.asarray(want, dtype=dt)
    ctx.check(got.shape == want.shape, key + ":shape", lambda: f"{what}: {got.shape} instead of {want.shape}")
    d = np.abs(got.astype(np.float64) - want.astype(np.float64))
    ok = d <= 2 * np.spacing(np.abs(want)).astype(np.float64)
    ctx.check(bool(np.all(ok)), key, lambda: f"{what}: tap {int(np.argmin(ok))} is {got[np.argmin(ok)]!r}, published "
              f"{want[np.argmin(ok)]!r}")


def identities(ctx, w, name):
    F = w.dec_len
    dl, dh, rl, rh = (np.asarray(getattr(w, f)) for f in FILTERS)
    fam = fam_of(name)
    tol = TOL.get(fam, 1e-13)

    def corr(a, b):
        return np.convolve(a, b)[(F - 1) % 2::2]
    delta = np.zeros(len(corr(rl, dl)))
    delta[len(delta) // 2] = 1
    for a, b, t, what in ((rl, dl, delta, "rec_lo*dec_lo"), (rh, dh, delta, "rec_hi*dec_hi"), (rl, dh, 0 * delta, "rec_lo*dec_hi"),
                          (rh, dl, 0 * delta, "rec_hi*dec_lo")):
        e = float(np.max(np.abs(corr(a, b) - t)))
        ctx.check(e <= tol, "biorthogonality", lambda: f"{name}: {what} deviates by {e:.3g}")
    for f, h in (("dec_lo", dl), ("rec_lo", rl)):
        ctx.check(abs(h.sum() - np.sqrt(2)) <= tol, "sum", lambda: f"{name}: sum of {f} is {h.sum()!r}")
    for f, h in (("dec_hi", dh), ("rec_hi", rh)):
        ctx.check(abs(h.sum()) <= tol, "sum", lambda: f"{name}: sum of {f} is {h.sum()!r}")
    sg = (-1.0) ** np.arange(F)
    for a, b, what in ((rh, dl, "rec_hi/dec_lo"), (dh, rl, "dec_hi/rec_lo")):
        e = min(np.max(np.abs(a - s * sg * b)) for s in (1, -1))
        ctx.check(e <= 1e-15, "alternating flip", lambda: f"{name}: {what} deviates by {e:.3g}")
    if w.orthogonal:
        for f, h in zip(FILTERS, (dl, dh, rl, rh)):
            ctx.check(abs((h ** 2).sum() - 1) <= tol, "energy", lambda: f"{name}: energy of {f} is {(h ** 2).sum()!r}")
        ctx.check(np.max(np.abs(dl - rl[::-1])) <= 1e-15 and np.max(np.abs(dh - rh[::-1])) <= 1e-15, "time reversal",
                  f"{name}: dec is not rec reversed")
        q = np.asarray(ctx.call(pywt.qmf, rl))
        ctx.check(np.max(np.abs(q - rh)) <= 1e-15, "qmf", f"{name}: qmf(rec_lo) is not rec_hi")
        b = ctx.call(pywt.orthogonal_filter_bank, rl)
        for f, g, h in zip(FILTERS, b, (dl, dh, rl, rh)):
            ctx.check(np.max(np.abs(g - h)) <= 4 * tol, "orthogonal_filter_bank", lambda: f"{name}: {f}")
        ctx.see("orthogonal banks")
    if w.biorthogonal:
        ctx.see("biorthogonal banks")
    ctx.check(bool(w.biorthogonal) or not w.orthogonal, "flags", f"{name} orthogonal but not biorthogonal")

    def moments(h, k, what, start=0, centre=None):
        t = (np.arange(F) - ((F - 1) / 2 if centre is None else centre)) / F
        for m in range(start, min(k, 12)):
            v = abs((t ** m * h).sum())
            ctx.check(v <= tol * 10, "vanishing moments", lambda: f"{name}: moment {m} of {what} is {v:.3g}")
            ctx.see("vanishing moments")
    psi, phi = w.vanishing_moments_psi or 0, w.vanishing_moments_phi or 0
    if name in ("bior5.5", "rbio5.5"):
        phi = min(phi, 4)           # the order in the published name overstates the dual filter's moments by one
    if fam == "rbio":
        moments(rh, psi, "rec_hi")
        moments(dh, phi, "dec_hi")
    elif fam == "bior":
        moments(dh, psi, "dec_hi")
        moments(rh, phi, "rec_hi")
    else:
        moments(dh, psi, "dec_hi")
        moments(rh, psi, "rec_hi")
        if fam == "coif":
            moments(rl, phi + 1, "rec_lo", 1, (np.arange(F) * rl).sum() / rl.sum())
    if w.symmetry == "symmetric" and fam in ("bior", "rbio", "dmey"):
        for f, h in zip(FILTERS, (dl, dh, rl, rh)):
            nz = np.flatnonzero(np.abs(h) > 1e-12)
            s = h[nz[0]:nz[-1] + 1]
            e = min(np.max(np.abs(s - s[::-1])), np.max(np.abs(s + s[::-1])))
            ctx.check(e <= 2e-12, "symmetry", lambda: f"{name}: {f} is not symmetric ({e:.3g})")


def extract(ctx, w, name, dt):
    """Read the filters out of the kernels with impulses and compare with the published ones."""
    F = w.dec_len
    fb = gen.gold_bank(name)
    rdt = np.float32 if np.dtype(dt) in (np.float32, np.complex64) else np.float64
    unit = np.zeros(3 * F + 4, dt)
    got = {}
    one = 1j if np.dtype(dt).kind == "c" and ctx.rng.random() < .5 else 1.0

    def val(v):
        v = np.asarray(v)
        ctx.check(v.dtype == dt, "dtype", lambda: f"{name} {np.dtype(dt)}: output {v.dtype}")
        return (v / one).real if np.dtype(dt).kind == "c" else v
    i0 = F if F % 2 == 0 else F + 1
    parts = {}
    for i in (i0, i0 + 1):
        x = unit.copy()
        x[i] = one
        ca, cd = ctx.call(pywt.dwt, x, w, "zero")
        parts[i] = (val(ca), val(cd))
    for b, f in ((0, "dec_lo"), (1, "dec_hi")):
        h = np.zeros(F, rdt)
        for j in range(F):          # cA[k] = sum_i dec[2k+1-i] x[i]
            i = i0 if (j + i0 + 1) % 2 == 0 else i0 + 1
            h[j] = parts[i][b][(j + i - 1) // 2]
        got["dwt " + f] = (h, f)
    n = F + 3
    c = np.zeros(n, dt)
    k = F // 2 + 1
    c[k] = one
    z = np.zeros(n, dt)
    for b, f in (((c, z), "rec_lo"), ((z, c), "rec_hi")):
        r = val(ctx.call(pywt.idwt, b[0], b[1], w, "symmetric"))       # r[m] = sum_i rec[m + F - 2 - 2 i] c[i]
        h = np.zeros(F, rdt)
        for j in range(F):
            m = j + 2 * k - F + 2
            h[j] = r[m]
        got["idwt " + f] = (h, f)
    for part, f in (("a", "rec_lo"), ("d", "rec_hi")):
        r = val(ctx.call(pywt.upcoef, part, np.array([one], dt), w, level=1))
        got["upcoef " + f] = (r[:F], f)
        x = unit.copy()
        x[i0] = one
        dc = val(ctx.call(pywt.downcoef, part, x, w, "zero"))
        g = "dec_lo" if part == "a" else "dec_hi"
        js = [j for j in range(F) if (j + i0 + 1) % 2 == 0]
        ulp_close(ctx, [dc[(j + i0 - 1) // 2] for j in js], getattr(fb, g)[js], rdt, "kernel filter",
                  f"{name} {np.dtype(dt)} downcoef {g}")
    N = 2 * F + 2
    x = np.zeros(N, dt)
    x[0] = one
    ca, cd = ctx.call(pywt.swt, x, w, 1)[0]
    for v, f in ((val(ca), "dec_lo"), (val(cd), "dec_hi")):
        # swt[i] = sum_j f[j] x[i + F/2 - j]
        got["swt " + f] = (np.array([v[(j - F // 2) % N] for j in range(F)], v.dtype), f)
    for what, (h, f) in got.items():
        ulp_close(ctx, h, getattr(fb, f), rdt, "kernel filter", f"{name} {np.dtype(dt)} {what}")
        ctx.see("kernel filters read back")


def table(ctx):
    rng = ctx.rng
    name = gen.DISCRETE[ctx.index % len(gen.DISCRETE)]
    lap = ctx.index // len(gen.DISCRETE)
    spelled = name if lap == 0 else gen.rand_case(rng, name)
    ctx.sig(name, spelled)
    make = pywt.Wavelet if rng.random() < .6 else pywt.DiscreteContinuousWavelet
    w = ctx.call(make, spelled)
    g = gen.GOLD["discrete"][name]
    ctx.check(isinstance(w, pywt.Wavelet), "class", f"{name} gives a {type(w)}")
    ctx.equal(w.name, name, "name", f"name of Wavelet({spelled!r})")
    for f in FILTERS:
        want = [float.fromhex(v) for v in g[f]]
        got = getattr(w, f)
        ctx.check(isinstance(got, list), "filter type", f"{f} is a {type(got)}")
        ulp_close(ctx, got, want, np.float64, "published filter", f"{name}.{f}")
    ctx.equal((len(w), w.dec_len, w.rec_len), (len(g["dec_lo"]),) * 3, "length", f"lengths of {name}")
    for k in META:
        ctx.equal(getattr(w, k), g[k], "metadata:" + k, f"{name}.{k}")
    ctx.same(w.filter_bank, tuple(getattr(w, f) for f in FILTERS), "filter_bank", name)
    ctx.same(w.inverse_filter_bank, (w.rec_lo[::-1], w.rec_hi[::-1], w.dec_lo[::-1], w.dec_hi[::-1]), "inverse_filter_bank", name)
    identities(ctx, w, name)
    for dt in EXTRACT:
        extract(ctx, w, name, dt)
    fam = fam_of(name)
    if fam in ("bior", "rbio"):
        o = ctx.call(pywt.Wavelet, ("rbio" if fam == "bior" else "bior") + name[4:])
        ctx.same(w.filter_bank, (o.rec_lo[::-1], o.rec_hi[::-1], o.dec_lo[::-1], o.dec_hi[::-1]), "rbio/bior pair", name)
        ctx.same(w.filter_bank, o.inverse_filter_bank, "inverse_filter_bank", name)
        ctx.see("bior/rbio pairs")
    if name in ("haar", "db1", "bior1.1", "rbio1.1"):
        ctx.same(pywt.Wavelet("haar").filter_bank, pywt.Wavelet(name).filter_bank, "haar", name)


def names(ctx):
    rng = ctx.rng
    G = gen.GOLD["meta"]
    r = rng.integers(6)
    ctx.sig("names", int(r), ctx.index)
    if r == 0:
        ctx.equal(ctx.call(pywt.wavelist), G["wavelist"], "wavelist", "wavelist()")
        for kind, keep in (("discrete", gen.GOLD["discrete"]), ("continuous", gen.GOLD["continuous"]), ("all", None)):
            want = [n for n in G["wavelist"] if keep is None or n in keep]
            ctx.equal(ctx.call(pywt.wavelist, kind=kind), want, "wavelist kind", kind)
        ctx.equal(ctx.call(pywt.families), G["families"], "families", "families()")
        ctx.equal(ctx.call(pywt.families, False), G["families_long"], "families", "families(False)")
        for f, want in G["by_family"].items():
            ctx.equal(ctx.call(pywt.wavelist, f), want, "wavelist family", f)
            ctx.equal(ctx.call(pywt.wavelist, f, kind=["all", "discrete", "continuous"][rng.integers(3)]), want,
                      "wavelist family", f)
        ctx.raises(pywt.wavelist, "foo", exc=ValueError)
        ctx.raises(pywt.wavelist, kind="foo", exc=ValueError)
        # what a caller does to the lists is its own business
        a = pywt.wavelist()
        a.clear()
        ctx.equal(pywt.wavelist(), G["wavelist"], "wavelist", "after clearing an earlier result")
        b = pywt.families()
        b.clear()
        ctx.equal(pywt.families(), G["families"], "families", "after clearing an earlier result")
        return
    alpha = "abcdefghijklmnopqrstuvwxyz0123456789.- _\0é"
    pool = gen.DISCRETE + [c for c in gen.CONTINUOUS if c[:4] not in ("cmor", "shan", "fbsp")]
    for _ in range(12):
        n = list(pool[rng.integers(len(pool))])
        for _ in range(int(rng.integers(0, 3))):
            i = int(rng.integers(len(n) + 1))
            op = rng.integers(3)
            c = alpha[rng.integers(len(alpha))]
            if op == 0:
                n.insert(i, c)
            elif n:
                i = min(i, len(n) - 1)
                if op == 1:
                    n[i] = c
                else:
                    n.pop(i)
        n = gen.rand_case(rng, "".join(n))
        if n[:4].lower() in ("cmor", "shan", "fbsp"):
            continue
        low = n.lower()
        for cls, known in ((pywt.Wavelet, gen.DISCRETE), (pywt.ContinuousWavelet, gen.CONTINUOUS),
                           (pywt.DiscreteContinuousWavelet, pool)):
            if low in known:
                w = ctx.call(cls, n)
                ctx.equal(w.name, low, "name", f"{cls.__name__}({n!r})")
                ctx.see("constructed names")
            else:
                ctx.raises(cls, n, exc=(ValueError, TypeError) if not n else ValueError, key="unknown name accepted")
                ctx.see("rejected names")


def functions(ctx):
    rng = ctx.rng
    L = int(rng.integers(1, 40))
    f = rng.normal(size=L) if rng.random() < .7 else rng.integers(-9, 9, L)
    how = rng.integers(3)
    arg = f if how == 0 else list(f.tolist()) if how == 1 else gen.layout(rng, f)
    ctx.sig("functions", L, int(how), str(f.dtype))
    q = ctx.call(pywt.qmf, arg)
    want = np.array([(-1) ** k * f[L - 1 - k] for k in range(L)])
    ctx.check(np.array_equal(q, want), "qmf", lambda: f"qmf({f}) = {q}")
    if L > 1 and L % 2 == 0:
        ctx.check(np.array_equal(ctx.call(pywt.qmf, q), -f), "qmf twice", "qmf of qmf")
    h = gen.lattice(rng)
    c = float(rng.uniform(.2, 3)) * rng.choice([-1, 1])
    s = h.sum()
    if abs(s) > .05:
        want = gen.orth_bank(h * np.sqrt(2) / s)
        arg = h * c
        bank = ctx.call(pywt.orthogonal_filter_bank, arg.tolist() if rng.random() < .3 else gen.layout(rng, arg))
        ctx.equal(len(bank), 4, "orthogonal_filter_bank", "length")
        for name, g, e in zip(FILTERS, bank, want):
            ctx.close(g, e, "orthogonal_filter_bank", name, scale=np.max(np.abs(h)) / abs(s), factor=1000)
        # the numbers count, not the type they come in
        low = (arg / np.max(np.abs(arg)) * 100).astype(["<f4", ">f8", "<i4", "<f2"][rng.integers(4)])
        if abs(float(low.astype(float).sum())) > 1:
            sc = 150 * len(low) / abs(float(low.astype(float).sum()))
            for name, g, e in zip(FILTERS, ctx.call(pywt.orthogonal_filter_bank, low), ctx.call(pywt.orthogonal_filter_bank, low.astype(float).tolist())):
                ctx.close(g, e, "orthogonal_filter_bank:type", f"{name} from {low.dtype}", scale=sc, factor=64)
        w = ctx.call(pywt.Wavelet, "o", bank)
        ctx.same(w.filter_bank, tuple(b.tolist() for b in bank), "custom bank", "Wavelet of orthogonal_filter_bank")
        ctx.same(w.inverse_filter_bank, tuple(b[::-1].tolist() for b in (bank[2], bank[3], bank[0], bank[1])),
                 "inverse_filter_bank", "custom")
        ctx.see("orthogonal filter banks built")
    ctx.raises(pywt.orthogonal_filter_bank, rng.normal(size=2 * int(rng.integers(0, 10)) + 1), exc=ValueError)


FAMILIES = [Family(table, len(gen.DISCRETE) * 2, len(gen.DISCRETE) * 40), Family(names, 300, 20000), Family(functions, 1500, 60000)]
