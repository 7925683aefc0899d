"""Independent reference models (definitions), written from the documentation and not from the code.

Everything is float64/complex128 (or longdouble when asked) numpy; nothing here calls pywt.
A wavelet is a plain tuple of four coefficient lists (dec_lo, dec_hi, rec_lo, rec_hi).
"""
import functools
import numpy as np

MODES = ["zero", "constant", "symmetric", "reflect", "periodic", "smooth",
         "antisymmetric", "antireflect", "periodization"]


class FB:
    """Plain-value filter bank."""
    __slots__ = ("dec_lo", "dec_hi", "rec_lo", "rec_hi", "name", "dec_len", "rec_len")

    def __init__(self, bank, name=""):
        self.dec_lo, self.dec_hi, self.rec_lo, self.rec_hi = (np.asarray(b, dtype=np.float64) for b in bank)
        self.name = name
        self.dec_len = len(self.dec_lo)
        self.rec_len = len(self.rec_lo)


# --------------------------------------------------------------------------------------------------
# signal extension
# --------------------------------------------------------------------------------------------------

@functools.lru_cache(maxsize=4096)
def ext_terms(N, left, right, mode):
    """The extension as a sparse linear map.

    Returns (idx, w): out[i] = sum_t w[t, i] * x[idx[t, i]] for i = -left .. N+right-1.
    For 'periodization' N must already be even (see periodization_pad).
    """
    i = np.arange(-left, N + right)
    L = len(i)
    if mode == "smooth" and N == 1:
        mode = "constant"
    if mode in ("reflect", "antireflect") and N == 1:
        # x(-k) = 2 x(0) - x(k) etc. degenerate: a constant continuation (used by pad only)
        mode = "constant"
    z = np.zeros(L, dtype=np.intp)
    one = np.ones(L)
    if mode == "zero":
        ok = (i >= 0) & (i < N)
        return np.where(ok, i, 0)[None], np.where(ok, 1.0, 0.0)[None]
    if mode == "constant":
        return np.clip(i, 0, N - 1)[None], one[None]
    if mode in ("periodic", "periodization"):
        return (i % N)[None], one[None]
    if mode in ("symmetric", "antisymmetric"):
        r = i % (2 * N)
        second = r >= N
        idx = np.where(second, 2 * N - 1 - r, r)
        w = np.where(second, -1.0, 1.0) if mode == "antisymmetric" else one
        return idx[None], w[None]
    if mode == "reflect":
        P = 2 * N - 2
        r = i % P
        return np.where(r < N, r, P - r)[None], one[None]
    if mode == "antireflect":
        P = 2 * N - 2
        q, r = np.divmod(i, P)
        mirrored = r >= N
        base_idx = np.where(mirrored, P - r, r)
        base_w = np.where(mirrored, -1.0, 1.0)
        # mirrored part: 2*x[N-1] - x[P-r];  every full period adds 2*(x[N-1]-x[0])
        w_last = 2.0 * q + np.where(mirrored, 2.0, 0.0)
        w_first = -2.0 * q.astype(float)
        return (np.stack([base_idx, z + (N - 1), z]), np.stack([base_w, w_last, w_first]))
    if mode == "smooth":
        # straight line through the first two / last two samples
        idx0 = np.clip(i, 0, N - 1)
        k_left = np.where(i < 0, -i, 0).astype(float)
        k_right = np.where(i >= N, i - N + 1, 0).astype(float)
        return (np.stack([idx0, z, z + 1, z + (N - 1), z + (N - 2)]),
                np.stack([one, k_left, -k_left, k_right, -k_right]))
    raise ValueError(mode)


def extend(x, left, right, mode, axis=-1):
    """Extended copy of x along axis."""
    x = np.moveaxis(np.asarray(x), axis, -1)
    idx, w = ext_terms(x.shape[-1], left, right, mode)
    out = 0
    for t in range(idx.shape[0]):
        out = out + x[..., idx[t]] * w[t]
    return np.moveaxis(out, -1, axis)


def per_pad(x, axis=-1):
    """Odd-length signals are extended by their last sample before a cyclic transform."""
    if x.shape[axis] % 2 == 0:
        return x
    last = np.take(x, [-1], axis=axis)
    return np.concatenate([x, last], axis=axis)


# --------------------------------------------------------------------------------------------------
# single level
# --------------------------------------------------------------------------------------------------

def coeff_len(N, F, mode):
    return -(-N // 2) if mode == "periodization" else (N + F - 1) // 2


def _wide(x):
    x = np.asarray(x)
    if np.iscomplexobj(x):
        return x.astype(np.complex128)
    return x.astype(np.float64)


def dwt_part(x, filt, mode, axis=-1):
    x = np.moveaxis(_wide(x), axis, -1)
    f = np.asarray(filt, dtype=np.float64)
    F = len(f)
    if mode == "periodization":
        x = per_pad(x)
        N = x.shape[-1]
        k = np.arange(N // 2)
        centre = 2 * k + F // 2
        out = np.zeros(x.shape[:-1] + (len(k),), dtype=x.dtype)
        for j in range(F):
            out += f[j] * x[..., (centre - j) % N]
        return np.moveaxis(out, -1, axis)
    N = x.shape[-1]
    n_out = coeff_len(N, F, mode)
    # out[k] = sum_j f[j] * xe(2k+1-j); needs xe on [2-F .. , 2*n_out-1]
    left = max(F - 2, 0)
    right = max(2 * n_out - N, 0)
    xe = extend(x, left, right, mode)
    out = np.zeros(x.shape[:-1] + (n_out,), dtype=x.dtype)
    k = np.arange(n_out)
    for j in range(F):
        out += f[j] * xe[..., 2 * k + 1 - j + left]
    return np.moveaxis(out, -1, axis)


def dwt(x, fb, mode, axis=-1):
    return dwt_part(x, fb.dec_lo, mode, axis), dwt_part(x, fb.dec_hi, mode, axis)


def dwt_mag(x, filt, mode, axis=-1):
    """Sum of absolute products: scale for a rigorous rounding bound."""
    xe = np.abs(_wide(x))
    # the magnitude of extended samples: |w|-weighted; bound with the same kernel on |.|
    xm = np.moveaxis(xe, axis, -1)
    f = np.abs(np.asarray(filt, dtype=np.float64))
    F = len(f)
    if mode == "periodization":
        return np.moveaxis(dwt_part(xm, f, mode), -1, axis)
    N = xm.shape[-1]
    n_out = coeff_len(N, F, mode)
    left = max(F - 2, 0)
    right = max(2 * n_out - N, 0)
    idx, w = ext_terms(N, left, right, mode)
    ext = 0
    for t in range(idx.shape[0]):
        ext = ext + xm[..., idx[t]] * np.abs(w[t])
    out = np.zeros(xm.shape[:-1] + (n_out,))
    k = np.arange(n_out)
    for j in range(F):
        out += f[j] * ext[..., 2 * k + 1 - j + left]
    return np.moveaxis(out, -1, axis)


def idwt_part(c, filt, mode, axis=-1):
    c = np.moveaxis(_wide(c), axis, -1)
    g = np.asarray(filt, dtype=np.float64)
    F = len(g)
    n = c.shape[-1]
    if mode == "periodization":
        M = 2 * n
        out = np.zeros(c.shape[:-1] + (M,), dtype=c.dtype)
        k = np.arange(n)
        for j in range(F):
            out[..., (2 * k + j - (F // 2 - 1)) % M] += g[j] * c
        return np.moveaxis(out, -1, axis)
    full = np.zeros(c.shape[:-1] + (2 * n + F - 1,), dtype=c.dtype)
    k = np.arange(n)
    for j in range(F):
        full[..., 2 * k + j] += g[j] * c
    out = full[..., F - 2: 2 * n]
    return np.moveaxis(out, -1, axis)


def idwt_len(n, F, mode):
    return 2 * n if mode == "periodization" else 2 * n - F + 2


def idwt(cA, cD, fb, mode, axis=-1):
    out = None
    for c, g in ((cA, fb.rec_lo), (cD, fb.rec_hi)):
        if c is None:
            continue
        p = idwt_part(c, g, mode, axis)
        out = p if out is None else out + p
    return out


# --------------------------------------------------------------------------------------------------
# n-D
# --------------------------------------------------------------------------------------------------

def dwtn(x, fbs, modes, axes):
    """fbs, modes: one per axis in axes."""
    coeffs = {"": _wide(x)}
    for fb, mode, ax in zip(fbs, modes, axes):
        new = {}
        for key, v in coeffs.items():
            a, d = dwt(v, fb, mode, ax)
            new[key + "a"] = a
            new[key + "d"] = d
        coeffs = new
    return coeffs


def idwtn(coeffs, fbs, modes, axes):
    """coeffs: complete dict of arrays."""
    cur = dict(coeffs)
    n = len(axes)
    for pos in range(n - 1, -1, -1):
        new = {}
        for key in sorted({k[:pos] for k in cur}):
            new[key] = idwt(cur[key + "a"], cur[key + "d"], fbs[pos], modes[pos], axes[pos])
        cur = new
    return cur[""]


def max_level(N, F):
    if F < 2 or N < F - 1 or N < 1:
        return 0
    L = 0
    while (F - 1) * 2 ** (L + 1) <= N:
        L += 1
    return L


def wavedecn(x, fbs, modes, axes, level):
    a = _wide(x)
    out = []
    for _ in range(level):
        c = dwtn(a, fbs, modes, axes)
        a = c.pop("a" * len(axes))
        out.append(c)
    return [a] + out[::-1]


def fit(a, shape):
    """Drop the one extra trailing sample an odd-sized axis can leave."""
    return a[tuple(slice(0, s) for s in shape)]


def waverecn(coeffs, fbs, modes, axes):
    a = coeffs[0]
    for d in coeffs[1:]:
        shape = next(iter(d.values())).shape
        a = fit(a, shape)
        full = dict(d)
        full["a" * len(axes)] = a
        a = idwtn(full, fbs, modes, axes)
    return a


# --------------------------------------------------------------------------------------------------
# stationary
# --------------------------------------------------------------------------------------------------

def swt_part(x, filt, level, axis=-1):
    """One a-trous step with filters upsampled by 2**(level-1)."""
    x = np.moveaxis(_wide(x), axis, -1)
    f = np.asarray(filt, dtype=np.float64)
    F = len(f)
    step = 2 ** (level - 1)
    N = x.shape[-1]
    k = np.arange(N)
    centre = k + step * F // 2
    out = np.zeros(x.shape, dtype=x.dtype)
    for j in range(F):
        out += f[j] * x[..., (centre - step * j) % N]
    return np.moveaxis(out, -1, axis)


def swtn_level(x, fbs, level, axes):
    coeffs = {"": _wide(x)}
    for fb, ax in zip(fbs, axes):
        new = {}
        for key, v in coeffs.items():
            new[key + "a"] = swt_part(v, fb.dec_lo, level, ax)
            new[key + "d"] = swt_part(v, fb.dec_hi, level, ax)
        coeffs = new
    return coeffs


def swtn(x, fbs, axes, level, start_level=0):
    """List, coarsest first, of complete dicts."""
    a = _wide(x)
    out = []
    for j in range(start_level + 1, start_level + level + 1):
        c = swtn_level(a, fbs, j, axes)
        out.append(c)
        a = c["a" * len(axes)]
    return out[::-1]


def iswt_step(cA, cD, fb, level, axis):
    """Average of the two decimated cyclic inverses on every coset (documented a-trous inverse).

    At level j the positions split in 2**(j-1) cosets of stride 2**(j-1); on each coset the even and the odd
    subsampled sequences each give a cyclic inverse DWT; the odd one is rotated by one sample; they are averaged.
    """
    A = np.moveaxis(_wide(cA), axis, -1)
    D = np.moveaxis(_wide(cD), axis, -1)
    step = 2 ** (level - 1)
    N = A.shape[-1]
    dt = np.result_type(A.dtype, D.dtype)
    out = np.zeros(A.shape, dtype=dt)
    for first in range(step):
        ids = np.arange(first, N, step)
        ev, od = ids[0::2], ids[1::2]
        x1 = idwt(A[..., ev], D[..., ev], fb, "periodization")
        x2 = idwt(A[..., od], D[..., od], fb, "periodization")
        x2 = np.roll(x2, 1, axis=-1)
        out[..., ids] = (x1 + x2) / 2.0
    return np.moveaxis(out, -1, axis)


# --------------------------------------------------------------------------------------------------
# full convolution cascade (upcoef)
# --------------------------------------------------------------------------------------------------

def up_full(c, filt):
    c = _wide(c)
    g = np.asarray(filt, dtype=np.float64)
    n, F = len(c), len(g)
    full = np.zeros(2 * n + F - 1, dtype=c.dtype)
    k = np.arange(n)
    for j in range(F):
        full[2 * k + j] += g[j] * c
    return full[: 2 * n + F - 2]


def upcoef(part, c, fb, level, take=0):
    r = _wide(c)
    for i in range(level):
        r = up_full(r, fb.rec_hi if (part == "d" and i == 0) else fb.rec_lo)
    if take and take < len(r):
        left = (len(r) - take) // 2
        r = r[left:left + take]
    return r
