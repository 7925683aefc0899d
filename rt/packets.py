"""Executable model of wavelet packet trees (definitions of paths, parts, order)."""
import itertools

import numpy as np

import pywt
from rt import gen, ref

NAMES2 = {"aa": "a", "da": "h", "ad": "v", "dd": "d"}       # axes letters -> WaveletPacket2D part
ORDER2 = ["a", "h", "v", "d"]


class Kind:
    """One of WaveletPacket, WaveletPacket2D, WaveletPacketND with its arguments."""

    def __init__(self, rng, kind=None, hi=None, pr=True, cap=1500, custom=True):
        self.kind = kind or ["1", "2", "n"][rng.integers(3)]
        k = {"1": 1, "2": 2}.get(self.kind) or int(rng.integers(1, 4))
        nd = k + int(rng.choice([0, 0, 1, 2])) if k < 3 else k
        self.axp, self.ax = gen.axes_of(rng, nd, k)
        maxlen = {1: 40, 2: 12, 3: 8}[k]
        self.w = gen.wavelet(rng, pr, maxlen) if custom else gen.builtin(rng, max_len=maxlen)
        self.marg, self.m = gen.mode(rng)
        hi = hi or {1: 90, 2: 24, 3: 10}[k]
        hi = gen.grow(rng, hi)
        cap *= gen.LONG * gen.WIDE
        shape = []
        for i in range(nd):
            shape.append(int(rng.integers(2, hi + 1)) if i in self.ax else int(rng.integers(1, 4)) * gen.WIDE)
        while np.prod(shape) > cap:
            i = int(np.argmax(shape))
            shape[i] = max(2, shape[i] // 2)
        self.shape = tuple(shape)
        self.k = k
        self.part_len = 1 if self.kind in "12" else k
        if self.kind == "1":
            self.parts = ["a", "d"]
        elif self.kind == "2":
            self.parts = ORDER2
        else:
            self.parts = ["".join(c) for c in itertools.product("ad", repeat=k)]
        sizes = [shape[a] for a in self.ax]
        self.auto = min(ref.max_level(n, self.w.F) for n in sizes)
        want = self.auto if rng.random() < .3 else int(rng.integers(1, {1: 5, 2: 4, 3: 3}[k]))
        self.possible = gen.ok_levels(sizes, [self.w] * k, [self.m] * k, min(want, {1: 6, 2: 3, 3: 2}[k]))
        self.maxarg = None if self.possible == self.auto and rng.random() < .6 else self.possible
        self.maxlevel = self.possible
        self.dt = gen.dtype(rng, .25)
        self.x = gen.layout(rng, gen.data(rng, shape, self.dt))

    def make(self, data="x"):
        x = self.x if isinstance(data, str) else data
        kw = {}
        if self.maxarg is not None or data is None:
            kw["maxlevel"] = self.maxlevel
        if self.kind == "1":
            return pywt.WaveletPacket(x, self.w.arg, self.marg, axis=self.axp[0] if data is not None else self.ax[0], **kw)
        if self.kind == "2":
            return pywt.WaveletPacket2D(x, self.w.arg, self.marg, axes=self.axp, **kw)
        return pywt.WaveletPacketND(x, self.w.arg, self.marg, axes=self.axp, **kw)

    # ---- definitions -------------------------------------------------------------------------
    def split(self, x, lib=False):
        """All parts of one node's data by the definition (or by the library's own single-level transform)."""
        if lib:
            c = pywt.dwtn(x, self.w.arg, self.m, axes=self.ax)
        else:
            c = ref.dwtn(x, [self.w.fb] * self.k, [self.m] * self.k, self.ax)
        return self.names(c)

    def names(self, c):
        return {NAMES2[q]: v for q, v in c.items()} if self.kind == "2" else c

    def join(self, parts):
        """Library's single-level inverse of a dict of part arrays (None allowed)."""
        if self.kind == "2":
            inv = {v: k for k, v in NAMES2.items()}
            parts = {inv[q]: v for q, v in parts.items()}
        return pywt.idwtn(parts, self.w.arg, self.m, axes=self.ax)

    def at(self, path):
        """(data, error scale) of the node at a path, by the definition."""
        x = gen.native(self.x)
        g = (max(1.0, gen.gain(self.w.fb)) * gen.ext_growth(self.m, 2, self.w.F)) ** self.k
        err = 0.0
        for i in range(0, len(path), self.part_len):
            err = (err + float(np.max(np.abs(x)))) * g
            x = self.split(x)[path[i:i + self.part_len]]
        return x, err

    def tokens(self, path):
        return [path[i:i + self.part_len] for i in range(0, len(path), self.part_len)]

    def rand_path(self, rng, levels=None):
        n = int(rng.integers(0, self.maxlevel + 1)) if levels is None else levels
        return "".join(self.parts[rng.integers(len(self.parts))] for _ in range(n))

    def level_paths(self, level):
        """Natural order: left to right in the tree."""
        return ["".join(c) for c in itertools.product(self.parts, repeat=level)]

    def sig(self):
        return (self.kind, str(self.w), self.m, self.shape, self.ax, self.maxlevel, self.maxarg is None, self.dt.str)


def rank(bits):
    """Frequency rank of a path given as bits (detail = 1): the Gray code decoded."""
    r = acc = 0
    for b in bits:
        acc ^= b
        r = 2 * r + acc
    return r


def rank1(path):
    return rank([int(c == "d") for c in path])


def rc2(path):
    """(row bits, column bits) of a 2-D path: h = high along the first axis, v = high along the second."""
    return [int(c in "hd") for c in path], [int(c in "vd") for c in path]
