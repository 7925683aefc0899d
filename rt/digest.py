"""Digest of one canonical call, computed in a fresh interpreter: python -m rt.digest index..."""
import hashlib
import sys

import numpy as np


def feed(h, v):
    import pywt
    if isinstance(v, np.ndarray):
        h.update(f"array{v.shape}{v.dtype.str}".encode())
        a = np.ascontiguousarray(v)
        if a.dtype.kind in "fc":
            a = np.where(a == 0, np.abs(a) * 0, a)          # the sign of zero is not a result
        h.update(a.tobytes())
    elif isinstance(v, (list, tuple)):
        h.update(f"{type(v).__name__}{len(v)}".encode())
        for x in v:
            feed(h, x)
    elif isinstance(v, dict):
        h.update(f"dict{len(v)}".encode())
        for k, x in v.items():
            h.update(repr(k).encode())
            feed(h, x)
    elif isinstance(v, pywt.FswavedecnResult):
        feed(h, [v.coeffs, repr(v.coeff_slices), repr(v.axes), repr(v.modes), repr(v.wavelet_names)])
    else:
        h.update(repr(v).encode())


def digest(v):
    h = hashlib.blake2b(digest_size=10)
    feed(h, v)
    return h.hexdigest()


def canonical(seed, i):
    """The i-th canonical call: the same arguments in every process."""
    from rt import api, gen
    rng = np.random.default_rng([seed, 20290, i])
    return api.make(rng, api.ALL, dt=gen.FLOATS[rng.choice([0, 0, 1, 2, 3])])


def run(seed, i):
    c = canonical(seed, i)
    out = c.outcome()
    return c, digest(out[1]) if out[0] == "ok" else "raised " + out[1]


if __name__ == "__main__":
    import json
    seed = int(sys.argv[1])
    print(json.dumps([run(seed, int(i))[1] for i in sys.argv[2:]]))
