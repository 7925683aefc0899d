"""Closed forms of the continuous wavelets, in double precision, and random continuous wavelets."""
import math

import numpy as np

import pywt
from rt import gen


def gauss_moment(n):
    """E[Z**n], Z ~ N(0, 1/4), so that integral t**n exp(-2 t**2) dt = sqrt(pi/2) * gauss_moment(n)."""
    return 0.0 if n % 2 else math.prod(range(1, n, 2)) * 0.25 ** (n // 2)


def derivative_poly(order, c0, c1):
    """P with d^order/dt^order exp(q(t)) = P(t) exp(q(t)), q' = c0 + c1 t; coefficients from low to high."""
    P = np.array([1.0 + 0j])
    for _ in range(order):
        d = P[1:] * np.arange(1, len(P)) if len(P) > 1 else np.zeros(0)
        Q = np.zeros(len(P) + 1, complex)
        Q[:len(d)] += d
        Q[:len(P)] += c0 * P
        Q[1:] += c1 * P
        P = Q
    return P


def energy(P):
    c = np.convolve(P, np.conj(P)).real
    return math.sqrt(math.pi / 2) * sum(v * gauss_moment(n) for n, v in enumerate(c))


def gaus(n, t):
    P = derivative_poly(n, 0.0, -2.0).real
    s = 1 if n % 4 in (0, 1) else -1
    return s * np.polyval(P[::-1], t) * np.exp(-t * t) / math.sqrt(energy(P))


def cgau(n, t):
    P = derivative_poly(n, -1j, -2.0)
    return np.polyval(P[::-1], t) * np.exp(-1j * t) * np.exp(-t * t) / math.sqrt(energy(P))


def psi(w, t):
    """Closed form of the wavelet object at the points t, from the parameters it reports."""
    t = np.asarray(t, np.float64)
    fam = w.short_family_name
    if fam == "gaus":
        return gaus(w.family_number, t)
    if fam == "cgau":
        return cgau(w.family_number, t)
    if fam == "mexh":
        return 2 / (math.sqrt(3) * math.pi ** .25) * (1 - t * t) * np.exp(-t * t / 2)
    if fam == "morl":
        return np.exp(-t * t / 2) * np.cos(5 * t)
    B, C = w.bandwidth_frequency, w.center_frequency
    carrier = np.exp(2j * math.pi * C * t)
    if fam == "shan":
        return math.sqrt(B) * np.sinc(B * t) * carrier
    if fam == "fbsp":
        M = w.fbsp_order
        return math.sqrt(B) * np.sinc(B * t / M) ** M * carrier
    return np.exp(-t * t / B) / math.sqrt(math.pi * B) * carrier


def phase(w, t):
    """Magnitude of the arguments of the trigonometric functions (their rounding scales the error)."""
    fam = w.short_family_name
    t = np.abs(np.asarray(t, np.float64))
    if fam in ("shan", "fbsp", "cmor"):
        return 2 * math.pi * (w.center_frequency + w.bandwidth_frequency) * t
    return 5 * t


PLAIN = [n for n in gen.CONTINUOUS if n not in ("cmor", "shan", "fbsp")]


def number(rng, lo, hi):
    """(text, value) of a parameter."""
    v = float(rng.uniform(lo, hi))
    k = rng.integers(5)
    if k == 0:
        s = str(max(1, int(round(v))))
    elif k == 1:
        s = f"{max(1, int(round(v)))}."
    elif k == 2 and v < 1:
        s = f"{v:.3f}"[1:]
    elif k == 3:
        s = f"{v:.8f}"
    else:
        s = f"{v:.2f}"
    if float(s) <= 0:
        s = "1.5"
    return s, float(s)


def name(rng):
    """(name, parsed parameters)"""
    if rng.random() < .55:
        return PLAIN[rng.integers(len(PLAIN))], {}
    fam = ["cmor", "shan", "fbsp"][rng.integers(3)]
    b, bv = number(rng, .2, 4)
    c, cv = number(rng, .2, 3)
    par = {"bandwidth_frequency": bv, "center_frequency": cv}
    s = f"{b}-{c}"
    if fam == "fbsp":
        m = int(rng.integers(1, 7))
        s = (f"{m}-" if rng.random() < .7 else f"{m}.0-") + s
        par["fbsp_order"] = m
    return fam + s, par


def wavelet(rng, attrs=.35):
    """(wavelet object, its name, True if attributes were changed)"""
    n, par = name(rng)
    w = pywt.ContinuousWavelet(gen.rand_case(rng, n), [np.float64, np.float64, np.float32][rng.integers(3)])
    changed = False
    if rng.random() < attrs:
        changed = True
        if rng.random() < .7:
            w.lower_bound, w.upper_bound = float(rng.uniform(-12, -1)), float(rng.uniform(1, 12))
        elif rng.random() < .4:
            w.lower_bound, w.upper_bound = 0.5, float(rng.uniform(1, 9))
        if n[:4] in ("cmor", "shan", "fbsp") and rng.random() < .6:
            w.bandwidth_frequency, w.center_frequency = float(rng.uniform(.2, 3)), float(rng.uniform(.2, 3))
            if n[:4] == "fbsp":
                w.fbsp_order = int(rng.integers(1, 6))
    return w, n, changed
