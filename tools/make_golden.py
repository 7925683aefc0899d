"""Regenerates rt/golden_filters.json from the installed library (run once on the pinned base commit; committed)."""
import json, os, warnings
import pywt
out = {}
for n in pywt.wavelist(kind="discrete"):
    w = pywt.Wavelet(n)
    out[n] = {"dec_lo": [float.hex(v) for v in w.dec_lo], "dec_hi": [float.hex(v) for v in w.dec_hi],
              "rec_lo": [float.hex(v) for v in w.rec_lo], "rec_hi": [float.hex(v) for v in w.rec_hi],
              "orthogonal": w.orthogonal, "biorthogonal": w.biorthogonal, "symmetry": w.symmetry,
              "family_name": w.family_name, "short_family_name": w.short_family_name,
              "vanishing_moments_psi": w.vanishing_moments_psi, "vanishing_moments_phi": w.vanishing_moments_phi,
              "family_number": w.family_number}
cont = {}
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    for n in pywt.wavelist(kind="continuous"):
        w = pywt.ContinuousWavelet(n)
        cont[n] = {k: getattr(w, k) for k in ("family_name", "short_family_name", "family_number", "orthogonal", "biorthogonal",
                                              "complex_cwt", "lower_bound", "upper_bound", "center_frequency",
                                              "bandwidth_frequency", "fbsp_order", "symmetry")}
meta = {"families": pywt.families(), "families_long": pywt.families(short=False),
        "wavelist": pywt.wavelist(), "by_family": {f: pywt.wavelist(f) for f in pywt.families()}}
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "rt", "golden_filters.json")
json.dump({"discrete": out, "continuous": cont, "meta": meta}, open(p, "w"), indent=0)
