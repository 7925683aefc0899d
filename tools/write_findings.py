#!/usr/bin/env python3
"""Writes /verif/known_findings.txt: the defects found (each repaired by a fix: commit in /repo)."""
import subprocess, os
F = [  # (subject prefix, properties, what failed)
 ("threshold: no NaN", "C18", "threshold([0.], 0, 'soft'/'garrote') and tiny values returned NaN"),
 ("threshold_firm: restore", "C18", "a large value at flat index 0 was set to zero; value_low == value_high divided by zero; value_high=inf gave NaN"),
 ("downcoef: reject length-1", "C24,C27", "downcoef('a', [1.], 'db2', 'reflect') never returned"),
 ("dwtn, idwtn: check axes", "C23,C24", "dwtn/idwtn with an out-of-range axis read outside the shape array"),
 ("WaveletPacketND: reconstruct data with odd", "C11,C12", "WaveletPacketND.reconstruct of odd-sized data raised / returned wrong shape"),
 ("wavelet packets: keep dtype", "C12,C21", "assigning a node or list dropped the imaginary part / precision"),
 ("wavelet packets: pickle the axes", "C12", "an unpickled packet had lost its axes and nodes"),
 ("wavelet packets: reading a missing node", "C12", "wp['ad'] recomputed the siblings and overwrote data assigned to wp['aa']"),
 ("wavelet packets: get_level(0", "C11", "get_level(0, 'freq') raised instead of returning the root"),
 ("wavedecn_shapes:", "C05", "wavedecn_shapes with per-axis wavelets and level=None used another level than wavedecn"),
 ("imra2, imran: do not", "C09,C20", "imra2/imran added the other components into the caller's first array"),
 ("mra2, mran: default swt", "C09", "default level computed over all axes, not the transformed ones"),
 ("mra, mra2, mran: accept", "C09,C21", "array_like (list) data rejected"),
 ("iswtn: do not modify", "C20", "iswtn popped/added keys of the caller's dictionaries"),
 ("keep the imaginary part", "C21", "non-native complex arrays and complex lists lost their imaginary part"),
 ("dwt, downcoef, upcoef: accept read-only", "C22", "read-only 1-D arrays were rejected"),
 ("pad: one-sided", "C19", "pad with one zero width or one sample in 'smooth'/'antisymmetric' returned wrong values"),
 ("demo_signal:", "C28", "demo_signal returned n+-1 samples or non-finite values for some n"),
 ("reject repeated axes", "C04,C24", "axes=(0, -2) on 2-D data transformed one axis twice"),
 ("downcoef, upcoef: reject ''", "C27", "part '' and 'ad' were accepted"),
 ("FswavedecnResult:", "C10", "integer-valued float indices raised the wrong error; set items were not validated"),
 ("data: loaders", "C28,C20", "data loaders returned views of one cached array"),
 ("Modes.from_object:", "C24", "Modes.from_object('modes'/'from_object'/'__doc__') returned a non-mode"),
 ("report allocation failure", "C26", "a failing allocation of the SWT filter or of haar returned wrong results or dereferenced NULL"),
 ("pickled and copied wavelets", "C14", "unpickled/copied wavelets lost filter bank, metadata, bounds, parameters"),
 ("cwt: reject discrete", "C16,C24", "cwt with a discrete wavelet raised AttributeError deep inside"),
 ("waverecn: no debug print", "C24", "waverecn printed to stdout before rejecting"),
 ("dwt_max_level: wavelet names", "C05,C29", "dwt_max_level(100, 'DB2') rejected although dwt accepts the name"),
 ("iswtn: double precision", "C21,C08", "long double coefficients gave float32 results"),
 ("wavelet packets: trim the rec", "C12", "wp['a']=odd-sized array on a fresh tree, wp['aa'], reconstruct(): one sample too long or ValueError"),
 ("cwt: reject empty", "C16,C24", "cwt([], ..., method='fft') returned an empty result while 'conv' rejects"),
 ("ContinuousWavelet: parse", "C17", "names like 'cmor.5-1' silently used the default parameters"),
 ("threshold_firm: no NaN", "C18", "threshold_firm of float32 data with value_high > 3.4e38 gave NaN"),
 ("idwt, idwtn: reject empty", "C23,C24,C20", "idwtn({\"d\": zeros((0, 4))}, \"db2\", \"periodization\", axes=(0,)) never returned"),
 ("pad: empty data", "C19,C24", "pad(empty, 0, 'antisymmetric') never returned, 'smooth' raised IndexError"),
 ("swtn, swt2: reject a negative", "C24,C07,C09", "swtn(level=-1) returned [] instead of rejecting"),
 ("iswt2, iswtn: keep the imaginary", "C21", "iswt2/iswtn of complex coarse and real fine coefficients silently dropped the imaginary part"),
 ("idwtn, waverec2, waverecn: float16", "C21", "waverec2/waverecn of float16 or big-endian float32 coefficients returned float64"),
 ("cwt: sample the wavelet", "C21,C16", "cwt of float32 data sampled the wavelet at other points (off by one at some scales), shifting the result by a sample"),
 ("iswtn: raise AxisError", "C24", "iswtn(coeffs, w, axes=(-4,)) of 3-D coefficients was accepted"),
 ("wavelet packets: a value that cannot", "C24", "wp['a'] = 'abc' raised but left the text in the node"),
    ("waverec, waverec2, waverecn: an approximation longer along a batch axis", "C24,C04,C03", "coefficients of mismatched batch shape were silently cut"),
    ("coeffs_to_array, ravel_coeffs: lists whose arrays differ", "C06", "details were cast to the dtype of the approximation: imaginary parts and fractions were dropped"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = ["# fixed: property=<id> <commit> <what failed>     repaired in /repo; suppresses nothing",
       "# known: property=<id> key=<regex of the violation key> <what fails>     recorded, not repaired", ""]
used = set()
for pre, props, what in F:
    hit = [l for l in log if l.split(" ", 1)[1].startswith("fix: " + pre)]
    assert len(hit) == 1, (pre, hit)
    used.add(hit[0])
    for p in props.split(","):
        out.append(f"fixed: property={p} {hit[0].split()[0]} {what}")
missing = [l for l in log if " fix: " in l and l not in used]
assert not missing, missing
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.txt"), "w") as f:
    f.write("\n".join(out) + "\n")
