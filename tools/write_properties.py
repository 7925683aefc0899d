"""Writes /verif/properties.jsonl (the committed list of properties)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                          "observe_at": observe, "hook_needed": None}})
X = "pywt/_extensions/"
C = X + "c/"
p("C01", "The single-level DWT equals its mathematical definition",
  "For every discrete wavelet (built-in or custom), every signal extension mode, every data length >= 1 and along every axis, the approximation and detail coefficients of dwt are the signal, extended on both sides by the documented formula of the mode, convolved with dec_lo / dec_hi with every second sample kept (odd phase; for 'periodization' centred and cyclic, an odd-length signal first being extended by its last sample). The number of coefficients is floor((N+F-1)/2), or ceil(N/2) for 'periodization', and equals dwt_coeff_len. The only lengths rejected are empty data and length 1 with 'reflect' or 'antireflect'.",
  ["inputs", "configurations"], "all wavelets x modes x data lengths (shorter than, equal to and far longer than the filter) x axes x data values x float/complex dtypes",
  "The tests compare a few wavelets/lengths with stored MATLAB results and hand-written examples; the four boundary stages of the convolution depend on (N, F, mode, parity, dtype, axis stride) jointly, a product no sample of cases settles.",
  [C+"convolution.template.c", C+"wt.template.c", C+"common.c", X+"_dwt.pyx", "pywt/_dwt.py"],
  [("downsampling convolution with extension", C+"convolution.template.c: downsampling_convolution, downsampling_convolution_periodization"), ("axis driver", C+"wt.template.c: downcoef_axis, dec_a, dec_d"), ("length formula", C+"common.c: dwt_buffer_length")],
  ["pywt.dwt", "pywt.dwt_coeff_len", "pywt.dwtn (axes)"])
p("C02", "Inverse transforms perfectly reconstruct the signal",
  "For every perfect-reconstruction discrete wavelet, every mode (one for all axes or one per axis), every shape, axes selection and number of levels, the inverse of a decomposition (idwt of dwt, idwt2 of dwt2, idwtn of dwtn, waverec of wavedec, waverec2 of wavedec2, waverecn of wavedecn) returns the original data to rounding error, with at most one trailing extra sample per transformed axis when the length of that axis is odd. 'dmey', which is only an approximate finite filter, reconstructs to its documented approximation accuracy.",
  ["inputs", "configurations"], "all wavelets x modes x shapes x axes x levels x float/complex dtypes x data",
  "Tests round-trip a few wavelets on a few sizes; a boundary error that cancels for power-of-two sizes, for one parity, or for the first level only is invisible to them.",
  [C+"convolution.template.c", C+"wt.template.c", "pywt/_multilevel.py", "pywt/_multidim.py", "pywt/_dwt.py"],
  [("synthesis convolution", C+"convolution.template.c: upsampling_convolution_valid_sf"), ("level loop with size fix-up", "pywt/_multilevel.py: waverec, waverec2, waverecn")],
  ["pywt.idwt", "pywt.idwt2", "pywt.idwtn", "pywt.waverec", "pywt.waverec2", "pywt.waverecn"])
p("C03", "The inverse DWT equals its definition on arbitrary coefficients",
  "For coefficient arrays that need not come from a forward transform, idwt(cA, cD) is the sum of the upsampled cA convolved with rec_lo and the upsampled cD convolved with rec_hi, restricted to the fully overlapping part (length 2*n-F+2), or the cyclic equivalent of length 2*n for 'periodization'; it is linear and real/complex consistent. A coefficient array given as None, or a subband key missing from the dict of idwtn or a None detail of waverec / waverec2, counts as zeros of the matching shape, and arrays of different lengths are rejected.",
  ["inputs", "configurations"], "all wavelets x modes x coefficient lengths (including shorter than the filter) x values x subsets of missing subbands x dtypes",
  "Tests invert coefficients the library itself produced; errors in the forward and inverse kernels that cancel, and missing-subband combinations, are not reached.",
  [C+"convolution.template.c", C+"wt.template.c", X+"_dwt.pyx", "pywt/_dwt.py", "pywt/_multidim.py", "pywt/_multilevel.py"],
  [("synthesis", C+"convolution.template.c: upsampling_convolution_valid_sf(_periodization)"), ("None handling", "pywt/_dwt.py: idwt; pywt/_multidim.py: idwtn; pywt/_multilevel.py: waverec*")],
  ["pywt.idwt", "pywt.idwt2", "pywt.idwtn", "pywt.waverec", "pywt.waverec2", "pywt.waverecn"])
p("C04", "n-D transforms are separable 1-D transforms along the chosen axes",
  "dwtn / dwt2 / wavedec2 / wavedecn (and their inverses) give, for every order of axes, per-axis wavelet and per-axis mode, exactly the coefficients of applying the 1-D transform successively along each selected axis, with the subband letter at position i naming the filter used on axes[i]. Axes not selected are pure batch axes: transforming a stack equals stacking the transforms of its slices, and negative axis numbers mean the same as their non-negative equivalents; out-of-range axes are rejected, and so are repeated ones in the multilevel transforms (dwtn and dwt2 apply a repeated axis repeatedly).",
  ["inputs", "configurations"], "all ranks 1..5 x axes subsets and orders x per-axis wavelets/modes x shapes incl. singleton axes",
  "Tests use square or cubic arrays and mostly one wavelet; swapped letters, swapped per-axis wavelets or batch-stride mistakes are invisible on symmetric configurations.",
  ["pywt/_multidim.py", "pywt/_dwt.py", "pywt/_multilevel.py", "pywt/_utils.py", C+"wt.template.c"],
  [("axis loop", "pywt/_multidim.py: dwtn, idwtn"), ("per-axis broadcast", "pywt/_utils.py: _wavelets_per_axis, _modes_per_axis")],
  ["pywt.dwtn", "pywt.dwt2", "pywt.idwtn", "pywt.idwt2", "pywt.wavedecn", "pywt.wavedec2"])
p("C05", "Multilevel decompositions have the documented structure and predicted shapes",
  "wavedec / wavedec2 / wavedecn return [approximation, coarsest details, ..., finest details] where each level equals the single-level transform of the previous approximation, and with level=None they use the maximum useful level floor(log2(N/(F-1))) minimised over the transformed axes (dwt_max_level, dwtn_max_level). wavedecn_shapes and wavedecn_size predict exactly the shapes and number of coefficients wavedecn returns for the same arguments, and wavedec, wavedec2 and wavedecn agree with each other on 1-D and 2-D data. A level that is negative is rejected, and one that is too high still works but warns.",
  ["inputs", "configurations"], "all shapes x wavelets x modes x levels (None, 0, up to beyond the maximum) x axes, including per-axis wavelets and modes",
  "Tests check shape prediction on a handful of configurations; predictions and transforms are separate code paths that must agree for all of them.",
  ["pywt/_multilevel.py", "pywt/_dwt.py", C+"common.c"],
  [("level loop", "pywt/_multilevel.py: wavedec, wavedec2, wavedecn"), ("prediction", "pywt/_multilevel.py: wavedecn_shapes, wavedecn_size"), ("max level", C+"common.c: dwt_max_level")],
  ["pywt.wavedec", "pywt.wavedec2", "pywt.wavedecn", "pywt.wavedecn_shapes", "pywt.wavedecn_size", "pywt.dwt_max_level", "pywt.dwtn_max_level"])
p("C06", "Packing coefficients into one array and back loses nothing",
  "coeffs_to_array / array_to_coeffs and ravel_coeffs / unravel_coeffs are mutually inverse on every coefficient list produced by wavedec, wavedec2 or wavedecn (any shape, axes, level, mode and dtype, including padding and output_format conversions): every coefficient appears exactly once, at the location the returned slices name, padding holds exactly the padding value, and no other array element is used. Arrays of different dtypes are packed in their common dtype, and the ravelled layout does not depend on the order in which dictionaries were filled. A packed array can be reconstructed with waverec / waverec2 / waverecn to the same signal as the unpacked coefficients, and a ragged list is rejected when padding=None.",
  ["inputs", "configurations"], "all coefficient structures x axes x padding x output formats",
  "Tests check a few shapes; with non-dyadic sizes and partial axes the layout arithmetic differs per axis and level.",
  ["pywt/_multilevel.py"],
  [("layout", "pywt/_multilevel.py: coeffs_to_array, array_to_coeffs, ravel_coeffs, unravel_coeffs, _prepare_coeffs_axes, _coeffs_wavedec2_to_wavedecn")],
  ["pywt.coeffs_to_array", "pywt.array_to_coeffs", "pywt.ravel_coeffs", "pywt.unravel_coeffs"])
p("C07", "The stationary transform equals the a-trous definition and is shift equivariant",
  "For every wavelet, even-length-compatible signal, start level, number of levels and axes, level j of swt / swt2 / swtn is the cyclic convolution of the level j-1 approximation with the filters upsampled by 2**(j-1) (aligned so that coefficients are centred as documented), so a circular shift of the input circularly shifts every coefficient array by the same amount. trim_approx only drops the intermediate approximations, norm=True only rescales the filters by 1/sqrt(2) (and for orthogonal wavelets then preserves energy and variance partition), start_level only renumbers levels, and swt2/swtn agree with swt applied separably; lengths not divisible by 2**level and levels above swt_max_level are rejected.",
  ["inputs", "configurations"], "all wavelets (incl. filters longer than the signal) x lengths x levels x start levels x axes x dtypes x data",
  "Tests compare stored outputs for db1/haar and a few lengths; the periodic kernel with fstep > 1 and filters longer than the signal is a distinct path per (N, F, level).",
  [X+"_swt.pyx", C+"wt.template.c", C+"convolution.template.c", "pywt/_swt.py"],
  [("upsampled filter convolution", C+"wt.template.c: swt_; "+C+"convolution.template.c: downsampling_convolution_periodization"), ("drivers", X+"_swt.pyx: swt, swt_axis; pywt/_swt.py: swt, swt2, swtn")],
  ["pywt.swt", "pywt.swt2", "pywt.swtn", "pywt.swt_max_level"])
p("C08", "The inverse stationary transform inverts it and averages redundant coefficients",
  "iswt(swt(x)), iswt2(swt2(x)) and iswtn(swtn(x)) return x to rounding error for every perfect-reconstruction wavelet, level, axes, norm, dtype and trim_approx setting. Applied to arbitrary coefficient arrays of valid shape, the inverse is linear and shift equivariant, and swtn/iswtn, swt2/iswt2 and swt/iswt agree with each other on the same data.",
  ["inputs", "configurations"], "all wavelets x lengths x levels x axes x norm x dtypes; arbitrary (inconsistent) coefficients",
  "Tests reconstruct a few wavelets and sizes; modified (thresholded) coefficients, which are the practical use, are not checked against anything.",
  ["pywt/_swt.py"],
  [("even/odd average reconstruction", "pywt/_swt.py: iswt, iswt2, iswtn, _rescale_wavelet_filterbank")],
  ["pywt.iswt", "pywt.iswt2", "pywt.iswtn"])
p("C09", "Multiresolution analysis components sum to the signal",
  "mra / mra2 / mran return components of exactly the shape of the data whose sum (imra / imra2 / imran) is the data, for both transform='swt' and 'dwt', every wavelet, level, mode and axes; component j is the inverse transform of only the j-th coefficient set, so it is linear in the data, and mran on 2-D data agrees with mra2 and on 1-D data with mra. Inverting is repeatable: it leaves the components unchanged.",
  ["inputs", "configurations"], "all wavelets x transforms x modes x shapes (odd sizes for dwt) x levels x axes x dtypes",
  "Tests sum components for a few wavelets; which coefficient ends up in which component, and odd-size cropping, are checked on single examples.",
  ["pywt/_mra.py"],
  [("component extraction", "pywt/_mra.py: mra, mra2, mran"), ("sum", "pywt/_mra.py: imra, imra2, imran")],
  ["pywt.mra", "pywt.mra2", "pywt.mran", "pywt.imra", "pywt.imra2", "pywt.imran"])
p("C10", "The fully separable transform round-trips and indexes correctly",
  "fswavedecn applies wavedec fully along each selected axis in turn (per-axis wavelets, modes and levels), fswaverecn inverts it, and the FswavedecnResult slices, shapes, item access, item assignment and detail_keys partition the coefficient array exactly: every coefficient belongs to exactly one subband index, reading a subband gives its coefficients and assigning one changes exactly those. Invalid indices, wrong-shaped assignments and wrong dimensionality are rejected.",
  ["inputs", "configurations", "histories"], "all shapes x axes x per-axis wavelets/modes/levels x sequences of subband reads and writes",
  "Tests use a few shapes with one wavelet and check reconstruct only, plus one approximations example.",
  ["pywt/_multilevel.py"],
  [("per-axis wavedec with concatenation", "pywt/_multilevel.py: fswavedecn, fswaverecn"), ("container", "pywt/_multilevel.py: FswavedecnResult")],
  ["pywt.fswavedecn", "pywt.fswaverecn", "pywt.FswavedecnResult"])
p("C11", "Wavelet packet nodes hold the coefficients their path names, in the right order",
  "In WaveletPacket, WaveletPacket2D and WaveletPacketND the data at every path equal the single-level transform applied successively with the filter each path letter names; get_level lists every node of a level exactly once in natural (lexicographic) or frequency (Gray-code) order and as a 2-D grid where documented, get_leaf_nodes lists the leaves exactly once, node shapes, level, path, parent and maxlevel properties are consistent, and an access by a long path equals step-by-step access. Paths with invalid letters, and levels beyond maxlevel, are rejected.",
  ["inputs", "configurations"], "all wavelets x modes x shapes x axes x paths x orders",
  "Tests check a small fixed tree with db1; order and naming errors at deeper levels or with swapped axes are unreachable there.",
  ["pywt/_wavelet_packets.py"],
  [("tree", "pywt/_wavelet_packets.py: BaseNode, Node, Node2D, NodeND"), ("order", "pywt/_wavelet_packets.py: get_graycode_order, get_level")],
  ["pywt.WaveletPacket", "pywt.WaveletPacket2D", "pywt.WaveletPacketND", "pywt.Node", "pywt.Node2D", "pywt.NodeND"])
p("C12", "Wavelet packet trees stay consistent under any history of edits",
  "After any sequence of node reads, assignments, deletions, decompositions, walks, reconstructions (with or without update) and copies by pickle, the tree equals an executable model of it: assigned data (with dtype and imaginary part kept) are returned until overwritten, deleting a node removes its subtree and lets it be recomputed or treated as zero, and reconstruct() returns data of the original shape equal to the model's inverse transform of the current leaves, and equal to the original signal when nothing was modified.",
  ["histories", "inputs", "configurations"], "all operation sequences on trees x wavelets x modes x odd/even shapes x 1-D/2-D/n-D x dtypes",
  "Tests exercise two or three short edit sequences; tree state after arbitrary interleavings of lazily computed, assigned and deleted nodes is a property of histories.",
  ["pywt/_wavelet_packets.py"],
  [("lazy nodes", "pywt/_wavelet_packets.py: BaseNode.__getitem__, __setitem__, __delitem__, decompose, reconstruct, walk"), ("copy", "pywt/_wavelet_packets.py: __reduce__")],
  ["pywt.WaveletPacket", "pywt.WaveletPacket2D", "pywt.WaveletPacketND"],
  [{"name": "subnodes", "meaning": "children present in the tree", "where": "pywt/_wavelet_packets.py: BaseNode"}])
p("C13", "Every built-in filter bank is the published one and satisfies its identities",
  "Each of the built-in discrete wavelets has the published filter coefficients, the same in float and double precision transforms, with the documented length, and satisfies the (bi)orthogonality identities, unit-energy/sum conditions, quadrature-mirror relations, claimed vanishing moments (those of the synthesis side for 'rbio'; only the dual order in the published name of 'bior5.5' overstates its moments by one), and claimed orthogonal / biorthogonal / symmetry / family metadata; rbioN.M is biorN.M with decomposition and reconstruction roles exchanged by time reversal, and db1 = haar. Names are found case-insensitively, wavelist and families enumerate exactly the constructible ones, and qmf / orthogonal_filter_bank / inverse_filter_bank satisfy their defining relations.",
  ["inputs", "configurations"], "all built-in discrete wavelets, both precisions, all filters derived from them",
  "Tests check sums and norms of db/sym/coif to 1e-5..1e-10; most tables (bior, rbio, dmey, long db/sym) and the single-precision tables are hardly touched, and a one-digit change passes.",
  [C+"wavelets.c", C+"wavelets_coeffs.template.h", X+"_pywt.pyx", "pywt/_functions.py"],
  [("tables and builders", C+"wavelets.c: discrete_wavelet, blank_discrete_wavelet; "+C+"wavelets_coeffs.template.h"), ("python view", X+"_pywt.pyx: Wavelet, wavelist, families"), ("derived banks", "pywt/_functions.py: qmf, orthogonal_filter_bank")],
  ["pywt.Wavelet", "pywt.wavelist", "pywt.families", "pywt.qmf", "pywt.orthogonal_filter_bank"])
p("C14", "Wavelet objects behave as values and never leak state",
  "A Wavelet built from a user filter bank (list, array, or object with a filter_bank attribute or get_filters_coeffs method) reports exactly those filters (an odd-length bank zero-padded at the end to even length) and drives every transform with them; two objects of the same name are equal in behaviour and independent, so changing the settable attributes of one never changes another, a pickled or copied Wavelet or ContinuousWavelet has the same filters, parameters and metadata as the original, and mutating lists/arrays obtained from or passed to a Wavelet never alters it. Malformed filter banks (wrong count, unequal or zero length, non-numeric) and unknown names are rejected.",
  ["inputs", "histories", "configurations"], "all names and user filter banks x sequences of attribute writes, copies and uses",
  "Tests build one or two custom banks; copying and state isolation are only exercised for identity, not for contents.",
  [X+"_pywt.pyx", C+"wavelets.c"],
  [("construction", X+"_pywt.pyx: Wavelet.__cinit__, ContinuousWavelet.__cinit__"), ("copy", X+"_pywt.pyx: __reduce__; "+C+"wavelets.c: copy_discrete_wavelet")],
  ["pywt.Wavelet", "pywt.ContinuousWavelet", "pywt.DiscreteContinuousWavelet"])
p("C15", "Wavelet function approximations and frequency conversions are consistent",
  "For discrete wavelets, wavefun(level) samples of phi and psi satisfy the two-scale refinement equations and equal the upcoef cascade of the filters on an equally spaced grid whose span is the filter support, with unit integral of phi, zero integral of psi and (orthogonal wavelets) unit energy within discretisation error; integrate_wavelet is the running Riemann sum of that function. central_frequency is the frequency of the largest spectral peak of the (energy-relevant) wavelet function, and scale2frequency and frequency2scale are central_frequency / scale and mutual inverses, element-wise over arrays.",
  ["inputs", "configurations"], "all discrete and continuous wavelets x levels x precisions x scales",
  "Tests check a few wavelets' frequencies and shapes; grid scaling and padding details of other wavelets/levels go unchecked.",
  [X+"_pywt.pyx", "pywt/_functions.py"],
  [("cascade", X+"_pywt.pyx: Wavelet.wavefun"), ("integration and frequency", "pywt/_functions.py: integrate_wavelet, central_frequency, scale2frequency, frequency2scale")],
  ["pywt.Wavelet.wavefun", "pywt.ContinuousWavelet.wavefun", "pywt.integrate_wavelet", "pywt.central_frequency", "pywt.scale2frequency", "pywt.frequency2scale"])
p("C16", "The CWT equals its definition, whatever the method, layout or batching",
  "For every continuous wavelet, cwt coefficients at each scale equal the documented sampling of the integrated wavelet at that scale convolved with the signal, differentiated, scaled by -sqrt(scale) and centred to the data length; method='fft' equals method='conv' to rounding, scales are independent of each other and of their order, other axes are batch axes, and the result is linear in the data. Returned frequencies equal scale2frequency(wavelet, scales, precision)/sampling_period, complex wavelets or data give complex output of the precision of the input, and non-positive scales, invalid methods, axes out of range of multi-dimensional data and discrete or unknown wavelets are rejected.",
  ["inputs", "configurations"], "all continuous wavelets (incl. parametrised) x scales x data lengths x axes x methods x precision x dtypes",
  "Tests compare with stored MATLAB results for one signal and a few wavelets; FFT padding reuse across scales, batching and precision are sampled at a point.",
  ["pywt/_cwt.py", "pywt/_functions.py", X+"_cwt.pyx", C+"cwt.template.c"],
  [("scale loop", "pywt/_cwt.py: cwt")],
  ["pywt.cwt"])
p("C17", "Continuous wavelets follow their closed-form definitions",
  "wavefun of gausN, mexh, morl, cgauN, shanB-C, fbspM-B-C and cmorB-C samples exactly the documented closed-form function (real and imaginary parts, normalisation, parameters parsed from the name or set as attributes) on an equally spaced grid of 2**level points (or length) spanning [lower_bound, upper_bound]. Parameters, bounds, symmetry, family and complex flags reported by the object are those used; names with an unknown order or suffix, too many parameters, or a spline order that is not a positive integer are rejected.",
  ["inputs", "configurations"], "all continuous families x orders x parameters x bounds x levels/lengths x dtypes",
  "Tests check default parameters at one level for each family; parameter parsing and bounds over the ranges are open.",
  [X+"_cwt.pyx", C+"cwt.template.c", X+"_pywt.pyx", C+"wavelets.c"],
  [("closed forms", C+"cwt.template.c: gaus, mexh, morl, cgau, shan, fbsp, cmor"), ("parameters", X+"_pywt.pyx: ContinuousWavelet")],
  ["pywt.ContinuousWavelet", "pywt.ContinuousWavelet.wavefun"])
p("C18", "Thresholding functions equal their definitions element-wise",
  "threshold in every mode (soft, hard, garrote/garotte, greater, less) and threshold_firm equal their documented piecewise formulas at every element, for every real or complex input (complex data shrink in magnitude with phase kept), scalar or broadcast array threshold value and scalar substitute, including threshold 0, elements equal to the threshold, zeros, infinities and the limit cases of firm thresholding (value_low == value_high is hard, value_high = inf is soft). The result has the shape of the input, depends on each element alone, preserves the floating precision, and no NaN appears for finite input; unknown modes, complex data in the greater and less modes, and firm thresholds that are negative or out of order are rejected.",
  ["inputs", "configurations"], "all arrays x thresholds (scalar/array, 0, equal to data) x substitutes x modes x dtypes",
  "Tests use one linspace array; boundary equality, special positions, zero thresholds and complex data are outside it.",
  ["pywt/_thresholding.py"],
  [("element-wise rules", "pywt/_thresholding.py: soft, nn_garrote, hard, greater, less, threshold_firm")],
  ["pywt.threshold", "pywt.threshold_firm"])
p("C19", "pad extends signals by exactly the rule each mode's transform uses",
  "pad(x, widths, mode) surrounds x with samples given by the documented formula of each signal extension mode for every width (including 0, one-sided, per-axis and longer than the signal) and every number of axes, leaving the original samples in place, and this is the same extension the DWT applies implicitly: transforming the padded signal and keeping the interior coefficients equals transforming the original with that mode. Unknown modes, negative widths and malformed widths are rejected.",
  ["inputs", "configurations"], "all modes x lengths x widths (0, > N) x ranks x dtypes",
  "Tests check one small array per mode with symmetric widths; zero-width sides and repeated wrap-around are untested.",
  ["pywt/_dwt.py", C+"convolution.template.c"],
  [("pad", "pywt/_dwt.py: pad"), ("implicit extension", C+"convolution.template.c")],
  ["pywt.pad", "pywt.dwt"])
p("C20", "Calls never modify their inputs, and results never alias them",
  "No public transform, inverse, thresholding, padding, packing or conversion call changes any array, list, dict or Wavelet passed to it (contents, dtype, shape, key set or key order), not even when it raises. Apart from views by design (array_to_coeffs and unravel_coeffs slices, FswavedecnResult subbands, wavelet packet node data) and identity calls (level 0, a single coefficient array), writing to one returned array changes neither the inputs nor any other returned array nor the result of any later call.",
  ["inputs", "histories", "configurations"], "all public functions x argument kinds x layouts x subsequent writes",
  "Tests occasionally compare one input before and after; aliasing appears only with particular arguments (level 0, no axes, single component, missing subbands).",
  ["pywt/_dwt.py", "pywt/_multidim.py", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_mra.py", "pywt/_thresholding.py", "pywt/_wavelet_packets.py", "pywt/_cwt.py"],
  [("copies at API boundary", "pywt/_multilevel.py, pywt/_swt.py, pywt/_mra.py")],
  ["all public functions"])
p("C21", "Type rules: dtype of results, complex = real + i*imag, array-likes",
  "Every transform computes and returns float32/complex64 for float32/complex64 (and float16) input and float64/complex128 for anything else (integers, bools, lists, long double), real in giving real out; the value is the double-precision result to single-precision accuracy. Transforming complex data equals transforming real and imaginary parts separately, and lists, nested sequences, integer arrays and non-native byte orders give the same result as the equivalent native floating array; coefficient containers mixing dtypes lose neither an imaginary part nor precision.",
  ["inputs", "configurations"], "all transforms x dtypes x containers x byte orders",
  "Tests check dtype of outputs for a few functions; four template instantiations of every kernel and axis/no-axis paths multiply.",
  [X+"_pywt.pyx", X+"_dwt.pyx", X+"_swt.pyx", C+"templating.h", "pywt/_swt.py", "pywt/_multilevel.py"],
  [("dtype choice", X+"_pywt.pyx: _check_dtype"), ("template instantiation", C+"convolution.c, wt.c, cwt.c")],
  ["all transforms"])
p("C22", "Results do not depend on memory layout, alignment or writability of the input",
  "For equal values and dtype, C- or Fortran-ordered, transposed, strided, negatively strided, broadcast (zero-stride), offset, read-only or subclassed (memmap) inputs give bit-for-bit or rounding-level identical results to a fresh contiguous copy, for every transform, inverse and axis, and all produce freshly usable writable outputs.",
  ["inputs", "configurations"], "all transforms x layouts x axes x dtypes",
  "Tests have one or two non-contiguous cases; stride arithmetic in the axis kernels is per (rank, axis, stride sign, size).",
  [C+"wt.template.c", X+"_dwt.pyx", X+"_swt.pyx"],
  [("strided axis kernels with temporaries", C+"wt.template.c: downcoef_axis, idwt_axis"), ("contiguity conversion", X+"_dwt.pyx, "+X+"_swt.pyx")],
  ["all transforms"])
p("C23", "No call corrupts memory or executes undefined behaviour",
  "Whatever arrays (any rank, shape, stride, size including 0 and 1, any values), wavelets (built-in or user filter banks of any length), modes, axes, levels, coefficient containers and index arguments are passed, no public call reads or writes outside its buffers, uses freed or uninitialised memory, divides integers by zero, overflows signed arithmetic or crashes: it returns a result or raises a Python exception.",
  ["inputs", "configurations"], "all public entry points x valid and hostile arguments",
  "Tests run an uninstrumented build with valid arguments; an out-of-bounds access usually goes unnoticed there.",
  [C+"convolution.template.c", C+"wt.template.c", C+"common.c", C+"wavelets.c", C+"cwt.template.c", X+"_dwt.pyx", X+"_swt.pyx", X+"_cwt.pyx", X+"_pywt.pyx"],
  [("argument validation before nogil kernels", X+"_dwt.pyx, "+X+"_swt.pyx; pywt/_multidim.py"), ("buffer length computations", C+"common.c")],
  ["all public functions under AddressSanitizer and UndefinedBehaviorSanitizer"])
p("C24", "Invalid arguments are rejected promptly; every call terminates",
  "Every public call terminates, in time that grows no faster than the sizes and levels asked for, and arguments outside the documented domain (unknown modes or wavelet names, empty data, length-1 data with reflecting modes at any level, negative or excessive levels, out-of-range or repeated axes, wrong coefficient shapes or counts, bad part letters, bad orders, non-numeric data) raise an ordinary Python exception (ValueError, TypeError, AxisError, AttributeError, OverflowError or, for item access, KeyError / IndexError; RuntimeError where a kernel refuses) instead of returning a result, hanging or crashing the interpreter. Failed calls leave the library fully usable and write nothing to the standard streams.",
  ["inputs", "configurations"], "all public entry points x single and combined invalid arguments x lengths",
  "Tests check a dozen explicit assert_raises; the combinations of function, mode and (intermediate) length are unbounded.",
  ["pywt/_dwt.py", "pywt/_multidim.py", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_mra.py", "pywt/_cwt.py", "pywt/_wavelet_packets.py", X+"_dwt.pyx", X+"_swt.pyx", X+"_pywt.pyx"],
  [("validation", "pywt/_dwt.py: dwt, idwt, downcoef; pywt/_multilevel.py: _check_level; pywt/_utils.py")],
  ["all public functions"])
p("C25", "Concurrent calls from many threads behave as if run alone",
  "Any mix of public calls made at the same time from several threads, including on shared input arrays, shared coefficient lists and shared Wavelet/ContinuousWavelet/mode objects, returns for each call exactly the result it returns when run alone, without crashes, deadlocks or data races in the native kernels that run without the GIL.",
  ["schedules", "inputs"], "all interleavings of concurrent public calls on shared and private data",
  "One test runs dwt/swt in a thread pool on equal inputs; no test looks for unsynchronised shared state.",
  [X+"_dwt.pyx", X+"_swt.pyx", X+"_cwt.pyx", C+"wt.template.c", C+"convolution.template.c", C+"wavelets.c", "pywt/_swt.py", "pywt/data/_readers.py"],
  [("GIL release around re-entrant kernels", X+"_dwt.pyx, "+X+"_swt.pyx"), ("no static mutable state", C+"*.c")],
  ["all public functions from several threads; C kernels under ThreadSanitizer"])
p("C26", "Allocation failure is reported cleanly and nothing leaks",
  "If any native memory allocation made during a call fails, the call raises MemoryError (or another exception) and neither crashes, frees memory twice, nor returns a wrong or uninitialised result, and the same call repeated afterwards succeeds. Repeating any call, successful or failing, any number of times keeps the number of live native allocations and Python objects bounded.",
  ["fault_sequences", "inputs"], "each allocation site failing in turn in each kind of call; unbounded repetition",
  "No test injects allocation failure or measures allocation balance.",
  [C+"wavelets.c", C+"wt.template.c", C+"convolution.template.c", X+"_pywt.pyx", X+"_dwt.pyx", X+"_swt.pyx"],
  [("NULL checks and cleanup paths", C+"wavelets.c: blank_discrete_wavelet, copy_discrete_wavelet, free_discrete_wavelet; "+C+"wt.template.c: cleanup labels"), ("return code checks", X+"_dwt.pyx, "+X+"_swt.pyx, "+X+"_pywt.pyx")],
  ["malloc/calloc/free of the extension modules", "results after each injected failure"])
p("C27", "Partial transforms agree with the full ones",
  "downcoef(part, x, w, mode, level) equals the corresponding single coefficient array of the multilevel decomposition, and upcoef(part, c, w, level, take) equals repeated upsampling convolution of the coefficients with the reconstruction filters (so that, for wavedec coefficients of any mode but 'periodization', the upcoef reconstructions of all subbands, aligned by their filter delay, add up to the signal, and those with take=N do so whenever the intermediate lengths are even), with take returning exactly the central part. Parts other than 'a' and 'd', levels below 1, negative take and data that are not 1-D are rejected.",
  ["inputs", "configurations"], "all wavelets x modes x lengths x levels x take x dtypes",
  "Tests check one or two wavelets with a fixed level.",
  [X+"_dwt.pyx", "pywt/_dwt.py", C+"wt.template.c", C+"convolution.template.c"],
  [("level loops", X+"_dwt.pyx: downcoef, upcoef"), ("full convolution", C+"convolution.template.c: upsampling_convolution_full")],
  ["pywt.downcoef", "pywt.upcoef"])
p("C28", "Demo signals and sample data have the documented shape and values",
  "demo_signal(name, n) returns, for every documented signal name (case-insensitively) and every positive length n, exactly n samples (or its documented fixed length / list) equal to the published formula on the grid i/n, deterministically; signals of fixed length reject n and the others require it. The data loaders return the same documented arrays on every call, whatever callers did to earlier results.",
  ["inputs", "histories"], "all signal names x lengths n; sequences of loader calls and writes to their results",
  "Tests check n=512 and one loader call each.",
  ["pywt/data/_wavelab_signals.py", "pywt/data/_readers.py"],
  [("formulas", "pywt/data/_wavelab_signals.py: demo_signal"), ("readers", "pywt/data/_readers.py")],
  ["pywt.data.demo_signal", "pywt.data.aero", "pywt.data.ascent", "pywt.data.camera", "pywt.data.ecg", "pywt.data.nino"])
p("C29", "Every call is a pure function of its arguments, independent of call history",
  "Repeating a public call with equal arguments gives bit-identical results whatever other calls (successful or failing, with the same or other wavelets, sizes, precisions and modes) happened before it in the process, and the same results in a fresh process; passing a Wavelet, its name in any letter case or an equal copy, and a mode by name or as a Modes attribute, gives identical results; no call changes process-wide settings (warning filters, floating-point error state, random state).",
  ["histories", "configurations"], "all sequences of public calls",
  "Unit tests run each call in one arbitrary history and never compare histories.",
  ["pywt/_extensions/_pywt.pyx", "pywt/_functions.py", "pywt/_cwt.py", "pywt/_swt.py", "pywt/_multilevel.py"],
  [("no caches or global mutable state", "pywt/*.py, "+X+"*.pyx"), ("argument normalisation", "pywt/_utils.py: _as_wavelet; "+X+"_pywt.pyx: Modes.from_object")],
  ["all public functions"])
p("C30", "Linear transforms are linear at every size and magnitude",
  "dwt, idwt, wavedec*, waverec*, swt*, iswt*, fswavedecn, fswaverecn, mra*, cwt, downcoef, upcoef and wavelet packets are linear operators: scaling the input by a power of two scales every output by exactly that power (no overflow or underflow), negating it negates every output exactly, the transform of a sum is the sum of the transforms to rounding error, and zero input gives exactly zero output. A sample that is NaN or infinite is never hidden: every output that depends on it is not finite, and outputs that do not stay what they are (or are not finite either). This holds for long signals (10**5 and more samples), many-row batches and high ranks as much as for short ones.",
  ["inputs", "configurations"], "all linear transforms x magnitudes 2**-400..2**400 x sizes x dtypes",
  "Tests never vary magnitude and rarely exceed 10**3 samples.",
  [C+"convolution.template.c", C+"wt.template.c", "pywt/_cwt.py", "pywt/_swt.py", "pywt/_multilevel.py", "pywt/_mra.py"],
  [("multiply-accumulate kernels only", C+"convolution.template.c")],
  ["all linear transforms"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
