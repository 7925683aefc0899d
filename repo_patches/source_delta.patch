From 437eeb6517773a43ee2e97bd40ed93efc97700f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:59 +0000
Subject: [PATCH 01/43] fix: threshold: no NaN for zero data with a zero
 threshold, or by underflow

soft and garrote computed 0/0 for zero samples when value is 0, and
garrote squared value and magnitude separately, which under- or
overflows to NaN for finite data.
---
 pywt/_thresholding.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 33af65b..c685537 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -17,11 +17,11 @@ def soft(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value/magnitude)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        # 0/0 (zero data with a zero threshold) must give 0 rather than NaN.
+        ratio = np.where(magnitude == 0, np.inf, value/magnitude)
+        thresholded = data * np.clip(1 - ratio, 0, None)
 
     if substitute == 0:
         return thresholded
@@ -35,11 +35,11 @@ def nn_garrote(data, value, substitute=0):
     data = np.asarray(data)
     magnitude = np.absolute(data)
 
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        thresholded = (1 - value**2/magnitude**2)
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
+        # 0/0 (zero data with a zero threshold) must give 0 rather than NaN.
+        ratio = np.where(magnitude == 0, np.inf, value/magnitude)
+        thresholded = data * np.clip(1 - ratio**2, 0, None)
 
     if substitute == 0:
         return thresholded
-- 
2.43.0


From b557b354d3cd70bfeabd82ca85b5f2c79641d6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:18 +0000
Subject: [PATCH 02/43] fix: threshold_firm: restore large values at index 0;
 documented limit cases

np.any(large_vals[0]) tests the indices, not whether there are any, so a
single large value at index 0 was not restored. value_low = 0,
value_high == value_low and value_high = inf gave NaN instead of the
documented limits.
---
 pywt/_thresholding.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index c685537..00adae3 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -235,15 +235,17 @@ def threshold_firm(data, value_low, value_high):
 
     data = np.asarray(data)
     magnitude = np.absolute(data)
-    with np.errstate(divide='ignore'):
+    with np.errstate(divide='ignore', invalid='ignore'):
         # divide by zero okay as np.inf values get clipped, so ignore warning.
-        vdiff = value_high - value_low
-        thresholded = value_high * (1 - value_low/magnitude) / vdiff
-        thresholded.clip(min=0, max=None, out=thresholded)
-        thresholded = data * thresholded
-
+        thresholded = 1 - value_low/magnitude
+        if value_low < value_high < np.inf:
+            # value_high == value_low is hard-thresholding: no values between
+            # value_high = inf is soft-thresholding: no scaling
+            vdiff = value_high - value_low
+            thresholded = value_high * thresholded / vdiff
+        thresholded = data * np.clip(thresholded, 0, None)
+
+    # small values are zeroed (this also covers 0/0 when value_low is 0)
+    thresholded = np.where(magnitude <= value_low, 0, thresholded)
     # restore hard-thresholding behavior for values > value_high
-    large_vals = np.where(magnitude > value_high)
-    if np.any(large_vals[0]):
-        thresholded[large_vals] = data[large_vals]
-    return thresholded
+    return np.where(magnitude > value_high, data, thresholded)
-- 
2.43.0


From 6edbedfbc11d1bee99a78a99e87ec392d307df0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:18 +0000
Subject: [PATCH 03/43] fix: downcoef: reject length-1 data for [anti]reflect
 instead of hanging

The C kernels loop forever when reflecting a single sample; dwt rejects
it, downcoef (also at deeper levels) did not.
---
 pywt/_extensions/_dwt.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 0fba429..ae0bcd6 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -439,6 +439,8 @@ cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int
 
     for i in range(level):
         data_size = data.size
+        if data_size == 1 and (mode == MODE.MODE_REFLECT or mode == MODE.MODE_ANTIREFLECT):
+            raise ValueError("Input data length must be greater than 1 for [anti]reflect mode.")
         output_len = common.dwt_buffer_length(data.size, wavelet.dec_len, mode)
         if output_len < 1:
             raise RuntimeError("Invalid output length.")
-- 
2.43.0


From 9b5ae8c30339aa0da0ebca50b0fabe86945762ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:55 +0000
Subject: [PATCH 04/43] fix: dwtn, idwtn: check axes before they reach the C
 axis kernels

dwtn passed out-of-range axes to dwt_axis, which reads and writes the
shape array out of bounds; idwtn did so for axes=None and arrays of lower
rank than the coefficient names, and silently returned None for a wrong
number of axes.
---
 pywt/_multidim.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 5a30b80..4b51a63 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -175,6 +175,8 @@ def dwtn(data, wavelet, mode='symmetric', axes=None):
     if axes is None:
         axes = range(data.ndim)
     axes = [a + data.ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= data.ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
@@ -276,12 +278,13 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
     if any(s != coeff_shape for s in coeff_shapes):
         raise ValueError("`coeffs` must all be of equal size (or None)")
 
+    ndim = len(coeff_shape)
     if axes is None:
         axes = range(ndim_transform)
-        ndim = ndim_transform
-    else:
-        ndim = len(coeff_shape)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if len(axes) != ndim_transform:
+        raise ValueError("The number of axes must match the length of the "
+                         "coefficient names.")
 
     modes = _modes_per_axis(mode, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From 8cc1ed29af903be69dff6d6eec5e9111e42b9641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:03 +0000
Subject: [PATCH 05/43] fix: WaveletPacketND: reconstruct data with odd sizes

NodeND did not trim the extra boundary sample as Node and Node2D do, and
the root indexed with a list of slices, which numpy rejects.
---
 pywt/_wavelet_packets.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 57ebcb9..5ebd685 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -675,6 +675,9 @@ class NodeND(BaseNode):
             )
         else:
             rec = idwtn(coeffs, self.wavelet, self.mode, axes=self.axes)
+            if self._data_shape is not None and (
+                    rec.shape != self._data_shape):
+                rec = rec[tuple([slice(sz) for sz in self._data_shape])]
             if update:
                 self.data = rec
             return rec
@@ -741,7 +744,7 @@ class WaveletPacket(Node):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -867,7 +870,7 @@ class WaveletPacket2D(Node2D):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
@@ -1015,7 +1018,7 @@ class WaveletPacketND(NodeND):
         if self.has_any_subnode:
             data = super().reconstruct(update)
             if self.data_size is not None and (data.shape != self.data_size):
-                data = data[[slice(sz) for sz in self.data_size]]
+                data = data[tuple([slice(sz) for sz in self.data_size])]
             if update:
                 self.data = data
             return data
-- 
2.43.0


From c7cb960c90ecfa0bbe4aed92d9023941f5e07e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:04 +0000
Subject: [PATCH 06/43] fix: wavelet packets: keep dtype when assigning a node
 or a list

The dtype was looked up on the assigned object: a node or a list has none,
so complex data lost its imaginary part and float32 became float64.
---
 pywt/_wavelet_packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 5ebd685..b86fc05 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -299,7 +299,7 @@ class BaseNode:
                 else:
                     self.data = np.asarray(data)
                 # convert data to nearest supported dtype
-                dtype = _check_dtype(data)
+                dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
         else:
-- 
2.43.0


From 383711b7ee491d86dd226a1fe2609961b5f7a78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:05 +0000
Subject: [PATCH 07/43] fix: wavelet packets: pickle the axes and the nodes of
 the tree

A pickled WaveletPacket or WaveletPacket2D came back with default axes
and without its (possibly assigned) nodes.
---
 pywt/_wavelet_packets.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index b86fc05..578822b 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -729,7 +729,8 @@ class WaveletPacket(Node):
 
     def __reduce__(self):
         return (WaveletPacket,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel,
+                 self.axes), self.__dict__)
 
     def reconstruct(self, update=True):
         """
@@ -855,7 +856,8 @@ class WaveletPacket2D(Node2D):
 
     def __reduce__(self):
         return (WaveletPacket2D,
-                (self.data, self.wavelet, self.mode, self.maxlevel))
+                (self.data, self.wavelet, self.mode, self.maxlevel,
+                 self.axes), self.__dict__)
 
     def reconstruct(self, update=True):
         """
-- 
2.43.0


From 4747ae1c9e0f3141a186177995bf73f8728d80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:06 +0000
Subject: [PATCH 08/43] fix: wavelet packets: reading a missing node keeps its
 assigned siblings

Looking up a subnode that does not exist yet decomposed the parent anew
and silently replaced all its other subnodes, including modified ones.
---
 pywt/_wavelet_packets.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 578822b..37c9e1e 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -227,7 +227,12 @@ class BaseNode:
         self._validate_node_name(part)
         subnode = self._get_node(part)
         if subnode is None and decompose and not self.is_empty:
+            siblings = [(p, self._get_node(p)) for p in self.PARTS]
             self.decompose()
+            # keep nodes that exist already: they may have been modified
+            for p, node in siblings:
+                if node is not None:
+                    self._set_node(p, node)
             subnode = self._get_node(part)
         return subnode
 
-- 
2.43.0


From 11ab522452ab937b4171ca19f60ffc78d08a428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:08 +0000
Subject: [PATCH 09/43] fix: wavelet packets: get_level(0, 'freq') returns the
 root node

---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 37c9e1e..70010ba 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -20,6 +20,8 @@ from ._multidim import dwt2, dwtn, idwt2, idwtn
 
 
 def get_graycode_order(level, x='a', y='d'):
+    if level == 0:
+        return ['']
     graycode_order = [x, y]
     for i in range(level - 1):
         graycode_order = [x + path for path in graycode_order] + \
-- 
2.43.0


From 737b320e3aabf56214ca123884a290f2c01ec6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:33 +0000
Subject: [PATCH 10/43] fix: wavedecn_shapes: same default level as wavedecn
 for per-axis wavelets

The shortest axis was combined with the longest filter although they may
belong to different axes.
---
 pywt/_multilevel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 0e5ca9c..1529cc2 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -926,7 +926,7 @@ def wavedecn_shapes(shape, wavelet, mode='symmetric', level=None, axes=None):
     modes = _modes_per_axis(mode, axes)
     dec_lengths = [w.dec_len for w in wavelets]
 
-    level = _check_level(min(axes_shapes), max(dec_lengths), level)
+    level = _check_level(axes_shapes, dec_lengths, level)
 
     shapes = []
     for i in range(level):
-- 
2.43.0


From beddbfbd6b9e827b380053db41230069d298842e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:13 +0000
Subject: [PATCH 11/43] fix: imra2, imran: do not add into the caller's first
 component

A second call on the same components returned a different array.
---
 pywt/_mra.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index a41431e..1f8a263 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -280,7 +280,8 @@ def imra2(mra_coeffs):
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
-    rec = mra_coeffs[0]
+    # copy to avoid modification of the input coefficients
+    rec = mra_coeffs[0].copy()
     for j in range(1, len(mra_coeffs)):
         for n in range(3):
             rec += mra_coeffs[j][n]
@@ -427,7 +428,8 @@ def imran(mra_coeffs):
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
-    rec = mra_coeffs[0]
+    # copy to avoid modification of the input coefficients
+    rec = mra_coeffs[0].copy()
     for j in range(1, len(mra_coeffs)):
         for k, v in mra_coeffs[j].items():
             rec += v
-- 
2.43.0


From 6591c114ade41fe44e4e984bb393e3a59a22159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:29 +0000
Subject: [PATCH 12/43] fix: mra2, mran: default swt level from the transformed
 axes only

---
 pywt/_mra.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 1f8a263..795a0a9 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -207,7 +207,8 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(s) for s in
+                        _prep_axes_wavedecn(data.shape, axes)[1])
         kwargs = {"wavelet": wavelet, "axes": axes, "norm": True}
         forward = partial(swt2, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswt2, **kwargs)
@@ -351,7 +352,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
             raise ValueError(
                 "transform swt only supports mode='periodization'")
         if level is None:
-            level = min(swt_max_level(s) for s in data.shape)
+            level = min(swt_max_level(s) for s in axes_shapes)
         kwargs = {"wavelet": wavelets, "axes": axes, "norm": True}
         forward = partial(swtn, level=level, trim_approx=True, **kwargs)
         inverse = partial(iswtn, **kwargs)
-- 
2.43.0


From 529db3a025e1c9ae784f8a5de85f34610a3d7e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:41 +0000
Subject: [PATCH 13/43] fix: mra, mra2, mran: accept any array_like as
 documented

---
 pywt/_mra.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_mra.py b/pywt/_mra.py
index 795a0a9..da9686c 100644
--- a/pywt/_mra.py
+++ b/pywt/_mra.py
@@ -72,6 +72,7 @@ def mra(data, wavelet, level=None, axis=-1, transform='swt',
         https://doi.org/10.2307/2965551
 
     """
+    data = np.asarray(data)
     if transform == 'swt':
         if mode != 'periodization':
             raise ValueError(
@@ -202,6 +203,7 @@ def mra2(data, wavelet, level=None, axes=(-2, -1), transform='swt2',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     if transform == 'swt2':
         if mode != 'periodization':
             raise ValueError(
@@ -344,6 +346,7 @@ def mran(data, wavelet, level=None, axes=None, transform='swtn',
         Statistical Association Vol. 92, No. 439 (Sep., 1997), pp. 868-880.
         https://doi.org/10.2307/2965551
     """
+    data = np.asarray(data)
     axes, axes_shapes, ndim_transform = _prep_axes_wavedecn(data.shape, axes)
     wavelets = _wavelets_per_axis(wavelet, axes)
 
-- 
2.43.0


From e9bac159bac48839524e46bf9781cea6e23b16e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:46 +0000
Subject: [PATCH 14/43] fix: iswtn: do not modify the coefficient dictionaries

The approximations were removed from and put back into the caller's
dictionaries: they were lost when an exception was raised in between, or
seen missing by another thread, and the key order changed.
---
 pywt/_swt.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index f64e959..c972e49 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -768,9 +768,9 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     for j in range(num_levels):
         step_size = int(pow(2, num_levels-j-1))
         last_index = step_size
-        if not trim_approx:
-            a = coeffs[j].pop('a'*ndim_transform)  # will restore later
-        details = coeffs[j]
+        # leave out the approximation (in a copy: do not modify the input)
+        details = coeffs[j] if trim_approx else {
+            k: v for k, v in coeffs[j].items() if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
             [dt, ] + [v.dtype for v in details.values()]))
@@ -820,6 +820,4 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
                 output[tuple(indices)] += x
                 ntransforms += 1
             output[tuple(indices)] /= ntransforms  # normalize
-        if not trim_approx:
-            coeffs[j]['a'*ndim_transform] = a  # restore approx coeffs to dict
     return output
-- 
2.43.0


From 58dbc6af7aee6daeb0f2500beb7f52efddd3d097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:03 +0000
Subject: [PATCH 15/43] fix: keep the imaginary part of non-native complex
 arrays and complex lists

Non-native byte order complex arrays were converted to float64 and so
silently lost their imaginary part; lists of complex numbers were
rejected by the 1-D functions only.
---
 pywt/_extensions/_pywt.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index ddef575..7ae86e2 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -1034,7 +1034,7 @@ cpdef np.dtype _check_dtype(data):
     """Check for cA/cD input what (if any) the dtype is."""
     cdef np.dtype dt
     try:
-        dt = data.dtype
+        dt = data.dtype.newbyteorder('=')
         if dt not in (np.float64, np.float32, np.complex64, np.complex128):
             if dt == np.half:
                 # half-precision input converted to single precision
@@ -1046,7 +1046,7 @@ cpdef np.dtype _check_dtype(data):
                 # integer input was always accepted; convert to float64
                 dt = np.dtype('float64')
     except AttributeError:
-        dt = np.dtype('float64')
+        dt = np.dtype('complex128' if np.iscomplexobj(data) else 'float64')
     return dt
 
 
-- 
2.43.0


From a973c34d643e7fd0b4cad842375b8243300720d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:51 +0000
Subject: [PATCH 16/43] fix: dwt, downcoef, upcoef: accept read-only 1-D arrays

The typed memoryviews demanded a writable buffer although the data are
only read; n-D and non-contiguous read-only arrays always worked.
---
 pywt/_extensions/_dwt.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index ae0bcd6..38225ca 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -23,7 +23,7 @@ cpdef dwt_coeff_len(size_t data_len, size_t filter_len, MODE mode):
 
     return common.dwt_buffer_length(data_len, filter_len, mode)
 
-cpdef dwt_single(cdata_t[::1] data, Wavelet wavelet, MODE mode):
+cpdef dwt_single(const cdata_t[::1] data, Wavelet wavelet, MODE mode):
     cdef size_t output_len = dwt_coeff_len(data.size, wavelet.dec_len, mode)
     cdef np.ndarray cA, cD
     cdef int retval_a, retval_d
@@ -336,7 +336,7 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     return output
 
 
-cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
+cpdef upcoef(bint do_rec_a, const cdata_t[::1] coeffs, Wavelet wavelet, int level,
              size_t take):
     cdef cdata_t[::1] rec
     cdef int i, retval
@@ -429,7 +429,7 @@ cpdef upcoef(bint do_rec_a, cdata_t[::1] coeffs, Wavelet wavelet, int level,
     return rec
 
 
-cpdef downcoef(bint do_dec_a, cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
+cpdef downcoef(bint do_dec_a, const cdata_t[::1] data, Wavelet wavelet, MODE mode, int level):
     cdef cdata_t[::1] coeffs
     cdef int i, retval
     cdef size_t output_len, data_size
-- 
2.43.0


From db9db51bd1cbdb4d863cdf7f278446de08d3fa22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:11 +0000
Subject: [PATCH 17/43] fix: pad: one-sided and single-sample 'smooth' and
 'antisymmetric' padding

A right pad width of 0 was used as index -0, and the slope of a single
sample was taken from the padding.
---
 pywt/_dwt.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 1af28d9..f1786eb 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -461,16 +461,21 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
+            vsize_nonpad = vector.size - pad_width[0] - pad_width[1]
             # smooth extension to left
+            # (a single sample has no slope: constant extension as in dwt)
             left = vector[pad_width[0]]
-            slope_left = (left - vector[pad_width[0] + 1])
+            slope_left = (left - vector[pad_width[0] + 1]
+                          if vsize_nonpad > 1 else 0)
             vector[:pad_width[0]] = \
                 left + np.arange(pad_width[0], 0, -1) * slope_left
 
             # smooth extension to right
-            right = vector[-pad_width[1] - 1]
-            slope_right = (right - vector[-pad_width[1] - 2])
-            vector[-pad_width[1]:] = \
+            r_start = vector.size - pad_width[1]
+            right = vector[r_start - 1]
+            slope_right = (right - vector[r_start - 2]
+                           if vsize_nonpad > 1 else 0)
+            vector[r_start:] = \
                 right + np.arange(1, pad_width[1] + 1) * slope_right
             return vector
         xp = np.pad(x, pad_widths, pad_smooth)
@@ -481,7 +486,7 @@ def pad(x, pad_widths, mode):
             npad_l, npad_r = pad_width
             vsize_nonpad = vector.size - npad_l - npad_r
             # Note: must modify vector in-place
-            vector[:] = np.pad(vector[pad_width[0]:-pad_width[-1]],
+            vector[:] = np.pad(vector[npad_l:npad_l + vsize_nonpad],
                                pad_width, mode='symmetric')
             vp = vector
             r_edge = npad_l + vsize_nonpad - 1
-- 
2.43.0


From 5d15ca87c4fe69d54b352e378e820a96e826bb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:51 +0000
Subject: [PATCH 18/43] fix: demo_signal: exactly n finite samples for every
 length n

---
 pywt/data/_wavelab_signals.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/pywt/data/_wavelab_signals.py b/pywt/data/_wavelab_signals.py
index 952c0b9..46d96ce 100644
--- a/pywt/data/_wavelab_signals.py
+++ b/pywt/data/_wavelab_signals.py
@@ -76,12 +76,13 @@ def demo_signal(name='Bumps', n=None):
 
     """
     if name.lower() == 'list':
-        return _implemented_signals
+        return _implemented_signals[:]
 
     if n is not None:
         if n < 1 or (n % 1) != 0:
             raise ValueError("n must be an integer >= 1")
-        t = np.arange(1/n, 1 + 1/n, 1/n)
+        n = int(n)
+        t = np.arange(1, n + 1) / n
 
     # The following function types don't allow user-specified `n`.
     n_hard_coded = ['gabor', 'sineoneoverx']
@@ -139,7 +140,7 @@ def demo_signal(name='Bumps', n=None):
     elif name == 'hypchirps':  # Hyperbolic Chirps of Mallat's book
         alpha = 15 * n * np.pi / 1024
         beta = 5 * n * np.pi / 1024
-        t = np.arange(1.001, n + .001 + 1) / n
+        t = (np.arange(1, n + 1) + .001) / n
         f1 = np.zeros(n)
         f2 = np.zeros(n)
         f1 = np.sin(alpha / (.8 - t)) * (0.1 < t) * (t < 0.68)
@@ -148,7 +149,7 @@ def demo_signal(name='Bumps', n=None):
         p = m // 4
         envelope = np.ones(m)  # the rinp.sing cutoff function
         tmp = np.arange(1, p + 1)-np.ones(p)
-        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / (p - 1) * np.pi)) / 2
+        envelope[:p] = (1 + np.sin(-np.pi / 2 + tmp / max(p - 1, 1) * np.pi)) / 2
         envelope[m-p:m] = envelope[:p][::-1]
         env = np.zeros(n)
         env[int(np.ceil(n / 10)) - 1:m + int(np.ceil(n / 10)) - 1] = \
@@ -176,10 +177,11 @@ def demo_signal(name='Bumps', n=None):
         f4 = g[i2] * np.cos(350 * np.pi * j * n / 1024)
         f = f1 + f2 + f3 + f4
         envelope = np.ones(n)  # the rinp.sing cutoff function
-        tmp = np.arange(1, n // 8 + 1) - np.ones(n // 8)
-        envelope[:n // 8] = (
-            1 + np.sin(-np.pi / 2 + tmp / (n / 8 - 1) * np.pi)) / 2
-        envelope[7 * n // 8:n] = envelope[:n // 8][::-1]
+        n_8 = n // 8
+        tmp = np.arange(1, n_8 + 1) - np.ones(n_8)
+        envelope[:n_8] = (
+            1 + np.sin(-np.pi / 2 + tmp / max(n_8 - 1, 1) * np.pi)) / 2
+        envelope[n - n_8:n] = envelope[:n_8][::-1]
         f = f*envelope
     elif name == 'gabor':  # two modulated Gabor functions in Mallat's book
         n = 512
@@ -225,7 +227,7 @@ def demo_signal(name='Bumps', n=None):
         k = n_2 + 2 * n_12 + 3 * n_20
         f[k:k + n_7] = f5
         diff = n - 5 * n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         # zero-mean
         bias = np.sum(f) / n
         f = bias - f
@@ -247,7 +249,7 @@ def demo_signal(name='Bumps', n=None):
         f[3 * n_5:4 * n_5] = f4
         f[4 * n_5:5 * n_5] = f5[n_5::-1]
         diff = n - 5*n_5
-        f[5 * n_5:n] = f[diff - 1::-1]
+        f[5 * n_5:n] = f[:diff][::-1]
         f[n_20:n_20 + n_10] = np.ones(n_10) * 10
         f[n - n_10:n + n_20 - n_10] = np.ones(n_20) * 150
         # zero-mean
@@ -255,7 +257,7 @@ def demo_signal(name='Bumps', n=None):
         f = f - bias
     elif name == 'riemann':
         # Riemann's Non-differentiable Function
-        sqn = int(np.round(np.sqrt(n)))
+        sqn = int(np.floor(np.sqrt(n)))
         idx = np.arange(1, sqn + 1)
         idx *= idx
         f = np.zeros_like(t)
-- 
2.43.0


From 195aac00876b48ff16b18239f0ec472fa113d2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:55 +0000
Subject: [PATCH 19/43] fix: reject repeated axes given as negative and
 non-negative numbers

---
 pywt/_multilevel.py      | 18 +++++++++++++-----
 pywt/_utils.py           |  6 ++++++
 pywt/_wavelet_packets.py |  5 +++++
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 1529cc2..4168bad 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -20,7 +20,13 @@ from ._dwt import dwt, dwt_coeff_len, idwt
 from ._extensions._dwt import dwt_max_level
 from ._extensions._pywt import Modes, Wavelet
 from ._multidim import _fix_coeffs, dwt2, dwtn, idwt2, idwtn
-from ._utils import AxisError, _as_wavelet, _modes_per_axis, _wavelets_per_axis
+from ._utils import (
+    AxisError,
+    _as_wavelet,
+    _has_repeated_axes,
+    _modes_per_axis,
+    _wavelets_per_axis,
+)
 
 __all__ = ['wavedec', 'waverec', 'wavedec2', 'waverec2', 'wavedecn',
            'waverecn', 'coeffs_to_array', 'array_to_coeffs', 'ravel_coeffs',
@@ -228,7 +234,7 @@ def wavedec2(data, wavelet, mode='symmetric', level=None, axes=(-2, -1)):
     axes = tuple(axes)
     if len(axes) != 2:
         raise ValueError("Expected 2 axes")
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, data.ndim):
         raise ValueError("The axes passed to wavedec2 must be unique.")
     try:
         axes_sizes = [data.shape[ax] for ax in axes]
@@ -312,6 +318,8 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
 
     a, ds = coeffs[0], coeffs[1:]
     a = np.asarray(a)
+    if _has_repeated_axes(axes, a.ndim):
+        raise ValueError("The axes passed to waverec2 must be unique.")
 
     for d in ds:
         if not isinstance(d, (list, tuple)) or len(d) != 3:
@@ -347,7 +355,7 @@ def _prep_axes_wavedecn(shape, axes):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, ndim):
         raise ValueError("The axes passed to wavedecn must be unique.")
     try:
         axes_shapes = [shape[ax] for ax in axes]
@@ -560,7 +568,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         axes = range(ndim)
     else:
         axes = tuple(axes)
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, ndim):
         raise ValueError("The axes passed to waverecn must be unique.")
     ndim_transform = len(axes)
 
@@ -1193,7 +1201,7 @@ def unravel_coeffs(arr, coeff_slices, coeff_shapes, output_format='wavedecn'):
 
 def _check_fswavedecn_axes(data, axes):
     """Axes checks common to fswavedecn, fswaverecn."""
-    if len(axes) != len(set(axes)):
+    if _has_repeated_axes(axes, data.ndim):
         raise AxisError("The axes passed to fswavedecn must be unique.")
     try:
         [data.shape[ax] for ax in axes]
diff --git a/pywt/_utils.py b/pywt/_utils.py
index c7dfcb6..fd0df3c 100644
--- a/pywt/_utils.py
+++ b/pywt/_utils.py
@@ -33,6 +33,12 @@ def _as_wavelet(wavelet):
     return wavelet
 
 
+def _has_repeated_axes(axes, ndim):
+    """Check whether any axis is given twice, e.g. as both 0 and -ndim."""
+    axes = [ax + ndim if ax < 0 else ax for ax in axes]
+    return len(axes) != len(set(axes))
+
+
 def _wavelets_per_axis(wavelet, axes):
     """Initialize Wavelets for each axis to be transformed.
 
diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 70010ba..55c143b 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -17,6 +17,7 @@ import numpy as np
 from ._dwt import dwt, dwt_max_level, idwt
 from ._extensions._pywt import Wavelet, _check_dtype
 from ._multidim import dwt2, dwtn, idwt2, idwtn
+from ._utils import _has_repeated_axes
 
 
 def get_graycode_order(level, x='a', y='d'):
@@ -853,6 +854,8 @@ class WaveletPacket2D(Node2D):
             if data.ndim < 2:
                 raise ValueError(
                     "WaveletPacket2D requires data with 2 or more dimensions.")
+            if _has_repeated_axes(self.axes, data.ndim):
+                raise ValueError("Expected a set of unique axes.")
             self.data_size = data.shape
             transform_size = [data.shape[ax] for ax in self.axes]
             if maxlevel is None:
@@ -1006,6 +1009,8 @@ class WaveletPacketND(NodeND):
             if data.ndim < len(axes):
                 raise ValueError("The number of axes exceeds the number of "
                                  "data dimensions.")
+            if _has_repeated_axes(self.axes, data.ndim):
+                raise ValueError("Expected a set of unique axes.")
             self.data_size = data.shape
             transform_size = [data.shape[ax] for ax in self.axes]
             if maxlevel is None:
-- 
2.43.0


From 50eab87eb2f96c6d7179de4af607eef316f81793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 20/43] fix: downcoef, upcoef: reject '' and 'ad' as part

---
 pywt/_dwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index f1786eb..f993ed1 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -336,7 +336,7 @@ def downcoef(part, data, wavelet, mode='symmetric', level=1):
     data = np.asarray(data, dtype=dt, order='C')
     if data.ndim > 1:
         raise ValueError("downcoef only supports 1d data.")
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     mode = Modes.from_object(mode)
     wavelet = _as_wavelet(wavelet)
@@ -396,7 +396,7 @@ def upcoef(part, coeffs, wavelet, level=1, take=0):
     if coeffs.ndim > 1:
         raise ValueError("upcoef only supports 1d coeffs.")
     wavelet = _as_wavelet(wavelet)
-    if part not in 'ad':
+    if part not in ('a', 'd'):
         raise ValueError(f"Argument 1 must be 'a' or 'd', not '{part}'.")
     return np.asarray(_upcoef(part == 'a', coeffs, wavelet, level, take))
 
-- 
2.43.0


From caae5edceed95d941e144fe844562ed65ed4bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:50 +0000
Subject: [PATCH 21/43] fix: FswavedecnResult: integer-valued float indices and
 type validation

---
 pywt/_multilevel.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 4168bad..3c62ac5 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -1234,11 +1234,11 @@ class FswavedecnResult:
         self._coeffs = coeffs
         self._coeff_slices = coeff_slices
         self._axes = axes
-        if not np.all(isinstance(w, Wavelet) for w in wavelets):
+        if not all(isinstance(w, Wavelet) for w in wavelets):
             raise ValueError(
                 "wavelets must contain pywt.Wavelet objects")
         self._wavelets = wavelets
-        if not np.all(isinstance(m, int) for m in mode_enums):
+        if not all(isinstance(m, int) for m in mode_enums):
             raise ValueError(
                 "mode_enums must be integers")
         self._mode_enums = mode_enums
@@ -1337,6 +1337,8 @@ class FswavedecnResult:
             raise ValueError(
                 "Specified indices exceed the number of transform levels.")
 
+        return levels
+
     def __getitem__(self, levels):
         """Retrieve a coefficient subband.
 
@@ -1346,7 +1348,7 @@ class FswavedecnResult:
             The number of degrees of decomposition along each transformed
             axis.
         """
-        self._validate_index(levels)
+        levels = self._validate_index(levels)
         sl = self._get_coef_sl(levels)
         return self._coeffs[sl]
 
@@ -1362,7 +1364,7 @@ class FswavedecnResult:
             The data corresponding to assign. It must match the expected
             shape and dtype of the specified subband.
         """
-        self._validate_index(levels)
+        levels = self._validate_index(levels)
         sl = self._get_coef_sl(levels)
         current_dtype = self._coeffs[sl].dtype
         if self._coeffs[sl].shape != x.shape:
-- 
2.43.0


From fc062c06505d32288f2f0d0c12663612c00993f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:17 +0000
Subject: [PATCH 22/43] fix: data: loaders return an independent array on every
 call

---
 pywt/data/_readers.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pywt/data/_readers.py b/pywt/data/_readers.py
index 8c2e788..ebb192a 100644
--- a/pywt/data/_readers.py
+++ b/pywt/data/_readers.py
@@ -8,6 +8,12 @@ _DATADIR = importlib.resources.files('pywt.data')
 
 
 @functools.cache
+def _load_data(filename):
+    # callers must not return this array itself: it is shared
+    with importlib.resources.as_file(_DATADIR.joinpath(filename)) as f:
+        return np.load(f)['data']
+
+
 def ascent():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -41,13 +47,9 @@ def ascent():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('ascent.npz')) as f:
-        ascent = np.load(f)['data']
-
-    return ascent
+    return _load_data('ascent.npz').copy()
 
 
-@functools.cache
 def aero():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -78,13 +80,9 @@ def aero():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('aero.npz')) as f:
-        aero = np.load(f)['data']
-
-    return aero
+    return _load_data('aero.npz').copy()
 
 
-@functools.cache
 def camera():
     """
     Get an 8-bit grayscale bit-depth, 512 x 512 derived image for
@@ -126,13 +124,9 @@ def camera():
     >>> plt.show()
 
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('camera.npz')) as f:
-        camera = np.load(f)['data']
-
-    return camera
+    return _load_data('camera.npz').copy()
 
 
-@functools.cache
 def ecg():
     """
     Get 1024 points of an ECG timeseries.
@@ -158,13 +152,9 @@ def ecg():
     [<matplotlib.lines.Line2D object at ...>]
     >>> plt.show()
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('ecg.npz')) as f:
-        ecg = np.load(f)['data']
+    return _load_data('ecg.npz').copy()
 
-    return ecg
 
-
-@functools.cache
 def nino():
     """
     This data contains the averaged monthly sea surface temperature in degrees
@@ -196,8 +186,7 @@ def nino():
     [<matplotlib.lines.Line2D object at ...>]
     >>> plt.show()
     """
-    with importlib.resources.as_file(_DATADIR.joinpath('sst_nino3.npz')) as f:
-        sst_csv = np.load(f)['data']
+    sst_csv = _load_data('sst_nino3.npz')
 
     # sst_csv = pd.read_csv("http://www.cpc.ncep.noaa.gov/data/indices/ersst4.nino.mth.81-10.ascii", sep=' ', skipinitialspace=True)
     # take only full years
-- 
2.43.0


From 6acf51585ad3f19091b2ed4360aaba9f2d70aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:41 +0000
Subject: [PATCH 23/43] fix: Modes.from_object: reject names of attributes that
 are not modes

---
 pywt/_extensions/_pywt.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 7ae86e2..a48390e 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -123,6 +123,9 @@ class _Modes(object):
                 m = getattr(Modes, mode)
             except AttributeError:
                 raise ValueError("Unknown mode name '%s'." % mode)
+            if not isinstance(m, int):
+                # some other attribute of Modes
+                raise ValueError("Unknown mode name '%s'." % mode)
 
         return m
 
-- 
2.43.0


From 46a721694b3dfd84fc726a36f85f497efe4d791b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:08 +0000
Subject: [PATCH 24/43] fix: report allocation failure of the SWT filter and of
 the haar wavelet

---
 pywt/_extensions/c/wavelets.c    |  1 +
 pywt/_extensions/c/wt.template.c | 18 ++++++++++--------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pywt/_extensions/c/wavelets.c b/pywt/_extensions/c/wavelets.c
index a45531e..ad786f5 100644
--- a/pywt/_extensions/c/wavelets.c
+++ b/pywt/_extensions/c/wavelets.c
@@ -57,6 +57,7 @@ DiscreteWavelet* discrete_wavelet(WAVELET_NAME name, unsigned int order)
 
         /* the same as db1 */
         w = discrete_wavelet(DB, 1);
+        if (w == NULL) return NULL;
         w->base.family_name = "Haar";
         w->base.short_name = "haar";
         return w;
diff --git a/pywt/_extensions/c/wt.template.c b/pywt/_extensions/c/wt.template.c
index d79fbd3..d74932e 100644
--- a/pywt/_extensions/c/wt.template.c
+++ b/pywt/_extensions/c/wt.template.c
@@ -134,16 +134,18 @@ int CAT(TYPE, _downcoef_axis)(const TYPE * const restrict input, const ArrayInfo
                 // Apply along axis
                 switch (coef){
                 case COEF_APPROX:
-                    CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    if (CAT(TYPE, _swt_a)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          swt_level))
+                        goto cleanup;
                     break;
                 case COEF_DETAIL:
-                    CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
-                                      wavelet,
-                                      output_row, output_info.shape[axis],
-                                      swt_level);
+                    if (CAT(TYPE, _swt_d)(input_row, input_info.shape[axis],
+                                          wavelet,
+                                          output_row, output_info.shape[axis],
+                                          swt_level))
+                        goto cleanup;
                     break;
                 }
                 break;
-- 
2.43.0


From 9de1846fbed054d7a16d0f2889b77bdadd508814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:31 +0000
Subject: [PATCH 25/43] fix: pickled and copied wavelets keep their metadata
 and settings

---
 pywt/_extensions/_pywt.pyx | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index a48390e..64c417e 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -434,7 +434,15 @@ cdef public class Wavelet [type WaveletType, object WaveletObject]:
             self.w = NULL
 
     def __reduce__(self):
-        return (Wavelet, (self.name, self.filter_bank))
+        if self.number is not None:
+            # built-in wavelet: the name determines all of its properties
+            args = (self.name, )
+        else:
+            args = (self.name, self.filter_bank)
+        return (Wavelet, args, (self.orthogonal, self.biorthogonal))
+
+    def __setstate__(self, state):
+        self.orthogonal, self.biorthogonal = state
 
     def __len__(self):
         return self.w.dec_len
@@ -781,7 +789,17 @@ cdef public class ContinuousWavelet [type ContinuousWaveletType, object Continuo
             self.w = NULL
 
     def __reduce__(self):
-        return (ContinuousWavelet, (self.name, self.dt))
+        return (ContinuousWavelet, (self.name, self.dt),
+                (self.orthogonal, self.biorthogonal, self.complex_cwt,
+                 self.w.lower_bound, self.w.upper_bound,
+                 self.w.center_frequency, self.w.bandwidth_frequency,
+                 self.w.fbsp_order))
+
+    def __setstate__(self, state):
+        (self.orthogonal, self.biorthogonal, self.complex_cwt,
+         self.w.lower_bound, self.w.upper_bound,
+         self.w.center_frequency, self.w.bandwidth_frequency,
+         self.w.fbsp_order) = state
 
     property family_number:
         "Wavelet family number"
-- 
2.43.0


From 85d07053e3c75aedad5f028d739dab57bef01974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 26/43] fix: cwt: reject discrete wavelets with ValueError

---
 pywt/_cwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 0d69095..dce1ef9 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -105,6 +105,9 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
     dt_cplx = np.result_type(dt, np.complex64)
     if not isinstance(wavelet, (ContinuousWavelet, Wavelet)):
         wavelet = DiscreteContinuousWavelet(wavelet)
+    if isinstance(wavelet, Wavelet):
+        raise ValueError("cwt requires a continuous wavelet, got the discrete "
+                         f"wavelet {wavelet.name!r}.")
 
     scales = np.atleast_1d(scales)
     if np.any(scales <= 0):
-- 
2.43.0


From 8a5c4d1476edcc92d3131d04f4455e887981c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:00 +0000
Subject: [PATCH 27/43] fix: waverecn: no debug print before rejecting
 coefficients

---
 pywt/_multilevel.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 3c62ac5..67d9dde 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -461,7 +461,6 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
     if np.any((size_diffs < 0) | (size_diffs > 1)):
-        print(size_diffs)
         raise ValueError("incompatible coefficient array sizes")
     return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
 
-- 
2.43.0


From 8749effc01a86054ff273212ff42496d358aa833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:32 +0000
Subject: [PATCH 28/43] fix: dwt_max_level: wavelet names in any letter case,
 as everywhere else

---
 pywt/_dwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index f993ed1..6423f36 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -62,7 +62,7 @@ def dwt_max_level(data_len, filter_len):
     if isinstance(filter_len, Wavelet):
         filter_len = filter_len.dec_len
     elif isinstance(filter_len, str):
-        if filter_len in wavelist(kind='discrete'):
+        if filter_len.lower() in wavelist(kind='discrete'):
             filter_len = Wavelet(filter_len).dec_len
         else:
             raise ValueError(
-- 
2.43.0


From 90b0fde27f76a613b95c83a9493445121e6cac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 29/43] fix: iswtn: double precision result for long double
 coefficients, as in iswt and iswt2

---
 pywt/_swt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index c972e49..2f97661 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -773,7 +773,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
             k: v for k, v in coeffs[j].items() if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [v.dtype for v in details.values()]))
+            [dt, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From 0dac7ac7659cec69523c7761f8150d4b6c039d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 30/43] fix: swtn, swt2: reject a negative level instead of
 returning nothing

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 2f97661..acf3142 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -642,6 +642,8 @@ def swtn(data, wavelet, level, start_level=0, axes=None, trim_approx=False,
         raise AxisError("Axis greater than data dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
+    if level < 0:
+        raise ValueError("Level value must not be negative.")
     num_axes = len(axes)
 
     wavelets = _wavelets_per_axis(wavelet, axes)
-- 
2.43.0


From 4c1010a056b9e9a8c1a6c73dc6ea51d2f60107cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:48 +0000
Subject: [PATCH 31/43] fix: wavelet packets: trim the reconstruction of a node
 whose data was assigned

A node created by assignment did not record the shape of its data, so
with an odd size the reconstruction from its subnodes was one sample too
long and no longer matched its siblings.
---
 pywt/_wavelet_packets.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 55c143b..3b7d8ff 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -310,6 +310,8 @@ class BaseNode:
                 dtype = _check_dtype(self.data)
                 if self.data.dtype != dtype:
                     self.data = self.data.astype(dtype)
+                # reconstruction from subnodes is trimmed to this shape
+                self._data_shape = self.data.shape
         else:
             raise TypeError("Invalid path parameter type - expected string but"
                             " got %s." % type(path))
-- 
2.43.0


From d60462085f2247fa1cd2191f62b5d50c7c950612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 32/43] fix: cwt: reject empty data with method='fft' as with
 'conv'

---
 pywt/_cwt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index dce1ef9..6803f63 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -133,6 +133,9 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
     elif method != "conv":
         raise ValueError("method must be 'conv' or 'fft'")
 
+    if data.ndim == 1 and data.size < 1:
+        raise ValueError("data must not be empty")
+
     if data.ndim > 1:
         # move axis to be transformed last (so it is contiguous)
         data = data.swapaxes(-1, axis)
-- 
2.43.0


From 057cdaf2dfea396ec540797f3fe8449d5dcc0e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 33/43] fix: ContinuousWavelet: parse parameters written
 without a leading zero, as in 'cmor.5-1'

---
 pywt/_extensions/_pywt.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywt/_extensions/_pywt.pyx b/pywt/_extensions/_pywt.pyx
index 64c417e..099572e 100644
--- a/pywt/_extensions/_pywt.pyx
+++ b/pywt/_extensions/_pywt.pyx
@@ -36,7 +36,9 @@ _attr_deprecation_msg = ('{old} has been renamed to {new} and will '
 
 # Extract float/int parameters from a wavelet name. Examples:
 #    re.findall(cwt_pattern, 'fbsp1-1.5-1') ->  ['1', 1.5', '1']
-cwt_pattern = re.compile(r'\D+(\d+\.*\d*)+')
+#    re.findall(cwt_pattern, 'cmor.5-1') ->  ['.5', '1']
+#    re.findall(cwt_pattern, 'cmor1..5-1') ->  ['1..5', '1']  (not a float)
+cwt_pattern = re.compile(r'[^\d.]+([\d.]*\d[\d.]*)')
 
 
 # raises exception if the wavelet name is undefined
-- 
2.43.0


From 979a84a651aacdaf13c162d65f00e2052e8cf012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 34/43] fix: threshold_firm: no NaN for a value_high beyond the
 range of the data type

---
 pywt/_thresholding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_thresholding.py b/pywt/_thresholding.py
index 00adae3..e0613fc 100644
--- a/pywt/_thresholding.py
+++ b/pywt/_thresholding.py
@@ -241,8 +241,9 @@ def threshold_firm(data, value_low, value_high):
         if value_low < value_high < np.inf:
             # value_high == value_low is hard-thresholding: no values between
             # value_high = inf is soft-thresholding: no scaling
+            # the ratio is formed first: it cannot overflow a narrow data type
             vdiff = value_high - value_low
-            thresholded = value_high * thresholded / vdiff
+            thresholded = thresholded / (vdiff / value_high)
         thresholded = data * np.clip(thresholded, 0, None)
 
     # small values are zeroed (this also covers 0/0 when value_low is 0)
-- 
2.43.0


From d54ec702e304ae972ad222f7e743d6c7168bf45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:57 +0000
Subject: [PATCH 35/43] fix: idwt, idwtn: reject empty coefficients instead of
 hanging or returning nothing

---
 pywt/_extensions/_dwt.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pywt/_extensions/_dwt.pyx b/pywt/_extensions/_dwt.pyx
index 38225ca..9cd74d3 100644
--- a/pywt/_extensions/_dwt.pyx
+++ b/pywt/_extensions/_dwt.pyx
@@ -289,6 +289,10 @@ cpdef idwt_axis(np.ndarray coefs_a, np.ndarray coefs_d,
     output_shape = input_shape.copy()
     output_shape[axis] = common.idwt_buffer_length(input_shape[axis],
                                                    wavelet.rec_len, mode)
+    if output_shape[axis] < 1:
+        raise ValueError(
+            "Invalid coefficient arrays length for specified wavelet. "
+            "Wavelet and mode must be the same as used for decomposition.")
     output = np.empty(output_shape, output_dtype)
 
     output_info.ndim = output.ndim
-- 
2.43.0


From 19c397de5592daa1f71a98645b55d40c03a62d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:21 +0000
Subject: [PATCH 36/43] fix: pad: empty data in the 'smooth' and
 'antisymmetric' modes as in the others, not a hang

---
 pywt/_dwt.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pywt/_dwt.py b/pywt/_dwt.py
index 6423f36..0848db1 100644
--- a/pywt/_dwt.py
+++ b/pywt/_dwt.py
@@ -457,7 +457,9 @@ def pad(x, pad_widths, mode):
         xp = np.pad(x, pad_widths, mode='wrap')
     elif mode == 'zero':
         xp = np.pad(x, pad_widths, mode='constant', constant_values=0)
-    elif mode == 'constant':
+    elif mode == 'constant' or (x.size == 0 and
+                                mode in ['smooth', 'antisymmetric']):
+        # (there are no samples to extrapolate in empty data)
         xp = np.pad(x, pad_widths, mode='edge')
     elif mode == 'smooth':
         def pad_smooth(vector, pad_width, iaxis, kwargs):
-- 
2.43.0


From 059779eef75e1c2eef4cb85ae2efbb3dc83babf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:10 +0000
Subject: [PATCH 37/43] fix: iswt2, iswtn: keep the imaginary part and
 precision of coarser levels when a finer level is real or single precision

---
 pywt/_swt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index acf3142..979809a 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -489,7 +489,7 @@ def iswt2(coeffs, wavelet, norm=False, axes=(-2, -1)):
         # make sure output shares the common dtype
         # (conversion of dtype for individual coeffs is handled within idwt2 )
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
+            [output.dtype, ] + [_check_dtype(c) for c in [cH, cV, cD]]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
@@ -775,7 +775,7 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
             k: v for k, v in coeffs[j].items() if k != 'a'*ndim_transform}
         # make sure dtype matches the coarsest level approximation coefficients
         common_dtype = np.result_type(*(
-            [dt, ] + [_check_dtype(v) for v in details.values()]))
+            [output.dtype, ] + [_check_dtype(v) for v in details.values()]))
         if output.dtype != common_dtype:
             output = output.astype(common_dtype)
 
-- 
2.43.0


From db86c34c00f9ef777bf0728286685e401a7c99c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 38/43] fix: idwtn, waverec2, waverecn: float16 and non-native
 float32 coefficients give float32 like everywhere else

---
 pywt/_multidim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pywt/_multidim.py b/pywt/_multidim.py
index 4b51a63..dfbe9c9 100644
--- a/pywt/_multidim.py
+++ b/pywt/_multidim.py
@@ -14,6 +14,7 @@ import numpy as np
 
 from ._c99_config import _have_c99_complex
 from ._extensions._dwt import dwt_axis, idwt_axis
+from ._extensions._pywt import _check_dtype
 from ._utils import AxisError, _modes_per_axis, _wavelets_per_axis
 
 __all__ = ['dwt2', 'idwt2', 'dwtn', 'idwtn']
@@ -300,7 +301,7 @@ def idwtn(coeffs, wavelet, mode='symmetric', axes=None):
             L = coeffs.get(key + 'a', None)
             H = coeffs.get(key + 'd', None)
             if L is not None and H is not None:
-                if L.dtype != H.dtype:
+                if _check_dtype(L) != _check_dtype(H):
                     # upcast to a common dtype (float64 or complex128)
                     if L.dtype.kind == 'c' or H.dtype.kind == 'c':
                         dtype = np.complex128
-- 
2.43.0


From 45408a63af250472c62ea59a0dc835de22f2db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:19 +0000
Subject: [PATCH 39/43] fix: cwt: sample the wavelet at the same points for
 single-precision data as for double

---
 pywt/_cwt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pywt/_cwt.py b/pywt/_cwt.py
index 6803f63..8e847b6 100644
--- a/pywt/_cwt.py
+++ b/pywt/_cwt.py
@@ -122,10 +122,10 @@ def cwt(data, scales, wavelet, sampling_period=1., method='conv', axis=-1):
     int_psi, x = integrate_wavelet(wavelet, precision=precision)
     int_psi = np.conj(int_psi) if wavelet.complex_cwt else int_psi
 
-    # convert int_psi, x to the same precision as the data
+    # convert int_psi to the same precision as the data (x only determines the
+    # indices to sample it at, which must not depend on the precision)
     dt_psi = dt_cplx if int_psi.dtype.kind == 'c' else dt
     int_psi = np.asarray(int_psi, dtype=dt_psi)
-    x = np.asarray(x, dtype=data.real.dtype)
 
     if method == 'fft':
         size_scale0 = -1
-- 
2.43.0


From 0b75bb6fcdbbed548c3556080469eb4b25d5866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:42 +0000
Subject: [PATCH 40/43] fix: iswtn: raise AxisError for out-of-range axes, as
 swtn does

---
 pywt/_swt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywt/_swt.py b/pywt/_swt.py
index 979809a..56c2066 100644
--- a/pywt/_swt.py
+++ b/pywt/_swt.py
@@ -747,6 +747,8 @@ def iswtn(coeffs, wavelet, axes=None, norm=False):
     if axes is None:
         axes = range(output.ndim)
     axes = [a + ndim if a < 0 else a for a in axes]
+    if any(a < 0 or a >= ndim for a in axes):
+        raise AxisError("Axis greater than data dimensions")
     if len(axes) != len(set(axes)):
         raise ValueError("The axes passed to swtn must be unique.")
     if ndim_transform != len(axes):
-- 
2.43.0


From 37c82d8ca0c92487bb825c2eb293dc5021702dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:00 +0000
Subject: [PATCH 41/43] fix: wavelet packets: a value that cannot be assigned
 to a node leaves the tree unchanged

---
 pywt/_wavelet_packets.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pywt/_wavelet_packets.py b/pywt/_wavelet_packets.py
index 3b7d8ff..efc7b81 100644
--- a/pywt/_wavelet_packets.py
+++ b/pywt/_wavelet_packets.py
@@ -295,6 +295,14 @@ class BaseNode:
                 len(self.path) + len(path) > self.maxlevel * self.PART_LEN
             ):
                 raise IndexError("Path length out of range.")
+            # convert data to nearest supported dtype (before changing the
+            # tree: a value that cannot be converted leaves it as it was)
+            if isinstance(data, BaseNode):
+                data = data.data
+            data = np.asarray(data)
+            dtype = _check_dtype(data)
+            if data.dtype != dtype:
+                data = data.astype(dtype)
             if path:
                 subnode = self.get_subnode(path[0:self.PART_LEN], False)
                 if subnode is None:
@@ -302,14 +310,7 @@ class BaseNode:
                     subnode = self.get_subnode(path[0:self.PART_LEN], False)
                 subnode[path[self.PART_LEN:]] = data
             else:
-                if isinstance(data, BaseNode):
-                    self.data = np.asarray(data.data)
-                else:
-                    self.data = np.asarray(data)
-                # convert data to nearest supported dtype
-                dtype = _check_dtype(self.data)
-                if self.data.dtype != dtype:
-                    self.data = self.data.astype(dtype)
+                self.data = data
                 # reconstruction from subnodes is trimmed to this shape
                 self._data_shape = self.data.shape
         else:
-- 
2.43.0


From 9243382ec7cc43658f58e6c9dcdf979a8115b040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:22 +0000
Subject: [PATCH 42/43] fix: waverec, waverec2, waverecn: an approximation
 longer along a batch axis is rejected, not cut

---
 pywt/_multilevel.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 67d9dde..457d94a 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -172,7 +172,9 @@ def waverec(coeffs, wavelet, mode='symmetric', axis=-1):
         if (a is not None) and (d is not None):
             try:
                 if a.shape[axis] == d.shape[axis] + 1:
-                    a = a[tuple(slice(s) for s in d.shape)]
+                    trim = [slice(None)] * a.ndim
+                    trim[axis] = slice(-1)
+                    a = a[tuple(trim)]
                 elif a.shape[axis] != d.shape[axis]:
                     raise ValueError("coefficient shape mismatch")
             except IndexError:
@@ -320,6 +322,7 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
     a = np.asarray(a)
     if _has_repeated_axes(axes, a.ndim):
         raise ValueError("The axes passed to waverec2 must be unique.")
+    transformed = [ax + a.ndim if ax < 0 else ax for ax in axes]
 
     for d in ds:
         if not isinstance(d, (list, tuple)) or len(d) != 3:
@@ -338,8 +341,9 @@ def waverec2(coeffs, wavelet, mode='symmetric', axes=(-2, -1)):
         else:
             if not all(s == d_shape for s in d_shapes):
                 raise ValueError("All detail shapes must be the same length.")
-            idxs = tuple(slice(None, -1 if a_len == d_len + 1 else None)
-                         for a_len, d_len in zip(a.shape, d_shape))
+            idxs = tuple(slice(None, -1 if a_len == d_len + 1 and ax in transformed
+                               else None)
+                         for ax, (a_len, d_len) in enumerate(zip(a.shape, d_shape)))
         a = idwt2((a[idxs], d), wavelet, mode, axes)
 
     return a
@@ -450,9 +454,9 @@ def wavedecn(data, wavelet, mode='symmetric', level=None, axes=None):
     return coeffs_list
 
 
-def _match_coeff_dims(a_coeff, d_coeff_dict):
-    # For each axis, compare the approximation coeff shape to one of the
-    # stored detail coeffs and truncate the last element along the axis
+def _match_coeff_dims(a_coeff, d_coeff_dict, axes):
+    # For each transformed axis, compare the approximation coeff shape to one
+    # of the stored detail coeffs and truncate the last element along the axis
     # if necessary.
     if a_coeff is None:
         return None
@@ -460,7 +464,9 @@ def _match_coeff_dims(a_coeff, d_coeff_dict):
         return a_coeff
     d_coeff = d_coeff_dict[next(iter(d_coeff_dict))]
     size_diffs = np.subtract(a_coeff.shape, d_coeff.shape)
-    if np.any((size_diffs < 0) | (size_diffs > 1)):
+    extra = np.zeros(a_coeff.ndim, dtype=int)
+    extra[list(axes)] = 1
+    if np.any((size_diffs < 0) | (size_diffs > extra)):
         raise ValueError("incompatible coefficient array sizes")
     return a_coeff[tuple(slice(s) for s in d_coeff.shape)]
 
@@ -578,7 +584,7 @@ def waverecn(coeffs, wavelet, mode='symmetric', axes=None):
         # coefficient returned at the previous level may exceed the size of the
         # stored detail coefficients by 1 on any given axis.
         if idx > 0:
-            a = _match_coeff_dims(a, d)
+            a = _match_coeff_dims(a, d, axes)
         d['a' * ndim_transform] = a
         a = idwtn(d, wavelet, mode, axes)
 
-- 
2.43.0


From 4aba0492c83e7672cb4612585e842cca18af34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:34 +0000
Subject: [PATCH 43/43] fix: coeffs_to_array, ravel_coeffs: lists whose arrays
 differ in dtype are packed without losing values

---
 pywt/_multilevel.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pywt/_multilevel.py b/pywt/_multilevel.py
index 457d94a..53ca4f0 100644
--- a/pywt/_multilevel.py
+++ b/pywt/_multilevel.py
@@ -638,6 +638,15 @@ def _determine_coeff_array_shape(coeffs, axes):
     return arr_shape, is_tight_packing
 
 
+def _common_dtype(coeffs):
+    """Helper function: the dtype able to hold all coefficients of a list.
+
+    This code is used by both coeffs_to_array and ravel_coeffs.
+    """
+    dtypes = [v.dtype for d in coeffs[1:] for v in d.values() if v is not None]
+    return np.result_type(coeffs[0].dtype, *dtypes)
+
+
 def _prepare_coeffs_axes(coeffs, axes):
     """Helper function to check type of coeffs and axes.
 
@@ -773,9 +782,9 @@ def coeffs_to_array(coeffs, padding=0, axes=None):
     if padding is None:
         if not is_tight_packing:
             raise ValueError("array coefficients cannot be tightly packed")
-        coeff_arr = np.empty(arr_shape, dtype=a_coeffs.dtype)
+        coeff_arr = np.empty(arr_shape, dtype=_common_dtype(coeffs))
     else:
-        coeff_arr = np.full(arr_shape, padding, dtype=a_coeffs.dtype)
+        coeff_arr = np.full(arr_shape, padding, dtype=_common_dtype(coeffs))
 
     a_slices = tuple([slice(s) for s in a_shape])
     coeff_arr[a_slices] = a_coeffs
@@ -1096,7 +1105,7 @@ def ravel_coeffs(coeffs, axes=None):
 
     # preallocate output array
     arr_size = wavedecn_size(coeffs)
-    coeff_arr = np.empty((arr_size, ), dtype=a_coeffs.dtype)
+    coeff_arr = np.empty((arr_size, ), dtype=_common_dtype(coeffs))
 
     a_slice = slice(a_size)
     coeff_arr[a_slice] = a_coeffs.ravel()
-- 
2.43.0

