From e4c5953b740123965996c900e2496b1c546a3c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:41 +0000
Subject: [PATCH 01/21] fix: report the unknown output in coherency convert
 instead of an unbound name

---
 africanus/model/coherency/conversion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/model/coherency/conversion.py b/africanus/model/coherency/conversion.py
index c9ee34b..5e834e9 100644
--- a/africanus/model/coherency/conversion.py
+++ b/africanus/model/coherency/conversion.py
@@ -112,7 +112,7 @@ def convert_setup(input, input_schema, output_schema):
             deps = stokes_conv[okey]
         except KeyError:
             raise ValueError("Unknown output '%s'. Known types '%s'"
-                             % (deps, STOKES_TYPES))
+                             % (okey, STOKES_TYPES))
 
         found_conv = False
 
-- 
2.43.0


From 8dd93b7bb258e398b00538e034e5bae06cf1caa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:36 +0000
Subject: [PATCH 02/21] fix: default CTYPE of an unnamed FITS axis is an
 integer, strip its string form

---
 africanus/util/beams.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/util/beams.py b/africanus/util/beams.py
index 8fffeff..c99bf79 100644
--- a/africanus/util/beams.py
+++ b/africanus/util/beams.py
@@ -22,7 +22,7 @@ class FitsAxes(object):
         # Extract header information for each dimension
         axr = list(range(1, ndims+1))
         self._naxis = [header.get('NAXIS%d' % n) for n in axr]
-        self._ctype = [header.get('CTYPE%d' % n, n).strip() for n in axr]
+        self._ctype = [str(header.get('CTYPE%d' % n, n)).strip() for n in axr]
         self._crval = [header.get('CRVAL%d' % n, 0) for n in axr]
         # Convert right pixel from FORTRAN to C indexing
         self._crpix = [header['CRPIX%d' % n]-1 for n in axr]
-- 
2.43.0


From 62801afaabc7dcf5755c79cc60ccf698dde5d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 03/21] fix: kron_tensorvec held matrix extents in int8,
 failing from 128 rows or columns

---
 africanus/linalg/kronecker_tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/linalg/kronecker_tools.py b/africanus/linalg/kronecker_tools.py
index 811d75a..235ab38 100644
--- a/africanus/linalg/kronecker_tools.py
+++ b/africanus/linalg/kronecker_tools.py
@@ -81,8 +81,8 @@ def kron_tensorvec(A, b):
     """
     D = A.shape[0]
     # get shape of sub-matrices
-    G = np.zeros(D, dtype=np.int8)
-    M = np.zeros(D, dtype=np.int8)
+    G = np.zeros(D, dtype=np.int64)
+    M = np.zeros(D, dtype=np.int64)
     for d in range(D):
         M[d], G[d] = A[d].shape
     x = b
-- 
2.43.0


From 30da075af667d66c37b74ba46ed28734c252398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:02 +0000
Subject: [PATCH 04/21] fix: exponential_squared raised a tuple (TypeError)
 instead of its own errors

---
 africanus/gps/kernels.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/africanus/gps/kernels.py b/africanus/gps/kernels.py
index 1125048..11191b8 100644
--- a/africanus/gps/kernels.py
+++ b/africanus/gps/kernels.py
@@ -33,13 +33,13 @@ def exponential_squared(x, xp, sigmaf, l, pspec=False):  # noqa: E741
     if pspec:
         N, D = x.shape
         if D != 1:
-            raise(NotImplementedError, "Only 1D pspecs supported")
+            raise NotImplementedError("Only 1D pspecs supported")
         if (x != xp).any():
-            raise(ValueError, "pspec only defined if x = xp")
+            raise ValueError("pspec only defined if x = xp")
         x = x.squeeze()
         delx = x[1] - x[0]
         if (x[1::] - x[0:-1] != delx).any():
-            raise(ValueError, "pspec only defined on regular grid")
+            raise ValueError("pspec only defined on regular grid")
         s = np.fft.fftshift(np.fft.fftfreq(N, d=delx))
         return np.sqrt(2*np.pi*l)*sigmaf**2.0*np.exp(-l**2*s**2/2.0)
     else:
-- 
2.43.0


From c0320103bfde14d8698f3f5cd9d3da78d84c3fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:15 +0000
Subject: [PATCH 05/21] fix: hogbom_clean ran one iteration more than the
 maximum niter

---
 africanus/deconv/hogbom/clean.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/deconv/hogbom/clean.py b/africanus/deconv/hogbom/clean.py
index eaf2ec8..3e22bde 100644
--- a/africanus/deconv/hogbom/clean.py
+++ b/africanus/deconv/hogbom/clean.py
@@ -172,7 +172,7 @@ def hogbom_clean(dirty, psf,
     # CLEAN the image
     i = 0
 
-    while np.abs(intensity) > threshold and i <= niter:
+    while np.abs(intensity) > threshold and i < niter:
         logging.info("min %f max %f peak %f threshold %f" %
                      (residuals.min(), residuals.max(), intensity, threshold))
 
@@ -184,9 +184,9 @@ def hogbom_clean(dirty, psf,
         p, q, _, _, intensity = find_peak(residuals)
         # Increment counter
         i += 1
-        # Warn if niter exceeded
-        if i > niter:
-            logging.warn("Number of iterations exceeded")
+        # Warn if niter reached
+        if i >= niter:
+            logging.warn("Maximum number of iterations reached")
             logging.warn("Minimum residuals = %s", residuals.max())
 
     logging.info("Done cleaning after %d iterations.", i)
-- 
2.43.0


From 6a61f5b08afc63f563639b1f65e41d8333869644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:38 +0000
Subject: [PATCH 06/21] fix: row_mapper sets the lower edge of every time bin,
 not only of a baseline's first

---
 africanus/averaging/time_and_channel_mapping.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/africanus/averaging/time_and_channel_mapping.py b/africanus/averaging/time_and_channel_mapping.py
index f050141..9f76f17 100644
--- a/africanus/averaging/time_and_channel_mapping.py
+++ b/africanus/averaging/time_and_channel_mapping.py
@@ -263,6 +263,7 @@ def row_mapper(time, interval, antenna1, antenna2,
                     tbin += 1
                     bin_count = 0
                     bin_flag_count = 0
+                    bin_low = time[r] - half_int
 
                 # Record the output bin associated with the row
                 bin_lookup[bl, t] = tbin
-- 
2.43.0


From 09694e72bf58a5d2057a1346cd0a70852800b0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:14:44 +0000
Subject: [PATCH 07/21] fix: averaging treats any nonzero flag_row value as
 flagged

---
 africanus/averaging/time_and_channel_avg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/time_and_channel_avg.py b/africanus/averaging/time_and_channel_avg.py
index 2940e47..cb90fb9 100644
--- a/africanus/averaging/time_and_channel_avg.py
+++ b/africanus/averaging/time_and_channel_avg.py
@@ -15,7 +15,7 @@ from africanus.util.numba import is_numba_type_none, generated_jit, njit
 def matching_flag_factory(present):
     if present:
         def impl(flag_row, ri, out_flag_row, ro):
-            return flag_row[ri] == out_flag_row[ro]
+            return (flag_row[ri] != 0) == (out_flag_row[ro] != 0)
     else:
         def impl(flag_row, ri, out_flag_row, ro):
             return True
-- 
2.43.0


From fb051fb491bce4338ec29306ceb7b57ff19b48e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:53 +0000
Subject: [PATCH 08/21] fix: calibration kernels and the phase-only solver
 leave their inputs unmodified

---
 africanus/calibration/phase_only/phase_only.py         | 10 +++++-----
 africanus/calibration/utils/compute_and_corrupt_vis.py |  2 +-
 africanus/calibration/utils/correct_vis.py             |  2 +-
 africanus/calibration/utils/corrupt_vis.py             |  2 +-
 africanus/calibration/utils/residual_vis.py            |  2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/africanus/calibration/phase_only/phase_only.py b/africanus/calibration/phase_only/phase_only.py
index 8668de1..21c890a 100755
--- a/africanus/calibration/phase_only/phase_only.py
+++ b/africanus/calibration/phase_only/phase_only.py
@@ -36,7 +36,7 @@ def compute_jhj_and_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for chunked dask arrays we need to adjust the chunks to
         # start counting from zero (see also map_blocks)
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -82,7 +82,7 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -122,7 +122,7 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, residual, model, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_chan = jones_shape[2]
@@ -159,8 +159,8 @@ def gauss_newton(time_bin_indices, time_bin_counts, antenna1,
 
     # whiten data
     sqrtweights = np.sqrt(weight)
-    vis *= sqrtweights
-    model *= sqrtweights[:, :, None]
+    vis = vis * sqrtweights
+    model = model * sqrtweights[:, :, None]
 
     mode = check_type(jones, vis)
 
diff --git a/africanus/calibration/utils/compute_and_corrupt_vis.py b/africanus/calibration/utils/compute_and_corrupt_vis.py
index 85496c5..593779b 100644
--- a/africanus/calibration/utils/compute_and_corrupt_vis.py
+++ b/africanus/calibration/utils/compute_and_corrupt_vis.py
@@ -85,7 +85,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                                     uvw, freq, lm):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = (antenna1.shape[0],) + (freq.shape[0],) + model.shape[3:]
diff --git a/africanus/calibration/utils/correct_vis.py b/africanus/calibration/utils/correct_vis.py
index d629ae2..935b74b 100644
--- a/africanus/calibration/utils/correct_vis.py
+++ b/africanus/calibration/utils/correct_vis.py
@@ -77,7 +77,7 @@ def correct_vis(time_bin_indices, time_bin_counts,
                         antenna1, antenna2, jones, vis, flag):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         jones_shape = np.shape(jones)
         n_tim = jones_shape[0]
         n_dir = jones_shape[3]
diff --git a/africanus/calibration/utils/corrupt_vis.py b/africanus/calibration/utils/corrupt_vis.py
index 22b15ab..e1e31f0 100644
--- a/africanus/calibration/utils/corrupt_vis.py
+++ b/africanus/calibration/utils/corrupt_vis.py
@@ -67,7 +67,7 @@ def corrupt_vis(time_bin_indices, time_bin_counts, antenna1,
                         antenna2, jones, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         model_shape = np.shape(model)
         vis_shape = model.shape[:2] + model.shape[3:]
diff --git a/africanus/calibration/utils/residual_vis.py b/africanus/calibration/utils/residual_vis.py
index d0e9812..3528bd6 100644
--- a/africanus/calibration/utils/residual_vis.py
+++ b/africanus/calibration/utils/residual_vis.py
@@ -71,7 +71,7 @@ def residual_vis(time_bin_indices, time_bin_counts, antenna1,
                          antenna2, jones, vis, flag, model):
         # for dask arrays we need to adjust the chunks to
         # start counting from zero
-        time_bin_indices -= time_bin_indices.min()
+        time_bin_indices = time_bin_indices - time_bin_indices.min()
         n_tim = np.shape(time_bin_indices)[0]
         vis_shape = np.shape(vis)
         n_chan = vis_shape[1]
-- 
2.43.0


From 3b892f41c1ab5d751c7f05673bc05167a6eec36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:20 +0000
Subject: [PATCH 09/21] fix: lmn_to_radec and lm_to_radec lost the quadrant of
 the right ascension near the poles

---
 africanus/coordinates/coordinates.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/africanus/coordinates/coordinates.py b/africanus/coordinates/coordinates.py
index c2b1273..accd9a4 100644
--- a/africanus/coordinates/coordinates.py
+++ b/africanus/coordinates/coordinates.py
@@ -124,7 +124,7 @@ def lmn_to_radec(lmn, phase_centre=None):
             l, m, n = lmn[s]
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
@@ -155,7 +155,7 @@ def lm_to_radec(lm, phase_centre=None):
             n = np.sqrt(1.0 - l**2 - m**2)
 
             radec[s, 1] = np.arcsin(m*cos_pc_dec + n*sin_pc_dec)
-            radec[s, 0] = pc_ra + np.arctan(l / (n*cos_pc_dec - m*sin_pc_dec))
+            radec[s, 0] = pc_ra + np.arctan2(l, n*cos_pc_dec - m*sin_pc_dec)
 
         return radec
 
-- 
2.43.0


From eafc71e387fb2324cc632a62c75d686ccd6a9f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:56 +0000
Subject: [PATCH 10/21] fix: predict_vis on dask arrays ignored base_vis when
 inferring the output dtype

With base_vis alone it raised ValueError (no arrays to infer a dtype from).
---
 africanus/rime/dask_predict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index 98e56e3..f8f5f30 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -403,7 +403,8 @@ def predict_vis(time_index, antenna1, antenna2,
                              (time_index.chunks[0], die1_jones.chunks[1]))
 
     # Infer the output dtype
-    dtype_arrays = [dde1_jones, source_coh, dde2_jones, die1_jones, die2_jones]
+    dtype_arrays = [dde1_jones, source_coh, dde2_jones,
+                    die1_jones, base_vis, die2_jones]
     out_dtype = np.result_type(*(np.dtype(a.dtype.name)
                                  for a in dtype_arrays
                                  if a is not None))
-- 
2.43.0


From 36eeeb93a8fdd62b1a6835ee853f4e7799bd34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:56 +0000
Subject: [PATCH 11/21] fix: compute_jhj and compute_jhr on dask arrays
 declared row chunks for a time axis

The output has the shape of jones: its first axis is time. Declare the chunks of
jones, and the dtypes the in-memory functions produce.
---
 africanus/calibration/phase_only/dask.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/africanus/calibration/phase_only/dask.py b/africanus/calibration/phase_only/dask.py
index c1281be..1747b65 100644
--- a/africanus/calibration/phase_only/dask.py
+++ b/africanus/calibration/phase_only/dask.py
@@ -35,9 +35,9 @@ def compute_jhj(time_bin_indices, time_bin_counts, antenna1,
                      jones, jones_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.real.dtype,
                      align_arrays=False)
 
 
@@ -62,9 +62,9 @@ def compute_jhr(time_bin_indices, time_bin_counts, antenna1,
                      residual, vis_shape,
                      model, model_shape,
                      flag, vis_shape,
-                     adjust_chunks={"row": antenna1.chunks[0]},
+                     adjust_chunks={"row": jones.chunks[0]},
                      new_axes={"corr2": 2},  # why?
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
-- 
2.43.0


From b1cf782fef024fcf9cdecc1ea83679a1a46f7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 12/21] fix: dask spectral models and compute_and_corrupt_vis
 declared a dtype they do not compute

The in-memory spectral models promote all four arguments, and
compute_and_corrupt_vis allocates its result with the dtype of jones.
---
 africanus/calibration/utils/dask.py | 2 +-
 africanus/model/spectral/dask.py    | 3 ++-
 africanus/model/wsclean/dask.py     | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/africanus/calibration/utils/dask.py b/africanus/calibration/utils/dask.py
index 4c2655d..8d1598c 100644
--- a/africanus/calibration/utils/dask.py
+++ b/africanus/calibration/utils/dask.py
@@ -128,7 +128,7 @@ def compute_and_corrupt_vis(time_bin_indices, time_bin_counts,
                      lm, ("row", "dir", "two"),
                      adjust_chunks={"row": antenna1.chunks[0]},
                      new_axes={"corr2": 2},
-                     dtype=model.dtype,
+                     dtype=jones.dtype,
                      align_arrays=False)
 
 
diff --git a/africanus/model/spectral/dask.py b/africanus/model/spectral/dask.py
index 080f36a..566b497 100644
--- a/africanus/model/spectral/dask.py
+++ b/africanus/model/spectral/dask.py
@@ -31,7 +31,8 @@ def spectral_model(stokes, spi, ref_freq, frequencies, base=0):
                         ref_freq, ("source",),
                         frequencies, ("chan",),
                         base=base,
-                        dtype=stokes.dtype)
+                        dtype=da.result_type(stokes, spi, ref_freq,
+                                             frequencies))
 
 
 try:
diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index f4c223a..535e601 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -28,7 +28,8 @@ def spectra(stokes, spi, log_si, ref_freq, frequency):
                         log_si, log_si_schema,
                         ref_freq, ("source",),
                         frequency, ("chan",),
-                        dtype=stokes.dtype)
+                        dtype=da.result_type(stokes, spi, ref_freq,
+                                             frequency))
 
 
 try:
-- 
2.43.0


From ee3f452af4c7c5cc94800f817e80f6cc66d0eeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:39 +0000
Subject: [PATCH 13/21] fix: wsclean spectra and wsclean_predict ignored all
 but the first chunk of the coefficients

Reject arrays chunked along the coefficients, as spectral_model does.
---
 africanus/model/wsclean/dask.py | 3 +++
 africanus/rime/dask_predict.py  | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/africanus/model/wsclean/dask.py b/africanus/model/wsclean/dask.py
index 535e601..b39112f 100644
--- a/africanus/model/wsclean/dask.py
+++ b/africanus/model/wsclean/dask.py
@@ -19,6 +19,9 @@ def _wrapper(stokes, spi, log_si, ref_freq, frequency):
 
 @requires_optional('dask.array', opt_import_error)
 def spectra(stokes, spi, log_si, ref_freq, frequency):
+    if len(spi.chunks[1]) != 1:
+        raise ValueError("Chunking along the spi dimension unsupported")
+
     corrs = tuple("corr-%d" % i for i in range(len(stokes.shape[1:])))
     log_si_schema = None if isinstance(log_si, bool) else ("source",)
 
diff --git a/africanus/rime/dask_predict.py b/africanus/rime/dask_predict.py
index f8f5f30..f2f658b 100644
--- a/africanus/rime/dask_predict.py
+++ b/africanus/rime/dask_predict.py
@@ -470,6 +470,9 @@ def wsclean_body_wrapper(uvw, lm, source_type, gauss_shape,
 @requires_optional('dask.array', opt_import_error)
 def wsclean_predict(uvw, lm, source_type, flux, coeffs,
                     log_poly, ref_freq, gauss_shape, frequency):
+    if len(coeffs.chunks[1]) != 1:
+        raise ValueError("Chunking along the comp dimension unsupported")
+
     spectrum_dtype = np.result_type(*(a.dtype for a in (flux, coeffs,
                                                         log_poly, ref_freq,
                                                         frequency)))
-- 
2.43.0


From f553b338c874f2c602960a70d23f633e5634884e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:28:30 +0000
Subject: [PATCH 14/21] fix: transform_sources rotated m with the already
 rotated l

The second coordinate was computed from the first after it had been overwritten,
so the result was not a rotation by the parallactic angle.
---
 africanus/rime/transform.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/africanus/rime/transform.py b/africanus/rime/transform.py
index eed0e55..cb93110 100644
--- a/africanus/rime/transform.py
+++ b/africanus/rime/transform.py
@@ -27,8 +27,7 @@ def _nb_transform_sources(lm, parallactic_angles, pointing_errors,
                 l, m = lm[s]
 
                 # Rotate source coordinate by parallactic angle
-                l = l*pa_cos - m*pa_sin  # noqa
-                m = l*pa_sin + m*pa_cos
+                l, m = l*pa_cos - m*pa_sin, l*pa_sin + m*pa_cos
 
                 # Add pointing errors
                 l += pointing_errors[t, a, 0]  # noqa
-- 
2.43.0


From c633cb05f4a86e1f581f165564c6a4a6784253cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:24 +0000
Subject: [PATCH 15/21] fix: clear the progress bar's tables under its lock

_finish emptied task_data while the timer thread could be iterating over
it, which ends that thread with 'dictionary changed size during
iteration'.
---
 africanus/util/dask_util.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/africanus/util/dask_util.py b/africanus/util/dask_util.py
index 8906cff..6f38d36 100644
--- a/africanus/util/dask_util.py
+++ b/africanus/util/dask_util.py
@@ -207,8 +207,11 @@ class EstimatingProgressBar(Callback):
 
     def _finish(self, dsk, state, errored):
         self.running.clear()
-        self.task_data.clear()
-        self.task_start.clear()
+
+        # The timer thread may still be iterating over the task data
+        with self._lock:
+            self.task_data.clear()
+            self.task_start.clear()
 
     def _pretask(self, key, dsk, state):
         with self._lock:
-- 
2.43.0


From aab17aa263dd1e95dfb845358dd98b6afafcdc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 16/21] fix: uvw_rotate read past w and used already rotated
 coordinates

---
 .../policies/baseline_transform_policies.py              | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
index e09b9cc..83b56db 100644
--- a/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
+++ b/africanus/gridding/perleypolyhedron/policies/baseline_transform_policies.py
@@ -44,9 +44,12 @@ def uvw_rotate(uvw, ra0, dec0, ra, dec, policy_type):
     mat_31 = c_new_dec * s_d_ra
     mat_32 = -c_new_dec * s_old_dec * c_d_ra + s_new_dec * c_old_dec
     mat_33 = c_new_dec * c_old_dec * c_d_ra + s_new_dec * s_old_dec
-    uvw[0] = mat_11 * uvw[0] + mat_12 * uvw[1] + mat_13 * uvw[3]
-    uvw[1] = mat_21 * uvw[0] + mat_22 * uvw[1] + mat_23 * uvw[3]
-    uvw[2] = mat_31 * uvw[0] + mat_32 * uvw[1] + mat_33 * uvw[3]
+    u = uvw[0]
+    v = uvw[1]
+    w = uvw[2]
+    uvw[0] = mat_11 * u + mat_12 * v + mat_13 * w
+    uvw[1] = mat_21 * u + mat_22 * v + mat_23 * w
+    uvw[2] = mat_31 * u + mat_32 * v + mat_33 * w
 
 
 @jit(nopython=True, nogil=True, fastmath=True, parallel=False)
-- 
2.43.0


From 65e7faabf34e1424f248e0efd7d65e15a903ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:21 +0000
Subject: [PATCH 17/21] fix: the polyhedron (de)gridder overwrote the caller's
 uvw and visibilities

---
 africanus/gridding/perleypolyhedron/degridder.py | 4 ++++
 africanus/gridding/perleypolyhedron/gridder.py   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/africanus/gridding/perleypolyhedron/degridder.py b/africanus/gridding/perleypolyhedron/degridder.py
index d8d35cb..dba3f30 100644
--- a/africanus/gridding/perleypolyhedron/degridder.py
+++ b/africanus/gridding/perleypolyhedron/degridder.py
@@ -136,6 +136,8 @@ def degridder(uvw,
     if nvischan != wavelengths.size:
         raise ValueError("Chanmap must correspond to visibility channels")
 
+    # policies transform the coordinates in place
+    uvw = uvw.copy()
     vis = np.zeros((nrow, nvischan, ncorr), dtype=vis_dtype)
 
     # scale the FOV using the simularity theorem
@@ -234,6 +236,8 @@ def degridder_serial(uvw,
     if nvischan != wavelengths.size:
         raise ValueError("Chanmap must correspond to visibility channels")
 
+    # policies transform the coordinates in place
+    uvw = uvw.copy()
     vis = np.zeros((nrow, nvischan, ncorr), dtype=vis_dtype)
 
     # scale the FOV using the simularity theorem
diff --git a/africanus/gridding/perleypolyhedron/gridder.py b/africanus/gridding/perleypolyhedron/gridder.py
index 0acbeef..f39780e 100644
--- a/africanus/gridding/perleypolyhedron/gridder.py
+++ b/africanus/gridding/perleypolyhedron/gridder.py
@@ -72,6 +72,10 @@ def gridder(uvw,
     if nvischan != wavelengths.size:
         raise ValueError("Chanmap must correspond to visibility channels")
 
+    # policies transform these in place
+    uvw = uvw.copy()
+    vis = vis.copy()
+
     gridstack = np.zeros((nband, npix, npix), dtype=grid_dtype)
 
     # scale the FOV using the simularity theorem
-- 
2.43.0


From d1e378103bd42216e748fd79f64cb15192adac19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:22 +0000
Subject: [PATCH 18/21] fix: dask polyhedron degridder passed all image centres
 instead of the facet's

---
 africanus/gridding/perleypolyhedron/dask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/gridding/perleypolyhedron/dask.py b/africanus/gridding/perleypolyhedron/dask.py
index 52a3116..4dd100b 100644
--- a/africanus/gridding/perleypolyhedron/dask.py
+++ b/africanus/gridding/perleypolyhedron/dask.py
@@ -67,7 +67,7 @@ def __degrid(uvw,
                        lambdas,
                        chanmap,
                        cell,
-                       image_centres,
+                       f,
                        phase_centre,
                        convolution_kernel,
                        convolution_kernel_width,
-- 
2.43.0


From ff2ea15278b5617e6dc8761d2b9d0dcf5e304789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:32 +0000
Subject: [PATCH 19/21] fix: the spline's tridiagonal system was set up and
 solved wrongly

---
 africanus/averaging/splines.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 983c0cf..1d16e74 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -34,29 +34,30 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     if left_type == 2:
         diag[0, A] = 0.0
         diag[0, B] = 2.0
-        diag[0, C] = left_value
+        diag[0, C] = 0.0
+        v[0] = left_value
     elif left_type == 1:
-        diag[0, A] = 1.0 * (x[1] - x[0])
         diag[0, B] = 2.0 * (x[1] - x[0])
+        diag[0, C] = 1.0 * (x[1] - x[0])
         v[0] = 3.0 * (-left_value + (y[1] - y[0]) / (x[1] - x[0]))
     else:
         raise ValueError("left_type not in (1, 2)")
 
     # Configure right endpoint
     if right_type == 2:
+        diag[n-1, A] = 0.0
         diag[n-1, B] = 2.0
-        diag[n-1, C] = 0.0
         v[n-1] = right_value
-    elif left_type == 1:
+    elif right_type == 1:
         diag[n-1, B] = 2.0 * (x[n-1] - x[n-2])
-        diag[n-1, C] = 1.0 * (x[n-1] - x[n-2])
+        diag[n-1, A] = 1.0 * (x[n-1] - x[n-2])
         v[n-1] = 3.0 * (right_value - (y[n-1] - y[n-2]) / (x[n-1] - x[n-2]))
     else:
         raise ValueError("right_type not in (1, 2)")
 
     # Solve tridiagonal system in place
     for i in range(1, n):
-        w = diag[i, A] - diag[i-1, B]
+        w = diag[i, A] / diag[i-1, B]
         diag[i, B] -= w*diag[i-1, C]
         v[i] -= w*v[i-1]
 
@@ -64,7 +65,7 @@ def solve_trid_system(x, y, left_type=2, right_type=2,
     z = np.zeros_like(v)
     z[n-1] = v[n-1] / diag[n-1, B]
 
-    for i in range(n - 1, -1, -1):
+    for i in range(n - 2, -1, -1):
         z[i] = (v[i] - diag[i, C]*z[i+1])/diag[i, B]
 
     return z
-- 
2.43.0


From 428dd553451fd8a131c892d74cf09cf1768313f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:32 +0000
Subject: [PATCH 20/21] fix: slope at the spline's last point used a negative
 step

---
 africanus/averaging/splines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index 1d16e74..b3daf74 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -85,7 +85,7 @@ def fit_cubic_spline(x, y, left_type=2, right_type=2,
         c[i] = ((y[i+1] - y[i]) / (x[i+1] - x[i]) -
                 (2.0*b[i] + b[i+1]) * (x[i+1] - x[i]) / 3.0)
 
-    h = x[n-2] - x[n-1]
+    h = x[n-1] - x[n-2]
     a[n-1] = 0
     c[n-1] = 3.0*a[n-2]*h*h + 2.0*b[n-2]*h + c[n-2]
 
-- 
2.43.0


From 97f2ddcfeb9d943d4f770be0580748bf7c3a7dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:32 +0000
Subject: [PATCH 21/21] fix: evaluate_spline took the ends of the positions for
 those of the spline

---
 africanus/averaging/splines.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/africanus/averaging/splines.py b/africanus/averaging/splines.py
index b3daf74..ecd535f 100644
--- a/africanus/averaging/splines.py
+++ b/africanus/averaging/splines.py
@@ -100,7 +100,7 @@ def evaluate_spline(spline, x, order=0):
     mb0 = mb[0] if not force_linear_extrapolation else 0.0
     mc0 = mc[0]
 
-    n = x.shape[0]
+    n = mx.shape[0]
     values = np.empty_like(x)
 
     if order == 0:
@@ -108,9 +108,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = (mb0*h + mc0)*h + my[0]
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = (mb[n-1]*h + mc[n-1])*h + my[n-1]
             else:
                 values[i] = ((ma[j]*h + mb[j])*h + mc[j])*h + my[j]
@@ -120,9 +120,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
+            if p < mx[0]:
                 values[i] = 2.0*mb0*h + mc0
-            elif p > x[n-1]:
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]*h + mc[n-1]
             else:
                 values[i] = (3.0*ma[j]*h + 2.0*mb[j])*h + mc[j]
@@ -131,9 +131,9 @@ def evaluate_spline(spline, x, order=0):
             j = max(np.searchsorted(mx, p, side='right') - 1, 0)
             h = p - mx[j]
 
-            if p < x[0]:
-                values[i] = 2.0*mb0*h
-            elif p > x[n-1]:
+            if p < mx[0]:
+                values[i] = 2.0*mb0
+            elif p > mx[n-1]:
                 values[i] = 2.0*mb[n-1]
             else:
                 values[i] = 6.0*ma[j]*h + 2.0*mb[j]
-- 
2.43.0

