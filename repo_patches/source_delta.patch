From a7a4151514f8aae5d4bb2297e8b648bd7dfa58f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 01/15] fix: declare the trailing argument of the CPU Born
 backward_sc kernel

The Python wrapper and the ctypes argument types pass a stream argument to
every kernel; the CPU version of backward_sc lacked the corresponding
parameter, so it was called with one argument more than it declares.
---
 src/deepwave/scalar_born.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/scalar_born.c b/src/deepwave/scalar_born.c
index ce76acd..24c7c1f 100644
--- a/src/deepwave/scalar_born.c
+++ b/src/deepwave/scalar_born.c
@@ -1088,7 +1088,7 @@ __declspec(dllexport)
 #if DW_NDIM >= 2
         int64_t const pml_y1,
 #endif
-        int64_t const pml_x1, int64_t const n_threads) {
+        int64_t const pml_x1, int64_t const n_threads, void *unused) {
 #if DW_NDIM == 3
   int64_t const n_grid_points = nz * ny * nx;
 #elif DW_NDIM == 2
-- 
2.43.0


From 6532e7854ba6e0f834bfdda16423a8f4ab8bf1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:28 +0000
Subject: [PATCH 02/15] fix: keep staggered-grid backward loops inside small
 models

The loops over half-grid points end one cell before those over integer
grid points, but the beginning of the interior region was only limited to
the latter. With a model narrower than the finite difference stencil
the half-grid loops ran past the end of the wavefields, reading and writing
outside them.
---
 src/deepwave/acoustic.py | 2 +-
 src/deepwave/elastic.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index dbb1540..9e6f7c6 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1095,7 +1095,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 3de44c5..4bab3ed 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1709,7 +1709,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         zero_edges_and_interiors(grad_wavefields, ndim, fd_pad, fd_pad_list, pml_width)
 
         pml_b = [
-            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - (fd_pad - 1))
+            min(pml_width[2 * i] + 2 * fd_pad, model_shape[i] - fd_pad)
             for i in range(ndim)
         ]
         pml_e = [
-- 
2.43.0


From 9a19d987b9ed9be1ace570ca10c9f0ffdc097917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:22 +0000
Subject: [PATCH 03/15] fix: propagate all time steps when the sampling
 interval does not divide them

The loops ran nt // interval chunks of interval steps, so with a
model_gradient_sampling_interval that does not divide the number of time
steps the remaining steps were silently not propagated or recorded (and an
interval larger than nt raised an error). Round the number of chunks up and
shorten the last one.
---
 src/deepwave/acoustic.py    | 27 ++++++++++++++-----------
 src/deepwave/common.py      |  2 +-
 src/deepwave/elastic.py     | 27 ++++++++++++++-----------
 src/deepwave/scalar.py      | 29 +++++++++++++++------------
 src/deepwave/scalar_born.py | 39 ++++++++++++++++++++++---------------
 5 files changed, 73 insertions(+), 51 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 9e6f7c6..4d5079d 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -906,8 +906,9 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         # Wavefield names for callback
         # Same order as wavefields list
@@ -946,7 +947,7 @@ class AcousticForwardFunc(torch.autograd.Function):
 
         # Main Loop
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wf_names, wavefields))
                     forward_callback(
@@ -960,7 +961,8 @@ class AcousticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -974,7 +976,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list,
@@ -1141,8 +1143,9 @@ class AcousticForwardFunc(torch.autograd.Function):
         )
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wf_names = ["pressure_0"]
         if ndim == 3:
@@ -1179,8 +1182,10 @@ class AcousticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                chunk_nt = end_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
@@ -1196,7 +1201,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         *[loc.data_ptr() for loc in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot_list_for_grad,
@@ -1213,7 +1218,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                         ],
                         *model_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1222,7 +1227,7 @@ class AcousticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     (
                         grad_wavefields[-ndim:],
                         aux_wavefields[:],
@@ -1476,7 +1481,7 @@ def acoustic_python(
 
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             current_wavefields = [p, *velocities, *phi, *psi]
             callback_wavefields = dict(zip(wf_names, current_wavefields))
@@ -1492,7 +1497,7 @@ def acoustic_python(
                 )
             )
 
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             # Record receivers
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 1f8e302..ca40c44 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -184,7 +184,7 @@ class StorageManager:
         temporary_storage: Optional[TemporaryStorage] = None
 
         if requires_grad and self.storage_mode != StorageMode.NONE:
-            num_steps_stored = self.nt // self.step_ratio
+            num_steps_stored = -(-self.nt // self.step_ratio)
 
             if self.storage_mode == StorageMode.DEVICE:  # Device
                 if self.storage_compression:
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 4bab3ed..4d24f08 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1434,8 +1434,9 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1497,7 +1498,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_wavefields = {}
 
         if wavefields[0].numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = dict(zip(wavefield_names, wavefields))
                     forward_callback(
@@ -1511,7 +1512,8 @@ class ElasticForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
 
                 if (
                     forward(
@@ -1525,7 +1527,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *n_sources_per_shot,
@@ -1765,8 +1767,9 @@ class ElasticForwardFunc(torch.autograd.Function):
 
         rdx = [1 / dx for dx in grid_spacing]
 
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         wavefield_names = []
         model_names = []
@@ -1828,8 +1831,10 @@ class ElasticForwardFunc(torch.autograd.Function):
         callback_grad_models = dict(zip(model_names, grad_models))
 
         if grad_wavefields[0].numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                chunk_nt = end_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
@@ -1845,7 +1850,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         *[locs.data_ptr() for locs in receivers_i],
                         *rdx,
                         dt,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         *[
@@ -1870,7 +1875,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         mu_batched,
                         buoyancy_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1879,7 +1884,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     if ndim == 3:
                         (
                             grad_wavefields[9:14],
@@ -2500,7 +2505,7 @@ def elastic_python(
         model_names.extend(["lamb", "mu", "buoyancy_x"])
     callback_models = dict(zip(model_names, models))
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = dict(zip(v_names, velocities))
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
@@ -2529,7 +2534,7 @@ def elastic_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
 
             for ridx in range(ndim):
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index b74ac33..cc293a5 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -840,15 +840,16 @@ class ScalarForwardFunc(torch.autograd.Function):
         # If no callback is provided, the entire propagation can be done in a
         # single call to the backend function. We achieve this by setting the
         # callback frequency to be the total number of steps.
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         # The main time-stepping loop. The propagation is chunked into segments
         # of `callback_frequency` steps to allow for callbacks.
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 # If a `forward_callback` is provided, call it with the current
                 # state.
                 if forward_callback is not None:
@@ -871,7 +872,8 @@ class ScalarForwardFunc(torch.autograd.Function):
                         )
                     )
                 # `step_nt` is the number of steps to propagate in this chunk.
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 # Call the C/CUDA backend function to perform the wave
                 # propagation.
                 if (
@@ -891,7 +893,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -916,7 +918,7 @@ class ScalarForwardFunc(torch.autograd.Function):
                 # PML variables. If an odd number of time steps were performed
                 # in the chunk, the pointers to the current and previous time
                 # step buffers need to be swapped for the next iteration.
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp = wfp, wfc
                     psi, psin = psin, psi
 
@@ -1241,14 +1243,17 @@ class ScalarBackwardFunc(torch.autograd.Function):
         # This initial negation is the first part of that trick.
         grad_wfp = -grad_wfp
 
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfc.numel() > 0 and nt > 0:
-            for step in range(nt // step_ratio, 0, -callback_frequency):
+            for step in range(n_steps, 0, -callback_frequency):
                 step_nt = min(step, callback_frequency)
+                end_t = min(step * step_ratio, nt)
+                chunk_nt = end_t - (step - step_nt) * step_ratio
                 if (
                     backward(
                         v2dt2.data_ptr(),
@@ -1268,7 +1273,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         receivers_i.data_ptr(),
                         *rdx,
                         *rdx2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1282,7 +1287,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                         != deepwave.common.StorageMode.NONE,
                         v_batched,
                         storage_manager.storage_compression,
-                        step * step_ratio,
+                        end_t,
                         *pml_b,
                         *pml_e,
                         aux,
@@ -1291,7 +1296,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     grad_wfc, grad_wfp = grad_wfp, grad_wfc
                     grad_psi, grad_psin = grad_psin, grad_psi
                     grad_zeta, grad_zetan = grad_zetan, grad_zeta
@@ -2042,7 +2047,7 @@ def scalar_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             wavefield_dict = {
                 "wavefield_0": wavefields[0],
@@ -2064,7 +2069,7 @@ def scalar_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 7b06e44..4d73d89 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -820,14 +820,15 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         rdx = [1 / dx for dx in grid_spacing]
         rdx2 = [1 / dx**2 for dx in grid_spacing]
 
+        n_steps = -(-nt // step_ratio)
         if forward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
         callback_wavefields = {}
 
         if wfc.numel() > 0 and nt > 0:
-            for step in range(0, nt // step_ratio, callback_frequency):
+            for step in range(0, n_steps, callback_frequency):
                 if forward_callback is not None:
                     callback_wavefields = {
                         "wavefield_0": wfc,
@@ -855,7 +856,8 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             pml_width,
                         )
                     )
-                step_nt = min(nt // step_ratio - step, callback_frequency)
+                step_nt = min(n_steps - step, callback_frequency)
+                chunk_nt = min(step_nt * step_ratio, nt - step * step_ratio)
                 if (
                     forward(
                         v.data_ptr(),
@@ -882,7 +884,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         *rdx,
                         *rdx2,
                         dt**2,
-                        step_nt * step_ratio,
+                        chunk_nt,
                         n_shots,
                         *model_shape,
                         n_sources_per_shot,
@@ -908,7 +910,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     != 0
                 ):
                     raise RuntimeError("Compiled backend failed.")
-                if (step_nt * step_ratio) % 2 != 0:
+                if chunk_nt % 2 != 0:
                     wfc, wfp, psi, psin = (
                         wfp,
                         wfc,
@@ -1160,15 +1162,18 @@ class ScalarBornForwardFunc(torch.autograd.Function):
             grad_wfp = -grad_wfp
         grad_wfpsc = -grad_wfpsc
 
+        n_steps = -(-nt // step_ratio)
         if backward_callback is None:
-            callback_frequency = nt // step_ratio
+            callback_frequency = n_steps
 
         dim_names = ["z", "y", "x"]
 
         if grad_wfcsc.numel() > 0 and nt > 0:
             if non_sc:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    end_t = min(step * step_ratio, nt)
+                    chunk_nt = end_t - (step - step_nt) * step_ratio
                     if (
                         backward(
                             v.data_ptr(),
@@ -1201,7 +1206,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudes_requires_grad,
@@ -1221,7 +1226,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1230,7 +1235,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfc,
                             grad_wfp,
@@ -1293,8 +1298,10 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             )
                         )
             else:
-                for step in range(nt // step_ratio, 0, -callback_frequency):
+                for step in range(n_steps, 0, -callback_frequency):
                     step_nt = min(step, callback_frequency)
+                    end_t = min(step * step_ratio, nt)
+                    chunk_nt = end_t - (step - step_nt) * step_ratio
                     if (
                         backward_sc(
                             v.data_ptr(),
@@ -1315,7 +1322,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             *rdx,
                             *rdx2,
                             dt**2,
-                            step_nt * step_ratio,
+                            chunk_nt,
                             n_shots,
                             *model_shape,
                             n_sources_per_shot * source_amplitudessc_requires_grad,
@@ -1330,7 +1337,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                             v_batched,
                             scatter_batched,
                             storage_manager.storage_compression,
-                            step * step_ratio,
+                            end_t,
                             *pml_b,
                             *pml_e,
                             aux,
@@ -1339,7 +1346,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                         != 0
                     ):
                         raise RuntimeError("Compiled backend failed.")
-                    if (step_nt * step_ratio) % 2 != 0:
+                    if chunk_nt % 2 != 0:
                         (
                             grad_wfcsc,
                             grad_wfpsc,
@@ -1646,7 +1653,7 @@ def scalar_born_python(
 
     dim_names = ["z", "y", "x"]
 
-    for step in range(nt // step_ratio):
+    for step in range(-(-nt // step_ratio)):
         if forward_callback is not None and step % callback_frequency == 0:
             callback_wavefields = {
                 "wavefield_0": wavefields[0],
@@ -1677,7 +1684,7 @@ def scalar_born_python(
                     pml_width,
                 )
             )
-        for inner_step in range(step_ratio):
+        for inner_step in range(min(step_ratio, nt - step * step_ratio)):
             t = step * step_ratio + inner_step
             if receivers_i_masked.numel() > 0:
                 val = wavefields[0].view(-1, flat_shape).gather(1, receivers_i_masked)
-- 
2.43.0


From aaa5037778eed46ad69a7301f5fae962eb8dc84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 04/15] fix: refuse second derivatives that are not supported

torch.autograd.grad silently returned zero or partial second derivatives for
scalar_born, acoustic and elastic: the error node of torch's once_differentiable
is not connected to the inputs (and acoustic had no decorator at all).
---
 src/deepwave/acoustic.py    |  4 +++
 src/deepwave/common.py      | 67 +++++++++++++++++++++++++++++++++++++
 src/deepwave/elastic.py     |  5 ++-
 src/deepwave/scalar.py      |  2 +-
 src/deepwave/scalar_born.py |  5 ++-
 5 files changed, 80 insertions(+), 3 deletions(-)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index 4d5079d..cea82ac 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -845,6 +845,9 @@ class AcousticForwardFunc(torch.autograd.Function):
             ctx.save_for_backward(
                 *models, *sources_i, *receivers_i, *source_amplitudes, *pml_profiles
             )
+            ctx.linear_inputs = [
+                t for t in (*source_amplitudes, *wavefields) if t.requires_grad
+            ]
             ctx.grid_spacing = grid_spacing
             ctx.dt = dt
             ctx.nt = nt
@@ -1009,6 +1012,7 @@ class AcousticForwardFunc(torch.autograd.Function):
         return (*[w[s] for w in wavefields], *receiver_amplitudes)
 
     @staticmethod
+    @deepwave.common.once_differentiable
     def backward(ctx: Any, *args: torch.Tensor) -> Tuple[Optional[torch.Tensor], ...]:
         """Computes gradients during backward pass."""
         # Unpack
diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index ca40c44..228f07b 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -7,6 +7,7 @@ PML setup, and data preparation for wave propagation simulations.
 
 import contextlib
 import ctypes
+import functools
 import math
 import os
 import shutil
@@ -404,6 +405,72 @@ class CallbackState:
         raise ValueError(f"view must be 'full', 'pml', or 'inner', but got {view}")
 
 
+class _RefuseSecondDerivative(torch.autograd.Function):
+    """Identity on gradients that raises an error when differentiated."""
+
+    @staticmethod
+    def forward(ctx: Any, n_grads: int, *tensors: torch.Tensor) -> Any:
+        """Return the first `n_grads` tensors."""
+        return tuple(t.view_as(t) for t in tensors[:n_grads])
+
+    @staticmethod
+    def backward(ctx: Any, *args: torch.Tensor) -> Any:
+        """Refuse."""
+        raise RuntimeError(
+            "This propagator does not support second derivatives: a gradient "
+            "that was computed by it cannot be differentiated."
+        )
+
+
+class _ReadOnceContext:
+    """Reads ``saved_tensors`` of an autograd context only once."""
+
+    def __init__(self, ctx: Any) -> None:
+        self._ctx = ctx
+        self.saved_tensors = ctx.saved_tensors
+
+    def __getattr__(self, name: str) -> Any:
+        return getattr(self._ctx, name)
+
+
+def once_differentiable(backward: Callable[..., Any]) -> Callable[..., Any]:
+    """Mark a backward method whose result cannot be differentiated again.
+
+    In contrast to ``torch.autograd.function.once_differentiable``, the
+    returned gradients remain connected to the tensors that they depend on, so
+    the error is also raised by ``torch.autograd.grad``, which does not visit
+    nodes that are not connected to its inputs and would thus silently return
+    incomplete second derivatives. Tensors that the gradients depend on but that
+    are not saved (as the wavefield is stored instead) are expected to be listed
+    in the ``linear_inputs`` attribute of the context.
+    """
+
+    @functools.wraps(backward)
+    def wrapper(ctx: Any, *args: torch.Tensor) -> Any:
+        if not torch.is_grad_enabled():
+            return backward(ctx, *args)
+        ctx = _ReadOnceContext(ctx)
+        saved_tensors = ctx.saved_tensors
+        linear_inputs = getattr(ctx, "linear_inputs", [])
+        with torch.no_grad():
+            grads = list(backward(ctx, *args))
+        dependencies = [
+            t
+            for t in (*saved_tensors, *linear_inputs, *args)
+            if isinstance(t, torch.Tensor) and t.requires_grad
+        ]
+        idxs = [i for i, g in enumerate(grads) if g is not None]
+        if dependencies and idxs:
+            refusing = _RefuseSecondDerivative.apply(  # type: ignore[no-untyped-call]
+                len(idxs), *[grads[i] for i in idxs], *dependencies
+            )
+            for i, grad in zip(idxs, refusing):
+                grads[i] = grad
+        return tuple(grads)
+
+    return wrapper
+
+
 Callback = Callable[[CallbackState], None]
 
 IGNORE_LOCATION = -1 << 31
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 4d24f08..f1a9c08 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1366,6 +1366,9 @@ class ElasticForwardFunc(torch.autograd.Function):
                 *source_amplitudes,
                 *pml_profiles,
             )
+            ctx.linear_inputs = [
+                t for t in (*source_amplitudes, *wavefields) if t.requires_grad
+            ]
             ctx.grid_spacing = grid_spacing
             ctx.dt = dt
             ctx.nt = nt
@@ -1569,7 +1572,7 @@ class ElasticForwardFunc(torch.autograd.Function):
         )
 
     @staticmethod
-    @torch.autograd.function.once_differentiable
+    @deepwave.common.once_differentiable
     def backward(
         ctx: Any,
         *args: torch.Tensor,
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index cc293a5..8959000 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1347,7 +1347,7 @@ class ScalarBackwardFunc(torch.autograd.Function):
         )
 
     @staticmethod
-    @torch.autograd.function.once_differentiable
+    @deepwave.common.once_differentiable
     def backward(ctx: Any, *args: torch.Tensor) -> Tuple[Optional[torch.Tensor], ...]:
         """Performs double backpropagations.
 
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 4d73d89..8ff3944 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -730,6 +730,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                 receiverssc_i,
                 *pml_profiles,
             )
+            ctx.linear_inputs = [
+                t for t in (source_amplitudes, source_amplitudessc, *wavefields) if t.requires_grad
+            ]
             ctx.grid_spacing = grid_spacing
             ctx.dt = dt
             ctx.nt = nt
@@ -939,7 +942,7 @@ class ScalarBornForwardFunc(torch.autograd.Function):
         )
 
     @staticmethod
-    @torch.autograd.function.once_differentiable
+    @deepwave.common.once_differentiable
     def backward(
         ctx: Any,
         *args: torch.Tensor,
-- 
2.43.0


From 280382555b9af0372c8254b8c13ebabe9c329bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:12 +0000
Subject: [PATCH 05/15] fix: give every elastic callback wavefield and model
 its own name

The names of the 3D models were overwritten by the 2D ones, the backward
callback dropped the last memory variable, and with the Python backend the
shear stresses and memory variables were paired with the wrong tensors.
---
 src/deepwave/elastic.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index f1a9c08..4e1dab2 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1486,6 +1486,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1819,6 +1820,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                     "m_sigmaxyx_0",
                 ]
             )
+        if ndim == 2:
             model_names = ["lamb", "mu", "mu_yx", "buoyancy_y", "buoyancy_x"]
         if ndim == 1:
             model_names = ["lamb", "mu", "buoyancy_x"]
@@ -1926,9 +1928,7 @@ class ElasticForwardFunc(torch.autograd.Function):
                         )
 
                 if backward_callback is not None:
-                    callback_wavefields = dict(
-                        zip(wavefield_names, grad_wavefields[:-1])
-                    )
+                    callback_wavefields = dict(zip(wavefield_names, grad_wavefields))
                     backward_callback(
                         deepwave.common.CallbackState(
                             dt,
@@ -2365,11 +2365,13 @@ def elastic_python(
         ]
         v_mem_normal_names = ["m_vyy_0", "m_vxx_0"]
         v_mem_shear_names = [
-            ["m_vyx_0", "m_vxy_0"],
+            ["m_vyx_0"],
+            ["m_vxy_0"],
         ]
         s_mem_normal_names = ["m_sigmayyy_0", "m_sigmaxxx_0"]
         s_mem_shear_names = [
-            ["m_sigmaxyx_0", "m_sigmaxyy_0"],
+            ["m_sigmaxyx_0"],
+            ["m_sigmaxyy_0"],
         ]
 
     else:
@@ -2514,17 +2516,27 @@ def elastic_python(
             callback_wavefields.update(dict(zip(normal_s_names, normal_stresses)))
             for i in range(len(shear_s_names)):
                 callback_wavefields.update(
-                    dict(zip(shear_s_names[i], shear_stresses[i]))
+                    dict(zip(shear_s_names[i], shear_stresses[i][i + 1 :]))
                 )
             callback_wavefields.update(dict(zip(v_mem_normal_names, v_mem_vars_normal)))
             for i in range(len(v_mem_shear_names)):
                 callback_wavefields.update(
-                    dict(zip(v_mem_shear_names[i], v_mem_vars_shear[i]))
+                    dict(
+                        zip(
+                            v_mem_shear_names[i],
+                            v_mem_vars_shear[i][:i] + v_mem_vars_shear[i][i + 1 :],
+                        )
+                    )
                 )
             callback_wavefields.update(dict(zip(s_mem_normal_names, s_mem_vars_normal)))
             for i in range(len(s_mem_shear_names)):
                 callback_wavefields.update(
-                    dict(zip(s_mem_shear_names[i], s_mem_vars_shear[i]))
+                    dict(
+                        zip(
+                            s_mem_shear_names[i],
+                            s_mem_vars_shear[i][:i] + s_mem_vars_shear[i][i + 1 :],
+                        )
+                    )
                 )
             forward_callback(
                 deepwave.common.CallbackState(
-- 
2.43.0


From a615ddd887699f8cbdbe49be3cf0d4cf462036f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 06/15] fix: do not add earlier chunks' temporary gradients
 again

With a backward callback the backward kernel is called once per chunk of time
steps. The buffers with one gradient per thread or shot were not cleared
between the calls, so their content was added to the model gradients
repeatedly.
---
 src/deepwave/acoustic.py    | 3 +++
 src/deepwave/elastic.py     | 3 +++
 src/deepwave/scalar.py      | 2 ++
 src/deepwave/scalar_born.py | 6 ++++++
 4 files changed, 14 insertions(+)

diff --git a/src/deepwave/acoustic.py b/src/deepwave/acoustic.py
index cea82ac..e16c866 100644
--- a/src/deepwave/acoustic.py
+++ b/src/deepwave/acoustic.py
@@ -1190,6 +1190,9 @@ class AcousticForwardFunc(torch.autograd.Function):
                 step_nt = min(step, callback_frequency)
                 end_t = min(step * step_ratio, nt)
                 chunk_nt = end_t - (step - step_nt) * step_ratio
+                # Each call adds the temporary gradients to the final ones
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 if (
                     backward(
                         *[m.data_ptr() for m in models],
diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 4e1dab2..1187727 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -1840,6 +1840,9 @@ class ElasticForwardFunc(torch.autograd.Function):
                 step_nt = min(step, callback_frequency)
                 end_t = min(step * step_ratio, nt)
                 chunk_nt = end_t - (step - step_nt) * step_ratio
+                # Each call adds the temporary gradients to the final ones
+                for grad_model_tmp in grad_models_tmp:
+                    grad_model_tmp.zero_()
                 if (
                     backward(
                         *[model.data_ptr() for model in models],
diff --git a/src/deepwave/scalar.py b/src/deepwave/scalar.py
index 8959000..d6216d4 100644
--- a/src/deepwave/scalar.py
+++ b/src/deepwave/scalar.py
@@ -1254,6 +1254,8 @@ class ScalarBackwardFunc(torch.autograd.Function):
                 step_nt = min(step, callback_frequency)
                 end_t = min(step * step_ratio, nt)
                 chunk_nt = end_t - (step - step_nt) * step_ratio
+                # Each call adds the temporary gradients to the final ones
+                grad_v_tmp.zero_()
                 if (
                     backward(
                         v2dt2.data_ptr(),
diff --git a/src/deepwave/scalar_born.py b/src/deepwave/scalar_born.py
index 8ff3944..e5bcbda 100644
--- a/src/deepwave/scalar_born.py
+++ b/src/deepwave/scalar_born.py
@@ -1177,6 +1177,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     step_nt = min(step, callback_frequency)
                     end_t = min(step * step_ratio, nt)
                     chunk_nt = end_t - (step - step_nt) * step_ratio
+                    # Each call adds the temporary gradients to the final ones
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     if (
                         backward(
                             v.data_ptr(),
@@ -1305,6 +1308,9 @@ class ScalarBornForwardFunc(torch.autograd.Function):
                     step_nt = min(step, callback_frequency)
                     end_t = min(step * step_ratio, nt)
                     chunk_nt = end_t - (step - step_nt) * step_ratio
+                    # Each call adds the temporary gradients to the final ones
+                    grad_v_tmp.zero_()
+                    grad_scatter_tmp.zero_()
                     if (
                         backward_sc(
                             v.data_ptr(),
-- 
2.43.0


From a02bfbf38218fac18c8a59b7671f360f1c995230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 07/15] fix: accept initial wavefields when all locations of a
 type are ignored

check_locations_within_extents took the minimum of an empty tensor when
every location in a tensor was IGNORE_LOCATION.
---
 src/deepwave/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 228f07b..a026923 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1995,6 +1995,8 @@ def check_locations_within_extents(
             for dim in range(location.shape[-1]):
                 dim_location = location[..., dim]
                 dim_location = dim_location[dim_location != IGNORE_LOCATION]
+                if dim_location.numel() == 0:
+                    continue
                 if (
                     dim_location.min() < extents[dim][0]
                     or extents[dim][1] <= dim_location.max()
-- 
2.43.0


From 6b35944fde63ca04495ff3104af584d05ad5239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 08/15] fix: consider sigmaxx_0 when determining the elastic
 propagator's dimensions

A call whose only dimension-determining argument was sigmaxx_0 was refused.
---
 src/deepwave/elastic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/elastic.py b/src/deepwave/elastic.py
index 1187727..31e0c07 100644
--- a/src/deepwave/elastic.py
+++ b/src/deepwave/elastic.py
@@ -692,7 +692,7 @@ def elastic(
             m_sigmaxyy_0,
             m_sigmaxyx_0,
         ],
-        [vx_0, m_vxx_0, m_sigmaxxx_0],
+        [vx_0, sigmaxx_0, m_vxx_0, m_sigmaxxx_0],
     )
     if ndim < 3 and (
         source_locations_z is not None or receiver_locations_z is not None
-- 
2.43.0


From 98c74ed48497e56cad36fab4ce0f6c79449c7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:06 +0000
Subject: [PATCH 09/15] fix: zero the Nyquist frequency when the frequency
 taper is shorter than a sample

---
 src/deepwave/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index a026923..f514a8a 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -1410,8 +1410,8 @@ def upsample(
     nt = signal.shape[-1]
     up_nt = nt * step_ratio
     signal_f = torch.fft.rfft(signal, norm="ortho") * math.sqrt(step_ratio)
-    if freq_taper_frac > 0.0:
-        freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    if freq_taper_len > 0:
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
@@ -1502,8 +1502,8 @@ def downsample(
     nt = signal.shape[-1]
     down_nt = nt // step_ratio
     signal_f = torch.fft.rfft(signal, norm="ortho")[..., : down_nt // 2 + 1]
-    if freq_taper_frac > 0.0:
-        freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    freq_taper_len = int(freq_taper_frac * signal_f.shape[-1])
+    if freq_taper_len > 0:
         signal_f = cosine_taper_end(signal_f, freq_taper_len)
     elif signal_f.shape[-1] > 1:
         signal_f = zero_last_element_of_final_dimension(signal_f)
-- 
2.43.0


From 36f61a77208165a579d30fe1c8cd83920546d5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 10/15] fix: absorbing layer profiles were NaN outside the
 layers when pml_freq is zero

---
 src/deepwave/common.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index f514a8a..6ff6099 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2620,6 +2620,7 @@ def setup_pml(
     a = torch.exp(-sigmaalpha * abs(dt))
     b = sigma / sigmaalpha * (a - 1)
     a[pml_frac == 0] = 0
+    b[sigma == 0] = 0  # avoids 0/0 when pml_freq is zero
     return a, b
 
 
-- 
2.43.0


From 0ab8b2c2c8774f4d26476cc99cf59b7927d955aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 11/15] fix: gradients of lambmubuoyancy_to_vpvsrho were
 infinite or NaN where mu or buoyancy is zero

---
 src/deepwave/common.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/common.py b/src/deepwave/common.py
index 6ff6099..e0e07aa 100644
--- a/src/deepwave/common.py
+++ b/src/deepwave/common.py
@@ -2522,6 +2522,14 @@ def vpvsrho_to_lambmubuoyancy(
     return lamb, mu, buoyancy
 
 
+def _sqrt_zero_grad(x: torch.Tensor) -> torch.Tensor:
+    """Square root with a gradient of zero, rather than infinity, at zero."""
+    nonzero = x != 0
+    return torch.where(
+        nonzero, torch.where(nonzero, x, torch.ones_like(x)).sqrt(), torch.zeros_like(x)
+    )
+
+
 def lambmubuoyancy_to_vpvsrho(
     lamb: torch.Tensor,
     mu: torch.Tensor,
@@ -2546,8 +2554,9 @@ def lambmubuoyancy_to_vpvsrho(
             - rho: A torch.Tensor containing the density.
 
     """
-    vs = (mu * buoyancy).sqrt()
-    vp = (lamb * buoyancy + 2 * vs**2).sqrt()
+    vs2 = mu * buoyancy
+    vs = _sqrt_zero_grad(vs2)
+    vp = _sqrt_zero_grad(lamb * buoyancy + 2 * vs2)
     rho = 1 / (buoyancy**2 + eps) * buoyancy
     return vp, vs, rho
 
-- 
2.43.0


From baf692ecd0e04fd63e0a920f5fa87a86e87b1203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 12/15] fix: Hicks interpolation omitted and repeated grid
 points because of rounding, and failed between -1 and 0

---
 src/deepwave/location_interpolation.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index dc30377..64ee904 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -57,18 +57,14 @@ def _get_hicks_for_one_location_dim(
         locations = torch.tensor([location]).round().long().to(beta.device)
         weights = torch.ones(1, dtype=beta.dtype, device=beta.device)
     else:
-        key = (int((location - int(location)) / eps), halfwidth, int(monopole))
-        x = (
-            torch.arange(
-                -halfwidth + 1,
-                halfwidth + 1,
-                dtype=beta.dtype,
-                device=beta.device,
-            )
-            - location
-            + int(location)
-        )
-        locations = (location + x).long()
+        # Integer arithmetic is used for the grid points, as rounding could
+        # otherwise make points of the window be repeated or omitted
+        base = math.floor(location)
+        fraction = location - base
+        key = (int(fraction / eps), halfwidth, int(monopole))
+        offsets = torch.arange(-halfwidth + 1, halfwidth + 1, device=beta.device)
+        x = offsets.to(beta.dtype) - fraction
+        locations = offsets + base
 
         if key in hicks_weight_cache:
             weights = hicks_weight_cache[key].clone()
-- 
2.43.0


From b8b1c826695151a7f5810730689b33e1f6f55da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:39 +0000
Subject: [PATCH 13/15] fix: Hicks free surface changes leaked into the cached
 weights of later locations

---
 src/deepwave/location_interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 64ee904..49de1d1 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -83,7 +83,7 @@ def _get_hicks_for_one_location_dim(
                     * torch.i0(beta * (1 - (x / halfwidth) ** 2).sqrt())
                     / torch.i0(beta)
                 )
-            hicks_weight_cache[key] = weights
+            hicks_weight_cache[key] = weights.clone()
         if free_surface[0] and locations[0].item() < free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
-- 
2.43.0


From 53dd42595befa327147a6aa90dfb0bdd795e9410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:39 +0000
Subject: [PATCH 14/15] fix: storage compression overflows on blocks of tiny
 values

127 / max_abs is infinite (or max_abs / 127 underflows) when the largest
absolute value in a block is subnormal, so such blocks decompressed to
garbage. Normalise by max_abs before multiplying by 127.
---
 src/deepwave/simple_compress.c  | 12 +++++++-----
 src/deepwave/simple_compress.cu |  9 +++++----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/deepwave/simple_compress.c b/src/deepwave/simple_compress.c
index ef3d20f..5150a85 100644
--- a/src/deepwave/simple_compress.c
+++ b/src/deepwave/simple_compress.c
@@ -91,8 +91,8 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
         size_t const block_idx = bz * nby * nbx + by * nbx + bx;
         max_abs_vals[block_idx] = max_abs;
 
-        DW_DTYPE const scale =
-            (max_abs > 0) ? ((DW_DTYPE)127.0 / max_abs) : 0;
+        /* Normalise before scaling, since 127 / max_abs can overflow */
+        DW_DTYPE const divisor = (max_abs > 0) ? max_abs : 1;
 
         /* Quantize */
 #if DW_NDIM >= 3
@@ -111,7 +111,9 @@ void SC_FUNC(compress_cpu)(void const *const input, void *const output,
 #endif
                   x;
               compressed[idx] =
-                  (uint8_t)((DW_DTYPE)128.0 + in_ptr[idx] * scale + (DW_DTYPE)0.5);
+                  (uint8_t)((DW_DTYPE)128.0 +
+                            in_ptr[idx] / divisor * (DW_DTYPE)127.0 +
+                            (DW_DTYPE)0.5);
             }
 #if DW_NDIM >= 2
           }
@@ -178,7 +180,6 @@ void SC_FUNC(decompress_cpu)(void const *const input, void *const output,
       for (size_t bx = 0; bx < nbx; ++bx) {
         size_t const block_idx = bz * nby * nbx + by * nbx + bx;
         DW_DTYPE const max_abs = max_abs_vals[block_idx];
-        DW_DTYPE const scale = max_abs / (DW_DTYPE)127.0;
 
         size_t const x_start = bx * BLOCK_SIZE;
         size_t const x_end =
@@ -199,7 +200,8 @@ void SC_FUNC(decompress_cpu)(void const *const input, void *const output,
                   y * nx + 
 #endif
                   x;
-              out_ptr[idx] = ((DW_DTYPE)compressed[idx] - (DW_DTYPE)128.0) * scale;
+              out_ptr[idx] = ((DW_DTYPE)compressed[idx] - (DW_DTYPE)128.0) /
+                             (DW_DTYPE)127.0 * max_abs;
             }
 #if DW_NDIM >= 2
           }
diff --git a/src/deepwave/simple_compress.cu b/src/deepwave/simple_compress.cu
index fa7188a..3aaf5c4 100644
--- a/src/deepwave/simple_compress.cu
+++ b/src/deepwave/simple_compress.cu
@@ -124,8 +124,9 @@ __launch_bounds__(THREADS_PER_BLOCK) __global__
   uint8_t *const compressed_data_start = output + gridDim.x * sizeof(DW_DTYPE);
 
   if (in_bounds) {
-    DW_DTYPE scale = (max_abs > 0) ? ((DW_DTYPE)(127.0) / max_abs) : (DW_DTYPE)(0);
-    DW_DTYPE normalized = val * scale;
+    /* Normalise before scaling, since 127 / max_abs can overflow */
+    DW_DTYPE divisor = (max_abs > 0) ? max_abs : (DW_DTYPE)(1);
+    DW_DTYPE normalized = val / divisor * (DW_DTYPE)(127.0);
     compressed_data_start[idx] = (uint8_t)((DW_DTYPE)(128.0) + normalized + (DW_DTYPE)(0.5));
   }
 }
@@ -192,7 +193,6 @@ __launch_bounds__(THREADS_PER_BLOCK) __global__
   uint8_t const *const compressed_data_start = input + gridDim.x * sizeof(DW_DTYPE);
 
   DW_DTYPE max_abs = max_abs_vals[global_block_idx];
-  DW_DTYPE scale = max_abs / (DW_DTYPE)(127.0);
 
   size_t const idx = batch_idx * (
 #if DW_NDIM >= 3
@@ -211,7 +211,8 @@ __launch_bounds__(THREADS_PER_BLOCK) __global__
       x;
   uint8_t val_u8 = compressed_data_start[idx];
   
-  output[idx] = ((DW_DTYPE)(val_u8) - (DW_DTYPE)(128.0)) * scale;
+  output[idx] = ((DW_DTYPE)(val_u8) - (DW_DTYPE)(128.0)) /
+                (DW_DTYPE)(127.0) * max_abs;
 }
 
 /* CUDA wrapper functions */
-- 
2.43.0


From 6b78205653cdc6dd2b4106073b2ee298d627847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:49 +0000
Subject: [PATCH 15/15] fix: Hicks weight on a free surface when the window
 ends there

A grid point on a free surface is its own mirror image, so its weight
vanishes. This was applied when the window extended beyond the surface, but
not when it ended exactly on it.
---
 src/deepwave/location_interpolation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/deepwave/location_interpolation.py b/src/deepwave/location_interpolation.py
index 49de1d1..1866f6d 100644
--- a/src/deepwave/location_interpolation.py
+++ b/src/deepwave/location_interpolation.py
@@ -84,7 +84,7 @@ def _get_hicks_for_one_location_dim(
                     / torch.i0(beta)
                 )
             hicks_weight_cache[key] = weights.clone()
-        if free_surface[0] and locations[0].item() < free_surface_loc[0]:
+        if free_surface[0] and locations[0].item() <= free_surface_loc[0]:
             # idx0: first index at, or on model side of, free surface
             # idx1: first index on model side of free surface
             idx0 = math.ceil(free_surface_loc[0] - locations[0].item())
@@ -95,7 +95,7 @@ def _get_hicks_for_one_location_dim(
             flipped_weights = weights[:idx1].flip(0)
             weights[idx0 : idx0 + len(flipped_weights)] -= flipped_weights
             weights = weights[idx0:]
-        if free_surface[1] and locations[-1].item() > free_surface_loc[1]:
+        if free_surface[1] and locations[-1].item() >= free_surface_loc[1]:
             idx0 = (
                 len(weights) - 1 - math.ceil(locations[-1].item() - free_surface_loc[1])
             )
-- 
2.43.0

