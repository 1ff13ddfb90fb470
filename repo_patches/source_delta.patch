From 2cdeb78347545a47d31f42002edb467682664b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:07 +0000
Subject: [PATCH 01/47] fix: keep negative Fourier coefficients of patterned
 layers

Epsilon_fft is meant to flush numerically-zero entries of the permittivity
convolution matrix, but it compared without abs() and so also dropped every
entry with negative real and imaginary part. Patterned layers were therefore
simulated with a wrong permittivity (energy not conserved, result depends on
the lateral origin).
---
 nidn/trcwa/utils/fft_funs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index df91d0b..9f8482e 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -32,7 +32,7 @@ def Epsilon_fft(dN, eps_grid, G):
     # Set very small components to zero for torch
     for i in range(eps2.shape[0]):
         for j in range(eps2.shape[1]):
-            if eps2[i][j].real < 1e-14 and eps2[i][j].imag < 1e-14:
+            if eps2[i][j].real.abs() < 1e-14 and eps2[i][j].imag.abs() < 1e-14:
                 eps2[i][j] = 0 + 0j
 
     return epsinv, eps2
-- 
2.43.0


From 162f8869572c2eb512f6ba60ecefec815fcce2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:20 +0000
Subject: [PATCH 02/47] fix: do not read a patterned grid of width 3 as an
 anisotropic tensor

GridLayer_geteps took every input of length 3 with array entries for the
anisotropic [eps_x, eps_y, eps_z] form, so any (3, Ny, N_layers) grid raised
or was misread. Only three flattened (1D) components are that form.
---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 3b25b61..ed537a2 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -227,7 +227,7 @@ class TRCWA:
             Ny = self.GridLayer_Nxy_list[ptri][1]
             dN = 1.0 / Nx / Ny
 
-            if len(ep_all) == 3 and ep_all[0].ndim > 0:
+            if len(ep_all) == 3 and ep_all[0].ndim == 1:
                 ep_grid = [
                     torch.reshape(ep_all[0][ptr : ptr + Nx * Ny], [Nx, Ny]),
                     torch.reshape(ep_all[1][ptr : ptr + Nx * Ny], [Nx, Ny]),
-- 
2.43.0


From 965f4cd7afbc89c622ce8b18c8b782f66c7f2f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:20 +0000
Subject: [PATCH 03/47] fix: keep grids with Nx=1, Ny>1 three dimensional for
 TRCWA

The x axis was squeezed away whenever Nx was 1, also for patterned grids with
Ny>1, which then raised, or for one layer lost the gradient.
---
 nidn/trcwa/init_trcwa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/init_trcwa.py b/nidn/trcwa/init_trcwa.py
index 5a56ddb..fbf38a4 100644
--- a/nidn/trcwa/init_trcwa.py
+++ b/nidn/trcwa/init_trcwa.py
@@ -20,8 +20,9 @@ def _init_trcwa(eps_grid, target_frequency, run_cfg):
     Nx, Ny, N_layers = eps_grid.shape[0:3]
 
     # Squeeze out Nx=1, Ny=1 dimension (for uniform layer)
-    eps_grid = eps_grid.squeeze(0)  # squeeze X
-    eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
+    if Nx == 1 and Ny == 1:
+        eps_grid = eps_grid.squeeze(0)  # squeeze X
+        eps_grid = eps_grid.squeeze(0)  # squeeze Y (now at 0)
 
     # Adding a small imaginary part to the frequency to avoid singularities in RCWA
     # See page 2 of arxiv.org/pdf/2005.04840v1.pdf
-- 
2.43.0


From 70ba9c5534b0e8e5ddb9c94e3296d99f52f2924b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:20 +0000
Subject: [PATCH 04/47] fix: keep the frequency axis of single-frequency
 material collections

squeeze() without an axis also dropped the material or frequency axis when its
length is 1, so classification with N_freq=1 produced grids of the wrong shape
and a one-material collection was indexed by frequency.
---
 nidn/materials/material_collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/materials/material_collection.py b/nidn/materials/material_collection.py
index 3054c26..5991026 100644
--- a/nidn/materials/material_collection.py
+++ b/nidn/materials/material_collection.py
@@ -79,7 +79,7 @@ class MaterialCollection:
 
         # Create a single tensor of all materials
         logger.trace("Creating material tensor")
-        self.epsilon_matrix = torch.stack(eps_list).squeeze()  # .cuda()
+        self.epsilon_matrix = torch.stack(eps_list).squeeze(-1)  # .cuda()
         self.N_materials = len(self.material_names)
 
     def _load_material_data(self, name):
-- 
2.43.0


From f01889026c658ffe448c3792cfb6196a6667f955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:20 +0000
Subject: [PATCH 05/47] fix: renormalize R and T in the loss by the same sum

T was divided by R+T computed with the already renormalized R, so the
renormalized point did not satisfy R+T=1.
---
 nidn/training/losses/spectrum_loss.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/training/losses/spectrum_loss.py b/nidn/training/losses/spectrum_loss.py
index 8f36ded..2de94f7 100644
--- a/nidn/training/losses/spectrum_loss.py
+++ b/nidn/training/losses/spectrum_loss.py
@@ -47,8 +47,9 @@ def _spectrum_loss_fn(
             logger.warning(
                 f"R+T>1 for freq={freq:.4f}. Renormalizing this point in the loss..."
             )
-            prod_R = prod_R / (prod_R + prod_T)
-            prod_T = prod_T / (prod_R + prod_T)
+            total = prod_R + prod_T
+            prod_R = prod_R / total
+            prod_T = prod_T / total
             renormalized = True
 
         # Accumulate losses
-- 
2.43.0


From f38e0f52efa6ce7dc16bd8debb1539e3b5e71df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:20 +0000
Subject: [PATCH 06/47] fix: snapshot the initial weights in run_training

The initial best_model_state_dict aliased the live parameters, so until the
first improvement was stored reloading it was a no-op.
---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index c746fbc..60723e5 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -95,7 +95,7 @@ def run_training(
 
     # And store the best results
     best_loss = np.inf
-    run_cfg.best_model_state_dict = run_cfg.model.state_dict()
+    run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
     logger.trace("Starting training...")
     # Training Loop
-- 
2.43.0


From a338c7880a853eacff1bd6803d4d4df5dc8872b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:34 +0000
Subject: [PATCH 07/47] fix: only let stored models set the best loss in
 training

A renormalized (unphysical, R+T>1) iterate is deliberately not stored, but its
loss still became best_loss, so later physical models that beat every stored
one were not stored either and run_training returned a worse model.
---
 nidn/training/run_training.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index 60723e5..d430147 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -156,11 +156,11 @@ def run_training(
         # We store the model if it has the lowest loss yet
         # (this is to avoid losing good results during a run that goes wild)
         if loss < best_loss:
-            best_loss = loss
             logger.info(
                 f"###  New Best={loss.item():<6.4f} with SpectrumLoss={spectrum_loss:<6.4f} ### L1={L1err.detach().item():.4f}"
             )
             if not renormalized:
+                best_loss = loss
                 logger.debug("Saving model state...")
                 run_cfg.best_model_state_dict = deepcopy(run_cfg.model.state_dict())
 
-- 
2.43.0


From f37a1a3d70f825c85336c1f4d56264cc6d31eafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:34 +0000
Subject: [PATCH 08/47] fix: translate the imaginary permittivity by
 imag_min_eps

The network output was scaled to [0, max-min] and clipped to [min, max], so for
imag_min_eps != 0 part of the configured range was unreachable.
---
 nidn/training/model/model_to_eps_grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 85da34a..0804ead 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -195,7 +195,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
         # second half imaginary
         eps.imag = out[:, :, :, run_cfg.N_freq :]
-        eps.imag = (eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)).clip(
+        eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
+        eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
         )
 
-- 
2.43.0


From e6a4d1f469a702f5df1f4cf57c19a1c759f542d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:08 +0000
Subject: [PATCH 09/47] fix: take epsilon at a frequency from the network
 output at that frequency

The network maps each (x, y, z, freq) point to [real, imag], but the flat output
was reshaped to 2*N_freq columns and split in halves, which mixed real and
imaginary outputs of different frequencies (a frequency independent network
produced a frequency dependent permittivity).
---
 nidn/training/model/model_to_eps_grid.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 0804ead..dd713f2 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -163,9 +163,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
     else:
 
         # Reshape the output to have a 4D tensor again
-        # Note we ouput real and imaginary parts separatly, hence 2*N_freq
+        # Note we ouput real and imaginary parts separatly, hence the last dimension
         out = out.reshape(
-            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, 2 * run_cfg.N_freq
+            Nx_undersampled, Ny_undersampled, run_cfg.N_layers, run_cfg.N_freq, 2
         )
 
         # Oversample the created eps grid
@@ -179,8 +179,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
 
         # Net out is [0,1] thus we transform to desired real and imaginary ranges
-        # first half contains real entries
-        eps.real = out[:, :, :, 0 : run_cfg.N_freq]
+        # first output is the real entry
+        eps.real = out[..., 0]
 
         # scale up to [0 , (max-min_eps)]
         eps.real = eps.real * (run_cfg.real_max_eps - run_cfg.real_min_eps)
@@ -193,8 +193,8 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         if run_cfg.avoid_zero_eps:
             _avoid_zero_eps(eps)
 
-        # second half imaginary
-        eps.imag = out[:, :, :, run_cfg.N_freq :]
+        # second output is imaginary
+        eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         eps.imag = (eps.imag + run_cfg.imag_min_eps).clip(
             run_cfg.imag_min_eps, run_cfg.imag_max_eps
-- 
2.43.0


From e8d0afd88ed2cd028cb0c187d7f7bfa962c6161e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:08 +0000
Subject: [PATCH 10/47] fix: honour avoid_zero_eps for voxel models and after
 adding noise

---
 nidn/training/model/model_to_eps_grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index dd713f2..3145166 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -190,9 +190,6 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
             run_cfg.real_min_eps, run_cfg.real_max_eps
         )
 
-        if run_cfg.avoid_zero_eps:
-            _avoid_zero_eps(eps)
-
         # second output is imaginary
         eps.imag = out[..., 1]
         eps.imag = eps.imag * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
@@ -217,6 +214,9 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
         )
         eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
+    if run_cfg.avoid_zero_eps:
+        _avoid_zero_eps(eps)
+
     return eps
 
 
-- 
2.43.0


From 5c5f2925bf9cd6792f2ca34c464bae3cf359747e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:27 +0000
Subject: [PATCH 11/47] fix: NERF networks with three or four hidden layers

The input was concatenated behind the last hidden or the output layer when
there was no wider layer following it.
---
 nidn/training/utils/nerf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/training/utils/nerf.py b/nidn/training/utils/nerf.py
index 0f5ab59..c4e3977 100644
--- a/nidn/training/utils/nerf.py
+++ b/nidn/training/utils/nerf.py
@@ -56,7 +56,8 @@ class NERF(nn.Module):
         # compute all other layers and apply skip where requested
         for layer_idx in range(1, len(self.net)):
             out = self.net[layer_idx].forward(out)
-            if layer_idx in self.skip:
+            # (the last hidden and the output layer have no layer to skip to)
+            if layer_idx in self.skip and layer_idx < len(self.net) - 2:
                 out = torch.cat([out, identity], dim=1)
 
         return out
-- 
2.43.0


From cd1876e2d8c6c5e3f559e2a8744c97aef34dbb8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:43 +0000
Subject: [PATCH 12/47] fix: check every entry of list valued config options

all(values) > 0 only tested that no entry is zero (and >= 0 tested nothing), so
negative layer thicknesses, source positions and target spectra passed
validation. TRCWA_L_grid rows are lattice vectors with legitimate zeros and are
covered by their own checks.
---
 nidn/utils/validate_config.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index de54dc8..4a3e8f1 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -153,7 +153,6 @@ def _check_value_ranges(cfg: DotMap):
         raise RuntimeError(f"TRCWA_L_grid dim0 must be ordered from high to low")
 
     all_positive_list_keys = [
-        "TRCWA_L_grid",
         "PER_LAYER_THICKNESS",
         "FDTD_grid",
         "FDTD_source_position",
@@ -164,10 +163,10 @@ def _check_value_ranges(cfg: DotMap):
     ]
 
     for key in all_positive_list_keys:
-        if key in cfg.keys() and not (all(cfg[key]) > 0.0):
+        if key in cfg.keys() and not all(value > 0.0 for value in cfg[key]):
             raise RuntimeError(f"All elements in {key} must be a positive integer")
     for key in all_positive_or_zero_list_keys:
-        if not (all(cfg[key]) >= 0.0):
+        if not all(value >= 0.0 for value in cfg[key]):
             raise RuntimeError(
                 f"All elements in {key} must be a positive integer or zero"
             )
-- 
2.43.0


From 77c5ed1156046e791d0f5a143df9e1b81276b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:09 +0000
Subject: [PATCH 13/47] fix: make the TRCWA field, integral and permittivity
 outputs run on torch

The numpy to torch port left calls to functions torch does not have (isinstance,
inv, ifft2), built a tensor from a list of tensors and multiplied a 0-dim tensor
with a matrix through torch.dot, so Solve_FieldFourier, Solve_FieldOnGrid,
GetAmplitudes of inner layers, Volume_integral, Solve_ZStressTensorIntegral and
Return_eps always raised.
---
 nidn/trcwa/trcwa.py                 | 12 ++++++------
 nidn/trcwa/utils/fft_funs.py        |  2 +-
 nidn/trcwa/utils/torch_functions.py |  2 ++
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index ed537a2..b3a7fff 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -276,7 +276,7 @@ class TRCWA:
         # patterned layer
         elif self.id_list[i][0] == 1:
             if component == "zz":
-                epk = torch.inv(self.Patterned_epinv_list[self.id_list[i][2]])
+                epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
             elif component == "xy":
@@ -451,7 +451,7 @@ class TRCWA:
         ai0, bi0 = self.GetAmplitudes_noTranslate(which_layer)
         # ai, bi = self.GetAmplitudes(which_layer,z_offset)
 
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             zl = [z_offset]
         else:
             zl = z_offset
@@ -504,7 +504,7 @@ class TRCWA:
             torch.tensor: Tensor containing the field amplitudes [[Ex,Ey,Ez], [Hx,Hy,Hz]] in Fourier space for each z-offset
         """
 
-        if torch.isinstance(Nxy, type(None)):
+        if isinstance(Nxy, type(None)):
             Nxy = self.GridLayer_Nxy_list[self.id_list[which_layer][3]]
         Nx = Nxy[0]
         Ny = Nxy[1]
@@ -524,7 +524,7 @@ class TRCWA:
             hy = get_ifft(Nx, Ny, fh[1], self.G)
             hz = get_ifft(Nx, Ny, fh[2], self.G)
             eh.append([[ex, ey, ez], [hx, hy, hz]])
-        if torch.isinstance(z_offset, float) or torch.isinstance(z_offset, int):
+        if isinstance(z_offset, float) or isinstance(z_offset, int):
             eh = eh[0]
         return eh
 
@@ -862,7 +862,7 @@ def SolveInterior(which_layer, a0, bN, q_list, phi_list, kp_list, thickness_list
     )
 
     # tmp = inv(1-S12*pS21)
-    tmp = torch.inv(torch_eye(nG2) - torch_dot(S12, pS21))
+    tmp = torch.inverse(torch_eye(nG2) - torch_dot(S12, pS21))
     # ai = tmp * (S11 a0 + S12 pS22 bN)
     ai = torch_dot(tmp, torch_dot(S11, a0) + torch_dot(S12, torch_dot(pS22, bN)))
     # bi = pS21 ai + pS22 bN
@@ -989,6 +989,6 @@ def Gmeshgrid(x):
     qj = []
     for i in range(N):
         qj.append(x)
-    qj = torch.tensor(qj)
+    qj = torch.stack(qj)
     qi = torch_transpose(qj)
     return qi, qj
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index 9f8482e..ec0bf1f 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -83,5 +83,5 @@ def get_ifft(Nx, Ny, s_in, G):
         stmp[x, y] = 1.0
         s0 = s0 + s_in[i] * stmp
 
-    s_out = torch.ifft2(s0) / dN
+    s_out = torch.fft.ifft2(s0) / dN
     return s_out
diff --git a/nidn/trcwa/utils/torch_functions.py b/nidn/trcwa/utils/torch_functions.py
index cbd388d..7d17c78 100644
--- a/nidn/trcwa/utils/torch_functions.py
+++ b/nidn/trcwa/utils/torch_functions.py
@@ -71,6 +71,8 @@ def torch_dot(a, b):
         elif b.dtype == torch.cfloat or b.dtype == torch.cdouble:
             a = a.type(b.dtype)
     # to be compatible with numpy broadcasting
+    if len(a.shape) == 0 or len(b.shape) == 0:
+        return a * b
     if len(a.shape) == 2 and len(b.shape) == 1:
         return torch.mv(a, b)
     if len(a.shape) > 1:
-- 
2.43.0


From 7d3477bf5ae4f4fb2c3596e28079c206efd5b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:32 +0000
Subject: [PATCH 14/47] fix: conjugate the mode overlap in Volume_integral

abMatrix holds a_i a_j^* while Matrix_zintegral returns the integral of
mode_i^* mode_j, so cross terms between modes were conjugated and the absorbed
power of patterned layers did not match the Poynting flux.
---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index b3a7fff..930e88f 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -568,7 +568,7 @@ class TRCWA:
 
         Mt = Matrix_zintegral(q, self.thickness_list[which_layer])
         # overall
-        abM = abMatrix * Mt
+        abM = abMatrix * torch.conj(Mt)
 
         # F matrix
         Faxy = torch_dot(torch_dot(kp, phi), torch.diag(1.0 / self.omega / q))
-- 
2.43.0


From b235cc2576a7864168d30af3a0c27c9dfe5fa68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:53 +0000
Subject: [PATCH 15/47] fix: read the permittivity of Return_eps from the
 Fourier column, not the row

---
 nidn/trcwa/trcwa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 930e88f..aefa073 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -286,7 +286,7 @@ class TRCWA:
             elif component == "yy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
 
-            return get_ifft(Nx, Ny, epk[0, :], self.G)
+            return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
     def RT_Solve(self, normalize=0, byorder=0):
         """
-- 
2.43.0


From 0adf86755855c275c3fd91672bc426090fb8b848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:53 +0000
Subject: [PATCH 16/47] fix: make the parallelogramic truncation run

---
 nidn/trcwa/utils/kbloch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/trcwa/utils/kbloch.py b/nidn/trcwa/utils/kbloch.py
index fc7f0dd..1dbb54c 100644
--- a/nidn/trcwa/utils/kbloch.py
+++ b/nidn/trcwa/utils/kbloch.py
@@ -61,14 +61,14 @@ def Gsel_parallelogramic(nG, Lk1, Lk2):
     v = torch.norm(Lk2)
     uv = torch.dot(Lk1, Lk2)
 
-    NGroot = int(torch.sqrt(nG))
-    if torch.mod(NGroot, 2) == 0:
+    NGroot = int(np.sqrt(nG))
+    if NGroot % 2 == 0:
         NGroot -= 1
 
     M = NGroot // 2
 
     xG = range(-M, NGroot - M)
-    G1, G2 = torch.meshgrid(xG, xG, indexing="ij")
+    G1, G2 = torch.meshgrid(torch.tensor(xG), torch.tensor(xG), indexing="ij")
     G1 = G1.flatten()
     G2 = G2.flatten()
 
-- 
2.43.0


From 330f819ed6aca716b78b8d9df7a4b883d3b82ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 17/47] fix: add the ricker pulse of a point source

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index 6713223..df9ea76 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -112,7 +112,7 @@ class PointSource:
             # By experimental value, the ricker wavelet signal converges to zero after 6 times the grid points per wavelength, so just set the source-signal to zero after this
             t1 = self.grid_points_per_wavelength * 6
             if q < t1:
-                vsrcect = self.amplitude * _ricker(
+                src = self.amplitude * _ricker(
                     q, self.grid_points_per_wavelength, 1, self.courant
                 )
             else:
-- 
2.43.0


From 357f51b018fdfbc7ecd181a4e348a4a9fddf00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 18/47] fix: name the current detector of a named
 SoftArbitraryPointSource

---
 nidn/fdtd/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index df9ea76..b061ac1 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -616,7 +616,7 @@ class SoftArbitraryPointSource:
         self.x, self.y, self.z = grid._handle_tuple((x, y, z))
 
         if self.name is not None:
-            detector_name += "_I"
+            detector_name = self.name + "_I"
         else:
             detector_name = None
 
-- 
2.43.0


From 9758fc01028352d1c850728eb32249d25a982312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 19/47] fix: average two separate cells in CurrentDetector

---
 nidn/fdtd/detectors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index f0f9998..4bc4e48 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -454,7 +454,7 @@ class CurrentDetector:
             (self.grid.H[px, py - 1, pz - 1, FDTD_X])
             - (self.grid.H[px, py, pz - 1, FDTD_X])
         ) * self.grid.grid_spacing
-        current_vector_2 += (
+        current_vector_2 = (
             (self.grid.H[px, py, pz - 1, FDTD_Y])
             - (self.grid.H[px - 1, py, pz - 1, FDTD_Y])
         ) * self.grid.grid_spacing
-- 
2.43.0


From 50adfe628259e1b3eb3c19f8dd0234d25f5f41ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 20/47] fix: keep block and current detectors inside their
 slices

---
 nidn/fdtd/detectors.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/nidn/fdtd/detectors.py b/nidn/fdtd/detectors.py
index 4bc4e48..1b3b5e6 100644
--- a/nidn/fdtd/detectors.py
+++ b/nidn/fdtd/detectors.py
@@ -218,11 +218,11 @@ class BlockDetector:
         # convert the list-indices to slices.
         # TODO: maybe issue a warning here?
         if isinstance(x, list):
-            x = slice(x[0], x[-1], None)
+            x = slice(x[0], x[-1] + 1, None)
         if isinstance(y, list):
-            y = slice(y[0], y[-1], None)
+            y = slice(y[0], y[-1] + 1, None)
         if isinstance(z, list):
-            z = slice(z[0], z[-1], None)
+            z = slice(z[0], z[-1] + 1, None)
 
         # if we get here, we can assume slices:
         x0 = x.start if x.start is not None else 0
@@ -233,9 +233,9 @@ class BlockDetector:
         z1 = z.stop if z.stop is not None else self.grid.Nz
 
         # we can now convert these coordinates into index lists
-        x = [v.item() for v in bd.arange(x0, x1 + 1)]
-        y = [v.item() for v in bd.arange(y0, y1 + 1)]
-        z = [v.item() for v in bd.arange(z0, z1 + 1)]
+        x = [v.item() for v in bd.arange(x0, x1)]
+        y = [v.item() for v in bd.arange(y0, y1)]
+        z = [v.item() for v in bd.arange(z0, z1)]
         return x, y, z
 
     def detect_E(self):
@@ -378,11 +378,11 @@ class CurrentDetector:
         # convert the list-indices to slices.
         # TODO: maybe issue a warning here?
         if isinstance(x, list):
-            x = slice(x[0], x[-1], None)
+            x = slice(x[0], x[-1] + 1, None)
         if isinstance(y, list):
-            y = slice(y[0], y[-1], None)
+            y = slice(y[0], y[-1] + 1, None)
         if isinstance(z, list):
-            z = slice(z[0], z[-1], None)
+            z = slice(z[0], z[-1] + 1, None)
 
         # if we get here, we can assume slices:
         x0 = x.start if x.start is not None else 0
@@ -393,9 +393,9 @@ class CurrentDetector:
         z1 = z.stop if z.stop is not None else self.grid.Nz
 
         # we can now convert these coordinates into index lists
-        x = [v.item() for v in bd.arange(x0, x1 + 1)]
-        y = [v.item() for v in bd.arange(y0, y1 + 1)]
-        z = [v.item() for v in bd.arange(z0, z1 + 1)]
+        x = [v.item() for v in bd.arange(x0, x1)]
+        y = [v.item() for v in bd.arange(y0, y1)]
+        z = [v.item() for v in bd.arange(z0, z1)]
         return x, y, z
 
     def detect_E(self):
-- 
2.43.0


From 7eb324c7edbc87ace932a6e0808bfd4d343b9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 21/47] fix: return exactly num points from the backend
 linspace

---
 nidn/fdtd/backend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nidn/fdtd/backend.py b/nidn/fdtd/backend.py
index 08d72f1..c69eaf4 100644
--- a/nidn/fdtd/backend.py
+++ b/nidn/fdtd/backend.py
@@ -147,7 +147,7 @@ if TORCH_AVAILABLE:
             delta = (stop - start) / float(num - float(endpoint))
             if not delta:
                 return self.array([start] * num)
-            return torch.arange(start, stop + 0.5 * float(endpoint) * delta, delta)
+            return start + delta * torch.arange(num)
 
         arange = staticmethod(torch.arange)
         """ create a range of values """
@@ -208,9 +208,7 @@ if TORCH_AVAILABLE:
                 delta = (stop - start) / float(num - float(endpoint))
                 if not delta:
                     return self.array([start] * num)
-                return torch.arange(
-                    start, stop + 0.5 * float(endpoint) * delta, delta, device="cuda"
-                )
+                return start + delta * torch.arange(num, device="cuda")
 
 
 ## Default Backend
-- 
2.43.0


From 7a7400085a87eddfb61524917f73dcbf6e089ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 22/47] fix: leave the passed signals of the coefficient
 computation untouched

---
 .../calculate_transmission_reflection_coefficients.py         | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 723e9d3..5b47345 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -26,6 +26,10 @@ def calculate_transmission_reflection_coefficients(
     _check_for_all_zero_signal(transmission_signals)
     _check_for_all_zero_signal(reflection_signals)
 
+    # Work on copies, the signals of the caller stay untouched
+    transmission_signals = list(transmission_signals)
+    reflection_signals = list(reflection_signals)
+
     # Eliminate transient part of the signal
     transmission_signals[0] = _eliminate_transient_part(
         transmission_signals[0], wavelength, cfg, is_freespace=True
-- 
2.43.0


From 67344e991f437ba1ad044c012eeb21979ef0917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 23/47] fix: reject NaN permittivities in the FDTD solver like
 in TRCWA

---
 nidn/fdtd_integration/compute_spectrum_fdtd.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/compute_spectrum_fdtd.py b/nidn/fdtd_integration/compute_spectrum_fdtd.py
index 772ed26..6f87d56 100644
--- a/nidn/fdtd_integration/compute_spectrum_fdtd.py
+++ b/nidn/fdtd_integration/compute_spectrum_fdtd.py
@@ -22,9 +22,15 @@ def compute_spectrum_fdtd(permittivity, cfg: DotMap):
         permitivity (torch.tensor): Array of permittivity for each layer
         cfg (DotMap): Configurations needed to perform the simulations
 
+    Raises:
+        ValueError: Raises an error if permittivity contains NaN values
+
     Returns:
-        tuple[array, array]: Transmission spectrum and reflection spectrum
+        tuple[array, array]: Reflection spectrum and transmission spectrum
     """
+    if torch.any(torch.isnan(permittivity)):
+        raise ValueError("Model output became NaN...", permittivity)
+
     transmission_spectrum = []
     reflection_spectrum = []
     physical_wavelengths, _ = get_frequency_points(cfg)
-- 
2.43.0


From 1d9dd8152f2adef029c2c50123efffab94c7ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:49 +0000
Subject: [PATCH 24/47] fix: reject unknown solvers in the config

---
 nidn/utils/validate_config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 4a3e8f1..25a1a55 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -147,6 +147,9 @@ def _check_value_ranges(cfg: DotMap):
     if cfg.type != "classification" and cfg.type != "regression":
         raise RuntimeError(f"type must be either 'classification' or 'regression'")
 
+    if cfg.solver != "TRCWA" and cfg.solver != "FDTD":
+        raise RuntimeError(f"solver must be either 'TRCWA' or 'FDTD'")
+
     if not cfg.TRCWA_L_grid[1][0] < cfg.TRCWA_L_grid[1][1]:
         raise RuntimeError(f"TRCWA_L_grid dim1 must be ordered from low to high")
     if not cfg.TRCWA_L_grid[0][0] > cfg.TRCWA_L_grid[0][1]:
-- 
2.43.0


From a7191e3cefabc053e98741c987728b0f142586fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:09 +0000
Subject: [PATCH 25/47] fix: reset the boundaries together with the grid

---
 nidn/fdtd/boundaries.py | 10 ++++++++++
 nidn/fdtd/grid.py       |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/nidn/fdtd/boundaries.py b/nidn/fdtd/boundaries.py
index 4e92aa0..ac2c053 100644
--- a/nidn/fdtd/boundaries.py
+++ b/nidn/fdtd/boundaries.py
@@ -104,6 +104,9 @@ class Boundary:
             this method is called *after* the grid fields are updated
         """
 
+    def reset(self):
+        """Forget the fields of previous timesteps"""
+
     def __repr__(self):
         return f"PML(name={repr(self.name)})"
 
@@ -395,6 +398,13 @@ class PML(Boundary):
             / (self.sigmaH * self.k + self.a * self.k**2)
         )
 
+    def reset(self):
+        """Forget the convolutions of previous timesteps"""
+        for name in ("phi_E", "psi_Ex", "psi_Ey", "psi_Ez"):
+            setattr(self, name, bd.zeros(self.phi_E.shape))
+        for name in ("phi_H", "psi_Hx", "psi_Hy", "psi_Hz"):
+            setattr(self, name, bd.zeros(self.phi_H.shape))
+
     def update_E(self):
         """Update electric field of the grid
 
diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 4bd9001..6b2ca90 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -333,6 +333,8 @@ class Grid:
         """reset the grid by setting all fields to zero"""
         self.H *= 0.0
         self.E *= 0.0
+        for boundary in self.boundaries:
+            boundary.reset()
         self.time_steps_passed *= 0
 
     def add_source(self, name, source):
-- 
2.43.0


From da09ac6c1e9e8274f6ee95034346e3cfc02f759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:17 +0000
Subject: [PATCH 26/47] fix: drop the optimizer moments when recovering from
 NaNs

---
 nidn/training/run_training.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nidn/training/run_training.py b/nidn/training/run_training.py
index d430147..71a875f 100644
--- a/nidn/training/run_training.py
+++ b/nidn/training/run_training.py
@@ -120,6 +120,8 @@ def run_training(
                 "Setting LR to {}".format(optimizer.param_groups[0]["lr"] * 0.5)
             )
             optimizer.param_groups[0]["lr"] *= 0.5
+            # The moments may contain NaNs as well, which would break every further step
+            optimizer.state.clear()
             continue
         # Compute loss between target spectrum and
         # the one from the current network structure
-- 
2.43.0


From 00e3dd84a1508ba3acb2005cbd85d16b8cfcb935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:17 +0000
Subject: [PATCH 27/47] fix: do not overwrite runs saved within the same second

---
 nidn/training/save_run.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nidn/training/save_run.py b/nidn/training/save_run.py
index 8c6a74b..7a1e526 100644
--- a/nidn/training/save_run.py
+++ b/nidn/training/save_run.py
@@ -22,6 +22,12 @@ def save_run(run_cfg, subfolder=""):
 
     filename = "../results/" + subfolder + "/" + run_cfg.name + "_" + dt_string + "_run.pk"
 
+    # Runs saved within the same second get a counter to not overwrite each other
+    counter = 1
+    while Path(filename).exists():
+        counter += 1
+        filename = f"../results/{subfolder}/{run_cfg.name}_{dt_string}_{counter}_run.pk"
+
     logger.info("Saving run to file: {}".format(filename))
     with open(filename, "wb") as handle:
         pk.dump(run_cfg, handle, protocol=pk.HIGHEST_PROTOCOL)
-- 
2.43.0


From da3f4946e91dc09ea2a0482397118b26799fa4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:40 +0000
Subject: [PATCH 28/47] fix: apply the x and y permittivities of anisotropic
 grids to Ex and Ey

---
 nidn/trcwa/trcwa.py          | 4 ++--
 nidn/trcwa/utils/fft_funs.py | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index aefa073..fe73520 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -278,13 +278,13 @@ class TRCWA:
             if component == "zz":
                 epk = torch.inverse(self.Patterned_epinv_list[self.id_list[i][2]])
             elif component == "xx":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
+                epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
             elif component == "xy":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, self.nG :]
             elif component == "yx":
                 epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, : self.nG]
             elif component == "yy":
-                epk = self.Patterned_ep2_list[self.id_list[i][2]][self.nG :, self.nG :]
+                epk = self.Patterned_ep2_list[self.id_list[i][2]][: self.nG, : self.nG]
 
             return get_ifft(Nx, Ny, epk[:, 0], self.G)
 
diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index ec0bf1f..8f53a9f 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -15,8 +15,9 @@ def Epsilon_fft(dN, eps_grid, G):
         epsz_fft = get_conv(dN, eps_grid[2], G)
         epsinv = torch.inverse(epsz_fft)
 
-        tmp1 = torch.vstack((epsx_fft, torch.zeros_like(epsx_fft)))
-        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsy_fft))
+        # eps2 acts on (-Ey, Ex)
+        tmp1 = torch.vstack((epsy_fft, torch.zeros_like(epsx_fft)))
+        tmp2 = torch.vstack((torch.zeros_like(epsx_fft), epsx_fft))
         eps2 = torch.hstack((tmp1, tmp2))
 
     elif eps_grid[0].ndim == 1:
-- 
2.43.0


From a2b01a53127df1369bf37b045022254ceba6e496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:55 +0000
Subject: [PATCH 29/47] fix: weight Ex with Mx and Ey with My in
 Volume_integral

---
 nidn/trcwa/trcwa.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index fe73520..55e708b 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -584,8 +584,9 @@ class TRCWA:
         Mzeros = torch.zeros_like(Mx)
         Mtotal = torch.vstack(
             (
-                torch.hstack((Mx, Mzeros, Mzeros)),
-                torch.hstack((Mzeros, My, Mzeros)),
+                # F holds (-Ey, Ex, Ez)
+                torch.hstack((My, Mzeros, Mzeros)),
+                torch.hstack((Mzeros, Mx, Mzeros)),
                 torch.hstack((Mzeros, Mzeros, Mz)),
             )
         )
-- 
2.43.0


From 441ffd48a4aede6ddb3a947b9eeff4ac92c2bc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:03 +0000
Subject: [PATCH 30/47] fix: keep the gradients of vanishing Fourier
 coefficients

---
 nidn/trcwa/utils/fft_funs.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nidn/trcwa/utils/fft_funs.py b/nidn/trcwa/utils/fft_funs.py
index 8f53a9f..a76358e 100644
--- a/nidn/trcwa/utils/fft_funs.py
+++ b/nidn/trcwa/utils/fft_funs.py
@@ -30,11 +30,9 @@ def Epsilon_fft(dN, eps_grid, G):
     else:
         raise ValueError("Wrong eps_grid type")
 
-    # Set very small components to zero for torch
-    for i in range(eps2.shape[0]):
-        for j in range(eps2.shape[1]):
-            if eps2[i][j].real.abs() < 1e-14 and eps2[i][j].imag.abs() < 1e-14:
-                eps2[i][j] = 0 + 0j
+    # Set very small components to zero for torch (but keep their gradients)
+    small = (eps2.real.abs() < 1e-14) & (eps2.imag.abs() < 1e-14)
+    eps2 = torch.where(small, eps2 - eps2.detach(), eps2)
 
     return epsinv, eps2
 
-- 
2.43.0


From 442a5d12562e53929105d2a92785ae7633703d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:03 +0000
Subject: [PATCH 31/47] fix: lift degenerate modes when differentiating
 patterned layers

---
 nidn/trcwa/constants.py | 3 +++
 nidn/trcwa/trcwa.py     | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/nidn/trcwa/constants.py b/nidn/trcwa/constants.py
index 3c5c82c..5d33443 100644
--- a/nidn/trcwa/constants.py
+++ b/nidn/trcwa/constants.py
@@ -13,3 +13,6 @@ TRCWA_PLANEWAVE = {"p_amp": 0, "s_amp": 1, "p_phase": 0, "s_phase": 0}
 # Angles
 TRCWA_THETA = 0.0
 TRCWA_PHI = 0.0
+
+# Relative splitting of degenerate modes when gradients of the modes are required
+TRCWA_MODE_SPLITTING = 1e-8
diff --git a/nidn/trcwa/trcwa.py b/nidn/trcwa/trcwa.py
index 55e708b..ae98897 100644
--- a/nidn/trcwa/trcwa.py
+++ b/nidn/trcwa/trcwa.py
@@ -729,6 +729,11 @@ def SolveLayerEigensystem(omega, kx, ky, kp, ep2):
     kkT = torch_dot(k, torch_transpose(k))
     M = torch_dot(ep2, kp) - kkT
 
+    if M.requires_grad:
+        # Lift degenerate modes (e.g. of symmetric patterns), their gradients are undefined otherwise
+        split = torch.sin(torch.arange(1.0, 2 * nG + 1)) * torch.abs(M.detach()).max()
+        M = M + torch.diag(TRCWA_MODE_SPLITTING * split)
+
     q, phi = torch.linalg.eig(M)
 
     q = torch.sqrt(q)
-- 
2.43.0


From 664d311389cbccfb9e9e946922121e76833fcce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:45 +0000
Subject: [PATCH 32/47] fix: accept signals of exactly two windows in the
 transient removal

---
 .../calculate_transmission_reflection_coefficients.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
index 5b47345..2c18cf1 100644
--- a/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
+++ b/nidn/fdtd_integration/calculate_transmission_reflection_coefficients.py
@@ -313,7 +313,7 @@ def _eliminate_transient_part(signal, wavelength, cfg, is_freespace=False, plot=
 
     # Check signal is still long enough
     signal_length = len(signal)
-    if signal_length < 2 * window_size:
+    if signal_length <= 2 * window_size:
         logger.error(
             "FDTD Signal is too short to compute R,T,A. Please increase FDTD_niter in the config. Aborting transient removal."
         )
-- 
2.43.0


From eb5901733694c2ed2fcaa016734f6f7c0e020b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:31 +0000
Subject: [PATCH 33/47] fix: objects replace the absorption of objects below
 them

---
 nidn/fdtd/objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nidn/fdtd/objects.py b/nidn/fdtd/objects.py
index d85eb8d..c49a68d 100644
--- a/nidn/fdtd/objects.py
+++ b/nidn/fdtd/objects.py
@@ -87,6 +87,8 @@ class Object:
         self.grid.inverse_permittivity[
             self.x, self.y, self.z
         ] = self.inverse_permittivity
+        # an object replaces the absorption of whatever was there before
+        self.grid.absorption_factor[self.x, self.y, self.z] = 0.0
 
     def _handle_slice(self, s: ListOrSlice, max_index: int = None) -> slice:
         if isinstance(s, list):
-- 
2.43.0


From 9c73f81e167a947486574b0859c9ea38bcc6a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:31 +0000
Subject: [PATCH 34/47] fix: objects at single and negative grid indices

---
 nidn/fdtd/objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nidn/fdtd/objects.py b/nidn/fdtd/objects.py
index c49a68d..c6f8d71 100644
--- a/nidn/fdtd/objects.py
+++ b/nidn/fdtd/objects.py
@@ -93,7 +93,8 @@ class Object:
     def _handle_slice(self, s: ListOrSlice, max_index: int = None) -> slice:
         if isinstance(s, list):
             if len(s) == 1:
-                return slice(s[0], s[0] + 1, None)
+                index = s[0] if s[0] >= 0 else max_index + s[0]
+                return slice(index, index + 1, None)
             raise IndexError(
                 "One can only use slices or single indices to index the grid for an Object"
             )
@@ -201,7 +202,9 @@ class AbsorbingObject(Object):
             * self.grid.grid_spacing
             * ETA_0
         )
-        self.grid.absorption_factor[x, y, z, :] = self.absorption_factor
+        self.grid.absorption_factor[
+            self.x, self.y, self.z, :
+        ] = self.absorption_factor
 
     def update_E(self, curl_H):
         """custom update equations for inside the absorbing object
-- 
2.43.0


From b8d2a6770eb3e0d7cc83328b92d78106e308f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:46 +0000
Subject: [PATCH 35/47] fix: round negative distances to the nearest grid point

---
 nidn/fdtd/grid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 6b2ca90..ea3d8d8 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -9,6 +9,7 @@ together and where the biggest part of the calculations are done.
 
 # standard library
 import os
+from math import floor
 from os import path, makedirs, chdir, remove
 from subprocess import check_call, CalledProcessError
 from glob import glob
@@ -172,7 +173,7 @@ class Grid:
     def _handle_distance(self, distance: Number) -> int:
         """transform a distance to an integer number of gridpoints"""
         if not isinstance(distance, int):
-            return int(float(distance) / self.grid_spacing + 0.5)
+            return floor(float(distance) / self.grid_spacing + 0.5)
         return distance
 
     def _handle_time(self, time: Number) -> int:
-- 
2.43.0


From 011a05c280ff5856daa777a6011afa4699a3b44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:51 +0000
Subject: [PATCH 36/47] fix: absorbing objects inside a PML stay stable

---
 nidn/fdtd/boundaries.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nidn/fdtd/boundaries.py b/nidn/fdtd/boundaries.py
index ac2c053..9cdc060 100644
--- a/nidn/fdtd/boundaries.py
+++ b/nidn/fdtd/boundaries.py
@@ -416,6 +416,7 @@ class PML(Boundary):
             self.grid.courant_number
             * self.grid.inverse_permittivity[self.loc]
             * (self.phi_E + 1e-16)
+            / (1 + self.grid.absorption_factor[self.loc])
         )
 
     def update_H(self):
-- 
2.43.0


From ba3626d1036ba31cf644ba5e244281861b995014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 37/47] fix: plot the permittivity of runs with fewer than four
 frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 41041b2..3bf517b 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -5,15 +5,18 @@ from ..utils.convert_units import freq_to_wl
 from ..training.model.model_to_eps_grid import model_to_eps_grid
 
 
-def plot_model_grid_per_freq(run_cfg, freq_idx=[0, 1, 2, 3], save_path=None):
+def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
     """Plots the real and imaginary part of the permittivity in two separate plots for
     frequencies in target_frequencies defined by freq_idx. Optionally saves it.
 
     Args:
         run_cfg (dict): The run configuration.
-        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to [0, 1, 2, 3].
+        freq_idx (list of int): Which of the frequency indices in target_frequencies we want to plot. Defaults to None, then the first four (or fewer, if there are fewer) are plotted.
         save_path (str, optional): Folder to save the plot in. Defaults to None, then the plot will not be saved.
     """
+    if freq_idx is None:
+        freq_idx = list(range(min(4, run_cfg.N_freq)))
+
     Nx, Ny, N_layers = run_cfg.Nx, run_cfg.Ny, run_cfg.N_layers
     eps, _ = model_to_eps_grid(run_cfg.model, run_cfg)
 
-- 
2.43.0


From 45aca3cef5dd3c969a5d827b3031045579b0e9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:19 +0000
Subject: [PATCH 38/47] fix: plot the permittivity at more than four
 frequencies

---
 nidn/plots/plot_model_grid_per_freq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nidn/plots/plot_model_grid_per_freq.py b/nidn/plots/plot_model_grid_per_freq.py
index 3bf517b..6c81964 100644
--- a/nidn/plots/plot_model_grid_per_freq.py
+++ b/nidn/plots/plot_model_grid_per_freq.py
@@ -44,7 +44,9 @@ def plot_model_grid_per_freq(run_cfg, freq_idx=None, save_path=None):
 
         re_or_im_idx = 0
         for real_or_imag in [material_id_real, material_id_imag]:
-            ax = fig.add_subplot(421 + re_or_im_idx + idx * 2, projection="3d")
+            ax = fig.add_subplot(
+                max(4, len(freq_idx)), 2, 1 + re_or_im_idx + idx * 2, projection="3d"
+            )
             ax.view_init(elev=25, azim=100)
             vmin, vmax = min_eps_real, max_eps_real
             if re_or_im_idx > 0:
-- 
2.43.0


From d482069edd2b49c6e0f43320ff5d661147779896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:55 +0000
Subject: [PATCH 39/47] fix: validate the types of all training settings

---
 nidn/utils/validate_config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index 25a1a55..aafaed8 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -70,11 +70,11 @@ def _check_for_keys(cfg: DotMap):
 def _check_entry_types(cfg: DotMap):
     """Check that all entries in the config are of the correct type"""
     # fmt: off
-    integer_keys = ["Nx","Ny","N_layers","N_freq","encoding_dim","n_neurons","eps_oversampling","seed",
+    integer_keys = ["Nx","Ny","N_layers","N_freq","encoding_dim","n_neurons","hidden_layers","iterations","eps_oversampling","seed",
                     "TRCWA_NG","FDTD_niter","FDTD_gridpoints_from_material_to_detector","FDTD_min_gridpoints_per_unit_magnitude"]
-    float_keys = ["L","real_min_eps","real_max_eps","imag_min_eps","imag_max_eps","siren_omega","noise_scale","reg_loss_weight",
+    float_keys = ["L","real_min_eps","real_max_eps","imag_min_eps","imag_max_eps","siren_omega","noise_scale","reg_loss_weight","learning_rate",
                   "TRCWA_TOP_LAYER_EPS","TRCWA_BOTTOM_LAYER_EPS","FDTD_free_space_distance","FDTD_pml_thickness",]
-    boolean_keys = ["use_regularization_loss","add_noise","use_gpu","avoid_zero_eps",]
+    boolean_keys = ["use_regularization_loss","absorption_loss","add_noise","use_gpu","avoid_zero_eps",]
     string_keys = ["model_type","type","name","freq_distribution","solver","FDTD_source_type","FDTD_pulse_type",]
     list_keys = ["PER_LAYER_THICKNESS","TRCWA_L_grid","FDTD_source_position","target_reflectance_spectrum","target_transmittance_spectrum",
                  "physical_wavelength_range",]
-- 
2.43.0


From 66787dcbd454c57099cc9870a77bcc95a8d267bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:08 +0000
Subject: [PATCH 40/47] fix: refuse wavelength ranges that are not two positive
 values

---
 nidn/utils/validate_config.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nidn/utils/validate_config.py b/nidn/utils/validate_config.py
index aafaed8..fd8d164 100644
--- a/nidn/utils/validate_config.py
+++ b/nidn/utils/validate_config.py
@@ -110,6 +110,11 @@ def _check_value_ranges(cfg: DotMap):
     if not (cfg.imag_min_eps <= cfg.imag_max_eps):
         raise RuntimeError(f"imag_min_eps must be less than or equal to imag_max_eps")
 
+    if len(cfg.physical_wavelength_range) != 2 or not all(
+        wl > 0 for wl in cfg.physical_wavelength_range
+    ):
+        raise RuntimeError(f"physical_wavelength_range must be two positive values")
+
     if not (cfg.physical_wavelength_range[0] < cfg.physical_wavelength_range[1]):
         raise RuntimeError(
             f"physical_wavelength_range must be ordered from low to high"
-- 
2.43.0


From ccf565cf294501c85188d5ff8316f028bdb4d130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:04 +0000
Subject: [PATCH 41/47] fix: train regression models with noise

---
 nidn/training/model/model_to_eps_grid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nidn/training/model/model_to_eps_grid.py b/nidn/training/model/model_to_eps_grid.py
index 3145166..b626179 100644
--- a/nidn/training/model/model_to_eps_grid.py
+++ b/nidn/training/model/model_to_eps_grid.py
@@ -199,20 +199,20 @@ def _regression_model_to_eps_grid(model, run_cfg: DotMap):
 
     # Adds noise scaled to desired eps range times noise_scale
     if run_cfg.add_noise:
-        eps.real += (
+        noisy_real = eps.real + (
             (torch.randn_like(eps.real) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.real_max_eps - run_cfg.real_min_eps)
         )
-        eps.real = eps.real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
-        eps.imag += (
+        eps.real = noisy_real.clip(run_cfg.real_min_eps, run_cfg.real_max_eps)
+        noisy_imag = eps.imag + (
             (torch.randn_like(eps.imag) - 0.5)
             * 2.0
             * run_cfg.noise_scale
             * (run_cfg.imag_max_eps - run_cfg.imag_min_eps)
         )
-        eps.imag = eps.imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
+        eps.imag = noisy_imag.clip(run_cfg.imag_min_eps, run_cfg.imag_max_eps)
 
     if run_cfg.avoid_zero_eps:
         _avoid_zero_eps(eps)
-- 
2.43.0


From 3a0c2486c735cc580ec2bbee36b6f9ba604b1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:14 +0000
Subject: [PATCH 42/47] fix: visualize draws point sources of a y-projection at
 their x-position

The zx-projection used the y-coordinate of the source as its x-coordinate: the
marker was drawn and the energy blanked at the wrong cell, or the call failed
with an IndexError when y exceeded the number of cells along x.
---
 nidn/fdtd/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nidn/fdtd/visualization.py b/nidn/fdtd/visualization.py
index 50bb92d..25c38e5 100644
--- a/nidn/fdtd/visualization.py
+++ b/nidn/fdtd/visualization.py
@@ -159,7 +159,7 @@ def visualize(
                 _y = source.z
             elif y is not None:
                 _x = source.z
-                _y = source.y
+                _y = source.x
             elif z is not None:
                 _x = source.x
                 _y = source.y
-- 
2.43.0


From 599f4d7a9995ca15cc1848d872e59a0acdb15994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:14 +0000
Subject: [PATCH 43/47] fix: save_data stores current detectors and unnamed
 detectors

Detectors without a name and current detectors (which record I instead of E
and H) made save_data fail, so no readings of the grid could be stored.
---
 nidn/fdtd/grid.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index ea3d8d8..2da33e1 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -502,7 +502,8 @@ class Grid:
                 "Save location not initialized. Please read about 'fdtd.Grid.saveSimulation()' or try running 'grid.saveSimulation()'."
             )
         dic = {}
-        for detector in self.detectors:
-            dic[detector.name + " (E)"] = [x for x in detector.detector_values()["E"]]
-            dic[detector.name + " (H)"] = [x for x in detector.detector_values()["H"]]
+        for i, detector in enumerate(self.detectors):
+            name = detector.name if detector.name is not None else f"detector{i}"
+            for quantity, values in detector.detector_values().items():
+                dic[f"{name} ({quantity})"] = [x for x in values]
         savez(path.join(self.folder, "detector_readings"), **dic)
-- 
2.43.0


From 923b9803c562a61caaad22590a3301dbdef1a49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:58 +0000
Subject: [PATCH 44/47] fix: negative indices place sources and detectors at
 the end of the grid

---
 nidn/fdtd/grid.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 2da33e1..0eb9b0a 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -224,6 +224,17 @@ class Grid:
                 return [self._handle_distance(key)]
         return key
 
+    def _handle_negative_indices(self, key, size: int):
+        """transform negative indices, which count from the end of the axis"""
+        if isinstance(key, list):
+            return [k + size if k < 0 else k for k in key]
+        start, stop = key.start, key.stop
+        if start is not None and start < 0:
+            start += size
+        if stop is not None and stop < 0:
+            stop += size
+        return slice(start, stop, key.step)
+
     @property
     def x(self) -> int:
         """get the number of grid cells in the x-direction"""
@@ -370,12 +381,18 @@ class Grid:
         else:
             raise KeyError("maximum number of indices for the grid is 3")
 
-        attr._register_grid(
-            grid=self,
-            x=self._handle_single_key(x),
-            y=self._handle_single_key(y),
-            z=self._handle_single_key(z),
-        )
+        x = self._handle_single_key(x)
+        y = self._handle_single_key(y)
+        z = self._handle_single_key(z)
+        from .boundaries import Boundary  # imports the grid itself
+
+        if not isinstance(attr, Boundary):
+            # boundaries use negative indices to determine their side of the grid
+            x = self._handle_negative_indices(x, self.Nx)
+            y = self._handle_negative_indices(y, self.Ny)
+            z = self._handle_negative_indices(z, self.Nz)
+
+        attr._register_grid(grid=self, x=x, y=y, z=z)
 
     def __repr__(self):
         return (
-- 
2.43.0


From 5f8a5aeb1abb73ce0c64b403b052f3989bd41cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:38 +0000
Subject: [PATCH 45/47] fix: generate_video reports a failing ffmpeg and
 restores the working directory

---
 nidn/fdtd/grid.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nidn/fdtd/grid.py b/nidn/fdtd/grid.py
index 0eb9b0a..e87bda9 100644
--- a/nidn/fdtd/grid.py
+++ b/nidn/fdtd/grid.py
@@ -494,9 +494,12 @@ class Grid:
                     "fdtd_sim_video_" + self.full_sim_name + ".mp4",
                 ]
             )
-        except (FileNotFoundError, CalledProcessError):
+        except (FileNotFoundError, CalledProcessError) as error:
+            chdir(cwd)
             raise CalledProcessError(
-                "Error when calling ffmpeg. Is ffmpeg installed and available in your path?"
+                getattr(error, "returncode", 1),
+                "ffmpeg",
+                "Error when calling ffmpeg. Is ffmpeg installed and available in your path?",
             )
         if delete_frames:  # delete frames
             for file_name in glob("*.png"):
-- 
2.43.0


From 46be08133a88e73b6ce5163153b01167c634c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:59 +0000
Subject: [PATCH 46/47] fix: periodic boundaries are listed as such

---
 nidn/fdtd/boundaries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nidn/fdtd/boundaries.py b/nidn/fdtd/boundaries.py
index 9cdc060..953c1c9 100644
--- a/nidn/fdtd/boundaries.py
+++ b/nidn/fdtd/boundaries.py
@@ -142,6 +142,9 @@ class PeriodicBoundary(Boundary):
         position in the grid.
     """
 
+    def __repr__(self):
+        return f"PeriodicBoundary(name={repr(self.name)})"
+
     def _register_grid(
         self, grid: Grid, x: ListOrSlice, y: ListOrSlice, z: ListOrSlice
     ):
-- 
2.43.0


From 26e36d711aed2f2902254cf04c55898e1fad6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:23 +0000
Subject: [PATCH 47/47] fix: a line source on a single cell is refused

---
 nidn/fdtd/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nidn/fdtd/sources.py b/nidn/fdtd/sources.py
index b061ac1..5e29cc7 100644
--- a/nidn/fdtd/sources.py
+++ b/nidn/fdtd/sources.py
@@ -246,6 +246,10 @@ class LineSource:
                 raise IndexError(
                     "sources require grid to be indexed with slices or equal length list-indices"
                 )
+            if len(x) < 2:
+                raise ValueError(
+                    "a LineSource should consist of at least two gridpoints"
+                )
             x = [self.grid._handle_distance(_x) for _x in x]
             y = [self.grid._handle_distance(_y) for _y in y]
             z = [self.grid._handle_distance(_z) for _z in z]
-- 
2.43.0

