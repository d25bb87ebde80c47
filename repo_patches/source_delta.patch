From a90f924f2425254df77fe4321e2167ac9a43ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 01/50] fix: calibrate() without a learnable spectrum crashed
 reporting p and q

---
 drdmannturb/spectra_fitting/calibration.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 55ce139..65743c0 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -499,8 +499,9 @@ class CalibrationProblem:
             print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
             print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
             print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
-            print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
-            print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
+            if self.prob_params.use_learnable_spectrum:
+                print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
+                print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
 
             if not (torch.isfinite(self.loss)):
                 raise RuntimeError("Loss is not a finite value, check initialization and learning hyperparameters.")
-- 
2.43.0


From 4d370499f7a5fe455f6f5b260ba1a5726c3e382a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 02/50] fix: OnePointSpectra stored log10 scales but
 exponentiated them with base e

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 99baa85..eb0f26f 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -137,13 +137,10 @@ class OnePointSpectra(nn.Module):
 
             self.coh_meshgrid23 = torch.meshgrid(self.coh_grid_k2, self.coh_grid_k3, indexing="ij")
 
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L)))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma)))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma)))
-
-        self.logLengthScale = nn.Parameter(torch.tensor(np.log10(physical_params.L), dtype=torch.get_default_dtype()))
-        self.logTimeScale = nn.Parameter(torch.tensor(np.log10(physical_params.Gamma), dtype=torch.get_default_dtype()))
-        self.logMagnitude = nn.Parameter(torch.tensor(np.log10(physical_params.sigma), dtype=torch.get_default_dtype()))
+        # NOTE: natural logarithms, consistent with exp_scales()
+        self.logLengthScale = nn.Parameter(torch.tensor(np.log(physical_params.L), dtype=torch.get_default_dtype()))
+        self.logTimeScale = nn.Parameter(torch.tensor(np.log(physical_params.Gamma), dtype=torch.get_default_dtype()))
+        self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma), dtype=torch.get_default_dtype()))
 
         if use_learnable_spectrum:
             self.p_exponent = nn.Parameter(torch.tensor(p_exponent))
-- 
2.43.0


From 26aebc6782d3deed0fc493b82a1918257d5ae06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 03/50] fix: MANN_APPROX surrogate applied the length and time
 scales twice

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index eb0f26f..74f4081 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -440,7 +440,8 @@ class OnePointSpectra(nn.Module):
         kL_temp = np.logspace(-3, 3, 50)
 
         kL_temp = kL_temp.reshape(-1, 1)
-        tau_true = np.log(self.TimeScale_scalar * MannEddyLifetime(self.LengthScale_scalar * kL_temp))
+        # NOTE: L and Gamma are applied in EddyLifetime(), so the surrogate is for the bare function of kL
+        tau_true = np.log(MannEddyLifetime(kL_temp))
 
         kL_temp_log = np.log(kL_temp)
 
-- 
2.43.0


From 2d8d8dd60fda21ec5332869f98e0baeb62f3c947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 04/50] fix: init_with_noise referenced modules that do not
 exist and always crashed

---
 drdmannturb/spectra_fitting/calibration.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 65743c0..c1b1d18 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -208,14 +208,8 @@ class CalibrationProblem:
 
     def initialize_parameters_with_noise(self):
         """Introduce additive white noise to the OPS parameters."""
-        noise = torch.tensor(
-            self.noise_magnitude * torch.randn(*self.parameters.shape),
-        )
-        vector_to_parameters(noise.abs(), self.OPS.parameters())
-
-        vector_to_parameters(noise, self.OPS.tauNet.parameters())
-
-        vector_to_parameters(noise.abs(), self.OPS.Corrector.parameters())
+        params = parameters_to_vector(self.OPS.parameters()).detach()
+        self.parameters = params + self.noise_magnitude * torch.randn_like(params)
 
     def eval(self, k1: torch.Tensor) -> np.ndarray:
         r"""Evaluate the calibrated model on :math:`k_1`.
-- 
2.43.0


From 6b22c0fb6af26245e8ecada895e472a25cb7f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:55 +0000
Subject: [PATCH 05/50] fix: loading a parameter vector aliased the caller's
 tensor and changed the model's precision

---
 drdmannturb/spectra_fitting/calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index c1b1d18..b50ab34 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -193,6 +193,10 @@ class CalibrationProblem:
                 "p_low/q_high when use_learnable_spectrum is True."
             )
 
+        # Copy in the model's own precision: vector_to_parameters stores views of the vector it is given
+        reference = next(self.OPS.parameters())
+        param_vec = param_vec.detach().to(device=reference.device, dtype=reference.dtype, copy=True)
+
         vector_to_parameters(param_vec, self.OPS.parameters())
 
     def log_dimensional_scales(self) -> None:
-- 
2.43.0


From 9837e8b1fd67fb1740d764bb6183497c365eb55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 06/50] fix: sheared kernels dropped the distortion of the k1 =
 0 modes

---
 drdmannturb/fluctuation_generation/covariance_kernels.py | 1 +
 drdmannturb/fluctuation_generation/nn_covariance.py      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/drdmannturb/fluctuation_generation/covariance_kernels.py b/drdmannturb/fluctuation_generation/covariance_kernels.py
index 097d5e1..d80931f 100644
--- a/drdmannturb/fluctuation_generation/covariance_kernels.py
+++ b/drdmannturb/fluctuation_generation/covariance_kernels.py
@@ -225,6 +225,7 @@ class MannCovariance(Covariance):
             C2 = k2 * kk0 / s ** (3 / 2) * np.arctan2(numerator, denominator)
 
             zeta1 = C1 - k2 / k1 * C2
+            zeta1 = np.where(k1 == 0, -beta, zeta1)  # limit of zeta1 as k1 -> 0
             zeta2 = k2 / k1 * C1 + C2
             zeta3 = kk0 / kk
 
diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 88357ce..2a2004e 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -149,6 +149,7 @@ class NNCovariance(Covariance):
             C2 = k2 * kk0 / s ** (3 / 2) * np.arctan2(numerator, denominator)
 
             zeta1 = C1 - k2 / k1 * C2
+            zeta1 = np.where(k1 == 0, -beta, zeta1)  # limit of zeta1 as k1 -> 0
             zeta2 = k2 / k1 * C1 + C2
             zeta3 = kk0 / kk
 
-- 
2.43.0


From 13a32c663c4e00593e02311f305790b112fd0717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 07/50] fix: DRD kernel failed on precision mismatch and
 evaluated the eddy lifetime at the wrong scale

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 2a2004e..b0ea790 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -113,9 +113,10 @@ class NNCovariance(Covariance):
         kk = np.sum(k**2, axis=0)
 
         with np.errstate(divide="ignore", invalid="ignore"):
-            k_torch = torch.tensor(np.moveaxis(k, 0, -1)) * self.h_ref
+            # NOTE: as in OnePointSpectra.EddyLifetime, the network acts on the wavevector scaled by the length scale
+            k_torch = torch.tensor(np.moveaxis(k, 0, -1) * self.L, dtype=self.OPS.logLengthScale.dtype)
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
-            beta = beta_torch.detach().cpu().numpy() if beta_torch.is_cuda else beta_torch.detach().numpy()
+            beta = beta_torch.detach().cpu().numpy().astype(k.dtype)
             beta[np.where(kk == 0)] = 0
 
             k1 = k[0, ...]
-- 
2.43.0


From c3d809d11b6bebe3812ce66899ba697054a2eba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 08/50] fix: DRD generator rescaled the fitted spectrum
 amplitude by a stale factor

---
 .../fluctuation_generation/fluctuation_field_generator.py        | 1 -
 1 file changed, 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index d631464..6ef45dc 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -148,7 +148,6 @@ class FluctuationFieldGenerator:
             L, T, M = pb.OPS.exp_scales()
 
             # Calculate final parameters
-            M = (4 * np.pi) * L ** (-5 / 3) * M
             print("Scales: ", [L, T, M])
             E0 = M * friction_velocity**2 * reference_height ** (-2 / 3)
             L *= reference_height
-- 
2.43.0


From 9c00b9b11dc51d27a86ca00f14078217dc70a39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:09 +0000
Subject: [PATCH 09/50] fix: a zero time scale produced empty blocks

---
 .../fluctuation_generation/fluctuation_field_generator.py       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 6ef45dc..2602bfa 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -198,7 +198,7 @@ class FluctuationFieldGenerator:
         ]
         self.new_part_shape = [Nx, Ny + margin_extension[0], Nz + margin_extension[1], 3]
         self.central_part = [
-            slice(self.n_buffer, -self.n_buffer),
+            slice(self.n_buffer, self.noise_shape[0] - self.n_buffer),
             slice(self.n_margin_y, -self.n_margin_y),
             slice(0, -2 * self.n_margin_z),
             slice(None),
-- 
2.43.0


From e93b7e42c08c4a6767d755e003aae26611f0f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 10/50] fix: DRD kernel ignored the fitted exponents of a
 learnable energy spectrum

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index b0ea790..867e618 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -129,7 +129,13 @@ class NNCovariance(Covariance):
             #### Isotropic with k0
 
             const = self.E0 * (self.L ** (17 / 3)) / (4 * np.pi)
-            const = np.sqrt(const / (1 + (self.L**2) * kk0) ** (17 / 6))
+            if self.OPS.use_learnable_spectrum:
+                p, q = self.OPS.p_exponent.item(), self.OPS.q_exponent.item()
+                k0L_sq = (self.L**2) * kk0
+                const = np.sqrt(const * k0L_sq ** (p / 2 - 2) / (1 + k0L_sq) ** q)
+                const[kk0 == 0] = 0
+            else:
+                const = np.sqrt(const / (1 + (self.L**2) * kk0) ** (17 / 6))
 
             # to enforce zero mean in the x-direction:
             # const[k1 == 0] = 0.0
-- 
2.43.0


From 0c6af0712fa7b6395e17deb2babfe8883dce0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 11/50] fix: appending blocks restarted the low-frequency field
 at x = 0

---
 .../fluctuation_generation/fluctuation_field_generator.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 2602bfa..5bc3de6 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -216,6 +216,7 @@ class FluctuationFieldGenerator:
         #   - Also, total_fluctuation is the "accumulator" for generated blocks
         self.noise = None
         self.total_fluctuation = np.zeros([0, Ny, Nz, 3])
+        self.num_blocks_generated = 0
 
         CovarianceType = Union[
             type[VonKarmanCovariance],
@@ -449,7 +450,7 @@ class FluctuationFieldGenerator:
                 # --- X-Coordinates (blocks progress in x-direction
                 current_block_nx = normed_block.shape[0]
                 block_length_x = self.grid_dimensions[0] * (current_block_nx / self.Nx)
-                x_start = i * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
+                x_start = self.num_blocks_generated * self.grid_dimensions[0]  # TODO: Revisit if blending affects block start/end precisely
                 x_end = x_start + block_length_x
                 x_coords_block_target = np.linspace(x_start, x_end, current_block_nx, endpoint=False)
 
@@ -499,6 +500,7 @@ class FluctuationFieldGenerator:
 
             # --- Concatenate block ---
             self.total_fluctuation = np.concatenate((self.total_fluctuation, normed_block), axis=0)
+            self.num_blocks_generated += 1
 
         return self.total_fluctuation
 
-- 
2.43.0


From 44c866bb0a65ede6cb29b5b2c0dfe1926ae629f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 12/50] fix: the seed did not determine the low-frequency part
 of a 2D+3D field

---
 .../fluctuation_generation/fluctuation_field_generator.py | 2 +-
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 5bc3de6..3bdf2b4 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -252,7 +252,7 @@ class FluctuationFieldGenerator:
 
         self.low_freq_gen: LowFreqGenerator | None = None
         if config_2d_model is not None:
-            self.low_freq_gen = LowFreqGenerator(config_2d_model)
+            self.low_freq_gen = LowFreqGenerator(config_2d_model, seed=self.seed)
 
             print("Generating low-frequency field...")
 
diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3bccb57..3358a3d 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -84,7 +84,7 @@ class LowFreqGenerator:
 
     """
 
-    def __init__(self, config: dict):
+    def __init__(self, config: dict, seed: int | None = None):
         """
         Initialize the LowFreqGenerator instance.
 
@@ -95,7 +95,11 @@ class LowFreqGenerator:
         ----------
         config : dict
             Configuration dictionary. See class docstring for required keys.
+        seed : int, optional
+            Pseudo-random number generator seed. By default None, which draws from NumPy's global generator.
         """
+        self.prng = np.random if seed is None else np.random.default_rng(seed)
+
         # Physical parameters
         self.sigma2 = config["sigma2"]
         self.L_2d = config["L_2d"]
@@ -484,7 +488,7 @@ class LowFreqGenerator:
             The u2 component of the velocity field, extracted to match user dimensions.
         """
         # 1. Generate noise on the computational grid
-        noise = np.random.normal(0, 1, size=(self.comp_N1, self.comp_N2))
+        noise = self.prng.normal(0, 1, size=(self.comp_N1, self.comp_N2))
         # 2. Compute its Fourier transform
         noise_hat = np.fft.fft2(noise)
 
-- 
2.43.0


From 36a994925b576404a664f41cafd135104b7619b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 13/50] fix: estimated 2D spectra were zero at the Nyquist
 wavenumber

---
 .../low_frequency/fluctuation_field_generator.py                 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 3358a3d..061d30b 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -710,6 +710,7 @@ class LowFreqGenerator:
 
         # Define wavenumbers corresponding to the user grid
         k1_fft_user = 2 * np.pi * np.fft.fftfreq(self.user_N1, self.user_dx)
+        k1_fft_user[self.user_N1 // 2] *= -1  # fftfreq reports the Nyquist wavenumber as negative
         k2_fft_user = 2 * np.pi * np.fft.fftfreq(self.user_N2, self.user_dy)
         k1_user, k2_user = np.meshgrid(k1_fft_user, k2_fft_user, indexing="ij")
 
-- 
2.43.0


From 055d2c2233616f3647e69d8a24c22816682105c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:35 +0000
Subject: [PATCH 14/50] fix: analytical 2D spectra missed the peak of the
 integrand

---
 .../low_frequency/fluctuation_field_generator.py         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 061d30b..2a36788 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -848,6 +848,11 @@ class LowFreqGenerator:
         integration_limit = abs(k2_limit)  # Ensure positive limit
         quad_kwargs = {"limit": 100, "epsabs": 1.49e-08, "epsrel": 1.49e-08}
 
+        def _breakpoints(k1: float) -> list[float]:
+            """Locate the scales of the integrand, which are many orders of magnitude below the integration limit."""
+            scales = (abs(k1), 1.0 / _L_2d, 1.0 / _z_i)
+            return [sign * s for s in scales for sign in (-1.0, 1.0) if s < integration_limit]
+
         if warn:
             print(f"Using integration limits for k2: [-{integration_limit:.2e}, {integration_limit:.2e}]")
 
@@ -862,7 +867,7 @@ class LowFreqGenerator:
 
             try:
                 F11_res_arr[i], F11_err_arr[i] = integrate.quad(
-                    _integrand11, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
+                    _integrand11, -integration_limit, integration_limit, args=(k1_val,), points=_breakpoints(k1_val), **quad_kwargs
                 )
                 # Check for large relative error estimate
                 if warn and abs(F11_res_arr[i]) > 1e-12 and F11_err_arr[i] > 0.1 * abs(F11_res_arr[i]):
@@ -876,7 +881,7 @@ class LowFreqGenerator:
 
             try:
                 F22_res_arr[i], F22_err_arr[i] = integrate.quad(
-                    _integrand22, -integration_limit, integration_limit, args=(k1_val,), **quad_kwargs
+                    _integrand22, -integration_limit, integration_limit, args=(k1_val,), points=_breakpoints(k1_val), **quad_kwargs
                 )
                 # Check for large relative error estimate
                 if warn and abs(F22_res_arr[i]) > 1e-12 and F22_err_arr[i] > 0.1 * abs(F22_res_arr[i]):
-- 
2.43.0


From 6d9bc240499f6c35330c3960f85d9d7e072ff2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 15/50] fix: the 2D spectrum normalization failed for very
 large length scales

---
 .../low_frequency/fluctuation_field_generator.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 2a36788..9bdc6d0 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -276,7 +276,8 @@ class LowFreqGenerator:
 
             return (kappa**3) / denominator
 
-        integral_val, integral_err = integrate.quad(integrand_shape, 0, np.inf)
+        # Integrate in units of 1 / L_2d, where the integrand has its peak
+        integral_val, integral_err = integrate.quad(lambda x: integrand_shape(x / L_2d) / L_2d, 0, np.inf)
 
         if integral_val < 1e-16:
             raise ValueError(
-- 
2.43.0


From 7eff13247ce6947810bc3987dbe9f0123f1f9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 16/50] fix: __all__ listed names that do not exist, breaking
 star imports

---
 drdmannturb/__init__.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/drdmannturb/__init__.py b/drdmannturb/__init__.py
index be1d430..b0523f1 100644
--- a/drdmannturb/__init__.py
+++ b/drdmannturb/__init__.py
@@ -80,15 +80,8 @@ __all__ = [
     "format_wind_field",
     "plot_velocity_components",
     "plot_velocity_magnitude",
-    # Interpolation
-    "extract_x_spectra",
-    "interp_spectra",
-    "interpolate",
     # NN Modules
-    "CustomMLP",
-    "CustomNet",
     "Rational",
-    "SimpleNN",
     "TauNet",
     # Parameters
     "IntegrationParameters",
-- 
2.43.0


From 964ed5ceaa5eeef5535d407f37b711952435e2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 17/50] fix: DomainParameters could not be constructed

---
 drdmannturb/parameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 43e198d..9659614 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.grid_levels, (list, np.ndarray)) and len(self.grid_levels) != 3:
+        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From 6c24a202f67b2c51038eedae86fb8b5ae2a12600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 18/50] fix: coherence data was misplaced unless rows were
 sorted and indices contiguous

---
 drdmannturb/spectra_fitting/calibration.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index b50ab34..d73b2ab 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1209,12 +1209,11 @@ class CalibrationProblem:
 
             # Fill in the available data
             for _, row in df.iterrows():
-                i = int(row["sep_idx"])
-                j = int(row["freq_idx"])
-                if i < n_seps and j < n_freqs:
-                    coh_u[i, j] = row["coh_u"]
-                    coh_v[i, j] = row["coh_v"]
-                    coh_w[i, j] = row["coh_w"]
+                i = sep_mapping.index.get_loc(row["sep_idx"])
+                j = freq_mapping.index.get_loc(row["freq_idx"])
+                coh_u[i, j] = row["coh_u"]
+                coh_v[i, j] = row["coh_v"]
+                coh_w[i, j] = row["coh_w"]
 
             # Check how many NaN values we have
             nan_count = np.sum(np.isnan(coh_u))
@@ -1223,6 +1222,7 @@ class CalibrationProblem:
         else:
             # We have complete data, can reshape normally
             print("Complete data grid detected")
+            df = df.sort_values(["sep_idx", "freq_idx"])
             coh_u = df["coh_u"].values.reshape(n_seps, n_freqs)
             coh_v = df["coh_v"].values.reshape(n_seps, n_freqs)
             coh_w = df["coh_w"].values.reshape(n_seps, n_freqs)
-- 
2.43.0


From 73848fb28ef2580cfbd2949197f813fea9bc6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 19/50] fix: the model coherence kept after calibration was
 that of the initial model

---
 drdmannturb/spectra_fitting/calibration.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index d73b2ab..9a07afc 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -528,6 +528,10 @@ class CalibrationProblem:
                     loss_info = self.LossAggregator.get_current_loss_info()
                     print(f"  MSE/Coherence ratio: {loss_info.get('mse_coherence_ratio', 0):.2f}")
 
+        # Coherence of the calibrated model, for later use in plotting
+        if self.has_coherence_data:
+            self.model_coherence_u, self.model_coherence_v, self.model_coherence_w = self._compute_model_coherence()
+
         print("=" * 40)
         print(f"Spectra fitting concluded with final loss: {self.loss.item()}")
 
-- 
2.43.0


From ec1af80e16048f72918382ad792da2ebfbade9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 20/50] fix: plot() swapped the 23 and 12 data panels of a
 six-component fit

---
 drdmannturb/spectra_fitting/calibration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 9a07afc..53291c8 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -826,7 +826,7 @@ class CalibrationProblem:
 
             k1_data_pts = self.data["k1"]
 
-            # Use the same flattening logic as in calibrate() method
+            # Flatten in the data order above
             data_ops = self.data["ops"]
 
             if self.prob_params.num_components == 3:
@@ -853,8 +853,8 @@ class CalibrationProblem:
                         data_ops[:, 1, 1],  # vv
                         data_ops[:, 2, 2],  # ww
                         data_ops[:, 0, 2],  # uw
-                        data_ops[:, 1, 2],  # vw
                         data_ops[:, 0, 1],  # uv
+                        data_ops[:, 1, 2],  # vw
                     )
                 )
 
-- 
2.43.0


From a028282d35a8a7874f777e5d3b7971f5d28c31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 21/50] fix: spectral coherence depended on the first call and
 ignored the integration parameters

---
 .../spectra_fitting/one_point_spectra.py      | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 74f4081..396aeac 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -105,6 +105,7 @@ class OnePointSpectra(nn.Module):
 
         if integration_params is None:
             integration_params = IntegrationParameters()
+        self.integration_params = integration_params
 
         ####
         # OPS grid
@@ -279,23 +280,23 @@ class OnePointSpectra(nn.Module):
             Shape: (3, n_separations, n_frequencies)
         """
         self.exp_scales()
-        if not hasattr(self, "coh_grid_k2") or not hasattr(self, "coh_grid_k3"):
-            p1, p2, N_coh = -3, 3, 100
+        if hasattr(self, "coh_grid_k2") and hasattr(self, "coh_grid_k3"):
+            coh_grid_k2, coh_grid_k3 = self.coh_grid_k2, self.coh_grid_k3
+        else:
+            p1, p2 = self.integration_params.coh_log_min, self.integration_params.coh_log_max
+            N_coh = self.integration_params.coh_num_points
             grid_zero_coh = torch.tensor([0], dtype=torch.get_default_dtype())
             grid_plus_coh = torch.logspace(p1, p2, N_coh)
             grid_minus_coh = -torch.flip(grid_plus_coh, dims=[0])
 
             # Scale the grid by 1/L to get proper physical units
-            scale_factor = 1.0 / self.LengthScale
-
-            self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
-            self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
+            scale_factor = 1.0 / self.LengthScale.detach()
 
-            # self.coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach()
-            # self.coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach()
+            coh_grid_k2 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
+            coh_grid_k3 = torch.cat((grid_minus_coh, grid_zero_coh, grid_plus_coh)).detach() * scale_factor
 
         # Create coherence-specific k-space grid
-        coh_k = torch.stack(torch.meshgrid(k1_input, self.coh_grid_k2, self.coh_grid_k3, indexing="ij"), dim=-1)
+        coh_k = torch.stack(torch.meshgrid(k1_input, coh_grid_k2, coh_grid_k3, indexing="ij"), dim=-1)
 
         # Calculate eddy lifetime on coherence grid
         beta_coh = self.EddyLifetime(coh_k)
-- 
2.43.0


From b0a772a97e9f8812dd20620fb3125d7c74758f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:24 +0000
Subject: [PATCH 22/50] fix: exported VTK files had an unreadable spacing and
 paths were rejected

---
 .../fluctuation_generation/fluctuation_field_generator.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 3bdf2b4..5743881 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -514,7 +514,7 @@ class FluctuationFieldGenerator:
         """
         from pyevtk.hl import imageToVTK
 
-        spacing = tuple(self.grid_dimensions / (2.0**self.grid_levels + 1))
+        spacing = tuple(float(h) for h in self.grid_dimensions / (2.0**self.grid_levels + 1))
 
         wind_field_vtk = tuple([np.copy(self.total_fluctuation[..., i], order="C") for i in range(3)])
 
@@ -523,7 +523,7 @@ class FluctuationFieldGenerator:
             "wind": wind_field_vtk,
         }
 
-        imageToVTK(filepath, cellData=cellData, spacing=spacing)
+        imageToVTK(str(filepath), cellData=cellData, spacing=spacing)
 
     def evaluate_divergence(self, spacing: tuple | np.ndarray, field: np.ndarray | None = None) -> np.ndarray:
         r"""Evaluate the point-wise divergence of a generated fluctuation vector field.
-- 
2.43.0


From a17fa276a3c5c35240e0f5d9947460e5bf264dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:36 +0000
Subject: [PATCH 23/50] fix: analytical 2D spectra lost accuracy far from the
 integrand's scales

---
 .../low_frequency/fluctuation_field_generator.py         | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 9bdc6d0..318db43 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -850,9 +850,12 @@ class LowFreqGenerator:
         quad_kwargs = {"limit": 100, "epsabs": 1.49e-08, "epsrel": 1.49e-08}
 
         def _breakpoints(k1: float) -> list[float]:
-            """Locate the scales of the integrand, which are many orders of magnitude below the integration limit."""
-            scales = (abs(k1), 1.0 / _L_2d, 1.0 / _z_i)
-            return [sign * s for s in scales for sign in (-1.0, 1.0) if s < integration_limit]
+            """Cover the scales of the integrand, which are many orders of magnitude below the integration limit."""
+            smallest = 0.1 * min(abs(k1), 1.0 / _L_2d, 1.0 / _z_i)
+            if smallest >= integration_limit:
+                return []
+            positive = np.geomspace(smallest, integration_limit, 24)[:-1]
+            return [*-positive, *positive]
 
         if warn:
             print(f"Using integration limits for k2: [-{integration_limit:.2e}, {integration_limit:.2e}]")
-- 
2.43.0


From b8b8f1f6dacdca54f34930607846212d0788355a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 24/50] fix: plot() without any data raises the documented
 ValueError

---
 drdmannturb/spectra_fitting/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 53291c8..98b171f 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -821,7 +821,7 @@ class CalibrationProblem:
                 )
 
         else:
-            if self.data is None:
+            if getattr(self, "data", None) is None:
                 raise ValueError("Requires data set to plot against.")
 
             k1_data_pts = self.data["k1"]
-- 
2.43.0


From a9e5f33d30f51ce84e868343d8e6adb7984f4ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:06 +0000
Subject: [PATCH 25/50] fix: von Karman spectra ignored the precision of the
 wave numbers

---
 drdmannturb/spectra_fitting/data_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/data_generator.py b/drdmannturb/spectra_fitting/data_generator.py
index 5a94492..121322f 100644
--- a/drdmannturb/spectra_fitting/data_generator.py
+++ b/drdmannturb/spectra_fitting/data_generator.py
@@ -34,7 +34,7 @@ def generate_von_karman_spectra(k1: torch.Tensor, L: float = 0.59, C: float = 3.
     denominator = L_inv_squared + k1_squared
 
     # Initialize tensor with zeros
-    ops_values = torch.zeros([len(k1), 3, 3])
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=denominator.dtype)
 
     # Compute diagonal elements vectorized
     ops_values[:, 0, 0] = 9 / 55 * C / denominator ** (5 / 6)
-- 
2.43.0


From 2f423c0c2fa6b7a3700771321c47030015891170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:26 +0000
Subject: [PATCH 26/50] fix: plot_losses numbered the runs in arbitrary
 directory order

---
 drdmannturb/spectra_fitting/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 98b171f..92745eb 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1162,7 +1162,8 @@ class CalibrationProblem:
         # TODO: This is temporary
         assert self.logging_directory is not None, "Logging directory not set!"
 
-        log_fpath = listdir(self.logging_directory)[run_number]
+        # event files are named by their time of creation; ``listdir`` alone has an arbitrary order
+        log_fpath = sorted(listdir(self.logging_directory))[run_number]
         full_fpath = path.join(self.logging_directory, log_fpath)
 
         from drdmannturb import plot_loss_logs
-- 
2.43.0


From a559e83f33b4f724b2090b98a68e56a05130f5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:16 +0000
Subject: [PATCH 27/50] fix: plot_loss_logs refused the Path its signature
 documents

---
 drdmannturb/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/common.py b/drdmannturb/common.py
index 55f7dd7..b7dcebb 100644
--- a/drdmannturb/common.py
+++ b/drdmannturb/common.py
@@ -177,7 +177,7 @@ def plot_loss_logs(log_file: str | Path):
     log_file : Union[str, Path]
        Full path to training log to be visualized.
     """
-    event_acc = EventAccumulator(log_file)
+    event_acc = EventAccumulator(str(log_file))
     event_acc.Reload()
 
     training_scalars = event_acc.Tags()["scalars"]
-- 
2.43.0


From bc84bc4e0bb4b8a8885b9505dd2a6d15b4a083f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:41 +0000
Subject: [PATCH 28/50] fix: get_div used a missing attribute and the wrong
 component order

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 396aeac..3ad86e5 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -653,8 +653,8 @@ class OnePointSpectra(nn.Module):
         torch.Tensor
             Divergence of the spectral tensor in the frequency domain.
         """
-        k1, k2, k3 = self.freq
-        Phi11, Phi22, Phi33, Phi13, Phi12, Phi23 = Phi
+        k1, k2, k3 = self.k123
+        Phi11, Phi22, Phi33, Phi13, Phi23, Phi12 = Phi
         div = torch.stack(
             [
                 k1 * Phi11 + k2 * Phi12 + k3 * Phi13,
-- 
2.43.0


From 8d733b05780f2cdc4d2880a44f314ab854d2e31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 29/50] fix: a refused generate() call drew noise and changed
 the blocks that followed

---
 .../fluctuation_field_generator.py            | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
index 5743881..d5351c9 100644
--- a/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/fluctuation_field_generator.py
@@ -284,6 +284,18 @@ class FluctuationFieldGenerator:
 
         return wind
 
+    @staticmethod
+    def _check_profile(zref: float, uref: float, z0: float, windprofiletype: str, plexp: float | None = None) -> None:
+        """Raise ``ValueError`` if the arguments do not describe a mean profile, see ``_normalize_block``."""
+        if windprofiletype not in ["LOG", "PL"]:
+            raise ValueError('windprofiletype must be either "LOG" or "PL"')
+
+        if any(param <= 0 for param in [zref, uref, z0]):
+            raise ValueError("zref, uref, and z0 must all be positive")
+
+        if windprofiletype == "PL" and plexp is None:
+            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+
     def _normalize_block(
         self,
         curr_block: np.ndarray,
@@ -342,14 +354,7 @@ class FluctuationFieldGenerator:
         if not np.any(curr_block):
             raise ValueError("No fluctuation field has been generated. The .generate() method must be called first.")
 
-        if windprofiletype not in ["LOG", "PL"]:
-            raise ValueError('windprofiletype must be either "LOG" or "PL"')
-
-        if any(param <= 0 for param in [zref, uref, z0]):
-            raise ValueError("zref, uref, and z0 must all be positive")
-
-        if windprofiletype == "PL" and plexp is None:
-            raise ValueError("Power law exponent (plexp) is required when using power law profile")
+        self._check_profile(zref, uref, z0, windprofiletype, plexp)
 
         sd = np.sqrt(np.mean(curr_block**2))
         curr_block /= sd
@@ -428,6 +433,9 @@ class FluctuationFieldGenerator:
                 If this is undesirable behavior, instantiate a new object."
             )
 
+        # before any noise is drawn: a refused request must not change the blocks that follow
+        self._check_profile(zref, uref, z0, windprofiletype, plexp)
+
         for i in range(num_blocks):
             # --- Generate and normalize block ---
             t_block = self._generate_block()
-- 
2.43.0


From 3bc6f2358332f0fb67423b6a541bb997b2c0e2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:59 +0000
Subject: [PATCH 30/50] fix: a vector field draws noise for every component
 when none is given

---
 .../gaussian_random_fields.py                 | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/drdmannturb/fluctuation_generation/gaussian_random_fields.py b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
index 87a16d9..29d01ad 100644
--- a/drdmannturb/fluctuation_generation/gaussian_random_fields.py
+++ b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
@@ -265,3 +265,24 @@ class VectorGaussianRandomField(GaussianRandomField):
         self.DomainSlice = tuple(list(self.DomainSlice) + [slice(None, None, None)])
 
         self.Correlate.DomainSlice = self.DomainSlice
+
+    ### Sample noise
+    def sample_noise(self, grid_shape: Optional[np.ndarray] = None) -> np.ndarray:
+        """
+        Sample random grid from specified distribution.
+
+        Parameters
+        ----------
+        grid_shape : Optional[np.ndarray], optional
+            Shape of the noise, by default None, which results in one value for each component at each point of the
+            grid determined during construction of this object.
+
+        Returns
+        -------
+        np.ndarray
+            Sampled random values from underlying distribution of size matching the given grid shape.
+        """
+        if grid_shape is None:
+            grid_shape = (*self.ext_grid_shape, self.vdim)
+
+        return super().sample_noise(grid_shape)
-- 
2.43.0


From eca08cc452dc2d9bfe6c63266fd1ef264662940a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:20:18 +0000
Subject: [PATCH 31/50] fix: plots of a field already laid out by components
 use the grid of a component

---
 drdmannturb/fluctuation_generation/wind_plot.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/wind_plot.py b/drdmannturb/fluctuation_generation/wind_plot.py
index f15d1e1..a23bf96 100644
--- a/drdmannturb/fluctuation_generation/wind_plot.py
+++ b/drdmannturb/fluctuation_generation/wind_plot.py
@@ -80,10 +80,10 @@ def plot_velocity_components(
     go.Figure
         Plotly Figure object to be used in visualization.
     """
-    X, Y, Z = create_grid(spacing, wind_field.shape)
-
     formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
 
+    X, Y, Z = create_grid(spacing, formatted_wind_field[0].shape)
+
     fig = make_subplots(
         rows=1,
         cols=3,
@@ -196,10 +196,10 @@ def plot_velocity_magnitude(
     go.Figure
         Plotly Figure object to be used in visualization.
     """
-    X, Y, Z = create_grid(spacing, wind_field.shape)
-
     formatted_wind_field = format_wind_field(wind_field) if reshape else wind_field
 
+    X, Y, Z = create_grid(spacing, formatted_wind_field[0].shape)
+
     wind_magnitude = np.sqrt(formatted_wind_field[0] ** 2 + formatted_wind_field[1] ** 2 + formatted_wind_field[2] ** 2)
 
     fig = go.Figure(
-- 
2.43.0


From 1ebe98ae6348769c84f1b4ac2f7f47f763d3024d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 32/50] fix: a low-frequency length scale given as an integer
 was squared in integer arithmetic

---
 .../low_frequency/fluctuation_field_generator.py                | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 318db43..0f6ebb6 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -102,7 +102,7 @@ class LowFreqGenerator:
 
         # Physical parameters
         self.sigma2 = config["sigma2"]
-        self.L_2d = config["L_2d"]
+        self.L_2d = float(config["L_2d"])
         self.psi = config["psi"]
         self.z_i = config["z_i"]
 
-- 
2.43.0


From 1a5bc74f3e8d2896624ace9082aeec1541160f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 33/50] fix: analytical spectra at integer wave numbers were
 truncated to integers

---
 .../low_frequency/fluctuation_field_generator.py          | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
index 0f6ebb6..9957b57 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/fluctuation_field_generator.py
@@ -790,10 +790,10 @@ class LowFreqGenerator:
         ``[-k2_limit, k2_limit]``. Potential integration errors or warnings from
         `scipy.integrate.quad` are caught and reported if ``warn=True``.
         """
-        F11_res_arr = np.zeros_like(k1_arr)
-        F11_err_arr = np.zeros_like(k1_arr)
-        F22_res_arr = np.zeros_like(k1_arr)
-        F22_err_arr = np.zeros_like(k1_arr)
+        F11_res_arr = np.zeros_like(k1_arr, dtype=float)
+        F11_err_arr = np.zeros_like(k1_arr, dtype=float)
+        F22_res_arr = np.zeros_like(k1_arr, dtype=float)
+        F22_err_arr = np.zeros_like(k1_arr, dtype=float)
 
         # Store class attributes locally for potential performance/clarity inside helpers
         _psi = self.psi
-- 
2.43.0


From a64d078d714673dd258c3317297966da1ac471f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 34/50] fix: Kaimal spectra at integer wave numbers were
 truncated to integers

---
 drdmannturb/spectra_fitting/data_generator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/data_generator.py b/drdmannturb/spectra_fitting/data_generator.py
index 121322f..8f65650 100644
--- a/drdmannturb/spectra_fitting/data_generator.py
+++ b/drdmannturb/spectra_fitting/data_generator.py
@@ -70,7 +70,7 @@ def generate_kaimal_spectra(k1: torch.Tensor, zref: float, ustar: float) -> torc
     """
     n = 1 / (2 * np.pi) * k1 * zref
 
-    ops_values = torch.zeros([len(k1), 3, 3], dtype=k1.dtype)
+    ops_values = torch.zeros([len(k1), 3, 3], dtype=n.dtype)
 
     ops_values[:, 0, 0] = 52.5 * n / (1 + 33 * n) ** (5 / 3)
     ops_values[:, 1, 1] = 8.5 * n / (1 + 9.5 * n) ** (5 / 3)
@@ -81,7 +81,7 @@ def generate_kaimal_spectra(k1: torch.Tensor, zref: float, ustar: float) -> torc
 
     return {
         "k1": k1,
-        "ops": ops_values * torch.tensor(ustar**2, dtype=k1.dtype),
+        "ops": ops_values * torch.tensor(ustar**2, dtype=n.dtype),
         "coherence": None,
     }
 
-- 
2.43.0


From fcbd89050fbb12e2defe01b07112467ee2e1e7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 35/50] fix: exponents of the energy spectrum given as integers
 were refused

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 3ad86e5..50b7dc3 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -144,8 +144,8 @@ class OnePointSpectra(nn.Module):
         self.logMagnitude = nn.Parameter(torch.tensor(np.log(physical_params.sigma), dtype=torch.get_default_dtype()))
 
         if use_learnable_spectrum:
-            self.p_exponent = nn.Parameter(torch.tensor(p_exponent))
-            self.q_exponent = nn.Parameter(torch.tensor(q_exponent))
+            self.p_exponent = nn.Parameter(torch.tensor(p_exponent, dtype=torch.get_default_dtype()))
+            self.q_exponent = nn.Parameter(torch.tensor(q_exponent, dtype=torch.get_default_dtype()))
 
         self.LengthScale_scalar = physical_params.L
         self.TimeScale_scalar = physical_params.Gamma
-- 
2.43.0


From 59725eef609a6091c440e2b079c78d4a7221d6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:18 +0000
Subject: [PATCH 36/50] fix: the eddy lifetimes of an integer frequency grid
 were truncated to integers

---
 drdmannturb/fluctuation_generation/nn_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/nn_covariance.py b/drdmannturb/fluctuation_generation/nn_covariance.py
index 867e618..027ea70 100644
--- a/drdmannturb/fluctuation_generation/nn_covariance.py
+++ b/drdmannturb/fluctuation_generation/nn_covariance.py
@@ -116,7 +116,7 @@ class NNCovariance(Covariance):
             # NOTE: as in OnePointSpectra.EddyLifetime, the network acts on the wavevector scaled by the length scale
             k_torch = torch.tensor(np.moveaxis(k, 0, -1) * self.L, dtype=self.OPS.logLengthScale.dtype)
             beta_torch = self.Gamma * self.OPS.tauNet(k_torch)
-            beta = beta_torch.detach().cpu().numpy().astype(k.dtype)
+            beta = beta_torch.detach().cpu().numpy().astype(np.float64)
             beta[np.where(kk == 0)] = 0
 
             k1 = k[0, ...]
-- 
2.43.0


From 4f427736e283bfc5dab22349527f5a98439a7dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:45 +0000
Subject: [PATCH 37/50] fix: the initial loss of a calibration left out the
 coherence term

---
 drdmannturb/spectra_fitting/calibration.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 92745eb..260ccda 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -431,7 +431,20 @@ class CalibrationProblem:
         # print("\n[DEBUG calibrate] About to calculate initial loss...")
         # print(f"[DEBUG calibrate] self.curves: {self.curves}")
 
-        self.loss = self.LossAggregator.eval(y[self.curves], y_data[self.curves], theta_NN, 0)
+        coherence_data: dict | None = None
+        if self.has_coherence_data:
+            coherence_data = {
+                "model_u": self.model_coherence_u,
+                "model_v": self.model_coherence_v,
+                "model_w": self.model_coherence_w,
+                "data_u": self.coherence_data_u_selected,
+                "data_v": self.coherence_data_v_selected,
+                "data_w": self.coherence_data_w_selected,
+            }
+
+        self.loss = self.LossAggregator.eval(
+            y[self.curves], y_data[self.curves], theta_NN, 0, coherence_data=coherence_data
+        )
 
         print("=" * 40)
         print(f"Initial loss: {self.loss.item()}")
-- 
2.43.0


From d3027b8c9cffbd1c6e5e72bb9eb3ad49d26beaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:45 +0000
Subject: [PATCH 38/50] fix: coherence data was misplaced when a repeated line
 made up for a missing one

---
 drdmannturb/spectra_fitting/calibration.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index 260ccda..de263bc 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -1201,6 +1201,9 @@ class CalibrationProblem:
         print(f"Total data points read: {len(df)}")
         print(f"Column names: {df.columns.tolist()}")
 
+        # A repeated line must not stand in for a missing one below
+        df = df.drop_duplicates(["sep_idx", "freq_idx"], keep="last")
+
         # Get the actual separation and frequency values
         sep_mapping = df.groupby("sep_idx")["spatial_sep"].first().sort_index()
         freq_mapping = df.groupby("freq_idx")["frequency"].first().sort_index()
-- 
2.43.0


From ccf88cdff02af9f6870322023986348aa5665994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:09 +0000
Subject: [PATCH 39/50] fix: scale the noise of a cubic random field by the
 volume of a cell, not by its edge

---
 drdmannturb/fluctuation_generation/gaussian_random_fields.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/gaussian_random_fields.py b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
index 29d01ad..a721e50 100644
--- a/drdmannturb/fluctuation_generation/gaussian_random_fields.py
+++ b/drdmannturb/fluctuation_generation/gaussian_random_fields.py
@@ -105,7 +105,7 @@ class GaussianRandomField:
             if not np.isscalar(grid_shape):
                 raise ValueError("grid_level is scalar, so grid_shape should be as well.")
 
-            h = 1 / 2**grid_level
+            h = np.array([1 / 2**grid_level] * ndim)
             self.grid_shape = np.array([grid_shape] * ndim)
         else:
             assert len(grid_dimensions) == 3
-- 
2.43.0


From 2c2d27eace74fde982a795e87106a1e395bf3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 40/50] fix: DomainParameters checks the length of tuples as
 well

---
 drdmannturb/parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 9659614..4cb3ea2 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -220,7 +220,7 @@ class DomainParameters:
 
     def __post_init__(self):
         # Check grid dimensions
-        if isinstance(self.d_dimensions, (list, np.ndarray)) and len(self.d_dimensions) != 3:
+        if isinstance(self.d_dimensions, (tuple, list, np.ndarray)) and len(self.d_dimensions) != 3:
             raise ValueError("Grid dimensions must be length 3.")
 
         if isinstance(self.d_dimensions, np.ndarray):
@@ -229,7 +229,7 @@ class DomainParameters:
             self._grid_dimensions = np.array(self.d_dimensions)
 
         # Check grid levels
-        if isinstance(self.d_levels, (list, np.ndarray)) and len(self.d_levels) != 3:
+        if isinstance(self.d_levels, (tuple, list, np.ndarray)) and len(self.d_levels) != 3:
             raise ValueError("Grid levels must be a tuple of length 3.")
 
         if isinstance(self.d_levels, np.ndarray):
-- 
2.43.0


From f866f4ecc81ba87afa882f7e9b55c52bb2086055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 41/50] fix: DomainParameters can be printed and compared

---
 drdmannturb/parameters.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/drdmannturb/parameters.py b/drdmannturb/parameters.py
index 4cb3ea2..0d9bdaf 100644
--- a/drdmannturb/parameters.py
+++ b/drdmannturb/parameters.py
@@ -237,9 +237,6 @@ class DomainParameters:
         else:
             self._grid_levels = np.array(self.d_levels)
 
-        del self.d_dimensions
-        del self.d_levels
-
     @property
     def grid_dimensions(self):
         """Getter for grid dimensions."""
-- 
2.43.0


From 4ee46c4ddee799d9b4de795e299da02a79b7ca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 42/50] fix: mesh and domain size studies failed where the
 computational domain exceeds the requested one

The sums had the shape of the computational grid, the generated fields that of the requested one,
so that every mesh and every domain below five length scales was reported as an error.
---
 .../fluctuation_generation/low_frequency/large_plot.py    | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index faa0302..36ccb74 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -20,8 +20,8 @@ def _run_single_mesh(exponent, config, num_realizations=5):
     local_config["exp2"] = exponent
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros((gen.user_N1, gen.user_N2))
+    u2 = np.zeros((gen.user_N1, gen.user_N2))
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
@@ -108,8 +108,8 @@ def _run_single_domain_size(domain_factor, config, num_realizations=5):
     local_config["L2_factor"] = domain_factor
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros_like(gen.k1)
-    u2 = np.zeros_like(gen.k2)
+    u1 = np.zeros((gen.user_N1, gen.user_N2))
+    u2 = np.zeros((gen.user_N1, gen.user_N2))
 
     for _ in range(num_realizations):
         curr_u1, curr_u2 = gen.generate()
-- 
2.43.0


From 6361b354fcaa12e6168b5e4e35c32445a434904a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 43/50] fix: mesh and domain size studies reported statistics
 of the averaged field

The average of n independent fields has an n-th of their variance, which was compared with the target
variance. Average the statistics of the fields instead, as the other studies do.
---
 .../low_frequency/large_plot.py               | 52 ++++++-------------
 1 file changed, 17 insertions(+), 35 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 36ccb74..bc5212e 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -9,6 +9,19 @@ import drdmannturb.fluctuation_generation.low_frequency.fluctuation_field_genera
 
 
 # ------------------------------------------------------------------------------------------------ #
+def _average_statistics(gen, num_realizations):
+    """Average the norm, variance and mean of u1 and u2 over independent realizations of a generator."""
+    stats = []
+    for _ in range(num_realizations):
+        u1, u2 = gen.generate()
+        # Discrete approximation of the integral of u^2 dA
+        u1_norm = np.sum(u1**2) * gen.user_dx * gen.user_dy
+        u2_norm = np.sum(u2**2) * gen.user_dx * gen.user_dy
+        stats.append([u1_norm, u2_norm, np.var(u1), np.var(u2), np.mean(u1), np.mean(u2)])
+
+    return np.mean(stats, axis=0)
+
+
 def _run_single_mesh(exponent, config, num_realizations=5):
     """Complete a single run with a config and exponent.
 
@@ -20,27 +33,11 @@ def _run_single_mesh(exponent, config, num_realizations=5):
     local_config["exp2"] = exponent
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros((gen.user_N1, gen.user_N2))
-    u2 = np.zeros((gen.user_N1, gen.user_N2))
-
-    for _ in range(num_realizations):
-        curr_u1, curr_u2 = gen.generate()
-        u1 += curr_u1
-        u2 += curr_u2
-
-    u1 /= num_realizations
-    u2 /= num_realizations
-
-    # Calculate the discrete approximation of the integral of u^2 dA
-    u1_norm = np.sum(u1**2) * gen.user_dx * gen.user_dy
-    u2_norm = np.sum(u2**2) * gen.user_dx * gen.user_dy
-
-    u1_var = np.var(u1)
-    u2_var = np.var(u2)
+    u1_norm, u2_norm, u1_var, u2_var, u1_mean, u2_mean = _average_statistics(gen, num_realizations)
 
     print(f"Completed mesh size 2^{exponent}")
     print(f"\tu1_var: {u1_var}, u2_var: {u2_var}")
-    print(f"\tu1 mean: {np.mean(u1)}, u2 mean: {np.mean(u2)}")
+    print(f"\tu1 mean: {u1_mean}, u2 mean: {u2_mean}")
     return exponent, u1_norm, u2_norm, u1_var, u2_var
 
 
@@ -108,29 +105,14 @@ def _run_single_domain_size(domain_factor, config, num_realizations=5):
     local_config["L2_factor"] = domain_factor
 
     gen = ffg.LowFreqGenerator(local_config)
-    u1 = np.zeros((gen.user_N1, gen.user_N2))
-    u2 = np.zeros((gen.user_N1, gen.user_N2))
-
-    for _ in range(num_realizations):
-        curr_u1, curr_u2 = gen.generate()
-        u1 += curr_u1
-        u2 += curr_u2
-
-    u1 /= num_realizations
-    u2 /= num_realizations
+    u1_norm, u2_norm, u1_var, u2_var, u1_mean, u2_mean = _average_statistics(gen, num_realizations)
 
     # Calculate physical domain size
     domain_size = local_config["L_2d"] * domain_factor
 
-    u1_norm = np.sum(u1**2) * gen.user_dx * gen.user_dy
-    u2_norm = np.sum(u2**2) * gen.user_dx * gen.user_dy
-
-    u1_var = np.var(u1)
-    u2_var = np.var(u2)
-
     print(f"Completed domain size {domain_size/1000:.1f} km (factor {domain_factor})")
     print(f"\tu1_var: {u1_var}, u2_var: {u2_var}")
-    print(f"\tu1 mean: {np.mean(u1)}, u2 mean: {np.mean(u2)}")
+    print(f"\tu1 mean: {u1_mean}, u2 mean: {u2_mean}")
     return domain_factor, u1_norm, u2_norm, u1_var, u2_var, domain_size
 
 
-- 
2.43.0


From a3792b841a927647d471635e52e3eff999a7bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 44/50] fix: the mesh study plots the meshes that were computed

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index bc5212e..dfab33b 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -68,6 +68,7 @@ def mesh_independence_study(low=4, high=12):
 
     if results:
         results.sort(key=lambda x: x[0])
+        exponents = np.array([r[0] for r in results])
         u1_norms = np.array([r[1] for r in results])
         u2_norms = np.array([r[2] for r in results])
         u1_vars = np.array([r[3] for r in results])
-- 
2.43.0


From 0fb1f5597ff11abe4aa169321a8447d85cdbb918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 45/50] fix: the anisotropy study failed for a single angle

---
 drdmannturb/fluctuation_generation/low_frequency/large_plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index dfab33b..940a441 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -732,7 +732,7 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
     # --- Setup Figure ---
     fig, axs = None, None
     if do_plot:
-        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True)
+        fig, axs = plt.subplots(n_angles, 2, figsize=(9, 3.5 * n_angles), sharex=True, sharey=True, squeeze=False)
         fig.suptitle(r"Generated Velocity Fields for different $\psi$ angles", fontsize=14)
     elif not do_plot:
         print("Plotting disabled.")
-- 
2.43.0


From 6db44d2ed268208f240f78e4ec902b2b7a7ced28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:31 +0000
Subject: [PATCH 46/50] fix: the anisotropy study drew fields off their
 coordinates by up to half a cell

---
 .../fluctuation_generation/low_frequency/large_plot.py   | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 940a441..3f55cea 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -769,7 +769,14 @@ def anisotropy_study(base_config, psi_degrees, num_realizations=10, do_plot=True
             X, Y, u1_plot, u2_plot = generated_fields[psi_deg]
             x_km = X / 1000
             y_km = Y / 1000
-            extent = [x_km[0, 0], x_km[-1, -1], y_km[0, 0], y_km[-1, -1]]
+            dx_km, dy_km = gen.user_dx / 1000, gen.user_dy / 1000
+            # pixels are centered at the grid points
+            extent = [
+                x_km[0, 0] - dx_km / 2,
+                x_km[-1, -1] + dx_km / 2,
+                y_km[0, 0] - dy_km / 2,
+                y_km[-1, -1] + dy_km / 2,
+            ]
             row_axs = axs[i]
 
             # Plot u1 (left column)
-- 
2.43.0


From 846207ee07243b454490ab4c78b453ae7a42b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:41 +0000
Subject: [PATCH 47/50] fix: the spectra comparison printed half of the
 variance the spectra hold

The spectra are two-sided but listed at positive wavenumbers only.
---
 .../fluctuation_generation/low_frequency/large_plot.py      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
index 3f55cea..73733d5 100644
--- a/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
+++ b/drdmannturb/fluctuation_generation/low_frequency/large_plot.py
@@ -204,10 +204,10 @@ def plot_spectra_comparison(gen: ffg.LowFreqGenerator):
     k1_F22_numerical = k1_pos * F22_numerical
     k1_F22_analytical = k1_pos * F22_analytical
 
-    # Print variances for comparison
+    # Print variances for comparison; the spectra are two-sided, with a single highest wavenumber
     dk1 = k1_pos[1] - k1_pos[0] if len(k1_pos) > 1 else 0
-    var_u1_from_spectrum = np.sum(F11_numerical) * dk1 if dk1 > 0 else 0
-    var_u2_from_spectrum = np.sum(F22_numerical) * dk1 if dk1 > 0 else 0
+    var_u1_from_spectrum = (2 * np.sum(F11_numerical) - F11_numerical[-1]) * dk1 if dk1 > 0 else 0
+    var_u2_from_spectrum = (2 * np.sum(F22_numerical) - F22_numerical[-1]) * dk1 if dk1 > 0 else 0
     var_u1_actual = np.var(gen.u1)
     var_u2_actual = np.var(gen.u2)
 
-- 
2.43.0


From e824e59c123dcf011ffb5fc9efdb2d206bdd4390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:53 +0000
Subject: [PATCH 48/50] fix: report the scales after each epoch, not those of
 the last evaluation

---
 drdmannturb/spectra_fitting/calibration.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/drdmannturb/spectra_fitting/calibration.py b/drdmannturb/spectra_fitting/calibration.py
index de263bc..98cb912 100644
--- a/drdmannturb/spectra_fitting/calibration.py
+++ b/drdmannturb/spectra_fitting/calibration.py
@@ -507,9 +507,10 @@ class CalibrationProblem:
             epoch_end_time = time.time()
             print(f"Epoch {epoch} took {epoch_end_time - epoch_start_time} seconds")
 
-            print(f"\tCurrent L: {self.OPS.LengthScale.item()}")
-            print(f"\tCurrent Gamma: {self.OPS.TimeScale.item()}")
-            print(f"\tCurrent sigma: {self.OPS.Magnitude.item()}")
+            L, Gamma, sigma = self.OPS.exp_scales()
+            print(f"\tCurrent L: {L}")
+            print(f"\tCurrent Gamma: {Gamma}")
+            print(f"\tCurrent sigma: {sigma}")
             if self.prob_params.use_learnable_spectrum:
                 print(f"\tCurrent p: {self.OPS.p_exponent.item()}")
                 print(f"\tCurrent q: {self.OPS.q_exponent.item()}")
-- 
2.43.0


From b96e776a57b7934760ee2320b5a8a5d8e63cb018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 49/50] fix: use the current scales for the eddy lifetime on
 the grid of the last evaluation

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 50b7dc3..2eb2209 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -485,8 +485,8 @@ class OnePointSpectra(nn.Module):
         """
         if k is None:
             k = self.k
-        else:
-            self.exp_scales()
+
+        self.exp_scales()
 
         kL = self.LengthScale * k.norm(dim=-1)
 
-- 
2.43.0


From da42cd853fd0f401930de6be02c4c79131256352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:52 +0000
Subject: [PATCH 50/50] fix: do not rescale the stored energy spectrum on every
 call of PowerSpectra

---
 drdmannturb/spectra_fitting/one_point_spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/drdmannturb/spectra_fitting/one_point_spectra.py b/drdmannturb/spectra_fitting/one_point_spectra.py
index 2eb2209..5ba0651 100644
--- a/drdmannturb/spectra_fitting/one_point_spectra.py
+++ b/drdmannturb/spectra_fitting/one_point_spectra.py
@@ -584,7 +584,7 @@ class OnePointSpectra(nn.Module):
 
         zeta1 = C1 - k2 / k1 * C2
         zeta2 = C1 * k2 / k1 + C2
-        E0 /= 4 * torch.pi
+        E0 = E0 / (4 * torch.pi)
         Phi11 = E0 / (kk0**2) * (kk0 - k1**2 - 2 * k1 * k30 * zeta1 + (k1**2 + k2**2) * zeta1**2)
         Phi22 = E0 / (kk0**2) * (kk0 - k2**2 - 2 * k2 * k30 * zeta2 + (k1**2 + k2**2) * zeta2**2)
         Phi33 = E0 / (kk**2) * (k1**2 + k2**2)
-- 
2.43.0

