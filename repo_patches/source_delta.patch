From 7c83bfc5db9042b4e715bf6924aacfb723c0ad05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:55 +0000
Subject: [PATCH 01/55] fix: sample_kernels accepts kernels as long as the
 timeseries

---
 ml4gw/utils/slicing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/utils/slicing.py b/ml4gw/utils/slicing.py
index 93b17dd..7b6b48f 100644
--- a/ml4gw/utils/slicing.py
+++ b/ml4gw/utils/slicing.py
@@ -313,7 +313,7 @@ def sample_kernels(
         )
 
     if X.ndim == 1:
-        idx = torch.randint(len(X) - kernel_size, size=(N,))
+        idx = torch.randint(max(len(X) - kernel_size, 1), size=(N,))
         if return_idx:
             return slice_kernels(X, idx, kernel_size), idx
         return slice_kernels(X, idx, kernel_size)
@@ -322,7 +322,7 @@ def sample_kernels(
 
     if max_center_offset is None:
         # sample uniformly from all of X's time dimension
-        min_val, max_val = 0, X.shape[-1] - kernel_size
+        min_val, max_val = 0, max(X.shape[-1] - kernel_size, 1)
     elif max_center_offset >= 0:
         # a positive max_center_offset means we're allowed
         # to put some space between the center of the timeseries
-- 
2.43.0


From 6f08801863d7822b1cebf2ce28a1595538f98063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:20 +0000
Subject: [PATCH 02/55] fix: draw the last window of HDF5 files, and of files
 one window long

---
 ml4gw/dataloading/hdf5_dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/dataloading/hdf5_dataset.py b/ml4gw/dataloading/hdf5_dataset.py
index fddd59c..2cb2ec0 100644
--- a/ml4gw/dataloading/hdf5_dataset.py
+++ b/ml4gw/dataloading/hdf5_dataset.py
@@ -156,7 +156,9 @@ class Hdf5TimeSeriesDataset(torch.utils.data.IterableDataset):
             zip(unique_fnames, counts, strict=True)
         ):
             size = self.sizes[fname]
-            max_idx = size - self.kernel_size
+            # exclusive upper bound on the start index, so that the
+            # last window of the file can be drawn as well
+            max_idx = size - self.kernel_size + 1
 
             # figure out which batch indices should be
             # sampled from the current filename
-- 
2.43.0


From e2b2be86894dc139a10a2e516ce138d9c35dfb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:40 +0000
Subject: [PATCH 03/55] fix: chunked sampling follows each chunk's own shape
 and draws its last window

---
 ml4gw/dataloading/chunked_dataset.py | 71 +++++++++++++---------------
 1 file changed, 33 insertions(+), 38 deletions(-)

diff --git a/ml4gw/dataloading/chunked_dataset.py b/ml4gw/dataloading/chunked_dataset.py
index 632730a..2dd294b 100644
--- a/ml4gw/dataloading/chunked_dataset.py
+++ b/ml4gw/dataloading/chunked_dataset.py
@@ -61,42 +61,43 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
         return len(self.chunk_it) * self.batches_per_chunk
 
     def __iter__(self) -> WaveformTensor:
-        it = iter(self.chunk_it)
-        chunk = next(it)
-        num_chunks, num_channels, chunk_size = chunk.shape
-
-        # if we're sampling coincidentally, we only need
-        # to sample indices on a per-batch-element basis.
-        # Otherwise, we'll need indices for both each
-        # batch sample _and_ each channel with each sample
-        if self.coincident:
-            sample_size = (self.batch_size,)
-        else:
-            sample_size = (self.batch_size, num_channels)
-
-        # slice kernels out a flattened chunk tensor
-        # index-for-index. We'll account for batch/
-        # channel indices by introducing offsets later on
-        idx = torch.arange(self.kernel_size, device=self.device)
-        idx = idx.view(1, 1, -1)
-        idx = idx.repeat(self.batch_size, num_channels, 1)
-
-        # this will just be a set of aranged channel indices
-        # repeated to offset the kernel indices in the
-        # flattened chunk tensor
-        channel_idx = torch.arange(num_channels, device=self.device)
-        channel_idx = channel_idx.view(1, -1, 1)
-        channel_idx = channel_idx.repeat(self.batch_size, 1, self.kernel_size)
-        idx += channel_idx * chunk_size
-
-        while True:
-            # record the number of rows in the chunk, then
-            # flatten it to make it easier to slice
+        for chunk in self.chunk_it:
+            # chunks may differ in shape, so the indices
+            # below have to be built for each one
+            num_chunks, num_channels, chunk_size = chunk.shape
             if chunk_size < self.kernel_size:
                 raise ValueError(
                     f"Can't sample kernels of size {self.kernel_size} from "
                     f"chunk with size {chunk_size}"
                 )
+
+            # if we're sampling coincidentally, we only need
+            # to sample indices on a per-batch-element basis.
+            # Otherwise, we'll need indices for both each
+            # batch sample _and_ each channel with each sample
+            if self.coincident:
+                sample_size = (self.batch_size,)
+            else:
+                sample_size = (self.batch_size, num_channels)
+
+            # slice kernels out a flattened chunk tensor
+            # index-for-index. We'll account for batch/
+            # channel indices by introducing offsets later on
+            idx = torch.arange(self.kernel_size, device=self.device)
+            idx = idx.view(1, 1, -1)
+            idx = idx.repeat(self.batch_size, num_channels, 1)
+
+            # this will just be a set of aranged channel indices
+            # repeated to offset the kernel indices in the
+            # flattened chunk tensor
+            channel_idx = torch.arange(num_channels, device=self.device)
+            channel_idx = channel_idx.view(1, -1, 1)
+            channel_idx = channel_idx.repeat(
+                self.batch_size, 1, self.kernel_size
+            )
+            idx += channel_idx * chunk_size
+
+            # flatten the chunk to make it easier to slice
             chunk = chunk.reshape(-1)
 
             # generate batches from the current chunk
@@ -117,7 +118,7 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
                 # element we're going to grab our time windows from
                 time_idx = torch.randint(
                     0,
-                    chunk_size - self.kernel_size,
+                    chunk_size - self.kernel_size + 1,
                     size=sample_size,
                     device=self.device,
                 )
@@ -128,9 +129,3 @@ class ChunkedTimeSeriesDataset(torch.utils.data.IterableDataset):
 
                 # now slice this 3D tensor from our flattened chunk
                 yield chunk[chunk_idx]
-
-            try:
-                chunk = next(it)
-            except StopIteration:
-                break
-            num_chunks, num_channels, chunk_size = chunk.shape
-- 
2.43.0


From f00070b8a84cd98d754814994ba63db7aa7a88e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:42 +0000
Subject: [PATCH 04/55] fix: OnlineAverager accepts an offset of zero

---
 ml4gw/nn/streaming/online_average.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index ec4ef56..0cc3176 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -86,7 +86,7 @@ class OnlineAverager(torch.nn.Module):
         # these values by the number of updates up-front
         # for averaging purposes.
         start = -self.num_updates * self.update_size
-        if self.offset is not None:
+        if self.offset:
             end = -self.offset
             start += end
         else:
-- 
2.43.0


From e9da0341cd2332d762592d66ed30e910207dddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:05 +0000
Subject: [PATCH 05/55] fix: OnlineAverager's initial state has the module's
 precision

---
 ml4gw/nn/streaming/online_average.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/nn/streaming/online_average.py b/ml4gw/nn/streaming/online_average.py
index 0cc3176..e4cc647 100644
--- a/ml4gw/nn/streaming/online_average.py
+++ b/ml4gw/nn/streaming/online_average.py
@@ -70,7 +70,9 @@ class OnlineAverager(torch.nn.Module):
 
     def get_initial_state(self) -> Float[Tensor, "channel time"]:
         return torch.zeros(
-            (self.num_channels, self.state_size), device=self.weights.device
+            (self.num_channels, self.state_size),
+            dtype=self.weights.dtype,
+            device=self.weights.device,
         )
 
     def forward(
-- 
2.43.0


From cd9fbf8b1b677317ffc9b204a2d8aacc8ea6f407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 06/55] fix: an overlap of zero is not replaced by the default
 when fitting

---
 ml4gw/transforms/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index c509170..dd78c45 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -54,7 +54,8 @@ class FittableSpectralTransform(FittableTransform):
         if fftlength is not None:
             nperseg = int(fftlength * sample_rate)
 
-            overlap = overlap or fftlength / 2
+            if overlap is None:
+                overlap = fftlength / 2
             nstride = nperseg - int(overlap * sample_rate)
 
             window = torch.hann_window(nperseg, dtype=torch.float64)
-- 
2.43.0


From e0f2b2a2eb25b1844a2ed34d2aaa748281428615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:31 +0000
Subject: [PATCH 07/55] fix: FixedWhiten keeps its filter length in double
 precision

---
 ml4gw/transforms/whitening.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/whitening.py b/ml4gw/transforms/whitening.py
index 25b8a0c..3421bc3 100644
--- a/ml4gw/transforms/whitening.py
+++ b/ml4gw/transforms/whitening.py
@@ -158,7 +158,7 @@ class FixedWhiten(FittableSpectralTransform):
         self.register_buffer("psd", psd)
 
         # save this as a parameter since it's decided at fit time
-        fduration = torch.zeros((1,))
+        fduration = torch.zeros((1,), dtype=torch.float64)
         self.register_buffer("fduration", fduration)
 
     def fit(
@@ -249,7 +249,7 @@ class FixedWhiten(FittableSpectralTransform):
             psds.append(psd[0, 0])
         psd = torch.stack(psds)
 
-        fduration = torch.Tensor([fduration])
+        fduration = torch.tensor([fduration], dtype=torch.float64)
         self.build(psd=psd, fduration=fduration)
 
     def forward(self, X: TimeSeries3d, crop: bool = True) -> TimeSeries3d:
-- 
2.43.0


From 8e1935dab4bb20fa869f2cdfac43f81ab1962b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 08/55] fix: an incomplete state dict does not count as fitted

---
 ml4gw/transforms/transform.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/ml4gw/transforms/transform.py b/ml4gw/transforms/transform.py
index dd78c45..597c976 100644
--- a/ml4gw/transforms/transform.py
+++ b/ml4gw/transforms/transform.py
@@ -26,15 +26,32 @@ class FittableTransform(torch.nn.Module):
         self._check_built()
         return super().__call__(*args, **kwargs)
 
-    def _load_from_state_dict(self, *args):
-        # keep track of number of error messages to see
-        # if trying to load these weights causes another
-        num_errs = len(args[-1])
-        ret = super()._load_from_state_dict(*args)
+    def _load_from_state_dict(
+        self,
+        state_dict,
+        prefix,
+        local_metadata,
+        strict,
+        missing_keys,
+        unexpected_keys,
+        error_msgs,
+    ):
+        # keep track of number of missing parameters and error
+        # messages to see if trying to load these weights adds any
+        num_missing, num_errs = len(missing_keys), len(error_msgs)
+        ret = super()._load_from_state_dict(
+            state_dict,
+            prefix,
+            local_metadata,
+            strict,
+            missing_keys,
+            unexpected_keys,
+            error_msgs,
+        )
 
-        # if we didn't create any new errors, then
-        # assume that we built correctly
-        if len(args[-1]) == num_errs:
+        # if nothing was missing and we didn't create any new
+        # errors, then assume that we built correctly
+        if len(missing_keys) == num_missing and len(error_msgs) == num_errs:
             self.built = True
         return ret
 
-- 
2.43.0


From 252e89c30b694eead9a4c9e0c82d34e23c60a69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:22 +0000
Subject: [PATCH 09/55] fix: masked bins don't enter the SNR even where the PSD
 vanishes

---
 ml4gw/gw.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ml4gw/gw.py b/ml4gw/gw.py
index a5ca497..2382993 100644
--- a/ml4gw/gw.py
+++ b/ml4gw/gw.py
@@ -367,7 +367,10 @@ def compute_ifo_snr(
                 f"frequency bins to signal fft with {integrand.shape[-1]} "
                 "frequency bins"
             )
-        integrand *= highpass.to(integrand.device)
+        # drop the masked bins outright, since multiplying by 0
+        # isn't enough where the PSD vanishes
+        mask = highpass.to(integrand.device)
+        integrand = (integrand * mask).masked_fill(mask == 0, 0)
     if lowpass is not None:
         if not isinstance(lowpass, torch.Tensor):
             freqs = torch.fft.rfftfreq(responses.shape[-1], 1 / sample_rate)
@@ -378,7 +381,10 @@ def compute_ifo_snr(
                 f"frequency bins to signal fft with {integrand.shape[-1]} "
                 "frequency bins"
             )
-        integrand *= lowpass.to(integrand.device)
+        # drop the masked bins outright, since multiplying by 0
+        # isn't enough where the PSD vanishes
+        mask = lowpass.to(integrand.device)
+        integrand = (integrand * mask).masked_fill(mask == 0, 0)
 
     # sum over the desired frequency range and multiply
     # by df to turn it into an integration (and get
-- 
2.43.0


From 04945ef2c8774bf4a000b0bd81266707d2a4982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 10/55] fix: IMRPhenomPv2 stays finite where eta or a cosine
 rounds past its bound

---
 ml4gw/waveforms/cbc/phenom_p.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 5d457db..c5b9ca3 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -110,7 +110,8 @@ class IMRPhenomPv2(IMRPhenomD):
         chil = (1.0 + q) / q * chi_eff
         eta = m1 * m2 / (M * M)
         eta2 = eta * eta
-        Seta = torch.sqrt(1.0 - 4.0 * eta)
+        # eta can round to just above 1/4 near equal masses
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
         chi = self.chiPN(Seta, eta, chi2_l, chi1_l)
         chi22 = chi2_l * chi2_l
         chi12 = chi1_l * chi1_l
@@ -213,7 +214,8 @@ class IMRPhenomPv2(IMRPhenomD):
         assert angcoeffs is not None
         assert Y2m is not None
         f = fHz * MTSUN_SI * M.unsqueeze(1)  # Frequency in geometric units
-        q = (1.0 + torch.sqrt(1.0 - 4.0 * eta) - 2.0 * eta) / (2.0 * eta)
+        Seta = torch.sqrt(torch.clamp(1.0 - 4.0 * eta, min=0.0))
+        q = (1.0 + Seta - 2.0 * eta) / (2.0 * eta)
         m1 = 1.0 / (1.0 + q)  # Mass of the smaller BH for unit total mass M=1.
         m2 = q / (1.0 + q)  # Mass of the larger BH for unit total mass M=1.
         Sperp = chip * (
@@ -507,7 +509,8 @@ class IMRPhenomPv2(IMRPhenomD):
         J0z_sf = L0 + m1_2 * s1z + m2_2 * s2z
         J0 = torch.sqrt(J0x_sf * J0x_sf + J0y_sf * J0y_sf + J0z_sf * J0z_sf)
 
-        thetaJ_sf = torch.arccos(J0z_sf / J0)
+        # cosines can round to just outside [-1, 1]
+        thetaJ_sf = torch.arccos(torch.clamp(J0z_sf / J0, -1.0, 1.0))
 
         phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
 
@@ -543,7 +546,7 @@ class IMRPhenomPv2(IMRPhenomD):
         tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
         tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
         Nx_Jf, Nz_Jf = tmp_x, tmp_z
-        thetaJN = torch.arccos(Nz_Jf)
+        thetaJN = torch.arccos(torch.clamp(Nz_Jf, -1.0, 1.0))
 
         # Finally, we need to redefine the polarizations:
         # PhenomP's polarizations are defined following Arun et al
-- 
2.43.0


From 8a06fb8b043ba090776462185a248bcdc8cbfd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 11/55] fix: IMRPhenomPv2 passes the squared spins in the same
 order as the spins

---
 ml4gw/waveforms/cbc/phenom_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index c5b9ca3..f52eadb 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -158,8 +158,8 @@ class IMRPhenomPv2(IMRPhenomD):
             Seta,
             chi2_l,
             chi1_l,
-            chi12,
             chi22,
+            chi12,
             chip,
             phic,
             M,
-- 
2.43.0


From 172066b5c6fa0216ed56384e0135cb71c5f20b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 12/55] fix: IMRPhenomPv2 differentiates the ringdown phase at
 the precision of its inputs

---
 ml4gw/waveforms/cbc/phenom_p.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index f52eadb..8790ad4 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -373,7 +373,9 @@ class IMRPhenomPv2(IMRPhenomD):
         # calculating derivative of phase with frequency following
         # https://git.ligo.org/lscsoft/lalsuite/-/blame/master/lalsimulation/lib/LALSimIMRPhenomP.c?page=2#L1057 # noqa: E501
         n_fixed = 1000
-        x = torch.linspace(0.8, 1.2, n_fixed, device=fRD.device)
+        x = torch.linspace(
+            0.8, 1.2, n_fixed, device=fRD.device, dtype=fRD.dtype
+        )
         fRDs = torch.outer(fRD, x)
         delta_fRds = (1.2 * fRD - 0.8 * fRD) / (n_fixed - 1)
         MfRDs = M_s.unsqueeze(-1) * fRDs
-- 
2.43.0


From 95fb8ca7d1a5a4d4e1ef42f2bc022507e74d7d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:07 +0000
Subject: [PATCH 13/55] fix: IMRPhenomPv2 follows the coalescence phase when
 the spins are aligned

---
 ml4gw/waveforms/cbc/phenom_p.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 8790ad4..597087a 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -514,7 +514,12 @@ class IMRPhenomPv2(IMRPhenomD):
         # cosines can round to just outside [-1, 1]
         thetaJ_sf = torch.arccos(torch.clamp(J0z_sf / J0, -1.0, 1.0))
 
-        phiJ_sf = torch.arctan2(J0y_sf, J0x_sf)
+        # the azimuth of J is arbitrary for aligned spins: as in LAL, measure
+        # it from the line of sight, so that the waveform follows phic
+        aligned = (J0x_sf.abs() < 1e-15) & (J0y_sf.abs() < 1e-15)
+        phiJ_sf = torch.where(
+            aligned, PI / 2.0 - phic, torch.arctan2(J0y_sf, J0x_sf)
+        )
 
         phi_aligned = -phiJ_sf
 
@@ -534,13 +539,11 @@ class IMRPhenomPv2(IMRPhenomD):
 
         kappa = -torch.arctan2(tmp_y, tmp_x)
 
-        # Then we determine alpha0, by rotating LN
-        tmp_x, tmp_y, tmp_z = 0, 0, 1
-        tmp_x, tmp_y, tmp_z = rotate_z(-phiJ_sf, tmp_x, tmp_y, tmp_z)
-        tmp_x, tmp_y, tmp_z = rotate_y(-thetaJ_sf, tmp_x, tmp_y, tmp_z)
-        tmp_x, tmp_y, tmp_z = rotate_z(kappa, tmp_x, tmp_y, tmp_z)
-
-        alpha0 = torch.arctan2(tmp_y, tmp_x)
+        # Then we determine alpha0, by rotating LN: the first two rotations
+        # take it to (-sin(thetaJ_sf), 0, cos(thetaJ_sf)), so that the third
+        # leaves it at azimuth kappa + pi. Not measuring this azimuth keeps
+        # it defined for aligned spins, where LN lies along the z axis
+        alpha0 = kappa + PI
 
         # Finally we determine thetaJ, by rotating N
         tmp_x, tmp_y, tmp_z = Nx_sf, Ny_sf, Nz_sf
-- 
2.43.0


From ca5316c4c3e55549a69856703831f355a9a0f31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:11 +0000
Subject: [PATCH 14/55] fix: IIRFilter filters with second-order sections,
 which stay accurate for narrow bands

---
 ml4gw/transforms/iirfilter.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ml4gw/transforms/iirfilter.py b/ml4gw/transforms/iirfilter.py
index 6b16bce..aa84f26 100644
--- a/ml4gw/transforms/iirfilter.py
+++ b/ml4gw/transforms/iirfilter.py
@@ -1,6 +1,6 @@
 import torch
 from scipy.signal import iirfilter
-from torchaudio.functional import filtfilt
+from torchaudio.functional import lfilter
 
 
 class IIRFilter(torch.nn.Module):
@@ -70,7 +70,9 @@ class IIRFilter(torch.nn.Module):
         if isinstance(rp, torch.Tensor):
             rp = rp.numpy()
 
-        b, a = iirfilter(
+        # second-order sections: polynomial coefficients of the whole
+        # filter can't represent narrow bands, and go unstable
+        sos = iirfilter(
             N,
             Wn,
             rs=rs,
@@ -78,11 +80,15 @@ class IIRFilter(torch.nn.Module):
             btype=btype,
             analog=analog,
             ftype=ftype,
-            output="ba",
+            output="sos",
             fs=fs,
         )
-        self.register_buffer("b", torch.tensor(b))
-        self.register_buffer("a", torch.tensor(a))
+        self.register_buffer("sos", torch.tensor(sos))
+
+    def _filter(self, x: torch.Tensor) -> torch.Tensor:
+        for section in self.sos:
+            x = lfilter(x, section[3:], section[:3], clamp=False)
+        return x
 
     def forward(self, x: torch.Tensor) -> torch.Tensor:
         r"""
@@ -95,4 +101,5 @@ class IIRFilter(torch.nn.Module):
         Returns:
             The filtered signal.
         """
-        return filtfilt(x, self.a, self.b, clamp=False)
+        x = self._filter(x).flip(-1)
+        return self._filter(x).flip(-1)
-- 
2.43.0


From 6896813efd1f3dac2558584cb0bc4cf314617d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:04 +0000
Subject: [PATCH 15/55] fix: waveforms longer than the requested duration are
 cropped to exactly that

---
 ml4gw/waveforms/generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 15e9d3b..0e0f932 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -355,7 +355,7 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
         hc, hp = self.apply_td_condition_stage2(hc, hp, parameters)
 
         # pad waveforms on left up to requested duration
-        pad = int((self.duration * self.sample_rate) - hp.shape[-1])
+        pad = self.size - hp.shape[-1]
         hc = torch.nn.functional.pad(hc, (pad, 0))
         hp = torch.nn.functional.pad(hp, (pad, 0))
 
-- 
2.43.0


From 55d90c01d83f0b94586cad3d233adbc6f5cd6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 16/55] fix: room is made for the whole right padding when
 conditioning waveforms

---
 ml4gw/waveforms/generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/generator.py b/ml4gw/waveforms/generator.py
index 0e0f932..913af03 100644
--- a/ml4gw/waveforms/generator.py
+++ b/ml4gw/waveforms/generator.py
@@ -184,9 +184,11 @@ class TimeDomainCBCWaveformGenerator(torch.nn.Module):
             fstart, mass_1, mass_2, s1z, s2z
         )
 
-        # chirp length in samples
+        # chirp length in samples, with room after coalescence
+        # for all of the requested padding, so that it does not wrap around
+        tpad = torch.clamp(textra, min=self.right_pad)
         chirplen = torch.round(
-            (tchirp_fstart + tmerge + 2.0 * textra) * self.sample_rate
+            (tchirp_fstart + tmerge + textra + tpad) * self.sample_rate
         )
 
         # pad to next power of 2
-- 
2.43.0


From f0208bccd2cb2911c0ca0960654b6cc437590698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:13 +0000
Subject: [PATCH 17/55] fix: bilby_spins_to_lalsim stays finite where a cosine
 rounds past one

---
 ml4gw/waveforms/conversion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ml4gw/waveforms/conversion.py b/ml4gw/waveforms/conversion.py
index e9efd36..c66c39e 100644
--- a/ml4gw/waveforms/conversion.py
+++ b/ml4gw/waveforms/conversion.py
@@ -138,7 +138,8 @@ def bilby_spins_to_lalsim(
     Jhatx = Jx / Jnorm
     Jhaty = Jy / Jnorm
     Jhatz = Jz / Jnorm
-    theta0 = torch.acos(Jhatz)
+    # cosines may round past one where the angles vanish
+    theta0 = torch.acos(Jhatz.clamp(-1, 1))
     phi0 = torch.atan2(Jhaty, Jhatx)
 
     # Rotation 1: Rotate about z-axis by -phi0 to put Jhat in x-z plane
@@ -165,12 +166,13 @@ def bilby_spins_to_lalsim(
     Nx = 0.0
     Ny = torch.sin(theta_jn)
     Nz = torch.cos(theta_jn)
-    incl = torch.acos(Nx * lnh_x + Ny * lnh_y + Nz * lnh_z)
+    cos_incl = Nx * lnh_x + Ny * lnh_y + Nz * lnh_z
+    incl = torch.acos(cos_incl.clamp(-1, 1))
 
     # Rotation 4-5: Now J is along z and N in y-z plane, inclined from J
     # by thetaJN and with >ve component along y.
     # Now we bring L into the z axis to get spin components.
-    thetalj = torch.acos(lnh_z)
+    thetalj = torch.acos(lnh_z.clamp(-1, 1))
     phil = torch.atan2(lnh_y, lnh_x)
 
     s1hatx, s1haty, s1hatz = rotate_z(-phil, s1hatx, s1haty, s1hatz)
-- 
2.43.0


From ad2423f09f896736bb43c86b6640b14e27b7118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:07 +0000
Subject: [PATCH 18/55] fix: the ringdown's cross polarization vanishes
 edge-on, not face-on

---
 ml4gw/waveforms/adhoc/ringdown.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index 862883f..a47143e 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -90,14 +90,13 @@ class Ringdown(torch.nn.Module):
         # calculate cosines with inclination
         cos_i = torch.cos(inclination)
         cos_i2 = cos_i**2
-        sin_i = torch.sin(inclination)
 
         # Precompute exponent and phase terms
         exp_term = torch.exp(-pi * frequency * self.times / quality)
         phase_term = 2 * pi * frequency * self.times + phase
 
         a_plus = (amplitude / distance) * (1 + cos_i2) * exp_term
-        a_cross = (amplitude / distance) * (2 * sin_i) * exp_term
+        a_cross = (amplitude / distance) * (2 * cos_i) * exp_term
 
         h_plus = a_plus * torch.cos(phase_term)
         h_cross = a_cross * torch.sin(phase_term)
-- 
2.43.0


From e47b400831903aed1f195d9622430ecb501fa0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:46 +0000
Subject: [PATCH 19/55] fix: the cosine and sine log densities are normalised

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 6265862..ce6d562 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -48,7 +48,7 @@ class Cosine(dist.Distribution):
     def log_prob(self, value: float) -> Float[Tensor, ""]:
         value = torch.as_tensor(value)
         inside_range = (value >= self.low) & (value <= self.high)
-        return (value.cos() * inside_range).log()
+        return (self.norm * value.cos() * inside_range).log()
 
 
 class Sine(dist.TransformedDistribution):
-- 
2.43.0


From 136e5211ec5150701be897c3dd631875dbae04cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 20/55] fix: LogNormal honours its lower bound and reports its
 log density

---
 ml4gw/distributions.py | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index ce6d562..2bae002 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -100,6 +100,10 @@ class LogUniform(dist.TransformedDistribution):
 
 
 class LogNormal(dist.LogNormal):
+    """
+    Log normal distribution, truncated from below at ``low`` if given
+    """
+
     def __init__(
         self,
         mean: float,
@@ -109,11 +113,39 @@ class LogNormal(dist.LogNormal):
     ):
         self.low = low
         super().__init__(loc=mean, scale=std, validate_args=validate_args)
+        # ``support`` is a method, which torch can't validate values against
+        self._validate_args = False
 
     def support(self):
         if self.low is not None:
             return dist.constraints.greater_than(self.low)
 
+    def _tail(self) -> Tensor:
+        """Probability of exceeding ``low`` before the truncation"""
+        low = torch.as_tensor(self.low or 0.0).clamp(min=0)
+        return torch.special.ndtr((self.loc - low.log()) / self.scale)
+
+    def rsample(self, sample_shape: torch.Size = None) -> Tensor:
+        sample_shape = sample_shape or torch.Size()
+        if self.low is None:
+            return super().rsample(sample_shape)
+        shape = self._extended_shape(sample_shape)
+        u = 1 - torch.rand(shape, device=self.loc.device)
+        x = self.loc - self.scale * torch.special.ndtri(u * self._tail())
+        return x.exp()
+
+    def sample(self, sample_shape: torch.Size = None) -> Tensor:
+        with torch.no_grad():
+            return self.rsample(sample_shape)
+
+    def log_prob(self, value: Tensor) -> Tensor:
+        value = torch.as_tensor(value)
+        inside_range = value > max(self.low or 0.0, 0.0)
+        log_value = torch.where(inside_range, value, 1.0).log()
+        log_prob = self.base_dist.log_prob(log_value) - log_value
+        log_prob = log_prob - self._tail().log()
+        return torch.where(inside_range, log_prob, float("-inf"))
+
 
 class PowerLaw(dist.TransformedDistribution):
     """
-- 
2.43.0


From 94e43acad5af4aea39c28c407f591ebc531a42b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:34 +0000
Subject: [PATCH 21/55] fix: cosmological priors reach their exact bounds and
 stay finite at zero distance

---
 ml4gw/distributions.py | 44 ++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 2bae002..12032f0 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -275,12 +275,20 @@ class UniformComovingVolume(dist.Distribution):
                 f"exceeds given z_max {z_grid_max}."
             )
 
-        # Restrict distance grids to the specified redshift range
-        mask = (self.z_grid >= z_min) & (self.z_grid <= z_max)
-        self.distance_grid = self.distance_grid[mask]
-        self.z_grid = self.z_grid[mask]
-        self.comoving_dist_grid = self.comoving_dist_grid[mask]
-        self.luminosity_dist_grid = self.luminosity_dist_grid[mask]
+        # Restrict distance grids to the specified redshift range,
+        # which generally begins and ends in between grid points
+        bounds = torch.stack([z_min, z_max])
+        mask = (self.z_grid > z_min) & (self.z_grid < z_max)
+        z_grid = self.z_grid
+
+        def restrict(grid):
+            low, high = self._linear_interp_1d(z_grid, grid, bounds)
+            return torch.cat([low[None], grid[mask], high[None]])
+
+        self.distance_grid = restrict(self.distance_grid)
+        self.z_grid = restrict(self.z_grid)
+        self.comoving_dist_grid = restrict(self.comoving_dist_grid)
+        self.luminosity_dist_grid = restrict(self.luminosity_dist_grid)
         # Compute probability arrays from those grids
         self._generate_probability_grids()
 
@@ -336,14 +344,23 @@ class UniformComovingVolume(dist.Distribution):
         else:  # luminosity_distance
             self.distance_grid = self.luminosity_dist_grid
 
+    def _jacobian(self):
+        """
+        Compute the derivative of the distance with respect to redshift
+        """
+        if self.distance_type == "redshift":
+            return torch.ones_like(self.z_grid)
+        ddc_dz = C / self._hubble_function() / 1000
+        if self.distance_type == "comoving_distance":
+            return ddc_dz
+        return self.comoving_dist_grid + (1 + self.z_grid) * ddc_dz
+
     def _p_of_distance(self):
         """
         Compute the unnormalized probability as a function of distance
         """
         dV_dz = self.comoving_dist_grid**2 / self._hubble_function()
-        # This is a tensor of ones if the distance type is redshift
-        jacobian = torch.gradient(self.distance_grid, spacing=self.dz)[0]
-        return dV_dz / jacobian
+        return dV_dz / self._jacobian()
 
     def _generate_probability_grids(self):
         """
@@ -379,9 +396,10 @@ class UniformComovingVolume(dist.Distribution):
         return self._linear_interp_1d(self.cdf, self.distance_grid, u)
 
     def log_prob(self, value: Tensor) -> Tensor:
+        # the log of the density may not be finite at zero distance
         log_prob = self._linear_interp_1d(
-            self.distance_grid, self.log_pdf, value
-        )
+            self.distance_grid, self.pdf, value
+        ).log()
         inside_range = (value >= self.minimum) & (value <= self.maximum)
         log_prob[~inside_range] = torch.as_tensor(
             float("-inf"), device=self.minimum.device
@@ -420,6 +438,4 @@ class RateEvolution(UniformComovingVolume):
         Compute the unnormalized probability as a function of distance
         """
         dV_dz = self.comoving_dist_grid**2 / self._hubble_function()
-        # This is a tensor of ones if the distance type is redshift
-        jacobian = torch.gradient(self.distance_grid, spacing=self.dz)[0]
-        return dV_dz / jacobian * self.rate_function(self.z_grid)
+        return dV_dz / self._jacobian() * self.rate_function(self.z_grid)
-- 
2.43.0


From 478535040c93ab8e1678a87c5b2a5c9601bfb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:56 +0000
Subject: [PATCH 22/55] fix: truncated LogNormal draws don't round below their
 bound

---
 ml4gw/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/distributions.py b/ml4gw/distributions.py
index 12032f0..faff8b5 100644
--- a/ml4gw/distributions.py
+++ b/ml4gw/distributions.py
@@ -132,7 +132,7 @@ class LogNormal(dist.LogNormal):
         shape = self._extended_shape(sample_shape)
         u = 1 - torch.rand(shape, device=self.loc.device)
         x = self.loc - self.scale * torch.special.ndtri(u * self._tail())
-        return x.exp()
+        return x.exp().clamp(min=self.low)
 
     def sample(self, sample_shape: torch.Size = None) -> Tensor:
         with torch.no_grad():
-- 
2.43.0


From 40863574c44972f1667a2c9c459f01ffe7f56f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 23/55] fix: the Q-transform's frequencies are computed in
 double precision

---
 ml4gw/transforms/qtransform.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 06bbd2f..38f368a 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -301,9 +301,12 @@ class SingleQTransform(torch.nn.Module):
         fstepmin = 1 / self.duration
 
         freq_base = math.exp(2 / ((2 + self.q**2) ** (1 / 2.0)) * fstep)
-        freqs = torch.Tensor([freq_base ** (i + 0.5) for i in range(nfreq)])
-        # Cast freqs to float64 to avoid off-by-ones from rounding
-        freqs = (minf * freqs.double() // fstepmin) * fstepmin
+        # Use float64 to avoid off-by-ones from rounding
+        freqs = torch.tensor(
+            [freq_base ** (i + 0.5) for i in range(nfreq)],
+            dtype=torch.float64,
+        )
+        freqs = (minf * freqs // fstepmin) * fstepmin
         return torch.unique(freqs)
 
     def get_max_energy(
-- 
2.43.0


From 85d7f29e034857f0366ef0251d5e8c368d9b6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 24/55] fix: SingleQTransform leaves the caller's frequency
 range alone

---
 ml4gw/transforms/qtransform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 38f368a..0139a4d 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -207,7 +207,8 @@ class SingleQTransform(torch.nn.Module):
         super().__init__()
         self.q = q
         self.spectrogram_shape = spectrogram_shape
-        self.frange = frange or [0, torch.inf]
+        # Copy, because default limits are filled in below
+        self.frange = list(frange or [0, torch.inf])
         self.duration = duration
         self.mismatch = mismatch
 
-- 
2.43.0


From 6085a9f1915020cbbb4c282728149359372a22fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 25/55] fix: a search range may reach beyond a transform's
 frequencies

---
 ml4gw/transforms/qtransform.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index 0139a4d..c69648a 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -335,9 +335,14 @@ class SingleQTransform(torch.nn.Module):
             )
 
         if fsearch_range is not None:
-            start = min(torch.argwhere(self.freqs > fsearch_range[0]))
-            stop = min(torch.argwhere(self.freqs > fsearch_range[1]))
+            start = int((self.freqs <= fsearch_range[0]).sum())
+            stop = int((self.freqs <= fsearch_range[1]).sum())
             qtiles = self.qtiles[start:stop]
+            if not qtiles:
+                raise ValueError(
+                    "No frequency of this transform lies within the "
+                    f"search range {fsearch_range}"
+                )
         else:
             qtiles = self.qtiles
 
@@ -554,12 +559,26 @@ class QScan(torch.nn.Module):
         """
         for transform in self.q_transforms:
             transform.compute_qtiles(X, norm)
+        # Only some of the transforms may have frequencies to search
+        transforms = self.q_transforms
+        if fsearch_range is not None:
+            low, high = fsearch_range
+            transforms = [
+                transform
+                for transform in self.q_transforms
+                if ((transform.freqs > low) & (transform.freqs <= high)).any()
+            ]
+            if not transforms:
+                raise ValueError(
+                    "No frequency of any transform lies within the "
+                    f"search range {fsearch_range}"
+                )
         idx = torch.argmax(
             torch.Tensor(
                 [
                     transform.get_max_energy(fsearch_range=fsearch_range)
-                    for transform in self.q_transforms
+                    for transform in transforms
                 ]
             )
         )
-        return self.q_transforms[idx].interpolate()
+        return transforms[idx].interpolate()
-- 
2.43.0


From 38936bf27ac99dc7568bc4477f96243aff65642a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 26/55] fix: the maximum energy is taken over the dimension
 asked for

---
 ml4gw/transforms/qtransform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index c69648a..e32f623 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -356,9 +356,9 @@ class SingleQTransform(torch.nn.Module):
         if dimension == "neither":
             return max_across_ft
         if dimension == "channel":
-            return torch.max(max_across_ft, dim=-2).values
-        if dimension == "batch":
             return torch.max(max_across_ft, dim=-1).values
+        if dimension == "batch":
+            return torch.max(max_across_ft, dim=-2).values
 
     def compute_qtiles(
         self,
-- 
2.43.0


From a9412709c3217d23608ae8a1bb5429728aedb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 27/55] fix: interpolated Q-transforms keep dimensions of
 length one

---
 ml4gw/transforms/qtransform.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index e32f623..b350194 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -6,7 +6,7 @@ import torch.nn.functional as F
 from jaxtyping import Float, Int
 from torch import Tensor
 
-from ..types import FrequencySeries1to3d, TimeSeries1to3d, TimeSeries3d
+from ..types import FrequencySeries1to3d, TimeSeries1to3d
 from .spline_interpolation import SplineInterpolate1D
 
 """
@@ -248,6 +248,7 @@ class SingleQTransform(torch.nn.Module):
             ]
         )
         self.qtiles = None
+        self.leading_shape = None
 
         if self.interpolation_method == "spline":
             self._set_up_spline_interp()
@@ -369,12 +370,13 @@ class SingleQTransform(torch.nn.Module):
         Take the FFT of the input timeseries and calculate the transform
         for each ``QTile``
         """
+        self.leading_shape = X.shape[:-1]
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
         self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
 
-    def interpolate(self) -> TimeSeries3d:
+    def interpolate(self) -> Tensor:
         if self.qtiles is None:
             raise RuntimeError(
                 "Q-tiles must first be computed with .compute_qtiles()"
@@ -394,7 +396,8 @@ class SingleQTransform(torch.nn.Module):
                 dim=-2,
             )
             # Transpose because the final dimension gets interpolated
-            return self.interpolator(time_interped.mT).mT
+            output = self.interpolator(time_interped.mT).mT
+            return output.reshape(*self.leading_shape, *output.shape[-2:])
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -410,7 +413,7 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return torch.squeeze(resampled)
+        return resampled.reshape(*self.leading_shape, num_f_bins, num_t_bins)
 
     def forward(
         self,
-- 
2.43.0


From 7949fb3c584102f8237fc19679328b84586f1717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:26 +0000
Subject: [PATCH 28/55] fix: spline-interpolated Q-transforms have the
 requested number of time bins

---
 ml4gw/transforms/qtransform.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index b350194..c2a7f92 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -261,9 +261,8 @@ class SingleQTransform(torch.nn.Module):
         idx = torch.arange(len(ntiles))
         self.stack_idx = [idx[Tensor(ntiles) == n] for n in unique_ntiles]
 
-        t_out = torch.arange(
-            0, self.duration, self.duration / self.spectrogram_shape[1]
-        )
+        num_t_bins = self.spectrogram_shape[1]
+        t_out = torch.arange(num_t_bins) * (self.duration / num_t_bins)
         self.qtile_interpolators = torch.nn.ModuleList(
             [
                 SplineInterpolate1D(
-- 
2.43.0


From cf2e861ba7819ff4d53c72794013a70f6793fd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 29/55] fix: interior spline knots are FITPACK's on uneven
 grids too

---
 ml4gw/transforms/spline_interpolation.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 44b5f76..2410aca 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -35,10 +35,15 @@ class SplineInterpolateBase(torch.nn.Module):
         knots[: k + 1] = x[0]
         knots[-(k + 1) :] = x[-1]
 
-        # Interior knots are the rolling average of the data points
-        # excluding the first and last points
-        windows = x[1:-1].unfold(dimension=-1, size=k, step=1)
-        knots[k + 1 : -k - 1] = windows.mean(dim=-1)
+        # Interior knots are the data points for odd degrees, and the
+        # midpoints between them for even ones, leaving out as many
+        # points at either end as the degree requires
+        half = (k + 1) // 2
+        if k % 2:
+            knots[k + 1 : -k - 1] = x[half:-half]
+        else:
+            midpoints = (x[:-1] + x[1:]) / 2
+            knots[k + 1 : -k - 1] = midpoints[half:-half]
 
         return knots
 
-- 
2.43.0


From 532ea0c4925424864f1b031e5a0892ae268ea1a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 30/55] fix: coordinates given in one call don't replace those
 of later calls

---
 ml4gw/transforms/spline_interpolation.py | 37 ++++++++++++++----------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 2410aca..0d1d77b 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -247,18 +247,19 @@ class SplineInterpolate1D(SplineInterpolateBase):
         C = torch.linalg.solve(self.BxT_Bx, BxT_Z.unsqueeze(-1))
         return C.squeeze(-1)
 
-    def evaluate_spline(self, C: Tensor):
+    def evaluate_spline(self, C: Tensor, Bx_out: Tensor):
         """
-        Evaluate a bivariate spline on a grid of x and y points.
+        Evaluate a spline on a grid of x points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix for the output coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ij,bchj->bchi", self.Bx_out, C)
+        return torch.einsum("ij,bchj->bchi", Bx_out, C)
 
     def _validate_inputs(self, Z, x_out):
         if x_out is None and self.x_out is None:
@@ -315,12 +316,12 @@ class SplineInterpolate1D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
 
         coef = self.spline_fit_natural(Z)
-        Z_interp = self.evaluate_spline(coef)
+        Z_interp = self.evaluate_spline(coef, Bx_out)
         return Z_interp
 
 
@@ -437,18 +438,22 @@ class SplineInterpolate2D(SplineInterpolateBase):
         # ((BxT @ Bx)^-1 @ (By^-1 @ Z @ Bx)T)T = By^-1 @ Z @ BxT^-1
         return torch.linalg.solve(self.BxT_Bx, E.mT).mT
 
-    def evaluate_bivariate_spline(self, C: Tensor):
+    def evaluate_bivariate_spline(
+        self, C: Tensor, Bx_out: Tensor, By_out: Tensor
+    ):
         """
         Evaluate a bivariate spline on a grid of x and y points.
 
         Args:
             C: Coefficient tensor of shape (batch_size, mx, my).
+            Bx_out: Basis matrix for the output x-coordinates.
+            By_out: Basis matrix for the output y-coordinates.
 
         Returns:
             Z_interp: Interpolated values at the grid points.
         """
         # Perform matrix multiplication using einsum to get Z_interp
-        return torch.einsum("ik,bckm,mj->bcij", self.By_out, C, self.Bx_out.mT)
+        return torch.einsum("ik,bckm,mj->bcij", By_out, C, Bx_out.mT)
 
     def _validate_inputs(self, Z, x_out, y_out):
         if x_out is None and self.x_out is None:
@@ -519,18 +524,18 @@ class SplineInterpolate2D(SplineInterpolateBase):
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
-            self.Bx_out = self.bspline_basis_natural(
-                x_clamped, self.kx, self.tx
-            )
+            Bx_out = self.bspline_basis_natural(x_clamped, self.kx, self.tx)
+        else:
+            Bx_out = self.Bx_out
         if y_out is not None:
             y_out = y_out.float()
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-            self.By_out = self.bspline_basis_natural(
-                y_clamped, self.ky, self.ty
-            )
+            By_out = self.bspline_basis_natural(y_clamped, self.ky, self.ty)
+        else:
+            By_out = self.By_out
 
         coef = self.bivariate_spline_fit_natural(Z)
-        Z_interp = self.evaluate_bivariate_spline(coef)
+        Z_interp = self.evaluate_bivariate_spline(coef, Bx_out, By_out)
         return Z_interp
-- 
2.43.0


From 0ca6f6a723c98e7d712062a4e9af6081a012687b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:37 +0000
Subject: [PATCH 31/55] fix: splines moved to another precision or device
 accept coordinates at call time

---
 ml4gw/transforms/spline_interpolation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ml4gw/transforms/spline_interpolation.py b/ml4gw/transforms/spline_interpolation.py
index 0d1d77b..bd8c75a 100644
--- a/ml4gw/transforms/spline_interpolation.py
+++ b/ml4gw/transforms/spline_interpolation.py
@@ -117,7 +117,7 @@ class SplineInterpolateBase(torch.nn.Module):
         Returns:
             b: Tensor containing the zeroth-order B-spline basis functions.
         """
-        b = torch.zeros((n, m, k + 1))
+        b = torch.zeros((n, m, k + 1), dtype=x.dtype, device=x.device)
 
         mask_lower = t[: m + 1].unsqueeze(0)[:, :-1] <= x.unsqueeze(1)
         mask_upper = x.unsqueeze(1) < t[: m + 1].unsqueeze(0)[:, 1:]
@@ -150,7 +150,7 @@ class SplineInterpolateBase(torch.nn.Module):
         # calculate zeroth order basis funciton
         b = self.zeroth_order(x, k, t, n, m)
 
-        zeros_tensor = torch.zeros(b.shape[0], 1)
+        zeros_tensor = torch.zeros_like(b[:, :1, 0])
         # recursive de Boors formula for bspline basis functions
         for d in range(1, k + 1):
             L, R = self.compute_L_R(x, t, d, m)
@@ -312,7 +312,7 @@ class SplineInterpolate1D(SplineInterpolateBase):
         Z = self._validate_inputs(Z, x_out)
 
         if x_out is not None:
-            x_out = x_out.float()
+            x_out = x_out.to(self.tx)
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
@@ -520,7 +520,7 @@ class SplineInterpolate2D(SplineInterpolateBase):
         Z, y_out = self._validate_inputs(Z, x_out, y_out)
 
         if x_out is not None:
-            x_out = x_out.float()
+            x_out = x_out.to(self.tx)
             x_clamped = torch.clamp(
                 x_out, self.tx[self.kx], self.tx[-self.kx - 1]
             )
@@ -528,7 +528,7 @@ class SplineInterpolate2D(SplineInterpolateBase):
         else:
             Bx_out = self.Bx_out
         if y_out is not None:
-            y_out = y_out.float()
+            y_out = y_out.to(self.ty)
             y_clamped = torch.clamp(
                 y_out, self.ty[self.ky], self.ty[-self.ky - 1]
             )
-- 
2.43.0


From 2d25e9555d0c2524b017051254dae1d971637d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 32/55] fix: joined and split decimation keep the same samples
 of any schedule

---
 ml4gw/transforms/decimator.py | 48 ++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 34786d2..3871516 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -110,10 +110,7 @@ class Decimator(torch.nn.Module):
         idx = self.build_variable_indices()
         self.register_buffer("idx", idx)
 
-        self.expected_len = int(
-            (self.schedule[:, 1][-1] - self.schedule[:, 0][0])
-            * self.sample_rate
-        )
+        self.expected_len = self._to_samples(self.schedule[:, 1].max())
 
     def _validate_inputs(self) -> None:
         r"""
@@ -153,18 +150,27 @@ class Decimator(torch.nn.Module):
             torch.Tensor:
                 1D tensor of indices used to decimate the input.
         """
-        idx = torch.tensor([], dtype=torch.long)
+        return torch.cat([self._segment_indices(s) for s in self.schedule])
 
-        for s in self.schedule:
-            if idx.size(0) == 0:
-                start = int(s[0] * self.sample_rate)
-            else:
-                start = int(idx[-1]) + int(idx[-1] - idx[-2])
-            stop = int(start + (s[1] - s[0]) * self.sample_rate)
-            step = int(self.sample_rate // s[2])
-            new_idx = torch.arange(start, stop, step, dtype=torch.long)
-            idx = torch.cat((idx, new_idx))
-        return idx
+    def _to_samples(self, time: torch.Tensor) -> int:
+        r"""
+        Index of the input sample at a time of the schedule. The input
+        starts at the schedule's first start time.
+        """
+        elapsed = time.double() - self.schedule[:, 0].min().double()
+        return round(float(elapsed * self.sample_rate))
+
+    def _segment_indices(self, s: torch.Tensor) -> torch.Tensor:
+        r"""
+        Compute the time indices to keep for one row of the schedule.
+        """
+        return torch.arange(
+            self._to_samples(s[0]),
+            self._to_samples(s[1]),
+            int(self.sample_rate // s[2]),
+            dtype=torch.long,
+            device=self.schedule.device,
+        )
 
     def split_by_schedule(self, X: torch.Tensor) -> tuple[torch.Tensor, ...]:
         r"""
@@ -187,17 +193,7 @@ class Decimator(torch.nn.Module):
         segments = []
 
         for s in self.schedule:
-            start = int(s[0] * self.sample_rate)
-            stop = int(s[1] * self.sample_rate)
-            step = int(self.sample_rate // s[2])
-            idx = torch.arange(
-                start,
-                stop,
-                step,
-                dtype=torch.long,
-                device=self.schedule.device,
-            )
-            seg = X.index_select(dim=-1, index=idx)
+            seg = X.index_select(dim=-1, index=self._segment_indices(s))
             segments.append(seg)
 
         return segments
-- 
2.43.0


From 820d4fe73d4705c535bff678e6de199340963c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 33/55] fix: target rates that don't divide the sample rate are
 refused

---
 ml4gw/transforms/decimator.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/decimator.py b/ml4gw/transforms/decimator.py
index 3871516..d1a14f7 100644
--- a/ml4gw/transforms/decimator.py
+++ b/ml4gw/transforms/decimator.py
@@ -127,7 +127,10 @@ class Decimator(torch.nn.Module):
                 "Each schedule segment must have end_time > start_time"
             )
 
-        if torch.any(self.sample_rate % self.schedule[:, 2].long() != 0):
+        if not torch.all(self.schedule[:, 2] > 0):
+            raise ValueError("Target sample rates must be positive")
+
+        if torch.any(self.sample_rate % self.schedule[:, 2] != 0):
             raise ValueError(
                 f"Sample rate {self.sample_rate} must be divisible by all "
                 f"target rates {self.schedule[:, 2].tolist()}"
-- 
2.43.0


From 2bfda92ec8fd6582f62418581ed7160988379546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 34/55] fix: heterodyned timeseries keep an odd number of
 samples

---
 ml4gw/transforms/heterodyne.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 8d02477..15f2252 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -126,7 +126,7 @@ class Heterodyne(torch.nn.Module):
         X_fft /= self.sample_rate
         X_heterodyned = X_fft[:, :, None] * self.heterodyning_phase[None, :, :]
         X_heterodyned[..., 0] = 0
-        X_ifft = torch.fft.irfft(X_heterodyned, dim=-1)
+        X_ifft = torch.fft.irfft(X_heterodyned, n=X.shape[-1], dim=-1)
         X_ifft *= self.sample_rate
 
         if self.return_type == "time":
-- 
2.43.0


From 492a1f03166e01e164d678d1b08e1b461b1f4054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 35/55] fix: the heterodyning phase is computed in double
 precision

---
 ml4gw/transforms/heterodyne.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 15f2252..9157b23 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -102,8 +102,18 @@ class Heterodyne(torch.nn.Module):
             torch.Tensor:
                 Tensor of shape `(M, F)` containing complex phase factors.
         """
-        phase = torch.exp((3j / 128) * (self.pi_m_f ** (-5 / 3)))
-        return phase
+        # The phase reaches many thousands of radians, so it needs double
+        # precision even if the factors that multiply the data don't
+        freqs = torch.fft.rfftfreq(
+            int(self.kernel_length * self.sample_rate),
+            d=1 / self.sample_rate,
+            dtype=torch.float64,
+            device=self.chirp_mass.device,
+        )
+        mass = self.chirp_mass[:, None].double() * MTSUN_SI
+        pi_m_f = torch.pi * mass * freqs[None, :]
+        phase = torch.exp((3j / 128) * (pi_m_f ** (-5 / 3)))
+        return phase.to(self.pi_m_f.dtype.to_complex())
 
     def forward(
         self, X: torch.Tensor
-- 
2.43.0


From 1addbb498714080ae73163a3f89b0dced1275b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 36/55] fix: the leaky integrator starts at zero whatever its
 lower bound

---
 ml4gw/transforms/integrator.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index d41a60f..27f1894 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -111,8 +111,6 @@ class LeakyIntegrator(torch.nn.Module):
         # Figure out the furthest we've gone below the lower bound
         offset = torch.cummin(raw_sum - self.lower_bound, dim=-1)[0]
         # Account for the case of the raw sum starting above the lower bound
-        offset = torch.minimum(
-            offset, torch.full_like(offset, self.lower_bound)
-        )
+        offset = torch.clamp(offset, max=0)
 
         return raw_sum - offset
-- 
2.43.0


From 0227a7a702fb0938e975384525e10a1c59954965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:28 +0000
Subject: [PATCH 37/55] fix: Heterodyne's frequencies fit durations that round
 below a whole sample

---
 ml4gw/transforms/heterodyne.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 9157b23..5e6dab0 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -77,7 +77,8 @@ class Heterodyne(torch.nn.Module):
         self.chirp_mass = chirp_mass
 
         self.freq_grid = torch.fft.rfftfreq(
-            int(self.kernel_length * self.sample_rate), d=1 / self.sample_rate
+            round(self.kernel_length * self.sample_rate),
+            d=1 / self.sample_rate,
         )
 
         self.pi_m_f = (
@@ -105,7 +106,7 @@ class Heterodyne(torch.nn.Module):
         # The phase reaches many thousands of radians, so it needs double
         # precision even if the factors that multiply the data don't
         freqs = torch.fft.rfftfreq(
-            int(self.kernel_length * self.sample_rate),
+            round(self.kernel_length * self.sample_rate),
             d=1 / self.sample_rate,
             dtype=torch.float64,
             device=self.chirp_mass.device,
-- 
2.43.0


From 119ffa2879f0b68425f7b718a57d008f42303853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:42 +0000
Subject: [PATCH 38/55] fix: TophatIntegrator's window fits lengths that round
 below a whole sample

---
 ml4gw/transforms/integrator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ml4gw/transforms/integrator.py b/ml4gw/transforms/integrator.py
index 27f1894..824c1ed 100644
--- a/ml4gw/transforms/integrator.py
+++ b/ml4gw/transforms/integrator.py
@@ -32,7 +32,8 @@ class TophatIntegrator(torch.nn.Module):
         super().__init__()
         self.sample_rate = sample_rate
         self.integration_length = integration_length
-        self.window_size = int(self.sample_rate * self.integration_length) + 1
+        num_steps = round(self.sample_rate * self.integration_length)
+        self.window_size = num_steps + 1
         self.register_buffer(
             "window", torch.ones((1, 1, self.window_size)) / self.window_size
         )
-- 
2.43.0


From 25a71c2c65579ed94a501daa77a3d8fef9cf2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 39/55] fix: eight or more resolutions don't disorder the
 checked lengths

---
 ml4gw/transforms/spectrogram.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index 12fc434..b327cd2 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -104,8 +104,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self.register_buffer("time_idxs", time_idxs)
 
     def _check_and_format_kwargs(self, kwargs: dict[str, list]) -> list:
-        lengths = sorted(len(v) for v in kwargs.values())
-        lengths = list(set(lengths))
+        lengths = sorted({len(v) for v in kwargs.values()})
 
         if lengths[-1] > 3:
             warnings.warn(
-- 
2.43.0


From 49757520a4ba7eec593175fda3873bef9745a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 40/55] fix: spectrograms of kernel lengths that round below a
 whole sample accept their input

---
 ml4gw/transforms/spectrogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/transforms/spectrogram.py b/ml4gw/transforms/spectrogram.py
index b327cd2..dab86ee 100644
--- a/ml4gw/transforms/spectrogram.py
+++ b/ml4gw/transforms/spectrogram.py
@@ -46,7 +46,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
         self, kernel_length: float, sample_rate: float, **kwargs
     ) -> None:
         super().__init__()
-        self.kernel_size = kernel_length * sample_rate
+        self.kernel_size = round(kernel_length * sample_rate)
         # This method of combination makes sense only when
         # the spectrograms are normalized, so enforce this
         if "normalized" in kwargs.keys():
@@ -64,7 +64,7 @@ class MultiResolutionSpectrogram(torch.nn.Module):
             [Spectrogram(**k) for k in self.kwargs]
         )
 
-        dummy_input = torch.ones(int(kernel_length * sample_rate))
+        dummy_input = torch.ones(self.kernel_size)
         self.shapes = torch.tensor(
             [t(dummy_input).shape for t in self.transforms]
         )
-- 
2.43.0


From 9f4be6429de08303e84819129f274f10873bba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:04 +0000
Subject: [PATCH 41/55] fix: normalise series before correlating them, so that
 strain-sized series do not underflow

---
 ml4gw/transforms/pearson.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ml4gw/transforms/pearson.py b/ml4gw/transforms/pearson.py
index 8f75dd8..c5207c3 100644
--- a/ml4gw/transforms/pearson.py
+++ b/ml4gw/transforms/pearson.py
@@ -81,6 +81,12 @@ class ShiftedPearsonCorrelation(torch.nn.Module):
         x = x - x.mean(-1, keepdims=True)
         y = y - y.mean(-1, keepdims=True)
 
+        # the coefficient doesn't depend on the scale of either series:
+        # bring both to order one, so that the squares below neither
+        # underflow (e.g. for strain) nor overflow
+        x = x / x.abs().amax(-1, keepdim=True)
+        y = y / y.abs().amax(-1, keepdim=True)
+
         # apply formula and sum along time dimension to give final shape
         # num_windows x batch x channels
         corr = (x * y).sum(axis=-1)
-- 
2.43.0


From 873c863116ed98b52d0eae5b8e3a6d8cc19343b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 42/55] fix: compute GroupNorm1D's variance without
 cancellation

---
 ml4gw/nn/norm.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/ml4gw/nn/norm.py b/ml4gw/nn/norm.py
index 2606de1..5dcd6dd 100644
--- a/ml4gw/nn/norm.py
+++ b/ml4gw/nn/norm.py
@@ -44,27 +44,33 @@ class GroupNorm1D(torch.nn.Module):
 
         keepdims = self.num_groups == self.num_channels
 
-        # compute group variance via the E[x**2] - E**2[x] trick
-        mean = x.mean(-1, keepdims=keepdims)
-        sq_mean = (x**2).mean(-1, keepdims=keepdims)
+        # compute the per-channel statistics in one pass. Avoid the
+        # E[x**2] - E**2[x] trick, which loses all precision (and can
+        # even go negative) when the mean is large compared to the std
+        var, mean = torch.var_mean(x, -1, correction=0, keepdim=keepdims)
 
         # if we have groups, do some reshape magic
         # to calculate group level stats then
         # reshape back to full channel dimension
         if self.num_groups != self.num_channels:
-            mean = torch.stack([mean, sq_mean], dim=1)
-            mean = mean.reshape(
-                -1, 2, self.num_groups, self.channels_per_group
+            shape = (-1, self.num_groups, self.channels_per_group)
+            mean, var = mean.reshape(shape), var.reshape(shape)
+            # the variance of a group is the mean of its channels'
+            # variances plus the variance of their means
+            var_of_means, mean = torch.var_mean(
+                mean, -1, correction=0, keepdim=True
             )
-            mean = mean.mean(-1, keepdims=True)
-            mean = mean.expand(-1, -1, -1, self.channels_per_group)
-            mean = mean.reshape(-1, 2, self.num_channels, 1)
-            mean, sq_mean = mean[:, 0], mean[:, 1]
+            var = var.mean(-1, keepdim=True) + var_of_means
+
+            stats = torch.stack([mean, var], dim=1)
+            stats = stats.expand(-1, -1, -1, self.channels_per_group)
+            stats = stats.reshape(-1, 2, self.num_channels, 1)
+            mean, var = stats[:, 0], stats[:, 1]
 
         # roll the mean and variance into the
         # weight and bias so that we have to do
         # fewer computations along the full time axis
-        std = (sq_mean - mean**2 + self.eps) ** 0.5
+        std = (var + self.eps) ** 0.5
         scale = self.weight / std
         shift = self.bias - scale * mean
         return shift + x * scale
-- 
2.43.0


From fcf05ade0674d268d2b3029bd72ab533b4a900bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:53 +0000
Subject: [PATCH 43/55] fix: support residual networks with a single residual
 layer

---
 ml4gw/nn/resnet/resnet_1d.py | 2 +-
 ml4gw/nn/resnet/resnet_2d.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/resnet/resnet_1d.py b/ml4gw/nn/resnet/resnet_1d.py
index b8350e5..8d84d06 100644
--- a/ml4gw/nn/resnet/resnet_1d.py
+++ b/ml4gw/nn/resnet/resnet_1d.py
@@ -308,7 +308,7 @@ class ResNet1D(nn.Module):
 
         # use a fully connected layer to map from the
         # feature maps to the binary output that we need
-        self.fc = nn.Linear(block_size * self.block.expansion, classes)
+        self.fc = nn.Linear(self.inplanes, classes)
 
         for m in self.modules():
             if isinstance(m, nn.Conv1d):
diff --git a/ml4gw/nn/resnet/resnet_2d.py b/ml4gw/nn/resnet/resnet_2d.py
index fc40b7f..82ba9be 100644
--- a/ml4gw/nn/resnet/resnet_2d.py
+++ b/ml4gw/nn/resnet/resnet_2d.py
@@ -308,7 +308,7 @@ class ResNet2D(nn.Module):
 
         # use a fully connected layer to map from the
         # feature maps to the binary output that we need
-        self.fc = nn.Linear(block_size * self.block.expansion, classes)
+        self.fc = nn.Linear(self.inplanes, classes)
 
         for m in self.modules():
             if isinstance(m, nn.Conv2d):
-- 
2.43.0


From 9bb9658f1b58b2f2c38069e3960b3c06e392ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 44/55] fix: instantiate the activation of autoencoder decoders

---
 ml4gw/nn/autoencoder/convolutional.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index f78277d..ef1beb2 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -56,10 +56,11 @@ class ConvBlock(Autoencoder):
         )
 
         self.activation = activation()
-        if output_activation is not None:
-            self.output_activation = output_activation
-        else:
-            self.output_activation = activation
+        if output_activation is None:
+            output_activation = activation
+        if not isinstance(output_activation, torch.nn.Module):
+            output_activation = output_activation()
+        self.output_activation = output_activation
 
         self.encode_norm = norm(out_channels)
         self.decode_norm = norm(decode_channels)
-- 
2.43.0


From 1843867be33c8d64e839bbf1c1c02484e82e4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 45/55] fix: pair decoders with the states of their own depth

---
 ml4gw/nn/autoencoder/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 97c3acf..2fea5b2 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -64,7 +64,7 @@ class Autoencoder(torch.nn.Module):
                 )
 
             # Don't skip connect the output layer
-            states = states[::-1] + [None]
+            states = list(states[::-1]) + [None]
 
         for i, block in enumerate(self.blocks[::-1]):
             if isinstance(X, tuple):
@@ -72,9 +72,10 @@ class Autoencoder(torch.nn.Module):
             else:
                 X = block.decode(X)
 
-            state = states[-i - 1]
-            if state is not None:
-                X = self.skip_connection(X, state)
+            # the states have been reversed, so that the i-th one
+            # is the input to the i-th block from the end
+            if self.skip_connection is not None and states[i] is not None:
+                X = self.skip_connection(X, states[i])
         return X
 
     def forward(self, *X: Tensor) -> Tensor:
-- 
2.43.0


From b7b6b7117a6b8c63aa56655222fadb22abf93c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 46/55] fix: pass multiple encoder outputs on to decode when
 skip connecting

---
 ml4gw/nn/autoencoder/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/base.py b/ml4gw/nn/autoencoder/base.py
index 2fea5b2..09c3fcd 100644
--- a/ml4gw/nn/autoencoder/base.py
+++ b/ml4gw/nn/autoencoder/base.py
@@ -82,7 +82,7 @@ class Autoencoder(torch.nn.Module):
         return_states = self.skip_connection is not None
         X = self.encode(*X, return_states=return_states)
         if return_states:
-            *X, states = X
+            X, states = X
         else:
             states = None
 
-- 
2.43.0


From e2654581db5a80b257a8b516c6295b1e964acde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 47/55] fix: don't expect skip-connected channels in the
 deepest decoder

---
 ml4gw/nn/autoencoder/convolutional.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ml4gw/nn/autoencoder/convolutional.py b/ml4gw/nn/autoencoder/convolutional.py
index ef1beb2..70731f9 100644
--- a/ml4gw/nn/autoencoder/convolutional.py
+++ b/ml4gw/nn/autoencoder/convolutional.py
@@ -119,11 +119,10 @@ class ConvolutionalAutoencoder(Autoencoder):
             # case it will just be in_channels anyway)
             decode = in_channels if i else decode_channels
 
-            # don't have the middle layer skip to itself
-            # TODO: wait I don't think this makes sense.
-            # j = len(encode_channels) - 1 - i
-            # connect = skip_connection if j else None
-            connect = skip_connection
+            # the middle layer decodes the encoded vector
+            # itself, which isn't connected to anything
+            j = len(encode_channels) - 1 - i
+            connect = skip_connection if j else None
 
             # all intermediate layers should use the same
             # activation. Only the last decoder should have
-- 
2.43.0


From fc1b347364afbdf5ee5de38280e73e2091c238f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:13 +0000
Subject: [PATCH 48/55] fix: crop both sides in match_size

---
 ml4gw/nn/autoencoder/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ml4gw/nn/autoencoder/utils.py b/ml4gw/nn/autoencoder/utils.py
index f5373f5..cb2df2e 100644
--- a/ml4gw/nn/autoencoder/utils.py
+++ b/ml4gw/nn/autoencoder/utils.py
@@ -10,6 +10,6 @@ def match_size(X: Tensor, target_size: int) -> Tensor:
     if diff > 0:
         return torch.nn.functional.pad(X, (left, right))
     elif diff < 0:
-        right = -right or None
+        right = right or None
         return X[:, :, -left:right]
     return X
-- 
2.43.0


From a5523cb13df42f9b789a6ebdad6482d3c9c333c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 49/55] fix: split skip-connected channels into groups rather
 than by their number

---
 ml4gw/nn/autoencoder/skip_connection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ml4gw/nn/autoencoder/skip_connection.py b/ml4gw/nn/autoencoder/skip_connection.py
index fa51557..cd98d51 100644
--- a/ml4gw/nn/autoencoder/skip_connection.py
+++ b/ml4gw/nn/autoencoder/skip_connection.py
@@ -39,7 +39,10 @@ class ConcatSkipConnect(SkipConnection):
                 f"be divided evenly into {self.groups} groups"
             )
 
-        X = torch.split(X, self.groups, dim=1)
-        state = torch.split(state, self.groups, dim=1)
+        # keep the channels of each group of both tensors next
+        # to one another, as grouped convolutions expect them
+        group_size = num_channels // self.groups
+        X = torch.split(X, group_size, dim=1)
+        state = torch.split(state, group_size, dim=1)
         frags = [i for j in zip(X, state, strict=True) for i in j]
         return torch.cat(frags, dim=1)
-- 
2.43.0


From 24c4a6b8826f50120dd4a7b3c29233a8fbc9fdba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:00 +0000
Subject: [PATCH 50/55] fix: clamp interpolation indices in IMRPhenomPv2

---
 ml4gw/waveforms/cbc/phenom_p.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index 597087a..bfd1a71 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -430,6 +430,7 @@ class IMRPhenomPv2(IMRPhenomD):
         b = fp[:-1] - (m * xp[:-1])
 
         indices = torch.searchsorted(xp, x, right=False) - 1
+        indices = indices.clamp(0, len(m) - 1)
 
         interpolated = m[indices] * x + b[indices]
 
-- 
2.43.0


From 7f9f8eb7c668b101d77bcbf3f262dd2cacff0d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:20 +0000
Subject: [PATCH 51/55] fix: keep concurrent calls of Q-transforms apart

---
 ml4gw/transforms/qtransform.py | 58 +++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 19 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index c2a7f92..dc93291 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -333,18 +333,23 @@ class SingleQTransform(torch.nn.Module):
             raise RuntimeError(
                 "Q-tiles must first be computed with .compute_qtiles()"
             )
+        return self._get_max_energy(self.qtiles, fsearch_range, dimension)
 
+    def _get_max_energy(
+        self,
+        qtiles: list[Tensor],
+        fsearch_range: list[float] = None,
+        dimension: str = "both",
+    ):
         if fsearch_range is not None:
             start = int((self.freqs <= fsearch_range[0]).sum())
             stop = int((self.freqs <= fsearch_range[1]).sum())
-            qtiles = self.qtiles[start:stop]
+            qtiles = qtiles[start:stop]
             if not qtiles:
                 raise ValueError(
                     "No frequency of this transform lies within the "
                     f"search range {fsearch_range}"
                 )
-        else:
-            qtiles = self.qtiles
 
         if dimension == "both":
             return max([torch.max(qtile) for qtile in qtiles])
@@ -369,20 +374,32 @@ class SingleQTransform(torch.nn.Module):
         Take the FFT of the input timeseries and calculate the transform
         for each ``QTile``
         """
-        self.leading_shape = X.shape[:-1]
+        self._compute_qtiles(X, norm)
+
+    def _compute_qtiles(self, X: TimeSeries1to3d, norm: str) -> list[Tensor]:
+        # Return the tiles as well, because another call
+        # may replace those of this object at any time
+        leading_shape = X.shape[:-1]
         # Computing the FFT with the same normalization and scaling as GWpy
         X = torch.fft.rfft(X, norm="forward")
         X[..., 1:] *= 2
-        self.qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
+        qtiles = [qtile(X, norm) for qtile in self.qtile_transforms]
+        self.leading_shape, self.qtiles = leading_shape, qtiles
+        return qtiles
 
     def interpolate(self) -> Tensor:
         if self.qtiles is None:
             raise RuntimeError(
                 "Q-tiles must first be computed with .compute_qtiles()"
             )
+        return self._interpolate(self.qtiles, self.leading_shape)
+
+    def _interpolate(
+        self, qtiles: list[Tensor], leading_shape: torch.Size
+    ) -> Tensor:
         if self.interpolation_method == "spline":
             qtiles = [
-                torch.stack([self.qtiles[i] for i in idx], dim=-2)
+                torch.stack([qtiles[i] for i in idx], dim=-2)
                 for idx in self.stack_idx
             ]
             time_interped = torch.cat(
@@ -396,7 +413,7 @@ class SingleQTransform(torch.nn.Module):
             )
             # Transpose because the final dimension gets interpolated
             output = self.interpolator(time_interped.mT).mT
-            return output.reshape(*self.leading_shape, *output.shape[-2:])
+            return output.reshape(*leading_shape, *output.shape[-2:])
         num_f_bins, num_t_bins = self.spectrogram_shape
         resampled = [
             F.interpolate(
@@ -404,7 +421,7 @@ class SingleQTransform(torch.nn.Module):
                 (qtile.shape[-2], num_t_bins),
                 mode=self.interpolation_method,
             )
-            for qtile in self.qtiles
+            for qtile in qtiles
         ]
         resampled = torch.stack(resampled, dim=-2)
         resampled = F.interpolate(
@@ -412,7 +429,7 @@ class SingleQTransform(torch.nn.Module):
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-        return resampled.reshape(*self.leading_shape, num_f_bins, num_t_bins)
+        return resampled.reshape(*leading_shape, num_f_bins, num_t_bins)
 
     def forward(
         self,
@@ -438,8 +455,8 @@ class SingleQTransform(torch.nn.Module):
             have one more dimension than the input
         """
 
-        self.compute_qtiles(X, norm)
-        return self.interpolate()
+        qtiles = self._compute_qtiles(X, norm)
+        return self._interpolate(qtiles, X.shape[:-1])
 
 
 class QScan(torch.nn.Module):
@@ -559,15 +576,17 @@ class QScan(torch.nn.Module):
             An interpolated Q-transform for the batch of data. Output will
             have one more dimension than the input
         """
-        for transform in self.q_transforms:
-            transform.compute_qtiles(X, norm)
+        qtiles = [
+            transform._compute_qtiles(X, norm)
+            for transform in self.q_transforms
+        ]
         # Only some of the transforms may have frequencies to search
-        transforms = self.q_transforms
+        transforms = list(zip(self.q_transforms, qtiles, strict=True))
         if fsearch_range is not None:
             low, high = fsearch_range
             transforms = [
-                transform
-                for transform in self.q_transforms
+                (transform, tiles)
+                for transform, tiles in transforms
                 if ((transform.freqs > low) & (transform.freqs <= high)).any()
             ]
             if not transforms:
@@ -578,9 +597,10 @@ class QScan(torch.nn.Module):
         idx = torch.argmax(
             torch.Tensor(
                 [
-                    transform.get_max_energy(fsearch_range=fsearch_range)
-                    for transform in transforms
+                    transform._get_max_energy(tiles, fsearch_range)
+                    for transform, tiles in transforms
                 ]
             )
         )
-        return transforms[idx].interpolate()
+        transform, tiles = transforms[idx]
+        return transform._interpolate(tiles, X.shape[:-1])
-- 
2.43.0


From 2783d3fa675116b2ec1e9d16a281030256b663c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:11 +0000
Subject: [PATCH 52/55] fix: don't interpolate Q-tiles across channels

---
 ml4gw/transforms/qtransform.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ml4gw/transforms/qtransform.py b/ml4gw/transforms/qtransform.py
index dc93291..5b36b99 100644
--- a/ml4gw/transforms/qtransform.py
+++ b/ml4gw/transforms/qtransform.py
@@ -415,17 +415,19 @@ class SingleQTransform(torch.nn.Module):
             output = self.interpolator(time_interped.mT).mT
             return output.reshape(*leading_shape, *output.shape[-2:])
         num_f_bins, num_t_bins = self.spectrogram_shape
+        # Give each tile a dimension of size one to interpolate over
+        # along with time, so that channels can't affect each other
         resampled = [
             F.interpolate(
-                qtile[None],
-                (qtile.shape[-2], num_t_bins),
+                qtile.unsqueeze(-2),
+                (1, num_t_bins),
                 mode=self.interpolation_method,
             )
             for qtile in qtiles
         ]
-        resampled = torch.stack(resampled, dim=-2)
+        resampled = torch.cat(resampled, dim=-2)
         resampled = F.interpolate(
-            resampled[0],
+            resampled,
             (num_f_bins, num_t_bins),
             mode=self.interpolation_method,
         )
-- 
2.43.0


From 5d4d8c5396fe25de8fc972a216de2918cfbcf6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:05 +0000
Subject: [PATCH 53/55] fix: IMRPhenomPv2 delays the waveform by its
 coalescence time

The phase left out 2 pi and was scaled down by the total mass in seconds,
so that tc moved the waveform by a tiny fraction of itself.
---
 ml4gw/waveforms/cbc/phenom_p.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ml4gw/waveforms/cbc/phenom_p.py b/ml4gw/waveforms/cbc/phenom_p.py
index bfd1a71..62925ee 100644
--- a/ml4gw/waveforms/cbc/phenom_p.py
+++ b/ml4gw/waveforms/cbc/phenom_p.py
@@ -64,7 +64,7 @@ class IMRPhenomPv2(IMRPhenomD):
             distance :
                 Luminosity distance in Mpc.
             tc :
-                Coalescence time.
+                Coalescence time in seconds.
             phic :
                 Reference phase.
             inclination :
@@ -184,10 +184,7 @@ class IMRPhenomPv2(IMRPhenomD):
         phase_corr = torch.cos(2 * PI * fs * (t0)) - 1j * torch.sin(
             2 * PI * fs * (t0)
         )
-        M_s = (m1 + m2) * MTSUN_SI
-        phase_corr_tc = torch.exp(
-            -1j * fs * M_s.unsqueeze(1) * tc.unsqueeze(1)
-        )
+        phase_corr_tc = torch.exp(-2j * PI * fs * tc.unsqueeze(1))
         hp *= phase_corr * phase_corr_tc
         hc *= phase_corr * phase_corr_tc
 
-- 
2.43.0


From 1f688f7412c375c21c8fb6899c912f06a1759b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:23 +0000
Subject: [PATCH 54/55] fix: Heterodyne: finite gradients

The phase factor at zero frequency was not a number, so the gradient by
the data was not either, although the bin is dropped from the result.
---
 ml4gw/transforms/heterodyne.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ml4gw/transforms/heterodyne.py b/ml4gw/transforms/heterodyne.py
index 5e6dab0..1af0c1c 100644
--- a/ml4gw/transforms/heterodyne.py
+++ b/ml4gw/transforms/heterodyne.py
@@ -114,6 +114,9 @@ class Heterodyne(torch.nn.Module):
         mass = self.chirp_mass[:, None].double() * MTSUN_SI
         pi_m_f = torch.pi * mass * freqs[None, :]
         phase = torch.exp((3j / 128) * (pi_m_f ** (-5 / 3)))
+        # The phase diverges at zero frequency, which is dropped from the
+        # result: keep the factor finite so that the gradients are as well
+        phase[..., 0] = 0
         return phase.to(self.pi_m_f.dtype.to_complex())
 
     def forward(
-- 
2.43.0


From 639cce19458abeb00d265930d9f20c986a09c95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:52 +0000
Subject: [PATCH 55/55] fix: Ringdown: gradients in single precision

The waveform is returned in double precision, but its intermediate values
in SI units were not: gradients by distance, frequency and quality
underflowed to (nearly) zero for single-precision parameters.
---
 ml4gw/waveforms/adhoc/ringdown.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ml4gw/waveforms/adhoc/ringdown.py b/ml4gw/waveforms/adhoc/ringdown.py
index a47143e..c3676c7 100644
--- a/ml4gw/waveforms/adhoc/ringdown.py
+++ b/ml4gw/waveforms/adhoc/ringdown.py
@@ -53,13 +53,14 @@ class Ringdown(torch.nn.Module):
             Tensors of cross and plus polarizations
         """
 
-        # add dimension for calculating waveforms in batch
-        frequency = frequency.view(-1, 1)
-        quality = quality.view(-1, 1)
-        epsilon = epsilon.view(-1, 1)
-        phase = phase.view(-1, 1)
-        inclination = inclination.view(-1, 1)
-        distance = distance.view(-1, 1)
+        # add dimension for calculating waveforms in batch. In SI units, the
+        # gradients of intermediate values don't fit in single precision
+        frequency = frequency.view(-1, 1).double()
+        quality = quality.view(-1, 1).double()
+        epsilon = epsilon.view(-1, 1).double()
+        phase = phase.view(-1, 1).double()
+        inclination = inclination.view(-1, 1).double()
+        distance = distance.view(-1, 1).double()
 
         # convert Mpc to m
         distance = distance * m_per_Mpc
-- 
2.43.0

