From 2a1f467cbfdbe9a805cb38455ed61cb3bfd4e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:33 +0000
Subject: [PATCH 01/65] fix: FIR filters with a single coefficient no longer
 raise in the uncertainty propagation

---
 PyDynamic/uncertainty/propagate_filter.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index ddaac6a..0d1dfa0 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -87,7 +87,9 @@ def _fir_filter(x, theta, Ux=None, Utheta=None, initial_conditions="constant"):
         )
 
     # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    # a filter with a single coefficient has no internal state (lfilter_zi would fail)
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy = np.zeros((len(x), len(x)))
@@ -189,7 +191,9 @@ def _fir_filter_diag(
         )
 
     # propagate filter
-    y, _ = lfilter(theta, 1.0, x, zi=x0 * lfilter_zi(theta, 1.0))
+    # a filter with a single coefficient has no internal state (lfilter_zi would fail)
+    zi = x0 * lfilter_zi(theta, 1.0) if Ntheta > 1 else np.zeros(0)
+    y, _ = lfilter(theta, 1.0, x, zi=zi)
 
     # propagate uncertainty
     Uy_diag = np.zeros(len(x))
-- 
2.43.0


From e694629901385547e3709e531a30b047fe542917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:46 +0000
Subject: [PATCH 02/65] fix: FIRuncFilter accepts coefficient-wise standard
 uncertainties in the full covariance path

---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 0d1dfa0..b719c27 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -386,6 +386,10 @@ def FIRuncFilter(
                 "Unsupported value of sigma_noise. Please check the documentation."
             )
 
+        # coefficient-wise standard uncertainties represent a diagonal covariance
+        if isinstance(Utheta, np.ndarray) and len(Utheta.shape) == 1:
+            Utheta = np.diag(np.square(Utheta))
+
         # filter operation(s)
         if isinstance(blow, np.ndarray):
             # apply (fully certain) lowpass-filter
-- 
2.43.0


From 2ea6dc596b26eb25c5381f0d994e27af80072f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 03/65] fix: FIRuncFilter shifts rows and columns of the
 covariance together with the signal

---
 PyDynamic/uncertainty/propagate_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index b719c27..983ccb8 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -407,7 +407,7 @@ def FIRuncFilter(
         # shift result
         if shift != 0:
             x = np.roll(x, -int(shift))
-            Ux = np.roll(Ux, (-int(shift), -int(shift)))
+            Ux = np.roll(Ux, (-int(shift), -int(shift)), axis=(0, 1))
 
         if return_full_covariance:
             return x, Ux
-- 
2.43.0


From 6c8c15cc0ca72208024abc8624600d77b5d93362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 04/65] fix: FIRuncFilter applies the requested shift in the
 point-wise uncertainty path as well

---
 PyDynamic/uncertainty/propagate_filter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 983ccb8..7483e2d 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -358,6 +358,12 @@ def FIRuncFilter(
         x, Ux_diag = _fir_filter_diag(
             y, theta, Uy_diag, Utheta_diag, initial_conditions="constant"
         )
+
+        # shift result
+        if shift != 0:
+            x = np.roll(x, -int(shift))
+            Ux_diag = np.roll(Ux_diag, -int(shift))
+
         return x, np.sqrt(np.abs(Ux_diag))
 
     # otherwise, the method computes full covariance information
-- 
2.43.0


From e54225c5005ce58bd322ee8c9c1704950c79c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:05 +0000
Subject: [PATCH 05/65] fix: FIRuncFilter no longer truncates uncertainties to
 integers for integer valued signals

---
 PyDynamic/uncertainty/propagate_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 7483e2d..2a3e422 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -342,14 +342,14 @@ def FIRuncFilter(
     ):
 
         if isinstance(sigma_noise, float):
-            Uy_diag = np.full_like(y, sigma_noise ** 2)
+            Uy_diag = np.full(len(y), sigma_noise ** 2)
         elif isinstance(sigma_noise, np.ndarray):
             Uy_diag = np.square(sigma_noise)
         else:
             Uy_diag = sigma_noise
 
         if isinstance(Utheta, float):
-            Utheta_diag = np.full_like(theta, Utheta)
+            Utheta_diag = np.full(len(theta), Utheta)
         elif isinstance(Utheta, np.ndarray):
             Utheta_diag = np.square(Utheta)
         else:
-- 
2.43.0


From 31afd0804d2ebb73f90b4111472a4bd11b9eff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:38 +0000
Subject: [PATCH 06/65] fix: IIRuncFilter runs again (missing import) and
 propagates a, b and noise as documented

---
 PyDynamic/uncertainty/propagate_filter.py | 34 +++++++++++++----------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_filter.py b/PyDynamic/uncertainty/propagate_filter.py
index 2a3e422..a7e17b6 100644
--- a/PyDynamic/uncertainty/propagate_filter.py
+++ b/PyDynamic/uncertainty/propagate_filter.py
@@ -17,7 +17,7 @@ This modules contains the following functions:
 
 import numpy as np
 from scipy.linalg import toeplitz
-from scipy.signal import lfilter, lfilter_zi, dimpulse
+from scipy.signal import lfilter, lfilter_zi, dimpulse, tf2ss
 from scipy.signal import convolve
 from ..misc.tools import trimOrPad
 
@@ -463,14 +463,12 @@ def IIRuncFilter(x, noise, b, a, Uab):
     # From discrete-time transfer function to state space representation.
     [A, bs, c, b0] = tf2ss(b, a)
 
-    A = np.matrix(A)
-    bs = np.matrix(bs)
-    c = np.matrix(c)
+    bs, c, b0 = bs[:, 0], c[0, :], b0[0, 0]
 
-    phi = np.zeros((2 * p + 1, 1))
+    phi = np.zeros(2 * p + 1)
     dz = np.zeros((p, p))
     dz1 = np.zeros((p, p))
-    z = np.zeros((p, 1))
+    z = np.zeros(p)
     P = np.zeros((p, p))
 
     y = np.zeros((len(x),))
@@ -483,16 +481,22 @@ def IIRuncFilter(x, noise, b, a, Uab):
     # implementation of the state-space formulas from the paper
     for n in range(len(y)):
         for k in range(p):  # derivative w.r.t. a_1,...,a_p
-            dz1[:, k] = A * dz[:, k] + np.squeeze(Aabl[:, :, k]) * z
-            phi[k] = c * dz[:, k] - b0 * z[k]
-        phi[p + 1] = -np.matrix(a[1:]) * z + x[n]  # derivative w.r.t. b_0
-        for k in range(p + 2, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
+            dz1[:, k] = np.dot(A, dz[:, k]) + np.dot(Aabl[:, :, k], z)
+            phi[k] = np.dot(c, dz[:, k]) - b0 * z[k]
+        phi[p] = -np.dot(a[1:], z) + x[n]  # derivative w.r.t. b_0
+        for k in range(p + 1, 2 * p + 1):  # derivative w.r.t. b_1,...,b_p
             phi[k] = z[k - (p + 1)]
-        P = A * P * A.T + noise[n] ** 2 * (bs * bs.T)
-        y[n] = c * z + b0 * x[n]
-        Uy[n] = phi.T * Uab * phi + c * P * c.T + b[0] ** 2 * noise[n] ** 2
-        z = A * z + bs * x[n]  # update of the state equations
-        dz = dz1
+        phi_ab = phi[: len(Uab)]  # without the coefficients b was padded with
+        y[n] = np.dot(c, z) + b0 * x[n]
+        Uy[n] = (
+            np.dot(phi_ab, np.dot(Uab, phi_ab))
+            + np.dot(c, np.dot(P, c))
+            + b0 ** 2 * noise[n] ** 2
+        )
+        # update of the state equations
+        P = np.dot(A, np.dot(P, A.T)) + noise[n] ** 2 * np.outer(bs, bs)
+        z = np.dot(A, z) + bs * x[n]
+        dz = dz1.copy()
 
     Uy = np.sqrt(np.abs(Uy))  # calculate point-wise standard uncertainties
 
-- 
2.43.0


From 175b6094a03163583695ce8d7c050ac2fe6ede02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 07/65] fix: GUM_DFT accepts a vector of squared uncertainties
 in combination with a window

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index d19e458..758f6a6 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -251,6 +251,8 @@ def GUM_DFT(
     L = 0
     # Apply the chosen window for the application of the FFT.
     if isinstance(window, np.ndarray):
+        if isinstance(Ux, np.ndarray) and len(Ux.shape) == 1:
+            Ux = np.diag(Ux)
         x, Ux = _apply_window(x, Ux, window)
     if isinstance(N, int):
         L = N - len(x)
-- 
2.43.0


From 9b5ef6da20af247f9b92b2a7a90e049e15323eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 08/65] fix: GUM_iDFT returns a symmetric covariance for
 correlated real and imaginary parts

---
 PyDynamic/uncertainty/propagate_DFT.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 758f6a6..c2dcd2a 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -443,7 +443,8 @@ def GUM_iDFT(
         II = UF[N // 2 + 1 :, N // 2 + 1 :]
         # propagate uncertainties
         Ux = np.dot(Cc, np.dot(RR, Cc.T))
-        Ux = Ux + 2 * np.dot(Cc, np.dot(RI, Cs.T))
+        URI = np.dot(Cc, np.dot(RI, Cs.T))
+        Ux = Ux + URI + URI.T
         Ux = Ux + np.dot(Cs, np.dot(II, Cs.T))
     else:
         RR = UF[: N // 2 + 1]
-- 
2.43.0


From b38dd8a2d0ba49662abb8ad7c8b854899e734b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:55 +0000
Subject: [PATCH 09/65] fix: products with integer valued covariance matrices
 are no longer truncated to integers

---
 PyDynamic/uncertainty/propagate_DFT.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index c2dcd2a..9b4fd68 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -113,12 +113,12 @@ def _prod(A: np.ndarray, B: np.ndarray) -> np.ndarray:
         If the dimensions of A and B do not match.
     """
     if len(A.shape) == 1 and len(B.shape) == 2:  # A is the vector and B the matrix
-        C = np.zeros_like(B)
+        C = np.zeros_like(B, dtype=np.result_type(A, B))
         for k in range(C.shape[0]):
             C[k, :] = A[k] * B[k, :]
         return C
     elif len(A.shape) == 2 and len(B.shape) == 1:  # A is the matrix and B the vector
-        C = np.zeros_like(A)
+        C = np.zeros_like(A, dtype=np.result_type(A, B))
         for k in range(C.shape[1]):
             C[:, k] = A[:, k] * B[k]
         return C
-- 
2.43.0


From eb2c58f18c6a2fc3c8b032b9e863699c56b9a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 10/65] fix: AmpPhase2DFT uses the right sensitivity in the
 sparse covariance between real and imaginary part

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 9b4fd68..e2a2ed1 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -676,7 +676,7 @@ def AmpPhase2DFT(
             Upp = diags[0][N:]
 
             U11 = Uaa * CRA ** 2 + CRP * Uap * CRA + CRA * Uap * CRP + Upp * CRP ** 2
-            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIA + CRP * Upp * CIP
+            U12 = CRA * Uaa * CIA + CRP * Uap * CIA + CRA * Uap * CIP + CRP * Upp * CIP
             U22 = Uaa * CIA ** 2 + CIP * Uap * CIA + CIA * Uap * CIP + Upp * CIP ** 2
 
             UF = sparse.diags(
-- 
2.43.0


From cae1815c76965032008b2a6875a69dedb4ac9148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:30 +0000
Subject: [PATCH 11/65] fix: AmpPhase2Time returns a symmetric covariance for
 correlated amplitude and phase

---
 PyDynamic/uncertainty/propagate_DFT.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index e2a2ed1..9347b29 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -871,9 +871,11 @@ def AmpPhase2Time(
             AA = diags[0][:n]
             AP = diags[1][offset[1] : nrows + offset[1]]
             PP = diags[0][n:]
+            UxAP = np.dot(Cc, _prod(AP, Cs.T))
             Ux = (
                 np.dot(Cc, _prod(AA, Cc.T))
-                + 2 * np.dot(Cc, _prod(AP, Cs.T))
+                + UxAP
+                + UxAP.T
                 + np.dot(Cs, _prod(PP, Cs.T))
             )
         else:
@@ -881,9 +883,11 @@ def AmpPhase2Time(
             AP = UAP[: N // 2 + 1, N // 2 + 1 :]
             PP = UAP[N // 2 + 1 :, N // 2 + 1 :]
             # propagate uncertainties
+            UxAP = np.dot(Cc, np.dot(AP, Cs.T))
             Ux = (
                 np.dot(Cc, np.dot(AA, Cc.T))
-                + 2 * np.dot(Cc, np.dot(AP, Cs.T))
+                + UxAP
+                + UxAP.T
                 + np.dot(Cs, np.dot(PP, Cs.T))
             )
 
-- 
2.43.0


From ec99ec5b344546a29e8e2887ee68b5dfb295dfd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 12/65] fix: DFT_deconv uses the right sensitivity of the real
 part to the imaginary part of H

---
 PyDynamic/uncertainty/propagate_DFT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 9347b29..4a7c91c 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1011,7 +1011,7 @@ def DFT_deconv(
     IY = np.r_[-iH / norm, rH / norm]
     RH = np.r_[
         (-rY * rH ** 2 + rY * iH ** 2 - 2 * iY * iH * rH) / norm ** 2,
-        (iY * rH ** 2 - iH * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
+        (iY * rH ** 2 - iY * iH ** 2 - 2 * rY * rH * iH) / norm ** 2,
     ]
     IH = np.r_[
         (-iY * rH ** 2 + iY * iH ** 2 + 2 * rY * iH * rH) / norm ** 2,
-- 
2.43.0


From fe1ef24b857cceaf3d188c98def1f093ea446440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:59 +0000
Subject: [PATCH 13/65] fix: DFT_multiply returns a full covariance matrix for
 uncorrelated input uncertainties

---
 PyDynamic/uncertainty/propagate_DFT.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_DFT.py b/PyDynamic/uncertainty/propagate_DFT.py
index 4a7c91c..0d96b99 100644
--- a/PyDynamic/uncertainty/propagate_DFT.py
+++ b/PyDynamic/uncertainty/propagate_DFT.py
@@ -1083,15 +1083,15 @@ def DFT_multiply(
         RA = A[: n // 2]
         IA = A[n // 2 :]
         if isinstance(UB, float):  # simpler calculation if only single uncertainty
-            uRR = RA * UB * RA + IA * UB * IA
-            uRI = RA * UB * IA - IA * UB * RA
-            uII = IA * UB * IA + RA * UB * RA
+            uRR = np.diag(RA * UB * RA + IA * UB * IA)
+            uRI = np.diag(RA * UB * IA - IA * UB * RA)
+            uII = np.diag(IA * UB * IA + RA * UB * RA)
         elif len(UB.shape) == 1:  # simpler calculation if no correlation
             UBRR = UB[: n // 2]
             UBII = UB[n // 2 :]
-            uRR = RA * UBRR * RA + IA * UBII * IA
-            uRI = RA * UBRR * IA - IA * UBII * RA
-            uII = IA * UBRR * IA + RA * UBII * RA
+            uRR = np.diag(RA * UBRR * RA + IA * UBII * IA)
+            uRI = np.diag(RA * UBRR * IA - IA * UBII * RA)
+            uII = np.diag(IA * UBRR * IA + RA * UBII * RA)
         else:  # full calculation because of full input covariance
             UBRR = UB[: n // 2, : n // 2]
             UBRI = UB[: n // 2, n // 2 :]
-- 
2.43.0


From e90abb059575bd3795381dc10679fac2e8d82737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 14/65] fix: interp1d_unc accepts any array_like of new
 timestamps for linear interpolation, as documented

---
 PyDynamic/uncertainty/interpolate.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index ccb0267..02dc562 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -132,6 +132,7 @@ def interp1d_unc(
     # This is taken from the class scipy.interpolate.interp1d to copy and sort the
     # arrays in case that is requested and of course extended by the uncertainties.
     # ----------------------------------------------------------------------------------
+    t_new = np.asarray(t_new)
     t = np.array(t, copy=copy)
     y = np.array(y, copy=copy)
     uy = np.array(uy, copy=copy)
-- 
2.43.0


From 5db8eec21e50597fe46d51bc5c3828f7758b84c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 15/65] fix: interp1d_unc accepts integers and 0-d arrays as
 fill_unc for linear interpolation, like for the other kinds

---
 PyDynamic/uncertainty/interpolate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 02dc562..15922d6 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -223,11 +223,11 @@ def interp1d_unc(
             # At this point fill_unc is either a float (np.nan is a float as well) or
             # a 2-tuple of floats. In case we have one float we set uy_new to this value
             # inside the extrapolation range.
-            if isinstance(fill_unc, float):
-                uy_new[extrap_range] = fill_unc
-            else:
+            if isinstance(fill_unc, tuple):
                 # Now fill_unc should be a 2-tuple, which we can fill into uy_new.
                 uy_new[extrap_range_below], uy_new[extrap_range_above] = fill_unc
+            else:
+                uy_new[extrap_range] = fill_unc
 
             if returnC:
                 # In each row of C corresponding to an extrapolation value below the
-- 
2.43.0


From c3c1e3e6270d4275708fe6c795c3a7efbf4dc8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 16/65] fix: interp1d_unc extrapolates without an explicit
 bounds_error=False, as documented

---
 PyDynamic/uncertainty/interpolate.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/interpolate.py b/PyDynamic/uncertainty/interpolate.py
index 15922d6..5f19fbb 100644
--- a/PyDynamic/uncertainty/interpolate.py
+++ b/PyDynamic/uncertainty/interpolate.py
@@ -167,6 +167,8 @@ def interp1d_unc(
         # respectively but handle those cases separately.
         if fill_value == "extrapolate":
             fill_value = y[0], y[-1]
+            # By default, an error is raised unless fill_value is "extrapolate".
+            interp1d_params["bounds_error"] = False
 
         if fill_unc == "extrapolate":
             fill_unc = uy[0], uy[-1]
-- 
2.43.0


From 2f5f95a04d19d51a050e33555722e66d7552b797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 17/65] fix: MC accepts singular covariance matrices of the
 input signal

A sample without uncertainty or fully correlated samples made the colored noise
branch fail with a LinAlgError.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index f64a762..6df7522 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -153,7 +153,7 @@ def MC(
         if len(Ux.shape) == 1:
             dist = Normal_ZeroCorr(loc=x, scale=Ux)  # non-iid noise w/o correlation
         else:
-            dist = stats.multivariate_normal(x, Ux)  # colored noise
+            dist = stats.multivariate_normal(x, Ux, allow_singular=True)  # colored noise
     elif isinstance(Ux, float):
         dist = Normal_ZeroCorr(loc=x, scale=Ux)  # iid noise
     else:
-- 
2.43.0


From 9ffc6fb579c48e80395439af765feaf50c878936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 18/65] fix: SMC runs again

ndenumerate yields (index, value) tuples, so that every call of SMC failed with an
IndexError. Outputs are floating point numbers for integer signals as well.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 6df7522..cea05e3 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -332,14 +332,14 @@ def SMC(
         P = np.zeros((len(Perc), len(x)))
 
     # Initialize outputs.
-    y = np.zeros_like(x)
+    y = np.zeros(len(x))
     # Initialize vector of uncorrelated point-wise uncertainties.
-    Uy = np.zeros_like(x)
+    Uy = np.zeros(len(x))
 
     # Start of the actual MC part.
     print("Sequential Monte Carlo progress", end="")
 
-    for index in np.ndenumerate(x):
+    for index in range(len(x)):
 
         w = np.random.randn(runs) * noise_std  # noise process draw
         if AR and MA:
-- 
2.43.0


From 0e69c1d5b78fb973c51108fd69d3803e217a149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:56 +0000
Subject: [PATCH 19/65] fix: SMC supports its AR, MA and ARMA noise models

The noise of all runs and the noise history were stacked along the wrong axis, so that
any call with phi or theta failed.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 26 +++++++++----------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index cea05e3..a39a9f2 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -342,28 +342,26 @@ def SMC(
     for index in range(len(x)):
 
         w = np.random.randn(runs) * noise_std  # noise process draw
-        if AR and MA:
-            E = np.hstack((E.dot(phi) + W.dot(theta) + w, E[:-1]))
-            W = np.hstack((w, W[:-1]))
-        elif AR:
-            E = np.hstack((E.dot(phi) + w, E[:-1]))
-        elif MA:
-            E = W.dot(theta) + w
-            W = np.hstack((w, W[:-1]))
-        else:
-            w = np.random.randn(runs, 1) * noise_std
-            E = w
+        e = w
+        if AR:
+            e = e + E.dot(np.atleast_1d(phi))
+        if MA:
+            e = e + W.dot(np.atleast_1d(theta))
+            W = np.hstack((w[:, np.newaxis], W[:, :-1]))
+        e = e[:, np.newaxis]
+        if AR:
+            E = np.hstack((e, E[:, :-1]))
 
         if isinstance(alow, np.ndarray):  # apply low-pass filter
-            X = np.hstack((x[index] + E, X[:, :-1]))
+            X = np.hstack((x[index] + e, X[:, :-1]))
             Xl = np.hstack(
                 (X.dot(blow.T) - Xl[:, : len(alow)].dot(alow[1:]), Xl[:, :-1])
             )
         elif isinstance(blow, np.ndarray):
-            X = np.hstack((x[index] + E, X[:, :-1]))
+            X = np.hstack((x[index] + e, X[:, :-1]))
             Xl = X.dot(blow)
         else:
-            Xl = x[index] + E
+            Xl = x[index] + e
 
         # Prepare for easier calculations.
         if len(Xl.shape) == 1:
-- 
2.43.0


From 3d6f69f6a826df09f57a904d095ad0a8475840a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 20/65] fix: SMC supports recursive low-pass filters

The history of the low-pass filtered signal had the wrong shape, so that any call with
alow failed.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index a39a9f2..234c724 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -352,11 +352,11 @@ def SMC(
         if AR:
             E = np.hstack((e, E[:, :-1]))
 
-        if isinstance(alow, np.ndarray):  # apply low-pass filter
+        if isinstance(blow, np.ndarray) and isinstance(alow, np.ndarray):
+            # apply IIR low-pass filter
             X = np.hstack((x[index] + e, X[:, :-1]))
-            Xl = np.hstack(
-                (X.dot(blow.T) - Xl[:, : len(alow)].dot(alow[1:]), Xl[:, :-1])
-            )
+            xl = X.dot(blow) - Xl[:, : len(alow) - 1].dot(alow[1:])
+            Xl = np.hstack((xl[:, np.newaxis], Xl))[:, : max(len(alow) - 1, 1)]
         elif isinstance(blow, np.ndarray):
             X = np.hstack((x[index] + e, X[:, :-1]))
             Xl = X.dot(blow)
-- 
2.43.0


From c7e38494c5fb90b8f25bb75d51720c1578bc005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 21/65] fix: SMC supports filters with more denominator than
 numerator coefficients

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 234c724..eaa3c43 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -319,6 +319,9 @@ def SMC(
         A = Coefs[:, :Na]
         if Nb > Na:
             A = np.hstack((A, np.zeros((runs, Nb - Na))))
+        elif Na > Nb:
+            Coefs = np.hstack((Coefs, np.zeros((runs, Na - Nb))))
+            Nb = Na
     else:  # filter is FIR -> zero state equations
         A = np.zeros((runs, Nb))
 
-- 
2.43.0


From 14e598988581cfcdf2f6ce9cac63f1a253e7109a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 22/65] fix: SMC returns the Monte Carlo results if asked for
 with return_samples

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index eaa3c43..d9f235c 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -338,6 +338,8 @@ def SMC(
     y = np.zeros(len(x))
     # Initialize vector of uncorrelated point-wise uncertainties.
     Uy = np.zeros(len(x))
+    if return_samples:
+        samples = np.zeros((runs, len(x)))
 
     # Start of the actual MC part.
     print("Sequential Monte Carlo progress", end="")
@@ -381,6 +383,8 @@ def SMC(
         # Store state updates and remove old ones.
         States = np.hstack((Z[:, np.newaxis], States[:, :-1]))
 
+        if return_samples:
+            samples[:, index] = Y
         y[index] = np.mean(Y)  # point-wise best estimate
         Uy[index] = np.std(Y)  # point-wise standard uncertainties
         if calcP:
@@ -392,6 +396,8 @@ def SMC(
     print(" 100%")
 
     # Correct for (known) delay.
+    if return_samples:
+        return np.roll(samples, int(shift), axis=1)
     y = np.roll(y, int(shift))
     Uy = np.roll(Uy, int(shift))
 
-- 
2.43.0


From 6056ddbc2ed213579cd157ac62b8bcbba984901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 23/65] fix: UMC_generic evaluates exactly the requested number
 of runs

The last block was never shortened, so that runs were rounded up to a multiple of
blocksize and return_samples failed for every other number of runs.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index d9f235c..af7fb0d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -694,10 +694,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         sims = {"samples": np.empty((runs, *input_shape)), "results": np.empty((runs, *output_shape))}
 
     for m in range(nblocks):
-        if m == nblocks:
-            curr_block = runs % blocksize
-        else:
-            curr_block = blocksize
+        curr_block = min(blocksize, runs - m * blocksize)
 
         Y = np.empty((curr_block, np.prod(output_shape)))
         samples = draw_samples(curr_block)
-- 
2.43.0


From 35ff6743f86800f0e0bdd249ae04d86ce21aac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 24/65] fix: UMC_generic normalises the covariance of the first
 block

The update formula expects a covariance but was started with a sum of squares, so that
the result was too large and depended on blocksize.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index af7fb0d..4317291 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -706,6 +706,8 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         if m == 0:  # first block
             y = np.mean(Y, axis=0)
             Uy = np.matmul((Y - y).T, (Y - y))
+            if curr_block > 1:
+                Uy = Uy / (curr_block - 1)
 
         else:  # updating y and Uy from results of current block
             K0 = m * blocksize
-- 
2.43.0


From c7368ab4085cb08d312b90d62aca8d81e6caab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 25/65] fix: UMC_generic extends the last histogram bin to the
 largest result

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 4317291..1b353e7 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -743,7 +743,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     # replace edge limits by ymin and ymax, resp.
     for h in happr.values():
         h["bin-edges"][0, :] = np.min(np.vstack((ymin, h["bin-edges"][0, :])), axis=0)
-        h["bin-edges"][-1, :] = np.min(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
+        h["bin-edges"][-1, :] = np.max(np.vstack((ymax, h["bin-edges"][-1, :])), axis=0)
 
     if return_samples:
         return y, Uy, happr, output_shape, sims
-- 
2.43.0


From 0c7a9591fdaf791f0a43bfeddcb94f33673f465f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 26/65] fix: UMC_generic counts every result in the histogram

Results outside of the range of the initial evaluations were dropped although the
outermost bins are extended to contain them.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 1b353e7..fa9797d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -723,7 +723,9 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         # update histogram values
         for k in range(np.prod(output_shape)):
             for h in happr.values():
-                h["bin-counts"][:,k] += np.histogram(Y[:,k], bins = h["bin-edges"][:,k])[0]  # numpy histogram returns (bin-counts, bin-edges)
+                # results beyond the initial limits belong to the outermost bins
+                e = h["bin-edges"][:,k]
+                h["bin-counts"][:,k] += np.histogram(np.clip(Y[:,k], e[0], e[-1]), bins = e)[0]  # numpy histogram returns (bin-counts, bin-edges)
 
         ymin = np.min(np.vstack((ymin, Y)), axis=0)
         ymax = np.max(np.vstack((ymax, Y)), axis=0)
-- 
2.43.0


From 168640c953421483960f4a13e07eacf4dad72006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 27/65] fix: UMC_generic pairs samples with their own results

With more than one CPU the results were stored in the order of completion.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index fa9797d..6876e8d 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -652,7 +652,7 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
     else:
         nPool = min(n_cpu, blocksize)
         pool = multiprocessing.Pool(nPool)
-        map_func = pool.imap_unordered
+        map_func = pool.imap
 
     # ------------ preparations for update formulae ------------
 
-- 
2.43.0


From 273462162c88451276947ff5e03363bb2a8a08a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 28/65] fix: UMC_generic workers draw different random numbers

Forked workers inherit the state of the generator, so that evaluate functions that draw
noise (like the one of UMC) got identical noise in all workers.
---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 6876e8d..70549dc 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -651,7 +651,8 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
         map_func = map
     else:
         nPool = min(n_cpu, blocksize)
-        pool = multiprocessing.Pool(nPool)
+        # every worker needs its own random numbers, not a copy of the state of its parent
+        pool = multiprocessing.Pool(nPool, initializer=np.random.seed)
         map_func = pool.imap
 
     # ------------ preparations for update formulae ------------
-- 
2.43.0


From 66dc3ad30b8c9b568427c1c059db8030a9865d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 29/65] fix: UMC_generic ends its worker processes

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 70549dc..9fc3098 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -743,6 +743,10 @@ def UMC_generic(draw_samples, evaluate, runs = 100, blocksize = 8, runs_init = 1
 
     # ----------------- post-calculation steps -----------------------
 
+    if n_cpu != 1:
+        pool.close()
+        pool.join()
+
     # replace edge limits by ymin and ymax, resp.
     for h in happr.values():
         h["bin-edges"][0, :] = np.min(np.vstack((ymin, h["bin-edges"][0, :])), axis=0)
-- 
2.43.0


From f5761a489e7680d6a6ebcbd66e9f7a0402e8bd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 30/65] fix: UMC uses the requested number of histogram bins

---
 PyDynamic/uncertainty/propagate_MonteCarlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/uncertainty/propagate_MonteCarlo.py b/PyDynamic/uncertainty/propagate_MonteCarlo.py
index 9fc3098..091f53c 100644
--- a/PyDynamic/uncertainty/propagate_MonteCarlo.py
+++ b/PyDynamic/uncertainty/propagate_MonteCarlo.py
@@ -506,7 +506,7 @@ def UMC(
     evaluate = functools.partial(_UMCevaluate, **params)
 
     # run UMC
-    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init)
+    y, Uy, happr, _ = UMC_generic(draw_samples, evaluate, runs=runs, blocksize=blocksize, runs_init=runs_init, nbins=nbins)
 
     # further post-calculation steps
     y_cred_low = np.zeros((len(nbins), len(y)))
-- 
2.43.0


From 5fddb297456432abd574e789e96964a9df3d7fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 31/65] fix: ARMA applies its coefficients to the documented
 lags

For more than one coefficient the history was traversed in reverse, phi_1 was applied to
the oldest value.
---
 PyDynamic/misc/noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/noise.py b/PyDynamic/misc/noise.py
index a122ee1..8b63642 100644
--- a/PyDynamic/misc/noise.py
+++ b/PyDynamic/misc/noise.py
@@ -200,6 +200,7 @@ def ARMA(length, phi=0.0, theta=0.0, std=1.0):
     for n, wn in enumerate(w):
         min_pn = min(p, n)
         min_qn = min(q, n)
-        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n])) + wn
+        # the coefficients of lag j = 1, 2, ... belong to the most recent values first
+        e[n] = np.sum(phi[:min_pn].dot(e[n-min_pn:n][::-1])) + np.sum(theta[:min_qn].dot(w[n-min_qn:n][::-1])) + wn
 
     return e
-- 
2.43.0


From 95c9c284e99344bb0cf111a91a08a6a275a116cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 32/65] fix: make_semiposdef respects maxiter for dense
 matrices

The number of iterations was never counted, so that the loop did not end for matrices
whose rounding errors exceed the tolerance.
---
 PyDynamic/misc/tools.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 35a81e0..2391f7e 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -216,8 +216,9 @@ def make_semiposdef(
         count = 0
         e = np.real(np.linalg.eigvals(matrix)).min()
         while e < tol and count < maxiter:
-            e = np.real(np.linalg.eigvals(matrix)).min()
             matrix += (np.absolute(e) + tol) * np.eye(n)
+            e = np.real(np.linalg.eigvals(matrix)).min()
+            count += 1
         e = np.real(np.linalg.eigvals(matrix)).min()
     if verbose:
         print("Final result of make_semiposdef: smallest eigenvalue is %e" % e)
-- 
2.43.0


From 88f0758a52fed9eb0c341df6a53f5942e32df8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 33/65] fix: make_semiposdef accepts small sparse matrices

The iterative solver needs more than seven rows to find its default of six eigenvalues.
---
 PyDynamic/misc/tools.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 2391f7e..568cfce 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -164,6 +164,14 @@ def print_mat(matrix, prec=5, vertical=False, retS=False):
         print(s)
 
 
+def _smallest_eigenvalue(matrix):
+    """Smallest real part of the eigenvalues of a sparse matrix"""
+    # The iterative solver is not applicable to (almost) all eigenvalues
+    if matrix.shape[0] < 9:
+        return np.real(np.linalg.eigvals(matrix.toarray())).min()
+    return np.real(eigs(matrix, which="SR", return_eigenvectors=False)).min()
+
+
 def make_semiposdef(
     matrix: np.ndarray,
     maxiter: Optional[int] = 10,
@@ -202,14 +210,14 @@ def make_semiposdef(
         # enforce symmetric matrix
         matrix = 0.5 * (matrix + matrix.T)
         # calculate smallest eigenvalue
-        e = np.real(eigs(matrix, which="SR", return_eigenvectors=False)).min()
+        e = _smallest_eigenvalue(matrix)
         count = 0
         # increase the eigenvalues until matrix is positive semi-definite
         while e < tol and count < maxiter:
             matrix += (np.absolute(e) + tol) * eye(n, format=matrix.format)
-            e = np.real(eigs(matrix, which="SR", return_eigenvectors=False)).min()
+            e = _smallest_eigenvalue(matrix)
             count += 1
-        e = np.real(eigs(matrix, which="SR", return_eigenvectors=False)).min()
+        e = _smallest_eigenvalue(matrix)
     # same procedure for non-sparse matrices
     else:
         matrix = 0.5 * (matrix + matrix.T)
-- 
2.43.0


From 8ccf9f9510d36376f3c34b3115a71fd806aa9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 34/65] fix: FreqResp2RealImag returns one real and imaginary
 part per frequency

The mean was taken over the frequencies as well.
---
 PyDynamic/misc/tools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 568cfce..7d9b66a 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -277,8 +277,8 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     )  # calculate complex frequency response values
     RI = np.hstack((np.real(H), np.imag(H)))  # transform to real, imag
 
-    Re = np.mean(RI[:, :Nf])
-    Im = np.mean(RI[:, Nf:])
+    Re = np.mean(RI[:, :Nf], axis=0)
+    Im = np.mean(RI[:, Nf:], axis=0)
     URI = np.cov(RI, rowvar=False)
 
     return Re, Im, URI
-- 
2.43.0


From d38f29eacbca2890d0555dd3f9e9c33218ad9604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 35/65] fix: FreqResp2RealImag accepts any array_like of
 uncertainties, as documented

---
 PyDynamic/misc/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 7d9b66a..146f167 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -263,6 +263,7 @@ def FreqResp2RealImag(Abs, Phase, Unc, MCruns=1e4):
     if len(Abs) != len(Phase) or 2 * len(Abs) != len(Unc):
         raise ValueError("\nLength of inputs are inconsistent.")
 
+    Unc = np.asarray(Unc)
     if len(Unc.shape) == 1:
         Unc = np.diag(Unc)
 
-- 
2.43.0


From f844f0b11691aca09b742b4fdcb64f851a48db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 36/65] fix: trimOrPad returns an array for lists that are
 trimmed as well

---
 PyDynamic/misc/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/tools.py b/PyDynamic/misc/tools.py
index 146f167..17406ac 100644
--- a/PyDynamic/misc/tools.py
+++ b/PyDynamic/misc/tools.py
@@ -96,7 +96,7 @@ def trimOrPad(array, length, mode="constant"):
     if len(array) < length:  # pad zeros to the right if too short
         return np.pad(array, (0, length - len(array)), mode=mode)
     else:  # trim to given length otherwise
-        return array[0:length]
+        return np.asarray(array)[0:length]
 
 
 def print_vec(vector, prec=5, retS=False, vertical=False):
-- 
2.43.0


From dc46558059cd7d330a6b97d07ec0b87c2cf1be39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 37/65] fix: isstable checks analog filters for poles in the
 right half plane

The criterion was inverted.
---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index c719425..65c2f09 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -169,7 +169,7 @@ def isstable(b, a, ftype="digital"):
     if ftype == "digital":
         return not np.any(np.abs(v) > 1.0)
     elif ftype == "analog":
-        return not np.any(np.real(v) < 0)
+        return not np.any(np.real(v) > 0)
     else:
         raise ValueError(f"isstable: filter type 'ftype={ftype}'unknown. Please "
                          f"check documentation and choose a valid assignment for "
-- 
2.43.0


From 07e240de52006b512d9b346411390bfe9f7e4c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:53 +0000
Subject: [PATCH 38/65] fix: kaiser_lowpass returns the delay in samples

The window has an odd length L and delays by (L-1)/2 samples; half a sample too much was
returned, and no integer.
---
 PyDynamic/misc/filterstuff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index 65c2f09..8bd8aa6 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -141,7 +141,7 @@ def kaiser_lowpass(L, fcut, Fs, beta=8.0):
     if np.mod(L, 2) == 0:
         L = L + 1
     blow = firwin(L, 2 * fcut / Fs, window=("kaiser", beta))
-    shift = L / 2
+    shift = L // 2
     return blow, shift
 
 
-- 
2.43.0


From 27b96f5e5f6d417339ca75f5997fb445d11b2bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 39/65] fix: LSFIR and invLSFIR weight the frequency response
 as well as the design matrix

---
 PyDynamic/model_estimation/fit_filter.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 7a0bc7e..32c04bd 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -209,16 +209,16 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
-        X = np.vstack(
-            [np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
     else:
-        X = np.vstack([np.real(E), np.imag(E)])
+        weights = np.eye(len(f))
+    X = np.vstack(
+        [np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
 
-    H = H * np.exp(1j * w * tau)
-    iRI = np.vstack([np.real(1.0 / H), np.imag(1.0 / H)])
+    H = np.dot(weights, 1.0 / (H * np.exp(1j * w * tau)))
+    iRI = np.vstack([np.real(H), np.imag(H)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]
 
@@ -276,15 +276,16 @@ def invLSFIR(H, N, tau, f, Fs, Wt=None):
 
     if Wt is not None:  # set up weighted design matrix if necessary
         if len(np.shape(Wt)) == 2:  # is matrix
-            weights = np.diag(Wt)
+            weights = Wt
         else:
             weights = np.eye(len(f)) * Wt
-        X = np.vstack([np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
     else:
-        X = np.vstack([np.real(E), np.imag(E)])
+        weights = np.eye(len(f))
+    X = np.vstack([np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
 
     Hs = H * np.exp(1j * w * tau)  # apply time delay for improved fit quality
-    iRI = np.vstack([np.real(1.0 / Hs), np.imag(1.0 / Hs)])
+    iH = np.dot(weights, 1.0 / Hs)
+    iRI = np.vstack([np.real(iH), np.imag(iH)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]  # the actual fitting
 
-- 
2.43.0


From db7bfb35b18ec8ead02cb1b72b706486b66f2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 40/65] fix: LSFIR fits the frequency response itself, as
 documented, not its reciprocal

---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 32c04bd..9e1d679 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -194,8 +194,8 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
 
     """
 
-    print("\nLeast-squares fit of an order %d digital FIR filter to the" % N)
-    print("reciprocal of a frequency response given by %d values.\n" % len(H))
+    print("\nLeast-squares fit of an order %d digital FIR filter to a" % N)
+    print("frequency response given by %d values.\n" % len(H))
 
     H = H[:, np.newaxis]
 
@@ -217,7 +217,7 @@ def LSFIR(H, N, tau, f, Fs, Wt=None):
     X = np.vstack(
         [np.real(np.dot(weights, E)), np.imag(np.dot(weights, E))])
 
-    H = np.dot(weights, 1.0 / (H * np.exp(1j * w * tau)))
+    H = np.dot(weights, H * np.exp(-1j * w * tau))
     iRI = np.vstack([np.real(H), np.imag(H)])
 
     bFIR, res = np.linalg.lstsq(X, iRI)[:2]
-- 
2.43.0


From 2de2d511c9f271530e53bf239493474b89d1b271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 41/65] fix: invLSFIR_unc accepts weights and applies them to
 the frequency response as well

---
 PyDynamic/model_estimation/fit_filter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 9e1d679..666e2c3 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -379,7 +379,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Step 2: Fit filter coefficients and evaluate uncertainties
     if isinstance(wt, np.ndarray):
-        if wt.shape != np.diag(UiH).shape[0]:
+        if wt.shape != np.diag(UiH).shape:
             raise ValueError("User-defined weighting has wrong dimension.")
     else:
         wt = np.ones(2 * Nf)
@@ -398,6 +398,7 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
     StSInv[s > 0] = s[s > 0] ** (-2)
 
     M = np.dot(np.dot(np.dot(v.T, np.diag(StSInv)), np.diag(s)), u.T)
+    M = np.dot(M, np.diag(wt))
 
     bFIR = np.dot(M, Hri[:, np.newaxis])  # actual fitting
     UbFIR = np.dot(np.dot(M, UiH), M.T)  # evaluation of uncertainties
-- 
2.43.0


From a3a1fcb7a9bb638d624bc5012f3c15200e4cbd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 42/65] fix: invLSIIR returns the time delay without
 stabilisation as well, as documented

---
 PyDynamic/model_estimation/fit_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index 666e2c3..e0cb5f5 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -544,7 +544,7 @@ def invLSIIR(Hvals, Nb, Na, f, Fs, tau, justFit=False, verbose=True):
     bi, ai = _fitIIR(Hvals, tau, w, E, Na, Nb, inv=True)
 
     if justFit:  # no uncertainty evaluation
-        return bi, ai
+        return bi, ai, int(tau)
 
     if count_nonzero(abs(roots(ai)) > 1) > 0:
         stable = False
-- 
2.43.0


From 62dd061b583e0b9e1e2b6c57e0e04b12fbacb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 43/65] fix: LSIIR returns the time delay it used if no
 stabilisation is requested

---
 PyDynamic/model_estimation/fit_filter.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index e0cb5f5..b577d96 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -132,8 +132,7 @@ def LSIIR(Hvals, Nb, Na, f, Fs, tau=0, justFit=False):
         sos = np.sum(
             np.abs((dsp.freqz(b, a, 2 * np.pi * f / Fs)[1] - Hvals) ** 2))
         print("Final sum of squares = %e" % sos)
-        tau = 0
-        return b, a, tau
+        return b, a, int(tau)
 
     if np.count_nonzero(np.abs(np.roots(a)) > 1) > 0:
         stable = False
-- 
2.43.0


From 6a2ce54e873b9a424001e1de4a2b4e463b9ac9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:01 +0000
Subject: [PATCH 44/65] fix: invLSFIR_unc propagates the uncertainty to the
 reciprocal, not to its complex conjugate

---
 PyDynamic/model_estimation/fit_filter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_filter.py b/PyDynamic/model_estimation/fit_filter.py
index b577d96..b1dde8c 100644
--- a/PyDynamic/model_estimation/fit_filter.py
+++ b/PyDynamic/model_estimation/fit_filter.py
@@ -368,11 +368,11 @@ def invLSFIR_unc(H, UH, N, tau, f, Fs, wt=None, verbose=True, trunc_svd_tol=None
 
     # Vectorized Monte Carlo for propagation to inverse
     absHMC = HRI[:, :Nf] ** 2 + HRI[:, Nf:] ** 2
-    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) +
+    HiMC = np.hstack(((HRI[:, :Nf] * np.tile(np.cos(omtau), (runs, 1)) -
                        HRI[:, Nf:] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC,
-                      (HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) -
-                       HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
+                      -(HRI[:, Nf:] * np.tile(np.cos(omtau), (runs, 1)) +
+                        HRI[:, :Nf] * np.tile(np.sin(omtau), (runs, 1))) /
                       absHMC))
     UiH = np.cov(HiMC, rowvar=False)
 
-- 
2.43.0


From 03ada2770f04832de60cfb6224deb351feca3cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 45/65] fix: fit_som uses the right sensitivity of the damping
 in its linear propagation

---
 PyDynamic/model_estimation/fit_transfer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 4df7a06..23026fe 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -154,9 +154,9 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
                 [
                     [-1 / mu[0] ** 2, 0, 0],
                     [
-                        -mu[1] / (2 * (np.abs(mu[0] + mu[2])) ** (3 / 2)),
-                        1 / np.sqrt(np.abs(mu[0] + mu[2])),
-                        -mu[1] / (2 * np.abs(mu[0] + mu[2]) ** (3 / 2)),
+                        -mu[1] / (2 * mu[0] * np.sqrt(np.abs(mu[0] * mu[2]))),
+                        1 / np.sqrt(np.abs(mu[0] * mu[2])),
+                        -mu[1] / (2 * mu[2] * np.sqrt(np.abs(mu[0] * mu[2]))),
                     ],
                     [
                         1 / (4 * np.pi * mu[2] * np.sqrt(np.abs(mu[0] / mu[2]))),
-- 
2.43.0


From 4cad6cf99810c097f83ba3a5672feaeca2dac200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:25 +0000
Subject: [PATCH 46/65] fix: fit_som returns the right sign of the damping for
 negative static gain

---
 PyDynamic/model_estimation/fit_transfer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/model_estimation/fit_transfer.py b/PyDynamic/model_estimation/fit_transfer.py
index 23026fe..3475916 100644
--- a/PyDynamic/model_estimation/fit_transfer.py
+++ b/PyDynamic/model_estimation/fit_transfer.py
@@ -120,7 +120,7 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
             # Calculate S0, delta and f0
             PARS = np.c_[
                 1 / MU[:, 0],
-                MU[:, 1] / np.sqrt(np.abs(MU[:, 0] * MU[:, 2])),
+                np.sign(MU[:, 0]) * MU[:, 1] / np.sqrt(np.abs(MU[:, 0] * MU[:, 2])),
                 np.sqrt(np.abs(MU[:, 0] / MU[:, 2])) / 2 / np.pi,
             ]
 
@@ -147,7 +147,7 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
 
             pars = np.r_[
                 1 / mu[0],
-                mu[1] / np.sqrt(np.abs(mu[0] * mu[2])),
+                np.sign(mu[0]) * mu[1] / np.sqrt(np.abs(mu[0] * mu[2])),
                 np.sqrt(np.abs(mu[0] / mu[2])) / 2 / np.pi,
             ]
             C = np.array(
@@ -166,6 +166,7 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
                     ],
                 ]
             )
+            C[1] *= np.sign(mu[0])
             Upars = C.dot(Umu.dot(C.T))
 
         return pars, Upars
@@ -188,7 +189,7 @@ def fit_som(f, H, UH=None, weighting=None, MCruns=None, scaling=1e-3):
         mu[2] *= scaling ** 2
         pars = np.r_[
             1 / mu[0],
-            mu[1] / np.sqrt(np.abs(mu[0] * mu[2])),
+            np.sign(mu[0]) * mu[1] / np.sqrt(np.abs(mu[0] * mu[2])),
             np.sqrt(np.abs(mu[0] / mu[2])) / 2 / np.pi,
         ]
         return pars
-- 
2.43.0


From efee7a37a2a22a0ea5e2f9b05a301ac2caaa00fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 47/65] fix: impinvar supports systems with multiple poles

---
 PyDynamic/misc/impinvar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 5dd9afc..05ad69e 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -57,18 +57,18 @@ def h1_z_deriv(n, p, ts):
 
 	d = [(-1)**n] # Vector with the derivatives of H1(z)
 	for i in range(n-1):
-		d  = [d, 0]                     # Shift result right (multiply by -z)
-		d += prepad(np.polyder(d), i + 1, 0) # Add the derivative
+		d = np.r_[d, 0]                 # Shift result right (multiply by -z)
+		d = d + prepad(np.polyder(d), i + 2, 0) # Add the derivative
 
 	## Build output vector
 	b = np.zeros(n + 1)
 	for i in range(n):
-		b += d[i] * prepad(h1_deriv(n-i+1), n+1, 0)
+		b += d[i] * prepad(h1_deriv(n-i), n+1, 0)
 
 	b *= ts**(n+1)/factorial(n)
 
 	## Multiply coefficients with p^i, where i is the index of the coeff.
-	b *=p**(np.arange(n+1,0,-1))
+	b = b * p**(np.arange(n+1,0,-1))
 
 	return b
 
@@ -100,7 +100,7 @@ def z_res(r_in, sm, ts):
 	r_out[0] = r_in[0] * ts * p_out  # pole part of PFE
 
 	for i in range(1, n):  # Go through s-domain residues for multiple pole
-		r_out[:i] += r_in[i] * polyrev(h1_z_deriv(i, p_out, ts))  # Add z-domain residues
+		r_out[:i+1] += r_in[i] * polyrev(h1_z_deriv(i, p_out, ts))  # Add z-domain residues
 
 	return r_out, p_out, k_out
 
-- 
2.43.0


From c768e4cb89a4ccd4465b855031d6e7741fcb8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 48/65] fix: impinvar adds up the direct terms of complex poles
 before rounding to real numbers

---
 PyDynamic/misc/impinvar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 05ad69e..b53455b 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -96,7 +96,7 @@ def z_res(r_in, sm, ts):
 	r_out = np.zeros(n, dtype = complex)  # Residue vector
 
 	## First pole (no multiplicity)
-	k_out = to_real(r_in[0] * ts)  # PFE of z/(z-p) = p/(z-p)+1; direct part
+	k_out = r_in[0] * ts  # PFE of z/(z-p) = p/(z-p)+1; direct part
 	r_out[0] = r_in[0] * ts * p_out  # pole part of PFE
 
 	for i in range(1, n):  # Go through s-domain residues for multiple pole
@@ -169,7 +169,7 @@ def impinvar(b_in, a_in, fs = 1, tol = 0.0001):
 
 	r_out = np.zeros(n, dtype = complex)  # Residues of H(z)
 	p_out = np.zeros(n, dtype = complex)  # Poles of H(z)
-	k_out = np.zeros(1)  # Constant term of H(z)
+	k_out = np.zeros(1, dtype = complex)  # Constant term of H(z)
 
 	i = 0
 	while (i < n):
-- 
2.43.0


From 7206f296d3af36a75f5c7e4c67a6b15508600950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 49/65] fix: impinvar keeps the delay of systems without direct
 step in the impulse response

---
 PyDynamic/misc/impinvar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index b53455b..3e79845 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -188,6 +188,7 @@ def impinvar(b_in, a_in, fs = 1, tol = 0.0001):
 	[b_out, a_out] = dsp.invres(r_out, p_out, k_out, tol=tol)
 	a_out = to_real(a_out)  # Get rid of spurious imaginary part
 	b_out = to_real(b_out)
+	b_out = prepad(b_out, len(a_out))  # invres strips leading zeros
 
 	## Shift results right to account for calculating in z instead of z^-1
 	b_out = b_out[:-1]
-- 
2.43.0


From ba9fc2d12de0dcf19779344c5aa96db97a306dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:28 +0000
Subject: [PATCH 50/65] fix: impinvar keeps poles apart that come close to each
 other in the z-domain only

---
 PyDynamic/misc/impinvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/impinvar.py b/PyDynamic/misc/impinvar.py
index 3e79845..cc48024 100644
--- a/PyDynamic/misc/impinvar.py
+++ b/PyDynamic/misc/impinvar.py
@@ -185,7 +185,7 @@ def impinvar(b_in, a_in, fs = 1, tol = 0.0001):
 
 		i += 1  # Next s-domain residue/pole
 
-	[b_out, a_out] = dsp.invres(r_out, p_out, k_out, tol=tol)
+	[b_out, a_out] = dsp.invres(r_out, p_out, k_out, tol=0)
 	a_out = to_real(a_out)  # Get rid of spurious imaginary part
 	b_out = to_real(b_out)
 	b_out = prepad(b_out, len(a_out))  # invres strips leading zeros
-- 
2.43.0


From 1e57287aa52b029ec3393285a0dae988c195b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 51/65] fix: multi_sine adds noise of the requested standard
 deviation

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index e2fc16a..eacc0f9 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -211,7 +211,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
     x = np.zeros_like(time)
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
-    x += np.random.randn(len(x)) * noise ** 2
+    x += np.random.randn(len(x)) * noise
     return x
 
 
-- 
2.43.0


From de6ef8177728dca3369b99aa4da058fe355838ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 52/65] fix: multi_sine accepts integer time instants

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index eacc0f9..7949397 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -208,7 +208,7 @@ def multi_sine(time, amps, freqs, noise=0.0):
             signal amplitude at time instants
     """
 
-    x = np.zeros_like(time)
+    x = np.zeros(len(time))
     for amp, freq in zip(amps, freqs):
         x += amp * np.sin(freq * time)
     x += np.random.randn(len(x)) * noise
-- 
2.43.0


From 8c8dc931b1e6401c7e0d049f74ba414665e0a0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 53/65] fix: squarepulse places its pulses in the given time
 interval

---
 PyDynamic/misc/testsignals.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index 7949397..d51261b 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -155,9 +155,14 @@ def squarepulse(time, height, numpulse=4, noise=0.0):
             signal amplitude at time instants
     """
     width = (time[-1] - time[0]) / (2 * numpulse + 1)  # width of each individual rect
-    x = np.zeros_like(time)
+    x = np.zeros(len(time))
     for k in range(numpulse):
-        x += rect(time, (2 * k + 1) * width, (2 * k + 2) * width, height)
+        x += rect(
+            time,
+            time[0] + (2 * k + 1) * width,
+            time[0] + (2 * k + 2) * width,
+            height,
+        )
     if noise > 0:
         x += np.random.randn(len(time)) * noise
     return x
-- 
2.43.0


From 8f2e32e4df675296140cc030cb1df28c457fcad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 54/65] fix: corr_noise generates noise of the requested
 standard deviation and covariance

---
 PyDynamic/misc/testsignals.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index d51261b..eb5bdb3 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -18,7 +18,7 @@ This module contains the following functions:
 import itertools
 
 import numpy as np
-from numpy import diff, sqrt, sum, array, corrcoef
+from numpy import sqrt, sum, array, corrcoef
 from scipy.signal import periodogram
 from scipy.special import comb
 
@@ -230,16 +230,7 @@ class corr_noise(object):
 
     def calc_noise(self, N=100):
         z = self.rst.randn(N + 4)
-        noise = (
-            diff(
-                diff(
-                    diff(diff(z * self.w ** 4) - 4 * z[1:] * self.w ** 3)
-                    + 6 * z[2:] * self.w ** 2
-                )
-                - 4 * z[3:] * self.w
-            )
-            + z[4:]
-        )
+        noise = np.convolve(z, [comb(4, l) * self.w ** l for l in range(5)], "valid")
         self.Cw = sqrt(sum([comb(4, l) ** 2 * self.w ** (2 * l) for l in range(5)]))
         self.noise = noise * self.sigma / self.Cw
         return self.noise
-- 
2.43.0


From e53b0d316ee06a7d2ee41bdd1bc2fca97bebbc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 55/65] fix: corr_noise.calc_noise2 runs again

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index eb5bdb3..cdfb420 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -236,7 +236,7 @@ class corr_noise(object):
         return self.noise
 
     def calc_noise2(self, N=100):
-        P = np.ceil(1.5 * N)
+        P = int(np.ceil(1.5 * N))
         NT = self.rst.randn(P) * self.sigma
         STD = np.zeros(21)
         STD[10] = 1.0
-- 
2.43.0


From aa68d592eb077657c310279d7b19cbd82a1a5149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 56/65] fix: corr_noise.calc_noise2 has the requested standard
 deviation at the beginning as well

---
 PyDynamic/misc/testsignals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyDynamic/misc/testsignals.py b/PyDynamic/misc/testsignals.py
index cdfb420..968d0fd 100755
--- a/PyDynamic/misc/testsignals.py
+++ b/PyDynamic/misc/testsignals.py
@@ -243,7 +243,7 @@ class corr_noise(object):
         for _ in itertools.repeat(None, 5):
             NTtmp = NT.copy()
             NT[:-1] = NT[:-1] + self.w * NTtmp[1:]
-            NT[-1] = NT[-1] + self.w * NTtmp[-1]
+            NT[-1] = NT[-1] + self.w * NTtmp[0]
             NT[1:] = NT[1:] + self.w * NTtmp[:-1]
             NT[0] = NT[0] + self.w * NTtmp[-1]
             STDtmp = STD.copy()
-- 
2.43.0


From c36a9f56a46520c4964caba44323fafd51fc9ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 57/65] fix: Signal.apply_filter propagates point-wise
 uncertainties as such, not as autocovariance

---
 PyDynamic/signals.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 27b5006..100fb0d 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -124,7 +124,11 @@ class Signal:
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
                     self.values, self.uncertainty = FIRuncFilter(
-                        self.values, self.uncertainty, b, Utheta=filter_uncertainty
+                        self.values,
+                        self.uncertainty,
+                        b,
+                        Utheta=filter_uncertainty,
+                        kind="diag",
                     )
                 else:
                     self.values, self.uncertainty = MC(
-- 
2.43.0


From b969e281559cd3e95163ef13b734aeaffe2d89f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 58/65] fix: Signal.apply_filter applies IIR filters for a
 given number of Monte Carlo runs as well

---
 PyDynamic/signals.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 100fb0d..ba8aeff 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -153,11 +153,11 @@ class Signal:
         else:  # IIR-type filter
             if not isinstance(MonteCarloRuns, int):
                 MonteCarloRuns = 10000
-                self.values, self.uncertainty = MC(
-                    self.values,
-                    self.uncertainty,
-                    b,
-                    a,
-                    filter_uncertainty,
-                    runs=MonteCarloRuns,
-                )
+            self.values, self.uncertainty = MC(
+                self.values,
+                self.uncertainty,
+                b,
+                a,
+                filter_uncertainty,
+                runs=MonteCarloRuns,
+            )
-- 
2.43.0


From b4b7d37db3732b86eee029b877b59cd795011726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 59/65] fix: Signal.apply_filter supports Monte Carlo for FIR
 filters

---
 PyDynamic/signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index ba8aeff..bf05aad 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -135,7 +135,7 @@ class Signal:
                         self.values,
                         self.uncertainty,
                         b,
-                        a,
+                        np.ones(1),
                         filter_uncertainty,
                         runs=MonteCarloRuns,
                     )
@@ -146,7 +146,7 @@ class Signal:
                     self.values,
                     self.uncertainty,
                     b,
-                    a,
+                    np.ones(1),
                     filter_uncertainty,
                     runs=MonteCarloRuns,
                 )
-- 
2.43.0


From 4750ba28d026417f6cbddf090046808ed9379052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 60/65] fix: Signal.apply_filter supports Monte Carlo for
 filters without uncertainty

---
 PyDynamic/signals.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index bf05aad..1a766a2 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -120,6 +120,9 @@ class Signal:
         """
         if isinstance(a, list):
             a = np.array(a)
+        Uab = filter_uncertainty
+        if Uab is None:  # the Monte Carlo method always needs a covariance matrix
+            Uab = np.zeros((len(b) + np.size(a) - 1,) * 2)
         if not (isinstance(a, np.ndarray)):  # FIR type filter
             if len(self.uncertainty.shape) == 1:
                 if not isinstance(MonteCarloRuns, int):
@@ -136,7 +139,7 @@ class Signal:
                         self.uncertainty,
                         b,
                         np.ones(1),
-                        filter_uncertainty,
+                        Uab,
                         runs=MonteCarloRuns,
                     )
             else:
@@ -147,7 +150,7 @@ class Signal:
                     self.uncertainty,
                     b,
                     np.ones(1),
-                    filter_uncertainty,
+                    Uab,
                     runs=MonteCarloRuns,
                 )
         else:  # IIR-type filter
@@ -158,6 +161,6 @@ class Signal:
                 self.uncertainty,
                 b,
                 a,
-                filter_uncertainty,
+                Uab,
                 runs=MonteCarloRuns,
             )
-- 
2.43.0


From 27eee9e26cfa7a014bcc0b67ed284f20fe506741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 61/65] fix: Signal accepts a sampling frequency alone and
 integer sampling intervals

---
 PyDynamic/signals.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 1a766a2..24b421d 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -35,7 +35,10 @@ class Signal:
         if (Ts is None) and (Fs is None):
             self.Ts = np.unique(np.diff(self.time)).mean()
             self.Fs = 1 / self.Ts
-        elif isinstance(Ts, float):
+        elif Ts is None:
+            self.Fs = Fs
+            self.Ts = 1 / Fs
+        else:
             self.Ts = Ts
             if Fs is None:
                 self.Fs = 1 / Ts
-- 
2.43.0


From 9df9b4b6afd52d0bd84985c58ac5f2d7d67af1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 62/65] fix: Signal does not drop uncertainties given as
 integer or list

---
 PyDynamic/signals.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 24b421d..cccdd18 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -47,17 +47,17 @@ class Signal:
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
         # set initial uncertainty
-        if isinstance(uncertainty, float):
-            self.uncertainty = np.ones_like(values) * uncertainty
-        elif isinstance(uncertainty, np.ndarray):
-            uncertainty = uncertainty.squeeze()
+        if uncertainty is not None and np.ndim(uncertainty) == 0:
+            self.uncertainty = np.ones(len(values)) * uncertainty
+        elif uncertainty is not None:
+            uncertainty = np.atleast_1d(np.squeeze(uncertainty))
             if len(uncertainty.shape) == 1:
                 assert len(uncertainty) == len(time)
             else:
                 assert uncertainty.shape[0] == uncertainty.shape[1]
             self.uncertainty = uncertainty
         else:
-            self.uncertainty = np.zeros_like(values)
+            self.uncertainty = np.zeros(len(values))
         self.set_labels()
 
     def set_labels(self, unit_time=None, unit_values=None, name_values=None):
-- 
2.43.0


From 1e7471f2250b94a35f61c980400dba13788fed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:36 +0000
Subject: [PATCH 63/65] fix: Signal.plot shows signals with a covariance matrix

---
 PyDynamic/signals.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index cccdd18..770351f 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -75,12 +75,15 @@ class Signal:
             self.name = "signal"
 
     def plot(self, fignr=1, figsize=(10, 8)):
+        std = self.uncertainty
+        if len(std.shape) > 1:  # covariance matrix
+            std = np.sqrt(np.diag(std))
         figure(fignr, figsize=figsize)
         plot(self.time, self.values, label=self.name)
         fill_between(
             self.time,
-            self.values - self.uncertainty,
-            self.values + self.uncertainty,
+            self.values - std,
+            self.values + std,
             color="gray",
             alpha=0.2,
         )
-- 
2.43.0


From 7752b9e4061afebd9af22ae7656fabe690ced271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:35 +0000
Subject: [PATCH 64/65] fix: Signal keeps the sampling frequency if both it and
 the sampling interval are given

---
 PyDynamic/signals.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/PyDynamic/signals.py b/PyDynamic/signals.py
index 770351f..a03a06a 100644
--- a/PyDynamic/signals.py
+++ b/PyDynamic/signals.py
@@ -43,6 +43,7 @@ class Signal:
             if Fs is None:
                 self.Fs = 1 / Ts
             else:
+                self.Fs = Fs
                 assert np.abs(Fs * self.Ts - 1) < 1e-5, (
                     "Sampling interval and " "sampling frequency are " "inconsistent."
                 )
-- 
2.43.0


From 638e1c769ce53744d867ee459f652a713a5abc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 65/65] fix: find the singular frequencies of a group delay
 relative to the size of the filter coefficients

---
 PyDynamic/misc/filterstuff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/PyDynamic/misc/filterstuff.py b/PyDynamic/misc/filterstuff.py
index 8bd8aa6..87c8ce9 100644
--- a/PyDynamic/misc/filterstuff.py
+++ b/PyDynamic/misc/filterstuff.py
@@ -76,9 +76,9 @@ def grpdelay(b, a, Fs, nfft=512):
     cr = c * np.arange(Na + Nb + 1)  # derivative of c wrt 1/z
     num = np.fft.fft(cr, 2 * nfft)
     den = np.fft.fft(c, 2 * nfft)
-    tol = 1e-12
+    tol = 1e-12 * np.max(np.abs(den))  # relative to the size of the coefficients
 
-    polebins = np.nonzero(abs(den) < tol)
+    polebins = np.nonzero(abs(den) <= tol)
     for p in polebins:
         num[p] = 0.0
         den[p] = 1.0
-- 
2.43.0

