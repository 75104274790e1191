From 5be61f0e9876159ee472b77db2ad1f6463f44072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:33 +0000
Subject: [PATCH 01/69] fix: evaluate the NUFFT at the requested Faraday
 depths, also for grids not symmetric about zero

---
 RMutils/util_RM.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 265c36b..fec5421 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -202,7 +202,7 @@ def do_rmsynth_planes(
         finufft.nufft1d3(
             x=a,
             c=np.ascontiguousarray(pCube.T),
-            s=(phiArr_radm2[::-1] * 2).astype(a.dtype),
+            s=(phiArr_radm2 * -2).astype(a.dtype),
             eps=eps,
         )
         * KArr[..., None]
@@ -403,7 +403,7 @@ def get_rmsf_planes(
             finufft.nufft1d3(
                 x=a,
                 c=np.ascontiguousarray(weightCube.T),
-                s=(phi2Arr[::-1] * 2).astype(a.dtype),
+                s=(phi2Arr * -2).astype(a.dtype),
                 eps=eps,
             )
             * KArr[..., None]
-- 
2.43.0


From 805569c7f40242367642b71316af5018a590106f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 02/69] fix: keep the CLEAN window when a component lies within
 half a FWHM of the first channel

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index fec5421..d19051b 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -732,7 +732,7 @@ class RMcleaner:
         dPhi = self.phiArr_radm2[1] - self.phiArr_radm2[0]
         fwhmRMSFArr_pix = fwhmRMSFArr / dPhi
         for i in np.where(mask)[0]:
-            start = int(i - fwhmRMSFArr_pix / 2)
+            start = max(0, int(i - fwhmRMSFArr_pix / 2))
             end = int(i + fwhmRMSFArr_pix / 2)
             mask[start:end] = True
         residFDF_mask = np.ma.array(residFDF, mask=~mask)
-- 
2.43.0


From 600ac16af67023fc575d663ef54b7c23b94cad43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 03/69] fix: return the CLEAN iteration counts from the workers
 of a process pool

---
 RMutils/util_RM.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index d19051b..76659be 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -624,6 +624,8 @@ def do_rmclean_hogbom(
         ccArr[:, yi, xi] = output[i][2]
         cleanFDF[:, yi, xi] = output[i][0]
         residFDF[:, yi, xi] = output[i][1]
+        # Workers of a process pool count the iterations in their own copy
+        iterCountArr[yi, xi] = output[i][3]
 
     # Restore the residual to the CLEANed FDF (moved outside of loop:
     # will now work for pixels/spectra without clean components)
@@ -648,6 +650,8 @@ class CleanLoopResults(NamedTuple):
     """The residual Faraday dispersion function cube"""
     ccArr: np.ndarray
     """The clean components cube"""
+    iterCount: int = 0
+    """The number of iterations"""
 
 
 class RMcleaner:
@@ -775,7 +779,9 @@ class RMcleaner:
         residFDF = np.squeeze(residFDF)
         ccArr = np.squeeze(ccArr)
 
-        return CleanLoopResults(cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr)
+        return CleanLoopResults(
+            cleanFDF=cleanFDF, residFDF=residFDF, ccArr=ccArr, iterCount=iterCount
+        )
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 38e44498b22ab0a71d8ed245a76e38bf40ecfdcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:28 +0000
Subject: [PATCH 04/69] fix: do not run the windowed CLEAN unless a window
 threshold is given

---
 RMutils/util_RM.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 76659be..44fa92e 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -485,7 +485,7 @@ def do_rmclean_hogbom(
     pool=None,
     chunksize=None,
     log=print,
-    window=0,
+    window=np.nan,
 ) -> RMCleanResults:
     """Perform Hogbom CLEAN on a cube of complex Faraday dispersion functions
     given a cube of rotation measure spread functions.
@@ -505,7 +505,9 @@ def do_rmclean_hogbom(
     pool           ... thread pool for multithreading (from schwimmbad) [None]
     chunksize      ... number of pixels to be given per thread (for 3D) [None]
     log            ... function to be used to output messages [print]
-    window         ... Only clean in ±RMSF_FWHM window around first peak [False]
+    window         ... threshold for a deeper clean limited to windows of
+                       ±RMSF_FWHM/2 around the clean components
+                       [nan = no windowed clean]
 
     """
 
@@ -671,7 +673,7 @@ class RMcleaner:
         cutoff=0,
         nbits=32,
         verbose=False,
-        window=0,
+        window=np.nan,
     ):
         self.RMSFArr = RMSFArr
         self.phi2Arr_radm2 = phi2Arr_radm2
-- 
2.43.0


From 1b31d47904fc98e8f3faab2a3570510e6f4d390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 05/69] fix: let RM-CLEAN use schwimmbad's serial and MPI
 pools, which have no imap

---
 RMutils/util_RM.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 44fa92e..b2448d4 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -603,13 +603,18 @@ def do_rmclean_hogbom(
         for pix in inputs:
             output.append(rmc.cleanloop(pix))
     else:
+        if hasattr(pool, "imap"):
+            results = pool.imap(
+                rmc.cleanloop,
+                inputs,
+                chunksize=chunksize if chunksize is not None else 1,
+            )
+        else:
+            # The serial and MPI pools of schwimmbad only have map()
+            results = pool.map(rmc.cleanloop, inputs)
         output = list(
             tqdm(
-                pool.imap(
-                    rmc.cleanloop,
-                    inputs,
-                    chunksize=chunksize if chunksize is not None else 1,
-                ),
+                results,
                 desc="RM-CLEANing",
                 disable=not verbose,
                 total=len(inputs),
-- 
2.43.0


From f018979780840530cd7dfedfaf059cc70b5a7c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 06/69] fix: propagate the full covariance when changing the
 Stokes I model's reference frequency

Two coefficient errors of the log model used wrong terms, and the covariance
matrix was left at the old reference frequency.
---
 RMutils/util_misc.py | 109 ++++++++++++-------------------------------
 1 file changed, 29 insertions(+), 80 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index cb3c30c..3f8a6d5 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -611,93 +611,42 @@ def renormalize_StokesI_model(
     # Modify fit parameter errors to new reference frequency.
     # Note this implicitly makes a first-order approximation in the correletion
     # structure between uncertainties
-    # The general equation for the transformation of uncertainties is:
-    #   var(p) = sum_i,j((\partial p / \partial a_i) * (\partial p / \partial a_j) * cov(a_i,a_j))
-    # where a_i are the initial parameters, p is a final parameter,
+    # The general equation for the transformation of (co)variances is:
+    #   cov(p_k,p_l) = sum_i,j((\partial p_k / \partial a_i) * (\partial p_l / \partial a_j) * cov(a_i,a_j))
+    # where a_i are the initial parameters, p_k are the final parameters,
     # and the partial derivatives are evaluated at the fit parameter values (and frequency ratio).
     # The partial derivatives all come from the parameter conversion equations above.
-
-    cov = fit_result.pcov
     if fit_result.fit_function == "linear":
-        new_errors = [
-            np.sqrt(x**10 * cov[0, 0]),
-            np.sqrt(x**8 * cov[1, 1]),
-            np.sqrt(x**6 * cov[2, 2]),
-            np.sqrt(x**4 * cov[3, 3]),
-            np.sqrt(x**2 * cov[4, 4]),
-            np.sqrt(cov[5, 5]),
-        ]
+        jac = np.diag([x**5, x**4, x**3, x**2, x, 1.0])
     elif fit_result.fit_function == "log":
-        g2 = new_parms[5]  # Convenient shorthand for new value of g variable.
-        new_errors = [
-            np.sqrt(cov[0, 0]),
-            np.sqrt(25 * lnx**2 * cov[0, 0] + 10 * lnx * cov[0, 1] + cov[1, 1]),
-            np.sqrt(
-                100 * lnx**4 * cov[0, 0]
-                + 80 * lnx**3 * cov[0, 1]
-                + 20 * lnx**2 * cov[0, 2]
-                + 16 * lnx**2 * cov[1, 1]
-                + 8 * lnx * cov[1, 2]
-                + cov[2, 2]
-            ),
-            np.sqrt(
-                100 * lnx**6 * cov[0, 0]
-                + 120 * lnx**5 * cov[0, 1]
-                + 60 * lnx**4 * cov[0, 2]
-                + 20 * lnx**3 * cov[0, 3]
-                + 36 * lnx**4 * cov[1, 1]
-                + 36 * lnx**3 * cov[1, 2]
-                + 12 * lnx**2 * cov[1, 3]
-                + 9 * lnx**2 * cov[2, 2]
-                + 6 * lnx * cov[2, 3]
-                + cov[3, 3]
-            ),
-            np.sqrt(
-                25 * lnx**8 * cov[0, 0]
-                + 40 * lnx**7 * cov[0, 1]
-                + 30 * lnx**6 * cov[0, 2]
-                + 20 * lnx**5 * cov[0, 3]
-                + 10 * lnx**4 * cov[0, 4]
-                + 16 * lnx**6 * cov[0, 5]
-                + 24 * lnx**5 * cov[1, 2]
-                + 16 * lnx**4 * cov[1, 3]
-                + 8 * lnx**3 * cov[1, 4]
-                + 9 * lnx**4 * cov[2, 2]
-                + 12 * lnx**3 * cov[2, 3]
-                + 6 * lnx**2 * cov[2, 4]
-                + 4 * lnx**2 * cov[3, 3]
-                + 4 * lnx * cov[3, 4]
-                + cov[4, 4]
-            ),
-            np.abs(g2)
-            * np.sqrt(
-                lnx**10 * cov[0, 0]
-                + 2 * lnx**9 * cov[0, 1]
-                + 2 * lnx**8 * cov[0, 2]
-                + 2 * lnx**7 * cov[0, 3]
-                + 2 * lnx**6 * cov[0, 4]
-                + 2 * lnx**5 / g * np.log(10) * cov[0, 5]
-                + lnx**8 * cov[1, 1]
-                + 2 * lnx**7 * cov[1, 2]
-                + 2 * lnx**6 * cov[1, 3]
-                + 2 * lnx**5 * cov[1, 4]
-                + 2 * lnx**4 / g * np.log(10) * cov[1, 5]
-                + lnx**6 * cov[2, 2]
-                + 2 * lnx**5 * cov[2, 3]
-                + 2 * lnx**4 * cov[2, 4]
-                + 2 * lnx**3 / g * np.log(10) * cov[2, 5]
-                + lnx**4 * cov[3, 3]
-                + 2 * lnx**3 * cov[3, 4]
-                + 2 * lnx**2 / g * np.log(10) * cov[3, 5]
-                + lnx**2 * cov[4, 4]
-                + 2 * lnx / g * np.log(10) * cov[4, 5]
-                + 1 / g**2 * cov[5, 5]
-            ),
-        ]
+        scale = np.power(
+            10, a * lnx**5 + b * lnx**4 + c * lnx**3 + d * lnx**2 + f * lnx
+        )
+        dg2 = g * scale * np.log(10)
+        jac = np.array(
+            [
+                [1, 0, 0, 0, 0, 0],
+                [5 * lnx, 1, 0, 0, 0, 0],
+                [10 * lnx**2, 4 * lnx, 1, 0, 0, 0],
+                [10 * lnx**3, 6 * lnx**2, 3 * lnx, 1, 0, 0],
+                [5 * lnx**4, 4 * lnx**3, 3 * lnx**2, 2 * lnx, 1, 0],
+                [
+                    dg2 * lnx**5,
+                    dg2 * lnx**4,
+                    dg2 * lnx**3,
+                    dg2 * lnx**2,
+                    dg2 * lnx,
+                    scale,
+                ],
+            ]
+        )
+    new_cov = jac @ fit_result.pcov @ jac.T
+    new_errors = np.sqrt(np.diag(new_cov))
 
     return fit_result.with_options(
-        params=new_parms,
+        params=np.array(new_parms),
         reference_frequency_Hz=new_reference_frequency,
+        pcov=new_cov,
         perror=new_errors,
     )
 
-- 
2.43.0


From bf6c858ba89bb8beabdd21d58c5ca7295ec65389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 07/69] fix: do not count flagged channels in the degrees of
 freedom of the Stokes I fit

---
 RMutils/util_misc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 3f8a6d5..d83d2f3 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -516,12 +516,13 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         )
         aic = 2 * (polyOrd + 1) + mp.fnorm
 
-    dof = len(freqArr) - polyOrd - 1
+    # Flagged channels are not fitted, so they don't add degrees of freedom.
+    dof = int(np.sum(goodchan)) - polyOrd - 1
     return FitResult(
         params=mp.params,
         fitStatus=int(np.abs(mp.status)),
         chiSq=mp.fnorm,
-        chiSqRed=mp.fnorm / dof,
+        chiSqRed=mp.fnorm / dof if dof > 0 else np.nan,
         AIC=aic,
         polyOrd=polyOrd,
         nIter=mp.niter,
-- 
2.43.0


From d50c87219598c85087b66a4418dd6cedbac0f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 08/69] fix: return a zero covariance, as for the errors, when
 the Stokes I fit fails

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index d83d2f3..f36a266 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -528,7 +528,7 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
         nIter=mp.niter,
         reference_frequency_Hz=reference_frequency_Hz,
         dof=dof,
-        pcov=mp.covar,
+        pcov=mp.covar if mp.covar is not None else np.zeros((6, 6)),
         perror=mp.perror if mp.perror is not None else np.zeros_like(mp.params),
         fit_function=fit_function,
     )
-- 
2.43.0


From e10b85979748abe991f4d445d295e1f76be8d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 09/69] fix: do not let the dynamic Stokes I order select a fit
 that failed

---
 RMutils/util_misc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f36a266..30585ed 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -496,7 +496,8 @@ def fit_StokesI_model(freqArr, IArr, dIArr, polyOrd, fit_function="log") -> FitR
                 fit_function,
             )
             new_aic = 2 * (current_order + 1) + new_mp.fnorm
-            if new_aic < old_aic:  # if there's an improvement, keep going
+            # if there's an improvement (by a fit that succeeded), keep going
+            if (new_mp.status > 0) and (new_aic < old_aic):
                 old_aic = new_aic
                 mp = new_mp
                 current_order += 1
-- 
2.43.0


From e83f90571075a3b7c472009da5b1106f6aeba0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:47 +0000
Subject: [PATCH 10/69] fix: reject fitted peaks beyond either end of the
 Faraday depth range

---
 RMutils/util_RM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index b2448d4..1ebf8dc 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1065,7 +1065,7 @@ def measure_FDF_parms(
         # In rare cases, a parabola can be fitted to the edge of the spectrum,
         # producing a unreasonably large RM and polarized intensity.
         # In these cases, everything should get NaN'd out.
-        if np.abs(phiPeakPIfit) > np.max(np.abs(phiArr)):
+        if phiPeakPIfit > np.max(phiArr) or phiPeakPIfit < np.min(phiArr):
             phiPeakPIfit = np.nan
             ampPeakPIfit = np.nan
 
-- 
2.43.0


From 33ef36c415ce385e01620a05366065d57fb0a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 11/69] fix: leave channels flagged in Stokes Q or U out of the
 RMSF, noise and channel count of 1D synthesis

---
 RMtools_1D/do_RMsynth_1D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index d4cd489..1167594 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -295,6 +295,9 @@ def run_rmsynth(
     else:
         weightType = "uniform"
         weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels flagged in either Stokes Q or U are not used.
+    flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
+    weightArr = np.where(flagArr, 0.0, weightArr)
     if verbose:
         log("Weight type is '%s'." % weightType)
 
@@ -317,7 +320,7 @@ def run_rmsynth(
         lambdaSqArr_m2=lambdaSqArr_m2,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=flagArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From cf0716c1ee92976645b9afd04193faa29b89feb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 12/69] fix: do not count unused channels in the uncertainty of
 the derotated angle

---
 RMtools_1D/do_RMclean_1D.py | 2 +-
 RMtools_1D/do_RMsynth_1D.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_RMclean_1D.py b/RMtools_1D/do_RMclean_1D.py
index 612afbe..9cd827e 100755
--- a/RMtools_1D/do_RMclean_1D.py
+++ b/RMtools_1D/do_RMclean_1D.py
@@ -170,7 +170,7 @@ def run_rmclean(
         phiArr=phiArr_radm2,
         fwhmRMSF=mDict["fwhmRMSF"],
         dFDF=mDict["dFDFth"],
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],  # only channels in use
         lam0Sq=mDict["lam0Sq_m2"],
     )
     mDict_cl["cleanCutoff"] = cutoff
diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 1167594..7a37a07 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -380,7 +380,7 @@ def run_rmsynth(
         phiArr=phiArr_radm2,
         fwhmRMSF=fwhmRMSF,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],  # only channels in use
         lam0Sq=lam0Sq_m2,
     )
     mDict["Ifreq0"] = toscalar(Ifreq0)
-- 
2.43.0


From b09b78519c0660aa44a2c5576db320c8c5513def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:49 +0000
Subject: [PATCH 13/69] fix: give a supplied Stokes I model a reference
 frequency inside the band (super-resolution crashed)

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 30585ed..5017e56 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -757,7 +757,7 @@ def create_frac_spectra(
             AIC=0,
             polyOrd=polyOrd,
             nIter=0,
-            reference_frequency_Hz=1,
+            reference_frequency_Hz=1 / np.sqrt(nanmean(1 / freqArr**2)),
             dof=len(freqArr) - polyOrd - 1,
             pcov=np.zeros((6, 6)),
             perror=np.zeros(6),
-- 
2.43.0


From 3d5ccbd208bbebaacb60db478600b3cf3576fb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 14/69] fix: interpolate the Stokes I model cube to the
 reference frequency, for any channel order

---
 RMtools_3D/RMpeakfit_3D.py  | 14 ++------------
 RMtools_3D/do_RMsynth_3D.py | 10 ++--------
 RMutils/util_misc.py        | 13 +++++++++++++
 3 files changed, 17 insertions(+), 20 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index d218f06..a804d09 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -17,7 +17,7 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -74,17 +74,7 @@ def pixelwise_peak_fitting(
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
     freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
     if stokesIcube is not None:
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx, :, :], stokesIcube[idx + 1, :, :], f=0.5
-            )
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(
-                stokesIcube[idx - 1, :, :], stokesIcube[idx, :, :], f=0.5
-            )
-        else:
-            Ifreq0Arr = stokesIcube[idx, :, :]
+        Ifreq0Arr = interp_cube_to_freq(stokesIcube, freqArr_Hz, freq0_Hz)
     else:
         Ifreq0Arr = np.ones(map_size)
         stokesIcube = np.ones((freqArr_Hz.size, map_size[0], map_size[1]))
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index fab7abc..3596d0f 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,7 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_images, remove_header_third_fourth_axis
+from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -239,13 +239,7 @@ def run_rmsynth(
         )
 
     if dataI is not None and not not_rmsynth:  # if we created an FDF cube
-        idx = np.abs(freqArr_Hz - freq0_Hz).argmin()
-        if freqArr_Hz[idx] < freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx, :, :], dataI[idx + 1, :, :], f=0.5)
-        elif freqArr_Hz[idx] > freq0_Hz:
-            Ifreq0Arr = interp_images(dataI[idx - 1, :, :], dataI[idx, :, :], f=0.5)
-        else:
-            Ifreq0Arr = dataI[idx, :, :]
+        Ifreq0Arr = interp_cube_to_freq(dataI, freqArr_Hz, freq0_Hz)
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
         FDFcube *= Ifreq0Arr
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 5017e56..d5b453b 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -843,6 +843,19 @@ def interp_images(arr1, arr2, f=0.5):
     return interpArr
 
 
+# -----------------------------------------------------------------------------#
+def interp_cube_to_freq(cube, freqArr_Hz, freq_Hz):
+    """Interpolate linearly between the two planes of a cube (frequency axis
+    first, channels in any order) which are next to the given frequency."""
+
+    order = np.argsort(freqArr_Hz)
+    hi = np.clip(np.searchsorted(freqArr_Hz[order], freq_Hz), 1, len(order) - 1)
+    idx1, idx2 = order[hi - 1], order[hi]
+    f = (freq_Hz - freqArr_Hz[idx1]) / (freqArr_Hz[idx2] - freqArr_Hz[idx1])
+
+    return (1 - f) * cube[idx1] + f * cube[idx2]
+
+
 # -----------------------------------------------------------------------------#
 def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
     """Fit a 5th order polynomial to a spectrum. To avoid overflow errors the
-- 
2.43.0


From cf5a4f9ab841ea7747cc405defc04a322fb33c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 15/69] fix: leave voxels flagged in Stokes U or I out of the
 RMSF of 3D synthesis

---
 RMtools_3D/do_RMsynth_3D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 3596d0f..2d764c7 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -213,7 +213,7 @@ def run_rmsynth(
             lambdaSqArr_m2=lambdaSqArr_m2,
             phiArr_radm2=phiArr_radm2,
             weightArr=weightArr,
-            mskArr=~np.isfinite(dataQ),
+            mskArr=~(np.isfinite(qArr) & np.isfinite(uArr)),
             lam0Sq_m2=lam0Sq_m2,
             double=True,
             fitRMSF=fitRMSF or super_resolution,
-- 
2.43.0


From 4d8b0bf0ca7160c464300f8712fc19ef55b9e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 16/69] fix: accept cubes whose header lacks CTYPE keywords in
 3D synthesis, as intended

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 2d764c7..3e0e5eb 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -611,7 +611,7 @@ def writefits(
 
         stokes_axis = None
         for axis in range(1, header["NAXIS"] + 1):
-            if "STOKES" in header[f"CTYPE{axis}"]:
+            if "STOKES" in header.get(f"CTYPE{axis}", ""):
                 stokes_axis = axis
         if stokes_axis is not None:
             header[f"CTYPE{stokes_axis}"] = (
@@ -665,7 +665,7 @@ def _setStokes(header, stokes):
     outheader = header.copy()
     stokes_axis = None
     for axis in range(1, header["NAXIS"] + 1):
-        if "STOKES" in header[f"CTYPE{axis}"]:
+        if "STOKES" in header.get(f"CTYPE{axis}", ""):
             stokes_axis = axis
 
     if stokes_axis is not None:
-- 
2.43.0


From 44b56c1f612c74e498eb5f09026673c210c0bc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 17/69] fix: multiply the FDF by the Stokes I map also for
 images one pixel wide in 3D synthesis

---
 RMtools_3D/do_RMsynth_3D.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 3e0e5eb..71484e7 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -242,7 +242,8 @@ def run_rmsynth(
         Ifreq0Arr = interp_cube_to_freq(dataI, freqArr_Hz, freq0_Hz)
 
         # Multiply the dirty FDF by Ifreq0 to recover the PI
-        FDFcube *= Ifreq0Arr
+        # (the FDF cube has been squeezed, so match its shape)
+        FDFcube *= np.reshape(Ifreq0Arr, FDFcube.shape[1:])
 
     if not_rmsf:  # only RMsynth
         dataArr = [FDFcube, phiArr_radm2, lam0Sq_m2, lambdaSqArr_m2]
-- 
2.43.0


From bd68c1e924e6e2b1344101f710f9dc164424adb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 18/69] fix: keep image axes of length one in the RMSF FWHM map
 (and do not crash on single-pixel cubes)

---
 RMtools_3D/do_RMsynth_3D.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 71484e7..95fd46f 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -495,6 +495,10 @@ def writefits(
         rmsffwhm_header.pop("BTYPE", None)
         # Remove 3rd and 4th axis, RMSF_FWHM is a plane, like the 2D peak maps
         rmsffwhm_header = remove_header_third_fourth_axis(rmsffwhm_header)
+        # Restore image axes of length one, lost when degenerate axes were removed
+        map_shape = (rmsffwhm_header.get("NAXIS2", 1), rmsffwhm_header["NAXIS1"])
+        if np.size(fwhmRMSFCube) == map_shape[0] * map_shape[1]:
+            fwhmRMSFCube = np.reshape(fwhmRMSFCube, map_shape)
 
         if write_seperate_FDF:  # more memory efficient as well
             header = _setStokes(header, "Q")
-- 
2.43.0


From 2537c78113fc98be4e24f6b4b0cbaa4a7a5131e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:04 +0000
Subject: [PATCH 19/69] fix: take the length of a FITS axis from the header, so
 rounding or a negative increment cannot change it

---
 RMutils/util_RM.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 1ebf8dc..53ab704 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -805,9 +805,8 @@ def fits_make_lin_axis(head, axis=0, dtype="f4"):
     stop = (
         head["CRVAL" + i] + (head["NAXIS" + i] - head["CRPIX" + i]) * head["CDELT" + i]
     )
-    nChan = int(abs(start - stop) / head["CDELT" + i] + 1)
 
-    return np.linspace(start, stop, nChan).astype(dtype)
+    return np.linspace(start, stop, head["NAXIS" + i]).astype(dtype)
 
 
 # -----------------------------------------------------------------------------#
-- 
2.43.0


From 55cec500d76f785e1e7670cd686f40b827b67fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 20/69] fix: find the companion files of Faraday cubes also if
 directory names or prefixes contain _real, _im or _tot

---
 RMtools_3D/RMpeakfit_3D.py  | 36 ++++++++++++++++++------------------
 RMtools_3D/do_RMclean_3D.py | 15 ++++-----------
 RMutils/util_misc.py        | 18 ++++++++++++++++++
 3 files changed, 40 insertions(+), 29 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index a804d09..3516d88 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -9,6 +9,7 @@
 """
 
 import os
+import re
 import sys
 
 import astropy.io.fits as pf
@@ -17,7 +18,11 @@ from astropy.constants import c as speed_of_light
 from tqdm.auto import trange
 
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
-from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
+from RMutils.util_misc import (
+    companion_filename,
+    interp_cube_to_freq,
+    remove_header_third_fourth_axis,
+)
 from RMutils.util_RM import fits_make_lin_axis, measure_FDF_parms
 
 
@@ -252,18 +257,12 @@ def read_files(FDF_filename, freq_filename):
     """
 
     HDUreal = pf.open(
-        FDF_filename.replace("_tot", "_real").replace("_im", "_real"),
-        "readonly",
-        memmap=True,
+        companion_filename(FDF_filename, "real"), "readonly", memmap=True
     )
     head = HDUreal[0].header.copy()
     FDFreal = HDUreal[0].data
 
-    HDUimag = pf.open(
-        FDF_filename.replace("_tot", "_im").replace("_real", "_im"),
-        "readonly",
-        memmap=True,
-    )
+    HDUimag = pf.open(companion_filename(FDF_filename, "im"), "readonly", memmap=True)
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
 
@@ -284,16 +283,17 @@ def read_files(FDF_filename, freq_filename):
 
     phiArr_radm2 = fits_make_lin_axis(head, axis=FD_axis - 1)
 
-    HDUfwhm = pf.open(
-        FDF_filename.replace("FDF_tot_dirty", "RMSF_FWHM")
-        .replace("FDF_real_dirty", "RMSF_FWHM")
-        .replace("FDF_im_dirty", "RMSF_FWHM")
-        .replace("FDF_clean_tot", "RMSF_FWHM")
-        .replace("FDF_clean_real", "RMSF_FWHM")
-        .replace("FDF_clean_im", "RMSF_FWHM"),
-        "readonly",
-        memmap=True,
+    # Only the last FDF label in the file name is that of the cube itself
+    dirname, basename = os.path.split(FDF_filename)
+    fwhm_basename = basename
+    labels = re.finditer(
+        "FDF_((real|im|tot)_dirty|clean_(real|im|tot))(?![A-Za-z0-9])", basename
     )
+    for label in labels:
+        fwhm_basename = (
+            basename[: label.start()] + "RMSF_FWHM" + basename[label.end() :]
+        )
+    HDUfwhm = pf.open(os.path.join(dirname, fwhm_basename), "readonly", memmap=True)
     fwhmRMSF = HDUfwhm[0].data.squeeze()
 
     return complex_cube, phiArr_radm2, fwhmRMSF, lambdaSqArr_m2, lam0Sq, head
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 8e7a9a8..07122d0 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,6 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
+from RMutils.util_misc import companion_filename
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -109,9 +110,7 @@ def run_rmclean(
 
     RMSFArr, headRMSF, FD_axis = read_FDF_cubes(fitsRMSF)
     HDULst = pf.open(
-        fitsRMSF.replace("_real", "_FWHM")
-        .replace("_im", "_FWHM")
-        .replace("_tot", "_FWHM"),
+        companion_filename(fitsRMSF, "FWHM"),
         "readonly",
         memmap=True,
     )
@@ -391,17 +390,11 @@ def read_FDF_cubes(filename):
     puts it first (in numpy order) to accommodate the rest of the code.
     Returns: (complex_cube, header,FD_axis)
     """
-    HDUreal = pf.open(
-        filename.replace("_tot", "_real").replace("_im", "_real"),
-        "readonly",
-        memmap=True,
-    )
+    HDUreal = pf.open(companion_filename(filename, "real"), "readonly", memmap=True)
     head = HDUreal[0].header.copy()
     FDFreal = HDUreal[0].data
 
-    HDUimag = pf.open(
-        filename.replace("_tot", "_im").replace("_real", "_im"), "readonly", memmap=True
-    )
+    HDUimag = pf.open(companion_filename(filename, "im"), "readonly", memmap=True)
     FDFimag = HDUimag[0].data
     complex_cube = FDFreal + 1j * FDFimag
 
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index d5b453b..6a3d5d6 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -69,6 +69,7 @@
 # =============================================================================#
 
 import math as m
+import os
 import re
 import sys
 import traceback
@@ -843,6 +844,23 @@ def interp_images(arr1, arr2, f=0.5):
     return interpArr
 
 
+# -----------------------------------------------------------------------------#
+def companion_filename(filename, component):
+    """Get the name of the file which holds another component ('real', 'im',
+    'tot', 'FWHM') of a Faraday cube. Only the last component label in the
+    file name is replaced, not those in directory names or prefixes."""
+
+    dirname, basename = os.path.split(filename)
+    labels = list(re.finditer("_(real|im|tot)(?![A-Za-z0-9])", basename))
+    if not labels:
+        labels = list(re.finditer("_(real|im|tot)", basename))
+    if labels:
+        start, end = labels[-1].span()
+        basename = basename[:start] + "_" + component + basename[end:]
+
+    return os.path.join(dirname, basename)
+
+
 # -----------------------------------------------------------------------------#
 def interp_cube_to_freq(cube, freqArr_Hz, freq_Hz):
     """Interpolate linearly between the two planes of a cube (frequency axis
-- 
2.43.0


From c604f04c74f4f5cc80b977449347d0ff37305e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 21/69] fix: keep image axes of length one when cleaning or
 peak-fitting cubes, so that maps and cubes keep their layout

---
 RMtools_3D/RMpeakfit_3D.py  |  5 +++--
 RMtools_3D/do_RMclean_3D.py | 35 +++++++++++++++++------------------
 RMtools_3D/do_RMsynth_3D.py |  8 ++++++--
 RMutils/util_misc.py        | 16 ++++++++++++++++
 4 files changed, 42 insertions(+), 22 deletions(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 3516d88..3ad7af8 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -20,6 +20,7 @@ from tqdm.auto import trange
 from RMtools_3D.do_RMsynth_3D import readFitsCube, readFreqFile
 from RMutils.util_misc import (
     companion_filename,
+    drop_degenerate_axes,
     interp_cube_to_freq,
     remove_header_third_fourth_axis,
 )
@@ -274,7 +275,7 @@ def read_files(FDF_filename, freq_filename):
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
     # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    complex_cube = drop_degenerate_axes(complex_cube)
 
     lam0Sq = head["LAMSQ0"]
 
@@ -294,7 +295,7 @@ def read_files(FDF_filename, freq_filename):
             basename[: label.start()] + "RMSF_FWHM" + basename[label.end() :]
         )
     HDUfwhm = pf.open(os.path.join(dirname, fwhm_basename), "readonly", memmap=True)
-    fwhmRMSF = HDUfwhm[0].data.squeeze()
+    fwhmRMSF = np.reshape(HDUfwhm[0].data, complex_cube.shape[1:])
 
     return complex_cube, phiArr_radm2, fwhmRMSF, lambdaSqArr_m2, lam0Sq, head
 
diff --git a/RMtools_3D/do_RMclean_3D.py b/RMtools_3D/do_RMclean_3D.py
index 07122d0..a56b24a 100755
--- a/RMtools_3D/do_RMclean_3D.py
+++ b/RMtools_3D/do_RMclean_3D.py
@@ -49,7 +49,7 @@ except:
     parallel_available = False
 
 from RMtools_3D.do_RMsynth_3D import _setStokes
-from RMutils.util_misc import companion_filename
+from RMutils.util_misc import companion_filename, drop_degenerate_axes
 from RMutils.util_RM import do_rmclean_hogbom, fits_make_lin_axis
 
 
@@ -114,7 +114,7 @@ def run_rmclean(
         "readonly",
         memmap=True,
     )
-    fwhmRMSFArr = np.squeeze(HDULst[0].data)
+    fwhmRMSFArr = np.reshape(HDULst[0].data, dirtyFDF.shape[1:])
     HDULst.close()
     phi2Arr_radm2 = fits_make_lin_axis(headRMSF, axis=FD_axis - 1, dtype=dtFloat)
 
@@ -146,20 +146,13 @@ def run_rmclean(
 
     # Move FD axis back to original position, and restore dimensionality:
     old_Ndim, FD_axis = find_axes(head)
-    new_Ndim = cleanFDF.ndim
-    # The difference is the number of dimensions that need to be added:
-    if old_Ndim - new_Ndim != 0:  # add missing (degenerate) dimensions back in
-        cleanFDF = np.expand_dims(cleanFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-        ccArr = np.expand_dims(ccArr, axis=tuple(range(old_Ndim - new_Ndim)))
-        residFDF = np.expand_dims(residFDF, axis=tuple(range(old_Ndim - new_Ndim)))
-    # New dimensions are added to the beginning of the axis ordering
-    # (revserse of FITS ordering)
-
-    # Move the FDF axis to it's original spot. Hopefully this means that all
-    # axes are in their original place after all of that.
-    cleanFDF = np.moveaxis(cleanFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    ccArr = np.moveaxis(ccArr, old_Ndim - new_Ndim, old_Ndim - FD_axis)
-    residFDF = np.moveaxis(residFDF, old_Ndim - new_Ndim, old_Ndim - FD_axis)
+    # Shape in the FITS file (in numpy order), with the FD axis moved to the front
+    old_shape = [head["NAXIS" + str(i)] for i in range(old_Ndim, 0, -1)]
+    old_shape.insert(0, old_shape.pop(old_Ndim - FD_axis))
+    # Restore the degenerate axes, and move the FD axis to its original spot.
+    cleanFDF = np.moveaxis(np.reshape(cleanFDF, old_shape), 0, old_Ndim - FD_axis)
+    ccArr = np.moveaxis(np.reshape(ccArr, old_shape), 0, old_Ndim - FD_axis)
+    residFDF = np.moveaxis(np.reshape(residFDF, old_shape), 0, old_Ndim - FD_axis)
 
     return cleanFDF, ccArr, iterCountArr, residFDF, head
 
@@ -314,6 +307,12 @@ def writefits(
         header["CTYPE4"] = ("DEGENERATE", "Axis left in to avoid FITS errors")
         header["CUNIT4"] = ""
 
+    # Restore image axes of length one
+    if iterCountArr.size == headtemp["NAXIS1"] * headtemp.get("NAXIS2", 1):
+        iterCountArr = np.reshape(
+            iterCountArr, (headtemp.get("NAXIS2", 1), headtemp["NAXIS1"])
+        )
+
     # Save the iteration count mask
     fitsFileOut = outDir + "/" + prefixOut + "CLEAN_nIter.fits"
     if verbose:
@@ -362,7 +361,7 @@ def read_FDF_cube(filename):
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
     # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    complex_cube = drop_degenerate_axes(complex_cube)
 
     return complex_cube, head, FD_axis
 
@@ -406,7 +405,7 @@ def read_FDF_cubes(filename):
         complex_cube = np.moveaxis(complex_cube, Ndim - FD_axis, 0)
 
     # Remove degenerate axes to prevent problems with later steps.
-    complex_cube = complex_cube.squeeze()
+    complex_cube = drop_degenerate_axes(complex_cube)
 
     return complex_cube, head, FD_axis
 
diff --git a/RMtools_3D/do_RMsynth_3D.py b/RMtools_3D/do_RMsynth_3D.py
index 95fd46f..b282527 100755
--- a/RMtools_3D/do_RMsynth_3D.py
+++ b/RMtools_3D/do_RMsynth_3D.py
@@ -44,7 +44,11 @@ import astropy.io.fits as pf
 import numpy as np
 from astropy.constants import c as speed_of_light
 
-from RMutils.util_misc import interp_cube_to_freq, remove_header_third_fourth_axis
+from RMutils.util_misc import (
+    drop_degenerate_axes,
+    interp_cube_to_freq,
+    remove_header_third_fourth_axis,
+)
 from RMutils.util_RM import do_rmsynth_planes, get_rmsf_planes
 
 if sys.version_info.major == 2:
@@ -766,7 +770,7 @@ def readFitsCube(file, verbose, log=print):
         data = np.moveaxis(data, N_dim - freq_axis, 0)
 
     if N_dim >= 4:
-        data = np.squeeze(data)  # Remove degenerate axes
+        data = drop_degenerate_axes(data)
 
     if verbose:
         print("Dimensions of the input array are: ", data.shape)
diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 6a3d5d6..f36a40b 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -861,6 +861,22 @@ def companion_filename(filename, component):
     return os.path.join(dirname, basename)
 
 
+# -----------------------------------------------------------------------------#
+def drop_degenerate_axes(cube):
+    """Remove degenerate axes (starting with the highest FITS axis) from a cube
+    with the spectral axis first, but keep two image axes, even if they have
+    length one."""
+
+    axis = 1
+    while cube.ndim > 3 and axis < cube.ndim:
+        if cube.shape[axis] == 1:
+            cube = np.squeeze(cube, axis=axis)
+        else:
+            axis += 1
+
+    return cube
+
+
 # -----------------------------------------------------------------------------#
 def interp_cube_to_freq(cube, freqArr_Hz, freq_Hz):
     """Interpolate linearly between the two planes of a cube (frequency axis
-- 
2.43.0


From ddae7770032f33a9fbd543cbe92f6eb4e26153b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 22/69] fix: use the mean frequency as the reference of
 super-resolution cubes in the 3D peak fit (was infinite)

---
 RMtools_3D/RMpeakfit_3D.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/RMpeakfit_3D.py b/RMtools_3D/RMpeakfit_3D.py
index 3ad7af8..877cc5e 100644
--- a/RMtools_3D/RMpeakfit_3D.py
+++ b/RMtools_3D/RMpeakfit_3D.py
@@ -78,7 +78,10 @@ def pixelwise_peak_fitting(
         map_dict[parameter] = np.zeros(map_size)
 
     freqArr_Hz = speed_of_light.value / np.sqrt(lamSqArr_m2)
-    freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    if lam0Sq > 0:
+        freq0_Hz = speed_of_light.value / np.sqrt(lam0Sq)
+    else:  # Super-resolution, as in do_RMsynth_3D
+        freq0_Hz = np.nanmean(freqArr_Hz)
     if stokesIcube is not None:
         Ifreq0Arr = interp_cube_to_freq(stokesIcube, freqArr_Hz, freq0_Hz)
     else:
-- 
2.43.0


From d7f50b4850deeace75e49d5f725aa83a9d07e35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 23/69] fix: create and assemble also if one chunk holds the
 whole image (crashed)

---
 RMtools_3D/assemble_chunks.py | 18 ++----------------
 RMtools_3D/create_chunks.py   | 13 ++-----------
 2 files changed, 4 insertions(+), 27 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index be2892b..3ac15bf 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -120,9 +120,10 @@ def main():
 
     large = pf.open(output_filename, mode="update", memmap=args.memmap)
 
-    for i in trange(num_chunks - 1, desc="Assembling chunks"):
+    for i in trange(num_chunks, desc="Assembling chunks"):
         file = chunkfiles[i]
         idx = base_idx_arr + i * Nperchunk
+        idx = idx[idx < Npix_image]  # The last chunk may be smaller
         xarr = idx // y_dim
         yarr = idx % y_dim
 
@@ -137,22 +138,7 @@ def main():
         #       large.flush()
         chunk.close()
 
-    i += 1
-    file = chunkfiles[i]
-    idx = base_idx_arr + i * Nperchunk
-    idx = idx[idx < Npix_image]
-    xarr = idx // y_dim
-    yarr = idx % y_dim
-    chunk = pf.open(file, memmap=args.memmap)
-    if Ndim == 4:
-        large[0].data[:, :, yarr, xarr] = chunk[0].data[:, :, 0, :]
-    elif Ndim == 3:
-        large[0].data[:, yarr, xarr] = chunk[0].data[:, 0, :]
-    elif Ndim == 2:
-        large[0].data[yarr, xarr] = chunk[0].data
     large.flush()
-    chunk.close()
-
     large.close()
 
 
diff --git a/RMtools_3D/create_chunks.py b/RMtools_3D/create_chunks.py
index 8afe8d8..c1c6150 100644
--- a/RMtools_3D/create_chunks.py
+++ b/RMtools_3D/create_chunks.py
@@ -97,24 +97,15 @@ def main():
     new_header["OLDXDIM"] = x_image
     new_header["OLDYDIM"] = y_image
 
-    # Run for all but last. Last chunk requires some finessing.
-    for i in trange(num_chunks - 1, desc="Creating chunks"):
+    for i in trange(num_chunks, desc="Creating chunks"):
         idx = base_idx_arr + i * Nperchunk
+        idx = idx[idx < Npix_image]  # The last chunk may be smaller
         xarr = idx // y_image
         yarr = idx % y_image
         newdata = np.expand_dims(data[xarr, yarr], 1)
         filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
         pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
 
-    i += 1
-    idx = base_idx_arr + i * Nperchunk
-    idx = idx[idx < Npix_image]
-    xarr = idx // y_image
-    yarr = idx % y_image
-    newdata = np.expand_dims(data[xarr, yarr], 1)
-    filename = ("{}.C{" + prntcode + "}.fits").format(prefix, i)
-    pf.writeto(filename, np.transpose(newdata), new_header, overwrite=True)
-
     hdu.close()
 
 
-- 
2.43.0


From bca9025cedbaf75fc7dd04c167318d0a0aa633f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 24/69] fix: check the number of chunks before creating (or
 overwriting) the assembled file

---
 RMtools_3D/assemble_chunks.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index 3ac15bf..50513c3 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -98,6 +98,9 @@ def main():
     new_header["NAXIS1"] = x_dim
     new_header["NAXIS2"] = y_dim
 
+    if len(chunkfiles) != num_chunks:
+        raise Exception("Number of chunk files found does not match expectations!")
+
     # Create blank file:
     new_header.tofile(output_filename, overwrite=args.overwrite)
 
@@ -113,9 +116,6 @@ def main():
         )
         fobj.write(b"\0")
 
-    if len(chunkfiles) != num_chunks:
-        raise Exception("Number of chunk files found does not match expectations!")
-
     base_idx_arr = np.array(range(Nperchunk))
 
     large = pf.open(output_filename, mode="update", memmap=args.memmap)
-- 
2.43.0


From 0d6e0ecfb893429351c9b956e13eed3dafa7e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 25/69] fix: identify the chunks of a file whose name contains
 glob characters or itself looks like a chunk's

---
 RMtools_3D/assemble_chunks.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index 50513c3..e82e786 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -11,7 +11,7 @@ output files from 3D RM synthesis back into larger cubes.
 
 import argparse
 import re
-from glob import glob
+from glob import escape, glob
 from math import ceil
 
 import astropy.io.fits as pf
@@ -56,14 +56,14 @@ def main():
 
     args = parser.parse_args()
 
+    # The chunk number is the last one in the name: the original file's name (or
+    # that of its directory) may itself look like that of a chunk.
+    chunk_label = list(re.finditer(r"\.C\d+(?=\.)", args.chunkname))[-1]
+    name_start = args.chunkname[: chunk_label.start()]
+    name_end = args.chunkname[chunk_label.end() :]
+
     if args.output == None:
-        output_filename = ".".join(
-            [
-                x
-                for x in args.chunkname.split(".")
-                if not (x.startswith("C") and x[1:].isnumeric())
-            ]
-        )
+        output_filename = name_start + name_end
     else:
         output_filename = args.output
 
@@ -73,10 +73,11 @@ def main():
         args.memmap = True
 
     # Get all the chunk filenames. Missing chunks will break things!
-    filename = re.search("\.C\d+\.", args.chunkname)
-    chunkfiles = glob(
-        args.chunkname[0 : filename.start()] + ".C*." + args.chunkname[filename.end() :]
-    )
+    chunkfiles = [
+        x
+        for x in glob(escape(name_start) + ".C*" + escape(name_end))
+        if x[len(name_start) + 2 : len(x) - len(name_end)].isnumeric()
+    ]
     chunkfiles.sort()
 
     old_header = pf.getheader(chunkfiles[0])
-- 
2.43.0


From aa893d803aa125343c55e6c44116dcdb38e12fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:35 +0000
Subject: [PATCH 26/69] fix: pad the assembled file to whole FITS blocks (it
 was truncated)

---
 RMtools_3D/assemble_chunks.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index e82e786..4299477 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -109,12 +109,10 @@ def main():
     shape = tuple(
         new_header["NAXIS{0}".format(ii)] for ii in range(1, new_header["NAXIS"] + 1)
     )
+    data_size = np.prod(shape) * np.abs(new_header["BITPIX"] // 8)
+    data_size = ceil(data_size / 2880) * 2880  # FITS files consist of 2880-byte blocks
     with open(output_filename, "rb+") as fobj:
-        fobj.seek(
-            len(new_header.tostring())
-            + (np.prod(shape) * np.abs(new_header["BITPIX"] // 8))
-            - 1
-        )
+        fobj.seek(len(new_header.tostring()) + data_size - 1)
         fobj.write(b"\0")
 
     base_idx_arr = np.array(range(Nperchunk))
-- 
2.43.0


From 5acedfc613883f61e571efecd7a21ee581660020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:29 +0000
Subject: [PATCH 27/69] fix: refuse to assemble incomplete sets of chunks, or
 chunks of different splits

---
 RMtools_3D/assemble_chunks.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/RMtools_3D/assemble_chunks.py b/RMtools_3D/assemble_chunks.py
index 4299477..745cfe6 100644
--- a/RMtools_3D/assemble_chunks.py
+++ b/RMtools_3D/assemble_chunks.py
@@ -101,6 +101,16 @@ def main():
 
     if len(chunkfiles) != num_chunks:
         raise Exception("Number of chunk files found does not match expectations!")
+    for i, file in enumerate(chunkfiles):
+        header = pf.getheader(file)
+        if (
+            int(file[len(name_start) + 2 : len(file) - len(name_end)]) != i
+            or header["NAXIS1"] != min(Nperchunk, Npix_image - i * Nperchunk)
+            or (header["OLDXDIM"], header["OLDYDIM"]) != (x_dim, y_dim)
+        ):
+            raise Exception(
+                "The chunk files found do not belong together, or some are missing!"
+            )
 
     # Create blank file:
     new_header.tofile(output_filename, overwrite=args.overwrite)
-- 
2.43.0


From 91bbee2241f68fb4843941abdbda167043f9022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 28/69] fix: keep the last row and column of boxes cut from 2D
 images, as for cubes

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 2776a72..46b9d66 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -166,7 +166,7 @@ def main():
             zlim[0] - 1 : zlim[1], box[2] - 1 : box[3], box[0] - 1 : box[1]
         ]
     elif header["NAXIS"] == 2:
-        data = hdu[0].data[box[2] - 1 : box[3] - 1, box[0] - 1 : box[1] - 1]
+        data = hdu[0].data[box[2] - 1 : box[3], box[0] - 1 : box[1]]
     else:
         raise Exception("Number of dimensions is some nonsupported value!")
 
-- 
2.43.0


From 73335b6491faaadebc0baf2d0d1fd7b94e0ce4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 29/69] fix: accept -1 as upper limit of the box and plane
 ranges, as documented

---
 RMtools_3D/extract_region.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 46b9d66..21ff253 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -98,10 +98,11 @@ def main():
             args.box[2] + args.box[3],
         ]
 
-    if box[0] > box[1]:
+    # An upper limit of -1 means the end of the axis.
+    if box[0] > box[1] and box[1] != -1:
         raise Exception("Box dimensions incorrect! x_max < x_min!")
 
-    if box[2] > box[3]:
+    if box[2] > box[3] and box[3] != -1:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
     hdu = pf.open(args.infile, memmap=True)
@@ -139,6 +140,11 @@ def main():
 
     if args.zlim != None:
         zlim = args.zlim
+        if zlim[0] < 1:
+            zlim[0] = 1
+        nplanes = header["NAXIS" + str(cube_axis)]
+        if (zlim[1] == -1) or (zlim[1] > nplanes):
+            zlim[1] = nplanes
     elif cube_axis > 2:
         zlim = [1, header["NAXIS" + str(cube_axis)]]
 
-- 
2.43.0


From a21883ba80663b75051258b731bc34eeebd48384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 30/69] fix: extract regions also from files without reference
 pixels in the header (FITS default)

---
 RMtools_3D/extract_region.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index 21ff253..eea1d6d 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -183,10 +183,10 @@ def main():
     if args.zlim != None:
         new_header["NAXIS" + str(cube_axis)] = zlim[1] - zlim[0] + 1
         new_header["CRPIX" + str(cube_axis)] = (
-            header["CRPIX" + str(cube_axis)] - zlim[0] + 1
+            header.get("CRPIX" + str(cube_axis), 0.0) - zlim[0] + 1
         )
-    new_header["CRPIX1"] = header["CRPIX1"] - box[0] + 1
-    new_header["CRPIX2"] = header["CRPIX2"] - box[2] + 1
+    new_header["CRPIX1"] = header.get("CRPIX1", 0.0) - box[0] + 1
+    new_header["CRPIX2"] = header.get("CRPIX2", 0.0) - box[2] + 1
 
     pf.writeto(args.outfile, data, new_header, overwrite=args.overwrite)
 
-- 
2.43.0


From fbcefed8e94298f4ee61f2c5421ba0990030f1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:35 +0000
Subject: [PATCH 31/69] fix: extract regions also from files with scaled data
 (cannot be memory-mapped)

---
 RMtools_3D/extract_region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/extract_region.py b/RMtools_3D/extract_region.py
index eea1d6d..99fd4b3 100644
--- a/RMtools_3D/extract_region.py
+++ b/RMtools_3D/extract_region.py
@@ -105,7 +105,7 @@ def main():
     if box[2] > box[3] and box[3] != -1:
         raise Exception("Box dimensions incorrect! y_max < y_min!")
 
-    hdu = pf.open(args.infile, memmap=True)
+    hdu = pf.open(args.infile)  # Memory-mapped where possible
     header = hdu[0].header
 
     if args.sky:
-- 
2.43.0


From 3b3573b08a8507d8d4f7579f25152a91db799198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 32/69] fix: fit Stokes I cubes also if the image is one pixel
 wide (crashed)

---
 RMtools_3D/do_fitIcube.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 1a0e951..8ae1196 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -515,10 +515,9 @@ def make_model_I(
 
     coeffs = np.array([mskArr] * 6, dtype=dtFloat)
     coeffs_error = np.array([mskArr] * 6, dtype=dtFloat)
-    reffreq = np.squeeze(np.array([mskArr], dtype=dtFloat))
+    reffreq = np.array(mskArr, dtype=dtFloat)
 
     covars = np.array([[mskArr] * 6] * 6, dtype=dtFloat)
-    datacube = np.squeeze(datacube)
 
     # Select only the spectra with emission
     srcData = np.rot90(datacube[:, mskSrc > 0])
-- 
2.43.0


From df5b40c204a8180081a11bf7e718e669e21662ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 33/69] fix: fit Stokes I cubes also if the header has no BUNIT
 (crashed after the fit)

---
 RMtools_3D/do_fitIcube.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 8ae1196..5d86c0a 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -562,7 +562,7 @@ def make_model_I(
             results = pool.map(func, args_list)
 
     headcoeff = remove_header_third_fourth_axis(header=header.copy())
-    del headcoeff["BUNIT"]
+    headcoeff.pop("BUNIT", None)
 
     endTime = time.time()
     cputime = endTime - startTime
-- 
2.43.0


From cdf6fdc6bbe9ee2f036e66e3ced862f3c0e38083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 34/69] fix: read frequencies in double precision whatever the
 pixel type of the Stokes I cube (16 bit overflowed)

---
 RMtools_3D/do_fitIcube.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index 5d86c0a..feca7bc 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -242,14 +242,11 @@ def get_frequencies(datacube, header, freqFile):
     freqArr_Hz: frequency array
     """
 
-    nBits = np.abs(header["BITPIX"])
-    dtFloat = "float" + str(nBits)
-
     nChan = datacube.shape[0]  # for now, assumes frequency is the first axis
 
     # Read the frequency vector
     print("Reading frequency vector from '%s'." % freqFile)
-    freqArr_Hz = np.loadtxt(freqFile, dtype=dtFloat)
+    freqArr_Hz = np.loadtxt(freqFile, dtype=float)
     if nChan != len(freqArr_Hz):
         print("Err: frequency vector and frequency axis of cube unequal length.")
         sys.exit()
-- 
2.43.0


From c98dc887499eb9eebd35dc1e478bfa83fffcd45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:35 +0000
Subject: [PATCH 35/69] fix: keep the frequency axis description in model cubes
 if axis 3 of the Stokes I cube is degenerate

---
 RMtools_3D/do_fitIcube.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index feca7bc..a8a529c 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -45,7 +45,7 @@ import astropy.io.fits as pf
 import numpy as np
 from tqdm.contrib.concurrent import process_map
 
-from RMtools_3D.do_RMsynth_3D import readFitsCube
+from RMtools_3D.do_RMsynth_3D import find_freq_axis, readFitsCube
 from RMtools_3D.make_freq_file import get_freq_array
 from RMutils.util_FITS import strip_fits_dims
 from RMutils.util_misc import (
@@ -391,6 +391,12 @@ def savefits_model_I(data, header, outDir, prefixOut):
     if nDim == 4:
         headModelCube["NAXIS4"] = header["NAXIS4"]
         nVoxels *= header["NAXIS4"]
+    # Without the degenerate axes, the frequency axis is always the third
+    freq_axis = find_freq_axis(header)
+    if nDim == 3 and freq_axis > 3:
+        for key in ["NAXIS", "CTYPE", "CUNIT", "CRVAL", "CRPIX", "CDELT"]:
+            if key + str(freq_axis) in header:
+                headModelCube[key + "3"] = header[key + str(freq_axis)]
     while len(headModelCube) < (36 * 4 - 1):
         headModelCube.append()
 
-- 
2.43.0


From cdb34aec62c77def923c15c13e0facb9f2e855e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:25 +0000
Subject: [PATCH 36/69] fix: don't apply the integer scaling of the Stokes I
 cube to its model cube

---
 RMtools_3D/do_fitIcube.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMtools_3D/do_fitIcube.py b/RMtools_3D/do_fitIcube.py
index a8a529c..646d1a8 100755
--- a/RMtools_3D/do_fitIcube.py
+++ b/RMtools_3D/do_fitIcube.py
@@ -391,6 +391,9 @@ def savefits_model_I(data, header, outDir, prefixOut):
     if nDim == 4:
         headModelCube["NAXIS4"] = header["NAXIS4"]
         nVoxels *= header["NAXIS4"]
+    # The model is floating point, even if the Stokes I data were scaled integers
+    for key in ["BSCALE", "BZERO", "BLANK"]:
+        headModelCube.pop(key, None)
     # Without the degenerate axes, the frequency axis is always the third
     freq_axis = find_freq_axis(header)
     if nDim == 3 and freq_axis > 3:
-- 
2.43.0


From 33bb339b3e86e2a8ff85b7fa8feae59ae70fe8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:31 +0000
Subject: [PATCH 37/69] fix: write all orders of rescaled Stokes I models also
 if a lower order coefficient is zero everywhere

---
 RMtools_3D/rescale_I_model_3D.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index a2eb9a7..2f2ea42 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -322,9 +322,9 @@ def write_new_parameters(
 
     # Work out highest order of polynomial:
     # if any of the 6 possible coeff planes contain non-zero and non-nan values, it's a 'good' plane.
-    max_order = (
-        np.sum(np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))) - 1
-    )
+    good_planes = np.any((new_coeffs != 0.0) & (~np.isnan(new_coeffs)), axis=(1, 2))
+    # Planes go from highest to lowest order, and lower ones than the highest may be zero.
+    max_order = 5 - np.argmax(good_planes) if np.any(good_planes) else 0
 
     for i in range(max_order + 1):
         pf.writeto(
-- 
2.43.0


From b6a992b9b00f5841ad76e3adf0321479623e08dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:27 +0000
Subject: [PATCH 38/69] fix: QU models at the end of the prior ranges (no
 depolarisation gave NaN, which counted as a perfect fit)

---
 RMtools_1D/models_ns/m12.py | 6 +++++-
 RMtools_1D/models_ns/m5.py  | 3 +--
 RMtools_1D/models_ns/m6.py  | 6 ++----
 RMtools_1D/models_ns/m7.py  | 5 ++++-
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/RMtools_1D/models_ns/m12.py b/RMtools_1D/models_ns/m12.py
index 8d9d0d4..b426225 100644
--- a/RMtools_1D/models_ns/m12.py
+++ b/RMtools_1D/models_ns/m12.py
@@ -29,12 +29,16 @@ def model(pDict, lamSqArr_m2):
         - 2j * lamSqArr_m2 * pDict["deltaRM_radm2"]
     )
 
+    # (1 - exp(-S)) / S, which is 1 without internal depolarisation (S = 0)
+    S_div = np.where(para_S == 0, 1.0, para_S)
+    depol = np.where(para_S == 0, 1.0, -np.expm1(-1.0 * para_S) / S_div)
+
     quArr = (
         pArr
         * np.exp(
             2j * (np.radians(pDict["psi0_deg"]) + pDict["RM_screen"] * lamSqArr_m2)
         )
-        * ((1 - np.exp(-1.0 * para_S)) / para_S)
+        * depol
         * np.exp(-2.0 * pDict["sigmaRM_radm2_FG"] ** 2.0 * lamSqArr_m2**2.0)
     )
 
diff --git a/RMtools_1D/models_ns/m5.py b/RMtools_1D/models_ns/m5.py
index 16ede4d..afdc5e2 100644
--- a/RMtools_1D/models_ns/m5.py
+++ b/RMtools_1D/models_ns/m5.py
@@ -32,8 +32,7 @@ def model(pDict, lamSqArr_m2):
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   (0.5*pDict["deltaRM_radm2"] +
                                    pDict["RM_radm2"]) * lamSqArr_m2))
-             * np.sin(pDict["deltaRM_radm2"] * lamSqArr_m2) /
-               (pDict["deltaRM_radm2"] * lamSqArr_m2))
+             * np.sinc(pDict["deltaRM_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m6.py b/RMtools_1D/models_ns/m6.py
index aa23660..e28b706 100644
--- a/RMtools_1D/models_ns/m6.py
+++ b/RMtools_1D/models_ns/m6.py
@@ -39,10 +39,8 @@ def model(pDict, lamSqArr_m2):
     quArr2 = pArr2 * np.exp( 2j * (np.radians(pDict["psi02_deg"]) +
                                    (0.5*pDict["deltaRM2_radm2"] +
                                     pDict["RM2_radm2"]) * lamSqArr_m2))
-    quArr = (quArr1 * np.sin(pDict["deltaRM1_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM1_radm2"] * lamSqArr_m2) +
-             quArr2 * np.sin(pDict["deltaRM2_radm2"] * lamSqArr_m2) /
-             (pDict["deltaRM2_radm2"] * lamSqArr_m2))
+    quArr = (quArr1 * np.sinc(pDict["deltaRM1_radm2"] * lamSqArr_m2 / np.pi) +
+             quArr2 * np.sinc(pDict["deltaRM2_radm2"] * lamSqArr_m2 / np.pi))
     # fmt: on
 
     return quArr
diff --git a/RMtools_1D/models_ns/m7.py b/RMtools_1D/models_ns/m7.py
index 50c594f..4a91dc6 100644
--- a/RMtools_1D/models_ns/m7.py
+++ b/RMtools_1D/models_ns/m7.py
@@ -31,9 +31,12 @@ def model(pDict, lamSqArr_m2):
     pArr = pDict["fracPol"] * np.ones_like(lamSqArr_m2)
     para_S = (2. * lamSqArr_m2**2 * pDict["sigmaRM_radm2"]**2 -
              2j * lamSqArr_m2 * pDict["deltaRM_radm2"])
+    # (1 - exp(-S)) / S, which is 1 without depolarisation (S = 0)
+    S_div = np.where(para_S == 0, 1.0, para_S)
+    depol = np.where(para_S == 0, 1.0, -np.expm1(-1.*para_S) / S_div)
     quArr = (pArr * np.exp( 2j * (np.radians(pDict["psi0_deg"]) +
                                   pDict["RM_radm2"] * lamSqArr_m2)) *
-            (1 - np.exp(-1.*para_S)) / para_S)
+            depol)
     # fmt: on
 
     return quArr
-- 
2.43.0


From 576e66a9da444816d19adf965e265316c8736a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 39/69] fix: don't count flagged channels as data in the
 statistics of QU fits

---
 RMtools_1D/do_QUfit_1D_mnest.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index ea39a21..3b0682c 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -383,7 +383,10 @@ def run_qufit(
     priors = mod.priors
 
     # Set the likelihood function given the data
-    lnlike = lnlike_call(parNames, lamSqArr_m2, qArr, dqArr, uArr, duArr, modelNum)
+    # (only channels that are not flagged count as data)
+    good = np.isfinite(qArr + uArr) & np.isfinite(dqArr + duArr)
+    fitData = [x[good] for x in (lamSqArr_m2, qArr, dqArr, uArr, duArr)]
+    lnlike = lnlike_call(parNames, *fitData, modelNum)
     # Let's time the sampler
     startTime = time.time()
 
@@ -451,9 +454,9 @@ def run_qufit(
         )
 
     # Calculate goodness-of-fit parameters
-    nData = 2.0 * len(lamSqArr_m2)
+    nData = 2.0 * np.sum(good)
     dof = nData - nFree - 1
-    chiSq = chisq_model(parNames, p, lamSqArr_m2, qArr, dqArr, uArr, duArr, model)
+    chiSq = chisq_model(parNames, p, *fitData, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
     AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
-- 
2.43.0


From bfba07830d0ee8fdea6fcd4e62368a587a8854fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 40/69] fix: normalisation of the likelihood of QU fits
 (evidence, AIC and BIC were off by a constant)

---
 RMtools_1D/do_QUfit_1D_mnest.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index 3b0682c..e410257 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -622,13 +622,13 @@ class lnlike_call(bilby.Likelihood):
         # Silva 2006
         model = load_model(self.modelNum).model
         quMod = model(self.parameters, self.lamSqArr_m2)
-        dquArr = np.sqrt(np.power(self.dqArr, 2) + np.power(self.duArr, 2))
         chiSqQ = np.nansum(np.power((self.qArr - quMod.real) / self.dqArr, 2))
         chiSqU = np.nansum(np.power((self.uArr - quMod.imag) / self.duArr, 2))
-        nData = len(dquArr)
+        nData = len(self.qArr)
         logLike = (
             -nData * np.log(2.0 * np.pi)
-            - 2.0 * np.nansum(np.log(dquArr))
+            - np.nansum(np.log(self.dqArr))
+            - np.nansum(np.log(self.duArr))
             - chiSqQ / 2.0
             - chiSqU / 2.0
         )
-- 
2.43.0


From 2f8e8b07a1186a1202aeb3e661a95a5f07a5f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 41/69] fix: AICc of QU fits lacked the 2k term of the AIC

---
 RMtools_1D/do_QUfit_1D_mnest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index e410257..bcc411d 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -459,7 +459,7 @@ def run_qufit(
     chiSq = chisq_model(parNames, p, *fitData, model)
     chiSqRed = chiSq / dof
     AIC = 2.0 * nFree - 2.0 * lnLike
-    AICc = 2.0 * nFree * (nFree + 1) / (nData - nFree - 1) - 2.0 * lnLike
+    AICc = AIC + 2.0 * nFree * (nFree + 1) / (nData - nFree - 1)
     BIC = nFree * np.log(nData) - 2.0 * lnLike
 
     # Summary of run
-- 
2.43.0


From 3e64661a5977a97eb4d3a93a8914c9d21bc88f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 42/69] fix: QU fits of models with a fixed parameter rotated
 the samples of a wrong parameter or crashed

---
 RMtools_1D/do_QUfit_1D_mnest.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index bcc411d..bbf082c 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -417,17 +417,12 @@ def run_qufit(
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
             summary_tmp = result.get_one_dimensional_median_and_error_bar(parNames[i])
             if summary_tmp.median < 45.0 or summary_tmp.median >= 135.0:
-                # Shift PA by 90 deg
-                result.samples[:, i] += 90.0
-                # Keep all values within [0, 180)
-                result.samples[:, i] -= (result.samples[:, i] >= 180.0) * 180.0
+                # Shift PA by 90 deg, keeping all values within [0, 180)
+                angles = result.posterior[parNames[i]] + 90.0
+                result.posterior[parNames[i]] = angles - (angles >= 180.0) * 180.0
                 # Keep track of which parameters have been rotated
                 rotated_parNames.append(parNames[i])
 
-    # Update the posterior values
-    if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
-
     # Best guess here - taking the maximum likelihood value
     lnLike = np.max(result.log_likelihood_evaluations)
     lnEvidence = result.log_evidence
@@ -544,14 +539,10 @@ def run_qufit(
     for i in range(nDim):
         if parNames[i] in rotated_parNames:
             # Rotate back by the 90 deg
-            result.samples[:, i] -= 90.0
+            result.posterior[parNames[i]] -= 90.0
             if p[i] > 135.0:
                 # In case the PA shown would be << 0 deg
-                result.samples[:, i] += 180.0
-
-    # Resampling to make sure the results show
-    if len(rotated_parNames) > 0:
-        result.samples_to_posterior()
+                result.posterior[parNames[i]] += 180.0
 
     cornerFig = result.plot_corner()
 
-- 
2.43.0


From 45b11d2dbfbed8a5cd4860710a6cdff7e21803bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 43/69] fix: angles of QU fits with a posterior split evenly
 around 0/180 deg came out perpendicular

---
 RMtools_1D/do_QUfit_1D_mnest.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index bbf082c..b1c7a61 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -415,8 +415,12 @@ def run_qufit(
             and wraps[i] == "periodic"
         ):
             # Only try to do it if the units is in deg, bounded within [0., 180.], and is a periodic variable
-            summary_tmp = result.get_one_dimensional_median_and_error_bar(parNames[i])
-            if summary_tmp.median < 45.0 or summary_tmp.median >= 135.0:
+            # (the mean direction, as the median may lie between samples on both ends)
+            doubled = np.radians(2.0 * result.posterior[parNames[i]])
+            mean_deg = 0.5 * np.degrees(
+                np.arctan2(np.mean(np.sin(doubled)), np.mean(np.cos(doubled)))
+            )
+            if -45.0 <= mean_deg < 45.0:
                 # Shift PA by 90 deg, keeping all values within [0, 180)
                 angles = result.posterior[parNames[i]] + 90.0
                 result.posterior[parNames[i]] = angles - (angles >= 180.0) * 180.0
-- 
2.43.0


From 5b2cc1183f0a70f9e63a8c78809b2488d66c9c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 44/69] fix: accept the documented six column input (widths, no
 Stokes I) in rmtools_bwdepol (crashed)

---
 RMtools_1D/rmtools_bwdepol.py | 3045 +++++++++++++++++----------------
 1 file changed, 1523 insertions(+), 1522 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index ccb5d11..150b0ce 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1,1522 +1,1523 @@
-#!/usr/bin/env python
-# =============================================================================#
-#                                                                             #
-# NAME:     rmtools_bwdepol.py                                                #
-#                                                                             #
-# PURPOSE: Algorithm for finding polarized sources while accounting for       #
-#          bandwidth depolarization.                                          #
-#                                                                             #
-# =============================================================================#
-#                                                                             #
-# The MIT License (MIT)                                                       #
-#                                                                             #
-# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
-# Permission is hereby granted, free of charge, to any person obtaining a     #
-# copy of this software and associated documentation files (the "Software"),  #
-# to deal in the Software without restriction, including without limitation   #
-# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
-# and/or sell copies of the Software, and to permit persons to whom the       #
-# Software is furnished to do so, subject to the following conditions:        #
-#                                                                             #
-# The above copyright notice and this permission notice shall be included in  #
-# all copies or substantial portions of the Software.                         #
-#                                                                             #
-# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
-# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
-# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
-# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
-# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
-# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
-# DEALINGS IN THE SOFTWARE.                                                   #
-#                                                                             #
-# =============================================================================#
-
-import argparse
-import math as m
-import os
-import sys
-import time
-import traceback
-
-import matplotlib.pyplot as plt
-import numpy as np
-import scipy as sp
-from astropy.constants import c as speed_of_light
-from matplotlib.ticker import MaxNLocator
-
-from RMtools_1D.do_RMsynth_1D import saveOutput
-from RMutils.util_misc import (
-    MAD,
-    create_frac_spectra,
-    nanmedian,
-    poly5,
-    progress,
-    toscalar,
-)
-from RMutils.util_plotTk import (
-    plot_complexity_fig,
-    plot_dirtyFDF_ax,
-    plot_Ipqu_spectra_fig,
-)
-from RMutils.util_RM import (
-    calc_parabola_vertex,
-    extrap,
-    fit_rmsf,
-    measure_qu_complexity,
-)
-
-if sys.version_info.major == 2:
-    print("RM-tools will no longer run with Python 2! Please use Python 3.")
-    exit()
-
-
-# -----------------------------------------------------------------------------#
-def rotation_integral_limit(freq, phi):
-    """Calculates the analytic solution to the channel polarization integral
-    at one limit frequency.
-
-    Parameters
-    ----------
-    freq: float
-          frequency in Hz
-
-    phi: float
-          Faraday depth (rad/m^2)
-
-    Returns
-    -------
-    intergral_lim: complex
-                   intergral limit
-
-    """
-    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
-    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
-    funct3 = -1.0j + np.sign(phi)
-    funct4 = sp.special.erf(
-        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
-    )
-
-    intergral_lim = funct1 + (funct2 * funct3 * funct4)
-
-    return intergral_lim
-
-
-def rotation_operator(channel_width, channel_center, phi):
-    """Rotation operator for channel with top-hat-in-frequency sensitivity.
-    Computes the net effect on a polarization vector for a channel of given
-    center frequnecy and bandwidth, for a given RM.
-
-    Parameters
-    ----------
-    channel_width: float
-                   channel bandwidth in Hz
-
-    channel_center: float
-                    channel frequency in Hz
-
-    phi: float
-         channel frequency in hz
-
-    Returns
-    -------
-    (complex) rotation operator for that channel
-
-    """
-    b = channel_center + 0.5 * channel_width
-    a = channel_center - 0.5 * channel_width
-
-    int_a = rotation_integral_limit(a, phi)
-    int_b = rotation_integral_limit(b, phi)
-
-    return (1 / channel_width) * (int_b - int_a)
-
-
-def estimate_channel_bandwidth(freq_array):
-    """Estimates the bandwidth per channel given the spacing between channel
-    centers. Only looks at the first 2 channels.
-
-    Parameters
-    ----------
-    freq_array: array-like
-                array of channel centers
-
-    Returns
-    -------
-    ban: float
-         seperation between first two channel centers
-
-    """
-    ban = freq_array[1] - freq_array[0]
-    return ban
-
-
-def l2_to_freq_array(lambda_square_array):
-    """returns the freqency array, corresponding to a lambda square array"""
-
-    f = speed_of_light.value**2 / lambda_square_array
-    return np.sqrt(f)
-
-
-def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
-    """Calculates the theoretical sensitivity and noise for the adjoint method
-
-    Parameters
-    ----------
-    adjoint_vars: list
-                  list like object containing organized as
-                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    dQUArr: array like
-            array containing the error in Stokes Q, and U
-
-    show_progress: Boolean
-                   If set to True, shows progress, Default is False
-
-    log: function
-         logging function, default is print
-
-    Returns
-    -------
-    adjoint_info: list
-                  list containing phiArr, and the theoretical noise and
-                  sensitivity organized as
-                  [phiArr_radm2, adjoint_sens, adjoint_noise]
-
-    """
-
-    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
-    adjoint_noise = np.ones(len(phiArr_radm2))
-    adjoint_sens = np.ones(len(phiArr_radm2))
-
-    nPhi = len(phiArr_radm2)
-    if show_progress:
-        log("Calculating Theoretical Sensitivity & Noise")
-        progress(40, 0)
-    for i in range(nPhi):
-        if show_progress:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
-        adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
-            / np.sum(weightArr) ** 2
-        )  # equation 34
-        adjoint_noise[i] = np.sqrt(adjoint_noise2)
-
-        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
-
-    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
-    return adjoint_info
-
-
-def plot_adjoint_info(mylist, units="Jy/beam"):
-    """plots theoretical noise, sensitivity"""
-    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
-    fig.subplots_adjust(wspace=0.4, hspace=0.4)
-
-    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
-
-    ax[1].plot(
-        phiArr_radm2,
-        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
-    )
-    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[1].set_ylabel("S:N multiplier")
-    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
-    # plot 2
-    ax[0].plot(
-        phiArr_radm2,
-        adjoint_sens,
-    )
-    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[0].set_ylabel("Sensitivity")
-    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
-    return
-
-
-# -----------------------------------------------------------------------------#
-
-
-def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
-    """Calculates the average analytic solution to the channel polarization
-    integral per channel
-
-    Based on equation 13 of Schnitzeler & Lee (2015)
-
-    Parameters
-    ----------
-    f: float
-       channel center frequency in Hz
-
-    ban: float
-         channel bandwidth in Hz
-
-    phi: float
-         Faraday depth value in rad/m^2
-
-    xi_knot: float
-             inital polarization angle in radians
-
-    p: float
-       polarzied intensity
-
-    Returns
-    -------
-    avg_p_tilda: complex
-                 the average complex polarization, for the bandwidth,
-                 real is Q, imaginary is U
-
-    """
-    a = f - (ban / 2)
-    b = f + (ban / 2)  # integral start and stop values
-
-    ya = rotation_integral_limit(
-        a,
-        phi,
-    )
-    yb = rotation_integral_limit(
-        b,
-        phi,
-    )  # check orig for xi_knot
-
-    i = p * (yb - ya)
-    avg_p_tilda = i / ban
-
-    return avg_p_tilda
-
-
-def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
-    """Farday thin simulated source of the same RM as the measured source,
-    with unit intensity
-
-    Parameters
-    ----------
-    peak_rm: float
-             peak in Faraday depth value (in rad/m^2) for sim
-
-    freqArr_hz: array like
-                frequency array (in Hz)
-
-    width_Hz: float
-              channel width in Hz
-
-    Returns
-    -------
-    data:
-         Dirty FDF for the simulated data formated as a list of arrays
-         [freq_Hz, q, u,  dq, du]
-
-    """
-    if widths_Hz == None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-
-    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
-    size_f = len(freqArr_Hz)
-    dq = np.ones(size_f)
-    du = np.ones(size_f)
-
-    # format  = [freq_Hz, q, u,  dq, du]
-    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
-    return data
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_tweakAxFormat(
-    ax,
-    pad=10,
-    loc="upper right",
-    linewidth=1,
-    ncol=1,
-    bbox_to_anchor=(1.00, 1.00),
-    showLeg=True,
-):
-    """Tweaks some default plotting parameters for the RMSF, returns ax"""
-    # Axis/tic formatting
-    ax.tick_params(pad=pad)
-    for line in ax.get_xticklines() + ax.get_yticklines():
-        line.set_markeredgewidth(linewidth)
-
-    # Legend formatting
-    if showLeg:
-        leg = ax.legend(
-            numpoints=1,
-            loc=loc,
-            shadow=False,
-            borderaxespad=0.3,
-            ncol=ncol,
-            bbox_to_anchor=bbox_to_anchor,
-        )
-        for t in leg.get_texts():
-            t.set_fontsize("small")
-        leg.get_frame().set_linewidth(0.5)
-        leg.get_frame().set_alpha(0.5)
-
-    return ax
-
-
-def gauss(p, peak_rm):
-    """Return a fucntion to evaluate a Gaussian with parameters
-    off set by peak_rm
-
-    Parameters
-    ----------
-    p: list
-       parameters for Gaussian, p = [ampplitude, mean, FWHM]
-
-    peak_rm: float
-             peak in Faraday depth (in rad/m^2), used to center Gaussian
-
-    Returns
-    -------
-    rfun: fuction
-          Gaussian with specified parameters, off set my peak_rm
-
-    """
-
-    a, b, w = p
-    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
-    s = w / gfactor
-
-    def rfunc(x):
-        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
-        return y
-
-    return rfunc
-
-
-def bwdepol_plot_RMSF_ax(
-    ax,
-    phiArr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    axisYright=False,
-    axisXtop=False,
-    doTitle=False,
-):
-    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
-
-    # Set the axis positions
-    if axisYright:
-        ax.yaxis.tick_right()
-        ax.yaxis.set_label_position("right")
-    if axisXtop:
-        ax.xaxis.tick_top()
-        ax.xaxis.set_label_position("top")
-
-    # Plot the RMSF
-    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
-    ax.step(
-        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
-    )
-    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
-    ax.axhline(0, color="grey")
-    if doTitle:
-        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
-
-    # Plot the Gaussian fit
-    if fwhmRMSF is not None:
-        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
-        ax.plot(
-            phiArr,
-            yGauss,
-            color="g",
-            marker="None",
-            mfc="w",
-            mec="g",
-            ms=10,
-            label="Gaussian",
-            lw=2.0,
-            ls="--",
-        )
-
-    # Scaling
-    ax.yaxis.set_major_locator(MaxNLocator(4))
-    ax.xaxis.set_major_locator(MaxNLocator(4))
-    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
-    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
-    ax.set_ylabel("Normalised Units")
-    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
-    ax.axhline(0, color="grey")
-
-    # Format tweaks
-    ax = bwdepol_tweakAxFormat(ax)
-    ax.autoscale_view(True, True, True)
-
-
-def bwdepol_plot_rmsf_fdf_fig(
-    phiArr,
-    FDF,
-    phi2Arr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    gaussParm=[],
-    vLine=None,
-    fig=None,
-    units="flux units",
-):
-    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
-
-    # Default to a pyplot figure
-    if fig == None:
-        fig = plt.figure(figsize=(12.0, 8))
-    # Plot the RMSF
-    ax1 = fig.add_subplot(211)
-    bwdepol_plot_RMSF_ax(
-        ax=ax1,
-        phiArr=phi2Arr,
-        RMSFArr=RMSFArr,
-        peak_rm=peak_rm,
-        fwhmRMSF=fwhmRMSF,
-        doTitle=True,
-    )
-    [label.set_visible(False) for label in ax1.get_xticklabels()]
-    ax1.set_xlabel("")
-
-    ax2 = fig.add_subplot(212, sharex=ax1)
-    plot_dirtyFDF_ax(
-        ax=ax2,
-        phiArr=phiArr,
-        FDFArr=FDF,
-        gaussParm=gaussParm,
-        vLine=vLine,
-        doTitle=True,
-        units=units,
-    )
-    return fig
-
-
-# -----------------------------------------------------------------------------#
-# modified for adjoint
-def bwdepol_get_rmsf_planes(
-    freqArr_Hz,
-    widths_Hz,
-    phiArr_radm2,
-    peak_rm,
-    weightArr=None,
-    mskArr=None,
-    lam0Sq_m2=None,
-    double=True,
-    fitRMSF=True,
-    fitRMSFreal=False,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Calculate the Rotation Measure Spread Function from inputs. This version
-    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-    boolean mask array, where flagged data are True and unflagged data False.
-    If only whole planes (wavelength channels) are flagged then the RMSF is the
-    same for all pixels and the calculation is done once and replicated to the
-    dimensions of the mask. If some isolated voxels are flagged then the RMSF
-    is calculated by looping through each wavelength plane, which can take some
-    time. By default the routine returns the analytical width of the RMSF main
-    lobe but can also use MPFIT to fit a Gaussian.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-
-    Parameters
-    ----------
-    freqArr_Hz      ... vector of frequency values
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is no weighting
-    maskArr         ... cube of mask values used to shape return cube [None]
-    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
-    double          ... pad the Faraday depth to double-size [True]
-    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
-    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
-    nBits           ... precision of data arrays [64]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-
-    Returns
-    -------
-    RMSFcube: array
-              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-              boolean mask array
-
-    phi2Arr: array
-             array of the Faraday Depth (in rad/m^2)
-
-    fwhmRMSFArr: array
-                 fwhm of the RMSF
-
-    statArr: array
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
-    if double:
-        nPhi = phiArr_radm2.shape[0]
-        nExt = np.ceil(nPhi / 2.0)
-        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
-        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
-    else:
-        phi2Arr = phiArr_radm2
-
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Set the mask array (default to 1D, no masked channels)
-    if mskArr is None:
-        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
-        nDims = 1
-    else:
-        mskArr = mskArr.astype("bool")
-        nDims = len(mskArr.shape)
-
-    # Sanity checks on array sizes
-    if not weightArr.shape == freqArr_Hz.shape:
-        log("Err: wavelength^2 and weight arrays must be the same shape.")
-        return None, None, None, None
-    if not nDims <= 3:
-        log("Err: mask dimensions must be <= 3.")
-        return None, None, None, None
-    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
-        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
-        (mskArr.shape[0], freqArr_Hz.shape[-1])
-        log("     Check that the mask is in [z, y, x] order.")
-        return None, None, None, None
-
-    # Reshape the mask array to 3 dimensions
-    if nDims == 1:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
-    elif nDims == 2:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
-
-    # Initialise the complex RM Spread Function cube
-    nX = mskArr.shape[-1]
-    nY = mskArr.shape[-2]
-    nPix = nX * nY
-    nPhi = phi2Arr.shape[0]
-    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
-
-    # If full planes are flagged then set corresponding weights to zero
-    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
-    mskPlanes = np.where(xySum == nPix, 0, 1)
-    weightArr *= mskPlanes
-
-    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
-    flagTotals = np.unique(xySum).tolist()
-    try:
-        flagTotals.remove(0)
-    except Exception:
-        pass
-    try:
-        flagTotals.remove(nPix)
-    except Exception:
-        pass
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Calculate the analytical FWHM width of the main lobe
-    fwhmRMSF = (
-        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
-    )
-
-    # Create simulated data set with simRM = peakRM
-    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
-    # RMSFArr = fdf from bwdepol_simulation
-    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
-        freqArr_Hz,
-        RMSF_data[1],
-        RMSF_data[2],
-        phiArr_radm2,
-        widths_Hz=widths_Hz,
-        weightArr=weightArr,
-        lam0Sq_m2=lam0Sq_m2,
-        verbose=verbose,
-        log=print,
-    )
-
-    # Fit the RMSF main lobe
-    fitStatus = -1
-    if fitRMSF:
-        if verbose:
-            log("Fitting Gaussian to the main lobe.")
-        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
-        if mp is None or mp.status < 1:
-            pass
-            log("Err: failed to fit the RMSF.")
-            log("     Defaulting to analytical value.")
-        else:
-            fwhmRMSF = mp.params[2]
-            fitStatus = mp.status
-
-    # Replicate along X and Y axes
-    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
-    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
-    statArr = np.ones((nY, nX), dtype="int") * fitStatus
-
-    # Remove redundant dimensions
-    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
-    statArr = np.squeeze(statArr)
-    RMSFcube = RMSFcube.reshape(-1)
-
-    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_measure_FDF_parms(
-    FDF,
-    phiArr,
-    fwhmRMSF,
-    adjoint_sens,
-    adjoint_noise,
-    dFDF=None,
-    lamSqArr_m2=None,
-    lam0Sq=None,
-    snrDoBiasCorrect=5.0,
-):
-    """
-    Measure standard parameters from a complex Faraday Dispersion Function.
-    Currently this function assumes that the noise levels in the Stokes Q
-    and U spectra are the same.
-    Returns a dictionary containing measured parameters.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-    """
-
-    # Determine the peak channel in the FDF, its amplitude and index
-    absFDF = np.abs(FDF)
-    rm_fdf = (
-        absFDF / adjoint_noise
-    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
-    amp_fdf = (
-        absFDF / adjoint_sens
-    )  # RM spectrum normalized by (RM-dependent) sensitivity
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
-
-    # new theoretical dFDF correction for adjoint method
-    # This is noise in the adjoint-spectrum.
-    dFDF = adjoint_noise[indxPeakPIchan]
-
-    # This is the error in the amplitude (accounting for re-normalization)
-    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
-
-    # Measure the RMS noise in the spectrum after masking the peak
-    # changed all absFDF to rm_fdf
-    # Since this is normalized by theoretical noise, it's effectively testing
-    # the noise relative to the theoretical noise.
-    dPhi = np.nanmin(np.diff(phiArr))
-    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
-    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
-    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
-    absFDFmsked = rm_fdf.copy()
-    absFDFmsked[iL:iR] = np.nan
-    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
-    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
-        dFDFcorMAD = MAD(rm_fdf)
-    else:
-        dFDFcorMAD = MAD(absFDFmsked)
-
-    # The noise is re-normalized by the predicted noise at the peak RM.
-    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
-
-    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
-    varLamSqArr_m2 = (
-        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
-    ) / (nChansGood - 1)
-
-    # Determine the peak in the FDF, its amplitude and Phi using a
-    # 3-point parabolic interpolation
-    phiPeakPIfit = None
-    dPhiPeakPIfit = None
-    ampPeakPIfit = None
-    snrPIfit = None
-    ampPeakPIfitEff = None
-    indxPeakPIfit = None
-    peakFDFimagFit = None
-    peakFDFrealFit = None
-    polAngleFit_deg = None
-    dPolAngleFit_deg = None
-    polAngle0Fit_deg = None
-    dPolAngle0Fit_deg = None
-
-    # Only do the 3-point fit if peak is 1-channel from either edge
-    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
-        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
-            phiArr[indxPeakPIchan - 1],
-            amp_fdf[indxPeakPIchan - 1],
-            phiArr[indxPeakPIchan],
-            amp_fdf[indxPeakPIchan],
-            phiArr[indxPeakPIchan + 1],
-            amp_fdf[indxPeakPIchan + 1],
-        )
-
-        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
-
-        # Error on fitted Faraday depth (RM) is same as channel
-        # but using fitted PI
-        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
-
-        # Correct the peak for polarisation bias (POSSUM report 11)
-        ampPeakPIfitEff = ampPeakPIfit
-        if snrPIfit >= snrDoBiasCorrect:
-            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
-
-        # Calculate the polarisation angle from the fitted peak
-        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
-        indxPeakPIfit = np.interp(
-            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
-        )
-        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
-        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
-        polAngleFit_deg = (
-            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
-        )
-        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
-
-        # Calculate the derotated polarisation angle and uncertainty
-        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
-        polAngle0Fit_deg = (
-            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
-        ) % 180
-        dPolAngle0Fit_rad = np.sqrt(
-            nChansGood
-            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
-            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
-        )
-        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
-
-    # Store the measurements in a dictionary and return
-    mDict = {
-        "dFDFcorMAD": toscalar(dFDFcorMAD),
-        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
-        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
-        "ampPeakPIfit": toscalar(ampPeakPIfit),
-        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
-        "dAmpPeakPIfit": toscalar(dampPeakPI),
-        "snrPIfit": toscalar(snrPIfit),
-        "indxPeakPIfit": toscalar(indxPeakPIfit),
-        "peakFDFimagFit": toscalar(peakFDFimagFit),
-        "peakFDFrealFit": toscalar(peakFDFrealFit),
-        "polAngleFit_deg": toscalar(polAngleFit_deg),
-        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
-        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
-        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
-    }
-
-    return mDict
-
-
-# -----------------------------------------------------------------------------#
-def do_adjoint_rmsynth_planes(
-    freqArr_Hz,
-    dataQ,
-    dataU,
-    phiArr_radm2,
-    widths_Hz=None,
-    weightArr=None,
-    lam0Sq_m2=None,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
-    of the routine loops through spectral planes and is faster than the pixel-
-    by-pixel code. This version also correctly deals with isolated clumps of
-    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
-    but possible in single-dish cubes). Input data must be in standard python
-    [z,y,x] order, where z is the frequency axis in ascending order.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-    Parameters
-    ----------
-    dataQ           ... 1, 2 or 3D Stokes Q data array
-    dataU           ... 1, 2 or 3D Stokes U data array
-    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
-    nBits           ... precision of data arrays [32]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-    Returns
-    -------
-    FDFcube: array
-             Faraday Dispersion Function (FDF)
-
-    lam0Sq_m2: array
-               lam0Sq_m2 is the weighted mean of lambda^2 distribution
-               (B&dB Eqn. 32)
-
-    adjoint_vars: list
-                  information to generate theoretical noise, sensitivity
-                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
-                                  weightArr]
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Sanity check on array sizes
-    if not weightArr.shape == lambdaSqArr_m2.shape:
-        log("Err: Lambda^2 and weight arrays must be the same shape.")
-        return None, None
-    if not dataQ.shape == dataU.shape:
-        log("Err: Stokes Q and U data arrays must be the same shape.")
-        return None, None
-    nDims = len(dataQ.shape)
-    if not nDims <= 3:
-        log("Err: data dimensions must be <= 3.")
-        return None, None
-    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
-        log(
-            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
-                dataQ.shape[0], lambdaSqArr_m2.shape[0]
-            ),
-            end=" ",
-        )
-        log("     Check that data is in [z, y, x] order.")
-        return None, None
-
-    # Reshape the data arrays to 3 dimensions
-    if nDims == 1:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
-    elif nDims == 2:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
-
-    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
-    # Array has dimensions [nFreq, nY, nX]
-    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
-
-    # Check for NaNs (flagged data) in the cube & set to zero
-    mskCube = np.isnan(pCube)
-    pCube = np.nan_to_num(pCube)
-
-    # If full planes are flagged then set corresponding weights to zero
-    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
-    mskPlanes = np.where(mskPlanes == 0, 0, 1)
-    weightArr *= mskPlanes
-
-    # Initialise the complex Faraday Dispersion Function cube
-    nX = dataQ.shape[-1]
-    nY = dataQ.shape[-2]
-    nPhi = phiArr_radm2.shape[0]
-    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
-
-    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
-    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
-    K = 1.0 / np.sum(weightArr)
-    if lam0Sq_m2 is None:
-        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
-
-    # The K value used to scale each FDF spectrum must take into account
-    # flagged voxels data in the datacube and can be position dependent
-    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
-    with np.errstate(divide="ignore", invalid="ignore"):
-        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
-        KArr[KArr == np.inf] = 0
-        KArr = np.nan_to_num(KArr)
-
-    # Do the RM-synthesis on each plane
-    if verbose:
-        log("Running RM-synthesis by channel.")
-        progress(40, 0)
-
-    # calculate channel widths if necessary
-    if widths_Hz == None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-    for i in range(nPhi):
-        if verbose:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
-            :, np.newaxis, np.newaxis
-        ]
-        arg0 = pCube * cor * np.conj(r_i)
-        arg = arg0
-        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
-
-    # information to generate theoretical noise, sensitivity
-    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    # Remove redundant dimensions in the FDF array
-    FDFcube = np.squeeze(FDFcube)
-    return FDFcube, lam0Sq_m2, adjoint_vars
-
-
-# -----------------------------------------------------------------------------#
-def run_adjoint_rmsynth(
-    data,
-    polyOrd=3,
-    phiMax_radm2=None,
-    dPhi_radm2=None,
-    nSamples=10.0,
-    weightType="variance",
-    fitRMSF=True,
-    noStokesI=False,
-    phiNoise_radm2=1e6,
-    nBits=64,
-    showPlots=False,
-    debug=False,
-    verbose=False,
-    log=print,
-    units="Jy/beam",
-):
-    """Run bwdepol RM synthesis on 1D data.
-
-    Args:
-        data (list): Contains frequency and polarization data as either:
-            [freq_Hz, I, Q, U, dI, dQ, dU]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                I (array_like): Stokes I intensity in each channel.
-                Q (array_like): Stokes Q intensity in each channel.
-                U (array_like): Stokes U intensity in each channel.
-                dI (array_like): Error in Stokes I intensity in each channel.
-                dQ (array_like): Error in Stokes Q intensity in each channel.
-                dU (array_like): Error in Stokes U intensity in each channel.
-            or
-            [freq_Hz, q, u,  dq, du]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
-                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
-                dq (array_like): Error in fractional Stokes Q intensity in each channel.
-                du (array_like): Error in fractional Stokes U intensity in each channel.
-
-    Kwargs:
-        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
-        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
-        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
-        nSamples (float): Number of samples across the RMSF.
-        weightType (str): Can be "variance" or "uniform"
-            "variance" -- Weight by uncertainty in Q and U.
-            "uniform" -- Weight uniformly (i.e. with 1s)
-        fitRMSF (bool): Fit a Gaussian to the RMSF?
-        noStokesI (bool: Is Stokes I data provided?
-        phiNoise_radm2 (float): ????
-        nBits (int): Precision of floating point numbers.
-        showPlots (bool): Show plots?
-        debug (bool): Turn on debugging messages & plots?
-        verbose (bool): Verbosity.
-        log (function): Which logging function to use.
-        units (str): Units of data.
-
-    Returns:
-        mDict (dict): Summary of RM synthesis results.
-        aDict (dict): Data output by RM synthesis.
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    #    dtComplex = "complex" + str(2*nBits)
-
-    # freq_Hz, I, Q, U, dI, dQ, dU
-    if data.shape[0] == 7:
-        if verbose:
-            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
-        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-        widths_Hz = None
-    elif data.shape[0] == 8:
-        if verbose:
-            log(
-                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-    elif data.shape[0] == 6:
-        if verbose:
-            log(
-                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, width_Hz, QArr, UArr, dQArr, dUArr = data
-    elif data.shape[0] == 5:
-        if verbose:
-            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
-        widths_Hz = None
-        noStokesI = True
-    else:
-        log("Failed to read in data, aborting.")
-        if debug:
-            log(traceback.format_exc())
-        sys.exit()
-    if verbose:
-        log("Successfully read in the Stokes spectra.")
-
-    # If no Stokes I present, create a dummy spectrum = unity
-    if noStokesI:
-        if verbose:
-            log("Warn: no Stokes I data in use.")
-        IArr = np.ones_like(QArr)
-        dIArr = np.zeros_like(QArr)
-
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
-    dQUArr = (dQArr + dUArr) / 2.0
-
-    # Fit the Stokes I spectrum and create the fractional spectra
-    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
-        IArr=IArr,
-        QArr=QArr,
-        UArr=UArr,
-        dIArr=dIArr,
-        dQArr=dQArr,
-        dUArr=dUArr,
-        polyOrd=polyOrd,
-        verbose=True,
-        debug=debug,
-    )
-
-    # Plot the data and the Stokes I model fit
-    if showPlots:
-        if verbose:
-            log("Plotting the input data and spectral index fit.")
-        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
-        specFig = plt.figure(figsize=(12.0, 8))
-        plot_Ipqu_spectra_fig(
-            freqArr_Hz=freqArr_Hz,
-            IArr=IArr,
-            qArr=qArr,
-            uArr=uArr,
-            dIArr=dIArr,
-            dqArr=dqArr,
-            duArr=duArr,
-            freqHirArr_Hz=freqHirArr_Hz,
-            IModArr=IModHirArr,
-            fig=specFig,
-            units=units,
-        )
-
-        # DEBUG (plot the Q, U and average RMS spectrum)
-        if debug:
-            rmsFig = plt.figure(figsize=(12.0, 8))
-            ax = rmsFig.add_subplot(111)
-            ax.plot(
-                freqArr_Hz / 1e9,
-                dQUArr,
-                marker="o",
-                color="k",
-                lw=0.5,
-                label="rms <QU>",
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
-            )
-            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
-            ax.set_xlim(
-                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
-                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
-            )
-            ax.set_xlabel(r"$\nu$ (GHz)")
-            ax.set_ylabel("RMS " + units)
-            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
-
-    # Calculate some wavelength parameters
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
-    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
-    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
-
-    # Set the Faraday depth range
-    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
-    if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
-    if phiMax_radm2 is None:
-        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
-        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
-
-    # Faraday depth sampling. Zero always centred on middle channel
-    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
-    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
-    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
-    if verbose:
-        log(
-            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
-            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
-        )
-
-    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
-    if weightType == "variance":
-        weightArr = 1.0 / np.power(dQUArr, 2.0)
-    else:
-        weightType = "uniform"
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    if verbose:
-        log("Weight type is '%s'." % weightType)
-
-    startTime = time.time()
-
-    # Perform adjoint RM-synthesis on the spectrum
-    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        dataQ=qArr,
-        dataU=uArr,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-    )
-
-    # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
-    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
-
-    # calculate peak RM
-    absFDF = np.abs(dirtyFDF)
-    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
-    peak_rm = phiArr_radm2[indxPeakPIchan]
-
-    # Calculate the Rotation Measure Spread Function
-    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
-        lam0Sq_m2=lam0Sq_m2,
-        double=True,
-        fitRMSF=fitRMSF,
-        fitRMSFreal=False,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-        peak_rm=peak_rm,
-    )
-    fwhmRMSF = float(fwhmRMSFArr)
-    endTime = time.time()
-    cputime = endTime - startTime
-    if verbose:
-        log("> RM-synthesis completed in %.2f seconds." % cputime)
-
-    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
-    # Multiply the dirty FDF by Ifreq0 to recover the PI
-    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
-    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
-
-    # Calculate the theoretical noise in the FDF !!
-    # Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-    dFDFth = np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
-    )
-
-    # Measure the parameters of the dirty FDF
-    # Use the theoretical noise to calculate uncertainties
-
-    mDict = bwdepol_measure_FDF_parms(
-        FDF=dirtyFDF,
-        phiArr=phiArr_radm2,
-        fwhmRMSF=fwhmRMSF,
-        adjoint_sens=adjoint_sens,
-        adjoint_noise=adjoint_noise,
-        dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
-        lam0Sq=lam0Sq_m2,
-    )
-
-    mDict["Ifreq0"] = toscalar(Ifreq0)
-    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
-    mDict["IfitStat"] = fit_result.fitStatus
-    mDict["IfitChiSqRed"] = fit_result.chiSqRed
-    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
-    mDict["freq0_Hz"] = toscalar(freq0_Hz)
-    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
-    mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
-    mDict["units"] = units
-
-    if fit_result.fitStatus >= 128:
-        log("WARNING: Stokes I model contains negative values!")
-    elif fit_result.fitStatus >= 64:
-        log("Caution: Stokes I model has low signal-to-noise.")
-
-    # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
-    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
-    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
-    mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
-        mDict["median_channel_width"] = float(np.median(widths_Hz))
-    else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-
-    # Measure the complexity of the q and u spectra
-    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
-    mD, pD = measure_qu_complexity(
-        freqArr_Hz=freqArr_Hz,
-        qArr=qArr,
-        uArr=uArr,
-        dqArr=dqArr,
-        duArr=duArr,
-        fracPol=mDict["fracPol"],
-        psi0_deg=mDict["polAngle0Fit_deg"],
-        RM_radm2=mDict["phiPeakPIfit_rm2"],
-    )
-    mDict.update(mD)
-
-    # Debugging plots for spectral complexity measure
-    if debug:
-        tmpFig = plot_complexity_fig(
-            xArr=pD["xArrQ"],
-            qArr=pD["yArrQ"],
-            dqArr=pD["dyArrQ"],
-            sigmaAddqArr=pD["sigmaAddArrQ"],
-            chiSqRedqArr=pD["chiSqRedArrQ"],
-            probqArr=pD["probArrQ"],
-            uArr=pD["yArrU"],
-            duArr=pD["dyArrU"],
-            sigmaAdduArr=pD["sigmaAddArrU"],
-            chiSqReduArr=pD["chiSqRedArrU"],
-            probuArr=pD["probArrU"],
-            mDict=mDict,
-        )
-        tmpFig.show()
-
-    # add array dictionary
-    aDict = dict()
-    aDict["phiArr_radm2"] = phiArr_radm2
-    aDict["phi2Arr_radm2"] = phi2Arr_radm2
-    aDict["RMSFArr"] = RMSFArr
-    aDict["freqArr_Hz"] = freqArr_Hz
-    aDict["weightArr"] = weightArr
-    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
-
-    if verbose:
-        # Print the results to the screen
-        log()
-        log("-" * 80)
-        log("RESULTS:\n")
-        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
-
-        log(
-            "Pol Angle = %.4g (+/-%.4g) deg"
-            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
-        )
-        log(
-            "Pol Angle 0 = %.4g (+/-%.4g) deg"
-            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
-        )
-        log(
-            "Peak FD = %.4g (+/-%.4g) rad/m^2"
-            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
-        )
-        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
-        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
-        log(
-            "Peak PI = %.4g (+/-%.4g) %s"
-            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
-        )
-        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
-        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
-        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
-        log(
-            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
-            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
-        )
-        log()
-        log("-" * 80)
-
-    # Plot the RM Spread Function and dirty FDF
-    if showPlots:
-        plot_adjoint_info(adjoint_info, units=units)
-        fdfFig = plt.figure(figsize=(12.0, 8))
-        bwdepol_plot_rmsf_fdf_fig(
-            phiArr=phiArr_radm2,
-            FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
-            RMSFArr=RMSFArr,
-            peak_rm=peak_rm,
-            fwhmRMSF=fwhmRMSF,
-            vLine=mDict["phiPeakPIfit_rm2"],
-            fig=fdfFig,
-            units=units,
-        )
-
-    if showPlots or debug:
-        plt.show()
-
-    return mDict, aDict
-
-
-# -----------------------------------------------------------------------------#
-def main():
-    """
-    Start the function to perform bwdepol RM-synthesis if called from the command line.
-    """
-
-    # Help string to be shown using the -h option
-    descStr = """
-    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
-    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
-
-    Behaves similarly to rmsynth1d except that the input file can optionally
-    contain a column with the channel widths in Hz. If this column is not
-    given, the channel widths will be assumed to be uniform and calculated
-    based on the difference between the frequencies of the first two channels.
-
-    The ASCII file requires one of the following column configurations,
-    depending on whether Stokes I and channel width information are available,
-    in a space separated format:
-    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, Q, U, Q_err, U_err]
-    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
-
-
-    To get outputs, one or more of the following flags must be set: -S, -p, -v.
-    """
-
-    epilog_text = """
-    Outputs with -S flag:
-    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
-    _RMSF.dat: Computed RMSF [Phi, Q, U]
-    _RMsynth.dat: list of derived parameters for RM spectrum
-                (approximately equivalent to -v flag output)
-    _RMsynth.json: dictionary of derived parameters for RM spectrum
-    _weight.dat: Calculated channel weights [freq_Hz, weight]
-    """
-
-    # Parse the command line options
-    parser = argparse.ArgumentParser(
-        description=descStr,
-        epilog=epilog_text,
-        formatter_class=argparse.RawTextHelpFormatter,
-    )
-    parser.add_argument(
-        "dataFile",
-        metavar="dataFile.dat",
-        nargs=1,
-        help="ASCII file containing Stokes spectra & errors.",
-    )
-    parser.add_argument(
-        "-t",
-        dest="fitRMSF",
-        action="store_false",
-        help="fit a Gaussian to the RMSF [True; set flag to disable]",
-    )
-    parser.add_argument(
-        "-l",
-        dest="phiMax_radm2",
-        type=float,
-        default=None,
-        help="absolute max Faraday depth sampled [Auto].",
-    )
-    parser.add_argument(
-        "-d",
-        dest="dPhi_radm2",
-        type=float,
-        default=None,
-        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
-    )
-    parser.add_argument(
-        "-s",
-        dest="nSamples",
-        type=float,
-        default=10,
-        help="number of samples across the RMSF lobe [10].",
-    )
-    parser.add_argument(
-        "-w",
-        dest="weightType",
-        default="variance",
-        help="weighting [inverse variance] or 'uniform' (all 1s).",
-    )
-    parser.add_argument(
-        "-o",
-        dest="polyOrd",
-        type=int,
-        default=2,
-        help="polynomial order to fit to I spectrum [2].",
-    )
-    parser.add_argument(
-        "-i",
-        dest="noStokesI",
-        action="store_true",
-        help="ignore the Stokes I spectrum [False].",
-    )
-    parser.add_argument(
-        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
-    )
-    parser.add_argument(
-        "-v", dest="verbose", action="store_true", help="verbose output [False]."
-    )
-    parser.add_argument(
-        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
-    )
-    parser.add_argument(
-        "-D",
-        dest="debug",
-        action="store_true",
-        help="turn on debugging messages & plots [False].",
-    )
-    parser.add_argument(
-        "-U",
-        dest="units",
-        type=str,
-        default="Jy/beam",
-        help="Intensity units of the data. [Jy/beam]",
-    )
-    args = parser.parse_args()
-
-    # Sanity checks
-    if not os.path.exists(args.dataFile[0]):
-        print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
-    prefixOut, ext = os.path.splitext(args.dataFile[0])
-    dataDir, dummy = os.path.split(args.dataFile[0])
-    # Set the floating point precision
-    nBits = 64
-
-    # Read in the data. Don't parse until inside the first function.
-    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
-
-    # Run (modified) RM-synthesis on the spectra
-    mDict, aDict = run_adjoint_rmsynth(
-        data=data,
-        polyOrd=args.polyOrd,
-        phiMax_radm2=args.phiMax_radm2,
-        dPhi_radm2=args.dPhi_radm2,
-        nSamples=args.nSamples,
-        weightType=args.weightType,
-        fitRMSF=args.fitRMSF,
-        noStokesI=args.noStokesI,
-        nBits=nBits,
-        showPlots=args.showPlots,
-        debug=args.debug,
-        verbose=args.verbose,
-        units=args.units,
-    )
-
-    if args.saveOutput:
-        saveOutput(mDict, aDict, prefixOut, args.verbose)
-
-
-# -----------------------------------------------------------------------------#
-if __name__ == "__main__":
-    main()
+#!/usr/bin/env python
+# =============================================================================#
+#                                                                             #
+# NAME:     rmtools_bwdepol.py                                                #
+#                                                                             #
+# PURPOSE: Algorithm for finding polarized sources while accounting for       #
+#          bandwidth depolarization.                                          #
+#                                                                             #
+# =============================================================================#
+#                                                                             #
+# The MIT License (MIT)                                                       #
+#                                                                             #
+# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
+# Permission is hereby granted, free of charge, to any person obtaining a     #
+# copy of this software and associated documentation files (the "Software"),  #
+# to deal in the Software without restriction, including without limitation   #
+# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
+# and/or sell copies of the Software, and to permit persons to whom the       #
+# Software is furnished to do so, subject to the following conditions:        #
+#                                                                             #
+# The above copyright notice and this permission notice shall be included in  #
+# all copies or substantial portions of the Software.                         #
+#                                                                             #
+# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
+# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
+# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
+# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
+# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
+# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
+# DEALINGS IN THE SOFTWARE.                                                   #
+#                                                                             #
+# =============================================================================#
+
+import argparse
+import math as m
+import os
+import sys
+import time
+import traceback
+
+import matplotlib.pyplot as plt
+import numpy as np
+import scipy as sp
+from astropy.constants import c as speed_of_light
+from matplotlib.ticker import MaxNLocator
+
+from RMtools_1D.do_RMsynth_1D import saveOutput
+from RMutils.util_misc import (
+    MAD,
+    create_frac_spectra,
+    nanmedian,
+    poly5,
+    progress,
+    toscalar,
+)
+from RMutils.util_plotTk import (
+    plot_complexity_fig,
+    plot_dirtyFDF_ax,
+    plot_Ipqu_spectra_fig,
+)
+from RMutils.util_RM import (
+    calc_parabola_vertex,
+    extrap,
+    fit_rmsf,
+    measure_qu_complexity,
+)
+
+if sys.version_info.major == 2:
+    print("RM-tools will no longer run with Python 2! Please use Python 3.")
+    exit()
+
+
+# -----------------------------------------------------------------------------#
+def rotation_integral_limit(freq, phi):
+    """Calculates the analytic solution to the channel polarization integral
+    at one limit frequency.
+
+    Parameters
+    ----------
+    freq: float
+          frequency in Hz
+
+    phi: float
+          Faraday depth (rad/m^2)
+
+    Returns
+    -------
+    intergral_lim: complex
+                   intergral limit
+
+    """
+    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
+    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
+    funct3 = -1.0j + np.sign(phi)
+    funct4 = sp.special.erf(
+        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
+    )
+
+    intergral_lim = funct1 + (funct2 * funct3 * funct4)
+
+    return intergral_lim
+
+
+def rotation_operator(channel_width, channel_center, phi):
+    """Rotation operator for channel with top-hat-in-frequency sensitivity.
+    Computes the net effect on a polarization vector for a channel of given
+    center frequnecy and bandwidth, for a given RM.
+
+    Parameters
+    ----------
+    channel_width: float
+                   channel bandwidth in Hz
+
+    channel_center: float
+                    channel frequency in Hz
+
+    phi: float
+         channel frequency in hz
+
+    Returns
+    -------
+    (complex) rotation operator for that channel
+
+    """
+    b = channel_center + 0.5 * channel_width
+    a = channel_center - 0.5 * channel_width
+
+    int_a = rotation_integral_limit(a, phi)
+    int_b = rotation_integral_limit(b, phi)
+
+    return (1 / channel_width) * (int_b - int_a)
+
+
+def estimate_channel_bandwidth(freq_array):
+    """Estimates the bandwidth per channel given the spacing between channel
+    centers. Only looks at the first 2 channels.
+
+    Parameters
+    ----------
+    freq_array: array-like
+                array of channel centers
+
+    Returns
+    -------
+    ban: float
+         seperation between first two channel centers
+
+    """
+    ban = freq_array[1] - freq_array[0]
+    return ban
+
+
+def l2_to_freq_array(lambda_square_array):
+    """returns the freqency array, corresponding to a lambda square array"""
+
+    f = speed_of_light.value**2 / lambda_square_array
+    return np.sqrt(f)
+
+
+def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
+    """Calculates the theoretical sensitivity and noise for the adjoint method
+
+    Parameters
+    ----------
+    adjoint_vars: list
+                  list like object containing organized as
+                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    dQUArr: array like
+            array containing the error in Stokes Q, and U
+
+    show_progress: Boolean
+                   If set to True, shows progress, Default is False
+
+    log: function
+         logging function, default is print
+
+    Returns
+    -------
+    adjoint_info: list
+                  list containing phiArr, and the theoretical noise and
+                  sensitivity organized as
+                  [phiArr_radm2, adjoint_sens, adjoint_noise]
+
+    """
+
+    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
+    adjoint_noise = np.ones(len(phiArr_radm2))
+    adjoint_sens = np.ones(len(phiArr_radm2))
+
+    nPhi = len(phiArr_radm2)
+    if show_progress:
+        log("Calculating Theoretical Sensitivity & Noise")
+        progress(40, 0)
+    for i in range(nPhi):
+        if show_progress:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
+        adjoint_noise2 = (
+            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            / np.sum(weightArr) ** 2
+        )  # equation 34
+        adjoint_noise[i] = np.sqrt(adjoint_noise2)
+
+        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
+
+    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
+    return adjoint_info
+
+
+def plot_adjoint_info(mylist, units="Jy/beam"):
+    """plots theoretical noise, sensitivity"""
+    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
+    fig.subplots_adjust(wspace=0.4, hspace=0.4)
+
+    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
+
+    ax[1].plot(
+        phiArr_radm2,
+        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
+    )
+    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[1].set_ylabel("S:N multiplier")
+    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
+    # plot 2
+    ax[0].plot(
+        phiArr_radm2,
+        adjoint_sens,
+    )
+    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[0].set_ylabel("Sensitivity")
+    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
+    return
+
+
+# -----------------------------------------------------------------------------#
+
+
+def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
+    """Calculates the average analytic solution to the channel polarization
+    integral per channel
+
+    Based on equation 13 of Schnitzeler & Lee (2015)
+
+    Parameters
+    ----------
+    f: float
+       channel center frequency in Hz
+
+    ban: float
+         channel bandwidth in Hz
+
+    phi: float
+         Faraday depth value in rad/m^2
+
+    xi_knot: float
+             inital polarization angle in radians
+
+    p: float
+       polarzied intensity
+
+    Returns
+    -------
+    avg_p_tilda: complex
+                 the average complex polarization, for the bandwidth,
+                 real is Q, imaginary is U
+
+    """
+    a = f - (ban / 2)
+    b = f + (ban / 2)  # integral start and stop values
+
+    ya = rotation_integral_limit(
+        a,
+        phi,
+    )
+    yb = rotation_integral_limit(
+        b,
+        phi,
+    )  # check orig for xi_knot
+
+    i = p * (yb - ya)
+    avg_p_tilda = i / ban
+
+    return avg_p_tilda
+
+
+def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
+    """Farday thin simulated source of the same RM as the measured source,
+    with unit intensity
+
+    Parameters
+    ----------
+    peak_rm: float
+             peak in Faraday depth value (in rad/m^2) for sim
+
+    freqArr_hz: array like
+                frequency array (in Hz)
+
+    width_Hz: float
+              channel width in Hz
+
+    Returns
+    -------
+    data:
+         Dirty FDF for the simulated data formated as a list of arrays
+         [freq_Hz, q, u,  dq, du]
+
+    """
+    if widths_Hz == None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+
+    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
+    size_f = len(freqArr_Hz)
+    dq = np.ones(size_f)
+    du = np.ones(size_f)
+
+    # format  = [freq_Hz, q, u,  dq, du]
+    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
+    return data
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_tweakAxFormat(
+    ax,
+    pad=10,
+    loc="upper right",
+    linewidth=1,
+    ncol=1,
+    bbox_to_anchor=(1.00, 1.00),
+    showLeg=True,
+):
+    """Tweaks some default plotting parameters for the RMSF, returns ax"""
+    # Axis/tic formatting
+    ax.tick_params(pad=pad)
+    for line in ax.get_xticklines() + ax.get_yticklines():
+        line.set_markeredgewidth(linewidth)
+
+    # Legend formatting
+    if showLeg:
+        leg = ax.legend(
+            numpoints=1,
+            loc=loc,
+            shadow=False,
+            borderaxespad=0.3,
+            ncol=ncol,
+            bbox_to_anchor=bbox_to_anchor,
+        )
+        for t in leg.get_texts():
+            t.set_fontsize("small")
+        leg.get_frame().set_linewidth(0.5)
+        leg.get_frame().set_alpha(0.5)
+
+    return ax
+
+
+def gauss(p, peak_rm):
+    """Return a fucntion to evaluate a Gaussian with parameters
+    off set by peak_rm
+
+    Parameters
+    ----------
+    p: list
+       parameters for Gaussian, p = [ampplitude, mean, FWHM]
+
+    peak_rm: float
+             peak in Faraday depth (in rad/m^2), used to center Gaussian
+
+    Returns
+    -------
+    rfun: fuction
+          Gaussian with specified parameters, off set my peak_rm
+
+    """
+
+    a, b, w = p
+    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
+    s = w / gfactor
+
+    def rfunc(x):
+        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
+        return y
+
+    return rfunc
+
+
+def bwdepol_plot_RMSF_ax(
+    ax,
+    phiArr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    axisYright=False,
+    axisXtop=False,
+    doTitle=False,
+):
+    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
+
+    # Set the axis positions
+    if axisYright:
+        ax.yaxis.tick_right()
+        ax.yaxis.set_label_position("right")
+    if axisXtop:
+        ax.xaxis.tick_top()
+        ax.xaxis.set_label_position("top")
+
+    # Plot the RMSF
+    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
+    ax.step(
+        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
+    )
+    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
+    ax.axhline(0, color="grey")
+    if doTitle:
+        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
+
+    # Plot the Gaussian fit
+    if fwhmRMSF is not None:
+        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
+        ax.plot(
+            phiArr,
+            yGauss,
+            color="g",
+            marker="None",
+            mfc="w",
+            mec="g",
+            ms=10,
+            label="Gaussian",
+            lw=2.0,
+            ls="--",
+        )
+
+    # Scaling
+    ax.yaxis.set_major_locator(MaxNLocator(4))
+    ax.xaxis.set_major_locator(MaxNLocator(4))
+    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
+    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
+    ax.set_ylabel("Normalised Units")
+    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
+    ax.axhline(0, color="grey")
+
+    # Format tweaks
+    ax = bwdepol_tweakAxFormat(ax)
+    ax.autoscale_view(True, True, True)
+
+
+def bwdepol_plot_rmsf_fdf_fig(
+    phiArr,
+    FDF,
+    phi2Arr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    gaussParm=[],
+    vLine=None,
+    fig=None,
+    units="flux units",
+):
+    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
+
+    # Default to a pyplot figure
+    if fig == None:
+        fig = plt.figure(figsize=(12.0, 8))
+    # Plot the RMSF
+    ax1 = fig.add_subplot(211)
+    bwdepol_plot_RMSF_ax(
+        ax=ax1,
+        phiArr=phi2Arr,
+        RMSFArr=RMSFArr,
+        peak_rm=peak_rm,
+        fwhmRMSF=fwhmRMSF,
+        doTitle=True,
+    )
+    [label.set_visible(False) for label in ax1.get_xticklabels()]
+    ax1.set_xlabel("")
+
+    ax2 = fig.add_subplot(212, sharex=ax1)
+    plot_dirtyFDF_ax(
+        ax=ax2,
+        phiArr=phiArr,
+        FDFArr=FDF,
+        gaussParm=gaussParm,
+        vLine=vLine,
+        doTitle=True,
+        units=units,
+    )
+    return fig
+
+
+# -----------------------------------------------------------------------------#
+# modified for adjoint
+def bwdepol_get_rmsf_planes(
+    freqArr_Hz,
+    widths_Hz,
+    phiArr_radm2,
+    peak_rm,
+    weightArr=None,
+    mskArr=None,
+    lam0Sq_m2=None,
+    double=True,
+    fitRMSF=True,
+    fitRMSFreal=False,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Calculate the Rotation Measure Spread Function from inputs. This version
+    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+    boolean mask array, where flagged data are True and unflagged data False.
+    If only whole planes (wavelength channels) are flagged then the RMSF is the
+    same for all pixels and the calculation is done once and replicated to the
+    dimensions of the mask. If some isolated voxels are flagged then the RMSF
+    is calculated by looping through each wavelength plane, which can take some
+    time. By default the routine returns the analytical width of the RMSF main
+    lobe but can also use MPFIT to fit a Gaussian.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+
+    Parameters
+    ----------
+    freqArr_Hz      ... vector of frequency values
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is no weighting
+    maskArr         ... cube of mask values used to shape return cube [None]
+    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
+    double          ... pad the Faraday depth to double-size [True]
+    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
+    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
+    nBits           ... precision of data arrays [64]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+
+    Returns
+    -------
+    RMSFcube: array
+              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+              boolean mask array
+
+    phi2Arr: array
+             array of the Faraday Depth (in rad/m^2)
+
+    fwhmRMSFArr: array
+                 fwhm of the RMSF
+
+    statArr: array
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
+    if double:
+        nPhi = phiArr_radm2.shape[0]
+        nExt = np.ceil(nPhi / 2.0)
+        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
+        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
+    else:
+        phi2Arr = phiArr_radm2
+
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Set the mask array (default to 1D, no masked channels)
+    if mskArr is None:
+        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
+        nDims = 1
+    else:
+        mskArr = mskArr.astype("bool")
+        nDims = len(mskArr.shape)
+
+    # Sanity checks on array sizes
+    if not weightArr.shape == freqArr_Hz.shape:
+        log("Err: wavelength^2 and weight arrays must be the same shape.")
+        return None, None, None, None
+    if not nDims <= 3:
+        log("Err: mask dimensions must be <= 3.")
+        return None, None, None, None
+    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
+        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
+        (mskArr.shape[0], freqArr_Hz.shape[-1])
+        log("     Check that the mask is in [z, y, x] order.")
+        return None, None, None, None
+
+    # Reshape the mask array to 3 dimensions
+    if nDims == 1:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
+    elif nDims == 2:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
+
+    # Initialise the complex RM Spread Function cube
+    nX = mskArr.shape[-1]
+    nY = mskArr.shape[-2]
+    nPix = nX * nY
+    nPhi = phi2Arr.shape[0]
+    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
+
+    # If full planes are flagged then set corresponding weights to zero
+    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
+    mskPlanes = np.where(xySum == nPix, 0, 1)
+    weightArr *= mskPlanes
+
+    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
+    flagTotals = np.unique(xySum).tolist()
+    try:
+        flagTotals.remove(0)
+    except Exception:
+        pass
+    try:
+        flagTotals.remove(nPix)
+    except Exception:
+        pass
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Calculate the analytical FWHM width of the main lobe
+    fwhmRMSF = (
+        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
+    )
+
+    # Create simulated data set with simRM = peakRM
+    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
+    # RMSFArr = fdf from bwdepol_simulation
+    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
+        freqArr_Hz,
+        RMSF_data[1],
+        RMSF_data[2],
+        phiArr_radm2,
+        widths_Hz=widths_Hz,
+        weightArr=weightArr,
+        lam0Sq_m2=lam0Sq_m2,
+        verbose=verbose,
+        log=print,
+    )
+
+    # Fit the RMSF main lobe
+    fitStatus = -1
+    if fitRMSF:
+        if verbose:
+            log("Fitting Gaussian to the main lobe.")
+        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
+        if mp is None or mp.status < 1:
+            pass
+            log("Err: failed to fit the RMSF.")
+            log("     Defaulting to analytical value.")
+        else:
+            fwhmRMSF = mp.params[2]
+            fitStatus = mp.status
+
+    # Replicate along X and Y axes
+    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
+    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
+    statArr = np.ones((nY, nX), dtype="int") * fitStatus
+
+    # Remove redundant dimensions
+    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
+    statArr = np.squeeze(statArr)
+    RMSFcube = RMSFcube.reshape(-1)
+
+    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_measure_FDF_parms(
+    FDF,
+    phiArr,
+    fwhmRMSF,
+    adjoint_sens,
+    adjoint_noise,
+    dFDF=None,
+    lamSqArr_m2=None,
+    lam0Sq=None,
+    snrDoBiasCorrect=5.0,
+):
+    """
+    Measure standard parameters from a complex Faraday Dispersion Function.
+    Currently this function assumes that the noise levels in the Stokes Q
+    and U spectra are the same.
+    Returns a dictionary containing measured parameters.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+    """
+
+    # Determine the peak channel in the FDF, its amplitude and index
+    absFDF = np.abs(FDF)
+    rm_fdf = (
+        absFDF / adjoint_noise
+    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
+    amp_fdf = (
+        absFDF / adjoint_sens
+    )  # RM spectrum normalized by (RM-dependent) sensitivity
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
+
+    # new theoretical dFDF correction for adjoint method
+    # This is noise in the adjoint-spectrum.
+    dFDF = adjoint_noise[indxPeakPIchan]
+
+    # This is the error in the amplitude (accounting for re-normalization)
+    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
+
+    # Measure the RMS noise in the spectrum after masking the peak
+    # changed all absFDF to rm_fdf
+    # Since this is normalized by theoretical noise, it's effectively testing
+    # the noise relative to the theoretical noise.
+    dPhi = np.nanmin(np.diff(phiArr))
+    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
+    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
+    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
+    absFDFmsked = rm_fdf.copy()
+    absFDFmsked[iL:iR] = np.nan
+    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
+    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
+        dFDFcorMAD = MAD(rm_fdf)
+    else:
+        dFDFcorMAD = MAD(absFDFmsked)
+
+    # The noise is re-normalized by the predicted noise at the peak RM.
+    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
+
+    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
+    varLamSqArr_m2 = (
+        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
+    ) / (nChansGood - 1)
+
+    # Determine the peak in the FDF, its amplitude and Phi using a
+    # 3-point parabolic interpolation
+    phiPeakPIfit = None
+    dPhiPeakPIfit = None
+    ampPeakPIfit = None
+    snrPIfit = None
+    ampPeakPIfitEff = None
+    indxPeakPIfit = None
+    peakFDFimagFit = None
+    peakFDFrealFit = None
+    polAngleFit_deg = None
+    dPolAngleFit_deg = None
+    polAngle0Fit_deg = None
+    dPolAngle0Fit_deg = None
+
+    # Only do the 3-point fit if peak is 1-channel from either edge
+    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
+        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
+            phiArr[indxPeakPIchan - 1],
+            amp_fdf[indxPeakPIchan - 1],
+            phiArr[indxPeakPIchan],
+            amp_fdf[indxPeakPIchan],
+            phiArr[indxPeakPIchan + 1],
+            amp_fdf[indxPeakPIchan + 1],
+        )
+
+        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
+
+        # Error on fitted Faraday depth (RM) is same as channel
+        # but using fitted PI
+        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
+
+        # Correct the peak for polarisation bias (POSSUM report 11)
+        ampPeakPIfitEff = ampPeakPIfit
+        if snrPIfit >= snrDoBiasCorrect:
+            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
+
+        # Calculate the polarisation angle from the fitted peak
+        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
+        indxPeakPIfit = np.interp(
+            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
+        )
+        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
+        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
+        polAngleFit_deg = (
+            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
+        )
+        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
+
+        # Calculate the derotated polarisation angle and uncertainty
+        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
+        polAngle0Fit_deg = (
+            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
+        ) % 180
+        dPolAngle0Fit_rad = np.sqrt(
+            nChansGood
+            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
+            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
+        )
+        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
+
+    # Store the measurements in a dictionary and return
+    mDict = {
+        "dFDFcorMAD": toscalar(dFDFcorMAD),
+        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
+        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
+        "ampPeakPIfit": toscalar(ampPeakPIfit),
+        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
+        "dAmpPeakPIfit": toscalar(dampPeakPI),
+        "snrPIfit": toscalar(snrPIfit),
+        "indxPeakPIfit": toscalar(indxPeakPIfit),
+        "peakFDFimagFit": toscalar(peakFDFimagFit),
+        "peakFDFrealFit": toscalar(peakFDFrealFit),
+        "polAngleFit_deg": toscalar(polAngleFit_deg),
+        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
+        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
+        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
+    }
+
+    return mDict
+
+
+# -----------------------------------------------------------------------------#
+def do_adjoint_rmsynth_planes(
+    freqArr_Hz,
+    dataQ,
+    dataU,
+    phiArr_radm2,
+    widths_Hz=None,
+    weightArr=None,
+    lam0Sq_m2=None,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
+    of the routine loops through spectral planes and is faster than the pixel-
+    by-pixel code. This version also correctly deals with isolated clumps of
+    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
+    but possible in single-dish cubes). Input data must be in standard python
+    [z,y,x] order, where z is the frequency axis in ascending order.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+    Parameters
+    ----------
+    dataQ           ... 1, 2 or 3D Stokes Q data array
+    dataU           ... 1, 2 or 3D Stokes U data array
+    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
+    nBits           ... precision of data arrays [32]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+    Returns
+    -------
+    FDFcube: array
+             Faraday Dispersion Function (FDF)
+
+    lam0Sq_m2: array
+               lam0Sq_m2 is the weighted mean of lambda^2 distribution
+               (B&dB Eqn. 32)
+
+    adjoint_vars: list
+                  information to generate theoretical noise, sensitivity
+                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
+                                  weightArr]
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Sanity check on array sizes
+    if not weightArr.shape == lambdaSqArr_m2.shape:
+        log("Err: Lambda^2 and weight arrays must be the same shape.")
+        return None, None
+    if not dataQ.shape == dataU.shape:
+        log("Err: Stokes Q and U data arrays must be the same shape.")
+        return None, None
+    nDims = len(dataQ.shape)
+    if not nDims <= 3:
+        log("Err: data dimensions must be <= 3.")
+        return None, None
+    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
+        log(
+            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
+                dataQ.shape[0], lambdaSqArr_m2.shape[0]
+            ),
+            end=" ",
+        )
+        log("     Check that data is in [z, y, x] order.")
+        return None, None
+
+    # Reshape the data arrays to 3 dimensions
+    if nDims == 1:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
+    elif nDims == 2:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
+
+    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
+    # Array has dimensions [nFreq, nY, nX]
+    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
+
+    # Check for NaNs (flagged data) in the cube & set to zero
+    mskCube = np.isnan(pCube)
+    pCube = np.nan_to_num(pCube)
+
+    # If full planes are flagged then set corresponding weights to zero
+    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
+    mskPlanes = np.where(mskPlanes == 0, 0, 1)
+    weightArr *= mskPlanes
+
+    # Initialise the complex Faraday Dispersion Function cube
+    nX = dataQ.shape[-1]
+    nY = dataQ.shape[-2]
+    nPhi = phiArr_radm2.shape[0]
+    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
+
+    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
+    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
+    K = 1.0 / np.sum(weightArr)
+    if lam0Sq_m2 is None:
+        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
+
+    # The K value used to scale each FDF spectrum must take into account
+    # flagged voxels data in the datacube and can be position dependent
+    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
+    with np.errstate(divide="ignore", invalid="ignore"):
+        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
+        KArr[KArr == np.inf] = 0
+        KArr = np.nan_to_num(KArr)
+
+    # Do the RM-synthesis on each plane
+    if verbose:
+        log("Running RM-synthesis by channel.")
+        progress(40, 0)
+
+    # calculate channel widths if necessary
+    if widths_Hz == None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+    for i in range(nPhi):
+        if verbose:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
+            :, np.newaxis, np.newaxis
+        ]
+        arg0 = pCube * cor * np.conj(r_i)
+        arg = arg0
+        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
+
+    # information to generate theoretical noise, sensitivity
+    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    # Remove redundant dimensions in the FDF array
+    FDFcube = np.squeeze(FDFcube)
+    return FDFcube, lam0Sq_m2, adjoint_vars
+
+
+# -----------------------------------------------------------------------------#
+def run_adjoint_rmsynth(
+    data,
+    polyOrd=3,
+    phiMax_radm2=None,
+    dPhi_radm2=None,
+    nSamples=10.0,
+    weightType="variance",
+    fitRMSF=True,
+    noStokesI=False,
+    phiNoise_radm2=1e6,
+    nBits=64,
+    showPlots=False,
+    debug=False,
+    verbose=False,
+    log=print,
+    units="Jy/beam",
+):
+    """Run bwdepol RM synthesis on 1D data.
+
+    Args:
+        data (list): Contains frequency and polarization data as either:
+            [freq_Hz, I, Q, U, dI, dQ, dU]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                I (array_like): Stokes I intensity in each channel.
+                Q (array_like): Stokes Q intensity in each channel.
+                U (array_like): Stokes U intensity in each channel.
+                dI (array_like): Error in Stokes I intensity in each channel.
+                dQ (array_like): Error in Stokes Q intensity in each channel.
+                dU (array_like): Error in Stokes U intensity in each channel.
+            or
+            [freq_Hz, q, u,  dq, du]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
+                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
+                dq (array_like): Error in fractional Stokes Q intensity in each channel.
+                du (array_like): Error in fractional Stokes U intensity in each channel.
+
+    Kwargs:
+        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
+        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
+        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
+        nSamples (float): Number of samples across the RMSF.
+        weightType (str): Can be "variance" or "uniform"
+            "variance" -- Weight by uncertainty in Q and U.
+            "uniform" -- Weight uniformly (i.e. with 1s)
+        fitRMSF (bool): Fit a Gaussian to the RMSF?
+        noStokesI (bool: Is Stokes I data provided?
+        phiNoise_radm2 (float): ????
+        nBits (int): Precision of floating point numbers.
+        showPlots (bool): Show plots?
+        debug (bool): Turn on debugging messages & plots?
+        verbose (bool): Verbosity.
+        log (function): Which logging function to use.
+        units (str): Units of data.
+
+    Returns:
+        mDict (dict): Summary of RM synthesis results.
+        aDict (dict): Data output by RM synthesis.
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    #    dtComplex = "complex" + str(2*nBits)
+
+    # freq_Hz, I, Q, U, dI, dQ, dU
+    if data.shape[0] == 7:
+        if verbose:
+            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
+        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+        widths_Hz = None
+    elif data.shape[0] == 8:
+        if verbose:
+            log(
+                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+    elif data.shape[0] == 6:
+        if verbose:
+            log(
+                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
+    elif data.shape[0] == 5:
+        if verbose:
+            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
+        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
+        widths_Hz = None
+        noStokesI = True
+    else:
+        log("Failed to read in data, aborting.")
+        if debug:
+            log(traceback.format_exc())
+        sys.exit()
+    if verbose:
+        log("Successfully read in the Stokes spectra.")
+
+    # If no Stokes I present, create a dummy spectrum = unity
+    if noStokesI:
+        if verbose:
+            log("Warn: no Stokes I data in use.")
+        IArr = np.ones_like(QArr)
+        dIArr = np.zeros_like(QArr)
+
+    # Convert to GHz for convenience
+    freqArr_GHz = freqArr_Hz / 1e9
+    dQUArr = (dQArr + dUArr) / 2.0
+
+    # Fit the Stokes I spectrum and create the fractional spectra
+    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
+        freqArr=freqArr_GHz,
+        IArr=IArr,
+        QArr=QArr,
+        UArr=UArr,
+        dIArr=dIArr,
+        dQArr=dQArr,
+        dUArr=dUArr,
+        polyOrd=polyOrd,
+        verbose=True,
+        debug=debug,
+    )
+
+    # Plot the data and the Stokes I model fit
+    if showPlots:
+        if verbose:
+            log("Plotting the input data and spectral index fit.")
+        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
+        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        specFig = plt.figure(figsize=(12.0, 8))
+        plot_Ipqu_spectra_fig(
+            freqArr_Hz=freqArr_Hz,
+            IArr=IArr,
+            qArr=qArr,
+            uArr=uArr,
+            dIArr=dIArr,
+            dqArr=dqArr,
+            duArr=duArr,
+            freqHirArr_Hz=freqHirArr_Hz,
+            IModArr=IModHirArr,
+            fig=specFig,
+            units=units,
+        )
+
+        # DEBUG (plot the Q, U and average RMS spectrum)
+        if debug:
+            rmsFig = plt.figure(figsize=(12.0, 8))
+            ax = rmsFig.add_subplot(111)
+            ax.plot(
+                freqArr_Hz / 1e9,
+                dQUArr,
+                marker="o",
+                color="k",
+                lw=0.5,
+                label="rms <QU>",
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
+            )
+            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
+            ax.set_xlim(
+                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
+                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
+            )
+            ax.set_xlabel(r"$\nu$ (GHz)")
+            ax.set_ylabel("RMS " + units)
+            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
+
+    # Calculate some wavelength parameters
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
+    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
+    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+
+    # Set the Faraday depth range
+    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
+    if dPhi_radm2 is None:
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
+    if phiMax_radm2 is None:
+        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
+        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
+
+    # Faraday depth sampling. Zero always centred on middle channel
+    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
+    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
+    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
+    if verbose:
+        log(
+            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
+            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
+        )
+
+    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
+    if weightType == "variance":
+        weightArr = 1.0 / np.power(dQUArr, 2.0)
+    else:
+        weightType = "uniform"
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    if verbose:
+        log("Weight type is '%s'." % weightType)
+
+    startTime = time.time()
+
+    # Perform adjoint RM-synthesis on the spectrum
+    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        dataQ=qArr,
+        dataU=uArr,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+    )
+
+    # generate adjoint_noise and adjoint__sens
+    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
+
+    # calculate peak RM
+    absFDF = np.abs(dirtyFDF)
+    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
+    peak_rm = phiArr_radm2[indxPeakPIchan]
+
+    # Calculate the Rotation Measure Spread Function
+    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        mskArr=~np.isfinite(qArr),
+        lam0Sq_m2=lam0Sq_m2,
+        double=True,
+        fitRMSF=fitRMSF,
+        fitRMSFreal=False,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+        peak_rm=peak_rm,
+    )
+    fwhmRMSF = float(fwhmRMSFArr)
+    endTime = time.time()
+    cputime = endTime - startTime
+    if verbose:
+        log("> RM-synthesis completed in %.2f seconds." % cputime)
+
+    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
+    # Multiply the dirty FDF by Ifreq0 to recover the PI
+    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
+    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
+
+    # Calculate the theoretical noise in the FDF !!
+    # Old formula only works for wariance weights!
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    dFDFth = np.sqrt(
+        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
+    )
+
+    # Measure the parameters of the dirty FDF
+    # Use the theoretical noise to calculate uncertainties
+
+    mDict = bwdepol_measure_FDF_parms(
+        FDF=dirtyFDF,
+        phiArr=phiArr_radm2,
+        fwhmRMSF=fwhmRMSF,
+        adjoint_sens=adjoint_sens,
+        adjoint_noise=adjoint_noise,
+        dFDF=dFDFth,
+        lamSqArr_m2=lambdaSqArr_m2,
+        lam0Sq=lam0Sq_m2,
+    )
+
+    mDict["Ifreq0"] = toscalar(Ifreq0)
+    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
+    mDict["IfitStat"] = fit_result.fitStatus
+    mDict["IfitChiSqRed"] = fit_result.chiSqRed
+    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
+    mDict["freq0_Hz"] = toscalar(freq0_Hz)
+    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
+    mDict["dQU"] = toscalar(nanmedian(dQUArr))
+    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["units"] = units
+
+    if fit_result.fitStatus >= 128:
+        log("WARNING: Stokes I model contains negative values!")
+    elif fit_result.fitStatus >= 64:
+        log("Caution: Stokes I model has low signal-to-noise.")
+
+    # Add information on nature of channels:
+    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
+    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
+    mDict["N_channels"] = good_channels.size
+    if widths_Hz != None:
+        mDict["median_channel_width"] = float(np.median(widths_Hz))
+    else:
+        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+
+    # Measure the complexity of the q and u spectra
+    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
+    mD, pD = measure_qu_complexity(
+        freqArr_Hz=freqArr_Hz,
+        qArr=qArr,
+        uArr=uArr,
+        dqArr=dqArr,
+        duArr=duArr,
+        fracPol=mDict["fracPol"],
+        psi0_deg=mDict["polAngle0Fit_deg"],
+        RM_radm2=mDict["phiPeakPIfit_rm2"],
+    )
+    mDict.update(mD)
+
+    # Debugging plots for spectral complexity measure
+    if debug:
+        tmpFig = plot_complexity_fig(
+            xArr=pD["xArrQ"],
+            qArr=pD["yArrQ"],
+            dqArr=pD["dyArrQ"],
+            sigmaAddqArr=pD["sigmaAddArrQ"],
+            chiSqRedqArr=pD["chiSqRedArrQ"],
+            probqArr=pD["probArrQ"],
+            uArr=pD["yArrU"],
+            duArr=pD["dyArrU"],
+            sigmaAdduArr=pD["sigmaAddArrU"],
+            chiSqReduArr=pD["chiSqRedArrU"],
+            probuArr=pD["probArrU"],
+            mDict=mDict,
+        )
+        tmpFig.show()
+
+    # add array dictionary
+    aDict = dict()
+    aDict["phiArr_radm2"] = phiArr_radm2
+    aDict["phi2Arr_radm2"] = phi2Arr_radm2
+    aDict["RMSFArr"] = RMSFArr
+    aDict["freqArr_Hz"] = freqArr_Hz
+    aDict["weightArr"] = weightArr
+    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
+
+    if verbose:
+        # Print the results to the screen
+        log()
+        log("-" * 80)
+        log("RESULTS:\n")
+        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
+
+        log(
+            "Pol Angle = %.4g (+/-%.4g) deg"
+            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
+        )
+        log(
+            "Pol Angle 0 = %.4g (+/-%.4g) deg"
+            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
+        )
+        log(
+            "Peak FD = %.4g (+/-%.4g) rad/m^2"
+            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
+        )
+        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
+        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
+        log(
+            "Peak PI = %.4g (+/-%.4g) %s"
+            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
+        )
+        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
+        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
+        log(
+            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
+            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
+        )
+        log()
+        log("-" * 80)
+
+    # Plot the RM Spread Function and dirty FDF
+    if showPlots:
+        plot_adjoint_info(adjoint_info, units=units)
+        fdfFig = plt.figure(figsize=(12.0, 8))
+        bwdepol_plot_rmsf_fdf_fig(
+            phiArr=phiArr_radm2,
+            FDF=(dirtyFDF / adjoint_sens),
+            phi2Arr=phiArr_radm2,
+            RMSFArr=RMSFArr,
+            peak_rm=peak_rm,
+            fwhmRMSF=fwhmRMSF,
+            vLine=mDict["phiPeakPIfit_rm2"],
+            fig=fdfFig,
+            units=units,
+        )
+
+    if showPlots or debug:
+        plt.show()
+
+    return mDict, aDict
+
+
+# -----------------------------------------------------------------------------#
+def main():
+    """
+    Start the function to perform bwdepol RM-synthesis if called from the command line.
+    """
+
+    # Help string to be shown using the -h option
+    descStr = """
+    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
+    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
+
+    Behaves similarly to rmsynth1d except that the input file can optionally
+    contain a column with the channel widths in Hz. If this column is not
+    given, the channel widths will be assumed to be uniform and calculated
+    based on the difference between the frequencies of the first two channels.
+
+    The ASCII file requires one of the following column configurations,
+    depending on whether Stokes I and channel width information are available,
+    in a space separated format:
+    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, Q, U, Q_err, U_err]
+    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
+
+
+    To get outputs, one or more of the following flags must be set: -S, -p, -v.
+    """
+
+    epilog_text = """
+    Outputs with -S flag:
+    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
+    _RMSF.dat: Computed RMSF [Phi, Q, U]
+    _RMsynth.dat: list of derived parameters for RM spectrum
+                (approximately equivalent to -v flag output)
+    _RMsynth.json: dictionary of derived parameters for RM spectrum
+    _weight.dat: Calculated channel weights [freq_Hz, weight]
+    """
+
+    # Parse the command line options
+    parser = argparse.ArgumentParser(
+        description=descStr,
+        epilog=epilog_text,
+        formatter_class=argparse.RawTextHelpFormatter,
+    )
+    parser.add_argument(
+        "dataFile",
+        metavar="dataFile.dat",
+        nargs=1,
+        help="ASCII file containing Stokes spectra & errors.",
+    )
+    parser.add_argument(
+        "-t",
+        dest="fitRMSF",
+        action="store_false",
+        help="fit a Gaussian to the RMSF [True; set flag to disable]",
+    )
+    parser.add_argument(
+        "-l",
+        dest="phiMax_radm2",
+        type=float,
+        default=None,
+        help="absolute max Faraday depth sampled [Auto].",
+    )
+    parser.add_argument(
+        "-d",
+        dest="dPhi_radm2",
+        type=float,
+        default=None,
+        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
+    )
+    parser.add_argument(
+        "-s",
+        dest="nSamples",
+        type=float,
+        default=10,
+        help="number of samples across the RMSF lobe [10].",
+    )
+    parser.add_argument(
+        "-w",
+        dest="weightType",
+        default="variance",
+        help="weighting [inverse variance] or 'uniform' (all 1s).",
+    )
+    parser.add_argument(
+        "-o",
+        dest="polyOrd",
+        type=int,
+        default=2,
+        help="polynomial order to fit to I spectrum [2].",
+    )
+    parser.add_argument(
+        "-i",
+        dest="noStokesI",
+        action="store_true",
+        help="ignore the Stokes I spectrum [False].",
+    )
+    parser.add_argument(
+        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
+    )
+    parser.add_argument(
+        "-v", dest="verbose", action="store_true", help="verbose output [False]."
+    )
+    parser.add_argument(
+        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
+    )
+    parser.add_argument(
+        "-D",
+        dest="debug",
+        action="store_true",
+        help="turn on debugging messages & plots [False].",
+    )
+    parser.add_argument(
+        "-U",
+        dest="units",
+        type=str,
+        default="Jy/beam",
+        help="Intensity units of the data. [Jy/beam]",
+    )
+    args = parser.parse_args()
+
+    # Sanity checks
+    if not os.path.exists(args.dataFile[0]):
+        print("File does not exist: '%s'." % args.dataFile[0])
+        sys.exit()
+    prefixOut, ext = os.path.splitext(args.dataFile[0])
+    dataDir, dummy = os.path.split(args.dataFile[0])
+    # Set the floating point precision
+    nBits = 64
+
+    # Read in the data. Don't parse until inside the first function.
+    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
+
+    # Run (modified) RM-synthesis on the spectra
+    mDict, aDict = run_adjoint_rmsynth(
+        data=data,
+        polyOrd=args.polyOrd,
+        phiMax_radm2=args.phiMax_radm2,
+        dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
+        weightType=args.weightType,
+        fitRMSF=args.fitRMSF,
+        noStokesI=args.noStokesI,
+        nBits=nBits,
+        showPlots=args.showPlots,
+        debug=args.debug,
+        verbose=args.verbose,
+        units=args.units,
+    )
+
+    if args.saveOutput:
+        saveOutput(mDict, aDict, prefixOut, args.verbose)
+
+
+# -----------------------------------------------------------------------------#
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 6edf184135ea1cabdd07fee3d8446f21d8696f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 45/69] fix: accept a column of channel widths in
 rmtools_bwdepol, as documented (crashed)

---
 RMtools_1D/rmtools_bwdepol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 150b0ce..299ec75 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -307,7 +307,7 @@ def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
          [freq_Hz, q, u,  dq, du]
 
     """
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
 
     p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
@@ -935,7 +935,7 @@ def do_adjoint_rmsynth_planes(
         progress(40, 0)
 
     # calculate channel widths if necessary
-    if widths_Hz == None:
+    if widths_Hz is None:
         widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
     for i in range(nPhi):
         if verbose:
@@ -1261,7 +1261,7 @@ def run_adjoint_rmsynth(
     mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
     mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
     mDict["N_channels"] = good_channels.size
-    if widths_Hz != None:
+    if widths_Hz is not None:
         mDict["median_channel_width"] = float(np.median(widths_Hz))
     else:
         mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-- 
2.43.0


From 344ea18fc01ee6de5367a08570f0229deaf7f4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 46/69] fix: verbose output of rmtools_bwdepol crashed on the
 missing theoretical noise

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 299ec75..d596940 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1248,7 +1248,7 @@ def run_adjoint_rmsynth(
     mDict["freq0_Hz"] = toscalar(freq0_Hz)
     mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
     mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    # mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["dFDFth"] = toscalar(dFDFth)
     mDict["units"] = units
 
     if fit_result.fitStatus >= 128:
-- 
2.43.0


From d7122cf4e666026bfe59c4849fc1e797ec8db066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 47/69] fix: run rmtools_bwdepol also if a channel without data
 has no errors (NaN noise crashed)

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index d596940..12975a7 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -198,7 +198,7 @@ def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
 
         r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
         adjoint_noise2 = (
-            np.sum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            np.nansum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
             / np.sum(weightArr) ** 2
         )  # equation 34
         adjoint_noise[i] = np.sqrt(adjoint_noise2)
-- 
2.43.0


From c80235abce611c6838de74a301d15ade45474e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 48/69] fix: evaluate the Stokes I model of rmtools_bwdepol as
 fitted (Ifreq0 and all amplitudes were wrong)

---
 RMtools_1D/rmtools_bwdepol.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 12975a7..86aaf1a 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -47,9 +47,9 @@ from matplotlib.ticker import MaxNLocator
 from RMtools_1D.do_RMsynth_1D import saveOutput
 from RMutils.util_misc import (
     MAD,
+    calculate_StokesI_model,
     create_frac_spectra,
     nanmedian,
-    poly5,
     progress,
     toscalar,
 )
@@ -1064,13 +1064,11 @@ def run_adjoint_rmsynth(
         IArr = np.ones_like(QArr)
         dIArr = np.zeros_like(QArr)
 
-    # Convert to GHz for convenience
-    freqArr_GHz = freqArr_Hz / 1e9
     dQUArr = (dQArr + dUArr) / 2.0
 
     # Fit the Stokes I spectrum and create the fractional spectra
     IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_GHz,
+        freqArr=freqArr_Hz,
         IArr=IArr,
         QArr=QArr,
         UArr=UArr,
@@ -1087,7 +1085,7 @@ def run_adjoint_rmsynth(
         if verbose:
             log("Plotting the input data and spectral index fit.")
         freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = poly5(fit_result.params)(freqHirArr_Hz / 1e9)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz)
         specFig = plt.figure(figsize=(12.0, 8))
         plot_Ipqu_spectra_fig(
             freqArr_Hz=freqArr_Hz,
@@ -1216,7 +1214,7 @@ def run_adjoint_rmsynth(
     # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
     # Multiply the dirty FDF by Ifreq0 to recover the PI
     freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = poly5(fit_result.params)(freq0_Hz / 1e9)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
     dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
 
     # Calculate the theoretical noise in the FDF !!
-- 
2.43.0


From 51631530a63bcb785537957d8bbfa525c59cf77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 49/69] fix: calculate the RMSF of rmtools_bwdepol at the
 Faraday depths it is saved and fitted with

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 86aaf1a..3d4f9af 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -629,7 +629,7 @@ def bwdepol_get_rmsf_planes(
         freqArr_Hz,
         RMSF_data[1],
         RMSF_data[2],
-        phiArr_radm2,
+        phi2Arr,
         widths_Hz=widths_Hz,
         weightArr=weightArr,
         lam0Sq_m2=lam0Sq_m2,
@@ -1348,7 +1348,7 @@ def run_adjoint_rmsynth(
         bwdepol_plot_rmsf_fdf_fig(
             phiArr=phiArr_radm2,
             FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phiArr_radm2,
+            phi2Arr=phi2Arr_radm2,
             RMSFArr=RMSFArr,
             peak_rm=peak_rm,
             fwhmRMSF=fwhmRMSF,
-- 
2.43.0


From 48c69b859fe43d578a89508449d5544068bc38a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 50/69] fix: don't ignore the initial polarisation angle of
 bandwidth-averaged signals

---
 RMtools_1D/rmtools_bwdepol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 3d4f9af..3341551 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -277,9 +277,9 @@ def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
     yb = rotation_integral_limit(
         b,
         phi,
-    )  # check orig for xi_knot
+    )
 
-    i = p * (yb - ya)
+    i = p * np.exp(2.0j * xi_knot) * (yb - ya)
     avg_p_tilda = i / ban
 
     return avg_p_tilda
-- 
2.43.0


From 1bee11cfc363aba286d13a1058814562494313db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 51/69] fix: leave channels flagged in Stokes Q or U out of the
 RMSF, weights and count of rmtools_bwdepol

---
 RMtools_1D/rmtools_bwdepol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 3341551..7f3694e 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1161,6 +1161,9 @@ def run_adjoint_rmsynth(
     else:
         weightType = "uniform"
         weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels flagged in either Stokes Q or U are not used.
+    flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
+    weightArr = np.where(flagArr, 0.0, weightArr)
     if verbose:
         log("Weight type is '%s'." % weightType)
 
@@ -1195,7 +1198,7 @@ def run_adjoint_rmsynth(
         widths_Hz=widths_Hz,
         phiArr_radm2=phiArr_radm2,
         weightArr=weightArr,
-        mskArr=~np.isfinite(qArr),
+        mskArr=flagArr,
         lam0Sq_m2=lam0Sq_m2,
         double=True,
         fitRMSF=fitRMSF,
-- 
2.43.0


From 20cc8705dbf9821862b076c56998335ee8424796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:59 +0000
Subject: [PATCH 52/69] fix: do not count unused channels in the angle
 uncertainty of rmtools_bwdepol

---
 RMtools_1D/rmtools_bwdepol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 7f3694e..76cee98 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1237,7 +1237,7 @@ def run_adjoint_rmsynth(
         adjoint_sens=adjoint_sens,
         adjoint_noise=adjoint_noise,
         dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],  # only channels in use
         lam0Sq=lam0Sq_m2,
     )
 
-- 
2.43.0


From da36d5228b99af49a4e311b12f1d417ba070874f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 53/69] fix: don't let flagged channels lower the additional
 scatter (sigma_add)

---
 RMutils/util_RM.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 53ab704..68fd05c 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -1179,7 +1179,9 @@ def calc_sigma_add(xArr, yArr, dyArr, yMed=None, noise=None, nSamp=1000, suffix=
     # Model deviation from Gaussian as an additional noise term.
     # Loop through the range of i additional noise samples and calculate
     # chi-squared and sum(ln(sigma_total)), used later to calculate likelihood.
-    nData = len(xArr)
+    # Flagged points carry no information on the scatter.
+    dyArr = np.where(np.isnan(yArr), np.nan, dyArr)
+    nData = np.count_nonzero(~np.isnan(dyArr))
     chiSqArr = np.zeros_like(sigmaAddArr)
     lnSigmaSumArr = np.zeros_like(sigmaAddArr)
     for i, sigmaAdd in enumerate(sigmaAddArr):
-- 
2.43.0


From f3de384926888a080ea3e1f45fa92d3e4a299d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:39 +0000
Subject: [PATCH 54/69] fix: Burn law of external depolarisation (the
 dispersion was not squared)

---
 RMutils/util_misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index f36a40b..0505eb2 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1197,7 +1197,7 @@ def create_pqu_spectra_burn(
     pArr = fracPolArr * np.ones((nComps, nChans), dtype="f8")
     quArr = pArr * (
         np.exp(2j * (np.radians(psi0Arr_deg) + RMArr_radm2 * lamSqArr_m2))
-        * np.exp(-2.0 * sigmaRMArr_radm2 * np.power(lamArr_m, 4.0))
+        * np.exp(-2.0 * sigmaRMArr_radm2**2.0 * np.power(lamArr_m, 4.0))
     )
 
     # Sum along the component axis to create the final spectra
-- 
2.43.0


From 4f10ce757733e5dc7249665d0cf966e1480ce853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 55/69] fix: rmtools_clean_model could not open its files
 (crashed)

---
 RMtools_1D/clean_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 14ab545..dfa0d2a 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -139,11 +139,11 @@ def main():
     args = parser.parse_args()
 
     phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
-        args.freqfile, args.rmSynthfile, args.CCfile
+        args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
 
-    save_model(args.outfile, freqArr, Imodel, QUarr)
+    save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 9dcc6cf1998bdad74ac42fbcee46623864c877cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 56/69] fix: don't multiply clean component models twice by the
 Stokes I at the reference frequency

---
 RMtools_1D/clean_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index dfa0d2a..39c67ab 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -56,7 +56,9 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
-    QUarr = StokesI_model * quarr
+    # The clean components are in flux units at the reference frequency.
+    StokesI_ref = calculate_StokesI_model(fit_result, fit_result.reference_frequency_Hz)
+    QUarr = StokesI_model / StokesI_ref * quarr
 
     return QUarr, StokesI_model
 
-- 
2.43.0


From 92721a2f5c95261fe623fd99d7a9cbda55f2e1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 57/69] fix: predict Stokes Q and U also from super-resolution
 synthesis (reference lambda^2 of zero gave NaN)

---
 RMtools_1D/clean_model.py | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index 39c67ab..a0d1526 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -17,7 +17,9 @@ from RMtools_1D.do_RMsynth_1D import readFile as read_freqFile
 from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
-def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
+def calculate_QU_model(
+    freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None, reference_frequency_Hz=None
+):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
     Inputs: freqArr: array of channel frequencies, in Hz
@@ -27,6 +29,9 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
                         which all the polarization angles are referenced.
             Iparms: list of Stokes I polynomial values. If None, all Stokes I
                     values will be set to 1.
+            reference_frequency_Hz: reference frequency of the Stokes I model.
+                    If None, use the frequency of the reference wavelength.
+                    Required if lambdaSq_0 is zero and Iparms are given.
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
@@ -39,6 +44,14 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
     a = lambdaSqArr_m2 - lambdaSq_0
     quarr = np.sum(CCArr[:, np.newaxis] * np.exp(2.0j * np.outer(phiArr, a)), axis=0)
 
+    if reference_frequency_Hz is None:
+        if lambdaSq_0 > 0:
+            reference_frequency_Hz = speed_of_light.value / np.sqrt(lambdaSq_0)
+        elif Iparms is None:  # Any reference will do
+            reference_frequency_Hz = np.mean(freqArr)
+        else:
+            raise ValueError("No reference frequency for the Stokes I model.")
+
     # TODO: Pass in fit function, which is currently not output by rmsynth1d
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
@@ -48,7 +61,7 @@ def calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None):
         AIC=0,
         polyOrd=0,
         nIter=0,
-        reference_frequency_Hz=speed_of_light.value / np.sqrt(lambdaSq_0),
+        reference_frequency_Hz=reference_frequency_Hz,
         dof=0,
         pcov=None,
         perror=None,
@@ -81,6 +94,8 @@ def read_files(freqfile, rmSynthfile, CCfile):
             CCarr: array of (complex) clean components
             Iparms: list of Stokes I model parameters.
             lambdaSq_0: scalar value of lambda^2_0, in m^2.
+            freqArr: array of channel frequencies, in Hz.
+            freq0_Hz: reference frequency of the Stokes I model, in Hz.
     """
 
     phiArr, CCreal, CCimag = np.loadtxt(CCfile, unpack=True, dtype="float")
@@ -90,11 +105,12 @@ def read_files(freqfile, rmSynthfile, CCfile):
     synth_mDict = json.load(open(rmSynthfile, "r"))
     Iparms = [float(x) for x in synth_mDict["polyCoeffs"].split(",")]
     lambdaSq_0 = synth_mDict["lam0Sq_m2"]
+    freq0_Hz = synth_mDict["freq0_Hz"]
 
     data = read_freqFile(freqfile, 64, verbose=False, debug=False)
     freqArr = data[0]
 
-    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr
+    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz
 
 
 def main():
@@ -140,10 +156,12 @@ def main():
     )
     args = parser.parse_args()
 
-    phiArr, CCArr, Iparms, lambdaSq_0, freqArr = read_files(
+    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
-    QUarr, Imodel = calculate_QU_model(freqArr, phiArr, CCArr, lambdaSq_0, Iparms)
+    QUarr, Imodel = calculate_QU_model(
+        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, freq0_Hz
+    )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
 
-- 
2.43.0


From d4b3a6c266138b78353d843c3088254e4961a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 58/69] fix: honour linear Stokes I models when predicting
 Stokes Q and U from clean components

---
 RMtools_1D/clean_model.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/RMtools_1D/clean_model.py b/RMtools_1D/clean_model.py
index a0d1526..82f45a5 100755
--- a/RMtools_1D/clean_model.py
+++ b/RMtools_1D/clean_model.py
@@ -18,7 +18,13 @@ from RMutils.util_misc import FitResult, calculate_StokesI_model
 
 
 def calculate_QU_model(
-    freqArr, phiArr, CCArr, lambdaSq_0, Iparms=None, reference_frequency_Hz=None
+    freqArr,
+    phiArr,
+    CCArr,
+    lambdaSq_0,
+    Iparms=None,
+    reference_frequency_Hz=None,
+    fit_function="log",
 ):
     """Compute the predicted Stokes Q and U values for each channel from a
     set of clean components (CCs), with optional accounting for Stokes I model.
@@ -32,11 +38,10 @@ def calculate_QU_model(
             reference_frequency_Hz: reference frequency of the Stokes I model.
                     If None, use the frequency of the reference wavelength.
                     Required if lambdaSq_0 is zero and Iparms are given.
+            fit_function: Stokes I model function, 'log' or 'linear'.
     Returns:
         model: array of complex values, one per channel, of Stokes Q and U
                 predictions based on the clean component model.
-
-    CURRENTLY ASSUMES THAT STOKES I MODEL IS LOG MODEL. SHOULD BE FIXED!
     """
 
     lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr, 2.0)
@@ -52,7 +57,6 @@ def calculate_QU_model(
         else:
             raise ValueError("No reference frequency for the Stokes I model.")
 
-    # TODO: Pass in fit function, which is currently not output by rmsynth1d
     fit_result = FitResult(
         params=Iparms if Iparms is not None else [0, 0, 0, 0, 0, 1],
         fitStatus=0,
@@ -65,7 +69,7 @@ def calculate_QU_model(
         dof=0,
         pcov=None,
         perror=None,
-        fit_function="log",
+        fit_function=fit_function,
     )
     StokesI_model = calculate_StokesI_model(fit_result, freqArr)
 
@@ -96,6 +100,7 @@ def read_files(freqfile, rmSynthfile, CCfile):
             lambdaSq_0: scalar value of lambda^2_0, in m^2.
             freqArr: array of channel frequencies, in Hz.
             freq0_Hz: reference frequency of the Stokes I model, in Hz.
+            fit_function: Stokes I model function ('log' or 'linear').
     """
 
     phiArr, CCreal, CCimag = np.loadtxt(CCfile, unpack=True, dtype="float")
@@ -106,11 +111,12 @@ def read_files(freqfile, rmSynthfile, CCfile):
     Iparms = [float(x) for x in synth_mDict["polyCoeffs"].split(",")]
     lambdaSq_0 = synth_mDict["lam0Sq_m2"]
     freq0_Hz = synth_mDict["freq0_Hz"]
+    fit_function = synth_mDict.get("fit_function", "log")
 
     data = read_freqFile(freqfile, 64, verbose=False, debug=False)
     freqArr = data[0]
 
-    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz
+    return phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz, fit_function
 
 
 def main():
@@ -156,11 +162,11 @@ def main():
     )
     args = parser.parse_args()
 
-    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz = read_files(
+    phiArr, CCArr, Iparms, lambdaSq_0, freqArr, freq0_Hz, fit_function = read_files(
         args.freqfile[0], args.rmSynthfile[0], args.CCfile[0]
     )
     QUarr, Imodel = calculate_QU_model(
-        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, freq0_Hz
+        freqArr, phiArr, CCArr, lambdaSq_0, Iparms, freq0_Hz, fit_function
     )
 
     save_model(args.outfile[0], freqArr, Imodel, QUarr)
-- 
2.43.0


From c277296f1b2822786ab370da82b4039fdb68195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 59/69] fix: read frequencies and weights of rmtools_calcRMSF
 as floats (integers overflowed above 3 GHz, mixed columns crashed)

---
 RMtools_1D/calculate_RMSF.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMtools_1D/calculate_RMSF.py b/RMtools_1D/calculate_RMSF.py
index 486251a..8216a72 100755
--- a/RMtools_1D/calculate_RMSF.py
+++ b/RMtools_1D/calculate_RMSF.py
@@ -105,7 +105,7 @@ def main():
     # Order of priority: frequency file takes precedence over -i flag.
     #                   weight file takes precedence over 2nd column of frequency file.
     if args.freqFile != None:
-        data = np.genfromtxt(args.freqFile, encoding=None, dtype=None)
+        data = np.genfromtxt(args.freqFile, encoding=None, dtype=float)
         if len(data.shape) == 2:
             freq_array = data[:, 0]
             weights_array = data[:, 1]
@@ -122,7 +122,7 @@ def main():
         weights_array = np.ones_like(freq_array)
 
     if args.weightFile != None:
-        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=None)
+        weights_array = np.genfromtxt(args.weightFile, encoding=None, dtype=float)
         if len(weights_array) != len(freq_array):
             raise Exception(
                 "Weights file does not have same number of channels as frequency source"
-- 
2.43.0


From d80044d40f83180c41b1b500d3c1ad40230b4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 60/69] fix: don't reject pixels with zero Stokes Q but signal
 in Stokes U in 1D synthesis from cubes

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index 8dae6af..df009e2 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -243,7 +243,7 @@ def main():
         else:
             args.units = "Jy/beam"
 
-    if (Q_array != 0).sum() == 0 and (Q_array != 0).sum() == 0:
+    if (Q_array != 0).sum() == 0 and (U_array != 0).sum() == 0:
         raise Exception("All QU values zero! Maybe invalid pixel?")
 
     if args.StokesI_fits is not None:
-- 
2.43.0


From af2bd83717a8ada26ba9d776db8e84fdad614820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:43 +0000
Subject: [PATCH 61/69] fix: refuse positions outside the image in 1D synthesis
 from cubes (another pixel was used)

---
 RMtools_1D/do_RMsynth_1D_fromFITS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMtools_1D/do_RMsynth_1D_fromFITS.py b/RMtools_1D/do_RMsynth_1D_fromFITS.py
index df009e2..a747951 100644
--- a/RMtools_1D/do_RMsynth_1D_fromFITS.py
+++ b/RMtools_1D/do_RMsynth_1D_fromFITS.py
@@ -227,6 +227,9 @@ def main():
     else:
         xcoords = int(args.xcoords) - 1
         ycoords = int(args.ycoords) - 1
+    nx, ny = hduList[0].header["NAXIS1"], hduList[0].header["NAXIS2"]
+    if not (0 <= xcoords < nx and 0 <= ycoords < ny):
+        raise Exception("Position is outside the image!")
     freq_array = get_freq_array(args.dataFile[0])
     Q_array = get_data_Q_U(args.dataFile[0], ycoords, xcoords)
     U_array = get_data_Q_U(args.UFile[0], ycoords, xcoords)
-- 
2.43.0


From 6eb38a4127da3714a3a783f5d91314406c53d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:15 +0000
Subject: [PATCH 62/69] fix: write valid equatorial axis types in simulated
 cubes

---
 RMutils/util_FITS.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/RMutils/util_FITS.py b/RMutils/util_FITS.py
index 64335af..d1d80b6 100644
--- a/RMutils/util_FITS.py
+++ b/RMutils/util_FITS.py
@@ -442,8 +442,8 @@ def create_simple_fits_hdu(
         xCoordStr = "GLON-CAR"
         yCoordStr = "GLAT-CAR"
     else:
-        xCoordStr = "RA-SIN"
-        yCoordStr = "DEC-SIN"
+        xCoordStr = "RA---SIN"
+        yCoordStr = "DEC--SIN"
 
     # Create the data array and insert into a new HDU
     dataArr = np.zeros(shape, dtype="f4")
-- 
2.43.0


From fb45385493079f0fbbf65d34983de056ba684863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:30 +0000
Subject: [PATCH 63/69] fix: flag Stokes I too in flagged channels of simulated
 flat-spectrum sources

---
 RMutils/util_misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 0505eb2..373c089 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -1234,6 +1234,7 @@ def create_IQU_spectra_burn(
 
     # Create the absolute value spectra
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # also if SI=0
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
@@ -1299,6 +1300,7 @@ def create_IQU_spectra_diff(
 
     # Create the absolute value spectra
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # also if SI=0
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
@@ -1332,6 +1334,7 @@ def create_IQU_spectra_RMthin(
     if freq0_Hz is None:
         freq0_Hz = freqArr_Hz[0]
     IArr = fluxI * np.power(freqArr_Hz / freq0_Hz, SI)
+    IArr = np.where(np.isnan(freqArr_Hz), np.nan, IArr)  # also if SI=0
     PArr = IArr * pArr
     QArr = IArr * qArr
     UArr = IArr * uArr
-- 
2.43.0


From a07b4589cb9ebac5bdd1826fdb340d6011f72a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 64/69] fix: don't mix coefficient maps left from an earlier
 higher-order fit into a rescaled Stokes I model

---
 RMtools_3D/rescale_I_model_3D.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/RMtools_3D/rescale_I_model_3D.py b/RMtools_3D/rescale_I_model_3D.py
index 2f2ea42..ec27872 100644
--- a/RMtools_3D/rescale_I_model_3D.py
+++ b/RMtools_3D/rescale_I_model_3D.py
@@ -47,6 +47,7 @@
 import argparse
 import multiprocessing as mp
 import os
+import re
 from functools import partial
 
 import astropy.io.fits as pf
@@ -210,8 +211,14 @@ def read_data(basename):
 
     # Get coefficient maps (without knowing how many there are)
     # Reverse index order to match RM-Tools internal ordering (highest to lowest polynomial order)
+    # Higher-order maps than those of this model can be left from an earlier fit.
+    max_order = 5
+    for card in header.get("HISTORY", []):
+        match = re.search(r"Fit model is (?:(\d+)-order|.*max order (\d+))", card)
+        if match:
+            max_order = min(5, int(match.group(1) or match.group(2)))
     coeffs = np.zeros((6, *old_reffreq_map.shape), dtype=covar_map.dtype)
-    for i in range(6):
+    for i in range(max_order + 1):
         try:  # Keep trying higher orders
             data = pf.getdata(basename + f"coeff{i}.fits")
             coeffs[5 - i] = data
-- 
2.43.0


From 7d1b3e4b38af9651ed30c978cad23b9b486c1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:01 +0000
Subject: [PATCH 65/69] fix: don't report the cached QU fit of other data,
 priors or settings

---
 RMtools_1D/do_QUfit_1D_mnest.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/RMtools_1D/do_QUfit_1D_mnest.py b/RMtools_1D/do_QUfit_1D_mnest.py
index b1c7a61..ed42160 100644
--- a/RMtools_1D/do_QUfit_1D_mnest.py
+++ b/RMtools_1D/do_QUfit_1D_mnest.py
@@ -387,6 +387,12 @@ def run_qufit(
     good = np.isfinite(qArr + uArr) & np.isfinite(dqArr + duArr)
     fitData = [x[good] for x in (lamSqArr_m2, qArr, dqArr, uArr, duArr)]
     lnlike = lnlike_call(parNames, *fitData, modelNum)
+    # bilby re-uses the result of an earlier run if these are the same
+    lnlike.meta_data = {
+        "data": [np.array(x, dtype=float).tolist() for x in fitData],
+        "priors": {k: repr(x) for k, x in priors.items()},
+        "nlive": nlive,
+    }
     # Let's time the sampler
     startTime = time.time()
 
-- 
2.43.0


From 43ddf892191d850c097d3d9715bb00764c5e11bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:42 +0000
Subject: [PATCH 66/69] fix: give rmtools_bwdepol.py its CRLF line ends back
 (lost by mistake in 5b2cc11)

---
 RMtools_1D/rmtools_bwdepol.py | 3048 ++++++++++++++++-----------------
 1 file changed, 1524 insertions(+), 1524 deletions(-)

diff --git a/RMtools_1D/rmtools_bwdepol.py b/RMtools_1D/rmtools_bwdepol.py
index 76cee98..1a2d260 100644
--- a/RMtools_1D/rmtools_bwdepol.py
+++ b/RMtools_1D/rmtools_bwdepol.py
@@ -1,1524 +1,1524 @@
-#!/usr/bin/env python
-# =============================================================================#
-#                                                                             #
-# NAME:     rmtools_bwdepol.py                                                #
-#                                                                             #
-# PURPOSE: Algorithm for finding polarized sources while accounting for       #
-#          bandwidth depolarization.                                          #
-#                                                                             #
-# =============================================================================#
-#                                                                             #
-# The MIT License (MIT)                                                       #
-#                                                                             #
-# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
-# Permission is hereby granted, free of charge, to any person obtaining a     #
-# copy of this software and associated documentation files (the "Software"),  #
-# to deal in the Software without restriction, including without limitation   #
-# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
-# and/or sell copies of the Software, and to permit persons to whom the       #
-# Software is furnished to do so, subject to the following conditions:        #
-#                                                                             #
-# The above copyright notice and this permission notice shall be included in  #
-# all copies or substantial portions of the Software.                         #
-#                                                                             #
-# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
-# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
-# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
-# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
-# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
-# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
-# DEALINGS IN THE SOFTWARE.                                                   #
-#                                                                             #
-# =============================================================================#
-
-import argparse
-import math as m
-import os
-import sys
-import time
-import traceback
-
-import matplotlib.pyplot as plt
-import numpy as np
-import scipy as sp
-from astropy.constants import c as speed_of_light
-from matplotlib.ticker import MaxNLocator
-
-from RMtools_1D.do_RMsynth_1D import saveOutput
-from RMutils.util_misc import (
-    MAD,
-    calculate_StokesI_model,
-    create_frac_spectra,
-    nanmedian,
-    progress,
-    toscalar,
-)
-from RMutils.util_plotTk import (
-    plot_complexity_fig,
-    plot_dirtyFDF_ax,
-    plot_Ipqu_spectra_fig,
-)
-from RMutils.util_RM import (
-    calc_parabola_vertex,
-    extrap,
-    fit_rmsf,
-    measure_qu_complexity,
-)
-
-if sys.version_info.major == 2:
-    print("RM-tools will no longer run with Python 2! Please use Python 3.")
-    exit()
-
-
-# -----------------------------------------------------------------------------#
-def rotation_integral_limit(freq, phi):
-    """Calculates the analytic solution to the channel polarization integral
-    at one limit frequency.
-
-    Parameters
-    ----------
-    freq: float
-          frequency in Hz
-
-    phi: float
-          Faraday depth (rad/m^2)
-
-    Returns
-    -------
-    intergral_lim: complex
-                   intergral limit
-
-    """
-    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
-    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
-    funct3 = -1.0j + np.sign(phi)
-    funct4 = sp.special.erf(
-        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
-    )
-
-    intergral_lim = funct1 + (funct2 * funct3 * funct4)
-
-    return intergral_lim
-
-
-def rotation_operator(channel_width, channel_center, phi):
-    """Rotation operator for channel with top-hat-in-frequency sensitivity.
-    Computes the net effect on a polarization vector for a channel of given
-    center frequnecy and bandwidth, for a given RM.
-
-    Parameters
-    ----------
-    channel_width: float
-                   channel bandwidth in Hz
-
-    channel_center: float
-                    channel frequency in Hz
-
-    phi: float
-         channel frequency in hz
-
-    Returns
-    -------
-    (complex) rotation operator for that channel
-
-    """
-    b = channel_center + 0.5 * channel_width
-    a = channel_center - 0.5 * channel_width
-
-    int_a = rotation_integral_limit(a, phi)
-    int_b = rotation_integral_limit(b, phi)
-
-    return (1 / channel_width) * (int_b - int_a)
-
-
-def estimate_channel_bandwidth(freq_array):
-    """Estimates the bandwidth per channel given the spacing between channel
-    centers. Only looks at the first 2 channels.
-
-    Parameters
-    ----------
-    freq_array: array-like
-                array of channel centers
-
-    Returns
-    -------
-    ban: float
-         seperation between first two channel centers
-
-    """
-    ban = freq_array[1] - freq_array[0]
-    return ban
-
-
-def l2_to_freq_array(lambda_square_array):
-    """returns the freqency array, corresponding to a lambda square array"""
-
-    f = speed_of_light.value**2 / lambda_square_array
-    return np.sqrt(f)
-
-
-def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
-    """Calculates the theoretical sensitivity and noise for the adjoint method
-
-    Parameters
-    ----------
-    adjoint_vars: list
-                  list like object containing organized as
-                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    dQUArr: array like
-            array containing the error in Stokes Q, and U
-
-    show_progress: Boolean
-                   If set to True, shows progress, Default is False
-
-    log: function
-         logging function, default is print
-
-    Returns
-    -------
-    adjoint_info: list
-                  list containing phiArr, and the theoretical noise and
-                  sensitivity organized as
-                  [phiArr_radm2, adjoint_sens, adjoint_noise]
-
-    """
-
-    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
-    adjoint_noise = np.ones(len(phiArr_radm2))
-    adjoint_sens = np.ones(len(phiArr_radm2))
-
-    nPhi = len(phiArr_radm2)
-    if show_progress:
-        log("Calculating Theoretical Sensitivity & Noise")
-        progress(40, 0)
-    for i in range(nPhi):
-        if show_progress:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
-        adjoint_noise2 = (
-            np.nansum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
-            / np.sum(weightArr) ** 2
-        )  # equation 34
-        adjoint_noise[i] = np.sqrt(adjoint_noise2)
-
-        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
-
-    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
-    return adjoint_info
-
-
-def plot_adjoint_info(mylist, units="Jy/beam"):
-    """plots theoretical noise, sensitivity"""
-    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
-    fig.subplots_adjust(wspace=0.4, hspace=0.4)
-
-    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
-
-    ax[1].plot(
-        phiArr_radm2,
-        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
-    )
-    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[1].set_ylabel("S:N multiplier")
-    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
-    # plot 2
-    ax[0].plot(
-        phiArr_radm2,
-        adjoint_sens,
-    )
-    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
-    ax[0].set_ylabel("Sensitivity")
-    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
-    return
-
-
-# -----------------------------------------------------------------------------#
-
-
-def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
-    """Calculates the average analytic solution to the channel polarization
-    integral per channel
-
-    Based on equation 13 of Schnitzeler & Lee (2015)
-
-    Parameters
-    ----------
-    f: float
-       channel center frequency in Hz
-
-    ban: float
-         channel bandwidth in Hz
-
-    phi: float
-         Faraday depth value in rad/m^2
-
-    xi_knot: float
-             inital polarization angle in radians
-
-    p: float
-       polarzied intensity
-
-    Returns
-    -------
-    avg_p_tilda: complex
-                 the average complex polarization, for the bandwidth,
-                 real is Q, imaginary is U
-
-    """
-    a = f - (ban / 2)
-    b = f + (ban / 2)  # integral start and stop values
-
-    ya = rotation_integral_limit(
-        a,
-        phi,
-    )
-    yb = rotation_integral_limit(
-        b,
-        phi,
-    )
-
-    i = p * np.exp(2.0j * xi_knot) * (yb - ya)
-    avg_p_tilda = i / ban
-
-    return avg_p_tilda
-
-
-def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
-    """Farday thin simulated source of the same RM as the measured source,
-    with unit intensity
-
-    Parameters
-    ----------
-    peak_rm: float
-             peak in Faraday depth value (in rad/m^2) for sim
-
-    freqArr_hz: array like
-                frequency array (in Hz)
-
-    width_Hz: float
-              channel width in Hz
-
-    Returns
-    -------
-    data:
-         Dirty FDF for the simulated data formated as a list of arrays
-         [freq_Hz, q, u,  dq, du]
-
-    """
-    if widths_Hz is None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-
-    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
-    size_f = len(freqArr_Hz)
-    dq = np.ones(size_f)
-    du = np.ones(size_f)
-
-    # format  = [freq_Hz, q, u,  dq, du]
-    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
-    return data
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_tweakAxFormat(
-    ax,
-    pad=10,
-    loc="upper right",
-    linewidth=1,
-    ncol=1,
-    bbox_to_anchor=(1.00, 1.00),
-    showLeg=True,
-):
-    """Tweaks some default plotting parameters for the RMSF, returns ax"""
-    # Axis/tic formatting
-    ax.tick_params(pad=pad)
-    for line in ax.get_xticklines() + ax.get_yticklines():
-        line.set_markeredgewidth(linewidth)
-
-    # Legend formatting
-    if showLeg:
-        leg = ax.legend(
-            numpoints=1,
-            loc=loc,
-            shadow=False,
-            borderaxespad=0.3,
-            ncol=ncol,
-            bbox_to_anchor=bbox_to_anchor,
-        )
-        for t in leg.get_texts():
-            t.set_fontsize("small")
-        leg.get_frame().set_linewidth(0.5)
-        leg.get_frame().set_alpha(0.5)
-
-    return ax
-
-
-def gauss(p, peak_rm):
-    """Return a fucntion to evaluate a Gaussian with parameters
-    off set by peak_rm
-
-    Parameters
-    ----------
-    p: list
-       parameters for Gaussian, p = [ampplitude, mean, FWHM]
-
-    peak_rm: float
-             peak in Faraday depth (in rad/m^2), used to center Gaussian
-
-    Returns
-    -------
-    rfun: fuction
-          Gaussian with specified parameters, off set my peak_rm
-
-    """
-
-    a, b, w = p
-    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
-    s = w / gfactor
-
-    def rfunc(x):
-        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
-        return y
-
-    return rfunc
-
-
-def bwdepol_plot_RMSF_ax(
-    ax,
-    phiArr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    axisYright=False,
-    axisXtop=False,
-    doTitle=False,
-):
-    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
-
-    # Set the axis positions
-    if axisYright:
-        ax.yaxis.tick_right()
-        ax.yaxis.set_label_position("right")
-    if axisXtop:
-        ax.xaxis.tick_top()
-        ax.xaxis.set_label_position("top")
-
-    # Plot the RMSF
-    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
-    ax.step(
-        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
-    )
-    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
-    ax.axhline(0, color="grey")
-    if doTitle:
-        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
-
-    # Plot the Gaussian fit
-    if fwhmRMSF is not None:
-        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
-        ax.plot(
-            phiArr,
-            yGauss,
-            color="g",
-            marker="None",
-            mfc="w",
-            mec="g",
-            ms=10,
-            label="Gaussian",
-            lw=2.0,
-            ls="--",
-        )
-
-    # Scaling
-    ax.yaxis.set_major_locator(MaxNLocator(4))
-    ax.xaxis.set_major_locator(MaxNLocator(4))
-    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
-    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
-    ax.set_ylabel("Normalised Units")
-    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
-    ax.axhline(0, color="grey")
-
-    # Format tweaks
-    ax = bwdepol_tweakAxFormat(ax)
-    ax.autoscale_view(True, True, True)
-
-
-def bwdepol_plot_rmsf_fdf_fig(
-    phiArr,
-    FDF,
-    phi2Arr,
-    RMSFArr,
-    peak_rm,
-    fwhmRMSF=None,
-    gaussParm=[],
-    vLine=None,
-    fig=None,
-    units="flux units",
-):
-    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
-
-    # Default to a pyplot figure
-    if fig == None:
-        fig = plt.figure(figsize=(12.0, 8))
-    # Plot the RMSF
-    ax1 = fig.add_subplot(211)
-    bwdepol_plot_RMSF_ax(
-        ax=ax1,
-        phiArr=phi2Arr,
-        RMSFArr=RMSFArr,
-        peak_rm=peak_rm,
-        fwhmRMSF=fwhmRMSF,
-        doTitle=True,
-    )
-    [label.set_visible(False) for label in ax1.get_xticklabels()]
-    ax1.set_xlabel("")
-
-    ax2 = fig.add_subplot(212, sharex=ax1)
-    plot_dirtyFDF_ax(
-        ax=ax2,
-        phiArr=phiArr,
-        FDFArr=FDF,
-        gaussParm=gaussParm,
-        vLine=vLine,
-        doTitle=True,
-        units=units,
-    )
-    return fig
-
-
-# -----------------------------------------------------------------------------#
-# modified for adjoint
-def bwdepol_get_rmsf_planes(
-    freqArr_Hz,
-    widths_Hz,
-    phiArr_radm2,
-    peak_rm,
-    weightArr=None,
-    mskArr=None,
-    lam0Sq_m2=None,
-    double=True,
-    fitRMSF=True,
-    fitRMSFreal=False,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Calculate the Rotation Measure Spread Function from inputs. This version
-    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-    boolean mask array, where flagged data are True and unflagged data False.
-    If only whole planes (wavelength channels) are flagged then the RMSF is the
-    same for all pixels and the calculation is done once and replicated to the
-    dimensions of the mask. If some isolated voxels are flagged then the RMSF
-    is calculated by looping through each wavelength plane, which can take some
-    time. By default the routine returns the analytical width of the RMSF main
-    lobe but can also use MPFIT to fit a Gaussian.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-
-    Parameters
-    ----------
-    freqArr_Hz      ... vector of frequency values
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is no weighting
-    maskArr         ... cube of mask values used to shape return cube [None]
-    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
-    double          ... pad the Faraday depth to double-size [True]
-    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
-    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
-    nBits           ... precision of data arrays [64]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-
-    Returns
-    -------
-    RMSFcube: array
-              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
-              boolean mask array
-
-    phi2Arr: array
-             array of the Faraday Depth (in rad/m^2)
-
-    fwhmRMSFArr: array
-                 fwhm of the RMSF
-
-    statArr: array
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
-    if double:
-        nPhi = phiArr_radm2.shape[0]
-        nExt = np.ceil(nPhi / 2.0)
-        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
-        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
-    else:
-        phi2Arr = phiArr_radm2
-
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Set the mask array (default to 1D, no masked channels)
-    if mskArr is None:
-        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
-        nDims = 1
-    else:
-        mskArr = mskArr.astype("bool")
-        nDims = len(mskArr.shape)
-
-    # Sanity checks on array sizes
-    if not weightArr.shape == freqArr_Hz.shape:
-        log("Err: wavelength^2 and weight arrays must be the same shape.")
-        return None, None, None, None
-    if not nDims <= 3:
-        log("Err: mask dimensions must be <= 3.")
-        return None, None, None, None
-    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
-        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
-        (mskArr.shape[0], freqArr_Hz.shape[-1])
-        log("     Check that the mask is in [z, y, x] order.")
-        return None, None, None, None
-
-    # Reshape the mask array to 3 dimensions
-    if nDims == 1:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
-    elif nDims == 2:
-        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
-
-    # Initialise the complex RM Spread Function cube
-    nX = mskArr.shape[-1]
-    nY = mskArr.shape[-2]
-    nPix = nX * nY
-    nPhi = phi2Arr.shape[0]
-    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
-
-    # If full planes are flagged then set corresponding weights to zero
-    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
-    mskPlanes = np.where(xySum == nPix, 0, 1)
-    weightArr *= mskPlanes
-
-    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
-    flagTotals = np.unique(xySum).tolist()
-    try:
-        flagTotals.remove(0)
-    except Exception:
-        pass
-    try:
-        flagTotals.remove(nPix)
-    except Exception:
-        pass
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Calculate the analytical FWHM width of the main lobe
-    fwhmRMSF = (
-        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
-    )
-
-    # Create simulated data set with simRM = peakRM
-    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
-    # RMSFArr = fdf from bwdepol_simulation
-    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
-        freqArr_Hz,
-        RMSF_data[1],
-        RMSF_data[2],
-        phi2Arr,
-        widths_Hz=widths_Hz,
-        weightArr=weightArr,
-        lam0Sq_m2=lam0Sq_m2,
-        verbose=verbose,
-        log=print,
-    )
-
-    # Fit the RMSF main lobe
-    fitStatus = -1
-    if fitRMSF:
-        if verbose:
-            log("Fitting Gaussian to the main lobe.")
-        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
-        if mp is None or mp.status < 1:
-            pass
-            log("Err: failed to fit the RMSF.")
-            log("     Defaulting to analytical value.")
-        else:
-            fwhmRMSF = mp.params[2]
-            fitStatus = mp.status
-
-    # Replicate along X and Y axes
-    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
-    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
-    statArr = np.ones((nY, nX), dtype="int") * fitStatus
-
-    # Remove redundant dimensions
-    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
-    statArr = np.squeeze(statArr)
-    RMSFcube = RMSFcube.reshape(-1)
-
-    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
-
-
-# -----------------------------------------------------------------------------#
-def bwdepol_measure_FDF_parms(
-    FDF,
-    phiArr,
-    fwhmRMSF,
-    adjoint_sens,
-    adjoint_noise,
-    dFDF=None,
-    lamSqArr_m2=None,
-    lam0Sq=None,
-    snrDoBiasCorrect=5.0,
-):
-    """
-    Measure standard parameters from a complex Faraday Dispersion Function.
-    Currently this function assumes that the noise levels in the Stokes Q
-    and U spectra are the same.
-    Returns a dictionary containing measured parameters.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-    """
-
-    # Determine the peak channel in the FDF, its amplitude and index
-    absFDF = np.abs(FDF)
-    rm_fdf = (
-        absFDF / adjoint_noise
-    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
-    amp_fdf = (
-        absFDF / adjoint_sens
-    )  # RM spectrum normalized by (RM-dependent) sensitivity
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
-
-    # new theoretical dFDF correction for adjoint method
-    # This is noise in the adjoint-spectrum.
-    dFDF = adjoint_noise[indxPeakPIchan]
-
-    # This is the error in the amplitude (accounting for re-normalization)
-    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
-
-    # Measure the RMS noise in the spectrum after masking the peak
-    # changed all absFDF to rm_fdf
-    # Since this is normalized by theoretical noise, it's effectively testing
-    # the noise relative to the theoretical noise.
-    dPhi = np.nanmin(np.diff(phiArr))
-    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
-    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
-    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
-    absFDFmsked = rm_fdf.copy()
-    absFDFmsked[iL:iR] = np.nan
-    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
-    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
-        dFDFcorMAD = MAD(rm_fdf)
-    else:
-        dFDFcorMAD = MAD(absFDFmsked)
-
-    # The noise is re-normalized by the predicted noise at the peak RM.
-    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
-
-    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
-    varLamSqArr_m2 = (
-        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
-    ) / (nChansGood - 1)
-
-    # Determine the peak in the FDF, its amplitude and Phi using a
-    # 3-point parabolic interpolation
-    phiPeakPIfit = None
-    dPhiPeakPIfit = None
-    ampPeakPIfit = None
-    snrPIfit = None
-    ampPeakPIfitEff = None
-    indxPeakPIfit = None
-    peakFDFimagFit = None
-    peakFDFrealFit = None
-    polAngleFit_deg = None
-    dPolAngleFit_deg = None
-    polAngle0Fit_deg = None
-    dPolAngle0Fit_deg = None
-
-    # Only do the 3-point fit if peak is 1-channel from either edge
-    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
-        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
-            phiArr[indxPeakPIchan - 1],
-            amp_fdf[indxPeakPIchan - 1],
-            phiArr[indxPeakPIchan],
-            amp_fdf[indxPeakPIchan],
-            phiArr[indxPeakPIchan + 1],
-            amp_fdf[indxPeakPIchan + 1],
-        )
-
-        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
-
-        # Error on fitted Faraday depth (RM) is same as channel
-        # but using fitted PI
-        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
-
-        # Correct the peak for polarisation bias (POSSUM report 11)
-        ampPeakPIfitEff = ampPeakPIfit
-        if snrPIfit >= snrDoBiasCorrect:
-            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
-
-        # Calculate the polarisation angle from the fitted peak
-        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
-        indxPeakPIfit = np.interp(
-            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
-        )
-        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
-        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
-        polAngleFit_deg = (
-            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
-        )
-        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
-
-        # Calculate the derotated polarisation angle and uncertainty
-        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
-        polAngle0Fit_deg = (
-            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
-        ) % 180
-        dPolAngle0Fit_rad = np.sqrt(
-            nChansGood
-            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
-            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
-        )
-        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
-
-    # Store the measurements in a dictionary and return
-    mDict = {
-        "dFDFcorMAD": toscalar(dFDFcorMAD),
-        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
-        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
-        "ampPeakPIfit": toscalar(ampPeakPIfit),
-        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
-        "dAmpPeakPIfit": toscalar(dampPeakPI),
-        "snrPIfit": toscalar(snrPIfit),
-        "indxPeakPIfit": toscalar(indxPeakPIfit),
-        "peakFDFimagFit": toscalar(peakFDFimagFit),
-        "peakFDFrealFit": toscalar(peakFDFrealFit),
-        "polAngleFit_deg": toscalar(polAngleFit_deg),
-        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
-        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
-        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
-    }
-
-    return mDict
-
-
-# -----------------------------------------------------------------------------#
-def do_adjoint_rmsynth_planes(
-    freqArr_Hz,
-    dataQ,
-    dataU,
-    phiArr_radm2,
-    widths_Hz=None,
-    weightArr=None,
-    lam0Sq_m2=None,
-    nBits=64,
-    verbose=False,
-    log=print,
-):
-    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
-    of the routine loops through spectral planes and is faster than the pixel-
-    by-pixel code. This version also correctly deals with isolated clumps of
-    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
-    but possible in single-dish cubes). Input data must be in standard python
-    [z,y,x] order, where z is the frequency axis in ascending order.
-
-    This has been modified from the convientual RMtools_1D version for bwdepol
-
-    Parameters
-    ----------
-    dataQ           ... 1, 2 or 3D Stokes Q data array
-    dataU           ... 1, 2 or 3D Stokes U data array
-    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
-    phiArr_radm2    ... vector of trial Faraday depth values
-    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
-    nBits           ... precision of data arrays [32]
-    verbose         ... print feedback during calculation [False]
-    log             ... function to be used to output messages [print]
-
-    Returns
-    -------
-    FDFcube: array
-             Faraday Dispersion Function (FDF)
-
-    lam0Sq_m2: array
-               lam0Sq_m2 is the weighted mean of lambda^2 distribution
-               (B&dB Eqn. 32)
-
-    adjoint_vars: list
-                  information to generate theoretical noise, sensitivity
-                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
-                                  weightArr]
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    dtComplex = "complex" + str(2 * nBits)
-
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # Set the weight array
-    if weightArr is None:
-        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-
-    # Sanity check on array sizes
-    if not weightArr.shape == lambdaSqArr_m2.shape:
-        log("Err: Lambda^2 and weight arrays must be the same shape.")
-        return None, None
-    if not dataQ.shape == dataU.shape:
-        log("Err: Stokes Q and U data arrays must be the same shape.")
-        return None, None
-    nDims = len(dataQ.shape)
-    if not nDims <= 3:
-        log("Err: data dimensions must be <= 3.")
-        return None, None
-    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
-        log(
-            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
-                dataQ.shape[0], lambdaSqArr_m2.shape[0]
-            ),
-            end=" ",
-        )
-        log("     Check that data is in [z, y, x] order.")
-        return None, None
-
-    # Reshape the data arrays to 3 dimensions
-    if nDims == 1:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
-    elif nDims == 2:
-        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
-        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
-
-    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
-    # Array has dimensions [nFreq, nY, nX]
-    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
-
-    # Check for NaNs (flagged data) in the cube & set to zero
-    mskCube = np.isnan(pCube)
-    pCube = np.nan_to_num(pCube)
-
-    # If full planes are flagged then set corresponding weights to zero
-    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
-    mskPlanes = np.where(mskPlanes == 0, 0, 1)
-    weightArr *= mskPlanes
-
-    # Initialise the complex Faraday Dispersion Function cube
-    nX = dataQ.shape[-1]
-    nY = dataQ.shape[-2]
-    nPhi = phiArr_radm2.shape[0]
-    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
-
-    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
-    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
-    K = 1.0 / np.sum(weightArr)
-    if lam0Sq_m2 is None:
-        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
-
-    # The K value used to scale each FDF spectrum must take into account
-    # flagged voxels data in the datacube and can be position dependent
-    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
-    with np.errstate(divide="ignore", invalid="ignore"):
-        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
-        KArr[KArr == np.inf] = 0
-        KArr = np.nan_to_num(KArr)
-
-    # Do the RM-synthesis on each plane
-    if verbose:
-        log("Running RM-synthesis by channel.")
-        progress(40, 0)
-
-    # calculate channel widths if necessary
-    if widths_Hz is None:
-        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
-    for i in range(nPhi):
-        if verbose:
-            progress(40, ((i + 1) * 100.0 / nPhi))
-        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
-        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
-            :, np.newaxis, np.newaxis
-        ]
-        arg0 = pCube * cor * np.conj(r_i)
-        arg = arg0
-        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
-
-    # information to generate theoretical noise, sensitivity
-    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
-
-    # Remove redundant dimensions in the FDF array
-    FDFcube = np.squeeze(FDFcube)
-    return FDFcube, lam0Sq_m2, adjoint_vars
-
-
-# -----------------------------------------------------------------------------#
-def run_adjoint_rmsynth(
-    data,
-    polyOrd=3,
-    phiMax_radm2=None,
-    dPhi_radm2=None,
-    nSamples=10.0,
-    weightType="variance",
-    fitRMSF=True,
-    noStokesI=False,
-    phiNoise_radm2=1e6,
-    nBits=64,
-    showPlots=False,
-    debug=False,
-    verbose=False,
-    log=print,
-    units="Jy/beam",
-):
-    """Run bwdepol RM synthesis on 1D data.
-
-    Args:
-        data (list): Contains frequency and polarization data as either:
-            [freq_Hz, I, Q, U, dI, dQ, dU]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                I (array_like): Stokes I intensity in each channel.
-                Q (array_like): Stokes Q intensity in each channel.
-                U (array_like): Stokes U intensity in each channel.
-                dI (array_like): Error in Stokes I intensity in each channel.
-                dQ (array_like): Error in Stokes Q intensity in each channel.
-                dU (array_like): Error in Stokes U intensity in each channel.
-            or
-            [freq_Hz, q, u,  dq, du]
-                freq_Hz (array_like): Frequency of each channel in Hz.
-                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
-                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
-                dq (array_like): Error in fractional Stokes Q intensity in each channel.
-                du (array_like): Error in fractional Stokes U intensity in each channel.
-
-    Kwargs:
-        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
-        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
-        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
-        nSamples (float): Number of samples across the RMSF.
-        weightType (str): Can be "variance" or "uniform"
-            "variance" -- Weight by uncertainty in Q and U.
-            "uniform" -- Weight uniformly (i.e. with 1s)
-        fitRMSF (bool): Fit a Gaussian to the RMSF?
-        noStokesI (bool: Is Stokes I data provided?
-        phiNoise_radm2 (float): ????
-        nBits (int): Precision of floating point numbers.
-        showPlots (bool): Show plots?
-        debug (bool): Turn on debugging messages & plots?
-        verbose (bool): Verbosity.
-        log (function): Which logging function to use.
-        units (str): Units of data.
-
-    Returns:
-        mDict (dict): Summary of RM synthesis results.
-        aDict (dict): Data output by RM synthesis.
-
-    """
-
-    # Default data types
-    dtFloat = "float" + str(nBits)
-    #    dtComplex = "complex" + str(2*nBits)
-
-    # freq_Hz, I, Q, U, dI, dQ, dU
-    if data.shape[0] == 7:
-        if verbose:
-            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
-        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-        widths_Hz = None
-    elif data.shape[0] == 8:
-        if verbose:
-            log(
-                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
-    elif data.shape[0] == 6:
-        if verbose:
-            log(
-                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
-                end=" ",
-            )
-        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
-        noStokesI = True
-    elif data.shape[0] == 5:
-        if verbose:
-            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
-        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
-        widths_Hz = None
-        noStokesI = True
-    else:
-        log("Failed to read in data, aborting.")
-        if debug:
-            log(traceback.format_exc())
-        sys.exit()
-    if verbose:
-        log("Successfully read in the Stokes spectra.")
-
-    # If no Stokes I present, create a dummy spectrum = unity
-    if noStokesI:
-        if verbose:
-            log("Warn: no Stokes I data in use.")
-        IArr = np.ones_like(QArr)
-        dIArr = np.zeros_like(QArr)
-
-    dQUArr = (dQArr + dUArr) / 2.0
-
-    # Fit the Stokes I spectrum and create the fractional spectra
-    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
-        freqArr=freqArr_Hz,
-        IArr=IArr,
-        QArr=QArr,
-        UArr=UArr,
-        dIArr=dIArr,
-        dQArr=dQArr,
-        dUArr=dUArr,
-        polyOrd=polyOrd,
-        verbose=True,
-        debug=debug,
-    )
-
-    # Plot the data and the Stokes I model fit
-    if showPlots:
-        if verbose:
-            log("Plotting the input data and spectral index fit.")
-        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
-        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz)
-        specFig = plt.figure(figsize=(12.0, 8))
-        plot_Ipqu_spectra_fig(
-            freqArr_Hz=freqArr_Hz,
-            IArr=IArr,
-            qArr=qArr,
-            uArr=uArr,
-            dIArr=dIArr,
-            dqArr=dqArr,
-            duArr=duArr,
-            freqHirArr_Hz=freqHirArr_Hz,
-            IModArr=IModHirArr,
-            fig=specFig,
-            units=units,
-        )
-
-        # DEBUG (plot the Q, U and average RMS spectrum)
-        if debug:
-            rmsFig = plt.figure(figsize=(12.0, 8))
-            ax = rmsFig.add_subplot(111)
-            ax.plot(
-                freqArr_Hz / 1e9,
-                dQUArr,
-                marker="o",
-                color="k",
-                lw=0.5,
-                label="rms <QU>",
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
-            )
-            ax.plot(
-                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
-            )
-            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
-            ax.set_xlim(
-                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
-                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
-            )
-            ax.set_xlabel(r"$\nu$ (GHz)")
-            ax.set_ylabel("RMS " + units)
-            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
-
-    # Calculate some wavelength parameters
-    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
-    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
-    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
-    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
-    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
-
-    # Set the Faraday depth range
-    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
-    if dPhi_radm2 is None:
-        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
-    if phiMax_radm2 is None:
-        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
-        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
-
-    # Faraday depth sampling. Zero always centred on middle channel
-    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
-    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
-    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
-    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
-    if verbose:
-        log(
-            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
-            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
-        )
-
-    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
-    if weightType == "variance":
-        weightArr = 1.0 / np.power(dQUArr, 2.0)
-    else:
-        weightType = "uniform"
-        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
-    # Channels flagged in either Stokes Q or U are not used.
-    flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
-    weightArr = np.where(flagArr, 0.0, weightArr)
-    if verbose:
-        log("Weight type is '%s'." % weightType)
-
-    startTime = time.time()
-
-    # Perform adjoint RM-synthesis on the spectrum
-    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        dataQ=qArr,
-        dataU=uArr,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-    )
-
-    # generate adjoint_noise and adjoint__sens
-    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
-    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
-
-    # calculate peak RM
-    absFDF = np.abs(dirtyFDF)
-    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
-    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
-    peak_rm = phiArr_radm2[indxPeakPIchan]
-
-    # Calculate the Rotation Measure Spread Function
-    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
-        freqArr_Hz=freqArr_Hz,
-        widths_Hz=widths_Hz,
-        phiArr_radm2=phiArr_radm2,
-        weightArr=weightArr,
-        mskArr=flagArr,
-        lam0Sq_m2=lam0Sq_m2,
-        double=True,
-        fitRMSF=fitRMSF,
-        fitRMSFreal=False,
-        nBits=nBits,
-        verbose=verbose,
-        log=log,
-        peak_rm=peak_rm,
-    )
-    fwhmRMSF = float(fwhmRMSFArr)
-    endTime = time.time()
-    cputime = endTime - startTime
-    if verbose:
-        log("> RM-synthesis completed in %.2f seconds." % cputime)
-
-    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
-    # Multiply the dirty FDF by Ifreq0 to recover the PI
-    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
-    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
-    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
-
-    # Calculate the theoretical noise in the FDF !!
-    # Old formula only works for wariance weights!
-    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
-    dFDFth = np.sqrt(
-        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
-    )
-
-    # Measure the parameters of the dirty FDF
-    # Use the theoretical noise to calculate uncertainties
-
-    mDict = bwdepol_measure_FDF_parms(
-        FDF=dirtyFDF,
-        phiArr=phiArr_radm2,
-        fwhmRMSF=fwhmRMSF,
-        adjoint_sens=adjoint_sens,
-        adjoint_noise=adjoint_noise,
-        dFDF=dFDFth,
-        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],  # only channels in use
-        lam0Sq=lam0Sq_m2,
-    )
-
-    mDict["Ifreq0"] = toscalar(Ifreq0)
-    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
-    mDict["IfitStat"] = fit_result.fitStatus
-    mDict["IfitChiSqRed"] = fit_result.chiSqRed
-    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
-    mDict["freq0_Hz"] = toscalar(freq0_Hz)
-    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
-    mDict["dQU"] = toscalar(nanmedian(dQUArr))
-    mDict["dFDFth"] = toscalar(dFDFth)
-    mDict["units"] = units
-
-    if fit_result.fitStatus >= 128:
-        log("WARNING: Stokes I model contains negative values!")
-    elif fit_result.fitStatus >= 64:
-        log("Caution: Stokes I model has low signal-to-noise.")
-
-    # Add information on nature of channels:
-    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
-    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
-    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
-    mDict["N_channels"] = good_channels.size
-    if widths_Hz is not None:
-        mDict["median_channel_width"] = float(np.median(widths_Hz))
-    else:
-        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
-
-    # Measure the complexity of the q and u spectra
-    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
-    mD, pD = measure_qu_complexity(
-        freqArr_Hz=freqArr_Hz,
-        qArr=qArr,
-        uArr=uArr,
-        dqArr=dqArr,
-        duArr=duArr,
-        fracPol=mDict["fracPol"],
-        psi0_deg=mDict["polAngle0Fit_deg"],
-        RM_radm2=mDict["phiPeakPIfit_rm2"],
-    )
-    mDict.update(mD)
-
-    # Debugging plots for spectral complexity measure
-    if debug:
-        tmpFig = plot_complexity_fig(
-            xArr=pD["xArrQ"],
-            qArr=pD["yArrQ"],
-            dqArr=pD["dyArrQ"],
-            sigmaAddqArr=pD["sigmaAddArrQ"],
-            chiSqRedqArr=pD["chiSqRedArrQ"],
-            probqArr=pD["probArrQ"],
-            uArr=pD["yArrU"],
-            duArr=pD["dyArrU"],
-            sigmaAdduArr=pD["sigmaAddArrU"],
-            chiSqReduArr=pD["chiSqRedArrU"],
-            probuArr=pD["probArrU"],
-            mDict=mDict,
-        )
-        tmpFig.show()
-
-    # add array dictionary
-    aDict = dict()
-    aDict["phiArr_radm2"] = phiArr_radm2
-    aDict["phi2Arr_radm2"] = phi2Arr_radm2
-    aDict["RMSFArr"] = RMSFArr
-    aDict["freqArr_Hz"] = freqArr_Hz
-    aDict["weightArr"] = weightArr
-    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
-
-    if verbose:
-        # Print the results to the screen
-        log()
-        log("-" * 80)
-        log("RESULTS:\n")
-        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
-
-        log(
-            "Pol Angle = %.4g (+/-%.4g) deg"
-            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
-        )
-        log(
-            "Pol Angle 0 = %.4g (+/-%.4g) deg"
-            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
-        )
-        log(
-            "Peak FD = %.4g (+/-%.4g) rad/m^2"
-            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
-        )
-        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
-        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
-        log(
-            "Peak PI = %.4g (+/-%.4g) %s"
-            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
-        )
-        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
-        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
-        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
-        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
-        log(
-            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
-            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
-        )
-        log()
-        log("-" * 80)
-
-    # Plot the RM Spread Function and dirty FDF
-    if showPlots:
-        plot_adjoint_info(adjoint_info, units=units)
-        fdfFig = plt.figure(figsize=(12.0, 8))
-        bwdepol_plot_rmsf_fdf_fig(
-            phiArr=phiArr_radm2,
-            FDF=(dirtyFDF / adjoint_sens),
-            phi2Arr=phi2Arr_radm2,
-            RMSFArr=RMSFArr,
-            peak_rm=peak_rm,
-            fwhmRMSF=fwhmRMSF,
-            vLine=mDict["phiPeakPIfit_rm2"],
-            fig=fdfFig,
-            units=units,
-        )
-
-    if showPlots or debug:
-        plt.show()
-
-    return mDict, aDict
-
-
-# -----------------------------------------------------------------------------#
-def main():
-    """
-    Start the function to perform bwdepol RM-synthesis if called from the command line.
-    """
-
-    # Help string to be shown using the -h option
-    descStr = """
-    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
-    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
-
-    Behaves similarly to rmsynth1d except that the input file can optionally
-    contain a column with the channel widths in Hz. If this column is not
-    given, the channel widths will be assumed to be uniform and calculated
-    based on the difference between the frequencies of the first two channels.
-
-    The ASCII file requires one of the following column configurations,
-    depending on whether Stokes I and channel width information are available,
-    in a space separated format:
-    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
-    [freq_Hz, Q, U, Q_err, U_err]
-    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
-
-
-    To get outputs, one or more of the following flags must be set: -S, -p, -v.
-    """
-
-    epilog_text = """
-    Outputs with -S flag:
-    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
-    _RMSF.dat: Computed RMSF [Phi, Q, U]
-    _RMsynth.dat: list of derived parameters for RM spectrum
-                (approximately equivalent to -v flag output)
-    _RMsynth.json: dictionary of derived parameters for RM spectrum
-    _weight.dat: Calculated channel weights [freq_Hz, weight]
-    """
-
-    # Parse the command line options
-    parser = argparse.ArgumentParser(
-        description=descStr,
-        epilog=epilog_text,
-        formatter_class=argparse.RawTextHelpFormatter,
-    )
-    parser.add_argument(
-        "dataFile",
-        metavar="dataFile.dat",
-        nargs=1,
-        help="ASCII file containing Stokes spectra & errors.",
-    )
-    parser.add_argument(
-        "-t",
-        dest="fitRMSF",
-        action="store_false",
-        help="fit a Gaussian to the RMSF [True; set flag to disable]",
-    )
-    parser.add_argument(
-        "-l",
-        dest="phiMax_radm2",
-        type=float,
-        default=None,
-        help="absolute max Faraday depth sampled [Auto].",
-    )
-    parser.add_argument(
-        "-d",
-        dest="dPhi_radm2",
-        type=float,
-        default=None,
-        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
-    )
-    parser.add_argument(
-        "-s",
-        dest="nSamples",
-        type=float,
-        default=10,
-        help="number of samples across the RMSF lobe [10].",
-    )
-    parser.add_argument(
-        "-w",
-        dest="weightType",
-        default="variance",
-        help="weighting [inverse variance] or 'uniform' (all 1s).",
-    )
-    parser.add_argument(
-        "-o",
-        dest="polyOrd",
-        type=int,
-        default=2,
-        help="polynomial order to fit to I spectrum [2].",
-    )
-    parser.add_argument(
-        "-i",
-        dest="noStokesI",
-        action="store_true",
-        help="ignore the Stokes I spectrum [False].",
-    )
-    parser.add_argument(
-        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
-    )
-    parser.add_argument(
-        "-v", dest="verbose", action="store_true", help="verbose output [False]."
-    )
-    parser.add_argument(
-        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
-    )
-    parser.add_argument(
-        "-D",
-        dest="debug",
-        action="store_true",
-        help="turn on debugging messages & plots [False].",
-    )
-    parser.add_argument(
-        "-U",
-        dest="units",
-        type=str,
-        default="Jy/beam",
-        help="Intensity units of the data. [Jy/beam]",
-    )
-    args = parser.parse_args()
-
-    # Sanity checks
-    if not os.path.exists(args.dataFile[0]):
-        print("File does not exist: '%s'." % args.dataFile[0])
-        sys.exit()
-    prefixOut, ext = os.path.splitext(args.dataFile[0])
-    dataDir, dummy = os.path.split(args.dataFile[0])
-    # Set the floating point precision
-    nBits = 64
-
-    # Read in the data. Don't parse until inside the first function.
-    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
-
-    # Run (modified) RM-synthesis on the spectra
-    mDict, aDict = run_adjoint_rmsynth(
-        data=data,
-        polyOrd=args.polyOrd,
-        phiMax_radm2=args.phiMax_radm2,
-        dPhi_radm2=args.dPhi_radm2,
-        nSamples=args.nSamples,
-        weightType=args.weightType,
-        fitRMSF=args.fitRMSF,
-        noStokesI=args.noStokesI,
-        nBits=nBits,
-        showPlots=args.showPlots,
-        debug=args.debug,
-        verbose=args.verbose,
-        units=args.units,
-    )
-
-    if args.saveOutput:
-        saveOutput(mDict, aDict, prefixOut, args.verbose)
-
-
-# -----------------------------------------------------------------------------#
-if __name__ == "__main__":
-    main()
+#!/usr/bin/env python
+# =============================================================================#
+#                                                                             #
+# NAME:     rmtools_bwdepol.py                                                #
+#                                                                             #
+# PURPOSE: Algorithm for finding polarized sources while accounting for       #
+#          bandwidth depolarization.                                          #
+#                                                                             #
+# =============================================================================#
+#                                                                             #
+# The MIT License (MIT)                                                       #
+#                                                                             #
+# Copyright (c) 2020 Canadian Initiative for Radio Astronomy Data Analysis     #                                                                             #
+# Permission is hereby granted, free of charge, to any person obtaining a     #
+# copy of this software and associated documentation files (the "Software"),  #
+# to deal in the Software without restriction, including without limitation   #
+# the rights to use, copy, modify, merge, publish, distribute, sublicense,    #
+# and/or sell copies of the Software, and to permit persons to whom the       #
+# Software is furnished to do so, subject to the following conditions:        #
+#                                                                             #
+# The above copyright notice and this permission notice shall be included in  #
+# all copies or substantial portions of the Software.                         #
+#                                                                             #
+# THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND, EXPRESS OR  #
+# IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF MERCHANTABILITY,    #
+# FITNESS FOR A PARTICULAR PURPOSE AND NONINFRINGEMENT. IN NO EVENT SHALL THE #
+# AUTHORS OR COPYRIGHT HOLDERS BE LIABLE FOR ANY CLAIM, DAMAGES OR OTHER      #
+# LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING     #
+# FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER         #
+# DEALINGS IN THE SOFTWARE.                                                   #
+#                                                                             #
+# =============================================================================#
+
+import argparse
+import math as m
+import os
+import sys
+import time
+import traceback
+
+import matplotlib.pyplot as plt
+import numpy as np
+import scipy as sp
+from astropy.constants import c as speed_of_light
+from matplotlib.ticker import MaxNLocator
+
+from RMtools_1D.do_RMsynth_1D import saveOutput
+from RMutils.util_misc import (
+    MAD,
+    calculate_StokesI_model,
+    create_frac_spectra,
+    nanmedian,
+    progress,
+    toscalar,
+)
+from RMutils.util_plotTk import (
+    plot_complexity_fig,
+    plot_dirtyFDF_ax,
+    plot_Ipqu_spectra_fig,
+)
+from RMutils.util_RM import (
+    calc_parabola_vertex,
+    extrap,
+    fit_rmsf,
+    measure_qu_complexity,
+)
+
+if sys.version_info.major == 2:
+    print("RM-tools will no longer run with Python 2! Please use Python 3.")
+    exit()
+
+
+# -----------------------------------------------------------------------------#
+def rotation_integral_limit(freq, phi):
+    """Calculates the analytic solution to the channel polarization integral
+    at one limit frequency.
+
+    Parameters
+    ----------
+    freq: float
+          frequency in Hz
+
+    phi: float
+          Faraday depth (rad/m^2)
+
+    Returns
+    -------
+    intergral_lim: complex
+                   intergral limit
+
+    """
+    funct1 = freq * np.exp(2.0j * phi * ((speed_of_light.value / freq) ** 2))
+    funct2 = speed_of_light.value * np.sqrt((np.abs(phi) * np.pi))
+    funct3 = -1.0j + np.sign(phi)
+    funct4 = sp.special.erf(
+        np.sqrt(np.abs(phi)) * (speed_of_light.value / freq) * (-1.0j + np.sign(phi))
+    )
+
+    intergral_lim = funct1 + (funct2 * funct3 * funct4)
+
+    return intergral_lim
+
+
+def rotation_operator(channel_width, channel_center, phi):
+    """Rotation operator for channel with top-hat-in-frequency sensitivity.
+    Computes the net effect on a polarization vector for a channel of given
+    center frequnecy and bandwidth, for a given RM.
+
+    Parameters
+    ----------
+    channel_width: float
+                   channel bandwidth in Hz
+
+    channel_center: float
+                    channel frequency in Hz
+
+    phi: float
+         channel frequency in hz
+
+    Returns
+    -------
+    (complex) rotation operator for that channel
+
+    """
+    b = channel_center + 0.5 * channel_width
+    a = channel_center - 0.5 * channel_width
+
+    int_a = rotation_integral_limit(a, phi)
+    int_b = rotation_integral_limit(b, phi)
+
+    return (1 / channel_width) * (int_b - int_a)
+
+
+def estimate_channel_bandwidth(freq_array):
+    """Estimates the bandwidth per channel given the spacing between channel
+    centers. Only looks at the first 2 channels.
+
+    Parameters
+    ----------
+    freq_array: array-like
+                array of channel centers
+
+    Returns
+    -------
+    ban: float
+         seperation between first two channel centers
+
+    """
+    ban = freq_array[1] - freq_array[0]
+    return ban
+
+
+def l2_to_freq_array(lambda_square_array):
+    """returns the freqency array, corresponding to a lambda square array"""
+
+    f = speed_of_light.value**2 / lambda_square_array
+    return np.sqrt(f)
+
+
+def adjoint_theory(adjoint_vars, dQUArr, show_progress=False, log=print):
+    """Calculates the theoretical sensitivity and noise for the adjoint method
+
+    Parameters
+    ----------
+    adjoint_vars: list
+                  list like object containing organized as
+                  [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    dQUArr: array like
+            array containing the error in Stokes Q, and U
+
+    show_progress: Boolean
+                   If set to True, shows progress, Default is False
+
+    log: function
+         logging function, default is print
+
+    Returns
+    -------
+    adjoint_info: list
+                  list containing phiArr, and the theoretical noise and
+                  sensitivity organized as
+                  [phiArr_radm2, adjoint_sens, adjoint_noise]
+
+    """
+
+    widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr = adjoint_vars
+    adjoint_noise = np.ones(len(phiArr_radm2))
+    adjoint_sens = np.ones(len(phiArr_radm2))
+
+    nPhi = len(phiArr_radm2)
+    if show_progress:
+        log("Calculating Theoretical Sensitivity & Noise")
+        progress(40, 0)
+    for i in range(nPhi):
+        if show_progress:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])
+        adjoint_noise2 = (
+            np.nansum((weightArr * dQUArr) ** 2 * np.abs(r_i) ** 2)
+            / np.sum(weightArr) ** 2
+        )  # equation 34
+        adjoint_noise[i] = np.sqrt(adjoint_noise2)
+
+        adjoint_sens[i] = K * np.sum(weightArr * (np.abs(r_i) ** 2))
+
+    adjoint_info = [phiArr_radm2, adjoint_sens, adjoint_noise]
+    return adjoint_info
+
+
+def plot_adjoint_info(mylist, units="Jy/beam"):
+    """plots theoretical noise, sensitivity"""
+    fig, ax = plt.subplots(2, dpi=100, figsize=(12, 8))
+    fig.subplots_adjust(wspace=0.4, hspace=0.4)
+
+    [phiArr_radm2, adjoint_sens, adjoint_noise] = mylist
+
+    ax[1].plot(
+        phiArr_radm2,
+        adjoint_sens / adjoint_noise * np.max(adjoint_noise),
+    )
+    ax[1].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[1].set_ylabel("S:N multiplier")
+    ax[1].set_title("Theoretical S:N after bandwidth depolarization")
+    # plot 2
+    ax[0].plot(
+        phiArr_radm2,
+        adjoint_sens,
+    )
+    ax[0].set_xlabel(r"$\phi$ (rad m$^{-2}$)")
+    ax[0].set_ylabel("Sensitivity")
+    ax[0].set_title("Theoretical Sensitivity after bandwidth depolarization")
+    return
+
+
+# -----------------------------------------------------------------------------#
+
+
+def analytical_chan_pol(f, ban, phi, xi_knot=0, p=1):
+    """Calculates the average analytic solution to the channel polarization
+    integral per channel
+
+    Based on equation 13 of Schnitzeler & Lee (2015)
+
+    Parameters
+    ----------
+    f: float
+       channel center frequency in Hz
+
+    ban: float
+         channel bandwidth in Hz
+
+    phi: float
+         Faraday depth value in rad/m^2
+
+    xi_knot: float
+             inital polarization angle in radians
+
+    p: float
+       polarzied intensity
+
+    Returns
+    -------
+    avg_p_tilda: complex
+                 the average complex polarization, for the bandwidth,
+                 real is Q, imaginary is U
+
+    """
+    a = f - (ban / 2)
+    b = f + (ban / 2)  # integral start and stop values
+
+    ya = rotation_integral_limit(
+        a,
+        phi,
+    )
+    yb = rotation_integral_limit(
+        b,
+        phi,
+    )
+
+    i = p * np.exp(2.0j * xi_knot) * (yb - ya)
+    avg_p_tilda = i / ban
+
+    return avg_p_tilda
+
+
+def bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz):
+    """Farday thin simulated source of the same RM as the measured source,
+    with unit intensity
+
+    Parameters
+    ----------
+    peak_rm: float
+             peak in Faraday depth value (in rad/m^2) for sim
+
+    freqArr_hz: array like
+                frequency array (in Hz)
+
+    width_Hz: float
+              channel width in Hz
+
+    Returns
+    -------
+    data:
+         Dirty FDF for the simulated data formated as a list of arrays
+         [freq_Hz, q, u,  dq, du]
+
+    """
+    if widths_Hz is None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+
+    p_tilda = analytical_chan_pol(freqArr_Hz, widths_Hz, peak_rm)
+    size_f = len(freqArr_Hz)
+    dq = np.ones(size_f)
+    du = np.ones(size_f)
+
+    # format  = [freq_Hz, q, u,  dq, du]
+    data = [freqArr_Hz, np.real(p_tilda), np.imag(p_tilda), dq, du]
+    return data
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_tweakAxFormat(
+    ax,
+    pad=10,
+    loc="upper right",
+    linewidth=1,
+    ncol=1,
+    bbox_to_anchor=(1.00, 1.00),
+    showLeg=True,
+):
+    """Tweaks some default plotting parameters for the RMSF, returns ax"""
+    # Axis/tic formatting
+    ax.tick_params(pad=pad)
+    for line in ax.get_xticklines() + ax.get_yticklines():
+        line.set_markeredgewidth(linewidth)
+
+    # Legend formatting
+    if showLeg:
+        leg = ax.legend(
+            numpoints=1,
+            loc=loc,
+            shadow=False,
+            borderaxespad=0.3,
+            ncol=ncol,
+            bbox_to_anchor=bbox_to_anchor,
+        )
+        for t in leg.get_texts():
+            t.set_fontsize("small")
+        leg.get_frame().set_linewidth(0.5)
+        leg.get_frame().set_alpha(0.5)
+
+    return ax
+
+
+def gauss(p, peak_rm):
+    """Return a fucntion to evaluate a Gaussian with parameters
+    off set by peak_rm
+
+    Parameters
+    ----------
+    p: list
+       parameters for Gaussian, p = [ampplitude, mean, FWHM]
+
+    peak_rm: float
+             peak in Faraday depth (in rad/m^2), used to center Gaussian
+
+    Returns
+    -------
+    rfun: fuction
+          Gaussian with specified parameters, off set my peak_rm
+
+    """
+
+    a, b, w = p
+    gfactor = 2.0 * m.sqrt(2.0 * m.log(2.0))
+    s = w / gfactor
+
+    def rfunc(x):
+        y = a * np.exp(-((x - b - peak_rm) ** 2.0) / (2.0 * s**2.0))
+        return y
+
+    return rfunc
+
+
+def bwdepol_plot_RMSF_ax(
+    ax,
+    phiArr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    axisYright=False,
+    axisXtop=False,
+    doTitle=False,
+):
+    """Modified for bwdepol, Plots each ax for the RMSF plotting"""
+
+    # Set the axis positions
+    if axisYright:
+        ax.yaxis.tick_right()
+        ax.yaxis.set_label_position("right")
+    if axisXtop:
+        ax.xaxis.tick_top()
+        ax.xaxis.set_label_position("top")
+
+    # Plot the RMSF
+    ax.step(phiArr, RMSFArr.real, where="mid", color="tab:blue", lw=0.5, label="Real")
+    ax.step(
+        phiArr, RMSFArr.imag, where="mid", color="tab:red", lw=0.5, label="Imaginary"
+    )
+    ax.step(phiArr, np.abs(RMSFArr), where="mid", color="k", lw=1.0, label="PI")
+    ax.axhline(0, color="grey")
+    if doTitle:
+        ax.text(0.05, 0.84, "RMSF", transform=ax.transAxes)
+
+    # Plot the Gaussian fit
+    if fwhmRMSF is not None:
+        yGauss = np.max(np.abs(RMSFArr)) * gauss([1.0, 0.0, fwhmRMSF], peak_rm)(phiArr)
+        ax.plot(
+            phiArr,
+            yGauss,
+            color="g",
+            marker="None",
+            mfc="w",
+            mec="g",
+            ms=10,
+            label="Gaussian",
+            lw=2.0,
+            ls="--",
+        )
+
+    # Scaling
+    ax.yaxis.set_major_locator(MaxNLocator(4))
+    ax.xaxis.set_major_locator(MaxNLocator(4))
+    xRange = np.nanmax(phiArr) - np.nanmin(phiArr)
+    ax.set_xlim(np.nanmin(phiArr) - xRange * 0.01, np.nanmax(phiArr) + xRange * 0.01)
+    ax.set_ylabel("Normalised Units")
+    ax.set_xlabel(r"$\phi$ rad m$^{-2}$")
+    ax.axhline(0, color="grey")
+
+    # Format tweaks
+    ax = bwdepol_tweakAxFormat(ax)
+    ax.autoscale_view(True, True, True)
+
+
+def bwdepol_plot_rmsf_fdf_fig(
+    phiArr,
+    FDF,
+    phi2Arr,
+    RMSFArr,
+    peak_rm,
+    fwhmRMSF=None,
+    gaussParm=[],
+    vLine=None,
+    fig=None,
+    units="flux units",
+):
+    """Modified for bwdepol, Plot the RMSF and FDF on a single figure"""
+
+    # Default to a pyplot figure
+    if fig == None:
+        fig = plt.figure(figsize=(12.0, 8))
+    # Plot the RMSF
+    ax1 = fig.add_subplot(211)
+    bwdepol_plot_RMSF_ax(
+        ax=ax1,
+        phiArr=phi2Arr,
+        RMSFArr=RMSFArr,
+        peak_rm=peak_rm,
+        fwhmRMSF=fwhmRMSF,
+        doTitle=True,
+    )
+    [label.set_visible(False) for label in ax1.get_xticklabels()]
+    ax1.set_xlabel("")
+
+    ax2 = fig.add_subplot(212, sharex=ax1)
+    plot_dirtyFDF_ax(
+        ax=ax2,
+        phiArr=phiArr,
+        FDFArr=FDF,
+        gaussParm=gaussParm,
+        vLine=vLine,
+        doTitle=True,
+        units=units,
+    )
+    return fig
+
+
+# -----------------------------------------------------------------------------#
+# modified for adjoint
+def bwdepol_get_rmsf_planes(
+    freqArr_Hz,
+    widths_Hz,
+    phiArr_radm2,
+    peak_rm,
+    weightArr=None,
+    mskArr=None,
+    lam0Sq_m2=None,
+    double=True,
+    fitRMSF=True,
+    fitRMSFreal=False,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Calculate the Rotation Measure Spread Function from inputs. This version
+    returns a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+    boolean mask array, where flagged data are True and unflagged data False.
+    If only whole planes (wavelength channels) are flagged then the RMSF is the
+    same for all pixels and the calculation is done once and replicated to the
+    dimensions of the mask. If some isolated voxels are flagged then the RMSF
+    is calculated by looping through each wavelength plane, which can take some
+    time. By default the routine returns the analytical width of the RMSF main
+    lobe but can also use MPFIT to fit a Gaussian.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+
+    Parameters
+    ----------
+    freqArr_Hz      ... vector of frequency values
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is no weighting
+    maskArr         ... cube of mask values used to shape return cube [None]
+    lam0Sq_m2       ... force a reference lambda^2 value (def=calculate) [None]
+    double          ... pad the Faraday depth to double-size [True]
+    fitRMSF         ... fit the main lobe of the RMSF with a Gaussian [False]
+    fitRMSFreal     ... fit RMSF.real, rather than abs(RMSF) [False]
+    nBits           ... precision of data arrays [64]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+
+    Returns
+    -------
+    RMSFcube: array
+              a cube (1, 2 or 3D) of RMSF spectra based on the shape of a
+              boolean mask array
+
+    phi2Arr: array
+             array of the Faraday Depth (in rad/m^2)
+
+    fwhmRMSFArr: array
+                 fwhm of the RMSF
+
+    statArr: array
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    # For cleaning the RMSF should extend by 1/2 on each side in phi-space
+    if double:
+        nPhi = phiArr_radm2.shape[0]
+        nExt = np.ceil(nPhi / 2.0)
+        resampIndxArr = np.arange(2.0 * nExt + nPhi) - nExt
+        phi2Arr = extrap(resampIndxArr, np.arange(nPhi, dtype="int"), phiArr_radm2)
+    else:
+        phi2Arr = phiArr_radm2
+
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Set the mask array (default to 1D, no masked channels)
+    if mskArr is None:
+        mskArr = np.zeros_like(freqArr_Hz, dtype="bool")
+        nDims = 1
+    else:
+        mskArr = mskArr.astype("bool")
+        nDims = len(mskArr.shape)
+
+    # Sanity checks on array sizes
+    if not weightArr.shape == freqArr_Hz.shape:
+        log("Err: wavelength^2 and weight arrays must be the same shape.")
+        return None, None, None, None
+    if not nDims <= 3:
+        log("Err: mask dimensions must be <= 3.")
+        return None, None, None, None
+    if not mskArr.shape[0] == freqArr_Hz.shape[0]:
+        log("Err: mask depth does not match lambda^2 vector (%d vs %d).", end=" ")
+        (mskArr.shape[0], freqArr_Hz.shape[-1])
+        log("     Check that the mask is in [z, y, x] order.")
+        return None, None, None, None
+
+    # Reshape the mask array to 3 dimensions
+    if nDims == 1:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], 1, 1))
+    elif nDims == 2:
+        mskArr = np.reshape(mskArr, (mskArr.shape[0], mskArr.shape[1], 1))
+
+    # Initialise the complex RM Spread Function cube
+    nX = mskArr.shape[-1]
+    nY = mskArr.shape[-2]
+    nPix = nX * nY
+    nPhi = phi2Arr.shape[0]
+    RMSFcube = np.ones((nPhi, nY, nX), dtype=dtComplex)
+
+    # If full planes are flagged then set corresponding weights to zero
+    xySum = np.sum(np.sum(mskArr, axis=1), axis=1)
+    mskPlanes = np.where(xySum == nPix, 0, 1)
+    weightArr *= mskPlanes
+
+    # Check for isolated clumps of flags (# flags in a plane not 0 or nPix)
+    flagTotals = np.unique(xySum).tolist()
+    try:
+        flagTotals.remove(0)
+    except Exception:
+        pass
+    try:
+        flagTotals.remove(nPix)
+    except Exception:
+        pass
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Calculate the analytical FWHM width of the main lobe
+    fwhmRMSF = (
+        2.0 * m.sqrt(3.0) / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
+    )
+
+    # Create simulated data set with simRM = peakRM
+    RMSF_data = bwdepol_simulation(peak_rm, freqArr_Hz, widths_Hz)
+    # RMSFArr = fdf from bwdepol_simulation
+    RMSFArr, _, _ = do_adjoint_rmsynth_planes(
+        freqArr_Hz,
+        RMSF_data[1],
+        RMSF_data[2],
+        phi2Arr,
+        widths_Hz=widths_Hz,
+        weightArr=weightArr,
+        lam0Sq_m2=lam0Sq_m2,
+        verbose=verbose,
+        log=print,
+    )
+
+    # Fit the RMSF main lobe
+    fitStatus = -1
+    if fitRMSF:
+        if verbose:
+            log("Fitting Gaussian to the main lobe.")
+        mp = fit_rmsf(phi2Arr, np.abs(RMSFArr) / np.max(np.abs(RMSFArr)))
+        if mp is None or mp.status < 1:
+            pass
+            log("Err: failed to fit the RMSF.")
+            log("     Defaulting to analytical value.")
+        else:
+            fwhmRMSF = mp.params[2]
+            fitStatus = mp.status
+
+    # Replicate along X and Y axes
+    RMSFcube = np.tile(RMSFArr[:, np.newaxis, np.newaxis], (1, nY, nX))
+    fwhmRMSFArr = np.ones((nY, nX), dtype=dtFloat) * fwhmRMSF
+    statArr = np.ones((nY, nX), dtype="int") * fitStatus
+
+    # Remove redundant dimensions
+    fwhmRMSFArr = np.squeeze(fwhmRMSFArr)
+    statArr = np.squeeze(statArr)
+    RMSFcube = RMSFcube.reshape(-1)
+
+    return RMSFcube, phi2Arr, fwhmRMSFArr, statArr
+
+
+# -----------------------------------------------------------------------------#
+def bwdepol_measure_FDF_parms(
+    FDF,
+    phiArr,
+    fwhmRMSF,
+    adjoint_sens,
+    adjoint_noise,
+    dFDF=None,
+    lamSqArr_m2=None,
+    lam0Sq=None,
+    snrDoBiasCorrect=5.0,
+):
+    """
+    Measure standard parameters from a complex Faraday Dispersion Function.
+    Currently this function assumes that the noise levels in the Stokes Q
+    and U spectra are the same.
+    Returns a dictionary containing measured parameters.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+    """
+
+    # Determine the peak channel in the FDF, its amplitude and index
+    absFDF = np.abs(FDF)
+    rm_fdf = (
+        absFDF / adjoint_noise
+    )  # RM spectrum in S:N units (normalized by RM-dependent noise)
+    amp_fdf = (
+        absFDF / adjoint_sens
+    )  # RM spectrum normalized by (RM-dependent) sensitivity
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1  # Masks out the edge channels
+
+    # new theoretical dFDF correction for adjoint method
+    # This is noise in the adjoint-spectrum.
+    dFDF = adjoint_noise[indxPeakPIchan]
+
+    # This is the error in the amplitude (accounting for re-normalization)
+    dampPeakPI = dFDF / adjoint_sens[indxPeakPIchan]
+
+    # Measure the RMS noise in the spectrum after masking the peak
+    # changed all absFDF to rm_fdf
+    # Since this is normalized by theoretical noise, it's effectively testing
+    # the noise relative to the theoretical noise.
+    dPhi = np.nanmin(np.diff(phiArr))
+    fwhmRMSF_chan = np.ceil(fwhmRMSF / dPhi)
+    iL = int(max(0, indxPeakPIchan - fwhmRMSF_chan * 2))
+    iR = int(min(len(absFDF), indxPeakPIchan + fwhmRMSF_chan * 2))
+    absFDFmsked = rm_fdf.copy()
+    absFDFmsked[iL:iR] = np.nan
+    absFDFmsked = absFDFmsked[np.where(absFDFmsked == absFDFmsked)]
+    if float(len(absFDFmsked)) / len(absFDF) < 0.3:
+        dFDFcorMAD = MAD(rm_fdf)
+    else:
+        dFDFcorMAD = MAD(absFDFmsked)
+
+    # The noise is re-normalized by the predicted noise at the peak RM.
+    dFDFcorMAD = dFDFcorMAD * adjoint_noise[indxPeakPIchan]
+
+    nChansGood = np.sum(np.where(lamSqArr_m2 == lamSqArr_m2, 1.0, 0.0))
+    varLamSqArr_m2 = (
+        np.sum(lamSqArr_m2**2.0) - np.sum(lamSqArr_m2) ** 2.0 / nChansGood
+    ) / (nChansGood - 1)
+
+    # Determine the peak in the FDF, its amplitude and Phi using a
+    # 3-point parabolic interpolation
+    phiPeakPIfit = None
+    dPhiPeakPIfit = None
+    ampPeakPIfit = None
+    snrPIfit = None
+    ampPeakPIfitEff = None
+    indxPeakPIfit = None
+    peakFDFimagFit = None
+    peakFDFrealFit = None
+    polAngleFit_deg = None
+    dPolAngleFit_deg = None
+    polAngle0Fit_deg = None
+    dPolAngle0Fit_deg = None
+
+    # Only do the 3-point fit if peak is 1-channel from either edge
+    if indxPeakPIchan > 0 and indxPeakPIchan < len(FDF) - 1:
+        phiPeakPIfit, ampPeakPIfit = calc_parabola_vertex(
+            phiArr[indxPeakPIchan - 1],
+            amp_fdf[indxPeakPIchan - 1],
+            phiArr[indxPeakPIchan],
+            amp_fdf[indxPeakPIchan],
+            phiArr[indxPeakPIchan + 1],
+            amp_fdf[indxPeakPIchan + 1],
+        )
+
+        snrPIfit = ampPeakPIfit * adjoint_sens[indxPeakPIchan] / dFDF
+
+        # Error on fitted Faraday depth (RM) is same as channel
+        # but using fitted PI
+        dPhiPeakPIfit = fwhmRMSF / (2.0 * snrPIfit)
+
+        # Correct the peak for polarisation bias (POSSUM report 11)
+        ampPeakPIfitEff = ampPeakPIfit
+        if snrPIfit >= snrDoBiasCorrect:
+            ampPeakPIfitEff = np.sqrt(ampPeakPIfit**2.0 - 2.3 * dampPeakPI**2.0)
+
+        # Calculate the polarisation angle from the fitted peak
+        # Uncertainty from Eqn A.12 in Brentjens & De Bruyn 2005
+        indxPeakPIfit = np.interp(
+            phiPeakPIfit, phiArr, np.arange(phiArr.shape[-1], dtype="f4")
+        )
+        peakFDFimagFit = np.interp(phiPeakPIfit, phiArr, FDF.imag)
+        peakFDFrealFit = np.interp(phiPeakPIfit, phiArr, FDF.real)
+        polAngleFit_deg = (
+            0.5 * np.degrees(np.arctan2(peakFDFimagFit, peakFDFrealFit)) % 180
+        )
+        dPolAngleFit_deg = np.degrees(1 / (2.0 * snrPIfit))
+
+        # Calculate the derotated polarisation angle and uncertainty
+        # Uncertainty from Eqn A.20 in Brentjens & De Bruyn 2005
+        polAngle0Fit_deg = (
+            np.degrees(np.radians(polAngleFit_deg) - phiPeakPIfit * lam0Sq)
+        ) % 180
+        dPolAngle0Fit_rad = np.sqrt(
+            nChansGood
+            / (4.0 * (nChansGood - 2.0) * snrPIfit**2.0)
+            * ((nChansGood - 1) / nChansGood + lam0Sq**2.0 / varLamSqArr_m2)
+        )
+        dPolAngle0Fit_deg = np.degrees(dPolAngle0Fit_rad)
+
+    # Store the measurements in a dictionary and return
+    mDict = {
+        "dFDFcorMAD": toscalar(dFDFcorMAD),
+        "phiPeakPIfit_rm2": toscalar(phiPeakPIfit),
+        "dPhiPeakPIfit_rm2": toscalar(dPhiPeakPIfit),
+        "ampPeakPIfit": toscalar(ampPeakPIfit),
+        "ampPeakPIfitEff": toscalar(ampPeakPIfitEff),
+        "dAmpPeakPIfit": toscalar(dampPeakPI),
+        "snrPIfit": toscalar(snrPIfit),
+        "indxPeakPIfit": toscalar(indxPeakPIfit),
+        "peakFDFimagFit": toscalar(peakFDFimagFit),
+        "peakFDFrealFit": toscalar(peakFDFrealFit),
+        "polAngleFit_deg": toscalar(polAngleFit_deg),
+        "dPolAngleFit_deg": toscalar(dPolAngleFit_deg),
+        "polAngle0Fit_deg": toscalar(polAngle0Fit_deg),
+        "dPolAngle0Fit_deg": toscalar(dPolAngle0Fit_deg),
+    }
+
+    return mDict
+
+
+# -----------------------------------------------------------------------------#
+def do_adjoint_rmsynth_planes(
+    freqArr_Hz,
+    dataQ,
+    dataU,
+    phiArr_radm2,
+    widths_Hz=None,
+    weightArr=None,
+    lam0Sq_m2=None,
+    nBits=64,
+    verbose=False,
+    log=print,
+):
+    """Perform RM-synthesis on Stokes Q and U cubes (1,2 or 3D). This version
+    of the routine loops through spectral planes and is faster than the pixel-
+    by-pixel code. This version also correctly deals with isolated clumps of
+    NaN-flagged voxels within the data-cube (unlikely in interferometric cubes,
+    but possible in single-dish cubes). Input data must be in standard python
+    [z,y,x] order, where z is the frequency axis in ascending order.
+
+    This has been modified from the convientual RMtools_1D version for bwdepol
+
+    Parameters
+    ----------
+    dataQ           ... 1, 2 or 3D Stokes Q data array
+    dataU           ... 1, 2 or 3D Stokes U data array
+    lambdaSqArr_m2  ... vector of wavelength^2 values (assending freq order)
+    phiArr_radm2    ... vector of trial Faraday depth values
+    weightArr       ... vector of weights, default [None] is Uniform (all 1s)
+    nBits           ... precision of data arrays [32]
+    verbose         ... print feedback during calculation [False]
+    log             ... function to be used to output messages [print]
+
+    Returns
+    -------
+    FDFcube: array
+             Faraday Dispersion Function (FDF)
+
+    lam0Sq_m2: array
+               lam0Sq_m2 is the weighted mean of lambda^2 distribution
+               (B&dB Eqn. 32)
+
+    adjoint_vars: list
+                  information to generate theoretical noise, sensitivity
+                  adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K,
+                                  weightArr]
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    dtComplex = "complex" + str(2 * nBits)
+
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # Set the weight array
+    if weightArr is None:
+        weightArr = np.ones(lambdaSqArr_m2.shape, dtype=dtFloat)
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+
+    # Sanity check on array sizes
+    if not weightArr.shape == lambdaSqArr_m2.shape:
+        log("Err: Lambda^2 and weight arrays must be the same shape.")
+        return None, None
+    if not dataQ.shape == dataU.shape:
+        log("Err: Stokes Q and U data arrays must be the same shape.")
+        return None, None
+    nDims = len(dataQ.shape)
+    if not nDims <= 3:
+        log("Err: data dimensions must be <= 3.")
+        return None, None
+    if not dataQ.shape[0] == lambdaSqArr_m2.shape[0]:
+        log(
+            "Err: Data depth does not match lambda^2 vector ({} vs {}).".format(
+                dataQ.shape[0], lambdaSqArr_m2.shape[0]
+            ),
+            end=" ",
+        )
+        log("     Check that data is in [z, y, x] order.")
+        return None, None
+
+    # Reshape the data arrays to 3 dimensions
+    if nDims == 1:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], 1, 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], 1, 1))
+    elif nDims == 2:
+        dataQ = np.reshape(dataQ, (dataQ.shape[0], dataQ.shape[1], 1))
+        dataU = np.reshape(dataU, (dataU.shape[0], dataU.shape[1], 1))
+
+    # Create a complex polarised cube, B&dB Eqns. (8) and (14)
+    # Array has dimensions [nFreq, nY, nX]
+    pCube = (dataQ + 1j * dataU) * weightArr[:, np.newaxis, np.newaxis]
+
+    # Check for NaNs (flagged data) in the cube & set to zero
+    mskCube = np.isnan(pCube)
+    pCube = np.nan_to_num(pCube)
+
+    # If full planes are flagged then set corresponding weights to zero
+    mskPlanes = np.sum(np.sum(~mskCube, axis=1), axis=1)
+    mskPlanes = np.where(mskPlanes == 0, 0, 1)
+    weightArr *= mskPlanes
+
+    # Initialise the complex Faraday Dispersion Function cube
+    nX = dataQ.shape[-1]
+    nY = dataQ.shape[-2]
+    nPhi = phiArr_radm2.shape[0]
+    FDFcube = np.zeros((nPhi, nY, nX), dtype=dtComplex)
+
+    # lam0Sq_m2 is the weighted mean of lambda^2 distribution (B&dB Eqn. 32)
+    # Calculate a global lam0Sq_m2 value, ignoring isolated flagged voxels
+    K = 1.0 / np.sum(weightArr)
+    if lam0Sq_m2 is None:
+        lam0Sq_m2 = K * np.sum(weightArr * lambdaSqArr_m2)
+
+    # The K value used to scale each FDF spectrum must take into account
+    # flagged voxels data in the datacube and can be position dependent
+    weightCube = np.invert(mskCube) * weightArr[:, np.newaxis, np.newaxis]
+    with np.errstate(divide="ignore", invalid="ignore"):
+        KArr = np.true_divide(1.0, np.sum(weightCube, axis=0))
+        KArr[KArr == np.inf] = 0
+        KArr = np.nan_to_num(KArr)
+
+    # Do the RM-synthesis on each plane
+    if verbose:
+        log("Running RM-synthesis by channel.")
+        progress(40, 0)
+
+    # calculate channel widths if necessary
+    if widths_Hz is None:
+        widths_Hz = estimate_channel_bandwidth(freqArr_Hz)
+    for i in range(nPhi):
+        if verbose:
+            progress(40, ((i + 1) * 100.0 / nPhi))
+        cor = np.exp(2j * phiArr_radm2[i] * lam0Sq_m2)
+        r_i = rotation_operator(widths_Hz, freqArr_Hz, phiArr_radm2[i])[
+            :, np.newaxis, np.newaxis
+        ]
+        arg0 = pCube * cor * np.conj(r_i)
+        arg = arg0
+        FDFcube[i, :, :] = KArr * np.sum(arg, axis=0)
+
+    # information to generate theoretical noise, sensitivity
+    adjoint_vars = [widths_Hz, freqArr_Hz, phiArr_radm2, K, weightArr]
+
+    # Remove redundant dimensions in the FDF array
+    FDFcube = np.squeeze(FDFcube)
+    return FDFcube, lam0Sq_m2, adjoint_vars
+
+
+# -----------------------------------------------------------------------------#
+def run_adjoint_rmsynth(
+    data,
+    polyOrd=3,
+    phiMax_radm2=None,
+    dPhi_radm2=None,
+    nSamples=10.0,
+    weightType="variance",
+    fitRMSF=True,
+    noStokesI=False,
+    phiNoise_radm2=1e6,
+    nBits=64,
+    showPlots=False,
+    debug=False,
+    verbose=False,
+    log=print,
+    units="Jy/beam",
+):
+    """Run bwdepol RM synthesis on 1D data.
+
+    Args:
+        data (list): Contains frequency and polarization data as either:
+            [freq_Hz, I, Q, U, dI, dQ, dU]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                I (array_like): Stokes I intensity in each channel.
+                Q (array_like): Stokes Q intensity in each channel.
+                U (array_like): Stokes U intensity in each channel.
+                dI (array_like): Error in Stokes I intensity in each channel.
+                dQ (array_like): Error in Stokes Q intensity in each channel.
+                dU (array_like): Error in Stokes U intensity in each channel.
+            or
+            [freq_Hz, q, u,  dq, du]
+                freq_Hz (array_like): Frequency of each channel in Hz.
+                q (array_like): Fractional Stokes Q intensity (Q/I) in each channel.
+                u (array_like): Fractional Stokes U intensity (U/I) in each channel.
+                dq (array_like): Error in fractional Stokes Q intensity in each channel.
+                du (array_like): Error in fractional Stokes U intensity in each channel.
+
+    Kwargs:
+        polyOrd (int): Order of polynomial to fit to Stokes I spectrum.
+        phiMax_radm2 (float): Maximum absolute Faraday depth (rad/m^2).
+        dPhi_radm2 (float): Faraday depth channel size (rad/m^2).
+        nSamples (float): Number of samples across the RMSF.
+        weightType (str): Can be "variance" or "uniform"
+            "variance" -- Weight by uncertainty in Q and U.
+            "uniform" -- Weight uniformly (i.e. with 1s)
+        fitRMSF (bool): Fit a Gaussian to the RMSF?
+        noStokesI (bool: Is Stokes I data provided?
+        phiNoise_radm2 (float): ????
+        nBits (int): Precision of floating point numbers.
+        showPlots (bool): Show plots?
+        debug (bool): Turn on debugging messages & plots?
+        verbose (bool): Verbosity.
+        log (function): Which logging function to use.
+        units (str): Units of data.
+
+    Returns:
+        mDict (dict): Summary of RM synthesis results.
+        aDict (dict): Data output by RM synthesis.
+
+    """
+
+    # Default data types
+    dtFloat = "float" + str(nBits)
+    #    dtComplex = "complex" + str(2*nBits)
+
+    # freq_Hz, I, Q, U, dI, dQ, dU
+    if data.shape[0] == 7:
+        if verbose:
+            log("> Seven columns found, trying [freq_Hz, I, Q, U, dI, dQ, dU]", end=" ")
+        freqArr_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+        widths_Hz = None
+    elif data.shape[0] == 8:
+        if verbose:
+            log(
+                "> Eight columns found, trying [freq_Hz, widths_Hz, I, Q, U, dI, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, IArr, QArr, UArr, dIArr, dQArr, dUArr = data
+    elif data.shape[0] == 6:
+        if verbose:
+            log(
+                "> Six columns found, trying [freq_Hz, widths_Hz, Q, U, dQ, dU]",
+                end=" ",
+            )
+        freqArr_Hz, widths_Hz, QArr, UArr, dQArr, dUArr = data
+        noStokesI = True
+    elif data.shape[0] == 5:
+        if verbose:
+            log("> Five columns found, trying [freq_Hz, Q, U, dQ, dU]", end=" ")
+        freqArr_Hz, QArr, UArr, dQArr, dUArr = data
+        widths_Hz = None
+        noStokesI = True
+    else:
+        log("Failed to read in data, aborting.")
+        if debug:
+            log(traceback.format_exc())
+        sys.exit()
+    if verbose:
+        log("Successfully read in the Stokes spectra.")
+
+    # If no Stokes I present, create a dummy spectrum = unity
+    if noStokesI:
+        if verbose:
+            log("Warn: no Stokes I data in use.")
+        IArr = np.ones_like(QArr)
+        dIArr = np.zeros_like(QArr)
+
+    dQUArr = (dQArr + dUArr) / 2.0
+
+    # Fit the Stokes I spectrum and create the fractional spectra
+    IModArr, qArr, uArr, dqArr, duArr, fit_result = create_frac_spectra(
+        freqArr=freqArr_Hz,
+        IArr=IArr,
+        QArr=QArr,
+        UArr=UArr,
+        dIArr=dIArr,
+        dQArr=dQArr,
+        dUArr=dUArr,
+        polyOrd=polyOrd,
+        verbose=True,
+        debug=debug,
+    )
+
+    # Plot the data and the Stokes I model fit
+    if showPlots:
+        if verbose:
+            log("Plotting the input data and spectral index fit.")
+        freqHirArr_Hz = np.linspace(freqArr_Hz[0], freqArr_Hz[-1], 10000)
+        IModHirArr = calculate_StokesI_model(fit_result, freqHirArr_Hz)
+        specFig = plt.figure(figsize=(12.0, 8))
+        plot_Ipqu_spectra_fig(
+            freqArr_Hz=freqArr_Hz,
+            IArr=IArr,
+            qArr=qArr,
+            uArr=uArr,
+            dIArr=dIArr,
+            dqArr=dqArr,
+            duArr=duArr,
+            freqHirArr_Hz=freqHirArr_Hz,
+            IModArr=IModHirArr,
+            fig=specFig,
+            units=units,
+        )
+
+        # DEBUG (plot the Q, U and average RMS spectrum)
+        if debug:
+            rmsFig = plt.figure(figsize=(12.0, 8))
+            ax = rmsFig.add_subplot(111)
+            ax.plot(
+                freqArr_Hz / 1e9,
+                dQUArr,
+                marker="o",
+                color="k",
+                lw=0.5,
+                label="rms <QU>",
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dQArr, marker="o", color="b", lw=0.5, label="rms Q"
+            )
+            ax.plot(
+                freqArr_Hz / 1e9, dUArr, marker="o", color="r", lw=0.5, label="rms U"
+            )
+            xRange = (np.nanmax(freqArr_Hz) - np.nanmin(freqArr_Hz)) / 1e9
+            ax.set_xlim(
+                np.min(freqArr_Hz) / 1e9 - xRange * 0.05,
+                np.max(freqArr_Hz) / 1e9 + xRange * 0.05,
+            )
+            ax.set_xlabel(r"$\nu$ (GHz)")
+            ax.set_ylabel("RMS " + units)
+            ax.set_title("RMS noise in Stokes Q, U and <Q,U> spectra")
+
+    # Calculate some wavelength parameters
+    lambdaSqArr_m2 = np.power(speed_of_light.value / freqArr_Hz, 2.0)
+    # dFreq_Hz = np.nanmin(np.abs(np.diff(freqArr_Hz)))
+    lambdaSqRange_m2 = np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2)
+    # dLambdaSqMin_m2 = np.nanmin(np.abs(np.diff(lambdaSqArr_m2)))
+    dLambdaSqMax_m2 = np.nanmax(np.abs(np.diff(lambdaSqArr_m2)))
+
+    # Set the Faraday depth range
+    fwhmRMSF_radm2 = 2.0 * m.sqrt(3.0) / lambdaSqRange_m2
+    if dPhi_radm2 is None:
+        dPhi_radm2 = fwhmRMSF_radm2 / nSamples
+    if phiMax_radm2 is None:
+        phiMax_radm2 = m.sqrt(3.0) / dLambdaSqMax_m2
+        phiMax_radm2 = max(phiMax_radm2, 600.0)  # Force the minimum phiMax
+
+    # Faraday depth sampling. Zero always centred on middle channel
+    nChanRM = int(round(abs((phiMax_radm2 - 0.0) / dPhi_radm2)) * 2.0 + 1.0)
+    startPhi_radm2 = -(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    stopPhi_radm2 = +(nChanRM - 1.0) * dPhi_radm2 / 2.0
+    phiArr_radm2 = np.linspace(startPhi_radm2, stopPhi_radm2, nChanRM)
+    phiArr_radm2 = phiArr_radm2.astype(dtFloat)
+    if verbose:
+        log(
+            "PhiArr = %.2f to %.2f by %.2f (%d chans)."
+            % (phiArr_radm2[0], phiArr_radm2[-1], float(dPhi_radm2), nChanRM)
+        )
+
+    # Calculate the weighting as 1/sigma^2 or all 1s (uniform)
+    if weightType == "variance":
+        weightArr = 1.0 / np.power(dQUArr, 2.0)
+    else:
+        weightType = "uniform"
+        weightArr = np.ones(freqArr_Hz.shape, dtype=dtFloat)
+    # Channels flagged in either Stokes Q or U are not used.
+    flagArr = ~(np.isfinite(qArr) & np.isfinite(uArr))
+    weightArr = np.where(flagArr, 0.0, weightArr)
+    if verbose:
+        log("Weight type is '%s'." % weightType)
+
+    startTime = time.time()
+
+    # Perform adjoint RM-synthesis on the spectrum
+    dirtyFDF, lam0Sq_m2, adjoint_vars = do_adjoint_rmsynth_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        dataQ=qArr,
+        dataU=uArr,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+    )
+
+    # generate adjoint_noise and adjoint__sens
+    adjoint_info = adjoint_theory(adjoint_vars, dQUArr, show_progress=False)
+    phiArr_radm2, adjoint_sens, adjoint_noise = adjoint_info
+
+    # calculate peak RM
+    absFDF = np.abs(dirtyFDF)
+    rm_fdf = absFDF / adjoint_noise  # used for finding peak in RM
+    indxPeakPIchan = np.nanargmax(rm_fdf[1:-1]) + 1
+    peak_rm = phiArr_radm2[indxPeakPIchan]
+
+    # Calculate the Rotation Measure Spread Function
+    RMSFArr, phi2Arr_radm2, fwhmRMSFArr, fitStatArr = bwdepol_get_rmsf_planes(
+        freqArr_Hz=freqArr_Hz,
+        widths_Hz=widths_Hz,
+        phiArr_radm2=phiArr_radm2,
+        weightArr=weightArr,
+        mskArr=flagArr,
+        lam0Sq_m2=lam0Sq_m2,
+        double=True,
+        fitRMSF=fitRMSF,
+        fitRMSFreal=False,
+        nBits=nBits,
+        verbose=verbose,
+        log=log,
+        peak_rm=peak_rm,
+    )
+    fwhmRMSF = float(fwhmRMSFArr)
+    endTime = time.time()
+    cputime = endTime - startTime
+    if verbose:
+        log("> RM-synthesis completed in %.2f seconds." % cputime)
+
+    # Determine the Stokes I value at lam0Sq_m2 from the Stokes I model
+    # Multiply the dirty FDF by Ifreq0 to recover the PI
+    freq0_Hz = speed_of_light.value / m.sqrt(lam0Sq_m2)
+    Ifreq0 = calculate_StokesI_model(fit_result, freq0_Hz)
+    dirtyFDF *= Ifreq0  # FDF is in fracpol units initially, convert back to flux
+
+    # Calculate the theoretical noise in the FDF !!
+    # Old formula only works for wariance weights!
+    weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
+    dFDFth = np.sqrt(
+        np.sum(weightArr**2 * np.nan_to_num(dQUArr) ** 2) / (np.sum(weightArr)) ** 2
+    )
+
+    # Measure the parameters of the dirty FDF
+    # Use the theoretical noise to calculate uncertainties
+
+    mDict = bwdepol_measure_FDF_parms(
+        FDF=dirtyFDF,
+        phiArr=phiArr_radm2,
+        fwhmRMSF=fwhmRMSF,
+        adjoint_sens=adjoint_sens,
+        adjoint_noise=adjoint_noise,
+        dFDF=dFDFth,
+        lamSqArr_m2=lambdaSqArr_m2[weightArr > 0],  # only channels in use
+        lam0Sq=lam0Sq_m2,
+    )
+
+    mDict["Ifreq0"] = toscalar(Ifreq0)
+    mDict["polyCoeffs"] = ",".join([str(x) for x in fit_result.params])
+    mDict["IfitStat"] = fit_result.fitStatus
+    mDict["IfitChiSqRed"] = fit_result.chiSqRed
+    mDict["lam0Sq_m2"] = toscalar(lam0Sq_m2)
+    mDict["freq0_Hz"] = toscalar(freq0_Hz)
+    mDict["fwhmRMSF"] = toscalar(fwhmRMSF)
+    mDict["dQU"] = toscalar(nanmedian(dQUArr))
+    mDict["dFDFth"] = toscalar(dFDFth)
+    mDict["units"] = units
+
+    if fit_result.fitStatus >= 128:
+        log("WARNING: Stokes I model contains negative values!")
+    elif fit_result.fitStatus >= 64:
+        log("Caution: Stokes I model has low signal-to-noise.")
+
+    # Add information on nature of channels:
+    good_channels = np.where(np.logical_and(weightArr != 0, np.isfinite(qArr)))[0]
+    mDict["min_freq"] = float(np.min(freqArr_Hz[good_channels]))
+    mDict["max_freq"] = float(np.max(freqArr_Hz[good_channels]))
+    mDict["N_channels"] = good_channels.size
+    if widths_Hz is not None:
+        mDict["median_channel_width"] = float(np.median(widths_Hz))
+    else:
+        mDict["median_channel_width"] = float(np.median(np.diff(freqArr_Hz)))
+
+    # Measure the complexity of the q and u spectra
+    mDict["fracPol"] = mDict["ampPeakPIfit"] / (Ifreq0)
+    mD, pD = measure_qu_complexity(
+        freqArr_Hz=freqArr_Hz,
+        qArr=qArr,
+        uArr=uArr,
+        dqArr=dqArr,
+        duArr=duArr,
+        fracPol=mDict["fracPol"],
+        psi0_deg=mDict["polAngle0Fit_deg"],
+        RM_radm2=mDict["phiPeakPIfit_rm2"],
+    )
+    mDict.update(mD)
+
+    # Debugging plots for spectral complexity measure
+    if debug:
+        tmpFig = plot_complexity_fig(
+            xArr=pD["xArrQ"],
+            qArr=pD["yArrQ"],
+            dqArr=pD["dyArrQ"],
+            sigmaAddqArr=pD["sigmaAddArrQ"],
+            chiSqRedqArr=pD["chiSqRedArrQ"],
+            probqArr=pD["probArrQ"],
+            uArr=pD["yArrU"],
+            duArr=pD["dyArrU"],
+            sigmaAdduArr=pD["sigmaAddArrU"],
+            chiSqReduArr=pD["chiSqRedArrU"],
+            probuArr=pD["probArrU"],
+            mDict=mDict,
+        )
+        tmpFig.show()
+
+    # add array dictionary
+    aDict = dict()
+    aDict["phiArr_radm2"] = phiArr_radm2
+    aDict["phi2Arr_radm2"] = phi2Arr_radm2
+    aDict["RMSFArr"] = RMSFArr
+    aDict["freqArr_Hz"] = freqArr_Hz
+    aDict["weightArr"] = weightArr
+    aDict["dirtyFDF"] = dirtyFDF / adjoint_sens
+
+    if verbose:
+        # Print the results to the screen
+        log()
+        log("-" * 80)
+        log("RESULTS:\n")
+        log("FWHM RMSF = %.4g rad/m^2" % (mDict["fwhmRMSF"]))
+
+        log(
+            "Pol Angle = %.4g (+/-%.4g) deg"
+            % (mDict["polAngleFit_deg"], mDict["dPolAngleFit_deg"])
+        )
+        log(
+            "Pol Angle 0 = %.4g (+/-%.4g) deg"
+            % (mDict["polAngle0Fit_deg"], mDict["dPolAngle0Fit_deg"])
+        )
+        log(
+            "Peak FD = %.4g (+/-%.4g) rad/m^2"
+            % (mDict["phiPeakPIfit_rm2"], mDict["dPhiPeakPIfit_rm2"])
+        )
+        log("freq0_GHz = %.4g " % (mDict["freq0_Hz"] / 1e9))
+        log("I freq0 = %.4g %s" % (mDict["Ifreq0"], units))
+        log(
+            "Peak PI = %.4g (+/-%.4g) %s"
+            % (mDict["ampPeakPIfit"], mDict["dAmpPeakPIfit"], units)
+        )
+        log("QU Noise = %.4g %s" % (mDict["dQU"], units))
+        log("FDF Noise (theory)   = %.4g %s" % (mDict["dFDFth"], units))
+        log("FDF Noise (Corrected MAD) = %.4g %s" % (mDict["dFDFcorMAD"], units))
+        log("FDF SNR = %.4g " % (mDict["snrPIfit"]))
+        log(
+            "sigma_add (combined) = %.4g (+%.4g, -%.4g)"
+            % (mDict["sigmaAddC"], mDict["dSigmaAddPlusC"], mDict["dSigmaAddMinusC"])
+        )
+        log()
+        log("-" * 80)
+
+    # Plot the RM Spread Function and dirty FDF
+    if showPlots:
+        plot_adjoint_info(adjoint_info, units=units)
+        fdfFig = plt.figure(figsize=(12.0, 8))
+        bwdepol_plot_rmsf_fdf_fig(
+            phiArr=phiArr_radm2,
+            FDF=(dirtyFDF / adjoint_sens),
+            phi2Arr=phi2Arr_radm2,
+            RMSFArr=RMSFArr,
+            peak_rm=peak_rm,
+            fwhmRMSF=fwhmRMSF,
+            vLine=mDict["phiPeakPIfit_rm2"],
+            fig=fdfFig,
+            units=units,
+        )
+
+    if showPlots or debug:
+        plt.show()
+
+    return mDict, aDict
+
+
+# -----------------------------------------------------------------------------#
+def main():
+    """
+    Start the function to perform bwdepol RM-synthesis if called from the command line.
+    """
+
+    # Help string to be shown using the -h option
+    descStr = """
+    Run bandwidth-depolarization-corrected RM-synthesis (based on Fine et al 2022)
+    on Stokes I, Q and U spectra (1D) stored in an ASCII file.
+
+    Behaves similarly to rmsynth1d except that the input file can optionally
+    contain a column with the channel widths in Hz. If this column is not
+    given, the channel widths will be assumed to be uniform and calculated
+    based on the difference between the frequencies of the first two channels.
+
+    The ASCII file requires one of the following column configurations,
+    depending on whether Stokes I and channel width information are available,
+    in a space separated format:
+    [freq_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, widths_Hz, I, Q, U, I_err, Q_err, U_err]
+    [freq_Hz, Q, U, Q_err, U_err]
+    [freq_Hz, widths_Hz, Q, U, Q_err, U_err]
+
+
+    To get outputs, one or more of the following flags must be set: -S, -p, -v.
+    """
+
+    epilog_text = """
+    Outputs with -S flag:
+    _FDFdirty.dat: Dirty FDF/RM Spectrum [Phi, Q, U]
+    _RMSF.dat: Computed RMSF [Phi, Q, U]
+    _RMsynth.dat: list of derived parameters for RM spectrum
+                (approximately equivalent to -v flag output)
+    _RMsynth.json: dictionary of derived parameters for RM spectrum
+    _weight.dat: Calculated channel weights [freq_Hz, weight]
+    """
+
+    # Parse the command line options
+    parser = argparse.ArgumentParser(
+        description=descStr,
+        epilog=epilog_text,
+        formatter_class=argparse.RawTextHelpFormatter,
+    )
+    parser.add_argument(
+        "dataFile",
+        metavar="dataFile.dat",
+        nargs=1,
+        help="ASCII file containing Stokes spectra & errors.",
+    )
+    parser.add_argument(
+        "-t",
+        dest="fitRMSF",
+        action="store_false",
+        help="fit a Gaussian to the RMSF [True; set flag to disable]",
+    )
+    parser.add_argument(
+        "-l",
+        dest="phiMax_radm2",
+        type=float,
+        default=None,
+        help="absolute max Faraday depth sampled [Auto].",
+    )
+    parser.add_argument(
+        "-d",
+        dest="dPhi_radm2",
+        type=float,
+        default=None,
+        help="width of Faraday depth channel [Auto].\n(overrides -s NSAMPLES flag)",
+    )
+    parser.add_argument(
+        "-s",
+        dest="nSamples",
+        type=float,
+        default=10,
+        help="number of samples across the RMSF lobe [10].",
+    )
+    parser.add_argument(
+        "-w",
+        dest="weightType",
+        default="variance",
+        help="weighting [inverse variance] or 'uniform' (all 1s).",
+    )
+    parser.add_argument(
+        "-o",
+        dest="polyOrd",
+        type=int,
+        default=2,
+        help="polynomial order to fit to I spectrum [2].",
+    )
+    parser.add_argument(
+        "-i",
+        dest="noStokesI",
+        action="store_true",
+        help="ignore the Stokes I spectrum [False].",
+    )
+    parser.add_argument(
+        "-p", dest="showPlots", action="store_true", help="show the plots [False]."
+    )
+    parser.add_argument(
+        "-v", dest="verbose", action="store_true", help="verbose output [False]."
+    )
+    parser.add_argument(
+        "-S", dest="saveOutput", action="store_true", help="save the arrays [False]."
+    )
+    parser.add_argument(
+        "-D",
+        dest="debug",
+        action="store_true",
+        help="turn on debugging messages & plots [False].",
+    )
+    parser.add_argument(
+        "-U",
+        dest="units",
+        type=str,
+        default="Jy/beam",
+        help="Intensity units of the data. [Jy/beam]",
+    )
+    args = parser.parse_args()
+
+    # Sanity checks
+    if not os.path.exists(args.dataFile[0]):
+        print("File does not exist: '%s'." % args.dataFile[0])
+        sys.exit()
+    prefixOut, ext = os.path.splitext(args.dataFile[0])
+    dataDir, dummy = os.path.split(args.dataFile[0])
+    # Set the floating point precision
+    nBits = 64
+
+    # Read in the data. Don't parse until inside the first function.
+    data = np.loadtxt(args.dataFile[0], unpack=True, dtype="float" + str(nBits))
+
+    # Run (modified) RM-synthesis on the spectra
+    mDict, aDict = run_adjoint_rmsynth(
+        data=data,
+        polyOrd=args.polyOrd,
+        phiMax_radm2=args.phiMax_radm2,
+        dPhi_radm2=args.dPhi_radm2,
+        nSamples=args.nSamples,
+        weightType=args.weightType,
+        fitRMSF=args.fitRMSF,
+        noStokesI=args.noStokesI,
+        nBits=nBits,
+        showPlots=args.showPlots,
+        debug=args.debug,
+        verbose=args.verbose,
+        units=args.units,
+    )
+
+    if args.saveOutput:
+        saveOutput(mDict, aDict, prefixOut, args.verbose)
+
+
+# -----------------------------------------------------------------------------#
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From 6bf63fc2a9242b3c133bbac00a84247474ab4cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:06 +0000
Subject: [PATCH 67/69] fix: don't pass NaN positions to the non-uniform FFT
 when every weight is zero in get_rmsf_planes

---
 RMutils/util_RM.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/RMutils/util_RM.py b/RMutils/util_RM.py
index 68fd05c..a64fa4f 100644
--- a/RMutils/util_RM.py
+++ b/RMutils/util_RM.py
@@ -355,6 +355,8 @@ def get_rmsf_planes(
     K = 1.0 / np.nansum(weightArr)
     if lam0Sq_m2 is None:
         lam0Sq_m2 = K * np.nansum(weightArr * lambdaSqArr_m2)
+        if not np.isfinite(lam0Sq_m2):  # Can happen if all weights are zero
+            lam0Sq_m2 = 0.0
 
     # Calculate the analytical FWHM width of the main lobe
     fwhmRMSF = 3.8 / (np.nanmax(lambdaSqArr_m2) - np.nanmin(lambdaSqArr_m2))
-- 
2.43.0


From f263d50c6948ab4392eb2e48eff30075d852c802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:31 +0000
Subject: [PATCH 68/69] fix: keep the theoretical noise of 1D synthesis finite
 for fluxes of a nano-Jansky and less (overflow in single precision)

---
 RMtools_1D/do_RMsynth_1D.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/RMtools_1D/do_RMsynth_1D.py b/RMtools_1D/do_RMsynth_1D.py
index 7a37a07..804b053 100755
--- a/RMtools_1D/do_RMsynth_1D.py
+++ b/RMtools_1D/do_RMsynth_1D.py
@@ -370,7 +370,7 @@ def run_rmsynth(
     # Calculate the theoretical noise in the FDF !!Old formula only works for wariance weights!
     weightArr = np.where(np.isnan(weightArr), 0.0, weightArr)
     dFDFth = np.abs(Ifreq0) * np.sqrt(
-        np.nansum(weightArr**2 * np.nan_to_num(dquArr) ** 2) / (np.sum(weightArr)) ** 2
+        np.sum((weightArr / np.sum(weightArr) * np.nan_to_num(dquArr)) ** 2)
     )
 
     # Measure the parameters of the dirty FDF
-- 
2.43.0


From 4faa7f5c2d29a5f1004a1876b6ac52a65d80f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:52 +0000
Subject: [PATCH 69/69] fix: scale the derivative steps of the linear Stokes I
 fit with the data, so that large flux units don't lose them to rounding

---
 RMutils/util_misc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/RMutils/util_misc.py b/RMutils/util_misc.py
index 373c089..49a5c6a 100644
--- a/RMutils/util_misc.py
+++ b/RMutils/util_misc.py
@@ -941,6 +941,13 @@ def fit_spec_poly5(xData, yData, dyData=None, order=5, fit_function="log"):
             status = 0
             return status, (powerlaw_poly5(p)(xData) - yData) / dyData
 
+    # A linear polynomial is linear in its coefficients, which have the units of
+    # the data: differences over a step of that size don't suffer from rounding
+    if fit_function == "linear":
+        step = np.max(np.abs(yData), initial=0.0)
+        for parm in inParms:
+            parm["step"] = step
+
     # Use MPFIT to perform the LM-minimisation
     mp = mpfit(errFn, parinfo=inParms, quiet=True)
 
-- 
2.43.0

