From f7f9930173a0824d9bb7c83bdb6db46f26bcf748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:10 +0000
Subject: [PATCH 01/85] fix: compare both scales in ParameterTransformer.__eq__

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index 5b4e428..e8f1d22 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -404,7 +404,7 @@ class ParameterTransformer:
 
     def __eq__(self, other):
         return (
-            np.all(self.scale == self.scale)
+            np.all(self.scale == other.scale)
             and np.all(self.R_mat == other.R_mat)
             and np.all(self.lb_orig == other.lb_orig)
             and np.all(self.ub_orig == other.ub_orig)
-- 
2.43.0


From 2993bcc6b4cafc5893351f4277efe3340e85d644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:34:10 +0000
Subject: [PATCH 02/85] fix: do not overflow in the log-Jacobian of the logit
 transform

---
 pyvbmc/parameter_transformer/parameter_transformer.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/parameter_transformer/parameter_transformer.py b/pyvbmc/parameter_transformer/parameter_transformer.py
index e8f1d22..b95bbf1 100644
--- a/pyvbmc/parameter_transformer/parameter_transformer.py
+++ b/pyvbmc/parameter_transformer/parameter_transformer.py
@@ -312,8 +312,10 @@ class ParameterTransformer:
                 def bounded_jacobian(self, u, mask):
                     j1 = np.log(self.ub_orig[:, mask] - self.lb_orig[:, mask])
                     y = _uncenter(u[:, mask], self.mu[mask], self.delta[mask])
-                    z = -np.log1p(np.exp(-y))
-                    j2 = -y + 2 * z
+                    # log(s(y) * (1 - s(y))) for the logistic function s,
+                    # written to be symmetric and not to overflow
+                    y = np.abs(y)
+                    j2 = -y - 2 * np.log1p(np.exp(-y))
                     j3 = np.log(self.delta[mask])
                     return j1 + j2 + j3
 
-- 
2.43.0


From 1a9e3b190c02a5fd2f80e8eee4363745533ed38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:10 +0000
Subject: [PATCH 03/85] fix: a repeated point must not corrupt the logged
 original value

The Jacobian correction was added in place through a view of y_orig, and
y_max was not updated.
---
 pyvbmc/function_logger/function_logger.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 29cda8b..25292f8 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -385,10 +385,13 @@ class FunctionLogger:
                     N + 1
                 )
 
-            f_val = self.y_orig[idx]
+            f_val = self.y_orig[idx].item()
             if self.transform_parameters:
-                f_val += self.parameter_transformer.log_abs_det_jacobian(x)
+                f_val += self.parameter_transformer.log_abs_det_jacobian(
+                    np.reshape(x, (1, x.shape[0]))
+                )[0]
             self.y[idx] = f_val
+            self.y_max = np.nanmax(self.y[self.X_flag], initial=-np.inf)
             self.fun_eval_time[idx] = (
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
-- 
2.43.0


From d6e1f9cbbcb873208fd701fe7f67679542a7b228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:10 +0000
Subject: [PATCH 04/85] fix: count repeated evaluations in the total evaluation
 time

---
 pyvbmc/function_logger/function_logger.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 25292f8..6ebec7e 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -395,6 +395,8 @@ class FunctionLogger:
             self.fun_eval_time[idx] = (
                 N * self.fun_eval_time[idx] + fun_eval_time
             ) / (N + 1)
+            if not np.isnan(fun_eval_time):
+                self.total_fun_eval_time += fun_eval_time
             self.n_evals[idx] += 1
             return f_val, idx
         else:
-- 
2.43.0


From f07d31c23b16ba378913f28c31838a6b84f83e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:10 +0000
Subject: [PATCH 05/85] fix: trim the evaluation counts with the rest of the
 function log

---
 pyvbmc/function_logger/function_logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 6ebec7e..0108255 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -288,6 +288,7 @@ class FunctionLogger:
             self.S = self.S[: self.Xn + 1]
         self.X_flag = self.X_flag[: self.Xn + 1]
         self.fun_eval_time = self.fun_eval_time[: self.Xn + 1]
+        self.n_evals = self.n_evals[: self.Xn + 1]
 
     def _expand_arrays(self, resize_amount: int = None):
         """
-- 
2.43.0


From 6b7135e0bffabfa7549313454e241711a2254c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:10 +0000
Subject: [PATCH 06/85] fix: evaluate the target on a copy of the point that is
 logged

---
 pyvbmc/function_logger/function_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 0108255..139961d 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -119,9 +119,9 @@ class FunctionLogger:
         timer.start_timer("fun_time")
         try:
             if self.noise_flag and self.uncertainty_handling_level == 2:
-                f_val_orig, f_sd = self.fun(x_orig)
+                f_val_orig, f_sd = self.fun(x_orig.copy())
             else:
-                f_val_orig = self.fun(x_orig)
+                f_val_orig = self.fun(x_orig.copy())
                 if self.noise_flag:
                     f_sd = 1
                 else:
-- 
2.43.0


From d194dc7285104604b44f99f8db4cc844c81aaa3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:10 +0000
Subject: [PATCH 07/85] fix: reject points of the wrong dimension before
 touching the log

---
 pyvbmc/function_logger/function_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/function_logger/function_logger.py b/pyvbmc/function_logger/function_logger.py
index 139961d..468faa0 100644
--- a/pyvbmc/function_logger/function_logger.py
+++ b/pyvbmc/function_logger/function_logger.py
@@ -104,7 +104,7 @@ class FunctionLogger:
             x = x.squeeze()
         if x.ndim == 0:
             x = np.atleast_1d(x)
-        if x.size != x.shape[0]:
+        if x.size != x.shape[0] or x.size != self.D:
             raise ValueError(
                 f"Input should be one-dimensional but has shape {x_shape_orig}."
             )
@@ -227,7 +227,7 @@ class FunctionLogger:
             x = x.squeeze()
         if x.ndim == 0:
             x = np.atleast_1d(x)
-        if x.size != x.shape[0]:
+        if x.size != x.shape[0] or x.size != self.D:
             raise ValueError(
                 f"Input should be one-dimensional but has shape {x_shape_orig}."
             )
-- 
2.43.0


From 94c5a22035406e1042faead5a00dbd8b4acf398e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 08/85] fix: unbiased remainder allocation in balanced sampling

The built-in sum adds the rows of the (1, K) array and returns the array.
---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6334d36..6ea5225 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -302,7 +302,7 @@ class VariationalPosterior:
                     if N > i.shape[0]:
                         w_extra = self.w * N - repeats
                         repeats_extra = np.ceil(np.sum(w_extra))
-                        w_extra += self.w * (repeats_extra - sum(w_extra))
+                        w_extra += self.w * (repeats_extra - np.sum(w_extra))
                         w_extra /= np.sum(w_extra)
                         i_extra = np.random.choice(
                             range(self.K),
-- 
2.43.0


From 5fc973fdb8ba64fa99dd8bc63b50dbe8ed3e26c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 09/85] fix: validate the scales and weights, not the means, in
 set_parameters

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6ea5225..6ad1ac8 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -711,7 +711,7 @@ class VariationalPosterior:
                 check_idx -= self.D
             if self.optimize_sigma:
                 check_idx -= self.K
-            if np.any(theta[-check_idx:] < 0.0):
+            if check_idx < 0 and np.any(theta[check_idx:] <= 0.0):
                 raise ValueError(
                     """sigma, lambda and weights must be positive
                     when raw_flag = False"""
-- 
2.43.0


From 50e6409930b56026c7931b577f3522e4ec3774f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 10/85] fix: use the mean vector of the samples in the
 Gaussianized KL

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 6ad1ac8..4291746 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1100,7 +1100,7 @@ class VariationalPosterior:
                 if vp2 is not None:
                     q2mu, q2sigma = vp2.moments(N, True, True)
                 else:
-                    q2mu = np.mean(samples)
+                    q2mu = np.mean(samples, axis=0)
                     q2sigma = np.cov(samples.T)
 
             kls = kl_div_mvn(q1mu, q1sigma, q2mu, q2sigma)
-- 
2.43.0


From 0618f26cef1d8ef4cf60490e1faa6ae2f4930418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 11/85] fix: operator precedence when guarding infinite
 densities in kl_div

---
 pyvbmc/variational_posterior/variational_posterior.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 4291746..e0ea2ca 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1110,15 +1110,15 @@ class VariationalPosterior:
             xx1, _ = self.sample(N, True, True)
             q1 = self.pdf(xx1, True)
             q2 = vp2.pdf(xx1, True)
-            q1[q1 == 0 | np.isinf(q1)] = 1.0
-            q2[q2 == 0 | np.isinf(q2)] = minp
+            q1[(q1 == 0) | np.isinf(q1)] = 1.0
+            q2[(q2 == 0) | np.isinf(q2)] = minp
             kl1 = -np.mean(np.log(q2) - np.log(q1))
 
             xx2, _ = vp2.sample(N, True, True)
             q1 = self.pdf(xx2, True)
             q2 = vp2.pdf(xx2, True)
-            q1[q1 == 0 | np.isinf(q1)] = minp
-            q2[q2 == 0 | np.isinf(q2)] = 1.0
+            q1[(q1 == 0) | np.isinf(q1)] = minp
+            q2[(q2 == 0) | np.isinf(q2)] = 1.0
             kl2 = -np.mean(np.log(q1) - np.log(q2))
             kls = np.concatenate((kl1, kl2), axis=None)
 
-- 
2.43.0


From f66db8b18acdb681fbaf3c34e9f3dc0c26703d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 12/85] fix: do not truncate transformed points when the pdf's
 input is integer

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index e0ea2ca..41e01ee 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -422,7 +422,7 @@ class VariationalPosterior:
             `grad_flag` = ``True`` (gradient computation of the log-pdf in the
             original space is not supported yet).
         """
-        x = x.copy()
+        x = x.astype(float)  # (this makes a copy)
         N, D = x.shape
 
         # compute pdf only for points inside bounds in origspace
-- 
2.43.0


From 8d5015c0b03d71a6a2a921e7bdab0e419bd8700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 13/85] fix: mode of one-dimensional posteriors in the original
 space

---
 pyvbmc/variational_posterior/variational_posterior.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 41e01ee..cf94b01 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -889,9 +889,9 @@ class VariationalPosterior:
             if orig_flag:
                 bounds = np.stack(
                     (
-                        self.parameter_transformer.lb_orig.squeeze()
+                        self.parameter_transformer.lb_orig.ravel()
                         + np.sqrt(np.finfo(float).eps),
-                        self.parameter_transformer.ub_orig.squeeze()
+                        self.parameter_transformer.ub_orig.ravel()
                         - np.sqrt(np.finfo(float).eps),
                     ),
                     axis=1,
@@ -900,7 +900,7 @@ class VariationalPosterior:
                     self.parameter_transformer.ub_orig,
                     np.maximum(x0, self.parameter_transformer.lb_orig),
                 )
-                x0 = x0.squeeze()
+                x0 = x0.ravel()
 
             # fun provides gradient (jac=True) when orig_flag is False:
             res = minimize(
-- 
2.43.0


From f904131cb659c5ad7c6c878c364fdf16225765de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 14/85] fix: return a 2-D covariance from moments in one
 dimension

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index cf94b01..b70191d 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -788,7 +788,7 @@ class VariationalPosterior:
             x, _ = self.sample(int(N), orig_flag=True, balance_flag=True)
             mubar = np.mean(x, axis=0)
             if cov_flag:
-                cov = np.cov(x.T)
+                cov = np.atleast_2d(np.cov(x.T))
         else:
             mubar = np.sum(self.w * self.mu, axis=1)
 
-- 
2.43.0


From c5ec574882b43157ce98ff7da98ea14374ce721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 15/85] fix: integer component labels also for a single
 component

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index b70191d..9e0a803 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -357,7 +357,7 @@ class VariationalPosterior:
                         * np.random.randn(N, self.D)
                         * self.sigma
                     )
-                i = np.zeros(N)
+                i = np.zeros(N, dtype=int)
             if orig_flag:
                 x = self.parameter_transformer.inverse(x)
         return x, i
-- 
2.43.0


From 233cc437f5a8193bca3ebd83c2b4f8e64d821dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:57 +0000
Subject: [PATCH 16/85] fix: Gaussian KL divergence for badly scaled
 covariances

Least squares discards directions whose variance is relatively small.
---
 pyvbmc/stats/kl_div_mvn.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/stats/kl_div_mvn.py b/pyvbmc/stats/kl_div_mvn.py
index 85f0234..d543602 100644
--- a/pyvbmc/stats/kl_div_mvn.py
+++ b/pyvbmc/stats/kl_div_mvn.py
@@ -38,10 +38,10 @@ def kl_div_mvn(mu1, sigma1, mu2, sigma2):
         # KL divergence is infinite
         return np.concatenate((np.inf, np.inf), axis=None)
     lndet = np.log(detq2 / detq1)
-    a, _, _, _ = np.linalg.lstsq(sigma2, sigma1, rcond=None)
-    b, _, _, _ = np.linalg.lstsq(sigma2, dmu, rcond=None)
+    a = np.linalg.solve(sigma2, sigma1)
+    b = np.linalg.solve(sigma2, dmu)
     kl1 = 0.5 * (np.trace(a) + dmu.T @ b - D + lndet)
-    a, _, _, _ = np.linalg.lstsq(sigma1, sigma2, rcond=None)
-    b, _, _, _ = np.linalg.lstsq(sigma1, dmu, rcond=None)
+    a = np.linalg.solve(sigma1, sigma2)
+    b = np.linalg.solve(sigma1, dmu)
     kl2 = 0.5 * (np.trace(a) + dmu.T @ b - D - lndet)
     return np.concatenate((kl1, kl2), axis=None)
-- 
2.43.0


From 8f05a2e1d6553e8a23d3b9f331c38ac3c0855322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:02 +0000
Subject: [PATCH 17/85] fix: keep eta in step with the weights in
 set_parameters

---
 pyvbmc/variational_posterior/variational_posterior.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 9e0a803..e0b27ed 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -745,6 +745,9 @@ class VariationalPosterior:
                 self.w = np.exp(eta.T)[:, np.newaxis]
             else:
                 self.w = eta.T[:, np.newaxis]
+                eta = np.log(eta)
+            # keep the unbounded parametrization in step with the weights
+            self.eta = eta.reshape(1, -1)
 
         nl = np.sqrt(np.sum(self.lambd**2) / self.D)
 
-- 
2.43.0


From 98a603dac585f3009819ef160e4c2a970f4a787f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 18/85] fix: do not modify theta when evaluating the
 variational objective

---
 pyvbmc/vbmc/variational_optimization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 665ae47..d74ba31 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1080,8 +1080,7 @@ def _neg_elcbo(
     vp.set_parameters(theta)
 
     if vp.optimize_weights:
-        vp.eta = theta[-K:]
-        vp.eta -= np.amax(vp.eta)
+        vp.eta = theta[-K:] - np.amax(theta[-K:])
         vp.eta = np.reshape(vp.eta, (1, -1))
         # Doing the above is more numerically robust than
         # below, but it might cause slightly different results
-- 
2.43.0


From 458050dd0070c738655162e34438219186e3606b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 19/85] fix: order of the scales in the gradient of the
 soft-bound loss

---
 pyvbmc/vbmc/variational_optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index d74ba31..95372a2 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -582,7 +582,9 @@ def _vp_bound_loss(
 
         if vp.optimize_sigma or vp.optimize_lambda:
             dlnscale = np.reshape(
-                dL[start_idx : start_idx + vp.D * vp.K], (vp.D, vp.K)
+                dL[start_idx : start_idx + vp.D * vp.K],
+                (vp.D, vp.K),
+                order="F",
             )
 
             if vp.optimize_sigma:
-- 
2.43.0


From d22eb23058bfecfc8b547b7c37bd64b0423180b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 20/85] fix: attribute name optimize_lambd in the soft-bound
 loss

---
 pyvbmc/vbmc/variational_optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 95372a2..ce17c7a 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -558,7 +558,7 @@ def _vp_bound_loss(
     theta_ext = []
     if vp.optimize_mu:
         theta_ext.append(mu.ravel())
-    if vp.optimize_sigma or vp.optimize_lambda:
+    if vp.optimize_sigma or vp.optimize_lambd:
         theta_ext.append(ln_scale.ravel(order="F"))
     if vp.optimize_weights:
         theta_ext.append(eta.ravel())
@@ -580,7 +580,7 @@ def _vp_bound_loss(
         else:
             start_idx = 0
 
-        if vp.optimize_sigma or vp.optimize_lambda:
+        if vp.optimize_sigma or vp.optimize_lambd:
             dlnscale = np.reshape(
                 dL[start_idx : start_idx + vp.D * vp.K],
                 (vp.D, vp.K),
-- 
2.43.0


From 116756d2a15cc9db3f5196b3db58db3e66160ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 21/85] fix: remove both rows and columns of pruned components
 from J_sjk

---
 pyvbmc/vbmc/variational_optimization.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index ce17c7a..b2a69c1 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -373,6 +373,7 @@ def optimize_vp(
                 pruned += 1
                 already_checked = np.delete(already_checked, idx)
                 I_sk = np.delete(I_sk, idx, axis=1)
+                J_sjk = np.delete(J_sjk, idx, axis=1)
                 J_sjk = np.delete(J_sjk, idx, axis=2)
             else:
                 already_checked[idx] = True
-- 
2.43.0


From a24180dd8dee6cebd721bb36fffed0e65512cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:19 +0000
Subject: [PATCH 22/85] fix: return all requested log-joint gradients without
 the Jacobian

---
 pyvbmc/vbmc/variational_optimization.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index b2a69c1..59650d8 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1530,11 +1530,13 @@ def _gp_log_joint(
         # Correct for standard log reparametrization of sigma
         if jacobian_flag and grad_flags[1]:
             sigma_grad *= np.reshape(sigma, (-1, 1))
+        if grad_flags[1]:
             grad_list.append(sigma_grad)
 
         # Correct for standard log reparametrization of lambd
         if jacobian_flag and grad_flags[2]:
             lambd_grad *= lambd
+        if grad_flags[2]:
             grad_list.append(lambd_grad)
 
         # Correct for standard softmax reparametrization of w
@@ -1545,6 +1547,7 @@ def _gp_log_joint(
                 + np.diag(np.exp(vp.eta.ravel())) / eta_sum
             )
             w_grad = np.dot(J_w, w_grad)
+        if grad_flags[3]:
             grad_list.append(w_grad)
 
         dG = np.concatenate(grad_list, axis=0)
-- 
2.43.0


From f36adc0e74942e66f8fdc86f67c7f2ca428cf4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:42 +0000
Subject: [PATCH 23/85] fix: draw exactly the missing samples in balanced
 sampling

---
 pyvbmc/variational_posterior/variational_posterior.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index e0b27ed..2e3bf65 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -301,12 +301,11 @@ class VariationalPosterior:
                     # compute remainder samples (with correct weights) if needed
                     if N > i.shape[0]:
                         w_extra = self.w * N - repeats
-                        repeats_extra = np.ceil(np.sum(w_extra))
-                        w_extra += self.w * (repeats_extra - np.sum(w_extra))
+                        repeats_extra = N - i.shape[0]
                         w_extra /= np.sum(w_extra)
                         i_extra = np.random.choice(
                             range(self.K),
-                            size=repeats_extra.astype("int"),
+                            size=repeats_extra,
                             p=w_extra.ravel(),
                         )
                         i = np.append(i, i_extra)
-- 
2.43.0


From 326fc0a646ef85e64a492476fb9f911d4c00a7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 24/85] fix: do not hand out the cached mode itself

---
 pyvbmc/variational_posterior/variational_posterior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 2e3bf65..1f29a64 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -848,7 +848,7 @@ class VariationalPosterior:
         locations (even after applying the appropriate transformations).
         """
         if orig_flag and self._mode is not None:
-            return self._mode
+            return self._mode.copy()
 
         def neg_log_pdf(x0, orig_flag=orig_flag):
             if orig_flag:
@@ -916,7 +916,7 @@ class VariationalPosterior:
         x = x_min[idx_min]
 
         if orig_flag:
-            self._mode = x
+            self._mode = x.copy()
 
         return x
 
-- 
2.43.0


From 7fb0680a46b4c962d141e4a462cc428de6776685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 25/85] fix: mode returns the starting point if its
 optimization breaks down

---
 pyvbmc/variational_posterior/variational_posterior.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 1f29a64..c919403 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -908,8 +908,14 @@ class VariationalPosterior:
             res = minimize(
                 fun=neg_log_pdf, x0=x0, bounds=bounds, jac=not orig_flag
             )
-            x_min[k] = res.x
-            ff[k] = res.fun
+            if np.all(np.isfinite(res.x)):
+                x_min[k] = res.x
+                ff[k] = res.fun
+            else:
+                # The optimization broke down (e.g., for densities diverging
+                # at the bounds), keep the starting point
+                x_min[k] = x0
+                ff[k] = np.min(y0_vec)
 
         # Get mode and store it
         idx_min = np.argmin(ff.squeeze())
-- 
2.43.0


From 06578cc706e3ee5e3bf438304432f8351f441585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 26/85] fix: support of shifted or scaled SciPy priors

---
 pyvbmc/priors/scipy.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/scipy.py b/pyvbmc/priors/scipy.py
index a57a05b..b16478f 100644
--- a/pyvbmc/priors/scipy.py
+++ b/pyvbmc/priors/scipy.py
@@ -51,8 +51,9 @@ class SciPy(Prior):
             self.b = np.full(self.D, np.inf)
         elif isinstance(distribution, rv_continuous_frozen):
             self.D = 1
-            self.a = np.atleast_1d(distribution.a)
-            self.b = np.atleast_1d(distribution.b)
+            a, b = distribution.support()
+            self.a = np.atleast_1d(a)
+            self.b = np.atleast_1d(b)
         else:
             raise TypeError(
                 f'A SciPy prior should be initialized from a "frozen" multivariate normal, multivariate t, or univariate SciPy distribution, but got `distribution` of type {type(distribution)}.'
-- 
2.43.0


From 72195730d5d0420fa2973cff16d142b65c57c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 27/85] fix: support of smooth-box priors with integer pivots

---
 pyvbmc/priors/smooth_box.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/priors/smooth_box.py b/pyvbmc/priors/smooth_box.py
index d6d77ae..0343dd6 100644
--- a/pyvbmc/priors/smooth_box.py
+++ b/pyvbmc/priors/smooth_box.py
@@ -168,8 +168,8 @@ class SmoothBox(Prior):
             [``lb[i]``, ``ub[i]``] bounds the support of the `i`th marginal.
         """
         return (
-            np.full_like(self.a, -np.inf),
-            np.full_like(self.b, np.inf),
+            np.full(self.D, -np.inf),
+            np.full(self.D, np.inf),
         )
 
     def __str__(self):
-- 
2.43.0


From 2080f09d32d72aaff40eb3e8b187cf1542dc9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 28/85] fix: prior log-densities at integer points

---
 pyvbmc/priors/prior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/priors/prior.py b/pyvbmc/priors/prior.py
index 3e4d193..ab8869c 100644
--- a/pyvbmc/priors/prior.py
+++ b/pyvbmc/priors/prior.py
@@ -25,7 +25,7 @@ class Prior(ABC):
             `(n, 1)` or `(n,)` (depending on ``keepdims``).
         """
         x_orig_shape = x.shape
-        x = np.atleast_2d(x)
+        x = np.atleast_2d(x).astype(float)
         n, D = x.shape
         if self.D == 1 and n == 1:
             x = x.T
-- 
2.43.0


From 59f54339932fec8cd872cb635c4660ed86623fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 29/85] fix: user-defined marginals of product priors

---
 pyvbmc/priors/product.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/priors/product.py b/pyvbmc/priors/product.py
index 13a7a3a..9690a49 100644
--- a/pyvbmc/priors/product.py
+++ b/pyvbmc/priors/product.py
@@ -14,6 +14,7 @@ from pyvbmc.priors import (
     SplineTrapezoidal,
     Trapezoidal,
     UniformBox,
+    UserFunction,
     is_valid_scipy_dist,
 )
 
@@ -87,7 +88,14 @@ class Product(Prior):
         n, D = x.shape
         log_pdf = np.zeros((n, D))
         for (m, marginal) in enumerate(self.marginals):
-            log_pdf[:, m] = marginal.log_pdf(x[:, m], keepdims=False)
+            if isinstance(marginal, UserFunction):
+                # User-defined functions take a single point
+                log_pdf[:, m] = [
+                    np.asarray(marginal.log_pdf(x_i)).item()
+                    for x_i in x[:, [m]]
+                ]
+            else:
+                log_pdf[:, m] = marginal.log_pdf(x[:, m], keepdims=False)
         log_pdf = np.sum(log_pdf, axis=1, keepdims=True)
         return log_pdf
 
-- 
2.43.0


From 4bc3f18955281edfbce9fd5393c25e44b75473b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 30/85] fix: do not modify the caller's plausible bounds

---
 pyvbmc/vbmc/vbmc.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index d8d6118..f568db3 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -346,8 +346,12 @@ class VBMC:
 
                 idx = plausible_lower_bounds == plausible_upper_bounds
                 if np.any(idx):
-                    plausible_lower_bounds[idx] = lower_bounds[idx]
-                    plausible_upper_bounds[idx] = upper_bounds[idx]
+                    plausible_lower_bounds = np.where(
+                        idx, lower_bounds, plausible_lower_bounds
+                    )
+                    plausible_upper_bounds = np.where(
+                        idx, upper_bounds, plausible_upper_bounds
+                    )
                     self.logger.warning(
                         "vbmc:pbInitFailed: Some plausible bounds could not be "
                         "determined from starting set. Using hard upper/lower"
-- 
2.43.0


From 31a1f9e74791cc4fe7ad8f8432cf29efca53de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 31/85] fix: integer variables given as a list

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index f568db3..9cb7cbd 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -598,7 +598,7 @@ class VBMC:
         # Integer variables
         optim_state["integer_vars"] = np.full(self.D, False)
         if len(self.options.get("integer_vars")) > 0:
-            integeridx = self.options.get("integer_vars") != 0
+            integeridx = np.asarray(self.options.get("integer_vars")) != 0
             optim_state["integer_vars"][integeridx] = True
             if (
                 np.any(np.isinf(self.lower_bounds[:, integeridx]))
-- 
2.43.0


From 0e8e969fb474f57d8ce38424a008ea7cdb390a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 32/85] fix: no deletion or in-place union of options after
 initialization

---
 pyvbmc/vbmc/options.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyvbmc/vbmc/options.py b/pyvbmc/vbmc/options.py
index 822e788..d0cf64d 100644
--- a/pyvbmc/vbmc/options.py
+++ b/pyvbmc/vbmc/options.py
@@ -200,8 +200,17 @@ class Options(MutableMapping, dict):
         return dict.__len__(self)
 
     def __delitem__(self, key):
+        # Prevent user from attempting to modify options after initialization
+        if getattr(self, "is_initialized", False):
+            raise AttributeError(
+                "Warning: Cannot delete options after initialization."
+            )
         return dict.__delitem__(self, key)
 
+    def __ior__(self, other):
+        self.update(other)
+        return self
+
     def __copy__(self):
         cls = self.__class__
         result = cls.__new__(cls)
-- 
2.43.0


From ddb2e57019d34c5c981de272c4529aef92ebbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:31 +0000
Subject: [PATCH 33/85] fix: noise-dependent defaults when the noise is set in
 an options file

---
 pyvbmc/vbmc/options.py | 12 +++++++++++-
 pyvbmc/vbmc/vbmc.py    |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/options.py b/pyvbmc/vbmc/options.py
index d0cf64d..c67c0c8 100644
--- a/pyvbmc/vbmc/options.py
+++ b/pyvbmc/vbmc/options.py
@@ -119,7 +119,10 @@ class Options(MutableMapping, dict):
         return new_options
 
     def load_options_file(
-        self, options_path: str, evaluation_parameters: dict = None
+        self,
+        options_path: str,
+        evaluation_parameters: dict = None,
+        user_file: bool = False,
     ):
         """
         Load options from an ini file and evaluate them using the specified
@@ -135,12 +138,19 @@ class Options(MutableMapping, dict):
             absolute or relative to this directory.
         evaluation_parameters : dict, optional
             Parameters used to evaluate the options.
+        user_file : bool, optional
+            Whether the options in the file are chosen by the user, in which
+            case they are added to ``useroptions``. Default `False`.
         """
         options_list = _read_config_file(options_path)
         for (key, value, description) in options_list:
             if key not in self.get("useroptions") and key != "useroptions":
                 self[key] = eval(value, globals(), evaluation_parameters)
                 self.descriptions[key] = description
+        if user_file:
+            self["useroptions"].update(
+                key for (key, _, _) in options_list if key != "useroptions"
+            )
 
     def validate_option_names(self, options_paths: list):
         """
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 9cb7cbd..33093ce 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -177,13 +177,15 @@ class VBMC:
             advanced_options_path,
             evaluation_parameters={"D": self.D},
         )
-        self.options.update_defaults()
         if options_path is not None:
             # Update with user-specified config file
             self.options.load_options_file(
                 options_path,
                 evaluation_parameters={"D": self.D},
+                user_file=True,
             )
+        self.options.update_defaults()
+        if options_path is not None:
             self.options.validate_option_names(
                 [basic_options_path, advanced_options_path, options_path]
             )
-- 
2.43.0


From 6215a1a1d8d93d1b04e8a791dfb24760f2a598ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:15 +0000
Subject: [PATCH 34/85] fix: do not modify the starting point in minimize_adam

---
 pyvbmc/vbmc/minimize_adam.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/minimize_adam.py b/pyvbmc/vbmc/minimize_adam.py
index fbb3beb..eadfe8b 100644
--- a/pyvbmc/vbmc/minimize_adam.py
+++ b/pyvbmc/vbmc/minimize_adam.py
@@ -78,7 +78,7 @@ def minimize_adam(
     v = 0
     x_tab = np.zeros((n_vars, max_iter))
 
-    x = x0
+    x = np.array(x0, dtype=float)
     y_tab = np.full((max_iter,), np.nan)
 
     for i in range(0, max_iter):
-- 
2.43.0


From 50c09722c3ae5ff18adcdbb8d74a54c79f272eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 35/85] fix: Gaussian KL divergence called with keywords or
 scalars

---
 pyvbmc/stats/kl_div_mvn.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyvbmc/stats/kl_div_mvn.py b/pyvbmc/stats/kl_div_mvn.py
index d543602..44fb550 100644
--- a/pyvbmc/stats/kl_div_mvn.py
+++ b/pyvbmc/stats/kl_div_mvn.py
@@ -1,12 +1,6 @@
 import numpy as np
 
-from pyvbmc.decorators import handle_0D_1D_input
 
-
-@handle_0D_1D_input(
-    patched_kwargs=["mu1", "sigma1", "mu2", "sigma2"],
-    patched_argpos=[0, 1, 2, 3],
-)
 def kl_div_mvn(mu1, sigma1, mu2, sigma2):
     """
     Compute the analytical Kullback-Leibler divergence between two multivariate
@@ -28,9 +22,11 @@ def kl_div_mvn(mu1, sigma1, mu2, sigma2):
     kl_div : np.array
         The computed Kullback-Leibler divergence.
     """
+    mu1 = np.reshape(mu1, (-1, 1))
+    mu2 = np.reshape(mu2, (-1, 1))
+    sigma1 = np.atleast_2d(sigma1)
+    sigma2 = np.atleast_2d(sigma2)
     D = mu1.size
-    mu1 = mu1.reshape(-1, 1)
-    mu2 = mu2.reshape(-1, 1)
     dmu = mu2 - mu1
     detq1 = np.linalg.det(sigma1)
     detq2 = np.linalg.det(sigma2)
-- 
2.43.0


From 0edfac61f781cc38027e4f0523d86ea1fc77b296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:16 +0000
Subject: [PATCH 36/85] fix: a failed save must not destroy or leave behind a
 file

---
 pyvbmc/variational_posterior/variational_posterior.py | 4 +++-
 pyvbmc/vbmc/vbmc.py                                   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index c919403..9cedb88 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1319,8 +1319,10 @@ class VariationalPosterior:
             mode = "wb"
         else:
             mode = "xb"
+        # Serialize first: a failure must not leave a truncated file behind
+        data = dill.dumps(self, recurse=True)
         with open(filepath, mode=mode) as f:
-            dill.dump(self, f, recurse=True)
+            f.write(data)
 
     @classmethod
     def load(cls, file):
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 33093ce..e37457a 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2186,8 +2186,10 @@ class VBMC:
             mode = "wb"
         else:
             mode = "xb"
+        # Serialize first: a failure must not leave a truncated file behind
+        data = dill.dumps(self, recurse=True)
         with open(filepath, mode=mode) as f:
-            dill.dump(self, f, recurse=True)
+            f.write(data)
 
     @classmethod
     def load(
-- 
2.43.0


From e9d05cf35d77e256783752b920ff2be792ecdc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:48 +0000
Subject: [PATCH 37/85] fix: budget no larger than the initial design

---
 pyvbmc/vbmc/gaussian_process_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 6894fdb..9c5b7ea 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -598,7 +598,7 @@ def _get_gp_training_options(
     c = 3 * a
     d = options["gp_train_n_init"]
     x = (optim_state["n_eff"] - options["fun_eval_start"]) / (
-        min(options["max_fun_evals"], 1e3) - options["fun_eval_start"]
+        max(min(options["max_fun_evals"], 1e3) - options["fun_eval_start"], 1)
     )
     f = lambda x_: a * x_**3 + b * x**2 + c * x + d
     init_N = max(round(f(x)), 9)
-- 
2.43.0


From cfe974e02ecb6d06bcac707316afb9351b3702e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:52 +0000
Subject: [PATCH 38/85] fix: do not modify the recorded history when continuing
 a run

---
 pyvbmc/vbmc/vbmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index e37457a..558a81c 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -863,8 +863,10 @@ class VBMC:
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
-            self.vp = self.iteration_history["vp"][-1]
-            self.optim_state = self.iteration_history["optim_state"][-1]
+            self.vp = copy.deepcopy(self.iteration_history["vp"][-1])
+            self.optim_state = copy.deepcopy(
+                self.iteration_history["optim_state"][-1]
+            )
         self._log_column_headers()
         while not self.is_finished:
             self.iteration += 1
-- 
2.43.0


From 5028c79376d71750942f5e530f5c52657b511b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 39/85] fix: record the current GP hyperparameters with the
 optimisation state

---
 pyvbmc/vbmc/vbmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 558a81c..fc4f43c 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1490,6 +1490,7 @@ class VBMC:
 
             # Record optim_state and random state
             self.random_state = np.random.get_state()
+            self.optim_state["hyp_dict"] = self.hyp_dict
             self.iteration_history.record_iteration(
                 {
                     "optim_state": self.optim_state,
-- 
2.43.0


From df88cfc881d8405c4f744d01c2df2e2d8eecd13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 40/85] fix: load with the random state an object saved before
 running

---
 pyvbmc/vbmc/vbmc.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index fc4f43c..02d329d 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2278,7 +2278,14 @@ class VBMC:
 
         # Optionally set random state for reproducibility
         if set_random_state:
-            random_state = vbmc.iteration_history["random_state"][iteration]
+            random_state = vbmc.random_state
+            if (
+                hasattr(vbmc, "iteration_history")
+                and vbmc.iteration_history["random_state"] is not None
+            ):
+                random_state = vbmc.iteration_history["random_state"][
+                    iteration
+                ]
             np.random.set_state(random_state)
 
         return vbmc
-- 
2.43.0


From de571b5a98b8394e3a25e0382ba239b4ce75274c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:35 +0000
Subject: [PATCH 41/85] fix: resume from the iteration at which warm-up ended

---
 pyvbmc/vbmc/vbmc.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 02d329d..39011b7 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1343,6 +1343,15 @@ class VBMC:
                     # self.optim_state['acq_info'] = getAcqInfo(
                     #    options.SearchAcqFcn
                     # )
+                if trim_flag:
+                    # Record the changes, or a run resumed from here lacks them
+                    self.iteration_history.record_iteration(
+                        {
+                            "vp": self.vp,
+                            "function_logger": self.function_logger,
+                        },
+                        self.iteration,
+                    )
             # Needs to be below the above block since warmup value can change
             # in _check_warmup_end_conditions
             self.iteration_history.record(
@@ -2261,6 +2270,13 @@ class VBMC:
                     setattr(
                         vbmc, attr, vbmc.iteration_history[attr][iteration]
                     )
+            if vbmc.gp is not None and vbmc.gp.X.shape[0] != np.sum(
+                vbmc.function_logger.X_flag
+            ):
+                # The training data were trimmed after recording the GP
+                vbmc.gp = reupdate_gp(
+                    vbmc.function_logger, copy.deepcopy(vbmc.gp)
+                )
             if vbmc.optim_state.get("hyp_dict") is not None:
                 vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
             vbmc.iteration = iteration
-- 
2.43.0


From 382baee49a3c9603064a044c5b11b958f94c37e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 42/85] fix: rank criterion of determine_best_vp on a recorded
 history

---
 pyvbmc/vbmc/vbmc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 39011b7..e8f89a6 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2127,9 +2127,8 @@ class VBMC:
 
                 # Rank penalty to all non-stable iterations
                 rank[:, 3] = max_idx
-                rank[
-                    self.iteration_history.get("stable")[: max_idx + 1], 3
-                ] = 1
+                stable = self.iteration_history.get("stable")[: max_idx + 1]
+                rank[stable.astype(bool), 3] = 1
 
                 idx_best = np.argmin(np.sum(rank, 1))
 
-- 
2.43.0


From 1cb1813069596b2c224e0d016028171fc2c2def9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:07 +0000
Subject: [PATCH 43/85] fix: report bounded problems as bounded in the results

---
 pyvbmc/vbmc/vbmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index e8f89a6..2f20a44 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2313,8 +2313,8 @@ class VBMC:
         """
         output = {}
         output["function"] = str(self.function_logger.fun)
-        if np.all(np.isinf(self.optim_state["lb_tran"])) and np.all(
-            np.isinf(self.optim_state["ub_tran"])
+        if np.all(np.isinf(self.lower_bounds)) and np.all(
+            np.isinf(self.upper_bounds)
         ):
             output["problem_type"] = "unconstrained"
         else:
-- 
2.43.0


From 225feb48f9496d2f2eea4665ceda3a286e102f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:37 +0000
Subject: [PATCH 44/85] fix: warm-up check with a large number of evaluations
 per iteration

---
 pyvbmc/vbmc/vbmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 2f20a44..4b87485 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1619,7 +1619,8 @@ class VBMC:
         )
 
         # MATLAB has +1 on the right side due to different indexing.
-        if iteration > tol_stable_warmup_iters:
+        # At least one ELCBO is needed after the first three.
+        if iteration > max(tol_stable_warmup_iters, 2):
             # Vector of ELCBO (ignore first two iterations, ELCBO is unreliable)
             elcbo_vec = self.iteration_history.get("elbo") - self.options.get(
                 "elcbo_impro_weight"
-- 
2.43.0


From 6b10f575357e12e3fe1a6b45aec32269bf3ad95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 45/85] fix: option entropy_switch

---
 pyvbmc/vbmc/vbmc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4b87485..19e99f1 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -885,8 +885,8 @@ class VBMC:
             # deterministic.
             if self.optim_state.get("entropy_switch") and (
                 self.function_logger.func_count
-                >= self.optim_state.get("entropy_force_switch")
-                * self.optim_state.get("max_fun_evals")
+                >= self.options.get("entropy_force_switch")
+                * self.options.get("max_fun_evals")
             ):
                 self.optim_state["entropy_switch"] = False
                 self.logging_action.append("entropy switch")
-- 
2.43.0


From 489518baf0e9e31481fced4977f87607a16e36cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 46/85] fix: option uncertainty_handling given as a number

---
 pyvbmc/vbmc/vbmc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 19e99f1..94330bb 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -732,6 +732,12 @@ class VBMC:
         # (0: none; 1: unknown noise level; 2: user-provided noise)
         if self.options.get("specify_target_noise"):
             optim_state["uncertainty_handling_level"] = 2
+        elif isinstance(
+            self.options.get("uncertainty_handling"), (bool, int, float)
+        ):
+            optim_state["uncertainty_handling_level"] = int(
+                self.options.get("uncertainty_handling")
+            )
         elif len(self.options.get("uncertainty_handling")) > 0:
             optim_state["uncertainty_handling_level"] = 1
         else:
-- 
2.43.0


From 155552a07cb4fb8123575b003b1100559a2f7594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 47/85] fix: final boost of a run with provided function values

---
 pyvbmc/vbmc/vbmc.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 94330bb..a6233a1 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1544,7 +1544,21 @@ class VBMC:
             if self.options.get("plot"):
                 self._log_column_headers()
 
-            if (
+            if self.optim_state["cache_active"]:
+                self.logger.info(
+                    display_format.format(
+                        np.inf,
+                        self.function_logger.func_count,
+                        self.function_logger.cache_count,
+                        elbo,
+                        elbo_sd,
+                        sKL,
+                        self.vp.K,
+                        self.iteration_history.get("r_index")[idx_best],
+                        "finalize",
+                    )
+                )
+            elif (
                 self.optim_state["uncertainty_handling_level"] > 0
                 and self.options.get("max_repeated_observations") > 0
             ):
-- 
2.43.0


From 670a4b148beacce83f228223232faed8e9c68a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 48/85] fix: options true_mean and true_cov given as arrays

---
 pyvbmc/vbmc/vbmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index a6233a1..91c50ed 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1234,12 +1234,12 @@ class VBMC:
 
             # Compare variational posterior's moments with ground truth
             if (
-                self.options.get("true_mean")
-                and self.options.get("true_cov")
+                np.size(self.options.get("true_mean")) > 0
+                and np.size(self.options.get("true_cov")) > 0
                 and np.all(np.isfinite(self.options.get("true_mean")))
                 and np.all(np.isfinite(self.options.get("true_cov")))
             ):
-                mubar_orig, sigma_orig = vp_real.moments(1e6, True, True)
+                mubar_orig, sigma_orig = vp_real.moments(int(1e6), True, True)
 
                 kl = kl_div_mvn(
                     mubar_orig,
-- 
2.43.0


From 4e7e6f5f98730ea3f373b0e8966f00531c9ab4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 49/85] fix: option separate_search_gp

---
 pyvbmc/vbmc/vbmc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 91c50ed..69f1b8d 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1078,8 +1078,9 @@ class VBMC:
                         meantemp = self.optim_state.get("gp_mean_fun")
                         self.optim_state["gp_mean_fun"] = "const"
                         timer.start_timer("separate_gp_train")
-                        gp_search, Ns_gp, sn2_hpd, self.hyp_dict = train_gp(
-                            self.hyp_dict,
+                        # (its hyperparameters are not those of the main GP)
+                        gp_search, Ns_gp, sn2_hpd, __ = train_gp(
+                            {},
                             self.optim_state,
                             self.function_logger,
                             self.iteration_history,
-- 
2.43.0


From 6ee0f7eb3441cee17a4c3a5b8d859e5b441d0c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:37 +0000
Subject: [PATCH 50/85] fix: option warp_cov_reg given as a function

---
 pyvbmc/whitening/whitening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 2cbcd9e..408657f 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -150,7 +150,7 @@ def warp_input(vp, optim_state, function_logger, options):
         ):
             w_reg = options["warp_cov_reg"]
         else:
-            w_reg = options.warp_cov_reg[optim_state["N"]]
+            w_reg = options["warp_cov_reg"](optim_state["N"])
         w_reg = np.max([0, np.min([1, w_reg])])
         vp_cov = (1 - w_reg) * vp_cov + w_reg * np.diag(np.diag(vp_cov))
 
-- 
2.43.0


From f7d16d6267cef56d77ac7f3f870341fc0ecd7128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:41 +0000
Subject: [PATCH 51/85] fix: train the GP on a history with another number of
 hyperparameters

---
 pyvbmc/vbmc/gaussian_process_train.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 9c5b7ea..1c825a5 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -126,14 +126,12 @@ def train_gp(
             math.ceil((np.size(iteration_history["gp"]) + 1) / 2) - 1,
             np.size(iteration_history["gp"]),
         ):
-            hyp0 = np.concatenate(
-                (
-                    hyp0,
-                    iteration_history["gp"][i].get_hyperparameters(
-                        as_array=True
-                    ),
-                )
+            hyp_old = iteration_history["gp"][i].get_hyperparameters(
+                as_array=True
             )
+            # In some cases the model can change so be careful.
+            if hyp_old.shape[1] == hyp0.shape[1]:
+                hyp0 = np.concatenate((hyp0, hyp_old))
         N0 = hyp0.shape[0]
         if N0 > gp_train["init_N"] / 2:
             hyp0 = hyp0[
-- 
2.43.0


From 1cd113e8deea169d019055fe719915571b1c6843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 52/85] fix: weighted covariance of the GP hyperparameter
 samples

---
 pyvbmc/vbmc/gaussian_process_train.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index 1c825a5..fa9aa15 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -176,7 +176,7 @@ def train_gp(
         # end
 
     # Update running average of GP hyperparameter covariance (coarse)
-    if hyp_dict["full"] is not None and hyp_dict["full"].shape[1] > 1:
+    if hyp_dict["full"] is not None and hyp_dict["full"].shape[0] > 1:
         hyp_cov = np.cov(hyp_dict["full"].T)
         if hyp_dict["run_cov"] is None or options["hyp_run_weight"] == 0:
             hyp_dict["run_cov"] = hyp_cov
@@ -703,10 +703,16 @@ def _get_hyp_cov(
                 hyp = iteration_history["gp_hyp_full"][
                     optim_state["iter"] - 1 - i
                 ]
-                hyp_n = hyp.shape[1]
-                if len(hyp_list) == 0 or np.shape(hyp_list)[2] == hyp.shape[0]:
-                    hyp_list.append(hyp.T)
-                    w_list.append(w * np.ones((hyp_n, 1)) / hyp_n)
+                if hyp is None:
+                    continue
+                s_N = hyp.shape[0]
+                if len(hyp_list) == 0 or hyp_list[0].shape[1] == hyp.shape[1]:
+                    hyp_list.append(hyp)
+                    w_list.append(w * np.ones((s_N, 1)) / s_N)
+
+            # A covariance needs at least two samples
+            if sum(hyp.shape[0] for hyp in hyp_list) < 2:
+                return None
 
             w_list = np.concatenate(w_list)
             hyp_list = np.concatenate(hyp_list)
@@ -720,9 +726,8 @@ def _get_hyp_cov(
             hyp_n = np.shape(hyp_list)[1]
             hyp_cov = np.zeros((hyp_n, hyp_n))
             for j in range(0, np.shape(hyp_list)[0]):
-                hyp_cov += np.dot(
-                    w_list[j],
-                    np.dot((hyp_list[j] - mu_star).T, hyp_list[j] - mu_star),
+                hyp_cov += w_list[j] * np.outer(
+                    hyp_list[j] - mu_star, hyp_list[j] - mu_star
                 )
 
             hyp_cov /= 1 - np.sum(w_list**2)
-- 
2.43.0


From b778f3af19dc1e04878a9a5ace6e6ef76d24634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 53/85] fix: fixed sample numbers in updates during active
 sampling

---
 pyvbmc/vbmc/active_sample.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 1dac2c0..013e0e4 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -544,7 +544,9 @@ def active_sample(
                             # Decide number of fast optimizations
                             N_fastopts = math.ceil(
                                 options_update["ns_elbo_incr"]
-                                * options_update["ns_elbo"](vp.K)
+                                * options_update.eval(
+                                    "ns_elbo", {"K": vp.K}
+                                )
                             )
                             if options["update_random_alpha"]:
                                 optim_state["entropy_alpha"] = 1 - np.sqrt(
@@ -632,7 +634,7 @@ def active_sample(
                 np.any(theta0 != theta)
             ):
                 NSentFineK = math.ceil(
-                    options["ns_ent_fine_active"](vp0.K) / vp0.K
+                    options.eval("ns_ent_fine_active", {"K": vp0.K}) / vp0.K
                 )
                 elbo0 = -_neg_elcbo(
                     theta0, gp, vp0, 0.0, NSentFineK, False, True
-- 
2.43.0


From 887b8318766ecb0cae6861f43f826a7cf3fb7373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 54/85] fix: search optimization with unbounded active search

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 013e0e4..a2b7c55 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -371,8 +371,8 @@ def active_sample(
                     ub_search = np.maximum(x0, optim_state["ub_search"])
                 else:
                     xrange = gp.X.max(0) - gp.X.min(0)
-                    lb_search = np.minimum(gp.X, x0) - 0.1 * xrange
-                    ub_search = np.maximum(gp.X, x0) + 0.1 * xrange
+                    lb_search = np.minimum(gp.X.min(0), x0) - 0.1 * xrange
+                    ub_search = np.maximum(gp.X.max(0), x0) + 0.1 * xrange
 
                 if acq_eval.acq_info.get("log_flag"):
                     tol_fun = 1e-2
-- 
2.43.0


From 8a96bd94ac670abdc4779b5543162d47cdacec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:57 +0000
Subject: [PATCH 55/85] fix: option search_cache_frac

---
 pyvbmc/vbmc/active_sample.py  | 8 ++++----
 pyvbmc/whitening/whitening.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index a2b7c55..3800d1b 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -716,11 +716,11 @@ def _get_search_points(
             options.get("search_cache_frac") * N_random_points
         )
         if N_search_cache > 0:  # Take points from search cache
-            search_cache = optim_state.get("search_cache")
+            search_cache = np.reshape(optim_state["search_cache"], (-1, D))
+            # Missing points are sampled from the variational posterior below
+            N_search_cache = min(len(search_cache), N_search_cache)
             random_Xs = np.append(
-                random_Xs,
-                search_cache[: min(len(search_cache), N_search_cache)],
-                axis=0,
+                random_Xs, search_cache[:N_search_cache], axis=0
             )
 
         N_heavy = round(
diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index 408657f..dbb734f 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -219,7 +219,7 @@ def warp_input(vp, optim_state, function_logger, options):
     optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
 
     # If search cache is not empty, update it
-    if optim_state.get("search_cache"):
+    if np.size(optim_state.get("search_cache", [])) > 0:
         optim_state["search_cache"] = warpfun(optim_state["search_cache"])
 
     # Update other state fields
-- 
2.43.0


From 5afa4b17bf0056a02bf5a61cc0e385013eb654a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:20 +0000
Subject: [PATCH 56/85] fix: options for the selection of the best solution

---
 pyvbmc/vbmc/vbmc.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 69f1b8d..0679b7d 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -926,7 +926,11 @@ class VBMC:
 
             if doWarping:
                 timer.start_timer("warping")
-                vp_tmp, __, __, __ = self.determine_best_vp()
+                vp_tmp, __, __, __ = self.determine_best_vp(
+                    safe_sd=self.options["best_safe_sd"],
+                    frac_back=self.options["best_frac_back"],
+                    rank_criterion_flag=self.options["rank_criterion"],
+                )
                 vp_tmp = copy.deepcopy(vp_tmp)
                 # Store variables in case warp needs to be undone:
                 # (vp_old copied above)
@@ -1516,7 +1520,11 @@ class VBMC:
             )
 
         # Pick "best" variational solution to return
-        self.vp, elbo, elbo_sd, idx_best = self.determine_best_vp()
+        self.vp, elbo, elbo_sd, idx_best = self.determine_best_vp(
+            safe_sd=self.options["best_safe_sd"],
+            frac_back=self.options["best_frac_back"],
+            rank_criterion_flag=self.options["rank_criterion"],
+        )
 
         if self.options.get("do_final_boost"):
             # Last variational optimization with large number of components
@@ -2142,15 +2150,15 @@ class VBMC:
                 rank[order, 1] = np.arange(1, max_idx + 2)
 
                 # Rank by reliability index
-                order = self.iteration_history.get("r_index")[
-                    : max_idx + 1
-                ].argsort()
+                order = np.argsort(
+                    self.iteration_history.get("r_index")[: max_idx + 1]
+                )
                 rank[order, 2] = np.arange(1, max_idx + 2)
 
                 # Rank penalty to all non-stable iterations
                 rank[:, 3] = max_idx
                 stable = self.iteration_history.get("stable")[: max_idx + 1]
-                rank[stable.astype(bool), 3] = 1
+                rank[np.array(stable, dtype=bool), 3] = 1
 
                 idx_best = np.argmin(np.sum(rank, 1))
 
-- 
2.43.0


From 06cbb62882f75abe5d57b23b827af0bf4ab535b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 57/85] fix: per-component expected log joint without its
 variance

---
 pyvbmc/vbmc/variational_optimization.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index 59650d8..e2f92db 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -1358,8 +1358,7 @@ def _gp_log_joint(
     # Store contribution to the jog joint separately for each component?
     if separate_K:
         I_sk = np.zeros((Ns, K))
-        if compute_var:
-            J_sjk = np.zeros((Ns, K, K))
+        J_sjk = np.zeros((Ns, K, K)) if compute_var else None
 
     Xt = np.zeros((K, D, N))
     for k in range(0, K):
-- 
2.43.0


From befe004b89848069aff074f7ddd47ac441b2349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 58/85] fix: do not abort when the deterministic optimization
 stops early

---
 pyvbmc/vbmc/variational_optimization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/variational_optimization.py b/pyvbmc/vbmc/variational_optimization.py
index e2f92db..0537909 100644
--- a/pyvbmc/vbmc/variational_optimization.py
+++ b/pyvbmc/vbmc/variational_optimization.py
@@ -225,8 +225,9 @@ def optimize_vp(
                 tol=options["det_entropy_tol_opt"],
             )
 
-            if not res.success:
-                # SciPy minimize failed
+            if not (np.isfinite(res.fun) and np.all(np.isfinite(res.x))):
+                # SciPy minimize failed (stopping early, for example because
+                # of precision loss, is no reason to abort the inference)
                 raise RuntimeError(
                     "Cannot optimize variational parameters with",
                     "scipy.optimize.minimize.",
-- 
2.43.0


From 47720623f9cba22699a90e81dda0d9e09213e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 59/85] fix: search optimization with integer variables

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 3800d1b..878d895 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -415,8 +415,8 @@ def active_sample(
                     raise NotImplementedError("Not implemented yet")
 
                 if f_val_optim < f_val_old:
-                    X_acq[0, :] = AbstractAcqFcn._real2int(
-                        xsearch_optim,
+                    X_acq = AbstractAcqFcn._real2int(
+                        np.atleast_2d(xsearch_optim),
                         parameter_transformer,
                         optim_state["integer_vars"],
                     )
-- 
2.43.0


From 9b1c2c701a45ddb0536fd01e16a1a53f574de722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 60/85] fix: round integer variables within the bounds and not
 in place

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index b49ad19..53f4935 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -185,8 +185,14 @@ class AbstractAcqFcn(ABC):
 
         if np.any(integer_vars):
             X_temp = parameter_transformer.inverse(X)
-            X_temp[:, integer_vars] = np.around(X_temp[:, integer_vars])
+            # Integers within the bounds (half-integers, if any)
+            X_temp[:, integer_vars] = np.clip(
+                np.around(X_temp[:, integer_vars]),
+                np.ceil(parameter_transformer.lb_orig[:, integer_vars]),
+                np.floor(parameter_transformer.ub_orig[:, integer_vars]),
+            )
             X_temp = parameter_transformer(X_temp)
+            X = np.copy(X)  # Do not modify the input
             X[:, integer_vars] = X_temp[:, integer_vars]
 
         return X
-- 
2.43.0


From c80aa3f9268a9496b5c9ba2e43cb7c7aee63e2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:59 +0000
Subject: [PATCH 61/85] fix: integer variables in the initial design

---
 pyvbmc/vbmc/active_sample.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 878d895..5e43074 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -161,6 +161,14 @@ def active_sample(
 
         Xs = parameter_transformer(Xs)
 
+        # Map integer inputs of the points to be evaluated
+        idx_eval = np.ravel(np.isnan(ys))
+        Xs[idx_eval] = AbstractAcqFcn._real2int(
+            Xs[idx_eval],
+            parameter_transformer,
+            optim_state.get("integer_vars"),
+        )
+
         for idx in range(sample_count):
             if np.isnan(ys[idx]):  # Function value is not available
                 function_logger(Xs[idx])
-- 
2.43.0


From c47d0f0bdf4b57a9842a11024812d5914936aab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 62/85] fix: resampling weights of the importance sampling
 starting point

---
 pyvbmc/vbmc/active_importance_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index e11fcac..741a69b 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -228,8 +228,8 @@ def active_importance_sampling(vp, gp, acq_fcn, options):
                 ln_weights = active_is_old["ln_weights"][s, :].reshape(
                     -1, 1
                 ) + acq_fcn.is_log_added(f_mu=f_mu, f_s2=f_s2)
-                ln_weights_max = np.amax(ln_weights, axis=1).reshape(-1, 1)
-                if np.any(ln_weights_max == -np.inf):
+                ln_weights_max = np.amax(ln_weights)
+                if ln_weights_max == -np.inf:
                     raise ValueError("Invalid value.")
                 weights = np.exp(ln_weights - ln_weights_max).ravel()
                 weights = weights / np.sum(weights)
-- 
2.43.0


From 4e16627e7789f91e43c8aae20c2c02d976a64caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:35 +0000
Subject: [PATCH 63/85] fix: effective sample size from a number of samples

---
 pyvbmc/vbmc/active_importance_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/active_importance_sampling.py b/pyvbmc/vbmc/active_importance_sampling.py
index 741a69b..16ef861 100644
--- a/pyvbmc/vbmc/active_importance_sampling.py
+++ b/pyvbmc/vbmc/active_importance_sampling.py
@@ -453,7 +453,7 @@ def fess(vp, gp, X=100):
     # If a single number is passed, interpret it as the number of samples
     if np.isscalar(X):
         N = X
-        X = vp.sample(N, orig_flag=False)
+        X, __ = vp.sample(N, orig_flag=False)
     else:
         N = X.shape[0]
 
-- 
2.43.0


From 0be9503a05bd1e15ce6df855566da1e62d13577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 64/85] fix: integer variables in a rotated space

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index 53f4935..907a9fd 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -193,7 +193,11 @@ class AbstractAcqFcn(ABC):
             )
             X_temp = parameter_transformer(X_temp)
             X = np.copy(X)  # Do not modify the input
-            X[:, integer_vars] = X_temp[:, integer_vars]
+            if parameter_transformer.R_mat is None:
+                X[:, integer_vars] = X_temp[:, integer_vars]
+            else:  # Rounding changes all of the rotated coordinates
+                idx = np.all(np.isfinite(X_temp), axis=1)
+                X[idx] = X_temp[idx]
 
         return X
 
-- 
2.43.0


From 78af8816cb6a0b7302efd3da2a38023987074fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:24 +0000
Subject: [PATCH 65/85] fix: whitespace in the arguments of an acquisition
 function string

---
 pyvbmc/acquisition_functions/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/acquisition_functions/utilities.py b/pyvbmc/acquisition_functions/utilities.py
index 60dac6e..34bffdf 100644
--- a/pyvbmc/acquisition_functions/utilities.py
+++ b/pyvbmc/acquisition_functions/utilities.py
@@ -15,7 +15,7 @@ def string_to_acq(string):
     args = []
     kwargs = {}
     for arg in args_string.split(","):
-        arg = arg.rstrip().split("=")
+        arg = [part.strip() for part in arg.split("=")]
         if len(arg) == 1 and arg != [""]:
             args.append(literal_eval(arg[0]))
         elif len(arg) == 2:
-- 
2.43.0


From 3c52727287283bd99a5ce40d4b5466b9142918f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 66/85] fix: regularization of two-dimensional acquisition
 values

---
 pyvbmc/acquisition_functions/abstract_acq_fcn.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/acquisition_functions/abstract_acq_fcn.py b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
index 907a9fd..00be8c9 100644
--- a/pyvbmc/acquisition_functions/abstract_acq_fcn.py
+++ b/pyvbmc/acquisition_functions/abstract_acq_fcn.py
@@ -109,6 +109,14 @@ class AbstractAcqFcn(ABC):
             var_tot,
         )
 
+        # Re-shape to 1-D, if necessary (to avoid errors in cma.fmin)
+        if acq.ndim > 1:
+            if acq.shape[0] != acq.size and acq.shape[1] != acq.size:
+                raise ValueError(
+                    "Acquisition function should return a 1-D result (or a 2-D result which has size 1 along at least one axis)."
+                )
+            acq = acq.reshape(-1)
+
         # Regularization: penalize points where GP uncertainty
         # is below threshold
         if optim_state.get("variance_regularized_acq_fcn"):
@@ -137,13 +145,6 @@ class AbstractAcqFcn(ABC):
         )
         acq[idx_bounds] = np.inf
 
-        # Re-shape to 1-D, if necessary (to avoid errors in cma.fmin)
-        if acq.ndim > 1:
-            if acq.shape[0] != acq.size and acq.shape[1] != acq.size:
-                raise ValueError(
-                    "Acquisition function should return a 1-D result (or a 2-D result which has size 1 along at least one axis)."
-                )
-            acq = acq.reshape(-1)
         return acq
 
     @abstractmethod
-- 
2.43.0


From e8a93ef258a0bbae766deaf630324bd6e971779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 67/85] fix: number of search points when only part of the
 cache is used

---
 pyvbmc/vbmc/active_sample.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 5e43074..9c1111d 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -716,8 +716,8 @@ def _get_search_points(
         search_X = parameter_transformer(x0[idx_cache])
 
     # Randomly sample remaining points
-    if x0.shape[0] < number_of_points:
-        N_random_points = number_of_points - x0.shape[0]
+    if search_X.shape[0] < number_of_points:
+        N_random_points = number_of_points - search_X.shape[0]
         random_Xs = np.full((0, D), np.nan)
 
         N_search_cache = round(
-- 
2.43.0


From 874f68ac3d3269dadc326bf2531c9130d107ca4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:40 +0000
Subject: [PATCH 68/85] fix: apply the variance-based regularization of the
 acquisition functions

---
 pyvbmc/vbmc/vbmc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 0679b7d..afd229d 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -724,6 +724,7 @@ class VBMC:
         # By default, apply variance-based regularization
         # to acquisition functions
         optim_state["variance_regularized_acqfcn"] = True
+        optim_state["variance_regularized_acq_fcn"] = True
 
         # Setup search cache
         optim_state["search_cache"] = []
-- 
2.43.0


From 23dd71cf000243176415e674196812069e8f4269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:01 +0000
Subject: [PATCH 69/85] fix: evaluate the prior at the point of the likelihood

---
 pyvbmc/vbmc/vbmc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index afd229d..820bdd2 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2539,13 +2539,15 @@ class VBMC:
             if self.optim_state["uncertainty_handling_level"] == 2:
 
                 def log_joint(theta):
-                    ll, noise_est = log_likelihood(theta)
+                    # Neither callable may modify the other's argument
+                    ll, noise_est = log_likelihood(np.copy(theta))
                     return ll + log_prior(theta), noise_est
 
             else:
 
                 def log_joint(theta):
-                    return log_likelihood(theta) + log_prior(theta)
+                    # Neither callable may modify the other's argument
+                    return log_likelihood(np.copy(theta)) + log_prior(theta)
 
         else:
             # Otherwise just use provided log-joint
-- 
2.43.0


From d5d681a2a6b66aa25fa9df02d01de402b669ba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:50 +0000
Subject: [PATCH 70/85] fix: final boost with fixed component means

---
 pyvbmc/vbmc/vbmc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 820bdd2..68fc0c6 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2012,6 +2012,9 @@ class VBMC:
         changed_flag = False
 
         K_new = max(vp.K, self.options.get("min_final_components"))
+        if not self.options.get("variable_means"):
+            # Variational components fixed to training inputs
+            K_new = vp.K
 
         # Current entropy samples during variational optimization
         n_sent = self.options.eval("ns_ent", {"K": K_new})
-- 
2.43.0


From 50d19bf5abb823091bc873bd7723ac10b98754fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:52 +0000
Subject: [PATCH 71/85] fix: search bounds when warping from an earlier
 posterior

---
 pyvbmc/whitening/whitening.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index dbb734f..b38c8bc 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -115,6 +115,9 @@ def warp_input(vp, optim_state, function_logger, options):
     parameter_transformer = copy.deepcopy(vp.parameter_transformer)
     optim_state = copy.deepcopy(optim_state)
     function_logger = copy.deepcopy(function_logger)
+    # The space in which the search bounds and cache are given (``vp`` may
+    # come from an earlier iteration, before a previous warping):
+    parameter_transformer_old = function_logger.parameter_transformer
 
     if options.get("warp_nonlinear"):
         raise NotImplementedError("Non-linear warping is not supported.")
@@ -203,7 +206,7 @@ def warp_input(vp, optim_state, function_logger, options):
     # Invert points to original space with old transform,
     # then map to new space with new transform
     def warpfun(x):
-        return parameter_transformer(vp.parameter_transformer.inverse(x))
+        return parameter_transformer(parameter_transformer_old.inverse(x))
 
     Nrnd = 1000
     xx = (
-- 
2.43.0


From add261f3f1430b94fc260a5e9e308b26fca5f571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 72/85] fix: unscented transform of one point with several
 scales

---
 pyvbmc/whitening/whitening.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index b38c8bc..fd53705 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -49,6 +49,7 @@ def unscent_warp(fun, x, sigma):
 
     if (N1 == 1) and (N > 1):
         x = np.tile(x, [N, 1])
+        x_shape_orig = x.shape
     if (N2 == 1) and (N > 1):
         sigma = np.tile(sigma, [N, 1])
 
-- 
2.43.0


From 29ca5f804d058fb1d750743b02eaa6f08556f370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:18 +0000
Subject: [PATCH 73/85] fix: warping with an unbounded search

---
 pyvbmc/whitening/whitening.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/pyvbmc/whitening/whitening.py b/pyvbmc/whitening/whitening.py
index fd53705..a28e0a7 100644
--- a/pyvbmc/whitening/whitening.py
+++ b/pyvbmc/whitening/whitening.py
@@ -209,18 +209,25 @@ def warp_input(vp, optim_state, function_logger, options):
     def warpfun(x):
         return parameter_transformer(parameter_transformer_old.inverse(x))
 
-    Nrnd = 1000
-    xx = (
-        np.random.rand(Nrnd, vp.D)
-        * (optim_state["ub_search"] - optim_state["lb_search"])
-        + optim_state["lb_search"]
-    )
-    yy = warpfun(xx)
-    yyMin = np.min(yy, axis=0)
-    yyMax = np.max(yy, axis=0)
-    delta = yyMax - yyMin
-    optim_state["lb_search"] = np.atleast_2d(yyMin - delta / Nrnd)
-    optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
+    if np.all(np.isfinite(optim_state["lb_search"])) and np.all(
+        np.isfinite(optim_state["ub_search"])
+    ):
+        Nrnd = 1000
+        xx = (
+            np.random.rand(Nrnd, vp.D)
+            * (optim_state["ub_search"] - optim_state["lb_search"])
+            + optim_state["lb_search"]
+        )
+        yy = warpfun(xx)
+        yyMin = np.min(yy, axis=0)
+        yyMax = np.max(yy, axis=0)
+        delta = yyMax - yyMin
+        optim_state["lb_search"] = np.atleast_2d(yyMin - delta / Nrnd)
+        optim_state["ub_search"] = np.atleast_2d(yyMax + delta / Nrnd)
+    else:
+        # The search is not bounded
+        optim_state["lb_search"] = np.full((1, vp.D), -np.inf)
+        optim_state["ub_search"] = np.full((1, vp.D), np.inf)
 
     # If search cache is not empty, update it
     if np.size(optim_state.get("search_cache", [])) > 0:
-- 
2.43.0


From 552f8cede685425b65d0fb15a21b4ea65918965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:05 +0000
Subject: [PATCH 74/85] fix: observations of unknown noise enter the surrogate
 with their relative precision

---
 pyvbmc/vbmc/gaussian_process_train.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index fa9aa15..b7bcd92 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -85,7 +85,7 @@ def train_gp(
 
     # Pick the noise function.
     const_add = optim_state["gp_noise_fun"][0] == 1
-    user_add = optim_state["gp_noise_fun"][1] == 1
+    user_add = optim_state["gp_noise_fun"][1] in (1, 2)
     user_scale = optim_state["gp_noise_fun"][1] == 2
     rlod_add = optim_state["gp_noise_fun"][2] == 1
     noise_f = gpr.noise_functions.GaussianNoise(
-- 
2.43.0


From b3146fb3c9b7f8cd48442cd474a6b17c78eca4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:36 +0000
Subject: [PATCH 75/85] fix: upper bound on the length scales of the surrogate

---
 pyvbmc/vbmc/gaussian_process_train.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyvbmc/vbmc/gaussian_process_train.py b/pyvbmc/vbmc/gaussian_process_train.py
index b7bcd92..ca73487 100644
--- a/pyvbmc/vbmc/gaussian_process_train.py
+++ b/pyvbmc/vbmc/gaussian_process_train.py
@@ -349,12 +349,13 @@ def _gp_hyp(
     ## Change default bounds and set priors over hyperparameters.
 
     bounds = gp.get_bounds()
+    max_log_lengthscale = np.nan
     if options["upper_gp_length_factor"] > 0:
         # Max GP input length scale
-        bounds["covariance_log_lengthscale"] = (
-            -np.inf,
-            np.log(options["upper_gp_length_factor"] * (pub_tran - plb_tran)),
-        )
+        max_log_lengthscale = np.log(
+            options["upper_gp_length_factor"] * (pub_tran - plb_tran)
+        ).ravel()
+        bounds["covariance_log_lengthscale"] = (-np.inf, max_log_lengthscale)
     # Increase minimum noise.
     bounds["noise_log_scale"] = (np.log(min_noise), np.inf)
 
@@ -382,7 +383,7 @@ def _gp_hyp(
         )
         bounds["covariance_log_lengthscale"] = (
             cov_bounds_info["LB"][:D],
-            np.nan,
+            max_log_lengthscale,
         )
         # These bounds are wider since cov_bounds_info is based on the
         # high-posterior-density region as opposed to the full data
-- 
2.43.0


From cc07752c4975c082e0053abf81c4c62dcf0c0af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:51 +0000
Subject: [PATCH 76/85] fix: Gaussian divergence in many dimensions at extreme
 scales

---
 pyvbmc/stats/kl_div_mvn.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyvbmc/stats/kl_div_mvn.py b/pyvbmc/stats/kl_div_mvn.py
index 44fb550..a66bccf 100644
--- a/pyvbmc/stats/kl_div_mvn.py
+++ b/pyvbmc/stats/kl_div_mvn.py
@@ -28,12 +28,13 @@ def kl_div_mvn(mu1, sigma1, mu2, sigma2):
     sigma2 = np.atleast_2d(sigma2)
     D = mu1.size
     dmu = mu2 - mu1
-    detq1 = np.linalg.det(sigma1)
-    detq2 = np.linalg.det(sigma2)
-    if (detq1 == 0 or detq2 == 0):
+    # Log determinants (the determinants may overflow or underflow)
+    sign1, lndetq1 = np.linalg.slogdet(sigma1)
+    sign2, lndetq2 = np.linalg.slogdet(sigma2)
+    if sign1 <= 0 or sign2 <= 0:
         # KL divergence is infinite
         return np.concatenate((np.inf, np.inf), axis=None)
-    lndet = np.log(detq2 / detq1)
+    lndet = lndetq2 - lndetq1
     a = np.linalg.solve(sigma2, sigma1)
     b = np.linalg.solve(sigma2, dmu)
     kl1 = 0.5 * (np.trace(a) + dmu.T @ b - D + lndet)
-- 
2.43.0


From b51edb86c54545f9cdabb00f205fc378bd633d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:45 +0000
Subject: [PATCH 77/85] fix: replicate scalar bounds in each dimension as
 documented

---
 pyvbmc/vbmc/vbmc.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 68fc0c6..615a370 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -207,6 +207,12 @@ class VBMC:
         if upper_bounds is None:
             upper_bounds = np.ones((1, self.D)) * np.inf
 
+        # Scalar bounds are replicated in each dimension
+        if np.ndim(lower_bounds) == 0:
+            lower_bounds = np.full((1, self.D), lower_bounds)
+        if np.ndim(upper_bounds) == 0:
+            upper_bounds = np.full((1, self.D), upper_bounds)
+
         # Check/fix boundaries and starting points
         (
             self.x0,
-- 
2.43.0


From eafca50b548af7fc9df3197783e42e794caa4f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:25 +0000
Subject: [PATCH 78/85] fix: hard bounds in column form with estimated
 plausible bounds

---
 pyvbmc/vbmc/vbmc.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 615a370..4a13d4e 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -335,6 +335,21 @@ class VBMC:
         N0, D = x0.shape
 
         if plausible_lower_bounds is None or plausible_upper_bounds is None:
+            # Row vectors, to be compared with the starting points
+            (
+                lower_bounds,
+                upper_bounds,
+                plausible_lower_bounds,
+                plausible_upper_bounds,
+            ) = (
+                None if bound is None else np.reshape(bound, (1, -1))
+                for bound in (
+                    lower_bounds,
+                    upper_bounds,
+                    plausible_lower_bounds,
+                    plausible_upper_bounds,
+                )
+            )
             if N0 > 1:
                 self.logger.warning(
                     "PLB and/or PUB not specified. Estimating"
-- 
2.43.0


From 67bedb4d1a6557ab0d9e6f7a8dd97dc39f5b426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 79/85] fix: centre the initial posterior on the starting
 points

---
 pyvbmc/vbmc/vbmc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 4a13d4e..11b0e08 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -250,7 +250,7 @@ class VBMC:
         self.vp = VariationalPosterior(
             D=self.D,
             K=self.options.get("k_warmup"),
-            x0=self.x0,
+            x0=self.parameter_transformer(self.x0),
             parameter_transformer=self.parameter_transformer,
         )
         if not self.options.get("warmup"):
-- 
2.43.0


From 7d96fbf6cc4ace5057aaefd94d43b36b75869675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 80/85] fix: write each run's log only to its own log file

---
 pyvbmc/vbmc/vbmc.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 11b0e08..c5b371e 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2500,15 +2500,12 @@ class VBMC:
         else:
             log_file_mode = "a"
 
-        # Avoid duplicating a handler for the same log file
-        # (remove duplicates, re-add below)
-        for handler in logger.handlers:
-            log_file_name = self.options.get("log_file_name")
-            if (
-                log_file_name is not None
-                and handler.baseFilename == os.path.abspath(log_file_name)
-            ):
+        # The logger is shared by all VBMC objects: remove the log files of
+        # other runs, and duplicates for the same log file (re-added below)
+        for handler in logger.handlers[:]:
+            if getattr(handler, "vbmc_log_file", False):
                 logger.removeHandler(handler)
+                handler.close()
 
         if self.options.get("log_file_name") and self.options.get(
             "log_file_level"
@@ -2538,6 +2535,7 @@ class VBMC:
                 return record.name != "VBMC.stream_only"
 
             file_handler.addFilter(log_file_filter)
+            file_handler.vbmc_log_file = True
 
             logger.addHandler(file_handler)
 
-- 
2.43.0


From bd158d29b2402fc96fd62e2767954c2f08909605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 81/85] fix: accept the documented display and log file levels

---
 pyvbmc/vbmc/active_sample.py | 2 +-
 pyvbmc/vbmc/vbmc.py          | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyvbmc/vbmc/active_sample.py b/pyvbmc/vbmc/active_sample.py
index 9c1111d..bbea7d4 100644
--- a/pyvbmc/vbmc/active_sample.py
+++ b/pyvbmc/vbmc/active_sample.py
@@ -70,7 +70,7 @@ def active_sample(
     # Logging
     logger = logging.getLogger("ActiveSample")
     logger.setLevel(logging.INFO)
-    if options.get("display") == "off":
+    if options.get("display") in ("off", "notify", "final"):
         logger.setLevel(logging.WARN)
     elif options.get("display") == "iter":
         logger.setLevel(logging.INFO)
diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index c5b371e..6874c1c 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -2481,7 +2481,7 @@ class VBMC:
         # set up VBMC logger
         logger = logging.getLogger("VBMC" + substring)
         logger.setLevel(logging.INFO)
-        if self.options.get("display") == "off":
+        if self.options.get("display") in ("off", "notify", "final"):
             logger.setLevel(logging.WARN)
         elif self.options.get("display") == "iter":
             logger.setLevel(logging.INFO)
@@ -2516,7 +2516,7 @@ class VBMC:
 
             # Set file logger level according to string or logging level:
             log_file_level = self.options.get("log_file_level", logging.INFO)
-            if log_file_level == "off":
+            if log_file_level in ("off", "notify", "final"):
                 file_handler.setLevel(logging.WARN)
             elif log_file_level == "iter":
                 file_handler.setLevel(logging.INFO)
-- 
2.43.0


From 957cac065465553e22d632b7c518dda6d0c5f3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 82/85] fix: accept a list of data points to highlight in plots

---
 pyvbmc/variational_posterior/variational_posterior.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyvbmc/variational_posterior/variational_posterior.py b/pyvbmc/variational_posterior/variational_posterior.py
index 9cedb88..402b0d0 100644
--- a/pyvbmc/variational_posterior/variational_posterior.py
+++ b/pyvbmc/variational_posterior/variational_posterior.py
@@ -1234,7 +1234,7 @@ class VariationalPosterior:
         # plot gp data
         if plot_data and gp is not None:
             # highlight nothing when argument is None
-            if highlight_data is None or highlight_data.size == 0:
+            if highlight_data is None or len(highlight_data) == 0:
                 highlight_data = np.array([False] * len(gp.X))
                 normal_data = ~highlight_data
             else:
-- 
2.43.0


From d419da3aec0b44d708f00ece49632c940d711ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:46 +0000
Subject: [PATCH 83/85] fix: show the training data in the plots of a run

---
 pyvbmc/vbmc/vbmc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 6874c1c..59a3507 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -1527,6 +1527,7 @@ class VBMC:
                     highlight_data=highlight_data,
                     plot_vp_centres=True,
                     title=title,
+                    gp=self.gp,
                 )
                 plt.show()
 
@@ -1627,6 +1628,7 @@ class VBMC:
                 highlight_data=None,
                 plot_vp_centres=True,
                 title="VBMC final ({} iterations)".format(self.iteration),
+                gp=self.iteration_history["gp"][idx_best],
             )
             plt.show()
 
-- 
2.43.0


From d66d960c25dfa1fa27739a49b71eb4f5e1933600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:26 +0000
Subject: [PATCH 84/85] fix: show each iteration's data and action in
 animations

---
 pyvbmc/vbmc/create_vbmc_animation.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyvbmc/vbmc/create_vbmc_animation.py b/pyvbmc/vbmc/create_vbmc_animation.py
index fa3bc25..fca8025 100644
--- a/pyvbmc/vbmc/create_vbmc_animation.py
+++ b/pyvbmc/vbmc/create_vbmc_animation.py
@@ -53,10 +53,10 @@ def create_vbmc_animation(
             vp = vbmc.vp
         else:
             vp = vbmc.iteration_history["vp"][i]
+            gp = vbmc.iteration_history["gp"][i]
 
-        if 0 < i < len(vbmc.iteration_history["vp"]) - 2:
+        if 0 < i < len(vbmc.iteration_history["iter"]):
             previous_gp = vbmc.iteration_history["gp"][i - 1]
-            gp = vbmc.iteration_history["gp"][i]
             # find points that are new in this iteration
             # (hacky cause numpy only has 1D set diff)
             highlight_data = np.array(
@@ -74,22 +74,22 @@ def create_vbmc_animation(
         )
 
         # set title of plot accordingly
-        if suptitle in ("iteration", "full"):
-            fig.suptitle("PyVBMC iteration {}".format(i))
-        elif (
+        if (
             suptitle == "full"
             and i < len(vbmc.iteration_history["iter"])
             and len(vbmc.iteration_history["logging_action"][i]) > 0
         ):
             fig.suptitle(
                 "PyVBMC iteration {} ({})".format(
-                    i, "".join(vbmc.iteration_history["logging_action"][i])
+                    i, ", ".join(vbmc.iteration_history["logging_action"][i])
                 )
             )
+        elif suptitle in ("iteration", "full"):
+            fig.suptitle("PyVBMC iteration {}".format(i))
         elif suptitle != "none":
             raise ValueError(f"Unsupported suptitle option {suptitle}.")
 
-        if i == len(vbmc.iteration_history["iter"]):
+        if i == len(vbmc.iteration_history["iter"]) and suptitle != "none":
             fig.suptitle("PyVBMC final ({} iterations)".format(i - 1))
 
         # make axis limits the same for all figures and subplots
-- 
2.43.0


From 18779d14d54c2eabcf03d425b9f6eb663a722b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 85/85] fix: resume an interrupted run from its last complete
 iteration

---
 pyvbmc/vbmc/vbmc.py | 96 +++++++++++++++++++++++++++++++++------------
 1 file changed, 70 insertions(+), 26 deletions(-)

diff --git a/pyvbmc/vbmc/vbmc.py b/pyvbmc/vbmc/vbmc.py
index 59a3507..3f3009b 100644
--- a/pyvbmc/vbmc/vbmc.py
+++ b/pyvbmc/vbmc/vbmc.py
@@ -888,6 +888,23 @@ class VBMC:
                 " of the log-joint."
             )
 
+        if self.iteration < 0:
+            self._initial_state = copy.deepcopy(
+                {
+                    attr: getattr(self, attr)
+                    for attr in [
+                        "gp",
+                        "vp",
+                        "function_logger",
+                        "optim_state",
+                        "hyp_dict",
+                    ]
+                }
+            )
+        elif self.iteration > self._last_complete_iteration():
+            # The last iteration was interrupted: discard it
+            self._restore_iteration(self._last_complete_iteration())
+
         if self.is_finished:
             self.logger.warning("Continuing optimization from previous state.")
             self.is_finished = False
@@ -2310,37 +2327,17 @@ class VBMC:
             vbmc = dill.load(f)
 
         # Set/check iteration
+        last_iteration = vbmc._last_complete_iteration()
         if iteration is None:
-            iteration = vbmc.iteration
+            iteration = last_iteration
         else:
-            if not (0 <= iteration <= vbmc.iteration):
+            if not (0 <= iteration <= last_iteration):
                 raise ValueError(
-                    f"Specified iteration ({iteration}) should be >= 0 and <= last stored iteration ({vbmc.iteration})."
+                    f"Specified iteration ({iteration}) should be >= 0 and <= last stored iteration ({last_iteration})."
                 )
 
-        # Set states for VBMC right before the specified iteration
-        if hasattr(vbmc, "iteration_history"):
-            # Handle instances saved before running vbmc.optimize()
-            for attr in ["gp", "vp", "function_logger", "optim_state"]:
-                if vbmc.iteration_history[attr] is not None:
-                    setattr(
-                        vbmc, attr, vbmc.iteration_history[attr][iteration]
-                    )
-            if vbmc.gp is not None and vbmc.gp.X.shape[0] != np.sum(
-                vbmc.function_logger.X_flag
-            ):
-                # The training data were trimmed after recording the GP
-                vbmc.gp = reupdate_gp(
-                    vbmc.function_logger, copy.deepcopy(vbmc.gp)
-                )
-            if vbmc.optim_state.get("hyp_dict") is not None:
-                vbmc.hyp_dict = vbmc.optim_state["hyp_dict"]
-            vbmc.iteration = iteration
-            for k, v in vbmc.iteration_history.items():
-                if v is not None:
-                    vbmc.iteration_history[k] = vbmc.iteration_history[k][
-                        : (iteration + 1)
-                    ]
+        # Set states for VBMC right after the specified iteration
+        vbmc._restore_iteration(iteration)
 
         # Update with new options (e.g. higher number of max iterations)
         if new_options is not None:
@@ -2362,6 +2359,53 @@ class VBMC:
 
         return vbmc
 
+    def _last_complete_iteration(self):
+        """
+        Private method to get the index of the last complete iteration.
+
+        Returns
+        -------
+        iteration : int
+            The index of the last iteration which was not interrupted (e.g. by
+            an exception of the target), or -1 if there is none.
+        """
+        # The random state is recorded at the very end of an iteration
+        random_states = self.iteration_history["random_state"]
+        return -1 if random_states is None else len(random_states) - 1
+
+    def _restore_iteration(self, iteration: int):
+        """
+        Private method to set the state to the end of a recorded iteration.
+
+        Parameters
+        ----------
+        iteration : int
+            The index of the iteration, or -1 for the state before the first
+            iteration.
+        """
+        if iteration < 0:
+            if self.iteration >= 0:
+                # The first iteration was interrupted
+                for attr, val in copy.deepcopy(self._initial_state).items():
+                    setattr(self, attr, val)
+                self.is_finished = False
+        else:
+            for attr in ["gp", "vp", "function_logger", "optim_state"]:
+                setattr(self, attr, self.iteration_history[attr][iteration])
+            if self.gp.X.shape[0] != np.sum(self.function_logger.X_flag):
+                # The training data were trimmed after recording the GP
+                self.gp = reupdate_gp(
+                    self.function_logger, copy.deepcopy(self.gp)
+                )
+            if self.optim_state.get("hyp_dict") is not None:
+                self.hyp_dict = self.optim_state["hyp_dict"]
+        self.iteration = iteration
+        for k, v in self.iteration_history.items():
+            if v is not None:
+                self.iteration_history[k] = (
+                    v[: (iteration + 1)] if iteration >= 0 else None
+                )
+
     def _create_result_dict(
         self, idx_best: int, termination_message: str, success_flag: bool
     ):
-- 
2.43.0

