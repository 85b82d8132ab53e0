From 98614a970bfb0723aec0c27c77d283d9945636d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 01/34] fix: return the pairs from generate_ranking_pairs

---
 src/lop/utilities/preference_pairs.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lop/utilities/preference_pairs.py b/src/lop/utilities/preference_pairs.py
index c70f7fb..406d122 100644
--- a/src/lop/utilities/preference_pairs.py
+++ b/src/lop/utilities/preference_pairs.py
@@ -112,5 +112,4 @@ def generate_ranking_pairs(X, real_f):
         for j, idx2 in enumerate(sorted_idx[i+1:]):
             pairs.append((get_dk(1,0), idx1, idx2))
 
-
-
+    return pairs
-- 
2.43.0


From 2a5f1eae600636cdc074d4678d415c3723a143ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 02/34] fix: shift each query by its own maximum in
 p_human_choice

---
 src/lop/utilities/human_choice_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/utilities/human_choice_model.py b/src/lop/utilities/human_choice_model.py
index 7b86ed1..3de1dd3 100644
--- a/src/lop/utilities/human_choice_model.py
+++ b/src/lop/utilities/human_choice_model.py
@@ -41,7 +41,7 @@ from scipy import stats
 #
 # @return output probability distribution of human choice
 def p_human_choice(r, p=1.0):
-    r = r - np.max(r)
+    r = r - np.max(r, axis=-1, keepdims=True)
     e = np.exp(r*p) # exponent of r
     if len(r.shape) > 1:
         sum_e = np.sum(e,axis=-1)
-- 
2.43.0


From 251661b1ca3371ce7b0b17b2a1d794d19a178d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:34 +0000
Subject: [PATCH 03/34] fix: RBF kernel length scale derivative was twice the
 true derivative

---
 src/lop/kernels/RBF_kern.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 5136842..3b0c402 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -145,7 +145,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
         # if N == N:
         #     dSigma_noise = np.eye(N)
         # else:
@@ -161,7 +161,7 @@ class RBF_kern(KernelFunc):
         exp_x = np.exp(-top / (2 * self.l*self.l))
 
         dSigma = 2 * self.sigma * exp_x
-        dl = 2 * self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
+        dl = self.sigma * self.sigma * top * exp_x / (self.l*self.l*self.l)
 
         return np.array([dSigma, dl])
 
-- 
2.43.0


From 9ebf5094387f6ac65d59b463f47e0f45981c98f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:47 +0000
Subject: [PATCH 04/34] fix: RBF kernel adds noise only to the covariance of a
 set with itself

---
 src/lop/kernels/RBF_kern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/kernels/RBF_kern.py b/src/lop/kernels/RBF_kern.py
index 3b0c402..2edba46 100644
--- a/src/lop/kernels/RBF_kern.py
+++ b/src/lop/kernels/RBF_kern.py
@@ -116,7 +116,7 @@ class RBF_kern(KernelFunc):
         top = np.sum(diff*diff, axis=2)
 
         cov = self.sigma * self.sigma * np.exp(-top / (2 * self.l*self.l))
-        if cov.shape[0] == cov.shape[1] and (X[0] == Y[0]).all():
+        if cov.shape[0] == cov.shape[1] and (X == Y).all():
             cov += np.eye(cov.shape[0])*self.sigma_noise
         return cov
 
-- 
2.43.0


From e70f2b7e8dd7c6aee841389b0391f6175248d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:01 +0000
Subject: [PATCH 05/34] fix: DualKern.cov_gradient returns one matrix per
 parameter for products

---
 src/lop/kernels/KernelFunc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index d33cc05..e0e47cd 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -230,8 +230,10 @@ class DualKern(KernelFunc):
             a_grad = self.a.cov_gradient(X,Y)
             b_grad = self.b.cov_gradient(X,Y)
         elif self.operator == '*':
-            a_grad = self.a.cov_gradient(X,Y) * self.b.cov(X,Y)
-            b_grad = self.b.cov_gradient(X,Y) * self.a.cov(X,Y)
+            a_cov = self.a.cov(X,Y)
+            b_cov = self.b.cov(X,Y)
+            a_grad = tuple(grad * b_cov for grad in self.a.cov_gradient(X,Y))
+            b_grad = tuple(grad * a_cov for grad in self.b.cov_gradient(X,Y))
         else:
             raise NotImplementedError('DualKern does not have operator `'+self.operator+'` implemented')
 
-- 
2.43.0


From 15348351d7bd8a38e989ff851adc458d99eb17a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:13 +0000
Subject: [PATCH 06/34] fix: periodic kernel derivatives

---
 src/lop/kernels/PeriodicKern.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/lop/kernels/PeriodicKern.py b/src/lop/kernels/PeriodicKern.py
index 12b63c8..b9ea3cc 100644
--- a/src/lop/kernels/PeriodicKern.py
+++ b/src/lop/kernels/PeriodicKern.py
@@ -147,20 +147,17 @@ class PeriodicKern(KernelFunc):
 
         X_expanded = np.repeat(X[:,np.newaxis,:], M, axis=1)
         Y_expanded = np.repeat(Y[np.newaxis,:,:], N, axis=0)
-        diff = X_expanded - Y_expanded
-        top = np.sum(diff*diff, axis=2)
-
-        exp_x = np.exp(-top / (2 * self.l*self.l))
-
         diff = X_expanded - Y_expanded
         uv_norm = np.sum(np.abs(diff), axis=2)
-        
+
+        sin_tmp = np.sin(np.pi*uv_norm / self.p)
         cos_tmp = np.cos(np.pi*uv_norm / self.p)
-        
+        exp_x = np.exp(-2 * sin_tmp * sin_tmp / (self.l * self.l))
+
         dSigma = 2 * self.sigma * exp_x
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            cos_tmp / (self.l*self.l * self.p*self.p)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * cos_tmp / (self.l*self.l * self.p*self.p)
 
         return dSigma, dl, dp
 
@@ -173,10 +170,10 @@ class PeriodicKern(KernelFunc):
 
         dSigma = 2 * self.sigma * exp_x
 
-        dl = -2 * self.sigma*self.sigma * exp_x * uv_norm / (self.l*self.l*self.l)
+        dl = 4 * self.sigma*self.sigma * exp_x * sin_tmp * sin_tmp / (self.l*self.l*self.l)
 
-        dp = 2 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
-            np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
+        dp = 4 * np.pi * self.sigma * self.sigma * uv_norm * exp_x * \
+            sin_tmp * np.cos(np.pi * uv_norm / self.p) / (self.l*self.l * self.p*self.p)
 
         return np.array([dSigma, dl, dp])
 
-- 
2.43.0


From 16e66c43b3f5e8e59837fb237313c015c81c6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:27 +0000
Subject: [PATCH 07/34] fix: zeroed RBF kernel: normalise by the prior
 variance, exact derivatives, no noise at the zero point

---
 src/lop/kernels/RBF_kern_zeroed.py | 47 +++++++++++++++++-------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/lop/kernels/RBF_kern_zeroed.py b/src/lop/kernels/RBF_kern_zeroed.py
index 63ae3b7..05ac591 100644
--- a/src/lop/kernels/RBF_kern_zeroed.py
+++ b/src/lop/kernels/RBF_kern_zeroed.py
@@ -79,18 +79,22 @@ class RBF_kern_zeroed(RBF_kern):
         return cov - cov_zero
 
     def zero_cov(self, X, Y):
-        N = X.shape[0]
-        M = Y.shape[0]
+        cov_x = self.cov_to_zero(X)
+        cov_y = self.cov_to_zero(Y)
 
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
+        return cov_x[:,np.newaxis] * cov_y[np.newaxis,:] / (self.sigma * self.sigma)
 
-        X_expanded = np.repeat(cov_x, M, axis=1)
-        Y_expanded = np.repeat(cov_y, N, axis=0)
-
-        
+    ## covariance of each sample with the zero point
+    # the zero point has no noise of its own.
+    # @param X - samples (n1,k) numpy array
+    #
+    # @return (n1,) array
+    def cov_to_zero(self, X):
+        if len(X.shape) == 1:
+            X = X[:,np.newaxis]
+        diff = X - self.zero_pt
 
-        return X_expanded * Y_expanded / (self.sigma * self.sigma)
+        return self.sigma * self.sigma * np.exp(-np.sum(diff*diff, axis=1) / (2 * self.l*self.l))
 
 
     # get gradient of the covariance matrix
@@ -105,21 +109,18 @@ class RBF_kern_zeroed(RBF_kern):
 
         dSigma, dl = super().cov_gradient(X,Y)
 
-        N = X.shape[0]
-        M = Y.shape[0]
-
-        cov_x = super().cov(X, self.zero_pt[np.newaxis,:])
-        cov_y = super().cov(self.zero_pt[np.newaxis,:], Y)
-
-        X_expanded = np.repeat(cov_x, M, axis=1)
-        Y_expanded = np.repeat(cov_y, N, axis=0)
+        X_expanded = self.cov_to_zero(X)[:,np.newaxis]
+        Y_expanded = self.cov_to_zero(Y)[np.newaxis,:]
 
         x_sig, x_l = super().cov_gradient(X, self.zero_pt[np.newaxis,:])
         y_sig, y_l = super().cov_gradient(self.zero_pt[np.newaxis,:], Y)
 
         # f(x)g'(x) + f'(x)g(x)
-        zero_sigma = x_sig * Y_expanded + X_expanded * y_sig
-        zero_l =     x_l * Y_expanded + X_expanded * y_l
+        # with f(x)g(x) divided by the variance of the zero point sigma^2
+        var = self.sigma * self.sigma
+        zero_sigma = (x_sig * Y_expanded + X_expanded * y_sig) / var \
+                        - 2 * X_expanded * Y_expanded / (var * self.sigma)
+        zero_l =     (x_l * Y_expanded + X_expanded * y_l) / var
 
         return dSigma-zero_sigma, dl-zero_l
 
@@ -133,7 +134,12 @@ class RBF_kern_zeroed(RBF_kern):
         grad_zero_v = super().gradient(v, self.zero_pt)
 
         # f(x)g'(x) + f'(x)g(x)
-        grad_zero = super()(u, self.zero_pt) * grad_zero_v +  grad_zero_u * super()(v, self.zero_pt)
+        # with f(x)g(x) divided by the variance of the zero point sigma^2
+        cov_u = super().__call__(u, self.zero_pt)
+        cov_v = super().__call__(v, self.zero_pt)
+        var = self.sigma * self.sigma
+        grad_zero = (cov_u * grad_zero_v + grad_zero_u * cov_v) / var
+        grad_zero[0] -= 2 * cov_u * cov_v / (var * self.sigma)
 
         return grad - grad_zero
 
@@ -142,5 +148,6 @@ class RBF_kern_zeroed(RBF_kern):
         
         cov = super().__call__(u,v)
         cov_0 = super().__call__(u, self.zero_pt)*super().__call__(v, self.zero_pt)
+        cov_0 = cov_0 / (self.sigma * self.sigma)
 
         return cov - cov_0
-- 
2.43.0


From f0b28411adc104f12f27a4c4c12d62e86ac5d858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:02 +0000
Subject: [PATCH 08/34] fix: PreferenceProbit.calc_W_dF third-order term

---
 src/lop/probits/PreferenceProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/PreferenceProbit.py b/src/lop/probits/PreferenceProbit.py
index f7b69d5..5ea3739 100644
--- a/src/lop/probits/PreferenceProbit.py
+++ b/src/lop/probits/PreferenceProbit.py
@@ -218,7 +218,7 @@ class PreferenceProbit(ProbitBase):
         pdf_cdf_ratio, pdf_cdf_ratio2 = calc_pdf_cdf_ratio(z)
 
         paren_pairs = np.where(np.logical_and(z < 0, np.isinf(pdf_cdf_ratio)), 0, \
-                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * std_norm_pdf(z))
+                        pdf_cdf_ratio - z*z*pdf_cdf_ratio - 3*z*pdf_cdf_ratio2 - 2 * pdf_cdf_ratio2 * pdf_cdf_ratio)
         paren_pairs *= y[:,0]*y[:,0]*y[:,0]
         paren_pairs *= -1 / (2 * np.sqrt(2) * self.sigma * self.sigma * self.sigma)
 
-- 
2.43.0


From 37c0ab1c55edd05e799522fe26a64b20cc0fbbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:19 +0000
Subject: [PATCH 09/34] fix: second derivative of the ordinal log likelihood

---
 src/lop/probits/OrdinalProbit.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index c4c05b0..239e517 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -139,6 +139,15 @@ class OrdinalProbit(ProbitBase):
                 out = std_norm_pdf(z)
         return out
 
+    # z times the normal pdf of z at the upper break point of rating y
+    # @param y - a single rating
+    # @param f - the latent value of the rated point
+    def z_norm_pdf(self, y, f):
+        if y == 0 or y == self.n_ordinals: # infinite break point, z*N(z) -> 0
+            return 0
+        z = self.z_k(y, f)
+        return z*std_norm_pdf(z)
+
     def norm_cdf(self, y, F, var_x=0.0):
         if isinstance(y, tuple):
             f = F[y[1]]
@@ -197,7 +206,7 @@ class OrdinalProbit(ProbitBase):
                     d2py_df2[i] = -(self._ivar*(1.0 - (z1**2 *ep - z2**2)/(ep - 1.0)) + dpy_df[i]**2)
             else:
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
-                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i])
+                d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
         W = np.diagflat(-d2py_df2)
 
-- 
2.43.0


From b367df83b3ebebdc7d8a1f47d082f51eb774bf7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:37 +0000
Subject: [PATCH 10/34] fix: ordinal derivatives add up repeated ratings of a
 point

---
 src/lop/probits/OrdinalProbit.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 239e517..269817e 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -208,15 +208,13 @@ class OrdinalProbit(ProbitBase):
                 dpy_df[i] = -self._isigma*(self.norm_pdf(y[i], f[i]) - self.norm_pdf(y[i]-1, f[i])) / l[i]
                 d2py_df2[i] = -(dpy_df[i]**2 + self._ivar*(self.z_norm_pdf(y[i], f[i]) - self.z_norm_pdf(y[i]-1, f[i])) / l[i])
 
-        W = np.diagflat(-d2py_df2)
-
         # setup the indexing to reshape into full gradient of F
+        # a point may have several ratings, which all add up
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        idx_grid = np.meshgrid(y_orig[1],y_orig[1])
-        full_W[tuple(idx_grid)] = W
+        np.add.at(full_W, (y_orig[1], y_orig[1]), -d2py_df2)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y_orig[1]] = dpy_df
+        np.add.at(full_dpy_df, y_orig[1], dpy_df)
 
         return full_W, full_dpy_df, np.sum(py)
 
-- 
2.43.0


From fd1f315ff903c16905bef844b0e9926a341320c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:35 +0000
Subject: [PATCH 11/34] fix: AbsBoundProbit.calc_W_dF has the sign of W

---
 src/lop/probits/AbsBoundProbit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a6c2291..538651d 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -354,7 +354,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = Wdiag
+        dW[y[1],y[1],y[1]] = -Wdiag # W is the negative Hessian
 
         return dW
 
-- 
2.43.0


From 60fa7a68d667ecf1f14141acb42b87242165d026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 12/34] fix: AbsBoundProbit.calc_W_dHyper derivative by the
 precision

---
 src/lop/probits/AbsBoundProbit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 538651d..a3f15b5 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -402,10 +402,10 @@ class AbsBoundProbit(ProbitBase):
         term2_a = -(v*f / (2*sqrt2 * sigma3)) * gauss_pdf
         term2_b = -mu*aa1 + bb1 - mu*bb1
 
-        term3 = (v / sigma2) * gauss_pdf2 * (aa1 + bb1)
+        term3 = -(v / sigma2) * gauss_pdf2 * (aa1 + bb1)
         
-        term4_a = ((v*v) / (2*sigma2)) * gauss_pdf2
-        term4_b = mu*aa1 + (1-mu)*bb2
+        term4_a = -((v*v) / (2*sigma2)) * gauss_pdf2
+        term4_b = mu*aa2 + (1-mu)*bb2
 
         dW_dv = term1 + term2_a*term2_b + term3 + term4_a*term4_b
 
-- 
2.43.0


From 356bbf35e1430e7599e59f079f21e6447de9fd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:06 +0000
Subject: [PATCH 13/34] fix: absolute score likelihood and derivatives add up
 repeated scores of a point

---
 src/lop/probits/AbsBoundProbit.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index a3f15b5..43a1027 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -284,10 +284,11 @@ class AbsBoundProbit(ProbitBase):
 
         # setup the indexing
         full_W = np.zeros((F.shape[0], F.shape[0]))
-        full_W[y[1],y[1]] = Wdiag
+        # a point may have several scores, which all add up
+        np.add.at(full_W, (y[1],y[1]), Wdiag)
 
         full_dpy_df = np.zeros(F.shape[0])
-        full_dpy_df[y[1]] = dpy_df
+        np.add.at(full_dpy_df, y[1], dpy_df)
 
         return -full_W, full_dpy_df, np.sum(py)
 
@@ -307,10 +308,8 @@ class AbsBoundProbit(ProbitBase):
         aa, bb = self.get_alpha_beta(f)
 
         py = beta.logpdf(y_selected, aa, bb)
-        full_py = np.zeros(F.shape[0])
-        full_py[y[1]] = py
 
-        return np.sum(full_py)
+        return np.sum(py)
 
 
 
@@ -354,7 +353,7 @@ class AbsBoundProbit(ProbitBase):
         Wdiag = term1_a*term1_b + term2_a*term2_b + term3_a*term3_b
 
         dW = np.zeros((F.shape[0], F.shape[0], F.shape[0]))
-        dW[y[1],y[1],y[1]] = -Wdiag # W is the negative Hessian
+        np.add.at(dW, (y[1],y[1],y[1]), -Wdiag) # W is the negative Hessian
 
         return dW
 
@@ -429,11 +428,11 @@ class AbsBoundProbit(ProbitBase):
 
         if self.optimize_v_only:
             dW_dHyper = np.zeros((1, len(F), len(F)))
-            dW_dHyper[0, y[1], y[1]] = dW_dv
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dv)
         else:
             dW_dHyper = np.zeros((2, len(F), len(F)))
-            dW_dHyper[1, y[1], y[1]] = dW_dv
-            dW_dHyper[0, y[1], y[1]] = dW_dSigma
+            np.add.at(dW_dHyper[1], (y[1], y[1]), dW_dv)
+            np.add.at(dW_dHyper[0], (y[1], y[1]), dW_dSigma)
 
         return -dW_dHyper
 
-- 
2.43.0


From 4984d673c6e2e6842ffb2f7d5f3fea6d743d9e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:19 +0000
Subject: [PATCH 14/34] fix: AbsBoundProbit.grad_param_likli matches the flat
 prior of param_likli

---
 src/lop/probits/AbsBoundProbit.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 43a1027..92e8f12 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -202,8 +202,7 @@ class AbsBoundProbit(ProbitBase):
                 return np.array([0.0])
                 return np.array([d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
             else:
-                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta),
-                        d_log_pdf_gamma(self.v, self.v_k, self.v_theta)])
+                return np.array([d_log_pdf_gamma(self.sigma, self.sigma_k, self.sigma_theta), 0.0])
         else:
             return super().grad_param_likli()
 
-- 
2.43.0


From 1c20b664a655042550d0dd5236bd0a294cecacd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:27 +0000
Subject: [PATCH 15/34] fix: GP without training data predicts its mean
 function

---
 src/lop/models/GP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/GP.py b/src/lop/models/GP.py
index a189b62..10f02ef 100644
--- a/src/lop/models/GP.py
+++ b/src/lop/models/GP.py
@@ -95,7 +95,7 @@ class GP(Model):
             sigma = np.diagonal(self.cov)
             # just in case do to numerical instability a negative variance shows up
             sigma = np.maximum(0, sigma)
-            return np.zeros(len(X)), sigma
+            return np.zeros(len(X)) + self.mean_func(X), sigma
 
         #### This function treats Y as the training data
         Y = self.X_train
-- 
2.43.0


From 9d419d1507811b82ba6474b32a72a031be3d1a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:01 +0000
Subject: [PATCH 16/34] fix: k_fold_x_y gives folds whose sizes differ by at
 most one

---
 src/lop/utilities/training_utility.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lop/utilities/training_utility.py b/src/lop/utilities/training_utility.py
index 221f56f..a5e5558 100644
--- a/src/lop/utilities/training_utility.py
+++ b/src/lop/utilities/training_utility.py
@@ -42,7 +42,8 @@ def k_fold_x_y(X, y, k):
         k = int(N / 2.0)
         if k < 2:
             return None
-    set_max_size = math.ceil(N / k)
+    # the first N % k folds hold one more element than the others
+    set_max_size = [(N // k) + (1 if i < N % k else 0) for i in range(k)]
 
     splits = [[] for i in range(k)]
     conn = [set() for i in range(N)]
@@ -77,7 +78,7 @@ def k_fold_x_y(X, y, k):
 
         # try to add as many as possible while still allowing all k fold to even
         for shuf_idx in shuffled_idxs:
-            if len(splits[split_idx]) >= set_max_size:
+            if len(splits[split_idx]) >= set_max_size[split_idx]:
                 break
 
             if shuf_idx not in selected:
-- 
2.43.0


From 5402764d605b84a56d840082930a249e10b08d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 17/34] fix: test functions give single points and lists the
 values they have in a batch

---
 src/lop/utilities/FakeFunction.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lop/utilities/FakeFunction.py b/src/lop/utilities/FakeFunction.py
index 610dc1c..c680f19 100644
--- a/src/lop/utilities/FakeFunction.py
+++ b/src/lop/utilities/FakeFunction.py
@@ -145,8 +145,7 @@ class FakeWeightedMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.max(rewards * self.w)
         return np.max(rewards * self.w, axis=1)
@@ -172,8 +171,7 @@ class FakeWeightedMin(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
             return np.min(rewards * self.w)
         return np.min(rewards * self.w, axis=1)
@@ -199,10 +197,10 @@ class FakeSquaredMinMax(FakeFunction):
         if self.w.shape[0] == 1:
             if isinstance(rewards, list):
                 rewards = np.array(rewards)
-            else:
-                return rewards
+            return rewards
         if len(rewards.shape) == 1:
-            return np.max(rewards * self.w)
+            vals = rewards * self.w
+            return np.sqrt(np.max(vals)) + np.min(vals)**2
         vals = rewards * self.w
         mins = np.min(vals, axis=1)
         return np.sqrt(np.max(vals, axis=1)) + mins*mins
@@ -262,7 +260,7 @@ class FakeMixtureGaussian(FakeFunction):
     def calc(self, rewards):
         
 
-        if isinstance(rewards, np.ndarray):
+        if isinstance(rewards, np.ndarray) and (len(rewards.shape) > 1 or self.dim == 1):
             z = np.zeros(rewards.shape[0])
         else:
             z = 0
-- 
2.43.0


From 94172f7749413f3be576f2f25d70a8fac4e8e9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:44 +0000
Subject: [PATCH 18/34] fix: calc_cdf standardises by the deviation and handles
 uncorrelated values

---
 src/lop/utilities/probability_utility.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lop/utilities/probability_utility.py b/src/lop/utilities/probability_utility.py
index 5ee8d68..c68feb4 100644
--- a/src/lop/utilities/probability_utility.py
+++ b/src/lop/utilities/probability_utility.py
@@ -38,7 +38,7 @@ def calc_cdf(mu, cov, method='mvn'):
 
     elif method == 'independent':
         
-        return np.prod(spec.ndtr((0 - mu) / np.diagonal(cov)))
+        return np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
 
     elif method == 'switch':
@@ -48,7 +48,8 @@ def calc_cdf(mu, cov, method='mvn'):
         mod_cov = np.abs(np.copy(cov))
         np.fill_diagonal(mod_cov, 0)
 
-        while cov.shape[0] > 1:
+        # the values left once no correlation remains are independent
+        while cov.shape[0] > 1 and np.max(mod_cov) > 0:
             idx = np.unravel_index(np.argmax(mod_cov), cov.shape)
 
             #pdb.set_trace()
@@ -69,8 +70,7 @@ def calc_cdf(mu, cov, method='mvn'):
             mod_cov = np.delete(mod_cov, idx, 1)
             mu = np.delete(mu, idx, 0)
 
-        if cov.shape[0] == 1:
-            p *= spec.ndtr((0 - mu[0]) / cov[0,0])
+        p *= np.prod(spec.ndtr((0 - mu) / np.sqrt(np.diagonal(cov))))
 
         return p
     
-- 
2.43.0


From f77f6afb13ed38ee1b201886ce248eac8eb5da6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 19/34] fix: rejected labels leave the training data unchanged

---
 src/lop/models/PreferenceModel.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 1d55f98..7580aa9 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -188,12 +188,7 @@ class PreferenceModel(Model):
         if not isinstance(training_sigma, Sequence):
             training_sigma = np.ones(len(y)) * training_sigma
 
-        if self.X_train is None:
-            self.X_train = X
-            len_X = 0
-        else:
-            len_X = len(self.X_train)
-            self.X_train = np.append(self.X_train, X, axis=0)
+        len_X = 0 if self.X_train is None else len(self.X_train)
 
         if type == 'relative_discrete':
             if len_X > 0:
@@ -251,6 +246,12 @@ class PreferenceModel(Model):
 
             self.y_train[self.probit_idxs[type]] = (v, idxs)
 
+        # the labels have been accepted, now the points can be stored
+        if self.X_train is None:
+            self.X_train = X
+        else:
+            self.X_train = np.append(self.X_train, X, axis=0)
+
         if self.pareto_pairs and len(self.X_train) > 1:
             pairs = []
             d_better = get_dk(1,0)
-- 
2.43.0


From 5c9456bc6f19f2ce07a60b30f06bf5acf64b44f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 20/34] fix: explicit ordinal and abs indices refer to the
 points being added

---
 src/lop/models/PreferenceModel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index 7580aa9..adbd8e9 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -210,7 +210,8 @@ class PreferenceModel(Model):
                 new_y[:,0] = y
                 new_y[:,1] = np.arange(0, y.shape[0]) + len_X
             else:
-                new_y = y
+                # the indicies given refer to X
+                new_y = y + np.array([0, len_X])
 
             if (new_y[:,0] <= 0).any():
                 raise Exception("Can't pass ordinal with 0 rating (must all be positive ordinal values)")
@@ -227,7 +228,8 @@ class PreferenceModel(Model):
         elif type == 'abs':
             if isinstance(y, tuple):
                 v = y[0]
-                idxs = y[1]
+                # the indicies given refer to X
+                idxs = np.array(y[1]) + len_X
             elif isinstance(y, np.ndarray):
                 v = y
                 idxs = np.arange(len_X, y.shape[0]+len_X)
-- 
2.43.0


From 59956c0f4d37b2be0f68a356d0f589db575ef3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:06 +0000
Subject: [PATCH 21/34] fix: removal of unreferenced points keeps rated and
 scored points and the prior range

---
 src/lop/models/PreferenceModel.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/lop/models/PreferenceModel.py b/src/lop/models/PreferenceModel.py
index adbd8e9..7f85cba 100644
--- a/src/lop/models/PreferenceModel.py
+++ b/src/lop/models/PreferenceModel.py
@@ -116,10 +116,15 @@ class PreferenceModel(Model):
         # iterate through each type of training data
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     counts[pair[1]] += 1
                     counts[pair[2]] += 1
+            else:
+                for idx in y[1]:
+                    counts[idx] += 1
 
         # check which pts don't have any counts
         #idx_to_rm = [x for x in range(len(counts)) if counts[x] == 0]
@@ -138,16 +143,26 @@ class PreferenceModel(Model):
         # reduce indicies of y_train to match removed indicies
         for type in self.probit_idxs:
             y = self.y_train[self.probit_idxs[type]]
+            if y is None:
+                continue
             if type == 'relative_discrete':
                 for pair in y:
                     pair[1] -= counts[pair[1]]
                     pair[2] -= counts[pair[2]]
+            else:
+                idxs = np.array([idx - int(counts[idx]) for idx in y[1]])
+                self.y_train[self.probit_idxs[type]] = (y[0], idxs)
 
 
-        if remove_prior:
+        if remove_prior and self.prior_idx is not None:
             # update the index if they have been removed
-            prior_idx = (self.prior_idx[0], self.prior_idx[1] - len(idx_to_rm))
-            self.prior_idx = prior_idx
+            num_rm = [len([i for i in idx_to_rm if i < idx]) for idx in self.prior_idx]
+            self.prior_idx = (self.prior_idx[0] - num_rm[0], self.prior_idx[1] - num_rm[1])
+
+        if len(self.X_train) == 0:
+            # no point is left
+            self.X_train = None
+            self.prior_idx = None
 
 
 
-- 
2.43.0


From f2bcc00f78f495ecff5c65b7d0d42d68eb963980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:38 +0000
Subject: [PATCH 22/34] fix: PreferenceGP.predict without a Cholesky factor
 uses K_inv @ F

---
 src/lop/models/PreferenceGP.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index eecdc90..b18c734 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -129,7 +129,7 @@ class PreferenceGP(PreferenceModel):
         except:
             try:
                 K_inv = np.linalg.pinv(K)
-                alpha = F.transpose() @ K_inv @ F
+                alpha = K_inv @ F
             except:
                 pdb.set_trace()
 
-- 
2.43.0


From 6bddb2c8e3d59553bae2d50897f9071008baf059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:32 +0000
Subject: [PATCH 23/34] fix: random hyper-parameters reach the component that
 drew them

---
 src/lop/kernels/KernelFunc.py     |  6 ++++++
 src/lop/models/PreferenceGP.py    | 14 ++++++--------
 src/lop/probits/AbsBoundProbit.py |  2 ++
 src/lop/probits/OrdinalProbit.py  |  6 +++++-
 4 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/lop/kernels/KernelFunc.py b/src/lop/kernels/KernelFunc.py
index e0e47cd..3b58716 100644
--- a/src/lop/kernels/KernelFunc.py
+++ b/src/lop/kernels/KernelFunc.py
@@ -165,6 +165,12 @@ class DualKern(KernelFunc):
     def get_param(self):
         return np.append(self.a.get_param(), self.b.get_param(), axis=0)
 
+    ## Performs random sampling using the same liklihood function used by the param
+    # liklihood function
+    # @return numpy array of independent samples.
+    def randomize_hyper(self):
+        return np.append(self.a.randomize_hyper(), self.b.randomize_hyper(), axis=0)
+
     ## param_likli
     # log liklihood of the parameter (prior)
     def param_likli(self):
diff --git a/src/lop/models/PreferenceGP.py b/src/lop/models/PreferenceGP.py
index b18c734..b550aa8 100644
--- a/src/lop/models/PreferenceGP.py
+++ b/src/lop/models/PreferenceGP.py
@@ -481,17 +481,15 @@ class PreferenceGP(PreferenceModel):
 
     # sample a random hyper parameter from the liklihood functions
     def randomize_hyper(self):
-        probit_samples = np.array([])
+        samples = np.array([])
         for i in range(len(self.probits)):
-            sample = self.probits[i].randomize_hyper()
-            probit_samples = np.append(probit_samples, sample, axis=0)
+            if self.y_train[i] is not None:
+                samples = np.append(samples, self.probits[i].randomize_hyper(), axis=0)
 
-        if self.hyperparam_only_probit:
-            self.set_hyper(probit_samples)
-        
-        cov_samples = self.cov_func.randomize_hyper()
+        if not self.hyperparam_only_probit:
+            samples = np.append(samples, self.cov_func.randomize_hyper(), axis=0)
 
-        self.set_hyper(np.append(probit_samples, cov_samples, axis=0))
+        self.set_hyper(samples)
         
 
     def hyper_liklihood(self):
diff --git a/src/lop/probits/AbsBoundProbit.py b/src/lop/probits/AbsBoundProbit.py
index 92e8f12..f9d4a9b 100644
--- a/src/lop/probits/AbsBoundProbit.py
+++ b/src/lop/probits/AbsBoundProbit.py
@@ -167,6 +167,8 @@ class AbsBoundProbit(ProbitBase):
     # liklihood function
     # @return numpy array of independent samples.
     def randomize_hyper(self):
+        if not self.optimize_parameters:
+            return super().randomize_hyper()
         if self.optimize_v_only:
             return np.array([np.random.gamma(self.v_k, self.v_theta)])
         else:
diff --git a/src/lop/probits/OrdinalProbit.py b/src/lop/probits/OrdinalProbit.py
index 269817e..3c14a01 100644
--- a/src/lop/probits/OrdinalProbit.py
+++ b/src/lop/probits/OrdinalProbit.py
@@ -72,7 +72,11 @@ class OrdinalProbit(ProbitBase):
         else:
             b = self.b
         return np.array([self.sigma, b])
-    
+
+    ## there is no prior on the ordinal hyperparameters to sample from
+    # @return numpy array of the current hyperparameters
+    def randomize_hyper(self):
+        return self.get_hyper()
 
     ## set_b
     # Sets the bias hyperparameter
-- 
2.43.0


From cc3df0f8947db99fd87b70c4c991fa065caee21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:08 +0000
Subject: [PATCH 24/34] fix: pair selection only picks from the allowed
 candidates

---
 src/lop/active_learning/AcquisitionSelection.py |  2 +-
 src/lop/active_learning/ActiveLearner.py        | 10 +++++++++-
 src/lop/active_learning/BayesInfoGain.py        |  2 +-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index 8ec26be..e42d02f 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -231,6 +231,6 @@ class AcquisitionSelection(AcquisitionBase):
         # represents the alignment metric for each pair being selected as align_Q
         align_Q = E_align_q + E_align_q.T
         
-        pair = self.pick_pair_from_metric(align_Q, prev_selection)
+        pair = self.pick_pair_from_metric(align_Q, prev_selection, indicies)
         self.sel_metric = align_Q[pair[0], pair[1]]
         return pair
diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 1d9cd6d..602456e 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -264,9 +264,17 @@ class ActiveLearner:
     # pick a particular pair from a matrix of info gain
     # @param info_gain - 2d matrix [Q,Q] each represents the info gain of picking
     #                   pair [i,j].
+    # @param prev_selection - a set of indicies of previously selected points
+    # @param indicies - [opt, default = None] the indicies the pair has to be picked from (None is all)
     #
     # @return (i,j) pair to select
-    def pick_pair_from_metric(self, info_gain, prev_selection):
+    def pick_pair_from_metric(self, info_gain, prev_selection, indicies=None):
+        # only the given indicies are allowed to be selected.
+        if indicies is not None:
+            not_allowed = list(set(range(info_gain.shape[0])) - set(indicies))
+            info_gain[not_allowed, :] = -np.inf
+            info_gain[:, not_allowed] = -np.inf
+
         # just a check to ensure the same points do not get selected twice.
         # Shouldn't happen, but in case it does... really makes sure.
         np.fill_diagonal(info_gain, -np.inf)
diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 92fa0f7..53d10b6 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -257,7 +257,7 @@ class BayesInfoGain(ActiveLearner):
             print(info_gain)
 
 
-        idx_best = self.pick_pair_from_metric(info_gain, prev_selection)
+        idx_best = self.pick_pair_from_metric(info_gain, prev_selection, indicies)
         
 
         print('idx_best: ' + str(idx_best))
-- 
2.43.0


From 6e56b7f78b7ec1b9eda690d2f2f4e768df2ffbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:22 +0000
Subject: [PATCH 25/34] fix: selection reporting passed-over points considers
 all fresh candidates and can use up the passed-over ones

---
 src/lop/active_learning/ActiveLearner.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 602456e..7e14450 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -99,15 +99,15 @@ class ActiveLearner:
             all_not_selected = (set(range(len(candidate_pts))) - prev_selection) - set(sel_pts)
             not_selected = []
 
-            while len(sel_pts) < num_alts and len(all_not_selected) > 0:
+            while len(sel_pts) < num_alts and (len(all_not_selected) > 0 or len(not_selected) > 0):
                 # weird case where points have been selected already but out of 'prefered points'
                 # take the first index of the list then.
                 if len(pref_not_sel) == 0 and len(not_selected) > 0:
                     selected_idx = not_selected[0]
                     not_selected.pop(0) 
                 else:
-                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and hasattr(self, "select_pair"):
-                        selected_pair = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
+                    if len(prev_selection) == 0 and select_pair_first and (num_alts - len(sel_pts) > 1) and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
+                        selected_pair = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         selected_idx = selected_pair[0]
 
                         # handle second index
-- 
2.43.0


From 83285784a6b708d7b64a5e8df518ab4a5dd64d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 26/34] fix: a single requested or remaining point is not
 selected as a pair

---
 src/lop/active_learning/ActiveLearner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lop/active_learning/ActiveLearner.py b/src/lop/active_learning/ActiveLearner.py
index 7e14450..8f2722a 100644
--- a/src/lop/active_learning/ActiveLearner.py
+++ b/src/lop/active_learning/ActiveLearner.py
@@ -138,7 +138,7 @@ class ActiveLearner:
             while len(sel_pts) < num_alts:
                 # only select from the prefered points if they still exist
                 if len(pref_not_sel) > 0:
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(pref_not_sel) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, pref_not_sel, prev_selection | set(sel_pts))
                         
                         if selected_idx[0] in pref_not_sel:
@@ -155,7 +155,7 @@ class ActiveLearner:
                     # ensure that there is at least some pts left to select from
                     if len(all_not_selected) == 0:
                         raise Exception("Not enough points for select to create a full set")
-                    if select_pair_first and len(sel_pts) == 0 and hasattr(self, "select_pair"):
+                    if select_pair_first and len(sel_pts) == 0 and num_alts > 1 and len(all_not_selected) > 1 and hasattr(self, "select_pair"):
                         selected_idx = self.select_pair(candidate_pts, mu, data, all_not_selected, prev_selection | set(sel_pts))
                         all_not_selected.remove(selected_idx[0])
                         all_not_selected.remove(selected_idx[1])
-- 
2.43.0


From 3659cb4e55fc0b1b29c521098d09d2bc183b744a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:58 +0000
Subject: [PATCH 27/34] fix: AcquisitionSelection first random choice is a
 scalar

---
 src/lop/active_learning/AcquisitionSelection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/AcquisitionSelection.py b/src/lop/active_learning/AcquisitionSelection.py
index e42d02f..350a721 100644
--- a/src/lop/active_learning/AcquisitionSelection.py
+++ b/src/lop/active_learning/AcquisitionSelection.py
@@ -100,7 +100,7 @@ class AcquisitionSelection(AcquisitionBase):
             # THIS IS PROBABLY NOT THE RIGHT WAY TO HANDLE THIS
             # But needs at least a pair in order to calculate properly.
             self.sel_metric = 0
-            return np.random.choice(indicies)[0]
+            return np.random.choice(indicies)
             #return np.argmax(mu)
 
         x_rep, Q_rep = self.get_representative_Q(candidate_pts)
-- 
2.43.0


From 8a960636e57804ea39a7d6ce00f4e25c2e8526e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:14 +0000
Subject: [PATCH 28/34] fix: BayesInfoGain pairs are distinct without data and
 work with linear models

---
 src/lop/active_learning/BayesInfoGain.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 53d10b6..6131037 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -104,7 +104,7 @@ class BayesInfoGain(ActiveLearner):
                 probit_mat = self.model.probits[0].likelihood_all_pairs(mu)
 
                 # Get the probabilities of which candidate_pts is the best.
-                p_B = self.p_B_pref_linear(candidate_pts, mu, probit_mat)
+                p_B = self.p_B_pref_linear(candidate_pts, mu)
             self.p_B = p_B
             self.probit_mat = probit_mat
             self.first_call_greedy = False
@@ -175,12 +175,12 @@ class BayesInfoGain(ActiveLearner):
 
 
     def select_pair(self, candidate_pts, mu, data, indicies, prev_selection, debug=False):
-        p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
-
         if self.model.X_train is None:
-            idxs = np.random.choice(list(indicies), 2)
+            idxs = np.random.choice(list(indicies), 2, replace=False)
             return (idxs[0], idxs[1])
 
+        p_B, probit_mat = self.get_p_B_probit(candidate_pts, mu)
+
         if debug:
             print('\t p_B: ' + str(p_B))
 
-- 
2.43.0


From 3e7f801a280c45dbcefa588cc68e207204388a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:08 +0000
Subject: [PATCH 29/34] fix: MixedComparision breaks ties of the weighted
 scores

---
 src/lop/active_learning/RateChooseLearner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index c280ec0..0d4ce51 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -173,7 +173,7 @@ class MixedComparision(RateChooseLearner):
         print('Absloute selected metric: ' + str(abs_metric))
         if pair_metric > abs_metric:
             sel_idxs = pair_idxs
-        elif self.pairwise_l.sel_metric == abs_metric:
+        elif pair_metric == abs_metric:
             # both the same, just randomly pick one of the options.
             if np.random.random() > 0.5:
                 sel_idxs = pair_idxs
-- 
2.43.0


From b279247f03936370dce8d1efc7b0eccbebfc7c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:23 +0000
Subject: [PATCH 30/34] fix: mixed comparison learners work when not selected
 points are returned

---
 src/lop/active_learning/RateChooseLearner.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/lop/active_learning/RateChooseLearner.py b/src/lop/active_learning/RateChooseLearner.py
index 0d4ce51..8445bd3 100644
--- a/src/lop/active_learning/RateChooseLearner.py
+++ b/src/lop/active_learning/RateChooseLearner.py
@@ -162,7 +162,9 @@ class MixedComparision(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        # with return_not_selected, select returns both the selected and not selected points
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
 
@@ -359,22 +361,25 @@ class MixedComparisionEqualChecking(RateChooseLearner):
         pair_metric = self.pairwise_l.sel_metric
 
         # calculate absloute selected metric
-        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_idxs, [])
+        # with return_not_selected, select returns both the selected and not selected points
+        abs_sel = abs_idxs[0] if return_not_selected else abs_idxs
+        _ = self.abs_comp.select_greedy(candidate_pts, mu , None, abs_sel, [])
         abs_metric = self.abs_comp.sel_metric
         
         print('Pairwise selected metric: ' + str(pair_metric))
         print('Absloute selected metric: ' + str(abs_metric))
         
 
-        pair_samples = all_Q[:, pair_idxs]
-        if len(pair_idxs) == 2:
+        pair_sel = list(pair_idxs[0]) if return_not_selected else list(pair_idxs)
+        pair_samples = all_Q[:, pair_sel]
+        if len(pair_sel) == 2:
             eta2 = compute_effsize(pair_samples[:, 0], pair_samples[:, 1], paired=True, eftype='eta-square')
         else:
             raise NotImplementedError("Have not implemented effect size computation yet")
 
 
         # check if any selected pairs might be evaluating to the same value
-        if (candidate_pts[pair_idxs] == candidate_pts[pair_idxs[::-1]]).all(axis=0).any():
+        if (candidate_pts[pair_sel] == candidate_pts[pair_sel[::-1]]).all(axis=0).any():
             # there is at least one pair that is the same.
             # check if the estimated values are similar
 
-- 
2.43.0


From d05afc6f30cee115876bd0d1bf85eb673c4936b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:44 +0000
Subject: [PATCH 31/34] fix: mixed decision learners do not reuse samples of an
 earlier query

---
 src/lop/active_learning/MixedStrategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lop/active_learning/MixedStrategy.py b/src/lop/active_learning/MixedStrategy.py
index 344215d..6e14080 100644
--- a/src/lop/active_learning/MixedStrategy.py
+++ b/src/lop/active_learning/MixedStrategy.py
@@ -266,6 +266,10 @@ class MixedDecision(MixedStrategyPeak3):
             pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
             _ = self.abs_comp.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
+            # the samples are only valid for this set of candidates
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
             ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
             print('ratio = ' + str(ratio))
             
@@ -416,6 +420,10 @@ class MixedDecision2(MixedStrategyPeak3):
             pair_idxs = self.pairwise_l.select(candidate_pts, num_alts, prev_selection, prefer_pts, return_not_selected, select_pair_first)
             _ = self.abs_comp.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
+            # the samples are only valid for this set of candidates
+            self.pairwise_l.unset_samples()
+            self.abs_comp.unset_samples()
+
             ratio = max(self.pairwise_l.sel_metric / self.abs_comp.sel_metric, self.abs_comp.sel_metric / self.pairwise_l.sel_metric)
             print('ratio = ' + str(ratio))
             
-- 
2.43.0


From a9f188e30a8059d5788026aee8c9dc7dd5e203a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:01 +0000
Subject: [PATCH 32/34] fix: AlignmentDecision has no scores before the
 decision instead of failing

---
 src/lop/active_learning/MixedTypeDecision.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 4d77717..6a5626c 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -70,7 +70,7 @@ class AlignmentDecision(RateChooseLearner):
         #abs_idxs = self.abs_l.select(candidate_pts, 1, prev_selection, prefer_pts, return_not_selected, select_pair_first)
 
         select_pair = True
-        
+        rating_score, pref_score = None, None
 
         if self.num_calls < self.calls_to_decision:
             if self.num_calls % 2 == 0:
-- 
2.43.0


From e391097ce67850ccc368534bbd3cf7e6116f4a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:20 +0000
Subject: [PATCH 33/34] fix: AlignmentDecision leaves the model to be fitted to
 all of its data

---
 src/lop/active_learning/MixedTypeDecision.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lop/active_learning/MixedTypeDecision.py b/src/lop/active_learning/MixedTypeDecision.py
index 6a5626c..b90ac38 100644
--- a/src/lop/active_learning/MixedTypeDecision.py
+++ b/src/lop/active_learning/MixedTypeDecision.py
@@ -142,6 +142,8 @@ class AlignmentDecision(RateChooseLearner):
         ## Reset model and start evaluating samples
         self.model.y_train[0] = pref_data
         self.model.y_train[2] = rating_data
+        # the current fit only used the rating data
+        self.model.optimized = False
 
         ## Evaluate samples
         align_pref_f = self.pairwise_l.alignment_between(pref_rep, all_rep)
-- 
2.43.0


From a3a4c04d5dc845212a199d249afbe74729f750e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:23 +0000
Subject: [PATCH 34/34] fix: BayesInfoGain greedy probit method uses the
 weighted answer probabilities

---
 src/lop/active_learning/BayesInfoGain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lop/active_learning/BayesInfoGain.py b/src/lop/active_learning/BayesInfoGain.py
index 6131037..cd8557d 100644
--- a/src/lop/active_learning/BayesInfoGain.py
+++ b/src/lop/active_learning/BayesInfoGain.py
@@ -54,7 +54,7 @@ class BayesInfoGain(ActiveLearner):
                     if self.p_q_B_method == 'probit':
                         sub_probit = probit_mat[q_i, Q_subi]
                         sub_probit_w = np.where(q_i == B_i, np.fmax(sub_probit, 1-sub_probit), sub_probit)
-                        p_q_B[i, B_i] = np.prod(sub_probit)
+                        p_q_B[i, B_i] = np.prod(sub_probit_w)
                     elif self.p_q_B_method == '999': 
                         p_q_B[i, B_i] = np.prod(np.where(q_i == B_i, 0.999, sub_probit))
                     elif self.p_q_B_method == '99':
-- 
2.43.0

