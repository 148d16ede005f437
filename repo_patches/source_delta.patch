From d36a8b41c927185c2edf2e06b6da9e75a391bae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:46 +0000
Subject: [PATCH 01/49] fix: bind ravelled methods per access instead of in the
 shared decorator

A bound method such as uhat.__call__ evaluated whichever object had been
accessed last, in any thread.
---
 src/sparse_ir/_util.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/_util.py b/src/sparse_ir/_util.py
index e2ae6d9..6c8bd38 100644
--- a/src/sparse_ir/_util.py
+++ b/src/sparse_ir/_util.py
@@ -16,21 +16,20 @@ def ravel_argument(last_dim=False):
 
 class RavelArgumentDecorator(object):
     def __init__(self, inner, last_dim=False):
-        self.instance = None
         self.inner = inner
         self.last_dim = last_dim
         functools.update_wrapper(self, inner)
 
-    def __get__(self, instance, _owner=None):
-        self.instance = instance
-        return self
+    def __get__(self, instance, owner=None):
+        # This object is shared between all instances of the class (and all
+        # threads), so each access must bind to an object of its own.
+        if instance is None:
+            return self
+        return self.__class__(self.inner.__get__(instance, owner), self.last_dim)
 
     def __call__(self, x):
         x = np.asarray(x)
-        if self.instance is None:
-            res = self.inner(x.ravel())
-        else:
-            res = self.inner(self.instance, x.ravel())
+        res = self.inner(x.ravel())
         if self.last_dim:
             return res.reshape(res.shape[:-1] + x.shape)
         else:
-- 
2.43.0


From 589ce9699158a16ea788ead39dc62c1f35a77893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 02/49] fix: AugmentedBasis.statistics raised TypeError instead
 of returning

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 71353cb..aa5dbb7 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -69,7 +69,7 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def statistics(self):
-        raise self._basis.statistics
+        return self._basis.statistics
 
     def __getitem__(self, index):
         stop = basis._slice_to_size(index)
-- 
2.43.0


From 561d1cbae381dcb009a65d48fbdf60b49d08f741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 03/49] fix: AugmentedTauFunction.xmax returned xmin

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index aa5dbb7..6cba790 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -180,7 +180,7 @@ class AugmentedTauFunction(_AugmentedFunction):
 
     @property
     def xmax(self):
-        return self._fbasis.xmin
+        return self._fbasis.xmax
 
     def deriv(self, n=1):
         """Get polynomial for the n'th derivative"""
-- 
2.43.0


From d605610072d5ace1edb50e24c737adaccc551056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 04/49] fix: derivative of augmented functions

The constructor was called with unpacked augmentations, and the slope of
the linear term was truncated for integer arguments.
---
 src/sparse_ir/augment.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 6cba790..87d0732 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -186,7 +186,7 @@ class AugmentedTauFunction(_AugmentedFunction):
         """Get polynomial for the n'th derivative"""
         dbasis = self._fbasis.deriv(n)
         daug = [faug_l.deriv(n) for faug_l in self._faug]
-        return AugmentedTauFunction(dbasis, *daug)
+        return AugmentedTauFunction(dbasis, daug)
 
 
 class AugmentedMatsubaraFunction(_AugmentedFunction):
@@ -243,7 +243,7 @@ class TauConst(AbstractAugmentation):
         if n == 0:
             return self
         else:
-            return lambda tau: np.zeros_like(tau)
+            return lambda tau: np.zeros(np.shape(tau))
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
@@ -273,9 +273,9 @@ class TauLinear(AbstractAugmentation):
             return self
         elif n == 1:
             c = self._norm * 2/self._beta
-            return lambda tau: np.full_like(tau, c)
+            return lambda tau: np.full(np.shape(tau), c)
         else:
-            return lambda tau: np.zeros_like(tau)
+            return lambda tau: np.zeros(np.shape(tau))
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-- 
2.43.0


From 075eab05467fe536efcbde33b63c5fe4dd16d0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 05/49] fix: TauConst.hat used np.complex, which numpy has
 removed

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 87d0732..712eace 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -247,7 +247,7 @@ class TauConst(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        return np.sqrt(self._beta) * (n == 0).astype(np.complex)
+        return np.sqrt(self._beta) * (n == 0).astype(complex)
 
 
 class TauLinear(AbstractAugmentation):
-- 
2.43.0


From 6b30b3a0420d7c54cbbd0d101c96d2fdf9702b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 06/49] fix: TauLinear.hat failed for scalar frequency

---
 src/sparse_ir/augment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 712eace..4570b7b 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -279,7 +279,7 @@ class TauLinear(AbstractAugmentation):
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
-        inv_w = np.pi/self._beta * n
+        inv_w = np.asarray(np.pi/self._beta * n)
         inv_w = np.reciprocal(inv_w, out=inv_w, where=n.astype(bool))
         return self._norm * 2/1j * inv_w
 
-- 
2.43.0


From 69cfbe7811ec7763e9bc53162d203b9876229f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 07/49] fix: slicing and rescaling a basis used the untruncated
 expansion

basis[:n] for n beyond the size, basis[:] and negative n returned functions
which the basis does not have, and rescale() dropped those below the accuracy
of the expansion.  Augmented bases failed for open slices.
---
 src/sparse_ir/augment.py |  4 ++--
 src/sparse_ir/basis.py   | 15 +++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 4570b7b..b3eba0a 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -72,7 +72,7 @@ class AugmentedBasis(abstract.AbstractBasis):
         return self._basis.statistics
 
     def __getitem__(self, index):
-        stop = basis._slice_to_size(index)
+        stop = basis._slice_to_size(index, self.size)
         if stop <= self._naug:
             raise ValueError("Cannot truncate to only augmentation")
         return AugmentedBasis(self._basis[:stop - self._naug],
@@ -161,7 +161,7 @@ class _AugmentedFunction:
     def __getitem__(self, l):
         # TODO make this more general
         if isinstance(l, slice):
-            stop = basis._slice_to_size(l)
+            stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 0a4a223..aa4a676 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -91,10 +91,13 @@ class FiniteTempBasis(abstract.AbstractBasis):
         self._uhat = self._uhat_full[:s.size]
 
     def __getitem__(self, index):
+        # We start from the current set of functions, which may be smaller or
+        # larger than what the accuracy of the expansion implies.  Thus, we
+        # pick the truncation purely by size.
         return FiniteTempBasis(
-                    self._statistics, self._beta, self._wmax, None,
-                    max_size=_slice_to_size(index), kernel=self._kernel,
-                    sve_result=self._sve_result)
+                    self._statistics, self._beta, self._wmax, 0,
+                    max_size=_slice_to_size(index, self.size),
+                    kernel=self._kernel, sve_result=self._sve_result)
 
     @property
     def statistics(self): return self._statistics
@@ -204,7 +207,7 @@ class FiniteTempBasis(abstract.AbstractBasis):
         since ``lambda_ == beta * wmax`` stays constant.
         """
         new_wmax = self._kernel.lambda_ / new_beta
-        return FiniteTempBasis(self._statistics, new_beta, new_wmax, None,
+        return FiniteTempBasis(self._statistics, new_beta, new_wmax, 0,
                                max_size=self.size, kernel=self._kernel,
                                sve_result=self._sve_result)
 
@@ -329,11 +332,11 @@ def _get_kernel(statistics, lambda_, kernel):
     return kernel
 
 
-def _slice_to_size(index):
+def _slice_to_size(index, size):
     if not isinstance(index, slice):
         raise ValueError("argument must be a slice (`n:m`)")
     if index.start is not None and index.start != 0:
         raise ValueError("slice must start at zero")
     if index.step is not None and index.step != 1:
         raise ValueError("slice must step in ones")
-    return index.stop
+    return len(range(*index.indices(size)))
-- 
2.43.0


From 9fe60e3f6a205a347babec93746838fce40af0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 08/49] fix: negative indices and type of selections of
 augmented functions

---
 src/sparse_ir/augment.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index b3eba0a..1f3a830 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -164,9 +164,13 @@ class _AugmentedFunction:
             stop = basis._slice_to_size(l, self.size)
             if stop <= self._naug:
                 raise NotImplementedError("Don't truncate to only augmentation")
-            return _AugmentedFunction(self._fbasis[:stop-self._naug], self._faug)
+            return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
             l = int(l)
+            if not (-self.size <= l < self.size):
+                raise IndexError(f"index {l} out of bounds for {self.size} functions")
+            if l < 0:
+                l += self.size
             if l < self._naug:
                 return self._faug[l]
             else:
-- 
2.43.0


From c62a15a53c6ddb1efdde35a325ced48b3f0fec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 09/49] fix: AugmentedBasis.significance lacked entries for the
 augmentations

---
 src/sparse_ir/augment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 1f3a830..4de82c3 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -88,7 +88,8 @@ class AugmentedBasis(abstract.AbstractBasis):
 
     @property
     def significance(self):
-        return self._basis.significance
+        # There is no a-priori bound on the coefficients of augmentations
+        return np.hstack([np.ones(self._naug), self._basis.significance])
 
     @property
     def accuracy(self):
-- 
2.43.0


From 9f53aa007b803e800c4fa9effe3bad7cb9b2392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 10/49] fix: FiniteTempBasis ignored conv_radius of the kernel

Kernels which disable the asymptotic model got it anyway, and kernels
without a lambda_ attribute failed.
---
 src/sparse_ir/basis.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index aa4a676..734156b 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -84,10 +84,9 @@ class FiniteTempBasis(abstract.AbstractBasis):
         uhat_base_full = poly.PiecewiseLegendrePoly(
                             np.sqrt(beta) * sve_result.u.data, sve_result.u,
                             symm=sve_result.u.symm)
-        conv_radius = 40 * self.kernel.lambda_
         even_odd = {'F': 'odd', 'B': 'even'}[statistics]
         self._uhat_full = poly.PiecewiseLegendreFT(uhat_base_full, even_odd,
-                                                   n_asymp=conv_radius)
+                                                   n_asymp=self._kernel.conv_radius)
         self._uhat = self._uhat_full[:s.size]
 
     def __getitem__(self, index):
-- 
2.43.0


From c79527fdc8ddad5b5c81b7579efc4fcfe6b29964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 11/49] fix: DLR poles at zero bosonic frequency and
 wrong-parity frequencies

A pole at omega = 0 gave NaN for n = 0, which made sampling on a bosonic DLR
with an odd number of poles fail.  Frequencies of the wrong parity or not
integer were silently accepted.
---
 src/sparse_ir/dlr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 91e4d65..c479285 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -138,12 +138,18 @@ class MatsubaraPoles:
     @_util.ravel_argument(last_dim=True)
     def __call__(self, n):
         """Evaluate basis functions at given frequency n"""
+        zeta = {'F': 1, 'B': 0}[self._statistics]
+        n = _util.check_reduced_matsubara(n, zeta)
         iv = 1j*n * np.pi/self._beta
+        denom = iv[None, :] - self._poles[:, None]
         if self._statistics == 'F':
-            return 1 /(iv[None, :] - self._poles[:, None])
+            return 1 / denom
         else:
-            return np.tanh(0.5 * self._beta * self._poles)[:, None]\
-                /(iv[None, :] - self._poles[:, None])
+            weight = np.tanh(0.5 * self._beta * self._poles)[:, None]
+
+            # For a pole at zero, the zero frequency must be taken as limit
+            result = np.full_like(denom, -0.5 * self._beta)
+            return np.divide(weight, denom, out=result, where=denom != 0)
 
 
 class TauPoles:
-- 
2.43.0


From 805f5bf02f022438640df0cd5862292237789cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 12/49] fix: TauPoles gave NaN if the only pole is at zero

---
 src/sparse_ir/dlr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index c479285..3d08bb9 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -167,8 +167,9 @@ class TauPoles:
             raise RuntimeError("tau must be in [0, beta]!")
 
         x = 2 * tau/self._beta - 1
-        y = self._poles/self._wmax
-        lambda_ = self._beta * self._wmax
+        wmax = self._wmax or 1.0
+        y = self._poles/wmax
+        lambda_ = self._beta * wmax
 
         res = -kernel.LogisticKernel(lambda_)(x[:, None], y[None, :])
         return res.T
-- 
2.43.0


From 2f82e2f9230e144890ec455cf0dec50aa5eae579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 13/49] fix: DLR default_tau_sampling_points lacked npoints
 argument

---
 src/sparse_ir/dlr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 3d08bb9..96df5bd 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -118,8 +118,8 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
         """
         return self.matrix.matmul(g_dlr, axis)
 
-    def default_tau_sampling_points(self):
-        return self.basis.default_tau_sampling_points()
+    def default_tau_sampling_points(self, **kwargs):
+        return self.basis.default_tau_sampling_points(**kwargs)
 
     def default_matsubara_sampling_points(self, **kwargs):
         return self.basis.default_matsubara_sampling_points(**kwargs)
-- 
2.43.0


From 773c0df1a7664569391766f70517607a45796bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 14/49] fix: sampling and DLR objects aliased the arrays passed
 by the caller

Modifying the array after construction silently changed the object.
---
 src/sparse_ir/dlr.py      | 2 +-
 src/sparse_ir/sampling.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index 96df5bd..d8c2207 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -39,7 +39,7 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
             raise ValueError("DLR supports only LogisticKernel")
 
         self._basis = basis
-        self._poles = np.asarray(sampling_points)
+        self._poles = np.array(sampling_points)
         self._y_sampling_points = self._poles/basis.wmax
 
         self._u = TauPoles(basis.statistics, basis.beta, self._poles)
diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 52b274d..bbf99fb 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -123,7 +123,7 @@ class TauSampling(AbstractSampling):
         if sampling_points is None:
             sampling_points = basis.default_tau_sampling_points()
         else:
-            sampling_points = np.asarray(sampling_points)
+            sampling_points = np.array(sampling_points)
             if sampling_points.ndim != 1:
                 raise ValueError("sampling points must be vector")
 
@@ -224,7 +224,7 @@ class DecomposedMatrix:
     This allows for fast and accurate least squares fits using ``A.lstsq(x)``.
     """
     def __init__(self, a, svd_result=None):
-        a = np.asarray(a)
+        a = np.array(a)
         if a.ndim != 2:
             raise ValueError("a must be of matrix form")
         if svd_result is None:
@@ -306,7 +306,7 @@ class SplitDecomposedMatrix:
     ``A.lstsq(x)``.  This is useful in the case where.
     """
     def __init__(self, a, ssvd_result):
-        a = np.asarray(a)
+        a = np.array(a)
         if a.ndim != 2:
             raise ValueError("a must be of matrix form")
 
-- 
2.43.0


From 38a62490e9ea970a1370c97c6eb40ad84839d52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 15/49] fix: MatsubaraSampling reordered the sampling points it
 was given

The n-th value then did not belong to the n-th point passed, in contrast to
TauSampling and to what evaluate(..., points=) and fit(..., points=) state.
---
 src/sparse_ir/sampling.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index bbf99fb..17fd99d 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -171,11 +171,11 @@ class MatsubaraSampling(AbstractSampling):
             sampling_points = basis.default_matsubara_sampling_points(
                                                 positive_only=positive_only)
         else:
-            sampling_points = _util.check_reduced_matsubara(sampling_points)
+            sampling_points = np.array(
+                            _util.check_reduced_matsubara(sampling_points))
             if sampling_points.ndim != 1:
                 raise ValueError("sampling points must be vector")
-            sampling_points = np.sort(sampling_points)
-            if positive_only and not sampling_points[0] >= 0:
+            if positive_only and not (sampling_points >= 0).all():
                 raise ValueError("invalid negative sampling frequencies")
 
         matrix = basis.uhat(sampling_points).T
@@ -184,7 +184,7 @@ class MatsubaraSampling(AbstractSampling):
         self._positive_only = positive_only
 
         if positive_only:
-            ssvd_result = _split_complex(matrix, sampling_points[0] == 0)
+            ssvd_result = _split_complex(matrix, sampling_points == 0)
             self._matrix = SplitDecomposedMatrix(matrix, ssvd_result)
         else:
             self._matrix = DecomposedMatrix(matrix)
@@ -407,8 +407,8 @@ def _split_complex(mat, has_zero=False, svd_algo=np.linalg.svd):
         raise ValueError("mat must be complex matrix")
 
     # split real and imaginary part into separate matrices
-    offset_imag = 1 if has_zero else 0
-    rmat = np.vstack((mat.real, mat[offset_imag:].imag))
+    has_imag = ~np.broadcast_to(has_zero, n)
+    rmat = np.vstack((mat.real, mat[has_imag].imag))
 
     # perform real-valued SVD
     ur, s, vT = svd_algo(rmat, full_matrices=False)
@@ -416,6 +416,6 @@ def _split_complex(mat, has_zero=False, svd_algo=np.linalg.svd):
     # undo the split of the resulting vT vector
     u = np.empty((n, s.size), mat.dtype)
     u.real = ur[:n]
-    u[:offset_imag].imag = 0
-    u[offset_imag:].imag = ur[n:]
+    u.imag = 0
+    u.imag[has_imag] = ur[n:]
     return u, s, vT
-- 
2.43.0


From 9bc6ff804f986198fed9ae706c5b65a743ac7747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:05 +0000
Subject: [PATCH 16/49] fix: derivative of a piecewise polynomial kept the old
 polyorder

This made the Fourier transform of a derivative fail.
---
 src/sparse_ir/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index bc178e0..278fcab 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -25,6 +25,7 @@ class PiecewiseLegendrePoly:
             if dx is not None or symm is None:
                 raise RuntimeError("wrong arguments")
             self.__dict__.update(knots.__dict__)
+            self.polyorder = data.shape[0]
             self.data = data
             self.symm = symm
             return
-- 
2.43.0


From 11441edaa2bfbe61a730d3f25759df5e0bfe8380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 17/49] fix: high-frequency model assumed function l to have
 parity (-1)**l

This gave wrong asymptotics for Fourier transforms of single functions,
selections, derivatives, and functions without definite parity.
---
 src/sparse_ir/poly.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 278fcab..035a659 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -429,21 +429,24 @@ def _derivs(ppoly, x):
         yield ppoly(x)
 
 
-def _power_moments(stat, deriv_x1):
-    """Return moments"""
+def _power_moments(stat, deriv_x1, deriv_xm1):
+    """Return moments from derivatives at the right and left edge"""
     statsign = {'odd': -1, 'even': 1}[stat]
-    mmax, lmax = deriv_x1.shape
+    mmax, _ = deriv_x1.shape
     m = np.arange(mmax)[:,None]
-    l = np.arange(lmax)[None,:]
-    coeff_lm = ((-1.0)**(m+1) + statsign * (-1.0)**l) * deriv_x1
-    return -statsign/np.sqrt(2.0) * coeff_lm
+    return (-1.0)**m / np.sqrt(2.0) * (statsign * deriv_x1 - deriv_xm1)
 
 
 def _power_model(stat, poly):
     deriv_x1 = np.asarray(list(_derivs(poly, x=1)))
-    if deriv_x1.ndim == 1:
-        deriv_x1 = deriv_x1[:,None]
-    moments = _power_moments(stat, deriv_x1)
+    deriv_x1 = deriv_x1.reshape(deriv_x1.shape[0], -1)
+    deriv_xm1 = np.asarray(list(_derivs(poly, x=-1))).reshape(deriv_x1.shape)
+
+    # For functions of definite parity, half of the moments vanish exactly
+    m = np.arange(deriv_x1.shape[0])[:,None]
+    symm = np.ravel(poly.symm)
+    deriv_xm1 = np.where(symm, symm * (-1.0)**m * deriv_x1, deriv_xm1)
+    moments = _power_moments(stat, deriv_x1, deriv_xm1)
     return _PowerModel(moments)
 
 
-- 
2.43.0


From fb8f083b33a1951c260eede9bc46239f6a737dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 18/49] fix: roots() returned a root at the midpoint of an even
 function twice

---
 src/sparse_ir/poly.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 035a659..a4758af 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -164,7 +164,9 @@ class PiecewiseLegendrePoly:
         roots = _roots.find_all(self, grid)
 
         if self.symm == 1:
-            revroots = (self.xmax + self.xmin) - roots[::-1]
+            # Count a root at the midpoint only once
+            mirror = roots[1:] if roots.size and roots[0] == xmid else roots
+            revroots = (self.xmax + self.xmin) - mirror[::-1]
             roots = np.hstack((revroots, roots))
         elif self.symm == -1:
             # There must be a zero at exactly the midpoint, but we may either
-- 
2.43.0


From 8451d8318e7e32618a9aa777e6d2b2aeaece044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 19/49] fix: overlap failed to converge for vanishing
 integrands

A vanishing product, even if only for one of the functions, caused endless
refinement, and as a result the other integrals were lost.
---
 src/sparse_ir/poly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index a4758af..efd143b 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -509,9 +509,9 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         intmagn = np.abs(int10)
 
         magn = res_magn + intmagn.sum(1).max(1)
-        relerror = intdiff.max(2) / magn[:, None]
 
-        xconverged = (relerror <= rtol).all(0)
+        # Avoid dividing by the magnitude, which may be zero
+        xconverged = (intdiff.max(2) <= rtol * magn[:, None]).all(0)
         res_value += int10[:, xconverged].sum(1)
         res_error += intdiff[:, xconverged].sum(1)
         res_magn += intmagn[:, xconverged].sum(1).max(1)
-- 
2.43.0


From aaa9553b97cb0772746bc55047bc4e8ca476e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 20/49] fix: overlap dropped segments it could not converge

Neither the result nor the error estimate contained these segments.
---
 src/sparse_ir/poly.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index efd143b..4e058cc 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -487,10 +487,14 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
     res_value = 0
     res_error = 0
     res_magn = 0
+    rest_value = 0
+    rest_error = 0
     for _ in range(max_refine_levels):
         #print(f"Level {_}: {xstart.size} segments")
         if xstart.size > max_refine_points:
             warn("Refinement is too broad, aborting (increase rtol)")
+            res_value += rest_value
+            res_error += rest_error
             break
 
         rule = base_rule.reseat(xstart[:, None], xstop[:, None])
@@ -518,7 +522,10 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         if xconverged.all():
             break
 
+        # These segments are accounted for by their refinement, if any
         xrefine = ~xconverged
+        rest_value = int10[:, xrefine].sum(1)
+        rest_error = intdiff[:, xrefine].sum(1)
         xstart = xstart[xrefine]
         xstop = xstop[xrefine]
         xedge = np.linspace(xstart, xstop, radix + 1, axis=-1)
@@ -526,6 +533,8 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
         xstop = xedge[:, 1:].ravel()
     else:
         warn("Integration did not converge after refinement")
+        res_value += rest_value
+        res_error += rest_error
 
     res_shape = poly.shape + f_shape
     return res_value.reshape(res_shape), res_error.reshape(res_shape)
-- 
2.43.0


From 453007c846f74f0d9802fa1bc07ab12cb2864b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 21/49] fix: symmetrised kernels failed without x_plus argument

---
 src/sparse_ir/kernel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 9624dad..f789a81 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -386,7 +386,8 @@ class ReducedKernel(AbstractKernel):
         # The reduced kernel is defined only over the interval [0, 1], which
         # means we must add one to get the x_plus for the inner kernels.  We
         # can compute this as 1 + x, since we are away from -1.
-        x_plus = 1 + x_plus
+        if x_plus is not None:
+            x_plus = 1 + x_plus
 
         K_plus = self.inner(x, y, x_plus, x_minus)
         K_minus = self.inner(x, -y, x_plus, x_minus)
-- 
2.43.0


From 29425631d9b05fb12f6f9443c8ff1b5621159b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 22/49] fix: kernels failed for scalar or integer arguments

---
 src/sparse_ir/kernel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index f789a81..950d964 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -285,7 +285,7 @@ class RegularizedBoseKernel(AbstractKernel):
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
         not_tiny = abs_v >= 1e-200
-        denom = -np.ones_like(abs_v)
+        denom = np.asarray(-np.ones_like(abs_v))
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
         return -1/dtype.type(self.lambda_) * enum * denom
@@ -447,7 +447,7 @@ class _LogisticKernelOdd(ReducedKernel):
         K(x, y) == -sinh(Λ/2 * x * y) / cosh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
@@ -470,7 +470,7 @@ class _RegularizedBoseKernelOdd(ReducedKernel):
             K(x, y) = -y * sinh(Λ/2 * x * y) / sinh(Λ/2 * y)
     """
     def __call__(self, x, y, x_plus=None, x_minus=None):
-        result = super().__call__(x, y, x_plus, x_minus)
+        result = np.asarray(super().__call__(x, y, x_plus, x_minus))
 
         # For x * y around 0, antisymmetrization introduces cancellation, which
         # reduces the relative precision.  To combat this, we replace the
@@ -526,5 +526,5 @@ def _compute_uv(lambda_, x, y, x_plus=None, x_minus=None):
         x_minus = 1 - x
     u_plus = .5 * x_plus
     u_minus = .5 * x_minus
-    v = lambda_ * y
+    v = lambda_ * (1. * y)
     return u_plus, u_minus, v
-- 
2.43.0


From 7c940b13f32badba76bbdce8ab0718dd7d0bb709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 23/49] fix: Gauss rules of low order failed to construct

If the Newton iteration hits the roots exactly, it was taken as not converging
and the warning raised AttributeError.  Also do not modify the argument.
---
 src/sparse_ir/_gauss.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 44113d0..e008b05 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -121,6 +121,7 @@ def rule_from_recurrence(alpha, beta, a, b):
 
     # First approximation of roots by finding eigenvalues of tridiagonal system
     # corresponding to the recursion
+    beta = np.array(beta)
     beta[0] = b - a
     beta_is_pos = beta >= 0
     if not beta_is_pos.all():
@@ -142,12 +143,12 @@ def rule_from_recurrence(alpha, beta, a, b):
         # check convergence without relying on ATOL
         currdiff = np.abs(diff).max()
         #print(currdiff)
-        if not (2 * currdiff <= prevdiff):
+        if not (0 < 2 * currdiff <= prevdiff):
             break
         prevdiff = currdiff
     else:
-        warnings.warn("Newton iteration did not converge, error = {.2g}"
-                      .format(currdiff))
+        warnings.warn("Newton iteration did not converge, error = {:.2g}"
+                      .format(float(currdiff)))
 
     # Now we know that the weights are proportional to the following:
     _, dp1, p0, _ = _polyvalderiv(x, alpha, beta)
-- 
2.43.0


From 8c0143513c2f3d64fd76a14a944535f519f1896e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:43 +0000
Subject: [PATCH 24/49] fix: 'FB', 'BF' and the empty string were accepted as
 statistics

---
 src/sparse_ir/basis.py  | 2 +-
 src/sparse_ir/kernel.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index 734156b..a7b3a2c 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -315,7 +315,7 @@ def _fence_matsubara_sampling(wn, positive_only):
 
 
 def _get_kernel(statistics, lambda_, kernel):
-    if statistics not in 'BF':
+    if statistics not in ('B', 'F'):
         raise ValueError("statistics must either be 'B' (for bosonic basis) "
                          "or 'F' (for fermionic basis)")
     if kernel is None:
diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 950d964..7375285 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -93,7 +93,7 @@ class AbstractKernel:
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """Return the weight function for given statistics"""
-        if statistics not in 'FB':
+        if statistics not in ('F', 'B'):
             raise ValueError("statistics must be 'F' for fermions or 'B' for bosons")
         return lambda x: np.ones_like(x)
 
@@ -200,7 +200,7 @@ class LogisticKernel(AbstractKernel):
          - Fermion: `w(x) == 1`
          - Boson: `w(y) == 1/tanh(Λ*y/2)`
         """
-        if statistics not in "FB":
+        if statistics not in ("F", "B"):
             raise ValueError("invalid value of statistics argument")
         if statistics == "F":
             return lambda y: np.ones_like(y)
-- 
2.43.0


From f5f27dcb24193fd02c8f40e03e3c0a38c56b2157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 25/49] fix: regularized kernel gave NaN at y = 0 in single
 precision

There, the threshold of 1e-200 is rounded to zero.
---
 src/sparse_ir/kernel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 7375285..94052b5 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -284,7 +284,7 @@ class RegularizedBoseKernel(AbstractKernel):
         # it has a singularity at v=0, which can be cured by treating that case
         # separately.  Secondly, the denominator loses precision around 0 since
         # exp(v) = 1 + v + ..., which can be avoided using expm1(...)
-        not_tiny = abs_v >= 1e-200
+        not_tiny = np.logical_and(abs_v >= 1e-200, abs_v > 0)
         denom = np.asarray(-np.ones_like(abs_v))
         np.divide(abs_v, np.expm1(-abs_v, where=not_tiny),
                   out=denom, where=not_tiny)
-- 
2.43.0


From adaf57f214e14b066df0c29e633823a89f945a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:33 +0000
Subject: [PATCH 26/49] fix: selecting Matsubara functions by tuples or arrays
 failed

This also affected Fourier transforms of polynomials with several dimensions.
---
 src/sparse_ir/poly.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 4e058cc..6d06c2e 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -253,7 +253,8 @@ class PiecewiseLegendreFT:
         cond_outer = np.abs(n) >= self.n_asymp
         if cond_outer.any():
             n_outer = n[cond_outer]
-            result[..., cond_outer] = self._model.giw(n_outer).T
+            result_outer = self._model.giw(n_outer).T
+            result[..., cond_outer] = result_outer.reshape(*self.shape, n_outer.size)
 
         return result
 
@@ -401,10 +402,9 @@ class _PowerModel:
     """
     def __init__(self, moments):
         """Initialize model"""
-        if moments.ndim == 1:
-            moments = moments[:, None]
         self.moments = np.asarray(moments)
-        self.nmom, self.nl = self.moments.shape
+        self.nmom = self.moments.shape[0]
+        self.nl = self.moments[:1].size
 
     @_util.ravel_argument()
     def giw(self, wn):
@@ -414,12 +414,14 @@ class _PowerModel:
         result = np.zeros((wn.size, self.nl), result_dtype)
         inv_iw = 1j * np.pi/2 * wn
         np.reciprocal(inv_iw, out=inv_iw, where=(wn != 0))
-        for mom in self.moments[::-1]:
+        for mom in self.moments[::-1].reshape(self.nmom, -1):
             result += mom
             result *= inv_iw[:, None]
         return result
 
     def __getitem__(self, l):
+        if isinstance(l, tuple):
+            return self.__class__(self.moments[(slice(None), *l)])
         return self.__class__(self.moments[:,l])
 
 
@@ -449,7 +451,7 @@ def _power_model(stat, poly):
     symm = np.ravel(poly.symm)
     deriv_xm1 = np.where(symm, symm * (-1.0)**m * deriv_x1, deriv_xm1)
     moments = _power_moments(stat, deriv_x1, deriv_xm1)
-    return _PowerModel(moments)
+    return _PowerModel(moments.reshape(len(moments), *poly.shape))
 
 
 def _refine_grid(knots, alpha):
-- 
2.43.0


From 76e7dc8142b57c63ce5bee5907e781d0512e872c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:09 +0000
Subject: [PATCH 27/49] fix: too few segments for small cutoffs to find roots
 of singular functions

For Lambda of about 1 or less, the functions were split into two segments only,
so that most of the roots were missed and the default sampling points were
fewer than the basis functions.
---
 src/sparse_ir/kernel.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 94052b5..2224123 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -218,7 +218,7 @@ class _SVEHintsLogistic(AbstractSVEHints):
 
     @property
     def segments_x(self):
-        nzeros = max(int(np.round(15 * np.log10(self.kernel.lambda_))), 1)
+        nzeros = max(int(np.round(15 * np.log10(self.kernel.lambda_))), 15)
         diffs = 1./np.cosh(.143 * np.arange(nzeros))
         zeros_pos = diffs.cumsum()
         zeros_pos /= zeros_pos[-1]
@@ -232,9 +232,7 @@ class _SVEHintsLogistic(AbstractSVEHints):
             0.06791, 0.06391, 0.05896, 0.05358, 0.04814, 0.04288, 0.03795,
             0.03342, 0.02932, 0.02565, 0.02239, 0.01951, 0.01699])
 
-        nzeros = max(int(np.round(20 * np.log10(self.kernel.lambda_))), 2)
-        if nzeros < 20:
-            leading_diffs = leading_diffs[:nzeros]
+        nzeros = max(int(np.round(20 * np.log10(self.kernel.lambda_))), 20)
         diffs = .25 / np.exp(.141 * np.arange(nzeros))
         diffs[:leading_diffs.size] = leading_diffs
         zeros = diffs.cumsum()
-- 
2.43.0


From 2dcf5a972719e47a268931efaee62fd239fbbe51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:10 +0000
Subject: [PATCH 28/49] fix: roots() missed roots of singular functions of the
 regularized kernel

The segments of v next to -1 and 1 hold up to three roots per half for
accurate expansions, so that two of them were dropped on either side and
default_omega_sampling_points returned too few points.
---
 src/sparse_ir/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index 6d06c2e..fa9f7f5 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -143,7 +143,7 @@ class PiecewiseLegendrePoly:
         ddata *= scale.reshape(_scale_shape)
         return self.__class__(ddata, self, symm=(-1)**n * self.symm)
 
-    def roots(self, alpha=2):
+    def roots(self, alpha=4):
         """Find all roots of the piecewise polynomial
 
         Assume that between each two knots (pieces) there are at most ``alpha``
-- 
2.43.0


From e36597328400f32d7e2737b1883c28dfd9e40389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 29/49] fix: gauge of singular functions was fixed at x = 1
 instead of right edge

For kernels with another range of x this gave functions of arbitrary sign or
failed for points outside of the range.
---
 src/sparse_ir/sve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 3e94cf1..558be10 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -342,10 +342,10 @@ def _canonicalize(ulx, vly):
 
     Each SVD (u_l, v_l) pair is unique only up to a global phase, which may
     differ from implementation to implementation and also platform.  We
-    fix that gauge by demanding u_l(1) > 0.  This ensures a diffeomorphic
+    fix that gauge by demanding u_l(xmax) > 0.  This ensures a diffeomorphic
     connection to the Legendre polynomials for lambda_ -> 0.
     """
-    gauge = np.sign(ulx(1))
+    gauge = np.sign(ulx(float(ulx.xmax)))
     ulx.data[None, None, :] *= 1/gauge
     vly.data[None, None, :] *= gauge
 
-- 
2.43.0


From 958f7a50dc972b71b2f6869039acc81fa49319b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:16 +0000
Subject: [PATCH 30/49] fix: high-frequency model was used where it diverges
 for small cutoffs

For lambda < 10, the basis functions do not vary less than polynomials, so
the expansion in inverse frequency does not converge yet at 40 * lambda.
For lambda = 1, errors at n = 40 were as large as the functions themselves.
---
 src/sparse_ir/adapter.py | 2 +-
 src/sparse_ir/kernel.py  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/adapter.py b/src/sparse_ir/adapter.py
index 7c296c8..cb28c82 100644
--- a/src/sparse_ir/adapter.py
+++ b/src/sparse_ir/adapter.py
@@ -53,7 +53,7 @@ class Basis:
         self._s = s
         self._v = v
 
-        conv_radius = 40 * Lambda
+        conv_radius = 40 * max(Lambda, 10)
         even_odd = {'F': 'odd', 'B': 'even'}[statistics]
         self._uhat = _poly.PiecewiseLegendreFT(u, even_odd, conv_radius)
 
diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 2224123..0a762a8 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -191,7 +191,7 @@ class LogisticKernel(AbstractKernel):
         return super().get_symmetrized(sign)
 
     @property
-    def conv_radius(self): return 40 * self.lambda_
+    def conv_radius(self): return 40 * max(self.lambda_, 10)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """
@@ -304,7 +304,7 @@ class RegularizedBoseKernel(AbstractKernel):
     def ypower(self): return 1
 
     @property
-    def conv_radius(self): return 40 * self.lambda_
+    def conv_radius(self): return 40 * max(self.lambda_, 10)
 
     def weight_func(self, statistics: str) -> Callable[[np.ndarray], np.ndarray]:
         """ Return the weight function for given statistics """
-- 
2.43.0


From f2f78a3a0d493f89e4a60858add4389a05ed8e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:45 +0000
Subject: [PATCH 31/49] fix: no or too many sampling times for expansions of
 one or two functions

---
 src/sparse_ir/basis.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index a7b3a2c..b9bda29 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -237,6 +237,10 @@ def _default_sampling_points(u, L):
         # polynomial.  We empirically find that these stay good sampling points
         # for our kernels (probably because the kernels are totally positive).
         x0 = u[L].roots()
+    elif u.size <= 2:
+        # One or two functions have no extrema to interleave with, so we simply
+        # divide the interval.
+        x0 = np.linspace(u.xmin, u.xmax, 2 * u.size + 1)[1::2]
     else:
         # If we do not have enough polynomials in the basis, we approximate the
         # roots of the L'th polynomial by the extrema of the (L-1)'st basis
-- 
2.43.0


From 31543fee6405d45620fa912549951fcf17358172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:07 +0000
Subject: [PATCH 32/49] fix: fitting nested lists failed in split form unless
 axis was given

---
 src/sparse_ir/sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index 17fd99d..a3cd568 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -390,10 +390,10 @@ class ConditioningWarning(RuntimeWarning):
 
 
 def _matop_along_axis(op, x, axis=None):
+    x = np.asarray(x)
     if axis is None:
         return op(x)
 
-    x = np.asarray(x)
     target_axis = max(x.ndim - 2, 0)
     x = np.moveaxis(x, axis, target_axis)
     r = op(x)
-- 
2.43.0


From 72158e16842a3e74590242c81c9f9ebac5baaa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:55 +0000
Subject: [PATCH 33/49] fix: singular values returned by SVEResult.part() were
 views

---
 src/sparse_ir/sve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 558be10..6ec04cb 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -131,9 +131,9 @@ class SVEResult:
         if max_size is not None and max_size < cut:
             cut = max_size
         if cut == self.s.size:
-            return self.u, self.s, self.v
+            return self.u, self.s.copy(), self.v
         else:
-            return self.u[:cut], self.s[:cut], self.v[:cut]
+            return self.u[:cut], self.s[:cut].copy(), self.v[:cut]
 
     def __iter__(self):
         return iter((self.u, self.s, self.v))
-- 
2.43.0


From 554c046bfc77a314a7a8c785c86e6e3cc164ba72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 34/49] fix: weights of Gauss rules of high order were not
 finite

---
 src/sparse_ir/_gauss.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index e008b05..be749ce 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -163,7 +163,7 @@ def _polyvalderiv(x, alpha, beta):
 
     Given a set of polynomials ``P[n]`` defined by a three-term recurrence,
     we evaluate both value and derviative for the highest polynomial and
-    the second highest one.
+    the second highest one, all up to one common factor.
     """
     n = len(alpha)
     p0 = np.ones_like(x)
@@ -179,6 +179,12 @@ def _polyvalderiv(x, alpha, beta):
         dp0 = dp1
         dp1 = dp2
 
+        # The polynomials are monic and thus decay (or grow) exponentially with
+        # their order.  Scale by a power of two to avoid under- and overflow.
+        if k % 16 == 0:
+            scale = 2.0**-np.frexp(float(np.abs(dp1).max()))[1]
+            p0, p1, dp0, dp1 = (scale * p for p in (p0, p1, dp0, dp1))
+
     return p1, dp1, p0, dp0
 
 
-- 
2.43.0


From bc831b5d70b7afbd6571b6a90cba0a4c99f3dc2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:57 +0000
Subject: [PATCH 35/49] fix: extended-precision quadrature rules were reseated
 in double precision

Rescaling a rule computed scaling and midpoint in the precision of the end
points rather than the one of the rule.
---
 src/sparse_ir/_gauss.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index be749ce..338644d 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -33,6 +33,10 @@ class Rule:
 
     def reseat(self, a, b):
         """Reseat current quadrature rule to new domain"""
+        # Promote, since end points may come in a lower precision than the rule
+        zero = self.x.dtype.type(0)
+        a = a + zero
+        b = b + zero
         scaling = (b - a) / (self.b - self.a)
         x = scaling * (self.x - (self.b + self.a)/2) + (b + a)/2
         w = self.w * scaling
@@ -217,7 +221,7 @@ class NestedRule(Rule):
     def reseat(self, a, b):
         """Reseat current quadrature rule to new domain"""
         res = super().reseat(a, b)
-        new_v = (b - a) / (self.b - self.a) * self.v
+        new_v = (res.b - res.a) / (self.b - self.a) * self.v
         return NestedRule(res.x, res.w, new_v, res.x_forward, res.x_backward,
                           res.a, res.b)
 
-- 
2.43.0


From 7e08f11a36b635aec27f6fabdfd947169522a863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:39 +0000
Subject: [PATCH 36/49] fix: fast SVD strategy rejected single-precision
 matrices

---
 src/sparse_ir/svd.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index f32c59f..28707a7 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -70,6 +70,9 @@ def _idsvd(a, n_sv):
     # SVD when we are only interested in a small subset of singular values.
     # NOTE: this returns the right singular vectors, not their conjugate!
     intp_decomp.seed(4711)
+    if not np.iscomplexobj(a):
+        # Only implemented in double precision
+        a = a.astype(np.double)
     return intp_decomp.svd(a, n_sv)
 
 
-- 
2.43.0


From 8e8ef362436fd3fb67f297f4bfcf3f576a6861c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 37/49] fix: extended-precision SVD failed for tall and exactly
 rank-deficient matrices

---
 src/sparse_ir/svd.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index 28707a7..700e3d0 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -101,5 +101,19 @@ def _ddouble_svd_trunc(a):
     """Truncated SVD with double double precision"""
     if _xprec_linalg is None:
         raise RuntimeError("require xprec package for this precision")
+
+    # Can only handle wide matrices unless they are rank deficient
+    m, n = a.shape
+    if m > n:
+        u, s, v = _ddouble_svd_trunc(a.T)
+        return v, s, u
+
+    # Neither zero matrices ...
+    if not np.not_equal(a, 0).any():
+        u, v = np.eye(m, 1, dtype=a.dtype), np.eye(n, 1, dtype=a.dtype)
+        return u, np.zeros_like(a[0, :1]), v
     u, s, vh = _xprec_linalg.svd_trunc(a)
-    return u, s, vh.T
+
+    # ... nor exactly vanishing singular values have valid singular vectors
+    nonzero = np.not_equal(s, 0)
+    return u[:, nonzero], s[nonzero], vh.T[:, nonzero]
-- 
2.43.0


From a3ddb01aa78a0cb87bab2607a8ae2872ca3544f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:01 +0000
Subject: [PATCH 38/49] fix: extended-precision singular values were not always
 in order

---
 src/sparse_ir/svd.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/svd.py b/src/sparse_ir/svd.py
index 700e3d0..b78661b 100644
--- a/src/sparse_ir/svd.py
+++ b/src/sparse_ir/svd.py
@@ -116,4 +116,8 @@ def _ddouble_svd_trunc(a):
 
     # ... nor exactly vanishing singular values have valid singular vectors
     nonzero = np.not_equal(s, 0)
-    return u[:, nonzero], s[nonzero], vh.T[:, nonzero]
+    u, s, v = u[:, nonzero], s[nonzero], vh.T[:, nonzero]
+
+    # Jacobi rotations do not sort singular values
+    order = np.argsort(-s, kind='stable')
+    return u[:, order], s[order], v[:, order]
-- 
2.43.0


From 7ce7d3c5e9cd52463ceda6e548c959e6dc689285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 39/49] fix: no warning if accuracy of both bases was lowered
 for lack of xprec

Computing the expansion up front bypassed the warning of FiniteTempBasis.
---
 src/sparse_ir/basis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/sparse_ir/basis.py b/src/sparse_ir/basis.py
index b9bda29..706d4de 100644
--- a/src/sparse_ir/basis.py
+++ b/src/sparse_ir/basis.py
@@ -220,10 +220,8 @@ def finite_temp_bases(
     Construct FiniteTempBasis objects for fermion and bosons using
     the same LogisticKernel instance.
     """
-    if sve_result is None:
-        sve_result = sve.compute(_kernel.LogisticKernel(beta*wmax), eps)
     basis_f = FiniteTempBasis("F", beta, wmax, eps, sve_result=sve_result)
-    basis_b = FiniteTempBasis("B", beta, wmax, eps, sve_result=sve_result)
+    basis_b = FiniteTempBasis("B", beta, wmax, eps, sve_result=basis_f.sve_result)
     return basis_f, basis_b
 
 
-- 
2.43.0


From 6b6c8ac51e545b0a0283ad2d665d6c028481e9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:28 +0000
Subject: [PATCH 40/49] fix: default sampling frequencies failed for inaccurate
 basis functions

Extrema of noisy functions were returned unordered or repeatedly.
---
 src/sparse_ir/_roots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/_roots.py b/src/sparse_ir/_roots.py
index 97dc0a8..b9284d9 100644
--- a/src/sparse_ir/_roots.py
+++ b/src/sparse_ir/_roots.py
@@ -119,7 +119,8 @@ def discrete_extrema(f, xgrid):
     if absfx[-1] > absfx[-2] or sfx[-1] != sfx[-2]:
         res.append(xgrid[-1])
 
-    return np.array(res)
+    # Brackets overlap, so noise may lead to repeated or unordered points
+    return np.unique(res)
 
 
 def _bisect_discr_extremum(f, a, b, absf_a, absf_b):
-- 
2.43.0


From 219459d79a9d874d6c14185c1024de3fdb3b250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 41/49] fix: StopIteration raised by integrand was swallowed by
 overlap

It silently ended the iteration over quadrature nodes.
---
 src/sparse_ir/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index fa9f7f5..dfdfcde 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -501,7 +501,7 @@ def _compute_overlap(poly, f, rtol=2.3e-16, radix=2, max_refine_levels=40,
 
         rule = base_rule.reseat(xstart[:, None], xstop[:, None])
 
-        fx = np.array(list(map(f, rule.x.ravel())))
+        fx = np.array([f(x) for x in rule.x.ravel()])
         if f_shape is None:
             f_shape = fx.shape[1:]
         elif fx.shape[1:] != f_shape:
-- 
2.43.0


From 5efe46f9e17113b0cd87d2a1fba516fb20ae8773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 42/49] fix: augmentations accepted NaN as temperature

---
 src/sparse_ir/augment.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 4de82c3..1bdd796 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -236,7 +236,7 @@ class TauConst(AbstractAugmentation):
         return cls(basis.beta)
 
     def __init__(self, beta):
-        if beta <= 0:
+        if not beta > 0:
             raise ValueError("temperature must be positive")
         self._beta = beta
 
@@ -263,7 +263,7 @@ class TauLinear(AbstractAugmentation):
         return cls(basis.beta)
 
     def __init__(self, beta):
-        if beta <= 0:
+        if not beta > 0:
             raise ValueError("temperature must be positive")
         self._beta = beta
         self._norm = np.sqrt(3/beta)
@@ -296,7 +296,7 @@ class MatsubaraConst(AbstractAugmentation):
         return cls(basis.beta)
 
     def __init__(self, beta):
-        if beta <= 0:
+        if not beta > 0:
             raise ValueError("temperature must be positive")
         self._beta = beta
 
-- 
2.43.0


From c52c06db94421a595659a74224ad408399e13a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 43/49] fix: derivatives of augmentations accepted times
 outside [0, beta]

---
 src/sparse_ir/augment.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index 1bdd796..a6e2bf9 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -248,7 +248,7 @@ class TauConst(AbstractAugmentation):
         if n == 0:
             return self
         else:
-            return lambda tau: np.zeros(np.shape(tau))
+            return _constant_function(0.0, self._beta)
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
@@ -277,10 +277,9 @@ class TauLinear(AbstractAugmentation):
         if n == 0:
             return self
         elif n == 1:
-            c = self._norm * 2/self._beta
-            return lambda tau: np.full(np.shape(tau), c)
+            return _constant_function(self._norm * 2/self._beta, self._beta)
         else:
-            return lambda tau: np.zeros(np.shape(tau))
+            return _constant_function(0.0, self._beta)
 
     def hat(self, n):
         n = _util.check_reduced_matsubara(n, zeta=0)
@@ -320,6 +319,13 @@ def _augmentation_factory(basis, *augs):
             yield aug.create(basis)
 
 
+def _constant_function(value, beta):
+    def function(tau):
+        tau = _util.check_range(tau, 0, beta)
+        return np.full(tau.shape, value)
+    return function
+
+
 def _check_bosonic_statistics(statistics):
     if statistics == 'B':
         return
-- 
2.43.0


From cf20a1db2f05cf442c122dd0e7ac50a89915affb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:14 +0000
Subject: [PATCH 44/49] fix: DLR functions accepted invalid statistics and
 temperatures

---
 src/sparse_ir/dlr.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sparse_ir/dlr.py b/src/sparse_ir/dlr.py
index d8c2207..5995b61 100644
--- a/src/sparse_ir/dlr.py
+++ b/src/sparse_ir/dlr.py
@@ -131,6 +131,7 @@ class DiscreteLehmannRepresentation(abstract.AbstractBasis):
 
 class MatsubaraPoles:
     def __init__(self, statistics: str, beta: float, poles: np.ndarray):
+        _check_parameters(statistics, beta)
         self._statistics = statistics
         self._beta = beta
         self._poles = np.array(poles)
@@ -154,6 +155,7 @@ class MatsubaraPoles:
 
 class TauPoles:
     def __init__(self, statistics: str, beta: float, poles: np.ndarray):
+        _check_parameters(statistics, beta)
         self._beta = beta
         self._statistics = statistics
         self._poles = np.array(poles)
@@ -173,3 +175,10 @@ class TauPoles:
 
         res = -kernel.LogisticKernel(lambda_)(x[:, None], y[None, :])
         return res.T
+
+
+def _check_parameters(statistics, beta):
+    if statistics not in ('F', 'B'):
+        raise ValueError("statistics must be either 'F' or 'B'")
+    if not beta > 0:
+        raise ValueError("inverse temperature beta must be positive")
-- 
2.43.0


From 934e7afd9f7cad454a17ae26a35089916410d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 45/49] fix: kernels accepted negative and undefined cutoffs

---
 src/sparse_ir/kernel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sparse_ir/kernel.py b/src/sparse_ir/kernel.py
index 0a762a8..9d185b5 100644
--- a/src/sparse_ir/kernel.py
+++ b/src/sparse_ir/kernel.py
@@ -157,6 +157,8 @@ class LogisticKernel(AbstractKernel):
     .. math::  w(y) = \frac1{\tanh(\Lambda y/2)}.
     """
     def __init__(self, lambda_):
+        if not lambda_ >= 0:
+            raise ValueError("kernel cutoff lambda_ must be non-negative")
         self.lambda_ = lambda_
 
     def __call__(self, x, y, x_plus=None, x_minus=None):
@@ -259,6 +261,8 @@ class RegularizedBoseKernel(AbstractKernel):
     Care has to be taken in evaluating this expression around ``y == 0``.
     """
     def __init__(self, lambda_):
+        if not lambda_ >= 0:
+            raise ValueError("kernel cutoff lambda_ must be non-negative")
         self.lambda_ = lambda_
 
     def __call__(self, x, y, x_plus=None, x_minus=None):
-- 
2.43.0


From 29828b95f5a2c9bfbf7e0875de9f173df4e6f27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 46/49] fix: piecewise polynomials accepted segments of zero
 length

---
 src/sparse_ir/poly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/poly.py b/src/sparse_ir/poly.py
index dfdfcde..a535a38 100644
--- a/src/sparse_ir/poly.py
+++ b/src/sparse_ir/poly.py
@@ -35,7 +35,7 @@ class PiecewiseLegendrePoly:
         polyorder, nsegments = data.shape[:2]
         if knots.shape != (nsegments+1,):
             raise ValueError("Invalid knots array")
-        if not (knots[1:] >= knots[:-1]).all():
+        if not (knots[1:] > knots[:-1]).all():
             raise ValueError("Knots must be monotonically increasing")
         if symm is None:
             # TODO: infer symmetry from data
-- 
2.43.0


From b69c556c44e6942a287fb3c41601b3971c04f7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:41 +0000
Subject: [PATCH 47/49] fix: augmented functions were selected by rounded
 indices

---
 src/sparse_ir/augment.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sparse_ir/augment.py b/src/sparse_ir/augment.py
index a6e2bf9..b929ffd 100644
--- a/src/sparse_ir/augment.py
+++ b/src/sparse_ir/augment.py
@@ -1,5 +1,7 @@
 # Copyright (C) 2020-2021 Markus Wallerberger, Hiroshi Shinaoka, and others
 # SPDX-License-Identifier: MIT
+import operator
+
 import numpy as np
 
 from . import _util
@@ -167,7 +169,7 @@ class _AugmentedFunction:
                 raise NotImplementedError("Don't truncate to only augmentation")
             return self.__class__(self._fbasis[:stop-self._naug], self._faug)
         else:
-            l = int(l)
+            l = operator.index(l)
             if not (-self.size <= l < self.size):
                 raise IndexError(f"index {l} out of bounds for {self.size} functions")
             if l < 0:
-- 
2.43.0


From 8987e7c8a0970936f3abe718f4d36a043e27fd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:39 +0000
Subject: [PATCH 48/49] fix: expansions in extended precision could not be
 pickled

The accuracy stored in SVEResult was an extended-precision scalar, which
neither pickles nor converts implicitly; store an ordinary float.
---
 src/sparse_ir/sve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 6ec04cb..56cf96a 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -311,7 +311,7 @@ def _safe_eps(eps_required, work_dtype, svd_strat):
         # but it's not too far off and easier to remember for the user.
         safe_eps = 1e-8
     else:
-        safe_eps = np.sqrt(svd.finfo(work_dtype).eps)
+        safe_eps = float(np.sqrt(svd.finfo(work_dtype).eps))
 
     # Work out the SVD strategy to be used.  If the user sets this, we
     # assume they know what they are doing and do not warn if they compute
-- 
2.43.0


From faeae72eda7841cee41dff35e64f0e873c5feb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:33 +0000
Subject: [PATCH 49/49] fix: rules, expansions and decomposed matrices aliased
 arrays passed in

---
 src/sparse_ir/_gauss.py   | 8 ++++----
 src/sparse_ir/sampling.py | 4 ++--
 src/sparse_ir/sve.py      | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/sparse_ir/_gauss.py b/src/sparse_ir/_gauss.py
index 338644d..f2c77f0 100644
--- a/src/sparse_ir/_gauss.py
+++ b/src/sparse_ir/_gauss.py
@@ -18,16 +18,16 @@ class Rule:
     with the number of quadrature points.
     """
     def __init__(self, x, w, x_forward=None, x_backward=None, a=-1, b=1):
-        x = np.asarray(x)
+        x = np.array(x)
         if x_forward is None:
             x_forward = x - a
         if x_backward is None:
             x_backward = b - x
 
         self.x = x
-        self.w = np.asarray(w)
-        self.x_forward = np.asarray(x_forward)
-        self.x_backward = np.asarray(x_backward)
+        self.w = np.array(w)
+        self.x_forward = np.array(x_forward)
+        self.x_backward = np.array(x_backward)
         self.a = a
         self.b = b
 
diff --git a/src/sparse_ir/sampling.py b/src/sparse_ir/sampling.py
index a3cd568..0c29507 100644
--- a/src/sparse_ir/sampling.py
+++ b/src/sparse_ir/sampling.py
@@ -239,7 +239,7 @@ class DecomposedMatrix:
 
         self._a = a
         self._uH = np.array(u.conj().T)
-        self._s = s
+        self._s = np.array(s)
         self._v = np.array(vH.conj().T)
 
     def __matmul__(self, x):
@@ -324,7 +324,7 @@ class SplitDecomposedMatrix:
         self._a = a
         self._urealT = np.array(u.T.real)
         self._uimagT = np.array(u.T.imag)
-        self._s = s
+        self._s = np.array(s)
         self._v = np.array(vT.T)
 
     def __matmul__(self, x):
diff --git a/src/sparse_ir/sve.py b/src/sparse_ir/sve.py
index 56cf96a..edc0acf 100644
--- a/src/sparse_ir/sve.py
+++ b/src/sparse_ir/sve.py
@@ -116,7 +116,7 @@ class SVEResult:
     """Result of singular value expansion"""
     def __init__(self, u, s, v, K, eps=None):
         self.u = u
-        self.s = s
+        self.s = np.array(s)
         self.v = v
 
         # In addition to its SVE, we remember the type of kernel and also the
-- 
2.43.0

