From 81c6bafa41eb1cdc4c162ff9741c0107b72f1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 01/29] fix: SR1 update divided zero by zero when the secant
 condition already held

---
 fides/hessian_approximation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index aeb07b9..7fb8814 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -212,8 +212,9 @@ class SR1(IterativeHessianApproximation):
         z = y - self._hess.dot(s)
         d = z.T.dot(s)
 
-        # [NocedalWright2006] (6.26) reject if update degenerate
-        if np.abs(d) >= np.sqrt(np.spacing(1)) * norm(s) * norm(z):
+        # [NocedalWright2006] (6.26) reject if update degenerate, this includes
+        # z == 0, where the secant condition is already satisfied
+        if np.abs(d) > np.sqrt(np.spacing(1)) * norm(s) * norm(z):
             self._diff = np.outer(z, z.T) / d
         else:
             self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 91d8a829dadf2a24db3b743217fa239450097d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 02/29] fix: HybridFixed/HybridFraction stayed switched when
 the optimizer was run again

---
 fides/hessian_approximation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 7fb8814..9a7f533 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -275,6 +275,11 @@ class HybridApproximation(HessianApproximation):
 
 
 class HybridSwitchApproximation(HybridApproximation):
+    def _init_mat(self, dim: int, hess: np.ndarray | None = None):
+        # every optimization run starts with the dynamic approximation
+        self._switched = False
+        super()._init_mat(dim, hess)
+
     def _switched_update(self, s: np.ndarray, y: np.ndarray, hess: np.ndarray):
         self.hessian_update.update(s, y)
         new_hess = self.hessian_update.get_mat() if self._switched else hess
-- 
2.43.0


From 46c67d4a205b10648ab18caa6846d41b6f6b74a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 03/29] fix: BB computed its update but never applied it

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 9a7f533..504a62c 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -245,7 +245,7 @@ class BB(IterativeHessianApproximation):
     This scheme only works with a function that returns (fval, grad)
     """
 
-    def update(self, s: np.ndarray, y: np.ndarray) -> None:
+    def _compute_update(self, s: np.ndarray, y: np.ndarray) -> None:
         b = y.T.dot(s)
         z = y - self._hess.dot(s)
         if b <= 0:
-- 
2.43.0


From ec1e85daccd16ce273e34fa04297721ec5ad41d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 04/29] fix: enum-valued options given under their string key
 were not validated

---
 fides/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/constants.py b/fides/constants.py
index b5161be..9dce9f8 100644
--- a/fides/constants.py
+++ b/fides/constants.py
@@ -128,10 +128,10 @@ def validate_options(options: dict):
                 f'{option_key} is not a valid options field.'
             ) from None
 
-        if option_key is Options.SUBSPACE_DIM:
+        if option is Options.SUBSPACE_DIM:
             option_value = SubSpaceDim(option_value)
 
-        if option_key is Options.STEPBACK_STRAT:
+        if option is Options.STEPBACK_STRAT:
             option_value = StepBackStrategy(option_value)
 
         expected_type = expected_types[option]
-- 
2.43.0


From 825e75ddce768e08bbfe47b809c8942a0fcbf46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 05/29] fix: integer x0 at a bound was truncated to a
 neighbouring integer

---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 3ae0166..14194c3 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -354,7 +354,7 @@ class Optimizer:
         """
         self._reset(start_id)
 
-        self.x = np.array(x0).copy()
+        self.x = np.array(x0, dtype=float)
         if self.x.ndim > 1:
             raise ValueError('x0 must be a vector with x.ndim == 1!')
         self.make_non_degenerate()
-- 
2.43.0


From f641272078f8ae772c1ae5658b4c8ea18b26810f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 06/29] fix: dimensions of the first objective output were only
 checked after use

---
 fides/minimize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 14194c3..e4aa24a 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -361,6 +361,7 @@ class Optimizer:
         self.check_in_bounds()
 
         funout = self.fevaler(self.x)
+        funout.checkdims()
 
         self.fval, self.grad = funout.fval, funout.grad
         if self.hessian_update is not None:
@@ -372,8 +373,6 @@ class Optimizer:
         else:
             self.hess = funout.hess.copy()
 
-        funout.checkdims()
-
         self.track_minimum(funout)
         self.log_header()
         self.log_step_initial()
-- 
2.43.0


From 23059f0daaef02a07826db920db6e9827eed6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 07/29] fix: a run that raised kept the exit flag of the
 previous run

---
 fides/minimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fides/minimize.py b/fides/minimize.py
index e4aa24a..1983e39 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -301,6 +301,7 @@ class Optimizer:
         self.iterations_since_tr_update = 0
         self.n_intermediate_tr_radius = 0
         self.converged = False
+        self.exitflag = ExitFlag.DID_NOT_RUN
         self.delta = self.get_option(Options.DELTA_INIT)
         self.delta_iter = self.delta
         self.fval_min = np.inf
-- 
2.43.0


From 84bd0972f5889bb67f0aeec21f6163d7e10386cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 08/29] fix: 2D solver proposed a NaN step for one variable
 with zero curvature

---
 fides/steps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 0ee9f00..750de3a 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -284,8 +284,7 @@ class TRStep2D(Step):
         self.posdef = np.min(np.real(e)) > -np.spacing(1) * np.max(np.abs(e))
 
         if len(sg) == 1:
-            s_newt = -sg[0] / self.shess[0]
-            self.subspace = np.expand_dims(s_newt, 1)
+            self.subspace = np.ones((1, 1))
             return
 
         self.newton = False
-- 
2.43.0


From d00f3abd67bdb508656a850300c856be5cffc2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 09/29] fix: subproblem solver relied on eig returning
 orthonormal eigenvectors

---
 fides/subproblem.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 692be3e..9d336b5 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -135,9 +135,8 @@ def solve_nd_trust_region_subproblem(
 
     # instead of a cholesky factorization, we go with an eigenvalue
     # decomposition, which works pretty well for n=2
-    eigvals, eigvecs = linalg.eig(b)
-    eigvals = np.real(eigvals)
-    eigvecs = np.real(eigvecs)
+    # only the symmetric part of b contributes to the quadratic form
+    eigvals, eigvecs = linalg.eigh(0.5 * (b + b.T))
     w = -eigvecs.T.dot(g)
     jmin = eigvals.argmin()
     mineig = eigvals[jmin]
-- 
2.43.0


From 8cbe62c921bf0ec045f55b91c43604b379b20496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 10/29] fix: subproblem solver missed the global minimizer for
 indefinite b with small gradient along the lowest eigenvector

---
 fides/subproblem.py | 40 +++++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 9d336b5..1df5ca5 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -150,16 +150,25 @@ def solve_nd_trust_region_subproblem(
     # \phi(lam) = 1/||s(lam)|| - 1/delta
     # \phi'(lam) = - s(lam).T*ds(lam)/||s(lam)||^3
 
+    # relative accuracy to which the constraint ||s|| <= delta is resolved
+    rtol = np.sqrt(np.spacing(1))
+
     # POSITIVE DEFINITE
     if mineig > 0:  # positive definite
         s = np.real(slam(0, w, eigvals, eigvecs))  # s = - self.cB\self.cg_hat
-        if norm(s) <= delta + np.sqrt(np.spacing(1)):  # CASE 0
+        if norm(s) <= delta * (1 + rtol):  # CASE 0
             logger.debug('Interior subproblem solution')
             return s, 'posdef'
         else:
             laminit = 0
     else:
-        laminit = -mineig
+        # shift eigenvalues such that lam is the distance to the pole of the
+        # secular equation at -mineig, which may be smaller than the spacing
+        # of floating point numbers around -mineig
+        eigvals = eigvals - mineig
+        eigvals[eigvals <= np.spacing(len(g) * np.abs(mineig))] = 0
+        # ||s(lam)|| >= norm(wmin) / lam, which provides a lower bound for lam
+        laminit = norm(w[eigvals == 0]) / delta
 
     # INDEFINITE CASE
     # note that this includes what Nocedal calls the "hard case" but with
@@ -172,12 +181,13 @@ def solve_nd_trust_region_subproblem(
                 secular,
                 laminit,
                 dsecular,
-                tol=1e-12,
+                tol=np.finfo(float).tiny,
+                rtol=1e-12,
                 maxiter=maxiter,
                 args=(w, eigvals, eigvecs, delta),
             )
             s = slam(r, w, eigvals, eigvecs)
-            if norm(s) <= delta + 1e-12:
+            if np.abs(norm(s) - delta) <= delta * rtol:
                 logger.debug('Found boundary subproblem solution via newton')
                 return s, 'indef'
         except RuntimeError:
@@ -195,12 +205,13 @@ def solve_nd_trust_region_subproblem(
                     secular,
                     xa,
                     xb,
-                    xtol=1e-12,
-                    maxiter=maxiter,
+                    xtol=np.finfo(float).tiny,
+                    rtol=1e-12,
+                    maxiter=1000,
                     args=(w, eigvals, eigvecs, delta),
                 )
                 s = slam(r, w, eigvals, eigvecs)
-                if norm(s) <= delta + np.sqrt(np.spacing(1)):
+                if np.abs(norm(s) - delta) <= delta * rtol:
                     logger.debug(
                         'Found boundary subproblem solution via brentq'
                     )
@@ -209,14 +220,21 @@ def solve_nd_trust_region_subproblem(
             pass  # may end up here due to ill-conditioning, treat as hard case
 
     # HARD CASE (gradient is orthogonal to eigenvector to smallest eigenvalue)
-    w[(eigvals - mineig) == 0] = 0
-    s = slam(-mineig, w, eigvals, eigvecs)
+    ismin = eigvals == eigvals[jmin]
+    wmin = np.where(ismin, w, 0)
+    if norm(wmin) > 0:
+        # gradient is only numerically orthogonal, still need to go downhill
+        vmin = eigvecs.dot(wmin / norm(wmin))
+    else:
+        vmin = eigvecs[:, jmin]
+    s = slam(-eigvals[jmin], np.where(ismin, 0, w), eigvals, eigvecs)
     # we know that ||s(lam) + sigma*v_jmin|| = delta, since v_jmin is
     # orthonormal, we can just substract the difference in norm to get
     # the right length.
-
+    if norm(s) > delta:
+        s = s * (delta / norm(s))
     sigma = np.sqrt(max(delta**2 - norm(s) ** 2, 0))
-    s = s + sigma * eigvecs[:, jmin]
+    s = s + sigma * vmin
     logger.debug('Found boundary 2D subproblem solution via hard case')
     return s, 'hard'
 
-- 
2.43.0


From 8a1bef128ff42bbbc972c1eea639a245438120be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 11/29] fix: 1D subproblem solution was NaN for directions
 tangential to the trust region boundary

---
 fides/subproblem.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/subproblem.py b/fides/subproblem.py
index 1df5ca5..ee3d5e2 100644
--- a/fides/subproblem.py
+++ b/fides/subproblem.py
@@ -73,9 +73,13 @@ def solve_1d_trust_region_subproblem(
 def get_1d_trust_region_boundary_solution(b, g, s, s0, delta):
     a = np.dot(s, s)
     b_coef = 2 * np.dot(s0, s)
-    c = np.dot(s0, s0) - delta**2
+    # s0 on the boundary may exceed delta by rounding errors
+    c = min(np.dot(s0, s0) - delta**2, 0.0)
 
     aux = b_coef + math.copysign(np.sqrt(b_coef**2 - 4 * a * c), b_coef)
+    if aux == 0.0:
+        # s0 is on the boundary and s is tangential
+        return 0.0
     ts = [-aux / (2 * a), -2 * c / aux]
     qs = [quadratic_form(b, g, s0 + t * s) for t in ts]
     return ts[np.argmin(qs)]
-- 
2.43.0


From 409a5e09683d4cc16ce14bcff301e67eed972f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:07 +0000
Subject: [PATCH 12/29] fix: truncated steps could exceed the trust region
 radius

---
 fides/steps.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 750de3a..5058e5c 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -483,9 +483,12 @@ class TRStepTruncated(Step):
         subspace[iminbr, :] = 0
         # reduce subspace
         subspace = subspace[:, (subspace != 0).any(axis=0)]
-        # normalize subspace
-        for ix in range(subspace.shape[1]):
-            normalize(subspace[:, ix])
+        # orthonormalize subspace, the norm of the coefficients is only equal
+        # to the norm of the step if columns are orthonormal
+        if subspace.shape[1] > 1:
+            subspace = linalg.orth(subspace)
+        elif subspace.shape[1] == 1:
+            normalize(subspace[:, 0])
         self.subspace = subspace
 
         for iminbr in step.iminbr:
-- 
2.43.0


From 6ff85b15173d7cc1dd6cbdf505c3a5cdfcdcb37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 13/29] fix: 2D subspace was not orthonormal for nearly
 parallel directions

---
 fides/steps.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 5058e5c..732f76d 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -311,9 +311,10 @@ class TRStep2D(Step):
             s_grad = scaling.dot(np.sign(sg) + (sg == 0))
 
         normalize(s_newt)
+        normalize(s_grad)
         s_grad = s_grad - s_newt * s_newt.dot(s_grad)
-        # if non-zero, add s_grad to subspace
-        if norm(s_grad) > np.spacing(1):
+        # if non-zero up to rounding errors, add s_grad to subspace
+        if norm(s_grad) > np.sqrt(np.spacing(1)):
             normalize(s_grad)
             self.subspace = np.vstack([s_newt, s_grad]).T
         else:
-- 
2.43.0


From aeb86a571661df4e56125bf727d4e5a295b50267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 14/29] fix: stepped back CG steps were inconsistent with their
 model value

---
 fides/steps.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 732f76d..d3c55a2 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -334,7 +334,14 @@ class CGStep(Step):
     def calculate(self):
         nsg = norm(self.sg)
         self.conj_grad(min(0.5, np.sqrt(nsg)) * nsg)
-        self.s = self.scaling.dot(self.ss + self.ss0)
+        # step back and reflections operate on the full step, which includes
+        # the CG iterates that precede the last search direction
+        self.ss = self.ss + self.ss0
+        self.ss0 = np.zeros_like(self.ss)
+        self.sc = norm(self.ss) * np.ones((1,))
+        self.subspace = np.expand_dims(self.ss, 1).copy()
+        normalize(self.subspace)
+        self.s = self.scaling.dot(self.ss)
         self.step_back()
         self.qpval = quadratic_form(self.shess, self.sg, self.ss + self.ss0)
 
-- 
2.43.0


From c2972447521b0b61991960910c64fe49be8ea0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 15/29] fix: CG proposed a NaN step if the gradient is zero

---
 fides/steps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index d3c55a2..6797401 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -367,7 +367,7 @@ class TRStepSteihaug(CGStep):
         z = np.zeros_like(self.sg)
         r = self.sg.copy()
         d = -self.sg.copy()
-        if norm(r) < eps:
+        if norm(r) <= eps:
             self.ss = z
             return
 
-- 
2.43.0


From 0a164928d1f4ce815b5d34fe37d2f9747cbf1b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:36 +0000
Subject: [PATCH 16/29] fix: CG did not terminate if rounding errors prevent
 convergence

---
 fides/steps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 6797401..71aeb39 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -371,7 +371,9 @@ class TRStepSteihaug(CGStep):
             self.ss = z
             return
 
-        while True:
+        # n iterations suffice in exact arithmetic, but rounding errors or a non
+        # symmetric hess may prevent convergence to the specified tolerance
+        for _ in range(10 * len(r)):
             bd = self.shess.dot(d)
             c = d.dot(bd)
             r2 = np.dot(r, r)
@@ -404,6 +406,8 @@ class TRStepSteihaug(CGStep):
             z = zp.copy()
             r = rp.copy()
 
+        self.ss = z
+
 
 class TRStepReflected(Step):
     """
-- 
2.43.0


From 57755ea8840294b9fd5681ae3235d712e1e00da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 17/29] fix: rounding errors in reflected steps could exceed
 bounds and abort the run

---
 fides/minimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 1983e39..af52e6e 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -411,7 +411,8 @@ class Optimizer:
                 logger=self.logger,
             )
 
-            x_new = self.x + step.s + step.s0
+            # rounding errors may exceed bounds for steps that end on a bound
+            x_new = np.clip(self.x + step.s + step.s0, self.lb, self.ub)
             funout_new = self.fevaler(x_new)
 
             if np.isfinite(funout_new.fval):
-- 
2.43.0


From 5323fa7cf1a0755ded1674de0bc11dc0f665fae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 18/29] fix: gradient convergence was reported for rejected
 points

---
 fides/minimize.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index af52e6e..12fc2e6 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -612,7 +612,11 @@ class Optimizer:
         xtol = self.get_option(Options.XTOL)
         gatol = self.get_option(Options.GATOL)
         grtol = self.get_option(Options.GRTOL)
-        gnorm = norm(grad)
+        if self.tr_ratio > 0.0:
+            gnorm, fref = norm(grad), fval
+        else:
+            # rejected, gradient criteria apply to the point that is retained
+            gnorm, fref = norm(self.grad), self.fval
         stepsx = step.ss + step.ss0
         nsx = norm(stepsx)
 
@@ -644,12 +648,12 @@ class Optimizer:
             )
             converged = True
 
-        elif gnorm <= grtol * np.abs(self.fval):
+        elif gnorm <= grtol * np.abs(fref):
             self.exitflag = ExitFlag.GTOL
             self.logger.info(
                 'Stopping as gradient norm satisfies relative convergence '
                 f'criteria: {gnorm:.2E} < {grtol:.2E} * '
-                f'{np.abs(self.fval):.2E}'
+                f'{np.abs(fref):.2E}'
             )
             converged = True
 
-- 
2.43.0


From 7bba78d239987eeacbf65768239c6c6de8fbfad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 19/29] fix: TSSM approximation was NaN for zero residuals

---
 fides/hessian_approximation.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 504a62c..eb0e0e5 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -553,9 +553,20 @@ class TSSM(StructuredApproximation):
         # Equation (2.6)
         ys = hess.dot(s) + yb
         # Equation (2.10)
-        self._structured_diff = broyden_class_update(
-            ys, s, bs, phi=self.phi, enforce_curv_cond=self.enforce_curv_cond
-        ) / norm(r)
+        if norm(r) > 0:
+            self._structured_diff = (
+                broyden_class_update(
+                    ys,
+                    s,
+                    bs,
+                    phi=self.phi,
+                    enforce_curv_cond=self.enforce_curv_cond,
+                )
+                / norm(r)
+            )
+        else:
+            # second order term vanishes for zero residuals
+            self._structured_diff = np.zeros_like(self.A)
         self.A += self._structured_diff
         # Equation (2.9)
         self._update_hess_and_store_diff(hess + norm(r) * self.A)
-- 
2.43.0


From 0d848fb71bc5f110a28e0a418f32841fe5e6da4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 20/29] fix: Broyden class updates were NaN for singular
 initial approximations

---
 fides/hessian_approximation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index eb0e0e5..efcd8d7 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -650,6 +650,9 @@ def broyden_class_update(
     if b <= 0 and enforce_curv_cond:
         return np.zeros_like(mat)
 
+    if b == 0 or c == 0:  # update is not defined
+        return np.zeros_like(mat)
+
     update = np.outer(y, y.T) / b - np.outer(u, u.T) / c
 
     if phi != 0.0:
-- 
2.43.0


From 4a3db399a8aaae523d0ac31a605fc3740d7c5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:40 +0000
Subject: [PATCH 21/29] fix: 2D solver ignored gradient components in the
 kernel of singular matrices

---
 fides/steps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fides/steps.py b/fides/steps.py
index 71aeb39..78e2858 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -292,7 +292,13 @@ class TRStep2D(Step):
         if self.posdef:
             s_newt = -linalg.lstsq(self.shess, sg)[0]
 
-            if norm(s_newt) < delta:
+            # the least squares solution ignores gradient components in the
+            # kernel of singular matrices, so this may not be a newton step
+            exact = norm(self.shess.dot(s_newt) + sg) <= np.sqrt(
+                np.spacing(1)
+            ) * norm(sg)
+
+            if exact and norm(s_newt) < delta:
                 # Case 0 of Fig 12 in [ColemanLi1994]
                 normalize(s_newt)
                 self.newton = True
-- 
2.43.0


From 093cbadcad5a5ff2c051eac39e131b0bd25a9027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:29 +0000
Subject: [PATCH 22/29] fix: truncated variables could be unfrozen by rounding
 errors

---
 fides/steps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index 78e2858..271c1ae 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -504,7 +504,10 @@ class TRStepTruncated(Step):
         # orthonormalize subspace, the norm of the coefficients is only equal
         # to the norm of the step if columns are orthonormal
         if subspace.shape[1] > 1:
+            frozen = (subspace == 0).all(axis=1)
             subspace = linalg.orth(subspace)
+            # not only up to rounding errors
+            subspace[frozen, :] = 0
         elif subspace.shape[1] == 1:
             normalize(subspace[:, 0])
         self.subspace = subspace
-- 
2.43.0


From 49b27acf5b07790c780271cd92e8679d9c04b838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 23/29] fix: truncated steps ignored the curvature coupling to
 the frozen variables

---
 fides/steps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/steps.py b/fides/steps.py
index 271c1ae..1d054bb 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -206,11 +206,11 @@ class Step:
 
     def reduce_to_subspace(self) -> None:
         """
-        This function projects the matrix shess and the vector sg to the
-        subspace
+        This function projects the matrix shess and the gradient of the
+        quadratic form at ss0 to the subspace
         """
         self.chess = self.subspace.T.dot(self.shess.dot(self.subspace))
-        self.cg = self.subspace.T.dot(self.sg)
+        self.cg = self.subspace.T.dot(self.sg + self.shess.dot(self.ss0))
 
     def compute_step(self) -> None:
         """
-- 
2.43.0


From 17700b3ee869d36b978ad1fb7fb992c3d5953897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 24/29] fix: initial Hessian approximations of wrong shape were
 accepted if the number of rows matched

---
 fides/hessian_approximation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index efcd8d7..a0f9458 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -39,11 +39,11 @@ class HessianApproximation:
         if hess is None:
             self._hess = np.eye(dim)
         else:
-            if hess.shape[0] != dim:
+            if hess.shape != (dim, dim):
                 raise ValueError(
                     'Initial approximation had inconsistent '
-                    f'dimension, was {hess.shape[0]}, '
-                    f'but should be {dim}.'
+                    f'shape, was {hess.shape}, '
+                    f'but should be {(dim, dim)}.'
                 )
             self._hess = hess.copy()
         self._diff = np.zeros_like(self._hess)
-- 
2.43.0


From 6db889480c187a9869036efc22d2d52bf4698a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:33 +0000
Subject: [PATCH 25/29] fix: hand out a copy of the structured update

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index a0f9458..8221634 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -498,7 +498,7 @@ class StructuredApproximation(HessianApproximation):
         return True  # pragma: no cover
 
     def get_structured_diff(self) -> np.ndarray:
-        return self._structured_diff
+        return self._structured_diff.copy()
 
 
 class SSM(StructuredApproximation):
-- 
2.43.0


From cc557cd9ea1a6fe22e4922f947bd71645e190e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 26/29] fix: integer lower bounds truncated the upper bounds
 used for scaling

---
 fides/minimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 12fc2e6..4229844 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -250,8 +250,8 @@ class Optimizer:
                 f'function with argument resfun set to `True`.'
             )
 
-        self.lb: np.ndarray = np.array(lb)
-        self.ub: np.ndarray = np.array(ub)
+        self.lb: np.ndarray = np.array(lb, dtype=float)
+        self.ub: np.ndarray = np.array(ub, dtype=float)
 
         if options is None:
             options = {}
-- 
2.43.0


From 9290756713658d8f5f3678b0137e2cbb1bd9b4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 27/29] fix: integer gradients truncated the distances to
 bounds

---
 fides/minimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/minimize.py b/fides/minimize.py
index 4229844..ff7775d 100644
--- a/fides/minimize.py
+++ b/fides/minimize.py
@@ -731,7 +731,7 @@ class Optimizer:
         """
         # this implements no scaling for variables that are not constrained by
         # bounds ((iii) and (iv) in Definition 2)
-        v = np.sign(self.grad) + (self.grad == 0)
+        v = (np.sign(self.grad) + (self.grad == 0)).astype(float)
         dv = np.zeros(self.x.shape)
 
         # this implements scaling for variables that are constrained by
-- 
2.43.0


From b3b17896094c04abcbe36d159c486f108d44db50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 28/29] fix: updates of integer matrices raised a casting error

---
 fides/hessian_approximation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fides/hessian_approximation.py b/fides/hessian_approximation.py
index 8221634..4b18a11 100644
--- a/fides/hessian_approximation.py
+++ b/fides/hessian_approximation.py
@@ -116,7 +116,7 @@ class IterativeHessianApproximation(HessianApproximation):
         raise NotImplementedError()  # pragma: no cover
 
     def _apply_update(self) -> None:
-        self._hess += self._diff
+        self._hess = self._hess + self._diff
 
 
 class Broyden(IterativeHessianApproximation):
-- 
2.43.0


From b9a1f9a0577c14f394cec8f91d7e136b95accd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:55 +0000
Subject: [PATCH 29/29] fix: count all reflections and truncations of a step

The counts of repeatedly reflected or truncated steps, which are reported in the
history, only covered the last reflection or truncation.
---
 fides/steps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fides/steps.py b/fides/steps.py
index 1d054bb..ccc19fb 100644
--- a/fides/steps.py
+++ b/fides/steps.py
@@ -456,6 +456,7 @@ class TRStepReflected(Step):
         normalize(nss)
         self.subspace = np.expand_dims(nss, 1)
 
+        self.reflection_indices.update(step.reflection_indices)
         for iminbr in step.iminbr:
             self.reflection_indices.add(iminbr)
 
@@ -512,6 +513,7 @@ class TRStepTruncated(Step):
             normalize(subspace[:, 0])
         self.subspace = subspace
 
+        self.truncation_indices.update(step.truncation_indices)
         for iminbr in step.iminbr:
             self.truncation_indices.add(iminbr)
 
-- 
2.43.0

