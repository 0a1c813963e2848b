From 85cef6320e6b2ebbcf4015da4af9945f9e7e419c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:45 +0000
Subject: [PATCH 01/64] fix: Concatenate sends each parent its own block of the
 mask

---
 bayespy/inference/vmp/nodes/concatenate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/concatenate.py b/bayespy/inference/vmp/nodes/concatenate.py
index a2b4b46..49bb66b 100644
--- a/bayespy/inference/vmp/nodes/concatenate.py
+++ b/bayespy/inference/vmp/nodes/concatenate.py
@@ -109,7 +109,7 @@ class Concatenate(Deterministic):
 
     def _compute_weights_to_parent(self, index, weights):
         axis = self._axis
-        indices = self._indices[index:(index+1)]
+        indices = self._indices[index:(index+2)]
         if np.ndim(weights) >= abs(axis) and np.shape(weights)[axis] > 1:
             # Take the middle one of the returned three arrays
             return np.split(weights, indices, axis=axis)[1]
-- 
2.43.0


From 48dd7da1d8347229c9bf9a696b33e01f911c9d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:43 +0000
Subject: [PATCH 02/64] fix: Mixture message to assignments when the cluster
 plate is not the last axis

---
 bayespy/inference/vmp/nodes/mixture.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/mixture.py b/bayespy/inference/vmp/nodes/mixture.py
index 2e9c047..987c920 100644
--- a/bayespy/inference/vmp/nodes/mixture.py
+++ b/bayespy/inference/vmp/nodes/mixture.py
@@ -65,14 +65,6 @@ class MixtureDistribution(ExponentialFamilyDistribution):
             # Compute g:
             # Shape(g)      = [Nn,..,K,..,N0]
             g = self.raw_distribution.compute_cgf_from_parents(*(u_parents[1:]))
-            # Reshape(g):
-            # Shape(g)      = [Nn,..,N0,K]
-            if np.ndim(g) < abs(self.cluster_plate):
-                # Not enough axes, just add the cluster plate axis
-                g = np.expand_dims(g, -1)
-            else:
-                # Move the cluster plate axis
-                g = misc.moveaxis(g, self.cluster_plate, -1)
 
             # Compute phi:
             # Shape(phi)    = [Nn,..,K,..,N0,Dd,..,D0]
@@ -99,6 +91,7 @@ class MixtureDistribution(ExponentialFamilyDistribution):
 
             # Move axis:
             # Shape(L)      = [Nn,..,N0,K]
+            L = misc.atleast_nd(L, abs(self.cluster_plate))
             L = np.moveaxis(L, self.cluster_plate, -1)
 
             m = [L]
-- 
2.43.0


From 0f1d58aa8e1a9e2bbec7b727c38f02d1835198d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:15 +0000
Subject: [PATCH 03/64] fix: Gaussian Markov chains with parameters broadcasted
 over the state dimension

---
 .../vmp/nodes/gaussian_markov_chain.py        | 41 +++++++++++++------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index cedadbf..c6b9107 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -248,12 +248,24 @@ class _TemplateGaussianMarkovChain(ExponentialFamily):
         raise NotImplementedError()
 
 
+def _broadcast_state_plate(x, D, ndim):
+    """
+    Make sure the last plate axis has full length D.
+
+    Moments may be broadcasted over plates but the axis for the state
+    dimensions needs to be summed.
+    """
+    return x * np.ones((D,) + ndim*(1,))
+
+
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
-                                           logdet_nu, N):
+                                           logdet_nu, N, D):
     """
     Compute CGF using the moments of the parents.
     """
 
+    logdet_nu = _broadcast_state_plate(logdet_nu, D, 0)
+
     g0 = -0.5 * mumu_Lambda #np.einsum('...ij,...ij->...', mumu, Lambda)
 
     g1 = 0.5 * logdet_Lambda
@@ -507,12 +519,13 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
             Xn = u[0][...,1:,:]
             # (..., N-1, D)
             Xp = u[0][...,:-1,:]
+            nu_AA = _broadcast_state_plate(u_A_nu[1], D, 2)
             # (..., N-1, D, K)
             B = u_A_nu[0][...,D:]
             # (..., N-1, D, D, K)
-            AB = u_A_nu[1][...,:D,D:]
+            AB = nu_AA[...,:D,D:]
             # (..., N-1, D, K, K)
-            BB = u_A_nu[1][...,D:,D:]
+            BB = nu_AA[...,D:,D:]
 
             # (..., N-1, K)
             m0 = (
@@ -567,10 +580,11 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         Lambda_mu = u_mu_Lambda[0]   # (..., D)
         Lambda = u_mu_Lambda[2]      # (..., D, D)
         nu_A = u_A_nu[0][...,:D]     # (..., N-1, D, D)
-        nu_AA = u_A_nu[1][...,:D,:D] # (..., N-1, D, D, D)
+        u1_A_nu = _broadcast_state_plate(u_A_nu[1], D, 2)
+        nu_AA = u1_A_nu[...,:D,:D]   # (..., N-1, D, D, D)
         nu_B = u_A_nu[0][...,D:]     # (..., N-1, D, inputs)
-        nu_BB = u_A_nu[1][...,D:,D:] # (..., N-1, D, inputs, inputs)
-        nu_AB = u_A_nu[1][...,:D,D:] # (..., N-1, D, D, inputs)
+        nu_BB = u1_A_nu[...,D:,D:]   # (..., N-1, D, inputs, inputs)
+        nu_AB = u1_A_nu[...,:D,D:]   # (..., N-1, D, D, inputs)
         nu = u_A_nu[2] * np.ones(D)  # (..., N-1, D)
         # mu = u_mu[0]           # (..., D)
         # Lambda = u_Lambda[0]   # (..., D, D)
@@ -633,12 +647,13 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         g = _compute_cgf_for_gaussian_markov_chain(u_mu_Lambda[1],
                                                    u_mu_Lambda[3],
                                                    u_A_nu[3],
-                                                   self.N)
+                                                   self.N,
+                                                   self.D)
 
         if len(u_inputs):
             D = np.shape(u_mu_Lambda[0])[-1]
             uu = u_inputs[0][1]
-            nu_BB = u_A_nu[1][...,D:,D:]
+            nu_BB = _broadcast_state_plate(u_A_nu[1], D, 2)[...,D:,D:]
             nu = u_A_nu[2]
             #BB_v = np.einsum('...d,...dij->...ij', v, BB)
             g_inputs = -0.5 * np.einsum(
@@ -1067,7 +1082,7 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
         BB = u_B[1]          # (..., D, D, K, D, K)
         S = u_S[0]           # (..., N-1, K) or (..., 1, K)
         SS = u_S[1]          # (..., N-1, K, K)
-        v = u_v[0]           # (..., N-1, D) or (..., 1, D)
+        v = _broadcast_state_plate(u_v[0], D, 0) # (..., N-1, D) or (..., 1, D)
 
         # TODO/FIXME: Take into account plates!
         plates_phi0 = misc.broadcasted_shape(np.shape(mu)[:-1],
@@ -1130,7 +1145,8 @@ class VaryingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribu
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
@@ -1611,7 +1627,7 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
         B = u_B[0]                      # (..., K, D, D)
         BB = u_B[1]                     # (..., K, D, D, D)
         Z = u_Z[0]                      # (..., N-1, K)
-        v = misc.atleast_nd(u_v[0], 2) # (..., N-1, D) or (..., 1, D)
+        v = _broadcast_state_plate(misc.atleast_nd(u_v[0], 2), D, 0) # (..., N-1, D) or (..., 1, D)
 
         # TODO/FIXME: Take into account plates!
         plates_phi0 = misc.broadcasted_shape(np.shape(mu)[:-1],
@@ -1672,7 +1688,8 @@ class SwitchingGaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistri
         return _compute_cgf_for_gaussian_markov_chain(u_mumu_Lambda,
                                                       u_Lambda[1],
                                                       u_v[1],
-                                                      self.N)
+                                                      self.N,
+                                                      self.D)
 
     def plates_to_parent(self, index, plates):
         """
-- 
2.43.0


From cb43ebd9108b70f7d39407dbda1db0fa7c7949f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 04/64] fix: Slicing plates with a negative step down to the
 first element

---
 bayespy/inference/vmp/nodes/node.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 0092454..6de0867 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -863,7 +863,9 @@ from .deterministic import Deterministic
 def slicelen(s, length=None):
     if length is not None:
         s = slice(*(s.indices(length)))
-    return max(0, misc.ceildiv(s.stop - s.start, s.step))
+    # Negative step down to the first element has stop=None
+    stop = -1 if s.stop is None else s.stop
+    return max(0, misc.ceildiv(stop - s.start, s.step))
 
 class Slice(Deterministic):
 
@@ -971,7 +973,9 @@ class Slice(Deterministic):
                 # Index is a slice, e.g., [2:6]
 
                 # Normalize the slice
-                s = slice(*(s.indices(X.plates[j])))
+                (start, stop, step) = s.indices(X.plates[j])
+                # Negative stop would be interpreted as counting from the end
+                s = slice(start, stop if stop >= 0 else None, step)
                 if slicelen(s) <= 0:
                     raise IndexError("Slicing leads to empty plates")
                 slices[k] = s
-- 
2.43.0


From daa1b83da3bc62535dc9beb0c5eff82a32386f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:37 +0000
Subject: [PATCH 05/64] fix: Constant does not expose its list of moments for
 modification

---
 bayespy/inference/vmp/nodes/constant.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/constant.py b/bayespy/inference/vmp/nodes/constant.py
index ccc578c..dbac8ea 100644
--- a/bayespy/inference/vmp/nodes/constant.py
+++ b/bayespy/inference/vmp/nodes/constant.py
@@ -58,7 +58,9 @@ class Constant(Node):
 
 
     def get_moments(self):
-        return self.u
+        # Do not return a reference to the moment list of this node because
+        # deterministic nodes may modify the list.
+        return [ui for ui in self.u]
 
 
     def set_value(self, x):
-- 
2.43.0


From 3ed05c9df896e4bfb6b734f7af35739e09934c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 06/64] fix: GammaShape counts its prior in the lower bound and
 accepts ignore_masked

---
 bayespy/inference/vmp/nodes/gamma.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 371d256..514bed1 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -330,8 +330,13 @@ class GammaShape(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
-        return 0
+    def lower_bound_contribution(self, ignore_masked=True):
+        L = self._m0 * self.u[0] + self._m1 * self.u[1]
+        return (
+            np.sum(L)
+            * self.broadcasting_multiplier(self.plates, np.shape(L))
+            * np.prod(self.plates_multiplier)
+        )
 
 
 class _GammaToDiagonalWishart(Deterministic):
-- 
2.43.0


From a5f8c651a488246361c2f44662edadd03dac4a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 07/64] fix: Euclidean gradient of Dirichlet and beta nodes

---
 bayespy/inference/vmp/nodes/dirichlet.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 8825136..3c27893 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -223,11 +223,15 @@ class DirichletDistribution(ExponentialFamilyDistribution):
 
            \nabla &=
            \begin{bmatrix}
-             (\psi^{(1)}(\phi_1) - \psi^{(1)}(\sum_d \phi_{1,d}) \nabla_1
+             \psi^{(1)}(\phi_1) \nabla_1
+             - \psi^{(1)}(\sum_d \phi_{1,d}) \sum_d \nabla_{1,d}
            \end{bmatrix}
         """
         sum_phi = np.sum(phi[0], axis=-1, keepdims=True)
-        d0 = g[0] * (special.polygamma(1, phi[0]) - special.polygamma(1, sum_phi))
+        d0 = (
+            special.polygamma(1, phi[0]) * g[0]
+            - special.polygamma(1, sum_phi) * np.sum(g[0], axis=-1, keepdims=True)
+        )
         return [d0]
 
 
-- 
2.43.0


From 940a5cf0d151a17895cd1be77eaba0e9e1047fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 08/64] fix: DirichletConcentration lower bound sums over
 plates and accepts ignore_masked

---
 bayespy/inference/vmp/nodes/dirichlet.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index 3c27893..fd786f1 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -327,11 +327,16 @@ class Concentration(Stochastic):
         return
 
 
-    def lower_bound_contribution(self):
-        return (
+    def lower_bound_contribution(self, ignore_masked=True):
+        L = (
             linalg.inner(self.u[0], self.regularization[0], ndim=1)
             + self.u[1] * self.regularization[1]
         )
+        return (
+            np.sum(L)
+            * self.broadcasting_multiplier(self.plates, np.shape(L))
+            * np.prod(self.plates_multiplier)
+        )
 
 
 class Dirichlet(ExponentialFamily):
-- 
2.43.0


From ede3bcf3c321d8ed280a0f3eb652cfdd4bb79b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 09/64] fix: Log-determinant of a diagonal Wishart from
 broadcasted gamma moments

---
 bayespy/inference/vmp/nodes/gamma.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 514bed1..0256fd2 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -387,9 +387,11 @@ class _GammaToDiagonalWishart(Deterministic):
     def get_moments(self):
         u = self.parents[0].get_moments()
 
-        # Form a diagonal matrix from the gamma variables
-        return [np.identity(self.dims[0][0]) * u[0][...,np.newaxis],
-                np.sum(u[1], axis=(-1))]
+        # Form a diagonal matrix from the gamma variables. The moments of the
+        # parent may be broadcasted over the diagonal.
+        D = self.dims[0][0]
+        return [np.identity(D) * u[0][...,np.newaxis],
+                np.sum(u[1] * np.ones(D), axis=-1)]
 
     @staticmethod
     def _compute_message_to_parent(index, m_children, *u_parents):
-- 
2.43.0


From 3f63df35b56cfcd55fba2a600b9e5c143d817f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 10/64] fix: logpdf with zero probabilities

---
 bayespy/inference/vmp/nodes/expfamily.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index f93ec57..f30a90c 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -491,7 +491,8 @@ class ExponentialFamily(Stochastic):
         for (phi_d, u_d, dims) in zip(self.phi, u, self.dims):
             axis_sum = tuple(range(-len(dims),0))
             # TODO/FIXME: Use einsum here?
-            Z = Z + np.sum(phi_d * u_d, axis=axis_sum)
+            # Handle 0 * -inf
+            Z = Z + np.sum(np.where(u_d != 0, phi_d, 0) * u_d, axis=axis_sum)
             #Z = Z + misc.sum_multiply(phi_d, u_d, axis=axis_sum)
 
         return (self.g + f + Z)
-- 
2.43.0


From 116ea857e7cad2d9875d72f939faee0e79c39f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 11/64] fix: Initializing binomial and Bernoulli nodes from a
 value

---
 bayespy/inference/vmp/nodes/binomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index 8a2f4df..ee2841d 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -45,7 +45,7 @@ class BinomialMoments(PoissonMoments):
         x = np.asanyarray(x)
         if np.any(x > self.N):
             raise ValueError("Invalid count")
-        return super().compute_fixed_moments()
+        return super().compute_fixed_moments(x)
 
 
     def compute_dims_from_values(self, x):
-- 
2.43.0


From ed53b59299b5e1413311e76cb17e353bc4212c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 12/64] fix: Gaussian nodes with scalar and array variables

---
 bayespy/inference/vmp/nodes/gaussian.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index ec1ddb2..c484390 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -418,7 +418,6 @@ class GaussianDistribution(ExponentialFamilyDistribution):
         """
         # TODO: Compute -2*phi[1] and simplify the formulas
         L = linalg.chol(-2*phi[1], ndim=self.ndim)
-        k = np.shape(phi[0])[-1]
         Cov = linalg.chol_inv(L, ndim=self.ndim)
         mu = linalg.chol_solve(L, phi[0], ndim=self.ndim)
         # G
@@ -480,7 +479,7 @@ class GaussianDistribution(ExponentialFamilyDistribution):
            f(\mathbf{x})
            &= - \frac{D}{2} \log(2\pi)
         """
-        k = np.shape(x)[-1]
+        k = np.prod(self.shape)
         u = [x, linalg.outer(x, x, ndim=self.ndim)]
         f = -k/2*np.log(2*np.pi)
         return (u, f)
-- 
2.43.0


From a1d4d6c3bc8828caab9dc654ba8c578a933e3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:05 +0000
Subject: [PATCH 13/64] fix: Flattening zero axes of an array

---
 bayespy/utils/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index ca6bd97..748b9b9 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -41,7 +41,7 @@ def flatten_axes(X, *ndims):
     plates = shape[:i]
     nd_sums = i + np.cumsum((0,) + ndims)
     sizes = tuple(
-        np.prod(shape[i:j])
+        np.prod(shape[i:j], dtype=int)
         for (i, j) in zip(nd_sums[:-1], nd_sums[1:])
     )
     return np.reshape(X, plates + sizes)
@@ -52,7 +52,7 @@ def reshape_axes(X, *shapes):
     if np.ndim(X) < ndim:
         raise ValueError("Not enough ndims in the array")
     i = np.ndim(X) - ndim
-    sizes = tuple(np.prod(sh) for sh in shapes)
+    sizes = tuple(np.prod(sh, dtype=int) for sh in shapes)
     if np.shape(X)[i:] != sizes:
         raise ValueError("Shapes inconsistent with sizes")
     shape = tuple(i for sh in shapes for i in sh)
-- 
2.43.0


From 6049cc1cfa200d205777d0948ceef3ee222c2d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:31 +0000
Subject: [PATCH 14/64] fix: Autosave counts the finished iteration

The automatic save wrote the file before increasing the iteration counter, so
loading it and continuing repeated the number of the saved iteration and
overwrote its lower bound.
---
 bayespy/inference/vmp/vmp.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index d1aea67..dd8dadc 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -746,9 +746,13 @@ class VB():
                     self.print("Converged at iteration %d." % (self.iter+1))
                 self.converged = True
 
+        self.annealing_changed = False
+
+        self.iter += 1
+
         # Auto-save, if requested
         if (self.autosave_iterations > 0
-            and np.mod(self.iter+1, self.autosave_iterations) == 0):
+            and np.mod(self.iter, self.autosave_iterations) == 0):
 
             if self.autosave_nodes is not None:
                 self.save(*self.autosave_nodes, filename=self.autosave_filename)
@@ -757,8 +761,4 @@ class VB():
             if verbose:
                 self.print('Auto-saved to %s' % self.autosave_filename)
 
-        self.annealing_changed = False
-
-        self.iter += 1
-
         return self.converged
-- 
2.43.0


From db43720f1769434751b8cd1589fb0a322c3887e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:28 +0000
Subject: [PATCH 15/64] fix: load_user_data returns the saved user data

---
 bayespy/inference/vmp/vmp.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index dd8dadc..47ea0ad 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -297,13 +297,10 @@ class VB():
         f = h5py.File(filename, 'r')
         try:
             group = f['user_data']
-            for (key, value) in group.items():
-                user_data['key'] = value[...]
-        except:
-            raise
+            user_data = {key: value[...] for (key, value) in group.items()}
         finally:
             f.close()
-        return
+        return user_data
 
 
     def load(self, *nodes, filename=None, nodes_only=False):
-- 
2.43.0


From e4fe6e903fb6c21e5ecde2bcef56e4d525d9137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:01 +0000
Subject: [PATCH 16/64] fix: Continue inference after loading only some of the
 nodes

The lower bound terms of the nodes that were not loaded did not have room for
the iterations to come, so the next update raised an IndexError.
---
 bayespy/inference/vmp/vmp.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 47ea0ad..edf760f 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -343,6 +343,11 @@ class VB():
                 self.converged = h5f['converged'][...]
                 for node in nodes:
                     self.l[node] = h5f['boundterms'][node.name][...]
+                # The terms of the other nodes are not known for the loaded
+                # iterations but they must fit the iterations to come
+                for node in self.model:
+                    if node not in nodes:
+                        self.l[node] = misc.nans(len(self.L))
                 try:
                     self.callback_output = h5f['callback_output'][...]
                 except KeyError:
-- 
2.43.0


From fa19385f1637c31c2695461347297544a3f39581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 17/64] fix: VB.use_logging uses its argument

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index edf760f..02505b5 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -109,7 +109,7 @@ class VB():
 
 
     def use_logging(self, use):
-        if use_logging:
+        if use:
             logger = logging.getLogger(__name__)
             self.print = logger.info
         else:
-- 
2.43.0


From 439de497f5fad3d47bdf23aa696153204f51a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:34 +0000
Subject: [PATCH 18/64] fix: Deleting nodes that have children or whose parents
 get ignored

Deleting a node with children raised an error because the set of children
changed during the iteration, deleting a deterministic node raised KeyError,
and the parents of a deleted observed node were still treated as having
observed children.
---
 bayespy/inference/vmp/nodes/node.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 6de0867..f095d94 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -700,10 +700,17 @@ class Node():
         """
         Delete this node and the children
         """
+        # Deleted children remove themselves from the set of children
+        for child in list(self.children):
+            # The child may have been deleted already as a child of a child
+            if child in self.children:
+                child[0].delete()
         for (ind, parent) in enumerate(self.parents):
-            parent._remove_child(self, ind)
-        for (child, _) in self.children:
-            child.delete()
+            # Deterministic nodes without children are not known to the parents
+            if (self, ind) in parent.children:
+                parent._remove_child(self, ind)
+            # The parent may not have observed descendants anymore
+            parent._update_mask()
 
     @staticmethod
     def broadcasting_multiplier(plates, *args):
-- 
2.43.0


From 8be9c282d30dcba5c037e41d0c31b4478fb0d86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 19/64] fix: Solving with broadcasted right-hand sides in
 chol_solve

---
 bayespy/utils/linalg.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index db1a9e4..688cdae 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -91,9 +91,12 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
                 misc.flatten_axes(b, ndim)
             )
 
-        # Allocate memory
+        # Broadcast B explicitly over the axes of U
         sh_u = U.shape[:-2]
-        sh_b = B.shape[:-1]
+        sh_b = misc.broadcasted_shape(sh_u, B.shape[:-1])
+        B = np.broadcast_to(B, sh_b + B.shape[-1:])
+
+        # Allocate memory
         l_u = len(sh_u)
         l_b = len(sh_b)
 
-- 
2.43.0


From 77636dbd3f6611f6a698cf10131df2fd566d4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:41 +0000
Subject: [PATCH 20/64] fix: Broadcast values explicitly when accumulating at
 indices (Take)

---
 bayespy/utils/misc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 748b9b9..5cc27a6 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -542,6 +542,9 @@ def put(x, indices, y, axis=-1, ufunc=np.add):
 
     indices = axis*(slice(None),) + (indices,) + (ndim-axis-1)*(slice(None),)
     #y = add_trailing_axes(y, ndim-axis-1)
+    # Broadcast explicitly, because ufunc.at may give wrong results for one
+    # dimensional values and multi-dimensional indices
+    y = np.broadcast_to(y, np.shape(x[indices]))
     ufunc.at(x, indices, y)
     return x
 
-- 
2.43.0


From 9b2187d4c3d5b51e5f9f6ecdd4531d2ac6109850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:08 +0000
Subject: [PATCH 21/64] fix: Adding a plate axis to a node

---
 bayespy/inference/vmp/nodes/node.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index f095d94..bee8a3e 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -1207,6 +1207,9 @@ def AddPlateAxis(to_plate):
                 to_plate -= N
                 #self.to_plate = to_plate
 
+            self._moments = X._moments
+            self._parent_moments = (X._moments,)
+
             super().__init__(X,
                              dims=X.dims,
                              **kwargs)
@@ -1219,14 +1222,14 @@ def AddPlateAxis(to_plate):
 
         def _plates_from_parent(self, index):
             plates = list(self.parents[index].plates)
-            plates.insert(len(plates)-to_plate+1, 1)
+            plates.insert(len(plates)+to_plate+1, 1)
             return tuple(plates)
 
 
         def _compute_weights_to_parent(self, index, weights):
             # Remove the added mask plate
             if abs(to_plate) <= np.ndim(weights):
-                sh_weighs = list(np.shape(weights))
+                sh_weights = list(np.shape(weights))
                 sh_weights.pop(to_plate)
                 weights = np.reshape(weights, sh_weights)
             return weights
-- 
2.43.0


From b73e9fdba42c26f3b8e8587d5f7893152a33c008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:22 +0000
Subject: [PATCH 22/64] fix: Add accepts an array as its first argument

---
 bayespy/inference/vmp/nodes/add.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/add.py b/bayespy/inference/vmp/nodes/add.py
index 4330a9e..db75222 100644
--- a/bayespy/inference/vmp/nodes/add.py
+++ b/bayespy/inference/vmp/nodes/add.py
@@ -62,7 +62,8 @@ class Add(Deterministic):
         for node in nodes:
             try:
                 node = self._ensure_moments(node, GaussianMoments, ndim=None)
-            except ValueError:
+            except (TypeError, ValueError):
+                # The number of dimensions of plain arrays is not known
                 pass
             else:
                 ndim = node._moments.ndim
-- 
2.43.0


From 9410b2cae9df76f66b6781fe520507158f5d9c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:29 +0000
Subject: [PATCH 23/64] fix: Squeezing an axis that the number of trials does
 not have

---
 bayespy/inference/vmp/nodes/binomial.py    | 3 +++
 bayespy/inference/vmp/nodes/multinomial.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/binomial.py b/bayespy/inference/vmp/nodes/binomial.py
index ee2841d..f789f5e 100644
--- a/bayespy/inference/vmp/nodes/binomial.py
+++ b/bayespy/inference/vmp/nodes/binomial.py
@@ -142,6 +142,9 @@ class BinomialDistribution(ExponentialFamilyDistribution):
         return np.random.binomial(self.N, p, size=plates)
 
     def squeeze(self, axis):
+        if axis < -np.ndim(self.N):
+            # Missing leading axes are broadcasted, thus there's nothing to squeeze
+            return BinomialDistribution(self.N)
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index bc651db..1489acb 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -213,6 +213,9 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
         return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
 
     def squeeze(self, axis):
+        if axis < -np.ndim(self.N):
+            # Missing leading axes are broadcasted, thus there's nothing to squeeze
+            return MultinomialDistribution(self.N)
         try:
             N_squeezed = np.squeeze(self.N, axis)
         except ValueError as err:
-- 
2.43.0


From dded380009134b1de7539d2ee1c2de2582513780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:53 +0000
Subject: [PATCH 24/64] fix: broadcast the plates of the input signals of
 Gaussian Markov chains

---
 .../vmp/nodes/gaussian_markov_chain.py        | 36 +++++++++++++++----
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index c6b9107..f9a2406 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -258,6 +258,25 @@ def _broadcast_state_plate(x, D, ndim):
     return x * np.ones((D,) + ndim*(1,))
 
 
+def _concatenate(arrays, axis):
+    """
+    Concatenate arrays along an axis broadcasting all the other axes.
+    """
+    ndim = max(np.ndim(x) for x in arrays)
+    arrays = [misc.atleast_nd(x, ndim) for x in arrays]
+    shape = misc.broadcasted_shape(
+        *[np.shape(np.take(x, [0], axis=axis)) for x in arrays]
+    )
+    ind = range(ndim)[axis]
+    return np.concatenate(
+        [
+            np.broadcast_to(x, shape[:ind] + (np.shape(x)[ind],) + shape[ind+1:])
+            for x in arrays
+        ],
+        axis=axis
+    )
+
+
 def _compute_cgf_for_gaussian_markov_chain(mumu_Lambda, logdet_Lambda,
                                            logdet_nu, N, D):
     """
@@ -504,10 +523,10 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
                 m1_AB = -0.5 * Xn[..., :-1, None, :, None] * z[..., None, None, :]
 
                 # Construct full message arrays from blocks
-                m0 = np.concatenate([m0, m0_B], axis=-1)
-                row1 = np.concatenate([m1, m1_AB], axis=-1)
-                row2 = np.concatenate([m1_AB.swapaxes(-1,-2), m1_BB], axis=-1)
-                m1 = np.concatenate([row1, row2], axis=-2)
+                m0 = _concatenate([m0, m0_B], axis=-1)
+                row1 = _concatenate([m1, m1_AB], axis=-1)
+                row2 = _concatenate([m1_AB.swapaxes(-1,-2), m1_BB], axis=-1)
+                m1 = _concatenate([row1, row2], axis=-2)
 
             return [m0, m1, m2, m3]
 
@@ -603,7 +622,8 @@ class GaussianMarkovChainDistribution(TemplateGaussianMarkovChainDistribution):
         if inputs is not None:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1],
                                                  np.shape(nu_B)[:-3],
-                                                 np.shape(nu_AB)[:-4])
+                                                 np.shape(nu_AB)[:-4],
+                                                 np.shape(inputs)[:-2])
         else:
             plates_phi0 = misc.broadcasted_shape(np.shape(Lambda_mu)[:-1])
 
@@ -917,7 +937,11 @@ class GaussianMarkovChain(_TemplateGaussianMarkovChain):
                  dims,
                  cls._total_plates(kwargs.get('plates'),
                                    distribution.plates_from_parent(0, mu_Lambda.plates),
-                                   distribution.plates_from_parent(1, A_nu.plates)),
+                                   distribution.plates_from_parent(1, A_nu.plates),
+                                   *(
+                                       [] if inputs is None else
+                                       [distribution.plates_from_parent(2, inputs.plates)]
+                                   )),
                  distribution,
                  moments,
                  _parent_moments)
-- 
2.43.0


From d2e1e3356d6a28c25c8f5ab9e100b295ceb0751c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 25/64] fix: gradients of the ARD rotation bound when the shape
 prior is not scalar

---
 bayespy/inference/vmp/transformations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 795e259..3d5cd6a 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -893,7 +893,9 @@ class RotateGaussianARD():
                                        1/b,
                                        D_b)
             D_logalpha     = -D_logb
-            D_a0_logalpha  = a0 * D_logalpha
+            D_a0_logalpha  = np.einsum('...i,...ij->...ij',
+                                       a0,
+                                       D_logalpha)
         else:
             XmuXmu_Dalpha = 0
             D_logalpha = 0
@@ -1055,9 +1057,8 @@ class RotateGaussianARD():
 
         if self.update_alpha:
 
-            D_alpha = -psi(alpha/b)
-            D_b0_alpha = b0 * D_alpha
-            D_a0_logalpha = a0 * D_logalpha
+            D_b0_alpha = -psi(b0*alpha/b)
+            D_a0_logalpha = -psi(a0/b)
 
             # Compute dH(alpha)
             # This cancels out with the log(alpha) term in log(p(alpha))
-- 
2.43.0


From 1d5f51df6430eb6f3cdd6738ea2cc980f736ee70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:13 +0000
Subject: [PATCH 26/64] fix: make the plates of the dynamics explicit in chain
 rotations

---
 bayespy/inference/vmp/transformations.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 3d5cd6a..dcbf3d4 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -1192,6 +1192,9 @@ class RotateGaussianMarkovChain():
     def _computations_for_A_and_X(self, XpXn, XpXp):
         # Get moments of the state dynamics matrix
         (A, AA) = self.A_node.get_moments()
+        # Make sure that the plates (rows of the matrix) are explicit
+        A = A * np.ones(self.A_node.get_shape(0))
+        AA = AA * np.ones(self.A_node.get_shape(1))
         # Make sure time axis is in the arrays
         A = misc.atleast_nd(A, 3)
         AA = misc.atleast_nd(AA, 4)
@@ -1491,6 +1494,9 @@ class RotateVaryingMarkovChain(RotateGaussianMarkovChain):
 
         # Get moments of B and S
         (B, BB) = self.B_node.get_moments()
+        # Make sure that the plates are explicit
+        B = B * np.ones(self.B_node.get_shape(0))
+        BB = BB * np.ones(self.B_node.get_shape(1))
         CovB = BB - B[...,:,:,None,None]*B[...,None,None,:,:]
         
         u_S = self.S_node.get_moments()
@@ -1584,6 +1590,9 @@ class RotateSwitchingMarkovChain(RotateGaussianMarkovChain):
 
         # Get moments of B and Z
         (B, BB) = self.B_node.get_moments()
+        # Make sure that the plates are explicit
+        B = B * np.ones(self.B_node.get_shape(0))
+        BB = BB * np.ones(self.B_node.get_shape(1))
         CovB = BB - B[...,:,None]*B[...,None,:]
         
         u_Z = self.Z_node.get_moments()
-- 
2.43.0


From 194103155e88534fa1540bd17f7813bf0dae0c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 27/64] fix: broadcast the plates of the inputs in chain
 rotations

---
 bayespy/inference/vmp/transformations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index dcbf3d4..5243464 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -17,6 +17,7 @@ from bayespy.utils import misc
 from bayespy.utils.linalg import dot, tracedot
 
 from .nodes import gaussian
+from .nodes.gaussian_markov_chain import _concatenate
 
 from .nodes.categorical import CategoricalMoments
 
@@ -1255,11 +1256,11 @@ class RotateGaussianMarkovChain():
             (U, UU) = self.X_node.parents[2].get_moments()
             UXn = linalg.outer(U, X[...,1:,:])
             UXp = linalg.outer(U, X[...,:-1,:])
-            XpXn = np.concatenate([XpXn, UXn], axis=-2)
-            XpXp = np.concatenate(
+            XpXn = _concatenate([XpXn, UXn], axis=-2)
+            XpXp = _concatenate(
                 [
-                    np.concatenate([XpXp, linalg.transpose(UXp)], axis=-1),
-                    np.concatenate([UXp, UU], axis=-1)
+                    _concatenate([XpXp, linalg.transpose(UXp)], axis=-1),
+                    _concatenate([UXp, UU], axis=-1)
                 ],
                 axis=-2
             )
-- 
2.43.0


From 8256e88040feaecee552706efff96303d2ba3c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:04 +0000
Subject: [PATCH 28/64] fix: make the rotation of Gaussian nodes usable

---
 bayespy/inference/vmp/transformations.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/bayespy/inference/vmp/transformations.py b/bayespy/inference/vmp/transformations.py
index 5243464..a1fb3e4 100644
--- a/bayespy/inference/vmp/transformations.py
+++ b/bayespy/inference/vmp/transformations.py
@@ -238,23 +238,24 @@ class RotateGaussian():
         """
         This method should be called just before optimization.
         """
-        
-        mask = self.X.mask[...,np.newaxis,np.newaxis]
+
+        # Use only the plates that contribute to the lower bound
+        mask = np.ones(self.X.plates) * self.X.mask
 
         # Number of plates
-        self.N = self.X.plates[0] #np.sum(mask)
+        self.N = np.sum(mask)
 
         # Compute the sum <XX> over plates
         self.XX = misc.sum_multiply(self.X.get_moments()[1],
-                                    mask,
+                                    mask[...,np.newaxis,np.newaxis],
                                     axis=(-1,-2),
                                     sumaxis=False,
                                     keepdims=False)
-        # Parent's moments
-        self.Lambda = self.X.parents[1].get_moments()[0]
+        # Precision matrix of the prior
+        self.Lambda = self.X.parents[0].get_moments()[2]
+
+    def _compute_bound(self, R, logdet=None, inv=None, gradient=False, terms=False):
 
-    def _compute_bound(self, R, logdet=None, inv=None, gradient=False):
-        
         """
         Rotate q(X) as X->RX: q(X)=N(R*mu, R*Cov*R')
 
@@ -289,7 +290,7 @@ class RotateGaussian():
 
         # Compute the bound
         if terms:
-            bound = {self.X: bound}
+            bound = {self.X: logp_X + logH_X}
         else:
             bound = logp_X + logH_X
 
-- 
2.43.0


From 4c25b84f7d92e903e74e762e95fa1396313c4fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 29/64] fix: compare with the bound of the current state in
 VB.optimize

---
 bayespy/inference/vmp/vmp.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 02505b5..fe06a35 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -484,6 +484,10 @@ class VB():
         p = self.get_parameters(*nodes)
         dd_prev = 0
 
+        # Lower bound of the current state. Note that the latest recorded bound
+        # may be for another state or for other data.
+        L_prev = self.compute_lowerbound()
+
         for i in range(maxiter):
 
             t = time.time()
@@ -553,9 +557,8 @@ class VB():
                 L = self.compute_lowerbound()
 
                 bound_decreased = (
-                    self.iter > 0 and
-                    L < self.L[self.iter-1] and
-                    not np.allclose(L, self.L[self.iter-1], rtol=1e-8)
+                    L < L_prev and
+                    not np.allclose(L, L_prev, rtol=1e-8)
                 )
 
                 if np.isnan(L) or bound_decreased:
@@ -569,7 +572,7 @@ class VB():
                             self.print(
                                 "Gradient ascent decreased lower bound from {0} to {1}, halfing step length"
                                 .format(
-                                    self.L[self.iter-1],
+                                    L_prev,
                                     L,
                                 )
                             )
@@ -579,7 +582,7 @@ class VB():
                                 self.print(
                                     "CG decreased lower bound from {0} to {1}, reset CG."
                                     .format(
-                                        self.L[self.iter-1],
+                                        L_prev,
                                         L,
                                     )
                                 )
@@ -591,7 +594,7 @@ class VB():
                                 self.print(
                                     "CG decreased lower bound from {0} to {1}, halfing step length"
                                     .format(
-                                        self.L[self.iter-1],
+                                        L_prev,
                                         L,
                                     )
                                 )
@@ -601,6 +604,7 @@ class VB():
 
             scale = scale * np.sqrt(2)
             p = p_new
+            L_prev = L
 
             cputime = time.time() - t
             if self._end_iteration_step('OPT', cputime, tol=tol, verbose=verbose):
-- 
2.43.0


From 55f20ea392400b27a5c01d3355f298b0da7dddde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 30/64] fix: reject non-positive shape parameters of gamma
 distributions

---
 bayespy/inference/vmp/nodes/gamma.py    | 3 +++
 bayespy/inference/vmp/nodes/gaussian.py | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 0256fd2..8454f43 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -139,6 +139,9 @@ class GammaDistribution(ExponentialFamilyDistribution):
            &=
            TODO
         """
+        if np.any(phi[1] <= 0):
+            raise ValueError("Shape parameter should be positive")
+
         with np.errstate(invalid='raise', divide='raise'):
             log_b = np.log(-phi[0])
             u0 = phi[1] / (-phi[0])
diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index c484390..4dc1bd1 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1065,6 +1065,8 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         mu = linalg.chol_solve(L_V, phi[0], ndim=self.ndim)
         Cov = linalg.chol_inv(L_V, ndim=self.ndim)
         a = phi[3]
+        if np.any(a <= 0):
+            raise ValueError("Shape parameter should be positive")
         b = -phi[2] - 0.5 * linalg.inner(mu, phi[0], ndim=self.ndim)
         log_b = np.log(b)
 
-- 
2.43.0


From 2602aa37e90b967500852ff5127d51d50e1b5d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 31/64] fix: reject negative precisions of scalar Gaussian
 variables

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 4dc1bd1..5e02e0e 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -671,6 +671,8 @@ class GaussianARDDistribution(ExponentialFamilyDistribution):
     def compute_moments_and_cgf(self, phi, mask=True):
         if self.ndim == 0:
             # Use scalar equations
+            if np.any(phi[1] > 0):
+                raise ValueError("Precision should be non-negative")
             u0 = -phi[0] / (2*phi[1])
             u1 = u0**2 - 1 / (2*phi[1])
             u = [u0, u1]
-- 
2.43.0


From e1e3fde90655080e0f7bcd4d68c0966383ed2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 32/64] fix: end pattern search in a feasible state that is not
 worse than before

---
 bayespy/inference/vmp/vmp.py | 37 +++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index fe06a35..07f70da 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -641,28 +641,35 @@ class VB():
         # Search direction
         dp = self.add(p1, p0, scale=-1)
 
+        # State from which the search begins
+        L1 = self.compute_lowerbound()
+        collapsed_params = self.get_parameters(*collapsed)
+
         # Cost function for pattern search
         def cost(alpha):
             p_new = self.add(p1, dp, scale=alpha)
             try:
                 self.set_parameters(p_new, *nodes)
-            except:
+                # Update collapsed nodes
+                for x in collapsed:
+                    self[x].update()
+                L = self.compute_lowerbound()
+            except Exception:
                 return np.inf
-            # Update collapsed nodes
-            for x in collapsed:
-                self[x].update()
-            return -self.compute_lowerbound()
-
-        # Optimize step length
-        res = scipy.optimize.minimize_scalar(cost, bracket=[0, 3], options={'maxiter':maxiter})
-
-        # Set found parameter values
-        p_new = self.add(p1, dp, scale=res.x)
-        self.set_parameters(p_new, *nodes)
+            return -L if not np.isnan(L) else np.inf
 
-        # Update collapsed nodes
-        for x in collapsed:
-            self[x].update()
+        # Optimize step length and set found parameter values
+        try:
+            res = scipy.optimize.minimize_scalar(cost, bracket=[0, 3], options={'maxiter':maxiter})
+            L = -cost(res.x)
+        except RuntimeError:
+            # No bracket for the step length
+            L = -np.inf
+
+        # Without improvement, return to the state before the search
+        if not L >= L1:
+            self.set_parameters(p1, *nodes)
+            self.set_parameters(collapsed_params, *collapsed)
 
         cputime = time.time() - t
         self._end_iteration_step('PS', cputime)
-- 
2.43.0


From f9e74feac30f4d197132b312c36ab8cf661528aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:19 +0000
Subject: [PATCH 33/64] fix: let point-estimated parameters be collapsed in
 optimization

---
 bayespy/inference/vmp/nodes/dirichlet.py | 9 +++++++++
 bayespy/inference/vmp/nodes/gamma.py     | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index fd786f1..ddceb94 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -327,6 +327,15 @@ class Concentration(Stochastic):
         return
 
 
+    def get_parameters(self):
+        return [np.log(self.u[0])]
+
+
+    def set_parameters(self, x):
+        self.u = self._moments.compute_fixed_moments(np.exp(x[0]))
+        return
+
+
     def lower_bound_contribution(self, ignore_masked=True):
         L = (
             linalg.inner(self.u[0], self.regularization[0], ndim=1)
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 8454f43..6f8f73e 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -333,6 +333,15 @@ class GammaShape(Stochastic):
         return
 
 
+    def get_parameters(self):
+        return [np.log(self.u[0])]
+
+
+    def set_parameters(self, x):
+        self.u = self._moments.compute_fixed_moments(np.exp(x[0]))
+        return
+
+
     def lower_bound_contribution(self, ignore_masked=True):
         L = self._m0 * self.u[0] + self._m1 * self.u[1]
         return (
-- 
2.43.0


From 7da2d249ba5dcf891b54d75d68af04ee4d5b2d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 34/64] fix: sampling categorical variables does not modify
 their parameters

---
 bayespy/inference/vmp/nodes/categorical.py | 2 +-
 bayespy/inference/vmp/nodes/logistic.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical.py b/bayespy/inference/vmp/nodes/categorical.py
index 0cd234d..4182b6b 100644
--- a/bayespy/inference/vmp/nodes/categorical.py
+++ b/bayespy/inference/vmp/nodes/categorical.py
@@ -119,7 +119,7 @@ class CategoricalDistribution(MultinomialDistribution):
         Draw a random sample from the distribution.
         """
         logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        logp = logp - np.amax(logp, axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
diff --git a/bayespy/inference/vmp/nodes/logistic.py b/bayespy/inference/vmp/nodes/logistic.py
index 27e1cab..1098087 100644
--- a/bayespy/inference/vmp/nodes/logistic.py
+++ b/bayespy/inference/vmp/nodes/logistic.py
@@ -100,7 +100,7 @@ class CategoricalDistribution(MultinomialDistribution):
         Draw a random sample from the distribution.
         """
         logp = phi[0]
-        logp -= np.amax(logp, axis=-1, keepdims=True)
+        logp = logp - np.amax(logp, axis=-1, keepdims=True)
         p = np.exp(logp)
         return random.categorical(p, size=plates)
 
-- 
2.43.0


From fea40983e9e7d4afaa512741f13a8cafa6128af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 35/64] fix: sample categorical Markov chains from their joint
 distribution

---
 .../vmp/nodes/categorical_markov_chain.py     | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index c0af2f9..40558a5 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -179,13 +179,25 @@ class CategoricalMarkovChainDistribution(ExponentialFamilyDistribution):
         """
         Draw a random sample from the distribution.
         """
+        # The natural parameters are unnormalized: collect the contribution of
+        # the later states backwards in time
+        logp0 = phi[0]
+        logP = np.array(np.broadcast_to(
+            phi[1],
+            np.shape(phi[1])[:-3] + (self.N-1,) + np.shape(phi[1])[-2:]
+        ))
+        for n in reversed(range(self.N-2)):
+            logP[...,n,:,:] += misc.logsumexp(logP[...,n+1,:,:],
+                                              axis=-1)[...,None,:]
+        if self.N > 1:
+            logp0 = logp0 + misc.logsumexp(logP[...,0,:,:], axis=-1)
         # Convert natural parameters to transition probabilities
-        p0 = np.exp(phi[0] - misc.logsumexp(phi[0],
-                                            axis=-1,
-                                            keepdims=True))
-        P = np.exp(phi[1] - misc.logsumexp(phi[1],
+        p0 = np.exp(logp0 - misc.logsumexp(logp0,
                                            axis=-1,
                                            keepdims=True))
+        P = np.exp(logP - misc.logsumexp(logP,
+                                         axis=-1,
+                                         keepdims=True))
         # Explicit broadcasting
         P = P * np.ones(plates)[...,None,None,None]
         # Allocate memory
-- 
2.43.0


From 3df067b356805a9e29d73f0e24167de7aa3cb589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 36/64] fix: sample Gaussian-gamma variables from their
 distribution

---
 bayespy/inference/vmp/nodes/gaussian.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 5e02e0e..899e30c 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1123,11 +1123,17 @@ class GaussianGammaDistribution(ExponentialFamilyDistribution):
         r"""
         Draw a random sample from the distribution.
         """
-        # TODO/FIXME: This is incorrect, I think. Gamma distribution parameters
-        # aren't directly those, because phi has some parts from the Gaussian
-        # distribution.
+        # Marginally alpha is gamma distributed and, given alpha, x is Gaussian
+        # with precision alpha*V
+        V = -2*phi[1]
+        mu = linalg.chol_solve(
+            linalg.chol(V, ndim=self.ndim),
+            phi[0],
+            ndim=self.ndim
+        )
+        b = -phi[2] - 0.5 * linalg.inner(mu, phi[0], ndim=self.ndim)
         alpha = GammaDistribution().random(
-            phi[2],
+            -b,
             phi[3],
             plates=plates
         )
-- 
2.43.0


From 1036eb637b65374fc0f282ffff17fb18648f702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 37/64] fix: sample dot products of Gaussian-gamma variables
 and constants

---
 bayespy/inference/vmp/nodes/dot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 0659ae4..8d20e30 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -297,7 +297,10 @@ class SumMultiply(Deterministic):
 
         (xs, alphas) = (
             (x_parents, 1) if not self.gaussian_gamma else
-            zip(*x_parents)
+            zip(*[
+                (x, 1) if is_const else x
+                for (x, is_const) in zip(x_parents, self.is_constant)
+            ])
         )
 
         # Add Ellipsis for the plates
-- 
2.43.0


From cf90fc25cd5bf197dd01823172c51c407276387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 38/64] fix: scatter matrix in random Wishart samples

---
 bayespy/utils/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/utils/random.py b/bayespy/utils/random.py
index ba6b56d..a2873f6 100644
--- a/bayespy/utils/random.py
+++ b/bayespy/utils/random.py
@@ -69,7 +69,7 @@ def wishart(nu, V):
         raise ValueError("Degrees of freedom must be equal or greater than the "
                          "dimensionality of the matrix.")
     X = np.random.multivariate_normal(np.zeros(D), V, size=nu)
-    return np.dot(X, X.T)
+    return np.dot(X.T, X)
 
 wishart_rand = wishart
 
-- 
2.43.0


From 1b27a8338a1b63b66735048684c18b7294509567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:53 +0000
Subject: [PATCH 39/64] fix: set_value of constants keeps the value consistent
 and does not keep invalid values

---
 bayespy/inference/vmp/nodes/constant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/constant.py b/bayespy/inference/vmp/nodes/constant.py
index dbac8ea..0b84234 100644
--- a/bayespy/inference/vmp/nodes/constant.py
+++ b/bayespy/inference/vmp/nodes/constant.py
@@ -66,15 +66,17 @@ class Constant(Node):
     def set_value(self, x):
         x = np.asanyarray(x)
         #shapes = [np.shape(ui) for ui in self.u]
-        self.u = self._moments.compute_fixed_moments(x)
+        u = self._moments.compute_fixed_moments(x)
         for (i, dimsi) in enumerate(self.dims):
             correct_shape = tuple(self.plates) + tuple(dimsi)
-            given_shape = np.shape(self.u[i])
+            given_shape = np.shape(u[i])
             if not misc.is_shape_subset(given_shape, correct_shape):
                 raise ValueError(
                     "Incorrect shape {0} for the array, expected {1}"
                     .format(given_shape, correct_shape)
                 )
+        self.x = x
+        self.u = u
         return
 
 
-- 
2.43.0


From 39d963861de911829d4ad777c66ed40b53845da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:26 +0000
Subject: [PATCH 40/64] fix: covariance shown for GaussianARD nodes which are
 not vectors

---
 bayespy/inference/vmp/nodes/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 899e30c..37b45db 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1690,7 +1690,7 @@ class GaussianARD(_GaussianTemplate):
 
     def __str__(self):
         mu = self.u[0]
-        Cov = self.u[1] - linalg.outer(mu, mu)
+        Cov = self.u[1] - linalg.outer(mu, mu, ndim=len(self.dims[0]))
         return ("%s ~ Gaussian(mu, Cov)\n"
                 "  mu = \n"
                 "%s\n"
-- 
2.43.0


From f8805c694076b08b1bb42931399fe96e4f72dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:04 +0000
Subject: [PATCH 41/64] fix: apply plate multipliers in the messages of
 SumMultiply and Dot

---
 bayespy/inference/vmp/nodes/dot.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/dot.py b/bayespy/inference/vmp/nodes/dot.py
index 8d20e30..0033bbd 100644
--- a/bayespy/inference/vmp/nodes/dot.py
+++ b/bayespy/inference/vmp/nodes/dot.py
@@ -454,6 +454,13 @@ class SumMultiply(Deterministic):
 
         parent = self.parents[index]
 
+        # Replication of the plates that are multiplied in this node but not in
+        # the parent
+        multiplier = self.broadcasting_multiplier(
+            self.plates_multiplier,
+            self._plates_multiplier_from_parent(index)
+        )
+
         #
         # Compute the first message
         #
@@ -613,6 +620,7 @@ class SumMultiply(Deterministic):
             r = self.broadcasting_multiplier(self.plates,
                                              result_plates,
                                              parent.plates)
+            r *= multiplier
             if r != 1:
                 msg[ind] *= r
 
@@ -631,7 +639,7 @@ class SumMultiply(Deterministic):
                                        plates_from=self.plates,
                                        plates_to=parent.plates)
 
-            msg = msg + [m2, m3]
+            msg = msg + [multiplier * m2, multiplier * m3]
 
         return msg
 
-- 
2.43.0


From d49a2f0feed2600f7d0619ad2b80ea4b1745eea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 42/64] fix: map plate multipliers through nodes that change
 the plates

---
 .../vmp/nodes/categorical_markov_chain.py     |  7 ++++
 bayespy/inference/vmp/nodes/gamma.py          |  4 +++
 bayespy/inference/vmp/nodes/gate.py           | 13 +++++++
 .../vmp/nodes/gaussian_markov_chain.py        |  6 ++++
 bayespy/inference/vmp/nodes/node.py           | 34 +++++++++++++++++++
 bayespy/inference/vmp/nodes/stochastic.py     | 11 ++++++
 6 files changed, 75 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/categorical_markov_chain.py b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
index 40558a5..91d2ec0 100644
--- a/bayespy/inference/vmp/nodes/categorical_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/categorical_markov_chain.py
@@ -445,6 +445,13 @@ class CategoricalMarkovChainToCategorical(Deterministic):
             raise ValueError("Parent index out of bounds")
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        if len(plates_multiplier) == 0:
+            return plates_multiplier
+        # The time axis is added as the last plate axis
+        return tuple(plates_multiplier) + (1,)
+
+
 # Make use of the conversion node
 CategoricalMarkovChainMoments.add_converter(CategoricalMoments,
                                             CategoricalMarkovChainToCategorical)
diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 6f8f73e..64a16f9 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -392,6 +392,10 @@ class _GammaToDiagonalWishart(Deterministic):
     def _plates_from_parent(self, index):
         return self.parents[index].plates[:-1]
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        # The last plate axis is used as the diagonal
+        return plates_multiplier[:-1]
+
     @staticmethod
     def _compute_weights_to_parent(index, weights):
         return weights[..., np.newaxis]
diff --git a/bayespy/inference/vmp/nodes/gate.py b/bayespy/inference/vmp/nodes/gate.py
index 81ca607..91db692 100644
--- a/bayespy/inference/vmp/nodes/gate.py
+++ b/bayespy/inference/vmp/nodes/gate.py
@@ -216,6 +216,19 @@ class Gate(Deterministic):
             raise ValueError("Invalid parent index")
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        """
+        Remove the gated plate also from the multiplier.
+        """
+        if len(plates_multiplier) == 0:
+            return plates_multiplier
+        return self._compute_plates_from_parent(
+            index,
+            next(misc.make_equal_length(plates_multiplier,
+                                        self.parents[index].plates))
+        )
+
+
 def Choose(z, *nodes):
     """Choose plate elements from nodes based on a categorical variable.
 
diff --git a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
index f9a2406..6c59d34 100644
--- a/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
+++ b/bayespy/inference/vmp/nodes/gaussian_markov_chain.py
@@ -2073,6 +2073,12 @@ class _MarkovChainToGaussian(Deterministic):
         plates = parent.plates + (parent.dims[0][0],)
         return plates
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        if len(plates_multiplier) == 0:
+            return plates_multiplier
+        # The time axis is added as the last plate axis
+        return tuple(plates_multiplier) + (1,)
+
     def _compute_moments(self, u):
         """
         Transform the moments of a GMC to moments of a Gaussian.
diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index bee8a3e..48d21c6 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -1028,6 +1028,29 @@ class Slice(Deterministic):
 
         return tuple(plates)
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+
+        if len(plates_multiplier) == 0:
+            return plates_multiplier
+
+        multiplier = []
+        remaining = list(
+            next(misc.make_equal_length(plates_multiplier,
+                                        self.parents[index].plates))
+        )
+        for s in self.slices:
+            if s is None:
+                multiplier.append(1)
+            else:
+                m = remaining.pop(0)
+                if isinstance(s, slice):
+                    multiplier.append(m)
+                elif m != 1:
+                    raise ValueError("Integer indexing of a plate axis that "
+                                     "has a plate multiplier {0}".format(m))
+
+        return tuple(multiplier)
+
     @staticmethod
     def __reverse_indexing(slices, m_child, plates, dims):
         """
@@ -1225,6 +1248,17 @@ def AddPlateAxis(to_plate):
             plates.insert(len(plates)+to_plate+1, 1)
             return tuple(plates)
 
+        def _compute_plates_multiplier_from_parent(self, index,
+                                                   plates_multiplier):
+            if len(plates_multiplier) == 0:
+                return plates_multiplier
+            multiplier = list(
+                next(misc.make_equal_length(plates_multiplier,
+                                            self.parents[index].plates))
+            )
+            multiplier.insert(len(multiplier)+to_plate+1, 1)
+            return tuple(multiplier)
+
 
         def _compute_weights_to_parent(self, index, weights):
             # Remove the added mask plate
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index bc2e090..19a9d4c 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -165,6 +165,17 @@ class Stochastic(Node):
         return self._distribution.plates_from_parent(index, plates)
 
 
+    def _compute_plates_multiplier_from_parent(self, index, plates_multiplier):
+        if len(plates_multiplier) == 0:
+            return plates_multiplier
+        # Map the multipliers similarly as the plates they belong to
+        return self._distribution.plates_from_parent(
+            index,
+            next(misc.make_equal_length(plates_multiplier,
+                                        self.parents[index].plates))
+        )
+
+
     def _compute_weights_to_parent(self, index, weights):
         return self._distribution.compute_weights_to_parent(index, weights)
 
-- 
2.43.0


From ea49d42ad670616c979731c3c6f7aceac289807d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:20 +0000
Subject: [PATCH 43/64] fix: messages through a Gaussian used with fewer
 variable axes

---
 bayespy/inference/vmp/nodes/gaussian.py | 8 ++++----
 bayespy/utils/misc.py                   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 37b45db..7985305 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -120,11 +120,11 @@ class GaussianToGaussian():
 
     def compute_message_to_parent(self, m, u_parent):
         # Handle broadcasting in m_child
+        shape_to = self.shape_from[(self.ndim_from-self.ndim_to):]
         m0 = m[0] * np.ones(self.shape_from)
-        m1 = (
-            misc.make_diag(m[1], ndim=self.ndim_from, ndim_from=self.ndim_to)
-            * misc.identity(*self.shape_from)
-        )
+        m1 = misc.make_diag(m[1] * np.ones(self.shape_from + shape_to),
+                            ndim=self.ndim_from,
+                            ndim_from=self.ndim_to)
         return [m0, m1]
 
 
diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 5cc27a6..6da0b6d 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -1199,7 +1199,11 @@ def make_diag(X, ndim=1, ndim_from=0):
 
     if ndim > 0:
         if ndim_from > 0:
-            I = identity(*(np.shape(X)[-(ndim_from+ndim):-ndim_from]))
+            # The last ndim_from axes are already in the matrix form, so only
+            # the other axes are diagonal
+            shape = np.shape(X)[-(ndim_from+ndim):-2*ndim_from]
+            ones = ndim_from * (1,)
+            I = np.reshape(identity(*shape), shape + ones + shape + ones)
         else:
             I = identity(*(np.shape(X)[-ndim:]))
         X = add_axes(X, axis=np.ndim(X)-ndim_from, num=ndim-ndim_from)
-- 
2.43.0


From 85dbbdc08ecbbb676b93be673c3f564b673b02f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 44/64] fix: broadcasting and output array in the linear
 solvers

---
 bayespy/utils/linalg.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bayespy/utils/linalg.py b/bayespy/utils/linalg.py
index 688cdae..8f35b2d 100644
--- a/bayespy/utils/linalg.py
+++ b/bayespy/utils/linalg.py
@@ -105,9 +105,9 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
         l_min = min(l_u, l_b)
         jnd_b = tuple(i for i in range(-l_min,0) if sh_b[i]==sh_u[i])
 
-        if out == None:
-            # Shape of the result (broadcasting rules)
-            sh = misc.broadcasted_shape(sh_u, sh_b)
+        # Shape of the result (broadcasting rules)
+        sh = misc.broadcasted_shape(sh_u, sh_b)
+        if out is None:
             #out = np.zeros(np.shape(B))
             out = np.zeros(sh + B.shape[-1:])
 
@@ -129,7 +129,7 @@ def chol_solve(U, b, out=None, matrix=False, ndim=1):
             # Reshape it to a 2-D (or 1-D) array
             orig_shape = b.shape
             if b.ndim > 1:
-                b = b.reshape((-1, b.shape[-1]))
+                b = b.reshape((np.prod(b.shape[:-1], dtype=int), b.shape[-1]))
 
             # slice(None) to all preceeding axes and ellipsis for the last
             # axis:
@@ -250,8 +250,11 @@ def solve_triangular(U, B, ndim=1, **kwargs):
     # Allocate memory
     U = np.atleast_2d(U)
     B = np.atleast_1d(B)
+
+    # Broadcast B explicitly over the axes of U
     sh_u = U.shape[:-2]
-    sh_b = B.shape[:-1]
+    sh_b = misc.broadcasted_shape(sh_u, B.shape[:-1])
+    B = np.broadcast_to(B, sh_b + B.shape[-1:])
     l_u = len(sh_u)
     l_b = len(sh_b)
 
-- 
2.43.0


From 89789f2ea5b25a7dbfbff37f8a573c3d2ddd2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 45/64] fix: scalar axis and scalar shapes in summing helpers

---
 bayespy/utils/misc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bayespy/utils/misc.py b/bayespy/utils/misc.py
index 6da0b6d..3f044a9 100644
--- a/bayespy/utils/misc.py
+++ b/bayespy/utils/misc.py
@@ -476,7 +476,7 @@ def trues(shape):
     return np.ones(shape, dtype=np.bool)
 
 def identity(*shape):
-    return np.reshape(np.identity(np.prod(shape)), shape+shape)
+    return np.reshape(np.identity(np.prod(shape, dtype=int)), shape+shape)
 
 def array_to_scalar(x):
     # This transforms an N-dimensional array to a scalar. It's most
@@ -756,7 +756,7 @@ def sum_to_dim(A, dim):
     """
     dimdiff = np.ndim(A) - dim
     if dimdiff > 0:
-        axes = np.arange(dimdiff)
+        axes = tuple(range(dimdiff))
         A = np.sum(A, axis=axes)
     return A
 
@@ -881,7 +881,7 @@ def sum_multiply(*args, axis=None, sumaxis=True, keepdims=False):
         else:
             # Find axes that are kept
             if np.isscalar(axis):
-                axes = [axis]
+                axis = [axis]
             axes = [i if i >= 0
                     else i+max_dim
                     for i in axis]
-- 
2.43.0


From ce8cd9e8d24d4a5ee5f87f12ed4e85ca32df30a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 46/64] fix: find converters of all parent types of moments

---
 bayespy/inference/vmp/nodes/node.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 48d21c6..0466554 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -158,7 +158,7 @@ class Moments():
                 for parent in parents:
                     # Recursively add parents
                     for p in parent.__bases__:
-                        if isinstance(p, Moments):
+                        if issubclass(p, Moments):
                             parents.append(p)
                     # Add un-visited parents
                     if issubclass(parent, Moments) and parent not in visited:
-- 
2.43.0


From 633b10f0034f2b981a3115a682b1f81275d9b4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 47/64] fix: keep the gamma shape when it has no data

---
 bayespy/inference/vmp/nodes/gamma.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gamma.py b/bayespy/inference/vmp/nodes/gamma.py
index 64a16f9..abca5a0 100644
--- a/bayespy/inference/vmp/nodes/gamma.py
+++ b/bayespy/inference/vmp/nodes/gamma.py
@@ -320,7 +320,15 @@ class GammaShape(Stochastic):
         # Maximum likelihood estimate
         m0 = self._m0 + m[0]
         m1 = self._m1 + m[1]
-        x = misc.invpsi(-m0 / m1)
+
+        # Without any children (e.g., all of them are masked), there is nothing
+        # to estimate, so the current value is kept
+        has_samples = np.asanyarray(m1) != 0
+        x = np.where(
+            has_samples,
+            misc.invpsi(-m0 / np.where(has_samples, m1, -1)),
+            self.u[0]
+        )
 
         # Compute moments
         self.u = self._moments.compute_fixed_moments(x)
-- 
2.43.0


From 30feee012b97bc142ea5f84a4448eb2db748c931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 48/64] fix: converge the concentration estimate and keep it
 without data

---
 bayespy/inference/vmp/nodes/dirichlet.py | 51 ++++++++++++++++++------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/dirichlet.py b/bayespy/inference/vmp/nodes/dirichlet.py
index ddceb94..de42a0a 100644
--- a/bayespy/inference/vmp/nodes/dirichlet.py
+++ b/bayespy/inference/vmp/nodes/dirichlet.py
@@ -290,13 +290,17 @@ class Concentration(Stochastic):
         Find maximum likelihood estimate for the concentration parameter
         """
 
-        a = np.ones(self.D)
-        da = np.inf
         logp = m[0] + self.regularization[0]
-        N = m[1] + self.regularization[1]
-
-        # Compute sufficient statistic
-        mean_logp = logp / N[...,None]
+        N = np.asanyarray(m[1] + self.regularization[1])[...,None]
+
+        # Compute sufficient statistic. Without any samples, there is nothing
+        # to estimate, so the current value is kept.
+        a_old = self.u[0]
+        mean_logp = np.where(
+            N != 0,
+            logp / np.where(N != 0, N, 1),
+            special.psi(a_old) - special.psi(np.sum(a_old, axis=-1, keepdims=True))
+        )
 
         # It is difficult to estimate values lower than 0.02 because the
         # Dirichlet distributed probability vector starts to give numerically
@@ -308,14 +312,35 @@ class Concentration(Stochastic):
                 "child Dirichlet node."
             )
 
-        # Fixed-point iteration
-        while np.any(np.abs(da / a) > 1e-5):
-            a_new = misc.invpsi(
-                special.psi(np.sum(a, axis=-1, keepdims=True))
-                + mean_logp
+        def objective(a):
+            return (
+                special.gammaln(np.sum(a, axis=-1, keepdims=True))
+                + np.sum(a * mean_logp - special.gammaln(a), axis=-1, keepdims=True)
             )
-            da = a_new - a
-            a = a_new
+
+        a = np.ones(np.shape(mean_logp))
+        for _ in range(1000):
+            # Fixed-point iteration. It always improves the estimate but
+            # converges very slowly if the concentrations are large.
+            sum_a = np.sum(a, axis=-1, keepdims=True)
+            a_new = misc.invpsi(special.psi(sum_a) + mean_logp)
+
+            # Thus, use Newton's method whenever it is better
+            g = special.psi(sum_a) - special.psi(a) + mean_logp
+            q = special.polygamma(1, a)
+            c = 1 / special.polygamma(1, sum_a) - np.sum(1 / q, axis=-1, keepdims=True)
+            c = np.where(c > 0, c, np.inf)
+            da = (g + np.sum(g / q, axis=-1, keepdims=True) / c) / q
+            a_newton = np.where(np.all(a + da > 0, axis=-1, keepdims=True), a + da, a)
+            better = objective(a_newton) >= objective(a_new) - 1e-14 * np.abs(objective(a_new))
+            a = np.where(better, a_newton, a_new)
+
+            # Stop when the expected improvement is small. If the samples do
+            # not vary, the estimate would grow without limit.
+            if np.all((np.abs(g * da) < 1e-7) | (sum_a > 1e7)):
+                break
+
+        a = np.where(N != 0, a, a_old)
 
         self.u = self._moments.compute_fixed_moments(a)
 
-- 
2.43.0


From aa814cda5e8dc001a0cd2f865689a1201ed3db6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 49/64] fix: do not leave a rejected node as a child of its
 parents

---
 bayespy/inference/vmp/nodes/node.py       | 14 +++++++++-----
 bayespy/inference/vmp/nodes/stochastic.py |  8 +++++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/node.py b/bayespy/inference/vmp/nodes/node.py
index 0466554..e0fade0 100644
--- a/bayespy/inference/vmp/nodes/node.py
+++ b/bayespy/inference/vmp/nodes/node.py
@@ -269,11 +269,6 @@ class Node():
             if len(parent_id_list) != len(set(parent_id_list)):
                 raise ValueError("Parent nodes are not independent")
 
-        # Inform parent nodes
-        if notify_parents:
-            for (index,parent) in enumerate(self.parents):
-                parent._add_child(self, index)
-
         # Check plates
         parent_plates = [self._plates_from_parent(index)
                          for index in range(len(self.parents))]
@@ -300,6 +295,15 @@ class Node():
                                               *parent_plates_multiplier)
         self.plates_multiplier = plates_multiplier
 
+        # Inform parent nodes, now that the node is known to be valid
+        if notify_parents:
+            self._notify_parents()
+
+
+    def _notify_parents(self):
+        for (index, parent) in enumerate(self.parents):
+            parent._add_child(self, index)
+
 
     def get_pdf_nodes(self):
         return tuple(
diff --git a/bayespy/inference/vmp/nodes/stochastic.py b/bayespy/inference/vmp/nodes/stochastic.py
index 19a9d4c..4a49b1a 100644
--- a/bayespy/inference/vmp/nodes/stochastic.py
+++ b/bayespy/inference/vmp/nodes/stochastic.py
@@ -109,13 +109,16 @@ class Stochastic(Node):
     # Sub-classes must over-write this
     _distribution = None
 
-    def __init__(self, *args, initialize=True, dims=None, **kwargs):
+    def __init__(self, *args, initialize=True, dims=None, notify_parents=True,
+                 **kwargs):
 
         self._id = Node._id_counter
         Node._id_counter += 1
 
+        # The parents are informed only after everything else has succeeded
         super().__init__(*args,
                          dims=dims,
+                         notify_parents=False,
                          **kwargs)
 
         # Initialize moment array
@@ -130,6 +133,9 @@ class Stochastic(Node):
         if initialize:
             self.initialize_from_prior()
 
+        if notify_parents:
+            self._notify_parents()
+
 
     def get_pdf_nodes(self):
         return (self,) + super().get_pdf_nodes()
-- 
2.43.0


From 7ef0a27d7e5057d90c84848026cae178b8df65c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 50/64] fix: check the mask before changing anything when
 observing

---
 bayespy/inference/vmp/nodes/expfamily.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/expfamily.py b/bayespy/inference/vmp/nodes/expfamily.py
index f30a90c..4eba1ba 100644
--- a/bayespy/inference/vmp/nodes/expfamily.py
+++ b/bayespy/inference/vmp/nodes/expfamily.py
@@ -371,6 +371,16 @@ class ExponentialFamily(Stochastic):
         Fix moments, compute f and propagate mask.
         """
 
+        # Check the mask
+        mask = np.asanyarray(mask)
+        if mask.dtype.kind not in 'biu':
+            raise ValueError("The mask must be boolean")
+        mask = mask.astype(bool)
+        if not misc.is_shape_subset(np.shape(mask), self.plates):
+            raise ValueError("The shape {0} of the mask does not broadcast to "
+                             "the plates {1} of the node"
+                             .format(np.shape(mask), self.plates))
+
         # Compute fixed moments
         (u, f) = self._distribution.compute_fixed_moments_and_f(x, *args,
                                                                 mask=mask)
-- 
2.43.0


From 9f46839cef86258c0ef7b17c70320fc72862f2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 51/64] fix: negative counts were accepted as fixed values

---
 bayespy/inference/vmp/nodes/poisson.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bayespy/inference/vmp/nodes/poisson.py b/bayespy/inference/vmp/nodes/poisson.py
index 44893ac..4bd45b0 100644
--- a/bayespy/inference/vmp/nodes/poisson.py
+++ b/bayespy/inference/vmp/nodes/poisson.py
@@ -38,6 +38,8 @@ class PoissonMoments(Moments):
         x = np.asanyarray(x)
         if not misc.isinteger(x):
             raise ValueError("Count not integer")
+        if np.any(x < 0):
+            raise ValueError("Counts must be non-negative")
         # Now, the moments are just the counts
         return [x]
 
-- 
2.43.0


From 6b24dfc295a70baa9074213238473b7095dd74b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 52/64] fix: find all nodes before updating or optimising any
 of them

---
 bayespy/inference/vmp/vmp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 07f70da..40ea632 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -139,6 +139,7 @@ class VB():
         # By default, update all nodes
         if len(nodes) == 0:
             nodes = self.model
+        nodes = [self[node] for node in nodes]
         if plot is True:
             plot_nodes = self.model
         elif plot is False:
@@ -156,8 +157,7 @@ class VB():
             t = time.time()
 
             # Update nodes
-            for node in nodes:
-                X = self[node]
+            for X in nodes:
                 if hasattr(X, 'update') and callable(X.update):
                     X.update()
                 if X in plot_nodes:
@@ -479,6 +479,8 @@ class VB():
 
         if collapsed is None:
             collapsed = []
+        nodes = [self[node] for node in nodes]
+        collapsed = [self[node] for node in collapsed]
 
         scale = 1.0
         p = self.get_parameters(*nodes)
-- 
2.43.0


From e8f3dd0d6363def7e3bf239c20ec1687bcfbd23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:20 +0000
Subject: [PATCH 53/64] fix: tile keeps the moments type of its parent so that
 tiled nodes can be used as parents

---
 bayespy/inference/vmp/nodes/deterministic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/deterministic.py b/bayespy/inference/vmp/nodes/deterministic.py
index 7650951..b9a7642 100644
--- a/bayespy/inference/vmp/nodes/deterministic.py
+++ b/bayespy/inference/vmp/nodes/deterministic.py
@@ -181,10 +181,9 @@ def tile(X, tiles):
     
     class _Tile(Deterministic):
 
-        _parent_moments = (Moments(),)
-        
         def __init__(self, X, **kwargs):
             self._moments = X._moments
+            self._parent_moments = (X._moments,)
             super().__init__(X, dims=X.dims, **kwargs)
     
         def _compute_plates_to_parent(self, index, plates):
-- 
2.43.0


From 746d6f12ffb4c5b6b9bf6efb68387e9cc54ce60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 54/64] fix: GaussianGamma marginals: dimensionality lookup and
 sign of the covariance determinant

---
 bayespy/inference/vmp/nodes/gaussian.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index 7985305..d57235f 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1960,7 +1960,7 @@ class GaussianGamma(ExponentialFamily):
         """
         import bayespy.plot as bpplt
         
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if np.prod(self.plates) != 1:
@@ -2032,7 +2032,7 @@ class GaussianGamma(ExponentialFamily):
         r"""
         Return the mean and variance of the distribution
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         a = self.phi[3]
@@ -2070,7 +2070,7 @@ class GaussianGamma(ExponentialFamily):
         function
             A function which computes log-pdf
         """
-        if self.ndim != 1:
+        if self._moments.ndim != 1:
             raise NotImplementedError("Only ndim=1 supported at the moment")
 
         if gaussian is None and not gamma:
@@ -2140,7 +2140,7 @@ class GaussianGamma(ExponentialFamily):
                 return (random.gaussian_logpdf(z2, 
                                                0,
                                                0,
-                                               logdet_Cov + D*logtau, 
+                                               D*logtau - logdet_Cov,
                                                D) +
                         random.gamma_logpdf(b*tau,
                                             logtau,
-- 
2.43.0


From 3fb50148138b1179498c0fe882cfb8d7cbb749a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 55/64] fix: pdf and contour plots ignored the given axes

---
 bayespy/plot.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index b2414c5..2575838 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -183,12 +183,11 @@ def pdf(Z, x, *args, name=None, axes=None, fig=None, **kwargs):
 
     # TODO: Make it possible to plot a plated variable using _subplots function.
 
-    if axes is None and fig is None:
-        axes = plt.gca()
-    else:
+    if axes is None:
         if fig is None:
-            fig = plt.gcf()
-        axes = fig.add_subplot(111)
+            axes = plt.gca()
+        else:
+            axes = fig.add_subplot(111)
 
     try:
         lpdf = Z.logpdf(x)
@@ -229,12 +228,11 @@ def contour(Z, x, y, n=None, axes=None, fig=None, **kwargs):
 
     # TODO: Make it possible to plot a plated variable using _subplots function.
 
-    if axes is None and fig is None:
-        axes = plt.gca()
-    else:
+    if axes is None:
         if fig is None:
-            fig = plt.gcf()
-        axes = fig.add_subplot(111)
+            axes = plt.gca()
+        else:
+            axes = fig.add_subplot(111)
 
     XY = misc.grid(x, y)
     try:
-- 
2.43.0


From eac42aa82096951e5217c83ab7670f474eb1202c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 56/64] fix: contour plots were scrambled when the grids have
 different sizes

---
 bayespy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 2575838..7312d39 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -240,7 +240,7 @@ def contour(Z, x, y, n=None, axes=None, fig=None, **kwargs):
     except AttributeError:
         lpdf = Z(XY)
     p = np.exp(lpdf)
-    shape = (np.size(x), np.size(y))
+    shape = (np.size(y), np.size(x))
     X = np.reshape(XY[:,0], shape)
     Y = np.reshape(XY[:,1], shape)
     P = np.reshape(p, shape)
-- 
2.43.0


From a60679934c1e15957d8ff21909593fa74a5343f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 57/64] fix: plots of variables as functions lacked broadcasted
 plates and failed for scalars

---
 bayespy/plot.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 7312d39..c9376f3 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -270,7 +270,7 @@ def plot_bernoulli(X, axis=-1, scale=2, **kwargs):
     """
     X = X._ensure_moments(X, BernoulliMoments)
     u_X = X.get_moments()
-    z = u_X[0]
+    z = np.broadcast_to(u_X[0], X.get_shape(0))
     return _timeseries_mean_and_error(z, None, axis=axis, **kwargs)
 
 
@@ -292,6 +292,10 @@ def plot_gaussian(X, axis=-1, scale=2, **kwargs):
     std = scale * np.sqrt(xx - x**2)
     #std = scale * np.sqrt(np.einsum('...ii->...i', xx) - x**2)
 
+    # Force explicit elements when broadcasting
+    x = np.broadcast_to(x, X.get_shape(0))
+    std = np.broadcast_to(std, X.get_shape(0))
+
     return _timeseries_mean_and_error(x, std, axis=axis, **kwargs)
 
 
@@ -341,13 +345,12 @@ def timeseries(*args, center=True, **kwargs):
 
 
 def _timeseries_mean_and_error(y, std, *args, axis=-1, center=True, fig=None, axes=None, **kwargs):
-    # TODO/FIXME: You must multiply by ones(plates) in order to plot
-    # broadcasted plates properly
-
     if fig is None:
         fig = plt.gcf()
 
     y = np.atleast_1d(y)
+    if std is not None:
+        std = np.atleast_1d(std)
     shape = list(np.shape(y))
 
     # Get and remove the length of the time axis
-- 
2.43.0


From 73c4b498a8ced90c4c10ef9735be926ae1e6ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:14 +0000
Subject: [PATCH 58/64] fix: covariance ellipses could not be created

---
 bayespy/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index c9376f3..9003994 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -1390,7 +1390,7 @@ def ellipse_from_cov(xy, cov, scale=2, **kwargs):
     evals, evecs = np.linalg.eigh(cov)
     angle = np.arctan2(*evecs[::-1, 0])
     width, height = scale * np.sqrt(evals)
-    return patches.Ellipse(xy, width, height, np.rad2deg(angle), **kwargs)
+    return patches.Ellipse(xy, width, height, angle=np.rad2deg(angle), **kwargs)
 
 
 def ellipse_from_precision(xy, precision, scale=2, **kwargs):
-- 
2.43.0


From 81c45a0db975bac580712a3a23c1a540c83febe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 59/64] fix: plots of two-dimensional Gaussian mixtures failed
 and drew wrongly oriented ellipses

---
 bayespy/plot.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 9003994..44a4c6e 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -462,12 +462,14 @@ def gaussian_mixture_2d(X, alpha=None, scale=2, fill=False, axes=None, **kwargs)
     mu_Lambda = X._ensure_moments(X.parents[1], GaussianWishartMoments)
 
     (mu, _, Lambda, _) = mu_Lambda.get_moments()
-    mu = np.linalg.solve(Lambda, mu)
+    mu = np.linalg.solve(Lambda, mu[...,None])[...,0]
 
     if len(mu_Lambda.plates) != 1:
         raise NotImplementedError("Not yet implemented for more plates")
 
     K = mu_Lambda.plates[0]
+    mu = np.broadcast_to(mu, (K, 2))
+    Lambda = np.broadcast_to(Lambda, (K, 2, 2))
 
     width = np.zeros(K)
     height = np.zeros(K)
@@ -481,7 +483,7 @@ def gaussian_mixture_2d(X, alpha=None, scale=2, fill=False, axes=None, **kwargs)
         u[1] = np.sqrt(1/u[1])
         width[k] = 2*u[0]
         height[k] = 2*u[1]
-        angle[k] = np.arctan(W[0,1] / W[0,0])
+        angle[k] = np.arctan2(W[1,0], W[0,0])
 
     angle = 180 * angle / np.pi
     mode_height = 1 / (width * height)
@@ -506,13 +508,13 @@ def gaussian_mixture_2d(X, alpha=None, scale=2, fill=False, axes=None, **kwargs)
                                   **kwargs)
         axes.add_artist(ell)
 
-    plt.axis('equal')
+    axes.axis('equal')
 
     # If observed, plot the data too
     if np.any(X.observed):
-        mask = np.array(X.observed) * np.ones(X.plates, dtype=np.bool)
+        mask = np.array(X.observed) * np.ones(X.plates, dtype=bool)
         y = X.u[0][mask]
-        plt.plot(y[:,0], y[:,1], 'r.')
+        axes.plot(y[:,0], y[:,1], 'r.')
 
     return
 
-- 
2.43.0


From ea3a60b76ef6225add948e44193ff3e7b7fcc126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:34 +0000
Subject: [PATCH 60/64] fix: Hinton diagrams of zero matrices were full and the
 row axis was ignored for vectors

---
 bayespy/plot.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bayespy/plot.py b/bayespy/plot.py
index 44a4c6e..d34d0c3 100644
--- a/bayespy/plot.py
+++ b/bayespy/plot.py
@@ -541,6 +541,9 @@ def _hinton(W, error=None, vmax=None, square=False, axes=None):
             vmax = np.max(np.abs(W) + error)
         else:
             vmax = np.max(np.abs(W))
+        if not vmax:
+            # All elements are zero
+            vmax = 1
 
     axes.fill(0.5+np.array([0,width,width,0]),
               0.5+np.array([0,0,height,height]),
@@ -729,6 +732,11 @@ def _hinton_figure(x, rows=None, cols=None, fig=None, square=True):
                 rows -= 1
     x = np.reshape(x, squeezed_shape)
 
+    if np.ndim(x) < 2:
+        cols += 2 - np.ndim(x)
+        rows += 2 - np.ndim(x)
+        x = np.atleast_2d(x)
+
     size = np.ndim(x)
     if np.isnan(cols):
         if rows != size - 1:
@@ -742,10 +750,9 @@ def _hinton_figure(x, rows=None, cols=None, fig=None, square=True):
             rows = size - 2
 
     # Put the row and column axes to the end
-    if np.ndim(x) >= 2:
-        axes = [i for i in range(size) if i not in (rows, cols)] + [rows, cols]
-        x = np.transpose(x, axes=axes)
-        #std = np.transpose(std, axes=axes)
+    axes = [i for i in range(size) if i not in (rows, cols)] + [rows, cols]
+    x = np.transpose(x, axes=axes)
+    #std = np.transpose(std, axes=axes)
 
     vmax = np.max(np.abs(x) + scale*std)
 
-- 
2.43.0


From b1e46e6f13b319e73c43e61b1d54f22c32dc038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 61/64] fix: marginal plots of Gaussian-gamma variables scaled
 the covariance twice

---
 bayespy/inference/vmp/nodes/gaussian.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/gaussian.py b/bayespy/inference/vmp/nodes/gaussian.py
index d57235f..1757c92 100644
--- a/bayespy/inference/vmp/nodes/gaussian.py
+++ b/bayespy/inference/vmp/nodes/gaussian.py
@@ -1977,7 +1977,6 @@ class GaussianGamma(ExponentialFamily):
         mu = self.u[0]
         mu = mu / misc.add_trailing_axes(tau, 1)
         Cov = self.u[1] - linalg.outer(self.u[0], mu, ndim=1)
-        Cov = Cov / misc.add_trailing_axes(tau, 2)
         a = self.phi[3]
         b = -self.phi[2] - 0.5*linalg.inner(self.phi[0], mu, ndim=1)
 
-- 
2.43.0


From dad1735d69638eb6d11fa32e4428ba072d285fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 62/64] fix: plotting the bound by nodes failed when the
 iteration buffer was full

---
 bayespy/inference/vmp/vmp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/vmp.py b/bayespy/inference/vmp/vmp.py
index 40ea632..3c43e08 100644
--- a/bayespy/inference/vmp/vmp.py
+++ b/bayespy/inference/vmp/vmp.py
@@ -210,7 +210,7 @@ class VB():
             axes = plt.gca()
 
         D = len(self.l)
-        N = self.iter + 1
+        N = self.iter
         if diff:
             L = np.empty((N-1,D))
             x = np.arange(N-1) + 2
-- 
2.43.0


From 6d61eeacc04fa0ecff034995228815106e49d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:39 +0000
Subject: [PATCH 63/64] fix: multinomial gradient with several numbers of
 trials (and with zero trials)

---
 bayespy/inference/vmp/nodes/multinomial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bayespy/inference/vmp/nodes/multinomial.py b/bayespy/inference/vmp/nodes/multinomial.py
index 1489acb..9e016d1 100644
--- a/bayespy/inference/vmp/nodes/multinomial.py
+++ b/bayespy/inference/vmp/nodes/multinomial.py
@@ -210,7 +210,9 @@ class MultinomialDistribution(ExponentialFamilyDistribution):
             :math:`\phi`.
 
         """
-        return u[0] * (g - linalg.inner(g, u[0])[...,None] / self.N)
+        # Without any trials the moments, and thus the gradient, are zero
+        N = np.expand_dims(np.maximum(self.N, 1), -1)
+        return u[0] * (g - linalg.inner(g, u[0])[...,None] / N)
 
     def squeeze(self, axis):
         if axis < -np.ndim(self.N):
-- 
2.43.0


From 6a4985c9407ab22b35b2a9aa8b927bbbef24a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 64/64] fix: covfunc_zeros used an undefined variable

---
 bayespy/utils/covfunc/covariance.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bayespy/utils/covfunc/covariance.py b/bayespy/utils/covfunc/covariance.py
index 82bde27..6fe23b6 100644
--- a/bayespy/utils/covfunc/covariance.py
+++ b/bayespy/utils/covfunc/covariance.py
@@ -188,8 +188,6 @@ def gp_preprocess_inputs(x1,x2=None):
 
 def covfunc_zeros(x1, x2=None, gradient=False):
 
-    inputs = gp_preprocess_inputs(*inputs)
-
     # Compute distance and covariance matrix
     if x2 is None:
         x1 = gp_preprocess_inputs(x1)
-- 
2.43.0

