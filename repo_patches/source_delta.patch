From 26ad4ab96f8fb17731e4afa1db99fdf42f6f242b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 01/51] fix: honour T_max in MCMC samplers

The time horizon test was inverted: chains stopped after one iteration while
T_max had not elapsed, and never stopped once it had.  The exchange and
zonotope samplers then returned all-zero rows for the iterations not performed.
Stop once T_max has elapsed on a monotonic clock and return only the states
actually visited.
---
 dppy/mcmc_sampling.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 5dba753..a71eea2 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -180,7 +180,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
     chain = [S0]  # Initialize the collection (list) of sample
 
     # Evaluate running time...
-    t_start = time.time() if T_max else 0
+    t_start = time.monotonic() if T_max else 0
 
     for _ in range(1, nb_iter):
 
@@ -234,7 +234,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.monotonic() - t_start >= T_max:
                 break
 
     return chain
@@ -289,7 +289,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
     chain = [S0]  # Initialize the collection (list) of sample
 
     # Evaluate running time...
-    t_start = time.time() if T_max else 0
+    t_start = time.monotonic() if T_max else 0
 
     for _ in range(1, nb_iter):
 
@@ -317,7 +317,7 @@ def add_delete_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain.append(S0)
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.monotonic() - t_start >= T_max:
                 break
 
     return chain
@@ -377,7 +377,7 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
     chain[0] = S0
 
     # Evaluate running time...
-    t_start = time.time() if T_max else 0
+    t_start = time.monotonic() if T_max else 0
 
     for it in range(1, nb_iter):
 
@@ -406,7 +406,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
             chain[it] = S0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.monotonic() - t_start >= T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
@@ -574,7 +575,7 @@ def zonotope_sampler(A_zono, **params):
     # Compute the det of the tile (Vol(B)=abs(det(B)))
     det_B_x0 = la.det(A_zono[:, B_x0])
 
-    t_start = time.time() if T_max else 0
+    t_start = time.monotonic() if T_max else 0
 
     for it in range(1, nb_iter):
 
@@ -608,7 +609,8 @@ def zonotope_sampler(A_zono, **params):
                 chain[it] = B_x0
 
         if T_max:
-            if time.time() - t_start < T_max:
+            if time.monotonic() - t_start >= T_max:
+                chain = chain[:it + 1]
                 break
 
     return chain.tolist()
-- 
2.43.0


From 8c65e4594f0d9641cf34214661f43b873d52e410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 02/51] fix: acceptance ratio of the delete move in
 add-exchange-delete sampler

The delete move is proposed with probability 0.5 (n/N)^2 / n and reversed by an
add move with probability 0.5 (1-(n-1)/N)^2 / (N-(n-1)), so the Metropolis ratio
is det_S1/det_S0 * (N-(n-1)) / n; its inverse was used, which changes the
stationary distribution.
---
 dppy/mcmc_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index a71eea2..dd679cd 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -223,7 +223,7 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
             del S1[s_ind]  # S0 - s
             # Accept_reject the move
             det_S1 = det_ST(kernel, S1)  # det K_S1
-            if rng.rand() < det_S1 / det_S0 * size_S0 / (N - (size_S0 - 1)):
+            if rng.rand() < det_S1 / det_S0 * (N - (size_S0 - 1)) / size_S0:
                 S0, det_S0 = S1, det_S1
                 chain.append(S1)
                 size_S0 -= 1
-- 
2.43.0


From 08e4444556ec52f96a3563bf84f511b0ce822a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 03/51] fix: MCMC samplers crash when the current state is the
 full ground set

add-exchange-delete and exchange chains drew an item from an empty complement
(ValueError: 'a' cannot be empty). In add-exchange-delete the proposal
probabilities of add and exchange are zero there; exchange stays put.
---
 dppy/mcmc_sampling.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index dd679cd..d5e9f40 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -187,8 +187,8 @@ def add_exchange_delete_sampler(kernel, s_init=None, nb_iter=10, T_max=None,
         S1 = S0.copy()  # S1 = S0
         # Pick one element s in S_0 by index uniformly at random
         s_ind = rng.choice(size_S0 if size_S0 else N)  # , size=1)[0]
-        # Unif t in [N]-S0
-        t = rng.choice(np.delete(ground_set, S0))
+        # Unif t in [N]-S0, none (and neither add nor exchange) if S0 = [N]
+        t = rng.choice(np.delete(ground_set, S0)) if size_S0 < N else None
 
         U = rng.rand()
         ratio = size_S0 / N  # Proportion of items in current sample
@@ -381,8 +381,8 @@ def basis_exchange_sampler(kernel, s_init, nb_iter=10, T_max=None,
 
     for it in range(1, nb_iter):
 
-        # With proba 1/2 try to swap 2 elements
-        if rng.rand() < 0.5:
+        # With proba 1/2 try to swap 2 elements (nothing to swap if S0 = [] or [N])
+        if rng.rand() < 0.5 and 0 < size < N:
 
             # Perform the potential exchange move S1 = S0 - s + t
             S1 = S0.copy()  # S1 = S0
-- 
2.43.0


From 0b8f839b1f9764bcf4918124b2b880928b4573a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 04/51] fix: stale elementary symmetric polynomials in exact
 k-DPP sampling

size_k_dpp was overwritten before being compared to the requested size, so
the table was never enlarged and a larger k raised IndexError.
---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 9330e2b..e06e524 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -647,7 +647,7 @@ class FiniteDPP:
 
             # Phase 1
             # Precompute elementary symmetric polynomials
-            if self.E_poly is None or self.size_k_dpp < size:
+            if self.E_poly is None or self.E_poly.shape[0] <= size:
                 self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
                                                                size)
             # Select eigenvectors
-- 
2.43.0


From 4f7d5592c5806093cc7140579ba847f9de1f7b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 05/51] fix: KuTa12 sampler pivots on a numerically zero
 coordinate

Dividing by the first coordinate that is not exactly 0 amplified rounding
errors, the next items had wrong probabilities and could be duplicates.
---
 dppy/exact_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 7adc95d..2b290cf 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -651,8 +651,8 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
             break
 
         # Cancel the contribution of e_i to the remaining vectors that is, find the subspace of V that is orthogonal to \{e_i ; i \in Y\}
-        # Take the index of a vector that has a non null contribution on e_j
-        k = np.where(V[j, :] != 0)[0][0]
+        # Take the index of the vector that has the largest contribution on e_j
+        k = np.argmax(np.abs(V[j, :]))
         # Cancel the contribution of the remaining vectors on e_j, but stay in the subspace spanned by V i.e. get the subspace of V orthogonal to \{e_i ; i \in Y\}
         V -= np.outer(V[:, k] / V[j, k], V[j, :])
         # V_:j is set to 0 so we delete it and we can derive an orthononormal basis of the subspace under consideration
-- 
2.43.0


From 4a1d519c8185cba9eac14e0b36ced0490b9737aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:36 +0000
Subject: [PATCH 06/51] fix: numpy error handling left modified by compute_L
 and sample_exact_k_dpp

np.seterr(divide='raise') changed the process-wide setting for good and made
unrelated user code raise FloatingPointError afterwards.
---
 dppy/finite_dpps.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index e06e524..55ea058 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -661,8 +661,8 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            np.seterr(divide='raise')
-            self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            with np.errstate(divide='raise'):
+                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -915,8 +915,9 @@ class FiniteDPP:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
                     msg = '- eig_L = eig_K/(1-eig_K)'
                     print(msg)
-                    np.seterr(divide='raise')
-                    self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+                    with np.errstate(divide='raise'):
+                        self.L_eig_vals = (self.K_eig_vals
+                                           / (1.0 - self.K_eig_vals))
                     self.compute_L(msg=True)
                 except FloatingPointError:
                     err_print = ['Eigenvalues of L kernel cannot be computed',
-- 
2.43.0


From 5a339d677a97705b9a5c8ef7942813ff68553a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 07/51] fix: eigendecompositions stored before being validated
 or complete

Eigenvalues were assigned before validation and before the eigenvectors were
available: an invalid kernel was rejected once and then sampled from, and a
failure between the two assignments left an unusable object.
---
 dppy/finite_dpps.py | 63 ++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 55ea058..b5bf5a1 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -420,10 +420,11 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = np.maximum(is_geq_0(self.L_eig_vals), 0.0)
-            self.eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
+            eig_vals = np.maximum(is_geq_0(eig_vals), 0.0)
+            eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
+                                                / np.sqrt(eig_vals))
+            self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -434,14 +435,16 @@ class FiniteDPP:
                                             random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.K)
+            eig_vals = is_in_01(eig_vals)
+            self.eig_vecs, self.K_eig_vals = eig_vecs, eig_vals
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.L)
+            eig_vals = is_geq_0(eig_vals)
+            self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -450,8 +453,9 @@ class FiniteDPP:
         elif self.A_zono is not None:
             warn('DPP defined via `A_zono`, apriori you want to use `sample_mcmc`, but you have called `sample_exact`')
 
-            self.K_eig_vals = np.ones(self.A_zono.shape[0])
-            self.eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
+            eig_vals = np.ones(self.A_zono.shape[0])
+            eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
+            self.eig_vecs, self.K_eig_vals = eig_vecs, eig_vals
             return self.sample_exact(mode=self.sampling_mode,
                                      random_state=rng)
 
@@ -612,8 +616,9 @@ class FiniteDPP:
                 elif self.A_zono is not None:
                     warn('DPP defined via `A_zono`, apriori you want to use `sampl_mcmc`, but you have called `sample_exact`')
 
-                    self.K_eig_vals = np.ones(rank)
-                    self.eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
+                    eig_vals = np.ones(rank)
+                    eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
+                    self.eig_vecs, self.K_eig_vals = eig_vecs, eig_vals
 
                     sampl = proj_dpp_sampler_eig(eig_vecs=self.eig_vecs,
                                                  mode=self.sampling_mode,
@@ -671,22 +676,25 @@ class FiniteDPP:
             # L_dual = Phi Phi.T = W Theta W.T
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
-            self.L_eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
-            self.eig_vecs =self.L_gram_factor.T.dot(L_dual_eig_vecs
-                                                    / np.sqrt(self.L_eig_vals))
+            eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
+            eig_vals = is_geq_0(eig_vals)
+            eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
+                                                / np.sqrt(eig_vals))
+            self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
                                            random_state=rng)
 
         elif self.L is not None:
-            self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-            self.L_eig_vals = is_geq_0(self.L_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.L)
+            eig_vals = is_geq_0(eig_vals)
+            self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
         elif self.K is not None:
-            self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-            self.K_eig_vals = is_in_01(self.K_eig_vals)
+            eig_vals, eig_vecs = la.eigh(self.K)
+            eig_vals = is_in_01(eig_vals)
+            self.eig_vecs, self.K_eig_vals = eig_vecs, eig_vals
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -845,8 +853,9 @@ class FiniteDPP:
                                  '- U = QR(A.T)',
                                  '- K = U U.T'])
                 print(msg)
-                self.K_eig_vals = np.ones(self.A_zono.shape[0])
-                self.eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
+                eig_vals = np.ones(self.A_zono.shape[0])
+                eig_vecs, _ = la.qr(self.A_zono.T, mode='economic')
+                self.eig_vecs, self.K_eig_vals = eig_vecs, eig_vals
                 self.K = self.eig_vecs.dot(self.eig_vecs.T)
 
             elif self.L_eig_vals is not None:
@@ -858,8 +867,9 @@ class FiniteDPP:
             elif self.L is not None:
                 msg = '- eigendecomposition of L'
                 print(msg)
-                self.L_eig_vals, self.eig_vecs = la.eigh(self.L)
-                self.L_eig_vals = is_geq_0(self.L_eig_vals)
+                eig_vals, eig_vecs = la.eigh(self.L)
+                eig_vals = is_geq_0(eig_vals)
+                self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
                 self.compute_K(msg=True)
 
             else:
@@ -929,8 +939,9 @@ class FiniteDPP:
             elif self.K is not None:
                 msg = '- eigendecomposition of K'
                 print(msg)
-                self.K_eig_vals, self.eig_vecs = la.eigh(self.K)
-                self.K_eig_vals = is_in_01(self.K_eig_vals)
+                eig_vals, eig_vecs = la.eigh(self.K)
+                eig_vals = is_in_01(eig_vals)
+                self.eig_vecs, self.K_eig_vals = eig_vecs, eig_vals
                 self.compute_L(msg=True)
 
             else:
-- 
2.43.0


From df563bb1c31d891ffdef0ac1e523e0de9f96de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 08/51] fix: rank deficient Gram factor yields nan or wrong
 eigenvectors

Null eigenvalues of L_dual were divided by their (zero or nan) square root.
---
 dppy/finite_dpps.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index b5bf5a1..f01bbf6 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -421,8 +421,12 @@ class FiniteDPP:
             # L = Phi.T Phi = V Gamma V
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
             eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            eig_vals = np.maximum(is_geq_0(eig_vals), 0.0)
-            eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
+            # null eigenvalues of L_dual yield no eigenvector of L
+            pos = is_geq_0(eig_vals) > (np.finfo(float).eps
+                                        * self.L_gram_factor.shape[1]
+                                        * np.max(eig_vals, initial=0.0))
+            eig_vals = eig_vals[pos]
+            eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, pos]
                                                 / np.sqrt(eig_vals))
             self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
             return self.sample_exact(mode=self.sampling_mode,
@@ -677,8 +681,12 @@ class FiniteDPP:
             # L = Phi.T Phi = V Gamma V.T
             # implies Gamma = Theta and V = Phi.T W Theta^{-1/2}
             eig_vals, L_dual_eig_vecs = la.eigh(self.L_dual)
-            eig_vals = is_geq_0(eig_vals)
-            eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs
+            # null eigenvalues of L_dual yield no eigenvector of L
+            pos = is_geq_0(eig_vals) > (np.finfo(float).eps
+                                        * self.L_gram_factor.shape[1]
+                                        * np.max(eig_vals, initial=0.0))
+            eig_vals = eig_vals[pos]
+            eig_vecs = self.L_gram_factor.T.dot(L_dual_eig_vecs[:, pos]
                                                 / np.sqrt(eig_vals))
             self.eig_vecs, self.L_eig_vals = eig_vecs, eig_vals
             return self.sample_exact_k_dpp(size, mode=self.sampling_mode,
-- 
2.43.0


From 5d9e435f738073555fae4a6c917449ec626c4a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 09/51] fix: valid likelihood kernels with large entries
 rejected

The tolerance on negative eigenvalues was absolute, the rounding errors of
eigh are relative to the largest eigenvalue: e.g. L = Phi.T Phi of data of
magnitude 1e5 was rejected as having negative eigenvalues.
---
 dppy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/utils.py b/dppy/utils.py
index e69e288..a181ee0 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -202,7 +202,7 @@ def is_geq_0(array, tol=1e-8):
 
     if array is None:
         return None
-    elif np.all(array >= -tol):
+    elif np.all(array >= -tol * max(1.0, np.max(np.abs(array), initial=0.0))):
         return array
     else:
         raise ValueError('array with entries not all >= 0')
-- 
2.43.0


From e9aa333aed5915ee55de38ddad79f8bf14113a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 10/51] fix: non projection kernels accepted as projections

is_projection only compared the diagonals of M^2 and M, so that e.g.
[[.8, .4], [.4, .8]] (eigenvalues 1.2 and 0.4) passed.
---
 dppy/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/utils.py b/dppy/utils.py
index a181ee0..d8f3ead 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -145,9 +145,8 @@ def is_projection(array, col_idx=None):
         col_idx = np.arange(min(20, array.shape[0]))
 
     M_j = array[:, col_idx]
-    Mjj = array[col_idx, col_idx]
 
-    if np.allclose(inner1d(M_j), Mjj):
+    if np.allclose(array.dot(M_j), M_j):
         return array
     else:
         raise ValueError('array not seem to be a projection: M^2 != M')
-- 
2.43.0


From 3695d8b0289c6955bb3e9a5c353364e802582f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 11/51] fix: asymmetric kernel matrix returned by eval_L not
 rejected

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index f01bbf6..b803224 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -927,7 +927,7 @@ class FiniteDPP:
                 warn('\n'.join(warn_print))
                 msg = '- L = eval_L(X_data, X_data)'
                 print(msg)
-                self.L = self.eval_L(self.X_data)
+                self.L = is_symmetric(self.eval_L(self.X_data))
 
             elif self.K_eig_vals is not None:
                 try:  # to compute eigenvalues of kernel L = K(I-K)^-1
-- 
2.43.0


From c0b03a5c4856d870d1fc9bdc1647c3562f64e278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 12/51] fix: AttributeError instead of ValueError for non
 boolean projection

---
 dppy/finite_dpps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index b803224..64e1e28 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -195,7 +195,7 @@ class FiniteDPP:
 
         if not isinstance(self.projection, bool):
             err_print = ['`projection` argument is not boolean',
-                         'Given: {}'.format(self.is_projection)]
+                         'Given: {}'.format(self.projection)]
             raise ValueError('\n'.join(err_print))
 
         K_type, K_params = 'correlation', {'K', 'K_eig_dec', 'A_zono'}
-- 
2.43.0


From 8ca5e7480ef54694851b48e9914a1212a45462a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 13/51] fix: exact k-DPP sampling fails for L with large or
 small entries

The elementary symmetric polynomials of degree k overflow or underflow, e.g.
k=45 with eigenvalues of order 1e8 or 1e-9, although the k-DPP is invariant
under rescaling of L.
---
 dppy/finite_dpps.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index 64e1e28..f8ef0f3 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -655,12 +655,14 @@ class FiniteDPP:
         elif self.L_eig_vals is not None:
 
             # Phase 1
+            # k-DPP(L) = k-DPP(cL), rescale to avoid under/overflow
+            eig_vals = self.L_eig_vals / max(np.max(self.L_eig_vals, initial=0),
+                                             np.finfo(float).tiny)
             # Precompute elementary symmetric polynomials
             if self.E_poly is None or self.E_poly.shape[0] <= size:
-                self.E_poly = elementary_symmetric_polynomials(self.L_eig_vals,
-                                                               size)
+                self.E_poly = elementary_symmetric_polynomials(eig_vals, size)
             # Select eigenvectors
-            V = k_dpp_eig_vecs_selector(self.L_eig_vals, self.eig_vecs,
+            V = k_dpp_eig_vecs_selector(eig_vals, self.eig_vecs,
                                         size=size,
                                         E_poly=self.E_poly,
                                         random_state=rng)
-- 
2.43.0


From 53f9a440bcba56d4e2ee865db8761e2a0af947d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 14/51] fix: L of a kernel K with eigenvalue 1 silently wrong

Only eigenvalues exactly equal to 1.0 were detected; those computed by eigh
are 1 +- 1e-16, compute_L then returned a kernel with eigenvalues of order
-1e16 instead of raising FloatingPointError.
---
 dppy/finite_dpps.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/dppy/finite_dpps.py b/dppy/finite_dpps.py
index f8ef0f3..59dbc8e 100644
--- a/dppy/finite_dpps.py
+++ b/dppy/finite_dpps.py
@@ -672,8 +672,7 @@ class FiniteDPP:
                                          random_state=rng)
 
         elif self.K_eig_vals is not None:
-            with np.errstate(divide='raise'):
-                self.L_eig_vals = self.K_eig_vals / (1.0 - self.K_eig_vals)
+            self.L_eig_vals = self.__eig_L_from_eig_K()
             return self.sample_exact_k_dpp(size, self.sampling_mode,
                                            random_state=rng)
 
@@ -932,19 +931,10 @@ class FiniteDPP:
                 self.L = is_symmetric(self.eval_L(self.X_data))
 
             elif self.K_eig_vals is not None:
-                try:  # to compute eigenvalues of kernel L = K(I-K)^-1
-                    msg = '- eig_L = eig_K/(1-eig_K)'
-                    print(msg)
-                    with np.errstate(divide='raise'):
-                        self.L_eig_vals = (self.K_eig_vals
-                                           / (1.0 - self.K_eig_vals))
-                    self.compute_L(msg=True)
-                except FloatingPointError:
-                    err_print = ['Eigenvalues of L kernel cannot be computed',
-                                 'eig_L = eig_K/(1-eig_K)',
-                                 'K kernel has some eig_K very close to 1',
-                                 'Hint: `K` kernel might be a projection']
-                    raise FloatingPointError('\n'.join(err_print))
+                msg = '- eig_L = eig_K/(1-eig_K)'
+                print(msg)
+                self.L_eig_vals = self.__eig_L_from_eig_K()
+                self.compute_L(msg=True)
 
             elif self.K is not None:
                 msg = '- eigendecomposition of K'
@@ -958,6 +948,18 @@ class FiniteDPP:
                 self.compute_K(msg=True)
                 self.compute_L(msg=True)
 
+    def __eig_L_from_eig_K(self):
+        # eigenvalues of kernel L = K(I-K)^-1
+        # eig_K = 1 up to the accuracy of eigh yields arbitrary eig_L
+        tol = 10 * self.K_eig_vals.size * np.finfo(float).eps
+        if np.any(self.K_eig_vals >= 1.0 - tol):
+            err_print = ['Eigenvalues of L kernel cannot be computed',
+                         'eig_L = eig_K/(1-eig_K)',
+                         'K kernel has some eig_K very close to 1',
+                         'Hint: `K` kernel might be a projection']
+            raise FloatingPointError('\n'.join(err_print))
+        return self.K_eig_vals / (1.0 - self.K_eig_vals)
+
     def plot_kernel(self, kernel_type='correlation', save_path=''):
         """Display a heatmap of the kernel used to define the :class:`FiniteDPP` object (correlation kernel :math:`\\mathbf{K}` or likelihood kernel :math:`\\mathbf{L}`)
 
-- 
2.43.0


From fa4da14f0fb4a517bdd91d261a3f8c1ea3e6f183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:58 +0000
Subject: [PATCH 15/51] fix: exact k-DPP sampling with k=0 raises IndexError

---
 dppy/exact_sampling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 2b290cf..1766edc 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1292,12 +1292,12 @@ def k_dpp_eig_vecs_selector(eig_vals, eig_vecs, size,
 
     ind_selected = np.zeros(k, dtype=int)
     for n in range(eig_vals.size, 0, -1):
+        if k == 0:
+            break
 
         if rng.rand() < eig_vals[n - 1] * E_poly[k - 1, n - 1] / E_poly[k, n]:
             k -= 1
             ind_selected[k] = n - 1
-            if k == 0:
-                break
 
     return eig_vecs[:, ind_selected]
 
-- 
2.43.0


From a8b5f2f0edd28dabffdabd45b5c567e3a994ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:52 +0000
Subject: [PATCH 16/51] fix: exact k-DPP sampling fails for large k and
 decaying eigenvalues

The elementary symmetric polynomials underflowed in double precision, e.g.
k=75 for 80 eigenvalues decaying from 1 to 1e-12.
---
 dppy/exact_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 1766edc..a5b9fc2 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -1330,7 +1330,8 @@ def elementary_symmetric_polynomials(eig_vals, size):
 
     # Initialize output array
     N = eig_vals.size
-    E = np.zeros((size + 1, N + 1))
+    # extended range: E_k underflows for large k and decaying eigenvalues
+    E = np.zeros((size + 1, N + 1), dtype=np.longdouble)
     E[0, :] = 1.0
 
     # Recursive evaluation
-- 
2.43.0


From 786b8a634083ef55a2d4ae02b055f8d931405476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:49 +0000
Subject: [PATCH 17/51] fix: zonotope sampler loops forever when x_0 lies on
 the boundary of a tile

The linear program was solved again and again with the same point.
---
 dppy/mcmc_sampling.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index d5e9f40..6ccc208 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -567,6 +567,11 @@ def zonotope_sampler(A_zono, **params):
         y_star = solvers.lp(c, G, h, A, x0, solver='glpk')['x']
         # Get the tile
         B_x0 = extract_basis(np.asarray(y_star))
+        # x0 lies on the boundary of a tile
+        if len(B_x0) != r:
+            if 'x_0' in params:
+                raise ValueError('Initial point `x_0` lies on the boundary of a tile of the zonotope, choose another one')
+            x0 = matrix(A_zono.dot(rng.rand(N)))
 
     # Initialize sequence of sample
     chain = np.zeros((nb_iter, r), dtype=int)
-- 
2.43.0


From 368a541594e60248b3c869046ea4490ecba71d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 18/51] fix: MCMC chains may be initialized at a state of
 probability zero

The determinant of a singular submatrix with large entries exceeds the
absolute tolerance 1e-9 because of rounding errors.
---
 dppy/mcmc_sampling.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dppy/mcmc_sampling.py b/dppy/mcmc_sampling.py
index 6ccc208..07d7498 100644
--- a/dppy/mcmc_sampling.py
+++ b/dppy/mcmc_sampling.py
@@ -14,6 +14,7 @@
 import time
 import numpy as np
 import scipy.linalg as la
+from numpy.linalg import matrix_rank
 
 from dppy.utils import det_ST, check_random_state
 
@@ -63,6 +64,14 @@ def dpp_sampler_mcmc(kernel, mode='AED', **params):
     return sampl
 
 
+def det_or_zero(kernel, S):
+    # det L_S or 0 if L_S is numerically singular: the rounding error on
+    # det L_S scales like the entries of L_S and may exceed any fixed tolerance
+    if len(S) and matrix_rank(kernel[np.ix_(S, S)]) < len(S):
+        return 0.0
+    return det_ST(kernel, S)
+
+
 def initialize_AED_sampler(kernel, random_state=None):
     """
     .. seealso::
@@ -86,7 +95,7 @@ def initialize_AED_sampler(kernel, random_state=None):
         else:
             T = rng.choice(2 * N, size=N, replace=False)
             S0 = np.intersect1d(T, ground_set, assume_unique=True)
-            det_S0 = det_ST(kernel, S0)
+            det_S0 = det_or_zero(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
                    'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
@@ -120,7 +129,7 @@ def initialize_AD_and_E_sampler(kernel, size=None, random_state=None):
             S0 = rng.choice(N,
                             size=size if size else rng.randint(1, N + 1),
                             replace=False)
-            det_S0 = det_ST(kernel, S0)
+            det_S0 = det_or_zero(kernel, S0)
     else:
         err_str = ['Initialization terminated unsuccessfully.',
                    'After {} random trials, no initial set S0 satisfies det L_S0 > {}.'.format(nb_trials, tol),
-- 
2.43.0


From e2075d4722e5b30adaec471640405d0aa729c0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 19/51] fix: Aldous-Broder spanning tree sampler fails with
 AttributeError (np.int)

---
 dppy/exotic_dpps_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index ee0f80f..e4fedb5 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -118,7 +118,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     visited[n0] = True
     nb_nodes_in_tree = 1
 
-    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=np.int)
+    tree_edges = np.zeros((nb_nodes - 1, 2), dtype=int)
 
     while nb_nodes_in_tree < nb_nodes:
 
-- 
2.43.0


From 61afd0c4cab463f800e52cd2e3f788313a18ac3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 20/51] fix: root of the spanning tree samplers ignored, or
 treated as unset when 0

---
 dppy/exotic_dpps.py      | 2 ++
 dppy/exotic_dpps_core.py | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index c0ab69e..4b42296 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -558,10 +558,12 @@ class UST:
         if self.sampling_mode in self._sampling_modes['markov-chain']:
             if self.sampling_mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
+                                           root=root,
                                            random_state=rng)
 
             elif self.sampling_mode == 'Aldous-Broder':
                 sampl = ust_sampler_aldous_broder(self.neighbors,
+                                                  root=root,
                                                   random_state=rng)
 
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index e4fedb5..6a66c03 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -48,7 +48,7 @@ def ust_sampler_wilson(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = root if root is not None else rng.choice(nb_nodes)  # size=1)[0]
     # -1 = not visited / 0 = in path / 1 = in tree
     state = -np.ones(nb_nodes, dtype=int)
     state[n0] = 1
@@ -113,7 +113,7 @@ def ust_sampler_aldous_broder(list_of_neighbors, root=None,
     nb_nodes = len(list_of_neighbors)
 
     # Initialize the root, if root not specified start from any node
-    n0 = root if root else rng.choice(nb_nodes)  # size=1)[0]
+    n0 = root if root is not None else rng.choice(nb_nodes)  # size=1)[0]
     visited = np.zeros(nb_nodes, dtype=bool)
     visited[n0] = True
     nb_nodes_in_tree = 1
-- 
2.43.0


From 5d3305b4c310f08a77330ebc55a7ecda9d81f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:06 +0000
Subject: [PATCH 21/51] fix: invalid spanning tree sampling mode raises
 TypeError instead of ValueError

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 4b42296..23f60a7 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -587,11 +587,11 @@ class UST:
             sampl.add_edges_from([self.edges[e] for e in dpp_sample])
 
         else:
-            err_print = '\n'.join(
+            err_print = '\n'.join([
                 'Invalid sampling mode',
                 'Chose from: {}'.format(self._sampling_modes.values()),
-                'Given {}'.format(mode))
-            raise ValueError()
+                'Given {}'.format(mode)])
+            raise ValueError(err_print)
 
         self.list_of_samples.append(sampl)
 
-- 
2.43.0


From bcd78dde6f511eaeb9419a1c2042b3e09f7dae88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 22/51] fix: spanning tree samplers fail or err on graphs with
 other node labels or loops

---
 dppy/exotic_dpps.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 23f60a7..b991186 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -485,8 +485,11 @@ class UST:
         self.edge_labels = {edge: r'$e_{}$'.format(i)
                             for i, edge in enumerate(self.edges)}
 
-        self.neighbors = [list(graph.neighbors(v))
-                          for v in range(self.nb_nodes)]
+        # Neighbors of each node, nodes are referred to by their index in
+        # self.nodes. A loop is never part of a spanning tree
+        index = {v: i for i, v in enumerate(self.nodes)}
+        self.neighbors = [[index[u] for u in graph.neighbors(v) if u != v]
+                          for v in self.nodes]
 
         self.sampling_mode = 'Wilson'  # Default (avoid eig_vecs computation)
         self._sampling_modes = {'markov-chain': ['Wilson', 'Aldous-Broder'],
@@ -556,6 +559,11 @@ class UST:
         self.sampling_mode = mode
 
         if self.sampling_mode in self._sampling_modes['markov-chain']:
+            if root is not None:
+                if root not in self.nodes:
+                    raise ValueError('root={} not a node of the graph'.format(root))
+                root = self.nodes.index(root)
+
             if self.sampling_mode == 'Wilson':
                 sampl = ust_sampler_wilson(self.neighbors,
                                            root=root,
@@ -566,6 +574,8 @@ class UST:
                                                   root=root,
                                                   random_state=rng)
 
+            sampl = self.nx.relabel_nodes(sampl, dict(enumerate(self.nodes)))
+
         elif self.sampling_mode in self._sampling_modes['spectral-method']:
 
             self.compute_kernel_eig_vecs()
-- 
2.43.0


From 9d187950adbe92b38eeaf8f917ba6912cf279f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:08 +0000
Subject: [PATCH 23/51] fix: law of the virtual descent process wrong unless
 x_0 = 0.5 (or 1)

---
 dppy/exotic_dpps.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index b991186..6347982 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -263,12 +263,14 @@ class VirtualDescentProcess(Descent):
         rng = check_random_state(random_state)
 
         self.size = size
+
+        # Each element is a fixed point with probability x_0
+        Y = rng.binomial(n=1, p=1.0 - self.x_0, size=self.size + 1) != 1
+
         sigma = uniform_permutation(self.size + 1, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        Y = rng.binomial(n=2, p=self.x_0, size=self.size + 1) != 1
-
         descent = [i for i in range(self.size)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
-- 
2.43.0


From ddcfbab9b09e503cdf031b2dca2da9e409015242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:22 +0000
Subject: [PATCH 24/51] fix: virtual descent process on {0,...,N-1} instead of
 {1,...,N-1}

---
 dppy/exotic_dpps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 6347982..44c56ed 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -265,13 +265,13 @@ class VirtualDescentProcess(Descent):
         self.size = size
 
         # Each element is a fixed point with probability x_0
-        Y = rng.binomial(n=1, p=1.0 - self.x_0, size=self.size + 1) != 1
+        Y = rng.binomial(n=1, p=1.0 - self.x_0, size=self.size) != 1
 
-        sigma = uniform_permutation(self.size + 1, random_state=rng)
+        sigma = uniform_permutation(self.size, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        descent = [i for i in range(self.size)
+        descent = [i + 1 for i in range(self.size - 1)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
 
-- 
2.43.0


From 3b3521b65454d7cb9de4d6366e32f0e230f4ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 25/51] fix: full matrix models with beta=4 return each point
 twice (2N points)

---
 dppy/random_matrices.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index 0b7db3f..c7578e5 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -44,7 +44,10 @@ def hermite_sampler_full(N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+    eigvals = la.eigvalsh(A + A.conj().T) / np.sqrt(2.0)
+
+    # eigenvalues of the 2N x 2N complex matrix come in equal pairs for beta=4
+    return eigvals[::2] if beta == 4 else eigvals
 
 
 def semi_circle_law(x, R=2.0):
@@ -110,7 +113,10 @@ def laguerre_sampler_full(M, N, beta=2,
                      'Given: {}'.format(beta))
         raise ValueError('\n'.join(err_print))
 
-    return la.eigvalsh(A.dot(A.conj().T))
+    eigvals = la.eigvalsh(A.dot(A.conj().T))
+
+    # eigenvalues of the 2N x 2N complex matrix come in equal pairs for beta=4
+    return eigvals[::2] if beta == 4 else eigvals
 
 
 def marcenko_pastur_law(x, M, N, sigma=1.0):
@@ -193,7 +199,10 @@ def jacobi_sampler_full(M_1, M_2, N, beta=2,
     X_tmp = X.dot(X.conj().T)
     Y_tmp = Y.dot(Y.conj().T)
 
-    return la.eigvals(X_tmp.dot(la.inv(X_tmp + Y_tmp))).real
+    eigvals = la.eigvalsh(X_tmp, X_tmp + Y_tmp)
+
+    # eigenvalues of the 2N x 2N complex matrix come in equal pairs for beta=4
+    return eigvals[::2] if beta == 4 else eigvals
 
 
 def wachter_law(x, M_1, M_2, N):
-- 
2.43.0


From 71a02f1fc660a0e255945a8d79e0f1c1ee0414f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 26/51] fix: circular full matrix models do not follow the
 documented joint law

---
 .../beta_ensembles.full_matrix_models.rst     | 53 +++++--------------
 dppy/beta_ensembles.py                        |  2 +-
 dppy/random_matrices.py                       | 35 +++++++-----
 3 files changed, 36 insertions(+), 54 deletions(-)

diff --git a/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst b/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst
index e73f449..4de0b13 100644
--- a/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst
+++ b/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst
@@ -287,37 +287,13 @@ Circular Ensemble
 
 .. hint::
 
-	Eigenvalues of orthogonal (resp. unitary and  self-dual unitary) matrices drawn uniformly i.e. Haar measure on the respective groups.
+	Eigenvalues of symmetric unitary (resp. unitary and self-dual unitary) matrices drawn uniformly, i.e., obtained from the Haar measure on the unitary group.
 	The eigenvalues lie on the unit circle i.e. :math:`\lambda_n = e^{i \theta_n}`.
 	The distribution of the angles :math:`\theta_n` converges to the uniform measure on :math:`[0, 2\pi[` as :math:`N` grows.
 
 - :math:`\beta=1`
 
-	Uniform measure i.e. Haar measure on orthogonal matrices :math:`\mathbb{O}_N`:  :math:`U^{\top}U = I_N`
-
-	1. Via QR algorithm, see :cite:`Mez06` Section 5
-
-	.. code-block:: python
-
-		import numpy as np
-		from numpy.random import randn
-		import scipy.linalg as la
-
-		A = randn(N, N)
-		Q, R = la.qr(A)
-		d = np.diagonal(R)
-		U = np.multiply(Q, d/np.abs(d), Q)
-		la.eigvals(U)
-
-
-	2. The Hermite way
-
-	.. math::
-
-		X \sim \mathcal{N}_{N, N}(0,1)\\
-		A = X+X^{\top}
-	      = U^{\top}\Lambda U\\
-	    eigvals(U).
+	Uniform measure on symmetric unitary matrices (COE): take :math:`U` from the Haar measure on unitary matrices, see :math:`\beta=2` below, and consider the eigenvalues of :math:`U^{\top}U`
 
 - :math:`\beta=2`
 
@@ -351,8 +327,10 @@ Circular Ensemble
 
 		X \sim \mathcal{N}_{N, N}(0,1) + i~ \mathcal{N}_{N, N}(0,1)\\
 	    A = X+X^{\dagger}
-	      = U^{\dagger}\Lambda U\\
-	    eigvals(U).
+	      = U \Lambda U^{\dagger}\\
+	    eigvals(U D),
+
+	where :math:`D` is diagonal with i.i.d. uniform entries on the unit circle
 
 	.. :ref:`Fig. <circular_full_matrix_model_hermite_plot>`
 
@@ -364,21 +342,16 @@ Circular Ensemble
 
 - :math:`\beta=4`
 
-  Uniform measure i.e. Haar measure on self-dual unitary matrices :math:`\mathbb{U}\operatorname{Sp}_{2N}`:   :math:`U^{\dagger}U = I_{2N}`
+  Uniform measure on self-dual unitary matrices (CSE): take :math:`U` from the Haar measure on :math:`2N\times 2N` unitary matrices and consider the :math:`N` distinct eigenvalues (each has multiplicity 2) of
 
 	.. math::
 
-		\begin{cases}
-	        X \sim \mathcal{N}_{N, M}(0,1) + i~ \mathcal{N}_{N, M}(0,1)\\
-	        Y \sim \mathcal{N}_{N, M}(0,1) + i~ \mathcal{N}_{N, M}(0,1)
-	    \end{cases}\\
-		A = \begin{bmatrix}
-	            X    & Y   \\
-	            -Y^* & X^*
-	        \end{bmatrix}
-	    \quad A = X+X^{\dagger}
-	            = U^{\dagger} \Lambda U\\
-	    eigvals(U).
+		Z U^{\top} Z^{\top} U
+		\quad \text{with} \quad
+		Z = \begin{bmatrix}
+	            0    & -I_N \\
+	            I_N  & 0
+	        \end{bmatrix}.
 
 .. seealso::
 
diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index 09d3fd9..f24035d 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -1026,7 +1026,7 @@ class CircularEnsemble(BetaEnsemble):
             int, default :math:`10`
 
         :param haar_mode:
-            Sample Haar measure i.e. uniformly on the orthogonal/unitary/symplectic group using:
+            Sample the Haar measure on the unitary group using:
             - 'QR',
             - 'Hermite'
         :type haar_mode:
diff --git a/dppy/random_matrices.py b/dppy/random_matrices.py
index c7578e5..cc693f7 100644
--- a/dppy/random_matrices.py
+++ b/dppy/random_matrices.py
@@ -282,17 +282,11 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
     if haar_mode == 'Hermite':
         # size_sym_mat = int(N*(N-1)/2)
 
-        if beta == 1:  # COE
-            A = rng.randn(N, N)
-
-        elif beta == 2:  # CUE
+        if beta in (1, 2):  # COE, CUE
             A = rng.randn(N, N) + 1j * rng.randn(N, N)
 
-        elif beta == 4:
-            X = rng.randn(N, N) + 1j * rng.randn(N, N)
-            Y = rng.randn(N, N) + 1j * rng.randn(N, N)
-
-            A = np.block([[X, Y], [-Y.conj(), X.conj()]])
+        elif beta == 4:  # CSE
+            A = rng.randn(2 * N, 2 * N) + 1j * rng.randn(2 * N, 2 * N)
 
         else:
             err_print = ('For `haar_mode="hermite"`, `beta` = 1, 2 or 4.',
@@ -300,13 +294,12 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
             raise ValueError('\n'.join(err_print))
 
         _, U = la.eigh(A + A.conj().T)
+        # eigenvectors are defined up to a phase: draw it uniformly
+        U = U * np.exp(2j * np.pi * rng.rand(len(U)))
 
     elif haar_mode == 'QR':
 
-        if beta == 1:  # COE
-            A = rng.randn(N, N)
-
-        elif beta == 2:  # CUE
+        if beta in (1, 2):  # COE, CUE
             A = rng.randn(N, N) + 1j * rng.randn(N, N)
 
         # elif beta==4:
@@ -326,6 +319,22 @@ def circular_sampler_full(N, beta=2, haar_mode='QR',
                      'Given: {}'.format(haar_mode))
         raise ValueError('\n'.join(err_print))
 
+    # U follows the Haar measure on the unitary group
+    if beta == 1:  # COE: symmetric unitary matrices
+        U = U.T.dot(U)
+
+    elif beta == 4:  # CSE: self-dual unitary matrices
+        Z = np.kron([[0.0, -1.0], [1.0, 0.0]], np.eye(N))
+        eigvals = la.eigvals(Z.dot(U.T).dot(Z.T).dot(U))
+
+        # eigenvalues come in equal pairs, keep one of each
+        order = np.argsort(np.angle(eigvals))
+        gaps = np.diff(np.angle(eigvals)[order])[::2]
+        # one pair may be split by the branch cut of the angle
+        start = 0 if gaps.sum() < np.pi else 1
+
+        return eigvals[order[start::2]]
+
     return la.eigvals(U)
 
 
-- 
2.43.0


From 7ada66f9a89c3e683415d34ce18824b6b1039d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:57 +0000
Subject: [PATCH 27/51] fix: negative beta raises AttributeError instead of
 ValueError

---
 dppy/beta_ensembles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index f24035d..e75d957 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -50,7 +50,7 @@ class BetaEnsemble(metaclass=ABCMeta):
     def __init__(self, beta=2):
 
         if not (beta >= 0):
-            raise ValueError('`beta` must be >=0. Given: {}'.format(self.beta))
+            raise ValueError('`beta` must be >=0. Given: {}'.format(beta))
         self.beta = beta
 
         # Split object name at uppercase
-- 
2.43.0


From b22583534634b169699abe17855fb477254ca4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:06 +0000
Subject: [PATCH 28/51] fix: normalize_points modifies the points it is given
 in place

---
 dppy/beta_ensembles.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index e75d957..ea12a3a 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -260,14 +260,14 @@ class HermiteEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit N(0,2) ref measure of the full matrix model
-            points -= self.params['loc']
-            points /= np.sqrt(0.5) * self.params['scale']
+            points = points - self.params['loc']
+            points = points / (np.sqrt(0.5) * self.params['scale'])
         else:  # 'full'
             pass
 
         if self.beta > 0:
             # Normalize to fit the semi-circle distribution
-            points /= np.sqrt(self.beta * self.params['size_N'])
+            points = points / (np.sqrt(self.beta * self.params['size_N']))
         else:
             pass
 
@@ -590,13 +590,13 @@ class LaguerreEnsemble(BetaEnsemble):
 
         if self.sampling_mode == 'banded':
             # Normalize to fit Gamma(*,2) refe measure of the full matrix model
-            points /= 0.5 * self.params['scale']
+            points = points / (0.5 * self.params['scale'])
         else:  # self.sampling_mode == 'full':
             pass
 
         if self.beta > 0:
             # Normalize to fit the Marcenko-Pastur distribution
-            points /= self.beta * self.params['size_M']
+            points = points / (self.beta * self.params['size_M'])
         else:
             pass
             # set a warning, won't concentrate as semi-circle, they are i.i.d.
-- 
2.43.0


From ffb950dc87d7a3c954aa53ecfda18a0621949441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:17 +0000
Subject: [PATCH 29/51] fix: documented joint law of the Ginibre ensemble does
 not match its matrix model

---
 docs/continuous_dpps/beta_ensembles.full_matrix_models.rst | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst b/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst
index 4de0b13..dff1ccb 100644
--- a/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst
+++ b/docs/continuous_dpps/beta_ensembles.full_matrix_models.rst
@@ -366,7 +366,7 @@ Ginibre Ensemble
 .. math::
 
 	\left|\Delta(z_1,\dots,z_N)\right|^{2}
-	\prod_{i = 1}^N e^{ - \frac{1}{2}|z_i|^2 }
+	\prod_{i = 1}^N e^{ - |z_i|^2 }
 	d z_i,
 
 where from the definition in :eq:`eq:abs_vandermonde_det` we have :math:`\left|\Delta(x_1,\dots,x_N)\right| = \prod_{i<j} |x_i - x_j|`.
-- 
2.43.0


From 010ae5516107475116986dd96aa6603650903494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 30/51] fix: multivariate Jacobi rejection bound is nan when
 one parameter of a pair is -1/2

---
 dppy/multivariate_jacobi_ope.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 1f844d2..f4cc720 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -13,7 +13,7 @@ import itertools as itt
 
 from scipy import stats
 from scipy.special import beta, betaln, factorial, gamma, gammaln
-from scipy.special import eval_jacobi
+from scipy.special import eval_jacobi, xlogy
 # from scipy.special import logsumexp
 import matplotlib.pyplot as plt
 
@@ -890,8 +890,8 @@ def compute_rejection_bounds(jacobi_params, ordering, log_scale=True):
                 (a + b + 1) * np.log(2) + betaln(a + 1, b + 1)
             bounds[0, non_arcsine] =\
                 np.log(np.pi)\
-                + (0.5 + a) * np.log(1 - mode)\
-                + (0.5 + b) * np.log(1 + mode)\
+                + xlogy(0.5 + a, 1 - mode)\
+                + xlogy(0.5 + b, 1 + mode)\
                 - log_square_norm_P_0
         else:
             square_norm_P_0 = 2**(a + b + 1) * beta(a + 1, b + 1)
-- 
2.43.0


From 8ef7b70c8011756c5fd3acabdf9e3c4bb096e5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 31/51] fix: multivariate Jacobi sampler returns points it has
 not accepted when the rejections run out

---
 dppy/multivariate_jacobi_ope.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index f4cc720..aade5c7 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -356,7 +356,7 @@ class MultivariateJacobiOPE:
             if rng.rand() * rejection_bound < Pk2_x * w_over_w_eq:
                 break
         else:
-            print('marginal distribution 1/N K(x,x), rejection fails after {} proposals'.format(trial))
+            raise RuntimeError('marginal distribution 1/N K(x,x), rejection fails after {} proposals'.format(nb_trials_max))
 
         return x
 
@@ -430,7 +430,8 @@ class MultivariateJacobiOPE:
             for trial in range(nb_trials_max):
 
                 # Propose a point ~ 1/N K(x,x) w(x)
-                sample[n] = self.sample_chain_rule_proposal(random_state=rng)
+                sample[n] = self.sample_chain_rule_proposal(nb_trials_max,
+                                                            random_state=rng)
 
                 # Schur complement (numerator of x_n | Y = x_1:n-1)
                 #   = K(x, x) - K(x, Y) K(Y, Y)^-1 K(Y, x)
@@ -446,7 +447,7 @@ class MultivariateJacobiOPE:
                     phi[n] /= np.sqrt(schur)
                     break
             else:
-                print('conditional x_{} | x_1,...,x_{}, rejection fails after {} proposals'.format(n + 1, n, trial))
+                raise RuntimeError('conditional x_{} | x_1,...,x_{}, rejection fails after {} proposals'.format(n + 1, n, nb_trials_max))
 
         return sample
 
-- 
2.43.0


From 42f7760d077888db49e3c673ce88921c4922d2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 32/51] fix: chain rule Jacobi sampler has the wrong law in
 dimension 1 when a parameter is outside [-1/2, 1/2]

---
 dppy/multivariate_jacobi_ope.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index aade5c7..235fed0 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -422,6 +422,10 @@ class MultivariateJacobiOPE:
                                        random_state=rng)[:, None]
             return 1.0 - 2.0 * sample
 
+        if not np.all(np.abs(self.jacobi_params) <= 0.5):
+            # the rejection bounds of sample_chain_rule_proposal do not hold
+            raise ValueError('Chain rule sampling requires Jacobi parameters in [-0.5, 0.5]^d. Use `tridiag_1D=True`')
+
         sample = np.zeros((self.N, self.dim))
         phi = np.zeros((self.N, self.N))
 
-- 
2.43.0


From 37e6895d68b6c714bb17a32b8f7fefe31b5f9e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 33/51] fix: Gibbs sampler for polynomial potentials draws the
 off-diagonal entries from the wrong law when the shape is at most 1 or the
 conditional is not convex

---
 ...beta_ensemble_polynomial_potential_core.py | 111 +++++++++++-------
 1 file changed, 69 insertions(+), 42 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index f162505..c10c49f 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -128,44 +128,82 @@ def find_a_b_convex_gen_gamma(shape, P, mode):
     return np.array([b, a])  # b < 0 < a
 
 
-def trunc_gaussian_sampler(b, mu, var, random_state=None):
+def gen_gamma_sampler(shape, P, random_state=None):
+    """Sample from
+
+        .. math::
+
+            \\pi(x)\\propto x^{\\alpha-1} \\exp^{-P(x)} 1_{x>0}
+
+    with :math:`P` a polynomial of degree at most 3 with positive leading coefficient, not necessarily convex, using rejection from a piecewise dominating function
+
+    - :math:`\\propto x^{\\alpha-1}` on the leftmost cell,
+    - constant on the next cells,
+    - exponential on the right tail, where :math:`P` is convex and :math:`\\pi` decreases.
+    """
 
     rng = check_random_state(random_state)
 
-    it_max = int(1e7)
+    d1_P, d2_P = P.deriv(m=1), P.deriv(m=2)
 
-    for it in range(1, it_max + 1):
-        X = rng.normal(loc=b, scale=np.sqrt(var))
-        U = rng.rand()
-        if (np.log(U) < -(b - mu) * (X - b) / var) and (X > b):
-            break
-    else:  # if no acceptation
-        print('gen_gamma with alpha=1 not accepted\
-                after {} iterations'.format(it))
-        X = 1e-7
+    def real_roots(pol):
+        roots = np.atleast_1d(pol.roots)
+        return roots[np.isreal(roots)].real
 
-    return X, it
+    # Right end of the cells: P is convex, pi decreases and P has increased
+    # enough since its last critical point (pi since its last mode)
+    turning = np.concatenate((real_roots(d1_P), real_roots(d2_P)))
+    modes = real_roots(np.poly1d([1, 0]) * d1_P - (shape - 1))
+    start = max(0.0, turning.max(initial=0.0), modes.max(initial=0.0))
+    end = real_roots(P - P(start) - 6.0).max()
 
+    nodes = np.linspace(0.0, end, 257)
 
-def gen_gamma_alpha_lt_1_sampler(shape, P, random_state=None):
+    # Minimum of P over each cell: endpoints or critical points
+    P_min = np.minimum(P(nodes[:-1]), P(nodes[1:]))
+    for c in real_roots(d1_P):
+        if 0 < c < end:
+            j = np.searchsorted(nodes, c) - 1
+            P_min[j] = min(P_min[j], P(c))
 
-    rng = check_random_state(random_state)
+    # Maximum of x^{shape-1} over each cell (constant cells)
+    log_x = (shape - 1) * np.log(nodes[2:] if shape > 1 else nodes[1:-1])
 
-    it_max = int(1e2)
-    for it in range(1, it_max + 1):
+    # Right tail h(x) = pi(end) exp(-rate (x - end))
+    rate = d1_P(end) - max(shape - 1, 0) / end
+    log_pi_end = (shape - 1) * np.log(end) - P(end)
 
-        X = rng.gamma(shape=shape, scale=1 / P[1], size=1)
-        U = rng.rand()
-        if np.log(U) < -P[2] * X**2:
-            break
+    log_h = np.append(log_x - P_min[1:], log_pi_end)
+    log_Z = np.concatenate((
+        [shape * np.log(nodes[1]) - np.log(shape) - P_min[0]],
+        log_h[:-1] + np.log(nodes[1]),
+        [log_pi_end - np.log(rate)]))
 
-    else:
-        print('gen_gamma with alpha<1 not accepted\
-                after {} iterations'.format(it))
-        pass
-        # X = ...
+    cdf_h = np.cumsum(np.exp(log_Z - log_Z.max()))
 
-    return X, it
+    nb_iter_max = 10**4
+    for iter_ in range(nb_iter_max):
+
+        U, V, W = rng.rand(3)
+        V, W = 1.0 - V, 1.0 - W  # in (0, 1]
+        cell = np.searchsorted(cdf_h, U * cdf_h[-1], side='right')
+
+        if cell == 0:
+            X = nodes[1] * V**(1.0 / shape)
+            log_ratio = P_min[0] - P(X)
+        else:
+            if cell < len(nodes) - 1:
+                X = nodes[cell] + nodes[1] * V
+                log_h_X = log_h[cell - 1]
+            else:
+                X = end - np.log(V) / rate
+                log_h_X = log_pi_end - rate * (X - end)
+            log_ratio = log_pdf_convex_gen_gamma(X, shape, P) - log_h_X
+
+        if np.log(W) <= log_ratio:
+            return X, iter_
+
+    raise RuntimeError('gen_gamma not accepted after {} iterations'.format(nb_iter_max))
 
 
 def sampler_exact_convex_quartic(P, shape=None, random_state=None):
@@ -206,20 +244,11 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
 
     else:  # x^(shape-1) exp(-(beta x^2 + gamma x))
 
-        if not P[2]:  # x^(shape-1) exp(- gamma x))
+        if P.order == 1:  # x^(shape-1) exp(- gamma x))
             return rng.gamma(shape, 1 / P[1]), 0
 
-        else:
-            if shape < 1.0:  # x^(shape-1) exp(-(beta x^2 + gamma x)): no mode
-                return gen_gamma_alpha_lt_1_sampler(shape, P,
-                                                    random_state=rng)
-
-            elif shape == 1.0 and P[2]:
-                # x^0 exp(-(beta x^2 + gamma x)) = truncated Gaussian [0, oo]
-                return trunc_gaussian_sampler(b=0.0,
-                                              mu=-0.5 * P[1] / P[2],
-                                              var=0.5 / P[2],
-                                              random_state=rng)
+        if shape <= 1.0 or P[2] < 0:  # no mode or P not convex
+            return gen_gamma_sampler(shape, P, random_state=rng)
 
         # else there exists a mode, use [Dev12] domination
         mode = find_mode_convex_gen_gamma(shape, P)
@@ -268,7 +297,7 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
 
     log_Z_h = logsumexp(a=a_lse, b=b_lse)
 
-    nb_iter_max = 100
+    nb_iter_max = 10**4
     for iter_ in range(nb_iter_max):
 
         U, V, W = rng.rand(3)  # Unif_[0,1]
@@ -305,9 +334,7 @@ def sampler_exact_convex_quartic(P, shape=None, random_state=None):
         if np.log(W) <= log_f(X) - log_h(X):
             return X + mode, iter_
 
-    else:
-        print('Dev12 not accepted after {} iterations!'.format(iter_))
-        return X + mode, iter_
+    raise RuntimeError('Dev12 not accepted after {} iterations'.format(nb_iter_max))
 
 
 def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
-- 
2.43.0


From f2c5405df853cdd05d2be5bae8e399d942e1b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 34/51] fix: BetaEnsemblePolynomialPotential modifies the
 polynomial of the caller

---
 dppy/beta_ensemble_polynomial_potential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 4dd5275..751e865 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -22,7 +22,7 @@ class BetaEnsemblePolynomialPotential(object):
     def __init__(self, beta, potential_V, name=None):
 
         self.beta = beta
-        self.V = potential_V
+        self.V = np.poly1d(potential_V.coeffs.copy())  # V[0] may be reset
 
         if not (self.beta > 0):
             raise ValueError('beta = {} <= 0'.format(beta))
-- 
2.43.0


From 476519b821ff02d51d7f4f3f04f4136de76b8637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 35/51] fix: constant potential is accepted and fails later
 with IndexError

---
 dppy/beta_ensemble_polynomial_potential.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 751e865..91f07ee 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -41,6 +41,9 @@ class BetaEnsemblePolynomialPotential(object):
         if self.V.order % 2:
             raise ValueError('V has odd degree deg(V)={}'.format(self.V.order))
 
+        if self.V.order == 0:
+            raise ValueError('V is constant')
+
         if self.V[self.V.order] < 0:
             raise ValueError('V = g_{} x^{} + ... with g_{} < 0'.format(*[self.V.order] * 3))
 
-- 
2.43.0


From 605a7cd7d32e4499764907ee72a21d313a428c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 36/51] fix: chain of largest eigenvalues of a polynomial
 potential fails for a single point

---
 dppy/beta_ensemble_polynomial_potential.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential.py b/dppy/beta_ensemble_polynomial_potential.py
index 91f07ee..d06ba20 100644
--- a/dppy/beta_ensemble_polynomial_potential.py
+++ b/dppy/beta_ensemble_polynomial_potential.py
@@ -191,11 +191,14 @@ class BetaEnsemblePolynomialPotential(object):
                 eig_vals[:, p] = la.eigvalsh_tridiagonal(a[1:N + 1],
                                                          np.sqrt(b[1:N]))
             elif return_chain_of_lambda_max:
-                lambda_max[p] = la.eigvalsh_tridiagonal(
-                                    a[1:N + 1],
-                                    np.sqrt(b[1:N]),
-                                    select='i',
-                                    select_range=(N - 1, N - 1))[0]
+                if N == 1:
+                    lambda_max[p] = a[1]
+                else:
+                    lambda_max[p] = la.eigvalsh_tridiagonal(
+                                        a[1:N + 1],
+                                        np.sqrt(b[1:N]),
+                                        select='i',
+                                        select_range=(N - 1, N - 1))[0]
 
         if return_chain_of_eig_vals:
             return eig_vals
-- 
2.43.0


From 2ebfe6b338ce87cdd0c7aba7ec76dbadbe429eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 37/51] fix: Langevin steps of the polynomial potential sampler
 use an inverted proposal ratio, target density is cubed

---
 dppy/beta_ensemble_polynomial_potential_core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index c10c49f..e5572fa 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -355,8 +355,8 @@ def sampler_mala(x, V, sigma=0.01, nb_steps=20, random_state=None):
         acceptance = Vx - Vy\
                     + 0.5\
                         / sigma**2\
-                        * ((x_ - y + 0.5 * sigma**2 * grad_Vy)**2
-                            - (y - x_ + 0.5 * sigma**2 * grad_Vx)**2)
+                        * ((y - x_ + 0.5 * sigma**2 * grad_Vx)**2
+                            - (x_ - y + 0.5 * sigma**2 * grad_Vy)**2)
 
         if np.log(rng.rand()) < acceptance:
             x_ = y
-- 
2.43.0


From 86ccc0cde6be717d5ddb68adcdd81a2ccd9b7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 38/51] fix: vfx sampler rounds up the Poisson rate and samples
 a rescaled kernel

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 7844c50..6b1be7a 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -367,8 +367,7 @@ def vfx_sampling_do_sampling_loop(X_data,
     with get_progress_bar(disable=not verbose) as prog_bar:
         for rej_iter in range(max_iter):
             # sample t
-            lam = np.ceil(pc_state.q * np.exp(pc_state.s / pc_state.q))
-            t = rng.poisson(lam=lam.astype('int'))
+            t = rng.poisson(lam=pc_state.q * np.exp(pc_state.s / pc_state.q))
 
             # sample sigma subset
             sigma = rng.choice(n,
-- 
2.43.0


From 9bd892bc0d7c3effffe9f4d7bc862fb49c75b63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 39/51] fix: alpha sampler rescales in place the array returned
 by the likelihood function

---
 dppy/intermediate_sampling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 6b1be7a..8a097a8 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -109,8 +109,7 @@ def estimate_rls_from_weighted_dict_eigendecomp(X_to_estimate,
         raise ValueError('Input eigendecomposition has wrong shape: {} {} {}'.format(m, eigvec.shape, eigvals.shape))
 
     diag_L_to_estimate = evaluate_L_diagonal(eval_L, X_to_estimate)
-    L_DX = eval_L(dict_alphadpp.X, X_to_estimate)
-    L_DX *= W_sqrt
+    L_DX = W_sqrt * eval_L(dict_alphadpp.X, X_to_estimate)
     E = eigvec.T.dot(L_DX)
     E *= np.sqrt(1.0 / (alpha_hat * eigvals + 1.0)).reshape(-1, 1)
 
-- 
2.43.0


From 2063176c383cc3cba11706777544d543a5474c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 40/51] fix: vfx and alpha samplers reuse constants computed by
 another call for another kernel rescaling or sampler

---
 dppy/exact_sampling.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index a5b9fc2..15c10da 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -15,7 +15,9 @@ from dppy.utils import inner1d, check_random_state, get_progress_bar
 from dppy.intermediate_sampling import (vfx_sampling_precompute_constants,
                                         vfx_sampling_do_sampling_loop,
                                         alpha_dpp_sampling_precompute_constants,
-                                        alpha_dpp_sampling_do_sampling_loop)
+                                        alpha_dpp_sampling_do_sampling_loop,
+                                        _IntermediateSampleInfo,
+                                        _IntermediateSampleInfoAlphaRescale)
 
 
 #####################
@@ -761,7 +763,11 @@ def dpp_vfx_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # Constants computed for another sampler, or another expected size, do not apply
+    desired_size = params.get('desired_expected_size', None)
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfo)
+            or (intermediate_sample_info.alpha_star != 1.0 if desired_size is None
+                else not np.isclose(intermediate_sample_info.s, desired_size))):
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -870,7 +876,11 @@ def alpha_dpp_sampler(intermediate_sample_info,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None:
+    # Constants computed for another sampler, or another expected size, do not apply
+    desired_size = params.get('desired_expected_size', None)
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
+            or intermediate_sample_info.k != (-1 if desired_size is None else desired_size)
+            or intermediate_sample_info.alpha_switches > 0):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                     X_data=X_data,
                                     eval_L=eval_L,
@@ -993,7 +1003,7 @@ def k_dpp_vfx_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if (intermediate_sample_info is None
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfo)
         or not np.isclose(intermediate_sample_info.s, size).item()):
         intermediate_sample_info = vfx_sampling_precompute_constants(
                                     X_data=X_data,
@@ -1132,7 +1142,8 @@ def alpha_k_dpp_sampler(size,
     """
     rng = check_random_state(random_state)
 
-    if intermediate_sample_info is None or intermediate_sample_info.k != size:
+    if (not isinstance(intermediate_sample_info, _IntermediateSampleInfoAlphaRescale)
+        or intermediate_sample_info.k != size):
         intermediate_sample_info = alpha_dpp_sampling_precompute_constants(
                                         X_data=X_data,
                                         eval_L=eval_L,
-- 
2.43.0


From 52acd4484185cfcb3f3aa7f71663a6e0bbe412ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 41/51] fix: BLESS loops forever on small data sets, or starts
 below the requested regularisation

---
 dppy/bless.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 329f52c..752795c 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -225,7 +225,7 @@ def bless(X_data,
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
     lam_init = n
     ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
-    while ucb_init.sum() <= 10:
+    while ucb_init.sum() <= 10 and lam_init > 1.25 * lam_final:
         lam_init /= 1.25
         ucb_init = rls_oversample_param * diag_norm / (diag_norm + lam_init)
 
-- 
2.43.0


From 75678817778018b0277cc7d9ab0240ac37e0ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 42/51] fix: BLESS with a single iteration ignores the
 requested regularisation

---
 dppy/bless.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 752795c..09f769d 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -243,7 +243,8 @@ def bless(X_data,
                 lam=lam_init,
                 rls_oversample=rls_oversample_param)
 
-    lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
+    # at least lam_init and lam_final
+    lam_sequence = list(np.geomspace(lam_final, lam_init, max(nb_iter_bless, 2)))
 
     # discard lam_init from the list, we already used it to initialize
     lam_sequence.pop()
-- 
2.43.0


From faf54bc41cd0aeb83f40d86b6c42c2d99af50154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:37 +0000
Subject: [PATCH 43/51] fix: bless_size fails with IndexError when the size is
 too large for the kernel

---
 dppy/bless.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dppy/bless.py b/dppy/bless.py
index 09f769d..d3782b7 100644
--- a/dppy/bless.py
+++ b/dppy/bless.py
@@ -346,12 +346,16 @@ def bless_size(X_data,
 
     diag_norm = np.asarray(evaluate_L_diagonal(eval_L, X_data))
 
-    lam_init = diag_norm.sum() / (size_final - 1.0)
+    lam_init = diag_norm.sum() / (size_final - 1.0) if size_final > 1 else np.inf
     lam_max = lam_init
 
     lam_final = 1
     lam_min = lam_final
 
+    if not 1.0 < lam_init < np.inf:
+        raise ValueError('size_final={} must be larger than 1 and smaller than 1 + trace(L) = {}'
+                         .format(size_final, 1.0 + diag_norm.sum()))
+
     if nb_iter_bless is None:
         nb_iter_bless = np.ceil(np.log2(lam_init)).astype('int')
     lam_sequence = list(np.geomspace(lam_final, lam_init, nb_iter_bless))
-- 
2.43.0


From 3eee43db6ec30d138e7bbcb92ec46f73f3a44ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:50 +0000
Subject: [PATCH 44/51] fix: documented vfx parameters q_func, max_iter and
 max_iter_size_rejection raise TypeError

---
 dppy/intermediate_sampling.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dppy/intermediate_sampling.py b/dppy/intermediate_sampling.py
index 8a097a8..dd88746 100644
--- a/dppy/intermediate_sampling.py
+++ b/dppy/intermediate_sampling.py
@@ -130,7 +130,8 @@ def vfx_sampling_precompute_constants(X_data,
                                       rls_oversample_dppvfx=4.0,
                                       rls_oversample_bless=4.0,
                                       nb_iter_bless=None,
-                                      verbose=True):
+                                      verbose=True,
+                                      **kwargs):
     """Pre-compute quantities necessary for the vfx rejection sampling loop, such as the inner Nystrom approximation,
     and the RLS of all elements in L.
 
-- 
2.43.0


From 7164e7ae2d6c539db49eed4f9fd80d09057b0632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:20 +0000
Subject: [PATCH 45/51] fix: equilibrium distribution functions overwrite the
 points they are given

---
 dppy/beta_ensemble_polynomial_potential_core.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/dppy/beta_ensemble_polynomial_potential_core.py b/dppy/beta_ensemble_polynomial_potential_core.py
index e5572fa..711ba09 100644
--- a/dppy/beta_ensemble_polynomial_potential_core.py
+++ b/dppy/beta_ensemble_polynomial_potential_core.py
@@ -560,8 +560,7 @@ def cdf_equilibrium_x2_x4(g_2, g_4):
 
     def cdf(x):
 
-        x[x < -a] = -a
-        x[x > a] = a
+        x = np.clip(x, -a, a)
         X = np.arcsin(x / a)
         # return g_4 * a2 / (8 * np.pi) * ((X + np.pi) * (a2 + 4 * b2) / 4
         #                                  - a2 * np.sin(4 * X) / 8
@@ -639,8 +638,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     if m == 2:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
+            x = np.clip(x, -a, a)
             X = np.arcsin(x / a)
             return m * t * a**4 / (8 * np.pi) \
                    * (3 * (X + np.pi / 2)
@@ -650,8 +648,7 @@ def cdf_equilibrium_x2m(m, g_2m):
     elif m == 3:
         def cdf(x):
 
-            x[x < -a] = -a
-            x[x > a] = a
+            x = np.clip(x, -a, a)
             X = np.arcsin(x / a)
             return m * t * a**6 / (16 * np.pi) \
                    * (5 * (X + np.pi / 2)
-- 
2.43.0


From 7155f660b41942af30e6433b8e036fe888a0998d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:30 +0000
Subject: [PATCH 46/51] fix: kernels with integer entries make exact samplers
 raise UFuncTypeError

---
 dppy/exact_sampling.py | 18 +++++++++---------
 dppy/utils.py          |  5 +++++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/dppy/exact_sampling.py b/dppy/exact_sampling.py
index 15c10da..c1151fc 100644
--- a/dppy/exact_sampling.py
+++ b/dppy/exact_sampling.py
@@ -11,7 +11,7 @@
 
 import numpy as np
 import scipy.linalg as la
-from dppy.utils import inner1d, check_random_state, get_progress_bar
+from dppy.utils import inner1d, check_random_state, floating_dtype, get_progress_bar
 from dppy.intermediate_sampling import (vfx_sampling_precompute_constants,
                                         vfx_sampling_do_sampling_loop,
                                         alpha_dpp_sampling_precompute_constants,
@@ -109,8 +109,8 @@ def proj_dpp_sampler_kernel_Chol(K, size=None, random_state=None):
         size = rank
     # else: k-DPP with k = size
 
-    A = K.copy()
-    d = np.diagonal(A).astype(float)
+    A = K.astype(floating_dtype(K))
+    d = np.diagonal(A).real.copy()
 
     orig_indices = np.arange(N)
 
@@ -202,7 +202,7 @@ def proj_dpp_sampler_kernel_GS(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     c = np.zeros((N, size))
-    norm_2 = K.diagonal().copy()  # residual norm^2
+    norm_2 = K.diagonal().astype(floating_dtype(K))  # residual norm^2
 
     for it in range(size):
         j = rng.choice(ground_set[avail],
@@ -266,7 +266,7 @@ def proj_dpp_sampler_kernel_Schur(K, size=None, random_state=None):
     avail = np.ones(N, dtype=bool)  # available items
 
     # Schur complement list i.e. residual norm^2
-    schur_comp = K.diagonal().copy()
+    schur_comp = K.diagonal().astype(floating_dtype(K))
     K_inv = np.zeros((size, size))
 
     for it in range(size):
@@ -342,7 +342,7 @@ def dpp_sampler_generic_kernel(K, random_state=None):
 
     rng = check_random_state(random_state)
 
-    A = K.copy()
+    A = K.astype(floating_dtype(K))
     sample = []
 
     for j in range(len(A)):
@@ -486,7 +486,7 @@ def proj_dpp_sampler_eig_GS(eig_vecs, size=None,
     # Use Gram-Schmidt recursion to compute the Vol^2 of the parallelepiped spanned by the feature vectors associated to the sample
 
     c = np.zeros((N, size))
-    norms_2 = inner1d(V, axis=1)  # ||V_i:||^2
+    norms_2 = inner1d(V, axis=1).astype(floating_dtype(V))  # ||V_i:||^2
 
     for it in range(size):
         # Pick an item \propto this squred distance
@@ -530,7 +530,7 @@ def proj_dpp_sampler_eig_GS_bis(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(floating_dtype(eig_vecs))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
@@ -629,7 +629,7 @@ def proj_dpp_sampler_eig_KuTa12(eig_vecs, size=None, random_state=None):
     rng = check_random_state(random_state)
 
     # Initialization
-    V = eig_vecs.copy()
+    V = eig_vecs.astype(floating_dtype(eig_vecs))
 
     N, rank = V.shape  # ground set size / rank(K)
     if size is None:  # full projection DPP
diff --git a/dppy/utils.py b/dppy/utils.py
index d8f3ead..f1963c2 100644
--- a/dppy/utils.py
+++ b/dppy/utils.py
@@ -31,6 +31,11 @@ def check_random_state(seed: object) -> np.random.RandomState:
                      ' instance' % seed)
 
 
+def floating_dtype(array):
+    """Type in which the entries of ``array`` can be updated in place by divisions and subtractions, e.g., ``float`` for integer entries"""
+    return np.result_type(array.dtype, np.float32)
+
+
 def inner1d(arr1, arr2=None, axis=0):
     """ Efficient equivalent to ``(arr1**2).sum(axis)`` or ``(arr1*arr2).sum(axis)`` for ``arr1.shape == arr2.shape``.
     Expected to be used with arrays of same shape and mainly with 1D or 2D arrays but works for upto 26D arrays...
-- 
2.43.0


From 7ef42361d570eb216a4cd8a86e6926f8bad3afee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:30 +0000
Subject: [PATCH 47/51] fix: rejected calls change how beta ensembles normalise
 and display the last sample

---
 dppy/beta_ensembles.py | 113 ++++++++++++++++++++---------------------
 1 file changed, 55 insertions(+), 58 deletions(-)

diff --git a/dppy/beta_ensembles.py b/dppy/beta_ensembles.py
index ea12a3a..deee9bd 100644
--- a/dppy/beta_ensembles.py
+++ b/dppy/beta_ensembles.py
@@ -151,20 +151,20 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'loc': 0.0, 'scale': np.sqrt(2.0), 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(0,2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
-            sampl = rm.hermite_sampler_full(N=self.params['size_N'],
+            sampl = rm.hermite_sampler_full(N=params['size_N'],
                                             beta=self.beta,
                                             random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -203,23 +203,23 @@ class HermiteEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'loc': loc, 'scale': scale, 'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample N i.i.d. gaussian N(mu, sigma^2)
-            sampl = rng.normal(loc=self.params['loc'],
-                               scale=self.params['scale'],
-                               size=self.params['size_N'])
+            sampl = rng.normal(loc=params['loc'],
+                               scale=params['scale'],
+                               size=params['size_N'])
         else:  # if beta > 0
             sampl = rm.mu_ref_normal_sampler_tridiag(
-                        loc=self.params['loc'],
-                        scale=self.params['scale'],
+                        loc=params['loc'],
+                        scale=params['scale'],
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -420,8 +420,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if size_M >= size_N:
             # Define the parameters of the associated Gamma distribution
             shape, scale = 0.5 * self.beta * (size_M - size_N + 1), 2.0
@@ -432,26 +430,27 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'],                                       size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.laguerre_sampler_full(M=self.params['size_M'],
-                                             N=self.params['size_N'],
+            sampl = rm.laguerre_sampler_full(M=params['size_M'],
+                                             N=params['size_N'],
                                              beta=self.beta,
                                              random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -509,8 +508,6 @@ class LaguerreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not size_M:  # Default setting
             if self.beta > 0:
                 size_M = 2 / self.beta * shape + size_N - 1
@@ -528,27 +525,28 @@ class LaguerreEnsemble(BetaEnsemble):
 
         params = {'shape': shape, 'scale': scale,
                   'size_N': size_N, 'size_M': size_M}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # rng.gamma(shape=0,...) when doesn't return error! contrary to sp.stats.gamma(a=0).rvs(), see https://github.com/numpy/numpy/issues/12367
             # sampl = stats.gamma.rvs(a=params['shape'], loc=0.0, scale=params['scale'], size=params['size_N'])
             if params['shape'] > 0:
-                sampl = rng.gamma(shape=self.params['shape'],
-                                  scale=self.params['scale'],
-                                  size=self.params['size_N'])
+                sampl = rng.gamma(shape=params['shape'],
+                                  scale=params['scale'],
+                                  size=params['size_N'])
             else:
                 err_print = ('shape<=0.',
                              'Here beta=0, hence shape=beta/2*(M-N+1)=0')
                 raise ValueError(' '.join(err_print))
 
         else:  # if beta > 0
-            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=self.params['shape'],
-                                                    scale=self.params['scale'],
+            sampl = rm.mu_ref_gamma_sampler_tridiag(shape=params['shape'],
+                                                    scale=params['scale'],
                                                     beta=self.beta,
-                                                    size=self.params['size_N'],
+                                                    size=params['size_N'],
                                                     random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -760,8 +758,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
-
         if (size_M1 >= size_N) and (size_M2 >= size_N):
             # all([var >= size_N for var in [size_M1, size_M2]]
             a = 0.5 * self.beta * (size_M1 - size_N + 1)
@@ -776,20 +772,21 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b) if size_M1,2 were used a,b = beta/2 (M_1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.jacobi_sampler_full(M_1=self.params['size_M1'],
-                                           M_2=self.params['size_M2'],
-                                           N=self.params['size_N'],
+            sampl = rm.jacobi_sampler_full(M_1=params['size_M1'],
+                                           M_2=params['size_M2'],
+                                           N=params['size_N'],
                                            beta=self.beta,
                                            random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -855,8 +852,6 @@ class JacobiEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
-
         if not (size_M1 and size_M2):  # default setting
 
             if self.beta > 0:
@@ -880,21 +875,22 @@ class JacobiEnsemble(BetaEnsemble):
 
         params = {'a': a, 'b': b,
                   'size_N': size_N, 'size_M1': size_M1, 'size_M2': size_M2}
-        self.params.update(params)
 
         if self.beta == 0:  # Answer issue #28 raised by @rbardenet
             # Sample i.i.d. Beta(a,b)
             # If size_M1,2 is used a, b = beta/2 (M1,2 - N + 1) = 0 => ERROR
-            sampl = rng.beta(a=self.params['a'],
-                             b=self.params['b'],
-                             size=self.params['size_N'])
+            sampl = rng.beta(a=params['a'],
+                             b=params['b'],
+                             size=params['size_N'])
         else:
-            sampl = rm.mu_ref_beta_sampler_tridiag(a=self.params['a'],
-                                                   b=self.params['b'],
+            sampl = rm.mu_ref_beta_sampler_tridiag(a=params['a'],
+                                                   b=params['b'],
                                                    beta=self.beta,
-                                                   size=self.params['size_N'],
+                                                   size=params['size_N'],
                                                    random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1039,20 +1035,20 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'full'
         params = {'size_N': size_N, 'haar_mode': haar_mode}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
             sampl = np.exp(2 * 1j * np.pi * rng.rand(params['size_N']))
         else:
             sampl = rm.circular_sampler_full(
-                        N=self.params['size_N'],
+                        N=params['size_N'],
                         beta=self.beta,
-                        haar_mode=self.params['haar_mode'],
+                        haar_mode=params['haar_mode'],
                         random_state=rng)
 
+        self.sampling_mode = 'full'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1077,9 +1073,7 @@ class CircularEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.sampling_mode = 'banded'
         params = {'size_N': size_N}
-        self.params.update(params)
 
         if self.beta == 0:  # i.i.d. points uniformly on the circle
             # Answer issue #28 raised by @rbardenet
@@ -1087,9 +1081,11 @@ class CircularEnsemble(BetaEnsemble):
         else:
             sampl = rm.mu_ref_unif_unit_circle_sampler_quindiag(
                         beta=self.beta,
-                        size=self.params['size_N'],
+                        size=params['size_N'],
                         random_state=rng)
 
+        self.sampling_mode = 'banded'
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
@@ -1222,10 +1218,11 @@ class GinibreEnsemble(BetaEnsemble):
         """
         rng = check_random_state(random_state)
 
-        self.params.update({'size_N': size_N})
-        sampl = rm.ginibre_sampler_full(N=self.params['size_N'],
+        params = {'size_N': size_N}
+        sampl = rm.ginibre_sampler_full(N=params['size_N'],
                                         random_state=rng)
 
+        self.params.update(params)
         self.list_of_samples.append(sampl)
         return sampl
 
-- 
2.43.0


From d85e788f24418c9ef4e98b6a35ba7c816bef8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:51 +0000
Subject: [PATCH 48/51] fix: a rejected call of a descent process' sample
 changes how its last sample is displayed

---
 dppy/exotic_dpps.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 44c56ed..f1b9830 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -162,12 +162,12 @@ class CarriesProcess(Descent):
         """
         rng = check_random_state(random_state)
 
-        self.size = size
-        A = rng.randint(0, self.base, self.size)
+        A = rng.randint(0, self.base, size)
         B = np.mod(np.cumsum(A), self.base)
 
         carries = 1 + np.where(B[:-1] > B[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(carries.tolist())
 
 
@@ -206,11 +206,11 @@ class DescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
-        sigma = uniform_permutation(self.size, random_state=rng)
+        sigma = uniform_permutation(size, random_state=rng)
 
         descent = 1 + np.where(sigma[:-1] > sigma[1:])[0]
 
+        self.size = size
         self.list_of_samples.append(descent.tolist())
 
 
@@ -262,19 +262,18 @@ class VirtualDescentProcess(Descent):
 
         rng = check_random_state(random_state)
 
-        self.size = size
-
         # Each element is a fixed point with probability x_0
-        Y = rng.binomial(n=1, p=1.0 - self.x_0, size=self.size) != 1
+        Y = rng.binomial(n=1, p=1.0 - self.x_0, size=size) != 1
 
-        sigma = uniform_permutation(self.size, random_state=rng)
+        sigma = uniform_permutation(size, random_state=rng)
 
         X = sigma[:-1] > sigma[1:]  # Record the descents in permutation
 
-        descent = [i + 1 for i in range(self.size - 1)
+        descent = [i + 1 for i in range(size - 1)
                    if (~Y[i] and Y[i + 1]) or (~Y[i] and ~Y[i + 1] and X[i])]
         # ~ symbol is equivalent to not on boolean numpy array
 
+        self.size = size
         self.list_of_samples.append(descent)
 
 
-- 
2.43.0


From 4e3a28b9147b343488af71738304356f9ed7d11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:58 +0000
Subject: [PATCH 49/51] fix: displaying an empty Poissonized Plancherel sample
 raises

---
 dppy/exotic_dpps.py      | 4 ++--
 dppy/exotic_dpps_core.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index f1b9830..8668c32 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -362,7 +362,7 @@ class PoissonizedPlancherel:
         ax.spines['right'].set_visible(False)
 
         # Ticks options
-        x_max = np.max(np.abs(sampl)) + 0.5
+        x_max = np.max(np.abs(sampl), initial=0.5) + 0.5
         minor_ticks = np.arange(-x_max, x_max + 1)
         major_ticks = np.arange(-100, 100 + 1, 10)
         ax.set_xticks(major_ticks)
@@ -404,7 +404,7 @@ class PoissonizedPlancherel:
         y_diag = self.list_of_young_diag[-1]
         sampl = self.list_of_samples[-1].copy()
 
-        x_max = 1.1 * max(y_diag.size, y_diag[0])
+        x_max = 1.1 * max(y_diag.size, y_diag.max(initial=1))
         xy_young = xy_young_ru(y_diag)
 
         if normalization:
diff --git a/dppy/exotic_dpps_core.py b/dppy/exotic_dpps_core.py
index 6a66c03..ef191cb 100644
--- a/dppy/exotic_dpps_core.py
+++ b/dppy/exotic_dpps_core.py
@@ -233,7 +233,7 @@ def xy_young_ru(young_diag):
 
     # vertical lines
     uniq, ind = np.unique(young_diag[::-1], return_index=True)
-    gaps = np.ediff1d(uniq, to_begin=young_diag[-1])
+    gaps = np.ediff1d(uniq, to_begin=young_diag[-1:])
 
     x_vert = np.repeat(np.arange(1, 1 + gaps.sum()), repeats=2)
     y_vert = np.repeat(young_diag.size - ind, repeats=gaps)
-- 
2.43.0


From 560b23204417d30cdc014dedbfc28fe8fb08c416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:45 +0000
Subject: [PATCH 50/51] fix: MultivariateJacobiOPE.plot raises in dimension 1

---
 dppy/multivariate_jacobi_ope.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dppy/multivariate_jacobi_ope.py b/dppy/multivariate_jacobi_ope.py
index 235fed0..ee9544c 100644
--- a/dppy/multivariate_jacobi_ope.py
+++ b/dppy/multivariate_jacobi_ope.py
@@ -462,7 +462,7 @@ class MultivariateJacobiOPE:
 
         tols = 5e-2 * np.ones_like(self.jacobi_params)
         tols = np.zeros_like(self.jacobi_params)
-        tols[1, 0] = 8e-2
+        tols[1:, 0] = 8e-2
 
         weights = np.ones(len(sample))
 
-- 
2.43.0


From e92ab68c4266681f9d2760961b876917a72d1536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:46 +0000
Subject: [PATCH 51/51] fix: UST objects can be neither copied nor pickled

---
 dppy/exotic_dpps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dppy/exotic_dpps.py b/dppy/exotic_dpps.py
index 8668c32..f6d656e 100644
--- a/dppy/exotic_dpps.py
+++ b/dppy/exotic_dpps.py
@@ -468,7 +468,6 @@ class UST:
         # For Uniform Spanning Trees
         try:
             import networkx as nx
-            self.nx = nx
         except ImportError:
             raise ValueError('The networkx package is required to sample spanning trees (see setup.py).')
 
@@ -501,6 +500,12 @@ class UST:
         self.kernel = None
         self.kernel_eig_vecs = None
 
+    @property
+    def nx(self):
+        # not an attribute: modules cannot be copied nor pickled
+        import networkx
+        return networkx
+
     def __str__(self):
 
         str_info = ['Uniform Spanning Tree measure on a graph with:',
-- 
2.43.0

