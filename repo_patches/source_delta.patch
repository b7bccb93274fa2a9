From 7fa9934c0934a31a024c0a233479367ce8443fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 01/23] fix: independent dictionaries of diffraction orders for
 R and T

---
 nannos/simulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 6c6f856..fbe5703 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -480,14 +480,13 @@ class Simulation:
                 R = bk.sum(R)
                 T = bk.sum(T)
         if return_dict and orders:
-            Rdict = self.harmidx_dict.copy()
-            Tdict = self.harmidx_dict.copy()
+            Rdict, Tdict = {}, {}
             for i1, i2 in self.harmonics.T:
                 i1 = int(i1)
                 i2 = int(i2)
                 idx = self.harmidx_dict[i1][i2]
-                Rdict[i1][i2] = R[idx]
-                Tdict[i1][i2] = T[idx]
+                Rdict.setdefault(i1, {})[i2] = R[..., idx]
+                Tdict.setdefault(i1, {})[i2] = T[..., idx]
             return Rdict, Tdict
         return R, T
 
-- 
2.43.0


From 5ea466d78bcc84978c9d85dd5e9b95e757ccab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 02/23] fix: complex orders for any name of the outer layers

---
 nannos/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index fbe5703..dcbd383 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -507,8 +507,8 @@ class Simulation:
         norma_t = (norma_t2.real) ** 0.5
         norma_r = (norma_r2.real) ** 0.5
 
-        t = self.get_field_fourier("Substrate")[0, 0] * norma_t
-        bx0 = self.get_field_fourier("Superstrate")[0, 0] * norma_r
+        t = self.get_field_fourier(len(self.layers) - 1)[0, 0] * norma_t
+        bx0 = self.get_field_fourier(0)[0, 0] * norma_r
         o0 = bk.array(bk.zeros(self.nh))
         o0 = set_index(o0, [self.index_zeroth_order], 1)
         r = bk.stack([b - o0 * c for b, c in zip(bx0, self.excitation.amplitude)])
-- 
2.43.0


From 60442db821daa86a2b5511885d5455261259fcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 03/23] fix: default shape of the field grid in uniform and
 anisotropic layers

---
 nannos/simulation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index dcbd383..4508504 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -375,7 +375,11 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info("Retrieving fields in real-space for layer {layer}")
-        shape = shape or layer.epsilon.shape
+        shape = shape or (
+            self.lattice.discretization
+            if layer.is_uniform
+            else tuple(layer.epsilon.shape[-2:])
+        )
 
         fields_fourier = self.get_field_fourier(layer_index, z)
 
-- 
2.43.0


From 57a68d18da9ed30efa994995cec1ab56366d0bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 04/23] fix: negative layer indices

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 4e3df96..efbb4ab 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -303,7 +303,7 @@ def _get_layer(id, layers, layer_names):
             if l.name == id:
                 return l, i
     elif isinstance(id, int):
-        return layers[id], id
+        return layers[id], id % len(layers)
     elif hasattr(id, "name"):
         return _get_layer(id.name, layers, layer_names)
     else:
-- 
2.43.0


From a38b245c41181b65dda1ababf4ce06676a1a04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 05/23] fix: circular truncation keeps the harmonics nearest to
 the origin for all lattices

---
 nannos/lattice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 25f14c6..b133d8f 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -128,9 +128,9 @@ class Lattice:
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
         if self.truncation == "circular":
-            return _circular_truncation(nh, self.reciprocal)
+            return _circular_truncation(nh, self.reciprocal.T)
         elif self.truncation == "parallelogrammic":
-            return _parallelogramic_truncation(nh, self.reciprocal)
+            return _parallelogramic_truncation(nh, self.reciprocal.T)
         else:
             return _one_dim_truncation(nh)
 
@@ -306,7 +306,7 @@ def _parallelogramic_truncation(nh, Lk):
     G = bk.meshgrid(xG, xG, indexing="ij")
     G = [g.flatten() for g in G]
 
-    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+    Gl2 = G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
 
@@ -338,7 +338,7 @@ def _circular_truncation(nh, Lk):
     G = [g.flatten() for g in G]
 
     Gl2 = bk.array(
-        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[0] ** 2 + 2 * G[0] * G[1] * udot
+        G[0] ** 2 * u[0] ** 2 + G[1] ** 2 * u[1] ** 2 + 2 * G[0] * G[1] * udot
     )
     jsort = bk.argsort(Gl2)
     Gsorted = [g[jsort] for g in G]
-- 
2.43.0


From d39313af3f52a9d04e41bbba32ec42e4bc10fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 06/23] fix: at least one harmonic with circular truncation

---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index b133d8f..d381f99 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -352,7 +352,7 @@ def _circular_truncation(nh, Lk):
     for i in bk.arange(nGtmp - 1, -1, -1):
         if bk.abs(Gl2[i] - Gl2[i - 1]) > tol:
             break
-    nh = i
+    nh = max(i, 1)
 
     G = bk.vstack(Gsorted)[:, :nh]
 
-- 
2.43.0


From 3571aab7f818003a6da06a4e40cc1bdfdbbcd700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 07/23] fix: stopped optimization returns the point where the
 stop value is reached

---
 nannos/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/optimize.py b/nannos/optimize.py
index d02b4dd..83f5759 100644
--- a/nannos/optimize.py
+++ b/nannos/optimize.py
@@ -71,9 +71,9 @@ class StopFun:
 
     def fun(self, x, *args):
         self.f = self.fun_in(x, *args)
+        self.x = x
         if self.stopval is not None and self.f < self.stopval:
             raise StopFunError("Stop value reached.")
-        self.x = x
         return self.f
 
 
-- 
2.43.0


From 3f03e6496d696604cf0d032c3f7e67d42a0f9e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 08/23] fix: Nyquist criterion for the harmonics of negative
 order

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 4508504..c6d527b 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -95,7 +95,7 @@ class Simulation:
                 idict[i1] = {i2: j}
         self.harmidx_dict = idict
         # Check if nh and resolution satisfy Nyquist criteria
-        maxN = bk.max(self.harmonics)
+        maxN = bk.max(bk.abs(self.harmonics))
         if self.lattice.discretization[0] <= 2 * maxN or (
             self.lattice.discretization[1] <= 2 * maxN and not self.lattice.is_1D
         ):
-- 
2.43.0


From a3368706fd7067fab895a60507dff16352ef59f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 09/23] fix: axes of the projector on the tangent field

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index c6d527b..959f78f 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -834,7 +834,7 @@ class Simulation:
             Pxy_hat = self._get_toeplitz_matrix(Pxy)
             Pyx_hat = self._get_toeplitz_matrix(Pyx)
 
-            Pi = block([[Pyy_hat, Pyx_hat], [Pxy_hat, Pxx_hat]])
+            Pi = block([[Pxx_hat, Pyx_hat], [Pxy_hat, Pyy_hat]])
 
             # Delta = epsilon - 1 / epsilon
             # Delta_hat = self._get_toeplitz_matrix(Delta)
-- 
2.43.0


From f25ca74f5aeae382bd70edddf98991a95cc1f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 10/23] fix: scattering matrix of an empty range of layers

---
 nannos/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 959f78f..1ea67f5 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -241,6 +241,7 @@ class Simulation:
         S12 = bk.zeros_like(S11)
         S21 = bk.zeros_like(S11)
         S22 = bk.array(bk.eye(2 * self.nh, dtype=COMPLEX))
+        S = [[S11, S12], [S21, S22]]
 
         if indices is None:
             n_interfaces = len(self.layers) - 1
-- 
2.43.0


From 6a0c58f47a082a5d9125c5087ebf159abbd7c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:59 +0000
Subject: [PATCH 11/23] fix: fields in layers with thickness None

---
 nannos/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1ea67f5..033b773 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -927,5 +927,5 @@ def _build_Imatrix(layer1, layer2):
 def _translate_amplitudes(layer, z, ai, bi):
     q = layer.eigenvalues
     aim = ai * phasor(q, z)
-    bim = bi * phasor(q, layer.thickness - z)
+    bim = bi * phasor(q, (layer.thickness or 0) - z)
     return aim, bim
-- 
2.43.0


From 6f62cb8d4af7f19ad952f8acadea44acd1d0e2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:19 +0000
Subject: [PATCH 12/23] fix: axes of the permittivity tensor in patterned
 anisotropic layers

---
 nannos/simulation.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 033b773..1495efd 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -650,7 +650,10 @@ class Simulation:
                 mu_hat_inv = _inv(mu_hat)
 
             if layer.is_epsilon_anisotropic:
-                eps_para_hat = self._get_toeplitz_matrix(epsilon, transverse=True)
+                # the matrices act on (-ey, ex)
+                eps_para_hat = _rotate_tensor(
+                    self._get_toeplitz_matrix(epsilon, transverse=True)
+                )
             else:
                 eps_para_hat = [[eps_hat, self.ZeroG], [self.ZeroG, eps_hat]]
 
@@ -775,11 +778,13 @@ class Simulation:
         epsilon = layer.epsilon
         if layer.is_epsilon_anisotropic:
             N = epsilon.shape[2]
-            eb = block(epsilon[:2, :2])
-            nu = inv2by2block(eb, N)
-            # nu = _inv(epsilon[2,2])
-            nu1 = bk.array(block2list(nu, N))
-            nuhat = self._get_toeplitz_matrix(nu1, transverse=True)
+            exx, exy = epsilon[0, 0], epsilon[0, 1]
+            eyx, eyy = epsilon[1, 0], epsilon[1, 1]
+            det = exx * eyy - exy * eyx
+            nu = [[eyy / det, -exy / det], [-eyx / det, exx / det]]
+            nuhat = _rotate_tensor(
+                [[self._get_toeplitz_matrix(u) for u in row] for row in nu]
+            )
             nuhat_inv = block2list(_inv(block(nuhat)), self.nh)
 
         else:
@@ -856,6 +861,11 @@ class Simulation:
         return plot_structure(self, plotter, nper, dz, null_thickness, **kwargs)
 
 
+def _rotate_tensor(a):
+    """Transverse tensor acting on (-ey, ex) from its (x, y) components."""
+    return [[a[1][1], -a[1][0]], [-a[0][1], a[0][0]]]
+
+
 def phasor(q, z):
     return bk.exp(1j * q * z)
 
-- 
2.43.0


From 1351b6701a872201d5b54849de41aaed8ec6178e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 13/23] fix: copies of uniform layers and copies without their
 original in the stack

---
 nannos/layers.py     |  6 +++++-
 nannos/simulation.py | 11 ++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index efbb4ab..825547c 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -187,7 +187,11 @@ class Layer:
             `(q,psi)`, with eigenvalues `q` and eigenvectors `psi`.
 
         """
-        if self.iscopy:
+        if (
+            self.iscopy
+            and self.original.is_solved
+            and matrix is getattr(self.original, "matrix", None)
+        ):
             self.eigenvalues, self.eigenvectors = (
                 self.original.eigenvalues,
                 self.original.eigenvectors,
diff --git a/nannos/simulation.py b/nannos/simulation.py
index 1495efd..b9d8007 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -152,6 +152,8 @@ class Simulation:
         # This is a boolean checking that the eigenproblems are solved for all layers
         # TODO: This is to avoid solving again, but could be confusing
         self.is_solved = False
+        # layers which matrices have been built and can be used by their copies
+        self._built_layers = []
         # dictionary to store intermediate S-matrices
         # TODO: check memory consumption of doing that, maybe make it optional.
         self._intermediate_S = {}
@@ -181,6 +183,7 @@ class Simulation:
         _t0 = timer.tic()
         logger.info("Solving")
         layers_solved = []
+        self._built_layers = []
         for layer in self.layers:
             _t0lay = timer.tic()
             logger.info(f"Computing eigenpairs for layer {layer}")
@@ -593,7 +596,11 @@ class Simulation:
         _t0 = timer.tic()
         layer, layer_index = self.get_layer(layer)
         logger.info(f"Building matrix for layer {layer}")
-        if layer.iscopy:
+        if (
+            layer.iscopy
+            and not layer.is_uniform
+            and any(built is layer.original for built in self._built_layers)
+        ):
             layer.matrix = layer.original.matrix
             layer.Kmu = layer.original.Kmu
             layer.eps_hat = layer.original.eps_hat
@@ -603,6 +610,7 @@ class Simulation:
             layer.Keps = layer.original.Keps
             layer.Peps = layer.original.Peps
             layer.Qeps = layer.original.Qeps
+            self._built_layers.append(layer)
             return layer
         Kx, Ky = self.Kx, self.Ky
         mu = layer.mu
@@ -708,6 +716,7 @@ class Simulation:
 
         Qeps = self.omega**2 * Pmu - Keps
         layer.Qeps = Qeps
+        self._built_layers.append(layer)
 
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done building matrix for layer {layer} in {_t1:0.3e}s")
-- 
2.43.0


From 84c2f19d7c6fcb1fb08f640e5faa652ef686c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 14/23] fix: layers shared by several simulations

---
 nannos/layers.py     |  2 ++
 nannos/simulation.py | 19 +++++++++++++------
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index 825547c..c97d926 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -66,6 +66,8 @@ class Layer:
         self.tangent_field_type = tangent_field_type
         self.iscopy = False
         self.original = self
+        # token of the simulation which computed the eigenmodes
+        self.solved_by = None
 
         if self.mu != 1:
             # TODO: case with magnetic materials
diff --git a/nannos/simulation.py b/nannos/simulation.py
index b9d8007..3a03c43 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -152,6 +152,8 @@ class Simulation:
         # This is a boolean checking that the eigenproblems are solved for all layers
         # TODO: This is to avoid solving again, but could be confusing
         self.is_solved = False
+        # token identifying this simulation in the layers it has solved
+        self._token = object()
         # layers which matrices have been built and can be used by their copies
         self._built_layers = []
         # dictionary to store intermediate S-matrices
@@ -198,6 +200,7 @@ class Simulation:
                 # out = bk.conj(layer.eigenvectors).T @ layer.Qeps @ layer.eigenvectors
                 # layer.eigenvectors /= bk.diag(out)**0.5
 
+            layer.solved_by = self._token
             layers_solved.append(layer)
 
             _t1lay = timer.toc(_t0lay, verbose=False)
@@ -209,6 +212,13 @@ class Simulation:
         _t1 = timer.toc(_t0, verbose=False)
         logger.info(f"Done solving in {_t1:0.3e}s")
 
+    def _ensure_solved(self):
+        """Solve if needed: another simulation may have solved a shared layer."""
+        if not self.is_solved or any(
+            layer.solved_by is not self._token for layer in self.layers
+        ):
+            self.solve()
+
     def reset(self, param="all"):
         if param == "S":
             _reseter(self, "S")
@@ -235,8 +245,7 @@ class Simulation:
 
         """
 
-        if not self.is_solved:
-            self.solve()
+        self._ensure_solved()
 
         _t0 = timer.tic()
 
@@ -288,8 +297,7 @@ class Simulation:
         return S
 
     def get_z_poynting_flux(self, layer, an, bn):
-        if not self.is_solved:
-            self.solve()
+        self._ensure_solved()
         q, phi = layer.eigenvalues, bk.array(layer.eigenvectors)
         A = layer.Qeps @ phi @ bk.diag(1 / (self.omega * q))
         phia, phib = phi @ an, phi @ bn
@@ -305,8 +313,7 @@ class Simulation:
         layer, layer_index = self.get_layer(layer_index)
         _t0 = timer.tic()
         logger.info(f"Retrieving fields in k-space for layer {layer}")
-        if not self.is_solved:
-            self.solve()
+        self._ensure_solved()
         ai0, bi0 = self._get_amplitudes(layer_index, translate=False)
         Z = z if hasattr(z, "__len__") else [z]
         fields = bk.zeros((len(Z), 2, 3, self.nh), dtype=COMPLEX)
-- 
2.43.0


From 84cb48ce9a103776ba6580a11a6822757505210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:35 +0000
Subject: [PATCH 15/23] fix: adaptive sampling from unsorted initial points

---
 nannos/sample.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nannos/sample.py b/nannos/sample.py
index 212b904..d6aae51 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -102,6 +102,7 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
                     new_x.append(x_new)
         return np.unique(new_x)
 
+    x = np.unique(x)
     y = _function_adapted(x)
     if hasattr(y[0], "__len__") and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
-- 
2.43.0


From 519d2fc2025954b779fa75ce39eccfe9f8ef8880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:43 +0000
Subject: [PATCH 16/23] fix: count user-supplied harmonics without numpy-only
 shape()

With the torch backend Lattice(harmonics_array=...) raised AttributeError
(module 'torch' has no attribute 'shape').
---
 nannos/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index d381f99..418fe81 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -123,7 +123,7 @@ class Lattice:
 
     def _get_harmonics(self, nh):
         if self.harmonics_array is not None:
-            nh = bk.shape(self.harmonics_array)[1]
+            nh = len(self.harmonics_array[0])
             return self.harmonics_array, nh
         if int(nh) != nh:
             raise ValueError("nh must be integer.")
-- 
2.43.0


From a1b83aa64c9ad04f7229ab543bf207043792fae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:06 +0000
Subject: [PATCH 17/23] fix: compute the area of the unit cell without array
 functions

Lattice.area raised an error with the torch and jax backends, whose cross()
does not accept tuples.
---
 nannos/lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/lattice.py b/nannos/lattice.py
index 418fe81..2092967 100644
--- a/nannos/lattice.py
+++ b/nannos/lattice.py
@@ -72,8 +72,8 @@ class Lattice:
     def area(self):
         if self.is_1D:
             return self.basis_vectors[0][0]
-        v = self.basis_vectors
-        return bk.linalg.norm(bk.cross(v[0], v[1]))
+        (x1, y1), (x2, y2) = self.basis_vectors
+        return abs(x1 * y2 - y1 * x2)
 
     @property
     def matrix(self):
-- 
2.43.0


From 605ad7fc7540f71e6b23734c123cd09ffb3f7a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:21 +0000
Subject: [PATCH 18/23] fix: adaptive sampling with array-valued results of any
 backend

With jax the sampler failed on lists, and with torch and jax a function
returning a zero-dimensional array was taken for one of several outputs.
---
 nannos/sample.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nannos/sample.py b/nannos/sample.py
index d6aae51..aa43d88 100644
--- a/nannos/sample.py
+++ b/nannos/sample.py
@@ -8,7 +8,8 @@
 
 __all__ = ["adaptive_sampler"]
 
-from . import numpy as np
+import numpy as np
+
 from .parallel import parloop
 
 
@@ -104,7 +105,7 @@ def adaptive_sampler(f, x, max_bend=10, max_x_rel=1e-3, max_df=0.05, n_jobs=1):
 
     x = np.unique(x)
     y = _function_adapted(x)
-    if hasattr(y[0], "__len__") and len(y[0]) > 0:
+    if np.ndim(y[0]) > 0 and len(y[0]) > 0:
         y_monitor = [_[0] for _ in y]
         multi_output = True
     else:
-- 
2.43.0


From dc47a2a1bad59fbde49f16520e7d76f9e9e703bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:41 +0000
Subject: [PATCH 19/23] fix: Layer.get_tangent_field ignored its type argument

---
 nannos/layers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/layers.py b/nannos/layers.py
index c97d926..57bd955 100644
--- a/nannos/layers.py
+++ b/nannos/layers.py
@@ -276,7 +276,7 @@ class Layer:
             epsilon_zz,
             harmonics,
             normalize=normalize,
-            type=self.tangent_field_type,
+            type=type,
         )
 
     def get_jones_field(self, t):
-- 
2.43.0


From 021cf5c2d5885fc6ea09b13911e66d66a638055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:53 +0000
Subject: [PATCH 20/23] fix: apply_filter shifted patterns by one sample on odd
 grids

The kernel is centred at index (N - 1) / 2, which ifftshift moves to the
origin; fftshift does so only for even N.
---
 nannos/utils/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index b89ff55..69295e6 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -158,7 +158,7 @@ def _apply_filter(x, rfilt, vectors=None):
     # convolve
     img2_ft = kernel_ft * img_ft
     out = bk.real(inverse_fourier_transform(img2_ft, axes=(0, 1)))
-    return bk.fft.fftshift(out) * (Nx * Ny)
+    return bk.fft.ifftshift(out) * (Nx * Ny)
 
 
 apply_filter = jit(_apply_filter, static_argnums=(1))
-- 
2.43.0


From b13a71949088051414ad7532f6c3bc286ab9d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:17 +0000
Subject: [PATCH 21/23] fix: tangent fields on non-square grids and grids above
 64 samples

The 'opt' tangent field failed unless the grid was square and at most 64
samples wide or a multiple of 64.
---
 nannos/formulations/tangent.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/nannos/formulations/tangent.py b/nannos/formulations/tangent.py
index 6c9fd60..ae1d2db 100644
--- a/nannos/formulations/tangent.py
+++ b/nannos/formulations/tangent.py
@@ -104,13 +104,11 @@ def _get_tangent_field_min(
     grid = bk.abs(grid)
     grid = grid / bk.max(grid)
     Nx, Ny = grid.shape
-    Nx_ds = min(2**6, Nx)
-    Ny_ds = min(2**6, Ny)
-    # Nx_ds = min(int(Nx/2**3), Nx)
-    # Ny_ds = min(int(Nx/2**3), Ny)
-
-    downsample_x = int(Nx / Nx_ds)
-    downsample_y = int(Ny / Ny_ds)
+    downsample_x = max(1, Nx // 2**6)
+    downsample_y = max(1, Ny // 2**6)
+    # number of samples kept by the slices [::downsample] below
+    Nx_ds = len(range(0, Nx, downsample_x))
+    Ny_ds = len(range(0, Ny, downsample_y))
     shape_small = (Nx_ds, Ny_ds)
 
     xi = npg.linspace(0, 1, Nx)
@@ -172,8 +170,8 @@ def _get_tangent_field_min(
     def minifun(x):
         coefx = x[:nh] + 1j * x[nh : 2 * nh]
         coefy = x[2 * nh : 3 * nh] + 1j * x[3 * nh :]
-        ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-        ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+        ax = _get_amps(coefx, shape_small)
+        ay = _get_amps(coefy, shape_small)
         da = npg.real(npg.array([ax, ay]))
         obj = npg.mean(npg.abs(da - dgrid_f_downspl) ** 2)
         ### smoothness
@@ -198,8 +196,8 @@ def _get_tangent_field_min(
     coefx = xopt[:nh] + 1j * xopt[nh : 2 * nh]
     coefy = xopt[2 * nh : 3 * nh] + 1j * xopt[3 * nh :]
 
-    ax = _get_amps(coefx, (Nx_ds, Nx_ds))
-    ay = _get_amps(coefy, (Ny_ds, Ny_ds))
+    ax = _get_amps(coefx, shape_small)
+    ay = _get_amps(coefy, shape_small)
 
     # points_dsx = xi[::downsample_x]
     # points_dsy = yi[::downsample_y]
-- 
2.43.0


From 129b122c9a7037b2e63d13e50343e7b4bbf274f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 22/23] fix: apply_filter changed constant patterns and
 returned nan on one-sample axes

The weights were normalized by the trapezoidal integral of the kernel, which
leaves out half of each end point: the periodic average had a sum larger than
1 and, with a single sample along an axis, was divided by 0.
---
 nannos/utils/helpers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nannos/utils/helpers.py b/nannos/utils/helpers.py
index 69295e6..6e01fb6 100644
--- a/nannos/utils/helpers.py
+++ b/nannos/utils/helpers.py
@@ -148,9 +148,9 @@ def _apply_filter(x, rfilt, vectors=None):
         tx = bk.array(bk.linspace(-0.5 * vectors[0][0], 0.5 * vectors[0][0], Nx))
         ty = bk.array(bk.linspace(-0.5 * vectors[1][1], 0.5 * vectors[1][1], Ny))
     bumpx = bk.exp(-(tx**2) / rfilt[0] ** 2)
-    bumpx /= bk.trapz(bumpx)  # normalize the integral to 1
+    bumpx /= bk.sum(bumpx)  # normalize the weights to 1
     bumpy = bk.exp(-(ty**2) / rfilt[1] ** 2)
-    bumpy /= bk.trapz(bumpy)  # normalize the integral to 1
+    bumpy /= bk.sum(bumpy)  # normalize the weights to 1
     # make a 2-D kernel out of it
     kernel = bumpx[:, None] * bumpy[None, :]
     kernel_ft = fourier_transform(kernel, s=x.shape[:2], axes=(0, 1))
-- 
2.43.0


From 356d78d3a861ec6e5c06ea36ce7db4d2c088a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:57 +0000
Subject: [PATCH 23/23] fix: the stress tensor in patterned layers ignored the
 anisotropy and the formulation

---
 nannos/simulation.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/nannos/simulation.py b/nannos/simulation.py
index 3a03c43..1dc6663 100644
--- a/nannos/simulation.py
+++ b/nannos/simulation.py
@@ -545,12 +545,9 @@ class Simulation:
             dx = ex * layer.epsilon
             dy = ey * layer.epsilon
         else:
+            # the displacement is that of the layer, in its formulation
             exy = bk.hstack((-ey, ex))
-
-            # FIXME: anisotropy here?
-            # dxy = layer.eps_hat @ exy
-            _eps_hat = block([[layer.eps_hat, self.ZeroG], [self.ZeroG, layer.eps_hat]])
-            dxy = _eps_hat @ exy
+            dxy = layer.Peps @ exy
             dx = dxy[self.nh :]
             dy = -dxy[: self.nh]
 
-- 
2.43.0

