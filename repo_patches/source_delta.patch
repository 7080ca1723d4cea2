From a9320e6076b677e89d29bf44382bd4b031c18bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:04 +0000
Subject: [PATCH 01/59] fix: power of a fermionic Hilbert space with fixed
 electron numbers

__pow__ read the local n_elec before assigning it (UnboundLocalError).
---
 GPSKet/hilbert/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/discrete_fermion.py b/GPSKet/hilbert/discrete_fermion.py
index 5ad7a34..75bae58 100644
--- a/GPSKet/hilbert/discrete_fermion.py
+++ b/GPSKet/hilbert/discrete_fermion.py
@@ -57,7 +57,7 @@ class FermionicDiscreteHilbert(HomogeneousHilbert):
         if self._n_elec is None:
             n_elec = None
         else:
-            n_elec = (n_elec[0] * n, n_elec[1] * n)
+            n_elec = (self._n_elec[0] * n, self._n_elec[1] * n)
 
         return FermionicDiscreteHilbert(self.size * n, n_elec=n_elec)
 
-- 
2.43.0


From dc3822ed0b119b14b9c65fba9ee89452e585fb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:04 +0000
Subject: [PATCH 02/59] fix: random states of unconstrained fermionic spaces
 ignore the requested dtype

The unconstrained branch drew from the default-integer local states, so samplers
asking for uint8 configurations were initialised with int64 ones.
---
 GPSKet/hilbert/random/discrete_fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/hilbert/random/discrete_fermion.py b/GPSKet/hilbert/random/discrete_fermion.py
index d229e68..d963506 100644
--- a/GPSKet/hilbert/random/discrete_fermion.py
+++ b/GPSKet/hilbert/random/discrete_fermion.py
@@ -11,7 +11,7 @@ def random_state(hilb: FermionicDiscreteHilbert, key, batches: int, *, dtype=jnp
     shape = (batches, hilb.size)
 
     if hilb._n_elec is None:
-        out = jax.random.choice(key, jnp.array(hilb.local_states), shape=shape)
+        out = jax.random.choice(key, jnp.array(hilb.local_states, dtype=dtype), shape=shape)
     else:
 
         def scan_fun(key, val):
-- 
2.43.0


From e49f093f610bc2381a075cd056e1980cd1c54239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:04 +0000
Subject: [PATCH 03/59] fix: Fermi-Hubbard operator without edges left its
 sections unset

The section boundary was only written inside the loop over edges.
---
 GPSKet/operator/hamiltonian/hubbard.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 7d0d610..3391860 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -90,7 +90,7 @@ class FermiHubbard(FermionicDiscreteOperator):
                 )
                 count += 1
 
-                sections[batch_id] = count
+            sections[batch_id] = count
         return x_prime, mels
 
 
-- 
2.43.0


From 0cee085be11da6cc39281f6ffba6921dbc4ad4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/59] fix: hopping parity without cumulative counts counted
 the wrong sites

The electrons strictly between the two sites determine the sign; the slice
included the left end point and excluded the last site in between.
---
 GPSKet/operator/fermion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/fermion.py b/GPSKet/operator/fermion.py
index 4ffa2dd..7e4944d 100644
--- a/GPSKet/operator/fermion.py
+++ b/GPSKet/operator/fermion.py
@@ -26,7 +26,7 @@ def apply_hopping(
 
                 if cummulative_count is None:
                     parity_count = np.sum(
-                        (x_prime[left_limit:right_limit] & spin_int).astype(np.bool)
+                        (x_prime[left_limit + 1 : right_limit + 1] & spin_int).astype(np.bool)
                     )
                 else:
                     parity_count = (
-- 
2.43.0


From bc208eecc3075a69960980a7bd78856a4acc7f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:41 +0000
Subject: [PATCH 05/59] fix: plaquette qGPS fast update calls where() with
 positional arguments

jnp.where does not accept x/y as keywords, so every fast update raised.
---
 GPSKet/models/plaquetteqGPS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 73bf554..1019fcb 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -142,13 +142,13 @@ class PlaquetteqGPS(nn.Module):
                     valid_elements = transformed_sites != -1
                     update = jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[new_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[new_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     update /= jnp.where(
                         jnp.expand_dims(valid_elements, 1),
-                        x=epsi[old_occs, :, transformed_sites],
-                        y=1.0,
+                        epsi[old_occs, :, transformed_sites],
+                        1.0,
                     ).prod(axis=0)
                     return sp_old * update
 
-- 
2.43.0


From 91bd7b940d58bc7f5cc4b121115cb9ef39e3c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:41 +0000
Subject: [PATCH 06/59] fix: plaquette qGPS cache kept the wrong occupancy for
 repeated update sites

As in the other fast-updating models, the first entry of a repeated site is the
actual update; a plain scatter leaves the order of duplicates undefined.
---
 GPSKet/models/plaquetteqGPS.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/plaquetteqGPS.py b/GPSKet/models/plaquetteqGPS.py
index 1019fcb..7575afe 100644
--- a/GPSKet/models/plaquetteqGPS.py
+++ b/GPSKet/models/plaquetteqGPS.py
@@ -179,7 +179,16 @@ class PlaquetteqGPS(nn.Module):
             if update_sites is not None:
 
                 def update_fun(saved_config, update_sites, occs):
-                    return saved_config.at[update_sites].set(occs)
+                    # Reverse order: for repeated sites the first entry is the actual update
+                    def scan_fun(carry, count):
+                        return (carry.at[update_sites[count]].set(occs[count]), None)
+
+                    return jax.lax.scan(
+                        scan_fun,
+                        saved_config,
+                        jnp.arange(update_sites.shape[0]),
+                        reverse=True,
+                    )[0]
 
                 indices_save.value = jax.vmap(
                     update_fun, in_axes=(0, 0, 0), out_axes=0
-- 
2.43.0


From 424b725d3950b7eb76420a4d683889e312dc239e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:07 +0000
Subject: [PATCH 07/59] fix: logarithm of vanishing Pfaffians

jnp.NINF no longer exists, and a zero pivot was still used as a divisor, so that
a vanishing Pfaffian of a 4x4 or larger matrix became nan instead of -inf.
---
 GPSKet/models/pfaffian.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 2b7b085..e1f889e 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -66,12 +66,10 @@ def log_pfaffian(mat):
         # sign picked up
         value += jnp.where(largest_index != 0, jnp.log(-1 + 0.0j), 0.0)
         # value update
-        value = jnp.where(
-            matrix[index + 1, index] != 0.0,
-            value + jnp.log(matrix[index, index + 1]),
-            jnp.NINF + 0.0j,
-        )
-        t = matrix[index, (index + 2) :] / matrix[index, index + 1]
+        non_singular = matrix[index + 1, index] != 0.0
+        pivot = jnp.where(non_singular, matrix[index, index + 1], 1.0)
+        value = jnp.where(non_singular, value + jnp.log(pivot), -jnp.inf + 0.0j)
+        t = matrix[index, (index + 2) :] / pivot
         matrix = matrix.at[index + 2 :, index + 2 :].add(
             jnp.outer(t, matrix[index + 2 :, index + 1])
         )
-- 
2.43.0


From 62bbd692bb766c6d97ed1e6d4a263371510a959c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:07 +0000
Subject: [PATCH 08/59] fix: general Pfaffian state summed its amplitudes over
 the batch

The output transformation reduces the last two axes; without the expanded
(zero-angle rotation) axis it also reduced the batch axis.
---
 GPSKet/models/pfaffian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index e1f889e..c738ba6 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -123,7 +123,7 @@ class PfaffianState(nn.Module):
         self.out_transformation has the same meaning for this state as for the ZeroMagnetizationPfaffian
         below.
         """
-        return self.out_transformation(out)
+        return self.out_transformation(jnp.expand_dims(out, axis=-2))
 
 
 """
-- 
2.43.0


From 22e18b451934d9b5d9290d4bb4546038a2b35a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:07 +0000
Subject: [PATCH 09/59] fix: backflow-Jastrow model passed orbitals and
 corrections in the wrong order

---
 GPSKet/models/backflow_jastrow.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index 731ac2d..e825c46 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -44,8 +44,8 @@ class BackflowJastrow(nn.Module):
         for d in range(n_determinants):
             y = Backflow(
                 self.hilbert,
-                self.orbitals[d],
-                self.correction_fun[d],
+                correction_fun=self.correction_fun[d],
+                orbitals=self.orbitals[d],
                 apply_symmetries=self.backflow_apply_symmetries,
                 spin_symmetry_by_structure=self.spin_symmetry_by_structure,
                 fixed_magnetization=self.fixed_magnetization,
-- 
2.43.0


From 77d19a82c499d4232602893e99ad69dfec8ae47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:10 +0000
Subject: [PATCH 10/59] fix: determinant coefficients of the antisymmetric qGPS
 act on the determinant axis

The coefficients of shape (M,) were broadcast against the trailing symmetry axis
instead of the determinant axis of the (B, M, S, T) determinants.
---
 GPSKet/models/asymm_qGPS.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 323ccbf..077afaa 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -56,7 +56,9 @@ class ASymmqGPS(nn.Module):
         if self.symmetrization == "kernel":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(
+                    y
+                )  # (B, M, S, T)
                 y = jnp.sum(y, axis=1)  # (B, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=(-2, -1)))  # (B,)
                 y = jnp.log(y)
@@ -65,7 +67,9 @@ class ASymmqGPS(nn.Module):
         elif self.symmetrization == "projective":
 
             def out_transformation(y):
-                y = jnp.asarray(self.coeffs) * jnp.exp(y)  # (B, M, S, T)
+                y = jnp.asarray(self.coeffs).reshape((-1, 1, 1)) * jnp.exp(
+                    y
+                )  # (B, M, S, T)
                 y = jnp.sinh(jnp.sum(y, axis=1))  # (B, S, T)
                 y = jnp.sum(y, axis=(-2, -1))  # (B,)
                 y = jnp.log(y)
-- 
2.43.0


From 443aa66aec08f7af1827b637f5c05e084bc68308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:10 +0000
Subject: [PATCH 11/59] fix: models advertised fast updates which they do not
 support

On-the-fly local energies and the fast Metropolis sampler query
apply_fast_update and then pass the fast-update arguments to the model. The
antisymmetric qGPS models now forward them to the determinants; the Jastrow
variants (without an incremental Jastrow factor) no longer advertise it.
---
 GPSKet/models/asymm_qGPS.py       | 12 ++++++++----
 GPSKet/models/backflow_jastrow.py |  2 +-
 GPSKet/models/slater_jastrow.py   |  2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/GPSKet/models/asymm_qGPS.py b/GPSKet/models/asymm_qGPS.py
index 077afaa..a7afd5f 100644
--- a/GPSKet/models/asymm_qGPS.py
+++ b/GPSKet/models/asymm_qGPS.py
@@ -47,7 +47,9 @@ class ASymmqGPS(nn.Module):
     """Whether fast update is used in the computation of the Slater determinants"""
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         assert self.n_determinants == self.coeffs.shape[0]
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
@@ -84,7 +86,7 @@ class ASymmqGPS(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
 
 
@@ -114,7 +116,9 @@ class ASymmqGPSProd(nn.Module):
         assert self.n_determinants % 2 != 0
 
     @nn.compact
-    def __call__(self, x: Array) -> Array:
+    def __call__(
+        self, x: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
         if len(x.shape) == 1:
             x = jnp.expand_dims(x, 0)
         x = jnp.asarray(x, jnp.int32)  # (B, L)
@@ -135,5 +139,5 @@ class ASymmqGPSProd(nn.Module):
             out_transformation=out_transformation,
             apply_fast_update=self.apply_fast_update,
             spin_symmetry_by_structure=self.spin_symmetry_by_structure,
-        )(x)
+        )(x, cache_intermediates=cache_intermediates, update_sites=update_sites)
         return log_psi
diff --git a/GPSKet/models/backflow_jastrow.py b/GPSKet/models/backflow_jastrow.py
index e825c46..e5f9184 100644
--- a/GPSKet/models/backflow_jastrow.py
+++ b/GPSKet/models/backflow_jastrow.py
@@ -28,7 +28,7 @@ class BackflowJastrow(nn.Module):
     """Function to apply symmetries to configurations in the Slater determinant"""
     jastrow_apply_symmetries: Callable = lambda inputs: jnp.expand_dims(inputs, axis=-1)
     """Function to apply symmetries to configurations in the Jastrow factor"""
-    apply_fast_update: bool = True
+    apply_fast_update: bool = False
     """Whether fast update is used in the computation of the Slater determinants"""
     spin_symmetry_by_structure: bool = True
     """Whether the α and β orbitals are the same or not"""
diff --git a/GPSKet/models/slater_jastrow.py b/GPSKet/models/slater_jastrow.py
index a577ff5..ec9d0d1 100644
--- a/GPSKet/models/slater_jastrow.py
+++ b/GPSKet/models/slater_jastrow.py
@@ -33,7 +33,7 @@ class SlaterJastrow(nn.Module):
         x, axis=(1, -1, -2)
     )
     """Final output transformation. Its input has shape (B, M, S, T)."""
-    apply_fast_update: bool = True
+    apply_fast_update: bool = False
     """Whether fast update is used in the computation of the Slater determinants"""
     spin_symmetry_by_structure: bool = True
     """Whether the α and β orbitals are the same or not"""
-- 
2.43.0


From 99ff593bcf4757c4c959606d8e3d12c217259220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:16 +0000
Subject: [PATCH 12/59] fix: on-the-fly Heisenberg operator could not be
 constructed

It derived from LocalOperator, whose constructor takes no graph, couplings or
sign rule.
---
 GPSKet/operator/hamiltonian/J1J2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index 6fe0adc..dabf0cb 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -10,7 +10,7 @@ from typing import Optional
 
 
 # dummy class used if the local energy should be evaluated on the fly (allowing for fast updating)
-class HeisenbergOnTheFly(nk.operator.LocalOperator):
+class HeisenbergOnTheFly(nk.operator.Heisenberg):
     pass
 
 
-- 
2.43.0


From c9b61b01dacf5b4bb3ea71655505d636fda54892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:16 +0000
Subject: [PATCH 13/59] fix: J1-J2 builder with a boolean sign rule and J2 != 0

netket requires one sign rule per coupling. Marshall's rule does not change the
sign of couplings within a sublattice.
---
 GPSKet/operator/hamiltonian/J1J2.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GPSKet/operator/hamiltonian/J1J2.py b/GPSKet/operator/hamiltonian/J1J2.py
index dabf0cb..26bb2ef 100644
--- a/GPSKet/operator/hamiltonian/J1J2.py
+++ b/GPSKet/operator/hamiltonian/J1J2.py
@@ -47,6 +47,9 @@ def get_J1_J2_Hamiltonian(
         classtype = nk.operator.Heisenberg
 
     if J2 != 0:
+        # Next-nearest neighbours belong to the same sublattice
+        if isinstance(sign_rule, bool):
+            sign_rule = (sign_rule, False)
         hamiltonian = classtype(hilbert, g, J=[J1 / 4, J2 / 4], sign_rule=sign_rule)
     else:
         hamiltonian = classtype(hilbert, g, J=J1 / 4, sign_rule=sign_rule)
-- 
2.43.0


From c73f2c3657cc9940aeeac43ff82d16f9d83586d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:07 +0000
Subject: [PATCH 14/59] fix: fast exchange sampler could not be constructed

The rule derived from a class which netket no longer provides.
---
 GPSKet/sampler/metropolis_fast.py            | 2 +-
 GPSKet/sampler/rules/exchange_with_update.py | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 06f8060..3d95593 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -113,6 +113,6 @@ def MetropolisFastExchange(
     if clusters is None:
         assert graph is not None
         clusters = compute_clusters(graph, d_max)
-    exchange_rule_with_updates = ExchangeRuleWithUpdate(jnp.array(clusters))
+    exchange_rule_with_updates = ExchangeRuleWithUpdate(clusters=jnp.array(clusters))
 
     return MetropolisFastSampler(hilbert, exchange_rule_with_updates, *args, **kwargs)
diff --git a/GPSKet/sampler/rules/exchange_with_update.py b/GPSKet/sampler/rules/exchange_with_update.py
index 8dbdf5f..91dbd55 100644
--- a/GPSKet/sampler/rules/exchange_with_update.py
+++ b/GPSKet/sampler/rules/exchange_with_update.py
@@ -1,16 +1,14 @@
 import jax
 import jax.numpy as jnp
-from flax import struct
-from netket.sampler.rules.exchange import ExchangeRule_
+from netket.sampler.rules.exchange import ExchangeRule
 
 
-@struct.dataclass
-class ExchangeRuleWithUpdate(ExchangeRule_):
+class ExchangeRuleWithUpdate(ExchangeRule):
     """
     Exchange Update rule which also returns the list of affected sites which is required for the fast metropolis sampler
     """
 
-    returns_updates: bool = True
+    returns_updates = True
 
     def transition(rule, sampler, machine, parameters, state, key, σ):
         n_chains = σ.shape[0]
-- 
2.43.0


From 422d8b7633c340b6291f04d2ca76675ce804ec0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 15/59] fix: hermiticity of the exclusion process with unequal
 boundary rates

The generator is symmetric if the rates of every process and of its reverse
agree, the sum of the boundary rates does not imply this.
---
 GPSKet/operator/hamiltonian/asep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/operator/hamiltonian/asep.py b/GPSKet/operator/hamiltonian/asep.py
index 469064a..a9ed632 100644
--- a/GPSKet/operator/hamiltonian/asep.py
+++ b/GPSKet/operator/hamiltonian/asep.py
@@ -35,7 +35,7 @@ class AsymmetricSimpleExclusionProcess(DiscreteOperator):
     @property
     def is_hermitian(self) -> bool:
         flag = False
-        params_equal = np.sum([self.alpha, self.beta, self.gamma, self.delta]) == 2.0
+        params_equal = self.alpha == self.gamma and self.beta == self.delta
         if self.lambd == 0.0 and params_equal and self.p == self.q:
             flag = True
         return flag
-- 
2.43.0


From 93d12afbcf028aa737647910b11f6cec9ba5a7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 16/59] fix: spin projection with negative characters returned
 nan

---
 GPSKet/models/pfaffian.py | 2 +-
 GPSKet/models/slater.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index c738ba6..9ce5e90 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -182,6 +182,6 @@ class ZeroMagnetizationPfaffian(PfaffianState):
         vals = jax.vmap(evaluate_pfaff_rotations, out_axes=-2)(
             jnp.array(self.S2_projection[0])
         )
-        vals += jnp.log(jnp.asarray(self.S2_projection[1])).reshape((-1, 1))
+        vals += jnp.log(jnp.asarray(self.S2_projection[1]) + 0j).reshape((-1, 1))
 
         return self.out_transformation(vals)
diff --git a/GPSKet/models/slater.py b/GPSKet/models/slater.py
index a05d9d2..874cc44 100644
--- a/GPSKet/models/slater.py
+++ b/GPSKet/models/slater.py
@@ -685,7 +685,7 @@ class Slater(nn.Module):
 
         # Multiply with the prefactors from the symmetry projection
         if self.S2_projection is not None:
-            log_det_values += jnp.log(jnp.asarray(self.S2_projection[1])).reshape(
+            log_det_values += jnp.log(jnp.asarray(self.S2_projection[1]) + 0j).reshape(
                 (-1, 1)
             )
 
-- 
2.43.0


From 74b2628f9fd7939314a39aeeac342047172fd7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:32 +0000
Subject: [PATCH 17/59] fix: fast updates of the modulus-phase autoregressive
 qGPS

The model inherits apply_fast_update but did not accept the arguments.
---
 GPSKet/models/autoreg_qGPS_full.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index b4928c5..638032b 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -436,7 +436,13 @@ class ARqGPSModPhaseFull(ARqGPSFull):
             self.hilbert, self.hilbert.size, dtype=jnp.float64, init_fun=self.init_fun
         )
 
-    def __call__(self, inputs: Array) -> Array:
-        log_psi_mod = super().__call__(inputs)
-        log_psi_phase = self._qgps(inputs)
+    def __call__(
+        self, inputs: Array, cache_intermediates=False, update_sites=None
+    ) -> Array:
+        log_psi_mod = super().__call__(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
+        log_psi_phase = self._qgps(
+            inputs, cache_intermediates=cache_intermediates, update_sites=update_sites
+        )
         return log_psi_mod + log_psi_phase * 1j
-- 
2.43.0


From a3f132e284b72f7115f197da269851aebe894e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:24 +0000
Subject: [PATCH 18/59] fix: quantum geometric tensor of unique samples ignored
 the sample counts

netket's jacobian scales its rows by the square root of the weights only on
request, without it every unique sample contributed with weight one.
---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 13d4909..492e34f 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -71,6 +71,7 @@ def QGTJacobianDenseUniqueSamples(
         pdf=counts,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From 9b445d430b93de0634f2f20fdd8f07704411c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:24 +0000
Subject: [PATCH 19/59] fix: dense geometric tensor with RMSProp shift

The default mode could not be determined, and the Jacobian was not weighted with
the sample probabilities so that the result grew with the number of samples.
---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
index 62c0124..4a31756 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py
@@ -58,7 +58,6 @@ def QGTJacobianDenseRMSProp(
             vstate.parameters,
             vstate.model_state,
             samples,
-            mode=mode,
             holomorphic=holomorphic,
         )
 
@@ -84,6 +83,7 @@ def QGTJacobianDenseRMSProp(
         chunk_size=chunk_size,
         dense=True,
         center=True,
+        _sqrt_rescale=True,
     )
 
     pars_struct = jax.tree_util.tree_map(
-- 
2.43.0


From e8cc88b14faefcf8e5531173b9c76f3788bdeac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:24 +0000
Subject: [PATCH 20/59] fix: minSR paired local energies with the wrong samples
 for several chains

---
 GPSKet/driver/minSR.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index 3606ab3..d35ca64 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -60,7 +60,7 @@ class minSRVMC(VMC):
         counts = counts.reshape((-1,))
 
         # Compute local energies and center them
-        loc_ens = self.state.local_estimators(self._ham).T.reshape(-1)
+        loc_ens = self.state.local_estimators(self._ham).reshape(-1)
         self._loss_stats = _statistics(loc_ens, counts)
         loc_ens_centered = (loc_ens - self._loss_stats.mean) * jnp.sqrt(counts)
 
-- 
2.43.0


From c5437747b3a33337d84384d82d6048951c79ba18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:09 +0000
Subject: [PATCH 21/59] fix: minSR updates with netket's unscaled Jacobians and
 non-uniform counts

The rows of the Jacobian are no longer scaled with the sample weights by netket,
which left the kernel and the update inconsistent with the (scaled) local
energies. The centring now also holds for non-uniform sample counts.
---
 GPSKet/driver/minSR.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/GPSKet/driver/minSR.py b/GPSKet/driver/minSR.py
index d35ca64..7af1ba1 100644
--- a/GPSKet/driver/minSR.py
+++ b/GPSKet/driver/minSR.py
@@ -105,9 +105,9 @@ class minSRVMC(VMC):
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
             if loss_grad is None:
-                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]))
+                loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i] * jnp.sqrt(counts_i)))
             else:
-                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i]), token=token)
+                _loss_grad, token = mpi.mpi_sum_jax(jnp.dot(O_i.T, loc_ens_centered[i] * jnp.sqrt(counts_i)), token=token)
                 loss_grad += _loss_grad
 
             if O_avg is None:
@@ -135,12 +135,11 @@ class minSRVMC(VMC):
                 dense=True,
                 center=False,
             )
+            if len(O_i.shape) == 3:
+                O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, jnp.newaxis]
             O_i, token = mpi.mpi_gather_jax(O_i, token=token)
             O_i = O_i.reshape((-1, *O_i.shape[2:]))
-            if mpi.rank == 0:
-                if len(O_i.shape) == 3:
-                    O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
-                O_i = O_i - O_avg
             for j in range(n_chunks):
                 idx_j = (
                     idx[j]
@@ -159,12 +158,12 @@ class minSRVMC(VMC):
                     dense=True,
                     center=False,
                 )
+                if len(O_j.shape) == 3:
+                    O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
+                O_j = (O_j - O_avg) * jnp.sqrt(counts[j])[:, jnp.newaxis]
                 O_j, token = mpi.mpi_gather_jax(O_j, token=token)
                 O_j = O_j.reshape((-1, *O_j.shape[2:]))
                 if mpi.rank == 0:
-                    if len(O_j.shape) == 3:
-                        O_j = O_j[:, 0, :] + 1.0j * O_j[:, 1, :]
-                    O_j = O_j - O_avg
                     ii, jj = np.meshgrid(idx_i, idx_j, indexing="ij")
                     OO = OO.at[ii, jj].set(O_i.dot(O_j.conj().T))
 
@@ -203,7 +202,7 @@ class minSRVMC(VMC):
             if len(O_i.shape) == 3:
                 O_i = O_i[:, 0, :] + 1.0j * O_i[:, 1, :]
 
-            O_i = O_i - O_avg
+            O_i = (O_i - O_avg) * jnp.sqrt(counts[i])[:, jnp.newaxis]
 
             if dense_update is None:
                 dense_update = mpi.mpi_sum_jax(O_i.conj().T.dot(OO_epsilon[i]))[0]
-- 
2.43.0


From b4d3ad620899d4c458f3a417724bae74a282ffad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:05 +0000
Subject: [PATCH 22/59] fix: dense SR preconditioner could not be constructed
 or called

netket's preconditioners declare their attributes, and solvers act on the
operator and the gradient.
---
 GPSKet/optimizer/sr_dense.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/GPSKet/optimizer/sr_dense.py b/GPSKet/optimizer/sr_dense.py
index d8ceaa0..3bfdf7a 100644
--- a/GPSKet/optimizer/sr_dense.py
+++ b/GPSKet/optimizer/sr_dense.py
@@ -1,8 +1,8 @@
 import jax
 import jax.numpy as jnp
 import netket.jax as nkjax
-from dataclasses import dataclass
 from typing import Callable, Optional, Any
+from netket.utils import struct
 from netket.utils.types import PyTree, Scalar, ScalarOrSchedule
 from netket.vqs import VariationalState
 from netket.optimizer.preconditioner import AbstractLinearPreconditioner
@@ -10,8 +10,9 @@ from netket.optimizer.qgt import QGTJacobianDense
 from .solvers import pinv
 
 
-@dataclass
-class SRDense(AbstractLinearPreconditioner):
+class SRDense(AbstractLinearPreconditioner, mutable=True):
+    qgt_constructor: Callable = struct.static_field(default=None)
+
     def __init__(self, qgt: QGTJacobianDense, solver: Callable = pinv):
         self.qgt_constructor = qgt
         super().__init__(solver)
@@ -22,15 +23,10 @@ class SRDense(AbstractLinearPreconditioner):
     def __call__(
         self, vstate: VariationalState, gradient: PyTree, step: Optional[Scalar] = None
     ) -> PyTree:
-        # Ravel gradient
-        gradient, unravel_fun = nkjax.tree_ravel(gradient)
-
         # Compute S matrix
         self._lhs = self.lhs_constructor(vstate, step)
-        S = self._lhs.to_dense()
 
         # Solve system
-        x0 = self.solver(S, gradient)
-        self.x0 = unravel_fun(x0)
+        self.x0, self.info = self.solver(self._lhs, gradient)
 
         return self.x0
-- 
2.43.0


From d3e9d93c23d20493b15a511d1a80f0465cd8d05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:05 +0000
Subject: [PATCH 23/59] fix: geometric tensor of unique samples without an
 explicit diagonal shift

---
 GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
index 492e34f..8110760 100644
--- a/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
+++ b/GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py
@@ -30,7 +30,7 @@ def QGTJacobianDenseUniqueSamples(
     *,
     mode: str = None,
     holomorphic: bool = None,
-    diag_shift=None,
+    diag_shift=0.0,
     diag_scale=None,
     **kwargs
 ) -> "QGTJacobianDenseT":
-- 
2.43.0


From f4bfb903820752c23ef4eb0adffc724fc79f10e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:04 +0000
Subject: [PATCH 24/59] fix: gradients of the unique-samples state ignored the
 sample counts

netket's expect_and_grad no longer takes use_covariance as a positional argument,
so that the specialised implementation was never called.
---
 GPSKet/vqs/mc/mc_state/state_unique_samples.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_unique_samples.py b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
index da02888..801d707 100644
--- a/GPSKet/vqs/mc/mc_state/state_unique_samples.py
+++ b/GPSKet/vqs/mc/mc_state/state_unique_samples.py
@@ -1,7 +1,7 @@
 import netket as nk
 import netket.jax as nkjax
 import jax.numpy as jnp
-from typing import Tuple, Optional, Callable, Literal, Any
+from typing import Tuple, Optional, Callable, Any
 from collections import defaultdict
 import numpy as np
 
@@ -127,11 +127,14 @@ class MCStateUniqueSamples(nk.vqs.MCState):
 def expect_and_grad(
     vstate: MCStateUniqueSamples,
     op: nk.operator.AbstractOperator,
-    use_covariance: Literal[True],
     chunk_size: Optional[int],
     *,
-    mutable: Any
+    mutable: Any = False,
+    use_covariance: Optional[bool] = None
 ):
+    if use_covariance is None:
+        use_covariance = op.is_hermitian
+    assert use_covariance
     _, args = get_local_kernel_arguments(vstate, op)
     samples_and_counts = vstate.samples_with_counts
     if chunk_size is not None:
-- 
2.43.0


From 1a82a2b8950ac32874f082c9c135f44119378de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:53:22 +0000
Subject: [PATCH 25/59] fix: stratified-sampling state with netket's current
 sampler interface

The sweep length is called sweep_size and samplers and their states are netket
pytrees, which dataclasses.replace does not accept.
---
 GPSKet/vqs/mc/mc_state/state_stratified_sampling.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
index 0c8a089..64b2ff9 100644
--- a/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
+++ b/GPSKet/vqs/mc/mc_state/state_stratified_sampling.py
@@ -17,8 +17,6 @@ from netket.utils.mpi import (
 
 from typing import Tuple
 
-from dataclasses import replace
-
 """ Implements a state with stratified sampling, splitting the evaluation of expectation values
 into a determinisitic evaluation over a fixed set, and a sampled estimate over the complement.
 At the moment this is only an implementation for quick testing which is very slow.
@@ -38,9 +36,9 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
     ):
         super().__init__(*args, **kwargs)
 
-        self.n_sweeps = self.sampler.n_sweeps
+        self.n_sweeps = self.sampler.sweep_size
 
-        self.sampler = replace(self.sampler, n_sweeps=1)
+        self.sampler = self.sampler.replace(sweep_size=1)
 
         self.deterministic_samples = jnp.array_split(deterministic_samples, _n_nodes)[
             _rank
@@ -73,7 +71,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             self.current_sample.append(samp)
             key = jax.random.split(key)[0]
         self.current_sample = jnp.array(np.array(self.current_sample))
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
         if not self.rand_norm:
             assert number_random_samples is None
@@ -103,7 +101,7 @@ class MCStateStratifiedSampling(MCStateUniqueSamples):
             np.expand_dims(valid, -1), self.current_sample, old_sample
         )
 
-        self.sampler_state = replace(self.sampler_state, σ=self.current_sample)
+        self.sampler_state = self.sampler_state.replace(σ=self.current_sample)
 
     @property
     def samples_with_counts(self) -> Tuple[jnp.ndarray, jnp.ndarray]:
-- 
2.43.0


From 17ea75fc16eb86fd511ebc242b7a842a3a969245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:14 +0000
Subject: [PATCH 26/59] fix: Hubbard local energies outside of a jitted kernel

The edges are indexed with traced indices, which numpy arrays do not support
(e.g. in the imaginary-time evolved model).
---
 GPSKet/operator/hamiltonian/hubbard.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/hubbard.py b/GPSKet/operator/hamiltonian/hubbard.py
index 3391860..dc11136 100644
--- a/GPSKet/operator/hamiltonian/hubbard.py
+++ b/GPSKet/operator/hamiltonian/hubbard.py
@@ -204,9 +204,9 @@ def local_en_on_the_fly(
 @nk.vqs.get_local_kernel_arguments.dispatch
 def get_local_kernel_arguments(vstate: nk.vqs.MCState, op: FermiHubbardOnTheFly):
     samples = vstate.samples
-    edges = op.edges
+    edges = jnp.array(op.edges)
     U = op.U
-    t = op.t
+    t = jnp.array(op.t)
     return (samples, (edges, U, t))
 
 
-- 
2.43.0


From 4fb8f10a557dd830729f75874437c40125450b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:14 +0000
Subject: [PATCH 27/59] fix: interrupted dataset generation left an unusable
 cache behind

The existence of one file decides whether the pair of files is read, but it was
written first and not atomically.
---
 GPSKet/datasets/h2o.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 391c9e0..7b984f7 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -8,6 +8,14 @@ from pyscf import scf, gto, ao2mo, fci, ci, lo
 _DATA = "/tmp/GPSKet_data/"
 
 
+def _save(path, array):
+    # Do not leave a partially written file behind if the process is interrupted
+    tmp_path = f"{path}.{os.getpid()}.tmp"
+    with open(tmp_path, "wb") as f:
+        np.save(f, array)
+    os.replace(tmp_path, path)
+
+
 def _H2O_raw(basis, method, datapath):
     mol = gto.Mole()
 
@@ -55,8 +63,9 @@ def _H2O_raw(basis, method, datapath):
         # Find the hamiltonian in the local basis
         h1 = np.linalg.multi_dot((loc_coeff.T, myhf.get_hcore(), loc_coeff))
         h2 = ao2mo.restore(1, ao2mo.kernel(mol, loc_coeff), norb)
-        np.save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
-        np.save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
+        # The file which is checked above is written last
+        _save(os.path.join(datapath, f"h2_{dsid}.npy"), h2)
+        _save(os.path.join(datapath, f"h1_{dsid}.npy"), h1)
     else:
         h1 = np.load(os.path.join(datapath, f"h1_{dsid}.npy"))
         h2 = np.load(os.path.join(datapath, f"h2_{dsid}.npy"))
@@ -98,12 +107,11 @@ def _H2O_raw(basis, method, datapath):
                 amps.append(c[i, j])
         all_configurations = np.array(configs)
         all_amplitudes = np.array(amps)
-        np.save(
+        # The file which is checked above is written last
+        _save(os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy"), all_amplitudes)
+        _save(
             os.path.join(datapath, f"all_configs_H2O_{dsid}.npy"), all_configurations
         )
-        np.save(
-            os.path.join(datapath, f"all_amplitudes_H2O_{dsid}.npy"), all_amplitudes
-        )
     else:
         all_configurations = np.load(
             os.path.join(datapath, f"all_configs_H2O_{dsid}.npy")
-- 
2.43.0


From e1223e185fb8bca4a3a8f4bb23a893076491aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:45 +0000
Subject: [PATCH 28/59] fix: nested imaginary-time steps

The propagation time of the inner step replaced the one of the outer step, and
was then missing for the inner one.
---
 GPSKet/supervised/imag_time_step.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/imag_time_step.py b/GPSKet/supervised/imag_time_step.py
index 810a829..704414b 100644
--- a/GPSKet/supervised/imag_time_step.py
+++ b/GPSKet/supervised/imag_time_step.py
@@ -60,7 +60,11 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
         local_estimator_fun = get_local_kernel(vstate, hamiltonian, vstate.chunk_size)
 
     def imag_time_model_log_amp(model_pars, samples):
-        pars, tau = freeze(model_pars).pop("tau")
+        pars, taus = freeze(model_pars).pop("tau")
+        # The propagation times of all nested time steps (outermost last)
+        tau = taus[-1]
+        if len(taus) > 1:
+            pars = pars.copy({"tau": taus[:-1]})
         samps = samples.reshape((-1, samples.shape[-1]))
         loc_ens = local_estimator_fun(log_model, pars, samps, args)
         log_amps = log_model(pars, samps)
@@ -69,5 +73,6 @@ def get_imag_time_step_vstate(tau, hamiltonian, vstate):
     new_vstate = copy.deepcopy(vstate)
     new_vstate._apply_fun = imag_time_model_log_amp
     new_vstate._model = wrap_afun(imag_time_model_log_amp)
-    new_vstate.model_state = {"tau": tau, **new_vstate.model_state}
+    taus = (*new_vstate.model_state.get("tau", ()), tau)
+    new_vstate.model_state = {**new_vstate.model_state, "tau": taus}
     return new_vstate
-- 
2.43.0


From eb66c2d72b2f50600e0bf7317016edbeacd85134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 29/59] fix: growing relevance vector machine with numpy 2

np.NINF and np.PINF have been removed.
---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 85bcbe4..34ca163 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -989,7 +989,7 @@ class QGPSLearningExp(QGPSLearning):
         )
 
         deltaL[delete] = abs(Qdel) ** 2 / (Sdel - Adel) - np.log(1 - Sdel / Adel)
-        deltaL = np.nan_to_num(deltaL, nan=np.NINF, posinf=np.NINF, neginf=np.NINF)
+        deltaL = np.nan_to_num(deltaL, nan=-np.inf, posinf=-np.inf, neginf=-np.inf)
 
         # find feature which caused largest change in likelihood
 
@@ -1009,7 +1009,7 @@ class QGPSLearningExp(QGPSLearning):
                 self.active_elements[feature_index] == True
                 and np.sum(self.active_elements) >= 2
             ):
-                alpha[feature_index] = np.PINF
+                alpha[feature_index] = np.inf
         self.alpha_mat_ref_sites = alpha
 
         return
-- 
2.43.0


From 0017d4d64857ae987639abb83c8b752f6efba456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 30/59] fix: supervised learning cached the caller's arrays

The cached site products were considered up to date if the caller reused the
array with the configurations or reference sites for the next batch.
---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 34ca163..25df1a5 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -100,7 +100,7 @@ class QGPSLearning:
                 self.epsilon.shape[1], dtype=int
             )
         else:
-            self._ref_sites = ref_sites_or_site
+            self._ref_sites = np.array(ref_sites_or_site)
         self._ref_sites_incr_dim = np.tile(
             self._ref_sites, (self.epsilon.shape[0], 1)
         ).T.flatten()
@@ -226,7 +226,7 @@ class QGPSLearning:
                 recompute_site_prod = True
 
             if recompute_site_prod:
-                self.confs = confs
+                self.confs = np.array(confs)
                 self.compute_site_prod()
                 self.K_per_sym = None
 
-- 
2.43.0


From d0dced9104fe0cc70a0d9ae42e8cdb7c8e782408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 31/59] fix: growing relevance vector machine with a prior mean

The weights are fitted relative to the prior mean.
---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 25df1a5..28d273b 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1061,7 +1061,7 @@ class QGPSLearningExp(QGPSLearning):
             self.setup_fit_alpha_dep()
 
         if not self.precomputed_features:
-            self.update_epsilon_with_weights()
+            self.update_epsilon_with_weights(prior_mean=prior_mean)
 
         return
 
-- 
2.43.0


From 9b0773550369b740e9dcd42e4b69cf6affc39967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 32/59] fix: noise optimisation did not start from the initial
 precisions

The property returns a copy, copying into it had no effect.
---
 GPSKet/supervised/supervised_qgps.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 28d273b..5c2b1ec 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -823,7 +823,7 @@ class QGPSLearningExp(QGPSLearning):
             def ML(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -832,7 +832,7 @@ class QGPSLearningExp(QGPSLearning):
             def derivative(x):
                 self.noise_tilde = np.exp(x[0])
                 if opt_alpha:
-                    np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                    self.alpha_mat_ref_sites = alpha_init.copy()
                 self.setup_fit_noise_dep(weightings=weightings)
                 if opt_alpha:
                     self.opt_alpha_beta(max_iterations=max_alpha_iterations, rvm=rvm)
@@ -865,7 +865,7 @@ class QGPSLearningExp(QGPSLearning):
 
             self.noise_tilde = np.exp(opt.x)[0]
             if opt_alpha:
-                np.copyto(self.alpha_mat_ref_sites, alpha_init)
+                self.alpha_mat_ref_sites = alpha_init.copy()
             self.setup_fit_noise_dep(weightings=weightings)
 
         if opt_alpha:
-- 
2.43.0


From 778ec89dcb1d2047b33ffd825efb9a1c6804069d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 33/59] fix: generalised linear model never applied its Newton
 step

The step was written to a copy, and a second evaluation cleared the weights it
starts from.
---
 GPSKet/supervised/supervised_qgps.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 5c2b1ec..8229fad 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1341,7 +1341,7 @@ class QGPSGenLinMod(QGPSLearningExp):
 
         if self.precomputed_features:
             assert self.weights is not None
-            weights = self.weights
+            weights = self.weights.copy()
         else:
             if self.weights is None:
                 weights = (
@@ -1352,7 +1352,7 @@ class QGPSGenLinMod(QGPSLearningExp):
                 if self.complex_expand and self.epsilon.dtype == complex:
                     weights = np.concatenate((weights.real, weights.imag))
             else:
-                weights = self.weights
+                weights = self.weights.copy()
 
         if self.complex_expand and self.epsilon.dtype == complex:
             K = np.hstack((self.K, 1.0j * self.K))
@@ -1537,10 +1537,7 @@ class QGPSGenLinMod(QGPSLearningExp):
             else:
                 gamma = 1.0
             if self.cholesky:
-                np.copyto(
-                    weights[self.active_elements],
-                    weights[self.active_elements] + gamma * update_directions,
-                )
+                weights[self.active_elements] += gamma * update_directions
             else:
                 if _rank == 0:
                     print("Cholesky fail")
-- 
2.43.0


From ea016f095df57470e993caf4d74a0af56ffda552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:39 +0000
Subject: [PATCH 34/59] fix: generalised linear model changed the caller's
 weightings

---
 GPSKet/supervised/supervised_qgps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 8229fad..f165a3f 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1316,7 +1316,7 @@ class QGPSGenLinMod(QGPSLearningExp):
         if weightings is None:
             self.weightings = np.ones(len(self.exp_amps))
         else:
-            self.weightings = weightings
+            self.weightings = weightings.copy()
         self.weightings *= abs(prefactor) ** 2
         self.N_data = _mpi_sum(np.sum(self.weightings))
         if self.noise_tilde != 0.0:
-- 
2.43.0


From 6e820dddc51007ea368c977b43b8d75287fe59f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:27 +0000
Subject: [PATCH 35/59] fix: local energies of ab initio Hamiltonians without
 electrons or holes of one spin

---
 GPSKet/operator/hamiltonian/ab_initio.py      | 48 +++++++++++--------
 .../operator/hamiltonian/ab_initio_sparse.py  | 29 ++++++-----
 2 files changed, 47 insertions(+), 30 deletions(-)

diff --git a/GPSKet/operator/hamiltonian/ab_initio.py b/GPSKet/operator/hamiltonian/ab_initio.py
index 1e6fd40..b257706 100644
--- a/GPSKet/operator/hamiltonian/ab_initio.py
+++ b/GPSKet/operator/hamiltonian/ab_initio.py
@@ -240,6 +240,16 @@ def get_parity_multiplicator_hop(update_sites, cummulative_el_count):
     return jnp.int32(1) - 2 * (parity_count & 1)
 
 
+""" The body of a loop without iterations is not traced, it might index into empty arrays
+(e.g. if there are no electrons or no holes with a particular spin)."""
+
+
+def fori_loop(lower, upper, body_fun, init_val):
+    if upper <= lower:
+        return init_val
+    return jax.lax.fori_loop(lower, upper, body_fun, init_val)
+
+
 """
 If the flag return_local_RDMs is set to true, this function also returns objects resembling the 1-RDMS and 2-RDMS for the samples.
 In particular, two t_RDM and eri_RDM are evaluated for each sample which describe the linear dependency
@@ -315,9 +325,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(1)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -328,9 +338,9 @@ def local_en_on_the_fly(
                         up_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_occ_inds), inner_update, val)
+                return fori_loop(0, len(up_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -341,9 +351,9 @@ def local_en_on_the_fly(
                         up_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(up_unocc_inds), inner_update, val)
+                return fori_loop(0, len(up_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(up_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -354,9 +364,9 @@ def local_en_on_the_fly(
                         down_occ_inds[innercount],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_occ_inds), inner_update, val)
+                return fori_loop(0, len(down_occ_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
 
             def update_eri(count, val):
                 def inner_update(innercount, innerval):
@@ -367,9 +377,9 @@ def local_en_on_the_fly(
                         down_occ_inds[count],
                     ].add(0.5)
 
-                return jax.lax.fori_loop(0, len(down_unocc_inds), inner_update, val)
+                return fori_loop(0, len(down_unocc_inds), inner_update, val)
 
-            eri_RDM = jax.lax.fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
+            eri_RDM = fori_loop(0, len(down_occ_inds), update_eri, eri_RDM)
 
         # The following part evaluates the contributions from the connected configurations.
 
@@ -692,16 +702,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop(
                 0, len(up_unocc_inds), two_body_up_up_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop(
                 0, len(up_occ_inds), two_body_up_up_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop(
                 0, len(up_occ_inds), two_body_up_up_occ, local_en
             )
 
@@ -810,16 +820,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop(
                 0, len(down_unocc_inds), two_body_down_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop(
                 0, len(down_occ_inds), two_body_down_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop(
                 0, len(down_occ_inds), two_body_down_down_occ, local_en
             )
 
@@ -936,16 +946,16 @@ def local_en_on_the_fly(
                         * inner_loops
                     )
 
-            return jax.lax.fori_loop(
+            return fori_loop(
                 0, len(up_unocc_inds), two_body_up_down_unocc, val_outer
             )
 
         if return_local_RDMs:
-            local_en, eri_RDM = jax.lax.fori_loop(
+            local_en, eri_RDM = fori_loop(
                 0, len(up_occ_inds), two_body_up_down_occ, (local_en, eri_RDM)
             )
         else:
-            local_en = jax.lax.fori_loop(
+            local_en = fori_loop(
                 0, len(up_occ_inds), two_body_up_down_occ, local_en
             )
 
diff --git a/GPSKet/operator/hamiltonian/ab_initio_sparse.py b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
index bba7ac5..04555c6 100644
--- a/GPSKet/operator/hamiltonian/ab_initio_sparse.py
+++ b/GPSKet/operator/hamiltonian/ab_initio_sparse.py
@@ -297,9 +297,12 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_up_occ)(jnp.triu_indices(up_occ_inds.shape[0], k=1))
-        )
+        if n_elecs[0] > 1:
+            local_en += jnp.sum(
+                jax.vmap(two_body_up_up_occ)(
+                    jnp.triu_indices(up_occ_inds.shape[0], k=1)
+                )
+            )
 
         def two_body_down_down_occ(inds):
             i = down_occ_inds[inds[0]]
@@ -351,11 +354,12 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        local_en += jnp.sum(
-            jax.vmap(two_body_down_down_occ)(
-                jnp.triu_indices(down_occ_inds.shape[0], k=1)
+        if n_elecs[1] > 1:
+            local_en += jnp.sum(
+                jax.vmap(two_body_down_down_occ)(
+                    jnp.triu_indices(down_occ_inds.shape[0], k=1)
+                )
             )
-        )
 
         def two_body_up_down_occ(inds):
             i = up_occ_inds[inds[0]]
@@ -403,10 +407,13 @@ def local_en_on_the_fly(
                 jnp.array(0, dtype=log_amp.dtype),
             )
 
-        row_inds, col_inds = jnp.indices((up_occ_inds.shape[0], down_occ_inds.shape[0]))
-        local_en += jnp.sum(
-            jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
-        )
+        if n_elecs[0] > 0 and n_elecs[1] > 0:
+            row_inds, col_inds = jnp.indices(
+                (up_occ_inds.shape[0], down_occ_inds.shape[0])
+            )
+            local_en += jnp.sum(
+                jax.vmap(two_body_up_down_occ)((row_inds.flatten(), col_inds.flatten()))
+            )
 
         return local_en
 
-- 
2.43.0


From 544d685938e5c5e9b4ec76f7ec3b9887a30d1339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:19 +0000
Subject: [PATCH 36/59] fix: Pfaffians of real matrices could not be
 differentiated

---
 GPSKet/models/pfaffian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/pfaffian.py b/GPSKet/models/pfaffian.py
index 9ce5e90..6a8f2db 100644
--- a/GPSKet/models/pfaffian.py
+++ b/GPSKet/models/pfaffian.py
@@ -82,7 +82,9 @@ def log_pfaffian(mat):
 @log_pfaffian.defjvp
 def log_pfaffian_jvp(primals, tangents):
     derivative = 0.5 * jnp.linalg.inv(primals[0]).T
-    return (log_pfaffian(primals[0]), derivative.flatten().dot(tangents[0].flatten()))
+    value = log_pfaffian(primals[0])
+    tangent = derivative.flatten().dot(tangents[0].flatten())
+    return (value, tangent.astype(value.dtype))
 
 
 """
-- 
2.43.0


From c8b48966f34009b6a02745077dc47c689aca73dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:53 +0000
Subject: [PATCH 37/59] fix: autoregressive models constrained the
 magnetization of small unconstrained spaces

---
 GPSKet/models/autoreg_plaquetteqGPS.py | 2 +-
 GPSKet/models/autoreg_qGPS.py          | 4 ++--
 GPSKet/models/autoreg_qGPS_full.py     | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/GPSKet/models/autoreg_plaquetteqGPS.py b/GPSKet/models/autoreg_plaquetteqGPS.py
index 05719d3..5ed4cde 100644
--- a/GPSKet/models/autoreg_plaquetteqGPS.py
+++ b/GPSKet/models/autoreg_plaquetteqGPS.py
@@ -172,7 +172,7 @@ def _compute_conditional(
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
     log_psi = gpu_cond(
-        index >= 0,
+        (index >= 0) & hilbert.constrained,
         lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
         lambda log_psi: log_psi,
         log_psi,
diff --git a/GPSKet/models/autoreg_qGPS.py b/GPSKet/models/autoreg_qGPS.py
index 01887f2..c4ced76 100644
--- a/GPSKet/models/autoreg_qGPS.py
+++ b/GPSKet/models/autoreg_qGPS.py
@@ -13,7 +13,7 @@ from GPSKet.models import qGPS
 
 def gpu_cond(pred, true_func, false_func, args):
     return jax.tree_util.tree_map(
-        lambda x, y: pred * x + (1 - pred) * y, true_func(args), false_func(args)
+        lambda x, y: jnp.where(pred, x, y), true_func(args), false_func(args)
     )
 
 
@@ -271,7 +271,7 @@ def _compute_conditional(
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
     log_psi = gpu_cond(
-        index >= 0,
+        (index >= 0) & hilbert.constrained,
         lambda log_psi: log_psi + renormalize_log_psi(n_spins, hilbert, index),
         lambda log_psi: log_psi,
         log_psi,
diff --git a/GPSKet/models/autoreg_qGPS_full.py b/GPSKet/models/autoreg_qGPS_full.py
index 638032b..570d9ff 100644
--- a/GPSKet/models/autoreg_qGPS_full.py
+++ b/GPSKet/models/autoreg_qGPS_full.py
@@ -334,7 +334,7 @@ def _compute_conditional(
     # n_spins is >= L/2 the probability of up/down spin at index should be 0,
     # i.e. the log probability becomes -inf
     log_psi = gpu_cond(
-        index >= 0,
+        (index >= 0) & model.hilbert.constrained,
         lambda log_psi: log_psi
         + model.renormalize_log_psi(n_spins, model.hilbert, index),
         lambda log_psi: log_psi,
-- 
2.43.0


From 6e27f5a5018a48dd7d2cb62573882e9e98dbabff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:25 +0000
Subject: [PATCH 38/59] fix: CPD backflow fast updates with repeated sites

---
 GPSKet/models/cpd_backflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 8bf41b1..40ecfbd 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -149,6 +149,7 @@ class CPDBackflow(nn.Module):
             )
         # Update configurations if fast-updating is in use
         if update_sites is not None:
+            occ_new = n
             def update_fun(saved_config, update_sites, occs):
                 def scan_fun(carry, count):
                     return (carry.at[update_sites[count]].set(occs[count]), None)
@@ -179,7 +180,6 @@ class CPDBackflow(nn.Module):
         # Compute orbitals and log-determinant
         if update_sites is not None:
             site_products_old = saved_site_products.value
-            occ_new = jax.vmap(jnp.take, in_axes=(0, 0))(n, update_sites)
             occ_old = jax.vmap(jnp.take, in_axes=(0, 0))(saved_configs.value, update_sites)
             orbitals, site_products = CPD_with_cache_batched(
                 self._epsilon, site_products_old, occ_new, occ_old, update_sites) # (B, L, N), (B, L, N, M)
-- 
2.43.0


From b379e07573df09ab0aecdf16e11a3e36fe290d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:46 +0000
Subject: [PATCH 39/59] fix: causal convolutions with even kernel sizes

For an even kernel the output of a "SAME" convolution is aligned with element
(kernel_size - 1) // 2, masking at kernel_size // 2 let every site see itself and
its successor, and the PixelCNN state was not normalised.
---
 GPSKet/nn/causal_conv.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/GPSKet/nn/causal_conv.py b/GPSKet/nn/causal_conv.py
index 896392b..171fd67 100644
--- a/GPSKet/nn/causal_conv.py
+++ b/GPSKet/nn/causal_conv.py
@@ -54,9 +54,11 @@ class VerticalStackConv(nn.Module):
     def setup(self):
         # Mask out all sites on the same row
         mask = np.ones((self.kernel_size, self.kernel_size), dtype=np.float32)
-        mask[self.kernel_size // 2 + 1 :, :] = 0
+        # "SAME" padding aligns an output with this element of the kernel
+        center = (self.kernel_size - 1) // 2
+        mask[center + 1 :, :] = 0
         if self.mask_center:
-            mask[self.kernel_size // 2, :] = 0
+            mask[center, :] = 0
         self.conv = MaskedConv2D(
             features=self.features,
             mask=mask,
@@ -82,9 +84,11 @@ class HorizontalStackConv(nn.Module):
     def setup(self):
         # Mask out all sites on the left of the same row
         mask = np.ones((1, self.kernel_size), dtype=np.float32)
-        mask[0, self.kernel_size // 2 + 1 :] = 0
+        # "SAME" padding aligns an output with this element of the kernel
+        center = (self.kernel_size - 1) // 2
+        mask[0, center + 1 :] = 0
         if self.mask_center:
-            mask[0, self.kernel_size // 2] = 0
+            mask[0, center] = 0
         self.conv = MaskedConv2D(
             features=self.features,
             mask=mask,
-- 
2.43.0


From c03bdf0e12029d639ab973e7a02c5de5a135e56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:03 +0000
Subject: [PATCH 40/59] fix: sign of the determinant term in the noise
 derivative of the evidence

---
 GPSKet/supervised/supervised_qgps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index f165a3f..14c6fbe 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -771,11 +771,11 @@ class QGPSLearningExp(QGPSLearning):
         KtK_der = KtK_der[np.ix_(self.active_elements, self.active_elements)]
 
         if self.cholesky:
-            derivative_noise = np.trace(
+            derivative_noise = -np.trace(
                 KtK_der.dot(self.Sinv_L.conj().T.dot(self.Sinv_L))
             )
         else:
-            derivative_noise = np.trace(KtK_der.dot(self.Sinv))
+            derivative_noise = -np.trace(KtK_der.dot(self.Sinv))
 
         if self.complex_expand and self.epsilon.dtype == complex:
             derivative_noise *= 0.5
-- 
2.43.0


From 7603d186cd915f01ed5563102cc38f3eed50a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:03 +0000
Subject: [PATCH 41/59] fix: prediction of log-space fits with expanded complex
 parameters

---
 GPSKet/supervised/supervised_qgps.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index 14c6fbe..ef7d2ef 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1107,7 +1107,11 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             )
 
     def prediction_after_setup(self):
-        return self.K.dot(self.weights)
+        if self.complex_expand and self.epsilon.dtype == complex:
+            K = np.hstack((self.K, 1.0j * self.K))
+        else:
+            K = self.K
+        return K.dot(self.weights)
 
     def setup_fit(
         self, confset, log_amplitudes, ref_sites, weightings=None, prior_mean=0.0
-- 
2.43.0


From 8bd2ec046bafdaa5a512352a5fd5c6d2ddfc1b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:55 +0000
Subject: [PATCH 42/59] fix: noise derivative of the evidence of log-space fits

---
 GPSKet/supervised/supervised_qgps.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index ef7d2ef..d3a925d 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -1214,13 +1214,14 @@ class QGPSLogSpaceFit(QGPSLearningExp):
             N = _mpi_sum(np.sum(self.weightings))
             squared_error = _mpi_sum(
                 np.sum(
-                    self.weightings * abs(self.fit_data - self.predict(self.confs)) ** 2
+                    self.weightings
+                    * abs(self.fit_data - self.prediction_after_setup()) ** 2
                 )
             )
         else:
             N = _mpi_sum(len(self.fit_data))
             squared_error = _mpi_sum(
-                np.sum(abs(self.fit_data - self.predict(self.confs)) ** 2)
+                np.sum(abs(self.fit_data - self.prediction_after_setup()) ** 2)
             )
 
         beta_derivative += N * self.noise_tilde
@@ -1229,7 +1230,7 @@ class QGPSLogSpaceFit(QGPSLearningExp):
         if self.epsilon.dtype == float:
             beta_derivative *= 0.5
 
-        return -(self.noise_tilde**2) * beta_derivative
+        return -beta_derivative / self.noise_tilde**2
 
     def fit_step(
         self,
-- 
2.43.0


From f5b67d0f8ae5a571ade5f91732047af7d3c206f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:21 +0000
Subject: [PATCH 43/59] fix: keep the phase of the quality factors in the
 growing RVM

---
 GPSKet/supervised/supervised_qgps.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index d3a925d..c56919c 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -907,11 +907,10 @@ class QGPSLearningExp(QGPSLearning):
         else:
             XXa = self.KtK[:, self.active_elements]
             XS = np.dot(XXa, self.Sinv)
-            S = bxx - self.beta**2 * np.sum(XS * XXa, 1)
+            S = bxx - self.beta**2 * np.sum(XS * XXa.conj(), 1)
             Q = bxy - self.beta**2 * np.dot(XS, self.y[self.active_elements])
 
         S = S.real
-        Q = Q.real
         # Use following:
         # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
         qi = np.copy(Q)
-- 
2.43.0


From 01fec984a61c8f32d6b04b134756becaee7ae727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:37 +0000
Subject: [PATCH 44/59] fix: precisions of the growing RVM with expanded
 complex parameters

---
 GPSKet/supervised/supervised_qgps.py | 76 ++++++++++------------------
 1 file changed, 27 insertions(+), 49 deletions(-)

diff --git a/GPSKet/supervised/supervised_qgps.py b/GPSKet/supervised/supervised_qgps.py
index c56919c..86b8a87 100644
--- a/GPSKet/supervised/supervised_qgps.py
+++ b/GPSKet/supervised/supervised_qgps.py
@@ -911,6 +911,10 @@ class QGPSLearningExp(QGPSLearning):
             Q = bxy - self.beta**2 * np.dot(XS, self.y[self.active_elements])
 
         S = S.real
+        if self.complex_expand and self.epsilon.dtype == complex:
+            # The precision of the noise of each real component is 2 * beta
+            S = 2 * S
+            Q = 2 * Q
         # Use following:
         # (EQ 1) q = A*Q/(A - S) ; s = A*S/(A-S), so if A = np.PINF q = Q, s = S
         qi = np.copy(Q)
@@ -918,28 +922,16 @@ class QGPSLearningExp(QGPSLearning):
         #  If A is not np.PINF, then it should be 'active' feature => use (EQ 1)
         Qa, Sa = Q[self.active_elements], S[self.active_elements]
 
-        if self.complex_expand and self.epsilon.dtype == complex:
-            qi[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Qa
-                / (self.alpha_mat_ref_sites[self.active_elements] - 2 * Sa)
-            )
-            si[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Sa
-                / (self.alpha_mat_ref_sites[self.active_elements] - 2 * Sa)
-            )
-        else:
-            qi[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Qa
-                / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
-            )
-            si[self.active_elements] = (
-                self.alpha_mat_ref_sites[self.active_elements]
-                * Sa
-                / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
-            )
+        qi[self.active_elements] = (
+            self.alpha_mat_ref_sites[self.active_elements]
+            * Qa
+            / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
+        )
+        si[self.active_elements] = (
+            self.alpha_mat_ref_sites[self.active_elements]
+            * Sa
+            / (self.alpha_mat_ref_sites[self.active_elements] - Sa)
+        )
         return [si, qi, S, Q]
 
     def update_precisions(self, s, q, S, Q):
@@ -954,24 +946,12 @@ class QGPSLearningExp(QGPSLearning):
         # three groups identified above
         Qadd, Sadd = Q[add], S[add]
 
-        if self.complex_expand and self.epsilon.dtype == complex:
-            Qrec, Srec, Arec = (
-                Q[recompute],
-                S[recompute],
-                self.alpha_mat_ref_sites[recompute] / 2,
-            )
-            Qdel, Sdel, Adel = (
-                Q[delete],
-                S[delete],
-                self.alpha_mat_ref_sites[delete] / 2,
-            )
-        else:
-            Qrec, Srec, Arec = (
-                Q[recompute],
-                S[recompute],
-                self.alpha_mat_ref_sites[recompute],
-            )
-            Qdel, Sdel, Adel = Q[delete], S[delete], self.alpha_mat_ref_sites[delete]
+        Qrec, Srec, Arec = (
+            Q[recompute],
+            S[recompute],
+            self.alpha_mat_ref_sites[recompute],
+        )
+        Qdel, Sdel, Adel = Q[delete], S[delete], self.alpha_mat_ref_sites[delete]
 
         # compute new alpha's (precision parameters) for features that are
         # currently in model and will be recomputed
@@ -996,12 +976,7 @@ class QGPSLearningExp(QGPSLearning):
 
         alpha = self.alpha_mat_ref_sites
         if theta[feature_index] > 0:
-            if self.complex_expand and self.epsilon.dtype == complex:
-                alpha[feature_index] = 2 * (
-                    s[feature_index] ** 2 / theta[feature_index]
-                )
-            else:
-                alpha[feature_index] = s[feature_index] ** 2 / theta[feature_index]
+            alpha[feature_index] = s[feature_index] ** 2 / theta[feature_index]
         else:
             # at least one active features
             if (
@@ -1040,12 +1015,15 @@ class QGPSLearningExp(QGPSLearning):
 
                 assert _n_nodes == 1
 
-                alpha_est = np.diag(self.KtK)[ind] / (projections[ind] - 1 / self.beta)
+                if self.complex_expand and self.epsilon.dtype == complex:
+                    noise = 1 / (2 * self.beta)
+                else:
+                    noise = 1 / self.beta
+
+                alpha_est = np.diag(self.KtK)[ind] / (projections[ind] - noise)
 
                 if alpha_est > 0.0:
                     alpha[ind] = alpha_est
-                    if self.complex_expand and self.epsilon.dtype == complex:
-                        alpha[ind] *= 2
                 else:
                     alpha[ind] = 1.0
                     if self.complex_expand and self.epsilon.dtype == complex:
-- 
2.43.0


From 7da0cd6f0207f4596a0f45f2f2cf7921c54f672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 45/59] fix: concurrent dataset generations failed if the data
 directory did not exist

---
 GPSKet/datasets/h2o.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/GPSKet/datasets/h2o.py b/GPSKet/datasets/h2o.py
index 7b984f7..2d72d69 100644
--- a/GPSKet/datasets/h2o.py
+++ b/GPSKet/datasets/h2o.py
@@ -37,8 +37,7 @@ def _H2O_raw(basis, method, datapath):
     norb = myhf.mo_coeff.shape[1]
     print("Number of molecular orbitals: ", norb)
 
-    if not os.path.exists(datapath):
-        os.makedirs(datapath)
+    os.makedirs(datapath, exist_ok=True)
     dsid = f"{basis}_{method}"
 
     if not os.path.exists(os.path.join(datapath, f"h1_{dsid}.npy")):
-- 
2.43.0


From 7234de9cda5fe9961094857eaead992ae6f40b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:19 +0000
Subject: [PATCH 46/59] fix: interrupted experiments left unusable
 configurations, metrics and best parameters behind

---
 scripts/ARGPS/argps/utils.py               |  7 +++++--
 scripts/cpd-backflow/cpd_backflow/utils.py | 13 +++++++++----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/scripts/ARGPS/argps/utils.py b/scripts/ARGPS/argps/utils.py
index b71c7af..1681e07 100644
--- a/scripts/ARGPS/argps/utils.py
+++ b/scripts/ARGPS/argps/utils.py
@@ -8,10 +8,12 @@ from datetime import timedelta, time
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # Replace the file in one step, so that an interrupted run can always be resumed
+    with open(filepath + ".tmp", "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(filepath + ".tmp", filepath)
 
 
 def read_config(workdir):
@@ -32,7 +34,8 @@ class CSVLogger:
     def __init__(self, filename, fieldnames):
         self.filename = filename
         self.fieldnames = ["Step"] + list(fieldnames)
-        file_exists = os.path.isfile(filename)
+        # An interrupted run might have left an empty file behind
+        file_exists = os.path.isfile(filename) and os.path.getsize(filename) > 0
         if not file_exists:
             os.makedirs(os.path.dirname(filename), exist_ok=True)
             with open(filename, mode="w") as f:
diff --git a/scripts/cpd-backflow/cpd_backflow/utils.py b/scripts/cpd-backflow/cpd_backflow/utils.py
index b095d07..a5a32b2 100644
--- a/scripts/cpd-backflow/cpd_backflow/utils.py
+++ b/scripts/cpd-backflow/cpd_backflow/utils.py
@@ -10,10 +10,12 @@ from flax import serialization
 def save_config(workdir, config):
     os.makedirs(workdir, exist_ok=True)
     filepath = os.path.join(workdir, "config.yaml")
-    with open(filepath, "w") as f:
+    # Replace the file in one step, so that an interrupted run can always be resumed
+    with open(filepath + ".tmp", "w") as f:
         yaml.safe_dump(
             config.to_dict(), f, default_flow_style=False, allow_unicode=True
         )
+    os.replace(filepath + ".tmp", filepath)
 
 
 def read_config(workdir):
@@ -34,7 +36,8 @@ class CSVLogger:
     def __init__(self, filename, fieldnames):
         self.filename = filename
         self.fieldnames = ["Step"] + list(fieldnames)
-        file_exists = os.path.isfile(filename)
+        # An interrupted run might have left an empty file behind
+        file_exists = os.path.isfile(filename) and os.path.getsize(filename) > 0
         if not file_exists:
             os.makedirs(os.path.dirname(filename), exist_ok=True)
             with open(filename, mode="w") as f:
@@ -115,6 +118,8 @@ def save_best_params(workdir: str, params: PyTree, filename: str='best_params'):
     if not os.path.isdir(workdir):
         raise ValueError(f"The argument {workdir} is not a valid path to an existing directory.")
     params_file = os.path.join(workdir, f"{filename}.mpack")
-    with open(params_file, "wb") as f:
+    # Replace the file in one step, so that an interrupted run can always be resumed
+    with open(params_file + ".tmp", "wb") as f:
         binary_data = serialization.to_bytes(params)
-        f.write(binary_data)
\ No newline at end of file
+        f.write(binary_data)
+    os.replace(params_file + ".tmp", params_file)
\ No newline at end of file
-- 
2.43.0


From a62d498fc036830a5881261004798abf032db2e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:19 +0000
Subject: [PATCH 47/59] fix: open Hubbard chains of the ARGPS scripts were
 closed

---
 scripts/ARGPS/argps/systems.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/ARGPS/argps/systems.py b/scripts/ARGPS/argps/systems.py
index a8812d2..1d592c3 100644
--- a/scripts/ARGPS/argps/systems.py
+++ b/scripts/ARGPS/argps/systems.py
@@ -152,8 +152,9 @@ def get_Hubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
     )
 
     # Setup Hamiltonian
-    edges = np.array([[i, (i + 1) % Lx] for i in range(Lx)])
-    t = t * np.ones(Lx)
+    n_edges = Lx if config.pbc else Lx - 1
+    edges = np.array([[i, (i + 1) % Lx] for i in range(n_edges)])
+    t = t * np.ones(n_edges)
     if config.pbc and Lx % 4 == 0:
         t[-1] *= -1
     ha = FermiHubbardOnTheFly(hi, edges, U=U, t=t)
-- 
2.43.0


From 01735b325499dd7c2aebdbbeba271ecccc647fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 48/59] fix: Fermi-Hubbard experiments with given electron
 numbers could not be resumed

---
 scripts/cpd-backflow/cpd_backflow/systems.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 8699025..277644c 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -214,6 +214,7 @@ def get_FermiHubbard_system(config: ConfigDict) -> FermiHubbardOnTheFly:
         g = nk.graph.Chain(Lx, pbc=config.pbc)
     if n_elec is None:
         n_elec = (g.n_nodes//2, g.n_nodes//2)
+    n_elec = tuple(n_elec) # might be a list if the config was read from a file
     hi = qk.hilbert.FermionicDiscreteHilbert(g.n_nodes, n_elec=n_elec)
 
     # Setup Hamiltonian
-- 
2.43.0


From 5ef2ab8688e95633ee069cecd3e16f1d51824f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 49/59] fix: checkpoints of CPD backflow experiments lacked the
 moving average

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 1977aa1..98985fb 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -65,7 +65,7 @@ def serialize_VMC_SRRMSProp(driver: VMC_SRRMSProp):
     state_dict = {
         "variables": serialization.to_state_dict(driver.state.variables),
         "optimizer": serialization.to_state_dict(driver._optimizer_state),
-        "ema": serialization.to_state_dict(driver.preconditioner._ema),
+        "ema": serialization.to_state_dict(driver._ema),
         "step": driver._step_count
     }
     return state_dict
@@ -90,8 +90,8 @@ serialization.register_serialization_state(
 
 serialization.register_serialization_state(
     VMC_SRRMSProp,
-    serialize_VMC,
-    deserialize_VMC
+    serialize_VMC_SRRMSProp,
+    deserialize_VMC_SRRMSProp
 )
 
 
-- 
2.43.0


From 68bc294f20895fb1e52fe4f2b79a0d7aff0220a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 50/59] fix: resumed CPD backflow experiments skipped steps

---
 scripts/cpd-backflow/cpd_backflow/vmc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/vmc.py b/scripts/cpd-backflow/cpd_backflow/vmc.py
index 98985fb..bf37a89 100644
--- a/scripts/cpd-backflow/cpd_backflow/vmc.py
+++ b/scripts/cpd-backflow/cpd_backflow/vmc.py
@@ -139,7 +139,7 @@ def main(argv):
     checkpoints_dir = os.path.join(workdir, "checkpoints")
     vmc = restore_checkpoint(checkpoints_dir, vmc)
     initial_step = vmc.step_count + 1
-    step = initial_step
+    step = vmc.step_count
     if _MPI_rank == 0:
         logging.info(f"Will start/continue training at initial_step={initial_step}")
 
@@ -149,7 +149,7 @@ def main(argv):
         logger = CSVLogger(os.path.join(workdir, "metrics.csv"), fieldnames)
 
     # Run training loop
-    if initial_step < config.total_steps:
+    if initial_step <= config.total_steps:
         if _MPI_rank == 0:
             logging.info(f"Model has {vs.n_parameters} parameters")
             logging.info('Starting training loop; initial compile can take a while...')
@@ -202,7 +202,7 @@ def main(argv):
                 logging.info(f"Stored checkpoint at step {step} to {checkpoint_path}")
 
     # Descent finishing
-    if config.get('descent_finishing', None) and initial_step < config.total_steps + config.descent_finishing.total_steps:
+    if config.get('descent_finishing', None) and initial_step <= config.total_steps + config.descent_finishing.total_steps:
         # Switch to first SGD optimizer
         op = nk.optimizer.Sgd(learning_rate=config.descent_finishing.learning_rate)
         vmc.optimizer = op
-- 
2.43.0


From 2af0a0586bcaa0db8bf8f91aded27e835a0c8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:20 +0000
Subject: [PATCH 51/59] fix: CPD backflow experiments with an exchange cutoff
 requested fast updates

---
 scripts/cpd-backflow/cpd_backflow/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index cae23f2..23685c3 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -113,7 +113,8 @@ def get_model(config: ConfigDict, hilbert: HomogeneousHilbert, hamiltonian: Hami
             dtype=dtype,
             init_fun=init_fun,
             restricted=config.model.restricted,
-            fixed_magnetization=config.model.fixed_magnetization
+            fixed_magnetization=config.model.fixed_magnetization,
+            apply_fast_update=False
         )
     return ma
     
-- 
2.43.0


From 922078a3bcbd036155c20a55e984eca62a75e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:36 +0000
Subject: [PATCH 52/59] fix: interrupted CPD backflow experiments left
 incomplete integrals behind

---
 scripts/cpd-backflow/cpd_backflow/systems.py | 22 +++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 277644c..398f4a6 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -59,6 +59,18 @@ def build_molecule(config: ConfigDict) -> gto.Mole:
     )
     return mol
 
+def save_array(path: str, array: np.ndarray):
+    """
+    Save an array to a file, which is replaced in one step so that an interrupted run leaves no incomplete file behind
+
+    Args:
+        path : path of the file
+        array : array to be saved
+    """
+    with open(path + ".tmp", "wb") as f:
+        np.save(f, array)
+    os.replace(path + ".tmp", path)
+
 def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_exchange: bool=False) -> Union[AbInitioHamiltonianOnTheFly, AbInitioHamiltonianSparse]:
     """
     Return the Hamiltonian for a molecular system
@@ -153,10 +165,10 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
             if config.get('pruning_threshold', None) is not None and config.pruning_threshold != 0.0:
                 h1[abs(h1) < config.pruning_threshold] = 0.0
                 h2[abs(h2) < config.pruning_threshold] = 0.0
-            np.save(basis_path, basis)
-            np.save(h1_path, h1)
-            np.save(h2_path, h2)
-            np.save(hf_orbitals_path, hf_orbitals)
+            save_array(basis_path, basis)
+            save_array(h1_path, h1)
+            save_array(h2_path, h2)
+            save_array(hf_orbitals_path, hf_orbitals)
         # Store exchange matrix, if necessary
         if store_exchange:
             exchange_path = os.path.join(workdir, "exchange.npy")
@@ -168,7 +180,7 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
                 # Transform to a local orbital basis, if necessary
                 if 'local' in config.basis:
                     em = np.linalg.multi_dot((basis.T, em, basis))
-                np.save(exchange_path, em)
+                save_array(exchange_path, em)
     else:
         h1 = None
         h2 = None
-- 
2.43.0


From c921b9854636fe78bc30b71d1552cc308d579469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 53/59] fix: exchange cutoff of CPD backflow models with
 generalized spin-orbitals

---
 GPSKet/models/cpd_backflow.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GPSKet/models/cpd_backflow.py b/GPSKet/models/cpd_backflow.py
index 40ecfbd..ec2e13f 100644
--- a/GPSKet/models/cpd_backflow.py
+++ b/GPSKet/models/cpd_backflow.py
@@ -171,9 +171,13 @@ class CPDBackflow(nn.Module):
         # This matrix needs to be of shape (L, K), with the α-th row corresponding to the K indices of orbitals
         # β in the environment of orbital α
         if self.environments is not None:
+            environments = self._environments.value
+            if environments.shape[0] < self._epsilon.shape[0]:
+                # Generalized spin-orbitals: both spins of an orbital share its environment
+                environments = jnp.tile(environments, (2, 1))
             n = jnp.take_along_axis(
                 jnp.expand_dims(n, 2),
-                jnp.expand_dims(self._environments.value, 0),
+                jnp.expand_dims(environments, 0),
                 axis=1
             ) # (B, L, K)
 
-- 
2.43.0


From 858ae97e3f459d5045017791b64eddb1f6e3bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:20 +0000
Subject: [PATCH 54/59] fix: generalized Hartree-Fock orbitals of open-shell
 molecules

---
 scripts/cpd-backflow/cpd_backflow/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index 23685c3..b70b5d5 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -238,7 +238,7 @@ def get_hf_orbitals_from_file(config: ConfigDict, n_elec: Tuple[int, int], workd
                 hf_orbitals_b = hf_orbitals[:, :n_elec[1]]
                 orbitals = np.zeros((2*norb, nelec))
                 orbitals[:norb, :n_elec[0]] = hf_orbitals_a
-                orbitals[norb:, n_elec[1]:] = hf_orbitals_b
+                orbitals[norb:, n_elec[0]:] = hf_orbitals_b
             else:
                 nelec = hf_orbitals.shape[1]*2
                 orbitals = np.zeros((2*norb, nelec))
-- 
2.43.0


From 8dd2d1d1aebe0393083994d6c8c7ae60afc69746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:25 +0000
Subject: [PATCH 55/59] fix: exchange matrix of CPD backflow experiments in the
 orbital basis

---
 scripts/cpd-backflow/cpd_backflow/models.py  | 9 ---------
 scripts/cpd-backflow/cpd_backflow/systems.py | 5 ++---
 2 files changed, 2 insertions(+), 12 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/models.py b/scripts/cpd-backflow/cpd_backflow/models.py
index b70b5d5..7f3d217 100644
--- a/scripts/cpd-backflow/cpd_backflow/models.py
+++ b/scripts/cpd-backflow/cpd_backflow/models.py
@@ -302,15 +302,6 @@ def get_top_k_orbital_indices(config: ConfigDict, exchange_cutoff: int, workdir:
             em = np.load(exchange_path) # (norb, norb)
         else:
             raise FileNotFoundError('No exchange matrix found in workdir')
-        
-        # Transform to a local orbital basis, if necessary
-        if 'local' in config.basis:
-            basis_path = os.path.join(workdir, 'basis.npy')
-            if os.path.exists(basis_path):
-                basis = np.load(basis_path) # (norb, norb)
-            else:
-                raise FileNotFoundError('No basis file found in workdir')
-            em = np.linalg.multi_dot((basis.T, em, basis))
 
         # Generate environment matrix of top-K closest coupled orbitals for each orbital
         top_k_orbital_indices = np.flip(np.argsort(np.abs(em), axis=1)[:, -exchange_cutoff:], axis=1)
diff --git a/scripts/cpd-backflow/cpd_backflow/systems.py b/scripts/cpd-backflow/cpd_backflow/systems.py
index 398f4a6..eac8cbf 100644
--- a/scripts/cpd-backflow/cpd_backflow/systems.py
+++ b/scripts/cpd-backflow/cpd_backflow/systems.py
@@ -177,9 +177,8 @@ def get_molecular_system(config: ConfigDict, workdir: Optional[str]=None, store_
                 dm = mf.make_rdm1()
                 # Get exchange matrix
                 _, em = mf.get_jk(mol, dm)
-                # Transform to a local orbital basis, if necessary
-                if 'local' in config.basis:
-                    em = np.linalg.multi_dot((basis.T, em, basis))
+                # Transform to the orbital basis
+                em = np.linalg.multi_dot((basis.T, em, basis))
                 save_array(exchange_path, em)
     else:
         h1 = None
-- 
2.43.0


From 5063a94d106f0fb9fe024940b2e695d10f230298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:01 +0000
Subject: [PATCH 56/59] fix: qGPS initialiser with a complex default type

normal() decided between the real and the complex distribution from its own default type and called the real sampler otherwise: normal(dtype=complex) raised an error, and a complex type given to the init function gave parameters which are not of unit length.
---
 GPSKet/nn/initializers.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/GPSKet/nn/initializers.py b/GPSKet/nn/initializers.py
index 99074dc..fd708c6 100644
--- a/GPSKet/nn/initializers.py
+++ b/GPSKet/nn/initializers.py
@@ -16,19 +16,14 @@ def normal(sigma=0.1, dtype=jnp.float_):
     Returns:
         init function with signature `(key, shape, dtype) -> Array`
     """
-    if jnp.iscomplexobj(dtype):
-
-        def init_fun(key, shape, dtype=dtype):
+    def init_fun(key, shape, dtype=dtype):
+        if jnp.issubdtype(dtype, jnp.complexfloating):
             phase = jax.random.normal(key, shape, jnp.float32) * sigma
             eps = jnp.exp(1j * phase).astype(dtype)
-            return eps
-
-    else:
-
-        def init_fun(key, shape, dtype=dtype):
+        else:
             eps = jnp.ones(shape, dtype)
             eps += jax.random.normal(key, shape, dtype) * sigma
-            return eps
+        return eps
 
     return init_fun
 
-- 
2.43.0


From 25b4eeef51bc23131213de78a8f45cfd0ef6103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:57 +0000
Subject: [PATCH 57/59] fix: number of accepted moves of the fast Metropolis
 samplers

The total over all chains was added to the counter of every chain, so that the reported acceptance was too large by the number of chains.
---
 GPSKet/sampler/metropolis_fast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GPSKet/sampler/metropolis_fast.py b/GPSKet/sampler/metropolis_fast.py
index 3d95593..49825f3 100644
--- a/GPSKet/sampler/metropolis_fast.py
+++ b/GPSKet/sampler/metropolis_fast.py
@@ -69,7 +69,7 @@ class MetropolisFastSampler(MetropolisSampler):
                 update, new_intermediates_cache, s["intermediates_cache"]
             )
 
-            s["accepted"] += do_accept.sum()
+            s["accepted"] += do_accept
 
             s["log_prob"] = jax.numpy.where(
                 do_accept.reshape(-1), proposal_log_prob, s["log_prob"]
-- 
2.43.0


From 9b09d62c5efe74b1ee6b4f003e2583677204323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 58/59] fix: density matrices divided by the requested, not the
 drawn, number of samples

---
 scripts/cpd-backflow/cpd_backflow/rdms.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/cpd-backflow/cpd_backflow/rdms.py b/scripts/cpd-backflow/cpd_backflow/rdms.py
index 56cdc5d..ec1718f 100644
--- a/scripts/cpd-backflow/cpd_backflow/rdms.py
+++ b/scripts/cpd-backflow/cpd_backflow/rdms.py
@@ -106,8 +106,9 @@ def main(argv):
             logging.info(f"[Chunk: {i}/{n_chunks}] E: {stats}, acceptance: {acceptance*100:.2f}%")
         rdm1 += nk.utils.mpi.mpi_sum_jax(jnp.sum(local_rdm1, axis=0))[0]
         rdm2 += nk.utils.mpi.mpi_sum_jax(jnp.sum(local_rdm2, axis=0))[0]
-    rdm1 = np.array(rdm1) / n_samples
-    rdm2 = np.array(rdm2) / n_samples
+    n_drawn = n_chunks * vs.n_samples # vs.n_samples is rounded up to a multiple of the number of chains
+    rdm1 = np.array(rdm1) / n_drawn
+    rdm2 = np.array(rdm2) / n_drawn
 
     # Re-order into (p^+ r^+ s q) form
     rdm2 *= 2
-- 
2.43.0


From 6d83478a34afc89705fc1db56813e49bc025cc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:14 +0000
Subject: [PATCH 59/59] fix: density matrix script failed without a chunk size

---
 scripts/cpd-backflow/cpd_backflow/rdms.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/cpd-backflow/cpd_backflow/rdms.py b/scripts/cpd-backflow/cpd_backflow/rdms.py
index ec1718f..83c3f31 100644
--- a/scripts/cpd-backflow/cpd_backflow/rdms.py
+++ b/scripts/cpd-backflow/cpd_backflow/rdms.py
@@ -77,6 +77,8 @@ def main(argv):
         raise ValueError("The number samples must be divisible by the number of MPI ranks")
     n_samples_per_rank = config.evaluate.n_samples // _MPI_n_nodes
     chunk_size = config.evaluate.chunk_size
+    if chunk_size is None:
+        chunk_size = n_samples_per_rank
     if n_samples_per_rank % chunk_size != 0:
         raise ValueError("The number of samples per rank must be divisible by the chunk size")
     vs.n_samples = chunk_size
-- 
2.43.0

