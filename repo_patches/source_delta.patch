From 76da8156bce7af90e6a32c8160c84e14e7f4711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 01/19] fix: transform the spin operators in
 BasisSet.change_basis

The loop rebound its local variable, so spin_x, spin_y, spin_z and spin_2
kept their old values (and their old size for rectangular C) while all
other elements were transformed.
---
 quantum_systems/basis_set.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index ca737ba..fa7fd9c 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -343,10 +343,16 @@ class BasisSet:
                 self.s, C, C_tilde=C_tilde, np=self.np
             )
 
-        for spin in [self.spin_x, self.spin_y, self.spin_z, self.spin_2]:
+        for name in ["spin_x", "spin_y", "spin_z", "spin_2"]:
+            spin = getattr(self, name)
+
             if spin is not None:
-                spin = self.transform_one_body_elements(
-                    spin, C, C_tilde=C_tilde, np=self.np
+                setattr(
+                    self,
+                    name,
+                    self.transform_one_body_elements(
+                        spin, C, C_tilde=C_tilde, np=self.np
+                    ),
                 )
 
     def _change_basis_two_body_elements(self, C, C_tilde):
-- 
2.43.0


From 57418765c945b6fc711c55c535ebe0bfe5c54512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 02/19] fix: derivative of the quartic term in
 SymmetricDWPotential

---
 quantum_systems/quantum_dots/one_dim/one_dim_potentials.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
index 21aae87..f06e60f 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_potentials.py
@@ -85,7 +85,7 @@ class SymmetricDWPotential(OneDimPotential):
         return self.a * x ** 6 + self.b * x ** 4 + self.c * x ** 2
 
     def derivative(self, x):
-        return 6 * self.a * x ** 5 + 3 * self.b * x ** 3 + 2 * self.c * x
+        return 6 * self.a * x ** 5 + 4 * self.b * x ** 3 + 2 * self.c * x
 
 
 class AsymmetricDWPotential(OneDimPotential):
-- 
2.43.0


From 1148f3aa018085cfdd7eeabcbebfba31009a6700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 03/19] fix: store the converted elements in
 ODSincDVR.set_u_repr

The new array was computed and dropped, so the representation never changed.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index a795410..ee5547a 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -130,6 +130,7 @@ class ODSincDVR(BasisSet):
 
         if new_repr == self.u_repr:
             print("u repr is already {}, doing nothing".format(new_repr))
+            return
         elif new_repr == "4d":
             new_u = np.zeros(
                 (self.l, self.l, self.l, self.l), dtype=self.u.dtype
@@ -143,6 +144,8 @@ class ODSincDVR(BasisSet):
                 "'{}' is not a valid representation".format(new_repr)
             )
 
+        self.u = new_u
+
     def construct_sinc_grid(self):
         x = self.grid
         return 1 / np.sqrt(self.dx) * np.sinc((x - x[:, None]) / self.dx)
-- 
2.43.0


From 740a5ebb18cd7d3b2c0c14496f3f979ae6c30002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 04/19] fix: accept the spin basis in
 ODSincDVR.change_to_general_orbital_basis

GeneralOrbitalSystem passes a and b, so no general orbital system could be
built from a sinc-DVR basis (TypeError).
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index ee5547a..64e6ada 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -179,7 +179,9 @@ class ODSincDVR(BasisSet):
     def construct_s(self):
         return np.eye(self.l)
 
-    def change_to_general_orbital_basis(self, anti_symmetrize=True):
+    def change_to_general_orbital_basis(
+        self, a=[1, 0], b=[0, 1], anti_symmetrize=True
+    ):
         if anti_symmetrize and self.u_repr == "2d":
             if self.l > 100:
                 warnings.warn(
@@ -188,7 +190,7 @@ class ODSincDVR(BasisSet):
 
             self.set_u_repr("4d")
         return super().change_to_general_orbital_basis(
-            anti_symmetrize=anti_symmetrize
+            a=a, b=b, anti_symmetrize=anti_symmetrize
         )
 
     def change_module(self, np):
-- 
2.43.0


From fa895c5af613f6eb7b924ae1fc8820f49bf11782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 05/19] fix: do not flag 2d sinc-DVR elements as
 anti-symmetrized

Anti-symmetrizing a spin-doubled basis kept in the 2d representation left
the elements unchanged but marked them as anti-symmetric.
---
 quantum_systems/sinc_dvr/one_dim/sinc_dvr.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
index 64e6ada..676abc1 100644
--- a/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
+++ b/quantum_systems/sinc_dvr/one_dim/sinc_dvr.py
@@ -213,6 +213,13 @@ class ODSincDVR(BasisSet):
         else:
             return super(ODSincDVR, ODSincDVR).add_spin_two_body(u, np)
 
+    def anti_symmetrize_two_body_elements(self):
+        if not self.anti_symmetrized_u and self.u_repr == "2d":
+            # The 2d representation is unable to hold the exchange elements.
+            self.set_u_repr("4d")
+
+        super().anti_symmetrize_two_body_elements()
+
     @staticmethod
     def anti_symmetrize_u(_u):
         if len(np.shape(_u)) == 2:
-- 
2.43.0


From 2726d4c56f81e0dc8ba69015e874d651b5a8894b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 06/19] fix: copy basis sets and systems whose potential holds
 the array module

Copying an ODQD with a GaussianPotential failed with "cannot pickle 'module'
object", and left the original without its array module.
---
 quantum_systems/basis_set.py |  9 +++++----
 quantum_systems/system.py    | 10 +++++-----
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index fa7fd9c..5c699bf 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -744,8 +744,8 @@ class BasisSet:
 
     def copy_basis(self):
         """Function creating a deep copy of the current basis. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        is a hack as we have to keep the stored module out of Python's
+        ``copy.deepcopy``-function.
 
         Returns
         -------
@@ -754,9 +754,10 @@ class BasisSet:
         """
 
         np = self.np
-        self.np = None
 
-        new_basis = copy.deepcopy(self)
+        # Modules cannot be copied. Placing the module in the memo makes every
+        # reference to it (also those held by, e.g., a potential) be kept.
+        new_basis = copy.deepcopy(self, {id(np): np})
 
         new_basis.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index 0856ad8..ebefc92 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -162,8 +162,8 @@ class QuantumSystem(metaclass=abc.ABCMeta):
 
     def copy_system(self):
         """Function creating a deep copy of the current system. This function
-        is a hack as we have to temporarily remove the stored module before
-        using Python's ``copy.deepcopy``-function.
+        is a hack as we have to keep the stored module out of Python's
+        ``copy.deepcopy``-function.
 
         Returns
         -------
@@ -172,10 +172,10 @@ class QuantumSystem(metaclass=abc.ABCMeta):
         """
 
         np = self.np
-        self.np = None
-        self._basis_set.np = None
 
-        new_system = copy.deepcopy(self)
+        # Modules cannot be copied. Placing the module in the memo makes every
+        # reference to it (also those held by, e.g., a potential) be kept.
+        new_system = copy.deepcopy(self, {id(np): np})
 
         new_system.change_module(np)
         self.change_module(np)
-- 
2.43.0


From 823014c16f613047b16e50f7e7fddb5461e4d818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 07/19] fix: carry the time-evolution operator to the general
 orbital system

The operator refers back to its system, hence to the array module, so the
deep copy failed with "cannot pickle 'module' object".
---
 quantum_systems/spatial_orbital_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index dab7624..88063cc 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -98,7 +98,7 @@ class SpatialOrbitalSystem(QuantumSystem):
 
         if not self._time_evolution_operator is None:
             gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator)
+                copy.deepcopy(self._time_evolution_operator, {id(self): gos})
             )
 
         return gos
-- 
2.43.0


From 62b47a92d106beea6a300a2932d306aec0198b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 08/19] fix: do not keep the default laser polarization between
 systems

The default was sized by the first system the field was evaluated for and
then failed for a system of another dimensionality.
---
 .../time_evolution_operators/operator.py         | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 28ee11f..73a1940 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -92,17 +92,17 @@ class LaserField(TimeEvolutionOperator):
             tmp = self._laser_pulse
             self._laser_pulse = lambda t: tmp
 
-        if self._polarization is None:
-            # Set default polarization along x-axis
-            self._polarization = np.zeros(self._system.dipole_moment.shape[0])
-            self._polarization[0] = 1
+        polarization = self._polarization
 
-        if not callable(self._polarization):
-            tmp = self._polarization
-            self._polarization = lambda t: tmp
+        if polarization is None:
+            # Set default polarization along x-axis
+            polarization = np.zeros(self._system.dipole_moment.shape[0])
+            polarization[0] = 1
+        elif callable(polarization):
+            polarization = polarization(current_time)
 
         return self._system.h + self._laser_pulse(current_time) * np.tensordot(
-            self._polarization(current_time),
+            polarization,
             self._system.dipole_moment,
             axes=(0, 0),
         )
-- 
2.43.0


From 9022968425b088940ddb7fdfd15c4db68573f8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 09/19] fix: include the mass in the two-dimensional dot matrix
 elements

The orbitals, energies and dipole moments use the given mass, whereas the
Coulomb elements and the double-well barrier were those of unit mass.
---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 3 ++-
 quantum_systems/quantum_dots/two_dim/two_dim_ho.py     | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 6a9bf04..e5d7956 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -315,7 +315,7 @@ def get_double_well_one_body_elements(
 
         h[p, p] += (
             omega * get_shell_energy(n_p, m_p)
-            + omega ** 2 * barrier_strength ** 2 / 8.0
+            + mass * omega ** 2 * barrier_strength ** 2 / 8.0
         )
 
         for q in range(num_orbitals):
@@ -327,6 +327,7 @@ def get_double_well_one_body_elements(
 
             h[p, q] -= (
                 0.5
+                * mass
                 * omega ** 2
                 * barrier_strength
                 * spf_norm(n_p, m_p, mass, omega)
diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
index 346d978..e59c86d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_ho.py
@@ -83,7 +83,7 @@ class TwoDimensionalHarmonicOscillator(BasisSet):
 
     def setup_basis(self):
         self._h = self.omega * get_one_body_elements(self.l)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements(
             self.l, verbose=self.verbose
         )
         self._s = np.eye(self.l)
@@ -290,7 +290,7 @@ class TwoDimHarmonicOscB(TwoDimensionalHarmonicOscillator):
 
         self._h = get_one_body_elements_B(num_orbitals, df=self.df)
         self._s = np.eye(num_orbitals)
-        self._u = np.sqrt(self.omega) * get_coulomb_elements_B(
+        self._u = np.sqrt(self.mass * self.omega) * get_coulomb_elements_B(
             num_orbitals, df=self.df
         )
 
-- 
2.43.0


From 8ec1e3bf7fd82ea24f99e6cde4449ab65df3df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 10/19] fix: write the Coulomb cache file atomically

A run that stopped while saving, or a second process, left or met a
truncated file, on which every later run failed.
---
 .../quantum_dots/two_dim/two_dim_helper.py           | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index e5d7956..bcc5877 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -242,8 +242,16 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Time spent setting up Coulomb elements {t_1 - t_0} sec")
         print(f"Caching Coulomb elements to {filename}")
 
-    # Store elements
-    np.save(filename, coulomb_elements)
+    # Store elements. Move the finished file in place in order to never expose a
+    # partially written file to other processes or later runs.
+    tmp_filename = f"{filename}.{os.getpid()}.tmp"
+    try:
+        with open(tmp_filename, "wb") as f:
+            np.save(f, coulomb_elements)
+        os.replace(tmp_filename, filename)
+    finally:
+        if os.path.exists(tmp_filename):
+            os.remove(tmp_filename)
 
     # Return newly created Coulomb elements
     return coulomb_elements
-- 
2.43.0


From 26ab8a5256cf45870075367570c04a1db9644e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 11/19] fix: one-body spin-squared operator for non-orthonormal
 orbitals

Inserting a resolution of the identity in a non-orthonormal basis takes the
inverse overlap, not the overlap.
---
 quantum_systems/basis_set.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 5c699bf..251b299 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -700,11 +700,15 @@ class BasisSet:
 
         l = len(spin_x)
 
+        # The sum over the intermediate index needs the inverse overlap for
+        # non-orthonormal orbitals.
+        overlap_inv = np.linalg.pinv(overlap, 1e-12)
+
         spin_2 = np.zeros_like(spin_x)
         spin_2_tb = np.zeros((l, l, l, l), dtype=spin_2.dtype)
 
         for s_i in [spin_x, spin_y, spin_z]:
-            spin_2 += s_i @ overlap @ s_i
+            spin_2 += s_i @ overlap_inv @ s_i
             spin_2_tb += np.einsum("pr, qs -> pqrs", s_i, s_i)
 
         return spin_2, spin_2_tb
-- 
2.43.0


From 569cc6ea22ab4e29f29753443db033a840b91ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 12/19] fix: particle density of a complex density matrix in a
 real basis

---
 quantum_systems/system_helper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index 62f0637..bebd025 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -15,7 +15,9 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
     assert bra_spf.shape == ket_spf.shape
     assert bra_spf.dtype == ket_spf.dtype
 
-    rho = np.zeros(ket_spf.shape[1:], dtype=ket_spf.dtype)
+    rho = np.zeros(
+        ket_spf.shape[1:], dtype=np.result_type(ket_spf, rho_qp)
+    )
 
     for p in range(bra_spf.shape[0]):
         phi_tilde_p = bra_spf[p]
-- 
2.43.0


From 7c06c8194bab10375aa91f156a58564d52893a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:17 +0000
Subject: [PATCH 13/19] fix: include the non-dipole term in the ODHO laser
 interaction matrix

The beta argument was accepted and ignored.
---
 quantum_systems/quantum_dots/one_dim/one_dim_qd.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/quantum_systems/quantum_dots/one_dim/one_dim_qd.py b/quantum_systems/quantum_dots/one_dim/one_dim_qd.py
index 2d3c985..3615ab6 100644
--- a/quantum_systems/quantum_dots/one_dim/one_dim_qd.py
+++ b/quantum_systems/quantum_dots/one_dim/one_dim_qd.py
@@ -164,6 +164,15 @@ class ODHO(BasisSet):
             self.dipole_moment[0, n, n + 1] = dip_mom
             self.dipole_moment[0, n + 1, n] = dip_mom
 
+        # Non-dipole term, beta * x ** 2
+        for n in range(self.l):
+            self.dipole_moment[0, n, n] = self.beta * (n + 0.5) / self.omega
+
+        for n in range(self.l - 2):
+            x_sq = np.sqrt((n + 1) * (n + 2)) / (2 * self.omega)
+            self.dipole_moment[0, n, n + 2] = self.beta * x_sq
+            self.dipole_moment[0, n + 2, n] = self.beta * x_sq
+
 
 class ODQD(BasisSet):
     """Create 1D quantum dot system
-- 
2.43.0


From bd34447a6ce64aa66118ad518ab53faf800e1d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:29 +0000
Subject: [PATCH 14/19] fix: use a unique temporary file for every stored
 Coulomb cache

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index bcc5877..b1b876d 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,6 +1,7 @@
 import os
 import sys
 import time
+import uuid
 
 import numpy as np
 import scipy
@@ -244,7 +245,7 @@ def get_coulomb_elements(num_orbitals, verbose=False):
 
     # Store elements. Move the finished file in place in order to never expose a
     # partially written file to other processes or later runs.
-    tmp_filename = f"{filename}.{os.getpid()}.tmp"
+    tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
     try:
         with open(tmp_filename, "wb") as f:
             np.save(f, coulomb_elements)
-- 
2.43.0


From 4d04835f38191aeb3a005f6c462d4e6603f1ae42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:32 +0000
Subject: [PATCH 15/19] fix: Fock matrix of a real one-body and a complex
 two-body Hamiltonian

---
 quantum_systems/general_orbital_system.py | 2 +-
 quantum_systems/spatial_orbital_system.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/general_orbital_system.py b/quantum_systems/general_orbital_system.py
index 971c65e..40b5aa6 100644
--- a/quantum_systems/general_orbital_system.py
+++ b/quantum_systems/general_orbital_system.py
@@ -128,7 +128,7 @@ class GeneralOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros(h.shape, dtype=np.result_type(h, u))
 
         f.fill(0)
 
diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index 88063cc..d395d1d 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -160,7 +160,7 @@ class SpatialOrbitalSystem(QuantumSystem):
         o, v = (self.o, self.v)
 
         if f is None:
-            f = np.zeros_like(h)
+            f = np.zeros(h.shape, dtype=np.result_type(h, u))
 
         f.fill(0)
 
-- 
2.43.0


From 923b9b8b05135b51d4570a2fcf685c9e24fdd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 16/19] fix: copy objects holding another module than the basis
 set

---
 quantum_systems/basis_set.py     |  9 +++++----
 quantum_systems/system.py        |  6 +++---
 quantum_systems/system_helper.py | 13 +++++++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/quantum_systems/basis_set.py b/quantum_systems/basis_set.py
index 251b299..a84d984 100644
--- a/quantum_systems/basis_set.py
+++ b/quantum_systems/basis_set.py
@@ -1,7 +1,10 @@
 import warnings
 import copy
 
-from quantum_systems.system_helper import compute_particle_density
+from quantum_systems.system_helper import (
+    compute_particle_density,
+    get_module_memo,
+)
 
 
 class BasisSet:
@@ -759,9 +762,7 @@ class BasisSet:
 
         np = self.np
 
-        # Modules cannot be copied. Placing the module in the memo makes every
-        # reference to it (also those held by, e.g., a potential) be kept.
-        new_basis = copy.deepcopy(self, {id(np): np})
+        new_basis = copy.deepcopy(self, get_module_memo(np))
 
         new_basis.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system.py b/quantum_systems/system.py
index ebefc92..728370b 100644
--- a/quantum_systems/system.py
+++ b/quantum_systems/system.py
@@ -1,6 +1,8 @@
 import abc
 import copy
 
+from quantum_systems.system_helper import get_module_memo
+
 
 class QuantumSystem(metaclass=abc.ABCMeta):
     """Abstract base class defining general methods and data on a quantum
@@ -173,9 +175,7 @@ class QuantumSystem(metaclass=abc.ABCMeta):
 
         np = self.np
 
-        # Modules cannot be copied. Placing the module in the memo makes every
-        # reference to it (also those held by, e.g., a potential) be kept.
-        new_system = copy.deepcopy(self, {id(np): np})
+        new_system = copy.deepcopy(self, get_module_memo(np))
 
         new_system.change_module(np)
         self.change_module(np)
diff --git a/quantum_systems/system_helper.py b/quantum_systems/system_helper.py
index bebd025..8f3451f 100644
--- a/quantum_systems/system_helper.py
+++ b/quantum_systems/system_helper.py
@@ -1,3 +1,5 @@
+import sys
+
 import numba
 
 
@@ -27,3 +29,14 @@ def compute_particle_density(rho_qp, ket_spf, bra_spf, np):
             rho += phi_tilde_p * rho_qp[q, p] * phi_q
 
     return rho
+
+
+def get_module_memo(np):
+    """Modules cannot be copied. Passing the returned memo to
+    ``copy.deepcopy`` makes every reference to a module (also those held by,
+    e.g., a potential) be kept.
+    """
+    memo = {id(module): module for module in list(sys.modules.values())}
+    memo[id(np)] = np
+
+    return memo
-- 
2.43.0


From 2d48d129423860b0d55d02ff6e29ac1be1821e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:32 +0000
Subject: [PATCH 17/19] fix: spin-double the custom one-body operator of a
 general orbital system

---
 quantum_systems/spatial_orbital_system.py         |  6 ++++--
 .../time_evolution_operators/operator.py          | 15 +++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/spatial_orbital_system.py b/quantum_systems/spatial_orbital_system.py
index d395d1d..7eb5a35 100644
--- a/quantum_systems/spatial_orbital_system.py
+++ b/quantum_systems/spatial_orbital_system.py
@@ -97,9 +97,11 @@ class SpatialOrbitalSystem(QuantumSystem):
         import copy
 
         if not self._time_evolution_operator is None:
-            gos.set_time_evolution_operator(
-                copy.deepcopy(self._time_evolution_operator, {id(self): gos})
+            operator = copy.deepcopy(
+                self._time_evolution_operator, {id(self): gos}
             )
+            operator.add_spin(self.np)
+            gos.set_time_evolution_operator(operator)
 
         return gos
 
diff --git a/quantum_systems/time_evolution_operators/operator.py b/quantum_systems/time_evolution_operators/operator.py
index 73a1940..7b0673e 100644
--- a/quantum_systems/time_evolution_operators/operator.py
+++ b/quantum_systems/time_evolution_operators/operator.py
@@ -39,6 +39,18 @@ class TimeEvolutionOperator(metaclass=abc.ABCMeta):
 
         self._system = system
 
+    def add_spin(self, np):
+        """Internal function converting elements stored by the operator itself
+        from spatial orbitals to general spin-orbitals. Operators only using the
+        elements of the callback system need not do anything.
+
+        Parameters
+        ----------
+        np : module
+            Array- and linalg-module.
+        """
+        pass
+
     def h_t(self, current_time):
         """Function computing the one-body part of the Hamiltonian for a
         specified time.
@@ -134,6 +146,9 @@ class CustomOneBodyOperator(TimeEvolutionOperator):
     def is_one_body_operator(self):
         return True
 
+    def add_spin(self, np):
+        self._operator = np.kron(self._operator, np.eye(2))
+
     def h_t(self, current_time):
         np = self._system.np
 
-- 
2.43.0


From ffaf3eb50be073cf715ee741e0d35c7db4e926aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:40 +0000
Subject: [PATCH 18/19] fix: notice a full disk when storing the Coulomb cache

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index b1b876d..14cbc19 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -1,3 +1,4 @@
+import io
 import os
 import sys
 import time
@@ -244,11 +245,14 @@ def get_coulomb_elements(num_orbitals, verbose=False):
         print(f"Caching Coulomb elements to {filename}")
 
     # Store elements. Move the finished file in place in order to never expose a
-    # partially written file to other processes or later runs.
+    # partially written file to other processes or later runs. Write through
+    # Python's own file object, as np.save does not notice when the disk is full.
+    contents = io.BytesIO()
+    np.save(contents, coulomb_elements)
     tmp_filename = f"{filename}.{uuid.uuid4().hex}.tmp"
     try:
         with open(tmp_filename, "wb") as f:
-            np.save(f, coulomb_elements)
+            f.write(contents.getbuffer())
         os.replace(tmp_filename, filename)
     finally:
         if os.path.exists(tmp_filename):
-- 
2.43.0


From a86d5bcfeddb6fa8a49f4d5bc0f65415bcb1dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:44 +0000
Subject: [PATCH 19/19] fix: two-dimensional dots in a magnetic field failed
 for weak confinement

---
 quantum_systems/quantum_dots/two_dim/two_dim_helper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
index 14cbc19..7ae4fc0 100644
--- a/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
+++ b/quantum_systems/quantum_dots/two_dim/two_dim_helper.py
@@ -423,7 +423,10 @@ def construct_dataframe(n_array, m_array, omega_c=0, omega=1):
     # Capping size of basis set.
     min_num_states = len(n_array) * (len(n_array) - 1) // 2
     level_of_orbital_cap = df.iloc[min_num_states]["level"]
-    while df.iloc[min_num_states]["level"] == level_of_orbital_cap:
+    while (
+        min_num_states < len(df)
+        and df.iloc[min_num_states]["level"] == level_of_orbital_cap
+    ):
         min_num_states += 1
 
     df["n"] = df["n"].astype(int)
-- 
2.43.0

