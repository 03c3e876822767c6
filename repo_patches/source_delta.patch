From 8e4ccf983f7c5155190d519255aa429d5250d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:00 +0000
Subject: [PATCH 01/21] fix: include the charge in Delta in the Kerr-Newman
 metric and its derivatives

---
 src/einsteinpy/metric/kerrnewman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..3fc17f6 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From 4ef0f07df6e7e868b10a615c693baef8b8aacc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 02/21] fix: sign of the frame-dragging term in d g_phiphi / dr
 of the Kerr metric

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..8725f97 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = (-2 * r - ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From b6bff9024adf74235dbc9ee8fff2ce399c7377a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 03/21] fix: convert mass, charge and coordinates to SI before
 stripping their units

---
 src/einsteinpy/metric/base_metric.py | 8 ++++----
 src/einsteinpy/metric/kerrnewman.py  | 2 +-
 src/einsteinpy/units.py              | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..5b41d1d 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -92,9 +92,9 @@ class BaseMetric:
         """
         self.name = name
         self.coords = coords
-        self.M = M
-        self.a = a
-        self.Q = Q
+        self.M = M.to(u.kg)
+        self.a = a.to(u.one)
+        self.Q = Q.to(u.C)
         self.metric_cov = metric_cov
         self.christoffels = christoffels
         self.f_vec = f_vec
@@ -102,7 +102,7 @@ class BaseMetric:
         # Need physical checks for `perturbation`
         # Expert opinion needed - Gauge Fixing
 
-        self.sch_rad = self.schwarzschild_radius(M)
+        self.sch_rad = self.schwarzschild_radius(self.M)
 
     def __str__(self):
         return f"(\n\
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 3fc17f6..ddc2766 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -46,7 +46,7 @@ class KerrNewman(BaseMetric):
             christoffels=self._christoffels,
             f_vec=self._f_vec,
         )
-        self.q = q
+        self.q = q.to(u.C / u.kg)
         # Precomputed list of tuples, containing indices \
         # of non-zero Christoffel Symbols for Kerr-Newman Metric \
         # in Boyer-Lindquist Coordinates
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..9757fdd 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -7,7 +7,7 @@ __all__ = ["primitive"]
 
 def primitive(*args):
     """
-    Strips out units and returns numpy.float64 values \
+    Converts to SI, strips out units and returns numpy.float64 values \
     out of ``astropy.units.quantity.Quantity``
 
     Parameters
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 6004c9a4d039e073aac7f0868ccb379512ad2e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:37 +0000
Subject: [PATCH 04/21] fix: name the offending coordinate system in
 BoyerLindquistDifferential.v_t error

---
 src/einsteinpy/coordinates/differential.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/differential.py b/src/einsteinpy/coordinates/differential.py
index 3736f56..3a9dfd0 100644
--- a/src/einsteinpy/coordinates/differential.py
+++ b/src/einsteinpy/coordinates/differential.py
@@ -539,7 +539,7 @@ class BoyerLindquistDifferential(BoyerLindquistConversion):
         g = args[0]
         if self.system != g.coords.system:
             raise CoordinateError(
-                "Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
+                f"Metric object has been instantiated with a coordinate system, ( {g.coords.system} )"
                 " other than Boyer-Lindquist Coordinates."
             )
 
-- 
2.43.0


From 6343993d9609ba922dec62b3f2755f88348b5108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 05/21] fix: azimuthal velocity of cartesian_to_bl is NaN on
 the x = 0 plane

---
 src/einsteinpy/coordinates/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..d903607 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -77,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
         )
     )
     v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
-- 
2.43.0


From ac1fd3c4c8b2f7bb51e4eb04f64ced7500157766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:15 +0000
Subject: [PATCH 06/21] fix: keep the sign of the charge in the Kerr-Newman
 electromagnetic potential and tensor

---
 src/einsteinpy/metric/kerrnewman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index ddc2766..83d6d05 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -431,7 +431,7 @@ class KerrNewman(BaseMetric):
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
 
         A = np.zeros((4,), dtype=float)
@@ -483,7 +483,7 @@ class KerrNewman(BaseMetric):
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
         # Partial derivatives of rho2
         drho2_dr = 2 * r
-- 
2.43.0


From 8d2c0cad18085414be50c8756b8a93e2542d534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 07/21] fix: use the triple-jump coefficients of each nested
 order in the 6th and 8th order integrators

---
 src/einsteinpy/integrators/fantasy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -207,7 +207,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(4)
         step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -228,7 +228,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(6)
         step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -249,7 +249,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(8)
         step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-- 
2.43.0


From 5bfac40ea4886a5047dc2d61738a6c5b47c26b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 08/21] fix: include every off-diagonal metric component in the
 mass-shell condition of geodesic momenta

---
 src/einsteinpy/geodesic/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..54e9774 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,11 +41,14 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
+    B = 2 * (guu[0, 1] * P[1] + guu[0, 2] * P[2] + guu[0, 3] * P[3])
     C = (
         guu[1, 1] * P[1] * P[1]
         + guu[2, 2] * P[2] * P[2]
         + guu[3, 3] * P[3] * P[3]
+        + 2 * guu[1, 2] * P[1] * P[2]
+        + 2 * guu[1, 3] * P[1] * P[3]
+        + 2 * guu[2, 3] * P[2] * P[3]
         + int(time_like)
     )
 
-- 
2.43.0


From 92b6cfd3852db48aab47a57fe5026c01b75660ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 09/21] fix: RK4naive never recognised the integration bound

---
 src/einsteinpy/integrators/runge_kutta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..9968294 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -32,7 +32,7 @@ class RK4naive:
         self.t_bound = t_bound
         self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
 
     def step(self):
         """
-- 
2.43.0


From 44f04e15b7696c4f29c0e7231df411b051a197c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 10/21] fix: StressEnergyMomentumTensor.change_config returned
 an EinsteinTensor

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From c4d1aaf01f3d2213057da132354a0f17b3152e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 11/21] fix: Tensor.subs failed for every rank other than 2 and
 lost the index configuration

---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..530dad7 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -234,7 +234,7 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(self.tensor().subs(*args), config=self.config, name=self.name)
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From a727b5cd887eafb64022f484c74dcdb6c97d7978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:47 +0000
Subject: [PATCH 12/21] fix: tensor_product dropped the free variables and
 functions of its second factor

---
 src/einsteinpy/symbolic/tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 530dad7..abb5afc 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -111,8 +111,10 @@ def tensor_product(tensor1, tensor2, i=None, j=None):
         syms=tensor1.syms,
         config=newconfig,
         parent_metric=tensor1.parent_metric,
-        variables=tensor1.variables,
-        functions=tensor1.functions,
+        variables=tensor1.variables
+        + [v for v in tensor2.variables if v not in tensor1.variables],
+        functions=tensor1.functions
+        + [f for f in tensor2.functions if f not in tensor1.functions],
     )
 
 
-- 
2.43.0


From 4d5a53b5dd9b3fd879caf262cf633a0a760da486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 13/21] fix: transform covariant indices with the inverse
 Lorentz matrix

---
 src/einsteinpy/symbolic/tensor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index abb5afc..243e45f 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -440,11 +440,13 @@ class BaseRelativityTensor(Tensor):
         """
         tm = sympy.Array(transformation_matrix)
         t = self.tensor()
+        if "l" in self.config:
+            tm_inv = sympy.Array(sympy.Matrix(tm.tolist()).inv())
         for i in range(self.order):
             if self.config[i] == "u":
                 t = simplify(tensorcontraction(tensorproduct(tm, t), (1, 2 + i)))
             else:
-                t = simplify(tensorcontraction(tensorproduct(tm, t), (0, 2 + i)))
+                t = simplify(tensorcontraction(tensorproduct(tm_inv, t), (0, 2 + i)))
             dest = list(range(len(t.shape)))
             dest.remove(0)
             dest.insert(i, 0)
-- 
2.43.0


From 32ac67e224d31523c2db7c42e79e13b0f265865b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:25 +0000
Subject: [PATCH 14/21] fix: Shadow truncated the mass to an integer in the
 turning point equation

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From b2c1f57436412d3ec10f772698906697fc307995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 15/21] fix: radius of the Alcubierre bubble is the Euclidean
 distance

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From 1cc97870c9160367020bbbe559970bd9d3990020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 16/21] fix: order and argument of the Bessel functions were
 swapped in BesselGravitationalWave

---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From e6318e079d2aae3003035d782b9e28584c193598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 17/21] fix: DeSitter scale factor depends on time, not on x

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From a8b2e581eac4aa49997466f07bb7b2beb48fb0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 18/21] fix: angular part of JanisNewmanWinicour lacked the
 1/c**2 of its radial part

---
 src/einsteinpy/symbolic/predefined/janis_newman_winicour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
index 47adedc..b799b4d 100644
--- a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
+++ b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
@@ -30,7 +30,7 @@ def JanisNewmanWinicour(
     metric = diag(
         -1 * (alpha**gam),
         (alpha**-gam) / (c**2),
-        (r**2) * (alpha ** (-gam + 1)),
-        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2),
+        (r**2) * (alpha ** (-gam + 1)) / (c**2),
+        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2) / (c**2),
     ).tolist()
     return MetricTensor(metric, coords, "ll", name="JanisNewmanWinicourMetric")
-- 
2.43.0


From 99e532a2f6e5fce7d4d1a455b231760004fb4da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:22 +0000
Subject: [PATCH 19/21] fix: ergosphere radius of the geodesic plotters is 1 +
 sqrt(1 - (a cos(polar angle))**2)

---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From 3553757e861c7d87637883ce79da26b485fe388a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:33 +0000
Subject: [PATCH 20/21] fix: a Lorentz transformed tensor lists the symbols
 brought in by the transformation matrix

---
 src/einsteinpy/symbolic/tensor.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 243e45f..6f6888e 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -452,12 +452,17 @@ class BaseRelativityTensor(Tensor):
             dest.insert(i, 0)
             t = sympy.permutedims(t, dest)
 
+        # the transformation matrix can bring in symbols of its own
+        new_variables = sorted(
+            t.free_symbols - set(self.syms) - set(self.variables),
+            key=(lambda var: var.name),
+        )
         return BaseRelativityTensor(
             t,
             syms=self.syms,
             config=self.config,
             parent_metric=None,
-            variables=self.variables,
+            variables=self.variables + new_variables,
             functions=self.functions,
             name=_change_name(self.name, context="__lt"),
         )
-- 
2.43.0


From c84bc930d49d5bfd80a6f3a0cf9cb301787e4e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:27:10 +0000
Subject: [PATCH 21/21] fix: f_vec truncated the acceleration when the state
 vector had an integer type

---
 src/einsteinpy/metric/kerr.py          | 2 +-
 src/einsteinpy/metric/kerrnewman.py    | 2 +-
 src/einsteinpy/metric/schwarzschild.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 8725f97..8a01097 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -341,7 +341,7 @@ class Kerr(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=float)
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 83d6d05..9ece6aa 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -372,7 +372,7 @@ class KerrNewman(BaseMetric):
         F_contra = self.em_tensor_contravariant(vec[:4])
         g_cov = self.metric_covariant(vec[:4])
 
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=float)
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index d8226df..171a43b 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -208,7 +208,7 @@ class Schwarzschild(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=float)
 
         vals[:4] = vec[4:]
         vals[4] = -2 * chl[0, 0, 1] * vec[4] * vec[5]
-- 
2.43.0

