From 7c844be248580e7546f0f9857ada7541e8e1577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:53 +0000
Subject: [PATCH 01/26] fix: transform azimuthal and polar vector components
 correctly between spherical and Cartesian

---
 geoana/spatial.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..f54f2f5 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
@@ -391,21 +391,21 @@ def cartesian_to_spherical(grid, vec=None):
 
     vec = np.asarray(vec)
 
-    r = (
+    vec_r = (
         vec[..., 0] * np.sin(theta) * np.cos(phi) +
         vec[..., 1] * np.sin(theta) * np.sin(phi) +
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    vec_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
-    theta = (
+    vec_theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
         vec[..., 1] * np.cos(theta) * np.sin(phi) -
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([vec_r, vec_phi, vec_theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From 70d82e693d00e8c9daef5ac6295dfa4d1a42cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:53 +0000
Subject: [PATCH 02/26] fix: dipole term of the field outside a conductive or
 permeable sphere

---
 geoana/em/static/sphere.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From daffe24c8d68e5f4a7dc1885fb58cd6f9bbc2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:13 +0000
Subject: [PATCH 03/26] fix: cubic term of the loop vector potential near its
 axis

---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..4455ea5 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * (a**2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From 8971c9788c4a9c132ac09b248da15bd6af41dc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:13 +0000
Subject: [PATCH 04/26] fix: rotation between (nearly) anti-parallel vectors

---
 geoana/spatial.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index f54f2f5..e7ed140 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -605,27 +605,22 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
     # define the rotation axis, which is the cross product of the two vectors
     rotation_axis = np.cross(v0, v1)
 
-    if np.linalg.norm(rotation_axis) < tol:
-        # check if vectors were anti-parallel.
-        if v0dotv1 < 0:
-            # find another vector that is perpendicular to v1,
-            # by crossing with z_hat or y_hat (One of them must
-            # work because it can't be parallel to both of them)
-            trial = np.cross(v0, np.array([0., 0., 1.]))
-            if np.linalg.norm(trial) > tol:
-                rotation_axis = trial
-            else:
-                rotation_axis = np.cross(v0, np.array([0., 1., 0.]))
+    if v0dotv1 < 0:
+        # The shortest rotation is badly conditioned as v0 and v1 become
+        # anti-parallel. Turn v0 by 180 degrees about an axis perpendicular to it,
+        # and then apply the (well conditioned) rotation from -v0 to v1.
+        if np.linalg.norm(rotation_axis) > max(tol, 1E-8):
+            flip_axis = rotation_axis
         else:
-            mat = np.eye(3, dtype=float)
-            if as_matrix:
-                return mat
-            else:
-                return Rotation.from_matrix(mat)
-
-
-    w = 1 + v0dotv1
-    rot = Rotation.from_quat(np.r_[rotation_axis, w])
+            # cross with the cartesian axis that is the furthest from v0.
+            flip_axis = np.cross(v0, np.eye(3)[np.argmin(np.abs(v0))])
+        flip_axis = flip_axis - flip_axis.dot(v0) * v0
+        flip = Rotation.from_quat(np.r_[flip_axis, 0.0])
+        rot = Rotation.from_quat(np.r_[-rotation_axis, 1 - v0dotv1]) * flip
+    elif np.linalg.norm(rotation_axis) < tol:
+        rot = Rotation.from_matrix(np.eye(3, dtype=float))
+    else:
+        rot = Rotation.from_quat(np.r_[rotation_axis, 1 + v0dotv1])
 
     if as_matrix:
         return rot.as_matrix()
-- 
2.43.0


From 23b988860e9de7f4ddf59cec794be2e7069936f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:44 +0000
Subject: [PATCH 05/26] fix: setters keep their own copy and no longer modify
 or alias the caller's arrays

---
 geoana/earthquake/oksar.py    | 16 ++++++++--------
 geoana/em/base.py             |  6 +++---
 geoana/em/fdem/base.py        |  2 +-
 geoana/em/fdem/wholespace.py  |  2 +-
 geoana/em/static/freespace.py |  2 +-
 geoana/em/tdem/base.py        |  2 +-
 geoana/em/tdem/wholespace.py  |  2 +-
 geoana/gravity.py             |  2 +-
 geoana/shapes.py              |  4 ++--
 9 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..327355f 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -104,7 +104,7 @@ class EarthquakeInterferogram:
     @data.setter
     def data(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("Location must be a array_like of float")
 
@@ -145,7 +145,7 @@ class EarthquakeInterferogram:
     @location.setter
     def location(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "Location must be array_like of float"
@@ -219,7 +219,7 @@ class EarthquakeInterferogram:
     @pixel_size.setter
     def pixel_size(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("pixel_size must be array_like of float")
         var = np.squeeze(var)
@@ -243,7 +243,7 @@ class EarthquakeInterferogram:
     @ref.setter
     def ref(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "ref must be a array_like of float"
@@ -958,7 +958,7 @@ class Oksar:
     @O.setter
     def O(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("O must be array_like of float")
         var = np.squeeze(var)
@@ -981,7 +981,7 @@ class Oksar:
     @U.setter
     def U(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError(
                 "U must be a array_like of float"
@@ -1006,7 +1006,7 @@ class Oksar:
     @V.setter
     def V(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("V must be array_like of float")
         var = np.squeeze(var)
@@ -1030,7 +1030,7 @@ class Oksar:
     @center.setter
     def center(self, var):
         try:
-            var = np.asarray(var, dtype=float)
+            var = np.array(var, dtype=float)
         except:
             raise TypeError("center must be array_like of float")
         var = np.squeeze(var)
diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..0dbb34a 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -171,7 +171,7 @@ class BaseDipole:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
         vec = np.squeeze(vec)
@@ -207,7 +207,7 @@ class BaseDipole:
                 raise ValueError("Orientation must be one of {'X','Y','Z'}")
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
@@ -475,7 +475,7 @@ class BaseLineCurrent:
     def nodes(self, xyz):
 
         try:
-            xyz = np.asarray(xyz, dtype=np.float64)
+            xyz = np.array(xyz, dtype=np.float64)
         except:
             raise TypeError(f"nodes must be array_like, got {type(xyz)}")
         xyz = np.atleast_2d(xyz)
diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 8c575f7..9f197ca 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -207,7 +207,7 @@ class BaseFDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"frequencies are not a valid type")
         # Enforce positivity and dimensions
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..a1dcaf3 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -982,7 +982,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[0., 1., 0.]
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/em/static/freespace.py b/geoana/em/static/freespace.py
index 810efea..f9d8dec 100644
--- a/geoana/em/static/freespace.py
+++ b/geoana/em/static/freespace.py
@@ -50,7 +50,7 @@ class MagneticPrism(BasePrism):
     @magnetization.setter
     def magnetization(self, vec):
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/em/tdem/base.py b/geoana/em/tdem/base.py
index e5b918b..998132e 100644
--- a/geoana/em/tdem/base.py
+++ b/geoana/em/tdem/base.py
@@ -165,7 +165,7 @@ class BaseTDEM(BaseEM):
 
         # Ensure float or numpy array of float
         try:
-            value = np.asarray(value, dtype=float)
+            value = np.array(value, dtype=float)
         except:
             raise TypeError(f"times are not a valid type")
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..a6aa842 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -659,7 +659,7 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[0., 1., 0.]
         else:
             try:
-                var = np.asarray(var, dtype=float)
+                var = np.array(var, dtype=float)
             except:
                 raise TypeError(
                     f"orientation must be str or array_like, got {type(var)}"
diff --git a/geoana/gravity.py b/geoana/gravity.py
index 5441f5b..7f27586 100644
--- a/geoana/gravity.py
+++ b/geoana/gravity.py
@@ -87,7 +87,7 @@ class PointMass:
     def location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
diff --git a/geoana/shapes.py b/geoana/shapes.py
index 0fda9ec..f761617 100644
--- a/geoana/shapes.py
+++ b/geoana/shapes.py
@@ -57,7 +57,7 @@ class BasePrism:
     def min_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
@@ -84,7 +84,7 @@ class BasePrism:
     def max_location(self, vec):
 
         try:
-            vec = np.asarray(vec, dtype=float)
+            vec = np.array(vec, dtype=float)
         except:
             raise TypeError(f"location must be array_like of float, got {type(vec)}")
 
-- 
2.43.0


From e1c203ef334d081c6fb78002239cb4351f8f7455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:44 +0000
Subject: [PATCH 06/26] fix: plane waves reject orientation strings other than
 X and Y

---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index a1dcaf3..953e7b6 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.array(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index a6aa842..210dc10 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.array(var, dtype=float)
-- 
2.43.0


From a94a1b09eadaa96e9fea5fe5963a65c692c5ae6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:44 +0000
Subject: [PATCH 07/26] fix: half space magnetic dipole accepts a scalar
 frequency

---
 geoana/em/fdem/halfspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..ba7dcdb 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -3,6 +3,7 @@ from scipy.constants import mu_0
 from scipy.special import iv, kv
 from geoana.em.base import BaseMagneticDipole
 from geoana.em.fdem.base import BaseFDEM
+from geoana.utils import append_ndim
 
 __all__ = [
     "MagneticDipoleHalfSpace",
@@ -94,8 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         x = dxy[..., 0]
         y = dxy[..., 1]
 
-        for dim in range(r.ndim):
-            k = k[:, None]
+        k = append_ndim(k, r.ndim)
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From 88cb4baada1aafb712c6f8e4d958e1eb74e60949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:44 +0000
Subject: [PATCH 08/26] fix: reject 3D location and field vectors that are not
 of shape (3,)

---
 geoana/em/static/halfspace.py  | 12 ++++++------
 geoana/em/static/sphere.py     | 16 ++++++++--------
 geoana/em/static/wholespace.py |  4 ++--
 3 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/geoana/em/static/halfspace.py b/geoana/em/static/halfspace.py
index 859fb43..e599563 100644
--- a/geoana/em/static/halfspace.py
+++ b/geoana/em/static/halfspace.py
@@ -107,9 +107,9 @@ class PointCurrentHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -424,9 +424,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
@@ -456,9 +456,9 @@ class DipoleHalfSpace:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         if np.any(vec[..., -1] > 0):
diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index d926076..7edbe24 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -113,9 +113,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -139,9 +139,9 @@ class ElectrostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
@@ -624,9 +624,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"primary_field must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"primary_field must be array_like with shape (3,), got {len(vec)}"
+                f"primary_field must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._primary_field = vec
@@ -650,9 +650,9 @@ class MagnetostaticSphere:
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
 
         self._location = vec
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 4455ea5..d219c04 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1118,9 +1118,9 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
         except:
             raise TypeError(f"location must be array_like, got {type(vec)}")
 
-        if len(vec) != 3:
+        if vec.shape != (3,):
             raise ValueError(
-                f"location must be array_like with shape (3,), got {len(vec)}"
+                f"location must be array_like with shape (3,), got {vec.shape}"
             )
         self.nodes[0] = vec
 
-- 
2.43.0


From 662a62f3585222200a4069cd1ea032b40af8fa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:44 +0000
Subject: [PATCH 09/26] fix: zero resistivity raises ValueError, not
 ZeroDivisionError

---
 geoana/em/base.py              | 3 +++
 geoana/em/static/wholespace.py | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 0dbb34a..cb62d09 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -82,6 +82,9 @@ class BaseEM:
         except:
             raise TypeError(f"resistivity must be a number, got {type(value)}")
 
+        if value <= 0.0:
+            raise ValueError("resistivity must be greater than 0")
+
         self.sigma = 1/value
 
     @property
diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index d219c04..10c177c 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1097,7 +1097,8 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
     def __init__(self, rho, current=1.0, location=None):
         if location is None:
             location = np.r_[0, 0, 0]
-        super().__init__(sigma=1/rho, nodes=location, current=current)
+        super().__init__(nodes=location, current=current)
+        self.rho = rho
 
     @property
     def location(self):
-- 
2.43.0


From 7c04f2cf538bdc251c998521d0e2a38c922db69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:44 +0000
Subject: [PATCH 10/26] fix: any true value of quasistatic selects the
 quasi-static approximation

---
 geoana/em/fdem/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/em/fdem/base.py b/geoana/em/fdem/base.py
index 9f197ca..8708c64 100644
--- a/geoana/em/fdem/base.py
+++ b/geoana/em/fdem/base.py
@@ -77,7 +77,7 @@ def wavenumber(
 
     """
     w = omega(frequency)
-    if quasistatic is True:
+    if quasistatic:
         return np.sqrt(-1j * w * mu * sigma)
     return np.sqrt(w**2 * mu * epsilon - 1j * w * mu * sigma)
 
@@ -158,7 +158,7 @@ def sigma_hat(frequency, sigma, epsilon=epsilon_0, quasistatic=False):
         Conductivity with electric displacement for all frequencies provided
 
     """
-    if quasistatic is True:
+    if quasistatic:
         return sigma
     return sigma + 1j*omega(frequency)*epsilon
 
-- 
2.43.0


From eaae9c8e8005bf1e9f8b87314dae871ecd674c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:21 +0000
Subject: [PATCH 11/26] fix: field of a line current on, and close to, the
 extension of its segments

---
 geoana/em/static/wholespace.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 10c177c..1543547 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1015,7 +1015,15 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            amp = np.asarray((r1_hat[..., 0] - r0_hat[..., 0]))
+            # Past the ends of the segment, this difference cancels as the points
+            # approach its axis (where there is no field), use the equivalent form.
+            x0, x1, rho = r0_vec[..., 0], r1_vec[..., 0], cyl_points[..., 0]
+            past = np.asarray(x0 * x1 > 0)
+            amp[~past] /= rho[~past]
+            x0, x1, rho, r0, r1 = x0[past], x1[past], rho[past], r0[past, 0], r1[past, 0]
+            amp[past] = -l * rho * (x0 + x1) / (r0 * r1 * (x0 * r1 + x1 * r0))
+            temp_storage[..., 1] = amp
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0


From a6a70e7ae8250ae4ee0c47c2a00f81cbc173cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:34 +0000
Subject: [PATCH 12/26] fix: prism kernels for points nearly in line with an
 edge

---
 geoana/kernels/_extensions/potential_field_prism.pyx |  6 ++++++
 geoana/kernels/potential_field_prism.py              | 10 ++++++++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/geoana/kernels/_extensions/potential_field_prism.pyx b/geoana/kernels/_extensions/potential_field_prism.pyx
index ff6a4dd..49c49c0 100644
--- a/geoana/kernels/_extensions/potential_field_prism.pyx
+++ b/geoana/kernels/_extensions/potential_field_prism.pyx
@@ -136,6 +136,9 @@ cdef api double prism_fzx(double x, double y, double z) nogil:
         double r
     r = sqrt(x * x + y * y + z * z)
     v = y + r
+    if y < 0:
+        # y + r, without cancellation
+        v = (x * x + z * z) / (r - y)
     if v == 0.0:
         if y < 0:
             v = log(-2 * y)
@@ -169,6 +172,9 @@ cdef api double prism_fzy(double x, double y, double z) nogil:
         double r, temp
     r = sqrt(x * x + y * y + z * z)
     v = x + r
+    if x < 0:
+        # x + r, without cancellation
+        v = (y * y + z * z) / (r - x)
     if v == 0.0:
         if x < 0:
             v = log(-2 * x)
diff --git a/geoana/kernels/potential_field_prism.py b/geoana/kernels/potential_field_prism.py
index 40d8ce6..e8cd214 100644
--- a/geoana/kernels/potential_field_prism.py
+++ b/geoana/kernels/potential_field_prism.py
@@ -139,7 +139,10 @@ def _prism_fzx(x, y, z):
     r = np.sqrt(x * x + y * y + z * z)
 
     out = np.zeros_like(r)
-    v = y + r
+    v = np.asarray(y + r)
+    # y + r, without cancellation
+    nz = y < 0
+    v[nz] = (x[nz] * x[nz] + z[nz] * z[nz]) / (r[nz] - y[nz])
 
     nz = (v == 0) & (y < 0)
     out[nz] = np.log(-2 * y[nz])
@@ -171,7 +174,10 @@ def _prism_fzy(x, y, z):
     r = np.sqrt(x * x + y * y + z * z)
 
     out = np.zeros_like(r)
-    v = x + r
+    v = np.asarray(x + r)
+    # x + r, without cancellation
+    nz = x < 0
+    v[nz] = (y[nz] * y[nz] + z[nz] * z[nz]) / (r[nz] - x[nz])
 
     nz = (v == 0) & (x < 0)
     out[nz] = np.log(-2 * x[nz])
-- 
2.43.0


From e1fcc06e8708cbae85682d1d9160dd247cbc8cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:43 +0000
Subject: [PATCH 13/26] fix: earthquake attributes V, event_date and
 local_rigidity return what was set

---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 327355f..7439c4b 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From 6b881f33fd86e766519597cfa1d0d25c2765ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:43 +0000
Subject: [PATCH 14/26] fix: simulation grid of a fault spans O + s U + t V

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 7439c4b..067d78a 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1284,7 +1284,7 @@ class Oksar:
         """
         shape = self.shape
         origin = self.O
-        R = np.stack([self.U, self.V])
+        R = np.stack([self.U, self.V], axis=-1)
         square = np.meshgrid(
             np.linspace(0, 1, shape[0]),
             np.linspace(0, 1, shape[1])
-- 
2.43.0


From 002a40d35f7224071a1a9765810841187252fec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:21 +0000
Subject: [PATCH 15/26] fix: displacement vector of a fault over its simulation
 grid

---
 geoana/earthquake/oksar.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 067d78a..326b7ce 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1346,9 +1346,9 @@ class Oksar:
 
         u = self._dc3d3(alpha, X, Y, -dip, al1, al2, aw1, aw2, us, ud)
 
-        UX = ct*u[...,0] + st*u[...,1]
-        UY = -st*u[...,0] + ct*u[...,1]
-        UZ = u[..., 2]
+        UX = ct*u[0] + st*u[1]
+        UY = -st*u[0] + ct*u[1]
+        UZ = u[2]
 
         return np.stack([UX, UY, UZ], axis=-1)
 
@@ -1359,7 +1359,7 @@ class Oksar:
         PI2 = 6.283185307179586
         EPS = 1.0E-6
 
-        u = np.array([F0, F0, F0])
+        u = np.zeros((3, *X.shape))
         dub = np.array([F0, F0, F0])
 
         #  %%dccon0 subroutine
@@ -1509,7 +1509,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros((3, *xi.shape))
 
                 # dip-slip contribution
                 if(disl2 != F0):
-- 
2.43.0


From eaabf08131caeb0c2d66e7865e641dd5fcc4cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:21 +0000
Subject: [PATCH 16/26] fix: displacement at a point does not depend on the
 other grid points

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 326b7ce..99875f3 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1407,7 +1407,7 @@ class Oksar:
                 # %%dccon2 subroutine
                 # % calculates station geometry constants for finite source
 
-                dc_max = np.max(np.abs(np.c_[xi, et, q]))
+                dc_max = np.max(np.abs(np.c_[xi, et, q]), axis=-1)
 
                 # dc_max = max(np.abs(xi),max(np.abs(et),np.abs(q)))
 
-- 
2.43.0


From 390cd2d6173cc722ea8e4283baa966e646604160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:21 +0000
Subject: [PATCH 17/26] fix: plot2Ddata leaves the caller's options alone, and
 draws levels of vector data

---
 geoana/plotting_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/geoana/plotting_utils.py b/geoana/plotting_utils.py
index 4307747..006e573 100644
--- a/geoana/plotting_utils.py
+++ b/geoana/plotting_utils.py
@@ -111,6 +111,8 @@ def plot2Ddata(
 
     """
 
+    contourOpts = dict(contourOpts)
+
     # Error checking and set vmin, vmax
     vlimits = [None, None]
 
@@ -230,7 +232,7 @@ def plot2Ddata(
 
         if level:
             levelOpts = {"levels": levels, "zorder": 3, **levelOpts}
-            CS = ax.contour(X, Y, DATA, levels=levels, zorder=3, **levelOpts)
+            CS = ax.contour(X, Y, DATA, **levelOpts)
 
     if shade:
 
@@ -270,7 +272,7 @@ def plot2Ddata(
     ax.set_aspect("equal", adjustable="box")
     if figname:
         plt.axis("off")
-        fig.savefig(figname, dpi=200)
+        ax.figure.savefig(figname, dpi=200)
     if level:
         return cont, ax, CS
     else:
-- 
2.43.0


From 8c95b0f551754d7fecbca7855a3438a086207846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:09 +0000
Subject: [PATCH 18/26] fix: compiled reflection coefficients use the same mu_0
 for the air as the reference implementation

---
 geoana/kernels/_extensions/_rTE.cpp |  8 ++++----
 geoana/kernels/_extensions/_rTE.h   |  6 ++++--
 geoana/kernels/_extensions/rTE.pyx  | 13 +++++++++----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/geoana/kernels/_extensions/_rTE.cpp b/geoana/kernels/_extensions/_rTE.cpp
index e3d77f2..ed949fb 100644
--- a/geoana/kernels/_extensions/_rTE.cpp
+++ b/geoana/kernels/_extensions/_rTE.cpp
@@ -13,9 +13,9 @@ void funcs::rTE(
     double * h,
     size_t n_frequency,
     size_t n_filter,
-    size_t n_layers
+    size_t n_layers,
+    double mu_0
 ) noexcept(true){
-    double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
     complex_t k2, u, Yh, Y, tanhuh, Y0;
@@ -60,9 +60,9 @@ void funcs::rTEgrad(
     double * h,
     size_t n_frequency,
     size_t n_filter,
-    size_t n_layers
+    size_t n_layers,
+    double mu_0
 ) noexcept(true){
-    double mu_0 = 4.0E-7*M_PI;
     complex_t j(0.0, 1.0);
 
     //complex_t k2, u, Yh, Y, tanhuh, Y0;
diff --git a/geoana/kernels/_extensions/_rTE.h b/geoana/kernels/_extensions/_rTE.h
index 3211f44..b9cda71 100644
--- a/geoana/kernels/_extensions/_rTE.h
+++ b/geoana/kernels/_extensions/_rTE.h
@@ -18,7 +18,8 @@ namespace funcs {
         double *depths,
         size_t n_frequency,
         size_t n_filter,
-        size_t n_layers
+        size_t n_layers,
+        double mu_0
     ) noexcept(true);
 
     void rTEgrad(
@@ -32,7 +33,8 @@ namespace funcs {
         double * h,
         size_t n_frequency,
         size_t n_filter,
-        size_t n_layers
+        size_t n_layers,
+        double mu_0
     ) noexcept(true);
 }
 
diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 5024aca..03c14aa 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -7,6 +7,7 @@ cimport numpy as np
 cimport cython
 from libcpp.complex cimport complex, sqrt, exp
 from libcpp cimport bool
+from scipy.constants import mu_0
 
 ctypedef np.float64_t REAL_t
 ctypedef np.intp_t SIZE_t
@@ -23,7 +24,8 @@ cdef extern from "_rTE.h" namespace "funcs":
         double *thicks,
         SIZE_t n_frequency,
         SIZE_t n_filter,
-        SIZE_t n_layers
+        SIZE_t n_layers,
+        double mu_0
         ) noexcept nogil
 
     void rTEgrad(
@@ -37,7 +39,8 @@ cdef extern from "_rTE.h" namespace "funcs":
         double * h,
         SIZE_t n_frequency,
         SIZE_t n_filter,
-        SIZE_t n_layers
+        SIZE_t n_layers,
+        double mu_0
     ) noexcept nogil
 
 def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
@@ -97,6 +100,7 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
+        REAL_t mu_air = mu_0
 
 
     n_frequency = f.shape[0]
@@ -116,7 +120,7 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
 
     with nogil:
         rTE(out_p, &f[0], &lam[0], sig_p, mu_p, h_p,
-            n_frequency, n_filter, n_layers)
+            n_frequency, n_filter, n_layers, mu_air)
 
     return np.array(out)
 
@@ -182,6 +186,7 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
+        REAL_t mu_air = mu_0
 
 
     n_frequency = f.shape[0]
@@ -206,6 +211,6 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
 
     with nogil:
         rTEgrad(gsig_p, gmu_p, gh_p, &f[0], &lam[0], sig_p, mu_p, h_p,
-            n_frequency, n_filter, n_layers)
+            n_frequency, n_filter, n_layers, mu_air)
 
     return np.array(gsig), np.array(gh), np.array(gmu)
-- 
2.43.0


From 8ddd96c19db6a1dcbac5ffc475c123620d888ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:11 +0000
Subject: [PATCH 19/26] fix: compiled TE reflection kernels accept read-only
 input arrays

---
 geoana/kernels/_extensions/rTE.pyx | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/geoana/kernels/_extensions/rTE.pyx b/geoana/kernels/_extensions/rTE.pyx
index 03c14aa..a51e56a 100644
--- a/geoana/kernels/_extensions/rTE.pyx
+++ b/geoana/kernels/_extensions/rTE.pyx
@@ -92,11 +92,12 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         )
 
     cdef:
-        REAL_t[:] f = frequencies
-        REAL_t[:] lam = lamb
-        COMPLEX_t[:, :] sig = sigma
-        COMPLEX_t[:, :] c_mu = mu
-        REAL_t[:] hs = thicknesses
+        # the inputs are not modified, and so may be read-only
+        const REAL_t[:] f = frequencies
+        const REAL_t[:] lam = lamb
+        const COMPLEX_t[:, :] sig = sigma
+        const COMPLEX_t[:, :] c_mu = mu
+        const REAL_t[:] hs = thicknesses
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
@@ -116,10 +117,10 @@ def rTE_forward(frequencies, lamb, sigma, mu, thicknesses):
         complex_t *mu_p = <complex_t *> &c_mu[0, 0]
         REAL_t *h_p = NULL
     if n_layers > 1:
-        h_p = &hs[0]
+        h_p = <REAL_t *> &hs[0]
 
     with nogil:
-        rTE(out_p, &f[0], &lam[0], sig_p, mu_p, h_p,
+        rTE(out_p, <REAL_t *> &f[0], <REAL_t *> &lam[0], sig_p, mu_p, h_p,
             n_frequency, n_filter, n_layers, mu_air)
 
     return np.array(out)
@@ -178,11 +179,12 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         )
 
     cdef:
-        REAL_t[:] f = frequencies
-        REAL_t[:] lam = lamb
-        COMPLEX_t[:, :] sig = sigma
-        COMPLEX_t[:, :] c_mu = mu
-        REAL_t[:] hs = thicknesses
+        # the inputs are not modified, and so may be read-only
+        const REAL_t[:] f = frequencies
+        const REAL_t[:] lam = lamb
+        const COMPLEX_t[:, :] sig = sigma
+        const COMPLEX_t[:, :] c_mu = mu
+        const REAL_t[:] hs = thicknesses
 
     cdef:
         SIZE_t n_frequency, n_filter, n_layers
@@ -206,11 +208,11 @@ def rTE_gradient(frequencies, lamb, sigma, mu, thicknesses):
         complex_t *gh_p = NULL
         REAL_t *h_p = NULL
     if n_layers > 1:
-        h_p = &hs[0]
+        h_p = <REAL_t *> &hs[0]
         gh_p = <complex_t *> &gh[0, 0, 0]
 
     with nogil:
-        rTEgrad(gsig_p, gmu_p, gh_p, &f[0], &lam[0], sig_p, mu_p, h_p,
+        rTEgrad(gsig_p, gmu_p, gh_p, <REAL_t *> &f[0], <REAL_t *> &lam[0], sig_p, mu_p, h_p,
             n_frequency, n_filter, n_layers, mu_air)
 
     return np.array(gsig), np.array(gh), np.array(gmu)
-- 
2.43.0


From 6163cd439939ad16865f7f91c229a97fd54e4608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:55 +0000
Subject: [PATCH 20/26] fix: PointCurrentWholeSpace refuses more than one
 location at construction

---
 geoana/em/static/wholespace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 1543547..0ce698a 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1106,6 +1106,10 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
         if location is None:
             location = np.r_[0, 0, 0]
         super().__init__(nodes=location, current=current)
+        if self.nodes.shape[0] != 1:
+            raise ValueError(
+                f"location must be array_like with shape (3,), got {self.nodes.shape}"
+            )
         self.rho = rho
 
     @property
-- 
2.43.0


From c899564c7babfe38241cad539443ddeba2a280e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:39 +0000
Subject: [PATCH 21/26] fix: plot_displacement takes the line of sight of every
 grid point

---
 geoana/earthquake/oksar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 99875f3..8864874 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1581,8 +1581,8 @@ class Oksar:
         if eq is None:
             LOS = np.array([0, 0, 1])
         else:
-            LOS = eq.get_LOS_vector(grid)
-        data = DIR.dot(LOS)
+            LOS = eq.get_LOS_vector(list(grid))
+        data = np.sum(DIR * LOS.T, axis=-1)
         data = np.flipud(data.reshape(self.shape, order='F').T)
         # data[data == 0] = np.nan
         # data *= self.scaling
-- 
2.43.0


From 58259bf998ea522ce030fe82c2d3d9a5ceff1aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:39 +0000
Subject: [PATCH 22/26] fix: plot_displacement draws the grid from its origin
 upwards

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 8864874..cb05790 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1583,7 +1583,7 @@ class Oksar:
         else:
             LOS = eq.get_LOS_vector(list(grid))
         data = np.sum(DIR * LOS.T, axis=-1)
-        data = np.flipud(data.reshape(self.shape, order='F').T)
+        data = data.reshape(self.shape, order='F').T
         # data[data == 0] = np.nan
         # data *= self.scaling
 
-- 
2.43.0


From 306820ead94bdcad1d01f2550df9acc402bbeb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:19 +0000
Subject: [PATCH 23/26] fix: plot_mask draws the pixels without data

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index cb05790..3ff4742 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -769,7 +769,7 @@ class EarthquakeInterferogram:
         out = ax.pcolormesh(
             vectorNx,
             vectorNy,
-            np.ma.masked_where(~np.isnan(data), data),
+            np.ma.masked_where(~np.isnan(data), np.zeros_like(data)),
             cmap=cmap
         )
 
-- 
2.43.0


From 9d3a8690c79ad58c9844ce6f6f111be10f37d341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:56 +0000
Subject: [PATCH 24/26] fix: half space magnetic dipole at large induction
 numbers

---
 geoana/em/fdem/halfspace.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index ba7dcdb..c3cc7ef 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -1,6 +1,6 @@
 import numpy as np
 from scipy.constants import mu_0
-from scipy.special import iv, kv
+from scipy.special import iv, ive, kv, kve
 from geoana.em.base import BaseMagneticDipole
 from geoana.em.fdem.base import BaseFDEM
 from geoana.utils import append_ndim
@@ -9,6 +9,17 @@ __all__ = [
     "MagneticDipoleHalfSpace",
 ]
 
+def _iv_kv(n, z):
+    # I_n(z) K_n(z); exponentially scaled where I_n overflows and K_n underflows
+    large = np.abs(z.real) > 500.0
+    z_small = np.where(large, 1.0, z)
+    return np.where(
+        large,
+        ive(n, z)*kve(n, z)*np.exp(np.abs(z.real) - z),
+        iv(n, z_small)*kv(n, z_small)
+    )
+
+
 class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
     r"""Class for a harmonic magnetic dipole in a wholespace.
     """
@@ -101,8 +112,8 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         src_x, src_y, src_z = self.orientation
 
         alpha = 1j*k*r/2.  # (n_freq, ...) * (...)
-        IK1 = iv(1, alpha)*kv(1, alpha)
-        IK2 = iv(2, alpha)*kv(2, alpha)
+        IK1 = _iv_kv(1, alpha)
+        IK2 = _iv_kv(2, alpha)
 
         if src_z != 0.0:
             # Z component of source
-- 
2.43.0


From 5bcac4bdedc08d80e4acecf32b541243643395b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:34 +0000
Subject: [PATCH 25/26] fix: dhp_from_vert_4_74 at early times

---
 geoana/em/tdem/reference.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/geoana/em/tdem/reference.py b/geoana/em/tdem/reference.py
index 843e6f4..c7faf84 100644
--- a/geoana/em/tdem/reference.py
+++ b/geoana/em/tdem/reference.py
@@ -4,7 +4,7 @@ Useful reference functions from Ward and Hohmann.
 These do not do anything special, and are just direct translations, with
 as few modifications as possible, of specific equations from Ward and Hohmann.
 """
-from scipy.special import erf, ive, iv
+from scipy.special import erf, ive
 import numpy as np
 
 __all__ = [
@@ -41,9 +41,9 @@ def hp_from_vert_4_72(m, theta, rho):
 
 def dhp_from_vert_4_74(m, theta, rho, t):
     tp = theta * rho
-    front = m * theta**2 / (2 * np.pi * rho * t) * np.exp(-tp**2 / 2)
+    front = m * theta**2 / (2 * np.pi * rho * t)
 
-    inner1 = (1 + tp**2)*iv(0, tp**2 / 2)
-    inner2 = (2 + tp**2 + 4/tp**2) * iv(1, tp**2/2)
+    inner1 = (1 + tp**2)*ive(0, tp**2 / 2)
+    inner2 = (2 + tp**2 + 4/tp**2) * ive(1, tp**2/2)
 
     return front * (inner1 - inner2)
\ No newline at end of file
-- 
2.43.0


From 29e2cc4df5438794152ab3b2ca801796a9fff5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:01:34 +0000
Subject: [PATCH 26/26] fix: line current with a repeated node

---
 geoana/em/static/wholespace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 0ce698a..32d1a1a 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -864,6 +864,8 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
         for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):
             l_vec = p1 - p0
             l = np.linalg.norm(l_vec)
+            if l == 0:
+                continue
             l_hat = l_vec / l
 
             # find the rotation from the line segments orientation
@@ -997,6 +999,8 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
         for p0, p1 in zip(self.nodes[:-1], self.nodes[1:]):
             l_vec = p1 - p0
             l = np.linalg.norm(l_vec)
+            if l == 0:
+                continue
             l_hat = l_vec / l
 
             # find the rotation from the line segments orientation
-- 
2.43.0

