From c0faeef9e003b9608b3201e1c54d54188616287f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:31 +0000
Subject: [PATCH 01/15] fix: use the azimuthal angle in
 spherical_to_cartesian's vector y-component

---
 geoana/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 01e1f03..ff7402d 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -303,7 +303,7 @@ def spherical_to_cartesian(grid, vec=None):
 
     y = (
         vec[..., 0] * np.sin(theta) * np.sin(phi) +
-        vec[..., 1] * np.cos(theta) +
+        vec[..., 1] * np.cos(phi) +
         vec[..., 2] * np.cos(theta) * np.sin(phi)
     )
 
-- 
2.43.0


From 1fccb61f6867046a8a4128e1423aafe9774b608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 02/15] fix: keep the azimuth when converting vectors in
 cartesian_to_spherical

---
 geoana/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index ff7402d..9e2dd2b 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -397,7 +397,7 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.cos(theta)
     )
 
-    phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
+    v_phi = - vec[..., 0] * np.sin(phi) + vec[..., 1] * np.cos(phi)
 
     theta = (
         vec[..., 0] * np.cos(theta) * np.cos(phi) +
@@ -405,7 +405,7 @@ def cartesian_to_spherical(grid, vec=None):
         vec[..., 2] * np.sin(theta)
     )
 
-    return np.stack([r, phi, theta], axis=-1)
+    return np.stack([r, v_phi, theta], axis=-1)
 
 
 def vector_magnitude(v):
-- 
2.43.0


From b3eb408c691201f4f067a94d60c5df39e41dade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 03/15] fix: dipole term of the field outside the electrostatic
 sphere scales as R^3/r^5

---
 geoana/em/static/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 1e2182a..862efc1 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -335,7 +335,7 @@ class ElectrostaticSphere:
 
         # total field outside the sphere
         Et[ind0] = E0 * (1. - sig_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ E0)[..., None] * sig_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Et[~ind0] = 3. * sig0 / (sig1 + 2. * sig0) * E0
-- 
2.43.0


From dcd720456c57ab19111f4f0069c745af8e0f97ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 04/15] fix: dipole term of the field outside the magnetostatic
 sphere scales as R^3/r^5

---
 geoana/em/static/sphere.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/sphere.py b/geoana/em/static/sphere.py
index 862efc1..d926076 100644
--- a/geoana/em/static/sphere.py
+++ b/geoana/em/static/sphere.py
@@ -835,7 +835,7 @@ class MagnetostaticSphere:
 
         # total field outside the sphere
         Ht[ind0] = H0 * (1. - mu_cur * self.radius ** 3. / r[ind0, None] ** 3) +\
-            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius * r_vec[ind0] / r[ind0, None] ** 4
+            3. * (r_vec[ind0] @ H0)[..., None] * mu_cur * self.radius ** 3. * r_vec[ind0] / r[ind0, None] ** 5
 
         # inside the sphere
         Ht[~ind0] = 3. * mu0 / (mu1 + 2. * mu0) * H0
-- 
2.43.0


From 21f361660f9855403b39a0301070850bc067c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 05/15] fix: third-order term of
 CircularLoopWholeSpace.vector_potential near the axis

---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 5c6058b..09b9068 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -606,7 +606,7 @@ class CircularLoopWholeSpace(BaseEM, BaseDipole):
                 # A(rho=0) = 0
                 rho[small_rho] * a**2 / (4 * temp**3) +  # rho * A'(rho=0)
                 # A''(rho=0) = 0
-                rho[small_rho]**3 * 3 * a**2 / ( a ** 2 - 4 * z[small_rho]**2) / (
+                rho[small_rho]**3 * 3 * a**2 * ( a ** 2 - 4 * z[small_rho]**2) / (
                     32 * np.sqrt(a**2 + z[small_rho]**2)**7
                 )
         )
-- 
2.43.0


From 9d06d891f3ec840717dfcb4efa5ebdcd6e4865d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:01 +0000
Subject: [PATCH 06/15] fix: orientation setters no longer normalise the
 caller's array in place

---
 geoana/em/base.py            | 2 +-
 geoana/em/fdem/wholespace.py | 2 +-
 geoana/em/tdem/wholespace.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/em/base.py b/geoana/em/base.py
index 4a5792b..2bcd8d2 100644
--- a/geoana/em/base.py
+++ b/geoana/em/base.py
@@ -219,7 +219,7 @@ class BaseDipole:
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index 851156e..d2430e5 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -998,7 +998,7 @@ class HarmonicPlaneWave(BaseFDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 8a56ba2..94115ca 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -675,7 +675,7 @@ class TransientPlaneWave(BaseTDEM):
                 )
 
             # Normalize the orientation
-            var /= np.linalg.norm(var)
+            var = var / np.linalg.norm(var)
 
         self._orientation = var
 
-- 
2.43.0


From 97d202f662d91d58b19848d2223d3f93e0675b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:59:34 +0000
Subject: [PATCH 07/15] fix: setting PointCurrentWholeSpace.location no longer
 writes into the caller's array

---
 geoana/em/static/wholespace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index 09b9068..f7c9434 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1122,7 +1122,7 @@ class PointCurrentWholeSpace(LineCurrentWholeSpace):
             raise ValueError(
                 f"location must be array_like with shape (3,), got {len(vec)}"
             )
-        self.nodes[0] = vec
+        self.nodes = vec
 
     def potential(self, xyz):
         """Electric potential for a point current in a wholespace.
-- 
2.43.0


From 1ebc31dcd53b14f7b43f30a6f6c79ae1e5a10c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:38 +0000
Subject: [PATCH 08/15] fix: rotation_matrix_from_normals for nearly
 anti-parallel vectors

---
 geoana/spatial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/geoana/spatial.py b/geoana/spatial.py
index 9e2dd2b..f2b8bdd 100644
--- a/geoana/spatial.py
+++ b/geoana/spatial.py
@@ -603,7 +603,9 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
     v0dotv1 = v0.dot(v1)
 
     # define the rotation axis, which is the cross product of the two vectors
-    rotation_axis = np.cross(v0, v1)
+    # (through v0 + v1, which is exact for nearly anti-parallel vectors)
+    v0plusv1 = v0 + v1
+    rotation_axis = np.cross(v0, v0plusv1)
 
     if np.linalg.norm(rotation_axis) < tol:
         # check if vectors were anti-parallel.
@@ -624,7 +626,8 @@ def rotation_matrix_from_normals(v0, v1, tol=1e-20, as_matrix=True):
                 return Rotation.from_matrix(mat)
 
 
-    w = 1 + v0dotv1
+    # equal to 1 + v0.v1, without the cancellation for nearly anti-parallel vectors
+    w = 0.5 * v0plusv1.dot(v0plusv1)
     rot = Rotation.from_quat(np.r_[rotation_axis, w])
 
     if as_matrix:
-- 
2.43.0


From da898048dfbadf35f2f815a1b3a3fa50e4275c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:00 +0000
Subject: [PATCH 09/15] fix: MagneticDipoleHalfSpace.magnetic_field accepts a
 scalar frequency

---
 geoana/em/fdem/halfspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index dce8a39..0b373e2 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -95,7 +95,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
         y = dxy[..., 1]
 
         for dim in range(r.ndim):
-            k = k[:, None]
+            k = k[..., None]
 
         em_x = em_y = em_z = 0
         src_x, src_y, src_z = self.orientation
-- 
2.43.0


From 677dd277f122fdf9c494cf1883702d680de38eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:06 +0000
Subject: [PATCH 10/15] fix: line current flux density is finite on the
 extension of a segment

The difference of the direction cosines divided by the distance to the line
is 0/0 for observers collinear with a segment (e.g. in line with one side of a
rectangular loop) and cancels badly next to it.
---
 geoana/em/static/wholespace.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/geoana/em/static/wholespace.py b/geoana/em/static/wholespace.py
index f7c9434..a5dd913 100644
--- a/geoana/em/static/wholespace.py
+++ b/geoana/em/static/wholespace.py
@@ -1015,7 +1015,17 @@ class LineCurrentWholeSpace(BaseLineCurrent, BaseEM):
 
             cyl_points = cartesian_to_cylindrical(r0_vec[..., 1:])
 
-            temp_storage[..., 1] = (r1_hat[..., 0] - r0_hat[..., 0])/cyl_points[..., 0]
+            # beyond the ends of the segment the difference of the cosines cancels (and
+            # is 0/0 on the extension of the segment), so use the equivalent form there.
+            rho = cyl_points[..., 0]
+            beyond = r0_hat[..., 0] * r1_hat[..., 0] > 0
+            top = np.where(
+                beyond,
+                rho * (1 / r0[..., 0]**2 - 1 / r1[..., 0]**2),
+                r1_hat[..., 0] - r0_hat[..., 0]
+            )
+            bottom = np.where(beyond, r1_hat[..., 0] + r0_hat[..., 0], rho)
+            temp_storage[..., 1] = top / bottom
             temp_storage[..., 1:] = cylindrical_to_cartesian(cyl_points, temp_storage)
 
             # the undo the local rotation...
-- 
2.43.0


From 74b0fdad14d4abe88af4c215622adacabc4b6d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:50 +0000
Subject: [PATCH 11/15] fix: plane waves reject unknown orientation strings

---
 geoana/em/fdem/wholespace.py | 2 ++
 geoana/em/tdem/wholespace.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/geoana/em/fdem/wholespace.py b/geoana/em/fdem/wholespace.py
index d2430e5..dacfc3e 100644
--- a/geoana/em/fdem/wholespace.py
+++ b/geoana/em/fdem/wholespace.py
@@ -980,6 +980,8 @@ class HarmonicPlaneWave(BaseFDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
diff --git a/geoana/em/tdem/wholespace.py b/geoana/em/tdem/wholespace.py
index 94115ca..c2b6797 100644
--- a/geoana/em/tdem/wholespace.py
+++ b/geoana/em/tdem/wholespace.py
@@ -657,6 +657,8 @@ class TransientPlaneWave(BaseTDEM):
                 var = np.r_[1., 0., 0.]
             elif var.upper() == 'Y':
                 var = np.r_[0., 1., 0.]
+            else:
+                raise ValueError("Orientation must be one of {'X','Y'}")
         else:
             try:
                 var = np.asarray(var, dtype=float)
-- 
2.43.0


From f3a4d2bf860da534e4b3e76be1e59c1dc2d08ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:59 +0000
Subject: [PATCH 12/15] fix: dipoles over a half-space reject a source moved
 off its domain after construction

---
 geoana/em/fdem/halfspace.py | 1 +
 geoana/em/fdem/layered.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/geoana/em/fdem/halfspace.py b/geoana/em/fdem/halfspace.py
index 0b373e2..21cd49a 100644
--- a/geoana/em/fdem/halfspace.py
+++ b/geoana/em/fdem/halfspace.py
@@ -84,6 +84,7 @@ class MagneticDipoleHalfSpace(BaseFDEM, BaseMagneticDipole):
 
 
         """
+        self._check_is_valid_location()
         f = self.frequency
         sig = self.sigma_hat
         w = 2*np.pi*f
diff --git a/geoana/em/fdem/layered.py b/geoana/em/fdem/layered.py
index 3cf84ba..f459b3e 100644
--- a/geoana/em/fdem/layered.py
+++ b/geoana/em/fdem/layered.py
@@ -397,6 +397,7 @@ class MagneticDipoleLayeredHalfSpace(BaseFDEM, BaseMagneticDipole):
 
         """
 
+        self._check_is_valid_location()
         if (xyz[:, 2] < 0.0).any():
             raise ValueError("Cannot compute fields below the surface")
         h = self.location[2]
-- 
2.43.0


From 3d8511b6919c2e3671762711768698cab3bd61ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:47 +0000
Subject: [PATCH 13/15] fix: Oksar.V, local_rigidity and event_date return what
 was assigned

---
 geoana/earthquake/oksar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 109d92e..78875e9 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -399,7 +399,7 @@ class EarthquakeInterferogram:
         except:
             raise TypeError("local_rigidity must be a float")
 
-        self._rigidity = var
+        self._local_rigidity = var
 
     @property
     def processed_by(self):
@@ -645,7 +645,7 @@ class EarthquakeInterferogram:
         datetime.datetime
             The date and time
         """
-        return self._processed_date
+        return self._event_date
 
     @event_date.setter
     def event_date(self, date_time):
@@ -1001,7 +1001,7 @@ class Oksar:
             V direction of the simulation domain
 
         """
-        return self._location
+        return self._V
 
     @V.setter
     def V(self, var):
-- 
2.43.0


From db6ce0b1fdd056d10171945ea67c5e935c6c25f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:48 +0000
Subject: [PATCH 14/15] fix: Oksar.simulation_grid spans the U and V directions
 when they are not axis aligned

---
 geoana/earthquake/oksar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 78875e9..59958f4 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1284,7 +1284,7 @@ class Oksar:
         """
         shape = self.shape
         origin = self.O
-        R = np.stack([self.U, self.V])
+        R = np.stack([self.U, self.V], axis=-1)
         square = np.meshgrid(
             np.linspace(0, 1, shape[0]),
             np.linspace(0, 1, shape[1])
-- 
2.43.0


From e3493d3c76876ded5a93ca3cd7af667e6832c598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:57 +0000
Subject: [PATCH 15/15] fix: Oksar.displacement_vector returns one displacement
 per grid point

---
 geoana/earthquake/oksar.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/geoana/earthquake/oksar.py b/geoana/earthquake/oksar.py
index 59958f4..6944976 100644
--- a/geoana/earthquake/oksar.py
+++ b/geoana/earthquake/oksar.py
@@ -1346,9 +1346,9 @@ class Oksar:
 
         u = self._dc3d3(alpha, X, Y, -dip, al1, al2, aw1, aw2, us, ud)
 
-        UX = ct*u[...,0] + st*u[...,1]
-        UY = -st*u[...,0] + ct*u[...,1]
-        UZ = u[..., 2]
+        UX = ct*u[0] + st*u[1]
+        UY = -st*u[0] + ct*u[1]
+        UZ = u[2]
 
         return np.stack([UX, UY, UZ], axis=-1)
 
@@ -1359,8 +1359,7 @@ class Oksar:
         PI2 = 6.283185307179586
         EPS = 1.0E-6
 
-        u = np.array([F0, F0, F0])
-        dub = np.array([F0, F0, F0])
+        u = np.zeros((3, len(X)))
 
         #  %%dccon0 subroutine
         #  Calculates medium and fault dip constants
@@ -1509,7 +1508,7 @@ class Oksar:
                     du2 = np.array([du2x, du2y, du2z])
                     dub = du2 * (disl1 / PI2)
                 else:
-                    dub = np.zeros(3)
+                    dub = np.zeros((3, len(X)))
 
                 # dip-slip contribution
                 if(disl2 != F0):
-- 
2.43.0

