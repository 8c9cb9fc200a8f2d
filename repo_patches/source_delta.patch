From b1222b3d2d12313ad84dddb6bfc010a17b7c3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:12 +0000
Subject: [PATCH 01/49] fix: Euler angle extraction at gimbal lock with
 round-off in the matrix

---
 rainbow/math/euler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/euler.py b/rainbow/math/euler.py
index f62b8d5..52a5eda 100644
--- a/rainbow/math/euler.py
+++ b/rainbow/math/euler.py
@@ -18,11 +18,13 @@ def make_euler_xyz_from_matrix(R):
     r21 = R[2, 1]
     r22 = R[2, 2]
 
-    if r20 >= 1.0:
+    # At gimbal lock only the sum or difference of the x and z angles is determined, and r00, r10, r21 and r22 hold
+    # nothing but round-off. Round-off also means |r20| may be slightly less than one at gimbal lock.
+    if r20 >= 1.0 - 1e-14:
         rz = atan2(-r01, -r02)
         ry = -pi / 2.0
         rx = 0.0
-    elif r20 <= -1.0:
+    elif r20 <= -1.0 + 1e-14:
         rz = atan2(-r01, r02)
         ry = pi / 2.0
         rx = 0.0
-- 
2.43.0


From 9ca519f1b9c1256187786e09642f6ad38dc52e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 02/49] fix: logarithm of the identity quaternion and of
 quaternions with round-off in the scalar part

---
 rainbow/math/expmap.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rainbow/math/expmap.py b/rainbow/math/expmap.py
index 50442c5..ed0b86d 100644
--- a/rainbow/math/expmap.py
+++ b/rainbow/math/expmap.py
@@ -1,7 +1,7 @@
 import rainbow.math.matrix3 as M3
 import rainbow.math.vector3 as V3
 import rainbow.math.quaternion as Q
-from math import cos, sin, pi, acos, fmod, fabs
+from math import cos, sin, pi, atan2, fmod, fabs
 from numpy import tan
 
 
@@ -96,8 +96,12 @@ def log(q):
         #
         # If q is the identity quaternion the log(q) should map to zero vector. Recall that
         # identity is given by q = [1 0 0 0] the above works for this.
-        t = acos(q[0])
-        s = sin(t)
+        # Here, sin(t) is the length of w. If w is zero (or tiny) then acos(s) and sin(t) cannot be used: acos is undefined
+        # if round-off makes |s| larger than one, and division by sin(t) is undefined for the identity quaternion.
+        s = V3.norm(q[1:])
+        if s == 0.0:
+            return V3.zero()
+        t = atan2(s, q[0])
         f = 2 * t / s
         return V3.make(f * q[1], f * q[2], f * q[3])
     return V3.zero()
-- 
2.43.0


From a72d2b450e4914abc0c58a0a7b9b80bfb7816724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:30 +0000
Subject: [PATCH 03/49] fix: spherical interpolation of nearly antipodal
 quaternions

---
 rainbow/math/quaternion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 610d029..5d41e04 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -319,7 +319,7 @@ def slerp(a, b, t):
     small_angle_threshold = 0.9999999
 
     if dot > small_angle_threshold:
-        return unit(lerp(a, b, t))
+        return unit(lerp(-a, b, t)) if flip else unit(lerp(a, b, t))
 
     omega = acos(dot)
     sin_omega = sin(omega)
-- 
2.43.0


From 767291ffec36e3c26b93d9ee09af5b0e68fdbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 04/49] fix: sign of the leading term lost when a polynomial is
 converted to text

---
 rainbow/math/polynomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/polynomial.py b/rainbow/math/polynomial.py
index 7a096fd..6158188 100644
--- a/rainbow/math/polynomial.py
+++ b/rainbow/math/polynomial.py
@@ -314,8 +314,8 @@ def to_str(P: Poly) -> str:
         if len(polynomial) > 0:
             if len(term) > 0:
                 polynomial += " " + sign + " " + term
-        else:
-            polynomial = term
+        elif len(term) > 0:
+            polynomial = "-" + term if sign == "-" else term
     return polynomial
 
 
-- 
2.43.0


From 7cd4d9c8b8c140ff127ec19e0135c4738aad9ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 05/49] fix: numbers such as 0.05 or 1e-05 rejected when
 parsing vectors and rotations

---
 rainbow/util/parse_string.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rainbow/util/parse_string.py b/rainbow/util/parse_string.py
index da2b387..4ea34fd 100644
--- a/rainbow/util/parse_string.py
+++ b/rainbow/util/parse_string.py
@@ -7,12 +7,13 @@ import pyparsing as pp
     write directly using python.
 '''
 
-Integer          = pp.Regex("([1-9]\d*|0)")
-Float            = Integer + "." + Integer
+Integer          = pp.Regex(r"([1-9]\d*|0)")
+Float            = pp.Regex(r"([1-9]\d*|0)\.\d+")
 Number_unsigned  = (Float | Integer)
 Number_signed    = ("-" + Number_unsigned | Number_unsigned)
-Number_pos_scientific  = Number_signed + "e" + "+" + Number_unsigned
-Number_neg_scientific  = Number_signed + "e" + "-" + Number_unsigned
+Exponent         = (Float | pp.Regex(r"\d+"))
+Number_pos_scientific  = Number_signed + "e" + "+" + Exponent
+Number_neg_scientific  = Number_signed + "e" + "-" + Exponent
 Number_scientific      = (Number_pos_scientific | Number_neg_scientific)
 Number                 = (Number_scientific | Number_signed)
 Letters  = pp.Word(pp.alphas)
-- 
2.43.0


From 9f98b52dd777f043cc5c969887d8994cf7609fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:04 +0000
Subject: [PATCH 06/49] fix: malformed numbers silently truncated when parsing
 vectors and rotations

---
 rainbow/math/quaternion.py | 2 +-
 rainbow/math/vector3.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/math/quaternion.py b/rainbow/math/quaternion.py
index 5d41e04..bf54bc5 100644
--- a/rainbow/math/quaternion.py
+++ b/rainbow/math/quaternion.py
@@ -58,7 +58,7 @@ def from_string(value):
         axis = V3.from_string(axis_str)
         return Ru(radians, axis)
 
-    string_2_array =  np.fromstring(value_lower.strip("[]"), dtype=np.float64, sep=",")
+    string_2_array = np.array([float(number) for number in value_lower.strip("[] ").split(",")], dtype=np.float64)
 
     assert len(string_2_array) >= 4
 
diff --git a/rainbow/math/vector3.py b/rainbow/math/vector3.py
index bc4718c..9cbdab1 100644
--- a/rainbow/math/vector3.py
+++ b/rainbow/math/vector3.py
@@ -53,7 +53,7 @@ def from_string(value):
         (lower_str, upper_str) = value_lower.strip("rand:").split(":")
         return rand(float(lower_str), float(upper_str))
     
-    string_2_array =  np.fromstring(value_lower.strip("[]"), dtype=np.float64, sep=",")
+    string_2_array = np.array([float(number) for number in value_lower.strip("[] ").split(",")], dtype=np.float64)
 
     assert len(string_2_array) >= 3
 
-- 
2.43.0


From 6871c0e157d3460bfd5ccdc7f5a06154a5bdc1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:30 +0000
Subject: [PATCH 07/49] fix: direction of most variance read a row instead of a
 column of the eigenvector matrix

---
 rainbow/math/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 8b2c133..6068a15 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -45,4 +45,4 @@ def direction_of_most_variance(P):
     """
     _, values, vectors = PCA(P)            # Returns eigenvalue not sorted
     largest_eigenv_idx = np.argmax(values)
-    return vectors[largest_eigenv_idx]
+    return vectors[:, largest_eigenv_idx]
-- 
2.43.0


From 2530d79f1d15dbcd8ba654ea2032d678e04c9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:58 +0000
Subject: [PATCH 08/49] fix: complex principal directions of point sets with
 nearly repeated variances

---
 rainbow/math/functions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rainbow/math/functions.py b/rainbow/math/functions.py
index 6068a15..1521170 100644
--- a/rainbow/math/functions.py
+++ b/rainbow/math/functions.py
@@ -34,6 +34,9 @@ def PCA(P):
     C = P - mean
     V = np.cov(C.T)
     values, vectors = np.linalg.eig(V)
+    if np.iscomplexobj(values):
+        # Round-off can turn (nearly) repeated variances into a complex conjugated pair
+        values, vectors = np.linalg.eigh(V)
     return mean, values, vectors
 
 
-- 
2.43.0


From aa4a76cbb6f4b2b5d9844886b8315539400fd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 09/49] fix: gradient of the regular grid interpolation used
 the origin instead of the spacing

---
 rainbow/geometry/grid3.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/grid3.py b/rainbow/geometry/grid3.py
index 2f052c2..d7cea98 100644
--- a/rainbow/geometry/grid3.py
+++ b/rainbow/geometry/grid3.py
@@ -206,9 +206,9 @@ def get_gradient(grid, p):
     d101 = grid.get_node_value(i + 1, j, k + 1)
     d110 = grid.get_node_value(i + 1, j + 1, k)
     d111 = grid.get_node_value(i + 1, j + 1, k + 1)
-    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.min_coord[0]
-    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.min_coord[1]
-    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.min_coord[2]
+    s = (p[0] - (i * grid.spacing[0] + grid.min_coord[0])) / grid.spacing[0]
+    t = (p[1] - (j * grid.spacing[1] + grid.min_coord[1])) / grid.spacing[1]
+    u = (p[2] - (k * grid.spacing[2] + grid.min_coord[2])) / grid.spacing[2]
 
     #
     #             011
-- 
2.43.0


From df156b6ff3006f29ff68f9bbe4ffe68068e70a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 10/49] fix: interior sample points of a tetrahedron were its
 face points

---
 rainbow/geometry/tetrahedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/tetrahedron.py b/rainbow/geometry/tetrahedron.py
index 6848b86..cfb8718 100644
--- a/rainbow/geometry/tetrahedron.py
+++ b/rainbow/geometry/tetrahedron.py
@@ -240,4 +240,4 @@ def generate_interior_sample_points(N):
              iso-parametric tetrahedron.
     """
     S = generate_sample_points(N)
-    return S[np.count_nonzero(S, axis=1) == 3]
+    return S[np.count_nonzero(S, axis=1) == 4]
-- 
2.43.0


From ec39cb3779be5c9af695a8408721fe55732dc2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 11/49] fix: spatial hash grid reported objects of earlier time
 stamps

---
 rainbow/geometry/spatial_hashing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rainbow/geometry/spatial_hashing.py b/rainbow/geometry/spatial_hashing.py
index 68df209..4696de9 100644
--- a/rainbow/geometry/spatial_hashing.py
+++ b/rainbow/geometry/spatial_hashing.py
@@ -189,7 +189,8 @@ class HashGird:
             self.hash_tbale[hv] = HashCell()
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         else:
-            overlaps = self.hash_tbale[hv].object_list
+            if self.hash_tbale[hv].time_stamp >= time_stamp:
+                overlaps = self.hash_tbale[hv].object_list
             self.hash_tbale[hv].add((tri_idx, body_idx, tri_aabb), time_stamp)
         return overlaps
     
-- 
2.43.0


From 9184f0d8458a7d08f40f46f812ccbc8dfdee0681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:42 +0000
Subject: [PATCH 12/49] fix: interior points classified as outside because
 their barycentric coordinates sum to one plus round-off

---
 rainbow/geometry/barycentric.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rainbow/geometry/barycentric.py b/rainbow/geometry/barycentric.py
index 23cccd4..0fb10d3 100644
--- a/rainbow/geometry/barycentric.py
+++ b/rainbow/geometry/barycentric.py
@@ -1,6 +1,9 @@
 import rainbow.math.matrix3 as M3
 import numpy as np
 
+# The sum of computed barycentric coordinates differs from one by round-off
+SUM_TOLERANCE = 1e-9
+
 
 def compute_barycentric_edge(x1, x2, p):
     """
@@ -149,7 +152,7 @@ def is_inside_edge(w1, w2) -> bool:
         return False
     if w2 > 1.0:
         return False
-    if w1 + w2 > 1.0:
+    if w1 + w2 > 1.0 + SUM_TOLERANCE:
         return False
     if w1 + w2 < 0.0:
         return False
@@ -180,7 +183,7 @@ def is_inside_triangle(w1, w2, w3) -> bool:
         return False
     if w3 > 1.0:
         return False
-    if w1 + w2 + w3 > 1.0:
+    if w1 + w2 + w3 > 1.0 + SUM_TOLERANCE:
         return False
     if w1 + w2 + w3 < 0.0:
         return False
@@ -217,7 +220,7 @@ def is_inside_tetrahedron(w1, w2, w3, w4) -> bool:
         return False
     if w4 > 1.0:
         return False
-    if w1 + w2 + w3 + w4 > 1.0:
+    if w1 + w2 + w3 + w4 > 1.0 + SUM_TOLERANCE:
         return False
     if w1 + w2 + w3 + w4 < 0.0:
         return False
-- 
2.43.0


From c5862f1e34f75f0eefb344ebd51106e5f8459160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:19 +0000
Subject: [PATCH 13/49] fix: loop subdivision of a tetrahedral mesh inverted
 one child of every element

---
 rainbow/geometry/volume_mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/geometry/volume_mesh.py b/rainbow/geometry/volume_mesh.py
index 3ba8ee0..476cadf 100644
--- a/rainbow/geometry/volume_mesh.py
+++ b/rainbow/geometry/volume_mesh.py
@@ -210,7 +210,7 @@ def create_loop_subdivision(V, T):
         jm, pjm = create_midpoint(j, m, pj, pm, lut, offset)
         km, pkm = create_midpoint(k, m, pk, pm, lut, offset)
         T[e] = [im, jm, km, m]
-        T[last] = [ij, ik, im, i]
+        T[last] = [ik, ij, im, i]
         T[last + 1] = [ij, jk, jm, j]
         T[last + 2] = [ik, km, jk, k]
         T[last + 3] = [ik, im, ij, jm]
-- 
2.43.0


From 9d46e4daa3035c52a77e75ecd22ae47c954f65d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 14/49] fix: rigid bodies closer than half a unit to the border
 of a distance field had no contact points

---
 rainbow/simulators/prox_rigid_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index 5ec9c91..db4f09a 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -169,7 +169,7 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.shape.grid, x_i):
+        if GRID.is_inside(bodyB.shape.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.shape.grid, x_i)
-- 
2.43.0


From b462b44e6a44432e258696f8967e77624d5f1132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 15/49] fix: search for the deepest point of a triangle
 depended on the origin of the body frame and stopped early (rigid bodies)

---
 .../prox_rigid_bodies/collision_detection.py         | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/collision_detection.py b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
index db4f09a..22b2243 100644
--- a/rainbow/simulators/prox_rigid_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_rigid_bodies/collision_detection.py
@@ -142,14 +142,10 @@ def _compute_contacts(engine: Engine, bodyA: RigidBody, bodyB: RigidBody, triang
         # Next we are ready for performing the actual optimization, and we set up
         # a loop running for a maximum allowed number of iterations.
         for i in range(engine.params.contact_optimization_max_iterations):
-            # TODO 2022-01-02 Kenny: The computation of the objectives repeats the same gradient computation three
-            #  times. This could be optimized by simply storing the value of the norm of the gradient
-            #  of x_i in a local variable.
-            # Pick the triangle vertex 's_i' which minimizes the dot product with
-            # the current gradient at 'x_i'. That is the vertex with "largest" descent.
-            objectives = [
-                np.dot(s_i, GRID.get_gradient(bodyB.shape.grid, x_i)) for s_i in p_bs
-            ]
+            # Pick the triangle vertex 's_i' which minimizes the directional derivative from 'x_i' towards it.
+            # That is the vertex with "largest" descent.
+            gradient = GRID.get_gradient(bodyB.shape.grid, x_i)
+            objectives = [np.dot(s_i - x_i, gradient) for s_i in p_bs]
             vertex = np.argmin(objectives)
             s_i = p_bs[vertex]
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
-- 
2.43.0


From 67790edbab35827a97821ed81312d6d740f19975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 16/49] fix: search for the deepest point of a triangle
 depended on the origin of the material frame and stopped early (soft bodies)

---
 .../simulators/prox_soft_bodies/collision_detection.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 49723f4..fd8bd7f 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -323,12 +323,10 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # Next we are ready for performing the actual optimization, and we set up
         # a loop running for a maximum allowed number of iterations.
         for i in range(engine.params.contact_optimization_max_iterations):
-            # TODO 2022-01-02 Kenny: The computation of the objectives repeats the same gradient computation three
-            #  times. This could be optimized by simply storing the value of the norm of the gradient
-            #  of x_i in a local variable.
-            # Pick the triangle vertex 's_i' which minimizes the dot product with
-            # the current gradient at 'x_i'. That is the vertex with "largest" descent.
-            objectives = [np.dot(s_i, GRID.get_gradient(bodyB.grid, x_i)) for s_i in P0]
+            # Pick the triangle vertex 's_i' which minimizes the directional derivative from 'x_i' towards it.
+            # That is the vertex with "largest" descent.
+            gradient = GRID.get_gradient(bodyB.grid, x_i)
+            objectives = [np.dot(s_i - x_i, gradient) for s_i in P0]
             vertex = np.argmin(objectives)
             s_i = P0[vertex]
             # Knowing that 's_i' has a "better" descent direction we update 'x_i' by "dragging" it
-- 
2.43.0


From 7c4ff444795b296c6113e0d52f4837aa68087f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:18 +0000
Subject: [PATCH 17/49] fix: soft bodies closer than half a unit to the border
 of a distance field had no contact points

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index fd8bd7f..e603d8b 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -346,7 +346,7 @@ def _compute_contacts(engine, stats, bodyA, bodyB, results, debug_on):
         # We have now optimized for the deepest penetrating point on the triangle, and now we can use this
         # point and the SDF from body B to generate a contact point between body A and body B. First we test
         # if our triangle point is even inside axis aligned bounding box (AABB) around the SDF of body B.
-        if GRID.is_inside(bodyB.grid, x_i):
+        if GRID.is_inside(bodyB.grid, x_i, boundary=0.0):
             # If we are inside the AABB then we look up the actual SDF value at the point. If the SDF value
             # is non-positive then we know we have a "true" contact point.
             phi = GRID.get_value(bodyB.grid, x_i)
-- 
2.43.0


From e32cc206686fc1641054de8fc66790b02bb138e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 18/49] fix: body frames of shapes with two equal moments of
 inertia were not orthogonal

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index a35d75c..4e919f1 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -301,7 +301,7 @@ def __rotate_to_model_space_orientation(prop: MassProperties) -> tuple[np.ndarra
         prop.Izz,
     )
 
-    d, R = np.linalg.eig(A)
+    d, R = np.linalg.eigh(A)  # The inertia tensor is symmetric
 
     permutations = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [2, 0, 1], [1, 2, 0], [2, 1, 0]]
 
-- 
2.43.0


From e5dad99fd510694e5c87e0c3cf244fdf99f694ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 19/49] fix: inertia of small shapes lost or even negative
 because of absolute thresholds

---
 rainbow/simulators/prox_rigid_bodies/mass.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/mass.py b/rainbow/simulators/prox_rigid_bodies/mass.py
index 4e919f1..0c9a7d8 100644
--- a/rainbow/simulators/prox_rigid_bodies/mass.py
+++ b/rainbow/simulators/prox_rigid_bodies/mass.py
@@ -269,14 +269,15 @@ def compute_mass_properties(V: np.ndarray, T: np.ndarray, density: float) -> Mas
         )
     # We clamp computed values to zero if they are very tiny numbers.
     # This is mainly due to making inertia tensor more human-readable when printing it.
+    # The inertia terms are compared to the largest of them, such that small objects keep their inertia.
     too_small = 1.0e-10
-    prop.mass = prop.mass if prop.mass > too_small else 0.0
-    prop.Ixx = prop.Ixx if prop.Ixx > too_small else 0.0
-    prop.Iyy = prop.Iyy if prop.Iyy > too_small else 0.0
-    prop.Izz = prop.Izz if prop.Izz > too_small else 0.0
-    prop.Ixy = prop.Ixy if abs(prop.Ixy) > too_small else 0.0
-    prop.Iyz = prop.Iyz if abs(prop.Iyz) > too_small else 0.0
-    prop.Ixz = prop.Ixz if abs(prop.Ixz) > too_small else 0.0
+    too_small_inertia = too_small * max(prop.Ixx, prop.Iyy, prop.Izz)
+    prop.Ixx = prop.Ixx if prop.Ixx > too_small_inertia else 0.0
+    prop.Iyy = prop.Iyy if prop.Iyy > too_small_inertia else 0.0
+    prop.Izz = prop.Izz if prop.Izz > too_small_inertia else 0.0
+    prop.Ixy = prop.Ixy if abs(prop.Ixy) > too_small_inertia else 0.0
+    prop.Iyz = prop.Iyz if abs(prop.Iyz) > too_small_inertia else 0.0
+    prop.Ixz = prop.Ixz if abs(prop.Ixz) > too_small_inertia else 0.0
     prop.x = prop.x if abs(prop.x) > too_small else 0.0
     prop.y = prop.y if abs(prop.y) > too_small else 0.0
     prop.z = prop.z if abs(prop.z) > too_small else 0.0
@@ -346,7 +347,7 @@ def __translate_to_body_space_origin(prop_model: MassProperties) -> tuple[np.nda
     prop_body.Iyy = prop_model.Iyy - m * (x * x + z * z)
     prop_body.Izz = prop_model.Izz - m * (x * x + y * y)
 
-    too_small = 1.0e-10
+    too_small = 1.0e-10 * max(prop_body.Ixx, prop_body.Iyy, prop_body.Izz)
     prop_body.Ixy = prop_model.Ixy + m * (x * y)
     prop_body.Ixy = prop_body.Ixy if np.abs(prop_body.Ixy) > too_small else 0.0
     prop_body.Ixz = prop_model.Ixz + m * (x * z)
-- 
2.43.0


From e24568d9e98a8cfb287f415cc9211704c3b6da0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:15 +0000
Subject: [PATCH 20/49] fix: simulate() took an additional step as short as
 round-off, which stabilization turned into huge velocities

---
 rainbow/simulators/prox_rigid_bodies/api.py | 4 +++-
 rainbow/simulators/prox_soft_bodies/api.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index 53c3bfb..ed9b8d2 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -687,7 +687,9 @@ def simulate(engine: Engine, T: float, profiling_on: bool = False) -> None:
     if engine.stepper is None:
         raise ValueError("A time-stepper must be initialized")
     T_left = T
-    while T_left:
+    # What round-off leaves of the requested time is not worth a time-step.
+    round_off = 1.0e-6 * min(T, engine.params.time_step)
+    while T_left > round_off:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, profiling_on)
         T_left -= dt
diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 9585287..ce9962f 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -398,7 +398,9 @@ def simulate(engine, T: float, debug_on: bool = False) -> None:
     if engine.stepper is None:
         engine.stepper = SOLVER.SemiImplicitStepper(engine, debug_on)
     T_left = T
-    while T_left:
+    # What round-off leaves of the requested time is not worth a time-step.
+    round_off = 1.0e-6 * min(T, engine.params.time_step)
+    while T_left > round_off:
         dt = min(T_left, engine.params.time_step)
         engine.stepper.step(dt, engine, debug_on)
         T_left -= dt
-- 
2.43.0


From 2356731f5764e3d0434d26a28eaaa42390a5ba66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:56 +0000
Subject: [PATCH 21/49] fix: rigid body solver stopped at the first divergent
 sweep and left penetrating velocities

---
 rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
index 00323be..696bf23 100644
--- a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
+++ b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
@@ -45,6 +45,8 @@ def solve(
 
         # Keep track of the overall merit across all problems we are solving
         global_merit = 0
+        # A roll-back repeats the last merit value; that must not be mistaken for convergence.
+        diverged = False
 
         for index, problem in enumerate(Problems):
             last_merit = last_merit_values[index]
@@ -56,6 +58,7 @@ def solve(
             # Update r-factors to ensure we have a convergent scheme
             if merit > last_merit:
                 # Divergence was detected: we will reduce R-factor
+                diverged = True
                 problem.change_r_factors(nu_reduce)
                 #  Next, we roll back the current iterate to the last known good solution
                 problem.rollback_iterate()
@@ -83,7 +86,7 @@ def solve(
                 performance_data[prefix + "solver_time"] = timer.elapsed
             return
         # Test for relative convergence
-        if np.abs(global_merit - global_last_merit) < engine.params.relative_tolerance * global_last_merit:
+        if not diverged and np.abs(global_merit - global_last_merit) < engine.params.relative_tolerance * global_last_merit:
             if profiling_on:
                 timer.end()
                 performance_data[prefix + "iterations"] = iteration
-- 
2.43.0


From 822724714b94a02545279d80007be0afd87e822f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:21 +0000
Subject: [PATCH 22/49] fix: stabilization of hinges amplified the drift of
 anchors and axes instead of reducing it

---
 rainbow/simulators/prox_rigid_bodies/constraints/hinges.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index e8e4491..9ac6fad 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -208,9 +208,10 @@ class Hinges(Problem):
 
             n_c = Q.rotate(hinge.child.q, hinge.axis_c)
 
-            u = V3.cross(n_p, n_c)
+            u = V3.cross(n_c, n_p)
 
-            g[offset:offset + 3] = (r_c - r_p)
+            # The signs are those of the Jacobian, which measures the motion of the parent relative to the child.
+            g[offset:offset + 3] = (r_p - r_c)
             g[offset + 3] = t_p.dot(u)
             g[offset + 4] = b_p.dot(u)
         rate = engine.params.gap_reduction / dt
-- 
2.43.0


From 4ad47f7c8dc214d2efeebfb9757c5d49ba0cc673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 23/49] fix: parallel Gauss-Seidel contact solver failed on
 machines with a single core

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 8d16276..235f7f2 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -99,7 +99,7 @@ class ParallelGaussSeidelSolver(SolverInterface):
         color_groups = BLOCKING.greedy_graph_coloring(G)
 
         # Set the number of threads
-        nb.set_num_threads(4 if (nb.config.NUMBA_NUM_THREADS // 2) >= 4 else nb.config.NUMBA_NUM_THREADS // 2)
+        nb.set_num_threads(max(1, min(4, nb.config.NUMBA_NUM_THREADS // 2)))
 
         # Compute the new contact force
         w0 = self.WJT.dot(self.x)
-- 
2.43.0


From af88208e8b5e6df617eeab61f8b8575900d506ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:15 +0000
Subject: [PATCH 24/49] fix: parallel Gauss-Seidel sweep ignored the updates of
 earlier colours beyond the first block of a colour

---
 rainbow/simulators/proximal_contact/gauss_seidel_solver.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
index 235f7f2..087eed1 100644
--- a/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
+++ b/rainbow/simulators/proximal_contact/gauss_seidel_solver.py
@@ -105,10 +105,8 @@ class ParallelGaussSeidelSolver(SolverInterface):
         w0 = self.WJT.dot(self.x)
         delta_ws = np.zeros((self.WJT.shape[1]//4, w0.shape[0]), dtype=np.float64)
         for color_group in color_groups.values():
-            w = w0.copy()
-            block_start, _ = color_group[0]
-            for i in range(block_start // 4):
-                w += delta_ws[i]
+            # The changes made by all the colors processed so far
+            w = w0 + np.sum(delta_ws, axis=0)
 
             self.x, delta_ws = sweep_worker(np.array(color_group), 
                                             self.J.toarray(), 
-- 
2.43.0


From 98843d049294954025beac126180abe733ffae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 25/49] fix: analytic Hessian of the inverse kinematics
 objective had transposed and wrong diagonal blocks

---
 rainbow/simulators/inverse_kinematics/api.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 66f7558..02d680b 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -339,11 +339,15 @@ def compute_hessian(chains, skeleton, J):
                 vc = np.dot(V3.cross(v, J_c), r)
                 wc = np.dot(V3.cross(w, J_c), r)
 
+                # The derivative of the k-th columns of the Jacobian wrt the angles of the h-th bone
                 dH = np.array(
-                    [[ua, va, wa],
-                     [ub, vb, wb],
-                     [uc, vc, wc]]
+                    [[ua, ub, uc],
+                     [va, vb, vc],
+                     [wa, wb, wc]]
                 )
+                if h == k:
+                    # Within a bone an angle only turns the axes of the angles that follow it.
+                    dH = np.triu(dH) + np.triu(dH, 1).T
 
                 H[h_offset:h_offset + 3, k_offset:k_offset + 3] -= dH
                 if h != k:
-- 
2.43.0


From 5aa9d96445183f17bcb9b09a62191eca14035040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:54 +0000
Subject: [PATCH 26/49] fix: finite difference derivatives left bone poses that
 did not belong to the joint angles

---
 rainbow/simulators/inverse_kinematics/api.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rainbow/simulators/inverse_kinematics/api.py b/rainbow/simulators/inverse_kinematics/api.py
index 02d680b..37c0595 100644
--- a/rainbow/simulators/inverse_kinematics/api.py
+++ b/rainbow/simulators/inverse_kinematics/api.py
@@ -533,6 +533,8 @@ def compute_finite_difference_gradient(chains, skeleton, h=0.1):
     g = np.zeros((N,), dtype=np.float64)
     for i in range(N):
         g[i] = __numerical_differentiation_first_derivative(chains, skeleton, i, h)
+    # The angles have been restored, so bring the bone poses back in agreement with them.
+    update_skeleton(skeleton)
     return g
 
 
@@ -555,5 +557,7 @@ def compute_finite_difference_hessian(chains, skeleton, h=0.1):
     for i in range(N):
         for j in range(N):
             H[i, j] = __numerical_differentiation_second_derivative(chains, skeleton, i, j, h)
+    # The angles have been restored, so bring the bone poses back in agreement with them.
+    update_skeleton(skeleton)
     return H
 
-- 
2.43.0


From 930c7e0de4d84ad696c823f2d500e5f55852fba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 27/49] fix: the corotational model (the default) failed for
 every body because it decomposed a single matrix as an array

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 62d695b..15229b7 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -211,7 +211,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The first Piola-Kirchhoff stress tensor
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         return (lambda_in * np.trace(S - np.eye(3))) * R + (2 * mu_in) * (F - R)
 
     @staticmethod
@@ -222,7 +222,7 @@ class COR:
         :param mu_in:       The second Lame parameter
         :return:            The energy density.
         """
-        R, S = M3.polar_decomposition_array(F)
+        R, S = M3.polar_decomposition(F)
         #  mu ||F - R||_F^2 + (lambda/2) tr^2 (R^T F - I)
         return mu_in * np.square(np.linalg.norm(F - R, ord="fro")) + (
             lambda_in / 2
-- 
2.43.0


From 7d8e59086bf7aeb941a7038bc7ef0828474c6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:18 +0000
Subject: [PATCH 28/49] fix: energy of the stable Neo-Hookean model used the
 binary logarithm and was no potential of its stress

---
 rainbow/simulators/prox_soft_bodies/mechanics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/mechanics.py b/rainbow/simulators/prox_soft_bodies/mechanics.py
index 15229b7..309e3a8 100644
--- a/rainbow/simulators/prox_soft_bodies/mechanics.py
+++ b/rainbow/simulators/prox_soft_bodies/mechanics.py
@@ -159,7 +159,7 @@ class SNH:
         return (
             0.5 * mu_ * (I_C - 3)
             + 0.5 * lambda_ * np.square(J - alpha)
-            - 0.5 * mu_ * np.log2(I_C + 1)
+            - 0.5 * mu_ * np.log(I_C + 1)
         )
 
 
-- 
2.43.0


From 68ba02144d4dee9a30c1b45eb25e4febf9e6f6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 29/49] fix: traction forces added up to half of area times
 load

---
 rainbow/simulators/prox_soft_bodies/solver.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index e1dc018..f275526 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -339,17 +339,18 @@ class Native:
             #                      I_3x3    I_3x3 2*I_3x3; ]
             # --- The spatial load force
             #
-            #     lf(f) = A(f) * L * [li; lj; lk]
+            #     lf(f) = 2 * A(f) * L * [li; lj; lk]
             #
-            #   where load = (li,lj,lk) is the applied surface traction.
+            #   where load = (li,lj,lk) is the applied surface traction, and the factor 2 A(f) is the Jacobian of
+            #   the map from the reference triangle (of area 1/2).
             load = traction.traction
-            Ft[traction.i] += (A / 24) * (
+            Ft[traction.i] += (A / 12) * (
                 2 * np.dot(Id, load) + np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.j] += (A / 24) * (
+            Ft[traction.j] += (A / 12) * (
                 np.dot(Id, load) + 2 * np.dot(Id, load) + np.dot(Id, load)
             )
-            Ft[traction.k] += (A / 24) * (
+            Ft[traction.k] += (A / 12) * (
                 np.dot(Id, load) + np.dot(Id, load) + 2 * np.dot(Id, load)
             )
         return Ft
-- 
2.43.0


From 51ea249e08488709420688ec361fe16f7419e964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 30/49] fix: soft bodies without an assigned material crashed
 the simulator instead of using the default material

---
 rainbow/simulators/prox_soft_bodies/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index ce9962f..21f395f 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -97,7 +97,9 @@ def create_soft_body(engine, body_name, V, T) -> None:
     body.offset = engine.number_of_nodes
     engine.number_of_nodes += len(body.x0)
 
-    
+    # Until another material is assigned the body is made of the default material.
+    set_material(engine, body_name, "default")
+
 
 def create_dirichlet_conditions(engine, body_name, phi) -> None:
     """
-- 
2.43.0


From 0e4dad5757d9ca5acdbc60120a37116896b763bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 31/49] fix: contacts between soft bodies whose materials have
 no declared interaction crashed the simulator

---
 rainbow/simulators/prox_soft_bodies/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/types.py b/rainbow/simulators/prox_soft_bodies/types.py
index 39cad06..c3de3cf 100644
--- a/rainbow/simulators/prox_soft_bodies/types.py
+++ b/rainbow/simulators/prox_soft_bodies/types.py
@@ -30,12 +30,13 @@ class SurfacesInteractionLibrary:
     def get_interaction(self, A, B):
         """
         This method retrieves the surface interaction description
-        between the given material names.
+        between the given material names, or the default interaction if
+        none has been described.
         """
         key = (A, B) if A < B else (B, A)
         if key in self.storage:
             return self.storage[key]
-        return None
+        return self.storage[("default", "default")]
 
     def exist_interaction(self, A, B):
         """
-- 
2.43.0


From 873a38cc0d9b16df771848c7c09f822b242d043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:54 +0000
Subject: [PATCH 32/49] fix: mass and damping of a soft body ignored changes of
 density and viscosity made after the material was assigned

---
 rainbow/simulators/prox_soft_bodies/api.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index 21f395f..b37e372 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -281,6 +281,16 @@ def set_material(engine, body_name, material_name) -> None:
         raise ValueError("Engine did not have a material with name ", material_name)
     material = engine.materials[material_name]
     body.material_description = material
+    __update_element_arrays(body)
+
+
+def __update_element_arrays(body) -> None:
+    """
+    Precompute the mass and damping element arrays from the current material of the body.
+
+    :param body:    The body to update.
+    :return:        Nothing.
+    """
     body.M_array = SOLVER.Native.compute_mass_element_array(
         body.material_description.rho,
         body.vol0,
@@ -328,6 +338,9 @@ def set_viscosity(engine, material_name, c) -> None:
         raise ValueError("c must be non-negative")
     material = engine.materials[material_name]
     material.c = c
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            __update_element_arrays(body)
 
 
 def set_mass_density(engine, material_name, rho) -> None:
@@ -345,6 +358,9 @@ def set_mass_density(engine, material_name, rho) -> None:
         raise ValueError("rho must be non-negative")
     material = engine.materials[material_name]
     material.rho = rho
+    for body in engine.bodies.values():
+        if body.material_description is material:
+            __update_element_arrays(body)
 
 
 def set_constitutive_model(engine, material_name, model) -> None:
-- 
2.43.0


From ba144e8aa33dc0eec7e9c9b64eb46a11eb893ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 33/49] fix: bodies added and masses changed after the first
 step were not seen by the stepper, which kept its first inverse mass matrix

---
 rainbow/simulators/prox_soft_bodies/api.py    | 11 +++++++----
 rainbow/simulators/prox_soft_bodies/solver.py |  4 ++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index b37e372..c263c23 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -281,13 +281,14 @@ def set_material(engine, body_name, material_name) -> None:
         raise ValueError("Engine did not have a material with name ", material_name)
     material = engine.materials[material_name]
     body.material_description = material
-    __update_element_arrays(body)
+    __update_element_arrays(engine, body)
 
 
-def __update_element_arrays(body) -> None:
+def __update_element_arrays(engine, body) -> None:
     """
     Precompute the mass and damping element arrays from the current material of the body.
 
+    :param engine:  The engine that contains the body.
     :param body:    The body to update.
     :return:        Nothing.
     """
@@ -300,6 +301,8 @@ def __update_element_arrays(body) -> None:
     body.C_array = SOLVER.Native.compute_damping_element_array(
         body.material_description.c, body.vol0, body.T, body.is_lumped
     )
+    if engine.stepper is not None:
+        engine.stepper.W = None  # The stepper must recompute its inverse mass matrix.
 
 
 def set_elasticity(engine, material_name, E, nu) -> None:
@@ -340,7 +343,7 @@ def set_viscosity(engine, material_name, c) -> None:
     material.c = c
     for body in engine.bodies.values():
         if body.material_description is material:
-            __update_element_arrays(body)
+            __update_element_arrays(engine, body)
 
 
 def set_mass_density(engine, material_name, rho) -> None:
@@ -360,7 +363,7 @@ def set_mass_density(engine, material_name, rho) -> None:
     material.rho = rho
     for body in engine.bodies.values():
         if body.material_description is material:
-            __update_element_arrays(body)
+            __update_element_arrays(engine, body)
 
 
 def set_constitutive_model(engine, material_name, model) -> None:
diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index f275526..cfd2ddd 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -1067,6 +1067,10 @@ class SemiImplicitStepper:
 
         stats = {}
 
+        # The inverse mass matrix is discarded when masses change or bodies are added to the world.
+        if self.W is None:
+            self.W = compute_inverse_mass_matrix(engine, stats, debug_on)
+
         x = get_position_vector(engine)
         apply_boundary_conditions_on_positions(x, engine)
 
-- 
2.43.0


From 2203aac697340562cbe6cddaef264690535d2cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 34/49] fix: soft bodies of type fixed moved and nodes with
 boundary conditions gave way to contact impulses

---
 rainbow/simulators/prox_soft_bodies/api.py    |  4 ++++
 rainbow/simulators/prox_soft_bodies/solver.py | 18 +++++++++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/api.py b/rainbow/simulators/prox_soft_bodies/api.py
index c263c23..b81633b 100644
--- a/rainbow/simulators/prox_soft_bodies/api.py
+++ b/rainbow/simulators/prox_soft_bodies/api.py
@@ -120,6 +120,8 @@ def create_dirichlet_conditions(engine, body_name, phi) -> None:
     for i in range(len(body.x0)):
         if phi(body.x0[i]) <= 0:
             body.dirichlet_conditions.append(DirichletCondition(i, body.x0[i]))
+    if engine.stepper is not None:
+        engine.stepper.W = None  # The stepper must recompute its inverse mass matrix.
 
 
 def create_traction_conditions(engine, body_name, phi, load) -> None:
@@ -219,6 +221,8 @@ def set_type(engine, body_name, body_type) -> None:
     body.is_fixed = False
     if body_type.lower() == "fixed":
         body.is_fixed = True
+    if engine.stepper is not None:
+        engine.stepper.W = None  # The stepper must recompute its inverse mass matrix.
 
 
 def create_surfaces_interaction(engine, material_A, material_B, mu) -> None:
diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index cfd2ddd..99e2d4a 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -826,10 +826,20 @@ def compute_inverse_mass_matrix(engine, stats, debug_on):
         timer = Timer("compute_inverse_mass_matrix")
         timer.start()
     M = compute_mass_matrix(engine, stats, debug_on)
+    # Nodes that can not move behave as if they had infinite mass: neither forces nor contact impulses move them.
+    is_free = np.ones(engine.number_of_nodes * 3, dtype=np.float64)
+    for body in engine.bodies.values():
+        if body.is_fixed:
+            is_free[body.offset * 3: (body.offset + len(body.x)) * 3] = 0.0
+        for dc in body.dirichlet_conditions:
+            idx = (dc.idx + body.offset) * 3
+            is_free[idx: idx + 3] = 0.0
+    S = sparse.diags(is_free, format="csr")
+    M = S.dot(M).dot(S) + sparse.diags(1.0 - is_free, format="csr")
     # TODO 2021-12-06 Kenny: Naively inverting the mass matrix is not smart at all. If lumped matrices are used then
     #  this should be exploited. Besides the CSR format is not the best for the sparse inverse, and further it is
     #  not exploited that the mass matrix is symmetric positive definite.
-    W = sparse.linalg.inv(M)
+    W = S.dot(sparse.linalg.inv(M)).dot(S)
     if debug_on:
         timer.end()
         stats["compute_inverse_mass_matrix"] = timer.elapsed
@@ -1006,7 +1016,7 @@ def apply_boundary_conditions_on_positions(x: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
-        if len(body.dirichlet_conditions) > 0:
+        if not body.is_fixed and len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices and values could be precomputed.
             indices = np.array([dc.idx for dc in body.dirichlet_conditions])
@@ -1022,7 +1032,9 @@ def apply_boundary_conditions_on_velocities(u: np.array, engine) -> None:
     :param engine:      The current engine instance we are working with.
     """
     for body in engine.bodies.values():
-        if len(body.dirichlet_conditions) > 0:
+        if body.is_fixed:
+            u[body.offset: body.offset + len(body.x)] = 0.0
+        elif len(body.dirichlet_conditions) > 0:
             # 2022-03-24 Kenny: TODO This is performance wise not the best
             #                    way to do it. Indices could be precomputed.
             indices = np.array([dc.idx for dc in body.dirichlet_conditions])
-- 
2.43.0


From 550083c1626fd22da73518ca779abf04ddb9d395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 35/49] fix: post-stabilization of soft bodies crashed because
 of vectors of the wrong size and shape

---
 rainbow/simulators/prox_soft_bodies/solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/solver.py b/rainbow/simulators/prox_soft_bodies/solver.py
index 99e2d4a..af4d8e7 100644
--- a/rainbow/simulators/prox_soft_bodies/solver.py
+++ b/rainbow/simulators/prox_soft_bodies/solver.py
@@ -974,11 +974,11 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
         timer = Timer("apply_post_stabilization")
         timer.start()
     K = len(engine.contact_points)
-    g = np.zeros(3 * K, dtype=np.float64)
+    g = np.zeros(4 * K, dtype=np.float64)
     for k in range(K):
         cp = engine.contact_points[k]
         if cp.g < -engine.params.min_gap_value:
-            g[3 * k + 0] = cp.g
+            g[4 * k + 0] = cp.g
 
     # If the gap to correct is all zeros, then just return
     if not g.any():
@@ -995,7 +995,7 @@ def apply_post_stabilization(J, WJT, engine, stats, debug_on):
     # TODO 2021-12-07 Kenny: This seems a bit silly to make this conversion. It should be abstracted
     #  away such that a developer can focus more on the high-level aspects of time integration and
     #  writing solver code.
-    np.reshape(delta_x, (-1, 3))
+    delta_x = np.reshape(delta_x, (-1, 3))
     # ---------------------------------------------------------------------
 
     x = get_position_vector(engine)
-- 
2.43.0


From a8db5efcd3c0fc8fce7e23fdf91e5ed6dab7b390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:30 +0000
Subject: [PATCH 36/49] fix: contact normals of rotated or deformed soft bodies
 pointed in wrong directions

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index e603d8b..5e16d80 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -263,7 +263,9 @@ def _xform_contact_to_world(p, n, XA, XB, X0B):
     omegaA = BC.compute_barycentric_tetrahedron(XA[0], XA[1], XA[2], XA[3], p)
     D = XB[0:3] - XB[3]
     D0 = X0B[0:3] - X0B[3]
-    n = D.dot(np.linalg.solve(D0, n))
+    # The rows of D and D0 are edge vectors, so D = D0 F^T where F is the deformation gradient. Normals transform
+    # by the inverse transpose of F.
+    n = np.linalg.solve(D, D0.dot(n))
     return p, n, omegaA, omegaB
 
 
-- 
2.43.0


From e0285302f6fb416a49cbda4057afc57aeb49b89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:12 +0000
Subject: [PATCH 37/49] fix: spatial hashing missed contacts between soft
 bodies within the envelope

---
 rainbow/simulators/prox_soft_bodies/collision_detection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index 5e16d80..f637f96 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -146,8 +146,10 @@ def _spatial_hashing_narrow_phase(engine, stats, debug_on):
     for body in engine.bodies.values():
         tri_vertices = body.x[body.surface, :]
         # Compute the AABB of each triangle by vectorizing the min/max operation
-        tri_aabb_min = np.min(tri_vertices, axis=1)
-        tri_aabb_max = np.max(tri_vertices, axis=1)
+        # The boxes are inflated by the envelope (as the bounding volumes of the BVH are) such that geometry
+        # that is close but not touching generates contact points too.
+        tri_aabb_min = np.min(tri_vertices, axis=1) - engine.params.envelope
+        tri_aabb_max = np.max(tri_vertices, axis=1) + engine.params.envelope
         cell_min = (tri_aabb_min / cell_size).astype(int)
         cell_max = (tri_aabb_max / cell_size).astype(int) + 1
 
-- 
2.43.0


From 3a299561a43fd2964f1fcc4aa46df30353f2c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:56 +0000
Subject: [PATCH 38/49] fix: self collision test of soft bodies mixed up the
 terms of the intersection test and took equal coordinates for shared vertices

---
 .../prox_soft_bodies/collision_detection.py   | 74 +++++++++++--------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/rainbow/simulators/prox_soft_bodies/collision_detection.py b/rainbow/simulators/prox_soft_bodies/collision_detection.py
index f637f96..8c5f0d8 100644
--- a/rainbow/simulators/prox_soft_bodies/collision_detection.py
+++ b/rainbow/simulators/prox_soft_bodies/collision_detection.py
@@ -50,55 +50,65 @@ def _is_share_vertex(tri1, tri2):
     Returns:
         bool: True if the two triangles share a vertex, False otherwise
     """
-    return len(np.intersect1d(np.array(tri1), np.array(tri2))) > 0
+    return any(np.array_equal(v, u) for v in tri1 for u in tri2)
 
 
-def _triangle_intersection(tri1, tri2):
-    """ Test if two triangles of a same body intersect
-        To achieve performance, this function is adapted from Moller-Trumbore intersection algorithm,
+def _segment_intersects_triangle(p, q, tri):
+    """ Test if a line segment crosses a triangle
+        This is the Moller-Trumbore intersection algorithm,
         which is described in https://en.wikipedia.org/wiki/M%C3%B6ller%E2%80%93Trumbore_intersection_algorithm.
-        The idea is to check if the intersection point of the two triangles is inside both triangles.
-        Steps:
-        1. Check if the two triangles are parallel or not, if they are parallel, return False
-        2. Check if the intersection point is inside the first triangle, if not, return False
-        3. Check if the intersection point is inside the second triangle, if inside, return True, otherwise return False
-        
+
     Args:
-        tri1 (ArrayLike): coordinates of the first triangle
-        tri2 (ArrayLike): coordinates of the second triangle
+        p (ArrayLike): the first end-point of the segment
+        q (ArrayLike): the second end-point of the segment
+        tri (ArrayLike): coordinates of the triangle
 
     Returns:
-        bool: True if the two triangles intersect, False otherwise
+        bool: True if the segment crosses the triangle, False otherwise (also if it is parallel to the triangle)
     """
-    v1, v2, v3 = tri1
-    u1, u2, u3 = tri2
-
+    v1, v2, v3 = tri
+    d = q - p
     e1 = v2 - v1
     e2 = v3 - v1
-    normal_tri2 = np.cross(u2 - u1, u3 - u1)
-    a = np.dot(e1, normal_tri2)
+    h = np.cross(d, e2)
+    a = np.dot(e1, h)
 
-    # Check if the two triangles are parallel or not
-    if a > -np.finfo(float).eps and a < np.finfo(float).eps:
-        return False 
+    # Check if the segment and the triangle are parallel or not
+    if abs(a) <= np.finfo(float).eps * np.linalg.norm(d) * np.linalg.norm(e1) * np.linalg.norm(e2):
+        return False
 
-    # Check the intersection point is inside the triangle(tri1)
-    f = 1.0/a
-    s = u1 - v1
-    u = f * np.dot(s, normal_tri2)
+    # Check if the intersection point is inside the triangle
+    s = p - v1
+    u = np.dot(s, h) / a
     if u < 0.0 or u > 1.0:
         return False
-
-    q = np.cross(s, e1)
-    v = f * np.dot(u2 - u1, q)
+    r = np.cross(s, e1)
+    v = np.dot(d, r) / a
     if v < 0.0 or u + v > 1.0:
         return False
 
-    # Check the intersection point is also inside the other triangle(tri2)
-    t = f * np.dot(e2, q)
-    if t > np.finfo(float).eps:
-        return True
+    # Check if the intersection point is inside the segment
+    t = np.dot(e2, r) / a
+    return 0.0 <= t <= 1.0
+
 
+def _triangle_intersection(tri1, tri2):
+    """ Test if two triangles of a same body intersect
+        Two triangles that are not parallel intersect exactly when an edge of one of them crosses the other one.
+
+    Args:
+        tri1 (ArrayLike): coordinates of the first triangle
+        tri2 (ArrayLike): coordinates of the second triangle
+
+    Returns:
+        bool: True if the two triangles intersect, False otherwise
+    """
+    for i in range(3):
+        j = (i + 1) % 3
+        if _segment_intersects_triangle(tri1[i], tri1[j], tri2):
+            return True
+        if _segment_intersects_triangle(tri2[i], tri2[j], tri1):
+            return True
     return False
 
 
-- 
2.43.0


From b2076c7e27bbec153a9e5b10fbffad05a08d670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 39/49] fix: rock slide scene returned the names of its rocks
 as a nested list

---
 .../simulators/prox_rigid_bodies/scenes/create_rock_slide.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
index dfb44c9..b4dd34e 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_rock_slide.py
@@ -109,7 +109,7 @@ def create_rock_slide(engine: Engine,
 
     r = V3.make(-10, 16, 5)
     q = Q.Ry(3 * np.pi / 4)
-    body_names.append(
+    body_names.extend(
         create_lattice(
             engine,
             r,
-- 
2.43.0


From cfc65673d522f155bcdfdddc94c8d94147701c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:55 +0000
Subject: [PATCH 40/49] fix: ur5 scene was read from a folder of its author's
 machine

---
 rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py
index 74a430f..da88c8b 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_scene.py
@@ -265,8 +265,8 @@ def create_scene(engine: TYPES.Engine, scene_name: str) -> None:
             material_name='default'
         )
     elif scene_name == scene_names[16]:
-        package_folder = "/Users/kennyerleben/Documents/GitHub/"
-        urdf_file_path = 'example-robot-data/robots/ur_description/urdf/ur5_robot.urdf'
+        package_folder = "./data/urdf/"
+        urdf_file_path = "ur_description/ur5e.urdf"
         PROC.read_urdf(
             engine,
             package_folder,
-- 
2.43.0


From f9008cd754bc140eee523e7342ce65734ad25662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:27 +0000
Subject: [PATCH 41/49] fix: gears of the gear train were hinged about a
 horizontal axis instead of their own axis

---
 .../simulators/prox_rigid_bodies/scenes/create_gear_train.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 58e80a6..1bc0050 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -451,7 +451,7 @@ def create_gear_train(engine: Engine,
             parent_name=parent_name,
             child_name=child_name,
             origin= origin,
-            axis= V3.k(),
+            axis= V3.j(),  # The gears turn around the y-axis of the world (y-up).
             mode="world"
         )
 
-- 
2.43.0


From bd32a5258230a8c44e9a8497b03c57f6ff1af97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:26 +0000
Subject: [PATCH 42/49] fix: gears with many teeth begin their involute flanks
 at the root circle, so profiles do not cross themselves

---
 .../scenes/create_gear_train.py               | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
index 1bc0050..200ef19 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/create_gear_train.py
@@ -46,7 +46,8 @@ class GearFactory:
     def _make_involute_curve(r_base: float,
                              r_top: float,
                              shift: float = 0,
-                             reverse: bool = False
+                             reverse: bool = False,
+                             r_start: float = 0
                              ) -> tuple[np.ndarray, np.ndarray]:
         """
         This function is used to create an involute curve.
@@ -71,10 +72,12 @@ class GearFactory:
         :param r_top:   The radius of the outer circle.
         :param shift:   The shifting angle for where the involute curve should start on the inner circle.
         :param reverse: A boolean flag indicating if the involute curve should be reversed.
+        :param r_start: The radius where the curve begins if that is outside the inner circle.
         :return:        A curve represented as tuple of two numpy arrays. The First one is x-coordinates,
                         and the second is y-coordinates of points on the curve.
         """
-        theta = np.linspace(0, GearFactory._roll_angle(r_base, r_top), 12)
+        start = GearFactory._roll_angle(r_base, max(r_base, r_start))
+        theta = np.linspace(start, GearFactory._roll_angle(r_base, r_top), 12)
         if reverse:
             theta = -theta[::-1]
         ix = r_base * (np.cos(theta + shift) + theta * np.sin(theta + shift))
@@ -121,6 +124,9 @@ class GearFactory:
         beta = np.pi / Z  # Angle spanned by tooth thickness at the pitch circle
         gamma = GearFactory._span_angle(
             top_roll) - delta  # Angle spanned by involute curve going from pitch circle to top circle
+        # Angle spanned by involute curve going from base circle to root circle, nonzero only if the root circle is the
+        # outer one. The teeth of such gears (those with many teeth) begin at the root circle.
+        epsilon = GearFactory._span_angle(GearFactory._roll_angle(R_b, max(R_b, R_r)))
 
         corners = []
         gear_x_list = []
@@ -130,7 +136,8 @@ class GearFactory:
             forward_shift = shift - delta
             reverse_shift = shift + delta + beta
             # Generate the involute curve going from base circle to the top circle
-            forward_x, forward_y = GearFactory._make_involute_curve(r_base=R_b, r_top=R_t, shift=forward_shift)
+            forward_x, forward_y = GearFactory._make_involute_curve(
+                r_base=R_b, r_top=R_t, shift=forward_shift, r_start=R_r)
             # Generate top circle arch between the forward and reverse involute curves
             start_top_theta = shift + gamma
             end_top_theta = shift + beta - gamma
@@ -138,13 +145,17 @@ class GearFactory:
             top_x = R_t * np.cos(theta)
             top_y = R_t * np.sin(theta)
             # Generate the involute curve going from top circle to the base circle
-            rev_x, rev_y = GearFactory._make_involute_curve(r_base=R_b, r_top=R_t, shift=reverse_shift, reverse=True)
+            rev_x, rev_y = GearFactory._make_involute_curve(
+                r_base=R_b, r_top=R_t, shift=reverse_shift, reverse=True, r_start=R_r)
             # Generate the circular arch on root circle from this tooth end to the next tooth start point.
-            start_root_theta = shift + beta + delta
-            end_root_theta = shift + 2 * beta - delta
+            start_root_theta = shift + beta + delta - epsilon
+            end_root_theta = shift + 2 * beta - delta + epsilon
             theta = np.linspace(start_root_theta, end_root_theta, 6)
             root_x = R_r * np.cos(theta)
             root_y = R_r * np.sin(theta)
+            if epsilon > 0:
+                # The arc ends where the involute curves begin, and each of those points is there already.
+                root_x, root_y = root_x[1:-1], root_y[1:-1]
             # Piece all the tooth curves together to one curve
             tooth_x = np.concatenate((forward_x, top_x[1:-1], rev_x, root_x))
             tooth_y = np.concatenate((forward_y, top_y[1:-1], rev_y, root_y))
-- 
2.43.0


From 0e2a0d686265444f30c0f6ecba2e17db2ee2ea11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 43/49] fix: scale of meshes in URDF files was ignored

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index daec884..b1d5917 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -112,6 +112,7 @@ class URDF:
             return None
 
         V, T = igl.read_triangle_mesh(filename=filename, dtypef=np.float64)
+        V = V * np.array(scale)
 
         return {
             'shape': 'mesh',
-- 
2.43.0


From ab1b51024444ff97a8ea51a803a13d52f10dc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 44/49] fix: URDF robots with a revolute joint to a virtual
 link could not be imported

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index b1d5917..c600228 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -287,10 +287,13 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         if joint_type != 'revolute':
             logger.info(f'Joint {joint_name} has {joint_type} type that is not supported, ignoring it')
             continue
-        API.create_hinge(engine, joint_name)
 
         parent_name = joint['parent']
         child_name = joint['child']
+        if parent_name not in robot or child_name not in robot:
+            logger.info(f'Joint {joint_name} connects to a virtual body, ignoring it')
+            continue
+        API.create_hinge(engine, joint_name)
 
         # Transformation from the joint frame (aka the child reference frame) to the parent reference frame
         r_j2r = joint['origin'][0]
-- 
2.43.0


From 50379992febcc6d335faa227bf41bc71bc3a552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 45/49] fix: links below the root of a URDF robot were
 displaced by the inertial frame of the root

---
 rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
index c600228..521c531 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/read_urdf.py
@@ -340,6 +340,8 @@ def read_urdf(engine: TYPES.Engine, package_folder: str, urdf_file_path: str):
         root.X_b2r.q,
         use_model_frame=False
     )
+    # The reference frame of the root is the world frame, wherever its body frame (center of mass) is.
+    root.X_b2r = X.make(V3.zero(), Q.identity())
 
     while stack:
         parent = stack.pop()
-- 
2.43.0


From 0d5bd0c2cf738e18fd2918afd12dfa8b8ad84acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:22 +0000
Subject: [PATCH 46/49] fix: logged potential energy counted gravity that was
 not connected to the body

---
 .../prox_rigid_bodies/state_storage.py         | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/state_storage.py b/rainbow/simulators/prox_rigid_bodies/state_storage.py
index 493f32e..879a556 100644
--- a/rainbow/simulators/prox_rigid_bodies/state_storage.py
+++ b/rainbow/simulators/prox_rigid_bodies/state_storage.py
@@ -216,20 +216,10 @@ class StateStorage:
             I_bf = body.inertia
             I_wcs = MASS.update_inertia_tensor(R, I_bf)
 
-            G = V3.make(0, 0, 0)
-            has_gravity = False
-            # TODO 2024-07-28 Kenny: The engine is the only place that can tells us about forces attached to a rigid
-            #  body.
-            for force in engine.forces:
-                if isinstance(engine.forces[force], Gravity):
-                    gravity_force = engine.forces[force]
-                    G += gravity_force.up * gravity_force.g
-                    has_gravity = True
-            if has_gravity:
-                up = V3.unit(G)
-                g = V3.norm(G)
-                h = up.dot(r)
-                potential += m * g * h
+            # Gravity only acts on the bodies it has been connected to.
+            for force in body.forces:
+                if isinstance(force, Gravity):
+                    potential += m * force.g * np.dot(force.up, r)
 
             wIw = np.dot(w, np.dot(I_wcs, w))
             kinetic += 0.5 * (m * (v.dot(v)) + wIw)
-- 
2.43.0


From 7e7d5d6be61e9f6d63ead95890b14553e8794fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:23 +0000
Subject: [PATCH 47/49] fix: names of materials were not escaped in exported
 scenes

---
 rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
index ca91a25..f4c4abc 100644
--- a/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
+++ b/rainbow/simulators/prox_rigid_bodies/scenes/write_xml.py
@@ -76,7 +76,7 @@ def write_xml(engine: TYPES.Engine, xml_filename: str) -> None:
     materials_xml_node = ET.SubElement(root, "materials")
     for key, interaction in engine.surfaces_interactions.storage.items():
         interaction_xml_node = ET.SubElement(materials_xml_node, "interaction")
-        interaction_xml_node.set("materials", key)
+        interaction_xml_node.set("materials", str(key))
         interaction_xml_node.set("friction", np.array2string(interaction.mu))
         interaction_xml_node.set("restitution", str(interaction.epsilon))
 
-- 
2.43.0


From eadbc892e595c997749d083aef6c47b53cd40d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 48/49] fix: contacts and hinges were solved without regard to
 each other, so a hinge opened when a linked body touched something

---
 .../prox_rigid_bodies/constraints/contacts.py |  2 +-
 .../prox_rigid_bodies/constraints/hinges.py   |  2 +-
 .../constraints/post_stabilization.py         |  2 +-
 .../prox_rigid_bodies/constraints/problem.py  |  1 +
 .../prox_rigid_bodies/gauss_seidel_solver.py  | 34 ++++++++-----------
 5 files changed, 19 insertions(+), 22 deletions(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py b/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
index 51b2fb4..daabdb1 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/contacts.py
@@ -69,7 +69,7 @@ class Contacts(Problem):
 
         - Problem.sweep: for the base method documentation.
         """
-        w = self.WJT.dot(self.x)
+        w = self.WJT.dot(self.x) + self.other_changes
         for k in range(self.K):
             block = range(4 * k, 4 * k + 4)
             mu_k = self.mu[k]  # Only isotropic Coulomb friction
diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
index 9ac6fad..0cb3971 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/hinges.py
@@ -62,7 +62,7 @@ class Hinges(Problem):
 
         - Problem.sweep: for the base method documentation.
         """
-        w = self.WJT.dot(self.x)
+        w = self.WJT.dot(self.x) + self.other_changes
         for k in range(self.K):
             block = range(5 * k, 5 * k + 5)
             x_b = self.x[block]
diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py b/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py
index 323a65b..52aaf5f 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/post_stabilization.py
@@ -51,7 +51,7 @@ class PostStabilization(Problem):
 
         - Problem.sweep: for the base method documentation.
         """
-        w = self.WJT.dot(self.x)
+        w = self.WJT.dot(self.x) + self.other_changes
         for k in range(self.K):
             block = range(4 * k, 4 * k + 4)
             x_b = self.x[block]
diff --git a/rainbow/simulators/prox_rigid_bodies/constraints/problem.py b/rainbow/simulators/prox_rigid_bodies/constraints/problem.py
index 84f2dd7..a6084c1 100644
--- a/rainbow/simulators/prox_rigid_bodies/constraints/problem.py
+++ b/rainbow/simulators/prox_rigid_bodies/constraints/problem.py
@@ -34,6 +34,7 @@ class Problem(ABC):
         self.sol: Optional[np.ndarray] = None  # Last known good solution.
         self.x: Optional[np.ndarray] = None  # The current solution.
         self.r: Optional[np.ndarray] = None  # The R-factor values.
+        self.other_changes = 0.0  # The change vector caused by the current iterates of all other problems.
 
     def rollback_iterate(self) -> None:
         """
diff --git a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
index 696bf23..a3091f2 100644
--- a/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
+++ b/rainbow/simulators/prox_rigid_bodies/gauss_seidel_solver.py
@@ -38,42 +38,38 @@ def solve(
     nu_increase = engine.params.nu_increase
     too_small_merit_change = engine.params.too_small_merit_change
 
-    last_merit_values = [np.inf for _ in Problems]
     global_last_merit = np.inf
 
     for iteration in range(engine.params.max_iterations):
 
-        # Keep track of the overall merit across all problems we are solving
-        global_merit = 0
-        # A roll-back repeats the last merit value; that must not be mistaken for convergence.
-        diverged = False
-
+        # All problems share the bodies. Hence, each problem must see the velocity changes caused by the others.
+        changes = [problem.WJT.dot(problem.x) for problem in Problems]
+        merit = 0
         for index, problem in enumerate(Problems):
-            last_merit = last_merit_values[index]
-
+            problem.other_changes = sum(changes[:index] + changes[index + 1:])
             problem.sweep()  # This will update the current iterate x
+            changes[index] = problem.WJT.dot(problem.x)
+            # Keep track of the overall merit across all problems we are solving
+            merit = np.maximum(merit, problem.compute_merit_value())
 
-            merit = problem.compute_merit_value()
+        # A roll-back repeats the last merit value; that must not be mistaken for convergence.
+        diverged = merit > global_last_merit
 
-            # Update r-factors to ensure we have a convergent scheme
-            if merit > last_merit:
+        # Update r-factors to ensure we have a convergent scheme
+        for problem in Problems:
+            if diverged:
                 # Divergence was detected: we will reduce R-factor
-                diverged = True
                 problem.change_r_factors(nu_reduce)
                 #  Next, we roll back the current iterate to the last known good solution
                 problem.rollback_iterate()
-                # Update the global merit, so we later can test if all problems have converged
-                global_merit = np.maximum(global_merit, last_merit)
             else:
                 # The Scheme is convergent, so we accept the iterate as the current best solution
                 problem.accept_iterate()
                 # Test if convergence was too slow and increase R-factor if this is the case
-                if last_merit - merit < too_small_merit_change:
+                if global_last_merit - merit < too_small_merit_change:
                     problem.change_r_factors(nu_increase)
-                # Update merit value for next iteration
-                last_merit_values[index] = merit
-                # Update the global merit, so we later can test if all problems have converged
-                global_merit = np.maximum(global_merit, merit)
+
+        global_merit = global_last_merit if diverged else merit
 
         if profiling_on:
             performance_data[prefix + "residuals"][iteration] = global_merit
-- 
2.43.0


From 6d676e949c3dad410bced42bf4c8249a1454d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:22 +0000
Subject: [PATCH 49/49] fix: the friction coefficients of an interaction shared
 the array of the caller

---
 rainbow/simulators/prox_rigid_bodies/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rainbow/simulators/prox_rigid_bodies/api.py b/rainbow/simulators/prox_rigid_bodies/api.py
index ed9b8d2..3b63b68 100644
--- a/rainbow/simulators/prox_rigid_bodies/api.py
+++ b/rainbow/simulators/prox_rigid_bodies/api.py
@@ -669,7 +669,7 @@ def create_surfaces_interaction(engine, A: str, B: str, epsilon: float, mu) -> N
     key = tuple(tmp)
     behaviour = SurfacesInteraction()
     behaviour.epsilon = epsilon
-    behaviour.mu = mu
+    behaviour.mu = np.array(mu, dtype=np.float64)
     engine.surfaces_interactions.storage[key] = behaviour
 
 
-- 
2.43.0

