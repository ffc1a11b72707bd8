From 3d7e884caec25d05e309ab61ffa1c21866d81cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:09 +0000
Subject: [PATCH 1/8] fix: bound the translations searched by Lattice with the
 reciprocal vectors

The shell-by-shell search stopped at the first shell without a close point,
which misses translations when the translation vectors are strongly skewed:
Lattice([[0, 0]], [[1, 0], [0.5, 0.1]]).bonds(1) returned no bond at all.
---
 HamiltonianPy/lattice/lattice.py | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..dc5f8d7 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -266,23 +266,16 @@ class Lattice:
         return np.array(self._points[index], copy=True)
 
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # For a translation vector dR = sum_i n_i * a_i, the integers are given
+        # by n_i = np.dot(b_i, dR) / (2 * pi). If the distance between a point
+        # p and the translated point q + dR is no larger than `ref_distance`,
+        # then |n_i| is bounded by:
+        # (|np.dot(b_i, p - q)| + |b_i| * ref_distance) / (2 * pi)
+        projections = np.matmul(self._points, self._bs.T)
+        spreads = np.max(projections, axis=0) - np.min(projections, axis=0)
+        norms = np.linalg.norm(self._bs, axis=-1)
+        bounds = (spreads + norms * ref_distance) / (2 * np.pi)
+        return int(np.ceil(np.max(bounds)))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
-- 
2.43.0


From f6f5dc1b3ca47701e5d4337f6a8794d0201f71af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 2/8] fix: neighbor_distance takes the periodic images into
 account

The cached distances were those between points of the cluster (plus, once they
ran out, an image block whose size depended on the queried order), so
lattice_generator('square', 3, 1).neighbor_distance(2) was 2.0 instead of
1.4142, and the answer depended on the previous queries.
---
 HamiltonianPy/lattice/lattice.py | 36 +++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index dc5f8d7..41964c2 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -119,16 +119,14 @@ class Lattice:
             )
 
         # Check is there duplicate points in the given `points`
-        tmp = pdist(points)
-        if np.any(tmp < _VIEW_AS_ZERO):
+        if np.any(pdist(points) < _VIEW_AS_ZERO):
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
 
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
+        # Cache the neighbor distances for later use, see the
+        # `neighbor_distance` method
+        self._all_distances = np.array([0.0])
 
         self.name = name
         self._point_num = point_num
@@ -275,7 +273,7 @@ class Lattice:
         spreads = np.max(projections, axis=0) - np.min(projections, axis=0)
         norms = np.linalg.norm(self._bs, axis=-1)
         bounds = (spreads + norms * ref_distance) / (2 * np.pi)
-        return int(np.ceil(np.max(bounds)))
+        return int(np.ceil(np.max(bounds, initial=0.0)))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
@@ -430,14 +428,24 @@ class Lattice:
 
         assert isinstance(nth, int) and nth >= 0
 
-        try:
-            return self._all_distances[nth]
-        except IndexError:
-            sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
+        # All the points of the lattice within `radius` of any point in the
+        # cluster are taken into account, so there is no missing distance that
+        # is smaller than the largest one found.
+        norms = np.linalg.norm(self._vectors, axis=-1)
+        radius = np.min(norms, initial=np.inf)
+        while nth >= len(self._all_distances):
+            sites = self._sites_factory(
+                scope=self._guess_scope(radius), no_inversion=False
             )
-            return self._all_distances[nth]
+            dists = cdist(self._points, sites)
+            self._all_distances = np.unique(
+                np.rint(dists[dists <= radius] * _ZOOM)
+            ) / _ZOOM
+            if np.isinf(radius):
+                # There is no translation, all the distances are known
+                break
+            radius *= 2
+        return self._all_distances[nth]
 
     def bonds(self, nth, *, only=True, fold=False):
         """
-- 
2.43.0


From f982bc6945376799c99a2a36fab7d699cd25d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 3/8] fix: compute permutations and combinations with integer
 arithmetic

Going through float division gave inexact results, e.g. Combination(24, 1)
returned 23, and overflowed for n > 170; Combination(0, 0, repeat=True) failed.
---
 HamiltonianPy/tools/PandC.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/PandC.py b/HamiltonianPy/tools/PandC.py
index 34dda1d..969c3f9 100644
--- a/HamiltonianPy/tools/PandC.py
+++ b/HamiltonianPy/tools/PandC.py
@@ -40,7 +40,7 @@ def Permutation(n, k, repeat=False):
     if repeat:
         return n ** k
     else:
-        return int(factorial(n) / factorial(n - k))
+        return factorial(n) // factorial(n - k)
 
 
 def Combination(n, k, repeat=False):
@@ -69,6 +69,8 @@ def Combination(n, k, repeat=False):
     assert isinstance(k, int) and 0 <= k <= n
 
     if repeat:
-        return int(factorial(n + k - 1) / factorial(k) / factorial(n - 1))
+        if k == 0:
+            return 1
+        return factorial(n + k - 1) // factorial(k) // factorial(n - 1)
     else:
-        return int(factorial(n) / factorial(k) / factorial(n - k))
+        return factorial(n) // factorial(k) // factorial(n - k)
-- 
2.43.0


From e450965d180ab14b387f13fbfe9e0cfb874a432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:26 +0000
Subject: [PATCH 4/8] fix: make HamiltonianPy.polygon importable

'import line2d' only worked when running from inside the package directory.
---
 HamiltonianPy/polygon.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 519d6d9..655ee14 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -11,11 +11,12 @@ __all__ = [
 
 from enum import Enum, auto
 
-import line2d
 import matplotlib.pyplot as plt
 import numpy as np
 from scipy.spatial.distance import pdist
 
+from HamiltonianPy import line2d
+
 
 class Location(Enum):
     """
-- 
2.43.0


From 9bd7873eb7c1e318207b626a1940073dcf88d1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:40 +0000
Subject: [PATCH 5/8] fix: a point beyond a vertical edge is not on the
 polygon's boundary

Only the x-coordinate was compared with the endpoints of the edge, so every
point on the line through a vertical edge was reported as BOUNDARY: (1, 5) for
the unit square.
---
 HamiltonianPy/polygon.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 655ee14..7dc1e52 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -145,9 +145,11 @@ class Polygon:
             location0 = line.LocationRelation(point, tol=tol)
             location1 = line.LocationRelation(ref_point, tol=tol)
             if location0 is line2d.Location.ON:
-                tmp = [p0[0], p1[0]]
-                x, y = point
-                if np.min(tmp) <= x <= np.max(tmp):
+                # Compare both coordinates, the x-coordinate is not enough to
+                # locate a point on a vertical edge
+                lower = np.minimum(p0, p1) - tol
+                upper = np.maximum(p0, p1) + tol
+                if np.all(lower <= point) and np.all(point <= upper):
                     return Location.BOUNDARY
                 else:
                     return Location.OUTSIDE
-- 
2.43.0


From 78310c3243f88472f94bf2afb52bd6323c1e6bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:36 +0000
Subject: [PATCH 6/8] fix: KPath puts min_num points on the shortest segment

int(min_num * length / min_length) may be min_num - 1 for the shortest segment
itself because of the round-off error, e.g. min_num=7, length=1.948638406576495.
---
 HamiltonianPy/lattice/lattice.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 41964c2..6b1ae97 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -583,7 +583,11 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
     if min_length < 1e-4:
         raise ValueError("Identical adjacent points!")
 
-    sampling_nums = [int(min_num * length / min_length) for length in lengths]
+    # The small number compensates the round-off error, without which the
+    # shortest segment might get only `min_num - 1` points
+    sampling_nums = [
+        int(min_num * length / min_length + 1E-8) for length in lengths
+    ]
     kpoints = [
         np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
         for num, dR, start in zip(sampling_nums, dRs, points)
-- 
2.43.0


From c599837eef870130d5ee54c2a6fde09db2e97a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:17 +0000
Subject: [PATCH 7/8] fix: diagonal terms between different bases use the
 general algorithm

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..195f9a2 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -219,13 +219,16 @@ def matrix_function(
     else:
         shape = (left_bases.shape[0], right_dim)
 
+    # The special algorithms for diagonal terms assume identical bases before
+    # and after the operation
+    identical = left_bases is right_bases
     if special_tag == "hopping":
         core_func = _core_hopping
         args = (term, right_bases, left_bases)
-    elif special_tag == "number":
+    elif special_tag == "number" and identical:
         core_func = _core_particle_number
         args = (term, right_bases)
-    elif special_tag == "Coulomb":
+    elif special_tag == "Coulomb" and identical:
         core_func = _core_coulomb
         args = (term, right_bases)
     else:
-- 
2.43.0


From a9ee99a796ea5338cb2616d5dcfe0f38dc6fad89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 8/8] fix: csr matrix of operators on an empty left basis

csr_matrix rejected the placeholder row index of the right kets that the
operators annihilate when there is no left base at all; the same call with
to_csr=False worked.
---
 HamiltonianPy/quantumoperator/matrixrepr.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 195f9a2..c8543e4 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -236,11 +236,12 @@ def matrix_function(
         args = (term, right_bases, left_bases)
 
     data = core_func(*args)
+    # Eliminate the explicitly stored zero entries; Their placeholder row
+    # index does not exist if the left bases are empty
+    tmp = data[:, data[2] != 0]
     if to_csr:
-        res = csr_matrix((coeff * data[2], (data[0], data[1])), shape=shape)
+        res = csr_matrix((coeff * tmp[2], (tmp[0], tmp[1])), shape=shape)
         res.eliminate_zeros()
     else:
-        # Eliminate the explicitly stored zero entries
-        tmp = data[:, data[2] != 0]
         res = (coeff * tmp[2], (tmp[0], tmp[1]))
     return res
-- 
2.43.0

