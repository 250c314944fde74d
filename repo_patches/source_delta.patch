From 03942bf480a644f3e536be4935edd1688fff88f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 01/16] fix: respect left_bases for number and Coulomb terms in
 matrix_function

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 6f7d194..4d19071 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -218,6 +218,9 @@ def matrix_function(
         shape = (right_dim, right_dim)
     else:
         shape = (left_bases.shape[0], right_dim)
+        if special_tag in ("number", "Coulomb"):
+            # The diagonal kernels index the rows by `right_bases`
+            special_tag = "general"
 
     if special_tag == "hopping":
         core_func = _core_hopping
-- 
2.43.0


From 486b72fd915ba278d979d332b1977894fa9f2f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 02/16] fix: let IndexTable accept an empty collection

---
 HamiltonianPy/indextable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HamiltonianPy/indextable.py b/HamiltonianPy/indextable.py
index bf18d4f..11728be 100644
--- a/HamiltonianPy/indextable.py
+++ b/HamiltonianPy/indextable.py
@@ -63,6 +63,7 @@ class IndexTable:
         # index2object is an OrderedDict
         # The keys are the indices and values are the objects
 
+        object_type = object
         object2index = OrderedDict()
         index2object = OrderedDict()
         for index, item in enumerate(objects, start):
-- 
2.43.0


From 3d15873effdf9ef659485e6305e6c2067b77750c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 03/16] fix: exact integer permutation and combination counts

---
 HamiltonianPy/tools/PandC.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/HamiltonianPy/tools/PandC.py b/HamiltonianPy/tools/PandC.py
index 34dda1d..790b3ae 100644
--- a/HamiltonianPy/tools/PandC.py
+++ b/HamiltonianPy/tools/PandC.py
@@ -40,7 +40,7 @@ def Permutation(n, k, repeat=False):
     if repeat:
         return n ** k
     else:
-        return int(factorial(n) / factorial(n - k))
+        return factorial(n) // factorial(n - k)
 
 
 def Combination(n, k, repeat=False):
@@ -69,6 +69,8 @@ def Combination(n, k, repeat=False):
     assert isinstance(k, int) and 0 <= k <= n
 
     if repeat:
-        return int(factorial(n + k - 1) / factorial(k) / factorial(n - 1))
+        if k == 0:
+            return 1
+        return factorial(n + k - 1) // (factorial(k) * factorial(n - 1))
     else:
-        return int(factorial(n) / factorial(k) / factorial(n - k))
+        return factorial(n) // (factorial(k) * factorial(n - k))
-- 
2.43.0


From 6dbd389c5411247d54a75e3cf619c3d17b6c32f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 04/16] fix: restore the number of mkl threads in force before
 RunTimeEnv

---
 HamiltonianPy/tools/runtimeenv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/runtimeenv.py b/HamiltonianPy/tools/runtimeenv.py
index 52dbef8..44125d1 100644
--- a/HamiltonianPy/tools/runtimeenv.py
+++ b/HamiltonianPy/tools/runtimeenv.py
@@ -63,6 +63,7 @@ class RunTimeEnv:
         Construct the run time environment
         """
 
+        self._old_threads_num = mkl.get_max_threads()
         mkl.set_num_threads(self._threads_num)
 
         if self._rd:
@@ -84,7 +85,7 @@ class RunTimeEnv:
         Close the opened file and restore sys.stdout before exit
         """
 
-        mkl.set_num_threads(mkl.get_max_threads())
+        mkl.set_num_threads(self._old_threads_num)
 
         if self._rd:
             print("=" * 80)
-- 
2.43.0


From 9d6748dbcf94d355b70863d38b4987d66641e91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 05/16] fix: import Path used by Lattice.show when saving the
 figure

---
 HamiltonianPy/lattice/lattice.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index a25b7d8..7d2668c 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -12,6 +12,7 @@ __all__ = [
 
 
 from itertools import product
+from pathlib import Path
 
 import matplotlib.pyplot as plt
 import numpy as np
-- 
2.43.0


From 33ce81936976c8c95da86508ca044a1ae2a510e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 06/16] fix: import line2d and lattice from the package in
 polygon

---
 HamiltonianPy/polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 519d6d9..2e3709d 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -11,11 +11,12 @@ __all__ = [
 
 from enum import Enum, auto
 
-import line2d
 import matplotlib.pyplot as plt
 import numpy as np
 from scipy.spatial.distance import pdist
 
+from HamiltonianPy import line2d
+
 
 class Location(Enum):
     """
@@ -173,7 +174,7 @@ class Polygon:
 
 
 if __name__ == "__main__":
-    from lattice import TRIANGLE_CELL_KS, TRIANGLE_CELL_BS
+    from HamiltonianPy.lattice import TRIANGLE_CELL_KS, TRIANGLE_CELL_BS
 
     BZBoundary = TRIANGLE_CELL_KS[[*range(6), 0]]
     vertices = TRIANGLE_CELL_KS
-- 
2.43.0


From 07e405eaca0d382d8a8fbc50ce933f3b9965e692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:42 +0000
Subject: [PATCH 07/16] fix: save the drawn lattice inside the requested
 directory

---
 HamiltonianPy/tools/Draw2DLattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/tools/Draw2DLattice.py b/HamiltonianPy/tools/Draw2DLattice.py
index 69f1c03..226dd9e 100644
--- a/HamiltonianPy/tools/Draw2DLattice.py
+++ b/HamiltonianPy/tools/Draw2DLattice.py
@@ -176,7 +176,7 @@ def show(
                 name = "kagome.pdf"
             else:
                 name = which + ".pdf"
-        fig.savefig(path + name, dpi=200)
+        fig.savefig(Path(path) / name, dpi=200)
     plt.close("all")
 
 
-- 
2.43.0


From 05b4aa845d3f7c2f60149d44e4d6a5c1d21a8bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:58 +0000
Subject: [PATCH 08/16] fix: points on the prolongation of a vertical polygon
 edge are outside

---
 HamiltonianPy/polygon.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/polygon.py b/HamiltonianPy/polygon.py
index 2e3709d..3757b33 100644
--- a/HamiltonianPy/polygon.py
+++ b/HamiltonianPy/polygon.py
@@ -145,9 +145,10 @@ class Polygon:
             location0 = line.LocationRelation(point, tol=tol)
             location1 = line.LocationRelation(ref_point, tol=tol)
             if location0 is line2d.Location.ON:
-                tmp = [p0[0], p1[0]]
+                xs, ys = [p0[0], p1[0]], [p0[1], p1[1]]
                 x, y = point
-                if np.min(tmp) <= x <= np.max(tmp):
+                if (np.min(xs) - tol <= x <= np.max(xs) + tol
+                        and np.min(ys) - tol <= y <= np.max(ys) + tol):
                     return Location.BOUNDARY
                 else:
                     return Location.OUTSIDE
-- 
2.43.0


From 2d9dc519e53851ba0253a5016540649dabdf2f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:27 +0000
Subject: [PATCH 09/16] fix: refuse single-particle-state collections with
 repeated states

---
 HamiltonianPy/hilbertspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index ba75773..6bb4694 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -65,7 +65,8 @@ def is_valid_states_collection(states):
     single-particle-state collection.
 
     1. `states` must be non-empty tuple, list or set;
-    2. All elements of `states` must be non-negative integer.
+    2. All elements of `states` must be non-negative integer;
+    3. No state may appear more than once in `states`.
 
     Returns
     -------
@@ -74,7 +75,8 @@ def is_valid_states_collection(states):
 
     if (
         isinstance(states, (tuple, list, set)) and len(states) > 0 and
-        all(isinstance(state, int) and state >= 0 for state in states)
+        all(isinstance(state, int) and state >= 0 for state in states) and
+        len(set(states)) == len(states)
     ):
         return True
     else:
-- 
2.43.0


From 134f6cf1071070512f017f56706d732dc7f63802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 10/16] fix: refuse subspace specifiers with a non-integer
 particle number

---
 HamiltonianPy/hilbertspace.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/HamiltonianPy/hilbertspace.py b/HamiltonianPy/hilbertspace.py
index 6bb4694..5218562 100644
--- a/HamiltonianPy/hilbertspace.py
+++ b/HamiltonianPy/hilbertspace.py
@@ -99,6 +99,8 @@ def is_valid_subspace_specifier(specifier):
         return True
     elif isinstance(specifier, (list, tuple)) and len(specifier) == 2:
         states, p_num = specifier
+        if not isinstance(p_num, (int, np.integer)):
+            return False
         if isinstance(states, int) and states > 0 and states >= p_num:
             return True
         elif is_valid_states_collection(states) and len(states) >= p_num:
@@ -136,6 +138,8 @@ def subspace_specifier_preprocess(specifier):
         res = (tuple(range(specifier)), -1)
     elif isinstance(specifier, (tuple, list)) and len(specifier) == 2:
         states, p_num = specifier
+        if not isinstance(p_num, (int, np.integer)):
+            raise ValueError(error_msg.format(specifier))
         if isinstance(states, int) and states > 0 and states >= p_num:
             res = (tuple(range(states)), p_num)
         elif is_valid_states_collection(states) and len(states) >= p_num:
-- 
2.43.0


From f1c0af7f3de2aa323031f7452adfa49f267bfefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 11/16] fix: search the translations of a lattice far enough
 for all bonds

_guess_scope stopped at the first shell of cells whose points were farther than the reference distance. Because the reference is rounded, and because farther shells can be nearer when the translation vectors are not the shortest ones, neighbours were missed.
---
 HamiltonianPy/lattice/lattice.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 7d2668c..53269cf 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -131,6 +131,9 @@ class Lattice:
         # Cache dists as `_all_distances attribute` for later use
         self._all_distances = dists
 
+        # The largest distance between the points in the cluster
+        self._diameter = np.max(tmp, initial=0.0)
+
         self.name = name
         self._point_num = point_num
         self._space_dim = space_dim
@@ -267,23 +270,12 @@ class Lattice:
         return np.array(self._points[index], copy=True)
 
     def _guess_scope(self, ref_distance):
-        repeat = self._trans_dim
-        scope = -1
-        while True:
-            inner_mesh = product(range(-scope, scope+1), repeat=repeat)
-            outer_mesh = product(range(-scope-1, scope+2), repeat=repeat)
-            edge_dRs = np.matmul(
-                list(set(outer_mesh).difference(set(inner_mesh))), self._vectors
-            )
-            edge_points = np.reshape(
-                edge_dRs[:, np.newaxis, :] + self._points,
-                newshape=(-1, self._space_dim)
-            )
-            if np.min(cdist(edge_points, self._points)) > ref_distance:
-                break
-            else:
-                scope += 1
-        return scope
+        # For any translation dR = n_0 * a_0 + ... + n_k * a_k, the coefficient
+        # n_i equals to dot(dR, b_i) / (2 * pi). So the absolute value of n_i
+        # is no larger than |dR| * |b_i| / (2 * pi)
+        max_length = np.max(np.linalg.norm(self._bs, axis=-1), initial=0.0)
+        ref_distance = ref_distance + _VIEW_AS_ZERO
+        return int(np.ceil(ref_distance * max_length / (2 * np.pi)))
 
     def _searching(self, database, displaces):
         matches = np.nonzero(database.query(displaces)[0] < _VIEW_AS_ZERO)[0]
@@ -481,7 +473,7 @@ class Lattice:
             return intra, None
 
         judge = self.neighbor_distance(nth=nth)
-        scope = self._guess_scope(judge)
+        scope = self._guess_scope(judge + self._diameter)
         sites = self._sites_factory(scope=scope, no_inversion=True)
 
         tree = cKDTree(sites)
-- 
2.43.0


From d5338a2dda13c34aa8bad9028fa51b719bfa1cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 12/16] fix: neighbor_distance answers for the lattice,
 whatever was asked before

The table of distances was first that of the points of the cluster only and was replaced, by one depending on the argument, when a query exceeded it: square(3,1) reported 2.0 as second neighbour distance before such a query and 1.4142 after it.
---
 HamiltonianPy/lattice/lattice.py | 33 ++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 53269cf..0cf55c7 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -120,19 +120,14 @@ class Lattice:
             )
 
         # Check is there duplicate points in the given `points`
-        tmp = pdist(points)
-        if np.any(tmp < _VIEW_AS_ZERO):
+        dists = pdist(points)
+        if np.any(dists < _VIEW_AS_ZERO):
             raise ValueError(
                 "There are duplicate points in the given `points`!"
             )
-        else:
-            dists = np.insert(np.unique(np.rint(tmp * _ZOOM)) / _ZOOM, 0, 0.0)
-
-        # Cache dists as `_all_distances attribute` for later use
-        self._all_distances = dists
 
         # The largest distance between the points in the cluster
-        self._diameter = np.max(tmp, initial=0.0)
+        self._diameter = np.max(dists, initial=0.0)
 
         self.name = name
         self._point_num = point_num
@@ -430,14 +425,20 @@ class Lattice:
 
         assert isinstance(nth, int) and nth >= 0
 
-        try:
-            return self._all_distances[nth]
-        except IndexError:
-            sites = self._sites_factory(scope=nth, no_inversion=False)
-            self._all_distances = np.insert(
-                np.unique(np.rint(pdist(sites) * _ZOOM)) / _ZOOM, 0, 0.0
-            )
-            return self._all_distances[nth]
+        scope = 1
+        while True:
+            sites = self._sites_factory(scope=scope, no_inversion=False)
+            dists = np.unique(np.rint(cdist(self._points, sites) * _ZOOM))
+            if len(dists) > nth:
+                distance = dists[nth] / _ZOOM
+                required = self._guess_scope(distance + self._diameter)
+                if required <= scope:
+                    return distance
+                scope = required
+            elif self._trans_dim == 0:
+                raise IndexError("There are not so many distances!")
+            else:
+                scope += 1
 
     def bonds(self, nth, *, only=True, fold=False):
         """
-- 
2.43.0


From d0398c984d593b6646ce2b02139c9414122ef5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 13/16] fix: sample the shortest segment of a k-path with
 min_num points

min_num * length / min_length may be rounded below min_num, so that about
one in seven paths got one point less than documented.
---
 HamiltonianPy/lattice/lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 0cf55c7..6918bd3 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -576,7 +576,7 @@ def KPath(points, min_num=100, loop=True, return_indices=True):
     if min_length < 1e-4:
         raise ValueError("Identical adjacent points!")
 
-    sampling_nums = [int(min_num * length / min_length) for length in lengths]
+    sampling_nums = [int(min_num * (length / min_length)) for length in lengths]
     kpoints = [
         np.linspace(0, 1, num=num, endpoint=False)[:, np.newaxis] * dR + start
         for num, dR, start in zip(sampling_nums, dRs, points)
-- 
2.43.0


From d134814453095401b20ea360ce3f93f34541d54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:11 +0000
Subject: [PATCH 14/16] fix: draw the complete first Brillouin zone for skewed
 translation vectors

---
 HamiltonianPy/lattice/lattice.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/HamiltonianPy/lattice/lattice.py b/HamiltonianPy/lattice/lattice.py
index 6918bd3..5ee2a12 100644
--- a/HamiltonianPy/lattice/lattice.py
+++ b/HamiltonianPy/lattice/lattice.py
@@ -609,10 +609,26 @@ def ShowFirstBZ(As, scale=1):
 
     Bs = 2 * np.pi * np.linalg.inv(As.T)
 
+    # The 1st-BZ is bounded by the perpendicular bisectors of the reciprocal
+    # vectors n_0 * g_0 + n_1 * g_1 with n_i in (-1, 0, 1) only if g_0 and g_1
+    # are the shortest ones. The rows of `shortest` are the coefficients of
+    # g_0 and g_1 in terms of `Bs`.
+    shortest = np.identity(2, dtype=np.int64)
+    while True:
+        g0, g1 = np.dot(shortest, Bs)
+        if np.dot(g1, g1) < np.dot(g0, g0) * (1 - 1e-8):
+            shortest, g0, g1 = shortest[::-1], g1, g0
+        ratio = np.dot(g0, g1) / np.dot(g0, g0)
+        if abs(ratio) < 0.5 + 1e-8:
+            break
+        num = int(np.rint(ratio))
+        shortest = np.array([shortest[0], shortest[1] - num * shortest[0]])
+
     color0 = "tab:blue"
     color1 = "tab:orange"
     fig, ax = plt.subplots()
-    for coeff in product(range(-1, 2), repeat=2):
+    for tmp in product(range(-1, 2), repeat=2):
+        coeff = tuple(np.dot(tmp, shortest).tolist())
         dR = np.dot(coeff, Bs)
         ax.plot(dR[0], dR[1], marker="o", color=color0)
         ax.text(dR[0], dR[1], str(coeff), size="xx-large", color=color0)
-- 
2.43.0


From 35929f7b396c5973cbe886272b9e0af30c0ca947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:40 +0000
Subject: [PATCH 15/16] fix: identify sites and bonds whose decimal coordinates
 differ by round-off

---
 HamiltonianPy/bond.py                         | 7 ++++++-
 HamiltonianPy/quantumoperator/quantumstate.py | 6 +++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/HamiltonianPy/bond.py b/HamiltonianPy/bond.py
index 7d38784..04e09c9 100644
--- a/HamiltonianPy/bond.py
+++ b/HamiltonianPy/bond.py
@@ -112,7 +112,12 @@ class Bond:
         # Combine the original information of this bond into a tuple.
         # The tuple is then used to calculate the hash code and define the
         # compare logic between different instances.
-        identity = [tuple(int(_ZOOM * coord) for coord in p) for p in [p0, p1]]
+        # Rounding before truncation removes the round-off errors of decimal
+        # coordinates, otherwise 0.57 and 3 * 0.19 would be different points.
+        identity = [
+            tuple(int(round(_ZOOM * coord, 6)) for coord in p)
+            for p in [p0, p1]
+        ]
         if not directional:
             identity.sort()
         identity.append(directional)
diff --git a/HamiltonianPy/quantumoperator/quantumstate.py b/HamiltonianPy/quantumoperator/quantumstate.py
index 489039c..18e7725 100644
--- a/HamiltonianPy/quantumoperator/quantumstate.py
+++ b/HamiltonianPy/quantumoperator/quantumstate.py
@@ -104,7 +104,11 @@ class SiteID:
         # This internal attribute is useful for calculating the hash value of
         # the instance as well as defining compare logic between instances of
         # this class
-        self._tuple_form = tuple(int(_ZOOM * coord) for coord in site)
+        # Rounding before truncation removes the round-off errors of decimal
+        # coordinates, otherwise 0.57 and 3 * 0.19 would be different sites.
+        self._tuple_form = tuple(
+            int(round(_ZOOM * coord, 6)) for coord in site
+        )
 
     @property
     def coordinate(self):
-- 
2.43.0


From 0c4119605fbf2b7906ea503fb21362edd710c39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:43 +0000
Subject: [PATCH 16/16] fix: matrix_function represents a term without
 operators as a multiple of identity

---
 HamiltonianPy/quantumoperator/matrixrepr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/HamiltonianPy/quantumoperator/matrixrepr.py b/HamiltonianPy/quantumoperator/matrixrepr.py
index 4d19071..64db1e0 100644
--- a/HamiltonianPy/quantumoperator/matrixrepr.py
+++ b/HamiltonianPy/quantumoperator/matrixrepr.py
@@ -210,7 +210,7 @@ def matrix_function(
             [index, 1 << index, 0 if otype == CREATION else (1 << index)]
             for index, otype in term
         ], dtype=np.uint64
-    )
+    ).reshape((-1, 3))
 
     right_dim = right_bases.shape[0]
     if left_bases is None:
-- 
2.43.0

