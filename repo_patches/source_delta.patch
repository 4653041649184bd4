From 55d7667d30014ffae5609a12b05d13a9a814f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:50 +0000
Subject: [PATCH 01/17] fix: check the violation of every equality in
 Polyhedron.contains

The absolute value was taken after the maximum, so that a point violating an
equality from below was accepted whenever another equality was satisfied.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..21902fa 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -598,7 +598,7 @@ class Polyhedron(object):
         # check equalities
         in_eq = True
         if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+            in_eq = np.max(np.abs(self.C.dot(x) - self.d)) <= tol
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From b712c87bd44df98437411e869c21d28c1b0bab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:07 +0000
Subject: [PATCH 02/17] fix: respect the order of the indices in
 Polyhedron._selection_matrix

With unsorted indices the entries of the bounds, and the columns of A and C,
were applied to the wrong elements of x.
---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 21902fa..998e010 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -230,9 +230,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # select the rows of the identity matrix in the order of indices
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From db98b730a0934380d77dac0c4c19fc0bff20996e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 03/17] fix: handle empty and unbounded polyhedra in
 Polyhedron.is_included_in

The LP has no minimum in these cases and the method failed with a TypeError.
---
 pympc/geometry/polyhedron.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 998e010..6fd2d48 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -621,6 +621,10 @@ class Polyhedron(object):
             True if this polyhedron is contained in P2, False otherwise.
         """
 
+        # the empty set is included in any set
+        if self.empty:
+            return True
+
         # augment inequalities with equalities
         A1 = np.vstack((self.A, self.C, -self.C))
         b1 = np.concatenate((self.b, self.d, -self.d))
@@ -632,6 +636,9 @@ class Polyhedron(object):
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
+            if sol['min'] is None: # P1 unbounded in the direction of the facet
+                included = False
+                break
             penetration = - sol['min'] - b2[i]
             if penetration > tol:
                 included = False
-- 
2.43.0


From 961ed9a6d26778272930b1b2a98b709174aac707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:37 +0000
Subject: [PATCH 04/17] fix: return None as Chebyshev radius of unbounded
 polyhedra with equalities

The change of coordinates was applied to a center that does not exist.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 6fd2d48..8db3201 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -767,7 +767,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if self.C.shape[0] > 0 and center is not None:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
-- 
2.43.0


From 9644789a5ebdf5469a1546d80eb95c210c13c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:49 +0000
Subject: [PATCH 05/17] fix: handle unbounded intersections in
 PieceWiseAffineSystem.is_well_posed

The Chebyshev radius of the intersection of two unbounded domains can be None.
---
 pympc/dynamics/discrete_time_systems.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..eac67ec 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -575,8 +575,8 @@ class PieceWiseAffineSystem(object):
             for j in range(i+1, self.nm):
                 Dij = Di.intersection(self.domains[j])
 
-                # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                # check the Chebyshev radius of the intersection (None if it can be arbitrarily big)
+                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                     return False
 
         return True
-- 
2.43.0


From 92c015c5a4a21ff225668146cb6443ccd6af3270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:01 +0000
Subject: [PATCH 06/17] fix: do not modify the list of systems passed to
 PieceWiseAffineSystem

---
 pympc/dynamics/discrete_time_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index eac67ec..464e663 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -473,7 +473,8 @@ class PieceWiseAffineSystem(object):
         if list(nxu)[0] != self.nx + self.nu:
             raise ValueError('the domains and the affine systems must have coherent dimensions.')
 
-        # make instances of LinearSystem instances of AffineSystem
+        # make instances of LinearSystem instances of AffineSystem (without modifying the input list)
+        affine_systems = list(affine_systems)
         for i, S in enumerate(affine_systems):
             if isinstance(S, LinearSystem):
                 c = np.zeros(self.nx)
-- 
2.43.0


From 8f30bce35195ee2aa77b266e9a04f650f6c19c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:13 +0000
Subject: [PATCH 07/17] fix: do not modify the arguments of same_rows

---
 pympc/geometry/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..13eadf8 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,9 +117,8 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = np.array([a / np.linalg.norm(a) for a in A])
+        B = np.array([b / np.linalg.norm(b) for b in B])
 
     # check one row per time
     for a in A:
-- 
2.43.0


From 367acc3edc5f7ff84c06f6b4a0c0edd9f69cc23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:24 +0000
Subject: [PATCH 08/17] fix: handle repeated rows in same_rows

A matrix with two equal rows was not recognized as having the same rows as itself.
---
 pympc/geometry/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 13eadf8..8b847d9 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -123,9 +123,9 @@ def same_rows(A, B, normalize=True):
     # check one row per time
     for a in A:
         i = np.where([np.allclose(a, b) for b in B])[0]
-        if len(i) != 1:
+        if len(i) == 0:
             return False
-        B = np.delete(B, i, 0)
+        B = np.delete(B, i[0], 0)
 
     return True
 
-- 
2.43.0


From 53e121b24c6596f4c6c2919253ae486eb136b64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:36 +0000
Subject: [PATCH 09/17] fix: normalize the facet offset, and not the polytope,
 in _expand_simplex

The right-hand side of the facet is d; b is the array of the caller.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 8db3201..03060f9 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1114,7 +1114,7 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
             a /= a_norm
-            b /= a_norm
+            d /= a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From ccb08f837d4ddb6a181cbfa536fce1eec870314b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 10/17] fix: do not normalize a polyhedron in place

The arrays passed to the constructor are stored by reference, so that another
polyhedron built with the same A ended up with rows scaled differently from b
(and integer arrays were truncated).
---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 03060f9..3e8e509 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -385,6 +385,10 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
+        # do not modify arrays that can be shared with other polyhedra
+        self.A, self.b = self.A.astype(np.float64), self.b.astype(np.float64)
+        self.C, self.d = self.C.astype(np.float64), self.d.astype(np.float64)
+
         # inequalities
         for i in range(self.A.shape[0]):
             r = np.linalg.norm(self.A[i])
-- 
2.43.0


From 201d516e3d9f90a9538650a85dfc53f9b724cd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:00 +0000
Subject: [PATCH 11/17] fix: ignore inequalities that are constant on the
 equalities when enumerating the vertices

---
 pympc/geometry/polyhedron.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 3e8e509..03fcd16 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -813,6 +813,11 @@ class Polyhedron(object):
             b = self.b
             center = self.center
 
+        # inequalities that are constant over the polyhedron do not define any vertex
+        facets = np.linalg.norm(A, axis=1) > tol
+        A = A[facets]
+        b = b[facets]
+
         # handle 1d cases
         if A.shape[1] == 1:
             p = Polyhedron(A, b)
-- 
2.43.0


From a2a90517078a556479a249d7d059efc0352c01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:42 +0000
Subject: [PATCH 12/17] fix: return no vertices for every empty polyhedron

---
 pympc/geometry/polyhedron.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 03fcd16..5063132 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -793,8 +793,8 @@ class Polyhedron(object):
         if self._vertices is not None:
             return self._vertices
 
-        # check boundedness
-        if not self.bounded:
+        # check emptyness and boundedness
+        if self.empty or not self.bounded:
             return None
 
         # check full dimensionality
-- 
2.43.0


From def5dceeaa1e67fd998b625368e8b2120639723a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:11 +0000
Subject: [PATCH 13/17] fix: refuse a two-dimensional right-hand side before
 adding the left-hand side to a polyhedron

---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 5063132..496e2a2 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -75,6 +75,8 @@ class Polyhedron(object):
         """
 
         # check inequalities
+        if len(b.shape) > 1:
+            raise ValueError('b must be a one dimensional array.')
         self._same_number_rows(A, b)
     
         # reset attributes to None
@@ -114,6 +116,8 @@ class Polyhedron(object):
         """
 
         # check equalities
+        if len(d.shape) > 1:
+            raise ValueError('d must be a one dimensional array.')
         self._same_number_rows(C, d)
 
         # reset attributes to None
-- 
2.43.0


From 7e440631a4592423bb277784f16dc92c2daf5e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:37 +0000
Subject: [PATCH 14/17] fix: report only the extreme points of a projection as
 its vertices

The convex hull method collects the optimizers of its linear programs; when
an optimizer is not unique it can lie inside a facet, and such points were
reported among the vertices of the projection.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 496e2a2..2ef2028 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1014,7 +1014,7 @@ def convex_hull_method(A, b, resiudal_dimensions):
     # get outputs
     E = hull.equations[:, :-1]
     f = - hull.equations[:, -1:].flatten()
-    vertices = hull.points
+    vertices = [hull.points[i] for i in hull.vertices]
 
     return E, f, vertices
 
-- 
2.43.0


From e1ce732e050390ecf7fab5e470c182a0c928dde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:52 +0000
Subject: [PATCH 15/17] fix: test membership in polyhedra that have no
 inequalities

---
 pympc/geometry/polyhedron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 2ef2028..4437460 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -600,7 +600,9 @@ class Polyhedron(object):
         """
 
         # check inequalities
-        in_ineq = np.max(self.A.dot(x) - self.b) <= tol
+        in_ineq = True
+        if self.A.shape[0] > 0:
+            in_ineq = np.max(self.A.dot(x) - self.b) <= tol
 
         # check equalities
         in_eq = True
-- 
2.43.0


From 15d258976c30212a2460af03c8d023c000af53b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:16 +0000
Subject: [PATCH 16/17] fix: solve linear and quadratic programs without
 constraints

---
 pympc/optimization/solvers/pnnls.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index c8b7d44..a35b527 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -2,6 +2,14 @@
 import numpy as np
 from scipy.optimize import nnls
 
+def _nnls(A, b):
+    """
+    Calls the scipy nnls solver; handles here problems without variables (no inequalities and no equalities in the original program), that scipy does not support.
+    """
+    if A.shape[1] == 0:
+        return np.zeros(0), np.linalg.norm(b)
+    return nnls(A, b)
+
 def pnnls(A, B, c):
     """
     Solves the Partial Non-Negative Least Squares problem min_{u, v} ||A v + B u - c||_2^2 s.t. v >= 0.
@@ -33,7 +41,7 @@ def pnnls(A, B, c):
     b_bar = B_bar.dot(c)
 
     # solve nnls
-    v, r = nnls(A_bar, b_bar)
+    v, r = _nnls(A_bar, b_bar)
     u = - B_pinv.dot(A.dot(v) - c)
 
     return v, u, r
@@ -215,7 +223,7 @@ def quadratic_program(H, f, A, b, C=None, d=None, tol=1.e-7):
     gamma = np.ones(1)
     A_nnls = np.vstack((- M.T, - m))
     b_nnls = np.concatenate((np.zeros(n_x), gamma))
-    y, r = nnls(A_nnls, b_nnls)
+    y, r = _nnls(A_nnls, b_nnls)
 
     # initialize output
     sol = {
-- 
2.43.0


From ac958ebabe6626233db7cd1407d1b64bf66793e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:43 +0000
Subject: [PATCH 17/17] fix: nullspace of matrices without rows

---
 pympc/geometry/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 8b847d9..0b0ea70 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -20,7 +20,7 @@ def nullspace_basis(A):
     V = np.linalg.svd(A)[2].T
 
     # cut to the dimension of the rank
-    rank = np.linalg.matrix_rank(A)
+    rank = np.linalg.matrix_rank(A) if A.shape[0] > 0 else 0
     Z = V[:,rank:]
 
     return Z
-- 
2.43.0

