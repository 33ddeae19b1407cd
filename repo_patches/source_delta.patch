From 3080f6d03914c832ba00f44565823d4a1c51839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 001/129] fix: parameters left of the domain of an unclamped
 knot vector hang the span search

---
 mmcore/geom/nurbs.pxd | 2 +-
 mmcore/geom/nurbs.pyx | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index eebc350..a9a6d25 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -233,7 +233,7 @@ cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_pe
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 41829f1..f1bc11d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -142,7 +142,7 @@ cpdef int find_span(int n, int p, double u, double[:] U, bint is_periodic) noexc
 
             return n
 
-        elif u < U[0]:
+        elif u < U[p]:
 
             return p
 
-- 
2.43.0


From c9b7f301b66ec112798f22d48dc1edb6bd180af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 002/129] fix: calc_basis_functions reads the wrong left
 difference for degree >= 2

---
 mmcore/geom/curves/bspline_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/bspline_utils.py b/mmcore/geom/curves/bspline_utils.py
index bc1764b..00f87fa 100644
--- a/mmcore/geom/curves/bspline_utils.py
+++ b/mmcore/geom/curves/bspline_utils.py
@@ -52,7 +52,7 @@ def calc_basis_functions(span, u, p, U):
         saved = 0
         for r in range(j):
             rv = right[r + 1]
-            lv = left[p - r]
+            lv = left[j - r]
             temp = N[r] / (rv + lv)
             N[r] = saved + rv * temp
             saved = lv * temp
-- 
2.43.0


From 9a6278e4f2eab7b242dfb3211e3812d97d7f9deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 003/129] fix: deboor counts an interior knot in both adjacent
 intervals

---
 mmcore/geom/curves/deboor.pyx | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index 24459f6..c7fe870 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -14,7 +14,10 @@ cdef double cdeboor(double[:] knots, double t, int i, int k) noexcept nogil:
     cdef double c1,c2;
 
     if k == 0:
-        return 1.0 if knots[i] <= t <= knots[i + 1] else 0.0
+        if knots[i] <= t < knots[i + 1]:
+            return 1.0
+        # the last non-empty interval is closed at the right end
+        return 1.0 if knots[i] < t == knots[i + 1] == knots[knots.shape[0] - 1] else 0.0
     if knots[i + k] == knots[i]:
         c1 = 0.0
     else:
-- 
2.43.0


From 11b6114f48db8380b868a24720cc72402e667549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:08 +0000
Subject: [PATCH 004/129] fix: evaluate_nurbs_multi accumulates the previous
 points

---
 mmcore/geom/curves/deboor.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/curves/deboor.pyx b/mmcore/geom/curves/deboor.pyx
index c7fe870..c900448 100644
--- a/mmcore/geom/curves/deboor.pyx
+++ b/mmcore/geom/curves/deboor.pyx
@@ -58,6 +58,7 @@ cdef void cevaluate_nurbs_multi( double[:] t,double[:,:] cpts, double[:] knots,
     cdef xyz pt=xyz(0.,0.,0.);
 
     for i in range(t.shape[0]):
+        pt = xyz(0.,0.,0.)
         cevaluate_nurbs(t[i],cpts,knots,weights,degree,&pt)
         result[i][0] = pt.x
         result[i][1] = pt.y
-- 
2.43.0


From 2047cd48e0e4527da6568f3b16125d105f57fc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 005/129] fix: assigning NURBSCurve.control_points raises
 TypeError and resets the points

---
 mmcore/geom/nurbs.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index f1bc11d..458594c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1286,12 +1286,13 @@ cdef class NURBSCurve(ParametricCurve):
                              "If you know what you are doing, assign control points directly by setting the _control_points attribute value. "
                              "However, you will have to clear caches, update the knots and possibly the periodicity.")
 
+        cdef double[:,:] points = np.array(control_points, dtype=float)
         self._control_points = np.ones((control_points.shape[0],4))
         if control_points.shape[1]==4:
-                self._control_points[:]=control_points
+                self._control_points[:]=points
         else:
 
-                self._control_points[:, :control_points.shape[1]] = control_points
+                self._control_points[:, :control_points.shape[1]] = points
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From d221dabf87ccaadf5fdc424f21413d023575640a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 006/129] fix: array dot products add to uninitialised memory

---
 mmcore/numeric/vectors.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index c057da1..778ab66 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -45,7 +45,7 @@ cpdef dot_array_x_array(double[:,:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[1]):
             item += vec_a[i, j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -58,7 +58,7 @@ cpdef matmul_array(double[:,:,:] vec_a, double[:,:,:] vec_b):
     cdef int cols_A = vec_a.shape[2]
     cdef int rows_B = vec_b.shape[1]
     cdef int cols_B = vec_b.shape[2]
-    cdef double[:,:,:] result=np.empty((l,rows_A,cols_B))
+    cdef double[:,:,:] result=np.zeros((l,rows_A,cols_B))
     for w in range(l):
         for i in range(rows_A):
             for j in range(cols_B):
@@ -78,7 +78,7 @@ cpdef dot_vec_x_array(double[:]vec_a, double[:,:]vec_b):
         item = 0.0
         for j in range(vec_a.shape[0]):
             item += vec_a[j] * vec_b[i, j]
-        res[i] += item
+        res[i] = item
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -91,7 +91,7 @@ cpdef dot_array_x_vec(double[:,:]vec_a, double[:]vec_b):
         item = 0.0
         for j in range(vec_b.shape[0]):
             item += vec_a[i, j] * vec_b[j]
-        res[i] += item
+        res[i] = item
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 4831d50580daa43b4fb8675c8a353a98a0627007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 007/129] fix: gram_schmidt uses a stale column index

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 778ab66..1985f20 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -255,7 +255,7 @@ cpdef gram_schmidt(double[:,:]vec_a,
         for j in range(vec_a.shape[1]):
             item_dot += vec_b[i, j] * vec_a[i, j]
         for k in range(vec_a.shape[1]):
-            res[i, k] = vec_b[i, j] - (vec_a[i, j] * item_dot)
+            res[i, k] = vec_b[i, k] - (vec_a[i, k] * item_dot)
     return res
 
 @cython.boundscheck(False)
-- 
2.43.0


From 7ca06044e2f8f76fe38534316b9bc84f296bd895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 008/129] fix: closest points on rays and lines ignore the
 start point

---
 mmcore/numeric/vectors.pyx | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 1985f20..d439953 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -450,6 +450,9 @@ cpdef closest_point_on_ray( double[:] start, double[:] direction,  double[:] poi
     res[0]=a[0]*direction[0]*direction[0]/directionn + a[1]*direction[0]*direction[1]/directionn + a[2]*direction[0]*direction[2]/directionn
     res[1]=a[0]*direction[0]*direction[1]/directionn + a[1]*direction[1]*direction[1]/directionn + a[2]*direction[1]*direction[2]/directionn
     res[2]=a[0]*direction[0]*direction[2]/directionn + a[1]*direction[1]*direction[2]/directionn + a[2]*direction[2]*direction[2]/directionn
+    res[0]+=start[0]
+    res[1]+=start[1]
+    res[2]+=start[2]
     return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -463,7 +466,11 @@ cpdef closest_point_on_line(double[:] start,double[:] end, double[:] point):
     p[0] = point[0] - start[0]
     p[1] = point[1] - start[1]
     p[2] = point[2] - start[2]
-    return vector_projection(p, direction)
+    cdef double [:] res=vector_projection(p, direction)
+    res[0]+=start[0]
+    res[1]+=start[1]
+    res[2]+=start[2]
+    return res
 @cython.boundscheck(False)
 @cython.wraparound(False)
 @cython.cdivision(True)
-- 
2.43.0


From a083062e8e258afd148f258e19b5a8783f9b6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 009/129] fix: courtesan_to_cylindrical returns spherical
 coordinates

---
 mmcore/numeric/vectors.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index d439953..1196cc0 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -307,8 +307,8 @@ cpdef courtesan_to_cylindrical(double[:,:]xyz):
     cdef int i
     for i in range(xyz.shape[0]):
         XsqPlusYsq = xyz[i, 0] ** 2 + xyz[i, 1] ** 2
-        pts[i, 0] = sqrt(XsqPlusYsq + xyz[i, 2] ** 2)
-        pts[i, 1] = atan2(sqrt(XsqPlusYsq), xyz[i, 2])
+        pts[i, 0] = sqrt(XsqPlusYsq)
+        pts[i, 1] = atan2(xyz[i, 1], xyz[i, 0])
         pts[i, 2] = xyz[i, 2]
     return pts
 @cython.boundscheck(False)
-- 
2.43.0


From 357ae166477a6c5e3a8e4f19383fe0ab849c9c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:42 +0000
Subject: [PATCH 010/129] fix: invert_jacobian raises ValueError for an array
 of matrices

---
 mmcore/numeric/vectors.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index 1196cc0..a746eb9 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -421,7 +421,7 @@ cpdef invert_jacobian(J):
 
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
-        status=np.empty((J.shape[0], 2, 2), dtype=np.intc)
+        status=np.empty((J.shape[0],), dtype=np.intc)
         with nogil:
             cinvert_jacobian_vec(J, J_inv,  status)
         return J_inv, status
-- 
2.43.0


From 8aa7a2b01262f978676b457cbdd8a31ba361d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:22 +0000
Subject: [PATCH 011/129] fix: invert_jacobian converts its argument without
 holding the GIL and crashes

---
 mmcore/numeric/vectors.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/vectors.pyx b/mmcore/numeric/vectors.pyx
index a746eb9..7d05a10 100644
--- a/mmcore/numeric/vectors.pyx
+++ b/mmcore/numeric/vectors.pyx
@@ -422,8 +422,7 @@ cpdef invert_jacobian(J):
     else:
         J_inv = np.empty((J.shape[0], 2, 2))
         status=np.empty((J.shape[0],), dtype=np.intc)
-        with nogil:
-            cinvert_jacobian_vec(J, J_inv,  status)
+        cinvert_jacobian_vec(J, J_inv,  status)
         return J_inv, status
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 83774d817faa749263fc0db6eaba233f12ffa935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 012/129] fix: insert_knot on a rational curve interpolates
 unweighted control points

---
 mmcore/geom/nurbs.pyx | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 458594c..14c6d8c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1724,6 +1724,12 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n = self._control_points.shape[0]
         cdef int new_count = n + count
         cdef double[:,:] cpts = self._control_points.copy()
+        cdef int i, j
+
+        # Knots are inserted in homogeneous coordinates
+        for i in range(n):
+            for j in range(3):
+                cpts[i, j] *= cpts[i, 3]
 
         # Find knot span
         cdef int span = find_span_inline(n-1, self._degree, t, self._knots,0)
@@ -1740,6 +1746,9 @@ cdef class NURBSCurve(ParametricCurve):
                                               cpts,
                                               t,
                                                 count, s_u, span,0,self._control_points  )
+        for i in range(new_count):
+            for j in range(3):
+                self._control_points[i, j] /= self._control_points[i, 3]
 
         # Update curve
 
-- 
2.43.0


From e59aeaf8ad299d8b90619cf8c59ddaa8edad3584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 013/129] fix: insert_knot leaves the Greville abscissae of the
 old knots

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 14c6d8c..0e8f5a3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1753,7 +1753,7 @@ cdef class NURBSCurve(ParametricCurve):
         # Update curve
 
         self._knots=k_v
-        self._update_interval()
+        self.knots_update_hook()
 
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 1cadf178a17d882845ce999e04468eff39644a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 014/129] fix: a copied curve evaluates the original curve

---
 mmcore/geom/nurbs.pyx | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0e8f5a3..da9a8d0 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1800,10 +1800,7 @@ cdef class NURBSCurve(ParametricCurve):
 
     # Method to call ccopy from Python
     def copy(self):
-        cdef NURBSCurve crv = self.ccopy()
-
-        crv._evaluate_cached = functools.lru_cache(maxsize=None)(self._evaluate)
-        return crv
+        return self.ccopy()
 
     @cython.boundscheck(False)
     @cython.wraparound(False)
-- 
2.43.0


From 10e90e83588d0b8b176a644de38fdd5c2d29ff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 015/129] fix: changing an evaluated point changes later
 evaluations of the curve

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index da9a8d0..a96aba7 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1542,7 +1542,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     def evaluate(self, double t):
-        return self._evaluate_cached(t)
+        return self._evaluate_cached(t).copy()
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From ebe689d15bb9d5cfc2e00c7ad5b6f6b175e43ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 016/129] fix: a curve shares its knots with the array it was
 created from

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a96aba7..8d030fd 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1164,7 +1164,7 @@ cdef class NURBSCurve(ParametricCurve):
         if knots is None:
                 self.generate_knots()
         else:
-            self._knots=knots
+            self._knots=knots.copy()
             self.knots_update_hook()
 
         if  periodic:
@@ -1305,7 +1305,7 @@ cdef class NURBSCurve(ParametricCurve):
     @knots.setter
     def knots(self, double[:] v):
 
-        self._knots=v
+        self._knots=v.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From bdd97c7e64abf44b6103cf8607b3373084bc3544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 017/129] fix: NURBSCurve.set keeps the interval of the old
 knots

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8d030fd..0aae332 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1500,6 +1500,7 @@ cdef class NURBSCurve(ParametricCurve):
     cpdef set(self, double[:,:] control_points, double[:] knots ):
         self._control_points=control_points
         self._knots=knots
+        self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
     @cython.cdivision(True)
-- 
2.43.0


From 873627dc6d49e548b35e6b3bca74e3fbc6bc071b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 018/129] fix: changing the degree keeps remembered evaluations

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0aae332..cde75b8 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1206,6 +1206,7 @@ cdef class NURBSCurve(ParametricCurve):
         return obj
     cpdef void set_degree(self, int val):
         self._degree=val
+        self._evaluate_cached.cache_clear()
 
 
     cpdef int get_degree(self):
-- 
2.43.0


From 53ef50908fb05ac7fbfcfd4e8cbe41bcfdd941f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 019/129] fix: trim selects the wrong control points and knots

---
 mmcore/geom/nurbs.pyx | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index cde75b8..a20dfa8 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2015,27 +2015,23 @@ cdef class NURBSCurve(ParametricCurve):
         curve.multiply_knot( t1)
         curve.multiply_knot( t2)
 
-        # Find spans corresponding to trim points
-        cdef bint per=curve.is_periodic()
-        cdef int span1 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t1, curve._knots, per)
-        cdef int span2 = find_span_inline(curve._knots.shape[0] - 1, curve._degree, t2, curve._knots, per)
+        # Last knot at t1 and first knot at t2
+        cdef int span1 = find_span_inline(curve._control_points.shape[0] - 1, curve._degree, t1, curve._knots, 0)
+        cdef int last = span1 + 1
+        while curve._knots[last] < t2 - calc_epsilon(t2):
+            last += 1
 
         # Extract relevant control points and knots
-        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:span2 + 1]
-        cdef double[:]        new_knots = curve._knots[span1:span2 + curve._degree + 2]
-
+        cdef double[:,:] new_cpts = curve._control_points[span1 - curve._degree:last].copy()
         # Shift knot vector to start at 0
-        cdef double shift = new_knots[0]
-        cdef int i
-        for i in range(new_knots.shape[0]):
-            new_knots[i]-=shift
-
+        cdef double[:] new_knots = np.concatenate((
+            np.zeros(curve._degree + 1),
+            np.asarray(curve._knots[span1 + 1:last]) - t1,
+            np.full(curve._degree + 1, t2 - t1)
+        ))
 
         # Update curve data
-        curve._control_points = new_cpts
-        curve._knots = new_knots
-        curve._interval[0] = new_knots[0]
-        curve._interval[1] = new_knots[new_knots.shape[0]-1]
+        curve.set(new_cpts, new_knots)
 
         return curve
 
-- 
2.43.0


From fad19513c5f0344de50154452aad45e4da10adc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 020/129] fix: knot_refinement sorts the caller's knot list in
 place

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index a20dfa8..2bb0da4 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -677,6 +677,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
 
         knot_list = np.concatenate((knot_list, add_knot_list))
 
+    knot_list = knot_list.copy()
     cdef int usz=knot_list.shape[0]
     cdef int new_knot_len
 
-- 
2.43.0


From 53d5b7bbb0c3c8d2f5e6c83e868ba93300def3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 021/129] fix: knot_removal measures the distance of the sum of
 two points

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2bb0da4..2b7fc1f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -573,7 +573,7 @@ cdef inline double point_distance(double* a, double* b ,int dim) noexcept nogil:
     cdef double temp=0.
     for i in range(dim):
 
-        temp+= pow(a[i]+b[i], 2)
+        temp+= pow(a[i]-b[i], 2)
 
     return sqrt(temp)
 
-- 
2.43.0


From 2697bf66f887d3ecfeac6c87fc5be01929c516b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 022/129] fix: the curve normal writes past its buffer

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2b7fc1f..8f0e967 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1637,7 +1637,7 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.boundscheck(False)
     @cython.wraparound(False)
     cdef void cnormal(self, double t, double[:] result):
-        cdef double[:,:] vecs=np.zeros((3,3))
+        cdef double[:,:] vecs=np.zeros((4,3))
         self.cplane(t,vecs)
         result[:]=vecs[2,:]
 
-- 
2.43.0


From 9edc20552b657150e66f6106b4c2feb16d32317e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 023/129] fix: derivative_control_points writes past its buffer

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8f0e967..902ea9f 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1692,7 +1692,7 @@ cdef class NURBSCurve(ParametricCurve):
             cdef int n = len(self._control_points) - 1
             cdef int span = find_span(n, self._degree, t,self._knots,self._periodic)
             cdef cnp.ndarray[double, ndim=3] PK = np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1))
-            curve_deriv_cpts(self._degree, self._knots,self._control_points, d, span - self._degree, span, PK)
+            curve_deriv_cpts(self._degree, self._knots,self._control_points[:,:-1], d, span - self._degree, span, PK)
 
             return PK
     @cython.cdivision(True)
-- 
2.43.0


From 751f40896be09771936e2aa3247df79a17bdda0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 024/129] fix: make_open calls a method that does not exist

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 902ea9f..2a42342 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1416,7 +1416,7 @@ cdef class NURBSCurve(ParametricCurve):
         """
         Modify the NURBS curve to make it open
         """
-        if not self.is_open():
+        if not self._periodic:
             return
         cdef int n = len(self._control_points) - self._degree  # Calculate the original number of control points
         self._control_points = self._control_points[:n, :]  # Trim the extra control points
-- 
2.43.0


From 57685af56ce20849fae3d0aa400a4c560a546e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 025/129] fix: is_periodic compares only the last pair of
 control points

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 2a42342..29df01c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1234,7 +1234,7 @@ cdef class NURBSCurve(ParametricCurve):
 
                 res = part1[j][i] == part2[j][i]
                 if not res:
-                    break
+                    return res
 
         return res
 
-- 
2.43.0


From 59f6855f50e5636491a31e3c4aaf11a852374c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:14 +0000
Subject: [PATCH 026/129] fix: serialized curves end with uninitialised memory

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 29df01c..1692b99 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1815,7 +1815,7 @@ cdef class NURBSCurve(ParametricCurve):
 
         # Calculate total size of the byte array
         cdef size_t total_size = (
-            sizeof(MAGIC_BYTES) +
+            MAGIC_BYTES_SIZE +
             sizeof(uint32_t) + # Magic bytes and version
             sizeof(uint32_t) +  # degree
             sizeof(bint) +  # periodic flag
-- 
2.43.0


From fb2b399b858dbc5ce363551e1e3a123a327ad752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 027/129] fix: derivatives of a rational curve ignore the
 weights

---
 mmcore/geom/nurbs.pyx | 46 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1692b99..ea757b2 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1113,6 +1113,42 @@ cdef void normalize_parameter_range(double start, double end ,double* t1, double
 
 
 
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef double[:, :] homogeneous_points(double[:, :] control_points):
+    """
+    Control points (x, y, z, w) as (w*x, w*y, w*z, w).
+    """
+    cdef double[:, :] res = control_points.copy()
+    cdef int i, j
+    for i in range(res.shape[0]):
+        for j in range(3):
+            res[i, j] *= res[i, 3]
+    return res
+
+@cython.cdivision(True)
+@cython.initializedcheck(False)
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef void rational_curve_derivs(double[:, :] CKw, double[:, :] CK):
+    """
+    Derivatives of a rational curve from its homogeneous derivatives (The NURBS Book, A4.2).
+    """
+    cdef int k, i, l
+    cdef double binom
+    for k in range(min(CK.shape[0], CKw.shape[0])):
+        for l in range(3):
+            CK[k, l] = CKw[k, l]
+        binom = 1.
+        for i in range(1, k + 1):
+            binom = binom * (k - i + 1) / i
+            for l in range(3):
+                CK[k, l] -= binom * CKw[i, 3] * CK[k - i, l]
+        for l in range(3):
+            CK[k, l] /= CKw[0, 3]
+
+
 cdef public char* MAGIC_BYTES=b"NRBC"
 cdef public uint32_t VERSION=1
 cdef int MAGIC_BYTES_SIZE=4
@@ -1586,7 +1622,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int i
         #cdef double[:, :]  CK = np.zeros((du + 1, 4))
         #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-        curve_derivs_alg1(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK,self._periodic)
+        cdef double[:, :] CKw = np.zeros((d + 1, 4))
+        curve_derivs_alg1(n, self._degree, self._knots, homogeneous_points(self._control_points), t, d, CKw, self._periodic)
+        rational_curve_derivs(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
@@ -1604,9 +1642,11 @@ cdef class NURBSCurve(ParametricCurve):
            cdef int i
            #cdef double[:, :]  CK = np.zeros((du + 1, 4))
            #cdef double[:, :, :] PK = np.zeros((d + 1, self._degree + 1,  self._control_points.shape[1]-1))
-           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, self._control_points.shape[1]-1 ))
+           cdef double[:,:,:] PK= np.zeros((d + 1, self._degree + 1, 4))
+           cdef double[:, :] CKw = np.zeros((d + 1, 4))
 
-           curve_derivs_alg2(n, self._degree, self._knots, self._control_points[:,:-1], t, d, CK, PK,self._periodic)
+           curve_derivs_alg2(n, self._degree, self._knots, homogeneous_points(self._control_points), t, d, CKw, PK,self._periodic)
+           rational_curve_derivs(CKw, CK)
 
     @cython.cdivision(True)
     @cython.initializedcheck(False)
-- 
2.43.0


From fb7a2ea929a560053ec2bdb03a02dabe9e4505aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:39 +0000
Subject: [PATCH 028/129] fix: the bounding box of a rational curve divides its
 points by their weights

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index ea757b2..9fe3fca 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2008,7 +2008,7 @@ cdef class NURBSCurve(ParametricCurve):
     def bbox(self,double[:,:] result=None):
         if result is None:
             result=np.zeros((2,3))
-        aabb(self._control_points, result)
+        aabb(homogeneous_points(self._control_points), result)
         return result
 
     def astuple(self):
-- 
2.43.0


From 76d7eb359ee40866514e91e6e779f33dc9952fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:02 +0000
Subject: [PATCH 029/129] fix: reverse_curve reads knots in front of the knot
 vector

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 9fe3fca..e441621 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2105,7 +2105,7 @@ def reverse_curve(curve: NURBSCurve) -> NURBSCurve:
     cdef double b = curve._knots[curve._knots.shape[0]-1]
     cdef int i
     for i in range(len(curve._knots)):
-        new_knots[i] = a + b - curve._knots[-(i+1)]
+        new_knots[i] = a + b - curve._knots[curve._knots.shape[0]-1-i]
 
     return NURBSCurve.create(new_cpts, curve._degree, new_knots, curve._periodic)
 
-- 
2.43.0


From 6cce7ad2c8202226bab8c1677b5f76b5210768e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:08 +0000
Subject: [PATCH 030/129] fix: knot_removal compares a removable knot after one
 step too many

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index e441621..4b50d5d 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -611,7 +611,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
         jj = last - first + 1
         remflag = False
 
-        while j - i >= t:
+        while j - i > t:
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-- 
2.43.0


From f2e8f9f7fc0b4c3e6a307eb19b1106cc1268ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:00 +0000
Subject: [PATCH 031/129] fix: knot_refinement reads past the distinct knots
 when density > 1

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 4b50d5d..1b9db54 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -684,6 +684,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
     cdef double* sorted_knots=uniqueSorted(&knot_list[0],usz, &new_knot_len )
 
     knot_list = <double[:new_knot_len]>sorted_knots
+    usz = new_knot_len
 
 
     cdef double[:] rknots
-- 
2.43.0


From 763f79cda21f3651d0b867d8aaa325080e2a77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:13 +0000
Subject: [PATCH 032/129] fix: knot_removal shifts control points it has not
 updated

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 1b9db54..6da3060 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -653,7 +653,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
         else:
             j -= 1
     for k in range(i + 1, n):
-        memcpy(&ctrlpts_new[j, 0], &ctrlpts[k, 0], sizeof(double) * dim)
+        memcpy(&ctrlpts_new[j, 0], &ctrlpts_new[k, 0], sizeof(double) * dim)
         j += 1
 
     free(temp)
-- 
2.43.0


From dcdbc1ce80f87d3721176a96c36b24e04914ef41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:23 +0000
Subject: [PATCH 033/129] fix: removing a knot several times starts each time
 from the original points

---
 mmcore/geom/nurbs.pyx | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 6da3060..838a558 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -603,8 +603,8 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
     cdef double[:] ptn = np.zeros(dim, dtype=np.float64)
 
     for t in range(num):
-        memcpy(&temp[0], &ctrlpts[first - 1, 0], sizeof(double) * dim)
-        memcpy(&temp[(last - first + 2) * dim], &ctrlpts[last + 1, 0], sizeof(double) * dim)
+        memcpy(&temp[0], &ctrlpts_new[first - 1, 0], sizeof(double) * dim)
+        memcpy(&temp[(last - first + 2) * dim], &ctrlpts_new[last + 1, 0], sizeof(double) * dim)
         i = first
         j = last
         ii = 1
@@ -615,8 +615,8 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             alpha_j = knot_removal_alpha_j(u, degree, knotvector, t, j)
             for k in range(dim):
-                temp[ii * dim + k] = (ctrlpts[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
-                temp[jj * dim + k] = (ctrlpts[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
+                temp[ii * dim + k] = (ctrlpts_new[i, k] - (1.0 - alpha_i) * temp[(ii - 1) * dim + k]) / alpha_i
+                temp[jj * dim + k] = (ctrlpts_new[j, k] - alpha_j * temp[(jj + 1) * dim + k]) / (1.0 - alpha_j)
             i += 1
             j -= 1
             ii += 1
@@ -629,7 +629,7 @@ cpdef knot_removal(int degree, double[:] knotvector, double[:, :] ctrlpts, doubl
             alpha_i = knot_removal_alpha_i(u, degree, knotvector, t, i)
             for k in range(dim):
                 ptn[k] = (alpha_i * temp[(ii + t + 1) * dim + k]) + ((1.0 - alpha_i) * temp[(ii - 1) * dim + k])
-            if point_distance(&ctrlpts[i, 0], &ptn[0], dim) <= tol:
+            if point_distance(&ctrlpts_new[i, 0], &ptn[0], dim) <= tol:
                 remflag = True
 
         if remflag:
-- 
2.43.0


From 79972b1395dabbae2f2c24bceb4a3cfb8efd17c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:17 +0000
Subject: [PATCH 034/129] fix: copying a curve divides by the zero degree of
 the unfinished copy

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 838a558..aa0dd91 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1830,8 +1830,8 @@ cdef class NURBSCurve(ParametricCurve):
         # Create new NURBSCurve object
         cdef NURBSCurve new_curve = NURBSCurve.__new__(NURBSCurve)
         new_curve._control_points = new_control_points
-        new_curve.knots = new_knots
         new_curve._degree = self._degree
+        new_curve.knots = new_knots
         new_curve._periodic = self._periodic
         new_curve._interval[0] = self._interval[0]
         new_curve._interval[1] = self._interval[1]
-- 
2.43.0


From 572d36c6ebdac00130f9df2b9d351481ff82ae6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:40 +0000
Subject: [PATCH 035/129] fix: deserializing truncated data reads past its end

---
 mmcore/geom/nurbs.pyx | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index aa0dd91..51ad339 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1942,6 +1942,9 @@ cdef class NURBSCurve(ParametricCurve):
     @cython.wraparound(False)
     @cython.nonecheck(False)
     cdef NURBSCurve cdeserialize(const unsigned char[:] data):
+        cdef size_t header_size = MAGIC_BYTES_SIZE + 5 * sizeof(uint32_t)
+        if <size_t>data.shape[0] < header_size:
+            raise ValueError("Truncated data")
         cdef const char* buffer = <const char*>&data[0]
         cdef const char* current = buffer
         cdef int vers
@@ -1966,6 +1969,9 @@ cdef class NURBSCurve(ParametricCurve):
         cdef int n_knots = (<uint32_t*>current)[0]
         current += sizeof(uint32_t)
 
+        if n_ctrlpts < 0 or n_knots < 0 or <size_t>data.shape[0] < header_size + (<size_t>n_ctrlpts * 4 + <size_t>n_knots) * sizeof(double):
+            raise ValueError("Truncated data")
+
         # Allocate memory for control points and knots
         cdef double* control_points_data = <double*>malloc(n_ctrlpts * 4 * sizeof(double))
         cdef double* knots_data = <double*>malloc(n_knots * sizeof(double))
-- 
2.43.0


From b8989514fb340130226c5eff42d11f9b7cd17c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 036/129] fix: comparing or hashing surfaces raises
 AttributeError

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 51ad339..c47c536 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2618,7 +2618,7 @@ cdef class NURBSSurface(ParametricSurface):
     def geometry_hash(self, check_interval=False):
         cdef bytes ku = np.ascontiguousarray(self._knots_u).tobytes()
         cdef bytes kv = np.ascontiguousarray(self._knots_v).tobytes()
-        cdef bytes pts = np.ascontiguousarray(self._control_points).tobytes()
+        cdef bytes pts = np.ascontiguousarray(self.control_points_view).tobytes()
         cdef double u0 = self._interval[0][0]
         cdef double u1 = self._interval[0][1]
         cdef double v0 = self._interval[1][0]
@@ -2627,7 +2627,7 @@ cdef class NURBSSurface(ParametricSurface):
         if check_interval:
             itms = (self._degree[0], self._degree[1],ku,kv, pts, u0,u1,v0,v1)
         else:
-            itms = (self._degree[0], self._degree[1],self._degree, ku,kv, pts)
+            itms = (self._degree[0], self._degree[1], ku,kv, pts)
         return hash(itms)
     def __hash__(self):
         return self.geometry_hash(check_interval=True)
-- 
2.43.0


From c442555bb1c91469c6c3cd465a66d4c46a5a096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 037/129] fix: a surface shares its knots with the arrays it
 was given

---
 mmcore/geom/nurbs.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index c47c536..0fd1083 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2370,18 +2370,18 @@ cdef class NURBSSurface(ParametricSurface):
         if knots_u is None:
             self.generate_knots_u()
         else:
-            self._knots_u=knots_u
+            self._knots_u=knots_u.copy()
         if knots_v is None:
             self.generate_knots_v()
         else:
-            self._knots_v=knots_v
+            self._knots_v=knots_v.copy()
         self._update_interval()
     @property
     def knots_u(self):
         return np.array(self._knots_u)
     @knots_u.setter
-    def knots_u(self,val):
-        self._knots_u=val
+    def knots_u(self,double[:] val):
+        self._knots_u=val.copy()
         self._update_interval()
 
     @property
@@ -2428,8 +2428,8 @@ cdef class NURBSSurface(ParametricSurface):
         return self.control_points_view
 
     @knots_v.setter
-    def knots_v(self,val):
-        self._knots_v=val
+    def knots_v(self,double[:] val):
+        self._knots_v=val.copy()
         self._update_interval()
     @property
     def degree(self):
-- 
2.43.0


From 6a80003498d8553045ad7c39aa02427a03f92212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 038/129] fix: changing the degree of a surface keeps the
 interval of the old knots

---
 mmcore/geom/nurbs.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0fd1083..94b4439 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2441,6 +2441,7 @@ cdef class NURBSSurface(ParametricSurface):
         self._degree[1]=val[1]
         self.generate_knots_u()
         self.generate_knots_v()
+        self._update_interval()
 
 
     @cython.boundscheck(False)
-- 
2.43.0


From f9dfb89599f4dc6727c6cb6a527c789ff7f3618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 039/129] fix: periodic curves are extrapolated outside their
 first period

---
 mmcore/geom/nurbs.pxd | 15 +++++++++++++++
 mmcore/geom/nurbs.pyx |  4 ++++
 2 files changed, 19 insertions(+)

diff --git a/mmcore/geom/nurbs.pxd b/mmcore/geom/nurbs.pxd
index a9a6d25..90020f7 100644
--- a/mmcore/geom/nurbs.pxd
+++ b/mmcore/geom/nurbs.pxd
@@ -82,6 +82,8 @@ cdef inline void curve_point(int n, int p, double[:] U, double[:, :] P, double u
 
     cdef int pp = p + 1
     cdef int i, j
+    if is_periodic:
+        u = wrap_parameter(n, p, u, U)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double* N = <double*>malloc(sizeof(double)*pp)
     cdef double sum_of_weights=0.
@@ -164,6 +166,19 @@ cdef void projective_to_cartesian(double[:] point, double[:] result)  noexcept n
 cdef void projective_to_cartesian_ptr_ptr(double* point, double* result)  noexcept nogil
 cdef void projective_to_cartesian_ptr_mem(double* point, double[:] result)  noexcept nogil
 
+@cython.boundscheck(False)
+@cython.wraparound(False)
+cdef inline double wrap_parameter(int n, int p, double u, double[:] U) noexcept nogil:
+    """
+    The parameter of a periodic curve moved by whole periods into its first period [U[p], U[n + 1]].
+    """
+    cdef double period = U[n + 1] - U[p]
+    while u < U[p]:
+        u += period
+    while u > U[n + 1]:
+        u -= period
+    return u
+
 @cython.boundscheck(False)
 @cython.wraparound(False)
 cdef inline int find_span_inline(int n, int p, double u, double[:] U, bint is_periodic) nogil:
diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 94b4439..0f9ddfb 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -364,6 +364,8 @@ cpdef void curve_derivs_alg1(int n, int p, double[:] U, double[:, :] P, double u
     cdef int du = min(d, p)
     #cdef double[:, :] CK = np.zeros((du + 1, P.shape[1]))
     cdef int pp=p+1
+    if is_periodic:
+        u = wrap_parameter(n, p, u, U)
     cdef int span = find_span_inline(n, p, u, U,is_periodic)
     cdef double[:, :] nders = ders_basis_funs(span, u, p, du, U)
 
@@ -445,6 +447,8 @@ cpdef void curve_derivs_alg2(int n, int p, double[:] U, double[:, :] P, double u
 
     #cdef double[:, :] CK = np.zeros((d + 1, dimension))
 
+    if is_periodic:
+        u = wrap_parameter(n, p, u, U)
     cdef int span = find_span_inline(n, degree, u, knotvector,is_periodic)
     #cdef double[:, :, :] PK = np.zeros((d + 1, degree + 1, P.shape[1]))
 
-- 
2.43.0


From 6908e39196841c4add491cff2a21be9583d3cc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 040/129] fix: flip leaves the knots in decreasing order

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 0f9ddfb..8b8d4ba 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2088,7 +2088,7 @@ cdef class NURBSCurve(ParametricCurve):
         return curve
 
     def flip(self):
-        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,np.max(self.knots)-self.knots+np.min(self.knots))
+        return NURBSCurve(np.flip(self._control_points,axis=0), self.degree,(np.max(self.knots)-self.knots+np.min(self.knots))[::-1],self._periodic)
 
 
 
-- 
2.43.0


From b47536fb44fedc9be502afeb3a95f74a5b120261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 041/129] fix: surface derivatives at the far edge of the
 domain use an empty knot span

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 8b8d4ba..d768bb3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -983,7 +983,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
     cdef int basisdrv_size_u, basisdrv_size_v
 
     # Allocate memory and compute basis function derivatives for u and v directions
-    span[0] = find_span_inline(size[0], degree[0], u, knots_u, 0)
+    span[0] = find_span_inline(size[0] - 1, degree[0], u, knots_u, 0)
     basisdrv_size_u = (d[0] + 1) * (degree[0] + 1)
     basisdrv_u = <double*>malloc(basisdrv_size_u * sizeof(double))
     with gil:
@@ -991,7 +991,7 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
 
         ders_basis_funs(span[0], u, degree[0], d[0], knots_u, mbasisdrv_u)
 
-    span[1] = find_span_inline(size[1], degree[1], v, knots_v, 0)
+    span[1] = find_span_inline(size[1] - 1, degree[1], v, knots_v, 0)
     basisdrv_size_v = (d[1] + 1) * (degree[1] + 1)
     basisdrv_v = <double*>malloc(basisdrv_size_v * sizeof(double))
     with gil:
-- 
2.43.0


From 2898336ec94970ca174fa03092d95abdbdcc80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 042/129] fix: surface_derivatives adds to the old content of
 the result

---
 mmcore/geom/nurbs.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d768bb3..3412382 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1001,6 +1001,8 @@ cdef void surface_derivatives(int[2] degree, double[:] knots_u,  double[:] knots
 
     temp = <double*>malloc((degree[1] + 1) * dimension * sizeof(double))
 
+    SKL[:deriv_order + 1, :deriv_order + 1, :dimension] = 0.0
+
     for k in range(d[0] + 1):
         for s in range(degree[1] + 1):
             for i in range(dimension):
-- 
2.43.0


From 54788ef40d49fcb5fd5541e07b152dea666052bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:02 +0000
Subject: [PATCH 043/129] fix: surface_deriv_cpts overruns its row buffer and
 skips the highest u derivative

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 3412382..997ce4b 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -844,7 +844,7 @@ cpdef void surface_deriv_cpts(int dim, int[:] degree, double[:] kv0, double[:] k
     cdef int i, j, k, l, d,dd
     cdef double[:, :, :] PKu = np.zeros((du + 1, r + 1, dim), dtype=np.double)
     cdef double[:, :, :] PKuv = np.zeros((dv + 1, s + 1, dim), dtype=np.double)
-    cdef double[:, :] temp_cpts = np.zeros((cpsize[0], dim), dtype=np.double)
+    cdef double[:, :] temp_cpts = np.zeros((max(cpsize[0], s + 1), dim), dtype=np.double)
 
     # Control points of the U derivatives of every U-curve
     for j in range(ss[0], ss[1] + 1):
@@ -860,7 +860,7 @@ cpdef void surface_deriv_cpts(int dim, int[:] degree, double[:] kv0, double[:] k
                     PKL[k, 0, i, j - ss[0], d] = PKu[k, i, d]
 
     # Control points of the V derivatives of every U-differentiated V-curve
-    for k in range(du):
+    for k in range(du + 1):
         for i in range(r - k + 1):
             dd = min(deriv_order - k, dv)
 
-- 
2.43.0


From ffd035d4e2a43b03a7f19bd240051f646821ba27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:07 +0000
Subject: [PATCH 044/129] fix: subdivide_surface with normalize_knots applies v
 to normalised halves

---
 mmcore/geom/nurbs.pyx | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 997ce4b..78f4255 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -2908,10 +2908,6 @@ cpdef tuple subdivide_surface(NURBSSurface surface, double u=0.5,double v=0.5,do
     cdef NURBSSurface surf1, surf2, surf11, surf12, surf21, surf22
     surf1= surfs1[0]
     surf2 = surfs1[1]
-    if normalize_knots:
-        surf1.normalize_knots()
-        surf2.normalize_knots()
-
 
     surf11, surf12 = split_surface_v(surf1,v,tol)
     surf21, surf22 = split_surface_v(surf2,v,tol)
-- 
2.43.0


From 1f312b9634b3bc10223f0168cc991836c3e38dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 045/129] fix: aabb of points that are not three-dimensional
 gets a box of width three

---
 mmcore/numeric/_aabb.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 8b386e4..82c2cbf 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -83,7 +83,7 @@ cdef inline void caabb(double[:,:] points, double[:] min_point, double[:] max_po
 @cython.cdivision(True)
 def aabb(double[:,:] pts, double[:,:] bb=None):
     if bb is None:
-        bb   =np.zeros((2,3))
+        bb   =np.zeros((2,pts.shape[1]))
 
     caabb(pts,bb[0],bb[1])
     return bb
-- 
2.43.0


From f73fd88a4cf60991feff109a834d710072959d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 046/129] fix: ray_aabb_intersect clamps the far parameter of a
 ray to one

---
 mmcore/numeric/_aabb.pyx | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/numeric/_aabb.pyx b/mmcore/numeric/_aabb.pyx
index 82c2cbf..3c85301 100644
--- a/mmcore/numeric/_aabb.pyx
+++ b/mmcore/numeric/_aabb.pyx
@@ -303,8 +303,6 @@ def ray_aabb_intersect(
 
             if tmin<= 0:
                 tmin = 0.
-            if tmax >= 1.:
-                tmax = 1.
             return [tmin,tmax]
 
     else:
-- 
2.43.0


From 4beeed2a009ee99ad0a07768eadf2299ec3a7a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 047/129] fix: derivatives of ruled surfaces ignore the length
 of the curves' parameter intervals

---
 mmcore/geom/parametric.pyx | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 28805f1..6f9219c 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -705,13 +705,15 @@ cdef class Ruled(ParametricSurface):
         cdef double dv=1.-v
 
         self.c1.cderivative(u2,temp)
-        temp[0]*=v
-        temp[1] *= v
-        temp[2] *= v
+        cdef double s0=(self.c0._interval[1] - self.c0._interval[0])*dv
+        cdef double s1=(self.c1._interval[1] - self.c1._interval[0])*v
+        temp[0]*=s1
+        temp[1] *= s1
+        temp[2] *= s1
         self.c0.cderivative(u1,result)
-        result[0]*=dv
-        result[1] *= dv
-        result[2] *= dv
+        result[0]*=s0
+        result[1] *= s0
+        result[2] *= s0
         result[0]+=temp[0]
         result[1] += temp[1]
         result[2] += temp[2]
@@ -726,13 +728,17 @@ cdef class Ruled(ParametricSurface):
             cdef double dv=1.-v
 
             self.c1.csecond_derivative(u2,temp)
-            temp[0]*=v
-            temp[1] *= v
-            temp[2] *= v
+            cdef double l0=self.c0._interval[1] - self.c0._interval[0]
+            cdef double l1=self.c1._interval[1] - self.c1._interval[0]
+            cdef double s0=l0*l0*dv
+            cdef double s1=l1*l1*v
+            temp[0]*=s1
+            temp[1] *= s1
+            temp[2] *= s1
             self.c0.csecond_derivative(u1,result)
-            result[0]*=dv
-            result[1] *= dv
-            result[2] *= dv
+            result[0]*=s0
+            result[1] *= s0
+            result[2] *= s0
             result[0]+=temp[0]
             result[1] += temp[1]
             result[2] += temp[2]
-- 
2.43.0


From a90c2533fcbc29749e78700caca245f1185d4e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:09 +0000
Subject: [PATCH 048/129] fix: a cylinder pointing along the negative x axis
 has no frame

---
 mmcore/geom/primitives.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index ada9699..78eb9d5 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -405,7 +405,7 @@ cdef class Cylinder(ParametricSurface):
         self._interval[1][1] =  self.D_norm
 
         # Choose an arbitrary vector W that is not collinear with D_hat
-        if np.allclose(self.D_hat, [1, 0, 0]):
+        if np.allclose(np.abs(self.D_hat), [1, 0, 0]):
             self.W = np.array([0., 1., 0.])
         else:
             self.W = np.array([1., 0., 0.])
-- 
2.43.0


From e772ed67b4ef4438b0f4bdb2bc5bdddde2d53902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 049/129] fix: plane_at of parametric surfaces assigns arrays
 to memoryview rows as numbers

---
 mmcore/geom/parametric.pyx | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/parametric.pyx b/mmcore/geom/parametric.pyx
index 6f9219c..b16e348 100644
--- a/mmcore/geom/parametric.pyx
+++ b/mmcore/geom/parametric.pyx
@@ -461,10 +461,13 @@ cdef class ParametricSurface:
 
         orig = self.cevaluate(u, v,result[0] )
         self.cderivative_u(u,v,result[1])
-        result[1,:] = vectors.scalar_unit(result[1])
+        cdef double[:] axis = vectors.scalar_unit(result[1])
+        result[1,:] = axis
         self.cderivative_v(u,v,result[3])
-        result[3,:] = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
-        result[2,:] = vectors.scalar_cross(result[3], result[1])
+        axis = vectors.scalar_unit(vectors.scalar_cross(result[1], result[3] ))
+        result[3,:] = axis
+        axis = vectors.scalar_cross(result[3], result[1])
+        result[2,:] = axis
     @cython.boundscheck(False)
     @cython.wraparound(False)
     @cython.cdivision(True)
-- 
2.43.0


From d75ace8d59c01291cfe49f7de07441513b0c49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:18 +0000
Subject: [PATCH 050/129] fix: astuple of implicit primitives passes doubles to
 PyTuple_Pack and crashes

---
 mmcore/geom/primitives.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/primitives.pyx b/mmcore/geom/primitives.pyx
index 78eb9d5..4d921fb 100644
--- a/mmcore/geom/primitives.pyx
+++ b/mmcore/geom/primitives.pyx
@@ -211,7 +211,7 @@ cdef class Sphere(Implicit3D):
 
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(4,self.ox,self.oy,self.oz,self._radius )
+        cdef tuple tpl = (self.ox,self.oy,self.oz,self._radius)
         return tpl
 
     @property
@@ -308,7 +308,7 @@ cdef class ImplicitCylinder(Implicit3D):
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius,self._bounds)
 
     def astuple(self):
-        cdef tuple tpl=PyTuple_Pack(7,self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius )
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius)
         return tpl
 
     @property
@@ -545,7 +545,7 @@ cdef class Tube(ImplicitCylinder):
     cdef void _calculate_bounds(self) noexcept nogil:
         cylinder_aabb(self.ox,self.oy,self.oz,self.ex,self.ey,self.ez,self.dx,self.dy,self.dz,self._radius+self._thickness/2, self._bounds)
     def astuple(self):
-        cdef tuple tpl = PyTuple_Pack(8, self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
+        cdef tuple tpl = (self.ox, self.oy, self.oz, self.ex, self.ey, self.ez, self._radius, self._thickness)
         return tpl
 
 
-- 
2.43.0


From f61da557d2760e226cb06f3c8ca6ea950ff9a37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 051/129] fix: difference of two intervals does not contain all
 differences

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index b5d0311..dc73745 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -42,7 +42,7 @@ class Interval:
 
     def __sub__(self, other):
         if isinstance(other, Interval):
-            return Interval(self.low - other.low, self.upp - other.upp)
+            return Interval(self.low - other.upp, self.upp - other.low)
         return Interval(self.low - other, self.upp - other)
 
     def __mul__(self, other):
-- 
2.43.0


From 7542405b300314fa2d446911f55ea36390616af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 052/129] fix: an interval multiplied or divided by a negative
 number has its ends swapped

---
 mmcore/numeric/interval/_interval.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index dc73745..6fd6d0c 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -49,14 +49,16 @@ class Interval:
         if isinstance(other, Interval):
             products = [self.low * other.low, self.low * other.upp, self.upp * other.low, self.upp * other.upp]
             return Interval(min(products), max(products))
-        return Interval(self.low * other, self.upp * other)
+        products = [self.low * other, self.upp * other]
+        return Interval(min(products), max(products))
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
 
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
-        return Interval(self.low / other, self.upp / other)
+        quotients = [self.low / other, self.upp / other]
+        return Interval(min(quotients), max(quotients))
 
     def __contains__(self, item):
         if isinstance(item, Interval):
-- 
2.43.0


From 932a7be3de246899b91e582144c795df05949b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 053/129] fix: division by an interval around zero gives a
 bounded quotient

---
 mmcore/numeric/interval/_interval.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 6fd6d0c..824827e 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -54,7 +54,8 @@ class Interval:
 
     def __truediv__(self, other):
         if isinstance(other, Interval):
-
+            if other.low < 0 < other.upp:
+                return Interval(float('-inf'), float('inf'))
             reciprocals = [1 / other.low, 1 / other.upp]
             return self * Interval(min(reciprocals), max(reciprocals))
         quotients = [self.low / other, self.upp / other]
-- 
2.43.0


From 46431ca37e490d1a50d003b5bfed878c8ad4a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 054/129] fix: even powers of an interval around zero do not
 contain zero

---
 mmcore/numeric/interval/_interval.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 824827e..25d47a7 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -156,10 +156,7 @@ class Interval:
 
     @staticmethod
     def pow(base, exp):
-        if exp % 2 == 0:
-            return Interval(min(base.low ** exp, base.upp ** exp), max(base.low ** exp, base.upp ** exp))
-        else:
-            return Interval(base.low ** exp, base.upp ** exp)
+        return base ** exp
 
 
     def __iadd__(self, other):
@@ -201,7 +198,11 @@ class Interval:
         return np.array(self.to_tuple(), dtype=dtype)
 
     def __pow__(self, exp):
+        if exp < 0:
+            return ~(self ** -exp)
         if exp % 2 == 0:
+            if exp > 0 and self.low < 0 < self.upp:
+                return Interval(0, max(self.low ** exp, self.upp ** exp))
             return Interval(min(self.low ** exp, self.upp ** exp), max(self.low ** exp, self.upp ** exp))
         else:
             return Interval(self.low ** exp, self.upp ** exp)
\ No newline at end of file
-- 
2.43.0


From 6617016d5d0061ea7f1461232af204c32708a1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 055/129] fix: a number inside an interval is reported as
 definitely less

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 25d47a7..790d2ff 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -74,7 +74,7 @@ class Interval:
                 return Comparison.FALSE  # Definitely greater than
             else:
                 return Comparison.MAYBE  # Overlapping intervals, uncertain comparison
-        return Comparison.TRUE if self.upp < other else Comparison.FALSE
+        return self.compare(Interval(other))
 
     def __lt__(self, other):
         comp = self.compare(other)
-- 
2.43.0


From 817e79685fdbadec36b49f8c3d1c15996b0df7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:58 +0000
Subject: [PATCH 056/129] fix: Interval.from_tuple never returns

---
 mmcore/numeric/interval/_interval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/interval/_interval.py b/mmcore/numeric/interval/_interval.py
index 790d2ff..79a2997 100644
--- a/mmcore/numeric/interval/_interval.py
+++ b/mmcore/numeric/interval/_interval.py
@@ -185,7 +185,7 @@ class Interval:
     @classmethod
     def from_tuple(cls, t):
 
-        return cls(cls.from_tuple(t[0]), cls.from_tuple(t[1]))
+        return cls(t[0], t[1])
 
     def to_tuple(self):
 
-- 
2.43.0


From dbbfff9d7c85ece05bcd2c6b98308e4fc736e005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 057/129] fix: CDLL.insert at index zero moves the old first
 element to the end

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index b0fd298..8682ea9 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -148,7 +148,7 @@ class CDLL:
             node.next = node
             node.previous = node
         else:
-            temp = self.head
+            temp = self.head.previous if index == 0 else self.head
             for _ in range(index - 1):
                 temp = temp.next
             temp.next.previous = node
-- 
2.43.0


From cb5d11fb740c9b07b11f6b36ef7435745d7eddb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 058/129] fix: iterating over an empty CDLL yields an element

---
 mmcore/ds/cdll/cdll.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 8682ea9..1938238 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -116,8 +116,6 @@ class CDLL:
             while (temp != self.head):
                 yield temp.data
                 temp = temp.next
-        else:
-            yield
 
     def __len__(self):
         return self.count
-- 
2.43.0


From 5d86675a681738899315d074911a3447978141ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 059/129] fix: CDLL.remove of a missing element breaks the
 links of the first one

---
 mmcore/ds/cdll/cdll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 1938238..929532b 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -200,6 +200,8 @@ class CDLL:
                 break
 
             temp = temp.next
+        else:
+            raise ValueError(f"{data} is not in list")
         self.remove_hook(temp)
         del temp.next
         del temp.previous
-- 
2.43.0


From 819c2f477f33a533cb7924933e77c968406c477c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 060/129] fix: removing the only element of a CDLL leaves it as
 head

---
 mmcore/ds/cdll/cdll.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 929532b..cef700a 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -170,8 +170,10 @@ class CDLL:
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
+            node = self.head
             self.head = None
             self.count = 0
+            self.remove_hook(node)
             return
         target = self.head
         for _ in range(index):
@@ -192,7 +194,9 @@ class CDLL:
         for i in range(self.count):
             if (temp.data == data):
 
-                if temp is self.head:
+                if self.count == 1:
+                    self.head = None
+                elif temp is self.head:
                     self.head = self.head.next
                 temp.previous.next, temp.next.previous = temp.next, temp.previous
 
-- 
2.43.0


From 69d59cbe2604dab934ba8b966db63c1e24122ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 061/129] fix: CDLL.get accepts any negative index

---
 mmcore/ds/cdll/cdll.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index cef700a..a6b61e0 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -223,7 +223,7 @@ class CDLL:
         if index < 0:
             index = self.count + index
 
-        elif (index >= self.count):
+        if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         temp = self.head
         for _ in range(index):
-- 
2.43.0


From 0a8a7b995165a9361156083c61b18f397a6a6433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 062/129] fix: CDLL.replace_node does not link the new node
 back

---
 mmcore/ds/cdll/cdll.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index a6b61e0..95de166 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -249,6 +249,8 @@ class CDLL:
         if (index >= self.count) | (index < 0):
             raise ValueError(f"Index out of range: {index}, size: {self.count}")
         if self.count == 1:
+            node.next = node
+            node.previous = node
             self.head =  node
 
             return
@@ -258,17 +260,12 @@ class CDLL:
 
 
         if target is self.head:
-            node.next = self.head.next
-            node.prev = self.head.previous
-            self.head.previous.next=node
-            self.head.next.previous=node
             self.head = node
         node.next = target.next
-        node.prev = target.previous
+        node.previous = target.previous
 
         target.previous.next = node
         target.next.previous = node
-        target.previous.next=node
 
 
 
-- 
2.43.0


From eddf3b8d76d1cb35cbcc0ae1ab301b0be0ed3d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 063/129] fix: CDLL.append_node to an empty list keeps the
 links of the node

---
 mmcore/ds/cdll/cdll.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/ds/cdll/cdll.py b/mmcore/ds/cdll/cdll.py
index 95de166..decd395 100644
--- a/mmcore/ds/cdll/cdll.py
+++ b/mmcore/ds/cdll/cdll.py
@@ -125,6 +125,8 @@ class CDLL:
 
     def append_node(self, node):
         if self.head is None:
+            node.next = node
+            node.previous = node
             self.head = node
             self.count = 1
         else:
-- 
2.43.0


From af80046ec729f6dfe735f0a596944f9c7268e75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 064/129] fix: deleting a node with two children of an AVL tree
 keeps its data under the successor's key

---
 mmcore/ds/tree/avl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index 8fa2b83..dec5312 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -333,6 +333,7 @@ class AVL(object):
 
                     if successor:
                         self.node.key = successor.key
+                        self.node.data = successor.data
 
                         # Delete successor from the replaced node right subree
                         self.node.right.delete(successor.key)
-- 
2.43.0


From f9b31398b1b0c379293bf223dccf154a7da9015e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 065/129] fix: assignment to an existing key of an AVL tree is
 ignored

---
 mmcore/ds/tree/avl.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/avl.py b/mmcore/ds/tree/avl.py
index dec5312..92376c8 100644
--- a/mmcore/ds/tree/avl.py
+++ b/mmcore/ds/tree/avl.py
@@ -373,7 +373,11 @@ class AVL(object):
         return self.search(item).data
 
     def __setitem__(self, item, val):
-        return self.insert(item, data=val)
+        node = self.search(item)
+        if node is None:
+            self.insert(item, data=val)
+        else:
+            node.data = val
 
     def __delitem__(self, item):
         self.delete(item)
-- 
2.43.0


From de79ef6dd74dc28e2d2131776abf0c1373547360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 066/129] fix: boxes above the leaf are not enlarged on
 insertion into an R-tree, so searches miss entries

---
 mmcore/ds/tree/rtree.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 8ccafdd..6240c85 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -76,6 +76,7 @@ class RStarTree:
                 if best_child is None or enlargement < best_enlargement:
                     best_child = child
                     best_enlargement = enlargement
+            best_child.mbr = best_child.mbr.union(rectangle)
             return self._choose_leaf(best_child, rectangle)
 
     def _split_node(self, node):
-- 
2.43.0


From 44396f2c56f32d73d0b8f06772f196b089020ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:22 +0000
Subject: [PATCH 067/129] fix: _find_parent of an R-tree returns the topmost
 ancestor instead of the parent

---
 mmcore/ds/tree/rtree.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/tree/rtree.py b/mmcore/ds/tree/rtree.py
index 6240c85..f695f93 100644
--- a/mmcore/ds/tree/rtree.py
+++ b/mmcore/ds/tree/rtree.py
@@ -144,8 +144,11 @@ class RStarTree:
         if current_node.is_leaf:
             return None
         for child in current_node.children:
-            if child == target_node or self._find_parent(child, target_node):
+            if child == target_node:
                 return current_node
+            parent = self._find_parent(child, target_node)
+            if parent is not None:
+                return parent
         return None
 
     def search(self, rectangle):
-- 
2.43.0


From ee58c00215d5085d4ead484abb37b4b05e9ab9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 068/129] fix: deleting from a k-d tree misses points that
 share a coordinate with a node above them

---
 mmcore/ds/bkdtree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ab87678..ebb979e 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -221,9 +221,14 @@ class BalancedKDTree:
                 return None
         else:
             # Not the node to delete, search left or right
+            # Points that share the node's coordinate may be on either side of it
+            left_size = node.left.size if node.left else 0
             if point[current_axis] <= node.point[current_axis]:
                 node.left = self._delete_rec(node.left, point, depth + 1)
-            else:
+            if point[current_axis] > node.point[current_axis] or (
+                point[current_axis] == node.point[current_axis]
+                and (node.left.size if node.left else 0) == left_size
+            ):
                 node.right = self._delete_rec(node.right, point, depth + 1)
 
         _update_size(node)
-- 
2.43.0


From 4726c809fd1bad7bbf26beb6c20c9ddec8865b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 069/129] fix: deleting from a k-d tree leaves larger points on
 the left of their node

---
 mmcore/ds/bkdtree.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index ebb979e..cdaa4c8 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -214,8 +214,10 @@ class BalancedKDTree:
                 # find min in the left subtree along 'current_axis'
                 min_node = self._find_min(node.left, current_axis, depth + 1)
                 node.point = min_node.point
-                # Then, we have to remove that min from the left subtree
-                node.left = self._delete_rec(node.left, min_node.point, depth + 1)
+                # Then, we have to remove that min from the left subtree;
+                # what remains is not less than the min, so it goes to the right
+                node.right = self._delete_rec(node.left, min_node.point, depth + 1)
+                node.left = None
             else:
                 # Case 3: Leaf node
                 return None
-- 
2.43.0


From bc53af002372fcc2b7f2bcd47f7c55b3e32c4e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 070/129] fix: k nearest neighbors of a k-d tree skips subtrees
 before k points are found

---
 mmcore/ds/bkdtree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index cdaa4c8..f914461 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -326,11 +326,11 @@ class BalancedKDTree:
         if diff <= 0:
             self._k_nearest_rec(node.left, target, k, heap, depth + 1)
             # Check other side if needed
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.right, target, k, heap, depth + 1)
         else:
             self._k_nearest_rec(node.right, target, k, heap, depth + 1)
-            if diff * diff < -heap[0][0]:
+            if len(heap) < k or diff * diff < -heap[0][0]:
                 self._k_nearest_rec(node.left, target, k, heap, depth + 1)
 
     def k_nearest_neighbors(self, point, k=1):
-- 
2.43.0


From 7c34ca31074760744c27707f696fa6e080a2bb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:57 +0000
Subject: [PATCH 071/129] fix: building a k-d tree reorders the caller's list
 of points

---
 mmcore/ds/bkdtree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/ds/bkdtree.py b/mmcore/ds/bkdtree.py
index f914461..a29e368 100644
--- a/mmcore/ds/bkdtree.py
+++ b/mmcore/ds/bkdtree.py
@@ -90,7 +90,7 @@ class BalancedKDTree:
             for p in points:
                 if len(p) != dim:
                     raise ValueError("All points must have the same dimension.")
-            self.root = _build_balanced(points, depth=0)
+            self.root = _build_balanced(list(points), depth=0)
 
     def _is_unbalanced(self, node):
         """
-- 
2.43.0


From a7292a30501bfdcf41ec1357fd07ed76d6b12c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 072/129] fix: divide_interval goes beyond the end of the
 interval, so roots and closest points outside the domain are reported

---
 mmcore/numeric/routines/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/routines/__init__.py b/mmcore/numeric/routines/__init__.py
index 64a6009..2b553c2 100644
--- a/mmcore/numeric/routines/__init__.py
+++ b/mmcore/numeric/routines/__init__.py
@@ -169,7 +169,7 @@ def cubic_spline(control_points: np.ndarray[(4, 2), np.dtype[float]]
 
 def divide_interval(start, end, step=1.):
     a = np.arange(start, end, step)
-    return np.c_[a, a + step]
+    return np.c_[a, np.minimum(a + step, end)]
 T=TypeVar("T")
 
 def column_concat(a:NDArray[T],b:NDArray[T]|T)->NDArray[T]:
-- 
2.43.0


From b28a0fcdedea2a0c891f660717acb0838f94bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 073/129] fix: csx raises an error when a NURBS curve and a
 NURBS surface do not intersect

---
 mmcore/numeric/intersection/csx/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index c31ce4d..f15ced5 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -248,6 +248,8 @@ def curve_implicit_intersection(curve, surface, tol=1e-6):
 def csx(curve, surface, tol=1e-3,ptol=1e-6):
     if isinstance(curve,NURBSCurve ) and isinstance(surface, NURBSSurface):
         ixs=nurbs_csx(curve, surface, tol=tol, ptol=ptol)
+        if not ixs:
+            return np.empty((0, 3))
         ixs.sort(key=lambda x: x[2][0])
         typs, pts,params=zip(*ixs)
 
-- 
2.43.0


From 0856140ab562b64fd26652cd57ed37606a278778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 074/129] fix: merging intersections of two curves can move
 them off the curves

---
 mmcore/numeric/intersection/ccx/ccx.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index 6b1448c..dde2087 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -317,8 +317,12 @@ def curve_ppx(curve1, curve2, tol: float = 0.001, tol_bbox=0.1, bounds1=None, bo
             recursive_intersect(curve1, curve2, curve1_bounds, curve2_bounds, tol)
         )
 
+    def distance(ts):
+        return np.linalg.norm(np.array(curve1(ts[0])) - np.array(curve2(ts[1])))
+
     _,index=np.unique(np.round(result,int(np.abs(np.log10(tol)))), return_inverse=True,axis=0)
-    return sorted((tuple(np.average(val,axis=0)) for val in _categorize_with_defaultdict(result, index.tolist()).values()),key=lambda x:x[0])
+    # The average of a group may be farther apart than tol, one of its members is not
+    return sorted((min(val, key=distance) for val in _categorize_with_defaultdict(result, index.tolist()).values()),key=lambda x:x[0])
 
 
 
-- 
2.43.0


From f5d41b3fb1a9fa333081cb3b296f274e95c9fe73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 075/129] fix: ccx of two implicit curves raises instead of
 returning the intersections

---
 mmcore/numeric/intersection/ccx/ccx.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/numeric/intersection/ccx/ccx.py b/mmcore/numeric/intersection/ccx/ccx.py
index dde2087..83f1cc0 100644
--- a/mmcore/numeric/intersection/ccx/ccx.py
+++ b/mmcore/numeric/intersection/ccx/ccx.py
@@ -111,8 +111,7 @@ def ccx(curve1, curve2, tol: float = 0.01):
     elif hasattr(curve2, "evaluate") and hasattr(curve1, "evaluate"):
         return curve_ppx(curve1, curve2, tol=tol)
     elif hasattr(curve2, "implicit") and hasattr(curve1, "implicit"):
-        raise curve_iix(
-            curve1, curve2)
+        return curve_iix(curve1, curve2)
     else:
         raise ValueError(
             "curves must have parametric or implicit form - evaluate(t) and implicit(xyz) methods. "
-- 
2.43.0


From 4a590dc90854ab49ad95244d24716487f532b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:09 +0000
Subject: [PATCH 076/129] fix: an implicit tree ignores the bounds it was given

---
 mmcore/geom/implicit/tree/tree2d.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index a56a7e0..2354ac0 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -35,7 +35,7 @@ class ImplicitTree2D:
             self.depth = depth
         self.build_tree()
         self.collapse()
-        self.build_node(self._collapsed_tree, self.shape.bounds())
+        self.build_node(self._collapsed_tree, self.bounds)
 
     def build_node(self, tree, quad):
         if isinstance(tree, Empty):
@@ -82,7 +82,7 @@ def implicit_find_features(sdfs, nodes, rtol=None, atol=None):
     if atol:
         kws['atol'] = atol
     if rtol:
-        kws['rtol'] = atol
+        kws['rtol'] = rtol
     last = None
     for node in nodes:
         success, res = _find_feature(sdfs, node, node_norm)
-- 
2.43.0


From 6235788b0f3eab42de1269c67f095c5af18f3ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:06 +0000
Subject: [PATCH 077/129] fix: curve_surface_intersection reports guesses that
 did not converge, points off the surface

---
 mmcore/numeric/intersection/csx/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mmcore/numeric/intersection/csx/__init__.py b/mmcore/numeric/intersection/csx/__init__.py
index f15ced5..a07035e 100644
--- a/mmcore/numeric/intersection/csx/__init__.py
+++ b/mmcore/numeric/intersection/csx/__init__.py
@@ -187,6 +187,8 @@ def find_intersections_grid(curve, surface, t_range, uv_range, steps=50, thresho
     intersections = []
     for guess in initial_guesses:
         refined = newton_raphson(curve, surface, guess,tol=tol)
+        if not scalar_norm(difference(curve, surface, refined)) <= tol:
+            continue
         if not any(
                 np.allclose(refined, intersection, atol=tol)
                 for intersection in intersections
@@ -200,6 +202,8 @@ def find_intersections_bvh(curve, surface, tol=1e-6):
     intersections = []
     for guess in initial_guesses:
         refined = newton_raphson(curve, surface, guess, tol=tol)
+        if not scalar_norm(difference(curve, surface, refined)) <= tol:
+            continue
 
         if not any(
                 np.allclose(refined, intersection, atol=tol)
-- 
2.43.0


From ede2c0185937606dd9ea79405042af306c3f388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:09 +0000
Subject: [PATCH 078/129] fix: intersecting implicit curves outside the
 searched bounds raises instead of finding nothing

---
 mmcore/geom/implicit/tree/tree2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/implicit/tree/tree2d.py b/mmcore/geom/implicit/tree/tree2d.py
index 2354ac0..1ff6749 100644
--- a/mmcore/geom/implicit/tree/tree2d.py
+++ b/mmcore/geom/implicit/tree/tree2d.py
@@ -74,6 +74,8 @@ def _find_feature(sdfs, node, node_norm):
 
 
 def implicit_find_features(sdfs, nodes, rtol=None, atol=None):
+    if len(nodes) == 0:
+        return
     node = nodes[0]
     node_norm = np.linalg.norm([node[1][0] - node[0][0], node[1][1] - node[0][1]])
     kws = dict(
-- 
2.43.0


From 6c89fe5c3e15934a4a0a00174f5f1ac6159c534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:17 +0000
Subject: [PATCH 079/129] fix: BoundingBox.split ignores the parameter's
 meaning and leaves stale corners, evaluate leaves the box

---
 mmcore/geom/bvh/__init__.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index ba4fcb0..79a5e47 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -30,10 +30,9 @@ class BoundingBox:
         self._arr=np.array([self.min_point, self.max_point], dtype=float)
 
     def split(self, axis=0, parameter=0.5):
-        left = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right = BoundingBox(np.copy(self.min_point), np.copy(self.max_point))
-        right.min_point[axis] = left.max_point[axis] = (self.min_point[axis] + self.max_point[axis])*parameter
-        return left, right
+        left_max, right_min = np.copy(self.max_point), np.copy(self.min_point)
+        right_min[axis] = left_max[axis] = self.min_point[axis] + (self.max_point[axis] - self.min_point[axis])*parameter
+        return BoundingBox(self.min_point, left_max), BoundingBox(right_min, self.max_point)
 
     def get_corners(self):
         return get_aabb_corners_numpy(self.min_point, self.max_point)
@@ -58,7 +57,7 @@ class BoundingBox:
         return list(reduce(lambda x,y: x+y, (item.split(axis1, parameter1) for item in self.split4(axis2, axis3, parameter2, parameter3))))
 
     def evaluate(self, uvh):
-        return (self.min_point + self.max_point)*uvh
+        return self.min_point + (self.max_point - self.min_point)*uvh
 
     def centroid(self):
         return (self.min_point + self.max_point)*0.5
-- 
2.43.0


From 6cfb5acc2dcbe9ec996c0f8d113d02ea8255832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 080/129] fix: BoundingBox.expand leaves the old corners,
 center and dims in place

---
 mmcore/geom/bvh/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 79a5e47..80fb7d4 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -116,6 +116,9 @@ class BoundingBox:
         )
         self.min_point[:]=new_min
         self.max_point[:]=new_max
+        self.center = (self.min_point + self.max_point) * 0.5
+        self.dims = self.max_point - self.min_point
+        self._arr[0], self._arr[1] = self.min_point, self.max_point
 
     def contains_point(self, point):
         return bool(np.all(self.min_point<=point)and np.all(point<=self.max_point))
-- 
2.43.0


From 1ba1ef6ea0826a18798633abc556b6488d8de904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 081/129] fix: a Segment cannot be converted to an array,
 bvh_segment_intersection raises on it

---
 mmcore/geom/bvh/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 80fb7d4..7bcfc04 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -277,8 +277,11 @@ class Segment(Object3D):
             return Segment(start, end)
 
 
-    def __arr__(self, dtype=None,copy=None):
-        return self._arr.__array__(dtype,copy=copy)
+    def __array__(self, dtype=None,copy=None):
+        if int(np.__version__[0])<2:
+            return self._arr.__array__(dtype=dtype)
+
+        return self._arr.__array__(dtype=dtype,copy=copy)
 
     def __iter__(self):
         return iter(self._arr.tolist())
-- 
2.43.0


From a264a0afe4178f2465726eb808170b58461b63a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 082/129] fix: bvh_ray_intersection raises TypeError

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 7bcfc04..e3c5e9d 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -849,7 +849,7 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr)
+    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From dd8bf255d7776b040a286df9227d4dd8ff6665b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 083/129] fix: segments and rays miss flat meshes, whose boxes
 clip them to a point

---
 mmcore/geom/bvh/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index e3c5e9d..bdf961f 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -803,9 +803,9 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
                     c[ixs] = current_bvh.object.objects[ixs].c
 
                 point, flag = intersect_triangles_segment_one(a[:current_size], b[:current_size],
-                                                         c[:current_size], current_segment[0], current_segment[1], out_point)
+                                                         c[:current_size], segment[0], segment[1], out_point)
             else:
-                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,current_segment[0],current_segment[1],out_point)
+                flag=intersect_triangle_segment(current_bvh.object.a,current_bvh.object.b,current_bvh.object.c,segment[0],segment[1],out_point)
             if flag!=0:
                 return True,out_point,current_bvh.object
 
@@ -891,7 +891,9 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     """
     maybe = []
     segment_out = np.empty((2,3))
-    segment = segment_aabb_clip(triangles_bvh.bounding_box._arr, ray._arr,segment_out)
+    # the box is padded so that the segment does not shrink to a point in a flat one
+    padding = np.array([[-1.,-1.,-1.],[1.,1.,1.]])
+    segment = segment_aabb_clip(triangles_bvh.bounding_box._arr+padding, ray._arr,segment_out)
     if segment is None:
         return maybe
     segment=segment_out
-- 
2.43.0


From 245eb432656dea5af7bd816369de91bd8d4b31dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 084/129] fix: mesh_bvh_ray_intersection reports scaled
 distances

---
 mmcore/geom/bvh/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index bdf961f..a76033e 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -897,7 +897,7 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     if segment is None:
         return maybe
     segment=segment_out
-    direction=segment[1]-segment[0]
+    direction=np.array(scalar_unit(segment[1]-segment[0]))
 
     for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
 
-- 
2.43.0


From 7098818120687b383ba93e6212a6ed3518d94dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 085/129] fix: bvh_ray_intersection loses flat boxes to
 rounding

---
 mmcore/geom/bvh/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index a76033e..a3beb7d 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -849,7 +849,9 @@ def bvh_ray_intersection(bvh:BVHNode, ray:Ray):
              intersects, or an empty list if no intersections are found.
     :rtype: list
     """
-    segm=segment_aabb_clip(bvh.bounding_box._arr, ray._arr, np.empty((2,3)))
+    # the box is padded so that rounding does not leave the segment beside a flat one
+    padding = np.array([[-1.,-1.,-1.],[1.,1.,1.]])
+    segm=segment_aabb_clip(bvh.bounding_box._arr+padding, ray._arr, np.empty((2,3)))
     if segm is None:
         return []
     else:
-- 
2.43.0


From de62b9086584db0d36743969998d0368675d56d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 086/129] fix: bvh_segment_intersection_recursive loses boxes
 to the rounding of clipped ends

---
 mmcore/geom/bvh/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index a3beb7d..e787f59 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -713,11 +713,11 @@ def bvh_segment_intersection_recursive(bvh:BVHNode,segment:Segment):
     def inner(bvh,segment, ints):
         if not bvh.bounding_box.intersect(segment.bounding_box):
             return
-        segment=segment.clip(bvh.bounding_box)
-        if segment is None :
+        clipped=segment.clip(bvh.bounding_box)
+        if clipped is None :
             return
         if bvh.object is not None:
-            ints.append((bvh,segment))
+            ints.append((bvh,clipped))
             return
         else:
             inner(bvh.left, segment, ints)
-- 
2.43.0


From a53b59ac00f9943e0f17452f9672343e1bffd1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:45 +0000
Subject: [PATCH 087/129] fix: mesh_bvh_ray_intersection raises when a leaf
 holds several triangles

---
 mmcore/geom/bvh/__init__.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index e787f59..15ceea3 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -901,17 +901,18 @@ def mesh_bvh_ray_intersection(triangles_bvh:BVHNode,ray:Ray):
     segment=segment_out
     direction=np.array(scalar_unit(segment[1]-segment[0]))
 
-    for tri,segm in bvh_segment_intersection(triangles_bvh,segment):
+    for obj,segm in bvh_segment_intersection(triangles_bvh,segment):
 
-        out = np.empty((3,))
-        flag=intersect_triangle_segment(tri.pts[0],tri.pts[1],tri.pts[2],segm[0],segm[1],out)
-        if flag==0:
+        for tri in (obj.objects if isinstance(obj,CompoundObject3D) else (obj,)):
+            out = np.empty((3,))
+            flag=intersect_triangle_segment(tri.pts[0],tri.pts[1],tri.pts[2],segm[0],segm[1],out)
+            if flag==0:
 
-            continue
-        #if len(maybe)>0 and scalar_dot(maybe[-1]-point)<1e-8:
-        #    maybe.append(point)
+                continue
+            #if len(maybe)>0 and scalar_dot(maybe[-1]-point)<1e-8:
+            #    maybe.append(point)
 
-        maybe.append((np.array(out),tri,scalar_dot(out-ray.start,direction)))
+            maybe.append((np.array(out),tri,scalar_dot(out-ray.start,direction)))
 
     maybe.sort(key=lambda x:x[-1])
     return maybe
-- 
2.43.0


From bf125879d81c0a8226dfa390a0dac95accec39f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 088/129] fix: bvh_triangle_segment_intersection_one loses
 triangles to the rounding of clipped ends

---
 mmcore/geom/bvh/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/bvh/__init__.py b/mmcore/geom/bvh/__init__.py
index 15ceea3..d27735d 100644
--- a/mmcore/geom/bvh/__init__.py
+++ b/mmcore/geom/bvh/__init__.py
@@ -811,8 +811,8 @@ def bvh_triangle_segment_intersection_one(bvh: BVHNode, segment:NDArray[float]|S
 
         else:
 
-            stack.append((current_bvh.left, current_segment))
-            stack.append((current_bvh.right, current_segment))
+            stack.append((current_bvh.left, segment))
+            stack.append((current_bvh.right, segment))
 
 
     return False,None,None
-- 
2.43.0


From c435d7debb68d7076d7c6b41b7127c8e05b2ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 089/129] fix: lu_solve leaves the solution in pivot order

The unknowns were stored at the positions of the pivot rows and never moved
back, so newton_method2 used a wrong inverse Jacobian whenever a row was
exchanged.
---
 mmcore/numeric/newton/cnewton.pyx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mmcore/numeric/newton/cnewton.pyx b/mmcore/numeric/newton/cnewton.pyx
index 5f53044..06837ce 100644
--- a/mmcore/numeric/newton/cnewton.pyx
+++ b/mmcore/numeric/newton/cnewton.pyx
@@ -323,7 +323,7 @@ cdef inline int lu_solve(double[:, ::1] A,
     """
     cdef:
         int i, j
-        double sum_val
+        double sum_val, tmp
 
     # 1. Forward substitution for L
     for i in range(n):
@@ -341,6 +341,15 @@ cdef inline int lu_solve(double[:, ::1] A,
             return 1  # singular
         b[pivot_indices[i]] = sum_val / A[pivot_indices[i], i]
 
+    # 3. The i-th unknown is stored at pivot_indices[i]; bring it to i
+    for i in range(n):
+        j = pivot_indices[i]
+        while j < i:
+            j = pivot_indices[j]
+        tmp = b[i]
+        b[i] = b[j]
+        b[j] = tmp
+
     return 0
 
 
-- 
2.43.0


From f1e364fb8e9764d2b442452f77c6b1d9dbe50b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 090/129] fix: planes_planes_intersect returns nothing

---
 mmcore/numeric/plane/cplane.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index c19641f..173b1e1 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -332,7 +332,7 @@ cpdef double[:,:,:] planes_planes_intersect(double[:,:,:] planes1, double[:,:,:]
         raise ValueError("planes1 and planes2 length should be equal!")
 
     cplanes_planes_intersect(planes1,planes2,result)
-
+    return result
 
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 676d0c6fb458d6e7a65078ec0860256e4f70f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 091/129] fix: plane intersections divide by a zero pivot

The pivot search bisected an unsorted column, so planes parallel to the
coordinate planes gave NaN.
---
 mmcore/numeric/plane/cplane.pyx | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index 173b1e1..d37577e 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -12,15 +12,11 @@ cnp.import_array()
 @cython.initializedcheck(False)
 cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
@@ -28,15 +24,11 @@ cdef inline int find_max_row(double[5][5] m, int i, int n) noexcept nogil:
 @cython.initializedcheck(False)
 cdef inline int find_max_row_3x3(double[3][3] m, int i, int n) noexcept nogil:
     cdef int l= i
-    cdef int r = n - 1
-    cdef int mid
-
-    while l < r:
-        mid = (l + r) // 2
-        if fabs(m[mid][i]) > fabs(m[mid + 1][i]):
-            r = mid
-        else:
-            l = mid + 1
+    cdef int r
+
+    for r in range(i + 1, n):
+        if fabs(m[r][i]) > fabs(m[l][i]):
+            l = r
     return l
 @cython.boundscheck(False)
 @cython.wraparound(False)
-- 
2.43.0


From 676167ac3d9b4ee41352612bf4972609822b70e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 092/129] fix: plane_plane_intersection of nested batches reads
 the wrong operand

---
 mmcore/numeric/plane/cplane.pyx | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mmcore/numeric/plane/cplane.pyx b/mmcore/numeric/plane/cplane.pyx
index d37577e..ee8ddaf 100644
--- a/mmcore/numeric/plane/cplane.pyx
+++ b/mmcore/numeric/plane/cplane.pyx
@@ -426,14 +426,14 @@ def plane_plane_intersection(a, b, result=None):
         a=a_flt.reshape( a_new_shape)
         a_reshaped = True
         if result is not None:
-            result.reshape((b_new_shape[0], 2, 3))
+            result=result.reshape((a_new_shape[0], 2, 3))
     if len(b.shape) > 3:
         b_flt = b.flatten()
         b_new_shape=int(len(b_flt)//12),4,3
-        b=a_flt.reshape( b_new_shape)
+        b=b_flt.reshape( b_new_shape)
         b_reshaped = True
         if (result is not None) and (not a_reshaped):
-            result.reshape((b_new_shape[0],2,3))
+            result=result.reshape((b_new_shape[0],2,3))
 
     if len(a.shape)==3 and len(b.shape)==3:
         if result is None:
@@ -457,7 +457,7 @@ def plane_plane_intersection(a, b, result=None):
         raise ValueError("The arguments are totally incorrect!")
     if a_reshaped or b_reshaped:
 
-        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(a_initial_shape)-2)]),2,3))
+        return result.reshape( (*(a_initial_shape[:(len(a_initial_shape)-2)]),2,3) if a_reshaped else (*(b_initial_shape[:(len(b_initial_shape)-2)]),2,3))
     else:
         return result
 
-- 
2.43.0


From 23e3777154f4002f70c9a0c508e2449ffeaedc40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 093/129] fix: plane_ray_intersection fails for a plane given
 by origin and normal

---
 mmcore/numeric/plane/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 07ac6ee..481a6ac 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -205,6 +205,8 @@ def plane_ray_intersection(plane, ray):
         pln=np.zeros((2,3))
         pln[0,:]=plane[0,:]
         pln[1,:] = plane[3,:]
+    else:
+        pln=plane
 
     return ray_plane_intersection(pln,ray)
 
-- 
2.43.0


From 6425f7671daed31c8cd4c5322ae43cacdcdf8573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:39 +0000
Subject: [PATCH 094/129] fix: plane_from_eq returns an origin that is not on
 the plane

---
 mmcore/numeric/plane/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/plane/__init__.py b/mmcore/numeric/plane/__init__.py
index 481a6ac..ccf36c4 100644
--- a/mmcore/numeric/plane/__init__.py
+++ b/mmcore/numeric/plane/__init__.py
@@ -105,7 +105,7 @@ def plane_from_eq(plane_eq):
     # Normal vector to the plane
     n = np.array([a, b, c])
     N = scalar_unit(n)
-    origin = N*d
+    origin = -N*d/scalar_norm(n)
     # Generate a vector on the plane
     return origin,N
 
-- 
2.43.0


From 158f8602eac78a5ab8b8b3d90836ca79bf08f145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 095/129] fix: knot_insertion raises TypeError

---
 mmcore/geom/curves/knot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index cefa036..f833183 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -425,6 +425,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
 
     s = find_multiplicity(u, knotvector)
     k = find_span_binsearch(degree, knotvector, len(ctrlpts), u)
+    kv = np.array(knotvector, dtype=float)
 
     # Initialize variables
     cpt_length = len(ctrlpts)
@@ -449,7 +450,7 @@ def knot_insertion(degree, knotvector, ctrlpts, u, num=1, **kwargs)->tuple:
     for j in range(1, num + 1):
         L = k - degree + j
         for i in range(0, degree - j - s + 1):
-            alpha = knot_insertion_alpha_py(u, tuple(knotvector), k, i, L)
+            alpha = knot_insertion_alpha_py(u, kv, k, i, L)
             if isinstance(temp[i][0], float):
                 temp[i][:] = [alpha * elem2 + (1.0 - alpha) * elem1 for elem1, elem2 in zip(temp[i], temp[i + 1])]
             else:
-- 
2.43.0


From ec7a7cd4bc4bfc3211ed17ae399f1c52ac03f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 096/129] fix: insert_knot and nurbs_split treat the weights of
 a rational curve as coordinates or drop them

---
 mmcore/geom/curves/knot.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index f833183..a207490 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -706,7 +706,7 @@ def nurbs_split(self, t: float) -> tuple:
         curve2_kv.insert(0, t)
 
     # Control points (use Pw if rational)
-    cpts = temp_obj.control_points.tolist()
+    cpts = temp_obj.control_pointsw.tolist()
     curve1_ctrlpts = cpts[0: ks + r]
     curve2_ctrlpts = cpts[ks + r - 1:]
 
@@ -725,11 +725,25 @@ def nurbs_split(self, t: float) -> tuple:
     return curve1, curve2
 
 
+def _homogeneous(points):
+    # (x, y, z, w) as (w*x, w*y, w*z, w)
+    res = np.array(points, dtype=float)
+    res[:, :3] *= res[:, 3:]
+    return res
+
+
+def _cartesian(points):
+    # (w*x, w*y, w*z, w) as (x, y, z, w)
+    res = np.array(points, dtype=float)
+    res[:, :3] /= res[:, 3:]
+    return res
+
+
 def insert_knot(self, t, num=1):
     cpts, knots = knot_insertion(
-        self.degree, self.knots.tolist(), self._control_points, t, num=num
+        self.degree, self.knots.tolist(), _homogeneous(self.control_pointsw), t, num=num
     )
-    self.set(control_points=np.array(cpts), knots=np.array(knots))
+    self.set(control_points=_cartesian(np.array(cpts)), knots=np.array(knots))
     return True
 
 
-- 
2.43.0


From 81a6668e29e8e660242badb2da0718712cf3e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 097/129] fix: degree elevation changes the shape of rational
 curves

---
 mmcore/geom/curves/knot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index a207490..1027541 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -879,7 +879,7 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
     # Loop through to apply degree elevation
     for crv in crv_list:
 
-            new_cpts,new_deg = degree_elevation_bez( crv.control_pointsw,crv.degree, num=num)
+            new_cpts,new_deg = degree_elevation_bez(_homogeneous(crv.control_pointsw),crv.degree, num=num)
             new_kv=np.zeros((crv.knots.shape[0]+num*2,))
 
             new_kv[:num]=crv.knots[0]
@@ -887,7 +887,7 @@ def degree_elevate_curve(curve:NURBSCurve, num:int=1):
 
             new_kv[num:][:-num]=crv.knots
 
-            crv_new=NURBSCurve(new_cpts,new_deg,knots=new_kv)
+            crv_new=NURBSCurve(_cartesian(new_cpts),new_deg,knots=new_kv)
 
             crv_list_new.append(crv_new)
 
-- 
2.43.0


From fbc1b00bf716ccfcb0eeeb2ea26191a553cc66a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 098/129] fix: join_two_curves has too many knots and drops the
 weights

---
 mmcore/geom/curves/knot.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 1027541..c2db2f2 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1162,8 +1162,10 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
     degree = curve1.degree  # Now both curves have same degree
 
     # Get control points and weights
-    cpts1 = curve1.control_points
-    cpts2 = curve2.control_points
+    cpts1 = np.array(curve1.control_pointsw)
+    cpts2 = np.array(curve2.control_pointsw)
+    # Weights are defined up to a factor, the shared point has one weight
+    cpts2[:, 3] *= cpts1[-1, 3] / cpts2[0, 3]
 
     # Create new knot vector by joining and scaling
     knots1 = curve1.knots
@@ -1173,8 +1175,7 @@ def join_two_curves(curve1:NURBSCurve, curve2:NURBSCurve,tol:float=1e-5):
 
 
     # Combine knot vectors
-    print(knots1,knots1.max()+knots2-knots2.min())
-    new_knots = np.concatenate([knots1,knots1.max()+knots2-knots2.min()])
+    new_knots = np.concatenate([knots1[:-1], knots1.max()+knots2[degree + 1:]-knots2.min()])
 
     # Combine control points, merging the connecting points
     new_cpts = np.vstack([
-- 
2.43.0


From cb71a01b3f378fe5223039cec8db7bb188263e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:43 +0000
Subject: [PATCH 099/129] fix: ruled surfaces between rational curves do not
 pass through them

---
 mmcore/construction/ruled.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 2219680..19f15d3 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -90,6 +90,8 @@ def ruled(curve1:NURBSCurve, curve2:NURBSCurve):
     for i in range(n):
         control_points[i, 0] = np.array(c1._control_points)[i]
         control_points[i, 1] = np.array(c2._control_points)[i]
+    # Surfaces keep their control points multiplied by the weights
+    control_points[..., :3] *= control_points[..., 3:]
 
     # Create surface knot vectors
     u_knots = c1.knots  # Same for both curves now
-- 
2.43.0


From 874aca733bceb803ef68e68b0e517abb5ebe19b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 100/129] fix: knot_refinement1 raises on a single knot and
 prints empty lines

---
 mmcore/geom/curves/knot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index c2db2f2..6fa84ea 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -594,7 +594,7 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
             knot_tmp = knot_list[i] + ((knot_list[i + 1] - knot_list[i]) / 2.0)
             rknots.append(knot_list[i])
             rknots.append(knot_tmp)
-        rknots.append(knot_list[i + 1])
+        rknots.append(knot_list[-1])
         knot_list = rknots
 
     # Find how many knot insertions are necessary
@@ -651,7 +651,6 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
             if abs(alpha) < tol:
                 new_ctrlpts[idx - 1] = deepcopy(new_ctrlpts[idx])
             else:
-                print()
                 alpha = alpha / (new_kv[k + l] - knotvector[i - degree + l])
                 if isinstance(ctrlpts[0][0], float):
                     new_ctrlpts[idx - 1] = [alpha * p1 + (1.0 - alpha) * p2 for p1, p2 in
-- 
2.43.0


From c0a4b8ade5828b79a5dd07d6ac06765e1dd5db51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:01 +0000
Subject: [PATCH 101/129] fix: knot_refinement2 computes wrong control points
 and knots

---
 mmcore/geom/curves/knot.py | 70 ++++++++++++++------------------------
 1 file changed, 25 insertions(+), 45 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 6fa84ea..3280d97 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -1027,69 +1027,49 @@ def knot_refinement2(n, p, U, Pw, X):
     Pw = np.array(Pw, dtype=float)
     X = np.array(X, dtype=float)
 
+    if len(X) == 0:
+        return Pw, U
+
     # Get number of new knots
     r = len(X) - 1
     m = n + p + 1
 
+    # Spans of the first and the last new knot
+    a = find_knot_span(n, p, X[0], U)
+    b = find_knot_span(n, p, X[r], U) + 1
+
     # Initialize new arrays
-    nq = n + r + 1
-    Qw = np.zeros((nq + 1, Pw.shape[1]))
+    Qw = np.zeros((n + r + 2, Pw.shape[1]))
     Ubar = np.zeros(len(U) + len(X))
 
     # Save unaltered control points and knots
-    for i in range(0, p + 1):
-        Qw[i] = Pw[i]
-    for i in range(n - p, n + 1):
-        Qw[i + r + 1] = Pw[i]
-    for i in range(0, p + 1):
-        Ubar[i] = U[0]
-    for i in range(len(U) - p - 1, len(U)):
-        Ubar[i + r + 1] = U[-1]
-
-    # Initialize variables for refinement
-    i = p
-    j = r
-    k = p + 1
-
-    # Initialize local arrays
-    Rw = np.zeros((p + 1, Pw.shape[1]))
+    Qw[:a - p + 1] = Pw[:a - p + 1]
+    Qw[b + r:] = Pw[b - 1:n + 1]
+    Ubar[:a + 1] = U[:a + 1]
+    Ubar[b + p + r + 1:] = U[b + p:m + 1]
 
     # Main refinement loop
-    while j >= 0:  # Insert knots
-        while X[j] <= U[i] and i > 0:
-            Qw[k] = Pw[i - 1]
+    i = b + p - 1
+    k = b + p + r
+    for j in range(r, -1, -1):  # Insert knots
+        while X[j] <= U[i] and i > a:
+            Qw[k - p - 1] = Pw[i - p - 1]
             Ubar[k] = U[i]
             k -= 1
             i -= 1
 
-        # Save current control point
-        for l in range(p, -1, -1):
-            Rw[l] = Pw[i - p + l]
-
-        # Insert knot
+        Qw[k - p - 1] = Qw[k - p]
         for l in range(1, p + 1):
-            if i - p + l <= 0:
-                continue
-
-            # Compute alpha
-            alpha = (X[j] - U[i - p + l]) / (U[i + l] - U[i - p + l])
-
-            # Update control points
-            Rw[l] = alpha * Rw[l] + (1.0 - alpha) * Rw[l - 1]
+            ind = k - p + l
+            alpha = Ubar[k + l] - X[j]
+            if alpha == 0:
+                Qw[ind - 1] = Qw[ind]
+            else:
+                alpha = alpha / (Ubar[k + l] - U[i - p + l])
+                Qw[ind - 1] = alpha * Qw[ind - 1] + (1.0 - alpha) * Qw[ind]
 
-        # Load refined control points into final array
-        Qw[k] = Rw[p]
         Ubar[k] = X[j]
-
-        k -= 1
-        j -= 1
-
-    # Set remaining control points and knots
-    while i > 0:
-        Qw[k] = Pw[i - 1]
-        Ubar[k] = U[i]
         k -= 1
-        i -= 1
 
     return Qw, Ubar
 
-- 
2.43.0


From cd1a41bac485acaf1ad14170da7b35384bfb8b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:35 +0000
Subject: [PATCH 102/129] fix: knot_refinement1 is wrong for knots in the last
 span

---
 mmcore/geom/curves/knot.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/curves/knot.py b/mmcore/geom/curves/knot.py
index 3280d97..c8d6161 100644
--- a/mmcore/geom/curves/knot.py
+++ b/mmcore/geom/curves/knot.py
@@ -608,8 +608,8 @@ def knot_refinement1(degree, knotvector, ctrlpts, **kwargs):
     r = len(X) - 1
     n = len(ctrlpts) - 1
     m = n + degree + 1
-    a = find_span_linear(degree, knotvector, n, X[0])
-    b = find_span_linear(degree, knotvector, n, X[r]) + 1
+    a = find_span_linear(degree, knotvector, n + 1, X[0])
+    b = find_span_linear(degree, knotvector, n + 1, X[r]) + 1
 
     # Initialize new control points array
     if isinstance(ctrlpts[0][0], float):
-- 
2.43.0


From 701d4c6adee0c72a5efb8b70b84035f12fa37bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:38 +0000
Subject: [PATCH 103/129] fix: ruled surfaces are NaN when breaks of the curves
 differ by rounding

---
 mmcore/construction/ruled.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mmcore/construction/ruled.py b/mmcore/construction/ruled.py
index 19f15d3..719c64d 100644
--- a/mmcore/construction/ruled.py
+++ b/mmcore/construction/ruled.py
@@ -14,12 +14,21 @@ def merge_knot_vectors(knots1, knots2):
     # For each knot, take maximum multiplicity from either vector
     result = []
     for knot in all_knots:
+        if result and np.isclose(result[-1], knot):
+            continue  # the same knot up to rounding
         mult1 = np.sum(np.isclose(knots1, knot))
         mult2 = np.sum(np.isclose(knots2, knot))
         result.extend([knot] * max(mult1, mult2))
 
     return np.array(result)
 
+def _snap_knots(curve, knots):
+    # Knots that differ from the given ones by rounding only are replaced by them
+    new_knots = np.array(curve.knots)
+    for knot in knots:
+        new_knots = np.where(np.isclose(new_knots, knot), knot, new_knots)
+    return NURBSCurve(np.array(curve.control_pointsw), curve.degree, new_knots)
+
 def make_curves_compatible(curve1, curve2):
     """
     Make two NURBS curves compatible for ruled surface construction
@@ -50,6 +59,8 @@ def make_curves_compatible(curve1, curve2):
     # 3. Knot refinement to match knot vectors
     unified_knots = np.array(merge_knot_vectors(curve1.knots, curve2.knots))
 
+    curve1 = _snap_knots(curve1, unified_knots)
+    curve2 = _snap_knots(curve2, unified_knots)
     curve1 = refine_curve(curve1, unified_knots)
     curve2 = refine_curve(curve2, unified_knots)
 
-- 
2.43.0


From b2062867a7480aaba37915f929b8257c81985779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 104/129] fix: fundamental_forms cannot be imported with
 current scipy

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index a7b4e15..bab9621 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -168,7 +168,7 @@ def classify_point(K,H):
     else:
         raise ValueError('Classification fail: K={K},H={H}')
 
-from scipy.integrate import odeint, ode, solve_ivp, simps, simpson
+from scipy.integrate import odeint
 
 
 def line_of_curvature(surface, u0, v0, principal_index, t_range):
-- 
2.43.0


From 1a9002663e66b444395979ceeb7e79d401c37290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 105/129] fix: principal curvatures are NaN at umbilical points

---
 mmcore/geom/surfaces/fundamental_forms.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index bab9621..a876fe8 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -58,7 +58,8 @@ def principal_curvatures(E, F, G, L, M, N):
     c = L * N - M ** 2
 
     # Solve the quadratic equation
-    discriminant = b ** 2 - 4 * a * c
+    # never negative, but rounding can make it so where both curvatures are equal
+    discriminant = np.maximum(b ** 2 - 4 * a * c, 0.)
     k1 = (-b + np.sqrt(discriminant)) / (2 * a)
     k2 = (-b - np.sqrt(discriminant)) / (2 * a)
 
-- 
2.43.0


From f0b4d5a0c8405d751af35145715f7d6d51217fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 106/129] fix: principal directions are NaN along orthogonal
 curvature lines and at umbilical points

---
 mmcore/geom/surfaces/fundamental_forms.py | 25 +++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index a876fe8..86b2fe2 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -88,6 +88,16 @@ def normal_curvature(E, F, G, L, M, N, du, dv):
     return numerator / denominator
 
 
+def _principal_direction(E, F, G, L, M, N, k):
+    # (L - k E) du + (M - k F) dv = 0 and (M - k F) du + (N - k G) dv = 0, either can vanish
+    a = L - k * E
+    b = M - k * F
+    c = N - k * G
+    if abs(a) >= abs(c):
+        return np.array([-b, a])
+    return np.array([-c, b])
+
+
 def principal_directions(E, F, G, L, M, N, k1, k2):
     """
 
@@ -103,14 +113,13 @@ def principal_directions(E, F, G, L, M, N, k1, k2):
     :param k2:
     :return:
     """
-    # Calculate principal directions
-    a1 = L - k1 * E
-    b1 = M - k1 * F
-    a2 = L - k2 * E
-    b2 = M - k2 * F
-
-    dir1 = np.array([-b1, a1])
-    dir2 = np.array([-b2, a2])
+    if abs(k1 - k2) <= 1e-7 * max(abs(k1), abs(k2)):
+        # Every direction is principal, take an orthogonal pair
+        dir1 = np.array([1., 0.])
+        dir2 = np.array([-F, E])
+    else:
+        dir1 = _principal_direction(E, F, G, L, M, N, k1)
+        dir2 = _principal_direction(E, F, G, L, M, N, k2)
 
     # Normalize directions
     dir1 = dir1 / np.linalg.norm(dir1)
-- 
2.43.0


From ad07889b6fa2e1277cd2b4a81771053fb0d90a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 107/129] fix: classify_point_dupin takes a parabolic point
 with k1 = 0 for a flat one

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 86b2fe2..53f6c6c 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -262,7 +262,7 @@ def classify_point_dupin(k1,k2):
         if k1 != 0:
             return PointOnSurfaceType.PARABOLIC
         elif k2 != 0:
-            return PointOnSurfaceType.FLAT
+            return PointOnSurfaceType.PARABOLIC
         else:
             return PointOnSurfaceType.FLAT
 
-- 
2.43.0


From da19c677fa8b271d7cf476aa9eb97c84027ab263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 108/129] fix: surface_distance adds every step to every other

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 53f6c6c..3bfeba2 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -210,7 +210,7 @@ def surface_distance( surface, u1, v1, u2, v2, num_steps=100):
     for i in range(num_steps - 1):
 
         E, F, G = first_fundamental_form(*surface.derivatives(np.array((u[i], v[i]))))
-        dl = infinitesimal_arc_length(E,F,G,du,dv)
+        dl = infinitesimal_arc_length(E,F,G,du[i],dv[i])
         lengths.append(dl)
 
     # Integrate the lengths
-- 
2.43.0


From 2cc2e6fc965e9d1c8c07484eec0f7e40d36ce8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 109/129] fix: predict_point ignores the step size in the
 travelled distance

---
 mmcore/geom/surfaces/fundamental_forms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 3bfeba2..0af9154 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -229,7 +229,7 @@ def predict_point(surface, u0, v0, distance, direction, step_size=0.01):
     traveled_distance = 0
     while traveled_distance < distance:
         E, F, G = first_fundamental_form(*surface.derivatives(np.array((u, v))))
-        step_length = np.sqrt(E * du ** 2 + 2 * F * du * dv + G * dv ** 2)
+        step_length = step_size * np.sqrt(E * du ** 2 + 2 * F * du * dv + G * dv ** 2)
 
         if traveled_distance + step_length > distance:
             # Adjust the last step
-- 
2.43.0


From d97862f8a5814b0f867b65904a2c0b361df33d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 110/129] fix: the geodesic module cannot be imported

---
 mmcore/geom/surfaces/geodesic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mmcore/geom/surfaces/geodesic.py b/mmcore/geom/surfaces/geodesic.py
index be7b833..61ef137 100644
--- a/mmcore/geom/surfaces/geodesic.py
+++ b/mmcore/geom/surfaces/geodesic.py
@@ -1,5 +1,7 @@
 import numpy as np
 from scipy.integrate import solve_ivp
+from mmcore.geom.nurbs import NURBSSurface
+
 def compute_metric(surface, uv):
     r_u = np.array(surface.derivative_u(np.array(uv)))
     r_v = np.array(surface.derivative_v(np.array(uv)))
-- 
2.43.0


From 92fe2941f26c6c4c0085ff492ca884a74e7bf747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 111/129] fix: Christoffel symbols of a surface are wrong

---
 mmcore/geom/surfaces/geodesic.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mmcore/geom/surfaces/geodesic.py b/mmcore/geom/surfaces/geodesic.py
index 61ef137..96c5ced 100644
--- a/mmcore/geom/surfaces/geodesic.py
+++ b/mmcore/geom/surfaces/geodesic.py
@@ -47,14 +47,14 @@ def compute_christoffel_symbols(surface, uv):
 
     # Christoffel symbols:
     # For u equation:
-    Gamma_111 = 0.5 * g_inv[0, 0] * (E_u) + 0.5 * g_inv[0, 1] * (E_v)
-    Gamma_112 = 0.5 * g_inv[0, 0] * (F_u) + 0.5 * g_inv[0, 1] * (F_v)
-    Gamma_122 = 0.5 * g_inv[0, 0] * (G_u) + 0.5 * g_inv[0, 1] * (G_v)
+    Gamma_111 = 0.5 * g_inv[0, 0] * E_u + g_inv[0, 1] * (F_u - 0.5 * E_v)
+    Gamma_112 = 0.5 * g_inv[0, 0] * E_v + 0.5 * g_inv[0, 1] * G_u
+    Gamma_122 = g_inv[0, 0] * (F_v - 0.5 * G_u) + 0.5 * g_inv[0, 1] * G_v
 
     # For v equation:
-    Gamma_211 = 0.5 * g_inv[1, 0] * (E_u) + 0.5 * g_inv[1, 1] * (E_v)
-    Gamma_212 = 0.5 * g_inv[1, 0] * (F_u) + 0.5 * g_inv[1, 1] * (F_v)
-    Gamma_222 = 0.5 * g_inv[1, 0] * (G_u) + 0.5 * g_inv[1, 1] * (G_v)
+    Gamma_211 = 0.5 * g_inv[1, 0] * E_u + g_inv[1, 1] * (F_u - 0.5 * E_v)
+    Gamma_212 = 0.5 * g_inv[1, 0] * E_v + 0.5 * g_inv[1, 1] * G_u
+    Gamma_222 = g_inv[1, 0] * (F_v - 0.5 * G_u) + 0.5 * g_inv[1, 1] * G_v
 
     return Gamma_111, Gamma_112, Gamma_122, Gamma_211, Gamma_212, Gamma_222
 
-- 
2.43.0


From 41b3f77a6e624c634ee70d37c74d91b093ff3ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 112/129] fix: points of a surface are classified with the
 normal in place of a second derivative

---
 mmcore/geom/surfaces/fundamental_forms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/surfaces/fundamental_forms.py b/mmcore/geom/surfaces/fundamental_forms.py
index 0af9154..4fa64b5 100644
--- a/mmcore/geom/surfaces/fundamental_forms.py
+++ b/mmcore/geom/surfaces/fundamental_forms.py
@@ -341,7 +341,7 @@ def dupin_indicatrix_on_surface(surface,u,v):
     n = scalar_cross(du, dv)
     scalar_normalize(n)
 
-    L, M, N = second_fundamental_form(np.array(n), duu, duv, dvv)
+    L, M, N = second_fundamental_form(duu, duv, dvv, np.array(n))
     k1, k2 = principal_curvatures(E, F, G, L, M, N)
     return dupin_indicatrix(k1,k2)
 
@@ -366,7 +366,7 @@ def classify_point_on_surface(surface,u,v, use_dupin=False, return_indicatrix=Fa
     n=scalar_cross(du,dv)
     scalar_normalize(n)
 
-    L,M,N=second_fundamental_form(np.array(n), duu, duv, dvv)
+    L,M,N=second_fundamental_form(duu, duv, dvv, np.array(n))
 
     if use_dupin:
         k1, k2 = principal_curvatures(E, F, G, L, M, N)
-- 
2.43.0


From cbab1f6b46acb3683549250b939b50d5918c2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 113/129] fix: bounds of the intersection of 2D implicits raise
 TypeError

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 7010d17..ddcbd81 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -396,7 +396,7 @@ class Intersection2D(Implicit2D):
     def solve_bounds(self):
         (axmin, aymin), (axmax, aymax) = self.a.bounds()
         (bxmin, bymin), (bxmax, bymax) = self.b.bounds()
-        self._bounds(max(axmin, bxmin), max(aymin, bymin)), (
+        self._bounds = (max(axmin, bxmin), max(aymin, bymin)), (
             min(axmax, bxmax),
             min(aymax, bymax),
         )
-- 
2.43.0


From 9049943e39e3209f6a1600f608a5a56fe3fc3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 114/129] fix: difference of implicits a - b is b - a with the
 bounds of a

---
 mmcore/geom/implicit/implicit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index ddcbd81..945a661 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -438,7 +438,7 @@ class Sub2D(Implicit2D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
@@ -451,7 +451,7 @@ class Sub3D(Implicit3D):
         self.b = b
 
     def implicit(self, v):
-        return np.array(op_subtraction(self.a.implicit(v), self.b.implicit(v)))
+        return np.array(op_subtraction(self.b.implicit(v), self.a.implicit(v)))
 
     def bounds(self):
         return self.a.bounds()
-- 
2.43.0


From b5e342f4c86605d4f0f9632836ac521da0e99901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 115/129] fix: implicits cannot be called with an array of
 points

---
 mmcore/geom/implicit/implicit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 945a661..270a85d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -101,7 +101,7 @@ class Implicit:
         self.dxdy = fdm(self.implicit)
         self._tree = None
         #self.implicit = NpCache(self.implicit)
-        self._vimplicit = np.vectorize(self.implicit, signature="()->(i)")
+        self._vimplicit = np.vectorize(self.implicit, signature="(i)->()")
 
     def invalidate_cache(self):
         self.implicit.clear()
-- 
2.43.0


From 77df7e6a74b1e13fa0aefdcaf8e9def56bfc091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 116/129] fix: the tree of a 2D implicit is never built

---
 mmcore/geom/implicit/implicit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mmcore/geom/implicit/implicit.py b/mmcore/geom/implicit/implicit.py
index 270a85d..316558d 100644
--- a/mmcore/geom/implicit/implicit.py
+++ b/mmcore/geom/implicit/implicit.py
@@ -262,6 +262,7 @@ class Implicit2D(Implicit):
 
     def build_tree(self, depth=3):
         self._tree = ImplicitTree2D(self.implicit, depth, bounds=self.bounds())
+        self._tree.build(depth=depth)
 
 
 from mmcore.numeric.fdm import DEFAULT_H
-- 
2.43.0


From 34b66a62a731fab8760e947ec6b20b969280009c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 117/129] fix: tangent lines to a circle miss the circle's
 tangent points

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 51df3cd..012a918 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -144,7 +144,7 @@ def tangents_lines(circle: Circle2D, pt: np.ndarray):
     direct = pt[:2] - circle.origin[:2]
     b = np.hypot(*direct)  # hypot() also works here
     th = np.arccos(a / b)  # angle theta
-    d = np.arctan2(direct[0], direct[1])  # direction angle of point P from C
+    d = np.arctan2(direct[1], direct[0])  # direction angle of point P from C
     d1 = d + th  # direction angle of point T1 from C
     d2 = d - th  # direction angle of point T2 from C
 
-- 
2.43.0


From a4ff87fb834c3de34416c9e94be53560f05aba6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:16 +0000
Subject: [PATCH 118/129] fix: point_on_curve of a circle returns the parameter
 of the mirrored point below the centre

---
 mmcore/geom/circle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/circle.py b/mmcore/geom/circle.py
index 012a918..491f07f 100644
--- a/mmcore/geom/circle.py
+++ b/mmcore/geom/circle.py
@@ -78,7 +78,7 @@ class Circle2D(Curve, Implicit2D):
         N = self._implicit_normal(v)
         nn = np.linalg.norm(N)
         nu = N / nn
-        return v - (nu * (nn - self.r)), np.arccos(nu[0])
+        return v - (nu * (nn - self.r)), np.arctan2(nu[1], nu[0]) % PI2
 
 
 
-- 
2.43.0


From b0e03f56def0dbb066a8a507b57eb895495bd141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 119/129] fix: cross_product_monomial prints its index table

---
 mmcore/numeric/monomial.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 6c89eec..40ab1d0 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -193,7 +193,6 @@ def cross_product_monomial(a_coeffs, b_coeffs):
     n, m = n1 + n2 - 1, m1 + m2 - 1
 
     result = np.zeros((n, m, 3))
-    print(list(product(range(n1), range(m1), range(n2), range(m2))))
 
     for i1, j1, i2, j2 in product(range(n1), range(m1), range(n2), range(m2)):
         i, j = i1 + i2, j1 + j2
-- 
2.43.0


From 3ced681da54bcf66f3265c8acccd9b33015bba56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:50 +0000
Subject: [PATCH 120/129] fix: Monomial2D takes Bezier control points for
 monomial coefficients

---
 mmcore/numeric/monomial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/monomial.py b/mmcore/numeric/monomial.py
index 40ab1d0..b49af21 100644
--- a/mmcore/numeric/monomial.py
+++ b/mmcore/numeric/monomial.py
@@ -294,12 +294,12 @@ class Monomial2D(Surface):
         m,n=self.coeffs.shape[:2]
         m-=1
         n-=1
-        return NURBSSurface(self.coeffs, (m,n))
+        return NURBSSurface(monomial_to_bezier(self.coeffs), (m,n))
     def evaluate_v2(self, u,v):
         return evaluate_monomial2d(self.coeffs, u, v)
     @classmethod
     def from_bezier(cls, surf:NURBSSurface):
-        return cls(np.array(surf.control_points).copy())
+        return cls(bezier_to_monomial(np.array(surf.control_points)))
 
     @classmethod
     def from_nurbs(cls, surf: NURBSSurface):
-- 
2.43.0


From 1cfee12ae3021f6f76551b5cc12033ebcb8a9277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:35 +0000
Subject: [PATCH 121/129] fix: set keeps the caller's control points and knots,
 so later changes to them change the curve

---
 mmcore/geom/nurbs.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index 78f4255..d4f33d3 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -1543,8 +1543,8 @@ cdef class NURBSCurve(ParametricCurve):
 
 
     cpdef set(self, double[:,:] control_points, double[:] knots ):
-        self._control_points=control_points
-        self._knots=knots
+        self._control_points=control_points.copy()
+        self._knots=knots.copy()
         self.knots_update_hook()
         self._evaluate_cached.cache_clear()
 
-- 
2.43.0


From 7188524a1cfd0cb4005f92c71d83bc6a6de177e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:29 +0000
Subject: [PATCH 122/129] fix: knot_refinement with density above 2 inserts an
 interior knot in place of the last one and changes the curve

---
 mmcore/geom/nurbs.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/geom/nurbs.pyx b/mmcore/geom/nurbs.pyx
index d4f33d3..e7cb89c 100644
--- a/mmcore/geom/nurbs.pyx
+++ b/mmcore/geom/nurbs.pyx
@@ -702,7 +702,7 @@ cpdef tuple knot_refinement(int degree, double[:] knotvector, double[:, :] ctrlp
             rknots[2 * i] = knot_list[i]
             rknots[2 * i + 1] = knot_list[i] + (knot_list[i + 1] - knot_list[i]) / 2.0
 
-        rknots[rknots_size-1] = knot_list[new_knot_len-1]
+        rknots[rknots_size-1] = knot_list[usz-1]
         knot_list = rknots
         usz = rknots_size
     cdef double[:] X = np.zeros(knot_list.shape[0] * degree, dtype=np.float64)
-- 
2.43.0


From 3f6d183d767ff80f984fb391e0113d04f7b4789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 123/129] fix: point_inversion_curve returns the parameter
 before the converged one

---
 mmcore/numeric/algorithms/point_inversion.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index dbd006c..f337973 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -56,19 +56,21 @@ def point_inversion_curve(curve: Curve, P: np.ndarray, u0: float, tol1: float, t
 
         ui1 = ui - fi / fpi
 
-        if abs(ui1 - ui) * scalar_norm(C_prime) <= tol1:
+        step = abs(ui1 - ui)
+        ui = ui1
+
+        if step * scalar_norm(C_prime) <= tol1:
             break
-        C_point = curve.evaluate(ui1)
+        C_point = curve.evaluate(ui)
 
         if scalar_norm(C_point - P) <= tol1:
             break
-        C_prime = curve.derivative(ui1)
+        C_prime = curve.derivative(ui)
 
         if abs(scalar_dot(C_prime, C_point - P)) / (
-                scalar_norm(C_prime) * scalar_norm(C_prime - P)) <= tol2:
+                scalar_norm(C_prime) * scalar_norm(C_point - P)) <= tol2:
             break
-        C_double_prime = curve.second_derivative(ui1)
-        ui = ui1
+        C_double_prime = curve.second_derivative(ui)
 
     return ui
 
-- 
2.43.0


From 672b6753d15945cd8ce437ee5cfe317d226c5040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:55 +0000
Subject: [PATCH 124/129] fix: point_inversion_surface stops when only one
 direction is orthogonal

---
 mmcore/numeric/algorithms/point_inversion.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index f337973..0ae41ee 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -102,7 +102,7 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
 
         1. If the change in u and v parameter values is below the tolerance given by tol1 multiplied by the sum of the norms of the surface's u and v derivatives at the current parameter values, the iteration is considered converged.
         2. If the distance between the inverted point and the surface evaluated at the updated parameter values is below tol1, the iteration is considered converged.
-        3. If the absolute value of the dot product between the surface's u derivative and the vector connecting the inverted point and the surface evaluated at the updated parameter values, divided by the product of the norms of the surface's u derivative and the vector, is below tol2, the iteration is considered converged.
+        3. If the absolute value of the dot product between the surface's u derivative and the vector connecting the inverted point and the surface evaluated at the updated parameter values, divided by the product of the norms of the surface's u derivative and the vector, is below tol2, and the same holds for the v derivative, the iteration is considered converged.
 
 
 
@@ -189,10 +189,12 @@ def point_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: floa
         if scalar_norm( new_pt- P) <= tol1:
             break
         new_du=surface.derivative_u(ui1vi1)
+        new_dv=surface.derivative_v(ui1vi1)
 
         pt_diff= new_pt-P
         if abs(scalar_dot(new_du, pt_diff)) / (
-                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2:
+                np.linalg.norm(new_du) *  np.linalg.norm(pt_diff)) <= tol2 and abs(scalar_dot(new_dv, pt_diff)) / (
+                np.linalg.norm(new_dv) *  np.linalg.norm(pt_diff)) <= tol2:
             break
 
         uivi = ui1vi1
-- 
2.43.0


From 52cf32f5cb3771f148a46123acd93fc90a3c07cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 125/129] fix: points_inversion_surface does not return
 converged parameters

---
 mmcore/numeric/algorithms/point_inversion.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/mmcore/numeric/algorithms/point_inversion.py b/mmcore/numeric/algorithms/point_inversion.py
index 0ae41ee..994b920 100644
--- a/mmcore/numeric/algorithms/point_inversion.py
+++ b/mmcore/numeric/algorithms/point_inversion.py
@@ -242,12 +242,11 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
 
         f_val = f(uivi)
         g_val = g(uivi)
-        print(_, f_val, g_val)
         # Calculate the Jacobian matrix
         du = sdu(uivi)
         dv = sdv(uivi)
         du_norm = np.array(norm(du))
-        dv_norm = np.array(norm(du))
+        dv_norm = np.array(norm(dv))
 
         dot_du_du, dot_du_dv, dot_dv_dv, dot_dv_du = np.array(dot(du, du)), np.array(dot(du, dv)), np.array(
             dot(dv, dv)), np.array(dot(dv, du))
@@ -284,12 +283,11 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         # Solve for delta
 
         delta = _vec_solve(J, k)
-        print(_, delta)
 
         # Update u and v
         ui1vi1 = uivi - delta
 
-        mask = np.array(norm(ui1vi1) * (du_norm + dv_norm)) <= tol1
+        mask = np.array(norm(delta)) * (du_norm + dv_norm) <= tol1
 
         pt_vec = surface(ui1vi1) - P
         pt_norm = np.array(norm(pt_vec))
@@ -297,12 +295,13 @@ def points_inversion_surface(surface: Surface, P: np.ndarray, u0: float, v0: flo
         #      )
         mask2 = pt_norm <= tol1
         dui1 = sdu(ui1vi1)
-        mask3 = abs(np.array(dot(dui1, pt_vec))) / np.array(norm(dui1) * pt_norm) <= tol2
+        dvi1 = sdv(ui1vi1)
+        mask3 = ((abs(np.array(dot(dui1, pt_vec))) <= tol2 * np.array(norm(dui1)) * pt_norm) &
+                 (abs(np.array(dot(dvi1, pt_vec))) <= tol2 * np.array(norm(dvi1)) * pt_norm))
         mask = np.bitwise_or(mask, np.bitwise_or(mask2, mask3))
         mask_inv = np.bitwise_not(mask)
-        if np.any(mask):
-            print("M", uivi)
-        result_uv[mask_indices[mask]] = uivi[mask]
+        # the points that have not converged yet keep their last iterate
+        result_uv[mask_indices] = ui1vi1
 
         mask_indices = mask_indices[mask_inv]
         #uivi[mask_inv]=ui1vi1[mask_inv]
-- 
2.43.0


From d901bdc5eea8984a69f24d9c8c91f95aa6eade67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 126/129] fix: intersection_curve_point returns the starting
 point when the gradients are parallel

---
 mmcore/numeric/algorithms/implicit_point.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index a86880d..bb190f5 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -102,14 +102,23 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
     ])
 
     g = np.array([f1, f2])
-    success = solve2x2(J, -g, alpha_beta)
+    regular = solve2x2(J, -g, alpha_beta)
     delta = alpha_beta[0] * grad1(qk) + alpha_beta[1] * grad2(qk)
     qk_next = delta + qk
     d = scalar_norm(qk_next - qk)
     i = 0
 
     success = True
-    while d > tol:
+    while d > tol or not regular:
+        if not regular:
+            # parallel gradients, there is no step; the point is a result only if it is on both surfaces
+            if abs(f1) <= tol and abs(f2) <= tol:
+                qk_next = qk
+                break
+            if not no_err:
+                raise ValueError('Gradients are parallel, No convergence')
+            success = False
+            break
 
         if i > max_iter:
             if not no_err:
@@ -129,7 +138,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
 
         g[:] = f1, f2
 
-        _success = solve2x2(J, -g, alpha_beta)
+        regular = solve2x2(J, -g, alpha_beta)
 
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
         #alpha, beta = newton_step(qk, alpha, beta, f1, f2, g1, g2)
-- 
2.43.0


From a558d27680c793a400ac5eec4a1ec29545adf236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 127/129] fix: intersection_curve_point returns a wrong tuple
 when both return_grads and no_err are set

---
 mmcore/numeric/algorithms/implicit_point.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index bb190f5..29d60d6 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -150,7 +150,7 @@ def intersection_curve_point(surf1, surf2, q0, grad1, grad2, tol=1e-6, max_iter=
         i += 1
 
     if return_grads:
-        return (success, (qk_next, f1, f2, g1, g2)) if no_err else qk_next, f1, f2, g1, g2
+        return (success, (qk_next, f1, f2, g1, g2)) if no_err else (qk_next, f1, f2, g1, g2)
 
     return (success, qk_next) if no_err else qk_next
 
-- 
2.43.0


From 0d1eb1f6976d69f03bb9c53736c7f790ecfa5f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 128/129] fix: surface_plane always fails

---
 mmcore/numeric/algorithms/implicit_point.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/algorithms/implicit_point.py b/mmcore/numeric/algorithms/implicit_point.py
index 29d60d6..6740b98 100644
--- a/mmcore/numeric/algorithms/implicit_point.py
+++ b/mmcore/numeric/algorithms/implicit_point.py
@@ -224,8 +224,9 @@ def surface_point(fun, p0, grad=None, tol=1e-8):
 
 
 def surface_plane(fun, p_start, grad, tol=1e-5):
-    p, nv = surface_point(fun, p_start, grad, tol)
-    nv = _normalize3d(nv)
+    grad = _resolve_grad(fun, grad)
+    p = surface_point(fun, p_start, grad, tol)
+    nv = _normalize3d(grad(p))
 
     if abs(nv[0]) > 0.5 or abs(nv[1]) > 0.5:
         tv1 = np.array([nv[1], -nv[0], 0])
-- 
2.43.0


From c97fc758ea1d8ed53d06a829cfd184e886e31f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 129/129] fix: the default gradient of raster_algorithm_2d
 passes three coordinates, the direct projection uses the function instead of
 the gradient

---
 mmcore/numeric/marching.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mmcore/numeric/marching.py b/mmcore/numeric/marching.py
index e2b1be9..857c85f 100644
--- a/mmcore/numeric/marching.py
+++ b/mmcore/numeric/marching.py
@@ -156,7 +156,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     """Raster algorithm to find points close to the implicit curve f(x, y) = 0."""
     if grad is None:
         def grad(xy):
-            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0], - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
+            return (f((xy[0] + DEFAULT_H, xy[1])) - f((xy[0] - DEFAULT_H, xy[1]))) / (2 * DEFAULT_H), (
                     f((xy[0], xy[1] + DEFAULT_H)) - f((xy[0], xy[1] - DEFAULT_H))) / (2 * DEFAULT_H)
 
     x_vals = np.linspace(x_min, x_max, nx)
@@ -169,7 +169,7 @@ def raster_algorithm_2d(f, x_min, x_max, y_min, y_max, nx, ny, gamma=0.5, grad=N
     if general_implicit:
         curve_pt = lambda pt: curve_point(f, pt)
     else:
-        curve_pt = lambda pt: pt + grad * f_val
+        curve_pt = lambda pt: pt - grad_f * f_val
     for i, x in enumerate(x_vals):
         for j, y in enumerate(y_vals):
             xy[:] = x, y
-- 
2.43.0

