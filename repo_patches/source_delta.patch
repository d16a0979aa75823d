From 6528786347f4731c8f32a85b50658b4ba020d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 01/26] fix: Polyhedron.contains with several equalities or no
 inequalities

np.abs(np.max(C x - d)) accepts a point that violates an equality from below
whenever another equality is satisfied; np.max also raises on zero rows.
---
 pympc/geometry/polyhedron.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index aa5f3e8..0ea7ff8 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -593,12 +593,10 @@ class Polyhedron(object):
         """
 
         # check inequalities
-        in_ineq = np.max(self.A.dot(x) - self.b) <= tol
+        in_ineq = np.all(self.A.dot(x) - self.b <= tol)
 
         # check equalities
-        in_eq = True
-        if self.C.shape[0] > 0:
-            in_eq = np.abs(np.max(self.C.dot(x) - self.d)) <= tol
+        in_eq = np.all(np.abs(self.C.dot(x) - self.d) <= tol)
         contains_x = in_ineq and in_eq
 
         return contains_x
-- 
2.43.0


From e7f01012ee2bdafd105381fe6479fb791436cd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 02/26] fix: respect the order of indices when selecting
 components of x

x[indices] for indices such as [1, 0] was silently sorted, binding each
constraint to the wrong component.
---
 pympc/geometry/polyhedron.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 0ea7ff8..b1eb7dd 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -230,9 +230,8 @@ class Polyhedron(object):
         if indices is None:
             indices = range(n)
 
-        # delete from the identity matrix all the rows that are not in indices
-        complement = [i for i in range(n) if i not in indices]
-        S = np.delete(np.eye(n), complement, 0)
+        # select from the identity matrix the rows in indices (in the given order)
+        S = np.eye(n)[list(indices)]
 
         return S
 
-- 
2.43.0


From beb145f7562f7e2c0e0b1613eb119240c6d0c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 03/26] fix: Polyhedron.normalize must not write in shared
 arrays

The rows were scaled in place: the arrays passed by the caller (and every
polyhedron sharing them, e.g. a shallow copy) were modified, and integer
arrays were truncated.
---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index b1eb7dd..ede9bff 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -385,6 +385,10 @@ class Polyhedron(object):
             Threshold value for the norm of the rows of A and C under which the related inequality (or equality) is not normalized.
         """
 
+        # copy (as floats) to not modify arrays that belong to the caller or to other polyhedra
+        self.A, self.b = self.A.astype(float), self.b.astype(float)
+        self.C, self.d = self.C.astype(float), self.d.astype(float)
+
         # inequalities
         for i in range(self.A.shape[0]):
             r = np.linalg.norm(self.A[i])
-- 
2.43.0


From 3a439723640c85a24e7006e6f9d7c4f4d99d236e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 04/26] fix: scale the offset of the facet, not b, in the
 convex hull method

b /= a_norm modified in place the right-hand side of the projected polyhedron
(and failed for integer b).
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index ede9bff..d0d5dbb 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1109,7 +1109,7 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
             d = - hull.equations[i, -1]
             a_norm = np.linalg.norm(a)
             a /= a_norm
-            b /= a_norm
+            d /= a_norm
 
             # check if the direction a has been explored so far
             is_explored = any((np.allclose(a, a2) for a2 in a_explored))
-- 
2.43.0


From 931625d1db6bcb542bdbf2a4a999655bd0a90115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 05/26] fix: return only the vertices of the projection from
 the convex hull method

hull.points also contains the points visited on the way that are not vertices
of the final hull (argmins of an LP may lie inside a facet).
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index d0d5dbb..40c0f59 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -996,7 +996,7 @@ def convex_hull_method(A, b, resiudal_dimensions):
     # get outputs
     E = hull.equations[:, :-1]
     f = - hull.equations[:, -1:].flatten()
-    vertices = hull.points
+    vertices = [hull.points[i] for i in hull.vertices]
 
     return E, f, vertices
 
-- 
2.43.0


From 4ac735397a01cbd05088035769c5a68a505a930f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 06/26] fix: is_included_in for empty and unbounded polyhedra

The LPs have no minimum if P1 is empty (included in anything) or unbounded in
the direction of a facet of P2 (not included): both raised a TypeError.
---
 pympc/geometry/polyhedron.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 40c0f59..2b1da94 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -630,10 +630,19 @@ class Polyhedron(object):
         A2 = np.vstack((P2.A, P2.C, -P2.C))
         b2 = np.concatenate((P2.b, P2.d, -P2.d))
 
+        # the empty set is included in any set
+        if self.empty:
+            return True
+
         # check inclusion, one facet per time
         included = True
         for i in range(A2.shape[0]):
             sol = linear_program(-A2[i], P1.A, P1.b)
+
+            # P1 is not empty, hence it is unbounded in the direction of the facet
+            if sol['min'] is None:
+                included = False
+                break
             penetration = - sol['min'] - b2[i]
             if penetration > tol:
                 included = False
-- 
2.43.0


From 27d437eff918786aed5aab5425ab7fbc46c3aa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 07/26] fix: Chebyshev radius of unbounded polyhedra with
 equalities

radius and center are documented to be None, a ValueError was raised.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 2b1da94..2cd200e 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -771,7 +771,7 @@ class Polyhedron(object):
             center = center[:-1]
 
         # go back to the original coordinates in case of equalities
-        if self.C.shape[0] > 0:
+        if self.C.shape[0] > 0 and center is not None:
             r = np.linalg.inv(self.C.dot(R)).dot(self.d)
             center = np.hstack((N, R)).dot(np.concatenate((center, r)))
 
-- 
2.43.0


From a402cdb4eae379bc277bc484c528359b1d838ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 08/26] fix: is_well_posed with overlapping unbounded domains

The Chebyshev radius of the intersection is None if it is infinite.
---
 pympc/dynamics/discrete_time_systems.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 7c59708..5811fdd 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -576,7 +576,7 @@ class PieceWiseAffineSystem(object):
                 Dij = Di.intersection(self.domains[j])
 
                 # check the Chebyshev radius of the intersection
-                if Dij.radius > tol:
+                if not Dij.empty and (Dij.radius is None or Dij.radius > tol):
                     return False
 
         return True
-- 
2.43.0


From ffa3d197f54b5e4d046762d1a672ed999e37c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 09/26] fix: do not modify the list of systems passed to
 PieceWiseAffineSystem

---
 pympc/dynamics/discrete_time_systems.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pympc/dynamics/discrete_time_systems.py b/pympc/dynamics/discrete_time_systems.py
index 5811fdd..e64647c 100644
--- a/pympc/dynamics/discrete_time_systems.py
+++ b/pympc/dynamics/discrete_time_systems.py
@@ -473,7 +473,8 @@ class PieceWiseAffineSystem(object):
         if list(nxu)[0] != self.nx + self.nu:
             raise ValueError('the domains and the affine systems must have coherent dimensions.')
 
-        # make instances of LinearSystem instances of AffineSystem
+        # make instances of LinearSystem instances of AffineSystem (without modifying the input list)
+        affine_systems = list(affine_systems)
         for i, S in enumerate(affine_systems):
             if isinstance(S, LinearSystem):
                 c = np.zeros(self.nx)
-- 
2.43.0


From 1bc22296ce5ae86362ac1bb94cd4038f8482ed92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 10/26] fix: same_rows must not modify its arguments and must
 handle repeated rows

The rows were normalized in place (truncated if integer), and a matrix with
two equal rows was not found to have the same rows as itself.
---
 pympc/geometry/utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index ca1dc4a..8b847d9 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -117,16 +117,15 @@ def same_rows(A, B, normalize=True):
 
     # if required, normalize
     if normalize:
-        for i in range(A.shape[0]):
-            A[i] = A[i] / np.linalg.norm(A[i])
-            B[i] = B[i] / np.linalg.norm(B[i])
+        A = np.array([a / np.linalg.norm(a) for a in A])
+        B = np.array([b / np.linalg.norm(b) for b in B])
 
     # check one row per time
     for a in A:
         i = np.where([np.allclose(a, b) for b in B])[0]
-        if len(i) != 1:
+        if len(i) == 0:
             return False
-        B = np.delete(B, i, 0)
+        B = np.delete(B, i[0], 0)
 
     return True
 
-- 
2.43.0


From 9d555ef8fafea6953a515cfd6a094773160be028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:36 +0000
Subject: [PATCH 11/26] fix: linearly_independent_rows missed independent rows

The diagonal of an unpivoted R does not identify a maximal set of independent
rows: after a dependent row, or beyond the number of columns of A, independent
rows were lost (e.g. rows e1, e1, e2 gave only the first one).
---
 pympc/geometry/utils.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index 8b847d9..a50eca5 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -45,11 +45,13 @@ def linearly_independent_rows(A, tol=1.e-6):
     # QR decomposition
     R = np.linalg.qr(A.T)[1]
 
-    # check diagonal elements
-    R_diag = np.abs(np.diag(R))
-    independent_rows = list(np.where(R_diag > tol)[0])
+    # collect the columns of R that are independent from the previously selected ones
+    independent_rows = []
+    for i in range(R.shape[1]):
+        if np.linalg.matrix_rank(R[:, independent_rows + [i]], tol=tol) > len(independent_rows):
+            independent_rows.append(i)
 
-    return sorted(independent_rows)
+    return independent_rows
 
 def plane_through_points(points):
     """
-- 
2.43.0


From b057dbac1a425578ed4642a93d6a0b40dd2e6a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:04 +0000
Subject: [PATCH 12/26] fix: vertices of empty polyhedra with trivial
 inequalities

With a row 0 x <= b, b < 0, the Chebyshev LP is unfeasible and the radius is
None: vertices raised a TypeError instead of returning None.
---
 pympc/geometry/polyhedron.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 2cd200e..138c0ef 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -799,7 +799,7 @@ class Polyhedron(object):
 
         # check full dimensionality
         tol = 1.e-7
-        if self.radius < tol:
+        if self.empty or self.radius < tol:
             return None
 
         # handle equalities
-- 
2.43.0


From f7048b6ef7a34eca430dd5e451e35a5bde940305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:04 +0000
Subject: [PATCH 13/26] fix: vertices with inequalities parallel to the
 equalities

Projected onto the nullspace of the equalities these inequalities become
0 x <= b up to roundoff, and made qhull fail or return wrong vertices.
---
 pympc/geometry/polyhedron.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 138c0ef..60a5ab5 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -821,7 +821,9 @@ class Polyhedron(object):
 
         # call qhull through scipy
         else:
-            halfspaces = np.column_stack((A, -b))
+            # (without trivial inequalities, which come from facets parallel to the equalities)
+            nontrivial = np.linalg.norm(A, axis=1) > tol
+            halfspaces = np.column_stack((A, -b))[nontrivial]
             polyhedron = HalfspaceIntersection(halfspaces, center)
             V = polyhedron.intersections
             self._vertices = [V[i] for i in range(V.shape[0])]
-- 
2.43.0


From 54812f5479a83ff8ca72dbb4a892fb5f189ca8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:47 +0000
Subject: [PATCH 14/26] fix: plot_state_space_trajectory labels the plotted
 components

The labels x(t) were always placed at the first two components of the state.
---
 pympc/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pympc/plot.py b/pympc/plot.py
index 63c69d7..d424c06 100644
--- a/pympc/plot.py
+++ b/pympc/plot.py
@@ -36,7 +36,7 @@ def plot_state_space_trajectory(x, dim=[0,1], text=False, label=None, **kwargs):
     # plot text
     for t in range(len(x)):
         if text:
-            plt.text(x[t][0], x[t][1], r'$x('+str(t)+')$')
+            plt.text(x[t][dim[0]], x[t][dim[1]], r'$x('+str(t)+')$')
 
     # scatter initial condition
     plt.scatter(
-- 
2.43.0


From de5c1c6f54887254d5d544080cd89a0dae729d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:47 +0000
Subject: [PATCH 15/26] fix: gurobi solvers silently dropped the equalities if
 C or d is missing

Raise a ValueError as done by the pnnls solvers.
---
 pympc/optimization/solvers/gurobi.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/optimization/solvers/gurobi.py b/pympc/optimization/solvers/gurobi.py
index 258c808..177b88a 100644
--- a/pympc/optimization/solvers/gurobi.py
+++ b/pympc/optimization/solvers/gurobi.py
@@ -185,6 +185,10 @@ def _build_model(H=None, f=None, A=None, b=None, C=None, d=None):
         Model of the mathematical program.
     """
 
+    # check equalities
+    if (C is None) != (d is None):
+        raise ValueError('missing C or d.')
+
     # initialize model
     model = grb.Model()
     n_x = f.size
-- 
2.43.0


From 40c98e8a359c7c26dd6af58a349be7db65ad9e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:47 +0000
Subject: [PATCH 16/26] fix: the MPC controllers ignored the equality
 constraints of D and X_N

Only A x <= b was condensed: with a terminal set such as x(N) = 0, or domains
with equalities, the returned trajectories violated the constraints.
---
 pympc/control/controllers.py | 50 +++++++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index b7f7be4..c2bd8bf 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -7,6 +7,7 @@ from scipy.linalg import block_diag
 from pympc.dynamics.discrete_time_systems import AffineSystem, PieceWiseAffineSystem
 from pympc.optimization.parametric_programs import MultiParametricQuadraticProgram, MultiParametricMixedIntegerQuadraticProgram
 from pympc.optimization.programs import linear_program
+from pympc.geometry.polyhedron import Polyhedron
 
 class ModelPredictiveController(object):
     """
@@ -278,6 +279,10 @@ class HybridModelPredictiveController(object):
         self.P = P
         self.X_N = X_N
 
+        # constraint sets expressed by inequalities only
+        self._domains = [equalities_as_inequalities(D) for D in S.domains]
+        self._X_N = equalities_as_inequalities(X_N)
+
         # get bigMs
         self._alpha, self._beta = self._get_bigM_dynamics()
         self._gamma = self._get_bigM_domains()
@@ -383,11 +388,11 @@ class HybridModelPredictiveController(object):
         gamma = []
 
         # outer loop over the number of affine systems
-        for i, D_i in enumerate(self.S.domains):
+        for i, D_i in enumerate(self._domains):
             gamma_i = []
 
             # inner loop over the number of affine systems
-            for j, D_j in enumerate(self.S.domains):
+            for j, D_j in enumerate(self._domains):
                 gamma_ij = []
 
                 # solve one LP for each inequality of the ith domain
@@ -463,7 +468,7 @@ class HybridModelPredictiveController(object):
         nx = self.S.nx
         nu = self.S.nu
         s  = self.S.nm
-        n_ineq = sum([D.A.shape[0] for D in self.S.domains])
+        n_ineq = sum([D.A.shape[0] for D in self._domains])
 
         # build blocks
         E = dict()
@@ -472,7 +477,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nx)),                             # Equation 2
             np.vstack([-S.A for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.A for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,:nx] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,:nx] for D in self._domains]),   # Equation 5
             np.zeros((2, nx))                                 # Equation 6
             ))
         E['u'] = np.vstack((
@@ -480,7 +485,7 @@ class HybridModelPredictiveController(object):
             np.zeros((nx*s, nu)),                             # Equation 2
             np.vstack([-S.B for S in self.S.affine_systems]), # Equation 3
             np.vstack([S.B for S in self.S.affine_systems]),  # Equation 4
-            np.vstack([D.A[:,nx:] for D in self.S.domains]),  # Equation 5
+            np.vstack([D.A[:,nx:] for D in self._domains]),   # Equation 5
             np.zeros((2, nu))                                 # Equation 6
             ))
         E['z'] = np.vstack((
@@ -504,7 +509,7 @@ class HybridModelPredictiveController(object):
             np.zeros(nx*s),                                        # Equation 2
             np.concatenate([S.c for S in self.S.affine_systems]),  # Equation 3
             np.concatenate([-S.c for S in self.S.affine_systems]), # Equation 4
-            np.concatenate([D.b for D in self.S.domains]),         # Equation 5
+            np.concatenate([D.b for D in self._domains]),          # Equation 5
             np.array([1.,-1.])                                     # Equation 6
             ))
 
@@ -561,23 +566,23 @@ class HybridModelPredictiveController(object):
 
         # build blocks
         E_bar = dict()
-        E_bar['x'] = block_diag(*[E['x']]*self.N + [self.X_N.A])
+        E_bar['x'] = block_diag(*[E['x']]*self.N + [self._X_N.A])
         E_bar['u'] = block_diag(*[E['u']]*self.N)
         E_bar['u'] = np.vstack((
             E_bar['u'],
-            np.zeros((self.X_N.A.shape[0], E_bar['u'].shape[1]))
+            np.zeros((self._X_N.A.shape[0], E_bar['u'].shape[1]))
         ))
         E_bar['z'] = block_diag(*[E['z']]*self.N)
         E_bar['z'] = np.vstack((
             E_bar['z'],
-            np.zeros((self.X_N.A.shape[0], E_bar['z'].shape[1]))
+            np.zeros((self._X_N.A.shape[0], E_bar['z'].shape[1]))
         ))
         E_bar['d'] = block_diag(*[E['d']]*self.N)
         E_bar['d'] = np.vstack((
             E_bar['d'],
-            np.zeros((self.X_N.A.shape[0], E_bar['d'].shape[1]))
+            np.zeros((self._X_N.A.shape[0], E_bar['d'].shape[1]))
         ))
-        E_bar['0'] = np.concatenate([E['0']]*self.N + [self.X_N.b])
+        E_bar['0'] = np.concatenate([E['0']]*self.N + [self._X_N.b])
 
         return E_bar
 
@@ -679,6 +684,26 @@ class HybridModelPredictiveController(object):
         """
         return condense_optimal_control_problem(self.S, self.Q, self.R, self.P, self.X_N, mode_sequence)
 
+def equalities_as_inequalities(P):
+    """
+    States each equality of the polyhedron as two inequalities.
+
+    Arguments
+    ----------
+    P : instance of Polyhedron
+        Polyhedron {x | A x <= b, C x = d}.
+
+    Returns
+    ----------
+    instance of Polyhedron
+        Same set expressed by inequalities only.
+    """
+
+    return Polyhedron(
+        np.vstack((P.A, P.C, -P.C)),
+        np.concatenate((P.b, P.d, -P.d))
+        )
+
 def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     """
     For a given mode sequences, condenses the optimal control problem for a PWA affine system
@@ -731,7 +756,8 @@ def condense_optimal_control_problem(S, Q, R, P, X_N, mode_sequence):
     g = .5 * c_bar.dot(Q_bar).dot(c_bar)
 
     # stack constraint matrices
-    D_sequence = [S.domains[m]for m in mode_sequence]
+    X_N = equalities_as_inequalities(X_N)
+    D_sequence = [equalities_as_inequalities(S.domains[m]) for m in mode_sequence]
     F_bar = block_diag(*[D.A[:,:S.nx] for D in D_sequence] + [X_N.A])
     G_bar = block_diag(*[D.A[:,S.nx:] for D in D_sequence])
     G_bar = np.vstack((
-- 
2.43.0


From 795bf44af488b356412fac72853c44ab13a0405b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 17/26] fix: facets parallel to the equalities are trivial, not
 tiny

The rows of A N that should be zero are of the order of 1e-17, and were treated
as facets: minimal_facets kept redundant inequalities.
---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 60a5ab5..0afd75c 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -503,6 +503,10 @@ class Polyhedron(object):
         r = np.linalg.inv(self.C.dot(R)).dot(self.d)
         f = self.b - self.A.dot(R.dot(r))
 
+        # facets parallel to the equalities: clean the roundoff (otherwise 0 n <= f_i becomes a facet with arbitrary direction)
+        parallel = np.linalg.norm(E, axis=1) < 1.e-12 * np.linalg.norm(self.A, axis=1)
+        E[parallel] = 0.
+
         return E, f, N, R
 
     @property
-- 
2.43.0


From a8df2f358eaa62b854f383aa6ae2c3621eb33c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:35 +0000
Subject: [PATCH 18/26] fix: projection fails with coplanar points in
 incremental qhull

---
 pympc/geometry/polyhedron.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 0afd75c..385b204 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -1001,12 +1001,8 @@ def convex_hull_method(A, b, resiudal_dimensions):
     vertices = _get_inner_simplex(A, b, vertices)
 
     # expand facets
-    hull = ConvexHull(
-        np.vstack(vertices),
-        incremental=True
-        )
+    hull = ConvexHull(np.vstack(vertices))
     hull = _expand_simplex(A, b, hull)
-    hull.close()
 
     # get outputs
     E = hull.equations[:, :-1]
@@ -1142,7 +1138,8 @@ def _expand_simplex(A, b, hull, tol=1.e-7):
                 expansion = - sol['min'] - d # >= 0
                 if expansion > tol:
                     convergence = False
-                    hull.add_points(sol['argmin'][:n].reshape(1,n))
+                    # (from scratch: adding points incrementally, qhull fails in case of coplanar points)
+                    hull = ConvexHull(np.vstack((hull.points, sol['argmin'][:n])))
                     break
 
     return hull
\ No newline at end of file
-- 
2.43.0


From c483f9d49a4f1a4cb4726e40c79eeeb8d3e62b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:46 +0000
Subject: [PATCH 19/26] fix: solve programs without constraints and nullspaces
 of matrices without rows

---
 pympc/geometry/utils.py             |  4 ++--
 pympc/optimization/solvers/pnnls.py | 27 ++++++++++++++++++++++++++-
 2 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/pympc/geometry/utils.py b/pympc/geometry/utils.py
index a50eca5..5039532 100644
--- a/pympc/geometry/utils.py
+++ b/pympc/geometry/utils.py
@@ -19,8 +19,8 @@ def nullspace_basis(A):
     # get singular values
     V = np.linalg.svd(A)[2].T
 
-    # cut to the dimension of the rank
-    rank = np.linalg.matrix_rank(A)
+    # cut to the dimension of the rank (which numpy cannot compute if A has no rows)
+    rank = np.linalg.matrix_rank(A) if A.shape[0] > 0 else 0
     Z = V[:,rank:]
 
     return Z
diff --git a/pympc/optimization/solvers/pnnls.py b/pympc/optimization/solvers/pnnls.py
index c8b7d44..92a8b1a 100644
--- a/pympc/optimization/solvers/pnnls.py
+++ b/pympc/optimization/solvers/pnnls.py
@@ -1,6 +1,31 @@
 # external imports
 import numpy as np
-from scipy.optimize import nnls
+from scipy.optimize import nnls as scipy_nnls
+
+def nnls(A, b):
+    """
+    Solves the Non-Negative Least Squares problem min_v ||A v - b||_2 s.t. v >= 0.
+    (In case of no variables, i.e. programs without constraints, scipy raises an error.)
+
+    Arguments
+    ----------
+    A : numpy.ndarray
+        Coefficient matrix.
+    b : numpy.ndarray
+        Offset term.
+
+    Returns
+    ----------
+    v : numpy.ndarray
+        Optimal value of v.
+    r : float
+        Norm of the residuals of the least squares problem.
+    """
+
+    if A.shape[1] == 0:
+        return np.zeros(0), np.linalg.norm(b)
+
+    return scipy_nnls(A, b)
 
 def pnnls(A, B, c):
     """
-- 
2.43.0


From 422bbe103116ed45eb52291f8915b111d5708132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:53 +0000
Subject: [PATCH 20/26] fix: refused add operations must leave the polyhedron
 unchanged

---
 pympc/geometry/polyhedron.py | 37 ++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 385b204..71593ee 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -77,14 +77,15 @@ class Polyhedron(object):
         # check inequalities
         self._same_number_rows(A, b)
     
+        # add inequalities (stack everything before any change, in case the sizes are incoherent)
+        S = self._selection_matrix(indices)
+        A = np.vstack((self.A, A.dot(S)))
+        b = np.concatenate((self.b, b))
+        self.A, self.b = A, b
+
         # reset attributes to None
         self._delete_attributes()
 
-        # add inequalities
-        S = self._selection_matrix(indices)
-        self.A = np.vstack((self.A, A.dot(S)))
-        self.b = np.concatenate((self.b, b))
-
     def add_symbolic_inequality(self, x, ineq):
         """
         Adds the inequality ineq(x) <= 0 to the existing polyhedron.
@@ -116,14 +117,15 @@ class Polyhedron(object):
         # check equalities
         self._same_number_rows(C, d)
 
+        # add equalities (stack everything before any change, in case the sizes are incoherent)
+        S = self._selection_matrix(indices)
+        C = np.vstack((self.C, C.dot(S)))
+        d = np.concatenate((self.d, d))
+        self.C, self.d = C, d
+
         # reset attributes to None
         self._delete_attributes()
 
-        # add equalities
-        S = self._selection_matrix(indices)
-        self.C = np.vstack((self.C, C.dot(S)))
-        self.d = np.concatenate((self.d, d))
-
     def add_symbolic_equality(self, x, eq):
         """
         Adds the inequality eq(x) = 0 to the existing polyhedron.
@@ -195,8 +197,19 @@ class Polyhedron(object):
             Set of indices of elements of x to which the inequality applies.
         """
 
-        self.add_lower_bound(x_min, indices)
-        self.add_upper_bound(x_max, indices)
+        # if the bounds are floats make them arrays
+        x_min, x_max = [np.array([x]) if isinstance(x, float) else x for x in (x_min, x_max)]
+
+        # check both the bounds before adding any of them
+        S = self._selection_matrix(indices)
+        self._same_number_rows(S, x_min)
+        self._same_number_rows(S, x_max)
+
+        # add the constraints - S x <= - x_min and S x <= x_max, with S selection matrix
+        self.add_inequality(
+            np.vstack((-S, S)),
+            np.concatenate((-x_min, x_max))
+            )
 
     def _delete_attributes(self):
         """
-- 
2.43.0


From 7177e2bcc58848701fc7a446bbd90b76af3066b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:35:24 +0000
Subject: [PATCH 21/26] fix: explicit solution of parametric programs with
 unbounded critical regions

---
 pympc/optimization/parametric_programs.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 1c39c27..888562f 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -344,6 +344,12 @@ class CriticalRegion(object):
             facet.b[i:i+1]
             )
 
+        # if the facet is unbounded, bound it around one of its points (otherwise the center might not exist)
+        if not facet.bounded:
+            n = facet.A.shape[1]
+            x = quadratic_program(np.eye(n), np.zeros(n), facet.A, facet.b, facet.C, facet.d)['argmin']
+            facet.add_bounds(x - 1., x + 1.)
+
         return facet.center
 
     def u(self, x):
-- 
2.43.0


From e48febf7689a495af600aedce444313ce590f6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 22/26] fix: explicit solution crashed on critical regions with
 always-tight constraints

---
 pympc/optimization/parametric_programs.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 888562f..fa2e88c 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -104,6 +104,11 @@ class MultiParametricQuadraticProgram(object):
             pa0,
             bi - Aui.dot(u0)
             ))
+
+        # inequalities that do not depend on x: clean the roundoff (0 x <= - epsilon would make the critical region empty)
+        trivial = np.linalg.norm(Acr, axis=1) < 1.e-10
+        Acr[trivial] = 0.
+        bcr[trivial & (np.abs(bcr) < 1.e-10)] = 0.
         cr = Polyhedron(Acr, bcr)
         cr.normalize()
 
-- 
2.43.0


From 7cd2625befee732fafa5d5b9101d140490b1137c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:17 +0000
Subject: [PATCH 23/26] fix: plot_optimal_value_function crashed if the
 feasible set is not a box

Outside the feasible set the optimal value function is None, and the
resulting array of objects cannot be handled by the contour plot.
---
 pympc/control/controllers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pympc/control/controllers.py b/pympc/control/controllers.py
index c2bd8bf..d9ec3a6 100644
--- a/pympc/control/controllers.py
+++ b/pympc/control/controllers.py
@@ -240,8 +240,8 @@ class ModelPredictiveController(object):
         y = np.linspace(y_min, y_max, resolution)
         X, Y = np.meshgrid(x, y)
 
-        # evaluate grid
-        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))])
+        # evaluate grid (None, i.e. nan, outside the feasible set)
+        zs = np.array([self.explicit_solution.V(np.array([x,y])) for x,y in zip(np.ravel(X), np.ravel(Y))], dtype=float)
         Z = zs.reshape(X.shape)
 
         # plot
-- 
2.43.0


From 1e19eaf5670f65419b07b305e7ad623dbc032bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:34 +0000
Subject: [PATCH 24/26] fix: facets parallel to the equalities made polyhedra
 infeasible by roundoff

---
 pympc/geometry/polyhedron.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pympc/geometry/polyhedron.py b/pympc/geometry/polyhedron.py
index 71593ee..47d9ca5 100644
--- a/pympc/geometry/polyhedron.py
+++ b/pympc/geometry/polyhedron.py
@@ -520,6 +520,10 @@ class Polyhedron(object):
         parallel = np.linalg.norm(E, axis=1) < 1.e-12 * np.linalg.norm(self.A, axis=1)
         E[parallel] = 0.
 
+        # same for the right-hand side, if the facet contains the equalities (otherwise 0 n <= 0 becomes unfeasible)
+        f_scale = np.abs(self.b) + np.linalg.norm(self.A, axis=1) * np.linalg.norm(r)
+        f[parallel & (np.abs(f) < 1.e-12 * f_scale)] = 0.
+
         return E, f, N, R
 
     @property
-- 
2.43.0


From 109b1eac18c98180622dd7cab3dacfef34c124db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:53:29 +0000
Subject: [PATCH 25/26] fix: explicit solution was empty if the mpQP is
 unfeasible at the origin

---
 pympc/optimization/parametric_programs.py | 34 ++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index fa2e88c..93e2286 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -205,8 +205,12 @@ class MultiParametricQuadraticProgram(object):
 
         """
 
-        # start from the origin and guess its active set
+        # start from the origin (from another feasible point, if the origin is unfeasible) and guess its active set
         x = np.zeros(self.f['x'].size)
+        if self.solve(x)['min'] is None:
+            x = self._get_feasible_point()
+            if x is None:
+                return ExplicitSolution([])
         active_set_guess = []
         x_buffer = [(x, active_set_guess)]
         crs_found = []
@@ -245,6 +249,34 @@ class MultiParametricQuadraticProgram(object):
 
         return ExplicitSolution(crs_found)
 
+    def _get_feasible_point(self):
+        """
+        Returns a point in the interior (whenever possible) of the feasible set of the mpQP.
+
+        Returns
+        ----------
+        numpy.ndarray
+            Feasible point (None if the mpQP is unfeasible for all x).
+        """
+
+        # feasible point with minimum norm in the (x,u) space
+        nx = self.A['x'].shape[1]
+        C = Polyhedron(
+            np.hstack((self.A['x'], self.A['u'])),
+            self.b
+            )
+        n = C.A.shape[1]
+        xu = quadratic_program(np.eye(n), np.zeros(n), C.A, C.b)['argmin']
+        if xu is None:
+            return None
+
+        # move in the interior (the bounds ensure that the center exists)
+        C.add_bounds(xu - 1., xu + 1.)
+        if C.center is not None:
+            xu = C.center
+
+        return xu[:nx]
+
     def get_feasible_set(self):
         """
         Returns the feasible set of the mqQP, i.e. {x | exists u: Au u + Ax x <= b}.
-- 
2.43.0


From c618810370a8a3458ba3aa0dbb218a32c0b5e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:51 +0000
Subject: [PATCH 26/26] fix: explicit solution did not terminate if the step is
 shorter than the tolerance of the QP

---
 pympc/optimization/parametric_programs.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pympc/optimization/parametric_programs.py b/pympc/optimization/parametric_programs.py
index 93e2286..0b9ff04 100644
--- a/pympc/optimization/parametric_programs.py
+++ b/pympc/optimization/parametric_programs.py
@@ -212,7 +212,7 @@ class MultiParametricQuadraticProgram(object):
             if x is None:
                 return ExplicitSolution([])
         active_set_guess = []
-        x_buffer = [(x, active_set_guess)]
+        x_buffer = [(x, active_set_guess, np.zeros(x.size))]
         crs_found = []
 
         # loop until the are no points left
@@ -224,21 +224,27 @@ class MultiParametricQuadraticProgram(object):
                 break
 
             # get critical region for the first point in the buffer
-            cr = self.explicit_solve_given_point(x_buffer[0][0], x_buffer[0][1], verbose)
-            del x_buffer[0]
+            x, active_set_guess, step = x_buffer.pop(0)
+            cr = self.explicit_solve_given_point(x, active_set_guess, verbose)
+
+            # if the step was too small to leave the critical regions already found, take a longer one
+            if cr is not None and any(cr.active_set == cr_found.active_set for cr_found in crs_found):
+                if np.linalg.norm(step) < 1.:
+                    x_buffer.append((x + step, active_set_guess, 2. * step))
 
             # if feasible
-            if cr is not None:
+            elif cr is not None:
 
                 # step outside each minimal facet
                 for i in cr.minimal_facets():
-                    x = cr.facet_center(i) + step_size * cr.A[i]
+                    step = step_size * cr.A[i]
+                    x = cr.facet_center(i) + step
 
                     # guess the active set on the other side of the facet
                     active_set_guess = set(cr.active_set).symmetric_difference({i})
 
                     # add to the buffer
-                    x_buffer.append((x, sorted(list(active_set_guess))))
+                    x_buffer.append((x, sorted(list(active_set_guess)), step))
 
                 # if feasible, add the the list of critical regions
                 crs_found.append(cr)
-- 
2.43.0

