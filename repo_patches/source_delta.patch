From d4115aa1a9f5b8d39576dc0f5db3d432c94582d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 01/50] fix: acyclic symmetric cubic with a large positive abc
 coefficient crashed with TypeError

---
 triples/core/structsos/ternary/cubic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/triples/core/structsos/ternary/cubic.py b/triples/core/structsos/ternary/cubic.py
index 0a5ad28..30e8e7f 100644
--- a/triples/core/structsos/ternary/cubic.py
+++ b/triples/core/structsos/ternary/cubic.py
@@ -412,10 +412,13 @@ def _sos_struct_acyclic_cubic_symmetric(coeff):
         if x3 == 0:
             if not (x4 >= 0 and x2 >= 0 and 4*sp.sqrt(x4*x1) + 2*x2 + x5 >= 0):
                 return None
+            mid = x5/2 + x2
+            # a large positive cross term is nonnegative by itself and needs no square
+            w = mid if mid**2 <= 4*x1*x4 else sp.S(0)
             p1 = x2 * c*(a-b)**2
-            p2 = quadratic_weighting(x4, x5/2 + x2, x1, a=a, b=c) * b
-            p3 = quadratic_weighting(x4, x5/2 + x2, x1, a=b, b=c) * a
-            return p1 + p2 + p3
+            p2 = quadratic_weighting(x4, w, x1, a=a, b=c) * b
+            p3 = quadratic_weighting(x4, w, x1, a=b, b=c) * a
+            return p1 + p2 + p3 + 2*(mid - w)*a*b*c
         if x2 < 0 and 4*x1*x3 < x2**2:
             return None
         # The following x40 makes the symmetric axis have a multiplicity root (a,b,c) = (1,1,sym_c)
-- 
2.43.0


From 27a5455b984e137d3093cf8af3cbb9c92b62641b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 02/50] fix: sextic_tree divided by zero when u + v + 4 == 0

---
 triples/core/structsos/ternary/sextic_symmetric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 32eead5..5b453a3 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -624,8 +624,9 @@ def _sos_struct_sextic_tree(coeff):
         # with t = -(3u + v) / (v + 6)
         # note: (2, -6) is the singular node of the strophoid
         t = radsimp(-(3*u + v) / (v + 6))
-        if -1 <= t:
+        if -1 <= t and t != 2:
             # x = t**3 - 3*t
+            # note: u + v + 4 == 0 if and only if t == 2
             w1 = radsimp((27*u**2 + 27*u*v + 54*u + v**3 + 18*v**2 + 54*v)/(27*(u - 2)*(u + v + 4)))
             w2 = 1 - w1
             # w2 = -(v + 6)**3/(27*(u - 2)*(u + v + 4))
-- 
2.43.0


From 90baf31baf983e85b27af4c314c22c5afeac11b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 03/50] fix: sextic_full_sdp returned a sum of squares with a
 negative weight

---
 triples/core/structsos/ternary/sextic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 52115cc..fdc2584 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -903,6 +903,10 @@ def _sos_struct_sextic_full_sdp(coeff):
         # not implemented
         return None
 
+    if not (r.is_finite and r > 0):
+        # r is the weight of the sum of squares, a negative weight is not a proof
+        return None
+
     z = x**2 + x*(y - 3) + y**2 + 3
 
     # find x, y such that the following quad_form is positive semidefinite
-- 
2.43.0


From 08fb8701bdb5c5f5736e1764091227120c7f98ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 04/50] fix: sextic_rotated_tree ignored a negative value at
 (1,1,1)

---
 triples/core/structsos/ternary/sextic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index fdc2584..74aa608 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -451,6 +451,9 @@ def _sos_struct_sextic_rotated_tree(coeff):
     if coeff((2,4,0)) <= 0 or coeff((4,2,0)) != 0 or u < -2:
         return None
     v = coeff((3,1,2)) / coeff((2,4,0))
+    if (coeff((2,4,0)) + coeff((3,1,2)) + coeff((3,2,1))) * 3 + coeff((2,2,2)) < 0:
+        # negative at a = b = c = 1
+        return None
 
     if u >= 2 and v >= -6:
         y = [sp.S(1), u - 2, v + 6,
-- 
2.43.0


From 6cb4eb8a58890510ca9d71d58901621d9a87408e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 05/50] fix: septic_biased ignored a negative value at (1,1,1)

---
 triples/core/structsos/ternary/septic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 2d292d4..1acee87 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -268,6 +268,10 @@ def _sos_struct_septic_biased(coeff):
     if not coeff.is_rational:
         return None
 
+    if coeff.poly111() < 0:
+        # negative at a = b = c = 1
+        return None
+
     if coeff((5,2,0)) or coeff((4,3,0)):
         # reflect the polynomial so that coeff((5,2,0)) == 0
         solution = _sos_struct_septic_biased(coeff.reflect())
-- 
2.43.0


From 39f7f717787fff3431145361ce10f76591f4116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:02 +0000
Subject: [PATCH 06/50] fix: quintic_full ignored a negative value at (1,1,1)

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 44e7a93..839a501 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -147,7 +147,7 @@ def _sos_struct_quintic_full(coeff):
     s(13660416a5-74323095a4b-26634720a4c+120979510a3b2+194638463a3bc-42269615a3c2-186050959a2b2c)
     """
 
-    if coeff((5,0,0)) <= 0:
+    if coeff((5,0,0)) <= 0 or coeff.poly111() < 0:
         return None
 
     #########################################################
-- 
2.43.0


From a9367b4fe9b2076e99ded314e2872c1be62b01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:39 +0000
Subject: [PATCH 07/50] fix: quintic_uncentered dropped the remainder on
 a^2b^2c

---
 triples/core/structsos/ternary/quintic.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index 839a501..d8d86be 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1473,7 +1473,15 @@ def _sos_struct_quintic_uncentered(coeff):
             CyclicSum(a*c*(a-b)**2*((r1-r1_)*c + (r2-r2_)/2*b)) * multiplier
         ]
 
-        return sum_y_exprs(y, exprs) / multiplier
+        solution = sum_y_exprs(y, exprs) / multiplier
+
+        # u, v are irrelevant to the coefficient of a^2b^2c, so check the value at (1,1,1)
+        if phi <= -1:
+            return None
+        rem = radsimp((coeff.poly111() - solution.doit().subs({a:1, b:1, c:1})) / 3)
+        if rem < 0:
+            return None
+        return solution + rem * CyclicSum(a*b) * CyclicProduct(a)
 
     return None
 
-- 
2.43.0


From ec452a42598897b8b0f735727671424834e28ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:49 +0000
Subject: [PATCH 08/50] fix: sextic_hexagon_sdp returned a sum of squares with
 a negative weight

---
 triples/core/structsos/ternary/sextic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 74aa608..1c3a8b2 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -641,7 +641,7 @@ def _sos_struct_sextic_hexagon_sdp(coeff):
         c33 - 2*r*y*(x-2)
     ]
 
-    if quad_form[0] >= 0 and quad_form[0] * quad_form[1] * 4 >= quad_form[2]**2:
+    if r > 0 and quad_form[0] >= 0 and quad_form[1] >= 0 and quad_form[0] * quad_form[1] * 4 >= quad_form[2]**2:
         mapping = lambda x, y: CyclicSum((x*a**2*b + y*a*b**2 - (x+y)*a*b*c).together())**2
         quad_form_sol = quadratic_weighting(quad_form[0], quad_form[2], quad_form[1], mapping = mapping)
 
-- 
2.43.0


From eee54f87ac8fa6edbead5c98c2e8b2b33aa67602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:08 +0000
Subject: [PATCH 09/50] fix: sextic_hexagon_to_hexagram crashed when the
 quadratic form is indefinite

---
 triples/core/structsos/ternary/sextic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic.py b/triples/core/structsos/ternary/sextic.py
index 1c3a8b2..c94854f 100644
--- a/triples/core/structsos/ternary/sextic.py
+++ b/triples/core/structsos/ternary/sextic.py
@@ -800,7 +800,8 @@ def _sos_struct_sextic_hexagon_to_hexagram(coeff):
         if remain_solution is not None:
             mapping = lambda x, y: CyclicSum((x*a**2*b + y*a*b**2 - (x+y)*a*b*c).together())**2
             main_solution = quadratic_weighting(c1, -c3, c2, mapping = mapping)
-            return main_solution + remain_solution
+            if main_solution is not None:
+                return main_solution + remain_solution
 
 
 def _sos_struct_sextic_full_sdp(coeff):
-- 
2.43.0


From b7d180355c1ae789eb21baffd4ec5c1426dc7c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:34 +0000
Subject: [PATCH 10/50] fix: partial xreplace of cyclic expressions dropped
 terms when the group is not a direct product

---
 triples/utils/expression/cyclic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 0e71db3..be543e4 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -376,6 +376,9 @@ class CyclicExpr(sp.Expr):
             new_args = []
             changed = False
             stab_perp = self.perm.pointwise_stabilizer(list(unchanged_inds))
+            if stab.order() * stab_perp.order() != self.perm.order():
+                # the group is not a direct product of the two stabilizers
+                return _fallback_xreplace(self, rule)
             for p in stab_perp.elements:
                 # make every unchanged inds unchanged
                 # i.e. stab_perp.contains(p)
-- 
2.43.0


From a621dafe2a4b50ae3c0bfb7708679cf51b3554ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:34 +0000
Subject: [PATCH 11/50] fix: rewrite_symmetry used the wrong side of cosets for
 non-normal subgroups

---
 triples/utils/expression/cyclic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index be543e4..9ca3317 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -931,7 +931,8 @@ def _get_rewriting_replacement(symbols: Tuple[Symbol], perm_group: PermutationGr
             elif perm_group.is_subgroup(x.args[2]):
                 # 3. check whether the given permutation group is a subgroup of the expression's permutation group
                 transversals = x.args[2].coset_transversal(perm_group)
-                translations = [dict(zip(x.args[1], p(x.args[1]))) for p in transversals]
+                # p runs over right cosets while the permutation acts on the left
+                translations = [dict(zip(x.args[1], (~p)(x.args[1]))) for p in transversals]
                 trans_perm_group = [dict(zip(x.args[1], p(x.args[1]))) for p in perm_group.elements]
                 exprs = [x.args[0].xreplace(t) for t in translations]
                 for i, expr in enumerate(exprs):
-- 
2.43.0


From b9ce0ffb465334a734ad6374bfa15e0610e90df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:34 +0000
Subject: [PATCH 12/50] fix: CyclicProduct raised invariant factors to the
 number of symbols instead of the group order

---
 triples/utils/expression/cyclic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/cyclic.py b/triples/utils/expression/cyclic.py
index 9ca3317..312938a 100644
--- a/triples/utils/expression/cyclic.py
+++ b/triples/utils/expression/cyclic.py
@@ -621,7 +621,7 @@ class CyclicProduct(CyclicExpr):
 
         if isinstance(expr, Mul):
             cyc_args = list(filter(lambda x: is_cyclic_expr(x, symbols, perm), expr.args))
-            cyc_args = [arg ** len(symbols) for arg in cyc_args]
+            cyc_args = [arg ** perm.order() for arg in cyc_args]
             uncyc_args = list(filter(lambda x: not is_cyclic_expr(x, symbols, perm), expr.args))
             obj0 = Mul(*[cls(arg, symbols, perm) for arg in uncyc_args])
             obj = Mul(obj0, *cyc_args)
@@ -632,7 +632,7 @@ class CyclicProduct(CyclicExpr):
         c, p = self.args[0].as_content_primitive(radical=radical, clear=clear)
         if c is S.One:
             return S.One, self
-        return c ** len(self.symbols), CyclicProduct(p, *self.args[1:])
+        return c ** self.perm.order(), CyclicProduct(p, *self.args[1:])
 
 
 def SymmetricSum(expr, symbols, **kwargs):
-- 
2.43.0


From b7ee1e6b36b317c18ffeb315f321e2bb4c906f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 13/50] fix: octic_symmetric_hexagon returned an unequal
 expression when 2*c620 + c611 == 0

---
 triples/core/structsos/ternary/octic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index 58ec3da..b1a4691 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -570,7 +570,7 @@ def _sos_struct_octic_symmetric_hexagon(coeff):
             y_ = -2*(2*c1 + c2 + c3 + c4)/(2*c1 + c3) if 2*c1 + c3 != 0 else sp.S(0)
             z_ = (2*c1 - c3)/4
             w_ = (10*c1 + 6*c2 + c3 + 2*c4)/4
-            if x_ >= 0 and z_ >= 0 and z_ + w_ >= 0:
+            if x_ > 0 and z_ >= 0 and z_ + w_ >= 0: # x_ == 0 is covered by Case 1
                 m_ = coeff((4,4,0)) - (-2*w_ + 2*x_*y_**2 - 4*x_*y_ + 2*z_)
                 p_ = coeff((4,3,1)) - (w_ - 4*x_*y_**2 + 6*x_*y_ + 2*x_)
                 n_ = coeff((4,2,2)) - (2*w_ + 6*x_*y_**2 + 20*x_*y_ + 4*x_ - 4*z_)
-- 
2.43.0


From dc8adcfd7cf389a60b53f4d846ee4af99857864f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:50 +0000
Subject: [PATCH 14/50] fix: quintic_symmetric returned a secant combination
 with negative weights

---
 triples/core/structsos/ternary/quintic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index b3dda5e..fe7bee8 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -270,7 +270,8 @@ def sos_struct_quintic_symmetric(coeff, real = True):
                         CyclicSum((a-b)**2) * CyclicSum((a + b + (2*z - 1 + 2*t2)*c)*(a - b)**2*(a + b - t2*c)**2),
                         CyclicSum((a-b)**2) * CyclicProduct(a) * CyclicSum(a*b)
                     ]
-                    return sum_y_exprs(y, exprs) / multiplier
+                    if all(_ >= 0 for _ in y):
+                        return sum_y_exprs(y, exprs) / multiplier
                 else: # 2z - 1 + 2t_2 < 0, in this case t < 2
                     y = radsimp([
                         w1 * m / 2,
@@ -288,7 +289,8 @@ def sos_struct_quintic_symmetric(coeff, real = True):
                         CyclicSum((a-b)**2) * CyclicSum(c*(a - b)**2*(a + b - t2*c)**2),
                         CyclicSum((a-b)**2) * CyclicProduct(a) * CyclicSum(a*b)
                     ]
-                    return sum_y_exprs(y, exprs) / multiplier
+                    if all(_ >= 0 for _ in y):
+                        return sum_y_exprs(y, exprs) / multiplier
 
 
         
-- 
2.43.0


From 0c43f9e72f35af632cb2c0a4de9bc7bc1d608843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:04 +0000
Subject: [PATCH 15/50] fix: sextic_symmetric_schur_split case 3 dropped the
 remainder on a^2b^2c^2

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index 5b453a3..d7bb6b0 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -704,7 +704,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
         c411 + 2*c420 + 4*c510 + 3*c600,
         2*c321 + 2*c330 + 2*c411 + 4*c420 + 6*c510 + 4*c600,
         c330 + 2*c420 + 2*c510 + 2*c600,
-        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600
+        -c330/3 - c411/3 - c420/3 - 2*c510 - 2*c600,
+        c222 + 6*c321 + 3*c330 + 3*c411 + 6*c420 + 6*c510 + 3*c600
     ])
     if all(_ >= 0 for _ in y):
         # Case 3.
@@ -714,7 +715,8 @@ def _sos_struct_sextic_symmetric_schur_split(coeff, real = False):
             CyclicSum(a**2*(a*b+a*c-b**2-c**2)**2)/6,
             CyclicSum(a**2*b*c*(b-c)**2)/2,
             CyclicSum((a*b**2+a*c**2-b**2*c-b*c**2)**2)/6,
-            CyclicProduct((a-b)**2)
+            CyclicProduct((a-b)**2),
+            CyclicProduct(a**2)
         ]
         return sum_y_exprs(y, exprs)
 
-- 
2.43.0


From 1781bdbda40c62aa445e04cb283b92744509fc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:04 +0000
Subject: [PATCH 16/50] fix: septic_biased multiplied the proof by a negative
 leading coefficient

---
 triples/core/structsos/ternary/septic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 1acee87..16b99b3 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -282,7 +282,7 @@ def _sos_struct_septic_biased(coeff):
     if coeff((5,2,0)) or coeff((4,3,0)):
         return None
 
-    if coeff((3,4,0)) == coeff((2,5,0)) and coeff((3,4,0)) != 0:
+    if coeff((3,4,0)) == coeff((2,5,0)) and coeff((3,4,0)) > 0:
         coeff34 = coeff((3,4,0))
         m, p, n, q = coeff((5,1,1)) / coeff34, coeff((4,2,1)) / coeff34 + 2, coeff((3,3,1)) / coeff34, coeff((2,4,1)) / coeff34
         if m > 0:
-- 
2.43.0


From 3e408e3a455eb76cdda84a9998881f5cf63f7628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:04 +0000
Subject: [PATCH 17/50] fix: septic_hexagon multiplied the proof by a negative
 leading coefficient

---
 triples/core/structsos/ternary/septic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/triples/core/structsos/ternary/septic.py b/triples/core/structsos/ternary/septic.py
index 16b99b3..6c4db5b 100644
--- a/triples/core/structsos/ternary/septic.py
+++ b/triples/core/structsos/ternary/septic.py
@@ -356,6 +356,10 @@ def _sos_struct_septic_hexagon(coeff):
         if solution is not None:
             return solution
 
+    if coeff((5,2,0)) < 0 or coeff((2,5,0)) < 0:
+        # negative near the border
+        return None
+
     if coeff((5,1,1)) < 0 and coeff((5,1,1))**2 > coeff((5,2,0)) * coeff((5,0,2)) * 4:
         return None
 
-- 
2.43.0


From 1c3a5a70b780739bb8bcb677fdd58e193ef3fd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 18/50] fix: acyclic symmetric quartic did not compare the ac^3
 and bc^3 coefficients

---
 triples/core/structsos/ternary/quartic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quartic.py b/triples/core/structsos/ternary/quartic.py
index fb2c99d..2e434b9 100644
--- a/triples/core/structsos/ternary/quartic.py
+++ b/triples/core/structsos/ternary/quartic.py
@@ -625,7 +625,7 @@ def _sos_struct_acyclic_quartic_symmetric(coeff, real = True):
     mappings = [(lambda i, j: (i,j,4-i-j)), (lambda i, j: (i,4-i-j,j)), (lambda i, j: (4-i-j,i,j))]
     symbol_orders = [sp.symbols("a b c"), sp.symbols("a c b"), sp.symbols("b c a")]
     for symbol_order, mapping in zip(symbol_orders, mappings):
-        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0))):
+        if all(coeff(mapping(i,j)) == coeff(mapping(j,i)) for i,j in ((4,0),(3,1),(3,0),(2,1),(2,0),(1,0))):
             break
     else:
         return None
-- 
2.43.0


From 602caa80373b632745228fc5ddc0148ff7f3da57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:53 +0000
Subject: [PATCH 19/50] fix: quintic_symmetric took 2z - 1 + 2t >= 0 for
 granted at t == 0

---
 triples/core/structsos/ternary/quintic_symmetric.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index fe7bee8..1dec544 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -236,7 +236,9 @@ def sos_struct_quintic_symmetric(coeff, real = True):
         w2 = 1 - w1
         # print('(w1, w2) =', (w1, w2), '\n(y1, y2) =', (y1, y2), '\n(t1, t2) =', (t1, t2))
         if y1 != y2 and 0 <= w1 <= 1:
-            if (w1 == 0 and y2 <= 0) or (y1 <= 0 and y2 <= 0):
+            # note that y2 <= 0 also holds for t2 == 0, where 2z - 1 + 2t_2 can be negative
+            pos2 = 2*t2 + 2*z - 1 >= 0
+            if pos2 and (w1 == 0 or y1 <= 0):
                 y = radsimp([
                     w1 * m / 2,
                     w2 * m / 2,
@@ -252,7 +254,7 @@ def sos_struct_quintic_symmetric(coeff, real = True):
                 # higher degree
                 # we must have t1 = (1 - 2z) / 3 <= 1
                 multiplier = CyclicSum((a - b)**2)/2
-                if y2 <= 0: # 2z - 1 + 2t_2 >= 0
+                if pos2: # 2z - 1 + 2t_2 >= 0
                     # note that:
                     # s((a+b-c)(a-b)2(a+b-tc)2)s(a2-ab) 
                     # = s(a(a-b)(a-c))s((b-c)2(b+c-ta)2) + 2(2-t)(t+1)s(a)p(a-b)2 >= 0
-- 
2.43.0


From 5206ca65a62597d70a46fe97a7aaf5125919538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:06 +0000
Subject: [PATCH 20/50] fix: Coeff.is_zero was false for the zero polynomial

---
 triples/utils/expression/coeff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/utils/expression/coeff.py b/triples/utils/expression/coeff.py
index 058903c..c64f1e8 100644
--- a/triples/utils/expression/coeff.py
+++ b/triples/utils/expression/coeff.py
@@ -139,7 +139,7 @@ class Coeff():
         Return the polynomial of given variables. If args is not given, it uses a-z.
         """
         if len(args) == 0:
-            if self.is_zero:
+            if self.nvars == 0:
                 args = sp.symbols('a')
             else:
                 args = sp.symbols(f'a:{chr(96+self.nvars)}')
@@ -177,7 +177,7 @@ class Coeff():
         """
         Whether the polynomial is zero.
         """
-        return len(self.coeffs) == 0
+        return all(v == 0 for v in self.coeffs.values())
 
     def poly111(self) -> sp.Expr:
         """
-- 
2.43.0


From 35b68304e32756e026f0dd08047d140d4a1e319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:12 +0000
Subject: [PATCH 21/50] fix: int64 overflow guard of matrix products missed
 -2**63, whose abs wraps

---
 triples/sdp/arithmetic.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 5245375..3a4da64 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -637,6 +637,11 @@ def _cast_list_to_sympy_matrix(rows: int, cols: int, lst: List[int]) -> sp.Matri
 
 
 
+def _abs_max(A) -> int:
+    """Largest absolute value. Computed over Python integers since abs(-2**63) overflows int64."""
+    return max(int(A.max()), -int(A.min()))
+
+
 def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
     """
     Fast, low-level implementation of symbolic matrix multiplication.
@@ -670,7 +675,7 @@ def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXA = abs(A).max()
+    _MAXA = _abs_max(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, B0)
 
@@ -679,7 +684,7 @@ def matmul(A: sp.Matrix, B: sp.Matrix, return_shape = None) -> sp.Matrix:
         B = _cast_sympy_matrix_to_numpy(B, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXB = abs(B).max()
+    _MAXB = _abs_max(B)
     if isnan(_MAXB) or _MAXB == inf or _MAXB > _INT64_MAX or int(_MAXA) * int(_MAXB) * B.shape[0] > _INT64_MAX:
         return default(A0, B0)
 
@@ -734,7 +739,7 @@ def matmul_multiple(A: sp.Matrix, B: sp.Matrix) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXA = abs(A).max()
+    _MAXA = _abs_max(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, B0)
 
@@ -743,7 +748,7 @@ def matmul_multiple(A: sp.Matrix, B: sp.Matrix) -> sp.Matrix:
         B = _cast_sympy_matrix_to_numpy(B, dtype = 'int64')
     except OverflowError:
         return default(A0, B0)
-    _MAXB = abs(B).max()
+    _MAXB = _abs_max(B)
     if isnan(_MAXB) or _MAXB == inf or _MAXB > _INT64_MAX or int(_MAXA) * int(_MAXB) * n > _INT64_MAX:
         return default(A0, B0)
 
@@ -838,7 +843,7 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         A = _cast_sympy_matrix_to_numpy(A, dtype = 'int64')
     except OverflowError:
         return default(A0, U0)
-    _MAXA = abs(A).max()
+    _MAXA = _abs_max(A)
     if isnan(_MAXA) or _MAXA == inf or _MAXA > _INT64_MAX:
         return default(A0, U0)
 
@@ -847,7 +852,7 @@ def symmetric_bilinear_multiple(U: sp.Matrix, A: sp.Matrix) -> sp.Matrix:
         U = _cast_sympy_matrix_to_numpy(U, dtype = 'int64')
     except OverflowError:
         return default(A0, U0)
-    _MAXU = abs(U).max()
+    _MAXU = _abs_max(U)
     if isnan(_MAXU) or _MAXU == inf or _MAXU > _INT64_MAX or int(_MAXA) * int(_MAXU)**2 * n**2 > _INT64_MAX:
         return default(A0, U0)
     A = A.reshape((N, n, n))
-- 
2.43.0


From a1bb004488f554c602154f42c918c8cb9abd2ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:45 +0000
Subject: [PATCH 22/50] fix: solve_csr_linear ignored inconsistent zero rows,
 free columns and unequal grouped columns

---
 triples/sdp/arithmetic.py | 110 +++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 61 deletions(-)

diff --git a/triples/sdp/arithmetic.py b/triples/sdp/arithmetic.py
index 3a4da64..81e4e7a 100644
--- a/triples/sdp/arithmetic.py
+++ b/triples/sdp/arithmetic.py
@@ -412,7 +412,7 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
     space: Matrix
         All solution x is in the form of x0 + space @ y.
     """
-    cols = A.shape[1]
+    rows, cols = A.shape
     domain = A._rep.domain.unify(b._rep.domain).get_field()
 
     if _VERBOSE_SOLVE_CSR_LINEAR:
@@ -442,51 +442,39 @@ def solve_column_separated_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices:
 
     x0 = []
     spaces = []
-    for i, row in A.items():
-        row = list(row.items())
-        if len(row):
-            pivot = row[0]
-            head = ufs[pivot[0]]
-            group = groups[head]
-            w = len(group) * toK(pivot[1])
-            bi = b.get(i, 0)
+    seen_heads = set()
+    for i in range(rows):
+        # merge the columns that are required to be equal
+        row = {}
+        for k, v in A.get(i, {}).items():
+            row[ufs[k]] = row.get(ufs[k], zero) + toK(v)
+        row = [(head, w) for head, w in row.items() if w]
+        bi = b.get(i, {}).get(0, zero)
+        if len(row) == 0:
             if bi:
-                bi = bi.get(0, zero)
-                v = bi / w
-                for k in group:
-                    x0.append((k, {0: v}))
-
-            for j in range(1, len(row)):
-                pivot2 = row[j]
-                head2 = ufs[pivot2[0]]
-                if pivot2[0] != head2 or head2 == head:
-                    continue
-                # only handle the case that pivot is the head of the group
-                group2 = groups[head2]
-                w2 = len(group2) * toK(pivot2[1])
-
-                space = {}
-                if w2:
-                    for k in group:
-                        space[k] = w2
-                if w:
-                    for k in group2:
-                        space[k] = -w
-                spaces.append(space)
-
-        else:
-            bi = b.get(i, 0)
-            if bi != 0 and bi.get(0, zero) != zero:
                 raise ValueError("Linear system has no solution")
-
-            for j in range(len(row)):
-                if ufs[row[j][0]] == row[j][0]:
-                    group = groups[row[j][0]]
-
-                    space = {}
-                    for k in group:
-                        space[k] = one
-                    spaces.append(space)
+            continue
+        seen_heads.update(head for head, w in row)
+
+        head, w = row[0]
+        group = groups[head]
+        if bi:
+            v = bi / w
+            for k in group:
+                x0.append((k, {0: v}))
+
+        for head2, w2 in row[1:]:
+            space = {}
+            for k in group:
+                space[k] = w2
+            for k in groups[head2]:
+                space[k] = -w
+            spaces.append(space)
+
+    # entries that do not appear in the system are free
+    for head, group in groups.items():
+        if head not in seen_heads:
+            spaces.append({k: one for k in group})
 
     x0 = dict(x0)
     spaces = dict(enumerate(spaces))
@@ -533,16 +521,28 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
 
     Arep = A._rep.rep.to_sdm()
 
-    # check whether there is at most one nonzero element in each column
+    # form the equal indices as a UFS
+    ufs = list(range(cols))
+    groups = {}
+    for group in x0_equal_indices:
+        for i in group:
+            ufs[i] = group[0]
+        groups[group[0]] = group
+    for i in range(cols):
+        if ufs[i] == i:
+            group = groups.get(i)
+            if group is None:
+                groups[i] = [i]
+
+    # check whether there is at most one nonzero element in each column, equal columns merged
     if isinstance(A, RepMatrix) and isinstance(b, RepMatrix):
         _column_separated = True
-        seen_cols = set()
-        for row in Arep.values():
+        seen_cols = {}
+        for i, row in Arep.items():
             for col, _ in row.items():
-                if col in seen_cols:
+                if seen_cols.setdefault(ufs[col], i) != i:
                     _column_separated = False
                     break
-                seen_cols.add(col)
             if not _column_separated:
                 break
 
@@ -553,18 +553,6 @@ def solve_csr_linear(A: sp.Matrix, b: sp.Matrix, x0_equal_indices: List[List[int
 
     # convert to dense matrix
 
-    # form the equal indices as a UFS
-    ufs = list(range(cols))
-    groups = {}
-    for group in x0_equal_indices:
-        for i in group:
-            ufs[i] = group[0]
-        groups[group[0]] = group
-    for i in range(cols):
-        if ufs[i] == i:
-            group = groups.get(i)
-            if group is None:
-                groups[i] = [i]
     group_keys = list(groups.keys())
     group_inds = {k: i for i, k in enumerate(group_keys)}
 
-- 
2.43.0


From 06ceee89621c86b061e8309f65a8bb6da3834e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:47 +0000
Subject: [PATCH 23/50] fix: StructuralSOS returned odd monomials without using
 any nonnegativity constraint

---
 triples/core/structsos/structsos.py | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/triples/core/structsos/structsos.py b/triples/core/structsos/structsos.py
index 02ea9ca..955718b 100644
--- a/triples/core/structsos/structsos.py
+++ b/triples/core/structsos/structsos.py
@@ -48,6 +48,26 @@ def StructuralSOS(
     return solution
 
 
+def _structural_sos_monomial(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> Optional[sp.Expr]:
+    """
+    Solve a monomial with nonnegative coefficient. Each symbol of odd degree must be nonnegative by
+    the constraints.
+    """
+    nonnegative = {}
+    for k, v in ineq_constraints.items():
+        if k.is_monomial and k.total_degree() == 1 and k.LC() > 0:
+            nonnegative[k.free_symbols.pop()] = v/k.LC()
+
+    solution = poly.LC()
+    for gen, d in zip(poly.gens, poly.monoms()[0]):
+        if d % 2 == 1:
+            if gen not in nonnegative:
+                return None
+            solution *= nonnegative[gen]
+        solution *= gen**(d - d%2)
+    return solution
+
+
 def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}, eq_constraints: Dict[sp.Poly, sp.Expr] = {}) -> sp.Expr:
     """
     Internal function of StructuralSOS, returns a sympy expression only.
@@ -56,10 +76,12 @@ def _structural_sos(poly: sp.Poly, ineq_constraints: Dict[sp.Poly, sp.Expr] = {}
     d = poly.total_degree()
     nvars = len(poly.gens)
     if poly.is_monomial:
-        if poly.LC() >= 0:
-            # since the poly is homogeneous, it must be a monomial
-            return poly.as_expr()
-        return None
+        if poly.LC() < 0:
+            return None
+        # since the poly is homogeneous, it must be a monomial
+        solution = _structural_sos_monomial(poly, ineq_constraints)
+        if solution is not None:
+            return solution
 
     poly, ineq_constraints, eq_constraints = clear_free_symbols(poly, ineq_constraints, eq_constraints)
     d = poly.total_degree()
-- 
2.43.0


From be287108a20408816199d8ca2065ca56656a33a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:30 +0000
Subject: [PATCH 24/50] fix: CommonExpr.schurinv(2) was twice the form it
 solves

---
 triples/core/structsos/ternary/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/utils.py b/triples/core/structsos/ternary/utils.py
index 8997e39..d93dfc2 100644
--- a/triples/core/structsos/ternary/utils.py
+++ b/triples/core/structsos/ternary/utils.py
@@ -170,7 +170,7 @@ class CommonExpr:
         """
         a, b, c = cls.abc
         if n == 2:
-            return CyclicSum((a-b)**2)
+            return CyclicSum((a-b)**2)/2
         elif n == 4:
             return CyclicSum(a**2*(b-c)**2/2)
         elif n == 6:
-- 
2.43.0


From d17382cba5a66e20ffc3094d78f626928281acd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:59 +0000
Subject: [PATCH 25/50] fix: a constant equality constraint made sanitize_input
 raise TypeError

---
 triples/core/shared.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/shared.py b/triples/core/shared.py
index 3ad4e17..81ef115 100644
--- a/triples/core/shared.py
+++ b/triples/core/shared.py
@@ -234,7 +234,7 @@ def _std_eq_constraints(p: sp.Poly, e: sp.Expr) -> Tuple[sp.Poly, sp.Expr]:
     c, lst = _sqf_list(p)
     ret = sp.S(1 if c > 0 else -1).as_poly(*p.gens, domain=p.domain)
     e = e / c
-    max_d = sp.Integer(max(1, *(d for q, d in lst)))
+    max_d = sp.Integer(max([1] + [d for q, d in lst]))
     for q, d in lst:
         ret *= q
         e = e * q.as_expr()**(max_d - d)
-- 
2.43.0


From 805434ed245e36081daf346394023588dafcda1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 26/50] fix: SDPSOS drops repeated constraints instead of
 misreading their Gram matrices

---
 triples/core/sdpsos/sdpsos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index 815d8cb..c4ba4da 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -362,8 +362,9 @@ class SOSProblem():
             The SDP problem to solve.
         """
         gens = self.poly.gens
-        ineq_constraints = [Poly(ineq, *gens) for ineq in ineq_constraints]
-        eq_constraints = [Poly(eq, *gens) for eq in eq_constraints]
+        # the Gram matrices are keyed by the constraints, so keep each of them once
+        ineq_constraints = list(dict.fromkeys(Poly(ineq, *gens) for ineq in ineq_constraints))
+        eq_constraints = list(dict.fromkeys(Poly(eq, *gens) for eq in eq_constraints))
         if self.is_homogeneous and (not all(eq.is_homogeneous for eq in eq_constraints) 
                             or not all(ineq.is_homogeneous for ineq in ineq_constraints)):
             raise ValueError("Expecting all constraints to be homogeneous.")
-- 
2.43.0


From 3aec45f9567e4bb5485b8ccc42e6166171362ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 27/50] fix: preordering='none' of SDPSOS accepts the items of
 a dict

---
 triples/core/sdpsos/sdpsos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index c4ba4da..d5985e8 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -438,7 +438,7 @@ def _get_qmodule_list(poly: Poly, ineq_constraints: List[Tuple[Poly, Expr]],
 
     if preordering == 'none':
         if ineq_constraints_with_trivial:
-            ineq_constraints = [(poly_one, sp.S.One)] + ineq_constraints
+            ineq_constraints = [(poly_one, sp.S.One)] + list(ineq_constraints)
         ineq_constraints = degree_filter(ineq_constraints)
         yield ineq_constraints
         return
-- 
2.43.0


From 4475467e205c3eef000b37dcb2f9532039b30dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 28/50] fix: SDPSOS ignores equalities whose degree exceeds the
 polynomial's

---
 triples/core/sdpsos/sdpsos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/core/sdpsos/sdpsos.py b/triples/core/sdpsos/sdpsos.py
index d5985e8..0dcb3dd 100644
--- a/triples/core/sdpsos/sdpsos.py
+++ b/triples/core/sdpsos/sdpsos.py
@@ -158,6 +158,8 @@ def _form_sdp(ineq_constraints: List[Poly], eq_constraints: List[Poly], nvars: i
     eq_vec = {}
     cnt = sum(n**2 for n in splits_ineq.values())
     for eq in eq_constraints:
+        if eq not in splits_eq: # the degree is too high
+            continue
         s = splits_eq[eq]
         eq_vec[eq] = (x0[cnt:cnt+s, :], space[cnt:cnt+s, :])
         cnt += s
-- 
2.43.0


From 119823db19f26a125407f03ad766adfefe488947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 29/50] fix: numerical SDP solutions keep the (U, diag) form of
 their decompositions

---
 triples/sdp/abstract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index 0715c4f..e0e95a4 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -259,7 +259,7 @@ class SDPProblemBase(ABC):
 
                 def _force_return(self: SDPProblemBase, y):
                     self.register_y(y, perturb = True, propagate_to_parent = False)
-                    _decomp = dict((key, (s, d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
+                    _decomp = dict((key, (s,) + tuple(d)) for (key, s), d in zip(self.S.items(), self.decompositions.values()))
                     return y, _decomp
 
                 if allow_numer >= 3:
-- 
2.43.0


From cad4716444054a557b2431d4b26430241612f50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 30/50] fix: use_default_configs is passed to the child problem

---
 triples/sdp/abstract.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/triples/sdp/abstract.py b/triples/sdp/abstract.py
index e0e95a4..b48a856 100644
--- a/triples/sdp/abstract.py
+++ b/triples/sdp/abstract.py
@@ -359,6 +359,7 @@ class SDPProblemBase(ABC):
                     min_eigen = min_eigen,
                     scaling = scaling,
                     solver = solver,
+                    use_default_configs = use_default_configs,
                     allow_numer = allow_numer,
                     verbose = verbose,
                     solve_child = solve_child,
-- 
2.43.0


From abf91b71e446c3c704cfd6c488b6b801b5b15f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 31/50] fix: nullspaces propagate through DualMatrixTransform
 with the inverse Gram matrix

---
 triples/sdp/transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 0291108..ef9d03d 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -231,8 +231,11 @@ class DualMatrixTransform(SDPMatrixTransform):
         return parent_node
 
     def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
-        nullspace = {key: matmul(self._columnspace[key].T, nullspace[key]) for key in self.child_node.keys()}
-        return nullspace
+        # S = U * M * U' and the child matrix is U'SU = (U'U) * M * (U'U), so that
+        # S * N = 0 is equivalent to (U'SU) * (U'U)^{-1} * U'N = 0
+        def propagate(U, N):
+            return (U.T * U).LUsolve(matmul(U.T, N)) if U.shape[1] and N.shape[1] else sp.zeros(U.shape[1], N.shape[1])
+        return {key: propagate(self._columnspace[key], nullspace[key]) for key in self.child_node.keys()}
 
 class PrimalMatrixTransform(SDPMatrixTransform, SDPCopyTransform):
     """
-- 
2.43.0


From c46c3553f26e07f032ced72b14a9748e2a409c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 32/50] fix: SDPVectorTransform propagates nullspaces to its
 child

---
 triples/sdp/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index ef9d03d..57d1440 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -505,6 +505,9 @@ class SDPVectorTransform(SDPTransformation):
             parent_node.propagate_to_parent(recursive = recursive)
         return parent_node
 
+    def propagate_nullspace_to_child(self, nullspace: Dict[str, sp.Matrix]):
+        return nullspace
+
 
 class SDPDeparametrization(SDPTransformation):
     def __new__(cls, parent_node):
-- 
2.43.0


From 7fe01ad0e6757f1b0b48572d747cd4fd3adb03d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 33/50] fix: zero diagonals of a primal SDP consider both
 triangles of the constraints

---
 triples/sdp/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 57d1440..9307564 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -889,7 +889,7 @@ class PrimalTransformMixin(SDPTransformMixin):
                         for j in range(i):
                             if j in zeros:
                                 continue
-                            if space[eq, i*m+j] != 0: # nonzero off-diagonal constraint
+                            if space[eq, i*m+j] + space[eq, j*m+i] != 0: # nonzero off-diagonal constraint
                                 eq_fail = True
                                 break
                         if eq_fail:
-- 
2.43.0


From eb610039b5eece72929181dde4c8b5cb355e1121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 34/50] fix: PrimalRowMasking does not propagate a missing
 solution

---
 triples/sdp/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/triples/sdp/transform.py b/triples/sdp/transform.py
index 9307564..ed5452d 100644
--- a/triples/sdp/transform.py
+++ b/triples/sdp/transform.py
@@ -433,6 +433,8 @@ class PrimalRowMasking(SDPRowMasking):
 
     def propagate_to_parent(self, recursive: bool = True):
         parent_node, child_node = self.parent_node, self.child_node
+        if child_node.y is None:
+            return parent_node
         mats = {key: sp.zeros(m, m) for key, m in parent_node.size.items()}
         y = sp.zeros(parent_node.dof, 1)
         y_offset = 0
-- 
2.43.0


From 04df0d76fc46d33558ce74dba4b89e33aae3a672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:42 +0000
Subject: [PATCH 35/50] fix: SDPPrimal.S_from_y has a symbol for every entry

---
 triples/sdp/primal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 5f6c801..9b4607e 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -101,7 +101,7 @@ class SDPPrimal(PrimalTransformMixin):
         if y is None:
             y = []
             for i, m in enumerate(self.size.values()):
-                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(j, m)]
+                y += [Symbol('x_{%d,%d,%d}'%(i, min(j,k), max(j,k))) for j in range(m) for k in range(m)]
             y = Matrix(y)
         else:
             m = sum(space.shape[1] for space in self._space.values())
-- 
2.43.0


From 9e27ffa4b7df7167a29912432851a5a3ffbcd683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 36/50] fix: SDPPrimal.project handles dependent equations and
 rejects inconsistent ones

---
 triples/sdp/primal.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 9b4607e..20ac04c 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -150,7 +150,7 @@ class SDPPrimal(PrimalTransformMixin):
         if all(i == 0 for i in r):
             return y
         dy = None
-        if A.rows >= A.cols:
+        if A.rows >= A.cols and A.rank() == A.cols:
             dy = A.LDLsolve(r)
         elif allow_numerical_solver and any(isinstance(_, Float) for _ in r):
             # use numerical solver for float numbers
@@ -160,7 +160,11 @@ class SDPPrimal(PrimalTransformMixin):
             dy = Matrix(dy2)
         else:
             dy = A.pinv_solve(r, arbitrary_matrix=Matrix.zeros(A.cols, 1))
-        return y + dy
+        y2 = y + dy
+        r2 = self._x0 - A * y2
+        if any(i != 0 for i in r2) and not any(isinstance(_, Float) for _ in r2):
+            raise ValueError("The equality constraints are inconsistent.")
+        return y2
 
     def _get_defaulted_configs(self) -> List[List[Any]]:
         sum_trace = np.concatenate([np.eye(m).flatten() for m in self.size.values()])
-- 
2.43.0


From 48108737a8528b40ed981db4361b965ff501a76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:54 +0000
Subject: [PATCH 37/50] fix: SDPPrimal.project returns symmetric matrices

---
 triples/sdp/primal.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/triples/sdp/primal.py b/triples/sdp/primal.py
index 20ac04c..eb2410b 100644
--- a/triples/sdp/primal.py
+++ b/triples/sdp/primal.py
@@ -146,6 +146,16 @@ class SDPPrimal(PrimalTransformMixin):
         if isinstance(y, ndarray):
             y = Matrix(y.flatten())
         A = self.full_space
+
+        # the matrices are symmetric: average the entries (i,j) and (j,i)
+        transpose, offset = [], 0
+        for m in self.size.values():
+            transpose.extend([offset + j*m + i for i in range(m) for j in range(m)])
+            offset += m**2
+        if any(y[i] != y[j] for i, j in enumerate(transpose)):
+            y = (y + y.extract(transpose, [0])) / 2
+        A = (A + A.extract(list(range(A.rows)), transpose)) / 2
+
         r = self._x0 - A * y
         if all(i == 0 for i in r):
             return y
-- 
2.43.0


From 9cb8d211cfd97a4199a8b1537c4744c1564f9850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 38/50] fix: univariate proofs of odd degree take every
 diagonal of the Hankel form

---
 triples/core/structsos/pivoting/univariate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index af312ba..80bd9c4 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -292,6 +292,8 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
         n = M.shape[0]
         if isinstance(poly, sp.Poly):
             all_coeffs = poly.all_coeffs()
+        # the degree can be lower than the matrix expects
+        all_coeffs = [0] * (2 * n - 1 - len(all_coeffs)) + all_coeffs
         for i in range(len(all_coeffs)):
             m = i // 2
             if i % 2 == 0:
@@ -310,6 +312,9 @@ def _determine_diagonal_entries(M: Union[sp.Matrix, List[sp.Matrix]], poly: sp.P
         new_Ms = [None, Ms[1]]
 
         M = M[1]
+        if poly.degree() % 2 == 1:
+            # the leading term only appears in the minor matrix
+            M[0, 0] = poly.LC()
         n = M.shape[0]
         all_coeffs = [0] * (M.shape[1] * 2 - 1)
         for i in range(len(all_coeffs)):
-- 
2.43.0


From 88f3698843a9004ca40e94123cc45b2a993fbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 39/50] fix: bivariate proofs tolerate trivial and opposite
 half planes

---
 triples/core/structsos/pivoting/bivariate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/triples/core/structsos/pivoting/bivariate.py b/triples/core/structsos/pivoting/bivariate.py
index 854a21e..c300ae6 100644
--- a/triples/core/structsos/pivoting/bivariate.py
+++ b/triples/core/structsos/pivoting/bivariate.py
@@ -121,6 +121,8 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         if ineq.is_linear:
             u, v = ineq.coeff_monomial((1, 0)), ineq.coeff_monomial((0, 1))
             # u*a + v*b >= 0
+            if u == 0 and v == 0:
+                continue
             hs.add((u, v), e)
 
     if hs.degenerated: # TODO: shall we solve degenerated case?
@@ -143,6 +145,9 @@ def _sos_struct_bivariate_linear_ineq(poly, ineq_constraints, eq_constraints):
         return sp.Add(*(c*p for c, p in zip(coeffs, polys)))
 
     bound = hs.as_bounds()
+    if len(bound) == 2 and hs.cross(bound[0][0], bound[1][0]) == 0:
+        # opposite normals: the constraints do not give a basis
+        bound = bound[:1]
     if len(bound) == 0:
         if d % 2 != 0:
             return None
-- 
2.43.0


From 0a90fccd6d5c900e8ab3d34d80e4f2bcfe336265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 40/50] fix: univariate proofs of the zero polynomial

---
 triples/core/structsos/pivoting/univariate.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 80bd9c4..296fdfb 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -644,6 +644,8 @@ def prove_univariate(
     poly = _standardize_poly(poly)
 
     lc, factors = poly.factor_list() if not poly.domain.is_Algebraic else poly.sqf_list()
+    if poly.is_zero:
+        lc, factors = sp.S(0), []
     if lc < 0:
         return None
     mul = [(sp.S(1), [lc], [sp.S(1).as_poly(poly.gen)])]
@@ -803,7 +805,7 @@ def prove_univariate_interval(
         #     proof = proof.xreplace({x: (x - a)/(b - x)}).together()
 
         new_proof = []
-        n = poly.degree()
+        n = max(poly.degree(), 0)
         for multiplier, coeff_list, poly_list in proof:
             if multiplier == sp.S(1):
                 multiplier2 = sp.S(1) if n % 2 == 0 else (b - x)
-- 
2.43.0


From e58d831f00c7225cde0ffb3f27ba7e059c19e41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 41/50] fix: univariate proofs on half lines with an irrational
 end point

---
 triples/core/structsos/pivoting/univariate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/triples/core/structsos/pivoting/univariate.py b/triples/core/structsos/pivoting/univariate.py
index 296fdfb..99aa83a 100644
--- a/triples/core/structsos/pivoting/univariate.py
+++ b/triples/core/structsos/pivoting/univariate.py
@@ -764,7 +764,7 @@ def prove_univariate_interval(
             if a is -sp.oo:
                 poly_y = poly
             else:
-                poly_y = poly.shift(a)
+                poly_y = poly.transform((x + a).as_poly(x), sp.S(1).as_poly(x))
         else:
             poly_y = poly.transform((b - x).as_poly(x), sp.S(1).as_poly(x))
         proof = prove_univariate(poly_y, **kwargs)
@@ -780,7 +780,7 @@ def prove_univariate_interval(
                 trans = lambda p: p
                 trans_mul = lambda m: m
             else:
-                trans = lambda p: p.to_field().shift(-a)
+                trans = lambda p: p.transform((x - a).as_poly(x), sp.S(1).as_poly(x))
                 trans_mul = lambda m: m if m == 1 else (x - a)
         else:
             trans = lambda p: p.transform((b - x).as_poly(x), sp.S(1).as_poly(x))
-- 
2.43.0


From 94c90414dd3671ec811eb8e5f21503e20befdc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:23 +0000
Subject: [PATCH 42/50] fix: rational points of parabolas, degenerate conics
 and repeated conics

---
 triples/utils/roots/rationalize.py | 72 ++++++++++++++++++------------
 1 file changed, 44 insertions(+), 28 deletions(-)

diff --git a/triples/utils/roots/rationalize.py b/triples/utils/roots/rationalize.py
index 132c58b..ad5e41c 100644
--- a/triples/utils/roots/rationalize.py
+++ b/triples/utils/roots/rationalize.py
@@ -325,43 +325,57 @@ def rationalize_quadratic_curve(
     else:
         curve = curve.as_poly(x)
         if curve.degree() == 1:
-            x = (-curve.coeffs()[1] / curve.coeffs()[0]).factor()
-            return (x, y)
-        elif curve.degree() > 2:
+            # linear in x, the denominator is at most linear in y
+            denom, numer = curve.all_coeffs()
+            y_ = gen
+            if one_point:
+                y_ = sp.S(0) if denom.subs(y, 0) != 0 else sp.S(1)
+            return {x: (-numer / denom).subs(y, y_).factor(), y: y_}
+        elif curve.degree() != 2 or curve.all_coeffs()[0].has(y):
             return
         if curve.all_coeffs()[0] < 0:
             curve = -curve
 
         # curve = a*(x-...)^2 + curve_y
         curve_y = -curve.all_coeffs()[1]**2/4/curve.all_coeffs()[0] + curve.all_coeffs()[2]
-        curve_y = curve_y.as_poly(y)
-
-        # curve = a*(x-...)^2 + b*(y-...)^2 + const = 0
-        const = -curve_y.all_coeffs()[1]**2/4/curve_y.all_coeffs()[0] + curve_y.all_coeffs()[2]
+        curve_y = curve_y.expand().as_poly(y)
         x0 = -curve.all_coeffs()[1]/2/curve.all_coeffs()[0]
-        y0 = -curve_y.all_coeffs()[1]/2/curve_y.all_coeffs()[0]
-        a, b, c = curve.all_coeffs()[0], curve_y.all_coeffs()[0], const
+
+        if curve_y.degree() <= 0:
+            # a*(x-...)^2 + const = 0, parallel lines
+            x_, y_ = sp.sqrt(-curve_y.as_expr() / curve.all_coeffs()[0]), sp.S(0)
+            if not x_.is_rational:
+                return
+        elif curve_y.degree() == 1:
+            # a*(x-...)^2 + b*y + const = 0, parabola
+            x_, y_ = sp.S(0), -curve_y.all_coeffs()[1] / curve_y.all_coeffs()[0]
+        else:
+            # curve = a*(x-...)^2 + b*(y-...)^2 + const = 0
+            const = -curve_y.all_coeffs()[1]**2/4/curve_y.all_coeffs()[0] + curve_y.all_coeffs()[2]
+            y0 = -curve_y.all_coeffs()[1]/2/curve_y.all_coeffs()[0]
+            a, b, c = curve.all_coeffs()[0], curve_y.all_coeffs()[0], const
         
-        # cancel the denominator
-        r = cancel_denominator((a,b,c))
-        a, b, c = a / r, b / r, c / r
-        if a < 0:
-            a, b, c = -a, -b, -c
+            # cancel the denominator
+            r = cancel_denominator((a,b,c))
+            a, b, c = a / r, b / r, c / r
+            if a < 0:
+                a, b, c = -a, -b, -c
         
-        # convert to (sqrt(a)*(x-..))^2 + b*(y-...)^2 + c = 0
-        t = core(a)
-        a, b, c = a * t, b * t, c * t
-        b_, c_ = core(abs(b.p*b.q)) * sp.sign(b), core(abs(c.p*c.q)) * sp.sign(c)
-
-        sol = diop_DN(-b_, -c_)
-        if len(sol) == 0:
-            return
+            # convert to (sqrt(a)*(x-..))^2 + b*(y-...)^2 + c = 0
+            t = core(a)
+            a, b, c = a * t, b * t, c * t
+            b_ = core(abs(b.p*b.q)) * sp.sign(b)
+            c_ = core(abs(c.p*c.q)) * sp.sign(c) if c != 0 else sp.S(1)
+
+            sol = diop_DN(-b_, -c_) if c != 0 else [(sp.S(0), sp.S(0))]
+            if len(sol) == 0:
+                return
         
-        # u^2 + b_v^2 + c_ = 0 => (u * sqrt(c/c_))^2 + b * (v * sqrt(c/c_) / sqrt(b/b_))^2 + c = 0
-        u, v = sol[0]
-        tmp = sp.sqrt(c / c_)
-        x_, y_ = u * tmp / sp.sqrt(a), v * tmp / sp.sqrt(b / b_)
-        y_ = y_ + y0
+            # u^2 + b_v^2 + c_ = 0 => (u * sqrt(c/c_))^2 + b * (v * sqrt(c/c_) / sqrt(b/b_))^2 + c = 0
+            u, v = sol[0]
+            tmp = sp.sqrt(c / c_)
+            x_, y_ = u * tmp / sp.sqrt(a), v * tmp / sp.sqrt(b / b_)
+            y_ = y_ + y0
         x_ = x_ + x0.subs(y, y_)
     if one_point:
         return {x: x_, y: y_}
@@ -425,7 +439,9 @@ def common_region_of_conics(polys: List[sp.Poly], _tol = 1e-10) -> Optional[Tupl
         gcd = sp.gcd(f1, f2).as_poly(x, y)
         if gcd.total_degree() == 2:
             # f1 is a multiple of f2
-            yield rationalize_quadratic_curve(f1, one_point=True)
+            point = rationalize_quadratic_curve(f1, one_point=True)
+            if point is not None:
+                yield point[x], point[y]
         elif gcd.total_degree() == 1:
             a, b, c = [gcd.coeff_monomial(_) for _ in [(1,0),(0,1),(0,0)]]
             # ax + by + c = 0
-- 
2.43.0


From 5fd11d6911528caf57b51cb23ca7bad7053a4e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 43/50] fix: quintic template used a plain 1, which made later
 quotients floating-point numbers

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index d8d86be..c5bca40 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -64,7 +64,7 @@ def _solve_sa2minusab_mul_cubic(x, y, mul = sp.S(1)):
     When (x, y) is not on the curve, it would be a linear combination of two points on the curve.
     """
     if x >= 0 and y >= 0:
-        cubic_poly = Coeff({(3,0,0): 1, (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
+        cubic_poly = Coeff({(3,0,0): sp.S(1), (2,1,0): x, (1,2,0): y, (1,1,1): -3*(x+y+1)})
         return sp.Rational(1,2) * mul * CyclicSum((a-b)**2) * sos_struct_cubic(cubic_poly)
 
     def _solve_t(t):
-- 
2.43.0


From b3ab4e3ddc67d3eaefc93ed5883b8f52316176f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 44/50] fix: sextic hexagon SDP dereferenced a missing
 candidate

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index d7bb6b0..f71ee94 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -198,7 +198,7 @@ def _sos_struct_sextic_hexagon_symmetric_sdp(coeff):
             # when l22 == 0, there is no degree of freedom
             u = radsimp(6*w2/denom)
 
-        if l22 > 0 and not _is_valid(u):
+        if l22 > 0 and (u is None or not _is_valid(u)):
             eq_u = sp.Poly.from_list(
                 [-2*c321 + 10*c420 + 3*w1 - 9*w2, -9*c321 + 36*c420 + 9*w1 - 45*w2, -9*c321 + 36*c420 + 9*w1 - 81*w2, -54*w2],
                 sp.Symbol('u')
-- 
2.43.0


From c6f199b857e0c6e6765763644356b3c08708b929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 45/50] fix: iran96 sextic, wrong constant in the third easy
 case

---
 triples/core/structsos/ternary/sextic_symmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index f71ee94..b54ae98 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -889,7 +889,7 @@ def _sos_struct_sextic_iran96(coeff, real = False):
                 min(w2, q2),
                 q2 - min(w2, q2),
                 w2 - min(w2, q2),
-                radsimp(z - u_ * (u_ + 2) * m - 2*p + (w2 + q2 - 2 * min(w2, q2))),
+                radsimp(z - u_ * (u_ + 2) * m - 2*p + (w2 + q2 + min(w2, q2))),
                 rem
             ]
 
-- 
2.43.0


From 1ab801039cb120ab94f4c37fd63cbe3e5a42bf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 46/50] fix: uncentered quintic skipped candidates only if
 comparable (nan)

---
 triples/core/structsos/ternary/quintic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index c5bca40..cbe7b64 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1476,7 +1476,7 @@ def _sos_struct_quintic_uncentered(coeff):
         solution = sum_y_exprs(y, exprs) / multiplier
 
         # u, v are irrelevant to the coefficient of a^2b^2c, so check the value at (1,1,1)
-        if phi <= -1:
+        if any(sp.sympify(_).has(sp.nan, sp.zoo) for _ in (phi, *y)) or phi <= -1:
             return None
         rem = radsimp((coeff.poly111() - solution.doit().subs({a:1, b:1, c:1})) / 3)
         if rem < 0:
-- 
2.43.0


From 9b609a49e7c9858ea28574c6ba73052fee530deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 47/50] fix: degenerate hessian cases of the symmetric octic
 divided by zero

---
 .../core/structsos/ternary/octic_symmetric.py  | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/triples/core/structsos/ternary/octic_symmetric.py b/triples/core/structsos/ternary/octic_symmetric.py
index b1a4691..f00e9e9 100644
--- a/triples/core/structsos/ternary/octic_symmetric.py
+++ b/triples/core/structsos/ternary/octic_symmetric.py
@@ -308,12 +308,18 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
         if t is None:
             return None
 
-        u210 = sp.S(1)
-        u201 = t
-        u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)/(3*t*w2 - t*w4 - w4)
-        u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)/(3*t*w2 - t*w4 - w4)
+        p4 = 3*t*w2 - t*w4 - w4
+        u210, u201 = sp.S(1), t
+        u102 = -(t + 1)*(3*t*w2 - t*w4 + 2*w4)
+        u111 = -(3*t**2*w2 - t**2*w4 - 3*t*w2 + 3*t*w4 - 5*w4)
         reg = 162*t**2*w4
-        r = (3*t*w2 - t*w4 - w4)**2 / reg
+        if p4 != 0:
+            u102, u111 = u102 / p4, u111 / p4
+            r = p4**2 / reg
+        else:
+            # r * ker**2 as p4 -> 0
+            u210, u201 = sp.S(0), sp.S(0)
+            r = 1 / reg
         M00t, M01t, M02t, M22t = [f(t)/reg for f in (M00t, M01t, M02t, M22t)]
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
         return u210, u102, u201, u111, r, quad_form
@@ -507,7 +513,7 @@ def _sos_struct_octic_symmetric_hexagon_sdp(coeff):
             M22t = w5 / (c611 + 2*c620)
 
         u210 = sp.S(1)
-        u102 = -c530/(c611 + 2*c620)
+        u102 = -c530/(c611 + 2*c620) if c611 + 2*c620 != 0 else sp.S(0)
         u201 = sp.S(0)
         u111 = -2*u102 - 1
         quad_form = stack_quad_form(M00t, M01t, M02t, M22t)
-- 
2.43.0


From a7e596ebe43f22f6a8059b66e501a1019679caed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:13 +0000
Subject: [PATCH 48/50] fix: _sextic_sym_axis at x = 1 and the special roots of
 the border test

---
 triples/core/structsos/ternary/sextic_symmetric.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/triples/core/structsos/ternary/sextic_symmetric.py b/triples/core/structsos/ternary/sextic_symmetric.py
index b54ae98..5a7a3ff 100644
--- a/triples/core/structsos/ternary/sextic_symmetric.py
+++ b/triples/core/structsos/ternary/sextic_symmetric.py
@@ -1509,6 +1509,8 @@ class _sextic_sym_axis:
         Return p1, c1, c2, multiplier such that
         F(x,y) * s(mutiplier[0]*a^2 + multiplier[1]*a*b) = p1 + s(c1*a^2 + c2*a*b) * p(a-b)^2
         """
+        if x == 1:
+            return None
         z = [-(2*x + y - 2)/(2*(x - 1)), (x + 2*y - 3)/(2*(x - 1))][z_type]
         def _compute_h_c1_c2(z):
             """
@@ -1736,6 +1738,8 @@ class _sextic_sym_axis:
         -----------
         [1] https://tieba.baidu.com/p/8261574122
         """
+        if x == 1:
+            return None, 2
         suv, puv = (2 - 2*y)/(x - 1), (2*x + y - 2)/(x - 1)
         a, b, c, m = sp.symbols('a b c m')
         det1 = (-2*m**3 + (suv + 7)*m**2 - 4*(suv + 1)*m + puv**2 + 4*(suv - 1)).as_poly(m)
@@ -1770,7 +1774,7 @@ class _sextic_sym_axis:
 
 
         for root in nroots(det1, method = 'factor', real = True):
-            if isinstance(root, sp.Rational) and (root == 2 or m + puv == 2 or suv - 2*m - 1 == 0):
+            if isinstance(root, sp.Rational) and (root == 2 or root + puv == 2 or suv - 2*root - 1 == 0):
                 return None, 2
             if not root.is_real:
                 continue
-- 
2.43.0


From d99fbfd14a9ca38fad50c408e73e5ae39fc04eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:07 +0000
Subject: [PATCH 49/50] fix: symmetric quintic returned floating point proofs
 when no rational was found

---
 triples/core/structsos/ternary/quintic_symmetric.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/triples/core/structsos/ternary/quintic_symmetric.py b/triples/core/structsos/ternary/quintic_symmetric.py
index 1dec544..7af4508 100644
--- a/triples/core/structsos/ternary/quintic_symmetric.py
+++ b/triples/core/structsos/ternary/quintic_symmetric.py
@@ -573,6 +573,9 @@ def sos_struct_quintic_symmetric(coeff, real = True):
                     if t__ >= 3 and eqt1(t__) <= 0 and eqt2(t__) <= 0:
                         t_ = t__
                         break
+                else: # a floating-point number does not give an exact solution
+                    if isinstance(t_, sp.Float):
+                        return None
 
             u_ = t_
             t_ = radsimp((3*u_**2 + 2*u_ + 3) / (4*u_))
-- 
2.43.0


From 34ddc805502912d2e0bc41762da0613530587991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:23 +0000
Subject: [PATCH 50/50] fix: quintic hexagon dropped a term when p*q = 9

---
 triples/core/structsos/ternary/quintic.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/triples/core/structsos/ternary/quintic.py b/triples/core/structsos/ternary/quintic.py
index cbe7b64..a602c54 100644
--- a/triples/core/structsos/ternary/quintic.py
+++ b/triples/core/structsos/ternary/quintic.py
@@ -1591,14 +1591,15 @@ def _solve_quintic_hexagon_pqz(p, q, z, mul = sp.S(1)):
     if z >= -2:
         det = radsimp(-16*(p**2*q**2 + 18*p*q - 4*p**3 - 4*q**3 - 27))
         if det >= 0 and (p != 3 or q != 3):
-            u, v = (2*p**2 - 6*q) / (9 - p*q), (2*q**2 - 6*p) / (9 - p*q)
-            t = (9 - p*q)**2 / (p + q + 3) / (3*(p - q)**2 + (6 - p - q)**2)
-            u, v, t = radsimp([u, v, t])
+            # Clear the denominator (9 - p*q) of u and v, since it might be zero.
+            denom = 1 / (p + q + 3) / (3*(p - q)**2 + (6 - p - q)**2)
+            c1, c2, c3 = radsimp([9 - p*q, 2*p**2 - 6*q, 2*q**2 - 6*p])
+            t = radsimp(c1**2 * denom)
 
-            y = radsimp([(z + 2) * mul / 2, t * mul, (1 - t) * mul])
+            y = radsimp([(z + 2) * mul / 2, denom * mul, (1 - t) * mul])
             exprs = [
                 CyclicProduct(a) * CyclicSum((a-b)**2),
-                CyclicSum(c*(a**2 - b**2 + u*(a*b-a*c) + v*(b*c-a*b))**2),
+                CyclicSum(c*(c1*(a**2 - b**2) + c2*(a*b-a*c) + c3*(b*c-a*b))**2),
                 CyclicSum(c*(a-b)**4),
             ]
             return sum_y_exprs(y, exprs)
-- 
2.43.0

