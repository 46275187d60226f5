From d02bff75c4573c247315c9e60de4f9dfa738dbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 01/14] fix: sum every quadratic-variation term in the
 two-factor Ito recursion

The branches of recursive_IEI_IEII were chained with elif, so only the first
applicable term of the equation was added (e.g. moment_IEI_IEII(2,1,0,0,0)
lost the n4*n5 term).
---
 src/ajdmom/itos_mom.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index b50b491..34408c6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -515,39 +515,39 @@ def recursive_IEI_IEII(n4, n5, n6, n7, n8, IEI_IEII):
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 2, n5, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 2, n4 - 2, n5, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 2 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = Frac(n5 * (n5 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5 - 2, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 2, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4 + 1, n5 - 2, n6, n7, n8, IEI_IEII), 4))
-    elif n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
+    if n4 >= 1 and n5 >= 1 and n6 >= 0 and n7 >= 0 and n8 >= 0:
         c = n4 * n5
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 2))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 1, n4 - 1, n5 - 1, n6, n7, n8, IEI_IEII), 3))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, 0, n4, n5 - 1, n6, n7, n8, IEI_IEII), 4))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 2 and n7 >= 0 and n8 >= 0:
         c = Frac(n6 * (n6 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 2, n7, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 2, n4, n5, n6 - 2, n7, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 2 and n8 >= 0:
         c = Frac(n7 * (n7 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6, n7 - 2, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 2, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, -1, n4, n5, n6 + 1, n7 - 2, n8, IEI_IEII), 8))
-    elif n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
+    if n4 >= 0 and n5 >= 0 and n6 >= 1 and n7 >= 1 and n8 >= 0:
         c = n6 * n7
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 5))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 6))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 1, n4, n5, n6 - 1, n7 - 1, n8, IEI_IEII), 7))
         poly.merge(coef_poly(c, int_mIEI_IEII(2, 0, n4, n5, n6, n7 - 1, n8, IEI_IEII), 8))
     #
-    elif n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
+    if n4 >= 0 and n5 >= 0 and n6 >= 0 and n7 >= 0 and n8 >= 2:
         c = Frac(n8 * (n8 - 1), 2)
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 1))
         poly.merge(coef_poly(c, int_mIEI_IEII(1, -1, n4, n5, n6, n7, n8 - 2, IEI_IEII), 2))
-- 
2.43.0


From 1a02efda5828a49089abd6bcdce10705e6cc7ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 02/14] fix: int_et treated e^{(n1*k1+n2*k2)t} with n1 = -n2 as
 constant

The exponent vanishes only when both n1 and n2 are zero.
---
 src/ajdmom/itos_mom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 34408c6..47465a6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -299,15 +299,15 @@ def int_et(n1, n2, m):
     kf = ['(n1*k1+n2*k2)^{-}', 'e^{(n1*k1+n2*k2)[t-(n-1)h]}', '[t-(n-1)h]']
     poly.set_keyfor(kf)
     #
-    if n1 + n2 == 0 and m == 0:
+    if n1 == 0 and n2 == 0 and m == 0:
         key = ((0, 0, 0), (0, 0), 1)
         val = 1
         poly.add_keyval(key, val)
-    elif n1 + n2 == 0 and m != 0:
+    elif n1 == 0 and n2 == 0 and m != 0:
         key = ((0, 0, 0), (0, 0), m + 1)
         val = Frac(1, m + 1)
         poly.add_keyval(key, val)
-    elif n1 + n2 != 0 and m == 0:
+    elif m == 0:
         key = ((n1, n2, 1), (n1, n2), 0)
         val = 1
         poly.add_keyval(key, val)
-- 
2.43.0


From d64c4379ce27b07877bd6e772f634faee137ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 03/14] fix: NameError while reporting an invalid order in
 moment_IEI_IEII

---
 src/ajdmom/itos_mom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/itos_mom.py b/src/ajdmom/itos_mom.py
index 47465a6..f03e6b6 100644
--- a/src/ajdmom/itos_mom.py
+++ b/src/ajdmom/itos_mom.py
@@ -583,7 +583,7 @@ def moment_IEI_IEII(n4, n5, n6, n7, n8, return_all=False):
     :rtype: Poly or dict of Poly
     """
     if n4 + n5 + n6 + n7 + n8 < 0:
-        raise ValueError(f'moment_IEI_IEII({n_4},{n_5},{n_6},{n_7},{n_8}) is called')
+        raise ValueError(f'moment_IEI_IEII({n4},{n5},{n6},{n7},{n8}) is called')
     #
     IEI_IEII = {}
     kf = ('(n_1m*k1+n_2m*k2)^{-i_m},...,(n_11*k1+n_21*k2)^{-i_1}',
-- 
2.43.0


From 12c60845ce1ff1c3e1e77434e21794aea07490e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 04/14] fix: int_e_IEZ_poly carried exponents from one integral
 term into the next

The l/o/p/q sub-keys were updated in place inside the loop over the terms of
the inner integral, so with n != 0 and m >= 1 every later term also received
the exponents of the earlier ones (conditional moments of order >= 4).
---
 src/ajdmom/ito_cond_mom.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/ajdmom/ito_cond_mom.py b/src/ajdmom/ito_cond_mom.py
index 790585c..edd3ee8 100644
--- a/src/ajdmom/ito_cond_mom.py
+++ b/src/ajdmom/ito_cond_mom.py
@@ -455,17 +455,13 @@ def int_e_IEZ_poly(coef, m, poly):
             key1 = (kk[0], kk[1], kk[2] + k[2], k[3], k[4], k[5])
             # key2
             if len(k6) == 1:  # 1 summation  inside
-                k6 = (k6[0] + kk[3],)
-                k7 = (k7[0] + kk[4],)
-                key2 = (k6, k7, (), ())
+                key2 = ((k6[0] + kk[3],), (k7[0] + kk[4],), (), ())
             else:  # 2 summations inside or more
-                k8 = list(k8)
-                k8[-1] += kk[3]
-                k8 = tuple(k8)
-                k9 = list(k9)
-                k9[-1] += kk[4]
-                k9 = tuple(k9)
-                key2 = (k6, k7, k8, k9)
+                kk8 = list(k8)
+                kk8[-1] += kk[3]
+                kk9 = list(k9)
+                kk9[-1] += kk[4]
+                key2 = (k6, k7, tuple(kk8), tuple(kk9))
             poln.add_keyval(key1 + key2, coef * poly[k] * poly_sub[kk])
     return poln
 
-- 
2.43.0


From e8ca341135e7976f248a16526cf64b1206968e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 05/14] fix: iez_cmom.cm did not pass the parameters to
 poly2num

---
 src/ajdmom/mdl_srjd/iez_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_srjd/iez_cmom.py b/src/ajdmom/mdl_srjd/iez_cmom.py
index 2f9c6b6..2e94fc1 100644
--- a/src/ajdmom/mdl_srjd/iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/iez_cmom.py
@@ -40,7 +40,7 @@ def cmoment_IEZ(n):
 
 def cm(n, par):
     cmoment = cmoment_IEZ(n)
-    value = poly2num(cmoment)
+    value = poly2num(cmoment, par)
     return value
 
 
-- 
2.43.0


From 63cef0c88281180817b2021fc4b4205a838562a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 06/14] fix: moment_ie(2) returned a poly without keyfor in the
 SRJD modules

---
 src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py | 1 +
 src/ajdmom/mdl_srjd/cond_ie_iez_mom.py  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
index 88b0d4d..7ae60a4 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_cmom.py
@@ -92,6 +92,7 @@ def moment_ie(n):
         (2, 1, 0, 1, 0, 0, 0): Fraction(1, 2),
         (0, 1, 0, 1, 0, 0, 0): Fraction(-1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
diff --git a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
index 40e4e79..2ed6f02 100644
--- a/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
+++ b/src/ajdmom/mdl_srjd/cond_ie_iez_mom.py
@@ -95,6 +95,7 @@ def moment_ie(n):
         (1, 2, 0, 0, 0, 1, 1): Fraction(-1, 1),
         (0, 2, 0, 0, 0, 1, 1): Fraction(1, 2)
     })
+    P2.set_keyfor(kf)
     IE[2] = P2
     #
     if n <= 2:
-- 
2.43.0


From 117fdc80abb636826095e1689643130bc7a89c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:35 +0000
Subject: [PATCH 07/14] fix: order 0 and 1 entries of moment_IEII had 8 key
 components for a 7-component keyfor

---
 src/ajdmom/ito_mom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ajdmom/ito_mom.py b/src/ajdmom/ito_mom.py
index 56e03a4..0b40b6a 100644
--- a/src/ajdmom/ito_mom.py
+++ b/src/ajdmom/ito_mom.py
@@ -373,9 +373,9 @@ def moment_IEII(n3, n4, n5):
     #
     # special poly constants, analog to 0 and 1
     #
-    P0 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
+    P0 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(0, 1)})
     P0.set_keyfor(kf)
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0): Frac(1, 1)})
     P1.set_keyfor(kf)
     #
     # n3 + n4 + n5 = 0: special case
-- 
2.43.0


From d59e88b549b5f0a09e22d661a0229bc216bb31d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 08/14] fix: conditional central moment of order 0 was returned
 as 0

cmoments_y_to(0) still holds the entries of order 0 and 1, so its last entry
is not the one of order l.
---
 src/ajdmom/mdl_1fsv/cond_cmom.py  | 2 +-
 src/ajdmom/mdl_svcj/cond2_cmom.py | 4 ++--
 src/ajdmom/mdl_svij/cond2_cmom.py | 2 +-
 src/ajdmom/mdl_svvj/cond2_cmom.py | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/mdl_1fsv/cond_cmom.py b/src/ajdmom/mdl_1fsv/cond_cmom.py
index e8b06b4..0efcf8f 100644
--- a/src/ajdmom/mdl_1fsv/cond_cmom.py
+++ b/src/ajdmom/mdl_1fsv/cond_cmom.py
@@ -323,7 +323,7 @@ def cond_cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     cmoment = simplify(cmoment, tp=2)
     # ('e^{-kt}', 't', 'k^{-}', 'v_0-theta', 'theta', 'sigma', 'rho')
     value = poly2num(cmoment, par)
diff --git a/src/ajdmom/mdl_svcj/cond2_cmom.py b/src/ajdmom/mdl_svcj/cond2_cmom.py
index a6f21b7..61f1faa 100644
--- a/src/ajdmom/mdl_svcj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svcj/cond2_cmom.py
@@ -138,7 +138,7 @@ def cmoments_y_to(l, J):
 
 def cmoment_y(l, J):
     cmoms = cmoments_y_to(l, J)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
@@ -196,7 +196,7 @@ def cm(l, par):
     """
     J = par['jumpsize']  # list of jump sizes
     cmoments = cmoments_y_to(l, J)
-    cmoment = cmoments[-1]
+    cmoment = cmoments[l]
     value = poly2num(cmoment, par)
     return value
 
diff --git a/src/ajdmom/mdl_svij/cond2_cmom.py b/src/ajdmom/mdl_svij/cond2_cmom.py
index 69cde99..cc04d68 100644
--- a/src/ajdmom/mdl_svij/cond2_cmom.py
+++ b/src/ajdmom/mdl_svij/cond2_cmom.py
@@ -59,7 +59,7 @@ def cmoments_y_to(l):
 
 def cmoment_y(l):
     cmoms = cmoments_y_to(l)
-    return cmoms[-1]
+    return cmoms[l]
 
 
 ##########
diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index be995dc..24f4b22 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -186,7 +186,7 @@ def cmoment_y(l):
     :rtype: Poly
     """
     cmoments = cmoments_y_to(l)
-    return cmoments[-1]
+    return cmoments[l]
 
 
 def classify(poly):
@@ -292,7 +292,7 @@ def cm(l, par):
     :rtype: float
     """
     cmoments = cmoments_y_to(l)
-    cmoment = cmoments[-1]  # need only the last one
+    cmoment = cmoments[l]  # need only the last one
     value = poly2num(cmoment, par)
     return value
 
-- 
2.43.0


From e4435453b9f13c2f3ba9a32dda20ed8ebb00f377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 09/14] fix: order 0 SVCJ conditional moment lacked its last
 three key components

---
 src/ajdmom/mdl_svcj/cond2_mom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svcj/cond2_mom.py b/src/ajdmom/mdl_svcj/cond2_mom.py
index 0004178..3782344 100644
--- a/src/ajdmom/mdl_svcj/cond2_mom.py
+++ b/src/ajdmom/mdl_svcj/cond2_mom.py
@@ -165,7 +165,8 @@ def moments_y_to(l, J):
     #
     # special case: 0-th moment
     #
-    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0): Frac(1, 1)})
+    J0 = tuple(0 for i in range(len(J)))
+    P1 = Poly({(0, 0, 0, 0, 0, 0, 0, 0, (), (), (), (), 0, 0, 0, 0, 0, 0, J0): Frac(1, 1)})
     P1.set_keyfor(kf)
     moms.append(P1)  # equiv to constant 1
     #
-- 
2.43.0


From b0a52b2e107a8f20a4fc6712503d1e955c5588b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 10/14] fix: multilevel_comb(1, m) returned an int instead of a
 list of indexes

---
 src/ajdmom/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/utils.py b/src/ajdmom/utils.py
index dcf88d7..86482d6 100644
--- a/src/ajdmom/utils.py
+++ b/src/ajdmom/utils.py
@@ -73,7 +73,7 @@ def multilevel_comb(n, m, show=False):
     :return: list
     """
     if n == 1:
-        return m
+        return [[m]]
     elif n == 2:
         index = [[i, m - i] for i in range(m+1)]
         if show: print(index)
-- 
2.43.0


From a28151b230530023fb59ef56969a6b6cea2b422b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 11/14] fix: classify indexed the sub-polys by level instead of
 by position

A poly without summation-free terms raised IndexError.
---
 src/ajdmom/mdl_svvj/cond2_cmom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ajdmom/mdl_svvj/cond2_cmom.py b/src/ajdmom/mdl_svvj/cond2_cmom.py
index 24f4b22..3f9c074 100644
--- a/src/ajdmom/mdl_svvj/cond2_cmom.py
+++ b/src/ajdmom/mdl_svvj/cond2_cmom.py
@@ -216,7 +216,7 @@ def classify(poly):
     #
     # classify
     for k, v in poly.items():
-        subpoly = subpolys[len(k[6])]
+        subpoly = subpolys[N_sum.index(len(k[6]))]
         subpoly[k[0:6] + k[10:] if len(k[6]) == 0 else k] = v
         # exclude the empty subkey (),(),(),()
     return subpolys
-- 
2.43.0


From f7742b481c66a1f5b4f92fe06482669ddc1b9678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 12/14] fix: write_to_csv failed on an empty poly of a model
 with summation levels

---
 src/ajdmom/poly.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 751155e..0f8f227 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -301,6 +301,7 @@ class Poly(UserDict):
             else:
                 i += 1
         # find one sub-key corresponding to 'l_{1:n}'
+        l = ()
         for k in self.keys():
             l = k[i]
             break
-- 
2.43.0


From dc68ada5a31ee35d8a6a26b527172e27404558d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:00 +0000
Subject: [PATCH 13/14] fix: write_to_csv wrote a title with more columns than
 the rows

An empty column was inserted whenever the sub-key block is the end of keyfor
(SRJD) or has no level of summation.
---
 src/ajdmom/poly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 0f8f227..5a7bf45 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -321,8 +321,8 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2) + ','
-            title += ','.join(self.keyfor[i + 2:]) + ',num,den\n'
+            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:]))
+            title += ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
@@ -337,8 +337,8 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(self.keyfor[:i]) + ',' + ','.join(sub1 + sub2 + sub3 + sub4) + ','
-            title += ','.join(self.keyfor[i + 4:]) + ',num,den\n'
+            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:]))
+            title += ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-- 
2.43.0


From 842387575635e2dee216e8acd4aaa549926d089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:27 +0000
Subject: [PATCH 14/14] fix: write_to_csv did not quote columns that contain
 commas

The denominators of the two-factor models are tuples, and their titles contain
commas too, so rows and title had different numbers of columns.
---
 src/ajdmom/poly.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ajdmom/poly.py b/src/ajdmom/poly.py
index 5a7bf45..76100b0 100644
--- a/src/ajdmom/poly.py
+++ b/src/ajdmom/poly.py
@@ -72,6 +72,12 @@ def kv(i, key):
         return 0
 
 
+def csv_field(s):
+    """text of one csv column, quoted when it contains a comma"""
+    s = str(s)
+    return f'"{s}"' if ',' in s else s
+
+
 class Poly(UserDict):
     """Class for different versions of "Polynomial" """
 
@@ -282,12 +288,12 @@ class Poly(UserDict):
         # for cases without 'l_{1:n}',...: mdl_1fsv, mdl_1fsvj, mdl_2fsv, mdl_2fsvj
         #
         if 'l_{1:n}' not in self.keyfor:
-            title = ','.join(self.keyfor) + ',num,den\n'
+            title = ','.join([csv_field(s) for s in self.keyfor]) + ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
                     num, den = v.numerator, v.denominator
-                    row = ','.join([str(s) for s in k]) + f',{str(num)},{str(den)}\n'
+                    row = ','.join([csv_field(s) for s in k]) + f',{str(num)},{str(den)}\n'
                     f.write(row)
             print(f"complete the writing of {filename}.")
             return
@@ -321,12 +327,12 @@ class Poly(UserDict):
         if 'p_{2:n}' not in self.keyfor:
             sub1 = ['l' + str(j) for j in range(1, len(l) + 1)]
             sub2 = ['o' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:]))
+            title = ','.join([csv_field(s) for s in list(self.keyfor[:i]) + sub1 + sub2 + list(self.keyfor[i + 2:])])
             title += ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
+                    row = ','.join([csv_field(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2:]])
                     row += f',{v.numerator},{v.denominator}\n'
                     f.write(row)
         #
@@ -337,12 +343,13 @@ class Poly(UserDict):
             sub2 = ['o' + str(j) for j in range(1, len(l) + 1)]
             sub3 = ['p' + str(j) for j in range(2, len(l) + 1)]
             sub4 = ['q' + str(j) for j in range(2, len(l) + 1)]
-            title = ','.join(list(self.keyfor[:i]) + sub1 + sub2 + sub3 + sub4 + list(self.keyfor[i + 4:]))
+            sub = sub1 + sub2 + sub3 + sub4
+            title = ','.join([csv_field(s) for s in list(self.keyfor[:i]) + sub + list(self.keyfor[i + 4:])])
             title += ',num,den\n'
             with open(filename, 'w', encoding='utf-8') as f:
                 f.write(title)
                 for k, v in self.items():
-                    row = ','.join([str(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
+                    row = ','.join([csv_field(s) for s in k[:i] + k[i] + k[i + 1] + k[i + 2] + k[i + 3] + k[i + 4:]])
                     row += f',{v.numerator},{v.denominator}\n'
                     f.write(row)
         print(f"complete the writing of {filename}.")
-- 
2.43.0

