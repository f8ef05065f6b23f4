From 058028eb423ba363004d7a0fe541a4bda76a6180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 01/90] fix: comparing two monomials of constant ratio returns
 False instead of raising PrimalInfeasible

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index d9142b1..2278adf 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -336,7 +336,7 @@ class Monomial(Posynomial):
         if isinstance(other, MONS):
             try:  # if both are monomials, return a constraint
                 return MonomialEquality(self, other)
-            except (DimensionalityError, ValueError) as e:
+            except (DimensionalityError, ValueError, PrimalInfeasible) as e:
                 print("Infeasible monomial equality: %s" % e)
                 return False
         return super().__eq__(other)
-- 
2.43.0


From 3be910623e9b03cdaa6627bac3cb7f248e50297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:38 +0000
Subject: [PATCH 02/90] fix: comparing a monomial with a nonpositive number is
 False instead of an error

---
 gpkit/nomials/math.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 2278adf..f0c0e66 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -333,7 +333,8 @@ class Monomial(Posynomial):
         return NotImplemented
 
     def __eq__(self, other):
-        if isinstance(other, MONS):
+        if (isinstance(other, Monomial)
+                or isinstance(other, Numbers) and mag(other) > 0):
             try:  # if both are monomials, return a constraint
                 return MonomialEquality(self, other)
             except (DimensionalityError, ValueError, PrimalInfeasible) as e:
@@ -354,9 +355,6 @@ class Monomial(Posynomial):
         return self
 
 
-MONS = Numbers + (Monomial,)
-
-
 #######################################################
 ####### CONSTRAINTS ###################################
 #######################################################
-- 
2.43.0


From 7fa472a2e92c255e95a8dd62845063129bcfe221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 03/90] fix: powers of posynomials print their exponent, and
 the zeroth power is one

---
 gpkit/nomials/math.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index f0c0e66..77fe8c5 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -236,10 +236,9 @@ class Signomial(Nomial):
 
     def __pow__(self, expo):
         if isinstance(expo, int) and expo >= 0:
-            p = 1
-            while expo > 0:
+            p = 1 if expo else Signomial(1)
+            for _ in range(expo):
                 p *= self
-                expo -= 1
             p.ast = ("pow", (self, expo))
             return p
         return NotImplemented
-- 
2.43.0


From 600b59ba5a0ab788f18dd76be8c20e425f9fa553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:39 +0000
Subject: [PATCH 04/90] fix: expressions whose terms all cancel are zero and
 can be computed with

---
 gpkit/nomials/map.py  | 2 ++
 gpkit/nomials/math.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5c05a6a..18fa799 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -60,6 +60,8 @@ class NomialMap(HashVector):
             except (TypeError, AttributeError):  # if one of those is None
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
+        if len(hmap) > 1 and not hmap.get(EMPTY_HV, 1):
+            del hmap[EMPTY_HV]  # remove zeros left by cancellation
         hmap.units = self.units
         return hmap
 
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 77fe8c5..69a978a 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -54,6 +54,8 @@ class Signomial(Nomial):
                 raise ValueError("Nomial construction accepts only NomialMaps,"
                                  " objects with an .hmap attribute, numbers,"
                                  " or *(exp dict of strings, number).")
+        if not hmap:  # all terms cancelled, so it's zero
+            hmap[EMPTY_HV] = 0.0
         super().__init__(hmap)
         if self.any_nonpositive_cs:
             if require_positive and not SignomialsEnabled:
-- 
2.43.0


From 45c74acf30496b808819dee6320a238510f20acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:22 +0000
Subject: [PATCH 05/90] fix: dividing an expression by a numpy integer works
 instead of raising ValueError

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 69a978a..ec67361 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -229,7 +229,7 @@ class Signomial(Nomial):
     def __truediv__(self, other):
         "Support the / operator in Python 2.x"
         if isinstance(other, Numbers):
-            out = self*other**-1
+            out = self*(1/other)
             out.ast = ("div", (self, other))
             return out
         if isinstance(other, Monomial):
-- 
2.43.0


From 320715021a59588ea31d0c907b20822fbc42f87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 06/90] fix: dividing zero by a monomial returns zero instead
 of raising AttributeError

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index ec67361..3cf243d 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -315,7 +315,8 @@ class Monomial(Posynomial):
         "Divide other by this Monomial"
         if isinstance(other, Numbers + (Signomial,)):
             out = other * self**-1
-            out.ast = ("div", (other, self))
+            if isinstance(out, Signomial):  # zero divided is just the number
+                out.ast = ("div", (other, self))
             return out
         return NotImplemented
 
-- 
2.43.0


From aa65f3440dfe16f73c897827b8b1a2b9afe48f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:43 +0000
Subject: [PATCH 07/90] fix: unit conversions are cached by unit, not by the id
 of a possibly deleted unit

---
 gpkit/units.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/units.py b/gpkit/units.py
index 39c3f18..08ad431 100644
--- a/gpkit/units.py
+++ b/gpkit/units.py
@@ -34,7 +34,7 @@ class GPkitUnits:
         "Cached unit division. Requires Quantity inputs."
         if numerator.units is denominator.units:
             return 1
-        key = (id(numerator.units), id(denominator.units))
+        key = (numerator.units, denominator.units)
         try:
             return self.division_cache[key]
         except KeyError:
-- 
2.43.0


From 503744007acad7e2d174303deae0d55487f8d3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:50 +0000
Subject: [PATCH 08/90] fix: dimensionless units such as percent or radians can
 be added to plain numbers

---
 gpkit/nomials/map.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 18fa799..b37c26b 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -56,8 +56,9 @@ class NomialMap(HashVector):
         "Adds NomialMaps together"
         if self.units != other.units:
             try:
-                other *= float(other.units/self.units)
-            except (TypeError, AttributeError):  # if one of those is None
+                other *= float((other.units or DIMLESS_QUANTITY)
+                               / (self.units or DIMLESS_QUANTITY))
+            except DimensionalityError:
                 raise DimensionalityError(self.units, other.units)
         hmap = HashVector.__add__(self, other)
         if len(hmap) > 1 and not hmap.get(EMPTY_HV, 1):
-- 
2.43.0


From ab802104f4acc0dc08c55789e8cb27ef0f7a3fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:39 +0000
Subject: [PATCH 09/90] fix: normalising an inequality no longer drops terms
 when a shifted exponent collides with another term's

---
 gpkit/nomials/math.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 3cf243d..ce2bda0 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -457,9 +457,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         except ValueError:
             raise TypeError("greater-than side '%s' is not monomial." % m_gt)
         m_c *= units.of_division(m_gt, p_lt)
-        hmap = p_lt.hmap.copy()
-        for exp in list(hmap):
-            hmap[exp-m_exp] = hmap.pop(exp)/m_c
+        hmap = NomialMap()  # not in place: exp-m_exp might be another term's exp
+        for exp, c in p_lt.hmap.items():
+            hmap[exp-m_exp] = c/m_c
         hmap = self._simplify_posy_ineq(hmap)
         return [Posynomial(hmap)] if hmap else []
 
-- 
2.43.0


From cc8afbeb5078aa6c2047deafe354f9b58369270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:00 +0000
Subject: [PATCH 10/90] fix: monomial approximation about a point given as
 quantities uses them in the variables' units

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index ce2bda0..7a62126 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -10,6 +10,7 @@ from ..small_classes import Numbers
 from ..small_classes import HashVector, EMPTY_HV
 from ..varkey import VarKey
 from ..small_scripts import mag
+from ..keydict import clean_value
 from ..exceptions import (InvalidGPConstraint, InvalidPosynomial,
                           PrimalInfeasible, DimensionalityError)
 from .map import NomialMap
@@ -123,7 +124,7 @@ class Signomial(Nomial):
         c0, = psub.values()
         c, exp = c0, HashVector()
         for vk in self.vks:
-            val = float(x0[vk])
+            val = float(clean_value(vk, x0[vk]))
             diff, = self.hmap.diff(vk).sub(x0, self.vks,
                                            parsedsubs=True).values()
             e = val*diff/c0
-- 
2.43.0


From c4ec0e7dee0cfbde112ffffd39bd01e3c59bb8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:34 +0000
Subject: [PATCH 11/90] fix: leaving a nested signomial-enabled block restores
 the enclosing block's setting

---
 gpkit/globals.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/gpkit/globals.py b/gpkit/globals.py
index 62b5bff..088a0de 100644
--- a/gpkit/globals.py
+++ b/gpkit/globals.py
@@ -65,9 +65,16 @@ class SignomialsEnabled(metaclass=SignomialsEnabledMeta):  # pylint: disable=no-
         >>> gpkit.Model(x, constraints).localsolve()
     """
     _true = False  # default signomial permissions
-    # pylint: disable=multiple-statements
-    def __enter__(self): SignomialsEnabled._true = True
-    def __exit__(self, type_, val, traceback): SignomialsEnabled._true = False
+
+    def __init__(self):
+        self._outer = []  # settings to be restored on exit
+
+    def __enter__(self):
+        self._outer.append(SignomialsEnabled._true)
+        SignomialsEnabled._true = True
+
+    def __exit__(self, type_, val, traceback):
+        SignomialsEnabled._true = self._outer.pop()
 
 
 class Vectorize:
-- 
2.43.0


From 60a7effe7c9d482a10fc630944970f565366dbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:57 +0000
Subject: [PATCH 12/90] fix: a constraint whose constant leaves no room for its
 other terms is infeasible instead of a ZeroDivisionError

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 7a62126..0c5da43 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -430,7 +430,7 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
-        if coeff < -self.feastol:
+        if coeff < -self.feastol or coeff <= 0:
             msg = "'%s' is infeasible by %.2g%%" % (self, -coeff*100)
             if fixed:
                 msg += " after substituting %s." % fixed
-- 
2.43.0


From d11a702965db5e3f4cc921ee1133280d1d019969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:17 +0000
Subject: [PATCH 13/90] fix: a signomial inequality that is infeasible at the
 default guess can still be made

---
 gpkit/nomials/math.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0c5da43..e6ebfca 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -577,7 +577,10 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
         self.unsubbed = [plt - pgt]
-        self.bounded = self.as_gpconstr({}).bounded
+        try:
+            self.bounded = self.as_gpconstr({}).bounded
+        except PrimalInfeasible:  # at the default guess, but maybe not at others
+            self.bounded = set()
 
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
-- 
2.43.0


From 0235393a170b5d24e250ac93ed5d41b688aa64f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:42 +0000
Subject: [PATCH 14/90] fix: integer-valued monomials can be raised to negative
 numpy integers

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index e6ebfca..0504813 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -325,7 +325,7 @@ class Monomial(Posynomial):
         if isinstance(expo, Numbers):
             (exp, c), = self.hmap.items()
             exp = exp*expo if expo else EMPTY_HV
-            hmap = NomialMap({exp: c**expo})
+            hmap = NomialMap({exp: float(c)**expo})
             if expo and self.hmap.units:
                 hmap.units = self.hmap.units**expo
             else:
-- 
2.43.0


From 11bb8192d7327e85d2b76d9b2614a8aa2d0cdd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:09 +0000
Subject: [PATCH 15/90] fix: solver options given to one solve no longer become
 defaults for later ones

---
 gpkit/constraints/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 06ed88b..4ab5d5c 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -189,7 +189,7 @@ class GeometricProgram:
             print(" for %i free variables" % len(self.varlocs))
             print("  in %i posynomial inequalities." % len(self.k))
 
-        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {})
+        solverargs = DEFAULT_SOLVER_KWARGS.get(solvername, {}).copy()
         solverargs.update(kwargs)
         starttime = time()
         solver_out, infeasibility, original_stdout = {}, None, sys.stdout
-- 
2.43.0


From a494fec8f402f81b3376bea9367b65f2bcb28a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:13 +0000
Subject: [PATCH 16/90] fix: cost sensitivities are right when substitution
 merges, reorders or drops cost terms

---
 gpkit/constraints/gp.py | 8 +++++++-
 gpkit/nomials/map.py    | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 4ab5d5c..e5d7ba7 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -69,6 +69,7 @@ class GeometricProgram:
     >>> gp.solve()
     """
     _result = solve_log = solver_out = model = v_ss = nu_by_posy = None
+    cost_pmap = ()
 
     def __init__(self, cost, constraints, substitutions, *, checkbounds=True):
         self.cost, self.substitutions = cost, substitutions
@@ -82,6 +83,7 @@ class GeometricProgram:
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
+        self.cost_pmap = cost_hmap.mmap(cost.hmap)
         if any(c <= 0 for c in cost_hmap.values()):
             raise InvalidPosynomial("a GP's cost must be Posynomial")
         hmapgen = ConstraintSet.as_hmapslt1(constraints, self.substitutions)
@@ -304,7 +306,11 @@ class GeometricProgram:
         result["variables"].update(result["constants"])
         result["sensitivities"] = {"constraints": {}}
         la, self.nu_by_posy = self._generate_nula(solver_out)
-        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(self.nu_by_posy[0],
+        cost_nu = np.zeros(len(self.cost.hmap))  # of the unsubstituted cost
+        for nu_i, mmap in zip(self.nu_by_posy[0], self.cost_pmap):
+            for idx, fraction in mmap.items():
+                cost_nu[idx] += fraction*nu_i
+        cost_senss = sum(nu_i*exp for (nu_i, exp) in zip(cost_nu,
                                                          self.cost.hmap))
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index b37c26b..f5ce4b7 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -109,8 +109,7 @@ class NomialMap(HashVector):
             fixed, _, _ = parse_subs(varkeys, substitutions)
 
         if not fixed:
-            if not self.expmap:
-                self.expmap, self.csmap = {exp: exp for exp in self}, {}
+            self.expmap, self.csmap = {exp: exp for exp in self}, {}
             return self
 
         cp = NomialMap()
-- 
2.43.0


From 4b5020f053af583e4d65eec7d87263547ab58a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 17/90] fix: cost sensitivities of linked variables carry over
 to every constant without disturbing its total

---
 gpkit/constraints/gp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index e5d7ba7..ab0c591 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -331,6 +331,7 @@ class GeometricProgram:
         # carry linked sensitivities over to their constants
         for v in list(v for v in gpv_ss if v.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
+            directsens = cost_senss.pop(v, None)
             val = np.array(result["constants"][v])
             for c, dv_dc in v.gradients.items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
@@ -338,11 +339,9 @@ class GeometricProgram:
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
                     before = gpv_ss.get(c, 0)
                     gpv_ss[c] = before + dlogcost_dlogv*dlogv_dlogc
-                if v in cost_senss:
-                    if c in self.cost.vks:
-                        dlogcost_dlogv = cost_senss.pop(v)
-                        before = cost_senss.get(c, 0)
-                        cost_senss[c] = before + dlogcost_dlogv*dlogv_dlogc
+                if directsens is not None:
+                    before = cost_senss.get(c, 0)
+                    cost_senss[c] = before + directsens*dlogv_dlogc
         result["sensitivities"]["cost"] = cost_senss
         result["sensitivities"]["variables"] = KeyDict(gpv_ss)
         result["sensitivities"]["constants"] = \
-- 
2.43.0


From fe2b9e2b12844adefabc63a8b867715e42ec6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:24 +0000
Subject: [PATCH 18/90] fix: a variable that was linked in an earlier solve
 keeps its own sensitivity once fixed directly

---
 gpkit/constraints/gp.py             |  6 ++++--
 gpkit/constraints/prog_factories.py | 11 +++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index ab0c591..cbe9910 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -82,6 +82,8 @@ class GeometricProgram:
             if not isinstance(sub, (Numbers, np.ndarray)):
                 raise TypeError("substitution {%s: %s} has invalid value type"
                                 " %s." % (key, sub, type(sub)))
+        self.gradients = {key: key.gradients for key in self.substitutions
+                          if getattr(key, "gradients", None)}
         cost_hmap = cost.hmap.sub(self.substitutions, cost.vks)
         self.cost_pmap = cost_hmap.mmap(cost.hmap)
         if any(c <= 0 for c in cost_hmap.values()):
@@ -329,11 +331,11 @@ class GeometricProgram:
             m_senss[lineagestr(vk)] += abs(senss)
         result["sensitivities"]["models"] = dict(m_senss)
         # carry linked sensitivities over to their constants
-        for v in list(v for v in gpv_ss if v.gradients):
+        for v in list(v for v in gpv_ss if v in self.gradients):
             dlogcost_dlogv = gpv_ss.pop(v)
             directsens = cost_senss.pop(v, None)
             val = np.array(result["constants"][v])
-            for c, dv_dc in v.gradients.items():
+            for c, dv_dc in self.gradients[v].items():
                 with warnings.catch_warnings():  # skip pesky divide-by-zeros
                     warnings.simplefilter("ignore")
                     dlogv_dlogc = dv_dc * result["constants"][c]/val
diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 3468b0c..551a52c 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -11,6 +11,11 @@ from ..exceptions import Infeasible
 
 def evaluate_linked(constants, linked):
     "Evaluates the values and gradients of linked variables."
+    for v in constants:
+        if v not in linked:  # it may have been when last solved
+            v.descr.pop("gradients", None)
+    if not linked:
+        return
     kdc = KeyDict({k: adnumber(maybe_flatten(v), k)
                    for k, v in constants.items()})
     kdc_plain = None
@@ -56,8 +61,7 @@ def progify(program, return_attr=None):
         "Return program version of self"
         if not constants:
             constants, _, linked = parse_subs(self.varkeys, self.substitutions)
-            if linked:
-                evaluate_linked(constants, linked)
+            evaluate_linked(constants, linked)
         prog = program(self.cost, self, constants, **initargs)
         prog.model = self  # NOTE SIDE EFFECTS
         if return_attr:
@@ -138,8 +142,7 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
     for i in range(N_passes):
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
-        if linked:
-            evaluate_linked(constants, linked)
+        evaluate_linked(constants, linked)
         program, solvefn = genfunction(self, constants)
         self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
-- 
2.43.0


From 6158cf759d2c262b3904dd5d5f154ed2212ed3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:26 +0000
Subject: [PATCH 19/90] fix: substituted constraints' maps for sensitivities
 belong to each program, not to the constraint object

---
 gpkit/constraints/gp.py |  4 +++-
 gpkit/nomials/map.py    | 17 +++++++++++++++++
 gpkit/nomials/math.py   | 26 ++++++++------------------
 3 files changed, 28 insertions(+), 19 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index cbe9910..4e735d4 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -317,6 +317,7 @@ class GeometricProgram:
         gpv_ss = cost_senss.copy()
         m_senss = defaultdict(float)
         for las, nus, c in zip(la[1:], self.nu_by_posy[1:], self.hmaps[1:]):
+            nus = c.presub_nu(las, nus)
             while getattr(c, "parent", None) is not None:
                 c = c.parent
             v_ss, c_senss = c.sens_from_dual(las, nus, result)
@@ -324,7 +325,8 @@ class GeometricProgram:
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
             while getattr(c, "generated_by", None):
                 c = c.generated_by
-            result["sensitivities"]["constraints"][c] = abs(c_senss)
+            before = result["sensitivities"]["constraints"].get(c, 0)
+            result["sensitivities"]["constraints"][c] = before + abs(c_senss)
             m_senss[lineagestr(c)] += abs(c_senss)
         # add fixed variables sensitivities to models
         for vk, senss in gpv_ss.items():
diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index f5ce4b7..1eaedd3 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -21,6 +21,9 @@ class NomialMap(HashVector):
     units = None
     expmap = None  # used for monomial-mapping postsubstitution; see .mmap()
     csmap = None   # used for monomial-mapping postsubstitution; see .mmap()
+    pmap = None    # map back to the presubstitution monomials, from .mmap()
+    const_mmap = const_coeff = None  # the same for a constant moved out of it
+    n_presub = None  # how many presubstitution monomials there were
 
     def copy(self):
         "Return a copy of this"
@@ -165,6 +168,20 @@ class NomialMap(HashVector):
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
         return pmap
 
+    def presub_nu(self, la, nu):
+        "Maps monomial sensitivities back to the presubstitution monomials."
+        if self.pmap is None:
+            return nu
+        nu_ = np.zeros(self.n_presub)
+        for i, mmap in enumerate(self.pmap):
+            for idx, percentage in mmap.items():
+                nu_[idx] += percentage*nu[i]
+        if self.const_mmap:
+            scale = (1-self.const_coeff)/self.const_coeff
+            for idx, percentage in self.const_mmap.items():
+                nu_[idx] += percentage * la*scale
+        return nu_
+
 
 # pylint: disable=invalid-name
 def subinplace(cp, exp, o_exp, vk, cval, squished):
diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 0504813..035375c 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -422,12 +422,9 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
     def _simplify_posy_ineq(self, hmap, pmap=None, fixed=None):
         "Simplify a posy <= 1 by moving constants to the right side."
         if EMPTY_HV not in hmap:
+            hmap.pmap, hmap.const_mmap = pmap, None
             return hmap
         coeff = 1 - hmap[EMPTY_HV]
-        if pmap is not None:  # note constant term's mmap
-            const_idx = list(hmap.keys()).index(EMPTY_HV)
-            self.const_mmap = self.pmap.pop(const_idx)  # pylint: disable=attribute-defined-outside-init
-            self.const_coeff = coeff  # pylint: disable=attribute-defined-outside-init
         if coeff >= -self.feastol and len(hmap) == 1:
             return None   # a tautological monomial!
         if coeff < -self.feastol or coeff <= 0:
@@ -437,6 +434,10 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
             raise PrimalInfeasible(msg)
         scaled = hmap/coeff
         scaled.units = hmap.units
+        if pmap is not None:  # note constant term's mmap
+            scaled.const_mmap = pmap.pop(list(hmap.keys()).index(EMPTY_HV))
+            scaled.const_coeff = coeff
+            scaled.pmap = pmap
         del scaled[EMPTY_HV]
         return scaled
 
@@ -470,10 +471,11 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
         for posy in self.unsubbed:
             fixed, _, _ = parse_subs(posy.vks, substitutions, clean=True)
             hmap = posy.hmap.sub(fixed, posy.vks, parsedsubs=True)
-            self.pmap = hmap.mmap(posy.hmap)  # pylint: disable=attribute-defined-outside-init
+            pmap = hmap.mmap(posy.hmap)
             del hmap.expmap, hmap.csmap  # needed only for the mmap call above
-            hmap = self._simplify_posy_ineq(hmap, self.pmap, fixed)
+            hmap = self._simplify_posy_ineq(hmap, pmap, fixed)
             if hmap is not None:
+                hmap.n_presub = len(posy.hmap)
                 if any(c <= 0 for c in hmap.values()):
                     raise InvalidGPConstraint("'%s' became Signomial after sub"
                                               "stituting %s" % (self, fixed))
@@ -484,18 +486,6 @@ class PosynomialInequality(ScalarSingleEquationConstraint):
     def sens_from_dual(self, la, nu, _):
         "Returns the variable/constraint sensitivities from lambda/nu"
         presub, = self.unsubbed
-        if hasattr(self, "pmap"):
-            nu_ = np.zeros(len(presub.hmap))
-            for i, mmap in enumerate(self.pmap):
-                for idx, percentage in mmap.items():
-                    nu_[idx] += percentage*nu[i]
-            del self.pmap  # not needed after dual has been derived
-            if hasattr(self, "const_mmap"):
-                scale = (1-self.const_coeff)/self.const_coeff
-                for idx, percentage in self.const_mmap.items():
-                    nu_[idx] += percentage * la*scale
-                del self.const_mmap  # not needed after dual has been derived
-            nu = nu_
         self.v_ss = HashVector()
         if self.parent:
             self.parent.v_ss = self.v_ss
-- 
2.43.0


From f768722ad6cd91a7a32d66cbd7d8859b2b8db625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:17 +0000
Subject: [PATCH 20/90] fix: a variable on both sides of a signomial constraint
 is counted once in its sensitivity

---
 gpkit/nomials/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 035375c..6121207 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -607,8 +607,7 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         self._negysig = Signomial(negy_hmap, require_positive=False)
         self._coeffsigs = {exp: Signomial(hmap, require_positive=False)
                            for exp, hmap in posy_hmaps.items()}
-        self._sigvars = {exp: (list(self._negysig.vks)
-                               + list(sig.vks))
+        self._sigvars = {exp: set(self._negysig.vks).union(sig.vks)
                          for exp, sig in self._coeffsigs.items()}
         return p_ineq.as_hmapslt1(substitutions)
 
-- 
2.43.0


From 0771e51561d0207b9b2446a9aa263e07350e8424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 21/90] fix: redundant equalities are solvable with cvxopt, and
 contradictory ones primal infeasible

---
 gpkit/solvers/cvxopt.py | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/gpkit/solvers/cvxopt.py b/gpkit/solvers/cvxopt.py
index 5df673e..a79e0b2 100644
--- a/gpkit/solvers/cvxopt.py
+++ b/gpkit/solvers/cvxopt.py
@@ -1,8 +1,20 @@
 "Implements the GPkit interface to CVXOPT"
 import numpy as np
-from cvxopt import spmatrix, matrix
+from cvxopt import spmatrix, sparse, matrix
 from cvxopt.solvers import gp
-from gpkit.exceptions import UnknownInfeasible, DualInfeasible
+from gpkit.exceptions import UnknownInfeasible, PrimalInfeasible, DualInfeasible
+
+
+def independent_rows(A, b, tol=1e-8):
+    "Indexes of rows of A which imply the others, in the system Ax = b"
+    kept = []
+    for i in range(len(A)):
+        if np.linalg.matrix_rank(A[kept+[i]], tol=tol) > len(kept):
+            kept.append(i)
+    x = np.linalg.lstsq(A[kept], b[kept], rcond=None)[0]
+    if np.abs(A.dot(x) - b).max() > tol*(1 + np.abs(b).max()):
+        raise PrimalInfeasible("the equality constraints contradict each other")
+    return kept
 
 
 # pylint: disable=too-many-locals
@@ -79,8 +91,21 @@ def optimize(*, c, A, k, meq_idxs, use_leqs=True, **kwargs):
     g = matrix(log_c_lse)
     try:
         solution = gp(k_lse, F, g, **kwargs)
+        failed = solution["status"] != "optimal"
     except ValueError as e:
-        raise DualInfeasible() from e
+        failed = e
+    if failed and leq_mons:  # are some equalities implied by the others?
+        kept = independent_rows(A_leq.toarray(), -log_c_leq)
+        if len(kept) < len(leq_mons):
+            leq_posys = [leq_posys[i] for i in kept]
+            kwargs["A"] = sparse(matrix(A_leq.toarray()[kept]))
+            kwargs["b"] = matrix(-log_c_leq[kept])
+            try:
+                solution, failed = gp(k_lse, F, g, **kwargs), None
+            except ValueError as e:
+                failed = e
+    if isinstance(failed, ValueError):
+        raise DualInfeasible() from failed
     if solution["status"] != "optimal":
         raise UnknownInfeasible("solution status " + repr(solution["status"]))
     la = np.zeros(len(k))
-- 
2.43.0


From 122f53a4969043bd932ef890e194480e956bc924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:59 +0000
Subject: [PATCH 22/90] fix: terms merged early in a substitution keep their
 sensitivities through the rest of it

---
 gpkit/nomials/map.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 1eaedd3..5586c54 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -208,3 +208,4 @@ def subinplace(cp, exp, o_exp, vk, cval, squished):
     elif exp in squished:
         exp.hashvalue ^= hash((vk, x))  # remove (key, value) from hashvalue
         del exp[vk]
+        squished.add(exp.copy())  # in case there's more to substitute
-- 
2.43.0


From eb330628c46e9611131072cf17c3df5d2d85cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:16 +0000
Subject: [PATCH 23/90] fix: constraints that a zero constant makes vanish are
 dropped instead of a ZeroDivisionError

---
 gpkit/nomials/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/nomials/map.py b/gpkit/nomials/map.py
index 5586c54..56c6f18 100644
--- a/gpkit/nomials/map.py
+++ b/gpkit/nomials/map.py
@@ -161,8 +161,8 @@ class NomialMap(HashVector):
         origexps = list(orig.keys())
         selfexps = list(self.keys())
         for orig_exp, self_exp in self.expmap.items():
-            if self_exp not in self:  # can occur in tautological constraints
-                continue              #     after substitution
+            if not self.get(self_exp):  # can occur in tautological constraints
+                continue                #     after substitution
             fraction = self.csmap.get(orig_exp, orig[orig_exp])/self[self_exp]
             orig_idx = origexps.index(orig_exp)
             pmap[selfexps.index(self_exp)][orig_idx] = fraction
-- 
2.43.0


From 0f702c5682d47b66d572af65a8e8df6b187a5ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:04 +0000
Subject: [PATCH 24/90] fix: signomial inequalities whose terms all cancel on
 one side can be created

---
 gpkit/nomials/math.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 6121207..ef1263e 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -567,10 +567,14 @@ class SignomialInequality(ScalarSingleEquationConstraint):
         else:
             raise ValueError("operator %s is not supported." % self.oper)
         self.unsubbed = [plt - pgt]
-        try:
-            self.bounded = self.as_gpconstr({}).bounded
-        except PrimalInfeasible:  # at the default guess, but maybe not at others
-            self.bounded = set()
+        self.bounded, self.meq_bounded = set(), {}
+        if all(self.unsubbed[0].posy_negy()):  # neither side is zero
+            try:
+                gpconstr = self.as_gpconstr({})
+                self.bounded = gpconstr.bounded
+                self.meq_bounded = gpconstr.meq_bounded
+            except PrimalInfeasible:  # at the default guess, but maybe not at others
+                pass
 
     def as_hmapslt1(self, substitutions):
         "Returns the posys <= 1 representation of this constraint."
@@ -668,7 +672,6 @@ class SingleSignomialEquality(SignomialInequality):
     def __init__(self, left, right):
         SignomialInequality.__init__(self, left, "<=", right)
         self.oper = "="
-        self.meq_bounded = self.as_gpconstr({}).meq_bounded
 
     def as_hmapslt1(self, substitutions):
         "SignomialEquality is never considered GP-compatible"
-- 
2.43.0


From 5028b45e646ddb99b9edce88027f6b9653f97c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:07 +0000
Subject: [PATCH 25/90] fix: localsolve's x0 is found by variable or name,
 never overrides constants, and may change the approximations' sizes

---
 gpkit/constraints/sgp.py | 102 ++++++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 39 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 3217212..b6875e1 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -5,8 +5,8 @@ from collections import defaultdict
 import numpy as np
 from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
-from ..keydict import KeyDict
-from ..nomials import Variable
+from ..keydict import KeyDict, clean_value
+from ..nomials import Variable, parse_subs
 from .gp import GeometricProgram
 from ..nomials import PosynomialInequality, Posynomial
 from .. import NamedVariables
@@ -63,7 +63,6 @@ class SequentialGeometricProgram:
         else:
             self.gpconstraints.append(self.slack >= 1)
         cost *= self.slack**pccp_penalty
-        self.approxconstraints = []
         self.sgpvks = set()
         x0 = KeyDict(substitutions)
         x0.varkeys = model.varkeys  # for string access and so forth
@@ -78,17 +77,30 @@ class SequentialGeometricProgram:
                 if not hasattr(cs, "as_gpconstr"):
                     raise InvalidSGPConstraint(cs)
                 self.sgpconstraints.append(cs)
-                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({}):
-                    constraint = (Posynomial(hmaplt1) <= self.slack)
-                    constraint.generated_by = cs
-                    self.approxconstraints.append(constraint)
-                    self.sgpvks.update(constraint.vks)
+                for sig in getattr(cs, "unsubbed", ()):
+                    self.sgpvks.update(sig.vks)
         if not self.sgpconstraints:
             raise UnnecessarySGP("""Model valid as a Geometric Program.
 
 SequentialGeometricPrograms should only be created with Models containing
 Signomial Constraints, since Models without Signomials have global
 solutions and can be solved with 'Model.solve()'.""")
+        self._build(cost, substitutions, x0, self._approximate(x0), checkbounds)
+
+    def _approximate(self, x0):
+        "The signomial constraints and the posynomials approximating them at x0."
+        return [(cs, hmaplt1) for cs in self.sgpconstraints
+                for hmaplt1 in cs.as_gpconstr(x0).as_hmapslt1({})]
+
+    # pylint: disable=too-many-arguments
+    def _build(self, cost, substitutions, x0, approximations, checkbounds):
+        "Creates self._gp from the approximations at x0"
+        self.approxconstraints = []
+        for cs, hmaplt1 in approximations:
+            constraint = (Posynomial(hmaplt1) <= self.slack)
+            constraint.generated_by = cs
+            self.approxconstraints.append(constraint)
+            self.sgpvks.update(constraint.vks)
         self._gp = GeometricProgram(
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
@@ -149,7 +161,7 @@ solutions and can be solved with 'Model.solve()'.""")
                     "Unsolved after %s iterations. Check `m.program.results`;"
                     " if they're converging, try `.localsolve(...,"
                     " iteration_limit=NEWLIMIT)`." % len(self.gps))
-            gp = self.gp(x0, cleanx0=True)
+            gp = self.gp(x0, cleanx0=bool(self.gps))
             self.gps.append(gp)  # NOTE: SIDE EFFECTS
             if verbosity > 1:
                 print("\nGP Solve %i" % len(self.gps))
@@ -217,34 +229,46 @@ solutions and can be solved with 'Model.solve()'.""")
         if not x0:
             return self._gp  # return last generated
         if not cleanx0:
-            x0 = KeyDict(x0)
-        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0})
-        p_idx = 0
-        for sgpc in self.sgpconstraints:
-            for hmaplt1 in sgpc.as_gpconstr(self._gp.x0).as_hmapslt1({}):
-                approxc = self.approxconstraints[p_idx]
-                approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
-                p_idx += 1  # p_idx=0 is the cost; sp constraints are after it
-                hmap, = approxc.as_hmapslt1(self._gp.substitutions)
-                self._gp.hmaps[p_idx] = hmap
-                m_idx = self._gp.m_idxs[p_idx].start
-                a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
-                for i, (exp, c) in enumerate(hmap.items()):
-                    self._gp.exps[m_idx + i] = exp
-                    self._gp.cs[m_idx + i] = c
-                    for var, x in exp.items():
-                        try:  # modify a particular A entry
-                            row_idx = a_idxs.pop()
-                            self._gp.A.row[row_idx] = m_idx + i
-                            self._gp.A.col[row_idx] = self._gp.varidxs[var]
-                            self._gp.A.data[row_idx] = x
-                        except IndexError:  # numbers of exps increased
-                            self.a_idxs[p_idx].append(len(self._gp.A.row))
-                            self._gp.A.row.append(m_idx + i)
-                            self._gp.A.col.append(self._gp.varidxs[var])
-                            self._gp.A.data.append(x)
-                for row_idx in a_idxs:  # number of exps decreased
-                    self._gp.A.row[row_idx] = 0  # zero out this entry
-                    self._gp.A.col[row_idx] = 0
-                    self._gp.A.data[row_idx] = 0
+            x0, _, _ = parse_subs(self.model.varkeys if self.model else
+                                  self.sgpvks, x0)
+            x0 = {vk: clean_value(vk, value) for vk, value in x0.items()}
+        self._gp.x0.update({vk: x0[vk] for vk in self.sgpvks if vk in x0
+                            and vk not in self._gp.substitutions})
+        approximations = self._approximate(self._gp.x0)
+        hmaps = []
+        for approxc, (_, hmaplt1) in zip(self.approxconstraints,
+                                         approximations):
+            approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
+            hmaps.extend(approxc.as_hmapslt1(self._gp.substitutions))
+        if (len(approximations) != len(self.approxconstraints)
+                or [len(hmap) for hmap in hmaps]
+                != self._gp.k[1:1+len(approximations)]
+                or any(var not in self._gp.varidxs
+                       for hmap in hmaps for exp in hmap for var in exp)):
+            # too different from the last approximations to update them
+            self._build(self._gp.cost, self._gp.substitutions, self._gp.x0,
+                        approximations, checkbounds=False)
+            return self._gp
+        for p_idx, hmap in enumerate(hmaps, start=1):  # p_idx=0 is the cost
+            self._gp.hmaps[p_idx] = hmap
+            m_idx = self._gp.m_idxs[p_idx].start
+            a_idxs = list(self.a_idxs[p_idx])  # A's entries we can modify
+            for i, (exp, c) in enumerate(hmap.items()):
+                self._gp.exps[m_idx + i] = exp
+                self._gp.cs[m_idx + i] = c
+                for var, x in exp.items():
+                    try:  # modify a particular A entry
+                        row_idx = a_idxs.pop()
+                        self._gp.A.row[row_idx] = m_idx + i
+                        self._gp.A.col[row_idx] = self._gp.varidxs[var]
+                        self._gp.A.data[row_idx] = x
+                    except IndexError:  # numbers of exps increased
+                        self.a_idxs[p_idx].append(len(self._gp.A.row))
+                        self._gp.A.row.append(m_idx + i)
+                        self._gp.A.col.append(self._gp.varidxs[var])
+                        self._gp.A.data.append(x)
+            for row_idx in a_idxs:  # number of exps decreased
+                self._gp.A.row[row_idx] = 0  # zero out this entry
+                self._gp.A.col[row_idx] = 0
+                self._gp.A.data[row_idx] = 0
         return self._gp
-- 
2.43.0


From 0d40442430221c452955be4d103c2e24e181e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:57 +0000
Subject: [PATCH 26/90] fix: a scalar quantity can be substituted for a
 vector's element

---
 gpkit/nomials/substitution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index 4e26b9a..fa44fb6 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -38,7 +38,8 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
     if sweepsub:  # if the whole key is swept
         sub = sweepval
     for key in keys:
-        if not key.shape or not getattr(sub, "shape", hasattr(sub, "__len__")):
+        mag = getattr(sub, "magnitude", sub)  # scalar Quantities have __len__
+        if not key.shape or not getattr(mag, "shape", hasattr(mag, "__len__")):
             value = sub
         else:
             with pywarnings.catch_warnings():
-- 
2.43.0


From 4e5e21a5d3819924c170284c3eade4c2b37edef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:18 +0000
Subject: [PATCH 27/90] fix: approximations that constants make always true do
 not displace other constraints

---
 gpkit/constraints/sgp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index b6875e1..9bfb072 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -105,11 +105,14 @@ solutions and can be solved with 'Model.solve()'.""")
             cost, self.approxconstraints + self.gpconstraints,
             substitutions, checkbounds=checkbounds)
         self._gp.x0 = x0
+        approx_ids = {id(constraint) for constraint in self.approxconstraints}
+        self.approx_k = [len(hmap) for hmap in self._gp.hmaps[1:]
+                         if id(getattr(hmap, "parent", None)) in approx_ids]
         self.a_idxs = defaultdict(list)
         cost_mons = self._gp.k[0]
-        sp_mons = sum(self._gp.k[:1+len(self.approxconstraints)])
+        sp_mons = cost_mons + sum(self.approx_k)
         for row_idx, m_idx in enumerate(self._gp.A.row):
-            if cost_mons <= m_idx <= sp_mons:
+            if cost_mons <= m_idx < sp_mons:
                 self.a_idxs[self._gp.p_idxs[m_idx]].append(row_idx)
 
     # pylint: disable=too-many-locals,too-many-branches,too-many-statements
@@ -241,8 +244,7 @@ solutions and can be solved with 'Model.solve()'.""")
             approxc.unsubbed = [Posynomial(hmaplt1)/self.slack]
             hmaps.extend(approxc.as_hmapslt1(self._gp.substitutions))
         if (len(approximations) != len(self.approxconstraints)
-                or [len(hmap) for hmap in hmaps]
-                != self._gp.k[1:1+len(approximations)]
+                or [len(hmap) for hmap in hmaps] != self.approx_k
                 or any(var not in self._gp.varidxs
                        for hmap in hmaps for exp in hmap for var in exp)):
             # too different from the last approximations to update them
-- 
2.43.0


From dd5637441fc38e9e8141f7b023ff7fdcd15f22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:26 +0000
Subject: [PATCH 28/90] fix: KeyDict keeps exact values, its own arrays, and
 consistent keys after deletions

---
 gpkit/keydict.py           | 116 ++++++++++++++++++++++---------------
 gpkit/nomials/variables.py |   2 +-
 2 files changed, 70 insertions(+), 48 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index bc86f5d..cbe86c6 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -6,7 +6,6 @@ from .small_classes import Numbers, Quantity, FixedScalar
 from .small_scripts import is_sweepvar, isnan
 
 DIMLESS_QUANTITY = Quantity(1, "dimensionless")
-INT_DTYPE = np.dtype(int)
 
 def clean_value(key, value):
     """Gets the value of variable-less monomials, so that
@@ -22,6 +21,11 @@ def clean_value(key, value):
     return value
 
 
+def clean_array(value):
+    "Returns a copy of an array, as floats if it was of any kind of numbers."
+    return np.array(value, float if value.dtype.kind in "biuf" else None)
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -142,13 +146,20 @@ class KeyDict(KeyMap, dict):
         if not hasattr(self, "owned"):  # backwards pickle compatibility
             self.owned = set()
         if key not in self.owned:
-            super().__setitem__(key, super().__getitem__(key).copy())
+            value = super().__getitem__(key)
+            if hasattr(value, "copy"):
+                super().__setitem__(key, value.copy())
             self.owned.add(key)
 
     def update(self, *args, **kwargs):
         "Iterates through the dictionary created by args and kwargs"
         if not self and len(args) == 1 and isinstance(args[0], KeyDict):
             super().update(args[0])
+            for key in getattr(args[0], "owned", ()):
+                if hasattr(super().get(key), "shape"):
+                    # it may be written to in place, so can't be shared
+                    super().__setitem__(key, super().__getitem__(key).copy())
+                    self.owned.add(key)
             self.keymap.update(args[0].keymap)
             self._unmapped_keys.update(args[0]._unmapped_keys)  # pylint:disable=protected-access
         else:
@@ -174,7 +185,7 @@ class KeyDict(KeyMap, dict):
             raise KeyError(key)
         got = {}
         for k in keys:
-            if not idx and k.shape:
+            if not idx and getattr(k, "shape", None):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
@@ -200,6 +211,14 @@ class KeyDict(KeyMap, dict):
             for subkey, subval in zip(key.flat, value.flat):
                 self[subkey] = subval
             return
+        if not hasattr(key, "key"):  # not a keyed object
+            keys = [k for k in self.keymap.get(key, ()) if hasattr(k, "key")]
+            for k in keys:
+                self[k] = value
+            if not keys:
+                self.keymap[key].add(key)
+                super().__setitem__(key, value)
+            return
         value = clean_value(key, value)
         if key not in self.keymap:
             if not hasattr(self, "_unmapped_keys"):
@@ -208,8 +227,8 @@ class KeyDict(KeyMap, dict):
             self._unmapped_keys.add(key)
             if idx:
                 dty = {} if isinstance(value, Numbers) else {"dtype": "object"}
-                if getattr(value, "shape", None) and value.dtype != INT_DTYPE:
-                    dty["dtype"] = value.dtype
+                if getattr(value, "shape", None):
+                    dty["dtype"] = clean_array(value).dtype
                 dict.__setitem__(self, key, np.full(key.shape, np.nan, **dty))
                 self.owned.add(key)
         if idx:
@@ -224,59 +243,62 @@ class KeyDict(KeyMap, dict):
             super().__getitem__(key)[idx] = value
             return  # successfully set a single index!
         if key.shape: # now if we're setting an array...
-            if getattr(value, "shape", None):   # is the value an array?
-                if value.dtype == INT_DTYPE:
-                    value = np.array(value, "f")  # convert to float
-                if dict.__contains__(self, key):
-                    old = super().__getitem__(key)
-                    if old.dtype != value.dtype:
-                        # e.g. replacing a number with a linked function
-                        newly_typed_array = np.array(old, dtype=value.dtype)
-                        super().__setitem__(key, newly_typed_array)
-                        self.owned.add(key)
-                    self._copyonwrite(key)
-                    goodvals = ~isnan(value)
-                    super().__getitem__(key)[goodvals] = value[goodvals]
-                    return  # successfully set only some indexes!
-            elif not is_sweepvar(value): # or needs to be made one?
+            if not getattr(value, "shape", None) and not is_sweepvar(value):
+                # does the value need to be made an array?
                 if not hasattr(value, "__len__"):
-                    value = np.full(key.shape, value, "f")
+                    value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
                     value = np.array([clean_value(key, v) for v in value])
+            if getattr(value, "shape", None):   # is the value an array?
+                value = clean_array(value)
+                old = super().get(key)
+                if getattr(old, "shape", None) == value.shape:
+                    goodvals = ~isnan(value)
+                    if old.dtype != value.dtype:
+                        # e.g. replacing a linked function with a number
+                        if not goodvals.all():
+                            value = np.array(value, dtype="object")
+                            value[~goodvals] = old[~goodvals]
+                    else:
+                        self._copyonwrite(key)
+                        super().__getitem__(key)[goodvals] = value[goodvals]
+                        return  # successfully set only some indexes!
         super().__setitem__(key, value)
         self.owned.add(key)
 
     def __delitem__(self, key):
         "Overloads del [] to work with all keys"
-        if not hasattr(key, "key"):  # not a keyed object
+        try:
+            key, idx = self.parse_and_index(key)
+        except ValueError:  # multiple keys correspond
             self.update_keymap()
-            keys = self.keymap[key]
+            idx = None
+        if not hasattr(key, "key"):  # not a keyed object
+            keys = self.keymap.get(key)
             if not keys:
                 raise KeyError(key)
-            for k in keys:
-                del self[k]
-        else:
-            key = key.key
-            veckey, idx = self.parse_and_index(key)
-            if idx is None:
-                super().__delitem__(key)
-            else:
-                super().__getitem__(veckey)[idx] = np.nan
-                if isnan(super().__getitem__(veckey)).all():
-                    super().__delitem__(veckey)
-            copiedonwrite = set()  # to save time, .update() does not copy
-            mapkeys = set([key])
-            if key.keys:
-                mapkeys.update(key.keys)
-            for mapkey in mapkeys:
-                if mapkey in self.keymap:
-                    if len(self.keymap[mapkey]) == 1:
-                        del self.keymap[mapkey]
-                        continue
-                    if mapkey not in copiedonwrite:
-                        self.keymap[mapkey] = set(self.keymap[mapkey])
-                        copiedonwrite.add(mapkey)
-                    self.keymap[mapkey].remove(key)
+            for k in list(keys):
+                if hasattr(k, "key"):
+                    del self[k]
+                else:
+                    super().__delitem__(k)
+                    del self.keymap[k]
+            return
+        if idx is not None:
+            self._copyonwrite(key)
+            array = super().__getitem__(key)
+            array[idx] = np.nan
+            if not isnan(array).all():
+                return
+        super().__delitem__(key)
+        self.owned.discard(key)
+        self._unmapped_keys.discard(key)
+        for mapkey in key.keys.union([key]):
+            keys = self.keymap.get(mapkey, ())
+            if key in keys:  # .update() does not copy the keymap's sets
+                self.keymap[mapkey] = keys - {key}
+                if not self.keymap[mapkey]:
+                    del self.keymap[mapkey]
 
 
 class KeySet(KeyMap, set):
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 5997dc9..fccdfaa 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -141,7 +141,7 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
                 if not hasattr(values, "shape"):
-                    values = np.full(shape, values, "f")
+                    values = np.full(shape, values, float)
                 else:
                     values = np.broadcast_to(values, reversed(shape)).T
             elif not hasattr(values, "shape"):
-- 
2.43.0


From 53eeae22748c6bae73ce01f05790c18372a4ffee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:52 +0000
Subject: [PATCH 29/90] fix: sweeps of single elements can be checked for and
 copied, and are recognised however their tag was made

---
 gpkit/small_scripts.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index 3d282d2..aa64406 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -17,7 +17,7 @@ def isnan(element):
     "Determine if something of arbitrary type is a numpy nan."
     try:
         return np.isnan(element)
-    except TypeError:
+    except (TypeError, ValueError):  # e.g. a sweep
         return False
 
 
@@ -51,8 +51,8 @@ def splitsweep(sub):
     "Splits a substitution into (is_sweepvar, sweepval)"
     try:
         sweep, value = sub
-        if sweep is "sweep" and (isinstance(value, Iterable) or  # pylint: disable=literal-comparison
-                                 hasattr(value, "__call__")):
+        if isinstance(sweep, str) and sweep == "sweep" and (
+                isinstance(value, Iterable) or hasattr(value, "__call__")):
             return True, value
     except (TypeError, ValueError):
         pass
-- 
2.43.0


From 5bbd9561329263012ae67ebd019fd4edd1e97901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 30/90] fix: sweep points without some warnings or
 sensitivities keep every point's results aligned

---
 gpkit/small_classes.py  | 40 +++++++++++++++++++++++++++++++++++-----
 gpkit/solution_array.py |  2 ++
 2 files changed, 37 insertions(+), 5 deletions(-)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index b66d714..f6d0f43 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -88,9 +88,10 @@ class DictOfLists(dict):
         "Appends a dict (of dicts) of lists to all held lists."
         if not hasattr(self, "initialized"):
             _enlist_dict(sol, self)
-            self.initialized = True  # pylint: disable=attribute-defined-outside-init
+            self.initialized = 1  # pylint: disable=attribute-defined-outside-init
         else:
-            _append_dict(sol, self)
+            _append_dict(sol, self, self.initialized)
+            self.initialized += 1
 
     def atindex(self, i):
         "Indexes into each list independently."
@@ -112,16 +113,41 @@ def _enlist_dict(d_in, d_out):
     return d_out
 
 
-def _append_dict(d_in, d_out):
-    "Recursively travels dict d_out and appends items found in d_in."
+def _append_dict(d_in, d_out, n, blank=np.nan):
+    """Recursively travels dict d_out and appends items found in d_in.
+
+    Keys not in all dicts (e.g. warnings, or the sensitivities of constraints
+    which a zero removes) have `blank` for the dicts that lack them.
+    """
     for k, v in d_in.items():
         if isinstance(v, dict):
-            d_out[k] = _append_dict(v, d_out[k])
+            if k not in d_out:
+                d_out[k] = v.__class__()
+            d_out[k] = _append_dict(v, d_out[k], n, BLANKS.get(k, blank))
         else:
+            if k not in d_out:
+                d_out[k] = [_blank_like(v, blank) for _ in range(n)]
             d_out[k].append(v)
+    for k in set(d_out).difference(d_in):
+        if isinstance(d_out[k], dict):
+            d_out[k] = _append_dict({}, d_out[k], n, BLANKS.get(k, blank))
+        else:
+            d_out[k].append(_blank_like(d_out[k][0], blank))
     return d_out
 
 
+BLANKS = {"sensitivities": 0.0, "warnings": []}
+
+
+def _blank_like(value, blank):
+    "Returns a blank the shape of value, if value is an array"
+    if isinstance(blank, list):
+        return list(blank)
+    if getattr(value, "shape", None):
+        return np.full(value.shape, blank)
+    return blank
+
+
 def _index_dict(idx, d_in, d_out):
     "Recursively travels dict d_in, placing items at idx into dict d_out."
     for k, v in d_in.items():
@@ -143,6 +169,10 @@ def _enray(d_in, d_out):
         else:
             if len(v) == 1:
                 v, = v
+            elif isinstance(v[0], list):  # may be of different lengths
+                lists, v = v, np.empty(len(v), dtype="object")
+                for i, list_ in enumerate(lists):
+                    v[i] = list_
             else:
                 v = np.array(v)
             d_out[k] = v
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8b59259..21d1323 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -237,6 +237,8 @@ def warnings_table(self, _, **kwargs):
         if not hasattr(data_vec, "shape"):
             data_vec = [data_vec]
         for i, data in enumerate(data_vec):
+            if not data:  # no such warnings for this point of the sweep
+                continue
             data = sorted(data, key=lambda l: l[0])  # sort by msg
             title = wtype
             if len(data_vec) > 1:
-- 
2.43.0


From 24e3d31cc27d27d8ed8b813a5957bfcf26ccc919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 31/90] fix: warnings of Tight and Loose constraints show the
 values of their own solve

---
 gpkit/constraints/loose.py |  2 +-
 gpkit/constraints/tight.py |  3 ++-
 gpkit/small_scripts.py     |  9 ++++++---
 gpkit/solution_array.py    | 13 ++++++-------
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/gpkit/constraints/loose.py b/gpkit/constraints/loose.py
index 84d410d..595707f 100644
--- a/gpkit/constraints/loose.py
+++ b/gpkit/constraints/loose.py
@@ -25,6 +25,6 @@ class Loose(ConstraintSet):
                        (cstr, c_senss, self.senstol))
                 constraint.relax_sensitivity = c_senss
                 appendsolwarning(msg, constraint, result,
-                                 "Unexpectedly Tight Constraints")
+                                 "Unexpectedly Tight Constraints", c_senss)
                 if self.raiseerror:
                     raise RuntimeWarning(msg)
diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index 063c4e7..11918d4 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -37,4 +37,5 @@ class Tight(ConstraintSet):
                 constraint.tightvalues = (leftval, constraint.oper, rightval)
                 constraint.rel_diff = rel_diff
                 appendsolwarning(msg, constraint, result,
-                                 "Unexpectedly Loose Constraints")
+                                 "Unexpectedly Loose Constraints",
+                                 constraint.tightvalues, rel_diff)
diff --git a/gpkit/small_scripts.py b/gpkit/small_scripts.py
index aa64406..b86c746 100644
--- a/gpkit/small_scripts.py
+++ b/gpkit/small_scripts.py
@@ -3,13 +3,16 @@ from collections.abc import Iterable
 import numpy as np
 
 
-def appendsolwarning(msg, data, result, category="uncategorized"):
-    "Append a particular category of warnings to a solution."
+def appendsolwarning(msg, data, result, category="uncategorized", *values):
+    """Append a particular category of warnings to a solution.
+
+    Any `values` are those the data had for this result in particular.
+    """
     if "warnings" not in result:
         result["warnings"] = {}
     if category not in result["warnings"]:
         result["warnings"][category] = []
-    result["warnings"][category].append((msg, data))
+    result["warnings"][category].append((msg, data) + values)
 
 
 @np.vectorize
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 21d1323..3ae0aef 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -244,18 +244,17 @@ def warnings_table(self, _, **kwargs):
             if len(data_vec) > 1:
                 title += " in sweep %i" % i
             if wtype == "Unexpectedly Tight Constraints" and data[0][1]:
-                data = [(-int(1e5*c.relax_sensitivity),
-                         "%+6.2g" % c.relax_sensitivity, id(c), c)
-                        for _, c in data]
+                data = [(-int(1e5*senss), "%+6.2g" % senss, id(c), c)
+                        for _, c, senss in data]
                 lines += constraint_table(data, title, **kwargs)
             elif wtype == "Unexpectedly Loose Constraints" and data[0][1]:
-                data = [(-int(1e5*c.rel_diff),
-                         "%.4g %s %.4g" % c.tightvalues, id(c), c)
-                        for _, c in data]
+                data = [(-int(1e5*rel_diff),
+                         "%.4g %s %.4g" % tightvalues, id(c), c)
+                        for _, c, tightvalues, rel_diff in data]
                 lines += constraint_table(data, title, **kwargs)
             else:
                 lines += [title] + ["-"*len(wtype)]
-                lines += [msg for msg, _ in data] + [""]
+                lines += [msg for msg, *_ in data] + [""]
     lines[-1] = "~~~~~~~~"
     return lines + [""]
 
-- 
2.43.0


From 110b8889da453d580be50cf92f2aa3b7fda3ec68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:55 +0000
Subject: [PATCH 32/90] fix: sweep helpers leave substitutions as they were,
 whatever their values or outcome

---
 gpkit/constraints/model.py | 17 +++++++----------
 gpkit/keydict.py           | 14 ++++++++++++++
 gpkit/tools/autosweep.py   | 33 +++++++++++++++------------------
 3 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 06e5240..43ea98c 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -5,6 +5,7 @@ from ..nomials import Monomial
 from .prog_factories import progify, solvify
 from .gp import GeometricProgram
 from .sgp import SequentialGeometricProgram
+from ..keydict import TemporarySubstitutions
 from ..tools.autosweep import autosweep_1d
 from ..exceptions import InvalidGPConstraint
 from .. import NamedVariables
@@ -137,16 +138,12 @@ class Model(CostedConstraintSet):
         "Sweeps {var: values} pairs in sweeps. Returns swept solutions."
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            original_val = self.substitutions.get(sweepvar, None)
-            self.substitutions.update({sweepvar: ('sweep', sweepvals)})
-            try:
-                sols.append(self.solve(**solveargs))
-            except InvalidGPConstraint:
-                sols.append(self.localsolve(**solveargs))
-            if original_val:
-                self.substitutions[sweepvar] = original_val
-            else:
-                del self.substitutions[sweepvar]
+            with TemporarySubstitutions(self):
+                self.substitutions.update({sweepvar: ('sweep', sweepvals)})
+                try:
+                    sols.append(self.solve(**solveargs))
+                except InvalidGPConstraint:
+                    sols.append(self.localsolve(**solveargs))
         return sols if len(sols) > 1 else sols[0]
 
     def autosweep(self, sweeps, tol=0.01, samplepoints=100, **solveargs):
diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index cbe86c6..d8471c9 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -301,6 +301,20 @@ class KeyDict(KeyMap, dict):
                     del self.keymap[mapkey]
 
 
+class TemporarySubstitutions:
+    "Undoes any changes to a model's substitutions made within this context."
+    def __init__(self, model):
+        self.model = model
+        self.original = model.substitutions
+
+    def __enter__(self):
+        self.model.substitutions = KeyDict(self.original)
+        self.model.substitutions.cset = self.original.cset
+
+    def __exit__(self, type_, val, traceback):
+        self.model.substitutions = self.original
+
+
 class KeySet(KeyMap, set):
     "KeyMaps that don't collapse arrays or store values."
     collapse_arrays = False
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 5a262a9..e1a04e9 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -4,6 +4,7 @@ import numpy as np
 from ..small_classes import Count
 from ..small_scripts import mag
 from ..solution_array import SolutionArray
+from ..keydict import TemporarySubstitutions
 from ..exceptions import InvalidGPConstraint
 
 
@@ -52,7 +53,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
 
     def add_split(self, splitval, splitsol):
         "Creates subtrees from bounds[0] to splitval and splitval to bounds[1]"
-        if self.splitval:
+        if self.splitval is not None:
             raise ValueError("split already exists!")
         if splitval <= self.bounds[0] or splitval >= self.bounds[1]:
             raise ValueError("split value is at or outside bounds.")
@@ -66,7 +67,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
 
     def add_splitcost(self, splitval, splitlb, splitub):
         "Adds a splitval, lower bound, and upper bound"
-        if self.splitval:
+        if self.splitval is not None:
             raise ValueError("split already exists!")
         if splitval <= self.bounds[0] or splitval >= self.bounds[1]:
             raise ValueError("split value is at or outside bounds.")
@@ -92,7 +93,7 @@ class BinarySweepTree:  # pylint: disable=too-many-instance-attributes
         if value < self.bounds[0] or value > self.bounds[1]:
             raise ValueError("query value is outside bounds.")
         bst = self.min_bst(value)
-        if bst.splitlb:
+        if bst.splitlb is not None:
             if bound:
                 if bound == "lb":
                     splitcost = np.exp(bst.splitlb)
@@ -225,30 +226,26 @@ class SolutionOracle:
 
 def autosweep_1d(model, logtol, sweepvar, bounds, **solvekwargs):
     "Autosweep a model over one sweepvar"
-    original_val = model.substitutions.get(sweepvar, None)
     start_time = time()
     solvekwargs.setdefault("verbosity", 1)
     solvekwargs["verbosity"] -= 1
     sols = Count().next
     firstsols = []
-    for bound in bounds:
-        model.substitutions.update({sweepvar: bound})
-        try:
-            model.solve(**solvekwargs)
-            firstsols.append(model.program.result)
-        except InvalidGPConstraint:
-            raise InvalidGPConstraint("only GPs can be autoswept.")
-        sols()
-    bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
-    tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
+    with TemporarySubstitutions(model):
+        for bound in bounds:
+            model.substitutions.update({sweepvar: bound})
+            try:
+                model.solve(**solvekwargs)
+                firstsols.append(model.program.result)
+            except InvalidGPConstraint:
+                raise InvalidGPConstraint("only GPs can be autoswept.")
+            sols()
+        bst = BinarySweepTree(bounds, firstsols, sweepvar, model.cost)
+        tol = recurse_splits(model, bst, sweepvar, logtol, solvekwargs, sols)
     bst.nsols = sols()  # pylint: disable=attribute-defined-outside-init
     if solvekwargs["verbosity"] > -1:
         print("Solved in %2i passes, cost logtol +/-%.3g" % (bst.nsols, tol))
         print("Autosweeping took %.3g seconds." % (time() - start_time))
-    if original_val:
-        model.substitutions[sweepvar] = original_val
-    else:
-        del model.substitutions[sweepvar]
     return bst
 
 
-- 
2.43.0


From 311924e4e612a9a502dd32e68ed03db849da72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 33/90] fix: vector variables and their elements can be swept
 over floats and lists of different lengths

---
 gpkit/keydict.py              | 14 ++++++++++----
 gpkit/nomials/substitution.py |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index d8471c9..6f7f4a3 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -94,6 +94,8 @@ class KeyMap:
             return False
         if super().__contains__(key):  # pylint: disable=no-member
             if idx:
+                if is_sweepvar(super().__getitem__(key)):  # pylint: disable=no-member
+                    return True  # all of its elements are swept
                 try:
                     value = super().__getitem__(key)[idx]  # pylint: disable=no-member
                     return True if is_sweepvar(value) else not isnan(value)
@@ -227,12 +229,10 @@ class KeyDict(KeyMap, dict):
             self._unmapped_keys.add(key)
             if idx:
                 dty = {} if isinstance(value, Numbers) else {"dtype": "object"}
-                if getattr(value, "shape", None):
-                    dty["dtype"] = clean_array(value).dtype
                 dict.__setitem__(self, key, np.full(key.shape, np.nan, **dty))
                 self.owned.add(key)
         if idx:
-            if is_sweepvar(value):
+            if is_sweepvar(value) or getattr(value, "shape", None):
                 old = super().__getitem__(key)
                 super().__setitem__(key, np.array(old, "object"))
                 self.owned.add(key)
@@ -248,7 +248,13 @@ class KeyDict(KeyMap, dict):
                 if not hasattr(value, "__len__"):
                     value = np.full(key.shape, value, float)
                 elif not isinstance(value[0], np.ndarray):
-                    value = np.array([clean_value(key, v) for v in value])
+                    value = [clean_value(key, v) for v in value]
+                    if any(is_sweepvar(v) for v in value):
+                        value, values = np.empty(len(value), "object"), value
+                        for i, val in enumerate(values):
+                            value[i] = val
+                    else:
+                        value = np.array(value)
             if getattr(value, "shape", None):   # is the value an array?
                 value = clean_array(value)
                 old = super().get(key)
diff --git a/gpkit/nomials/substitution.py b/gpkit/nomials/substitution.py
index fa44fb6..2db7bdd 100644
--- a/gpkit/nomials/substitution.py
+++ b/gpkit/nomials/substitution.py
@@ -46,7 +46,7 @@ def append_sub(sub, keys, constants, sweep, linkedsweep):
                 pywarnings.filterwarnings("error")
                 try:
                     sub = np.array(sub) if not hasattr(sub, "shape") else sub
-                except Warning:  # pragma: no cover  #TODO: coverage this
+                except (Warning, ValueError):
                     # ragged nested sequences, eg [[2]], [3, 4]], in py3.7+
                     sub = np.array(sub, dtype=object)
             if key.shape == sub.shape:
-- 
2.43.0


From 87d42e1cf035341b89b8d8e653a2bee699008207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:35 +0000
Subject: [PATCH 34/90] fix: elements of vectors can be looked up in swept
 solutions

---
 gpkit/keydict.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 6f7f4a3..20a648d 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -26,6 +26,12 @@ def clean_array(value):
     return np.array(value, float if value.dtype.kind in "biuf" else None)
 
 
+def element(array, idx):
+    "Indexes into an array's last axes; its first ones may be a sweep's points."
+    extradims = getattr(array, "ndim", 0) - len(idx)
+    return array[(slice(None),)*extradims + idx]
+
+
 class KeyMap:
     """Helper class to provide KeyMapping to interfaces.
 
@@ -97,8 +103,8 @@ class KeyMap:
                 if is_sweepvar(super().__getitem__(key)):  # pylint: disable=no-member
                     return True  # all of its elements are swept
                 try:
-                    value = super().__getitem__(key)[idx]  # pylint: disable=no-member
-                    return True if is_sweepvar(value) else not isnan(value)
+                    value = element(super().__getitem__(key), idx)  # pylint: disable=no-member
+                    return is_sweepvar(value) or not np.all(isnan(value))
                 except TypeError:
                     raise TypeError("%s has an idx, but its value in this"
                                     " KeyDict is the scalar %s."
@@ -191,7 +197,7 @@ class KeyDict(KeyMap, dict):
                 self._copyonwrite(k)
             val = dict.__getitem__(self, k)
             if idx:
-                val = val[idx]
+                val = element(val, idx)
             if len(keys) == 1:
                 return val
             got[k] = val
-- 
2.43.0


From 0dbaa69bd01efa9334f9a8b00f96ab3abdfcb6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:38 +0000
Subject: [PATCH 35/90] fix: sweeps skip points whose values alone violate a
 constraint

---
 gpkit/constraints/prog_factories.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 551a52c..898c06f 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -143,9 +143,9 @@ def run_sweep(genfunction, self, solution, skipsweepfailures,
         constants.update({var: sweep_vect[i]
                           for (var, sweep_vect) in sweep_vects.items()})
         evaluate_linked(constants, linked)
-        program, solvefn = genfunction(self, constants)
-        self.program.append(program)  # NOTE: SIDE EFFECTS
         try:
+            program, solvefn = genfunction(self, constants)
+            self.program.append(program)  # NOTE: SIDE EFFECTS
             result = solvefn(solver, verbosity=verbosity-1, **solveargs)
             if solveargs.get("process_result", True):
                 self.process_result(result)
-- 
2.43.0


From 1b4e2fea8c7cbaa73630601df2bd4155503fa800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:37 +0000
Subject: [PATCH 36/90] fix: elements of vectors can be autoswept

---
 gpkit/constraints/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 43ea98c..1a98866 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -154,7 +154,8 @@ class Model(CostedConstraintSet):
         """
         sols = []
         for sweepvar, sweepvals in sweeps.items():
-            sweepvar = self[sweepvar].key
+            # lookups of a vector's element find the whole vector
+            sweepvar = getattr(sweepvar, "key", self[sweepvar].key)
             start, end = sweepvals
             bst = autosweep_1d(self, tol, sweepvar, [start, end], **solveargs)
             sols.append(bst.sample_at(np.linspace(start, end, samplepoints)))
-- 
2.43.0


From e3f44ae5e793db09b012b50f5bd571b066c590b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:58 +0000
Subject: [PATCH 37/90] fix: variables which do not affect the cost can be
 autoswept

---
 gpkit/tools/autosweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index e1a04e9..d2a994f 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -271,7 +271,8 @@ def get_tol(costs, bounds, sols, variable):  # pylint: disable=too-many-locals
     "Gets the intersection point and corresponding bounds from two solutions."
     y0, y1 = costs
     x0, x1 = np.log(bounds)
-    s0, s1 = [sol["sensitivities"]["variables"][variable] for sol in sols]
+    s0, s1 = [sol["sensitivities"]["variables"].get(variable, 0)
+              for sol in sols]  # it may not affect the cost at all
     # y0 + s0*(x - x0) == y1 + s1*(x - x1)
     num = y1-y0 + x0*s0-x1*s1
     denom = s0-s1
-- 
2.43.0


From fe0e32ef81a3c726c6bb5c716f70e379f4b1d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:02 +0000
Subject: [PATCH 38/90] fix: autosweeps tell their cost from expressions in
 other units

---
 gpkit/tools/autosweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index d2a994f..8f776ac 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -172,7 +172,8 @@ class SolutionOracle:
         return self.__getval(key)
 
     def _is_cost(self, key):
-        if hasattr(key, "hmap") and key.hmap == self.bst.costposy.hmap:
+        if (hasattr(key, "hmap") and key.hmap == self.bst.costposy.hmap
+                and key.units == self.bst.costposy.units):
             return True
         return key == "cost"
 
-- 
2.43.0


From 88f6f57883826fd8e896c7bfa1b387d649b9e4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 39/90] fix: vectors and their elements are never identified
 with scalars of similar names

---
 gpkit/varkey.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 4fe35db..695b90e 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -36,6 +36,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
         self.key = self
         fullstr = self.str_without(["modelnums", "vec"])
         self.eqstr = fullstr + str(self.lineage) + self.unitrepr
+        if self.idx or self.shape:  # unlike anything just named "x[0]" or "x"
+            self.eqstr += str(self.idx or [])
         self.hashvalue = hash(self.eqstr)
         self.keys = set((self.name, fullstr))
 
-- 
2.43.0


From 9407e7436931310ade809711ee4f40d2b664ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:03 +0000
Subject: [PATCH 40/90] fix: looking up absent variables does not make them
 seem present

---
 gpkit/keydict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 20a648d..8d94a5b 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -341,4 +341,6 @@ class KeySet(KeyMap, set):
     def __getitem__(self, key):
         "Gets the keys corresponding to a particular key."
         key, _ = self.parse_and_index(key)
+        if key not in self.keymap:  # don't let its defaultdict add it
+            return set()
         return self.keymap[key]
-- 
2.43.0


From 70eb3aa14a71bba90d250680dc71e833fbe3d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:36 +0000
Subject: [PATCH 41/90] fix: models' elements of vectors can be looked up
 individually

---
 gpkit/constraints/set.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 830d97b..2d493b7 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -139,6 +139,8 @@ class ConstraintSet(list, ReprMixin):
                 return firstvar
             raise ValueError("multiple variables are called '%s'; show them"
                              " with `.variables_byname('%s')`" % (key, key))
+        if getattr(key, "key", key) not in veckey.keys.union([veckey]):
+            return firstvar  # just an element
         from ..nomials import NomialArray  # all one vector!
         arr = NomialArray(np.full(veckey.shape, np.nan, dtype="object"))
         for v in variables:
-- 
2.43.0


From c6ffa6cc54fd1764ef721cdffe1a8700d1bd11a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 42/90] fix: substituting by a name several scalars share is an
 error

---
 gpkit/keydict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/keydict.py b/gpkit/keydict.py
index 8d94a5b..ede67c0 100644
--- a/gpkit/keydict.py
+++ b/gpkit/keydict.py
@@ -79,7 +79,8 @@ class KeyMap:
             raise KeyError(key)
         newkey, *otherkeys = self.cset.varkeys[key]
         if otherkeys:
-            if all(k.veckey == newkey.veckey for k in otherkeys):
+            if newkey.veckey and all(k.veckey == newkey.veckey
+                                     for k in otherkeys):
                 return newkey.veckey, None
             raise ValueError("%s refers to multiple keys in this substitutions"
                              " KeyDict. Use `.variables_byname(%s)` to see all"
-- 
2.43.0


From c7528886eb1399adc0cf911da7ccd1f99a0faee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 43/90] fix: values of variables in vectorized environments
 keep their axes and units

---
 gpkit/nomials/variables.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index fccdfaa..83a9f85 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -7,7 +7,7 @@ from .math import Monomial
 from .map import NomialMap
 from ..globals import NamedVariables, Vectorize
 from ..varkey import VarKey
-from ..small_classes import Strings, Numbers, HashVector
+from ..small_classes import Strings, Numbers, HashVector, Quantity
 from ..small_scripts import is_sweepvar
 
 
@@ -140,10 +140,14 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
             values = descr.pop(value_option)
         if value_option and not hasattr(values, "__call__"):
             if Vectorize.vectorization:
-                if not hasattr(values, "shape"):
-                    values = np.full(shape, values, float)
-                else:
-                    values = np.broadcast_to(values, reversed(shape)).T
+                units = getattr(values, "units", None)
+                values = np.asarray(getattr(values, "magnitude", values))
+                if values.shape != shape:  # it's the same in all of them
+                    if not values.shape:
+                        values = values.astype(float)
+                    values = np.broadcast_to(values.T, shape[::-1]).T
+                if units:
+                    values = Quantity(values, units)
             elif not hasattr(values, "shape"):
                 values = np.array(values)
             if values.shape != shape:
-- 
2.43.0


From fcb440a92a91ac475dad290de6e0b28d407b3c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:42 +0000
Subject: [PATCH 44/90] fix: elements made without their vector's key can be
 looked up by it

---
 gpkit/varkey.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 695b90e..7a5b904 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -46,9 +46,8 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
                 vecdescr = self.descr.copy()
                 del vecdescr["idx"]
                 self.veckey = VarKey(**vecdescr)
-            else:
-                self.keys.add(self.veckey)
-                self.keys.add(self.str_without(["idx", "modelnums"]))
+            self.keys.add(self.veckey)
+            self.keys.add(self.str_without(["idx", "modelnums"]))
 
     def __getstate__(self):
         "Stores varkey as its metadata dictionary, removing functions"
-- 
2.43.0


From 3e5ba26c284845ee91f9d624eee5968d16384746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:45 +0000
Subject: [PATCH 45/90] fix: nested and array constraints can be relaxed
 individually

---
 gpkit/constraints/relax.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 5014723..b649be2 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -82,13 +82,13 @@ class ConstraintsRelaxed(ConstraintSet):
             original_constraints = ConstraintSet(original_constraints)
         self.original_constraints = original_constraints
         original_substitutions = original_constraints.substitutions
+        self.flat_constraints = list(original_constraints.flat())
         with NamedVariables("Relax"):
-            self.relaxvars = VectorVariable(len(original_constraints), "C")
+            self.relaxvars = VectorVariable(len(self.flat_constraints), "C")
 
         with SignomialsEnabled():
-            relaxed_constraints = [
-                c.relaxed(self.relaxvars[i])
-                for i, c in enumerate(original_constraints.flat())]
+            relaxed_constraints = [c.relaxed(self.relaxvars[i])
+                                   for i, c in enumerate(self.flat_constraints)]
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
@@ -105,7 +105,7 @@ class ConstraintsRelaxed(ConstraintSet):
                               range(len(self["relaxed constraints"])))
         for relaxval, i in relaxed:
             relax_percent = "%i%%" % (0.5+(relaxval-1)*100)
-            oldconstraint = self.original_constraints[i]
+            oldconstraint = self.flat_constraints[i]
             newconstraint = self["relaxed constraints"][i][0]
             subs = {self.relaxvars[i]: relaxval}
             relaxdleft = newconstraint.left.sub(subs)
-- 
2.43.0


From c4bae86e037a3347eee2eb9af6480fbd72c4a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 46/90] fix: models without constants to relax can be debugged

---
 gpkit/constraints/model.py | 4 ++--
 gpkit/constraints/relax.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 1a98866..f19284d 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -172,8 +172,8 @@ class Model(CostedConstraintSet):
         solveargs["process_result"] = False
 
         bounded = Bounded(self)
-        if self.substitutions:
-            tants = ConstantsRelaxed(bounded)
+        tants = ConstantsRelaxed(bounded)
+        if tants.relaxvars.size:
             feas = Model(tants.relaxvars.prod()**30 * self.cost, tants)
         else:
             feas = Model(self.cost, bounded)
diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index b649be2..647b079 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -235,6 +235,8 @@ class ConstantsRelaxed(ConstraintSet):
 def get_relaxed(relaxvals, mapped_list):
     "Returns 'relaxed' vals (those above an arbitrary threshold of 1.01)."
     sortrelaxed = sorted(zip(relaxvals, mapped_list), key=lambda x: -x[0])
+    if not sortrelaxed:
+        return []
     mostrelaxed = max(sortrelaxed[0][0], 1.01)
     for i, (val, _) in enumerate(sortrelaxed):
         if val <= 1.01 and (val-1) <= (mostrelaxed-1)/10:
-- 
2.43.0


From 6abf29ae0de2f42413e9e579241d7d871ae3f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 47/90] fix: infeasible models with unbounded variables can be
 debugged

---
 gpkit/constraints/model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index f19284d..72a34ab 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -191,13 +191,15 @@ class Model(CostedConstraintSet):
                 print("<DEBUG> Model is not feasible with relaxed constants"
                       " and bounded variables.")
             traints = ConstraintsRelaxed(self)
-            feas = Model(traints.relaxvars.prod()**30 * self.cost, traints)
+            bounded = Bounded(traints)
+            feas = Model(traints.relaxvars.prod()**30 * self.cost, bounded)
             try:
                 try:
                     sol = feas.solve(**solveargs)
                 except InvalidGPConstraint:
                     sol = feas.sp(use_pccp=False).localsolve(**solveargs)
                 # limited results processing
+                bounded.check_boundaries(sol)
                 traints.check_relaxed(sol)
             except Infeasible:
                 print("<DEBUG> Model is not feasible with bounded constraints.")
-- 
2.43.0


From 437422f58037169b24a6911294a870462a4bc29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:53 +0000
Subject: [PATCH 48/90] fix: constants declared as such can be relaxed

---
 gpkit/constraints/relax.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 647b079..d57cf27 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -180,6 +180,8 @@ class ConstantsRelaxed(ConstraintSet):
             # set up the lineage
             const.descr.pop("gradients", None)  # nothing wants an old gradient
             newconstd = const.descr.copy()
+            newconstd.pop("value", None)  # nor its value, unless it's constant
+            freedd = newconstd.copy()
             newconstd.pop("veckey", None)  # only const wants an old veckey
             # everything but const wants a new lineage, to distinguish them
             newconstd["lineage"] = (newconstd.pop("lineage", ())
@@ -191,7 +193,7 @@ class ConstantsRelaxed(ConstraintSet):
             relaxvars.append(relaxvar)
             # the newly freed const can acquire a new value
             del substitutions[const]
-            freed = Variable(**const.descr)
+            freed = Variable(**freedd)
             self.freedvars.append(freed)
             # becuase the make the newconst will take its old value
             newconstd["lineage"] += (("OriginalValues", 0),)
-- 
2.43.0


From 9c29e1d46ccdd69fac69dcfe54d9d1860a91987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 49/90] fix: linked constants can be excluded from relaxation

---
 gpkit/constraints/relax.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index d57cf27..03e0f5d 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -173,9 +173,10 @@ class ConstantsRelaxed(ConstraintSet):
             if val == 0:
                 substitutions[const] = 0
                 continue
-            if include_only and const.name not in include_only:
-                continue
-            if const.name in exclude:
+            if ((include_only and const.name not in include_only)
+                    or const.name in exclude):
+                if const in linked:  # what it's linked to may be freed
+                    substitutions[const] = val
                 continue
             # set up the lineage
             const.descr.pop("gradients", None)  # nothing wants an old gradient
-- 
2.43.0


From c78a3477c3decdb0316d056c31e792b878802bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 50/90] fix: relaxed constraints keep their model's cost
 variables, so that debug bounds them

---
 gpkit/constraints/relax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index 03e0f5d..e422f75 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -41,7 +41,8 @@ class ConstraintsRelaxedEqually(ConstraintSet):
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvar >= 1,
-            "relaxed constraints": relaxed_constraints}, original_substitutions)
+            "relaxed constraints": relaxed_constraints}, original_substitutions,
+                               bonusvks=original_constraints.vks)
 
     def process_result(self, result):
         "Warns if any constraints were relaxed"
@@ -92,7 +93,8 @@ class ConstraintsRelaxed(ConstraintSet):
 
         ConstraintSet.__init__(self, {
             "minimum relaxation": self.relaxvars >= 1,
-            "relaxed constraints": relaxed_constraints}, original_substitutions)
+            "relaxed constraints": relaxed_constraints}, original_substitutions,
+                               bonusvks=original_constraints.vks)
 
     def process_result(self, result):
         "Warns if any constraints were relaxed"
-- 
2.43.0


From 92eef5c5de68d9d6d3f3b2fa4136f967908b2a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:26 +0000
Subject: [PATCH 51/90] fix: Tight compares what cancels out when one side of a
 constraint is zero

---
 gpkit/constraints/tight.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index 11918d4..c754bc7 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -22,7 +22,13 @@ class Tight(ConstraintSet):
             with SignomialsEnabled():
                 leftval = constraint.left.sub(variables).value
                 rightval = constraint.right.sub(variables).value
-            rel_diff = abs(1 - leftval/rightval)
+                difference = constraint.left - constraint.right
+            if leftval and rightval:
+                rel_diff = abs(1 - leftval/rightval)
+            else:  # nothing is close to zero but what cancels out
+                posy, negy = [py.sub(variables).value if py else 0.
+                              for py in difference.posy_negy()]
+                rel_diff = abs(posy - negy)/max(posy, negy)
             if rel_diff >= self.reltol:
                 msg = ("Constraint [%.100s... %s %.100s...] is not tight:"
                        " the left hand side evaluated to %s but"
-- 
2.43.0


From 495f4848ff16b62b066e2b555100904784662acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 52/90] fix: Tight accepts sides one of which is in percent

---
 gpkit/constraints/tight.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/tight.py b/gpkit/constraints/tight.py
index c754bc7..fe04240 100644
--- a/gpkit/constraints/tight.py
+++ b/gpkit/constraints/tight.py
@@ -2,6 +2,7 @@
 from .set import ConstraintSet
 from ..small_scripts import mag
 from ..small_scripts import appendsolwarning
+from ..small_classes import Quantity
 from .. import SignomialsEnabled
 
 
@@ -38,7 +39,7 @@ class Tight(ConstraintSet):
                         leftval, rightval,
                         self.reltol*100, mag(rel_diff)*100))
                 if hasattr(leftval, "magnitude"):
-                    rightval = rightval.to(leftval.units).magnitude
+                    rightval = Quantity(rightval).to(leftval.units).magnitude
                     leftval = leftval.magnitude
                 constraint.tightvalues = (leftval, constraint.oper, rightval)
                 constraint.rel_diff = rel_diff
-- 
2.43.0


From 8f20b917482be55a2f7661490f53617535f0abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:20 +0000
Subject: [PATCH 53/90] fix: don't pickle hashes, which differ between
 processes

---
 gpkit/small_classes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/small_classes.py b/gpkit/small_classes.py
index f6d0f43..65612d8 100644
--- a/gpkit/small_classes.py
+++ b/gpkit/small_classes.py
@@ -202,6 +202,10 @@ class HashVector(dict):
             self.hashvalue = reduce(xor, map(hash, self.items()), 0)
         return self.hashvalue
 
+    def __getstate__(self):
+        "Leaves out the hash, which another process would not agree with"
+        return {k: v for k, v in self.__dict__.items() if k != "hashvalue"}
+
     def copy(self):
         "Return a copy of this"
         hv = self.__class__(self)
-- 
2.43.0


From 9ac795401a4c0199648950e928f514754deec954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 54/90] fix: tables of the largest sensitivities don't
 overwrite those of the solution

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 3ae0aef..81a23c4 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -782,7 +782,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
-            v[np.abs(v) <= minval] = np.nan
+            v = np.where(np.abs(v) <= minval, np.nan, v)  # not in place
         model = lineagestr(k.lineage) if sortbymodel else ""
         msenss = -sortmodelsbysenss.get(model, 0) if sortmodelsbysenss else 0
         if hasattr(msenss, "shape"):
-- 
2.43.0


From fdc2450243e4aa31ce25018dddfd8b7b89f1f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 55/90] fix: separate values from labels in tables of absolute
 differences

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 81a23c4..0dd1b8c 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -460,7 +460,7 @@ class SolutionArray(DictOfLists):
             abs_diff = {vk: cast(sub, svars[vk], ovars[vk]) for vk in sharedvks}
             lines += var_table(abs_diff,
                                "Absolute Differences |above %g|" % abstol,
-                               valfmt="%+.2g", vecfmt="%+8.2g",
+                               valfmt="%+.2g  ", vecfmt="%+8.2g",
                                minval=abstol, **tableargs)
             if lines[-2][:10] == "-"*10:  # nothing larger than sensstol
                 lines.insert(-1, ("The largest is %+g."
-- 
2.43.0


From 45fefb202761abeaec840b21d372d03127b86ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 56/90] fix: almost_equal compares vectors, sweeps, zeros, and
 constants without sensitivities

---
 gpkit/solution_array.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 0dd1b8c..cc15287 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -298,6 +298,18 @@ def cast(function, val1, val2):
         return function(val1, val2)
 
 
+def all_within(tol, val1, val2, relative=False):
+    "Are all differences between val1 and val2 (missing in both: nan) below tol?"
+    val1, val2 = np.asarray(val1), np.asarray(val2)
+    equal = cast(np.equal, val1, val2)
+    equal |= cast(np.logical_and, np.isnan(val1), np.isnan(val2))
+    if relative:
+        diff = cast(np.divide, val1, val2) - 1
+    else:
+        diff = cast(sub, val1, val2)
+    return bool(np.all(equal | (np.abs(diff) < tol)))
+
+
 class SolutionArray(DictOfLists):
     """A dictionary (of dictionaries) of lists, with convenience methods.
 
@@ -366,11 +378,13 @@ class SolutionArray(DictOfLists):
         svks, ovks = set(svars), set(ovars)
         if svks != ovks:
             return False
+        ssenss = self["sensitivities"]["variables"]
+        osenss = other["sensitivities"]["variables"]
         for key in svks:
-            if abs(cast(np.divide, svars[key], ovars[key]) - 1) >= reltol:
+            if not all_within(reltol, svars[key], ovars[key], relative=True):
                 return False
-            if abs(self["sensitivities"]["variables"][key]
-                   - other["sensitivities"]["variables"][key]) >= sens_abstol:
+            if not all_within(sens_abstol, ssenss.get(key, 0),
+                              osenss.get(key, 0)):
                 return False
         return True
 
-- 
2.43.0


From 000ba985982433f855a8040b32fab2c27f32d72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:50 +0000
Subject: [PATCH 57/90] fix: solutions evaluate expressions whose value is zero
 or negative

---
 gpkit/solution_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index cc15287..356a92e 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -636,7 +636,7 @@ class SolutionArray(DictOfLists):
             return NomialArray([self.atindex(i).subinto(posy)
                                 for i in range(len(self))])
 
-        return posy.sub(self["variables"])
+        return posy.sub(self["variables"], require_positive=False)
 
     def _parse_showvars(self, showvars):
         showvars_out = set()
-- 
2.43.0


From f780eaa2f521d9fc5f13085206a8e7ce840984db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 58/90] fix: solutions saved without constraints have result
 tables

---
 gpkit/solution_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 356a92e..8d946cd 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -134,6 +134,8 @@ def insenss_table(data, _, maxval=0.1, **kwargs):
 
 def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
     "Return constraint tightness lines"
+    if "constraints" not in self["sensitivities"]:
+        return []  # saved without constraints
     title = "Most Sensitive Constraints"
     if len(self) > 1:
         title += " (in last sweep)"
@@ -149,6 +151,8 @@ def tight_table(self, _, ntightconstrs=5, tight_senss=1e-2, **kwargs):
 
 def loose_table(self, _, min_senss=1e-5, **kwargs):
     "Return constraint tightness lines"
+    if "constraints" not in self["sensitivities"]:
+        return []  # saved without constraints
     title = "Insensitive Constraints |below %+g|" % min_senss
     if len(self) > 1:
         title += " (in last sweep)"
-- 
2.43.0


From f8f4508cccbd01e0fe03c826dd58da46f798cf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:49 +0000
Subject: [PATCH 59/90] fix: tables and CSV files include variables whose value
 is zero

---
 gpkit/solution_array.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 8d946cd..3c9b845 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -763,7 +763,7 @@ class SolutionArray(DictOfLists):
 # pylint: disable=too-many-branches,too-many-locals,too-many-statements
 def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
               varfmt="%s : ", valfmt="%-.4g ", vecfmt="%-8.3g",
-              minval=0, sortbyvals=False, hidebelowminval=False,
+              minval=None, sortbyvals=False, hidebelowminval=False,
               included_models=None, excluded_models=None, sortbymodel=True,
               maxcolumns=5, skipifempty=True, sortmodelsbysenss=None, **_):
     """
@@ -785,7 +785,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
     vecfmt : string
         format for vector values
     minval : float
-        skip values with all(abs(value)) < minval
+        if specified, skip values with all(abs(value)) <= minval
     sortbyvals : boolean
         If true, rows are sorted by their average value instead of by name.
     included_models : Iterable of strings
@@ -797,7 +797,9 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
         return []
     decorated, models = [], set()
     for i, (k, v) in enumerate(data.items()):
-        if np.isnan(v).all() or np.nanmax(np.abs(v)) <= minval:
+        if np.isnan(v).all():
+            continue
+        if minval is not None and np.nanmax(np.abs(v)) <= minval:
             continue  # no values below minval
         if minval and hidebelowminval and getattr(v, "shape", None):
             v = np.where(np.abs(v) <= minval, np.nan, v)  # not in place
-- 
2.43.0


From 6239ce924e5a205594ab29a2484c931e93ed5225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 60/90] fix: quote commas in CSV files

---
 gpkit/solution_array.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 3c9b845..d80ada5 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -1,5 +1,6 @@
 """Defines SolutionArray class"""
 import re
+import csv
 import difflib
 from operator import sub
 import warnings as pywarnings
@@ -610,23 +611,23 @@ class SolutionArray(DictOfLists):
         lines = var_table(data, "", rawlines=True, maxcolumns=valcols,
                           tables=("cost", "sweepvariables", "freevariables",
                                   "constants", "sensitivities"))
-        with open(filename, "w") as f:
-            f.write("Model Name,Variable Name,Value(s)" + ","*valcols
-                    + "Units,Description\n")
+        with open(filename, "w", newline="") as f:
+            write = csv.writer(f, lineterminator="\n").writerow
+            write(["Model Name", "Variable Name", "Value(s)"]
+                  + [""]*(valcols-1) + ["Units", "Description"])
+            model = ""
             for line in lines:
                 if line[0] == ("newmodelline",):
-                    f.write(line[1])
+                    model = line[1]  # on the same row as its first variable
                 elif not line[1]:  # spacer line
-                    f.write("\n")
+                    write([])
                 else:
-                    f.write("," + line[0].replace(" : ", "") + ",")
-                    vals = line[1].replace("[", "").replace("]", "").strip()
-                    for el in vals.split():
-                        f.write(el + ",")
-                    f.write(","*(valcols - len(vals.split())))
-                    f.write((line[2].replace("[", "").replace("]", "").strip()
-                             + ","))
-                    f.write(line[3].strip() + "\n")
+                    vals = line[1].replace("[", "").replace("]", "").split()
+                    vals += [""]*(valcols - len(vals))
+                    units = line[2].replace("[", "").replace("]", "").strip()
+                    write([model, line[0].replace(" : ", "")] + vals
+                          + [units, line[3].strip()])
+                    model = ""
 
     def subinto(self, posy):
         "Returns NomialArray of each solution substituted into posy."
-- 
2.43.0


From 83765f90c05a1b2b3deed5bd96e4bf33f4483a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:18 +0000
Subject: [PATCH 61/90] fix: LaTeX tables of any columns have no surplus cells,
 and may be empty

---
 gpkit/solution_array.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index d80ada5..15c9258 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -264,6 +264,10 @@ def warnings_table(self, _, **kwargs):
     return lines + [""]
 
 
+LATEXTITLES = {1: ["Value", "Units", "Description"],
+               2: ["Units", "Description"],
+               3: ["Value", "Units"]}
+
 TABLEFNS = {"sensitivities": senss_table,
             "top sensitivities": topsenss_table,
             "insensitivities": insenss_table,
@@ -796,6 +800,10 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
     """
     if not data:
         return []
+    if latex:
+        if latex not in LATEXTITLES:
+            raise ValueError("Unexpected latex option, %s." % latex)
+        coltitles = [title] + LATEXTITLES[latex]
     decorated, models = [], set()
     for i, (k, v) in enumerate(data.items()):
         if np.isnan(v).all():
@@ -836,7 +844,7 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             continue
         if model != previous_model:
             if lines:
-                lines.append(["", "", "", ""])
+                lines.append([""]*(len(coltitles) if latex else 4))
             if model:
                 if not latex:
                     lines.append([("newmodelline",), model, "", ""])
@@ -884,15 +892,10 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
             if latex == 1:  # normal results table
                 lines.append([varstr, valstr, "$%s$" % var.latex_unitstr(),
                               label])
-                coltitles = [title, "Value", "Units", "Description"]
             elif latex == 2:  # no values
                 lines.append([varstr, "$%s$" % var.latex_unitstr(), label])
-                coltitles = [title, "Units", "Description"]
-            elif latex == 3:  # no description
+            else:  # no description
                 lines.append([varstr, valstr, "$%s$" % var.latex_unitstr()])
-                coltitles = [title, "Value", "Units"]
-            else:
-                raise ValueError("Unexpected latex option, %s." % latex)
     if rawlines:
         return lines
     if not latex:
-- 
2.43.0


From 4bd81ac54591cea2ffb35939c45d0f75b2c89e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:24 +0000
Subject: [PATCH 62/90] fix: sweeps with vectors can be compared to single
 solutions

---
 gpkit/solution_array.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 15c9258..9df9ea6 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -291,19 +291,13 @@ def unrolled_absmax(values):
 
 
 def cast(function, val1, val2):
-    "Relative difference between val1 and val2 (positive if val2 is larger)"
+    """Applies function to val1 and val2, e.g. to get their difference
+
+    Sweep points are a solution's first axis, so vectors of a single solution
+    are compared with each point of a sweep.
+    """
     with pywarnings.catch_warnings():  # skip those pesky divide-by-zeros
         pywarnings.simplefilter("ignore")
-        if hasattr(val1, "shape") and hasattr(val2, "shape"):
-            if val1.ndim == val2.ndim:
-                return function(val1, val2)
-            lessdim, dimmest = sorted([val1, val2], key=lambda v: v.ndim)
-            dimdelta = dimmest.ndim - lessdim.ndim
-            add_axes = (slice(None),)*lessdim.ndim + (np.newaxis,)*dimdelta
-            if dimmest is val1:
-                return function(dimmest, lessdim[add_axes])
-            if dimmest is val2:
-                return function(lessdim[add_axes], dimmest)
         return function(val1, val2)
 
 
-- 
2.43.0


From 3d3e1d62c98d5add3d6cfc7a4e7e729a19997de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 63/90] fix: align tables of three-dimensional values with
 their horizontal dimension

---
 gpkit/solution_array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 9df9ea6..046b0af 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -857,8 +857,8 @@ def var_table(data, title, *, printunits=True, latex=False, rawlines=False,
                 if ncols <= dim_size <= maxcolumns:
                     horiz_dim, ncols = dim_idx, dim_size
             # align the array with horiz_dim by making it the last one
-            dim_order = list(range(last_dim_index))
-            dim_order.insert(horiz_dim, last_dim_index)
+            dim_order = list(range(len(val.shape)))
+            dim_order.append(dim_order.pop(horiz_dim))
             flatval = val.transpose(dim_order).flatten()
             vals = [vecfmt % v for v in flatval[:ncols]]
             bracket = " ] " if len(flatval) <= ncols else ""
-- 
2.43.0


From 0fe2255b1d099d54f8dec19097df2dc3e1853437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 64/90] fix: abbreviate only whole model names in tables of
 constraints

---
 gpkit/solution_array.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 046b0af..61b3051 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -193,7 +193,9 @@ def constraint_table(data, title, sortbymodel=True, showmodels=True, **_):
             if model or lines:
                 lines.append([("newmodelline",), model])
             previous_model = model
-        constrstr = constrstr.replace(model, "")
+        if model:  # abbreviate the names of this model's own variables
+            constrstr = re.sub(r"(?<![\w.}\]])%s(?=\.)" % re.escape(model),
+                               "", constrstr)
         minlen, maxlen = 25, 80
         segments = [s for s in CONSTRSPLITPATTERN.split(constrstr) if s]
         constraintlines = []
-- 
2.43.0


From d8287d0ee48a3fb3465a2b3121410c5b5ef960df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:03 +0000
Subject: [PATCH 65/90] fix: parenthesize printed expressions as their
 precedence requires

---
 gpkit/repr_conventions.py | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index 1f07615..ddf45da 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -1,11 +1,10 @@
 "Repository for representation standards"
 import sys
-import re
 import numpy as np
 from .small_classes import Quantity, Numbers
 from .small_scripts import try_str_without
 
-INSIDE_PARENS = re.compile(r"\(.*\)")
+SUPERSCRIPTS = "²³⁴⁵⁶⁷⁸⁹"
 
 if sys.platform[:3] == "win":  # pragma: no cover
     MUL = "*"
@@ -70,12 +69,25 @@ def strify(val, excluded):
     return val
 
 
-def parenthesize(string, addi=True, mult=True):
+def outside_parens(string):
+    "Returns the parts of a string which aren't in parentheses."
+    out, depth = "", 0
+    for char in string:
+        depth += (char == "(")
+        if not depth:
+            out += char
+        depth -= (char == ")")
+    return out
+
+
+def parenthesize(string, addi=True, mult=True, power=False):
     "Parenthesizes a string if it needs it and isn't already."
-    parensless = string if "(" not in string else INSIDE_PARENS.sub("", string)
+    parensless = string if "(" not in string else outside_parens(string)
     bare_addi = (" + " in parensless or " - " in parensless)
     bare_mult = ("·" in parensless or "/" in parensless)
-    if parensless and (addi and bare_addi) or (mult and bare_mult):
+    bare_power = (parensless[:1] == "-" or "^" in parensless
+                  or any(char in SUPERSCRIPTS for char in parensless))
+    if (addi and bare_addi) or (mult and bare_mult) or (power and bare_power):
         return "(%s)" % string
     return string
 
@@ -125,7 +137,7 @@ class ReprMixin:
         elif oper == "neg":
             aststr = "-%s" % parenthesize(strify(values, excluded), mult=False)
         elif oper == "pow":
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), power=True)
             x = values[1]
             if left == "1":
                 aststr = "1"
@@ -139,11 +151,13 @@ class ReprMixin:
             else:
                 aststr = "%s^%s" % (left, x)
         elif oper == "prod":  # TODO: only do if it makes a shorter string
-            aststr = "%s.prod()" % parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), power=True)
+            aststr = "%s.prod()" % left
         elif oper == "sum":  # TODO: only do if it makes a shorter string
-            aststr = "%s.sum()" % parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), power=True)
+            aststr = "%s.sum()" % left
         elif oper == "index":  # TODO: label vectorization idxs
-            left = parenthesize(strify(values[0], excluded))
+            left = parenthesize(strify(values[0], excluded), power=True)
             idx = values[1]
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
-- 
2.43.0


From e65ec601b0ebe34344016ddd31b57443af2182ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 66/90] fix: print slices from or to zero, and ellipses, in
 indices

---
 gpkit/repr_conventions.py | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index ddf45da..ae14725 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -92,6 +92,20 @@ def parenthesize(string, addi=True, mult=True, power=False):
     return string
 
 
+def idxstr(idx):
+    "Turns one element of an index into a string."
+    if idx is Ellipsis:
+        return "..."
+    if not isinstance(idx, slice):
+        return "%s" % idx
+    start = "" if idx.start is None else idx.start
+    if start == 0 and (idx.step is None or idx.step > 0):
+        start = ""
+    stop = "" if idx.stop is None or idx.stop >= sys.maxsize else idx.stop
+    step = "" if idx.step is None else ":%s" % idx.step
+    return "%s:%s%s" % (start, stop, step)
+
+
 class ReprMixin:
     "This class combines various printing methods for easier adoption."
     lineagestr = lineagestr
@@ -161,23 +175,8 @@ class ReprMixin:
             idx = values[1]
             if left[-3:] == "[:]":  # pure variable access
                 left = left[:-3]
-            if isinstance(idx, tuple):
-                elstrs = []
-                for el in idx:
-                    if isinstance(el, slice):
-                        start = el.start or ""
-                        stop = (el.stop if el.stop and el.stop < sys.maxsize
-                                else "")
-                        step = ":%s" % el.step if el.step is not None else ""
-                        elstrs.append("%s:%s%s" % (start, stop, step))
-                    elif isinstance(el, Numbers):
-                        elstrs.append("%s" % el)
-                idx = ",".join(elstrs)
-            elif isinstance(idx, slice):
-                start = idx.start or ""
-                stop = idx.stop if idx.stop and idx.stop < 1e6 else ""
-                step = ":%s" % idx.step if idx.step is not None else ""
-                idx = "%s:%s%s" % (start, stop, step)
+            idxs = idx if isinstance(idx, tuple) else (idx,)
+            idx = ",".join([idxstr(el) for el in idxs])
             aststr = "%s[%s]" % (left, idx)
         else:
             raise ValueError(oper)
-- 
2.43.0


From 03d738854a833c9df5235f9ea4dec7213cdfc457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:09 +0000
Subject: [PATCH 67/90] fix: arrays with a replaced element don't print as they
 were made

---
 gpkit/nomials/array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index b276f5a..71c0dc8 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -90,6 +90,10 @@ class NomialArray(ReprMixin, np.ndarray):
         out.ast = ("index", (self, idxs))
         return out
 
+    def __setitem__(self, idxs, value):
+        self.ast = self.cached_strs = None  # no longer what it was made as
+        np.ndarray.__setitem__(self, idxs, value)
+
     def str_without(self, excluded=()):
         "Returns string without certain fields (such as 'lineage')."
         if self.ast:
-- 
2.43.0


From b5d9ea6d3c9645063c3c458af5a030858ec96a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 68/90] fix: don't reuse another model's text of an expression

---
 gpkit/repr_conventions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gpkit/repr_conventions.py b/gpkit/repr_conventions.py
index ae14725..d82a7c4 100644
--- a/gpkit/repr_conventions.py
+++ b/gpkit/repr_conventions.py
@@ -180,7 +180,9 @@ class ReprMixin:
             aststr = "%s[%s]" % (left, idx)
         else:
             raise ValueError(oper)
-        self.cached_strs[frozenset(excluded)] = aststr
+        if "unnecessary lineage" not in excluded:
+            # which lineage is necessary depends on what's being printed
+            self.cached_strs[frozenset(excluded)] = aststr
         return aststr
 
     def __repr__(self):
-- 
2.43.0


From 3a35b38c47fadd580f2b8e26f3694e3e383f2354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 69/90] fix: print lineage of vectors' elements when vectors
 share a name

---
 gpkit/constraints/set.py | 7 +++++--
 gpkit/solution_array.py  | 2 +-
 gpkit/varkey.py          | 9 +++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/set.py b/gpkit/constraints/set.py
index 2d493b7..ecd5619 100644
--- a/gpkit/constraints/set.py
+++ b/gpkit/constraints/set.py
@@ -206,9 +206,12 @@ class ConstraintSet(list, ReprMixin):
     def name_collision_varkeys(self):
         "Returns the set of contained varkeys whose names are not unique"
         if self._name_collision_varkeys is None:
+            named = defaultdict(set)
+            for key in self.varkeys:  # a vector's elements share its name
+                named[key.name].add(key.veckey or key)
             self._name_collision_varkeys = {
-                key for key in self.varkeys
-                if len(self.varkeys[key.str_without(["lineage", "vec"])]) > 1}
+                key_ for key in self.varkeys if len(named[key.name]) > 1
+                for key_ in (key, key.veckey or key)}
         return self._name_collision_varkeys
 
     def lines_without(self, excluded):
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 61b3051..ed33607 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -361,7 +361,7 @@ class SolutionArray(DictOfLists):
             self._name_collision_varkeys = set()
             for key in list(keymap):
                 if hasattr(key, "key"):
-                    if len(keymap[key.str_without(["lineage", "vec"])]) > 1:
+                    if len({k.veckey or k for k in keymap[key.name]}) > 1:
                         self._name_collision_varkeys.add(key)
         return self._name_collision_varkeys
 
diff --git a/gpkit/varkey.py b/gpkit/varkey.py
index 7a5b904..c7e9de9 100644
--- a/gpkit/varkey.py
+++ b/gpkit/varkey.py
@@ -61,12 +61,17 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
         "Restores varkey from its metadata dictionary"
         self.__init__(**state)
 
+    def needs_lineage(self):
+        "Whether this (or its vector) has lineage that is marked as necessary."
+        return bool(self.necessarylineage
+                    or self.veckey and self.veckey.necessarylineage)
+
     def str_without(self, excluded=()):
         "Returns string without certain fields (such as 'lineage')."
         name = self.name
         if ("lineage" not in excluded and self.lineage
                 and ("unnecessary lineage" not in excluded
-                     or self.necessarylineage)):
+                     or self.needs_lineage())):
             name = self.lineagestr("modelnums" not in excluded) + "." + name
         if "idx" not in excluded:
             if self.idx:
@@ -95,7 +100,7 @@ class VarKey(ReprMixin):  # pylint:disable=too-many-instance-attributes
             name = "{%s}_{%s}" % (name, ",".join(map(str, self.idx)))
         if ("lineage" not in excluded and self.lineage
                 and ("unnecessary lineage" not in excluded
-                     or self.necessarylineage)):
+                     or self.needs_lineage())):
             name = "{%s}_{%s}" % (name,
                                   self.lineagestr("modelnums" not in excluded))
         return name
-- 
2.43.0


From fe9f1ab84ef50ff957c57c30c4aad93153e3be9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 70/90] fix: a variable equal to a constant is bounded

---
 gpkit/nomials/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index ef1263e..8e79d45 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -508,7 +508,7 @@ class MonomialEquality(PosynomialInequality):
         self.bounded = set()
         self.meq_bounded = {}
         self._las = []
-        if self.unsubbed and len(self.vks) > 1:
+        if self.unsubbed:
             exp, = self.unsubbed[0].hmap
             for key, e in exp.items():
                 s_e = np.sign(e)
-- 
2.43.0


From 7932814e31c096c922f1d0ae1bb26b1e8e144468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 71/90] fix: find missing bounds when bounds of other models'
 variables are stated

---
 gpkit/constraints/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/gpkit/constraints/model.py b/gpkit/constraints/model.py
index 72a34ab..145d4fc 100644
--- a/gpkit/constraints/model.py
+++ b/gpkit/constraints/model.py
@@ -111,12 +111,11 @@ class Model(CostedConstraintSet):
             self.missingbounds[bound] = (", but would gain it from any of"
                                          " these sets of bounds: " + bsets)
         # then add everything that's not in bounded
-        if len(bounded)+len(self.missingbounds) != 2*len(self.varkeys):
-            for key in self.varkeys:
-                for bound in ("upper", "lower"):
-                    if (key, bound) not in bounded:
-                        if (key, bound) not in self.missingbounds:
-                            self.missingbounds[(key, bound)] = ""
+        for key in self.varkeys:
+            for bound in ("upper", "lower"):
+                if (key, bound) not in bounded:
+                    if (key, bound) not in self.missingbounds:
+                        self.missingbounds[(key, bound)] = ""
         if self.missingbounds:  # anything unbounded? err!
             boundstrs = "\n".join("  %s has no %s bound%s" % (v, b, x)
                                   for (v, b), x
-- 
2.43.0


From 7004cc13b3a0c73774be719693f1acf9fd81a910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:46 +0000
Subject: [PATCH 72/90] fix: parse docstring labels and lines as they're
 written

---
 gpkit/tools/docstring.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/gpkit/tools/docstring.py b/gpkit/tools/docstring.py
index 5105ca7..c37d66d 100644
--- a/gpkit/tools/docstring.py
+++ b/gpkit/tools/docstring.py
@@ -127,13 +127,15 @@ def parse_varstring(string):
 def vv_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into VectorVariable ones"
     length = string[len(flag):idx2].strip()
-    return countstr.replace("Variable(", "VectorVariable(%s, " % length)
+    return re.sub(r"^(\S+ = \S+ = )Variable\(",
+                  lambda m: "%sVectorVariable(%s, " % (m.group(1), length),
+                  countstr, flags=re.M)
 
 
 # pylint: disable=unused-argument
 def constant_declare(string, flag, idx2, countstr):
     "Turns Variable declarations into Constant ones"
-    return countstr.replace("')", "', constant=True)")
+    return re.sub(r"\)$", ", constant=True)", countstr, flags=re.M)
 
 
 # pylint: disable=too-many-locals
@@ -152,7 +154,10 @@ def check_and_parse_flag(string, flag, declaration_func=None):
         else:
             skiplines = 2
         idx2 = 0 if "\n" in flag else string.index("\n")
-        for line in string[idx2:].split("\n")[skiplines:]:
+        # note that this is a 0-based line indexing
+        lineidx = (originalstr[:len(originalstr) - len(string) + idx2]
+                   .count("\n") + skiplines)
+        for i, line in enumerate(string[idx2:].split("\n")[skiplines:]):
             if not line.strip():  # whitespace only
                 break
             try:
@@ -162,16 +167,9 @@ def check_and_parse_flag(string, flag, declaration_func=None):
                                  " not found on the line reading:\n"
                                  "    %s" % line)
             nameval = line[:line.index("[")].split()
-            labelstart = line.index("]") + 1
-            if labelstart >= len(line):
-                label = ""
-            else:
-                while line[labelstart] == " ":
-                    labelstart += 1
-                label = line[labelstart:].replace("'", "\\'")
+            label = line[line.index("]")+1:].strip()
             countstr += variable_declaration(nameval, units, label, line)
-            # note that this is a 0-based line indexing
-            lineidxs.append(originalstr[:originalstr.index(line)].count("\n"))
+            lineidxs.append(lineidx + i)
         if declaration_func is None:
             overallstr += countstr
         else:
@@ -193,9 +191,9 @@ def variable_declaration(nameval, units, label, line, errorcatch=True):
                          " '%s' and the Units `%s`. %s"
                          % (line, nameval[1], units, PARSETIP))
     if len(nameval) == 2:
-        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', '{3}')")
+        out = ("{0} = self.{0} = Variable('{0}', {1}, '{2}', {3!r})")
         out = out.format(nameval[0], nameval[1], units, label)
     elif len(nameval) == 1:
-        out = ("{0} = self.{0} = Variable('{0}', '{1}', '{2}')")
+        out = ("{0} = self.{0} = Variable('{0}', '{1}', {2!r})")
         out = out.format(nameval[0], units, label)
     return out + "\n"
-- 
2.43.0


From b58d335b670f81665b231d8d9f5a71bb87487872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 73/90] fix: sum and multiply arrays as if element by element

---
 gpkit/nomials/array.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 71c0dc8..7bca36a 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -10,7 +10,7 @@ from operator import eq, le, ge, xor
 from functools import reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
-from ..small_classes import HashVector, EMPTY_HV
+from ..small_classes import HashVector
 from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
@@ -132,7 +132,7 @@ class NomialArray(ReprMixin, np.ndarray):
         if out_arr.ndim:
             return np.ndarray.__array_wrap__(self, out_arr, context)  # pylint: disable=too-many-function-args
         val = out_arr.item()
-        return np.float(val) if isinstance(val, np.generic) else val
+        return float(val) if isinstance(val, np.generic) else val
 
     __eq__ = array_constraint("=", eq)
     __le__ = array_constraint("<=", le)
@@ -156,19 +156,17 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot sum NomialArray of size 0")
         if args or kwargs or not self.shape:
             return np.ndarray.sum(self, *args, **kwargs)
-        hmap = NomialMap()
+        hmap, numbers = None, 0
         for p in self.flat:  # pylint:disable=not-an-iterable
-            if not hmap and hasattr(p, "units"):
-                hmap.units = p.units
-            if hasattr(p, "hmap"):
-                hmap += p.hmap
+            if not hasattr(p, "hmap"):
+                numbers = numbers + p
+            elif hmap is None:
+                hmap = p.hmap
             else:
-                if hasattr(p, "units"):
-                    p = p.to(hmap.units).magnitude
-                elif hmap.units and p and not np.isnan(p):
-                    p /= float(hmap.units)
-                hmap[EMPTY_HV] = p + hmap.get(EMPTY_HV, 0)
-        out = Signomial(hmap)
+                hmap = hmap + p.hmap
+        if hmap is None:
+            return numbers
+        out = Signomial(hmap) + numbers
         out.ast = ("sum", (self, None))
         return out
 
@@ -178,8 +176,7 @@ class NomialArray(ReprMixin, np.ndarray):
             raise ValueError("cannot prod NomialArray of size 0")
         if args or kwargs:
             return np.ndarray.prod(self, *args, **kwargs)
-        c, exp = 1.0, HashVector()
-        hmap = NomialMap()
+        c, exp, units = 1.0, HashVector(), None
         for m in self.flat:  # pylint:disable=not-an-iterable
             try:
                 (mexp, mc), = m.hmap.items()
@@ -187,9 +184,9 @@ class NomialArray(ReprMixin, np.ndarray):
                 return np.ndarray.prod(self, *args, **kwargs)
             c *= mc
             exp += mexp
-            if m.units:
-                hmap.units = (hmap.units or 1) * m.units
-        hmap[exp] = c
+            hmap = NomialMap({exp: c})
+            hmap.units_of_product(units, m.hmap.units)
+            c, units = hmap[exp], hmap.units
         out = Signomial(hmap)
         out.ast = ("prod", (self, None))
         return out
-- 
2.43.0


From 1273d62d3533f5b3771871803dfb0ce648bb7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:17 +0000
Subject: [PATCH 74/90] fix: compare and substitute into arrays that contain
 numbers

---
 gpkit/nomials/array.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/gpkit/nomials/array.py b/gpkit/nomials/array.py
index 7bca36a..c0e03bb 100644
--- a/gpkit/nomials/array.py
+++ b/gpkit/nomials/array.py
@@ -7,7 +7,7 @@
 
 """
 from operator import eq, le, ge, xor
-from functools import reduce  # pylint: disable=redefined-builtin
+from functools import partial, reduce  # pylint: disable=redefined-builtin
 import numpy as np
 from .map import NomialMap
 from ..small_classes import HashVector
@@ -15,7 +15,7 @@ from ..small_scripts import try_str_without
 from ..constraints import ArrayConstraint
 from ..repr_conventions import ReprMixin
 
-@np.vectorize
+@partial(np.vectorize, otypes="O")  # the first element may be of another type
 def vec_recurse(element, function, *args, **kwargs):
     "Vectorizes function with particular args and kwargs"
     return function(element, *args, **kwargs)
@@ -23,7 +23,7 @@ def vec_recurse(element, function, *args, **kwargs):
 
 def array_constraint(symbol, func):
     "Return function which creates constraints of the given operator."
-    vecfunc = np.vectorize(func)
+    vecfunc = np.vectorize(func, otypes="O")
 
     def wrapped_func(self, other):
         "Creates array constraint from vectorized operator."
@@ -148,7 +148,8 @@ class NomialArray(ReprMixin, np.ndarray):
 
     def sub(self, subs, require_positive=True):
         "Substitutes into the array"
-        return self.vectorize(lambda nom: nom.sub(subs, require_positive))
+        return self.vectorize(lambda nom: nom.sub(subs, require_positive)
+                              if hasattr(nom, "sub") else nom)
 
     def sum(self, *args, **kwargs):  # pylint: disable=arguments-differ
         "Returns a sum. O(N) if no arguments are given."
-- 
2.43.0


From 2d021191a5a59c578a3c9bcb7b6900c593ab298a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 75/90] fix: linked functions may return quantities, which are
 converted to the variable's units

---
 gpkit/constraints/prog_factories.py | 10 ++++++----
 gpkit/nomials/variables.py          |  9 ++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/gpkit/constraints/prog_factories.py b/gpkit/constraints/prog_factories.py
index 898c06f..03bd9b3 100644
--- a/gpkit/constraints/prog_factories.py
+++ b/gpkit/constraints/prog_factories.py
@@ -3,8 +3,9 @@ from time import time
 import numpy as np
 from ad import adnumber
 from ..nomials import parse_subs
+from ..nomials.variables import nested_element
 from ..solution_array import SolutionArray
-from ..keydict import KeyDict
+from ..keydict import KeyDict, clean_value
 from ..small_scripts import maybe_flatten
 from ..exceptions import Infeasible
 
@@ -25,10 +26,11 @@ def evaluate_linked(constants, linked):
             if v.veckey and v.veckey.original_fn:
                 if v.veckey not in array_calulated:
                     ofn = v.veckey.original_fn
-                    array_calulated[v.veckey] = np.array(ofn(kdc))
-                out = array_calulated[v.veckey][v.idx]
+                    array_calulated[v.veckey] = ofn(kdc)
+                out = nested_element(array_calulated[v.veckey], v.idx)
             else:
                 out = f(kdc)
+            out = clean_value(v, out)
             constants[v] = out.x
             v.descr["gradients"] = {adn.tag: grad
                                     for adn, grad in out.d().items()
@@ -43,7 +45,7 @@ def evaluate_linked(constants, linked):
                   " directly.\n" % (v, repr(exception)))
             if kdc_plain is None:
                 kdc_plain = KeyDict(constants)
-            constants[v] = f(kdc_plain)
+            constants[v] = clean_value(v, f(kdc_plain))
             v.descr.pop("gradients", None)
 
 
diff --git a/gpkit/nomials/variables.py b/gpkit/nomials/variables.py
index 83a9f85..6304083 100644
--- a/gpkit/nomials/variables.py
+++ b/gpkit/nomials/variables.py
@@ -182,11 +182,18 @@ class ArrayVariable(NomialArray):  # pylint: disable=too-many-locals
         return obj
 
 
+def nested_element(array, idx):
+    "Indexes into an array, nested lists, or arrays with units."
+    for i in idx:
+        array = array[i]
+    return array
+
+
 def veclinkedfn(linkedfn, i):
     "Generate an indexed linking function."
     def newlinkedfn(c):
         "Linked function that pulls out a particular index"
-        return np.array(linkedfn(c))[i]
+        return nested_element(linkedfn(c), i)
     return newlinkedfn
 
 
-- 
2.43.0


From e45f6dd3ca70831e97eebfb33f74ac4ecaeea016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:23 +0000
Subject: [PATCH 76/90] fix: remove mosek_cli's temporary files when a solve
 fails

---
 gpkit/solvers/mosek_cli.py | 76 +++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/gpkit/solvers/mosek_cli.py b/gpkit/solvers/mosek_cli.py
index 32e25d1..3263e47 100644
--- a/gpkit/solvers/mosek_cli.py
+++ b/gpkit/solvers/mosek_cli.py
@@ -78,44 +78,46 @@ def optimize_generator(path=None, **_):
             If the format of mskexpopt's output file is unexpected.
 
         """
-        write_output_file(filename, c, A, p_idxs)
-
-        # run mskexpopt and print stdout
-        solution_filename = filename + ".sol"
         try:
-            for logline in check_output(["mskexpopt", filename, "-sol",
-                                         solution_filename]).split(b"\n"):
-                print(logline)
-        except CalledProcessError as e:
-            # invalid license return codes:
-            #   expired: 233 (linux)
-            #   missing: 240 (linux)
-            if e.returncode in [233, 240]:  # pragma: no cover
-                raise InvalidLicense() from e
-            raise UnknownInfeasible() from e
-        with open(solution_filename) as f:
-            _, probsta = f.readline()[:-1].split("PROBLEM STATUS      : ")
-            if probsta == "PRIMAL_INFEASIBLE":
-                raise PrimalInfeasible()
-            if probsta == "DUAL_INFEASIBLE":
-                raise DualInfeasible()
-            if probsta != "PRIMAL_AND_DUAL_FEASIBLE":
-                raise UnknownInfeasible("PROBLEM STATUS: " + probsta)
-
-            _, solsta = f.readline().split("SOLUTION STATUS     : ")
-            # line looks like "OBJECTIVE           : 2.763550e+002"
-            objective_val = float(f.readline().split()[2])
-            assert_equal(f.readline(), "")
-            assert_equal(f.readline(), "PRIMAL VARIABLES")
-            assert_equal(f.readline(), "INDEX   ACTIVITY")
-            primal_vals = read_vals(f)
-            # read_vals reads the dividing blank line as well
-            assert_equal(f.readline(), "DUAL VARIABLES")
-            assert_equal(f.readline(), "INDEX   ACTIVITY")
-            dual_vals = read_vals(f)
-
-        if tmpdir:
-            shutil.rmtree(path, ignore_errors=False, onerror=remove_read_only)
+            write_output_file(filename, c, A, p_idxs)
+
+            # run mskexpopt and print stdout
+            solution_filename = filename + ".sol"
+            try:
+                for logline in check_output(["mskexpopt", filename, "-sol",
+                                             solution_filename]).split(b"\n"):
+                    print(logline)
+            except CalledProcessError as e:
+                # invalid license return codes:
+                #   expired: 233 (linux)
+                #   missing: 240 (linux)
+                if e.returncode in [233, 240]:  # pragma: no cover
+                    raise InvalidLicense() from e
+                raise UnknownInfeasible() from e
+            with open(solution_filename) as f:
+                _, probsta = f.readline()[:-1].split("PROBLEM STATUS      : ")
+                if probsta == "PRIMAL_INFEASIBLE":
+                    raise PrimalInfeasible()
+                if probsta == "DUAL_INFEASIBLE":
+                    raise DualInfeasible()
+                if probsta != "PRIMAL_AND_DUAL_FEASIBLE":
+                    raise UnknownInfeasible("PROBLEM STATUS: " + probsta)
+
+                _, solsta = f.readline().split("SOLUTION STATUS     : ")
+                # line looks like "OBJECTIVE           : 2.763550e+002"
+                objective_val = float(f.readline().split()[2])
+                assert_equal(f.readline(), "")
+                assert_equal(f.readline(), "PRIMAL VARIABLES")
+                assert_equal(f.readline(), "INDEX   ACTIVITY")
+                primal_vals = read_vals(f)
+                # read_vals reads the dividing blank line as well
+                assert_equal(f.readline(), "DUAL VARIABLES")
+                assert_equal(f.readline(), "INDEX   ACTIVITY")
+                dual_vals = read_vals(f)
+        finally:
+            if tmpdir:
+                shutil.rmtree(path, ignore_errors=False,
+                              onerror=remove_read_only)
 
         return dict(status=solsta[:-1],
                     objective=objective_val,
-- 
2.43.0


From 56ebbda39675eb61d5ff68dae2a191b5df2033b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 77/90] fix: exact coefficients in te_secant beyond twelve
 terms

---
 gpkit/tools/tools.py | 38 +++++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/gpkit/tools/tools.py b/gpkit/tools/tools.py
index 7c7750f..b602ed5 100644
--- a/gpkit/tools/tools.py
+++ b/gpkit/tools/tools.py
@@ -1,4 +1,5 @@
 """Non-application-specific convenience methods for GPkit"""
+from math import factorial
 import numpy as np
 
 
@@ -40,30 +41,29 @@ def te_secant(var, nterm):
     gpkit.Posynomial
         Taylor expansion of secant(x), carried to nterm terms
     """
-    # The first 12 Euler Numbers
-    E2n = np.asarray([1.0,
-                      5,
-                      61,
-                      1385,
-                      50521,
-                      2702765,
-                      199360981,
-                      19391512145,
-                      2404879675441,
-                      370371188237525,
-                      69348874393137901,
-                      15514534163557086905])
-    if nterm > 12:
-        n_extend = np.asarray(range(13, nterm+1))
-        E2n_add = (8 * np.sqrt(n_extend/np.pi)
-                   * (4*n_extend/(np.pi * np.exp(1)))**(2*n_extend))
-        E2n = np.append(E2n, E2n_add)
+    # The first 12 Euler Numbers (by absolute value)
+    E2n = [1,
+           5,
+           61,
+           1385,
+           50521,
+           2702765,
+           199360981,
+           19391512145,
+           2404879675441,
+           370371188237525,
+           69348874393137901,
+           15514534163557086905]
+    for n in range(13, nterm+1):
+        E2n.append(sum((-1)**(n-k-1) * E * factorial(2*n)
+                       // (factorial(2*k) * factorial(2*n - 2*k))
+                       for k, E in enumerate([1] + E2n)))
 
     res = 1
     factorial_denom = 1
     for i in range(1, nterm + 1):
         factorial_denom *= ((2*i)*(2*i-1))
-        res = res + var**(2*i) * E2n[i-1] / factorial_denom
+        res = res + var**(2*i) * float(E2n[i-1]) / factorial_denom
     return res
 
 
-- 
2.43.0


From c89c9beb4cad7f0a10f8bea95020b71296788d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:10 +0000
Subject: [PATCH 78/90] fix: solution queries keep variables that are not in
 the solution

---
 gpkit/solution_array.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index ed33607..226fd8a 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -375,6 +375,8 @@ class SolutionArray(DictOfLists):
 
     def __call__(self, posy):
         posy_subbed = self.subinto(posy)
+        if getattr(posy_subbed, "vks", None):
+            return posy_subbed  # it contains variables not in the solution
         return getattr(posy_subbed, "c", posy_subbed)
 
     def almost_equal(self, other, reltol=1e-3, sens_abstol=0.01):
-- 
2.43.0


From 79016754f926b068b4bbb7da2c515a78d53b3765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:15 +0000
Subject: [PATCH 79/90] fix: plot the cost, a name or an expression over a
 sweep

---
 gpkit/interactive/plot_sweep.py | 2 +-
 gpkit/solution_array.py         | 4 +++-
 gpkit/tools/autosweep.py        | 7 +++----
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index a2d34fe..debab71 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -5,7 +5,7 @@ from ..exceptions import InvalidGPConstraint
 
 def assign_axes(var, posys, axes):
     "Assigns axes to posys, creating and formatting if necessary"
-    if not hasattr(posys, "__iter__"):
+    if isinstance(posys, str) or not hasattr(posys, "__iter__"):
         posys = [posys]
     N = len(posys)
     if axes is None:
diff --git a/gpkit/solution_array.py b/gpkit/solution_array.py
index 226fd8a..4647ae7 100644
--- a/gpkit/solution_array.py
+++ b/gpkit/solution_array.py
@@ -748,7 +748,7 @@ class SolutionArray(DictOfLists):
         "Plots a sweep for each posy"
         if len(self["sweepvariables"]) != 1:
             print("SolutionArray.plot only supports 1-dimensional sweeps")
-        if not hasattr(posys, "__len__"):
+        if isinstance(posys, str) or not hasattr(posys, "__len__"):
             posys = [posys]
         import matplotlib.pyplot as plt
         from .interactive.plot_sweep import assign_axes
@@ -757,6 +757,8 @@ class SolutionArray(DictOfLists):
         posys, axes = assign_axes(swept, posys, axes)
         for posy, ax in zip(posys, axes):
             y = self(posy) if posy not in [None, "cost"] else self["cost"]
+            if isinstance(y, NomialArray):  # posy is an expression
+                y = [mag(value.c) for value in y]
             ax.plot(x, y, color=GPBLU)
         if len(axes) == 1:
             axes, = axes
diff --git a/gpkit/tools/autosweep.py b/gpkit/tools/autosweep.py
index 8f776ac..124d1cf 100644
--- a/gpkit/tools/autosweep.py
+++ b/gpkit/tools/autosweep.py
@@ -206,11 +206,10 @@ class SolutionOracle:
         import matplotlib.pyplot as plt
         from ..interactive.plot_sweep import assign_axes
         from .. import GPBLU
-        if not hasattr(posys, "__len__"):
+        if isinstance(posys, str) or not hasattr(posys, "__len__"):
             posys = [posys]
-        for i, posy in enumerate(posys):
-            if posy in [None, "cost"]:
-                posys[i] = self.bst.costposy
+        posys = [self.bst.costposy if posy in [None, "cost"] else posy
+                 for posy in posys]
         posys, axes = assign_axes(self.bst.sweptvar, posys, axes)
         for posy, ax in zip(posys, axes):
             if self._is_cost(posy):  # with small tol should look like a line
-- 
2.43.0


From 937bd53f26a5a2178a29e185cf915e35458914f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 80/90] fix: plot sweep grids by name, of the cost and of free
 variables

---
 gpkit/interactive/plot_sweep.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gpkit/interactive/plot_sweep.py b/gpkit/interactive/plot_sweep.py
index debab71..df99733 100644
--- a/gpkit/interactive/plot_sweep.py
+++ b/gpkit/interactive/plot_sweep.py
@@ -63,7 +63,7 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             origsol = model.solve(**solveargs)
         except InvalidGPConstraint:
             origsol = model.localsolve(**solveargs)
-    if not hasattr(posys, "__iter__"):
+    if isinstance(posys, str) or not hasattr(posys, "__iter__"):
         posys = [posys]
 
     N, S = len(posys), len(sweeps)
@@ -74,8 +74,10 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
     for i, (swept, swept_over) in enumerate(sweeps.items()):
         if isinstance(swept_over, tuple) and len(swept_over) == 2:
             sol = model.autosweep({swept: swept_over}, tol=tol, **solveargs)
+            sweptvar = sol.bst.sweptvar
         else:
             sol = model.sweep({swept: swept_over}, **solveargs)
+            sweptvar, = sol["sweepvariables"]
 
         if len(sweeps) == 1:
             if len(posys) == 1:
@@ -88,10 +90,12 @@ def plot_1dsweepgrid(model, sweeps, posys, origsol=None, tol=0.01, **solveargs):
             subaxes = axes[:, i]
 
         sol.plot(posys, subaxes)
-        if origsubs:
+        if swept in origsubs:
             for posy, ax in zip(posys, subaxes):
-                ax.plot(origsubs[swept], origsol(posy), "ko", markersize=4)
-        format_and_label_axes(swept, posys, subaxes, ylabel=(i == 0))
+                orig = (origsol["cost"] if posy in [None, "cost"]
+                        else origsol(posy))
+                ax.plot(origsubs[swept], orig, "ko", markersize=4)
+        format_and_label_axes(sweptvar, posys, subaxes, ylabel=(i == 0))
         model.substitutions.update(origsubs)
 
     return f, axes
-- 
2.43.0


From bac1911d00993969e6f445582c82e32176b5d865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:23 +0000
Subject: [PATCH 81/90] fix: compare four models' costs

---
 gpkit/interactive/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/interactive/plotting.py b/gpkit/interactive/plotting.py
index ee2d6b5..5dbfb74 100644
--- a/gpkit/interactive/plotting.py
+++ b/gpkit/interactive/plotting.py
@@ -21,7 +21,8 @@ def compare(models, sweeps, posys, tol=0.001):
     posys, axes = assign_axes(sols[0].bst.sweptvar, posys, None)
     for posy, ax in zip(posys, axes):
         for i, sol in enumerate(sols):
-            if hasattr(posy, "__len__") and len(posy) == len(sols):
+            if (hasattr(posy, "__len__") and not isinstance(posy, str)
+                    and len(posy) == len(sols)):
                 p = posy[i]
             else:
                 p = posy
-- 
2.43.0


From e0271f12aa01f364d396669cd83b324f02a04dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:26 +0000
Subject: [PATCH 82/90] fix: plot each iteration's cost in plot_convergence

---
 gpkit/interactive/plotting.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/gpkit/interactive/plotting.py b/gpkit/interactive/plotting.py
index 5dbfb74..5d75974 100644
--- a/gpkit/interactive/plotting.py
+++ b/gpkit/interactive/plotting.py
@@ -51,14 +51,10 @@ def plot_convergence(model):
     """
     fig, ax = plt.subplots()
 
-    it = np.array([])
-    cost = np.array([])
-    for n in range(len(model.program.gps)):
-        try:
-            cost = np.append(cost, model.program.gps[n].result['cost'])
-            it = np.append(it, n+1)
-        except TypeError:
-            pass
+    # each GP is mutated into the next, but its solver output is not
+    cost = np.array([float(solver_out["objective"])
+                     for solver_out in model.program.solver_outs])
+    it = np.arange(1, len(cost)+1)
     ax.plot(it, cost, '-o')
     ax.set_xlabel('Iteration')
     ax.set_ylabel('Cost')
-- 
2.43.0


From 8162b7f1de4e4db6174379b6c1656270ff10d9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:29 +0000
Subject: [PATCH 83/90] fix: forget a Sankey's earlier diagram when making
 another

---
 gpkit/interactive/sankey.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 24c7f28..392fd96 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -152,6 +152,10 @@ class Sankey:
         self.minsenss = minsenss
         self.maxlinks = maxlinks
         self.showconstraints = showconstraints
+        self.links.clear()
+        self.links_to_target.clear()
+        self.nodes.clear()
+        self.last_top_node = None
 
         for key in self.solution.name_collision_varkeys():
             key.descr["necessarylineage"] = True
-- 
2.43.0


From f1f01e2b179eba7912b34ad453be02865fc22dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:33 +0000
Subject: [PATCH 84/90] fix: show the fixed variables of labelled models in
 Sankey diagrams

---
 gpkit/interactive/sankey.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gpkit/interactive/sankey.py b/gpkit/interactive/sankey.py
index 392fd96..280d16d 100644
--- a/gpkit/interactive/sankey.py
+++ b/gpkit/interactive/sankey.py
@@ -94,8 +94,9 @@ class Sankey:
         "adds links of a given constraint set to self.links"
         total_sens = 0
         switchedtarget = False
-        if not labeled and isnamedmodel(cset):
-            if cset is not self.cset:  # top-level, no need to switch targets
+        if isnamedmodel(cset):
+            # no need to switch targets if it's top-level or has a label
+            if not labeled and cset is not self.cset:
                 switchedtarget = target
                 target = self.add_node(target, cset.lineage[-1][0])
             if var is None:
-- 
2.43.0


From 4fba76a6ad10b7965e7d16477b33bed472b7ecc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:36 +0000
Subject: [PATCH 85/90] fix: accept the documented ranges in modelinteract

---
 gpkit/interactive/widgets.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/gpkit/interactive/widgets.py b/gpkit/interactive/widgets.py
index bd8ad8d..0505065 100644
--- a/gpkit/interactive/widgets.py
+++ b/gpkit/interactive/widgets.py
@@ -31,18 +31,20 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
     if ranges:
         if not isinstance(ranges, dict):
             ranges = {k: None for k in ranges}
+        ranges = dict(ranges)  # it's changed below
         slider_vars = set()
         for k in list(ranges):
             if k in model.substitutions:  # only if already a constant
+                range_ = ranges.pop(k)
                 for key in model.varkeys[k]:
                     slider_vars.add(key)
-                    ranges[key] = ranges[k]
-                del ranges[k]
+                    ranges[key] = range_
     else:
         slider_vars = model.substitutions
     for k in slider_vars:
         v = model.substitutions[k]
         if is_sweepvar(v) or isinstance(v, Numbers):
+            sweep = []
             if is_sweepvar(v):
                 # By default, sweep variables become sliders, so we
                 # need to to update the model's substitutions such that
@@ -52,16 +54,20 @@ def modelinteract(model, fns_of_sol, ranges=None, **solvekwargs):
                 v = sweep[0]
                 model.substitutions.update({k: v})
             vmin, vmax = v/2.0, v*2.0
-            if is_sweepvar(v):
-                vmin = min(vmin, min(sweep))
-                vmax = max(vmax, min(sweep))
-            if ranges and ranges[k]:
-                vmin, vmax = ranges[k]
-            vstep = (vmax-vmin)/24.0
+            vmin, vmax = min([vmin, *sweep]), max([vmax, *sweep])
+            range_ = ranges[k] if ranges else None
             varkey_latex = "$"+k.latex(excluded=["lineage"])+"$"
-            floatslider = widgets.FloatSlider(min=vmin, max=vmax,
-                                              step=vstep, value=v,
-                                              description=varkey_latex)
+            if isinstance(range_, widgets.Widget):
+                floatslider = range_
+            else:
+                if range_:
+                    vmin, vmax = range_[0], range_[-1]
+                vstep = (vmax-vmin)/24.0
+                if range_ and len(range_) == 3:
+                    vstep = range_[1]
+                floatslider = widgets.FloatSlider(min=vmin, max=vmax,
+                                                  step=vstep, value=v,
+                                                  description=varkey_latex)
             floatslider.varkey = k
             ranges_out[str(k)] = floatslider
 
-- 
2.43.0


From 4078f7b3ad98229eea76ee08d528efd919121a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:35 +0000
Subject: [PATCH 86/90] fix: do not relax negative constants, which cannot be
 freed

---
 gpkit/constraints/relax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/relax.py b/gpkit/constraints/relax.py
index e422f75..84b64f4 100644
--- a/gpkit/constraints/relax.py
+++ b/gpkit/constraints/relax.py
@@ -172,8 +172,8 @@ class ConstantsRelaxed(ConstraintSet):
         self._derelax_map = {}
         relaxvars, self.freedvars, relaxation_constraints = [], [], {}
         for const, val in sorted(constants.items(), key=lambda i: i[0].eqstr):
-            if val == 0:
-                substitutions[const] = 0
+            if val <= 0:  # freed, it'd have to be positive
+                substitutions[const] = val
                 continue
             if ((include_only and const.name not in include_only)
                     or const.name in exclude):
-- 
2.43.0


From a4a8d441ceb98c2dde38f3829aa1b9fa68a27e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:47 +0000
Subject: [PATCH 87/90] fix: a dual of exactly zero is no reason for a solution
 check warning

---
 gpkit/constraints/gp.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 4e735d4..9df7e01 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -400,10 +400,13 @@ class GeometricProgram:
         if any(np.abs(A.T.dot(nu)) > tol):
             raise Infeasible("Dual: sum of nu^T * A did not vanish.")
         b = np.log(self.cs)
-        dual_cost = sum(
-            self.nu_by_posy[i].dot(
-                b[mi] - np.log(self.nu_by_posy[i]/la[i]))
-            for i, mi in enumerate(self.m_idxs) if la[i])
+        dual_cost = 0
+        for i, mi in enumerate(self.m_idxs):
+            nu_i = self.nu_by_posy[i]
+            if la[i]:
+                pos = nu_i > 0  # nu*log(nu) vanishes with nu
+                dual_cost += nu_i[pos].dot(
+                    b[mi][pos] - np.log(nu_i[pos]/la[i]))
         if not almost_equal(np.exp(dual_cost), cost):
             raise Infeasible("Dual cost %s does not match primal cost %s"
                              % (np.exp(dual_cost), cost))
-- 
2.43.0


From e2e26c2dd8708c0825c837902e025a3c4b80d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:23 +0000
Subject: [PATCH 88/90] fix: a local solve's sensitivities leave out its slack
 variable's

---
 gpkit/constraints/sgp.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gpkit/constraints/sgp.py b/gpkit/constraints/sgp.py
index 9bfb072..16d0f91 100644
--- a/gpkit/constraints/sgp.py
+++ b/gpkit/constraints/sgp.py
@@ -7,6 +7,7 @@ from ..exceptions import (InvalidGPConstraint, Infeasible, UnnecessarySGP,
                           InvalidPosynomial, InvalidSGPConstraint)
 from ..keydict import KeyDict, clean_value
 from ..nomials import Variable, parse_subs
+from ..repr_conventions import lineagestr
 from .gp import GeometricProgram
 from ..nomials import PosynomialInequality, Posynomial
 from .. import NamedVariables
@@ -61,7 +62,9 @@ class SequentialGeometricProgram:
         if not use_pccp:
             self.slack = 1
         else:
-            self.gpconstraints.append(self.slack >= 1)
+            slackconstraint = (self.slack >= 1)
+            slackconstraint.lineage = self.slack.key.lineage
+            self.gpconstraints.append(slackconstraint)
         cost *= self.slack**pccp_penalty
         self.sgpvks = set()
         x0 = KeyDict(substitutions)
@@ -206,8 +209,10 @@ solutions and can be solved with 'Model.solve()'.""")
                 del self.result["freevariables"][self.slack.key]  # pylint: disable=no-member
                 del self.result["variables"][self.slack.key]  # pylint: disable=no-member
                 del self.result["sensitivities"]["variables"][self.slack.key]  # pylint: disable=no-member
+                self.result["sensitivities"]["cost"].pop(self.slack.key, None)  # pylint: disable=no-member
                 slackconstraint = self.gpconstraints[0]
                 del self.result["sensitivities"]["constraints"][slackconstraint]
+                del self.result["sensitivities"]["models"][lineagestr(slackconstraint)]
             elif verbosity > -1:
                 pywarnings.warn(
                     "Final solution let signomial constraints slacken by"
-- 
2.43.0


From 158c267966cadab8deda7fa07ce282359e43138f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 89/90] fix: a signomial equality may be constant about the
 default guess

---
 gpkit/nomials/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gpkit/nomials/math.py b/gpkit/nomials/math.py
index 8e79d45..fa59284 100644
--- a/gpkit/nomials/math.py
+++ b/gpkit/nomials/math.py
@@ -683,6 +683,7 @@ class SingleSignomialEquality(SignomialInequality):
         posy, negy = siglt0.posy_negy()
         # default guess of 1.0 for unspecified negy variables
         x0 = {vk: x0.get(vk, 1) for vk in siglt0.vks}
-        mec = (posy.mono_lower_bound(x0) == negy.mono_lower_bound(x0))
+        mec = MonomialEquality(posy.mono_lower_bound(x0),
+                               negy.mono_lower_bound(x0))
         mec.generated_by = self
         return mec
-- 
2.43.0


From cf69c08bb4295d1720a0f97e1465a1764b7b042f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:56 +0000
Subject: [PATCH 90/90] fix: the halves of a signomial equality have opposed
 sensitivities

---
 gpkit/constraints/gp.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gpkit/constraints/gp.py b/gpkit/constraints/gp.py
index 9df7e01..bfb6b45 100644
--- a/gpkit/constraints/gp.py
+++ b/gpkit/constraints/gp.py
@@ -323,11 +323,17 @@ class GeometricProgram:
             v_ss, c_senss = c.sens_from_dual(las, nus, result)
             for vk, x in v_ss.items():
                 gpv_ss[vk] = x + gpv_ss.get(vk, 0)
+            approximation = c
             while getattr(c, "generated_by", None):
                 c = c.generated_by
             before = result["sensitivities"]["constraints"].get(c, 0)
-            result["sensitivities"]["constraints"][c] = before + abs(c_senss)
-            m_senss[lineagestr(c)] += abs(c_senss)
+            if c is not approximation and getattr(c, "oper", None) == "=":
+                # the two halves of an equality oppose each other
+                after = abs(before - abs(c_senss))
+            else:
+                after = before + abs(c_senss)
+            result["sensitivities"]["constraints"][c] = after
+            m_senss[lineagestr(c)] += after - before
         # add fixed variables sensitivities to models
         for vk, senss in gpv_ss.items():
             m_senss[lineagestr(vk)] += abs(senss)
-- 
2.43.0

