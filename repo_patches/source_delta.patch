From 67d99d5bbe737f1fe8dfd57be096578083d889fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 01/28] fix: evaluate chains written with ASCII angle brackets
 as angle brackets

compute('<1|2+3|4]') matched the chain pattern but was then evaluated as if
it started with a square bracket, silently returning a different number.
---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 8875cfd..dc71919 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -79,7 +79,7 @@ class Particles_Compute:
         Available variables: ⟨a|b⟩, [a|b], ⟨a|b+c|d], ⟨a|b+c|d+e|f], ..., s_ijk, Δ_ijk, Ω_ijk, Π_ijk, tr5_ijkl"""
 
         # Consistency of string check is left to ast parser.
-        temp_string = rsubs_dict(original_temp_string, bold_digits)
+        temp_string = rsubs_dict(original_temp_string, bold_digits).replace("<", "⟨").replace(">", "⟩")
 
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
-- 
2.43.0


From 1e194dea2b96c48df24efa42c64e17c3ef31c1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 02/28] fix: keep track of the sign of cyclic shifts in tr5

tr5(1+2|3|4|5) was computed as tr5(3|4|5|1+2), which is minus that.
---
 lips/particles_compute.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index dc71919..34b499d 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,13 +84,14 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+            sign = 1
             for _ in range(4):
                 if len(a) == 1:
                     break
-                a, b, c, d = b, c, d, a
+                a, b, c, d, sign = b, c, d, a, -sign  # a cyclic shift is an odd permutation of four entries
             else:
                 raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]")
+            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From 8adbcea01d7438ebbd3d9df35d20929de7fdaf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:54 +0000
Subject: [PATCH 03/28] fix: exact rational numbers without rewriting the
 expression string

Replacing digits/digits by a Fraction in the string ignored operator
precedence: '3/2^2' gave 9/4 and 's_12/3/2' gave s_12/(3/2), while
's_12^12/3' was a syntax error.  Divide exactly during evaluation instead.
---
 lips/particles_eval.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 887104c..3df5cb1 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -158,8 +158,6 @@ class Particles_Eval:
         string = re.sub(r'(?<!tr)(\d)\(', r'\1*(', string)
         string = re.sub(r'\)(\d)', r')*\1', string)
         string = string.replace(')(', ')*(').replace(")o", ")*o")
-        re_rat_nbr = re.compile(r"(?<!\*\*)(\d+)\/(\d+)")
-        string = re_rat_nbr.sub(r"Fraction(\1,\2)", string)
         string = re.sub(r'(?<!numpy\.)block', r'numpy.block', string)
         return string
 
@@ -180,6 +178,12 @@ def _eval_node(node, locals_={}):
         return node.n
 
     elif isinstance(node, ast.BinOp):
+        if isinstance(node.op, (ast.Div, ast.Pow)):
+            left, right = _eval_node(node.left, locals_), _eval_node(node.right, locals_)
+            if isinstance(left, int) and isinstance(right, int):  # keep numbers exact: 1/3, 2**-1
+                res = operators[type(node.op)](Fraction(left), right)
+                return res.numerator if res.denominator == 1 else res
+            return operators[type(node.op)](left, right)
         return operators[type(node.op)](_eval_node(node.left, locals_), _eval_node(node.right, locals_))
 
     elif isinstance(node, ast.UnaryOp):
-- 
2.43.0


From 31e1a2a57d9d119633a5358991e41d88627e3b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:53 +0000
Subject: [PATCH 04/28] =?UTF-8?q?fix:=20accept=20implicit=20multiplication?=
 =?UTF-8?q?=20after=20the=20internal=20mass=20=CE=BC?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

'μ⟨1|2⟩' looked up an attribute called 'μoPs'.
---
 lips/particles_eval.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 3df5cb1..41b06f3 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -133,7 +133,7 @@ class Particles_Eval:
         string = pS2.sub(r"oPs('[\1|\2]')", string)
         string = pSijk.sub(r"oPs('s_\1')", string)
         string = pMi.sub(r"oPs('m_\1')", string)
-        string = re.sub(r"([a-zA-Z\d]+)oPs", r"\1*oPs", string)
+        string = re.sub(r"([a-zA-Zμ\d]+)oPs", r"\1*oPs", string)
         string = pMVar.sub(r"oPs('\1')", string)
         string = pOijk.sub(r"oPs('Ω_\1')", string)
         string = pPijk.sub(r"oPs('Π_\1')", string)
-- 
2.43.0


From f66c2dd42669f325f9155bdf1ba4746c8375540d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:30:25 +0000
Subject: [PATCH 05/28] fix: evaluate m_i and internal masses such as m12
 inside expressions

The particle mass m_i was wrapped twice by the parser, so that '2m_5' (and
'2m12', for an internal mass m12) was a syntax error.
---
 lips/particles_eval.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 41b06f3..815ce66 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -35,7 +35,7 @@ pSd = re.compile(r'(?<!\(\')(?:\[)(\d+)(?:\|)(?!\d\])(?!\d[\+|-])(?!\(\d[\+|-])(
 pSu = re.compile(r'(?<!\(\')(?<!\[\d)(?<![\+|-]\d\))(?<![\+|-]\d)(?:\|)(\d+)(?:\])(?!\'\))')
 pS2bis = re.compile(r'(?:\[)(\d)(\d)(?:\])')
 pSijk = re.compile(r'(?:s|S)(?:_){0,1}(\d+)')
-pMi = re.compile(r'(?:m|M)(?:_){0,1}(\d)')
+pMi = re.compile(r'(?<![a-zA-Z])(?:m|M)(?:_){0,1}(\d)(?!\d)')
 pMVar = re.compile(r'(?<![a-zA-Z])((?:m|M|μ)(?:_){0,1}[a-zA-Z]*[\d]*)')
 pOijk = re.compile(r'(?:Ω_)(\d+)')
 pPijk = re.compile(r'(?:Π_)(\d+)')
@@ -132,7 +132,7 @@ class Particles_Eval:
         string = pS2bis.sub(r"[\1|\2]", string)
         string = pS2.sub(r"oPs('[\1|\2]')", string)
         string = pSijk.sub(r"oPs('s_\1')", string)
-        string = pMi.sub(r"oPs('m_\1')", string)
+        string = pMi.sub(r"oPs('s_\1')", string)  # m_i = s_i (an m here would be matched again by pMVar)
         string = re.sub(r"([a-zA-Zμ\d]+)oPs", r"\1*oPs", string)
         string = pMVar.sub(r"oPs('\1')", string)
         string = pOijk.sub(r"oPs('Ω_\1')", string)
-- 
2.43.0


From 433268c5eb03d079b326d7208592f8f77068e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:05 +0000
Subject: [PATCH 06/28] fix: keep each value with its Mandelstam when flipping
 the longest of a pair

---
 lips/hardcoded_limits/particles_set_pair.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/hardcoded_limits/particles_set_pair.py b/lips/hardcoded_limits/particles_set_pair.py
index e2deced..ab63542 100644
--- a/lips/hardcoded_limits/particles_set_pair.py
+++ b/lips/hardcoded_limits/particles_set_pair.py
@@ -813,7 +813,7 @@ class Particles_SetPair:
                 t_s2 += '{}'.format(ovrlap[i])
         else:                                             # otherwise if there are not enough free particles flip the longest
             if len(ijk) > len(lmn):                       # make sure lmn is the longest
-                lmn, ijk, t_s1 = ijk, lmn, t_s2
+                lmn, ijk, t_s1, t_v1, t_v2 = ijk, lmn, t_s2, t_v2, t_v1
             lmn = list(map(int, self._complementary(map(str, lmn))))
             t_s2 = 's_'
             for i in range(len(lmn)):
-- 
2.43.0


From 947e8fa3c0199ebd13580b8265d4952a34f96081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:06 +0000
Subject: [PATCH 07/28] fix: set nested Mandelstams starting from the contained
 one

---
 lips/hardcoded_limits/particles_set_pair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lips/hardcoded_limits/particles_set_pair.py b/lips/hardcoded_limits/particles_set_pair.py
index ab63542..08a19b1 100644
--- a/lips/hardcoded_limits/particles_set_pair.py
+++ b/lips/hardcoded_limits/particles_set_pair.py
@@ -800,6 +800,8 @@ class Particles_SetPair:
             else:
                 lmno += [l]
         plist = list(map(int, self._complementary(list(map(str, ovrlap + ijko + lmno)))))
+        if lmno == [] and ijko != []:                     # lmn is contained in ijk: set the contained one first
+            return self._set_pair_inner(t_s2, t_v2, t_s1, t_v1)
         if len(plist) >= 2:                               # if there are at least two free particles then
             t_s1 = 's_'                                   # just make sure the overlap is at the end
             for i in range(len(ijko)):                    # and use mode=1/mode=2 for the first/second respectively
-- 
2.43.0


From 45c0ad6172547fbf7475ed432f96f3a5e019ed82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:38 +0000
Subject: [PATCH 08/28] fix: contract entries of chains starting with a
 spin-index square spinor in order

---
 lips/particles_eval.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lips/particles_eval.py b/lips/particles_eval.py
index 815ce66..00222d4 100644
--- a/lips/particles_eval.py
+++ b/lips/particles_eval.py
@@ -150,7 +150,9 @@ class Particles_Eval:
         string = pNB_open_begin.sub(r"oPs('\1')", string)
         string = pNB_open_end.sub(r"oPs('\1')", string)
         string = pNB_double_open.sub(r"oPs('\1')", string)
-        string = pNB_double_open_disambiguate_alphadot.sub(r"numpy.transpose(-ϵ @ oPs('\1') @ ϵ)", string)
+        string = pNB_double_open_disambiguate_alphadot.sub(  # only every other entry needs its indices flipped
+            lambda match: "@".join(f"oPs('|{entry}|')" if i % 2 else f"numpy.transpose(-ϵ @ oPs('|{entry}|') @ ϵ)"
+                                   for i, entry in enumerate(match.group(1)[1:-1].split("|"))), string)
         # open index end
         string = string.replace("sqrt", "oPs.field.sqrt")
         string = re.sub(r'(\d)s', r'\1*s', string)
-- 
2.43.0


From 7d13e54738b3888081338705ea78931a36867544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 09/28] fix: copy points with ten or more legs without
 reordering them

---
 lips/particles.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 2e6bf26..fa645ba 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -158,8 +158,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             return oResParticles
 
     def copy(self):
-        from .symmetries import identity
-        return self.image(identity(len(self)))
+        return copy.deepcopy(self)
 
     def cluster(self, llIntegers, massive_fermions=None):
         """Returns clustered particle objects according to lists of lists of integers (e.g. corners of one loop diagram).
-- 
2.43.0


From 7851c7bab0b45a679b5178c9beb1996cda2936a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 10/28] fix: permute legs by position, also when two of them
 have the same momentum

---
 lips/particles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index fa645ba..4fff7e6 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -146,7 +146,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if type(permutation_or_rule) is str:
             if not permutation_or_rule.isdigit():
                 raise ValueError(f"Permutation to map phase space points should be a string of integers, got: {permutation_or_rule}.")
-            oResParticles = copy.deepcopy(Particles(sorted(self, key=lambda x: permutation_or_rule[self.index(x)]),
+            permuted_legs = sorted(range(1, len(self) + 1), key=lambda i: permutation_or_rule[i - 1])
+            oResParticles = copy.deepcopy(Particles([self[i] for i in permuted_legs],
                                                     field=self.field, fix_mom_cons=False, internal_masses=self.internal_masses_dict))
             oResParticles.__dict__ = copy.deepcopy(self.__dict__)
             return oResParticles
-- 
2.43.0


From d3b5955830c7e6ec3581e2df9c7cda91a50f327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 11/28] fix: accept a list or tuple of names of internal masses

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 4fff7e6..997582d 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -65,7 +65,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
             for internal_mass, value in internal_masses.items():
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
-            self.internal_masses = internal_masses
+            self.internal_masses = set()
             for internal_mass in internal_masses:
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
-- 
2.43.0


From 99f2bb5ce2d195ab664660ce0bacaa824de5b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 12/28] fix: points with different numbers of legs are
 different

---
 lips/particles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 997582d..5eaa87e 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -89,7 +89,7 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def __eq__(self, other):
         """Checks equality of each particle in particles."""
         if isinstance(other, Particles):
-            return all(self[i] == other[i] for i in range(1, len(self) + 1))
+            return len(self) == len(other) and all(self[i] == other[i] for i in range(1, len(self) + 1))
         else:
             return False
 
-- 
2.43.0


From 0dc58b4e743790e6cf43eff770a6683ea16d7e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 13/28] fix: look up legs with two-digit labels by string

---
 lips/particles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index 5eaa87e..be94b50 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -394,8 +394,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         if isinstance(index, str):
             if pAu.findall(index) != [] or pAd.findall(index) != [] or pSu.findall(index) != [] or pSd.findall(index) != []:
                 return self.compute(index)
-            elif re.findall(r"(\d)", index) != []:
-                return self[int(re.findall(r"(\d)", index)[0])]
+            elif re.findall(r"(\d+)", index) != []:
+                return self[int(re.findall(r"(\d+)", index)[0])]
             else:
                 raise IndexError(index)
         elif isinstance(index, slice):
-- 
2.43.0


From 0abe706c517572e416f7351a9714241b915bf6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:25 +0000
Subject: [PATCH 14/28] fix: adding or subtracting zero returns an independent
 particle

---
 lips/particle.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index e513018..6216406 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -9,7 +9,7 @@ import numpy
 import sympy
 import lips
 
-from copy import copy
+from copy import deepcopy
 from sympy import NotInvertible
 
 from syngular import Field
@@ -72,21 +72,21 @@ class Particle(object):
     def __add__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __radd__(self, other):
         """Sum: summs the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp + other.r2_sp, field=self.field)
 
     def __sub__(self, other):
         """Sub: subtract the four momenta."""
         if other == 0:
-            return copy(self)
+            return deepcopy(self)
         assert isinstance(other, Particle)
         return Particle(kinematics=self.r2_sp - other.r2_sp, field=self.field)
 
-- 
2.43.0


From 7bef8a8d7df0f4efcbe583edde50dee5685bb305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:06 +0000
Subject: [PATCH 15/28] fix: clustering keeps the value of internal masses
 given as Mandelstams

---
 lips/particles.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/lips/particles.py b/lips/particles.py
index be94b50..102b649 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -21,7 +21,7 @@ from sympy import NotInvertible
 from syngular import Field
 from pyadic import PAdic, ModP
 
-from .tools import MinkowskiMetric, flatten, subs_dict, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
+from .tools import MinkowskiMetric, flatten, pNB, myException, indexing_decorator, pAu, pAd, pSu, pSd, pMVar, LeviCivita
 from .particle import Particle
 from .particles_compute import Particles_Compute
 from .particles_eval import Particles_Eval
@@ -166,10 +166,21 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
         Massive legs are by default massive scalars.
         Massive fermions can be specificed as e.g.: massive_fermions=((3, 'u', all), (4, 'd', all)))
         """
-        drule1 = dict(zip(["s" + "".join(map(str, entry)) for entry in llIntegers], [f"s{i}" for i in range(1, len(llIntegers) + 1)]))
-        drule2 = dict(zip(["s_" + "".join(map(str, entry)) for entry in llIntegers], [f"s_{i}" for i in range(1, len(llIntegers) + 1)]))
-        clustered_internal_masses = {key: (subs_dict(val, drule1 | drule2) if isinstance(val, str) else val)
-                                     for key, val in self.internal_masses_dict.items()}
+        def relabel(match):
+            """Mandelstam of the corners made of the given legs, e.g. s_345 becomes s_23 when the second and third corners are 34 and 5."""
+            legs = set(map(int, match.group(2)))
+            corners = [i for i, corner in enumerate(llIntegers, 1) if set(corner) <= legs]
+            if set(leg for i in corners for leg in llIntegers[i - 1]) != legs:
+                raise ValueError(f"{match.group()} is not a Mandelstam of the corners {llIntegers}.")
+            return match.group(1) + "".join(map(str, corners))
+
+        clustered_internal_masses = self.internal_masses_dict
+        for key, val in clustered_internal_masses.items():
+            if isinstance(val, str):
+                try:
+                    clustered_internal_masses[key] = re.sub(r'(?<![a-zA-Z])([sS]_?)(\d+)', relabel, val)
+                except ValueError:  # not a function of the clustered momenta only
+                    clustered_internal_masses[key] = self.compute(val)
         selfClustered = Particles([sum([self[i] for i in corner_as_integers]) for corner_as_integers in llIntegers],
                                   field=self.field, fix_mom_cons=False, internal_masses=clustered_internal_masses)
         if massive_fermions is not None:
-- 
2.43.0


From 8fa74cc8eb6c6def5f2de78a779eef820ba43431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:06 +0000
Subject: [PATCH 16/28] fix: contract polarizations of helicities in mixed
 notation

---
 lips/particles_compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 34b499d..38fe29a 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -64,7 +64,7 @@ class Particles_Compute:
 
     def ee(self, i, j):
         """Contraction of two polarization tensors. Requires .helconf property to be set."""
-        if self.helconf[i - 1] == self.helconf[j - 1]:
+        if (self.helconf[i - 1] in ["-", "m"]) == (self.helconf[j - 1] in ["-", "m"]):
             return 0
         elif self.helconf[i - 1] in ["-", "m"]:
             # ε⁻ᵢ⋅ε⁺ⱼ = ⟨i|q|j] / ⟨j|q|i]
-- 
2.43.0


From 856f5a46caf56791d47ce60e57179ddc1630ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:09 +0000
Subject: [PATCH 17/28] fix: make the list of four-brackets independent of the
 hash seed

---
 lips/invariants.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index b208a10..a359709 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -285,7 +285,7 @@ def all_strings(n, temp_string):
             a = abcd.group('start')
             bc = abcd.group('middle')
             d = abcd.group('end')
-            if a != d:
+            if a != d or iInv not in result:
                 continue
             bc = re.split(r'[\)|\|]', bc)
             bc = [entry.replace('|', '') for entry in bc]
@@ -296,9 +296,9 @@ def all_strings(n, temp_string):
             alt = [set(entry.split("+")) for entry in alt]
             if bc[0].issubset(alt[1]):
                 new_alt = alt[1] - bc[0]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[0]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_bc, new_alt, d)
                 else:
@@ -313,9 +313,9 @@ def all_strings(n, temp_string):
                         result.remove(equal_inv)
             if bc[1].issubset(alt[0]):
                 new_alt = alt[0] - bc[1]
-                new_alt = "+".join(new_alt)
+                new_alt = "+".join(sorted(new_alt))
                 new_bc = bc[1]
-                new_bc = "+".join(new_bc)
+                new_bc = "+".join(sorted(new_bc))
                 if iInv[0] == "⟨":
                     equal_inv = "⟨{}|({})|({})|{}⟩".format(a, new_alt, new_bc, d)
                 else:
-- 
2.43.0


From 2f2aedde740a115fe29d78507478d080e156218b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 18/28] fix: generate invariants with
 FurtherRestrict4Brackets=False

---
 lips/invariants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index a359709..d2244ff 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -454,7 +454,7 @@ def Purge4Brackets(n, invs_4, FurtherRestrict4Brackets):
         if minimal is False:
             continue
         bc = [entry.split("+") for entry in bc]
-        bc = [map(int, entry) for entry in bc]
+        bc = [list(map(int, entry)) for entry in bc]
         if FurtherRestrict4Brackets is False:                                   # check if it is neighbouring
             near = [a, a + 1, a - 1]
             if a == n:
-- 
2.43.0


From 83c4738b6b62fe940bafe845acb5d1945b51e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:11 +0000
Subject: [PATCH 19/28] fix: regenerate an incomplete cache of invariants, and
 cache only the default list

---
 lips/invariants.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lips/invariants.py b/lips/invariants.py
index d2244ff..335d022 100644
--- a/lips/invariants.py
+++ b/lips/invariants.py
@@ -27,7 +27,9 @@ class Invariants(object):
 
         self.multiplicity = n
 
-        if no_cached is False and self.pw_invariants is not None and Restrict3Brackets is True and Restrict4Brackets is True:
+        # only the list obtained with the default options is cached
+        if (no_cached is False and self.pw_invariants is not None and no_hard_coded_ones is False and
+                Restrict3Brackets is True and Restrict4Brackets is True and FurtherRestrict4Brackets is True):
             try:
                 # Read From Cache
                 with shelve.open(self.pw_invariants, 'r') as sInvariants:
@@ -44,13 +46,13 @@ class Invariants(object):
                         self.invs_P = sInvariants[str("invs_P")]   # This is Π_ijk
                         self.invs_tr5 = sInvariants[str("invs_tr5")]   # This is tr5
                     else:
-                        raise Exception("Missing piece - regenerate invariants.")
+                        raise KeyError("Missing piece - regenerate invariants.")
 
-            except dbm.error[0]:
+            except (dbm.error[0], KeyError):
                 if verbose:
                     print("Regenerating from scratch")
                 # Generate Them & Write To Cache
-                with shelve.open(self.pw_invariants, 'c') as sInvariants:
+                with shelve.open(self.pw_invariants, 'n') as sInvariants:
                     self.GenerateFromScratch(n, no_hard_coded_ones,
                                              Restrict3Brackets=Restrict3Brackets, Restrict4Brackets=Restrict4Brackets, FurtherRestrict4Brackets=FurtherRestrict4Brackets)
                     sInvariants[str("invs_2")] = self.invs_2
-- 
2.43.0


From d84017e4f28f30955c988e8ac1c5390826076ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:14 +0000
Subject: [PATCH 20/28] fix: set every tr5 to the requested value, with its
 sign

---
 lips/hardcoded_limits/particles_set.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lips/hardcoded_limits/particles_set.py b/lips/hardcoded_limits/particles_set.py
index e5cfbb5..7e12020 100644
--- a/lips/hardcoded_limits/particles_set.py
+++ b/lips/hardcoded_limits/particles_set.py
@@ -463,10 +463,11 @@ class Particles_Set:
 
         abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
         a, b, c, d = abcd.split("|") if "|" in abcd else abcd
+        sign = 1
         for _ in range(4):
             if len(a) == 1:
                 break
-            a, b, c, d = b, c, d, a
+            a, b, c, d, sign = b, c, d, a, -sign  # a cyclic shift is an odd permutation of four entries
         else:
             raise NotImplementedError("tr5 set implementation requires at least 1 massless particle.")
 
@@ -488,7 +489,15 @@ class Particles_Set:
             a5, b5 = self[5].r_sp_d.flatten().tolist()
             c5, d5 = self[5].l_sp_d.flatten().tolist()
 
-            x = 4 * temp_value
+            # all tr5's are integer multiples of tr5_1234, by antisymmetry and momentum conservation
+            coeffs = numpy.zeros((4, 4), dtype=int)  # of p_1, ..., p_4 in each of the entries
+            for row, entry in enumerate((a, b, c, d)):
+                for pm, leg in re.findall(r"([+-]?)(\d)", entry):
+                    coeffs[row] += (-1 if pm == "-" else 1) * (numpy.eye(5, 4, dtype=int)[int(leg) - 1] - (leg == "5"))
+            multiple = sign * round(numpy.linalg.det(coeffs))
+            if multiple == 0:
+                raise myException(f"{temp_string} is identically zero at 5-point.")
+            x = 4 * temp_value * self.field(1) / multiple
 
             b1 = (a2**2*b3**2*b4*c1*c2*c3*d2*d3*d4 - a2**2*b3**2*b4*c1*c2*c4*d2*d3**2 - a2**2*b3**2*b4*c1*c3**2*d2**2*d4 + a2**2*b3**2*b4*c1*c3*c4*d2**2*d3 - a2**2*b3**2*b4*c2**2*c3*d1*d3*d4 + a2**2*b3**2*b4*c2**2*c4*d1*d3**2 + a2**2*b3**2*b4*c2*c3**2*d1*d2*d4 - a2**2*b3**2*b4*c2*c3*c4*d1*d2*d3 + a2**2*b3*b4**2*c1*c2*c3*d2*d4**2 - a2**2*b3*b4**2*c1*c2*c4*d2*d3*d4 - a2**2*b3*b4**2*c1*c3*c4*d2**2*d4 + a2**2*b3*b4**2*c1*c4**2*d2**2*d3 - a2**2*b3*b4**2*c2**2*c3*d1*d4**2 + a2**2*b3*b4**2*c2**2*c4*d1*d3*d4 + a2**2*b3*b4**2*c2*c3*c4*d1*d2*d4 - a2**2*b3*b4**2*c2*c4**2*d1*d2*d3 - a2*a3*b2*b3*b4*c1*c2**2*d3**2*d4 + 2*a2*a3*b2*b3*b4*c1*c2*c4*d2*d3**2 + a2*a3*b2*b3*b4*c1*c3**2*d2**2*d4 - 2*a2*a3*b2*b3*b4*c1*c3*c4*d2**2*d3 + 2*a2*a3*b2*b3*b4*c2**2*c3*d1*d3*d4 - a2*a3*b2*b3*b4*c2**2*c4*d1*d3**2 - 2*a2*a3*b2*b3*b4*c2*c3**2*d1*d2*d4 + a2*a3*b2*b3*b4*c3**2*c4*d1*d2**2 - a2*a3*b2*b4**2*c1*c2**2*d3*d4**2 + 2*a2*a3*b2*b4**2*c1*c2*c4*d2*d3*d4 - a2*a3*b2*b4**2*c1*c4**2*d2**2*d3 + a2*a3*b2*b4**2*c2**2*c3*d1*d4**2 - 2*a2*a3*b2*b4**2*c2*c3*c4*d1*d2*d4 + a2*a3*b2*b4**2*c3*c4**2*d1*d2**2 + a2*a3*b3*b4**2*c1*c3**2*d2*d4**2 - 2*a2*a3*b3*b4**2*c1*c3*c4*d2*d3*d4 + a2*a3*b3*b4**2*c1*c4**2*d2*d3**2 - a2*a3*b3*b4**2*c2*c3**2*d1*d4**2 + 2*a2*a3*b3*b4**2*c2*c3*c4*d1*d3*d4 - a2*a3*b3*b4**2*c2*c4**2*d1*d3**2 + a2*a4*b2*b3**2*c1*c2**2*d3**2*d4 - 2*a2*a4*b2*b3**2*c1*c2*c3*d2*d3*d4 + a2*a4*b2*b3**2*c1*c3**2*d2**2*d4 - a2*a4*b2*b3**2*c2**2*c4*d1*d3**2 + 2*a2*a4*b2*b3**2*c2*c3*c4*d1*d2*d3 - a2*a4*b2*b3**2*c3**2*c4*d1*d2**2 + a2*a4*b2*b3*b4*c1*c2**2*d3*d4**2 - 2*a2*a4*b2*b3*b4*c1*c2*c3*d2*d4**2 + 2*a2*a4*b2*b3*b4*c1*c3*c4*d2**2*d4 - a2*a4*b2*b3*b4*c1*c4**2*d2**2*d3 + a2*a4*b2*b3*b4*c2**2*c3*d1*d4**2 - 2*a2*a4*b2*b3*b4*c2**2*c4*d1*d3*d4 + 2*a2*a4*b2*b3*b4*c2*c4**2*d1*d2*d3 - a2*a4*b2*b3*b4*c3*c4**2*d1*d2**2 - a2*a4*b3**2*b4*c1*c3**2*d2*d4**2 + 2*a2*a4*b3**2*b4*c1*c3*c4*d2*d3*d4 - a2*a4*b3**2*b4*c1*c4**2*d2*d3**2 + a2*a4*b3**2*b4*c2*c3**2*d1*d4**2 - 2*a2*a4*b3**2*b4*c2*c3*c4*d1*d3*d4 + a2*a4*b3**2*b4*c2*c4**2*d1*d3**2 + a3**2*b2**2*b4*c1*c2**2*d3**2*d4 - a3**2*b2**2*b4*c1*c2*c3*d2*d3*d4 - a3**2*b2**2*b4*c1*c2*c4*d2*d3**2 + a3**2*b2**2*b4*c1*c3*c4*d2**2*d3 - a3**2*b2**2*b4*c2**2*c3*d1*d3*d4 + a3**2*b2**2*b4*c2*c3**2*d1*d2*d4 + a3**2*b2**2*b4*c2*c3*c4*d1*d2*d3 - a3**2*b2**2*b4*c3**2*c4*d1*d2**2 - a3**2*b2*b4**2*c1*c2*c3*d3*d4**2 + a3**2*b2*b4**2*c1*c2*c4*d3**2*d4 + a3**2*b2*b4**2*c1*c3*c4*d2*d3*d4 - a3**2*b2*b4**2*c1*c4**2*d2*d3**2 + a3**2*b2*b4**2*c2*c3**2*d1*d4**2 - a3**2*b2*b4**2*c2*c3*c4*d1*d3*d4 - a3**2*b2*b4**2*c3**2*c4*d1*d2*d4 + a3**2*b2*b4**2*c3*c4**2*d1*d2*d3 - a3*a4*b2**2*b3*c1*c2**2*d3**2*d4 + 2*a3*a4*b2**2*b3*c1*c2*c3*d2*d3*d4 - a3*a4*b2**2*b3*c1*c3**2*d2**2*d4 + a3*a4*b2**2*b3*c2**2*c4*d1*d3**2 - 2*a3*a4*b2**2*b3*c2*c3*c4*d1*d2*d3 + a3*a4*b2**2*b3*c3**2*c4*d1*d2**2 + a3*a4*b2**2*b4*c1*c2**2*d3*d4**2 - 2*a3*a4*b2**2*b4*c1*c2*c4*d2*d3*d4 + a3*a4*b2**2*b4*c1*c4**2*d2**2*d3 - a3*a4*b2**2*b4*c2**2*c3*d1*d4**2 + 2*a3*a4*b2**2*b4*c2*c3*c4*d1*d2*d4 - a3*a4*b2**2*b4*c3*c4**2*d1*d2**2 + 2*a3*a4*b2*b3*b4*c1*c2*c3*d3*d4**2 - 2*a3*a4*b2*b3*b4*c1*c2*c4*d3**2*d4 - a3*a4*b2*b3*b4*c1*c3**2*d2*d4**2 + a3*a4*b2*b3*b4*c1*c4**2*d2*d3**2 - a3*a4*b2*b3*b4*c2*c3**2*d1*d4**2 + a3*a4*b2*b3*b4*c2*c4**2*d1*d3**2 + 2*a3*a4*b2*b3*b4*c3**2*c4*d1*d2*d4 - 2*a3*a4*b2*b3*b4*c3*c4**2*d1*d2*d3 - a4**2*b2**2*b3*c1*c2**2*d3*d4**2 + a4**2*b2**2*b3*c1*c2*c3*d2*d4**2 + a4**2*b2**2*b3*c1*c2*c4*d2*d3*d4 - a4**2*b2**2*b3*c1*c3*c4*d2**2*d4 + a4**2*b2**2*b3*c2**2*c4*d1*d3*d4 - a4**2*b2**2*b3*c2*c3*c4*d1*d2*d4 - a4**2*b2**2*b3*c2*c4**2*d1*d2*d3 + a4**2*b2**2*b3*c3*c4**2*d1*d2**2 - a4**2*b2*b3**2*c1*c2*c3*d3*d4**2 + a4**2*b2*b3**2*c1*c2*c4*d3**2*d4 + a4**2*b2*b3**2*c1*c3**2*d2*d4**2 - a4**2*b2*b3**2*c1*c3*c4*d2*d3*d4 + a4**2*b2*b3**2*c2*c3*c4*d1*d3*d4 - a4**2*b2*b3**2*c2*c4**2*d1*d3**2 - a4**2*b2*b3**2*c3**2*c4*d1*d2*d4 + a4**2*b2*b3**2*c3*c4**2*d1*d2*d3 - b2*c1*d2*x/4 + b2*c2*d1*x/4 - b3*c1*d3*x/4 + b3*c3*d1*x/4 - b4*c1*d4*x/4 + b4*c4*d1*x/4)/(a2**2*b3*b4*c1**2*c3*d2**2*d4 - a2**2*b3*b4*c1**2*c4*d2**2*d3 - 2*a2**2*b3*b4*c1*c2*c3*d1*d2*d4 + 2*a2**2*b3*b4*c1*c2*c4*d1*d2*d3 + a2**2*b3*b4*c2**2*c3*d1**2*d4 - a2**2*b3*b4*c2**2*c4*d1**2*d3 - a2*a3*b2*b4*c1**2*c3*d2**2*d4 + a2*a3*b2*b4*c1**2*c4*d2**2*d3 + 2*a2*a3*b2*b4*c1*c2*c3*d1*d2*d4 - 2*a2*a3*b2*b4*c1*c2*c4*d1*d2*d3 - a2*a3*b2*b4*c2**2*c3*d1**2*d4 + a2*a3*b2*b4*c2**2*c4*d1**2*d3 + a2*a3*b3*b4*c1**2*c2*d3**2*d4 - a2*a3*b3*b4*c1**2*c4*d2*d3**2 - 2*a2*a3*b3*b4*c1*c2*c3*d1*d3*d4 + 2*a2*a3*b3*b4*c1*c3*c4*d1*d2*d3 + a2*a3*b3*b4*c2*c3**2*d1**2*d4 - a2*a3*b3*b4*c3**2*c4*d1**2*d2 + a2*a3*b4**2*c1**2*c2*d3*d4**2 - a2*a3*b4**2*c1**2*c3*d2*d4**2 - 2*a2*a3*b4**2*c1*c2*c4*d1*d3*d4 + 2*a2*a3*b4**2*c1*c3*c4*d1*d2*d4 + a2*a3*b4**2*c2*c4**2*d1**2*d3 - a2*a3*b4**2*c3*c4**2*d1**2*d2 - a2*a4*b2*b3*c1**2*c3*d2**2*d4 + a2*a4*b2*b3*c1**2*c4*d2**2*d3 + 2*a2*a4*b2*b3*c1*c2*c3*d1*d2*d4 - 2*a2*a4*b2*b3*c1*c2*c4*d1*d2*d3 - a2*a4*b2*b3*c2**2*c3*d1**2*d4 + a2*a4*b2*b3*c2**2*c4*d1**2*d3 - a2*a4*b3**2*c1**2*c2*d3**2*d4 + a2*a4*b3**2*c1**2*c4*d2*d3**2 + 2*a2*a4*b3**2*c1*c2*c3*d1*d3*d4 - 2*a2*a4*b3**2*c1*c3*c4*d1*d2*d3 - a2*a4*b3**2*c2*c3**2*d1**2*d4 + a2*a4*b3**2*c3**2*c4*d1**2*d2 - a2*a4*b3*b4*c1**2*c2*d3*d4**2 + a2*a4*b3*b4*c1**2*c3*d2*d4**2 + 2*a2*a4*b3*b4*c1*c2*c4*d1*d3*d4 - 2*a2*a4*b3*b4*c1*c3*c4*d1*d2*d4 - a2*a4*b3*b4*c2*c4**2*d1**2*d3 + a2*a4*b3*b4*c3*c4**2*d1**2*d2 - a3**2*b2*b4*c1**2*c2*d3**2*d4 + a3**2*b2*b4*c1**2*c4*d2*d3**2 + 2*a3**2*b2*b4*c1*c2*c3*d1*d3*d4 - 2*a3**2*b2*b4*c1*c3*c4*d1*d2*d3 - a3**2*b2*b4*c2*c3**2*d1**2*d4 + a3**2*b2*b4*c3**2*c4*d1**2*d2 + a3*a4*b2**2*c1**2*c3*d2**2*d4 - a3*a4*b2**2*c1**2*c4*d2**2*d3 - 2*a3*a4*b2**2*c1*c2*c3*d1*d2*d4 + 2*a3*a4*b2**2*c1*c2*c4*d1*d2*d3 + a3*a4*b2**2*c2**2*c3*d1**2*d4 - a3*a4*b2**2*c2**2*c4*d1**2*d3 + a3*a4*b2*b3*c1**2*c2*d3**2*d4 - a3*a4*b2*b3*c1**2*c4*d2*d3**2 - 2*a3*a4*b2*b3*c1*c2*c3*d1*d3*d4 + 2*a3*a4*b2*b3*c1*c3*c4*d1*d2*d3 + a3*a4*b2*b3*c2*c3**2*d1**2*d4 - a3*a4*b2*b3*c3**2*c4*d1**2*d2 - a3*a4*b2*b4*c1**2*c2*d3*d4**2 + a3*a4*b2*b4*c1**2*c3*d2*d4**2 + 2*a3*a4*b2*b4*c1*c2*c4*d1*d3*d4 - 2*a3*a4*b2*b4*c1*c3*c4*d1*d2*d4 - a3*a4*b2*b4*c2*c4**2*d1**2*d3 + a3*a4*b2*b4*c3*c4**2*d1**2*d2 + a4**2*b2*b3*c1**2*c2*d3*d4**2 - a4**2*b2*b3*c1**2*c3*d2*d4**2 - 2*a4**2*b2*b3*c1*c2*c4*d1*d3*d4 + 2*a4**2*b2*b3*c1*c3*c4*d1*d2*d4 + a4**2*b2*b3*c2*c4**2*d1**2*d3 - a4**2*b2*b3*c3*c4**2*d1**2*d2)  # noqa
             a1 = (a2**2*b1*b3*b4*c1*c3*d2**2*d4 - a2**2*b1*b3*b4*c1*c4*d2**2*d3 - a2**2*b1*b3*b4*c2*c3*d1*d2*d4 + a2**2*b1*b3*b4*c2*c4*d1*d2*d3 - a2**2*b3**2*b4*c2*c3*d2*d3*d4 + a2**2*b3**2*b4*c2*c4*d2*d3**2 + a2**2*b3**2*b4*c3**2*d2**2*d4 - a2**2*b3**2*b4*c3*c4*d2**2*d3 - a2**2*b3*b4**2*c2*c3*d2*d4**2 + a2**2*b3*b4**2*c2*c4*d2*d3*d4 + a2**2*b3*b4**2*c3*c4*d2**2*d4 - a2**2*b3*b4**2*c4**2*d2**2*d3 - a2*a3*b1*b2*b4*c1*c3*d2**2*d4 + a2*a3*b1*b2*b4*c1*c4*d2**2*d3 + a2*a3*b1*b2*b4*c2**2*d1*d3*d4 - 2*a2*a3*b1*b2*b4*c2*c4*d1*d2*d3 + a2*a3*b1*b2*b4*c3*c4*d1*d2**2 + a2*a3*b1*b3*b4*c1*c2*d3**2*d4 - a2*a3*b1*b3*b4*c1*c4*d2*d3**2 - a2*a3*b1*b3*b4*c2*c4*d1*d3**2 - a2*a3*b1*b3*b4*c3**2*d1*d2*d4 + 2*a2*a3*b1*b3*b4*c3*c4*d1*d2*d3 + a2*a3*b1*b4**2*c1*c2*d3*d4**2 - a2*a3*b1*b4**2*c1*c3*d2*d4**2 - a2*a3*b1*b4**2*c2*c4*d1*d3*d4 + a2*a3*b1*b4**2*c3*c4*d1*d2*d4 + a2*a3*b2*b3*b4*c2**2*d3**2*d4 - 2*a2*a3*b2*b3*b4*c2*c4*d2*d3**2 - a2*a3*b2*b3*b4*c3**2*d2**2*d4 + 2*a2*a3*b2*b3*b4*c3*c4*d2**2*d3 + a2*a3*b2*b4**2*c2**2*d3*d4**2 - 2*a2*a3*b2*b4**2*c2*c4*d2*d3*d4 + a2*a3*b2*b4**2*c4**2*d2**2*d3 - a2*a3*b3*b4**2*c3**2*d2*d4**2 + 2*a2*a3*b3*b4**2*c3*c4*d2*d3*d4 - a2*a3*b3*b4**2*c4**2*d2*d3**2 - a2*a4*b1*b2*b3*c1*c3*d2**2*d4 + a2*a4*b1*b2*b3*c1*c4*d2**2*d3 - a2*a4*b1*b2*b3*c2**2*d1*d3*d4 + 2*a2*a4*b1*b2*b3*c2*c3*d1*d2*d4 - a2*a4*b1*b2*b3*c3*c4*d1*d2**2 - a2*a4*b1*b3**2*c1*c2*d3**2*d4 + a2*a4*b1*b3**2*c1*c4*d2*d3**2 + a2*a4*b1*b3**2*c2*c3*d1*d3*d4 - a2*a4*b1*b3**2*c3*c4*d1*d2*d3 - a2*a4*b1*b3*b4*c1*c2*d3*d4**2 + a2*a4*b1*b3*b4*c1*c3*d2*d4**2 + a2*a4*b1*b3*b4*c2*c3*d1*d4**2 - 2*a2*a4*b1*b3*b4*c3*c4*d1*d2*d4 + a2*a4*b1*b3*b4*c4**2*d1*d2*d3 - a2*a4*b2*b3**2*c2**2*d3**2*d4 + 2*a2*a4*b2*b3**2*c2*c3*d2*d3*d4 - a2*a4*b2*b3**2*c3**2*d2**2*d4 - a2*a4*b2*b3*b4*c2**2*d3*d4**2 + 2*a2*a4*b2*b3*b4*c2*c3*d2*d4**2 - 2*a2*a4*b2*b3*b4*c3*c4*d2**2*d4 + a2*a4*b2*b3*b4*c4**2*d2**2*d3 + a2*a4*b3**2*b4*c3**2*d2*d4**2 - 2*a2*a4*b3**2*b4*c3*c4*d2*d3*d4 + a2*a4*b3**2*b4*c4**2*d2*d3**2 - a3**2*b1*b2*b4*c1*c2*d3**2*d4 + a3**2*b1*b2*b4*c1*c4*d2*d3**2 + a3**2*b1*b2*b4*c2*c3*d1*d3*d4 - a3**2*b1*b2*b4*c3*c4*d1*d2*d3 - a3**2*b2**2*b4*c2**2*d3**2*d4 + a3**2*b2**2*b4*c2*c3*d2*d3*d4 + a3**2*b2**2*b4*c2*c4*d2*d3**2 - a3**2*b2**2*b4*c3*c4*d2**2*d3 + a3**2*b2*b4**2*c2*c3*d3*d4**2 - a3**2*b2*b4**2*c2*c4*d3**2*d4 - a3**2*b2*b4**2*c3*c4*d2*d3*d4 + a3**2*b2*b4**2*c4**2*d2*d3**2 + a3*a4*b1*b2**2*c1*c3*d2**2*d4 - a3*a4*b1*b2**2*c1*c4*d2**2*d3 - a3*a4*b1*b2**2*c2*c3*d1*d2*d4 + a3*a4*b1*b2**2*c2*c4*d1*d2*d3 + a3*a4*b1*b2*b3*c1*c2*d3**2*d4 - a3*a4*b1*b2*b3*c1*c4*d2*d3**2 - 2*a3*a4*b1*b2*b3*c2*c3*d1*d3*d4 + a3*a4*b1*b2*b3*c2*c4*d1*d3**2 + a3*a4*b1*b2*b3*c3**2*d1*d2*d4 - a3*a4*b1*b2*b4*c1*c2*d3*d4**2 + a3*a4*b1*b2*b4*c1*c3*d2*d4**2 - a3*a4*b1*b2*b4*c2*c3*d1*d4**2 + 2*a3*a4*b1*b2*b4*c2*c4*d1*d3*d4 - a3*a4*b1*b2*b4*c4**2*d1*d2*d3 + a3*a4*b2**2*b3*c2**2*d3**2*d4 - 2*a3*a4*b2**2*b3*c2*c3*d2*d3*d4 + a3*a4*b2**2*b3*c3**2*d2**2*d4 - a3*a4*b2**2*b4*c2**2*d3*d4**2 + 2*a3*a4*b2**2*b4*c2*c4*d2*d3*d4 - a3*a4*b2**2*b4*c4**2*d2**2*d3 - 2*a3*a4*b2*b3*b4*c2*c3*d3*d4**2 + 2*a3*a4*b2*b3*b4*c2*c4*d3**2*d4 + a3*a4*b2*b3*b4*c3**2*d2*d4**2 - a3*a4*b2*b3*b4*c4**2*d2*d3**2 + a4**2*b1*b2*b3*c1*c2*d3*d4**2 - a4**2*b1*b2*b3*c1*c3*d2*d4**2 - a4**2*b1*b2*b3*c2*c4*d1*d3*d4 + a4**2*b1*b2*b3*c3*c4*d1*d2*d4 + a4**2*b2**2*b3*c2**2*d3*d4**2 - a4**2*b2**2*b3*c2*c3*d2*d4**2 - a4**2*b2**2*b3*c2*c4*d2*d3*d4 + a4**2*b2**2*b3*c3*c4*d2**2*d4 + a4**2*b2*b3**2*c2*c3*d3*d4**2 - a4**2*b2*b3**2*c2*c4*d3**2*d4 - a4**2*b2*b3**2*c3**2*d2*d4**2 + a4**2*b2*b3**2*c3*c4*d2*d3*d4 + b2*d2*x/4 + b3*d3*x/4 + b4*d4*x/4)/(d1*(a2*b3**2*b4*c2*c3*d3*d4 - a2*b3**2*b4*c2*c4*d3**2 - a2*b3**2*b4*c3**2*d2*d4 + a2*b3**2*b4*c3*c4*d2*d3 + a2*b3*b4**2*c2*c3*d4**2 - a2*b3*b4**2*c2*c4*d3*d4 - a2*b3*b4**2*c3*c4*d2*d4 + a2*b3*b4**2*c4**2*d2*d3 + a3*b2**2*b4*c2**2*d3*d4 - a3*b2**2*b4*c2*c3*d2*d4 - a3*b2**2*b4*c2*c4*d2*d3 + a3*b2**2*b4*c3*c4*d2**2 - a3*b2*b4**2*c2*c3*d4**2 + a3*b2*b4**2*c2*c4*d3*d4 + a3*b2*b4**2*c3*c4*d2*d4 - a3*b2*b4**2*c4**2*d2*d3 - a4*b2**2*b3*c2**2*d3*d4 + a4*b2**2*b3*c2*c3*d2*d4 + a4*b2**2*b3*c2*c4*d2*d3 - a4*b2**2*b3*c3*c4*d2**2 - a4*b2*b3**2*c2*c3*d3*d4 + a4*b2*b3**2*c2*c4*d3**2 + a4*b2*b3**2*c3**2*d2*d4 - a4*b2*b3**2*c3*c4*d2*d3))  # noqa
@@ -508,7 +517,7 @@ class Particles_Set:
             self[5].l_sp_d = numpy.array([[c5, d5]], dtype=object)
 
         else:  # at 6-point and above there is a simple solution, as the system becomes block diagonal with a suitable choice of variables.
-            X = temp_value
+            X = sign * temp_value
             A, B = self(f"[{a}|{b}|{c}|{d}|-[{a}|{d}|{c}|{b}|").flatten().tolist()
             C, D = self[a].r_sp_d[0, 0], self[a].r_sp_d[1, 0]
             C = (X - B * D) / A
-- 
2.43.0


From 77117f6681c8273568bdf8e78f855a743f2060fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:24:45 +0000
Subject: [PATCH 21/28] fix: tr5 of massive legs does not use their undefined
 spinors

---
 lips/particles_compute.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/lips/particles_compute.py b/lips/particles_compute.py
index 38fe29a..1e1d60f 100644
--- a/lips/particles_compute.py
+++ b/lips/particles_compute.py
@@ -84,14 +84,7 @@ class Particles_Compute:
         if ptr5.findall(temp_string) != []:                         # tr5_ijkl [i|j|k|l|i⟩ - ⟨i|j|k|l|i]
             abcd = ptr5.findall(temp_string)[0][0 if "_" in temp_string else 1]
             a, b, c, d = abcd.split("|") if "|" in abcd else abcd
-            sign = 1
-            for _ in range(4):
-                if len(a) == 1:
-                    break
-                a, b, c, d, sign = b, c, d, a, -sign  # a cyclic shift is an odd permutation of four entries
-            else:
-                raise NotImplementedError("tr5 implementation requires at least 1 massless particle.")
-            return sign * (self.compute(f"[{a}|{b}|{c}|{d}|{a}⟩") - self.compute(f"⟨{a}|{b}|{c}|{d}|{a}]"))
+            return self.compute(f"tr({a}|{b}|{c}|{d})") - self.compute(f"tr({b}|{c}|{d}|{a})")
 
         if ptr.findall(temp_string) != []:                          # e.g.: tr(i+j|k-l|...)
             abcd = ptr.search(temp_string)
-- 
2.43.0


From b8a28f50e5dd3e730f479c5d0648bbbdbfa01e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 22/28] fix: sums and clusters over the rationals have no
 spinors instead of raising

---
 lips/particle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lips/particle.py b/lips/particle.py
index 6216406..a986962 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -365,6 +365,8 @@ class Particle(object):
         if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
         elif lips.spinor_convention == 'symmetric':
+            if self.field.name in ('rational', 'gaussian rational'):
+                raise ValueError(f"No square roots in the field: {self.field.name}.")
             lambda_one = self.field.sqrt(P0_plus_P3)
             lambda_two = P1_plus_iP2 / lambda_one
         elif lips.spinor_convention == 'asymmetric':
@@ -383,6 +385,8 @@ class Particle(object):
         if lips.spinor_convention == 'symmetric' and abs(P0_plus_P3) <= self.field.tollerance:
             raise ValueError("Encountered zero denominator in spinor.")
         elif lips.spinor_convention == 'symmetric':
+            if self.field.name in ('rational', 'gaussian rational'):
+                raise ValueError(f"No square roots in the field: {self.field.name}.")
             lambda_one = self.field.sqrt(P0_plus_P3)
             lambda_two = P1_minus_iP2 / lambda_one
         elif lips.spinor_convention == 'asymmetric':
-- 
2.43.0


From d6dc0d608df3a92bc0c50c05e4115853a7b16f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 23/28] fix: to_field converts massive legs, fermions and
 internal masses

---
 lips/particle.py  | 13 ++++++++++---
 lips/particles.py |  4 ++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/lips/particle.py b/lips/particle.py
index a986962..dabf9db 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -52,10 +52,17 @@ class Particle(object):
             raise Exception('Bad Particle Constructor')
 
     def to_field(self, field):
-        self._r_sp_d = numpy.vectorize(field)(self.r_sp_d)
-        self._r_sp_d_to_r_sp_u()
-        self.l_sp_d = numpy.vectorize(field)(self.l_sp_d)
         self.field = field
+        # every representation is converted: for massive particles the momentum does not follow from the spinors
+        for name in ('_r_sp_d', '_r_sp_u', '_l_sp_d', '_l_sp_u', '_r2_sp', '_r2_sp_b'):
+            if getattr(self, name) is not None:
+                setattr(self, name, numpy.vectorize(field, otypes=[object])(getattr(self, name)))
+        try:
+            self._r2_sp_b_to_four_momentum()
+            self._four_mom_to_four_mom_d()
+        except (ValueError, TypeError, SystemError, NotInvertible):
+            self._four_mom = None
+            self._four_mom_d = None
 
     def __eq__(self, other):
         """Equality: checks equality of four momenta."""
diff --git a/lips/particles.py b/lips/particles.py
index 102b649..3e8c316 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -76,6 +76,10 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
     def to_field(self, field):
         for oP in self:
             oP.to_field(field)
+        self.oRefVec.to_field(field)
+        for internal_mass, value in self.internal_masses_dict.items():
+            if not isinstance(value, str):
+                setattr(self, internal_mass, field(value))
         self.field = field
 
     def __setattr__(self, name, value):
-- 
2.43.0


From 014cf67629be08e707a7ffce9ce80ebca611490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 24/28] fix: square spinors of a bivariate slice move
 independently of the angle ones

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 40161ad..8c89eb5 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -75,7 +75,7 @@ class Particles_Slices:
             ys2 = sympy.symbols(f'y2_1:{len(self) + 1}')
             for i, oP in enumerate(self):
                 oP.r_sp_d = oP.r_sp_d + t1 * xs1[i] * oPShift1.r_sp_d + t2 * xs2[i] * oPShift2.r_sp_d
-                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * xs2[i] * oPShift2.l_sp_d
+                oP.l_sp_d = oP.l_sp_d + t1 * ys1[i] * oPShift1.l_sp_d + t2 * ys2[i] * oPShift2.l_sp_d
 
             equations = [sympy.poly(entry.expand(), modulus=self.field.characteristic ** self.field.digits) for entry in self.total_mom.flatten().tolist()]
             equations += [sympy.poly(self(constraint).expand(), modulus=self.field.characteristic ** self.field.digits) for constraint in extra_constraints]
-- 
2.43.0


From 24432f6bc859686addaa0e39686767336b3f8239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 25/28] fix: slices without a seed can discard a solution

---
 lips/particles_slices.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 8c89eb5..2f87c9a 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -43,7 +43,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':  # ring-agnostic algorithm, less efficient: ⟨ij⟩ is quadratic in t
@@ -89,7 +89,7 @@ class Particles_Slices:
             counter = 0
             while 0 in xSubs.values():
                 counter += 1
-                xSubs = ideal.point_on_variety(self.field, seed=seed + counter)
+                xSubs = ideal.point_on_variety(self.field, seed=None if seed is None else seed + counter)
             self.subs(xSubs)
 
         elif algorithm == 'generic':
-- 
2.43.0


From 4b0ede09a2b9c6b0b5d91cce85b96a28fdc2a8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 26/28] fix: the generic slice respects its seed

---
 lips/particles_slices.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lips/particles_slices.py b/lips/particles_slices.py
index 2f87c9a..a81a36b 100644
--- a/lips/particles_slices.py
+++ b/lips/particles_slices.py
@@ -50,7 +50,7 @@ class Particles_Slices:
             multiplicity = len(self)
             I = LipsIdeal(multiplicity, extra_constraints)
             I.to_qring(I)
-            univariate_slice = I.ring.univariate_slice(self.field)
+            univariate_slice = I.ring.univariate_slice(self.field, seed=seed)
             update_particles(self, univariate_slice(t))
 
         else:
-- 
2.43.0


From cbfe2b454cbd075f1201cc08968a71d42629db87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:51 +0000
Subject: [PATCH 27/28] fix: random internal masses of a set of names do not
 depend on its iteration order

---
 lips/particles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lips/particles.py b/lips/particles.py
index 3e8c316..0e5fe1d 100644
--- a/lips/particles.py
+++ b/lips/particles.py
@@ -66,7 +66,8 @@ class Particles(Particles_Compute, Particles_Eval, Particles_Set, Particles_SetP
                 self.__setattr__(internal_mass, value)
         elif isinstance(internal_masses, (list, tuple, set)) and all(isinstance(internal_mass, str) for internal_mass in internal_masses):
             self.internal_masses = set()
-            for internal_mass in internal_masses:
+            # the order of a set is not reproducible, the masses drawn for a given seed should be
+            for internal_mass in (sorted(internal_masses) if isinstance(internal_masses, set) else internal_masses):
                 self.__setattr__(internal_mass, self.field.random())
         elif internal_masses is None:
             self.internal_masses = set()
-- 
2.43.0


From 75441de568efd3ca259361b6315b9c91b36d2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:35 +0000
Subject: [PATCH 28/28] fix: to_field keeps massless legs massless under any
 conversion, massive legs keep their momentum

---
 lips/particle.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lips/particle.py b/lips/particle.py
index dabf9db..ab075da 100644
--- a/lips/particle.py
+++ b/lips/particle.py
@@ -52,8 +52,15 @@ class Particle(object):
             raise Exception('Bad Particle Constructor')
 
     def to_field(self, field):
+        if numpy.shape(self.r_sp_d) == (2, 1) and numpy.shape(self.l_sp_d) == (1, 2) and abs(self.m2) <= self.field.tollerance:
+            # the momentum is recomputed from the spinors: massless particles stay massless under any conversion
+            self.field = field
+            self._r_sp_d = numpy.vectorize(field, otypes=[object])(self.r_sp_d)
+            self._r_sp_d_to_r_sp_u()
+            self.l_sp_d = numpy.vectorize(field, otypes=[object])(self.l_sp_d)
+            return
         self.field = field
-        # every representation is converted: for massive particles the momentum does not follow from the spinors
+        # for massive particles the momentum does not follow from the spinors, every representation is converted
         for name in ('_r_sp_d', '_r_sp_u', '_l_sp_d', '_l_sp_u', '_r2_sp', '_r2_sp_b'):
             if getattr(self, name) is not None:
                 setattr(self, name, numpy.vectorize(field, otypes=[object])(getattr(self, name)))
-- 
2.43.0

