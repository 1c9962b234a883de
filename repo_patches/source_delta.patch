From 5f8aae42d1981d81bee207ec8514ece333c3dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:12 +0000
Subject: [PATCH 01/50] fix: covers/same compare set extensions even when the
 two terms share variables

---
 dyna/term.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dyna/term.py b/dyna/term.py
index a87f873..565e179 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -558,6 +558,9 @@ def covers(x, y):
     Check if the set of terms denoted by `x` is a superset of the set of terms
     denoted by `y`.
     """
+    # The sets don't depend on variable identity, so a variable occurring on both
+    # sides must not be mistaken for a constraint between them: rename apart.
+    if not term_vars(x).isdisjoint(term_vars(y)): y = fresh(y)
     return Subst().cover(x, y) is not FAIL
 
 #______________________________________________________________________________
-- 
2.43.0


From 8f7f69cc70dc7686af13e4787d118e41a971ac39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 02/50] fix: anti-unification reuses a variable only for the
 same pair of subterms

---
 dyna/term.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/dyna/term.py b/dyna/term.py
index 565e179..d5dca5b 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -649,15 +649,11 @@ def generalizer(t1, t2, s1=Ellipsis, s2=Ellipsis):
             return Term(*(traverse(a, b) for a, b in zip(x, y)))
 
         else:
-            if x in s1:
-                return s1[x]
-            if y in s2:
-                return s2[y]
-
-            z = Var()
-            s1[x] = z
-            s2[y] = z
-            return z
+            # Two positions may share a variable only if they disagree in the
+            # same way, i.e., on the same *pair* (x, y).
+            if (x, y) not in s1:
+                s1[x, y] = Var()
+            return s1[x, y]
 
     return traverse(t1, t2)
 
-- 
2.43.0


From 0660f8aaae236ce549f22580c427efa4dd855626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:01 +0000
Subject: [PATCH 03/50] fix: DisjointEstimate re-checks the entries already
 passed when a merge generalizes the new one

---
 dyna/term.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index d5dca5b..ff75796 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -1023,10 +1023,13 @@ class DisjointEstimate:
         # actually merge.  Two freshenings maintain it: on entry, and after each `generalizer` (which
         # can re-inject the matched entry's vars).  O(#merges), not O(#entries), freshenings per add.
         r = fresh(r)
-        for i in reversed(range(len(self.xs))):
+        i = len(self.xs) - 1
+        while i >= 0:
             if unifies(r, self.xs[i]):   # overlaps
                 r = fresh(generalizer(r, self.xs[i]))
                 del self.xs[i]
+                i = len(self.xs)         # `r` grew, so it may overlap entries we already passed
+            i -= 1
         self.xs.append(canonicalize(r))
     def find_all(self, x):
         "Return the unique branch of the partition that x falls into (or throw an error)"
-- 
2.43.0


From 4982e0822e357391508286811a54ac99ac318074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:31 +0000
Subject: [PATCH 04/50] fix: elim splits every subgoal that the eliminated
 rule's head matches

---
 dyna/program.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 5e93a71..ddba5ba 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1835,6 +1835,7 @@ input/output declarations</summary>\
         algorithm or `solve_linear`.
         """
         tmps = OrderedSet()
+        if driver is not None: driver = fresh(driver)   # its variables may occur in the rules
         for i, s in enumerate(self):
             #print('rule', s)
             for j, x in enumerate(s.body):
@@ -1843,7 +1844,9 @@ input/output declarations</summary>\
                 if self.is_builtin(x): continue
                 for k in range(j+1, len(s.body)):
                     y = s.body[k]
-                    if unifies(x, y):
+                    # subgoals that both match the driver need not unify with each other
+                    if unifies(x, y) or (driver is not None and isinstance(y, Term)
+                                           and not self.is_builtin(y) and unifies(y, driver)):
                         tmps.add((i,k))
 
         if not tmps:
-- 
2.43.0


From 56abd1d22449bd779a42ba2858bf70959829a937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:34 +0000
Subject: [PATCH 05/50] fix: slash's useful-other test renames the item apart
 from the spine subgoals

---
 dyna/transform/slash.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/transform/slash.py b/dyna/transform/slash.py
index 9160717..e7c6cd4 100644
--- a/dyna/transform/slash.py
+++ b/dyna/transform/slash.py
@@ -136,6 +136,7 @@ class Slash(TransformedProgram):
             return x
 
     def _is_useful_other(self, x):
+        x = fresh(x)    # the subgoal and the head of one rule share variables
         return any(unifies(x, y) for y in self._useful_other)
 
     def tidy(self, **kwargs):
-- 
2.43.0


From f68a721ae1fb02d49375369eeb1ef99e9309bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:34 +0000
Subject: [PATCH 06/50] fix: lct's useful-other test renames the item apart
 from the spine subgoals

---
 dyna/transform/lct.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/transform/lct.py b/dyna/transform/lct.py
index e0775b6..2b56a23 100644
--- a/dyna/transform/lct.py
+++ b/dyna/transform/lct.py
@@ -136,6 +136,7 @@ class LCT(TransformedProgram):
             return x
 
     def _is_useful_other(self, x):
+        x = fresh(x)    # the subgoal and the head of one rule share variables
         return any(unifies(x, y) for y in self._useful_other)
 
     def transform(self, d):
-- 
2.43.0


From f496756593eb61096d6a4ca7102dac49c991ca00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:33 +0000
Subject: [PATCH 07/50] fix: rules whose head is a variable match every
 functor, and can be appended once the index exists

---
 dyna/program.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index ddba5ba..e0d64fd 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -464,7 +464,7 @@ input/output declarations</summary>\
         i = len(self.rules)
         self.rules.append(r)
         if self._cache_f2r is not None:
-            self._cache_f2r[r.head.fn].append(i)
+            self._cache_f2r[self._f2r_key(r)].append(i)
         self._invalidate_caches()
         return i
 
@@ -1379,17 +1379,19 @@ input/output declarations</summary>\
     def f2r(self, f):
         if self._cache_f2r is None:
             # Rule indexing by head functor
-            syms = self.syms
             f2r = defaultdict(list)
             for i, r in enumerate(self):
-                if isinstance(r.head,  Term):
-                    f2r[r.head.fn].append(i)
-                else:
-                    # head is a variable
-                    assert isinstance(r.head, Var), r
-                    for f in syms: f2r[f].append(i)   # every functor uses matches the wild rule.
+                f2r[self._f2r_key(r)].append(i)
             self._cache_f2r = f2r
-        return self._cache_f2r.get(f, [])
+        ix = self._cache_f2r.get(f, [])
+        wild = self._cache_f2r.get(None, [])   # every functor matches the wild rules
+        return sorted(ix + wild) if wild else ix
+
+    @staticmethod
+    def _f2r_key(r):
+        if isinstance(r.head, Term): return r.head.fn
+        # head is a variable
+        assert isinstance(r.head, Var), r
 
     #___________________________________________________________________________
     # Symbol management
-- 
2.43.0


From 8ebd0a82bffe31b3bc4e6ed6e4188eb4a5f9c2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:46 +0000
Subject: [PATCH 08/50] fix: a delayed comparison is not also looked up as an
 ordinary item

---
 dyna/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/program.py b/dyna/program.py
index e0d64fd..1112bac 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1328,6 +1328,7 @@ input/output declarations</summary>\
                     r = Rule(q, q)    # delayed
                     r.i = None
                     yield r
+                    return
 
             if q.fn == '=' and q.arity == 2:
                 [X,Y] = q.args
-- 
2.43.0


From 7c9eb50351542e5b9eedbb0defd279d32af1cc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:46 +0000
Subject: [PATCH 09/50] fix: type analysis applies its depth limit to
 constraints, so that it terminates

---
 dyna/analyze/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index c88fa23..1ac47f2 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -209,9 +209,10 @@ class TypeAnalyzer:
         if self.DEBUG > 0 and not same(r.head, h):
             print(colors.red % f'[truncate]     {r.head}')
             print(colors.red % f'[truncate]  -> {h}')
-        # Drop any constraint that mentions local variables.
+        # Drop any constraint that mentions local variables or is too tall.
         head_vars = term_vars(h)
-        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)})
+        s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
+                      and same(x, truncate_term(x, self.max_depth))})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
-- 
2.43.0


From 4807918d57b4bfbda5df7358e118926cc5779075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:34 +0000
Subject: [PATCH 10/50] fix: types inferred without insts carry no $free or
 $bound constraints, so that bottom-up pruning terminates

---
 dyna/analyze/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 1ac47f2..4566565 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -212,7 +212,8 @@ class TypeAnalyzer:
         # Drop any constraint that mentions local variables or is too tall.
         head_vars = term_vars(h)
         s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
-                      and same(x, truncate_term(x, self.max_depth))})
+                      and same(x, truncate_term(x, self.max_depth))
+                      and (self.use_insts or x.fn not in {'$free', '$bound'})})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
             print(colors.yellow % '      prop: ', _pp(r, color=False))
-- 
2.43.0


From 1475f3128fe8bb0297839b094bb6e5cab1189ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:24 +0000
Subject: [PATCH 11/50] fix: constraint propagation reports builtin results
 over the constraint's own variables, so that it terminates

---
 dyna/propagate.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 106822a..0e45480 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -3,7 +3,7 @@ Constraint propagation
 """
 from arsenal import colors
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, fresh, Var, replace_in_expr, Subst, FAIL
+from dyna.term import Term, Fresh, Var, replace_in_expr, Subst, FAIL, fresh, deref, is_var
 from dyna.program import Program
 from dyna.builtin import Builtins
 
@@ -138,15 +138,15 @@ class ConstraintPropagation:
 
         elif q.fn == 'is':
             # indirect to avoid in-place variable - we use subst in this module.
-            q0 = fresh(q)
+            rename = Fresh()
+            q0 = rename(q)
             b = self.builtins
             if b.is_ready(q0):    # evaluate subgoal if it's ready
                 count = 0
                 for _ in b(q0):
                     assert count == 0, 'only semidet constraints should run'
                     count += 1
-                    subst1 = Subst().mgu(fresh(q0), q)
-                    yield subst1
+                    yield self._new_bindings(rename.m)
                 if count == 0:
                     yield None
             else:
@@ -155,6 +155,24 @@ class ConstraintPropagation:
         else:
             yield Ellipsis
 
+    @staticmethod
+    def _new_bindings(m):
+        """
+        Bindings learned by running a builtin on a copy of a constraint.  `m` maps
+        the constraint's variables to their copies.  The bindings are expressed
+        over the constraint's own variables: were we to introduce new variables
+        here, the propagation would never reach a fixpoint.
+        """
+        m = {v: deref(x) for v,x in m.items()}
+        back = Subst()
+        for v,x in m.items():
+            if is_var(x) and x not in back: back[x] = v
+        subst = Subst()
+        for v,x in m.items():
+            y = back(x)
+            if y != v: subst[v] = y
+        return subst
+
     def update(self, x):
         if x not in self.chart:
             self.agenda.add(x)
-- 
2.43.0


From 6f95aa686bcbe0e89da1e44acfcc69fa4c49c6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 12/50] fix: whether two simple types overlap does not depend
 on their order: a $free variable must not be equated with another of its own
 type

---
 dyna/analyze/rewrites.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index c728230..31da123 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -113,21 +113,30 @@ class Rewrites:
 
                 if free_vars & got_bound: return
 
-                # We have a problem if there is more than 1 variable equal to `X`.
-                if any(sum((X == A or X == B) for [_,A,B] in cp.bindings) > 1 for X in free_vars):
-                    return
-
                 if not all((y.fn == '$free' or X not in term_vars(y)) for y in chart for X in free_vars):
                     return
 
         return Rule(subst(R.head), *(chart - drop))
 
+    @staticmethod
+    def _equates_free(subst, *types):
+        """
+        Does `subst` equate a $free variable of one of the simple types with another
+        variable of the same type?  Then it's not *free*, it's *equality constrained*.
+        """
+        for r in types:
+            for X in {x.args[0] for x in r.body if isinstance(x, Term) and x.fn == '$free'}:
+                if any(X != Y and subst(X) == subst(Y) for Y in term_vars(r)):
+                    return True
+        return False
+
     def intersect(self, r, s, ALLOW_FREE_MERGE=False):
         "Compute the intersection of simple types `r` and `s`."
         s = fresh(s)
         assert isinstance(r, Rule) and isinstance(s, Rule), [r, s]
         subst = Subst().mgu(r.head, s.head)
         if subst is Subst.FAIL: return None
+        if not ALLOW_FREE_MERGE and self._equates_free(subst, r, s): return None
         return self(Rule(r.head, *r.body, *s.body, *scons(subst)),
                     ALLOW_FREE_MERGE=ALLOW_FREE_MERGE)
 
@@ -146,6 +155,7 @@ class Rewrites:
 
         t = Rule(r.head, *s.body, *r.body, *sc)
         T = self(t, ALLOW_FREE_MERGE=False, drop_checked=True)
+        if self._equates_free(subst, r, s): T = None
 
         if DEBUG > 2:
             head_cond = S is not None and T is not None and s.head == T.head
-- 
2.43.0


From 10faaebb4d88a9a7c11c47537804ab79ad11208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 13/50] fix: type analysis does not call a variable $free when
 a truncated subterm contains it too

---
 dyna/analyze/types.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 4566565..2a80117 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -63,6 +63,16 @@ def truncate_term(x, D):
     else:
         return x
 
+def truncated_vars(x, D):
+    "Return the variables of the subterms that `truncate_term(x, D)` replaces."
+    x = snap(x)
+    if D <= 0:
+        return set(term_vars(x))
+    elif isinstance(x, Term):
+        return {v for y in x.args for v in truncated_vars(y, D-1)}
+    else:
+        return set()
+
 #_______________________________________________________________________________
 #
 
@@ -211,8 +221,12 @@ class TypeAnalyzer:
             print(colors.red % f'[truncate]  -> {h}')
         # Drop any constraint that mentions local variables or is too tall.
         head_vars = term_vars(h)
+        # A variable that also occurs in a truncated subterm is not $free: it may
+        # be equal to the variable that replaces the subterm.
+        hidden = truncated_vars(r.head, self.max_depth)
         s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
                       and same(x, truncate_term(x, self.max_depth))
+                      and not (x.fn == '$free' and x.args[0] in hidden)
                       and (self.use_insts or x.fn not in {'$free', '$bound'})})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
-- 
2.43.0


From 68b2f631af139228375f5eff09f4652e14562628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 14/50] fix: abbreviation multiplies by infinity exactly when a
 free local variable is lost

---
 dyna/analyze/abbreviate.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 80a2c41..1bae194 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -6,17 +6,13 @@ from arsenal import colors
 
 from dyna import (
     Rule, PrettyPrinter, TransformedProgram, join_f, Term, term_vars, fresh,
-    Subst, snap
+    Subst, snap, deref
 )
 
 
 def body(x): return x.body if isinstance(x, Rule) else [x]
 
 
-def snap_vars(x):
-    return {snap(v) for v in term_vars(x)}
-
-
 def freebies(r):
     "Returns the set of $free-typed variables in `r`."
     return {
@@ -96,7 +92,7 @@ class Abbreviate(TransformedProgram):
                         *head_constraints,
                     )
 
-                    new_rule = self.__dropped_var_correction(body_closure, new_rule, debug)
+                    new_rule = self.__dropped_var_correction(r, new_rule, debug)
 
                     add_rule(r_id, new_rule)
 
@@ -104,9 +100,10 @@ class Abbreviate(TransformedProgram):
         # the user's type parameter are now required as input
         self.set_input_types(self.inputs + self.types._input_type.inputs)
 
-    def __dropped_var_correction(self, body_closure, new_rule, debug):
+    def __dropped_var_correction(self, r, new_rule, debug):
         # apply the multiplicity correction if a free local variable is lost
-        if freebies(body_closure) - snap_vars(body_closure.head) != freebies(new_rule) - snap_vars(new_rule.head):
+        r = deref(r)
+        if term_vars(r.body) - term_vars(r.head) - term_vars(deref(new_rule)):
             if debug: print(colors.light.red % 'VARS CHANGED!')
             new_rule = Rule(new_rule.head, *new_rule.body, self.parent.Semiring.multiple(float('inf')))
         return new_rule
-- 
2.43.0


From 46980d2955251a96c11d4acd024521b4383d3722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:59:25 +0000
Subject: [PATCH 15/50] fix: abbreviation assigns a rule's head only to the
 types it belongs to

---
 dyna/analyze/abbreviate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 1bae194..48d0c70 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -75,8 +75,15 @@ class Abbreviate(TransformedProgram):
 
                 if body_closure is None: continue
 
+                # The lookup below binds the head's variables, which hides that two
+                # distinct $free variables were equated; test for that beforehand.
+                compatible = {tt.i for tt in self.types.chart
+                              if self.types.rewrites.intersect(body_closure, tt) is not None}
+
                 for tt in self.types.chart.lookup(r.head):
 
+                    if tt.i not in compatible: continue
+
                     t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=False)
                     #t_head = self.types.rewrites(Rule(r.head, *tt.body, *body_closure.body), ALLOW_FREE_MERGE=True)
 
-- 
2.43.0


From 236e2cbd7562a52f85643d6b17dce8ee31ae2b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:43 +0000
Subject: [PATCH 16/50] fix: type analysis does not take a variable of unknown
 instantiation to be $free

---
 dyna/analyze/abbreviate.py |  2 +-
 dyna/analyze/types.py      | 22 +++++++++++++++++++---
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/dyna/analyze/abbreviate.py b/dyna/analyze/abbreviate.py
index 48d0c70..585dcdd 100644
--- a/dyna/analyze/abbreviate.py
+++ b/dyna/analyze/abbreviate.py
@@ -69,7 +69,7 @@ class Abbreviate(TransformedProgram):
                 # constraint closure for the body's type
                 frees = [Term('$free', v) for v in term_vars(r.head) - term_vars(r.body)]
                 # body constraints before closure
-                body_constraints = [b for t_b in t_body for b in body(t_b)]
+                body_constraints = [b for t_b in t_body for b in body(self.types.mark(t_b) if isinstance(t_b, Rule) else t_b)]
                 # body constraints after closure
                 body_closure = self.types.rewrites(Rule(r.head, *body_constraints, *frees), ALLOW_FREE_MERGE=True)
 
diff --git a/dyna/analyze/types.py b/dyna/analyze/types.py
index 2a80117..b2da4c8 100644
--- a/dyna/analyze/types.py
+++ b/dyna/analyze/types.py
@@ -73,6 +73,13 @@ def truncated_vars(x, D):
     else:
         return set()
 
+def mark_any(r):
+    """
+    Constrain the variables of the simple type `r` whose instantiation state is
+    unknown with $any, so that a conjunction does not take them to be $free.
+    """
+    return Rule(r.head, *r.body, *[Term('$any', v) for v in term_vars(r.head) - term_vars(r.body)])
+
 #_______________________________________________________________________________
 #
 
@@ -157,7 +164,8 @@ class TypeAnalyzer:
         _chart = MostGeneralSet(agenda, self.rewrites.covers)
         self.chart = self.program.spawn(_chart.xs)
         while agenda:
-            driver = fresh(agenda.pop(0))
+            driver = self.mark(fresh(agenda.pop(0)))
+            chart = self.marked()
             if self.DEBUG > 0: print(colors.light.yellow % "pop", _pp(driver, color=False))
             # drive the rule (we don't need to linearize the body in this case
             # because because the boolean semiring is idempotent)
@@ -165,7 +173,7 @@ class TypeAnalyzer:
                 for k in range(len(r.body)):
                     # better to have an outer loop over change to improve the number of "prefix firings"
                     for _ in unify(r.body[k], driver.head):
-                        for constraints in self.chart.join(*r.body[:k], *r.body[k+1:]):
+                        for constraints in chart.join(*r.body[:k], *r.body[k+1:]):
                             if self.DEBUG > 0: print(colors.dark.magenta % '  ', _pp(r, color=False))
                             for x in self._relax(Rule(r.head, *constraints, *driver.body)):
                                 x = fresh(x)
@@ -175,6 +183,7 @@ class TypeAnalyzer:
                                     if self.DEBUG > 0: print(colors.light.yellow % '      push: ', _pp(x, color=False))
                                     agenda.append(x)
                                     self.chart = self.program.spawn(_chart.xs)
+                                    chart = self.marked()
         return self
 
     def _run_generalizing(self):
@@ -205,7 +214,13 @@ class TypeAnalyzer:
 
     def step(self):
         "Expand the program rules against the chart, returns a Program."
-        return self.rewrites.dedup(self.relax(self.program.step(self.chart)))
+        return self.rewrites.dedup(self.relax(self.program.step(self.marked())))
+
+    def mark(self, r):
+        return mark_any(r) if self.use_insts else r
+
+    def marked(self):
+        return self.program.spawn([self.mark(r) for r in self.chart])
 
     def relax(self, S):
         return self.program.spawn([t for s in S for t in self._relax(s)])
@@ -227,6 +242,7 @@ class TypeAnalyzer:
         s = Rule(h, *{x for x in r.body if term_vars(x) <= head_vars and term_vars(x)
                       and same(x, truncate_term(x, self.max_depth))
                       and not (x.fn == '$free' and x.args[0] in hidden)
+                      and x.fn != '$any'
                       and (self.use_insts or x.fn not in {'$free', '$bound'})})
         if self.DEBUG > 1:
             print(colors.yellow % '      init: ', _pp(_r, color=False))
-- 
2.43.0


From 8542f20857c43c3b2bece2c723c67e067dd469e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:47 +0000
Subject: [PATCH 17/50] fix: the non-ground solver counts a pair of subgoals
 matched by one non-ground item once

---
 dyna/execute/solver2.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/dyna/execute/solver2.py b/dyna/execute/solver2.py
index 6b11942..e7c4bd7 100644
--- a/dyna/execute/solver2.py
+++ b/dyna/execute/solver2.py
@@ -128,16 +128,30 @@ class Solver(BaseSolver):
                 yield (r, v)
 
     def drive_rule(self, r, a, old, Δ):
+        k = canonicalize(a)
         for i, b in enumerate(r.body):    # TODO: use subgoal rule index
             for _ in unify(a, b):
                 bs = list(r.body); bs[i] = Δ   # replace subgoal i with Δ.
-                for v in self.join(bs, self.one):
+                for v in self.join_driven(bs, i, self.one, k, old):
                     yield v * self.program.multiple(r)
 
-    def lookup_vals(self, q):
+    def join_driven(self, xs, i, value, k, old):
         """
-        Answer query `q` by matching it against the chart,
-        returns a stream of bindings to `q` and emits contribs.
+        Like `join`, but the first `i` subgoals see the value that the item `k` had before
+        its update: a nonground `k` may match subgoals that don't unify with each other
+        (which linearization doesn't split), and each such pair counts once.
+        """
+        self.prefix_firings += 1
+        if len(xs) == 0:
+            yield value
+        else:
+            for v in self.lookup_vals(xs[0], *((k, old) if i > 0 else ())):
+                yield from self.join_driven(xs[1:], i-1, value * v, k, old)
+
+    def lookup_vals(self, q, k=None, old=None):
+        """
+        Answer query `q` by matching it against the chart (with the value `old` for
+        item `k`, if given), returns a stream of bindings to `q` and emits contribs.
         """
         q = snap(q)
 
@@ -187,6 +201,9 @@ class Solver(BaseSolver):
         else:
             for x, v in self.chart.items():   # XXX: use indexing!!!
                 #assert iswrap(x), x
+                if k is not None and x == k:
+                    if old == self.zero: continue
+                    v = old
                 x = fresh(x)
                 for _ in unify(x, q):
                     yield v
-- 
2.43.0


From 05fda6f9206b2a85122842aab335202047d9901c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:21 +0000
Subject: [PATCH 18/50] fix: the distance between two equal infinite values is
 zero, not nan

---
 dyna/execute/base.py | 3 ++-
 dyna/program.py      | 4 ++--
 dyna/util/util.py    | 9 +++++++++
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/dyna/execute/base.py b/dyna/execute/base.py
index e64b78f..e75ec2a 100644
--- a/dyna/execute/base.py
+++ b/dyna/execute/base.py
@@ -1,4 +1,5 @@
 from dyna import Program, Rule, term, fresh, Product
+from dyna.util import distance
 from dyna.builtin import Builtins
 from arsenal.robust import timelimit, Timeout
 from semirings import Float
@@ -71,7 +72,7 @@ class BaseSolver:
         # being exact — important for LogVal, whose stock `__eq__` uses
         # `np.allclose` and would collapse small-but-distinct values,
         # causing premature fixpoint convergence here.
-        return self.Weight.metric(x, y) <= self.tol
+        return distance(self.Weight, x, y) <= self.tol
 
     #___________________________________________________________________________
     # Inference methods
diff --git a/dyna/program.py b/dyna/program.py
index 1112bac..9c25517 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -23,7 +23,7 @@ from dyna.term import (
 )
 from dyna.util import FrozenBag, tarjan, instance_cache, GroundingsPrinter
 from dyna.util.bucket_queue import BucketQueue
-from dyna.util import OrderedSet
+from dyna.util import OrderedSet, distance
 from dyna.exceptions import DynaParserException
 
 
@@ -603,7 +603,7 @@ input/output declarations</summary>\
         if set(A_chart) != set(B_chart):
             chart_d = float('inf')
         else:
-            chart_d = max((sr.metric(A_chart[k], B_chart[k]) for k in A_chart),
+            chart_d = max((distance(sr, A_chart[k], B_chart[k]) for k in A_chart),
                           default=0)
         # Structural part: symbolic rules must match exactly. Use the
         # same bucketing / alignment as `Program.__eq__`.
diff --git a/dyna/util/util.py b/dyna/util/util.py
index da180f3..974446f 100644
--- a/dyna/util/util.py
+++ b/dyna/util/util.py
@@ -484,3 +484,12 @@ def instance_cache(func):
         return result
 
     return wrapper
+
+
+def distance(semiring, x, y):
+    """
+    Distance between two values of `semiring`.  A metric that subtracts gives nan for
+    two equal infinities; their distance is zero.
+    """
+    d = semiring.metric(x, y)
+    return 0 if d != d and x == y else d
-- 
2.43.0


From b60a34b7d01caf7a36f2fec4575fb9ea36bb6c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 19/50] fix: the linear solver equates a subgoal with the items
 that it unifies with

---
 dyna/execute/linear.py | 47 +++++++++++++++++++++---------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 5996e16..246cbb1 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -1,6 +1,6 @@
 import numpy as np
 from arsenal import Integerizer, colors
-from dyna import TransformedProgram, Rule, Term, term_vars, canonicalize
+from dyna import TransformedProgram, Rule, term_vars, canonicalize
 
 
 def kleene(A, semiring, reflexive=True):
@@ -50,33 +50,34 @@ class kleene_linsolve(TransformedProgram):
         # The following two loops instantiate p's rules according to the
         # estimated support in `bsol`.
         for r in p:
-            for _ in bsol[r.body]:
-
-                # Below, we extract <= 1 variable and fold coefficients
-                vs = []
-                coeff = p.Semiring.one
-                for b in r.body:          # XXX: assumes commutativity - better to check!
-                    if p.is_const(b):
-                        coeff *= b
-                    else:
-                        vs.append(b)
-                assert len(vs) <= 1
-
-                if len(vs) == 0:
-                    V[canonicalize(r.head)] += coeff
 
+            # Below, we extract <= 1 variable and fold coefficients
+            vs = []
+            coeff = p.Semiring.one
+            for b in r.body:          # XXX: assumes commutativity - better to check!
+                if p.is_const(b):
+                    coeff *= b
                 else:
-                    [var] = vs
+                    vs.append(b)
+            assert len(vs) <= 1
 
-                    [h, v] = canonicalize(Term('tmp', r.head, var)).args
+            if len(vs) == 0:
+                V[canonicalize(r.head)] += coeff
 
-                    if len(term_vars(v) - term_vars(h)) > 0:
+            else:
+                [var] = vs
+
+                # A nonground item contributes to every subgoal that unifies
+                # with it, so equate the subgoal with the items that it matches
+                # rather than with their instances (which have no equations).
+                for s in bsol.lookup(var):
+                    v = bsol.rules[s.i].head if s.i is not None else var
+                    c = coeff
+                    if len(term_vars(var) - term_vars(r.head)) > 0:
                         #print('warning dropped variable')
-                        #print(h, '+=', v)
-                        coeff = coeff * p.Semiring.multiple(float('inf'))
-
-                    M[h, v] += coeff
-
+                        #print(r.head, '+=', var)
+                        c = c * p.Semiring.multiple(float('inf'))
+                    M[canonicalize(r.head), canonicalize(v)] += c
 
         pack = pack_arrays(M, V, p.Semiring)
         self.arrays = pack
-- 
2.43.0


From d5d7759035ea480e6176c36093ca6376c76a2ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:06 +0000
Subject: [PATCH 20/50] fix: zero annihilates an infinite coefficient in the
 linear solver

---
 dyna/execute/linear.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/dyna/execute/linear.py b/dyna/execute/linear.py
index 246cbb1..6d0334e 100644
--- a/dyna/execute/linear.py
+++ b/dyna/execute/linear.py
@@ -3,6 +3,13 @@ from arsenal import Integerizer, colors
 from dyna import TransformedProgram, Rule, term_vars, canonicalize
 
 
+def times(semiring, x, y):
+    "Product of `x` and `y`; zero annihilates infinity (whose product is nan in floating point)."
+    with np.errstate(invalid='ignore'):
+        z = x * y
+    return semiring.zero if z != z else z
+
+
 def kleene(A, semiring, reflexive=True):
     """
     Solve B = I + A B for B given a weighted binary relation A in semiring^{N
@@ -21,7 +28,7 @@ def kleene(A, semiring, reflexive=True):
         for i in range(N):
             for k in range(N):
                 # i ➙ j ⇝ j ➙ k
-                new[i,k] = old[i,k] + old[i,j] * sjj * old[j,k]
+                new[i,k] = old[i,k] + times(semiring, times(semiring, old[i,j], sjj), old[j,k])
         old, new = new, old   # swap to repurpose space
     if reflexive:  # post processing fix-up: add the identity matrix
         for i in range(N): old[i,i] += one
@@ -85,7 +92,9 @@ class kleene_linsolve(TransformedProgram):
         #print(p)
         #print(pack)
 
-        sol = kleene(pack.MM, p.Semiring) @ pack.VV
+        S = p.Semiring
+        sol = [sum((times(S, x, y) for x, y in zip(row, pack.VV)), S.zero)
+               for row in kleene(pack.MM, S)]
 
         Sol = [Rule(x, sol[i]) for i,x in enumerate(pack.ix)]
 
-- 
2.43.0


From c7f2e196d9185f24987c398d00120a9cf528de32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 21/50] fix: constant folding merges rules whose subgoals
 differ only in order, whatever their variables

---
 dyna/program.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dyna/program.py b/dyna/program.py
index 9c25517..108fe91 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -2314,6 +2314,7 @@ class ConstantFolded(TransformedProgram):
         # fall back to "skeleton key is the rule itself", which keeps
         # them un-merged but doesn't crash.
         merged = {}
+        variants = defaultdict(list)   # signature -> [(skeleton key, rule)]
         for r in intermediate:
             C, xs = self._split_const_and_symbolic(parent, r)
             # Bucket key uses xs in canonical order (so commutative `*`
@@ -2323,6 +2324,12 @@ class ConstantFolded(TransformedProgram):
             # by position and would be sensitive to a reorder here.
             xs_sorted = sorted(xs, key=_subgoal_sort_key)
             key = canonicalize(Term('$skel', r.head, *xs_sorted))
+            if xs:
+                # Sorting alone can't order subgoals that differ only in their
+                # variables, so look for a variant of the rule.
+                s = Rule(r.head, *xs)
+                key, _ = next((x for x in variants[s._hash_cache] if x[1].same(s)), (key, None))
+                if key not in merged: variants[s._hash_cache].append((key, s))
             if key in merged:
                 head_, xs_, total = merged[key]
                 merged[key] = (head_, xs_, total + C)
-- 
2.43.0


From 8426e01ebc4c91960ef30488daf2496526842ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:10 +0000
Subject: [PATCH 22/50] fix: a contribution can be merged into an item whose
 rule has an empty body

---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 108fe91..c852f56 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -409,7 +409,7 @@ input/output declarations</summary>\
             return i
         else:
             s = self.rules[i]
-            [S] = s.body
+            S = self.get_const_rhs(s)   # the body may be empty
             self.rules[i] = Rule(s.head, S + C)
             self._invalidate_caches()   # rules[i] changed in place; keep the if-branch invariant
             return i
-- 
2.43.0


From 8e4dde2098f303170056d90b974fc9c4a8f7013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:32 +0000
Subject: [PATCH 23/50] fix: changing the declarations of a program drops the
 cached prunings, which depend on them

---
 dyna/program.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dyna/program.py b/dyna/program.py
index c852f56..5762203 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -101,11 +101,11 @@ class Program:
         self.rules = list(rules)
         assert all(isinstance(r, Rule) for r in rules), rules
 
+        self._caches = {}
+
         self.set_input_types(inputs)
         self.set_output_types(outputs)
 
-        self._caches = {}
-
         self.semiring = semiring
         self.has_builtins = has_builtins
 
@@ -119,12 +119,14 @@ class Program:
         if isinstance(inputs, str): inputs = Program(inputs)
         assert inputs is None or isinstance(inputs, Program), inputs
         self.inputs = inputs
+        self._caches.clear()   # prune* depend on the declarations
         return self
 
     def set_output_types(self, outputs):
         if isinstance(outputs, str): outputs = Program(outputs)
         assert outputs is None or isinstance(outputs, Program), outputs
         self.outputs = outputs
+        self._caches.clear()   # prune* depend on the declarations
         return self
 
     def spawn(self, rules=''):
-- 
2.43.0


From 0ce9b817162c8f88740a62536a71d1bd798a459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:54 +0000
Subject: [PATCH 24/50] fix: folding drops a rule whose contributions cancel,
 so that folding again changes nothing

---
 dyna/program.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/program.py b/dyna/program.py
index 5762203..59ca10a 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -2343,6 +2343,7 @@ class ConstantFolded(TransformedProgram):
         chart = sr.chart()
         symbolic = []
         for head, xs, total in merged.values():
+            if sr.metric(total, sr.zero) <= 1e-7: continue   # the contributions cancel
             if not xs:
                 chart[canonicalize(head)] += total
             elif total == sr.one:
-- 
2.43.0


From 36ce89bc851c932b0a68b10b50958d9436b0f8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 25/50] fix: an identifier such as e1 is not the start of a
 float literal

---
 dyna/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 10c30b2..46509b0 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -197,7 +197,7 @@ params: PARAMS expr1 EOR
 
 AGG.100000: ( /[+]=/ | /:-/ )
 
-FLOAT.10000000: /[\-+]?[0-9]*((\.[0-9]+(e[\-+]?[0-9]+)?)|(e[\-+]?[0-9]+))/    // 1e5 and 1.0 and -1.0e+5
+FLOAT.10000000: /[\-+]?([0-9]*\.[0-9]+(e[\-+]?[0-9]+)?|[0-9]+e[\-+]?[0-9]+)/    // 1e5 and 1.0 and -1.0e+5
 
 INT: /[\-+]?[0-9]+/
 
-- 
2.43.0


From 5d20931ae2978e4e7eae8870985f0140e1b965c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 26/50] fix: a postfix operator builds a term with the operator
 as its functor

---
 dyna/syntax.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 46509b0..85ae624 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -72,6 +72,10 @@ class DynaTransformer(Transformer):
         [op, a] = x
         return Term(str(op), a)
 
+    def postfix_op(self, x):
+        [a, op] = x
+        return Term(str(op), a)
+
     def noop(self, x):
         [x] = x
         return x
@@ -300,7 +304,7 @@ class UnaryOp(Op):
     def __init__(self, op, priority, position='prefix', callback=None, evaluation=None):
         assert position in {prefix, postfix}
         self.position = position
-        if callback is None: callback = 'unary_op'
+        if callback is None: callback = 'unary_op' if position == 'prefix' else 'postfix_op'
         super().__init__(op=op, arity=1, priority=priority, evaluation=evaluation, callback=callback)
 
     def render(self, OP, i):
-- 
2.43.0


From 9596c6470dc4d0116506313283134b5b4e2db78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:29 +0000
Subject: [PATCH 27/50] fix: a binary term ! is printed in functor notation
 (the infix operator is unreachable in the grammar)

---
 dyna/syntax.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index 85ae624..81fa0b2 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -441,7 +441,6 @@ ops = [
     BinOp(  '=>',   3.8, R),
     #BinOp(  'in',     4, N),
     BinOp(  '∈',     4, N),
-    BinOp(   '!',     4, L),
     BinOp( '=/=',     4, N),
     BinOp(   '&',     3, R),
     BinOp(   '=',   1.5, N),
-- 
2.43.0


From f1ae9b8150af4bd0c58dbf60f0f2a47d8e7e9c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:22 +0000
Subject: [PATCH 28/50] fix: string literals with quotes, backslashes and line
 breaks survive printing and parsing

---
 dyna/pretty.py | 10 ++++++----
 dyna/syntax.py | 10 +++++++++-
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 77c59b7..1d25f1c 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -7,7 +7,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ESCAPE, ops, ChainedCompare, BinOp, UnaryOp
 #from arsenal import colors
 
 
@@ -166,9 +166,7 @@ class PrettyPrinter:
             return str(x).lower()   # booleans and null are lower case
 
         elif isinstance(x, str):
-            x = repr(x)    # should be a double-quoted string, unlike Python
-            x = f'"{x[1:-1]}"'   # TODO: need to redo escapes
-            return x
+            return self.pp_string(x)
 
         elif isinstance(x, Rule):
 
@@ -229,6 +227,10 @@ class PrettyPrinter:
         else:
             return repr(x)
 
+    def pp_string(self, x):
+        "A double-quoted string literal, which the parser reads back as `x`."
+        return '"' + ''.join(ESCAPE.get(c, c) for c in x) + '"'
+
     def pp_role_term(self, x, role):
         """Render term `x` with its functor colored by `role` ('input'/'output').
 
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 81fa0b2..c703183 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -1,3 +1,5 @@
+import re
+
 from lark.lark import Lark
 from lark.visitors import Transformer
 from lark.exceptions import LarkError
@@ -9,6 +11,11 @@ from dyna.term import Term, Var, fresh, flatten, flatten_op
 from dyna.rule import Rule
 
 
+# escape sequences in string literals
+ESCAPE = {'\\': '\\\\', '"': '\\"', '\n': '\\n', '\t': '\\t', '\r': '\\r'}
+UNESCAPE = {v[1]: k for k, v in ESCAPE.items()}
+
+
 # TODO: we need an option to specify the semiring in the source code.
 class DynaTransformer(Transformer):
 
@@ -148,7 +155,8 @@ class DynaTransformer(Transformer):
 
     def string(self, x):
         [s] = x
-        return s[1:-1].replace('\\"', '"')   # remove outer quotes and escaped quotes
+        # remove outer quotes and the escapes (see `PrettyPrinter.pp_string`)
+        return re.sub(r'\\(.)', lambda m: UNESCAPE.get(m[1], m[0]), s[1:-1])
 
     def float(self, x):
         [a] = x
-- 
2.43.0


From 1a509ade2dcdfc6c57111510518ebeec0f8dc33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 29/50] fix: the literal inf is read as a number (the functor
 token always won)

---
 dyna/syntax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/syntax.py b/dyna/syntax.py
index c703183..6f2aa3a 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -246,7 +246,7 @@ literal: ESCAPED_STRING -> string
        | "true"         -> true
        | "false"        -> false
        | list           -> noop
-       | /inf/          -> inf
+       | "inf"          -> inf
        | /∞/            -> inf
 
 variable: VAR  -> variable
-- 
2.43.0


From 29fbaa46e798578c2e98f409a3e57c69b7b6695c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:18 +0000
Subject: [PATCH 30/50] fix: rules with a variable head or subgoal are equal up
 to variable renaming

---
 dyna/rule.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/rule.py b/dyna/rule.py
index 25d4cfc..6823a92 100644
--- a/dyna/rule.py
+++ b/dyna/rule.py
@@ -12,7 +12,7 @@ def fn(x): return x.fn if isinstance(x, Term) else x
 #    return Term(x.fn, x.arity) if isinstance(x, Term) else Term("$const", x)
 def term_signature(x):
     # Need to wrap constants in term to use the right comparison operation...
-    return canonicalize(x) if isinstance(x, Term) else Term("$const", x)
+    return canonicalize(x) if isinstance(x, (Term, Var)) else Term("$const", x)
 
 
 def is_const(x):
-- 
2.43.0


From 283ad4b18f4ab0a4699e9a94faf6ab119e9d5f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:10 +0000
Subject: [PATCH 31/50] fix: functors the lexer would misread are quoted when
 printed

---
 dyna/pretty.py | 11 ++---------
 dyna/syntax.py |  6 ++++++
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 1d25f1c..586fd36 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -4,10 +4,9 @@ Pretty printer for term (term, var, rule, constants, etc)
 # TODO: need to escape the single quote in these cases
 #  19: $inst(2, p("<.>", '#I'', '#K'') / p(".", '#I'', '#K'')) += 1.0.
 
-import re
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ESCAPE, ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ESCAPE, FUNCTOR, KEYWORDS, ops, ChainedCompare, BinOp, UnaryOp
 #from arsenal import colors
 
 
@@ -365,13 +364,7 @@ class PrettyPrinter:
 
     def pp_functor(self, x):
         y = str(x)
-        # the pattern below should match the pattern for `FUNCTOR1` in the
-        # front-end parser.
-        #
-        # TODO: The patterm below is going to be perpetually out of date with
-        # the functor pattern in the grammar.  Figure out how to keep them in
-        # sync to avoid the headache.
-        if not re.match("^([$_]*['\"a-zαβγδεζηθικλμνξο∂πρστυφχψωϯ☐¿$♦]['\"a-zA-Z0-9_αβγδεζηθικλ∂μνξοπρστυφχψω∘ϯ♦$☐˽ΑΒΓΔΕΖΗΘΙΚΛΜΝΞΟΠΡΣΤΥΦΧΨΩ₀₁₂₃₄₅₆₇₈₉]*)$", y):
+        if not FUNCTOR.fullmatch(y) or y in KEYWORDS:
             y = f"'{y}'"
         return y
 
diff --git a/dyna/syntax.py b/dyna/syntax.py
index 6f2aa3a..ce8f324 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -1,6 +1,7 @@
 import re
 
 from lark.lark import Lark
+from lark.lexer import PatternStr
 from lark.visitors import Transformer
 from lark.exceptions import LarkError
 
@@ -479,3 +480,8 @@ ops = [
 
 parser = Parser(grammar + add_ops(ops))
 term = parser.term
+
+# Functors that need no quotes: those the lexer would read as a functor, except
+# for the words that have another meaning (e.g., `true` and `not`).
+FUNCTOR = re.compile(parser.parser.get_terminal('FUNCTOR1').pattern.to_regexp())
+KEYWORDS = {t.pattern.value for t in parser.parser.terminals if isinstance(t.pattern, PatternStr)}
-- 
2.43.0


From f8216bdfce78b9ffc5127a163e663e168a9f467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:10 +0000
Subject: [PATCH 32/50] fix: arguments and list elements that are conjunctions
 keep their parentheses when printed

---
 dyna/pretty.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 586fd36..c1a3f84 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -242,7 +242,7 @@ class PrettyPrinter:
         fn = snap(x.fn)
         f = color % (self.pp_functor(fn) if isinstance(fn, str) else self(fn))
         if x.args:
-            return f'{f}({",".join(self(a) for a in x.args)})'
+            return f'{f}({",".join(self.pp_arg(a) for a in x.args)})'
         return f
 
     def pp_term(self, x):
@@ -360,7 +360,12 @@ class PrettyPrinter:
     def pp_term_default(self, x):
         [fn, *args] = snap(x)
         fn = snap(fn)
-        return f'{self.pp_functor(fn)}({",".join(self(a) for a in args)})'
+        return f'{self.pp_functor(fn)}({",".join(self.pp_arg(a) for a in args)})'
+
+    def pp_arg(self, x, p=priority(binops[','])):
+        "Argument position: operators of priority `p` or lower need parens."
+        y = self(x)
+        return f'({y})' if priority(binop(x)) <= p else y
 
     def pp_functor(self, x):
         y = str(x)
@@ -371,12 +376,13 @@ class PrettyPrinter:
     def pp_list(self, x):
         xs = []
         y = x
+        bar = priority(binops['|'])
         while True:
             y = snap(y)
             if isinstance(y, Term) and y == NIL and y.arity == 0:
-                return f'[{",".join(self(x) for x in xs)}]'
+                return f'[{",".join(self.pp_arg(x, bar) for x in xs)}]'
             elif isinstance(y, Term) and y.fargs[0] == '$cons':
                 [_,a,y] = y.fargs
                 xs.append(a)
             else:
-                return f'[{",".join(self(x) for x in xs)}|{self(y)}]'
+                return f'[{",".join(self.pp_arg(x, bar) for x in xs)}|{self.pp_arg(y, bar)}]'
-- 
2.43.0


From 5e09c958aa166995627dcc37dffc14af69035b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:36 +0000
Subject: [PATCH 33/50] fix: operators of equal priority associate with each
 other; nested comparisons can be printed

---
 dyna/pretty.py |  6 +++---
 dyna/syntax.py | 26 ++++++++++++++++----------
 2 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index c1a3f84..2c6f9f2 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -41,7 +41,7 @@ def priority(x):
 
 
 def assoc(x):
-    return None if x is None else x.assoc
+    return getattr(x, 'assoc', None)
 
 
 class parens:
@@ -343,14 +343,14 @@ class PrettyPrinter:
 
             if priority(binop(a)) <= priority(binop(x)):
                 if (priority(binop(a)) == priority(binop(x))
-                    and assoc(binop(a)) == 'L'):
+                    and assoc(binop(a)) == assoc(binop(x)) == 'L'):
                     pass
                 else:
                     A = f'({A})'
 
             if priority(binop(b)) <= priority(binop(x)):
                 if (priority(binop(b)) == priority(binop(x))
-                    and assoc(binop(b)) == 'R'):
+                    and assoc(binop(b)) == assoc(binop(x)) == 'R'):
                     pass
                 else:
                     B = f'({B})'
diff --git a/dyna/syntax.py b/dyna/syntax.py
index ce8f324..7d8774f 100644
--- a/dyna/syntax.py
+++ b/dyna/syntax.py
@@ -6,6 +6,7 @@ from lark.visitors import Transformer
 from lark.exceptions import LarkError
 
 from functools import lru_cache
+from itertools import groupby
 
 from dyna.exceptions import DynaParserException
 from dyna.term import Term, Var, fresh, flatten, flatten_op
@@ -352,7 +353,16 @@ def add_ops(ops):
 
     G = []
     expr1 = expr2 = expr3 = None
-    for i, z in enumerate(sorted(ops, key=lambda x: -x.priority), start=1):
+
+    # One level per operator, except that binary operators with the same
+    # priority and associativity share a level.
+    levels = [list(zs) for _, zs in groupby(
+        sorted(ops, key=lambda x: -x.priority),
+        key=lambda x: (x.priority, x.assoc) if isinstance(x, BinOp) and x.assoc != N else id(x)
+    )]
+
+    for i, zs in enumerate(levels, start=1):
+        z = zs[0]
 
         # Figure out where these special positions are:
         #  - expr1: most general context
@@ -362,16 +372,12 @@ def add_ops(ops):
         if z.op == ',': expr2 = i-1
         expr1 = i
 
-        if z.op is not None:
-            if z.op in Sym2Lex:      # avoid lexer conflicts on '='
-                OP = Sym2Lex[z.op]
-            else:
-                G.append(f'OP{i}: "{z.op}"')
-                Sym2Lex[z.op] = OP = f'OP{i}'
-        else:
-            OP = None
+        for x in zs:
+            if x.op is not None and x.op not in Sym2Lex:      # avoid lexer conflicts on '='
+                Sym2Lex[x.op] = f'OP{len(Sym2Lex)}'
+                G.append(f'{Sym2Lex[x.op]}: "{x.op}"')
 
-        G.append(z.render(OP, i))
+        G.append(z.render('(' + '|'.join(Sym2Lex[x.op] for x in zs if x.op is not None) + ')', i))
 
     G.extend([
         f'?expr1: p{expr1}',
-- 
2.43.0


From 14ea994954902d921c669abf0b0facc862696650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:03 +0000
Subject: [PATCH 34/50] fix: operands of prefix operators keep their
 parentheses when printed

---
 dyna/pretty.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 2c6f9f2..9d46111 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -6,7 +6,7 @@ Pretty printer for term (term, var, rule, constants, etc)
 
 from dyna.term import Var, Term, NIL, snap, term_vars, OrderedSet
 from dyna.rule import Rule
-from dyna.syntax import ESCAPE, FUNCTOR, KEYWORDS, ops, ChainedCompare, BinOp, UnaryOp
+from dyna.syntax import ESCAPE, FUNCTOR, KEYWORDS, ops, ChainedCompare, BinOp, UnaryOp, NullOp
 #from arsenal import colors
 
 
@@ -22,6 +22,7 @@ binops['<='] = ChainedCompare(5)
 
 binops['\\'] = binops['\\\\']   # annoying patch
 
+nullaryops = {str(f.op) for f in ops if isinstance(f, NullOp)}
 unaryops = {str(f.op) for f in ops if isinstance(f, UnaryOp)}
 
 
@@ -261,7 +262,7 @@ class PrettyPrinter:
         elif x.arity == 0:
             if x == NIL:
                 return self.pp_list(x)
-            elif fn in {'?', '!', '*'}:
+            elif fn in nullaryops:
                 return fn
             else:
                 return self.pp_functor(fn)
@@ -274,9 +275,16 @@ class PrettyPrinter:
                 [y] = x.args
 
                 # XXX: remove parens when precedence is clear.
-                if isinstance(y, Term) and y.arity == 2 and y.fn in binops:
-                    return f'{fn}({self(y)})'
-                return f'{fn}{self(y)}'
+                y = snap(y)
+                if not isinstance(y, Term):
+                    bare = not isinstance(y, (int, float)) or isinstance(y, bool)   # -3 is a number
+                elif y.arity == 0:
+                    bare = y.fn not in nullaryops
+                elif y.arity == 1:
+                    bare = y.fn not in unaryops or y.fn == x.fn
+                else:
+                    bare = y.arity != 2 or y.fn not in binops
+                return f'{fn}{self(y)}' if bare else f'{fn}({self(y)})'
 
             else:
                 return self.pp_term_default(x)
-- 
2.43.0


From 4215704f62ff1b0256e7ba870f9141cc56bf7395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:59 +0000
Subject: [PATCH 35/50] fix: distinct variables never get the same name when
 printed

---
 dyna/pretty.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 9d46111..295062c 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -151,14 +151,16 @@ class PrettyPrinter:
 
             # we have seen this name before
             # but is it actually the *same* variable?
-            if id(x) not in self.vs[x.name]:   # has a rename
+            if id(x) not in self.vs[x.name]:
+                taken = {y for ys in self.vs.values() for y in ys.values()}
+                # first instance keeps the nice name
+                # later instance get an ugly auto-generated name
                 dups = len(self.vs[x.name])
-                if dups == 0:
-                    # first instance keeps the nice name
-                    self.vs[x.name][id(x)] = x.name
-                else:
-                    # later instance get an ugly auto-generated name
-                    self.vs[x.name][id(x)] = f'${x.name}{dups}'
+                name = x.name if dups == 0 else f'${x.name}{dups}'
+                while name in taken:
+                    dups += 1
+                    name = f'${x.name}{dups}'
+                self.vs[x.name][id(x)] = name
 
             return self.var_color.get(id(x), '%s') % self.vs[x.name][id(x)]
 
-- 
2.43.0


From b693aa78cb20efb75ca90d8e7ecfc1313fd69a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 36/50] fix: boolean, string and loosely binding subgoals of a
 rule are printed so that they read back

---
 dyna/pretty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 295062c..74c93df 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -206,11 +206,12 @@ class PrettyPrinter:
 #                        elif hasattr(z, '_repr_svg_'):
 #                            return z._repr_svg_()
 #                        else:
-                        return Escape(self.color.render(self.color.builtin % (z,)))
+                        return Escape(self.color.render(self.color.builtin % (self(z) if isinstance(z, (bool, str)) else z,)))
 
                     return z
 
                 B = wrap(x.body[0])
+                if priority(binop(B)) <= priority(binops['+=']): B = parens(B)
                 for i in range(1, len(x.body)):
                     B = Term('*', B, wrap(x.body[i]))
 
-- 
2.43.0


From 44aa6199c1bce138bcea6c26d5610b5d6e2198e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 37/50] fix: nullary operators, : before a sign, and the term
 for/2 are printed so that they read back

---
 dyna/pretty.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dyna/pretty.py b/dyna/pretty.py
index 74c93df..163bb24 100644
--- a/dyna/pretty.py
+++ b/dyna/pretty.py
@@ -37,6 +37,12 @@ def binop(x):
         return binops.get(snap(x.fn))
 
 
+def nullop(x):
+    "Is x a nullary operator?"
+    x = snap(x)
+    return isinstance(x, Term) and x.arity == 0 and snap(x.fn) in nullaryops
+
+
 def priority(x):
     return float('inf') if x is None else x.priority
 
@@ -282,7 +288,7 @@ class PrettyPrinter:
                 if not isinstance(y, Term):
                     bare = not isinstance(y, (int, float)) or isinstance(y, bool)   # -3 is a number
                 elif y.arity == 0:
-                    bare = y.fn not in nullaryops
+                    bare = not nullop(y)
                 elif y.arity == 1:
                     bare = y.fn not in unaryops or y.fn == x.fn
                 else:
@@ -332,6 +338,7 @@ class PrettyPrinter:
             # The default display is spaces around the infix operator
             infix = infix or f' {fn} '
             [_, a, b] = x
+            if fn == 'for': return     # the parser desugars it
 
             #print('==========================')
             #print('pretty printing infix binop:', 'fn:', func(x), func(a), func(b))
@@ -352,20 +359,28 @@ class PrettyPrinter:
 
             A = self(a); B = self(b)
 
-            if priority(binop(a)) <= priority(binop(x)):
+            if nullop(a):
+                A = f'({A})'
+
+            elif priority(binop(a)) <= priority(binop(x)):
                 if (priority(binop(a)) == priority(binop(x))
                     and assoc(binop(a)) == assoc(binop(x)) == 'L'):
                     pass
                 else:
                     A = f'({A})'
 
-            if priority(binop(b)) <= priority(binop(x)):
+            if nullop(b):
+                B = f'({B})'
+
+            elif priority(binop(b)) <= priority(binop(x)):
                 if (priority(binop(b)) == priority(binop(x))
                     and assoc(binop(b)) == assoc(binop(x)) == 'R'):
                     pass
                 else:
                     B = f'({B})'
 
+            if infix == ':' and B.startswith('-'): infix = ': '    # not `:-`
+
             return f'{A}{infix}{B}'
 
     def pp_term_default(self, x):
-- 
2.43.0


From 8ba5c55e279abfde30ec00fe4e36d958140c17c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 38/50] fix: products with a zero factor, absolute values and
 repetitions that are not yet determined

0 is 0 * Z raised ZeroDivisionError and 3 is 0 * Z too (it has no solution);
-3 is abs(Y) had the solutions 3 and -3; C is "a" * N raised TypeError
before N was bound.
---
 dyna/builtin.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/dyna/builtin.py b/dyna/builtin.py
index 78d4b88..9126e2a 100644
--- a/dyna/builtin.py
+++ b/dyna/builtin.py
@@ -215,6 +215,7 @@ class Builtins:
                         yield from unify(X, abs(Y))
                         return
                     if isnum(X):
+                        if X < 0: return
                         for y in {+X, -X}:
                             yield from unify(Y, y)
                         return
@@ -297,19 +298,25 @@ class Builtins:
                             return
                         # TODO: we can solve for K in some cases, e.g., `"aaaaa" is "a" * K`.
                         # Can't multiply string by anything other than an int.
-                        raise TypeError(q)
+                        if not isvar(Z): raise TypeError(q)
 
                     else:
                         # numeric cases
                         if isnum(Y) and isnum(Z):
                             yield from unify(X, Y * Z)
                             return
+                        # A zero factor has no inverse: a nonzero product is
+                        # impossible, and a zero one leaves the factor undetermined.
                         if isnum(X) and isnum(Y):
-                            yield from unify(Z, X / Y)
-                            return
+                            if Y != 0:
+                                yield from unify(Z, X / Y)
+                                return
+                            if X != 0: return
                         if isnum(X) and isnum(Z):
-                            yield from unify(Y, X / Z)
-                            return
+                            if Z != 0:
+                                yield from unify(Y, X / Z)
+                                return
+                            if X != 0: return
 
                         # identity elements
                         if isnum(Y) and Y == 1:
-- 
2.43.0


From 88aef74aee92399ee13ac301c99d976d13c971df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:04 +0000
Subject: [PATCH 39/50] fix: constraint propagation doesn't replace functors
 that spell the same as a string

---
 dyna/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/term.py b/dyna/term.py
index ff75796..60cf2ec 100644
--- a/dyna/term.py
+++ b/dyna/term.py
@@ -853,7 +853,7 @@ def replace_in_expr(expr, target, replacement):
     if expr == target:
         return replacement
     elif isinstance(expr, Term):
-        return expr.__class__(*replace_in_expr(expr.fargs, target, replacement))
+        return expr.__class__(expr.fn, *replace_in_expr(expr.args, target, replacement))
     elif isinstance(expr, tuple):
         return tuple(replace_in_expr(x, target, replacement) for x in expr)
     else:
-- 
2.43.0


From 7b078f1df6b61cee12e9b6edff9b61779e18cc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:04 +0000
Subject: [PATCH 40/50] fix: a list type constraint is replaced by its
 definition only when its argument is a list

ks(X) was considered checked because it is in the chart itself, so p(X) += ks(X)
was taken to cover p(X).
---
 dyna/propagate.py | 42 ++++++++++++++----------------------------
 1 file changed, 14 insertions(+), 28 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 0e45480..53392e4 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -3,7 +3,7 @@ Constraint propagation
 """
 from arsenal import colors
 from dyna.pretty import PrettyPrinter
-from dyna.term import Term, Fresh, Var, replace_in_expr, Subst, FAIL, fresh, deref, is_var
+from dyna.term import Term, Fresh, Var, replace_in_expr, Subst, FAIL, deref, is_ground, is_var
 from dyna.program import Program
 from dyna.builtin import Builtins
 
@@ -92,9 +92,8 @@ class ConstraintPropagation:
 
         # TODO: need a smarter way to specify which user constraints are checkable
         elif q.fn == 'ks' or q.fn == 'ws':
-            # Below, we try querying the main program (if one is provided).  In
-            # the event that <= 1 results are found, we can use them during
-            # propagation---just like built-ins constraints!
+            # Below, we look at the clauses of the main program (if one is
+            # provided).
 
             program = Program("""
             ks([]).
@@ -105,32 +104,19 @@ class ConstraintPropagation:
 
             """)
 
-            def query(q, subst):
-                if subst is None: return
-                if isinstance(q, (tuple, list)):
-                    if len(q) == 0:
-                        yield subst.copy()
-                    else:
-                        for subst1 in query(q[0], subst.copy()):
-                            yield from query(q[1:], subst1)
-                    return
-                if q in self.chart:
-                    yield subst
-                    return
-                for r in program:
-                    r = fresh(r)
-                    s = subst.copy().mgu(r.head, q)
-                    if s is Subst.FAIL: continue
-                    if s(r.head) == q:
-                        yield from query(s(r.body), s)
-
-            results = list(query(q, {}))
-            if len(results) == 0:
+            # Replace the constraint by the body of the only clause that matches it
+            # without instantiating it (ground types of elements are assumed to
+            # hold).  It is not ready if its argument is not instantiated enough.
+            clauses = [(s, r) for r in program.fresh()
+                       for s in [Subst().mgu(r.head, q)] if s is not Subst.FAIL]
+            if len(clauses) == 0:
                 yield None
-            elif len(results) == 1:
-                yield results[0]
+            elif len(clauses) == 1 and clauses[0][0](clauses[0][1].head) == q:
+                [(s, r)] = clauses
+                for x in s(r.body):
+                    if x.fn == q.fn or not is_ground(x): self.update(x)
+                yield Subst()
             else:
-                # too many results: must skip; semi-det only
                 yield Ellipsis
 
         elif q.fn in {'<','>','<=','>='}:    # XXX: fix this hardcoding
-- 
2.43.0


From ec26413271503f7f928aa51359ba7ffe9608f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:17 +0000
Subject: [PATCH 41/50] fix: constraint propagation leaves builtins with
 several solutions alone instead of crashing

---
 dyna/propagate.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dyna/propagate.py b/dyna/propagate.py
index 53392e4..e4532c4 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -128,13 +128,16 @@ class ConstraintPropagation:
             q0 = rename(q)
             b = self.builtins
             if b.is_ready(q0):    # evaluate subgoal if it's ready
-                count = 0
+                results = []
                 for _ in b(q0):
-                    assert count == 0, 'only semidet constraints should run'
-                    count += 1
-                    yield self._new_bindings(rename.m)
-                if count == 0:
+                    results.append(self._new_bindings(rename.m))
+                    if len(results) > 1: break
+                if len(results) == 0:
                     yield None
+                elif len(results) == 1:
+                    yield results[0]
+                else:
+                    yield Ellipsis    # only semidet constraints should run
             else:
                 yield Ellipsis
 
-- 
2.43.0


From 31b9ab86622b05682963de363b8c35fb9c6b1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:17 +0000
Subject: [PATCH 42/50] fix: constraint propagation solves its equality
 constraints

Contradicting equations of one variable were not noticed, f(X) = f(2) was
taken to be a contradiction, and Rewrites substituted by the equations one by
one, which lost some or never ended (X = Y, Y = X, as functional dependencies
derive).
---
 dyna/analyze/rewrites.py | 2 +-
 dyna/propagate.py        | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index 31da123..74d9c5e 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -70,7 +70,7 @@ class Rewrites:
         chart = cp(R.body)
         if chart is None: return
 
-        subst = Subst({x: y for _,x,y in cp.bindings})
+        subst = cp.mgu
         chart = {subst(x) for x in chart if isinstance(x, Term) and x.fn != '='}
 
         assert all(isinstance(x, Term) for x in chart)
diff --git a/dyna/propagate.py b/dyna/propagate.py
index e4532c4..0f53304 100644
--- a/dyna/propagate.py
+++ b/dyna/propagate.py
@@ -68,6 +68,7 @@ class ConstraintPropagation:
         self.chart = None
         self.agenda = None
         self.bindings = None
+        self.mgu = None
         self.checked = None
         self.propagation_hooks = list(propagation_hooks)
 
@@ -178,6 +179,7 @@ class ConstraintPropagation:
         self.chart = chart = Chart()
         self.agenda = agenda = set()
         self.bindings = []
+        self.mgu = Subst()       # solved form of the equality constraints
         self.checked = set()
 
         update = self.update
@@ -216,8 +218,11 @@ class ConstraintPropagation:
             if isinstance(driver, Term) and driver.fn == '=':
                 X,Y = driver.args
 
-                # check for a contradiction
-                if not isinstance(X, Var) and not isinstance(Y, Var) and X != Y: return
+                # check for a contradiction with the equality constraints so far
+                if self.mgu.mgu(X, Y) is Subst.FAIL: return
+
+                # add the equality constraints that follow
+                for k,v in self.mgu.items(): update(Term('=', k, self.mgu(v)))
 
                 # Release the equality constraint now that it has be
                 # successfully applied.
-- 
2.43.0


From da40fa9b755e67165dbaa605113c08250d70f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:55 +0000
Subject: [PATCH 43/50] fix: the variables of a $bound term are bound

p(X) += $bound(X) was taken to cover p(s(X)), where X may be free.
---
 dyna/analyze/rewrites.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index 74d9c5e..7f3ae1f 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -52,6 +52,7 @@ class Rewrites:
             # helper.  I think we can use ordinary recursion
             # (_propagation_hook_bound -> _propagation_hook_bound).
 
+            if is_var(x): cp.update(Term('$bound', x))
             if not isinstance(x, Term): return
             if x.fn != '$bound': cp.update(Term('$bound', x))
             for y in x.args: rec_bound(y)
-- 
2.43.0


From 298c2f9a54fed1566685b43a1d8c5edf5734c85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:55 +0000
Subject: [PATCH 44/50] fix: the chart of a usefulness analysis keeps the input
 declarations of its types

Intersecting a query with it dropped the types with parameters.
---
 dyna/program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/program.py b/dyna/program.py
index 59ca10a..17e160b 100644
--- a/dyna/program.py
+++ b/dyna/program.py
@@ -1972,7 +1972,7 @@ input/output declarations</summary>\
         s = self._useful(output_type=output_type).type_analysis(input_type=input_type, use_insts=use_insts, **kwargs)
         # hack the chart to include items that are possible and useful -- i.e.,
         # derived items tagged as $both.
-        s.chart = (Program('X += $useful(X).') + s.chart.spawn()).unfold(0,0,defs=s.chart)
+        s.chart = s.chart.spawn((Program('X += $useful(X).') + s.chart.spawn()).unfold(0,0,defs=s.chart))
         return s
 
     def _useful(self, output_type=None):
-- 
2.43.0


From 61ce3803c7e44b0a08916be9e47ae4cd72473729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:14 +0000
Subject: [PATCH 45/50] fix: a simple type whose variable is free doesn't cover
 one where it occurs in another argument

p(X,Y) += $free(Y) was taken to cover p(s(Y),Y) += $free(Y), so the type
analysis missed the latter.
---
 dyna/analyze/rewrites.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dyna/analyze/rewrites.py b/dyna/analyze/rewrites.py
index 7f3ae1f..65d50ba 100644
--- a/dyna/analyze/rewrites.py
+++ b/dyna/analyze/rewrites.py
@@ -122,12 +122,12 @@ class Rewrites:
     @staticmethod
     def _equates_free(subst, *types):
         """
-        Does `subst` equate a $free variable of one of the simple types with another
-        variable of the same type?  Then it's not *free*, it's *equality constrained*.
+        Does `subst` equate a $free variable of one of the simple types with (part of)
+        another variable of the same type?  Then it's not *free*, it's *equality constrained*.
         """
         for r in types:
             for X in {x.args[0] for x in r.body if isinstance(x, Term) and x.fn == '$free'}:
-                if any(X != Y and subst(X) == subst(Y) for Y in term_vars(r)):
+                if any(X != Y and subst(X) in term_vars(subst(Y)) for Y in term_vars(r)):
                     return True
         return False
 
-- 
2.43.0


From 9f02bd0a8a3e44c0f4c8298e0a9d429e4712f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 46/50] fix: listing an item's derivations when two rules have
 an instance in common

Looking up derivations folded the equal instances as if they were one derivation
with a coefficient, and peel crashed.
---
 dyna/derivations.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 76c91a3..5a26d35 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -10,6 +10,7 @@ from io import StringIO
 from dyna.term import covers, fresh, Product, unify
 from dyna.util import escape_str, escape_html, dot2svg, tikz, latex
 from dyna.rule import Rule, is_const
+from dyna import syntax
 from dyna import PrettyPrinter
 
 
@@ -408,21 +409,22 @@ def agenda(p):
         old.update(driver, value)
 
 
-def peel(ds):
-    "Utility that removes the head of a list of derivation `ds`."
+def peel(chart, x):
+    "Utility that lists the derivations of `x` in a chart of derivations."
+    if isinstance(x, str): x = syntax.term(x)
     dds = []
-    for d in ds:
-        [d] = d.body
+    for r in chart.lookup(x):
+        [d] = fresh(r).body
         dds.append(d)
     return dds
 
 
 def Naive(p, T, x):
-    return Derivations(peel(naive(p, T=T).user_lookup(x)))
+    return Derivations(peel(naive(p, T=T), x))
 
 
 def Seminaive(p, T, x, verbose=False):
-    return Derivations(peel(seminaive(p, T=T, verbose=verbose).user_lookup(x)))
+    return Derivations(peel(seminaive(p, T=T, verbose=verbose), x))
 
 
 def sld(p, x):
-- 
2.43.0


From b59bd388a9d35a87405d4073cd2d0a11b8a288aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:20 +0000
Subject: [PATCH 47/50] fix: the agenda enumeration of derivations doesn't bind
 the variables of the program's own rules

A derivation in which a rule occurs twice with different bindings failed its
consistency check.
---
 dyna/derivations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dyna/derivations.py b/dyna/derivations.py
index 5a26d35..9262e94 100644
--- a/dyna/derivations.py
+++ b/dyna/derivations.py
@@ -397,7 +397,8 @@ def agenda(p):
 
         new.update(driver, value)
 
-        for i, r in enumerate(p):
+        for i, _r in enumerate(p):
+            r = fresh(_r)
             for k in range(len(r.body)):
                 for _ in unify(driver, r.body[k]):
 
-- 
2.43.0


From 5229e2551502520b542f52769db935e628b4a3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 48/50] fix: the split by input dependence compares coarse
 nodes with coarse nodes

No rule was ever found to depend on an input with variables.
---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 457ba76..300908a 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -55,7 +55,7 @@ class CoarseGraph:
         g = self.g
         T = g.transitive_closure(reflexive=True)
 
-        inputs = set(p.inputs.just_heads() if p.inputs is not None else [])
+        inputs = {self.nodes.root(x) for x in p.inputs.just_heads()}
 
         I = []; D = []
         for r in p:
-- 
2.43.0


From fb211b28c9200cc3f4be4626da6eec121e2f4d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 49/50] fix: possibly_expansive skips built-ins instead of
 crashing

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 300908a..2724222 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -116,7 +116,7 @@ class CoarseGraph:
             x = self.nodes.root(r.head)
             count = 0
             for y in r.body:   # can we reach x in more than one way?
-                if p.is_const(y): continue
+                if p.is_const(y) or p.is_builtin(y): continue
                 y = self.nodes.root(y)
                 count += (x in T.outgoing[y])
                 if count > 1: return True
-- 
2.43.0


From 3eea2ce5cd5cd74b12d774dfd511613b960e3526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:44 +0000
Subject: [PATCH 50/50] fix: solve_input_independent calls a method that
 programs have

---
 dyna/analyze/coarse_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dyna/analyze/coarse_graph.py b/dyna/analyze/coarse_graph.py
index 2724222..b834fc4 100644
--- a/dyna/analyze/coarse_graph.py
+++ b/dyna/analyze/coarse_graph.py
@@ -71,7 +71,7 @@ class CoarseGraph:
     # the /solution/ rather than the rule)
     def solve_input_independent(self):
         I, D = self.split_input_dependent()
-        return I.sol() + D
+        return I.solve() + D
 
     # TODO: in the case of a type-based analysis, there may be rules that
     # participate in multiple SCCs (they need to be /specialized/ to the current SCC
-- 
2.43.0

