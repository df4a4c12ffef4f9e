From e253b822ab16e0e7bca85e5151abf9f7af7d2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 01/77] fix: Wigner symbols return plain floats so vanishing
 symbols compare equal to 0.0

With sympy >= 1.13 Integer(0) != 0.0, so every hyperfine and Zeeman
sub-transition was reported as allowed.
---
 atomtoolkit/wigner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/wigner.py b/atomtoolkit/wigner.py
index 936c710..89e5ce1 100644
--- a/atomtoolkit/wigner.py
+++ b/atomtoolkit/wigner.py
@@ -39,7 +39,7 @@ def wignerPicker(func):
         else:
             # sympy throws an error when selection rules are violated, but it needs to return 0
             try:
-                return N(func(*args))
+                return float(N(func(*args)))
             except ValueError:
                 return 0.0
 
-- 
2.43.0


From a39f784aff9965befc1da465747c3a7dec2e6fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 02/77] fix: enable the wavenumber<->frequency context that was
 defined but never used

Q_(0.0, 'cm^-1') could not be converted to a frequency (ZeroDivisionError).
---
 atomtoolkit/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/__init__.py b/atomtoolkit/__init__.py
index 0eb8241..1494640 100644
--- a/atomtoolkit/__init__.py
+++ b/atomtoolkit/__init__.py
@@ -14,7 +14,7 @@ _c.add_transformation('[wavenumber]', '[frequency]',
                       lambda ureg, x: x * ureg.speed_of_light)
 _c.add_transformation('[frequency]', '[wavenumber]',
                       lambda ureg, x: x / ureg.speed_of_light)
-ureg.enable_contexts('spectroscopy')
+ureg.enable_contexts('spectroscopy', _c)
 
 c = ureg.speed_of_light
 Hz = ureg.Hz
-- 
2.43.0


From 1d6d0240e6ba42b0fbe7d7d1a24b207d47a8de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:38 +0000
Subject: [PATCH 03/77] fix: re-adding a transition with populated
 sub-transitions raised AttributeError

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3b9e954..d2cb471 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -646,7 +646,7 @@ class BaseTransition(ABC):
         self._assign_models()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
-            for subtransition in self._subtransitions:
+            for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
-- 
2.43.0


From e424c9533f3466b4e5c4420540bdebe86120ad47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 04/77] fix: sub-transition lookup preferred the swapped key

transition['F=2', 'F=3'] returned the F=3 -> F=2 line whenever both lines exist.
---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d2cb471..790416d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -670,9 +670,9 @@ class BaseTransition(ABC):
     @lazy_compute_subtransitions
     def __getitem__(self, item: Tuple[str, str]) -> BaseTransition:
         try:
-            return self._subtransitions[(item[1], item[0])]
-        except KeyError:
             return self._subtransitions[item]
+        except KeyError:
+            return self._subtransitions[(item[1], item[0])]
 
     def __setitem__(self, key: Tuple[str, str], value: BaseTransition):
         self._subtransitions[key] = value
-- 
2.43.0


From 77364139c5966b869a0bdea40b663403bfb3ed84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 05/77] fix: adding a transition brings its levels into the
 atom, as documented

---
 atomtoolkit/atom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 790416d..f0631fa 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -951,6 +951,9 @@ class Atom:
             elif isinstance(transition[0], BaseLevel):
                 transition = Transition(transition[0], transition[1], **kwargs)
 
+        for level in (transition.E_1, transition.E_2):
+            if 'level' not in self._levelsModel.nodes.get(level.name, {}):
+                self.add_level(level)
         transition.add_to_atom(self)
         if transition.alias is not None:
             self.transitions.aliases[transition.alias] = transition
-- 
2.43.0


From a4d2fea3d0c9e7869f06a9eb1df04eaa2f294fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:45 +0000
Subject: [PATCH 06/77] fix: missing (2I-1) in the denominator of the hyperfine
 octupole shift

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index f0631fa..57ce8e9 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -431,7 +431,7 @@ class HFLevel(BaseLevel):
         else:
             FM3 = (10 * IdotJ ** 3 + 20 * IdotJ ** 2 + 2 * IdotJ * (
                     -3 * I * (I + 1) * J * (J + 1) + I * (I + 1) + J * (J + 1) + 3)
-                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * J * (J - 1) * (2 * J - 1))
+                   - 5 * I * (I + 1) * J * (J + 1)) / (I * (I - 1) * (2 * I - 1) * J * (J - 1) * (2 * J - 1))
         return self.manifold.hfA_Hz * FM1 + self.manifold.hfB_Hz * FE2 + self.manifold.hfC_Hz * FM3
 
     @property
-- 
2.43.0


From be2cb2e3c5ea7f0a6104a59ae11ccd67b7db1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:48 +0000
Subject: [PATCH 07/77] fix: re-setting a transition frequency keeps all
 connected set transitions consistent

The levels stayed marked as fixed after the first pass, so that changing a
frequency in a chain or Lambda system either broke the neighbouring set
transition or had no effect at all, with only a spurious loop warning.
---
 atomtoolkit/atom.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 57ce8e9..8205e44 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1161,12 +1161,14 @@ class Atom:
             # setting subsequent levels one at a time
             search = nx.dfs_edges(subgraph, source=key_lowest)
             for edge in search:
+                # edge[0] already has its final position, edge[1] is moved to match it
                 t = subgraph.edges()[edge]['transition']
                 e_l, e_u, freq = t.E_lower, t.E_upper, t.set_freq.to(Hz).magnitude
-                if e_l.fixed and e_u.fixed and freq != abs(e_l.level_Hz - e_u.level_Hz):
-                    warnings.warn(f'Constraint problem encountered when checking {edge}. Loop of fixed transitions?')
-                elif e_u.fixed:
+                if e_l.name == edge[1]:
                     e_l.level_Hz = e_u.level_Hz - freq
                 else:
                     e_u.level_Hz = e_l.level_Hz + freq
                 e_u.fixed = e_l.fixed = True
+            for u, v, t in subgraph.edges(data='transition'):
+                if not np.isclose(t.freq_Hz, t.set_freq.to(Hz).magnitude, rtol=1e-9, atol=1.0):
+                    warnings.warn(f'Constraint problem encountered when checking {(u, v)}. Loop of fixed transitions?')
-- 
2.43.0


From 5961fe9d62c892210499e63dfc4681a93fcb5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:11 +0000
Subject: [PATCH 08/77] fix: look transitions up by the levels they join,
 independent of insertion order

Access by name raised KeyError unless the levels had been added in order of
energy, and returned the wrong line (or none) after levels changed places. The documented
access by a pair of integers, and by level objects as in the README, failed.
---
 atomtoolkit/atom_helpers.py | 39 +++++++++++++++----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index db877de..18d17bf 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -109,35 +109,28 @@ class TransitionStructure:
             - ([conf] [term] mJ=[mJ], [conf] [term] mJ=[mj])
             - ([conf] [term] F=[F], [conf] [term] F=[F])
             - ([conf] [term], [conf] [term])
+            - (level, level)
+        The order of the two levels doesn't matter
 
         :param key: the key to get
         :return: the transition associated with the key
         """
         if key in self.aliases.keys():
             return self.aliases[key]
-        # Regardless of the order the keys are passed, internally they will always be processed as (lower, upper)
-        if self.atom.levels[key[0]].level > self.atom.levels[key[1]].level:
-            k_lower, k_upper = key[1], key[0]
-        else:
-            k_lower, k_upper = key[0], key[1]
-        if 'mF=' in key[0]:  # match [conf] [term] F=[f] mF=[mF]
-            main_0, hf_0, z_0 = k_lower.rsplit(' ', maxsplit=2)
-            main_1, hf_1, z_1 = k_upper.rsplit(' ', maxsplit=2)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)][(z_0, z_1)]
-        elif 'mJ=' in key[0]:
-            main_0, z_0 = k_lower.rsplit(' mJ=', maxsplit=1)
-            main_1, z_1 = k_upper.rsplit(' mJ=', maxsplit=1)
-            l_0 = nx.get_node_attributes(self.model, 'level')[main_0]
-            l_1 = nx.get_node_attributes(self.model, 'level')[main_1]
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][
-                (f'F={l_0.term.J_frac}', f'F={l_1.term.J_frac}')][
-                (f'mF={z_0}', f'mF={z_1}')]
-        elif 'F=' in key[0]:  # match [conf] [term] F=[f]
-            main_0, hf_0 = k_lower.rsplit(' ', maxsplit=1)
-            main_1, hf_1 = k_upper.rsplit(' ', maxsplit=1)
-            return nx.get_edge_attributes(self.model, 'transition')[(main_0, main_1)][(hf_0, hf_1)]
-        else:  # match [conf] [term]
-            return nx.get_edge_attributes(self.model, 'transition')[(k_lower, k_upper)]
+        l_0, l_1 = (k if hasattr(k, 'manifold') else self.atom.levels[k] for k in key)
+        try:
+            transition = self.model.edges[l_0.manifold.name, l_1.manifold.name]['transition']
+            if 'F=' in l_0.name or 'F=' in l_1.name:  # match [conf] [term] F=[f]
+                # the sublevel graphs only know about sub-transitions that have been populated
+                transition.subtransitions()
+                hf_0, hf_1 = ((l.parent if 'mF=' in l.name else l) for l in (l_0, l_1))
+                transition = self.hf_model.edges[hf_0.name, hf_1.name]['transition']
+            if 'mF=' in l_0.name or 'mF=' in l_1.name:  # match [conf] [term] F=[f] mF=[mF]
+                transition.subtransitions()
+                transition = self.z_model.edges[l_0.name, l_1.name]['transition']
+            return transition
+        except KeyError:
+            raise KeyError(key)
 
     def __setitem__(self, value: Transition):
         self.atom.add_transition(value)
-- 
2.43.0


From 0d6d613b4135b95661ae9bcb22e12878a9296703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:34 +0000
Subject: [PATCH 09/77] fix: forbidden sub-transitions stayed in the atom's
 graphs

Transitions register themselves on creation, so that discarding a forbidden
one has to remove it again. linked_levels listed them.
---
 atomtoolkit/atom.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 8205e44..2cdb283 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -649,6 +649,10 @@ class BaseTransition(ABC):
             for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
+    def remove_from_atom(self):
+        """Remove the transition from the atom's graph, for instance because it turned out to be forbidden"""
+        self._model.remove_edge(self.E_lower.name, self.E_upper.name)
+
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
         """
         Returns pairs of sublevels that are likely to have allowed transitions, given the type of transition
@@ -733,7 +737,7 @@ class Transition(BaseTransition):
             if np.any(np.array(t.allowed_types)):
                 self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
-                del t
+                t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
@@ -795,7 +799,7 @@ class HFTransition(BaseTransition):
             if np.any(np.array(t.allowed_types)):
                 self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
             else:
-                del t
+                t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
         diff = freq - self.freq
-- 
2.43.0


From 7e0c677f488b5f6e178615d03b6d9ef25e32e6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 10/77] fix: populate_transitions raised KeyError, missed E2
 lines and kept forbidden ones

Looking up a transition that does not exist raises, it never returned None.
With only E2 allowed, the lines with a J difference of 0 and 1 were skipped.
---
 atomtoolkit/atom.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 2cdb283..6d01b2d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1036,11 +1036,8 @@ class Atom:
         :param allowed: a tuple of booleans:  ([E1],[M1],[E2])
         """
         max_to_try = 20
-        allowed_deltas = []
-        # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the allowed deltas are 1, 1, 2, 2, etc.
-        for i in range(len(allowed)):
-            if allowed[i // 2] or allowed[i // 2 + 1]:
-                allowed_deltas.append(i)
+        # since the ordering of the list is potentially E1, M1, E2, M2, etc. and the largest deltas are 1, 1, 2, 2, etc.
+        allowed_deltas = range(max((i // 2 + 2 for i in range(len(allowed)) if allowed[i]), default=0))
 
         # The keys of js are J values, and the values are lists of levels with that J value
         js = {J: [lvl for lvl in self.levels.values() if lvl.term.J == J]
@@ -1052,13 +1049,13 @@ class Atom:
             j_pairs = zip(set0, set1)
             level_pairs = tqdm(list(itertools.chain.from_iterable([itertools.product(j1, j2) for j1, j2 in j_pairs])))
             for pair in level_pairs:
-                if self.transitions[(pair[0].name, pair[1].name)] is None:
+                if not self._levelsModel.has_edge(pair[0].name, pair[1].name):
                     t = Transition(pair[0], pair[1])
                     if np.any(np.array(t.allowed_types) & np.array(allowed)):
                         level_pairs.set_description(f'processing ΔJ={delta_j:3} transition {t.name:93}')
                         self.add_transition(t)
                     else:
-                        del t
+                        t.remove_from_atom()
 
     def populate_internal_transitions(self):
         """
-- 
2.43.0


From 10ea817330238de9b5857209f931cc303dbabf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 11/77] fix: selection rules ignored the lower triangle bound

J=0 -> J=0 was reported as an allowed E1/M1/E2 line, J=1/2 -> J=1/2 as E2.
---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 6d01b2d..3db15e5 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -720,9 +720,9 @@ class Transition(BaseTransition):
             return False, False, False
         # for now, I'm assuming that E2 transitions within a manifold are impossible or at least strongly suppressed.
         # Correct me if I'm wrong!
-        return ((np.abs(J1 - J0) <= 1.0 and p0 != p1),
-                (np.abs(J1 - J0) <= 1.0 and p0 == p1),
-                (np.abs(J1 - J0) <= 2.0 and p0 == p1 and not (self.E_1 is self.E_2)))
+        return ((np.abs(J1 - J0) <= 1.0 <= J1 + J0 and p0 != p1),
+                (np.abs(J1 - J0) <= 1.0 <= J1 + J0 and p0 == p1),
+                (np.abs(J1 - J0) <= 2.0 <= J1 + J0 and p0 == p1 and not (self.E_1 is self.E_2)))
 
     def _assign_models(self):
         """A Transition lives as an edge in the atom's levelsModel graph"""
-- 
2.43.0


From 0052298ff1f7b6dde33ca1b6c8cbd9540f06fa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 12/77] fix: Zeeman E2 line strengths used the lower F for both
 levels

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3db15e5..3960bd4 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -821,7 +821,7 @@ class ZTransition(BaseTransition):
         if self.parent.allowed_types[0] or self.parent.allowed_types[1]:
             factor = sum([wigner3j(F1, 1, F2, -mF1, q, mF2) ** 2 for q in [-1, 0, 1]])
         elif self.parent.allowed_types[2]:
-            factor = sum([wigner3j(F1, 2, F1, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
+            factor = sum([wigner3j(F1, 2, F2, -mF1, q, mF2) ** 2 for q in [-2, -1, 0, 1, 2]])
         else:
             factor = 0.0
         return self.parent.A * factor, float(factor)
-- 
2.43.0


From fb014a1724d51ba0310380b0fcb24a6a26f978f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:42 +0000
Subject: [PATCH 13/77] fix: computed Lande g-values were off by a factor 100
 and mixed up the terms of a mixture

The percentages (summing to 100) were used as weights without normalisation,
the recoupling amplitudes were not squared, every component used the quantum
numbers of the leading term, components with equal percentages were dropped
and J=0 gave nan.
---
 atomtoolkit/atom.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 3960bd4..23ba96a 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -338,26 +338,26 @@ class EnergyLevel(BaseLevel):
         """
         from .transition_strengths import JJ_to_LS, JK_to_LS, LK_to_LS
         total = 0
-        for pct, term in self.term.terms_dict.items():
+        if self.term.J == 0:
+            return 0.0
+        for term in self.term.terms:
             if term.coupling == 'LS':
-                terms = np.array([[self.term.l], [self.term.s], [1.0]])
-            elif term.coupling == 'JJ':
-                terms = JJ_to_LS(self.term.J, self.term.jc, self.term.jo, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = np.array([[term.l], [term.s], [1.0]])
+            elif term.coupling == 'JJ' and term.sc is not None and term.so is not None:
+                terms = JJ_to_LS(term.J, term.jc, term.jo, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'JK':
-                terms = JK_to_LS(self.term.J, self.term.jc, self.term.k, self.term.lc, self.term.sc, self.term.lo,
-                                 self.term.so)
+                terms = JK_to_LS(term.J, term.jc, term.k, term.lc, term.sc, term.lo, term.so)
             elif term.coupling == 'LK':
-                terms = LK_to_LS(self.term.J, self.term.l, self.term.k, self.term.sc, self.term.so)
+                terms = LK_to_LS(term.J, term.l, term.k, term.sc, term.so)
             else:
                 return 0.0
 
             J = term.J
-            ls, ss, percents = terms
+            ls, ss, ampls = terms
 
-            total += pct * sum(percents * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
-                                           / (2 * J * (J + 1))))
-        return total
+            total += term.percentage * sum(ampls ** 2 * (1 + 1.0023 * (J * (J + 1) + ss * (ss + 1) - ls * (ls + 1))
+                                                         / (2 * J * (J + 1))))
+        return total / sum(term.percentage for term in self.term.terms)
 
     @classmethod
     def from_dataframe(cls, df, i=0) -> EnergyLevel:
-- 
2.43.0


From abeaefd8b3bbac2e9de9d52a1e0572f10bf70f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 14/77] fix: levels without a tabulated Lande factor got nan
 Zeeman energies

Compute the g-value instead, as EnergyLevel does when none is given.
---
 atomtoolkit/atom.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 23ba96a..91664cb 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -368,7 +368,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=df["Lande"][i])
+        lande = df["Lande"][i]
+        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
-- 
2.43.0


From 62244b4383cb6b63d0ba959b3e4faa57148b01c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:21 +0000
Subject: [PATCH 15/77] fix: linked levels, lifetimes and branching ratios for
 any equivalent key

An alias (or mJ key) raised KeyError, a missing A coefficient raised
AttributeError instead of the documented ValueError, A coefficients in
different units were mixed, and the result for a sublevel depended on
whether the manifold's internal transitions had been looked at before.
---
 atomtoolkit/atom.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 91664cb..848e944 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1097,8 +1097,9 @@ class Atom:
         if not isinstance(level, EnergyLevel):
             for k, trans in self.linked_levels(level.parent.name).items():
                 trans.populate_subtransitions()
-        adjacent = level.model.adj[key]
-        return {k: t['transition'] for k, t in adjacent.items() if k != key}
+        adjacent = level.model.adj[level.name]
+        return {k: t['transition'] for k, t in adjacent.items()
+                if t['transition'].E_1.manifold is not t['transition'].E_2.manifold}
 
     def state_lifetime(self, key: str) -> pint.Quantity:
         """
@@ -1122,15 +1123,15 @@ class Atom:
         transitions = self.linked_levels(key)
         A_coeffs = {}
         for n, t in transitions.items():
-            if t.E_upper.name == key:
+            if t.E_upper is self.levels[key]:
                 A_coeffs[n] = t.A
         try:
-            totalAs = np.sum([A.magnitude for A in list(A_coeffs.values())])
-        except TypeError:
+            totalAs = np.sum([A.to(Hz).magnitude for A in list(A_coeffs.values())])
+        except AttributeError:
             # CONSIDER: make a custom exception for this? Maybe a whole slew of exceptions to throw
             raise ValueError(f"At least one transition leading from {key} has no valid A coefficient")
 
-        ratios = {k: t.magnitude / totalAs for k, t in A_coeffs.items()}
+        ratios = {k: t.to(Hz).magnitude / totalAs for k, t in A_coeffs.items()}
         return ratios
 
     def enforce_consistency(self, node_or_trans: BaseLevel or BaseTransition = None):
-- 
2.43.0


From 5ae39d005df63b2f0ca18778e2b93d549f71f33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:23 +0000
Subject: [PATCH 16/77] fix: save() wrote foo.atom.atom for paths containing
 another dot, and lost the old file on error

'./foo.atom' or 'foo.v2.atom' could not be loaded back under the name they were
saved with. An atom that cannot be pickled truncated the existing file.
---
 atomtoolkit/atom.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 848e944..fed61b5 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -982,13 +982,11 @@ class Atom:
         """
         if filename is None:
             filename = self.name
-        try:
-            if filename.split(".", -1)[1] != "atom":
-                filename = filename + ".atom"
-        except IndexError:
+        if not filename.endswith(".atom"):
             filename = filename + ".atom"
+        data = pickle.dumps(self)
         with open(filename, "wb") as file:
-            pickle.dump(self, file)
+            file.write(data)
 
     @classmethod
     def load(cls, filename: str) -> Atom:
-- 
2.43.0


From d0a41401ec31f707fbb4d476f540ab16b948cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:31 +0000
Subject: [PATCH 17/77] fix: changing a transition's A coefficient reaches its
 populated subtransitions

---
 atomtoolkit/atom.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index fed61b5..b5b2ca0 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -605,6 +605,18 @@ class BaseTransition(ABC):
     def wl(self) -> pint.Quantity:
         return self.freq.to(ureg.nanometer)
 
+    @property
+    def A(self) -> pint.Quantity or None:
+        """The Einstein A coefficient of the transition"""
+        return self._A
+
+    @A.setter
+    def A(self, val: pint.Quantity or None):
+        self._A = val
+        # subtransitions that have already been populated scale with their parent
+        for subtransition in self._subtransitions.values():
+            subtransition.A, subtransition.rel_strength = subtransition.compute_linewidth()
+
     def compute_linewidth(self) -> Tuple[pint.Quantity or None, float]:
         """
         computes the linewidth of the transition, including angular momentum factors
-- 
2.43.0


From 7bad8687ae4ebf877062b1f849ded884a668e1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:33 +0000
Subject: [PATCH 18/77] fix: looking up linked levels no longer replaces
 existing subtransitions

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index b5b2ca0..9a7dce8 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1106,7 +1106,7 @@ class Atom:
         level = self.levels[key]
         if not isinstance(level, EnergyLevel):
             for k, trans in self.linked_levels(level.parent.name).items():
-                trans.populate_subtransitions()
+                trans.subtransitions()
         adjacent = level.model.adj[level.name]
         return {k: t['transition'] for k, t in adjacent.items()
                 if t['transition'].E_1.manifold is not t['transition'].E_2.manifold}
-- 
2.43.0


From 51b9b200a6b7ceab4469b8075159d8e7305b4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:35 +0000
Subject: [PATCH 19/77] fix: editing a level's Lande factor reaches its
 populated sublevels

---
 atomtoolkit/atom.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 9a7dce8..62a56b9 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -385,7 +385,16 @@ class HFLevel(BaseLevel):
         :param parent: the atom that the level is contained in
         """
         super().__init__(term, parent)
-        self.gF = self.compute_gF()
+        self._gF = None
+
+    @property
+    def gF(self) -> float:
+        """The Lande g-value of the sublevel. It follows the manifold's g-value, unless it has been set explicitly"""
+        return self.compute_gF() if self._gF is None else self._gF
+
+    @gF.setter
+    def gF(self, value: float):
+        self._gF = value
 
     def get_manifold(self) -> EnergyLevel:
         """The parent of a hyperfine level is a fine structure level"""
-- 
2.43.0


From 3f67e641b1778d69c755eb0c838e8f3ac7694657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:38 +0000
Subject: [PATCH 20/77] fix: subtransitions between overlapping manifolds
 overwrote each other

---
 atomtoolkit/atom.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 62a56b9..12d0a35 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -675,6 +675,15 @@ class BaseTransition(ABC):
         """Remove the transition from the atom's graph, for instance because it turned out to be forbidden"""
         self._model.remove_edge(self.E_lower.name, self.E_upper.name)
 
+    def _subtransition_key(self, t: BaseTransition) -> Tuple[str, str]:
+        """
+        The key of a subtransition: the short name of the sublevel of this transition's lower level, followed by that of
+        its upper level. Substructure can overlap, so a subtransition may have its levels in the opposite energy order
+        """
+        if self.E_upper is not self.E_lower and t.E_lower.parent is self.E_upper:
+            return t.E_upper.term.short_name, t.E_lower.term.short_name
+        return t.E_lower.term.short_name, t.E_upper.term.short_name
+
     def _compute_sublevel_pairs(self, attr: str) -> Iterable[Tuple[BaseLevel, BaseLevel]]:
         """
         Returns pairs of sublevels that are likely to have allowed transitions, given the type of transition
@@ -757,7 +766,7 @@ class Transition(BaseTransition):
         for a, b in pairs:
             t = HFTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                self[self._subtransition_key(t)] = t
             else:
                 t.remove_from_atom()
 
@@ -819,7 +828,7 @@ class HFTransition(BaseTransition):
         for a, b in pairs:
             t = ZTransition(a, b, parent=self)
             if np.any(np.array(t.allowed_types)):
-                self[(t.E_lower.term.short_name, t.E_upper.term.short_name)] = t
+                self[self._subtransition_key(t)] = t
             else:
                 t.remove_from_atom()
 
-- 
2.43.0


From 64505d980e9c1d8fcfef66b27f8bc202c6ca8c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:03 +0000
Subject: [PATCH 21/77] fix: internal transitions of degenerate sublevels were
 listed twice

---
 atomtoolkit/atom.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 12d0a35..863c8e7 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -690,10 +690,15 @@ class BaseTransition(ABC):
         :param attr: the Term attribute to use for selection rules. Can be anything in {L, J, F, mF, mJ}
         :return: An iterable of pairs of sublevels with possible allowed transitions
         """
+        if self.E_1 is self.E_2:
+            # a level's internal transitions connect each pair of its sublevels once
+            pairs = itertools.combinations_with_replacement(self.E_1.sublevels(), 2)
+        else:
+            pairs = itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
         if True not in self.allowed_types:
-            return itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+            return pairs
         max_delta = (2 if (self.allowed_types[2] and not self.allowed_types[1]) else 1)
-        return ((l1, l2) for l1, l2 in itertools.product(self.E_1.sublevels(), self.E_2.sublevels())
+        return ((l1, l2) for l1, l2 in pairs
                 if abs(l1.term.__getattribute__(attr) - l2.term.__getattribute__(attr)) <= max_delta)
 
     # region: dict-like-methods
-- 
2.43.0


From 01fb96c1635599751fd83a60bdb789c24a7d56eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 22/77] fix: transitions could not be deleted from, or assigned
 into, an atom's transitions

---
 atomtoolkit/atom.py         |  6 +++++-
 atomtoolkit/atom_helpers.py | 10 +++++++---
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 863c8e7..5559070 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -673,7 +673,11 @@ class BaseTransition(ABC):
 
     def remove_from_atom(self):
         """Remove the transition from the atom's graph, for instance because it turned out to be forbidden"""
-        self._model.remove_edge(self.E_lower.name, self.E_upper.name)
+        for subtransition in self._subtransitions.values():
+            subtransition.remove_from_atom()
+        edge = self._model.get_edge_data(self.E_lower.name, self.E_upper.name, {})
+        if edge.get('transition') is self:
+            self._model.remove_edge(self.E_lower.name, self.E_upper.name)
 
     def _subtransition_key(self, t: BaseTransition) -> Tuple[str, str]:
         """
diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 18d17bf..8ea5f30 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -132,11 +132,15 @@ class TransitionStructure:
         except KeyError:
             raise KeyError(key)
 
-    def __setitem__(self, value: Transition):
+    def __setitem__(self, key: str, value: Transition):
         self.atom.add_transition(value)
+        value.alias = key
 
-    def __delitem__(self, level1: str, level2: str):
-        self.model.remove_edge(level1, level2)
+    def __delitem__(self, key: Tuple[str, str]):
+        transition = self[key]
+        transition.remove_from_atom()
+        self.aliases = {k: t for k, t in self.aliases.items()
+                        if not any(p is transition for p in (t, t.parent, getattr(t.parent, 'parent', None)))}
 
     def __len__(self) -> int:
         return len(nx.get_edge_attributes(self.model, 'transition'))
-- 
2.43.0


From 2893548240744300a5c39b6724b6fb1568d921ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 23/77] fix: deleting a level left its sublevels and aliases
 behind

---
 atomtoolkit/atom.py         | 7 +++++++
 atomtoolkit/atom_helpers.py | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 5559070..ae298ac 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -184,6 +184,13 @@ class BaseLevel(ABC):
             for sublevel in self.sublevels():
                 sublevel.add_to_atom(atom)
 
+    def remove_from_atom(self):
+        """Remove the level and its sublevels, along with any transitions they take part in, from the atom's graphs"""
+        for sublevel in self._sublevels.values():
+            sublevel.remove_from_atom()
+        if self.name in self.model:
+            self.model.remove_node(self.name)
+
     # region dict-like methods
     @lazy_compute_sublevels
     def __len__(self) -> int:
diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 8ea5f30..1cf84e1 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -60,7 +60,12 @@ class LevelStructure:
         self.atom.add_level(value, alias=key)
 
     def __delitem__(self, key: str):
-        self.model.remove_node(key)
+        level = self[key]
+        level.remove_from_atom()
+        self.aliases = {k: l for k, l in self.aliases.items() if level not in (l, l.parent, l.manifold)}
+        transitions = self.atom.transitions
+        transitions.aliases = {k: t for k, t in transitions.aliases.items()
+                               if not any(level in (l, l.parent, l.manifold) for l in (t.E_1, t.E_2))}
 
     def __len__(self) -> int:
         return len(nx.get_node_attributes(self.model, 'level'))
-- 
2.43.0


From 861921e30d713f3325dd80d13583e1b3ac9249d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 24/77] fix: an alias could not be given to a transition before
 its levels were in an atom

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ae298ac..af25e60 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -595,7 +595,7 @@ class BaseTransition(ABC):
         self.A, self.rel_strength = self.compute_linewidth()
         self.allowed_types = self.transition_allowed()
         self.set_freq = freq
-        if alias is not None:
+        if alias is not None and self.atom is not None:
             self.atom.transitions.aliases[alias] = self
 
     def __str__(self):
-- 
2.43.0


From 7779529fbbbd5a5b4095d59c43b6fff1c2f69504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:01 +0000
Subject: [PATCH 25/77] fix: an alias could not be set on levels and
 transitions that are not in an atom yet

---
 atomtoolkit/atom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index af25e60..d51d59c 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -154,7 +154,8 @@ class BaseLevel(ABC):
     @alias.setter
     def alias(self, al: str):
         self._alias = al
-        self.atom.levels.aliases[al] = self
+        if self.atom is not None:
+            self.atom.levels.aliases[al] = self
 
     @property
     def model(self) -> nx.Graph:
@@ -667,7 +668,8 @@ class BaseTransition(ABC):
     @alias.setter
     def alias(self, al: str):
         self._alias = al
-        self.atom.transitions.aliases[al] = self
+        if self.atom is not None:
+            self.atom.transitions.aliases[al] = self
 
     def add_to_atom(self, atom: Atom):  # pragma: no cover
         """Add the transition to the atom and the appropriate graphs within the atom"""
-- 
2.43.0


From 6f91da5d2ce5dfe423ef15396ba26a58fd49b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:03 +0000
Subject: [PATCH 26/77] fix: wrong degeneracy factor in the tensor transition
 strengths

---
 atomtoolkit/transition_strengths.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 8fa5275..267af99 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -15,7 +15,7 @@ from .wigner import wigner3j, wigner6j, wigner9j
 def tkq_transition_strength(I: float, k: int, q: int,
                             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) * (2 * F1 + 2) * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) * (2 * F1 + 1) * wigner6j(J0, J1, k,
                                                    F1, F0, I) ** 2
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0) ** 2
@@ -26,7 +26,7 @@ def tkq_transition_strength(I: float, k: int, q: int,
 def tkq_mel(I: float, k: int, q: int,
             J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     prod = 1
-    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 2) ** 0.5 * wigner6j(J0, J1, k,
+    prod *= (2 * F0 + 1) ** 0.5 * (2 * F1 + 1) ** 0.5 * wigner6j(J0, J1, k,
                                                                  F1, F0, I)
     prod *= wigner3j(F1, k, F0,
                      -M1, q, M0)
-- 
2.43.0


From c0ae744e05093920c5f82cd7268db037980827e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 27/77] fix: geometric factors of E2 transitions (precedence,
 missing product, wrong components)

---
 atomtoolkit/transition_strengths.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 267af99..1c83daa 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -95,19 +95,19 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
     k = k / np.linalg.norm(k)
-    if np.dot(eps, k) != 0:
+    if not np.isclose(np.dot(eps, k), 0, atol=1e-9):
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_mel(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] - 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     tot += tkq_mel(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
            (-(k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (-6 ** 0.5 * k[0] * eps[0] + 6 ** 0.5 * k[1] * eps[1] + (2. / 3.) * 6 ** 0.5 * k[2] * eps[2])
+           (2. / 3.) ** 0.5 * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1])
     tot += tkq_mel(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
            ((k[0] * eps[2] + k[2] * eps[0]) + 1j * (k[1] * eps[2] + k[2] * eps[1]))
     tot += tkq_mel(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
-           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] + eps[0]) - k[1] * eps[1])
+           (eps[0] * k[0] + 1j * (k[0] * eps[1] + k[1] * eps[0]) - k[1] * eps[1])
     return tot
 
 
@@ -116,17 +116,17 @@ def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
     k = k / np.linalg.norm(k)
-    if np.dot(eps, k) != 0:
+    if not np.isclose(np.dot(eps, k), 0, atol=1e-9):
         warnings.warn("k-vector and polarization are not orthogonal")
     tot = 0
     tot += tkq_transition_strength(I, 2, -2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     tot += tkq_transition_strength(I, 2, -1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 0, J0, F0, M0, J1, F1, M1) * \
-           (2. / 3.) * (3 * k[0] * eps[0] + 3 * k[1] * eps[1] + 2 * k[2] * eps[2]) ** 2
+           (2. / 3.) * (2 * k[2] * eps[2] - k[0] * eps[0] - k[1] * eps[1]) ** 2
     tot += tkq_transition_strength(I, 2, 1, J0, F0, M0, J1, F1, M1) * \
-           (eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[1] * k[0] + eps[0] * k[1]) ** 2
+           ((eps[2] * k[0] + eps[0] * k[2]) ** 2 + (eps[2] * k[1] + eps[1] * k[2]) ** 2)
     tot += tkq_transition_strength(I, 2, 2, J0, F0, M0, J1, F1, M1) * \
            (eps[0] ** 2 + eps[1] ** 2) * (k[0] ** 2 + k[1] ** 2)
     return tot
-- 
2.43.0


From 6869ed3ee65feee17b325138583c71a497efc36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 28/77] fix: NIST tables without an ionization limit were
 imported as empty

---
 atomtoolkit/IO.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e1fb661..4665911 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -114,7 +114,8 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean['Level (Hz)'] = df_clean['Level (cm-1)'].pint.to('Hz')
 
     # remove any terms above ionization, and the ionization row
-    df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
+    if (df_clean['Term'] == 'Limit').any():
+        df_clean = df_clean.loc[:(df_clean['Term'] == 'Limit').idxmax() - 1]
     # split up levels with multiple J
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
-- 
2.43.0


From 4f6164211a60b9884d48287da25c92b07524e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:33 +0000
Subject: [PATCH 29/77] fix: thermal line shapes used the FWHM factor for the
 Doppler standard deviation

---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 98e8882..968fff8 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -138,7 +138,7 @@ class GaussianLineShape(LineShape):
 class ThermalGaussianLineShape(LineShape):
     def __init__(self, T, m):
         super().__init__()
-        self.sigma = (8*ureg.k*T/(m*c**2))**0.5
+        self.sigma = ((ureg.k*T/(m*c**2))**0.5).to("").magnitude
         self.fwhm = self.sigma * 2.355
 
     def shape_func(self, x, x0, **kwargs):
@@ -154,7 +154,7 @@ class ThermalLineShape(LineShape):
 
     def __init__(self, T, m, gamma):
         super().__init__()
-        self.sigma = (8 * ureg.k * T / (m * c ** 2)) ** 0.5
+        self.sigma = ((ureg.k * T / (m * c ** 2)) ** 0.5).to("").magnitude
         self.fwhm = self.sigma * 2.355
         self.gamma = gamma
 
-- 
2.43.0


From e36ade524aac69506dd30ea8dbb6d8545ae964f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:35 +0000
Subject: [PATCH 30/77] fix: thermal line shapes were sampled on a window much
 narrower than the line

---
 atomtoolkit/render/lineshapes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 968fff8..7a72a71 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -52,7 +52,7 @@ class LineShape(ABC):
         raise NotImplementedError
 
     def compute(self, x0, num_points: int = 1000, **kwargs):
-        width = self.width_func(**kwargs)
+        width = self.width_func(x0=x0, **kwargs)
         x_values = np.linspace(x0 - width, x0 + width, num_points)
         y_values = self.shape_func(x_values, x0, **kwargs)
         return x_values, y_values
@@ -145,8 +145,8 @@ class ThermalGaussianLineShape(LineShape):
         ampl = kwargs.get('ampl', 1.0)
         return gaussian(x, x0, self.sigma*x0, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
+    def width_func(self, x0, padding=20.0, **kwargs):
+        return padding * self.sigma * x0
 
 
 class ThermalLineShape(LineShape):
@@ -166,5 +166,5 @@ class ThermalLineShape(LineShape):
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
         return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
 
-    def width_func(self, padding=20.0, **kwargs):
-        return padding * self.sigma
\ No newline at end of file
+    def width_func(self, x0, padding=20.0, **kwargs):
+        return padding * (self.sigma * x0 + self.gamma)
-- 
2.43.0


From 7e7b2195b2da6fcef4ad043b6a284ffde7b5a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:37 +0000
Subject: [PATCH 31/77] fix: Grotrian sublevel widths truncated half-integer F

---
 atomtoolkit/render/grotrian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index bfb441f..3694108 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -282,9 +282,9 @@ class Grotrian:
         y1 = kwargs.get('y1', 0)
         offset = kwargs.get('offset', 0.0)
 
-        squeeze = kwargs.get('squeeze', int((level.term.J + level.atom.I)))
+        squeeze = kwargs.get('squeeze', level.term.J + level.atom.I)
         if squeeze is True:
-            squeeze = int((level.term.J + level.atom.I))
+            squeeze = level.term.J + level.atom.I
         elif squeeze is False:
             squeeze = max(l.term.F for l in level.atom.levels[0].values())
         squeeze = int(2 * squeeze + 1)
-- 
2.43.0


From bfc02ff8530531ebff049b38b7ff5ab474d7a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:40 +0000
Subject: [PATCH 32/77] fix: Grotrian hyperfine levels were drawn at half the
 documented width

---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 3694108..6154c1d 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -365,7 +365,7 @@ class Grotrian:
         i = level.term.F - min(Fs)
 
         w_null = W - (N - 1) * offset * W
-        wF = W * (2 * level.term.F + 1) / (2 * squeeze + 1)
+        wF = W * (2 * level.term.F + 1) / squeeze
         dx = (1 - a) * w_null / 2 + a * wF / 2
         y = y0 + y1 + hf_scale/1e12 * (b * level.shift_Hz + (1 - b) * (i - N / 2) * span / N)
         p0 = (offset * W * i - dx + x1 + x0, y)
-- 
2.43.0


From 902cef5356b51b0d6b7ae271535ddd90a9dc2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 33/77] fix: Zeeman Grotrian of an F=0 level raised
 ZeroDivisionError

---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 6154c1d..991c884 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -335,7 +335,7 @@ class Grotrian:
         fill_factor = kwargs.pop('fill_factor', 0.9)
 
         sublevel_width = fill_factor * W / squeeze
-        space_width = (1 - fill_factor) * W / (squeeze - 1)
+        space_width = (1 - fill_factor) * W / max(squeeze - 1, 1)
 
         Fs = [s.term.F for s in level.manifold.sublevels()]
         N = len(Fs)
-- 
2.43.0


From 514caf67d0330643f056b1668c6e4912fd252a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 34/77] fix: thermal line shape had a different height and
 width in its Voigt regime, and failed for zero linewidth

---
 atomtoolkit/render/lineshapes.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 7a72a71..8a71dcf 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -160,11 +160,13 @@ class ThermalLineShape(LineShape):
 
     def shape_func(self, x, x0, **kwargs):
         ampl = kwargs.get('ampl', 1.0)
-        if self.gamma/(self.sigma*x0) > self.cutoff:
+        if self.gamma > self.cutoff * (self.sigma*x0):
             return lorentzian(x, x0, gamma=self.gamma, ampl=ampl)
-        elif (self.sigma*x0)/self.gamma > self.cutoff:
+        elif self.sigma*x0 > self.cutoff * self.gamma:
             return gaussian(x, x0, self.sigma*x0, ampl=ampl)
-        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma, ampl=ampl)
+        # the Voigt profile takes a half width, and has a unit area instead of a unit height
+        return voigt(x, x0, sigma=self.sigma*x0, gamma=self.gamma / 2,
+                     ampl=ampl / voigt_profile(0, self.sigma*x0, self.gamma / 2))
 
     def width_func(self, x0, padding=20.0, **kwargs):
         return padding * (self.sigma * x0 + self.gamma)
-- 
2.43.0


From 8f995a22caa1da3eb28c23b20a466da69cec5f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 35/77] fix: plot_spectrum failed on a single transition and
 without a coloring

---
 atomtoolkit/render/spectra.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index d3cf32c..e59b87c 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -140,7 +140,7 @@ def color_table_from_property(items: List[BaseTransition],
 
 def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                   lineshape: str or LineShape = None,
-                  coloring: str or Callable = None,
+                  coloring: str or Callable = 'l',
                   temp: pint.Quantity = None,
                   laser_linewidth: pint.Quantity = Q_(0, 'Hz'),
                   mass: pint.Quantity = None,
@@ -164,7 +164,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     def color_func(t): pass
     if type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
-    elif type(transitions[0]) == HFTransition:
+    elif type(lines[0]) == HFTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.F,
@@ -177,7 +177,7 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
                                                    cmap=kwargs.pop('cmap', 'tab10'))
 
         def color_func(t): return color_dict[t]
-    elif type(transitions[0]) == ZTransition:
+    elif type(lines[0]) == ZTransition:
         if coloring == 'l':
             color_dict = color_table_from_property(lines,
                                                    property_color=lambda t: t.E_lower.term.mF,
@@ -196,4 +196,4 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
         def color_func(t): return color_dict[t]
 
-    plot_transitions(transitions, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
+    plot_transitions(lines, lineshape_func, color_func=color_func, ampl_dict=ampl_dict)
-- 
2.43.0


From a96bf52d4a03ad8a3d7a2bedac862a293c802b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 36/77] fix: draw_levels had no positions for hyperfine and
 Zeeman levels

---
 atomtoolkit/render/grotrian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 991c884..feb0cef 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -13,13 +13,13 @@ def draw_levels(atom: Atom, plot_type: str = 'norm', **kwargs):
     Draws a quick and dirty grotrian diagram.
     Placeholder for a more complete grotrian functionality
     """
-    positions = {l.name: (l.term.J, l.level_Hz/1e12) for l in atom.levels.values()}
     if plot_type == 'hf':
         model = atom._hfModel.copy()
     elif plot_type == 'z':
         model = atom._zModel.copy()
     else:
         model = atom._levelsModel.copy()
+    positions = {name: (l.term.J, l.level_Hz/1e12) for name, l in model.nodes(data='level')}
     for node in model.nodes():
         try:
             model.remove_edge(node, node)
-- 
2.43.0


From f276f95c40a21e6e816fe36dbd7a06f4a989b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 37/77] fix: rendering a Grotrian diagram again drew every
 level twice

---
 atomtoolkit/render/grotrian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index feb0cef..e5a101d 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -173,6 +173,7 @@ class Grotrian:
                     [(max_x - h, min_y), (max_x, min_y), (max_x, max_y), (max_x - h, max_y)]]
 
         # build up a table of all the relevant levels AND sublevels (for bbox/transition reasons)
+        self.lines_df = self.lines_df.iloc[:0]
         for i, row in self.level_prompts.iterrows():
             self.lines_df = pd.concat([self.lines_df, pd.DataFrame(row['strategy'](row['level'], **row['kwargs']))],
                                       ignore_index=True)
-- 
2.43.0


From f36dbcf55e7bbb080ed92837d98d65dd8f3b6696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 38/77] fix: terms that differ in J, F or mF compared equal

---
 atomtoolkit/term.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 91374d6..777a621 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -77,7 +77,8 @@ class Term:
         # CONSIDER: rn this matches multiterms. Is this the behavior I want?
         return self.quantum_nums == other.quantum_nums and \
                self.conf == other.conf and \
-               self.term == other.term
+               self.term == other.term and \
+               (self.J, self.F, self.mF) == (other.J, other.F, other.mF)
 
     def make_term_copy(self, F: float = None, mF: float = None) -> Term:
         """
-- 
2.43.0


From 721a2ddf81fe4db18aba55f01590d862ac86abd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 39/77] fix: MultiTerm comparison with a mixture of another
 length, and its repr, raised errors

---
 atomtoolkit/term.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 777a621..33b5046 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -122,7 +122,7 @@ class MultiTerm(collections.abc.Sequence):
         return object.__getattribute__(self, item)
 
     def __repr__(self):
-        return MultiTerm(*self.terms)
+        return f'MultiTerm({", ".join(t.name for t in self.terms)})'
 
     def __str__(self):
         return f"{self.terms[0]} ({self.terms[0].percentage})"
@@ -140,7 +140,7 @@ class MultiTerm(collections.abc.Sequence):
     def __eq__(self, other: Term or MultiTerm) -> bool:
         if isinstance(other, Term):
             return self[0] == other
-        return np.all([self[i] == other[i] for i in range(len(self))])
+        return len(self) == len(other) and all(self[i] == other[i] for i in range(len(self)))
 
     def make_term_copy(self, F: float = None, mF: float = None) -> MultiTerm:
         """
-- 
2.43.0


From c5d97ba96779fa094db85ab6bfdd0a03f2daa574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:34 +0000
Subject: [PATCH 40/77] fix: copying a term lost its mF

---
 atomtoolkit/term.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index 33b5046..addccc0 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -88,8 +88,8 @@ class Term:
         :return:
         """
         if self.F is not None:
-            return Term(self.conf, self.term, self.J, F=self.F, mF=mF, quantum_nums=self.quantum_nums,
-                        percentage=self.percentage)
+            return Term(self.conf, self.term, self.J, F=self.F, mF=self.mF if mF is None else mF,
+                        quantum_nums=self.quantum_nums, percentage=self.percentage)
         return Term(self.conf, self.term, self.J, F=F, mF=mF, quantum_nums=self.quantum_nums,
                     percentage=self.percentage)
 
-- 
2.43.0


From bf4d32fe55c65689fc22d6106f60aece11d99407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:21 +0000
Subject: [PATCH 41/77] fix: sublevel energies and sub-transition frequencies
 could not be given as wavenumber or wavelength

---
 atomtoolkit/atom.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d51d59c..b277124 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -472,7 +472,7 @@ class HFLevel(BaseLevel):
         parent to move by the same amount instead of moving itself
         :param value: the new level of the hyperfine level
         """
-        shift = value - self.level
+        shift = value.to(Hz) - self.level
         self.parent.level += shift
 
     def compute_gF(self) -> float:
@@ -851,7 +851,7 @@ class HFTransition(BaseTransition):
                 t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
@@ -898,7 +898,7 @@ class ZTransition(BaseTransition):
         pass
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq - self.freq
+        diff = freq.to(Hz) - self.freq
         self.parent.set_frequency(self.parent.freq + diff)
 
 
-- 
2.43.0


From edbd83869fd387d5de5f177defc2678d79ac31fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:01 +0000
Subject: [PATCH 42/77] fix: populate_transitions_df did not accept J given as
 a fraction

---
 atomtoolkit/atom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index b277124..c0fe821 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1121,8 +1121,8 @@ class Atom:
         """
         rows = tqdm(list(df.iterrows()))
         for _, row in rows:
-            j_l = util.float_to_frac(float(row['j_l']))
-            j_u = util.float_to_frac(float(row['j_u']))
+            j_l = util.float_to_frac(util.frac_to_float(row['j_l']))
+            j_u = util.float_to_frac(util.frac_to_float(row['j_u']))
             try:
                 e1 = self.levels[f'{row["conf_l"]} {row["term_l"]}{j_l}']
                 e2 = self.levels[f'{row["conf_u"]} {row["term_u"]}{j_u}']
-- 
2.43.0


From a390b8b0a3508ba47dda994eed56d1bbc46ad7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:56 +0000
Subject: [PATCH 43/77] fix: NIST leading percentages were lost when given
 alone and garbled when not whole numbers

---
 atomtoolkit/IO.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 4665911..af5ebf2 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -67,7 +67,11 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     #       81                :    11  (2F*<5/2>).5d2.(1D)            1[7/2]*
     #       35  3[5/2]*       :    30                                 (2F*<7/2>)(3F) 3[3/2]*
     df_clean[['Percentage', 'Percentage_2', 'Configuration_2', 'Term_2']] = \
-        df_clean['Leading percentages'].str.extract(r'\ *(\d+)\ +.+?\ *.*:\ *(\d+)\ +(.+?)(?:\ +(.+?))?\ *$')
+        df_clean['Leading percentages'].str.extract(
+            r'^\ *(\d+(?:\.\d+)?)\ +.+?\ *.*:\ *(\d+(?:\.\d+)?)\ +(.+?)(?:\ +(.+?))?\ *$')
+    #    the first percentage is often given without a second one
+    df_clean['Percentage'] = df_clean['Percentage'].fillna(
+        df_clean['Leading percentages'].str.extract(r'^\ *(\d+(?:\.\d+)?)(?:\ |$)', expand=False))
     #    NIST doesn't see fit to give the jj-coupled terms in their second percentages,
     #    so we extract the j values from the configuration and store them in Term_2_int
     #       54                :    19                                 (2F*<5/2>)(3F*<2>)
-- 
2.43.0


From ef4165050b39069fae8ce5a99f8550be6e91c4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 44/77] fix: one NIST second component that is not JJ coupled
 made all rows lose their JJ second terms

---
 atomtoolkit/IO.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index af5ebf2..db210f7 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -77,13 +77,9 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     #       54                :    19                                 (2F*<5/2>)(3F*<2>)
     df_clean.loc[df_clean["Term_2"].isnull(), 'Term_2_int'] = df_clean['Configuration_2'].str.findall(r'\<(.+?)\>')
     #    take the j values from Term_2_int and create a JJ term symbol from them
-    try:
-        df_clean.loc[~df_clean["Term_2_int"].isnull(), 'Term_2'] = \
-            df_clean["Term_2_int"].map(lambda k: '({}, {})'.format(*k), na_action='ignore')
-    except IndexError:
-        # FIXME sometimes some values in Term_2_int aren't JJ coupled (so far only seen in Na I, above ionization).
-        #   I do not have time for this right now, and if any Rydberg people wanna get mad at me later they can fix it
-        pass
+    #    (sometimes some values in Term_2_int aren't JJ coupled, so far only seen in Na I, above ionization)
+    df_clean.loc[~df_clean["Term_2_int"].isnull(), 'Term_2'] = \
+        df_clean["Term_2_int"].map(lambda k: '({}, {})'.format(*k) if len(k) >= 2 else None, na_action='ignore')
     df_clean = df_clean.drop("Term_2_int", axis=1)
     df_clean['Term'] = df_clean['Term'].fillna('')
     df_clean['Term_2'] = df_clean['Term_2'].fillna('')
-- 
2.43.0


From 6b1c80aedd0af0ea80e1de48687649286447a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:01 +0000
Subject: [PATCH 45/77] fix: NIST levels with several J kept a space in front
 of the J value

---
 atomtoolkit/IO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index db210f7..3e591c5 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -120,6 +120,7 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     df_clean.J = df_clean.J.str.replace(" or", ",")
     df_clean.J = df_clean.J.str.split(",")
     df_clean = df_clean.explode('J')
+    df_clean.J = df_clean.J.str.strip()
     # reset the indices, since we may have dropped some rows
     df_clean.reset_index(drop=True, inplace=True)
 
-- 
2.43.0


From 293dff0d26b64e3febeeaff382fe023e31271fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:38 +0000
Subject: [PATCH 46/77] fix: NIST terms were not restored from leading
 percentages that are not whole numbers

---
 atomtoolkit/IO.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index 3e591c5..afdd947 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -60,7 +60,7 @@ def _load_NIST_data(species: str, term_ordered: bool = False, save: bool or str
     #    so find the terms with only '*' or '' and get the term from the leading percentage
     #       35  3[5/2]*       :    30                                 (2F*<7/2>)(3F) 3[3/2]*
     #       36  (7/2,1)       :    25  (2F*<7/2>).5d.6p.(1P*<1>)
-    reg = r'\ *\d+\ +([^\ ]+)\ *.*\ :\ *\d+\ +.+?(?:\ +.+?)?\ *$'
+    reg = r'^\ *\d+(?:\.\d+)?\ +([^\ ]+)\ *.*\ :\ *\d+(?:\.\d+)?\ +.+?(?:\ +.+?)?\ *$'
     df_clean.loc[df_clean["Term"] == '', 'Term'] = df_clean['Leading percentages'].str.extract(reg, expand=False)
     df_clean.loc[df_clean["Term"] == '*', 'Term'] = df_clean['Leading percentages'].str.extract(reg, expand=False)
     #    extract the relevant data available in the config leading percentage. Example cases:
-- 
2.43.0


From 4125e3c47a3a3012bc9c2b6bb4ec4b278422c851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:39 +0000
Subject: [PATCH 47/77] fix: modulated line shapes could not be evaluated at
 integer positions

---
 atomtoolkit/render/lineshapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/lineshapes.py b/atomtoolkit/render/lineshapes.py
index 8a71dcf..6672743 100644
--- a/atomtoolkit/render/lineshapes.py
+++ b/atomtoolkit/render/lineshapes.py
@@ -30,7 +30,7 @@ def voigt(x, x0, sigma: float, gamma: float, ampl: float = 1.0):
 
 def mod_lorentzian(x, x0: float, gamma: float, ampl: float = 1.0, depth: float = 0.0, num_sidebands: int = None,
                    mod_freq_GHz: float = 1.0):
-    tot = np.zeros_like(x)
+    tot = np.zeros_like(x, dtype=float)
     tot += lorentzian(x, x0, gamma, ampl=ampl * float(jv(0, depth) ** 2))
     for i in range(1, num_sidebands + 1):
         mod_ampl = ampl * float(jv(i, depth) ** 2)
@@ -103,7 +103,7 @@ class ModLorentzianLineShape(LineShape):
         width = self.gamma
         if 'A_coeff' in kwargs:
             width += kwargs['A_coeff'] / (1e6 * 2 * np.pi)
-        tot = np.zeros_like(x)
+        tot = np.zeros_like(x, dtype=float)
         tot += lorentzian(x, x0, width, ampl=ampl * float(jv(0, self.depth) ** 2))
         for i in range(1, self.num_sidebands + 1):
             mod_ampl = ampl * float(jv(i, self.depth) ** 2)
-- 
2.43.0


From 0e303e2d2bbda14ac3d0717d661c96328843a00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:57 +0000
Subject: [PATCH 48/77] fix: plot_zeeman_spectrum plotted the hyperfine lines
 of a list of Transitions

---
 atomtoolkit/render/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index e59b87c..4885409 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -71,7 +71,9 @@ def plot_zeeman_spectrum(transitions: BaseTransition or List[BaseTransition],
     elif isinstance(transitions, Transition):
         lines = list(itertools.chain.from_iterable(list(t.values()) for t in list(transitions.values())))
     elif isinstance(transitions, list):
-        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
+        hf_lines = itertools.chain.from_iterable(t.values() if isinstance(t, Transition) else [t] for t in transitions)
+        lines = list(itertools.chain.from_iterable(t.values() if isinstance(t, HFTransition) else [t]
+                                                   for t in hf_lines))
     else:
         lines = transitions
 
-- 
2.43.0


From b394cb36af462dd978bc8f0e5db555a5fb738b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:55 +0000
Subject: [PATCH 49/77] fix: plot_spectrum ignored a coloring function for
 lines without substructure and crashed on others

---
 atomtoolkit/render/spectra.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 4885409..b88fae5 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -164,7 +164,9 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     def color_func(t): pass
-    if type(lines[0]) == Transition:
+    if isinstance(coloring, Callable):
+        color_func = coloring
+    elif type(lines[0]) == Transition:
         def color_func(t): return (0, 0, 0, 1)
     elif type(lines[0]) == HFTransition:
         if coloring == 'l':
-- 
2.43.0


From 97654ccffcae27e9e4dfebcdf5f8f5c89debf9c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:35 +0000
Subject: [PATCH 50/77] fix: Zeeman spectra labelled lines of different
 hyperfine levels alike, their own labels were never used

---
 atomtoolkit/render/spectra.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index b88fae5..e693044 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -84,6 +84,8 @@ def plot_zeeman_spectrum(transitions: BaseTransition or List[BaseTransition],
         mF1 = transition.E_upper.term.mF_frac
         return f'F={F0}, mF={mF0} → F={F1}, mF={mF1}'
 
+    kwargs.setdefault('label_func', label_func)
+
     if coloring == 'l':
         color_dict = color_table_from_property(lines,
                                                property_color=lambda t: t.E_lower.term.mF,
-- 
2.43.0


From f560c4c2b08be339754bb3808351e804e22a6c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:47 +0000
Subject: [PATCH 51/77] fix: plot_spectrum took the laser linewidth in hertz
 for one in gigahertz

---
 atomtoolkit/render/spectra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index e693044..59339e4 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -159,10 +159,10 @@ def plot_spectrum(transitions: BaseTransition or List[BaseTransition],
     if lineshape is not None:
         lineshape_func = lineshape
     elif temp.magnitude == 0:
-        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = LorentzianLineShape(gamma=laser_linewidth.to('GHz').magnitude)
     else:
         assert mass is not None, "thermal lineshape requires mass to be given"
-        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to(GHz).magnitude)
+        lineshape_func = ThermalLineShape(T=temp, m=mass, gamma=laser_linewidth.to('GHz').magnitude)
 
     # parse the color function CONSIDER: move this to a separate function for cleaner code?
     def color_func(t): pass
-- 
2.43.0


From c9c596a009883bef496779ca7328bf5abf4a4b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:56 +0000
Subject: [PATCH 52/77] fix: hyperfine spectra of a list of hyperfine
 transitions plotted their Zeeman lines

---
 atomtoolkit/render/spectra.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index 59339e4..dd1fe14 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -57,7 +57,8 @@ def plot_hyperfine_spectrum(transitions: Transition or List[Transition] or List[
                             lineshape: LineShape = LorentzianLineShape, coloring: str = 'l', **kwargs):
     # FIXME: lineshape parameter doesn't make sense rn
     if isinstance(transitions, list):
-        lines = list(itertools.chain.from_iterable(list(t.values() for t in transitions)))
+        lines = list(itertools.chain.from_iterable(t.values() if isinstance(t, Transition) else [t]
+                                                   for t in transitions))
     else:
         lines = list(transitions.values())
 
-- 
2.43.0


From 6581f9930235f61fbefedf390e06542abab12e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:11 +0000
Subject: [PATCH 53/77] fix: override_bbox of arrows crashed, and could not
 reach the manifold from a Zeeman level

---
 atomtoolkit/render/grotrian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index e5a101d..60f3634 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -229,7 +229,7 @@ class Grotrian:
         x1_1 = kwargs.pop('end_x1', 0)
         y1_0 = kwargs.pop('start_y1', 0)
         y1_1 = kwargs.pop('end_y1', 0)
-        bbox_overrides = kwargs.get('override_bbox', (False, False))
+        bbox_overrides = kwargs.pop('override_bbox', (False, False))
 
         def compute_bbox_pos(bbox: Tuple, anchor: int or Tuple, offset: Tuple):
             pos_dict = {1: (1, 0, 0, 1),   2: (.5, 0, .5, 1),   3: (0, 0, 1, 1),
@@ -247,7 +247,8 @@ class Grotrian:
             if type(level) == ZLevel:
                 if level.manifold in list(self.lines_df['level']) or bbox_override in {'manifold', 'gross', 'g'}:
                     pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.manifold]['bbox'])[0], a, (x1, y1))
-                if level.parent in list(self.lines_df['level']) or bbox_override in {'hf', 'hyperfine'}:
+                if (level.parent in list(self.lines_df['level']) and bbox_override is False) \
+                        or bbox_override in {'hf', 'hyperfine'}:
                     pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level.parent]['bbox'])[0], a, (x1, y1))
                 if level in list(self.lines_df['level']) and bbox_override is False:
                     pos = compute_bbox_pos(list(self.lines_df[self.lines_df['level'] == level]['bbox'])[0], a, (x1, y1))
-- 
2.43.0


From 819555f51be16249e85eb559c7efd4a4ecffff80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:14 +0000
Subject: [PATCH 54/77] fix: bbox_pad had no effect on the boxes of levels
 drawn with substructure

---
 atomtoolkit/render/grotrian.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 60f3634..288e512 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -422,7 +422,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0'])+list(table['p1']))),
+                                                          (list(table['p0'])+list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)], ignore_index=True)
         elif isinstance(level, HFLevel):
@@ -455,7 +456,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_level_row(level,
                                                        bbox_override=self.bbox(
-                                                          (list(table['p0']) + list(table['p1']))),
+                                                          (list(table['p0']) + list(table['p1'])),
+                                                          pad=kwargs.get('bbox_pad', 0.05)),
                                                        show=False,
                                                        **kwargs)],
                               ignore_index=True)
@@ -469,7 +471,8 @@ class Grotrian:
             table = pd.concat([table,
                                self._compute_hflevel_row(level,
                                                          bbox_override=self.bbox(
-                                                            (list(table['p0']) + list(table['p1']))),
+                                                            (list(table['p0']) + list(table['p1'])),
+                                                            pad=kwargs.get('bbox_pad', 0.05)),
                                                          show=False,
                                                          **kwargs)],
                               ignore_index=True)
-- 
2.43.0


From 1bdc50a084e38aa3bdad341e22625b5582de26f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:18 +0000
Subject: [PATCH 55/77] fix: brackets took the color and line width of other
 levels' boxes

---
 atomtoolkit/render/grotrian.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/render/grotrian.py b/atomtoolkit/render/grotrian.py
index 288e512..1ffca37 100644
--- a/atomtoolkit/render/grotrian.py
+++ b/atomtoolkit/render/grotrian.py
@@ -179,7 +179,7 @@ class Grotrian:
                                       ignore_index=True)
         # make bounding boxes and brackets, if desired
         rects_list = []
-        bracket_list = []
+        bracket_list, bracket_colors, bracket_lws = [], [], []
         for i, row in self.lines_df.iterrows():
             bbox_setting = row['kwargs'].get('bbox', None)
             if bbox_setting is not None:
@@ -194,10 +194,11 @@ class Grotrian:
                 elif bbox_setting == 'bracket':
                     bracket_list += (brackets(x_min, y_min, x_max, y_max,
                                               h=row['kwargs'].get('bracket_h', 0.05)))
+                    # a level has two brackets
+                    bracket_colors += 2 * [row['kwargs'].get('bracket_color', (0, 0, 0, .8))]
+                    bracket_lws += 2 * [row['kwargs'].get('bracket_lw', 1)]
 
         # draw the brackets
-        bracket_colors = [d.get('bracket_color', (0, 0, 0, .8)) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
-        bracket_lws = [d.get('bracket_lw', 1) for d in self.lines_df['kwargs'] if d.get('bbox', False)]
         brackets = matplotlib.collections.LineCollection(bracket_list, colors=bracket_colors, linewidths=bracket_lws)
         axes.add_collection(brackets)
 
-- 
2.43.0


From 47506c6a7628a9cbfeecdcfaba6d3df14665cbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:17 +0000
Subject: [PATCH 56/77] fix: Term.from_dataframe looked for a column that level
 tables do not have

---
 atomtoolkit/term.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index addccc0..f102b5c 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -96,7 +96,7 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Leading percentages"])
+        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Percentage"][i])
 
 
 class MultiTerm(collections.abc.Sequence):
-- 
2.43.0


From 07ac46112e8e8dbd8cdfcdac7d25898840326684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:58 +0000
Subject: [PATCH 57/77] fix: keys with F= or mJ= that are not sublevel names
 raised ValueError instead of KeyError

---
 atomtoolkit/atom_helpers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 1cf84e1..1471ce9 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -43,14 +43,14 @@ class LevelStructure:
             return sorted(nx.get_node_attributes(self.model, 'level').values(), key=lambda x: x.level_Hz)[key]
         if key in self.aliases:
             return self.aliases[key]
-        if 'mF=' in key:  # match [conf] [term] F=[f] mF=[mF]
+        if 'mF=' in key and key.count(' ') >= 2:  # match [conf] [term] F=[f] mF=[mF]
             main, hf, z = key.rsplit(' ', maxsplit=2)
             return nx.get_node_attributes(self.model, 'level')[main][hf][z]
-        elif 'mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
+        elif ' mJ=' in key:  # match [conf] [term] mJ=[mJ] --- only applies when I=0
             main, z = key.rsplit(' mJ=', maxsplit=1)
             l = nx.get_node_attributes(self.model, 'level')[main]
             return l[f'F={l.term.J_frac}'][f'mF={z}']
-        elif 'F=' in key:  # match [conf] [term] F=[F]
+        elif 'F=' in key and ' ' in key:  # match [conf] [term] F=[F]
             main, hf = key.rsplit(' ', maxsplit=1)
             return nx.get_node_attributes(self.model, 'level')[main][hf]
         else:  # match [conf] [term]
-- 
2.43.0


From f9e50726dc6af5aa326f7d42757b6b7a537f8fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:01 +0000
Subject: [PATCH 58/77] fix: subtransitions of a replaced transition stayed in
 the atom's graphs

---
 atomtoolkit/atom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index c0fe821..2b94587 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -675,6 +675,9 @@ class BaseTransition(ABC):
         """Add the transition to the atom and the appropriate graphs within the atom"""
         self.atom = atom
         self._assign_models()
+        replaced = self._model.get_edge_data(self.E_lower.name, self.E_upper.name, {}).get('transition')
+        if replaced is not None and replaced is not self:
+            replaced.remove_from_atom()
         self._model.add_edge(self.E_lower.name, self.E_upper.name, transition=self)
         if len(self._subtransitions) != 0:
             for subtransition in self._subtransitions.values():
-- 
2.43.0


From 582d9e2a49f93366a30f6c1c5d1816e75f5c82ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:09 +0000
Subject: [PATCH 59/77] fix: adding a level with populate_sublevels replaced
 the sublevels it already had

---
 atomtoolkit/atom.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 2b94587..25b6d9e 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -985,8 +985,7 @@ class Atom:
         if level.alias is not None:
             self.levels.aliases[level.alias] = level
         if populate_sublevels:
-            level.populate_sublevels()
-            for sublevel in list(level.values()):
+            for sublevel in level.sublevels():
                 sublevel.add_to_atom(self)
         return level
 
-- 
2.43.0


From 741fe02f83ab027efe1761bd57865807100eb15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:12 +0000
Subject: [PATCH 60/77] fix: an unknown transition alias was read as a pair of
 single-character level keys

---
 atomtoolkit/atom_helpers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/atom_helpers.py b/atomtoolkit/atom_helpers.py
index 1471ce9..45c5669 100644
--- a/atomtoolkit/atom_helpers.py
+++ b/atomtoolkit/atom_helpers.py
@@ -122,6 +122,8 @@ class TransitionStructure:
         """
         if key in self.aliases.keys():
             return self.aliases[key]
+        if isinstance(key, str):  # not a pair of levels
+            raise KeyError(key)
         l_0, l_1 = (k if hasattr(k, 'manifold') else self.atom.levels[k] for k in key)
         try:
             transition = self.model.edges[l_0.manifold.name, l_1.manifold.name]['transition']
-- 
2.43.0


From a5f1893f85beac0a3e64be0e45d9e7d50721907e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 61/77] fix: sublevels of a replaced level stayed in the atom's
 graphs

---
 atomtoolkit/atom.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 25b6d9e..024db80 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -33,7 +33,7 @@ def lazy_compute_sublevels(func: Callable) -> Callable:
             self._assign_models()
             self.populate_sublevels()
             for sublevel in list(self._sublevels.values()):
-                self._submodel.add_node(sublevel.name, level=sublevel)
+                sublevel.add_to_atom(self.atom)
         return func(self, *args, **kwargs)
     return wrapper
 
@@ -180,8 +180,10 @@ class BaseLevel(ABC):
     def add_to_atom(self, atom):
         self.atom = atom
         self._assign_models()
+        replaced = self._model.nodes.get(self.name, {}).get('level')
         self._model.add_node(self.name, level=self)
-        if len(self._sublevels) != 0:
+        # sublevels of a replaced level give way to those of the new one, wherever they are already in the graphs
+        if len(self._sublevels) != 0 or (replaced is not None and len(replaced._sublevels) != 0):
             for sublevel in self.sublevels():
                 sublevel.add_to_atom(atom)
 
-- 
2.43.0


From 35484529c06ac029adfa48828b30c850d9dc890f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 62/77] fix: the frequency axis of a spectrum was labelled GHz
 whatever the unit

---
 atomtoolkit/render/spectra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index dd1fe14..a4926b2 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -49,7 +49,7 @@ def plot_transitions(transitions: BaseTransition or List[BaseTransition],
             y_values += np.interp(x_values, x, curve)
         plt.plot(x_values, y_values, "k:", label="Total", alpha=0.5)
     plt.ylim(0, None)
-    plt.xlabel("Frequency (GHz)")
+    plt.xlabel(f"Frequency ({unit})")
     plt.legend()
 
 
-- 
2.43.0


From 4b0a86af805186b265a689c4820e996e3ea7ae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:15 +0000
Subject: [PATCH 63/77] fix: lines with gaps in their quantum numbers were
 given impossible colours

---
 atomtoolkit/render/spectra.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/render/spectra.py b/atomtoolkit/render/spectra.py
index a4926b2..bd78bf2 100644
--- a/atomtoolkit/render/spectra.py
+++ b/atomtoolkit/render/spectra.py
@@ -124,6 +124,9 @@ def color_table_from_property(items: List[BaseTransition],
     prop_pairs = list(zip(main_props, secondary_props))
     # a dict that yields the lowest secondary property associated with each main property
     min_main_props = {p0: min([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) for p0 in main_props}
+    # the number of shades that will be needed for each main property. Not every secondary property needs to be there
+    num_shades = {p0: max(n, max([Fp[1] for Fp in prop_pairs if Fp[0] == p0]) - min_main_props[p0] + 1)
+                  for p0, n in num_main_props.items()}
 
     def color_by_properties(t):
         colormap = plt.get_cmap(cmap)
@@ -136,7 +139,7 @@ def color_table_from_property(items: List[BaseTransition],
         # convert it to HLS
         col = colorsys.rgb_to_hls(*matplotlib.colors.to_rgb(col))
         # set the lightness depending on the shade property and convert back to RGB
-        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_main_props[color_prop] + 1)
+        lightness = 0.2 + 0.6 * (shade_prop - min_main_props[color_prop] + 1) / (num_shades[color_prop] + 1)
         col = colorsys.hls_to_rgb(col[0], lightness, col[2])
         return col
 
-- 
2.43.0


From bd06f3ddb10c62471e7c725738b2dc7fb99de00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 64/77] fix: adding two joined levels by name keeps their
 transition in either order

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 024db80..77393e6 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1000,7 +1000,7 @@ class Atom:
         """
         # CONSIDER: Should you be able to add non-top-level transitions directly to an atom?
         if isinstance(transition, tuple):
-            if transition in self.transitions.keys():
+            if transition in self.transitions.keys() or transition[::-1] in self.transitions.keys():
                 warnings.warn(f'transition {transition} is already in {self.name}')
                 transition = self.transitions[transition]
             elif isinstance(transition[0], str):
-- 
2.43.0


From 3002e99bf474b32cadb28b76fc6d02874cc00eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 65/77] fix: a quantity that is no frequency stayed set on a
 transition after being refused

set_frequency stored the quantity before converting it, so that every later
consistency check of the atom raised.
---
 atomtoolkit/atom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 77393e6..baf526d 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -795,6 +795,8 @@ class Transition(BaseTransition):
 
     def set_frequency(self, freq: pint.Quantity):
         """Set the frequency of the transition. Useful for adding in things like isotope shifts"""
+        if freq is not None:
+            freq.to(Hz)  # refuse anything but a frequency before changing anything
         if self.set_freq:  # unlock the upper level if the transition is already constrained
             if self.E_upper.fixed and self.E_lower.fixed:
                 self.E_upper.fixed = False
-- 
2.43.0


From b5eb8ed59c3f61a5fcc5f45bfca95856c2e72093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 66/77] fix: quantities that are no rates were accepted as A
 coefficients of existing transitions

---
 atomtoolkit/atom.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index baf526d..d043cce 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -631,6 +631,8 @@ class BaseTransition(ABC):
 
     @A.setter
     def A(self, val: pint.Quantity or None):
+        if val is not None:
+            val.to(Hz)  # refuse anything but a rate before changing anything
         self._A = val
         # subtransitions that have already been populated scale with their parent
         for subtransition in self._subtransitions.values():
-- 
2.43.0


From 2610d43bf4176d060f9b4ac999f1d8cbf1cbecdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:10 +0000
Subject: [PATCH 67/77] fix: a transition refused for its frequency or A
 coefficient stayed in the atom, half built

---
 atomtoolkit/atom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index d043cce..ecde6d8 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -571,6 +571,9 @@ class BaseTransition(ABC):
         :param name: the name of the transition
         """
 
+        for quantity in (freq, A):
+            if quantity is not None:
+                quantity.to(Hz)  # refuse anything else before the atom lists the transition
         self.parent = parent
         self._subtransitions = dict()
         self._alias = alias
-- 
2.43.0


From f7213fe9d55389e3b6f4040bf4846e4a3ff138dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:10 +0000
Subject: [PATCH 68/77] fix: loading a transition table added entries to the
 caller's column mapping

They took precedence when the mapping was changed and used again.
---
 atomtoolkit/IO.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index afdd947..e136de1 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -179,6 +179,7 @@ def load_transition_data(filename: str, columns: dict = None, **kwargs):
     :return:
     """
     df_file = pd.read_csv(filename, **kwargs)
+    columns = dict(columns)
     if ("freq" not in columns) and ("frequency" in columns):
         columns["freq"] = columns["frequency"]
     if ("A" not in columns) and ("A_coeff" in columns):
-- 
2.43.0


From 3e444ece08571bd5ac4cf2e0c856f21a7722ab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:33 +0000
Subject: [PATCH 69/77] fix: changing the array returned by JJ_to_LS, JK_to_LS
 or LK_to_LS changed all later results

The cached array itself was handed out.
---
 atomtoolkit/transition_strengths.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index 1c83daa..e91fa90 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -143,7 +143,17 @@ def E2_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return tot
 
 
-@functools.lru_cache(maxsize=None)
+def _cache_array(func):
+    """Caches the arrays that a function returns. Callers get copies, which are theirs to change"""
+    cached = functools.lru_cache(maxsize=None)(func)
+
+    @functools.wraps(func)
+    def wrapper(*args, **kwargs):
+        return cached(*args, **kwargs).copy()
+    return wrapper
+
+
+@_cache_array
 def JJ_to_LS(J: float, Jc: float, Jo: float, lc: float, sc: float, lo: float, so: float) -> np.array:
     ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
@@ -157,7 +167,7 @@ def JJ_to_LS(J: float, Jc: float, Jo: float, lc: float, sc: float, lo: float, so
     return np.stack([outls, outss, outpercs])
 
 
-@functools.lru_cache(maxsize=None)
+@_cache_array
 def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so: float) -> np.array:
     ls = np.arange(abs(lc - lo), abs(lc + lo) + 1)
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
@@ -172,7 +182,7 @@ def JK_to_LS(J: float, Jc: float, K: float, lc: float, sc: float, lo: float, so:
     return np.stack([outls, outss, outpercs])
 
 
-@functools.lru_cache(maxsize=None)
+@_cache_array
 def LK_to_LS(J: float, L: float, K: float, sc: float, so: float) -> np.array:
     ls = [L]
     ss = np.arange(abs(sc - so), abs(sc + so) + 1)
-- 
2.43.0


From c23369264adc0aae9aa83def1c6b33d8b5d67e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:01 +0000
Subject: [PATCH 70/77] fix: polarizations and propagation directions given as
 arrays raised TypeError

The caches of the geometric strengths need hashable arguments. What is expensive
in them, the tensor components, is cached separately.
---
 atomtoolkit/transition_strengths.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/atomtoolkit/transition_strengths.py b/atomtoolkit/transition_strengths.py
index e91fa90..340d7d0 100644
--- a/atomtoolkit/transition_strengths.py
+++ b/atomtoolkit/transition_strengths.py
@@ -34,7 +34,6 @@ def tkq_mel(I: float, k: int, q: int,
 
 
 # The tensor math for E2 (and somewhat E1) transitions is adapted from Tony's thesis (Ransford 2020)
-@functools.lru_cache(maxsize=None)
 def E1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -45,7 +44,6 @@ def E1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -61,7 +59,6 @@ def E1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def M1_mel_geom(eps: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -72,7 +69,6 @@ def M1_mel_geom(eps: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def M1_transition_strength_geom(eps: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -90,7 +86,6 @@ def M1_transition_strength_avg(I: float, J0: float, F0: float, M0: float, J1: fl
     return sum([tkq_transition_strength(I, 1, q, J0, F0, M0, J1, F1, M1) for q in [-1, 0, 1]]) / 3.0
 
 
-@functools.lru_cache(maxsize=None)
 def E2_mel_geom(eps: np.array, k: np.array, I: float,
                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
@@ -111,7 +106,6 @@ def E2_mel_geom(eps: np.array, k: np.array, I: float,
     return tot
 
 
-@functools.lru_cache(maxsize=None)
 def E2_transition_strength_geom(eps: np.array, k: np.array, I: float,
                                 J0: float, F0: float, M0: float, J1: float, F1: float, M1: float) -> float:
     eps = eps / np.linalg.norm(eps)
-- 
2.43.0


From ab5859540afff62a8c8f2f0fa8b76dbe5db6aeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:34 +0000
Subject: [PATCH 71/77] fix: aliases of a replaced transition kept leading to
 it

---
 atomtoolkit/atom.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index ecde6d8..7f85c6b 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -694,6 +694,9 @@ class BaseTransition(ABC):
         """Remove the transition from the atom's graph, for instance because it turned out to be forbidden"""
         for subtransition in self._subtransitions.values():
             subtransition.remove_from_atom()
+        aliases = self.atom.transitions.aliases
+        for alias in [k for k, t in aliases.items() if t is self]:
+            del aliases[alias]
         edge = self._model.get_edge_data(self.E_lower.name, self.E_upper.name, {})
         if edge.get('transition') is self:
             self._model.remove_edge(self.E_lower.name, self.E_upper.name)
-- 
2.43.0


From 27bebd8db13c5e90e7f2e5a06dcc05f67a643a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:12 +0000
Subject: [PATCH 72/77] fix: transitions and aliases of a replaced level kept
 leading to the old one

---
 atomtoolkit/atom.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 7f85c6b..735f2ee 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -182,6 +182,12 @@ class BaseLevel(ABC):
         self._assign_models()
         replaced = self._model.nodes.get(self.name, {}).get('level')
         self._model.add_node(self.name, level=self)
+        if replaced is not None and replaced is not self:
+            # aliases and transitions of a replaced level do not lead to it any more
+            for alias in [k for k, level in atom.levels.aliases.items() if level is replaced]:
+                del atom.levels.aliases[alias]
+            for _, _, transition in list(self._model.edges(self.name, data='transition')):
+                transition._replace_level(replaced, self)
         # sublevels of a replaced level give way to those of the new one, wherever they are already in the graphs
         if len(self._sublevels) != 0 or (replaced is not None and len(replaced._sublevels) != 0):
             for sublevel in self.sublevels():
@@ -690,6 +696,16 @@ class BaseTransition(ABC):
             for subtransition in self._subtransitions.values():
                 subtransition.add_to_atom(atom)
 
+    def _replace_level(self, old: BaseLevel, new: BaseLevel):
+        """Join another level in place of one of the transition's levels. Subtransitions join the old level's sublevels,
+        so they are computed anew when they are needed"""
+        for subtransition in self._subtransitions.values():
+            subtransition.remove_from_atom()
+        self._subtransitions.clear()
+        for end in ('E_1', 'E_2', 'E_upper', 'E_lower'):
+            if getattr(self, end) is old:
+                setattr(self, end, new)
+
     def remove_from_atom(self):
         """Remove the transition from the atom's graph, for instance because it turned out to be forbidden"""
         for subtransition in self._subtransitions.values():
-- 
2.43.0


From a8cddd184b247d93c923f5f2649bcfb2ae519cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:40 +0000
Subject: [PATCH 73/77] fix: adding a transition between new levels of names
 already in use left them out of the atom

---
 atomtoolkit/atom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 735f2ee..54618f6 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -1035,7 +1035,7 @@ class Atom:
                 transition = Transition(transition[0], transition[1], **kwargs)
 
         for level in (transition.E_1, transition.E_2):
-            if 'level' not in self._levelsModel.nodes.get(level.name, {}):
+            if self._levelsModel.nodes.get(level.name, {}).get('level') is not level:
                 self.add_level(level)
         transition.add_to_atom(self)
         if transition.alias is not None:
-- 
2.43.0


From bd12b5c64e5dbc7feb7a2e4828477a98c1dfef06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:54 +0000
Subject: [PATCH 74/77] fix: the 171Yb+ species file adds its last transition
 with a pair of levels

---
 species/Yb_II_171.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/species/Yb_II_171.py b/species/Yb_II_171.py
index e79a567..1e0c78c 100644
--- a/species/Yb_II_171.py
+++ b/species/Yb_II_171.py
@@ -44,7 +44,7 @@ Yb171.transitions[('4f14.6s 2S1/2', '4f14.6p 2P*1/2')].set_frequency(Q_(811.2941
 t = Yb171.add_transition((Yb171.levels['4f14.6s 2S1/2'], Yb171.levels['4f14.5d 2D5/2']), A=Q_(22, 'Hz'))
 t.set_frequency(Q_(729.476090, 'THz'))
 
-t = Yb171.add_transition(Yb171.levels['4f13.(2F*).6s2 2F*7/2'], Yb171.levels['4f13.(2F*<7/2>).5d.6s.(1D) 1[3/2]*3/2'], A=Q_(50, 'kHz'))
+t = Yb171.add_transition((Yb171.levels['4f13.(2F*).6s2 2F*7/2'], Yb171.levels['4f13.(2F*<7/2>).5d.6s.(1D) 1[3/2]*3/2']), A=Q_(50, 'kHz'))
 # t.set_frequency(Q_(394.423900, 'THz'))
 
 # Set any additional properties
-- 
2.43.0


From 970a09647d87c4e795f462e009ab1a1c21a11142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:36 +0000
Subject: [PATCH 75/77] fix: setting the frequency of a subtransition whose
 levels are in the opposite order to its parent's

---
 atomtoolkit/atom.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 54618f6..11c0fac 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -717,6 +717,18 @@ class BaseTransition(ABC):
         if edge.get('transition') is self:
             self._model.remove_edge(self.E_lower.name, self.E_upper.name)
 
+    def _shift_parent(self, diff: pint.Quantity):
+        """
+        Changes the frequency of a subtransition by that of its parent. Where substructure overlaps, a subtransition can
+        have its levels in the opposite energy order to those of its parent, and gets slower as its parent gets faster
+        """
+        parent = self.parent
+        if parent.E_upper is not parent.E_lower:
+            upper, lower = (self.E_1, self.E_2) if self.E_1.parent is parent.E_upper else (self.E_2, self.E_1)
+            if (upper.level_Hz < lower.level_Hz) != (parent.E_upper.level_Hz < parent.E_lower.level_Hz):
+                diff = -diff
+        parent.set_frequency(parent.freq + diff)
+
     def _subtransition_key(self, t: BaseTransition) -> Tuple[str, str]:
         """
         The key of a subtransition: the short name of the sublevel of this transition's lower level, followed by that of
@@ -882,8 +894,7 @@ class HFTransition(BaseTransition):
                 t.remove_from_atom()
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq.to(Hz) - self.freq
-        self.parent.set_frequency(self.parent.freq + diff)
+        self._shift_parent(freq.to(Hz) - self.freq)
 
 
 class ZTransition(BaseTransition):
@@ -929,8 +940,7 @@ class ZTransition(BaseTransition):
         pass
 
     def set_frequency(self, freq: pint.Quantity):
-        diff = freq.to(Hz) - self.freq
-        self.parent.set_frequency(self.parent.freq + diff)
+        self._shift_parent(freq.to(Hz) - self.freq)
 
 
 ############################################
-- 
2.43.0


From 66aee105b70ca5a72aad0ccf9f8eed352e418cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 76/77] fix: marked energies in a level file keep their sign
 and exponent

---
 atomtoolkit/IO.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/atomtoolkit/IO.py b/atomtoolkit/IO.py
index e136de1..4d07d66 100644
--- a/atomtoolkit/IO.py
+++ b/atomtoolkit/IO.py
@@ -218,7 +218,9 @@ def load_level_data(filename: str, columns: dict = None, **kwargs):
     try:
         df['Level (cm-1)'] = df['Level (cm-1)'].astype(float)
     except ValueError:
-        df['Level (cm-1)'] = df['Level (cm-1)'].str.replace(r'[^\d\.]+', '', regex=True)
+        # strip everything but the digits, the sign and the exponent
+        df['Level (cm-1)'] = df['Level (cm-1)'].str.replace(
+            r'(-(?=[\d.])|(?<=[\d.])[eE][-+]?(?=\d))|[^\d.]', r'\1', regex=True)
         df['Level (cm-1)'] = df['Level (cm-1)'].astype(float)
     df['Level (cm-1)'] = df['Level (cm-1)'].astype('pint[cm**-1]')
     df['Level (Hz)'] = df['Level (cm-1)'].pint.to('Hz')
-- 
2.43.0


From 1ed036bf3259ce9e4c38786f476c422b88d46612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:08 +0000
Subject: [PATCH 77/77] fix: the i-th row of a level table is meant, whatever
 its label

---
 atomtoolkit/atom.py | 6 +++---
 atomtoolkit/term.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/atomtoolkit/atom.py b/atomtoolkit/atom.py
index 11c0fac..aab8d85 100644
--- a/atomtoolkit/atom.py
+++ b/atomtoolkit/atom.py
@@ -384,8 +384,8 @@ class EnergyLevel(BaseLevel):
         :param: i, the row of the dataframe to generate from
         """
         t = MultiTerm.from_dataframe(df, i)
-        lande = df["Lande"][i]
-        return EnergyLevel(t, df["Level (cm-1)"][i], lande=None if pd.isna(lande) else lande)
+        lande = df["Lande"].iloc[i]
+        return EnergyLevel(t, df["Level (cm-1)"].iloc[i], lande=None if pd.isna(lande) else lande)
 
 
 class HFLevel(BaseLevel):
@@ -1104,7 +1104,7 @@ class Atom:
         if num_levels is None:
             num_levels = len(df)
         a = Atom(name, I=I, B=B)
-        rows = tqdm(range(num_levels))
+        rows = tqdm(range(min(num_levels, len(df))))
         for i in rows:
             try:
                 e = EnergyLevel.from_dataframe(df, i)
diff --git a/atomtoolkit/term.py b/atomtoolkit/term.py
index f102b5c..d171b6f 100644
--- a/atomtoolkit/term.py
+++ b/atomtoolkit/term.py
@@ -96,7 +96,7 @@ class Term:
     @classmethod
     def from_dataframe(cls, df: pd.DataFrame, i: int = 0) -> Term:
         """Returns a term as listed in the nist ASD csv dataframe generated by the IO module"""
-        return Term(df["Configuration"][i], df["Term"][i], df["J"][i], percentage=df["Percentage"][i])
+        return Term(df["Configuration"].iloc[i], df["Term"].iloc[i], df["J"].iloc[i], percentage=df["Percentage"].iloc[i])
 
 
 class MultiTerm(collections.abc.Sequence):
@@ -159,6 +159,6 @@ class MultiTerm(collections.abc.Sequence):
         pcts = [c for c in df.columns if 'Percentage' in c]
         term_objs = []
         for j in range(len(confs)):
-            if type(df[confs[j]][i]) == str:
-                term_objs.append(Term(df[confs[j]][i], df[terms[j]][i], df['J'][i], percentage=df[pcts[j]][i]))
+            if type(df[confs[j]].iloc[i]) == str:
+                term_objs.append(Term(df[confs[j]].iloc[i], df[terms[j]].iloc[i], df['J'].iloc[i], percentage=df[pcts[j]].iloc[i]))
         return MultiTerm(*term_objs)
-- 
2.43.0

