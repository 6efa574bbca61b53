From ac21a3b8bfe3a2219caa23bea3873fc68349ad06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:12 +0000
Subject: [PATCH 01/61] fix: periods must follow the order of communicating
 classes and reducible aperiodicity must not depend on the state order

---
 pydtmc/computations.py | 5 +++--
 pydtmc/markov_chain.py | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c2421ba..c05c1ca 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -100,7 +100,8 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
 
     sccs = list(_nx.strongly_connected_components(graph))
 
-    classes = [sorted(scc) for scc in sccs]
+    positions = {node: position for position, node in enumerate(graph.nodes)}
+    classes = [sorted(positions[node] for node in scc) for scc in sccs]
     indices = sorted(classes, key=lambda x: (-len(x), x[0]))
 
     periods = [0] * len(indices)
@@ -113,7 +114,7 @@ def calculate_periods(graph: _tgraph) -> _tlist_int:
             spl = _nx.shortest_path_length(graph, c).keys()
             scc_reachable = scc_reachable.union(spl)
 
-        index = indices.index(sorted(scc))
+        index = indices.index(sorted(positions[node] for node in scc))
 
         if (scc_reachable - scc) == set():
             periods[index] = _calculate_period(graph.subgraph(scc))
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ac6bc6f..4ce5099 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -642,7 +642,10 @@ class MarkovChain(_Model):
         elif all(period == 1 for period in self.periods):
             result = True
         else:  # pragma: no cover
-            result = _nx.is_aperiodic(self.__digraph)
+            divisor = 0
+            for p in [self.periods[self.communicating_classes.index(recurrent_class)] for recurrent_class in self.recurrent_classes]:
+                divisor = _mt.gcd(divisor, p)
+            result = divisor == 1
 
         return result
 
-- 
2.43.0


From 4056bf1cd402fa0362f7a1e4fd39a2edecc9dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:08 +0000
Subject: [PATCH 02/61] fix: expected_transitions must sum the distributions of
 successive steps and not alter its input

---
 pydtmc/measures.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index a346288..1a06a83 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -176,11 +176,11 @@ def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribu
     if steps <= p.shape[0]:
 
         idist = initial_distribution
-        idist_sum = initial_distribution
+        idist_sum = _np.copy(initial_distribution)
 
         for _ in range(steps - 1):
-            pi = _np.dot(idist, p)
-            idist_sum += pi
+            idist = _np.dot(idist, p)
+            idist_sum += idist
 
         et = idist_sum[:, _np.newaxis] * p
 
-- 
2.43.0


From d44d14123b9facb658ad7dec47e2569c4b4db805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:50 +0000
Subject: [PATCH 03/61] fix: chains with a defective transition matrix must not
 break expected transitions, time correlations and time relaxations

---
 pydtmc/computations.py |  7 +++++--
 pydtmc/markov_chain.py |  8 ++++----
 pydtmc/measures.py     | 14 +++++++-------
 3 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index c05c1ca..fa2b974 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -33,12 +33,12 @@ import scipy.stats as _sps
 
 from .custom_types import (
     ofloat as _ofloat,
+    ordl as _ordl,
     tarray as _tarray,
     tgraph as _tgraph,
     tlist_int as _tlist_int,
     tlists_int as _tlists_int,
     tpartitions as _tpartitions,
-    trdl as _trdl,
     ttest_chi2 as _ttest_chi2
 )
 
@@ -313,7 +313,7 @@ def kullback_leibler_divergence(p, pi, phi, q):
     return kld
 
 
-def rdl_decomposition(p: _tarray) -> _trdl:
+def rdl_decomposition(p: _tarray) -> _ordl:
 
     evalues, evectors = _npl.eig(p)
 
@@ -321,6 +321,9 @@ def rdl_decomposition(p: _tarray) -> _trdl:
     evalues = evalues[indices]
     vectors = evectors[:, indices]
 
+    if _npl.cond(vectors) > 1e8:
+        return None
+
     r = _np.copy(vectors)
     d = _np.diag(evalues)
     l = _npl.solve(_np.transpose(r), _np.eye(p.shape[0]))  # noqa: E741
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 4ce5099..47205d6 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -45,6 +45,7 @@ from .custom_types import (
     ointerval as _ointerval,
     olist_str as _olist_str,
     onumeric as _onumeric,
+    ordl as _ordl,
     osequence as _osequence,
     ostate as _ostate,
     ostates as _ostates,
@@ -69,7 +70,6 @@ from .custom_types import (
     tpartitions as _tpartitions,
     tpath as _tpath,
     trandfunc_flex as _trandfunc_flex,
-    trdl as _trdl,
     tredists as _tredists,
     tsequence as _tsequence,
     tstate as _tstate,
@@ -318,11 +318,11 @@ class MarkovChain(_Model):
         return ev
 
     @_cached_property
-    def __rdl_decomposition(self) -> _trdl:
+    def __rdl_decomposition(self) -> _ordl:
 
-        r, d, l = _rdl_decomposition(self.__p)  # noqa: E741
+        rdl = _rdl_decomposition(self.__p)
 
-        return r, d, l
+        return rdl
 
     @_cached_property
     def __recurrent_classes_indices(self) -> _tlists_int:
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1a06a83..055dd6b 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -39,13 +39,13 @@ from .custom_types import (
     ohmm_decoding as _ohmm_decoding,
     oint as _oint,
     olist_int as _olist_int,
+    ordl as _ordl,
     osequence as _osequence,
     otimes_out as _otimes_out,
     tany as _tany,
     tarray as _tarray,
     tmc as _tmc,
     tlist_int as _tlist_int,
-    trdl as _trdl,
     tsequence as _tsequence,
     ttimes_in as _ttimes_in
 )
@@ -171,9 +171,9 @@ def mc_expected_rewards(p: _tarray, steps: int, rewards: _tarray) -> _tany:
     return er
 
 
-def mc_expected_transitions(p: _tarray, rdl: _trdl, steps: int, initial_distribution: _tarray) -> _tarray:
+def mc_expected_transitions(p: _tarray, rdl: _ordl, steps: int, initial_distribution: _tarray) -> _tarray:
 
-    if steps <= p.shape[0]:
+    if steps <= p.shape[0] or rdl is None:
 
         idist = initial_distribution
         idist_sum = _np.copy(initial_distribution)
@@ -517,7 +517,7 @@ def mc_sensitivity(mc: _tmc, state: int) -> _oarray:
     return s
 
 
-def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_correlations(mc: _tmc, rdl: _ordl, sequence1: _tsequence, sequence2: _osequence, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -550,7 +550,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
 
     tcs = []
 
-    if time_points[-1] > size:
+    if time_points[-1] > size and rdl is not None:
 
         r, d, l = rdl  # noqa: E741
 
@@ -609,7 +609,7 @@ def mc_time_correlations(mc: _tmc, rdl: _trdl, sequence1: _tsequence, sequence2:
     return tcs
 
 
-def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
+def mc_time_relaxations(mc: _tmc, rdl: _ordl, sequence: _tsequence, initial_distribution: _tarray, time_points: _ttimes_in) -> _otimes_out:
 
     p, size, pi = mc.p, mc.size, mc.pi
 
@@ -631,7 +631,7 @@ def mc_time_relaxations(mc: _tmc, rdl: _trdl, sequence: _tsequence, initial_dist
 
     trs = []
 
-    if time_points[-1] > size:
+    if time_points[-1] > size and rdl is not None:
 
         r, d, l = rdl  # noqa: E741
 
-- 
2.43.0


From 2fc06f003c495648bdb6801b13b6fd274a9e04ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:21 +0000
Subject: [PATCH 04/61] fix: the accessibility matrix must not overflow for
 dense chains of many states

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 47205d6..c0c4bb3 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -394,8 +394,8 @@ class MarkovChain(_Model):
         a = self.adjacency_matrix
         i = _np.eye(self.__size, dtype=int)
 
-        am = _npl.matrix_power(i + a, self.__size - 1)
-        am = (am > 0).astype(int)
+        am = _npl.matrix_power((i + a) > 0, self.__size - 1)
+        am = am.astype(int)
 
         return am
 
-- 
2.43.0


From b42e7506a3c717e416baed6ac76a9f10238f6cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:54 +0000
Subject: [PATCH 05/61] fix: is_regular must use the Wielandt exponent on the
 support of the transition matrix

---
 pydtmc/markov_chain.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index c0c4bb3..afe9df8 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -712,9 +712,9 @@ class MarkovChain(_Model):
         if nz > 0:
             k = (2 * self.__size) - nz - 1
         else:
-            k = self.__size**self.__size - (2 * self.__size) + 2
+            k = self.__size**2 - (2 * self.__size) + 2
 
-        result = _np.all(_npl.matrix_power(self.__p, k) > 0.0)
+        result = _np.all(_npl.matrix_power(self.__p > 0.0, k))
 
         return result
 
-- 
2.43.0


From bb842fb02098d25cfdae0b7eb2408eacdea56be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 06/61] fix: the second largest eigenvalue modulus must not
 depend on its distance from one

---
 pydtmc/computations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index fa2b974..3d22bb1 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -344,7 +344,7 @@ def rdl_decomposition(p: _tarray) -> _ordl:
 def slem(m: _tarray) -> _ofloat:
 
     ev = eigenvalues_sorted(m)
-    value = ev[~_np.isclose(ev, 1.0)][-1]
+    value = ev[-2]
 
     if _np.isclose(value, 0.0):
         return None
-- 
2.43.0


From fa57a3bd758934d6a9f65a60fc0263db737b4e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 07/61] fix: mean recurrence times of rarely visited states
 must not be reported as null

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 055dd6b..83262a0 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -461,7 +461,7 @@ def mc_mean_recurrence_times(mc: _tmc) -> _oarray:
 
     pi = mc.pi[0]
 
-    mrt = _np.array([0.0 if _np.isclose(v, 0.0) else 1.0 / v for v in pi])
+    mrt = _np.array([_np.inf if v == 0.0 else 1.0 / v for v in pi])
 
     return mrt
 
-- 
2.43.0


From 7c846a1ec690dd6cfe79931118f1ea869fe4df53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 08/61] fix: conditional_probabilities must not expose the
 internal transition matrix

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index afe9df8..77f7537 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1195,7 +1195,7 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        value = self.__p[state, :]
+        value = _np.copy(self.__p[state, :])
 
         return value
 
-- 
2.43.0


From 928793d48da926682d518b0cc0849013f8115337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 09/61] fix: equal models must have equal hashes

---
 pydtmc/hidden_markov_model.py | 2 +-
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 118e388..81543a3 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -180,7 +180,7 @@ class HiddenMarkovModel(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), self.e.tobytes(), tuple(self.states), tuple(self.symbols)))
+        return hash(((self.p + 0.0).tobytes(), (self.e + 0.0).tobytes(), tuple(self.states), tuple(self.symbols)))
 
     def __repr__(self) -> str:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 77f7537..5031198 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -239,7 +239,7 @@ class MarkovChain(_Model):
 
     def __hash__(self) -> int:
 
-        return hash((self.p.tobytes(), tuple(self.states)))
+        return hash(((self.p + 0.0).tobytes(), tuple(self.states)))
 
     def __repr__(self) -> str:
 
-- 
2.43.0


From 64a1681286929c8868d6c99632c3afb5b6c61c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 10/61] fix: simulations must accept every transition and
 emission matrix accepted by the validation

---
 pydtmc/simulations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/simulations.py b/pydtmc/simulations.py
index 934d0fe..8836f57 100644
--- a/pydtmc/simulations.py
+++ b/pydtmc/simulations.py
@@ -114,7 +114,7 @@ def hmm_simulate(hmm: _thmm, steps: int, initial_state: int, final_state: _oint,
 
     current_state = initial_state
     states = [initial_state]
-    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :]).item()]
+    symbols = [rng.choice(k, size=1, p=hmm.e[current_state, :] / _np.sum(hmm.e[current_state, :])).item()]
 
     pr = rng.random(steps)
     pc = _np.cumsum(hmm.p, axis=1)
@@ -221,7 +221,7 @@ def mc_simulate(mc: _tmc, steps: int, initial_state: int, final_state: _oint, rn
 
     for _ in range(steps):
 
-        w = p[current_state, :]
+        w = p[current_state, :] / _np.sum(p[current_state, :])
         current_state = rng.choice(size, size=1, p=w).item()
         value.append(current_state)
 
-- 
2.43.0


From 780a06bf83547c3ac60b3bdd8f2f67014653e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 11/61] fix: to_nth_order must return a stochastic matrix

---
 pydtmc/markov_chain.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 5031198..ab639fa 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2059,6 +2059,7 @@ class MarkovChain(_Model):
             raise _create_validation_error(ex, _ins.trace()) from None
 
         p = _npl.matrix_power(self.__p, order)
+        p /= _np.sum(p, axis=1, keepdims=True)
         mc = MarkovChain(p, self.__states)
 
         return mc
-- 
2.43.0


From f0b1a43128fcb2b5ab9f6740e5be998b43ee4445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 12/61] fix: the mean number of visits of a transient state
 must be finite

---
 pydtmc/measures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 83262a0..66bbb15 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -435,7 +435,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
     for j in range(size):
 
-        ct1 = _np.isclose(hp[j, j], 1.0)
+        ct1 = closed_states[j]
 
         if ct1:
             z = _np.nan
-- 
2.43.0


From 8257f62d87888d9c61f7c75dfb709fc6f374fec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 13/61] fix: hidden Markov model restriction must compare the
 symbols with the number of symbols

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a250d8b..77cf9bb 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -171,7 +171,7 @@ def hmm_restrict(p: _tarray, e: _tarray, states: _tlist_str, symbols: _tlist_str
     p, e = _np.copy(p), _np.copy(e)
 
     p_decrease = len(sub_states) < p.shape[0]
-    e_decrease = p_decrease or len(sub_symbols) < e.shape[0]
+    e_decrease = p_decrease or len(sub_symbols) < e.shape[1]
 
     if p_decrease:
         p = p[_np.ix_(sub_states, sub_states)]
-- 
2.43.0


From 3e67e01ddff476fd91eddac5ed6579addeafef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 14/61] fix: Newton-Cotes nodes must lie in the quadrature
 interval

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index e4c8357..c3dddc3 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -259,7 +259,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
 
         bandwidth = (b - a) / size
 
-        nodes = (_np.arange(size) + 0.5) * bandwidth
+        nodes = a + ((_np.arange(size) + 0.5) * bandwidth)
         weights = _np.repeat(bandwidth, size)
 
     p = _np.zeros((size, size), dtype=float)
-- 
2.43.0


From e725286c385ada20c5a6d7967f80d3e3f00f18ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 15/61] fix: the file format must be inferred from the last
 suffix of the file name

---
 pydtmc/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 3028080..89a81bd 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -236,7 +236,7 @@ def get_file_extension(file_path: _tpath) -> str:
     if isinstance(file_path, str):
         file_path = _pl.Path(file_path)
 
-    file_extension = ''.join(file_path.suffixes).lower()
+    file_extension = file_path.suffix.lower()
 
     return file_extension
 
-- 
2.43.0


From 624201cc5faaf7321f02c2f3acac1b61a42fa39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 16/61] fix: the validation of sequences must not alter its
 input

---
 pydtmc/validation.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index ceb195d..cece82b 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -907,8 +907,7 @@ def validate_sequences(value: _tany, labels: _tlist_str, flex: bool) -> _tlists_
 
         raise TypeError('The "@arg@" parameter must be either a list of lists of integers or a list of lists of non-empty strings.')
 
-    if value_type in ['integer', 'string']:
-        value = [value]
+    value = [value] if value_type in ['integer', 'string'] else list(value)
 
     for index, value_current in enumerate(value):
         try:
-- 
2.43.0


From c700e2f5044910348b0d7eb435af9e6d98d8dea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 17/61] fix: HiddenMarkovModel.predict must validate
 output_indices

---
 pydtmc/hidden_markov_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 81543a3..f8ad817 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -401,6 +401,7 @@ class HiddenMarkovModel(_Model):
             prediction_type = _validate_enumerator(prediction_type, ['map', 'mle', 'viterbi'])
             symbols = _validate_sequence(symbols, self.__symbols)
             initial_status = _np.full(self.__size[0], 1.0 / self.__size[0], dtype=float) if initial_status is None else _validate_status(initial_status, self.__states)
+            output_indices = _validate_boolean(output_indices)
 
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
-- 
2.43.0


From 00f9cbc0d8f093f8d9567a66d994e295166574be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 18/61] fix: complex matrices must be rejected instead of
 discarding their imaginary parts

---
 pydtmc/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/utilities.py b/pydtmc/utilities.py
index 89a81bd..7368084 100644
--- a/pydtmc/utilities.py
+++ b/pydtmc/utilities.py
@@ -215,7 +215,7 @@ def extract_numeric(data: _tany, dtype: _odtype = None) -> _tarray:
     else:
         output = None
 
-    if output is None or not _np.issubdtype(output.dtype, _np.number):
+    if output is None or not _np.issubdtype(output.dtype, _np.number) or _np.issubdtype(output.dtype, _np.complexfloating):
         raise TypeError('The data type is not supported.')
 
     if dtype is not None:
-- 
2.43.0


From b2a9e7beb2d5e931d833154ddcfd368b5bcfe3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 19/61] fix: graphs with infinite edge weights must be rejected

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index cece82b..4ae4e96 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -393,7 +393,7 @@ def validate_graph(value: _tany, layers: _oint = None, edge_attributes: _oedge_a
 
     edge_weights = list(value.edges(data='weight', default=0.0))
 
-    if not all(_is_number(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
+    if not all(_is_number(edge_weight[2]) and _np.isfinite(edge_weight[2]) and float(edge_weight[2]) > 0.0 for edge_weight in edge_weights):  # pragma: no cover
         raise ValueError('The "@arg@" parameter must define edge weight attributes as non-negative numbers.')
 
     if edge_attributes is not None:
-- 
2.43.0


From 2b13d711c85c5bff97431c2b8d4fb028968f333b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 20/61] fix: lump must tolerate rounding errors

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 77cf9bb..fc84d50 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -873,7 +873,7 @@ def mc_lump(p: _tarray, states: _tlist_str, partitions: _tlists_int) -> _tmc_gen
 
     left = _np.dot(_np.dot(_np.dot(r, k), p), r)
     right = _np.dot(p, r)
-    is_lumpable = _np.array_equal(left, right)
+    is_lumpable = _np.allclose(left, right)
 
     if not is_lumpable:  # pragma: no cover
         return None, None, 'The Markov chain is not lumpable with respect to the given partitions.'
-- 
2.43.0


From dc941ead649dadbc7533335d7cee45cbdea3f1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:36 +0000
Subject: [PATCH 21/61] fix: the spectral top-down aggregation must not drop
 states

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index fc84d50..e879878 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -300,7 +300,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vi = _np.ravel(_np.argwhere(cq_phi[:, cq_index] == 1.0))
         vi0, vi1 = vi[0], vi[1]
-        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):(vi1 - 1)], cq_eta[:, (vi1 + 1):]))
+        phi_i = _np.hstack((cq_eta[:, :vi0], _np.amax(_np.take(cq_eta, vi, 1), axis=1, keepdims=True), cq_eta[:, (vi0 + 1):vi1], cq_eta[:, (vi1 + 1):]))
 
         z = phi_i.shape[1]
 
-- 
2.43.0


From c2249c66c0171fb323cf831a2848975bb0deb1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 22/61] fix: validation must not be skipped when the calling
 function is named like a generator method

---
 pydtmc/hidden_markov_model.py | 5 +++--
 pydtmc/markov_chain.py        | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index f8ad817..c42aec0 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -147,9 +147,10 @@ class HiddenMarkovModel(_Model):
         if HiddenMarkovModel.__instance_generators is None:
             HiddenMarkovModel.__instance_generators = _get_instance_generators(self.__class__)
 
-        caller = _get_caller(_ins.stack())
+        stack = _ins.stack()
+        caller = _get_caller(stack)
 
-        if caller not in HiddenMarkovModel.__instance_generators:
+        if caller not in HiddenMarkovModel.__instance_generators or stack[1].frame.f_globals.get('__name__') != __name__:
 
             try:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index ab639fa..4962ecc 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -212,9 +212,10 @@ class MarkovChain(_Model):
         if MarkovChain.__instance_generators is None:
             MarkovChain.__instance_generators = _get_instance_generators(self.__class__)
 
-        caller = _get_caller(_ins.stack())
+        stack = _ins.stack()
+        caller = _get_caller(stack)
 
-        if caller not in MarkovChain.__instance_generators:
+        if caller not in MarkovChain.__instance_generators or stack[1].frame.f_globals.get('__name__') != __name__:
 
             try:
 
-- 
2.43.0


From 5a31844096b4cb373fa1b0723b29748bb75e1847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:14 +0000
Subject: [PATCH 23/61] fix: models must not share their label lists with the
 caller

---
 pydtmc/hidden_markov_model.py | 8 ++++----
 pydtmc/markov_chain.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index c42aec0..b4a3a58 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -169,8 +169,8 @@ class HiddenMarkovModel(_Model):
         self.__e: _tarray = e
         self.__p: _tarray = p
         self.__size: _tpair_int = (p.shape[1], e.shape[1])
-        self.__states: _tlist_str = states
-        self.__symbols: _tlist_str = symbols
+        self.__states: _tlist_str = list(states)
+        self.__symbols: _tlist_str = list(symbols)
 
     def __eq__(self, other) -> bool:
 
@@ -278,7 +278,7 @@ class HiddenMarkovModel(_Model):
         A property representing the states of the hidden Markov model.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @property
     def symbols(self) -> _tlist_str:
@@ -287,7 +287,7 @@ class HiddenMarkovModel(_Model):
         A property representing the symbols of the hidden Markov model.
         """
 
-        return self.__symbols
+        return self.__symbols.copy()
 
     def decode(self, symbols: _tsequence, initial_status: _ostatus = None, use_scaling: bool = True) -> _ohmm_decoding:
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 4962ecc..9d29c40 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -229,7 +229,7 @@ class MarkovChain(_Model):
         self.__digraph: _tgraph = _build_mc_graph(p, states)
         self.__p: _tarray = p
         self.__size: int = p.shape[1]
-        self.__states: _tlist_str = states
+        self.__states: _tlist_str = list(states)
 
     def __eq__(self, other) -> bool:
 
@@ -969,7 +969,7 @@ class MarkovChain(_Model):
         A property representing the states of the Markov chain.
         """
 
-        return self.__states
+        return self.__states.copy()
 
     @_cached_property
     def topological_entropy(self) -> float:
-- 
2.43.0


From 35fec1be4a31f106180ddfab41b20364910f4bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:15 +0000
Subject: [PATCH 24/61] fix: results returned by cached properties and methods
 must not expose the cache

---
 pydtmc/decorators.py   | 7 +++++--
 pydtmc/markov_chain.py | 8 ++++----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/pydtmc/decorators.py b/pydtmc/decorators.py
index 9749b3f..5768c2d 100644
--- a/pydtmc/decorators.py
+++ b/pydtmc/decorators.py
@@ -13,6 +13,7 @@ __all__ = [
 
 # Standard
 
+import copy as _cp
 import functools as _ft
 import re as _re
 import threading as _th
@@ -59,9 +60,11 @@ class cached_property(property):
 
         with self._lock:
             try:
-                return instance.__dict__[self._func_name]
+                value = instance.__dict__[self._func_name]
             except KeyError:
-                return instance.__dict__.setdefault(self._func_name, self._func(instance))
+                value = instance.__dict__.setdefault(self._func_name, self._func(instance))
+
+        return _cp.deepcopy(value)
 
     def __set__(self, instance, value):
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 9d29c40..a39e86d 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1018,7 +1018,7 @@ class MarkovChain(_Model):
         if 'ap' not in self.__cache:
             self.__cache['ap'] = _absorption_probabilities(self)
 
-        return self.__cache['ap']
+        return _cp.deepcopy(self.__cache['ap'])
 
     @_object_mark(instance_generator=True)
     def aggregate(self, s: int, method: str = 'adaptive') -> _tmc:
@@ -1529,7 +1529,7 @@ class MarkovChain(_Model):
         if 'mat' not in self.__cache:
             self.__cache['mat'] = _mean_absorption_times(self)
 
-        return self.__cache['mat']
+        return _cp.deepcopy(self.__cache['mat'])
 
     @_object_mark(aliases=['mfpt_between', 'mfptb'])
     def mean_first_passage_times_between(self, origins: _tstates, targets: _tstates) -> _ofloat:
@@ -1600,7 +1600,7 @@ class MarkovChain(_Model):
         if 'mnv' not in self.__cache:
             self.__cache['mnv'] = _mean_number_visits(self)
 
-        return self.__cache['mnv']
+        return _cp.deepcopy(self.__cache['mnv'])
 
     @_object_mark(aliases=['mrt'])
     def mean_recurrence_times(self) -> _oarray:
@@ -1617,7 +1617,7 @@ class MarkovChain(_Model):
         if 'mrt' not in self.__cache:
             self.__cache['mrt'] = _mean_recurrence_times(self)
 
-        return self.__cache['mrt']
+        return _cp.deepcopy(self.__cache['mrt'])
 
     @_object_mark(instance_generator=True)
     def merge_with(self, other: _tmc, gamma: float) -> _tmc:
-- 
2.43.0


From 0efb299140ae0f1eb733ec493684554e0cfebd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:23 +0000
Subject: [PATCH 25/61] fix: the Markov property assessment must not confuse
 label concatenations

---
 pydtmc/assessments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index ae3b6aa..91ef4e3 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -271,8 +271,8 @@ def assess_markov_property(possible_states: _tlist_str, sequence: _tsequence, si
         fnp = _fnp_iteration(i, sts3, sts2, s02, p)
         chi2 += ((so3[i] - fnp)**2.0) / fnp
 
-    doubles = [f'{sequence_labels[i]}{sequence_labels[i + 1]}' for i in range(sequence_length - 1)]
-    triples = [f'{sequence_labels[i]}{sequence_labels[i + 1]}{sequence_labels[i + 2]}' for i in range(sequence_length - 2)]
+    doubles = [(sequence_labels[i], sequence_labels[i + 1]) for i in range(sequence_length - 1)]
+    triples = [(sequence_labels[i], sequence_labels[i + 1], sequence_labels[i + 2]) for i in range(sequence_length - 2)]
     dof = len(set(triples)) - len(set(doubles)) + len(set(sequence_labels)) - 1
 
     p_value = 0.0 if dof == 0 else 1.0 - _sps.chi2.cdf(chi2, dof)
-- 
2.43.0


From f62f0c2c76e5adec412c23237fff03fe71eb62ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:45 +0000
Subject: [PATCH 26/61] fix: negative values returned by the transition
 function must be rejected

---
 pydtmc/fitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/fitting.py b/pydtmc/fitting.py
index c3dddc3..d66ca85 100644
--- a/pydtmc/fitting.py
+++ b/pydtmc/fitting.py
@@ -275,7 +275,7 @@ def mc_fit_function(quadrature_type: str, quadrature_interval: _tinterval, possi
             except Exception:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
-            if not _np.isfinite(f_result) or not _np.isreal(f_result):  # pragma: no cover
+            if not _np.isfinite(f_result) or not _np.isreal(f_result) or f_result < 0.0:  # pragma: no cover
                 return None, 'The transition function returned an invalid value.'
 
             p[i, j] = f_result * weights[j]
-- 
2.43.0


From 14ca1778934458f80702da4629375565e105ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:29 +0000
Subject: [PATCH 27/61] fix: the Moran model must reject selection intensities
 that yield negative probabilities

---
 pydtmc/generators.py   | 3 +++
 pydtmc/markov_chain.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index e879878..fe9426e 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -897,6 +897,9 @@ def mc_population_genetics_model(model: str, n: int, s: float, u: float, v: floa
 
     if model == 'moran':
 
+        if s > 1.0:  # pragma: no cover
+            return None, None, 'The selection intensity specified is too high for the Moran model.'
+
         r = 1.0 - s
 
         for i in range(1, n):
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index a39e86d..37147e2 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2641,7 +2641,10 @@ class MarkovChain(_Model):
         if model == 'wright-fisher' and (4.0 * n * max(u, v)) > 1.0:
             raise _ValidationError('The highest mutation rate specified is too high for the Wright-Fisher model.')
 
-        p, states_out, _ = _population_genetics_model(model, n, s, u, v)
+        p, states_out, error_message = _population_genetics_model(model, n, s, u, v)
+
+        if error_message is not None:  # pragma: no cover
+            raise _ValidationError(error_message)
 
         if states is None:
             states = states_out
-- 
2.43.0


From 9f7699ba842f6016348bb74c5a09cd54ff395701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 28/61] fix: birth-death chains must have at least two states

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 37147e2..eb379ac 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2203,6 +2203,9 @@ class MarkovChain(_Model):
         if p.shape[0] != q.shape[0]:  # pragma: no cover
             raise _ValidationError('The vector of annihilation probabilities and the vector of creation probabilities must have the same size.')
 
+        if p.shape[0] < 2:  # pragma: no cover
+            raise _ValidationError('The vectors of annihilation probabilities and creation probabilities must contain at least 2 elements.')
+
         if not _np.all(q + p <= 1.0):  # pragma: no cover
             raise _ValidationError('The sums of annihilation and creation probabilities must be less than or equal to 1.')
 
-- 
2.43.0


From 81312b209f80f8b744e2635d7021a1062adaab26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:57 +0000
Subject: [PATCH 29/61] fix: the normalization of large values must not
 overflow

---
 pydtmc/markov_chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index eb379ac..6eb2373 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2497,6 +2497,7 @@ class MarkovChain(_Model):
             j = states.index(edge[1])
             p[i, j] = float(edge[2])
 
+        p[_np.isinf(_np.sum(p, axis=1)), :] /= p.size
         p_sums = _np.sum(p, axis=1)
 
         for i in range(size):
@@ -2534,6 +2535,7 @@ class MarkovChain(_Model):
             raise _create_validation_error(ex, _ins.trace()) from None
 
         p = _np.copy(m)
+        p[_np.isinf(_np.sum(p, axis=1)), :] /= p.size
         p_sums = _np.sum(p, axis=1)
 
         size = p.shape[1]
@@ -2742,6 +2744,7 @@ class MarkovChain(_Model):
         p = f(size=(size, size), **kwargs).astype(float)
         p = _np.clip(_np.nan_to_num(p, copy=False), 0.0, None)
         p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[1], dtype=float)
+        p[_np.isinf(_np.sum(p, axis=1)), :] /= p.size
         p /= _np.sum(p, axis=1, keepdims=True)
 
         mc = MarkovChain(p, states)
-- 
2.43.0


From 9d8e85d0a6e3352d1d783906e2c12b0d4dddbeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 30/61] fix: random models with incomplete masks must raise the
 documented error

---
 pydtmc/generators.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index fe9426e..116830b 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -152,11 +152,17 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
     if p_result:  # pragma: no cover
         return None, None, None, None, f'The number of null transition probabilities exceeds the maximum threshold of {p_zeros_required:d}.'
 
+    if _np.any(~p_full_rows & ~_np.any(p_mask_unassigned, axis=1)):  # pragma: no cover
+        return None, None, None, None, 'The rows of the transition mask without undefined probabilities must sum to 1.'
+
     e_full_rows, e_mask_unassigned, e_zeros_required, e_result = process_zeros(k, e_zeros, e_mask)
 
     if e_result:  # pragma: no cover
         return None, None, None, None, f'The number of null emission probabilities exceeds the maximum threshold of {e_zeros_required:d}.'
 
+    if _np.any(~e_full_rows & ~_np.any(e_mask_unassigned, axis=1)):  # pragma: no cover
+        return None, None, None, None, 'The rows of the emission mask without undefined probabilities must sum to 1.'
+
     p = process_matrix(n, n, p_mask, p_full_rows, p_mask_unassigned, p_zeros, p_zeros_required)
     states = [f'P{i:d}' for i in range(1, n + 1)]
 
@@ -953,6 +959,10 @@ def mc_random(rng: _trand, size: int, zeros: int, mask: _tarray) -> _tmc_generat
         if not full_rows[i]:
             row = mask_unassigned[i, :]
             columns = _np.flatnonzero(row)
+
+            if columns.size == 0:  # pragma: no cover
+                return None, None, 'The rows of the mask without undefined transition probabilities must sum to 1.'
+
             j = columns[rng.randint(0, _np.sum(row).item())]
             mask[i, j] = _np.inf
 
-- 
2.43.0


From d702783ca3396a98f41b1accf7dc327fda9b8cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 31/61] fix: approximations with unit autocorrelation must not
 produce invalid chains or raw errors

---
 pydtmc/generators.py   | 5 +++++
 pydtmc/markov_chain.py | 3 ++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 116830b..2672908 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -532,6 +532,8 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
         if _np.isclose(rho, 1.0):
             rho = 1.0 - 1e-8
+        elif _np.isclose(rho, -1.0):
+            rho = -1.0 + 1e-8
 
         y_std = _np.sqrt(sigma**2.0 / (1.0 - rho**2.0))
 
@@ -555,6 +557,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
                 z = x[j] - rx
                 p[i, j] = _sps.norm.cdf((z + step) / sigma) - _sps.norm.cdf((z - step) / sigma)
 
+    if not _np.all(_np.isfinite(p)):  # pragma: no cover
+        return None, None, 'The approximation produced invalid transition probabilities.'
+
     states = [f'{i:d}' for i in range(1, p.shape[0] + 1)]
 
     return p, states, None
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 6eb2373..224d67b 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2151,7 +2151,8 @@ class MarkovChain(_Model):
             approximation_type = _validate_enumerator(approximation_type, ['adda-cooper', 'rouwenhorst', 'tauchen', 'tauchen-hussey'])
             alpha = _validate_float(alpha)
             sigma = _validate_float(sigma, lower_limit=(0.0, True))
-            rho = _validate_float(rho, lower_limit=(-1.0, False), upper_limit=(1.0, False))
+            rho_strict = approximation_type == 'adda-cooper' or (approximation_type == 'tauchen-hussey' and k is None)
+            rho = _validate_float(rho, lower_limit=(-1.0, rho_strict), upper_limit=(1.0, rho_strict))
 
             if states is not None:  # pragma: no cover
                 states = _validate_labels_input(states, size)
-- 
2.43.0


From b053a12003e3bcad1ffe231192cfa748dfd2b47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 32/61] fix: hitting probabilities and hitting times must not
 degrade when hitting is slow

---
 pydtmc/measures.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 66bbb15..225e942 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -30,7 +30,6 @@ __all__ = [
 
 import numpy as _np
 import numpy.linalg as _npl
-import scipy.optimize as _spo
 
 # Internal
 
@@ -272,15 +271,24 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     p, size = mc.p, mc.size
 
     target = _np.array(targets)
-    non_target = _np.setdiff1d(_np.arange(size, dtype=int), target)
+    hitting = _np.unique(target)
+    current_size = 0
 
-    hp = _np.ones(size, dtype=float)
+    while current_size != hitting.size:
+        current_size = hitting.size
+        x = _np.flatnonzero(_np.sum(p[:, hitting], axis=1))
+        hitting = _np.union1d(hitting, x)
 
-    if non_target.size > 0:
-        a = p[non_target, :][:, non_target] - _np.eye(non_target.size)
-        b = _np.sum(-p[non_target, :][:, target], axis=1)
-        x = _spo.nnls(a, b)[0]
-        hp[non_target] = x
+    solve = _np.setdiff1d(hitting, target)
+
+    hp = _np.zeros(size, dtype=float)
+    hp[target] = 1.0
+
+    if solve.size > 0:
+        a = _np.eye(solve.size) - p[solve, :][:, solve]
+        b = _np.sum(p[solve, :][:, target], axis=1)
+        x = _npl.solve(a, b)
+        hp[solve] = x
 
     return hp
 
@@ -309,9 +317,9 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     solve = _np.setdiff1d(list(range(size)), _np.union1d(target, infinity))
 
     if solve.size > 0:
-        a = p[solve, :][:, solve] - _np.eye(solve.size)
-        b = -_np.ones(solve.size, dtype=float)
-        x = _spo.nnls(a, b)[0]
+        a = _np.eye(solve.size) - p[solve, :][:, solve]
+        b = _np.ones(solve.size, dtype=float)
+        x = _npl.solve(a, b)
         ht[solve] = x
 
     return ht
-- 
2.43.0


From 3f5335d592b4f8068d36ad62a90838284dad6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:46 +0000
Subject: [PATCH 33/61] fix: the mean number of visits must not vanish for
 rarely visited states

---
 pydtmc/measures.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 225e942..1b10477 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -440,6 +440,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
         hp[:, j] = _npl.solve(a, b)
 
     mnv = _np.zeros((size, size), dtype=float)
+    accessible = _np.dot(p, mc.accessibility_matrix) > 0.0
 
     for j in range(size):
 
@@ -452,7 +453,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         for i in range(size):
 
-            if _np.isclose(hp[i, j], 0.0):
+            if not accessible[i, j]:
                 mnv[i, j] = 0.0
             elif ct1:
                 mnv[i, j] = _np.inf
-- 
2.43.0


From c4f9e1edb6e8215f3ddfc685935bc2c63a8b6982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 34/61] fix: the spectral aggregations must terminate when an
 eigenvector does not change sign

---
 pydtmc/generators.py | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 2672908..cd1ed86 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -59,6 +59,21 @@ from .custom_types import (
 # FUNCTIONS #
 #############
 
+def _bipartition(evector):
+
+    evector = _np.real(evector)
+
+    split = evector >= 0.0
+
+    if _np.all(split) or not _np.any(split):
+        split = evector > _np.mean(evector)
+
+    if _np.all(split) or not _np.any(split):
+        split[0] = not split[0]
+
+    return split
+
+
 # noinspection DuplicatedCode
 def hmm_estimate(n: int, k: int, sequence_states: _tlist_int, sequence_symbols: _tlist_int, handle_nulls: bool) -> _thmm_params:
 
@@ -238,11 +253,13 @@ def mc_aggregate_spectral_bottom_up(p: _tarray, pi: _tarray, s: int) -> _tmc_gen
 
         vt = _np.transpose(v[_np.newaxis, :])
 
+        split = _bipartition(evector)
+
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = split
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~split
 
         bc_stack = _np.hstack((cbc_phi[:, :cbc_index], v1, v2, cbc_phi[:, (cbc_index + 1):]))
 
@@ -343,11 +360,13 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
         vt = _np.transpose(v[_np.newaxis, :])
 
+        split = _bipartition(evector)
+
         v1 = _np.copy(vt)
-        v1[indices] = evector >= 0.0
+        v1[indices] = split
 
         v2 = _np.copy(vt)
-        v2[indices] = evector < 0.0
+        v2[indices] = ~split
 
         cbc_phi = cbc_phi[:, :-1]
 
-- 
2.43.0


From a0d6a6ded645e4229c04edd08448481087a5833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 35/61] fix: trellis plots must draw the transitions of the
 possible initial states and colour the right edges

---
 pydtmc/plotting.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index a5f36cc..2675948 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1334,7 +1334,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             for col in range(f - 1):
 
-                if col == 0 and not gte_initial_distribution[col] > 0.0:
+                if col == 0 and not gte_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
@@ -1382,32 +1382,28 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
                 node_index += 1
 
-        edge_colors = []
-
         for row in range(n):
 
             row_offset = row * f
 
             for col in range(f - 1):
 
-                if col == 0 and not gts_initial_distribution[col] > 0.0:
+                if col == 0 and not gts_initial_distribution[row] > 0.0:
                     continue
 
                 for row_next in range(n):
 
                     if hmm.p[row][row_next] > 0.0:
 
+                        on_path = gts_states_path[col] == row and gts_states_path[col + 1] == row_next
+                        edge_color = _default_color_path if on_path else _color_black
+
                         if gts_forward:
-                            trellis.add_edge(row_offset + col, (row_next * f) + col + 1)
-                            on_path = gts_states_path[col] == row and gts_states_path[col + 1] == row_next
+                            trellis.add_edge(row_offset + col, (row_next * f) + col + 1, color=edge_color)
                         else:
-                            trellis.add_edge((row_next * f) + col + 1, row_offset + col)
-                            on_path = gts_states_path[col] == row_next and gts_states_path[col + 1] == row
+                            trellis.add_edge((row_next * f) + col + 1, row_offset + col, color=edge_color)
 
-                        if on_path:
-                            edge_colors.append(_default_color_path)
-                        else:
-                            edge_colors.append(_color_black)
+        edge_colors = [edge_color for _, _, edge_color in trellis.edges(data='color')]
 
         for row in range(n):
 
-- 
2.43.0


From df90844f175366ad9ab9d1e8d1a82dd9ad1cc9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 36/61] fix: stochastic monotonicity must not depend on
 rounding errors

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 224d67b..2d7f8b6 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -756,7 +756,7 @@ class MarkovChain(_Model):
                 sk = sm[k]
                 sl = sm[l]
 
-                if sl < sk:
+                if sl < sk and not _np.isclose(sl, sk):
                     result = False
                     break
 
-- 
2.43.0


From 5e833a1ee4f4e1355bed22b1310c37fc04293eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:40 +0000
Subject: [PATCH 37/61] fix: the closest reversible chain must not contain
 negative probabilities

---
 pydtmc/generators.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index cd1ed86..7ee37a8 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -814,6 +814,7 @@ def mc_closest_reversible(p: _tarray, initial_distribution: _tnumeric, weighted:
     for i in range(m):
         p += solution[i] * basis_vectors[i]
 
+    p[p < 0.0] = 0.0
     p[_np.where(~p.any(axis=1)), :] = _np.ones(size, dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From aec321467cf87de769ab1f85555c4b6812ea9320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 38/61] fix: xml and csv files must preserve the whitespace of
 labels

---
 pydtmc/files_io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index df5e128..c638e91 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -81,7 +81,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
                     if not isinstance(label, str) or len(label) < 3:  # pragma: no cover
                         raise ValueError('The file header is invalid.')
 
-                    label = label.strip()
+                    label = label.lstrip()
                     label_prefix = label[:2]
 
                     if label_prefix == 'E_':
@@ -306,9 +306,9 @@ def read_xml(mc: bool, file_path: _tpath) -> _tobj_dict:
         if sorted(attributes_keys) != valid_params_keys:  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
-        attributes_values = [attribute[1].strip() for attribute in attributes]
+        attributes_values = [attribute[1] for attribute in attributes]
 
-        if any(len(attributes_value) == 0 for attributes_value in attributes_values):  # pragma: no cover
+        if any(len(attributes_value.strip()) == 0 for attributes_value in attributes_values):  # pragma: no cover
             raise ValueError('The file contains invalid elements.')
 
         values = []
-- 
2.43.0


From 3220bf2b59ccef6ebaf3f61efb1ca0f6f1aa13f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:34 +0000
Subject: [PATCH 39/61] fix: txt files must not be written with labels they
 cannot represent

---
 pydtmc/files_io.py            | 3 +++
 pydtmc/hidden_markov_model.py | 1 +
 pydtmc/markov_chain.py        | 1 +
 3 files changed, 5 insertions(+)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index c638e91..95a04d5 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -409,6 +409,9 @@ def write_json(mc: bool, d: _tobj_dict, file_path: _tpath):
 
 def write_txt(d: _tobj_dict, file_path: _tpath):
 
+    if any(attribute.split() != [attribute] for key in d.keys() for attribute in key):
+        raise ValueError('The txt format does not support labels containing whitespace characters.')
+
     with open(file_path, mode='w') as file:
 
         line = ''
diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index b4a3a58..6ae02c9 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -511,6 +511,7 @@ class HiddenMarkovModel(_Model):
         :param file_path: the location of the file in which the hidden Markov model must be written.
         :raises OSError: if the file cannot be written.
         :raises ValidationError: if any input argument is not compliant.
+        :raises ValueError: if the file format cannot represent the labels of the model.
         """
 
         try:
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 2d7f8b6..909fa81 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1971,6 +1971,7 @@ class MarkovChain(_Model):
         :param file_path: the location of the file in which the Markov chain must be written.
         :raises OSError: if the file cannot be written.
         :raises ValidationError: if any input argument is not compliant.
+        :raises ValueError: if the file format cannot represent the labels of the model.
         """
 
         try:
-- 
2.43.0


From b65f4075e1afa92b1085c3f00c97827fcef4700d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 40/61] fix: the normalization of large values in hidden Markov
 models must not overflow

---
 pydtmc/hidden_markov_model.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 6ae02c9..a84104d 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -842,6 +842,8 @@ class HiddenMarkovModel(_Model):
                 j = states.index(edge[1])
                 p[i, j] = float(edge_weight)
 
+        p[_np.isinf(_np.sum(p, axis=1)), :] /= p.size
+        e[_np.isinf(_np.sum(e, axis=1)), :] /= e.size
         p_sums, e_sums = _np.sum(p, axis=1), _np.sum(e, axis=1)
 
         for i in range(n):
@@ -894,6 +896,8 @@ class HiddenMarkovModel(_Model):
 
         n, k = mp.shape[0], me.shape[1]
         p, e = _np.copy(mp), _np.copy(me)
+        p[_np.isinf(_np.sum(p, axis=1)), :] /= p.size
+        e[_np.isinf(_np.sum(e, axis=1)), :] /= e.size
         p_sums, e_sums = _np.sum(p, axis=1), _np.sum(e, axis=1)
 
         for i in range(n):
-- 
2.43.0


From 2d71a01d30c91fdb7eebe24373d17c303dcef8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:24 +0000
Subject: [PATCH 41/61] fix: files which define invalid probabilities or blank
 labels must be rejected

---
 pydtmc/files_io.py            | 12 +++++++++---
 pydtmc/hidden_markov_model.py |  3 +++
 pydtmc/markov_chain.py        |  3 +++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/pydtmc/files_io.py b/pydtmc/files_io.py
index 95a04d5..ed7cd20 100644
--- a/pydtmc/files_io.py
+++ b/pydtmc/files_io.py
@@ -97,6 +97,9 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
                 n, k = len(states), len(symbols)
 
+                if any(len(label_value.strip()) == 0 for label_value in states + symbols):  # pragma: no cover
+                    raise ValueError('The file header is invalid.')
+
                 if len(set(states)) < n or len(set(symbols)) < k:  # pragma: no cover
                     raise ValueError('The file header is invalid.')
 
@@ -136,7 +139,7 @@ def read_csv(mc: bool, file_path: _tpath) -> _tobj_dict:
 
             if index == 0:
 
-                if not all(isinstance(state, str) and len(state) > 0 for state in row):  # pragma: no cover
+                if not all(isinstance(state, str) and len(state.strip()) > 0 for state in row):  # pragma: no cover
                     raise ValueError('The file header is invalid.')
 
                 states = row
@@ -212,11 +215,14 @@ def read_json(mc: bool, file_path: _tpath) -> _tobj_dict:
                 if not isinstance(value, (float, int, _np.floating, _np.integer)):  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
-                value = float(value)
+                try:
+                    value = float(value)
+                except OverflowError as ex:  # pragma: no cover
+                    raise ValueError('The file contains invalid elements.') from ex
 
             elif param_type == 'string':
 
-                if not isinstance(value, str) or len(value) == 0:  # pragma: no cover
+                if not isinstance(value, str) or len(value.strip()) == 0:  # pragma: no cover
                     raise ValueError('The file contains invalid elements.')
 
             if len(param_possible_values) > 0 and value not in param_possible_values:  # pragma: no cover
diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index a84104d..6b5914f 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -770,6 +770,9 @@ class HiddenMarkovModel(_Model):
         else:
             d = _read_xml(False, file_path)
 
+        if not all(0.0 <= probability <= 1.0 for probability in d.values()):  # pragma: no cover
+            raise ValueError('The probabilities defined by the file must be values between 0.0 and 1.0.')
+
         states = [key[1] for key in d if key[0] == 'P' and key[1] == key[2]]
         n = len(states)
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 909fa81..503436c 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2452,6 +2452,9 @@ class MarkovChain(_Model):
         else:
             d = _read_xml(True, file_path)
 
+        if not all(0.0 <= probability <= 1.0 for probability in d.values()):  # pragma: no cover
+            raise ValueError('The probabilities defined by the file must be values between 0.0 and 1.0.')
+
         states = [key[0] for key in d if key[0] == key[1]]
         size = len(states)
 
-- 
2.43.0


From 8750dc2c22838a59198190e3245a8b8cc44d9775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:23 +0000
Subject: [PATCH 42/61] fix: the blocks of the stationarity assessment must not
 depend on rounding errors

---
 pydtmc/assessments.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pydtmc/assessments.py b/pydtmc/assessments.py
index 91ef4e3..b19a115 100644
--- a/pydtmc/assessments.py
+++ b/pydtmc/assessments.py
@@ -327,7 +327,6 @@ def assess_stationarity(possible_states: _tlist_str, sequence: _tsequence, block
     k, n = len(sequence), len(possible_states)
 
     iters = k - 1
-    block_size = float(k) / blocks
     adjustment = 1.0 / n
     chi2_func = _chi2_standard_inner if blocks == 1 else _chi2_contingency_inner
 
@@ -339,7 +338,7 @@ def assess_stationarity(possible_states: _tlist_str, sequence: _tsequence, block
 
         for i in range(iters):
             if sequence_labels[i] == state:
-                p = _mt.ceil((i + 1) / block_size) - 1
+                p = _mt.ceil(((i + 1) * blocks) / k) - 1
                 f = sequence_indices[i + 1]
                 ct[p, f] += 1.0
 
-- 
2.43.0


From adaae9cf1902489e54cd91ad1e798c60bd658692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:32 +0000
Subject: [PATCH 43/61] fix: the Adda-Cooper approximation must not depend on
 the scale of the process

---
 pydtmc/generators.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 7ee37a8..a481622 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -408,11 +408,11 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
 
 def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: float, rho: float, k: _ofloat) -> _tmc_generation:
 
-    def _adda_cooper_integrand(aci_x, aci_sigma_z, aci_sigma, aci_rho, aci_alpha, z_j, z_jp1):
+    def _adda_cooper_integrand(aci_x, aci_sigma, aci_rho, z_j, z_jp1):
 
-        t1 = _np.exp((-1.0 * (aci_x - aci_alpha)**2.0) / (2.0 * aci_sigma_z**2.0))
-        t2 = _sps.norm.cdf((z_jp1 - (aci_alpha * (1.0 - aci_rho)) - (aci_rho * aci_x)) / aci_sigma)
-        t3 = _sps.norm.cdf((z_j - (aci_alpha * (1.0 - aci_rho)) - (aci_rho * aci_x)) / aci_sigma)
+        t1 = _np.exp((-1.0 * aci_x**2.0) / 2.0)
+        t2 = _sps.norm.cdf((z_jp1 - (aci_rho * aci_x)) / aci_sigma)
+        t3 = _sps.norm.cdf((z_j - (aci_rho * aci_x)) / aci_sigma)
         output = t1 * (t2 - t3)
 
         return output
@@ -442,10 +442,11 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 
     if approximation_type == 'adda-cooper':
 
-        z_sigma = sigma / (1.0 - rho**2.0)**0.5
-        z_sigma_factor = size / _np.sqrt(2.0 * _np.pi * z_sigma**2.0)
+        # the process is standardized, so that the accuracy of the quadrature does not depend on its scale
+        z_sigma = (1.0 - rho**2.0)**0.5
+        z_factor = size / _np.sqrt(2.0 * _np.pi)
 
-        z = (z_sigma * _sps.norm.ppf(_np.arange(size + 1) / size)) + alpha
+        z = _sps.norm.ppf(_np.arange(size + 1) / size)
 
         p = _np.zeros((size, size), dtype=float)
 
@@ -455,8 +456,8 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
             z_ip = z[i + 1]
 
             for j in range(size):
-                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, sigma, rho, alpha, z[j], z[j + 1]))
-                p[i, j] = z_sigma_factor * iq[0]
+                iq = _spi.quad(_adda_cooper_integrand, z_i, z_ip, args=(z_sigma, rho, z[j], z[j + 1]))
+                p[i, j] = z_factor * iq[0]
 
     elif approximation_type == 'rouwenhorst':
 
-- 
2.43.0


From b765e4947d90fecfc01835777c97fc4ef6a80f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 44/61] fix: graphs requested while other threads query the
 same model must not fail

---
 pydtmc/hidden_markov_model.py | 3 +--
 pydtmc/markov_chain.py        | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 6b5914f..30052e8 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -11,7 +11,6 @@ __all__ = [
 
 # Standard
 
-import copy as _cp
 import inspect as _ins
 
 # Libraries
@@ -538,7 +537,7 @@ class HiddenMarkovModel(_Model):
         The method returns a directed graph representing the hidden Markov model.
         """
 
-        graph = _cp.deepcopy(self.__digraph)
+        graph = self.__digraph.copy()
 
         return graph
 
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 503436c..a55fdb1 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -1998,7 +1998,7 @@ class MarkovChain(_Model):
         The method returns a directed graph representing the Markov chain.
         """
 
-        graph = _cp.deepcopy(self.__digraph)
+        graph = self.__digraph.copy()
 
         return graph
 
-- 
2.43.0


From c077f1de71887ab1725a203f095f675810ac496b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 45/61] fix: plot_flow accepts every palette it validates, not
 only the listed color maps

---
 pydtmc/plotting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 2675948..7c7847f 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -366,7 +366,8 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
 
         i = gc_d.shape[0]
 
-        cm = _np.array(_mplp.get_cmap(gc_pn).colors)
+        cm = _mplp.get_cmap(gc_pn)
+        cm = cm(_np.arange(cm.N))[:, :3]
 
         ipf = _spip.interp1d(_np.linspace(0.0, 1.0, cm.shape[0]), cm, kind='linear', axis=0)
         ipv = ipf(_np.linspace(0.0, 1.0, 3 + ((i - 1) * 10)))
-- 
2.43.0


From 64ee39ab1b54bd4e0464813c8a8549f03fc31443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:54 +0000
Subject: [PATCH 46/61] fix: plot_flow shows the distribution after the last
 step

---
 pydtmc/plotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 7c7847f..0186d1d 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -508,7 +508,7 @@ def plot_flow(model: _tmodel, steps: int, interval: int, initial_status: _ostatu
             if dv > 0.05:
                 ax.text(aj, bm[ai, aj], f'{dv:.3f}', horizontalalignment='center', verticalalignment='center')
 
-    _xticks_steps(ax, steps)
+    _xticks_steps(ax, steps + 1)
 
     ax.set_ylim(0.0, 1.0)
     ax.invert_yaxis()
-- 
2.43.0


From f104eade68d16ee65b3ffb74961947dc42e9922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:33 +0000
Subject: [PATCH 47/61] fix: graphs drawn with Graphviz show every label as it
 is

---
 pydtmc/plotting.py | 42 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index 0186d1d..bfb2e7e 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -127,6 +127,14 @@ def _decode_image(g, dpi):
     return img, img_x, img_xo, img_y, img_yo
 
 
+def _escape_label(label):
+
+    for character, escaped in (('\\', '\\\\'), ('"', '\\"'), ('&', '&amp;')):
+        label = label.replace(character, escaped)
+
+    return f'"{label}"'
+
+
 def _xticks_labels(ax, size, labels_name, labels, minor_major):
 
     if labels_name is not None:
@@ -646,9 +654,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
         for i in range(phe_hmm.n):
 
-            state = phe_hmm.states[i]
-
-            node_attributes = {}
+            node_attributes = {'label': _escape_label(phe_hmm.states[i])}
 
             if phe_nodes_color:
                 node_attributes['style'] = 'filled'
@@ -657,11 +663,11 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'ellipse'
 
-            g_sub1.add_node(_pyd.Node(state, **node_attributes))
+            g_sub1.add_node(_pyd.Node(f'state{i}', **node_attributes))
 
-        for symbol in phe_hmm.symbols:
+        for j in range(phe_hmm.k):
 
-            node_attributes = {}
+            node_attributes = {'label': _escape_label(phe_hmm.symbols[j])}
 
             if phe_nodes_color:
                 node_attributes['style'] = 'filled'
@@ -670,20 +676,16 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
             if phe_nodes_type:
                 node_attributes['shape'] = 'hexagon'
 
-            g_sub2.add_node(_pyd.Node(symbol, **node_attributes))
+            g_sub2.add_node(_pyd.Node(f'symbol{j}', **node_attributes))
 
         for i in range(phe_hmm.n):
 
-            state_i = phe_hmm.states[i]
-
             for j in range(phe_hmm.n):
 
                 tp = phe_hmm.p[i, j]
 
                 if tp > 0.0:
 
-                    state_j = phe_hmm.states[j]
-
                     edge_attributes = {
                         'style': 'filled',
                         'color': _default_color_edge
@@ -693,7 +695,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(f'state{i}', f'state{j}', **edge_attributes))
 
             for j in range(phe_hmm.k):
 
@@ -701,8 +703,6 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
                 if ep > 0.0:
 
-                    symbol = phe_hmm.symbols[j]
-
                     edge_attributes = {
                         'style': 'dashed',
                         'color': edge_colors[i] if phe_nodes_color else _default_color_edge
@@ -712,7 +712,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(ep, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, symbol, **edge_attributes))
+                    g.add_edge(_pyd.Edge(f'state{i}', f'symbol{j}', **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, phe_dpi)
 
@@ -837,7 +837,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
             state_i = pme_mc.states[i]
 
-            node_attributes = {}
+            node_attributes = {'label': _escape_label(state_i)}
 
             if pme_nodes_color:
                 for index, cc in enumerate(pme_mc.communicating_classes):
@@ -852,7 +852,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                 else:
                     node_attributes['shape'] = 'ellipse'
 
-            g.add_node(_pyd.Node(state_i, **node_attributes))
+            g.add_node(_pyd.Node(f'state{i}', **node_attributes))
 
             for j in range(pme_mc.size):
 
@@ -860,8 +860,6 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
 
                 if tp > 0.0:
 
-                    state_j = pme_mc.states[j]
-
                     edge_attributes = {
                         'style': 'filled',
                         'color': _default_color_edge
@@ -871,7 +869,7 @@ def plot_graph(model: _tmodel, nodes_color: bool = True, nodes_shape: bool = Tru
                         edge_attributes['label'] = f' {round(tp, magnitude):.{magnitude}f} '
                         edge_attributes['fontsize'] = 9
 
-                    g.add_edge(_pyd.Edge(state_i, state_j, **edge_attributes))
+                    g.add_edge(_pyd.Edge(f'state{i}', f'state{j}', **edge_attributes))
 
         img, img_x, img_xo, img_y, img_yo = _decode_image(g, pme_dpi)
 
@@ -1303,7 +1301,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
         for row in range(n):
 
-            sub_label = gte_hmm.states[row]
+            sub_label = _escape_label(gte_hmm.states[row])
             sub.add_node(_pyd.Node(f'state{row}', color='transparent', label=sub_label, shape='plaintext'))
 
             if row > 0:
@@ -1315,7 +1313,7 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
             path_current = gte_states_path[col]
 
-            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else gte_hmm.symbols[gte_symbols[col]]
+            sub_label = "<T<FONT POINT-SIZE='8'><SUB>0</SUB></FONT>>" if col == 0 else _escape_label(gte_hmm.symbols[gte_symbols[col]])
             sub = _pyd.Subgraph(f'cluster_{col + 1}', color='transparent', label=sub_label)
 
             for row in range(n):
-- 
2.43.0


From 89b19c87e53f43f74aaa5d1c939f7217e795ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:42 +0000
Subject: [PATCH 48/61] fix: the columns of the trellis show the values of the
 times they are labelled with

---
 pydtmc/plotting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pydtmc/plotting.py b/pydtmc/plotting.py
index bfb2e7e..668e2f2 100644
--- a/pydtmc/plotting.py
+++ b/pydtmc/plotting.py
@@ -1507,19 +1507,20 @@ def plot_trellis(hmm: _thmm, steps: int, initial_state: _ostate = None, seed: _o
 
     _, symbols = hmm.simulate(steps, initial_state=initial_state, output_indices=True, seed=seed)
 
-    decoding = hmm.decode(symbols, initial_status=initial_distribution)
+    decoding = hmm.decode(symbols[1:], initial_status=initial_distribution)
 
     if decoding is None:  # pragma: no cover
         raise ValueError('The computation of backward and forward probabilities failed.')
 
     _, _, backward, forward, _ = decoding
 
-    prediction = hmm.predict('mle', symbols, initial_status=initial_distribution, output_indices=True)
+    prediction = hmm.predict('mle', symbols[1:], initial_status=initial_distribution, output_indices=True)
 
     if prediction is None:  # pragma: no cover
         raise ValueError('The computation of the most probable states path failed.')
 
     _, states_path = prediction
+    states_path = [_np.argmax(initial_distribution * hmm.p[:, states_path[0]]).item(), *states_path]
 
     extended_graph = not force_standard and _pydot_found
 
-- 
2.43.0


From 5bb5dcaaadb850364b46219c5e397d4fb2badaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 49/61] fix: a state is absorbing only when it leads to no
 other state

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index a55fdb1..19792c2 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -273,7 +273,7 @@ class MarkovChain(_Model):
     @_cached_property
     def __absorbing_states_indices(self) -> _tlist_int:
 
-        indices = [index for index in range(self.__size) if _np.isclose(self.__p[index, index], 1.0)]
+        indices = [index for index in range(self.__size) if _np.array_equal(_np.flatnonzero(self.__p[index, :]), [index])]
 
         return indices
 
-- 
2.43.0


From 0c68ce7d93a4d222ccef48ba4fa5ec320ee5c5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 50/61] fix: small entropy rates must not be negative

---
 pydtmc/markov_chain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 19792c2..1da92dc 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -506,7 +506,7 @@ class MarkovChain(_Model):
                     if self.__p[i, j] > 0.0:
                         h += pi_i * self.__p[i, j] * _np.log(self.__p[i, j])
 
-            h = h if _np.isclose(h, 0.0) else -h
+            h = 0.0 - h
 
         return h
 
-- 
2.43.0


From 66a5da3d9d3343cfacf6123fb96c07e70fcf841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 51/61] fix: rows of small weights are normalized instead of
 replaced by uniform rows

---
 pydtmc/hidden_markov_model.py | 8 ++++----
 pydtmc/markov_chain.py        | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pydtmc/hidden_markov_model.py b/pydtmc/hidden_markov_model.py
index 30052e8..bf93988 100644
--- a/pydtmc/hidden_markov_model.py
+++ b/pydtmc/hidden_markov_model.py
@@ -852,14 +852,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
@@ -906,14 +906,14 @@ class HiddenMarkovModel(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(n, dtype=float) / n
             else:
                 p[i, :] /= p_sums_i
 
             e_sums_i = e_sums[i]
 
-            if _np.isclose(e_sums_i, 0.0):  # pragma: no cover
+            if e_sums_i == 0.0:  # pragma: no cover
                 e[i, :] = _np.ones(k, dtype=float) / k
             else:
                 e[i, :] /= e_sums_i
diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 1da92dc..9075be0 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2509,7 +2509,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
@@ -2549,7 +2549,7 @@ class MarkovChain(_Model):
 
             p_sums_i = p_sums[i]
 
-            if _np.isclose(p_sums_i, 0.0):  # pragma: no cover
+            if p_sums_i == 0.0:  # pragma: no cover
                 p[i, :] = _np.ones(size, dtype=float) / size
             else:
                 p[i, :] /= p_sums_i
-- 
2.43.0


From fc3eb1addaf0c1283e4cdf039410c1e4476db5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 52/61] fix: small birth and death probabilities must not be
 dropped

---
 pydtmc/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index a481622..604a8e1 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -588,9 +588,9 @@ def mc_approximation(size: int, approximation_type: str, alpha: float, sigma: fl
 def mc_birth_death(p: _tarray, q: _tarray) -> _tmc_generation:
 
     r = 1.0 - q - p
+    r[_np.abs(r) < 1e-15] = 0.0
 
     p = _np.diag(r) + _np.diag(p[0:-1], k=1) + _np.diag(q[1:], k=-1)
-    p[_np.isclose(p, 0.0)] = 0.0
     p[_np.where(~p.any(axis=1)), :] = _np.ones(p.shape[0], dtype=float)
     p /= _np.sum(p, axis=1, keepdims=True)
 
-- 
2.43.0


From d8a57adc7d0deca53fbfc9237bf262498fc60bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:00 +0000
Subject: [PATCH 53/61] fix: overflowing backward probabilities of excluded
 states no longer make the decoding undefined

---
 pydtmc/measures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 1b10477..160c7b1 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -95,6 +95,9 @@ def hmm_decode(p: _tarray, e: _tarray, initial_distribution: _tarray, symbols: _
         for state in range(n):
             backward[state, i] = scaling_factor * _np.sum(_np.multiply(_np.multiply(p[state, :], backward_i), e_i))
 
+        # the values of the states excluded by the observations are unbounded, an overflow would make the other ones undefined
+        backward[:, i] = _np.minimum(backward[:, i], _np.finfo(float).max)
+
     posterior = _np.multiply(backward, forward)
     posterior = posterior[:, 1:]
 
-- 
2.43.0


From 8e800c8a95430c5a8f0691df4de24bbe6e93fd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:52 +0000
Subject: [PATCH 54/61] fix: keep the candidate pairs found by the top-down
 aggregation

---
 pydtmc/generators.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 604a8e1..2b93e2c 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -343,7 +343,7 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
     # noinspection DuplicatedCode
     def _update_bipartition_candidates(cbc_q, cbc_pi, cbc_phi):
 
-        last_index = cbc_phi.shape[1] - 1
+        last_index = _np.flatnonzero(_np.sum(cbc_phi, axis=0) > 2.0)[-1]
         v = cbc_phi[:, last_index]
 
         indices = v > 0.0
@@ -368,14 +368,14 @@ def mc_aggregate_spectral_top_down(p: _tarray, pi: _tarray, s: int) -> _tmc_gene
         v2 = _np.copy(vt)
         v2[indices] = ~split
 
-        cbc_phi = cbc_phi[:, :-1]
+        cbc_phi = _np.delete(cbc_phi, last_index, axis=1)
 
         if _np.sum(v1) > 1.0:
-            cbc_phi = _np.hstack((cbc_phi[:, :last_index], v1, cbc_phi[:, (last_index + 1):]))
+            cbc_phi = _np.hstack((cbc_phi[:, :last_index], v1, cbc_phi[:, last_index:]))
             last_index += 1
 
         if _np.sum(v2) > 1.0:
-            cbc_phi = _np.hstack((cbc_phi[:, :last_index], v2, cbc_phi[:, (last_index + 1):]))
+            cbc_phi = _np.hstack((cbc_phi[:, :last_index], v2, cbc_phi[:, last_index:]))
 
         return cbc_phi
 
-- 
2.43.0


From c204ca968c2c9332debbe2c97736cc205fd2d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:52 +0000
Subject: [PATCH 55/61] fix: refuse a boundary condition which is not a number

---
 pydtmc/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 4ae4e96..7ae6a1e 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -149,7 +149,7 @@ def validate_boundary_condition(value: _tany) -> _tbcond:
 
         value = float(value)
 
-        if (value < 0.0) or (value > 1.0):
+        if not 0.0 <= value <= 1.0:
             raise ValueError('The "@arg@" parameter, when specified as a number, must have a value between 0 and 1.')
 
         return value
-- 
2.43.0


From fe5be63388405f25874cfc841b5e8d365ab6dca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:51 +0000
Subject: [PATCH 56/61] fix: hitting probabilities and times must not fail when
 leaving some states is nearly impossible

---
 pydtmc/computations.py | 27 +++++++++++++++++++++++++++
 pydtmc/measures.py     | 10 ++++++----
 2 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/pydtmc/computations.py b/pydtmc/computations.py
index 3d22bb1..9ca0e56 100644
--- a/pydtmc/computations.py
+++ b/pydtmc/computations.py
@@ -7,6 +7,7 @@ __all__ = [
     'find_cyclic_classes',
     'find_lumping_partitions',
     'gth_solve',
+    'gth_solve_transient',
     'kullback_leibler_divergence',
     'rdl_decomposition',
     'slem'
@@ -296,6 +297,32 @@ def gth_solve(p: _tarray) -> _tarray:
     return x
 
 
+def gth_solve_transient(p: _tarray, transient: _tarray, b: _tarray) -> _tarray:
+
+    recurrent = _np.setdiff1d(_np.arange(p.shape[0], dtype=int), transient)
+
+    a = p[_np.ix_(transient, transient)]
+    r = _np.sum(p[_np.ix_(transient, recurrent)], axis=1)
+    x = _np.array(b, dtype=float)
+
+    for i in range(x.shape[0] - 1, -1, -1):
+
+        scale = _np.sum(a[i, :i]) + r[i]
+
+        a[i, :i] /= scale
+        r[i] /= scale
+        x[i] /= scale
+
+        a[:i, :i] += _np.outer(a[:i, i], a[i, :i])
+        r[:i] += a[:i, i] * r[i]
+        x[:i] += _np.multiply.outer(a[:i, i], x[i])
+
+    for i in range(1, x.shape[0]):
+        x[i] += _np.dot(a[i, :i], x[:i])
+
+    return x
+
+
 def kullback_leibler_divergence(p, pi, phi, q):
 
     pi = pi[_np.newaxis, :]
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 160c7b1..4da8907 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -33,6 +33,10 @@ import numpy.linalg as _npl
 
 # Internal
 
+from .computations import (
+    gth_solve_transient as _gth_solve_transient
+)
+
 from .custom_types import (
     oarray as _oarray,
     ohmm_decoding as _ohmm_decoding,
@@ -288,9 +292,8 @@ def mc_hitting_probabilities(mc: _tmc, targets: _tlist_int) -> _tarray:
     hp[target] = 1.0
 
     if solve.size > 0:
-        a = _np.eye(solve.size) - p[solve, :][:, solve]
         b = _np.sum(p[solve, :][:, target], axis=1)
-        x = _npl.solve(a, b)
+        x = _gth_solve_transient(p, solve, b)
         hp[solve] = x
 
     return hp
@@ -320,9 +323,8 @@ def mc_hitting_times(mc: _tmc, targets: _tlist_int) -> _tarray:
     solve = _np.setdiff1d(list(range(size)), _np.union1d(target, infinity))
 
     if solve.size > 0:
-        a = _np.eye(solve.size) - p[solve, :][:, solve]
         b = _np.ones(solve.size, dtype=float)
-        x = _npl.solve(a, b)
+        x = _gth_solve_transient(p, solve, b)
         ht[solve] = x
 
     return ht
-- 
2.43.0


From 28d0ff1ff419ee9bf7b8a323bd44ad1b1880c89b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:57 +0000
Subject: [PATCH 57/61] fix: absorption and passage quantities must not fail
 when leaving some states is nearly impossible

---
 pydtmc/markov_chain.py |  6 ++---
 pydtmc/measures.py     | 50 ++++++++----------------------------------
 2 files changed, 11 insertions(+), 45 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index 9075be0..d67f4e5 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -34,6 +34,7 @@ from .computations import (
     find_cyclic_classes as _find_cyclic_classes,
     find_lumping_partitions as _find_lumping_partitions,
     gth_solve as _gth_solve,
+    gth_solve_transient as _gth_solve_transient,
     rdl_decomposition as _rdl_decomposition,
     slem as _slem
 )
@@ -545,10 +546,7 @@ class MarkovChain(_Model):
 
             indices = self.__transient_states_indices
 
-            q = self.__p[_np.ix_(indices, indices)]
-            i = _np.eye(len(indices))
-
-            fm = _npl.inv(i - q)
+            fm = _gth_solve_transient(self.__p, indices, _np.eye(len(indices)))
 
         return fm
 
diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 4da8907..6e2e44c 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -379,21 +379,17 @@ def mc_mean_first_passage_times_to(mc: _tmc, targets: _olist_int) -> _oarray:
 
     else:
 
-        a = _np.eye(size) - p
-        a[targets, :] = 0.0
-        a[targets, targets] = 1.0
+        solve = _np.setdiff1d(_np.arange(size, dtype=int), targets)
 
-        b = _np.ones(size, dtype=float)
-        b[targets] = 0.0
-
-        mfptt = _npl.solve(a, b)
+        mfptt = _np.zeros(size, dtype=float)
+        mfptt[solve] = _gth_solve_transient(p, solve, _np.ones(solve.size, dtype=float))
 
     return mfptt
 
 
 def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
-    p, size, states, cm = mc.p, mc.size, mc.states, mc.communication_matrix
+    p, size, states = mc.p, mc.size, mc.states
 
     ccis = [[*map(states.index, communicating_class)] for communicating_class in mc.communicating_classes]
     closed_states = [True] * size
@@ -415,34 +411,11 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
         for i in cci:
             closed_states[i] = closed
 
-    hp = _np.zeros((size, size), dtype=float)
-
-    for j in range(size):
-
-        a = _np.copy(p)
-        b = -a[:, j]
-
-        for i in range(size):
-            a[i, j] = 0.0
-            a[i, i] -= 1.0
-
-        for i in range(size):
-
-            if not closed_states[i]:
-                continue
+    transient = _np.flatnonzero(~_np.array(closed_states))
+    n = _gth_solve_transient(p, transient, _np.eye(transient.size))
 
-            for k in range(size):
-                if k == i:
-                    a[i, i] = 1.0
-                else:
-                    a[i, k] = 0.0
-
-            if cm[i, j] == 1:
-                b[i] = 1.0
-            else:
-                b[i] = 0.0
-
-        hp[:, j] = _npl.solve(a, b)
+    visits = _np.zeros((size, size), dtype=float)
+    visits[_np.ix_(transient, transient)] = _np.dot(p[_np.ix_(transient, transient)], n)
 
     mnv = _np.zeros((size, size), dtype=float)
     accessible = _np.dot(p, mc.accessibility_matrix) > 0.0
@@ -451,11 +424,6 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
 
         ct1 = closed_states[j]
 
-        if ct1:
-            z = _np.nan
-        else:
-            z = 1.0 / (1.0 - hp[j, j])
-
         for i in range(size):
 
             if not accessible[i, j]:
@@ -463,7 +431,7 @@ def mc_mean_number_visits(mc: _tmc) -> _oarray:
             elif ct1:
                 mnv[i, j] = _np.inf
             else:
-                mnv[i, j] = hp[i, j] * z
+                mnv[i, j] = visits[i, j]
 
     return mnv
 
-- 
2.43.0


From dd192fd2315db1ac1369ab2857df98382d3c45a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 58/61] fix: accept masks whose complete rows sum to one up to
 rounding

---
 pydtmc/validation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pydtmc/validation.py b/pydtmc/validation.py
index 7ae6a1e..18892ef 100644
--- a/pydtmc/validation.py
+++ b/pydtmc/validation.py
@@ -661,7 +661,9 @@ def validate_mask(value: _tany, rows: int, columns: int) -> _tarray:
     if not all(_np.isnan(x) or (_np.isfinite(x) and _np.isreal(x) and 0.0 <= x <= 1.0) for _, x in _np.ndenumerate(value)):
         raise ValueError('The "@arg@" parameter can contain only NaNs and finite real values between 0.0 and 1.0.')
 
-    if _np.any(_np.nansum(value, axis=1, dtype=float) > 1.0):
+    sums = _np.nansum(value, axis=1, dtype=float)
+
+    if _np.any((sums > 1.0) & ~_np.isclose(sums, 1.0)):
         raise ValueError('The "@arg@" parameter row sums must not exceed 1.')
 
     return value
-- 
2.43.0


From e170001ea18f1f19e22a4aa74d706ee765d5e711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 59/61] fix: do not place the zeros of a random hidden Markov
 model into the complete rows of the mask

---
 pydtmc/generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pydtmc/generators.py b/pydtmc/generators.py
index 2b93e2c..18c5689 100644
--- a/pydtmc/generators.py
+++ b/pydtmc/generators.py
@@ -121,7 +121,7 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
                 j = columns[rng.randint(0, _np.sum(row).item())]
                 pm_mask_internal[i, j] = _np.inf
 
-        pm_mask_unassigned = _np.isnan(pm_mask_internal)
+        pm_mask_unassigned = _np.isnan(pm_mask_internal) & ~pm_full_rows[:, _np.newaxis]
         indices_unassigned = _np.flatnonzero(pm_mask_unassigned)
 
         r = rng.permutation(pm_zeros_required)
@@ -134,6 +134,7 @@ def hmm_random(rng: _trand, n: int, k: int, p_zeros: int, p_mask: _tarray, e_zer
         m = _np.copy(pm_mask_internal)
         m_unassigned = _np.isnan(pm_mask_internal)
         m[m_unassigned] = _np.ravel(rng.rand(1, _np.sum(m_unassigned, dtype=int).item()))
+        m[m_unassigned & pm_full_rows[:, _np.newaxis]] = 0.0
 
         for i in rows_range:
 
-- 
2.43.0


From 3c23088d387e8f43a55ddd6773f0a832be33dc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 60/61] fix: keep the rows of a chain of a very large order
 normalized

---
 pydtmc/markov_chain.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pydtmc/markov_chain.py b/pydtmc/markov_chain.py
index d67f4e5..a8558f5 100644
--- a/pydtmc/markov_chain.py
+++ b/pydtmc/markov_chain.py
@@ -2058,8 +2058,19 @@ class MarkovChain(_Model):
         except Exception as ex:  # pragma: no cover
             raise _create_validation_error(ex, _ins.trace()) from None
 
-        p = _npl.matrix_power(self.__p, order)
-        p /= _np.sum(p, axis=1, keepdims=True)
+        p, q = None, self.__p / _np.sum(self.__p, axis=1, keepdims=True)
+
+        # the rows are normalized at every step, otherwise the errors of their sums grow with the order
+        while order > 0:
+
+            if order % 2 == 1:
+                p = q if p is None else _np.dot(p, q)
+                p = p / _np.sum(p, axis=1, keepdims=True)
+
+            q = _np.dot(q, q)
+            q /= _np.sum(q, axis=1, keepdims=True)
+            order //= 2
+
         mc = MarkovChain(p, self.__states)
 
         return mc
-- 
2.43.0


From ce530ce2d7010846a481cde9954efdbf805b6bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:32 +0000
Subject: [PATCH 61/61] fix: committor probabilities of nearly decomposable
 chains

The linear system was solved by a factorization which loses the small exit
probabilities: nearly decomposable ergodic chains raised a bare LinAlgError or
returned wrong values. The elimination without subtractions is used instead.
---
 pydtmc/measures.py | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/pydtmc/measures.py b/pydtmc/measures.py
index 6e2e44c..3f332ff 100644
--- a/pydtmc/measures.py
+++ b/pydtmc/measures.py
@@ -144,23 +144,15 @@ def mc_committor_probabilities(mc: _tmc, committor_type: str, states1: _tlist_in
     p, size, pi = mc.p, mc.size, mc.pi[0]
 
     if committor_type == 'backward':
-        a = _np.transpose(pi[:, _np.newaxis] * (p - _np.eye(size)))
+        q, targets = _np.transpose(pi[:, _np.newaxis] * p), states1
     else:
-        a = p - _np.eye(size)
+        q, targets = p, states2
 
-    a[states1, :] = 0.0
-    a[states1, states1] = 1.0
-    a[states2, :] = 0.0
-    a[states2, states2] = 1.0
+    cp = _np.zeros(size, dtype=float)
+    cp[targets] = 1.0
 
-    b = _np.zeros(size, dtype=float)
-
-    if committor_type == 'backward':
-        b[states1] = 1.0
-    else:
-        b[states2] = 1.0
-
-    cp = _npl.solve(a, b)
+    solve = _np.setdiff1d(_np.arange(size, dtype=int), states1 + states2)
+    cp[solve] = _gth_solve_transient(q, solve, _np.sum(q[_np.ix_(solve, targets)], axis=1))
     cp[_np.isclose(cp, 0.0)] = 0.0
 
     return cp
-- 
2.43.0

