From a4730eded92430bd956e28eecfc5c286c3dea790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:13 +0000
Subject: [PATCH 01/53] verif hook: guarded table sizes and RNG seed
 (QDD_VERIF)

---
 include/common.h | 14 ++++++++++++++
 qdd/bindings.cpp |  3 +++
 2 files changed, 17 insertions(+)

diff --git a/include/common.h b/include/common.h
index 88e95c2..2a43739 100644
--- a/include/common.h
+++ b/include/common.h
@@ -26,9 +26,23 @@
 using duration_micro = std::chrono::duration<double, std::micro>;
 
 const std::size_t NQUBITS = 100;
+#ifdef QDD_VERIF
+// Verification builds may shrink the tables, so that bucket collisions, cache
+// evictions and chunk growth happen after a few operations.
+#ifndef QDD_VERIF_NBUCKETS
+#define QDD_VERIF_NBUCKETS 524288
+#endif
+#ifndef QDD_VERIF_ALLOC
+#define QDD_VERIF_ALLOC (1024*2)
+#endif
+const std::size_t NBUCKETS = QDD_VERIF_NBUCKETS;
+const std::size_t INITIAL_ALLOCATION_SIZE = QDD_VERIF_ALLOC;
+const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = QDD_VERIF_ALLOC;
+#else
 const std::size_t NBUCKETS = 524288;
 const std::size_t INITIAL_ALLOCATION_SIZE = 1024*2;
 const std::size_t INITIAL_ALLOCATION_SIZE_CACHE = 1024*8;
+#endif
 const std::size_t GROWTH_FACTOR = 2;
 
 using Qubit = int32_t;
diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 0f8c115..59ee90d 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -293,6 +293,9 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("measureOneCollapsingMPI", _measureOneCollapsingMPI)
         .def("measureOneMPI", _measureOneMPI);
 #endif
+#ifdef QDD_VERIF
+    m.def("_verif_seed", [](uint64_t seed) { mt.seed(seed); });
+#endif
 #ifdef isMT
     m.def("initMT", init_mt).def("terminateMT", terminate_mt);
 #endif
-- 
2.43.0


From 2bdf8b12ad16c84fbe23d92c9fa23d4ba1c4e333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:09 +0000
Subject: [PATCH 02/53] fix: makeLargeGate reads past the end of its target
 list

The index conversion map has one doubling step per target, but the loop ran
once per matrix row: an out-of-bounds read for every matrix, and a map of
2^rows entries (out of memory from five targets on).
---
 src/dd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 8527000..3ef0c10 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -532,7 +532,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         [&targets](size_t a, size_t b) { return targets[a] < targets[b]; });
     std::vector<std::size_t> conversionMap;
     conversionMap.push_back(0);
-    for (int i = 0; i < rows; i++) {
+    for (int i = 0; i < target_compresed.size(); i++) {
         size_t addition = 1 << target_compresed[i];
         int rep = conversionMap.size();
         for (int j = 0; j < rep; j++) {
-- 
2.43.0


From 97e3eee5d93be5ab5881eddc2d3b8a245f2f1fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:23 +0000
Subject: [PATCH 03/53] fix: makeLargeGate permutes the caller's matrix in
 place

Building the same gate twice from one matrix gave two different gates.
---
 src/dd.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 3ef0c10..e089565 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -539,14 +539,11 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
             conversionMap.push_back(conversionMap[j] + addition);
         }
     }
-    // swap rows and columns
-    std::vector<std::vector<std::complex<double>>> g_tmp;
-    for (int i = 0; i < rows; i++) {
-        g_tmp.push_back(g[conversionMap[i]]);
-    }
+    // swap rows and columns (in a copy: g belongs to the caller)
+    ComplexMatrix g_tmp(g);
     for (int i = 0; i < rows; i++) {
         for (int j = 0; j < rows; j++) {
-            g[i][j] = g_tmp[i][conversionMap[j]];
+            g_tmp[i][j] = g[conversionMap[i]][conversionMap[j]];
         }
     }
 
@@ -556,7 +553,7 @@ mEdge makeLargeGate(QubitCount q, ComplexMatrix &g,
         skip[target] = false;
     }
 
-    return makeLargeGate(g, q - 1, 0, rows, 0, cols, skip, target_min);
+    return makeLargeGate(g_tmp, q - 1, 0, rows, 0, cols, skip, target_min);
 }
 mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
                     const std::size_t rowStart, const std::size_t rowEnd,
-- 
2.43.0


From a3eb12543c5644210d33fc90a65d3b20faebc356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:51 +0000
Subject: [PATCH 04/53] fix: states with a small root weight collapse to zero

mv_multiply tested the product of the root weight and the gate against the
zero tolerance.  The root weight of a uniform superposition is 2^(-n/2),
which is below the tolerance from 85 qubits on (the backend accepts 100): the
state became the zero vector and the job failed.
---
 src/dd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index e089565..7c69ab8 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1469,7 +1469,16 @@ vEdge mv_multiply(mEdge lhs, vEdge rhs) {
         return {lhs.w * rhs.w, vNode::terminal};
     }
     LIMIT = rhs.getVar() - MINUS;
+    // The root weight of a state may be smaller than the tolerance (2^(-n/2)
+    // for a uniform superposition): keep it out of the zero tests below.
+    const std_complex root_weight = rhs.w;
+    if (!rhs.w.isZero()) {
+        rhs.w = {1.0, 0.0};
+    }
     vEdge v = mv_multiply2(lhs, rhs, rhs.getVar());
+    if (!root_weight.isZero()) {
+        v.w *= root_weight;
+    }
     //_mCache.hitRatio();
     //_aCache.hitRatio();
     // vUnique.dump();
-- 
2.43.0


From 43b02808bcbe7c175a8599042e08ff2bcb58023c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 05/53] fix: every state vector read leaks 16 * 2^n bytes

getVector returns memory owned by the caller; getEigenVector and the Python
bindings never released it.
---
 qdd/bindings.cpp | 2 ++
 src/dd.cpp       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 59ee90d..b1ff9d3 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -53,6 +53,7 @@ std::vector<std::complex<double>> _getVector(vEdge &rootEdge) {
         std::complex<double> tmp(vec[i].r, vec[i].i);
         result.push_back(tmp);
     }
+    delete[] vec;
     return result;
 }
 
@@ -154,6 +155,7 @@ std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
     for (int i = 0; i < dim; i++) {
         result.push_back(vec[i]);
     }
+    delete[] vec;
 
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
diff --git a/src/dd.cpp b/src/dd.cpp
index 7c69ab8..531b582 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1357,6 +1357,7 @@ VectorXcf vEdge::getEigenVector() {
     for (auto i = 0; i < dim; i++) {
         V(i) = std::complex<double>{v[i].r, v[i].i};
     }
+    delete[] v;
     return V;
 }
 
-- 
2.43.0


From 1d472d091aef3fe28f80e20f830f8941610ab786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 06/53] fix: conditions on a classical register compare the
 wrong bits

Bit k of the condition value belongs to bit k of the register, not to bit k
of the whole circuit: registers after the first one never matched.
---
 qdd/qdd_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 269829b..1efcf1b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -718,9 +718,9 @@ class QddBackend(BackendV1):
                         if val_cbit[self.get_cID(classical)] != str(int(val)):
                             skip = True
                     else:
-                        for clbit in classical:
+                        for pos, clbit in enumerate(classical):
                             idx = self.get_cID(clbit)
-                            if val_cbit[idx] != str((val >> idx) & 1):
+                            if val_cbit[idx] != str((val >> pos) & 1):
                                 skip = True
                                 break
                 if skip:
-- 
2.43.0


From ae3af085432fc34c9051c836b601c3baed67598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 07/53] fix: the condition of a conditional measurement is
 ignored

---
 qdd/qdd_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 1efcf1b..4c807a5 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1098,6 +1098,9 @@ class QddBackend(BackendV1):
                 # (Multi-target measurements (Measure([...], [...]) is decomposed to single-target measurement gates.)
                 clbit_final_values[cargs[0]] = qargs[0]
                 measured_qubits |= set(qargs)
+                if inst.condition is not None:
+                    # whether the measurement takes place depends on the shot
+                    stable_final_state = False
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From 5c5be9edc514138a29b26e211291224c6f143c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:05 +0000
Subject: [PATCH 08/53] fix: numpy integers as shots run a dynamic circuit only
 once

The remaining samples stayed None, and the result could not be read.
---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 4c807a5..8129d49 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -695,7 +695,7 @@ class QddBackend(BackendV1):
                 )
 
         reps = 1
-        if circ_prop.stable_final_state == False and isinstance(options["shots"], int):
+        if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
         prob_cbit = [0] * n_cbit
-- 
2.43.0


From d7a2a7def4a3a8eb752d0becb8fd7b87a253f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 09/53] fix: exact probabilities ignore which classical bit a
 qubit is measured into

With shots=None the outcomes were indexed by all qubits, whatever was
measured where: wrong for permuted, partial and repeated measurements, and
with them the Sampler's exact distributions and the Estimator's exact values.
---
 qdd/qdd_backend.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8129d49..6b3b58b 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1010,6 +1010,18 @@ class QddBackend(BackendV1):
                     if use_mpi == False
                     else pyQDD.probabilitiesMPI(current)
                 )
+                if circ_prop.clbit_final_values:
+                    # report the outcomes as the counts do: over classical bits
+                    qubit_prob, prob = prob, {}
+                    bits = [
+                        (map_after_swap[self.get_qID(qubit)], self.get_cID(cbit))
+                        for cbit, qubit in circ_prop.clbit_final_values.items()
+                    ]
+                    for i, p in enumerate(qubit_prob):
+                        key = sum(((i >> q) & 1) << c for q, c in bits)
+                        prob[key] = prob.get(key, 0.0) + p
+                else:
+                    prob = dict(enumerate(prob))
             else:
                 prob = [1] * (2**n_cbit)
                 for i in range(2**n_cbit):
@@ -1018,10 +1030,8 @@ class QddBackend(BackendV1):
                             prob[i] *= 1 - prob_cbit[j]
                         else:
                             prob[i] *= prob_cbit[j]
-            probabilities = {}
-            for i, p in enumerate(prob):
-                probabilities[i] = p
-            result_data: Dict[str, Any] = {"probabilities": probabilities}
+                prob = dict(enumerate(prob))
+            result_data: Dict[str, Any] = {"probabilities": prob}
             if self._save_SV:
                 result_data["statevector"] = (
                     pyQDD.getVector(current)
-- 
2.43.0


From 97368c17673d45d51aa0a77109325790ed60a723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 10/53] fix: a barrier between measurements makes exact
 probabilities wrong

The barrier made the circuit count as dynamic, for which shots=None multiplies
the marginals of the measured qubits.
---
 qdd/qdd_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 6b3b58b..55e38f0 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -1111,6 +1111,9 @@ class QddBackend(BackendV1):
                 if inst.condition is not None:
                     # whether the measurement takes place depends on the shot
                     stable_final_state = False
+            elif inst.base_class == Barrier:
+                # a barrier does not act on the qubits
+                continue
             elif (
                 inst.condition is not None
                 or any(qubit in measured_qubits for qubit in qargs)
-- 
2.43.0


From dbe1e9d803d5490a0c9cbc4ffd55cddc85e12ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 11/53] fix: unmeasured classical bits read 1 in exact
 probabilities of dynamic circuits

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 55e38f0..e7538da 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -698,7 +698,7 @@ class QddBackend(BackendV1):
         if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
-        prob_cbit = [0] * n_cbit
+        prob_cbit = [1] * n_cbit  # probability of 0 (a classical bit starts as 0)
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
             global_list = sorted(list(global_set))
-- 
2.43.0


From dcd43e36956dfdb9fd05c6856714898cc1ca2092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 12/53] fix: Sampler fails on a parametrised circuit with
 several sets of values

---
 qdd/qdd_sampler.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index 2a2ec1d..c3e6cd4 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -206,15 +206,11 @@ class _ExperimentManager:
         experiment_circuit: QuantumCircuit,
     ):
         """append experiments"""
-        if parameter_bind and key in self.keys:
-            key_index = self.keys.index(key)
-            for k, vs in self.parameter_binds[key_index].items():
-                vs.append(parameter_bind[k])
-            self._input_indices[key_index].append(self._num_experiment)
-        else:
-            self.experiment_circuits.append(experiment_circuit)
-            self.keys.append(key)
-            self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
-            self._input_indices.append([self._num_experiment])
+        # The backend takes one set of parameter values per circuit, so every
+        # input is an experiment of its own.
+        self.experiment_circuits.append(experiment_circuit)
+        self.keys.append(key)
+        self.parameter_binds.append({k: v for k, v in parameter_bind.items()})
+        self._input_indices.append([self._num_experiment])
 
         self._num_experiment += 1
-- 
2.43.0


From f40f1d9587380edc6bed1fab909ef2f2544709bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:52 +0000
Subject: [PATCH 13/53] fix: Estimator(approximation=True) fails without
 run_options

---
 qdd/qdd_estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 936c456..a856b1b 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -113,7 +113,7 @@ class Estimator(BaseEstimator):
         if transpile_options is not None:
             self._transpile_options.update_options(**transpile_options)
         self._approximation = approximation
-        if self._approximation and "shots" in run_options:
+        if self._approximation and run_options and "shots" in run_options:
             self._approximation_shots = run_options["shots"]
         else:
             self._approximation_shots = None
-- 
2.43.0


From 68077f7643d39c313546263205d26fd1d2d836ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:16 +0000
Subject: [PATCH 14/53] fix: Estimator reads the result of another measurement
 basis

Experiments are ordered by basis, but their parameter values and the result
index followed the order in which the observables first used the bases.
---
 qdd/qdd_estimator.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index a856b1b..6d4220a 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -312,7 +312,11 @@ class Estimator(BaseEstimator):
                 else:
                     exp_map[circ_ind][basis_ind] = (parameter, [param_val])
 
-        return exp_map
+        # the order of the experiments (see _flatten)
+        return {
+            circ_ind: dict(sorted(basis_map.items()))
+            for circ_ind, basis_map in exp_map.items()
+        }
 
     @staticmethod
     def _flatten(experiments_dict, exp_map):
@@ -380,7 +384,7 @@ class Estimator(BaseEstimator):
 
         result_index = 0
         for _circ_ind, basis_map in exp_map.items():
-            for _basis_ind, (_, (_, param_vals)) in enumerate(basis_map.items()):
+            for _basis_ind, (_, param_vals) in basis_map.items():
                 if circ_ind == _circ_ind and basis_ind == _basis_ind:
                     result_index += param_vals.index(param_val)
                     return result_index
-- 
2.43.0


From 55f198dc6c172e649fad91ea40f4009a83921554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 15/53] fix: Estimator fails on identity terms and identity
 observables

An identity term got an experiment of its own (without measurement, which the
backend rejects), and an identity observable dropped the experiments of all
later circuits.
---
 qdd/qdd_estimator.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index 6d4220a..e5396dd 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -214,23 +214,26 @@ class Estimator(BaseEstimator):
                 pauli_list = sum(
                     [self._observables[obs_ind].paulis for obs_ind in obs_indices]
                 ).unique()
-                if self._abelian_grouping:
+                # identity terms need no measurement
+                pauli_list = pauli_list[(pauli_list.x | pauli_list.z).any(axis=1)]
+                if self._abelian_grouping and len(pauli_list) > 0:
                     pauli_lists = pauli_list.group_commuting(qubit_wise=True)
                 else:
                     pauli_lists = [PauliList(pauli) for pauli in pauli_list]
                 obs_map = defaultdict(list)
                 for obs_ind in obs_indices:
                     for pauli in self._observables[obs_ind].paulis:
+                        if not pauli.x.any() and not pauli.z.any():
+                            obs_map[obs_ind].append(None)
+                            continue
                         for basis_ind, pauli_list in enumerate(pauli_lists):
                             if pauli in pauli_list:
                                 obs_map[obs_ind].append(basis_ind)
                                 break
                 obs_maps[circ_ind] = obs_map
                 bases = [_paulis2basis(pauli_list) for pauli_list in pauli_lists]
-                if (
-                    len(bases) == 1 and not bases[0].x.any() and not bases[0].z.any()
-                ):  # identity
-                    break
+                if not bases:  # identity only
+                    continue
                 meas_circuits = [
                     self._create_meas_circuit(basis, circ_ind) for basis in bases
                 ]
@@ -301,6 +304,8 @@ class Estimator(BaseEstimator):
             self._validate_parameter_length(param_val, circ_ind)
             parameter = self._parameters[circ_ind]
             for basis_ind in obs_maps[circ_ind][obs_ind]:
+                if basis_ind is None:
+                    continue
                 if (
                     circ_ind in exp_map
                     and basis_ind in exp_map[circ_ind]
-- 
2.43.0


From 041f3d27879ba657db63b667438c603f2273921e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:38 +0000
Subject: [PATCH 16/53] fix: merge_circuit fails on unitary gates

---
 qdd/qdd_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index e7538da..73f7cef 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -481,7 +481,7 @@ class QddBackend(BackendV1):
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qiskit_gates_unitary:
                     matrix = i.to_matrix()
-                    targets = qargs
+                    targets = [self.get_qID(qarg) for qarg in qargs]
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-- 
2.43.0


From 77d087be8c5fdad1970a875e4e5fa889a410cba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 17/53] fix: merge_circuit silently drops resets, conditions
 and unsupported gates

---
 qdd/qdd_backend.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 73f7cef..f63d185 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -437,6 +437,10 @@ class QddBackend(BackendV1):
             if qiskit_gate_type == Measure:
                 continue
             assert len(cargs) == 0
+            if i.condition is not None:
+                raise RuntimeError(
+                    "Conditional instructions cannot be merged into a gate."
+                )
 
             if qiskit_gate_type in _supported_qiskit_gates:
                 if qiskit_gate_type in _qiskit_gates_1q:
@@ -493,6 +497,12 @@ class QddBackend(BackendV1):
                         f" type={qiskit_gate_type.__name__}, name={i.name}."
                         f" It needs to transpile the circuit before evaluating it."
                     )
+            else:
+                raise RuntimeError(
+                    f"Unsupported gate or instruction:"
+                    f" type={qiskit_gate_type.__name__}, name={i.name}."
+                    f" It needs to transpile the circuit before merging it."
+                )
 
             count += 1
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
-- 
2.43.0


From 2ad68f4a52ea8ff1b073f3ac683c5f4fe46c4efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:15 +0000
Subject: [PATCH 18/53] fix: a merged gate ignores the qubits it is appended to

It always acted on qubits 0..k-1 in order.
---
 qdd/qdd_backend.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index f63d185..291cab1 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -421,6 +421,18 @@ class QddBackend(BackendV1):
     def get_cID(self, cbit):
         return self.cbitmap[cbit]
 
+    def _place_qdd_gate(self, gate, n_qubit, targets):
+        """Moves the k-th qubit of a merged gate to targets[k]."""
+        where = list(range(n_qubit))
+        for k, target in enumerate(targets):
+            source = where[k]
+            if source != target:
+                swap = pyQDD.SWAP(n_qubit, source, target)
+                gate = pyQDD.mm_multiply(swap, pyQDD.mm_multiply(gate, swap))
+                where[where.index(target)] = source
+                where[k] = target
+        return gate
+
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
@@ -489,7 +501,9 @@ class QddBackend(BackendV1):
                     gate = pyQDD.unitary(n_qubit, matrix, targets)
                     current = pyQDD.mm_multiply(gate, current)
                 elif qiskit_gate_type in _qdd_gate:
-                    gate = i.params[0]
+                    gate = self._place_qdd_gate(
+                        i.params[0], n_qubit, [self.get_qID(q) for q in qargs]
+                    )
                     current = pyQDD.mm_multiply(gate, current)
                 else:
                     raise RuntimeError(
@@ -893,6 +907,9 @@ class QddBackend(BackendV1):
                             current, map_after_swap = self.restore_swap(
                                MPI, current, circ, map_after_swap, use_bcast
                             )
+                        gate = self._place_qdd_gate(
+                            gate, n_qubit, [map_after_swap[self.get_qID(q)] for q in qargs]
+                        )
                         current = (pyQDD.mv_multiply(gate, current) if use_mpi == False
                              else (pyQDD.mv_multiply_MPI(gate, current, n_qubit, max([map_after_swap[self.get_qID(i)] for i in qargs]),) if use_bcast == False
                              else pyQDD.mv_multiply_MPI_bcast(gate, current, n_qubit, max([map_after_swap[self.get_qID(i)] for i in qargs]),)))
-- 
2.43.0


From fa84d7139c892db32aba839b18c1130f822bce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 19/53] fix: distributed gates that leave the top qubits alone
 are split wrongly

---
 include/dd.h |  1 +
 src/dd.cpp   | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 500ed13..1afc69c 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -455,6 +455,7 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level, const std::size_t rowSt
                     const std::size_t colStart, const std::size_t colEnd, const std::vector<bool> skip, const Qubit target_min);
 
 mEdge getMPIGate(mEdge root, int row, int col, int world_size);
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level);
 
 mEdge mm_add(const mEdge &lhs, const mEdge &rhs);
 mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs);
diff --git a/src/dd.cpp b/src/dd.cpp
index 531b582..1617d42 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -599,7 +599,11 @@ mEdge makeLargeGate(ComplexMatrix &g, const Qubit level,
 
 #ifdef isMPI
 mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
-    if (root.isTerminal() || world_size <= 1) {
+    return getMPIGate(root, row, col, world_size, root.getVar());
+}
+
+mEdge getMPIGate(mEdge root, int row, int col, int world_size, Qubit level) {
+    if (world_size <= 1) {
         return root;
     }
 
@@ -621,9 +625,15 @@ mEdge getMPIGate(mEdge root, int row, int col, int world_size) {
     if (col >= border) {
         index += 1;
     }
-    mEdge tmp = root.getNode()->children[index];
-    tmp.w *= root.w;
-    return getMPIGate(tmp, row % border, col % border, border);
+    mEdge tmp;
+    if (root.isTerminal() || root.getVar() < level) {
+        // The gate is the identity on this level.
+        tmp = (index == 0 || index == 3) ? root : mEdge::zero;
+    } else {
+        tmp = root.getNode()->children[index];
+        tmp.w *= root.w;
+    }
+    return getMPIGate(tmp, row % border, col % border, border, level - 1);
 }
 #endif
 
@@ -684,7 +694,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     std::unordered_map<vNode *, int> rhs_map;
 
     send_data.first = rhs.w;
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -702,7 +712,7 @@ vEdge mv_multiply_MPI(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         send_reqs.push_back(world.isend(right_neighbor, i, send_data));
         world.recv(left_neighbor, i, recv_data);
         int col = (row - i + world.size()) % small_world_size + offset;
-        gate = getMPIGate(lhs, row, col, world_size);
+        gate = getMPIGate(lhs, row, col, world_size, total_qubits - 1);
         // bmpi::wait_all(std::begin(recv_reqs), std::end(recv_reqs));
         vEdge received = {recv_data.first,
                           vec_to_vNode(recv_data.second, vUnique)};
@@ -824,7 +834,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
     int right_neighbor = (world.rank() + 1) % world_size;
 
     // calculate initial result
-    mEdge gate = getMPIGate(lhs, row, row, world_size);
+    mEdge gate = getMPIGate(lhs, row, row, world_size, total_qubits - 1);
     vEdge result = mv_multiply(gate, rhs);
     if (largest_qubit < total_qubits - int(log2(world_size))) {
         return result;
@@ -842,7 +852,7 @@ vEdge mv_multiply_MPI_bcast3(mEdge lhs, vEdge rhs, bmpi::communicator &world,
         } else {
             std::pair<std_complex, std::vector<vContent>> recv_data;
             bmpi::broadcast(world, recv_data, i);
-            gate = getMPIGate(lhs, row, i, world_size);
+            gate = getMPIGate(lhs, row, i, world_size, total_qubits - 1);
             vEdge received = {recv_data.first,
                               vec_to_vNode(recv_data.second, vUnique)};
             result = vv_add(result, mv_multiply(gate, received));
-- 
2.43.0


From 325721895e969e66fe2e08922ef4eb98fb9dd296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 20/53] fix: measuring a qubit held across ranks uses the wrong
 rank bit

---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 1617d42..29d5245 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1757,7 +1757,7 @@ char measureOneCollapsingMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
@@ -1828,7 +1828,7 @@ double measureOneMPI(bmpi::communicator &world, vEdge &rootEdge,
     double p_each = assignProbabilities(rootEdge);
 
     if (index >= local_size) {
-        int id = (rank << index) & (1 << index);
+        int id = (rank >> (index - local_size)) & 1;
         if (id == 0) {
             pzero = p_each;
         } else {
-- 
2.43.0


From 641747850baa36458e923e74f31ce9c5ae634a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 21/53] fix: ranks with a zero part of the state shorten
 distributed results

---
 qdd/bindings.cpp | 4 ++++
 src/dd.cpp       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index b1ff9d3..06c14f1 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -157,6 +157,10 @@ std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
     }
     delete[] vec;
 
+    // A rank whose part of the state is zero holds no nodes.
+    result.resize(bmpi::all_reduce(_world, result.size(),
+                                   bmpi::maximum<std::size_t>()));
+
     std::vector<std::vector<std_complex>> all_results;
     bmpi::all_gather(_world, result, all_results);
 
diff --git a/src/dd.cpp b/src/dd.cpp
index 29d5245..9403a2d 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1564,6 +1564,11 @@ std::vector<double> probabilitiesMPI(bmpi::communicator &world,
                       num = num * each_prob / all_prob;
                   });
 
+    // A rank whose part of the state is zero holds no nodes.
+    const std::size_t each_size = bmpi::all_reduce(
+        world, each_result.size(), bmpi::maximum<std::size_t>());
+    each_result.resize(each_size, 0.0);
+
     std::vector<std::vector<double>> all_result;
     bmpi::all_gather(world, each_result, all_result);
     auto final_result = flatten(all_result);
-- 
2.43.0


From feddd3fc6af021e95bf7ec0f804636a365b6d6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 22/53] fix: a state loaded from a file has lost its root
 weight

---
 src/dd.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 9403a2d..049e620 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2194,6 +2194,7 @@ void save_binary(vEdge edge, std::string file_name) {
     std::ofstream binary_ofs(file_name);
     boost::archive::binary_oarchive binary_oa(binary_ofs);
     binary_oa << v;
+    binary_oa << edge.w;
     binary_ofs.close();
     std::cout << "nNodes=" << nNodes << std::endl;
 }
@@ -2203,8 +2204,10 @@ vEdge load_binary(std::string file_name) {
     std::ifstream binary_ifs(file_name);
     boost::archive::binary_iarchive binary_ia(binary_ifs);
     binary_ia >> v;
+    std_complex w;
+    binary_ia >> w;
     binary_ifs.close();
-    vEdge result = {{1.0, 0.0}, vec_to_vNode(v, vUnique)};
+    vEdge result = {w, vec_to_vNode(v, vUnique)};
     return result;
 }
 #endif
-- 
2.43.0


From 8a724d2d8d70409ae1834721a03526b3d2c087fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:29 +0000
Subject: [PATCH 23/53] fix: text archives of a state lose the terminal node

---
 include/dd.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/dd.h b/include/dd.h
index 1afc69c..82cacfc 100644
--- a/include/dd.h
+++ b/include/dd.h
@@ -152,7 +152,13 @@ struct vEdge {
     template <class Archive>
     void serialize(Archive &ar, const unsigned int version) {
         ar &w;
-        ar &n;
+        // The terminal node is one static object: it is not copied.
+        bool terminal = isTerminal();
+        ar &terminal;
+        if (terminal)
+            n = zero.n;
+        else
+            ar &n;
     }
 #endif
 
@@ -227,7 +233,13 @@ struct mEdge {
     template <class Archive>
     void serialize(Archive &ar, const unsigned int version) {
         ar &w;
-        ar &n;
+        // The terminal node is one static object: it is not copied.
+        bool terminal = isTerminal();
+        ar &terminal;
+        if (terminal)
+            n = zero.n;
+        else
+            ar &n;
     }
 #endif
 
-- 
2.43.0


From ac5d215235bd82a7802d503375f668e6e44a8140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 24/53] fix: products of matrices with small root weights
 collapse to zero

---
 src/dd.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 049e620..1b689c0 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1054,8 +1054,15 @@ mEdge mm_multiply(const mEdge &lhs, const mEdge &rhs) {
         return {lhs.w * rhs.w, mNode::terminal};
     }
 
+    // As in mv_multiply, small root weights (2^(-n/2) for n Hadamard gates)
+    // are kept out of the zero tests.
+    const std_complex root_weight = lhs.w * rhs.w;
+    if (root_weight.isZero()) {
+        return mEdge::zero;
+    }
     Qubit root = rootVar(lhs, rhs);
-    mEdge result = mm_multiply2(lhs, rhs, root);
+    mEdge result = mm_multiply2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n}, root);
+    result.w *= root_weight;
     return result;
 }
 
-- 
2.43.0


From 1568b3cfae330b0accf9e38cc97df044c7c771ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 25/53] fix: Kronecker products with small root weights
 collapse to zero

---
 src/dd.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 1b689c0..c69dc6d 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1113,7 +1113,15 @@ mEdge mm_kronecker(const mEdge &lhs, const mEdge &rhs) {
         return {lhs.w * rhs.w, mNode::terminal};
     }
 
-    return mm_kronecker2(lhs, rhs);
+    // As in mv_multiply, small root weights are kept out of the zero tests.
+    const std_complex root_weight = lhs.w * rhs.w;
+    if (root_weight.isZero()) {
+        return mEdge::zero;
+    }
+    mEdge result =
+        mm_kronecker2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n});
+    result.w *= root_weight;
+    return result;
 }
 
 vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
@@ -1236,7 +1244,15 @@ vEdge vv_kronecker(const vEdge &lhs, const vEdge &rhs) {
         return {lhs.w * rhs.w, vNode::terminal};
     }
 
-    return vv_kronecker2(lhs, rhs);
+    // As in mv_multiply, small root weights are kept out of the zero tests.
+    const std_complex root_weight = lhs.w * rhs.w;
+    if (root_weight.isZero()) {
+        return vEdge::zero;
+    }
+    vEdge result =
+        vv_kronecker2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n});
+    result.w *= root_weight;
+    return result;
 }
 
 void vEdge::printVector() const {
-- 
2.43.0


From 83924cee1fc95ef6aef234ee5901adb93d33ebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 26/53] fix: applying a matrix with a small root weight gives
 the zero vector

---
 src/dd.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index c69dc6d..0c197ce 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1503,16 +1503,15 @@ vEdge mv_multiply(mEdge lhs, vEdge rhs) {
         return {lhs.w * rhs.w, vNode::terminal};
     }
     LIMIT = rhs.getVar() - MINUS;
-    // The root weight of a state may be smaller than the tolerance (2^(-n/2)
-    // for a uniform superposition): keep it out of the zero tests below.
-    const std_complex root_weight = rhs.w;
-    if (!rhs.w.isZero()) {
-        rhs.w = {1.0, 0.0};
-    }
-    vEdge v = mv_multiply2(lhs, rhs, rhs.getVar());
-    if (!root_weight.isZero()) {
-        v.w *= root_weight;
+    // The root weights may be smaller than the tolerance (2^(-n/2) for a
+    // uniform superposition): keep them out of the zero tests below.
+    const std_complex root_weight = lhs.w * rhs.w;
+    if (root_weight.isZero()) {
+        return vEdge::zero;
     }
+    vEdge v = mv_multiply2({{1.0, 0.0}, lhs.n}, {{1.0, 0.0}, rhs.n},
+                           rhs.getVar());
+    v.w *= root_weight;
     //_mCache.hitRatio();
     //_aCache.hitRatio();
     // vUnique.dump();
-- 
2.43.0


From 671acd6b3c0e19764576656aae80b4c0b8bcaee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 27/53] fix: sums with small root weights lose their operands

---
 src/dd.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 0c197ce..da3aa2f 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -951,8 +951,16 @@ mEdge mm_add(const mEdge &lhs, const mEdge &rhs) {
         return {lhs.w + rhs.w, mNode::terminal};
     }
 
-    Qubit root = rootVar(lhs, rhs);
-    return mm_add2(lhs, rhs, root);
+    // Only the ratio of the root weights matters: small ones (2^(-n/2) for a
+    // uniform superposition) are kept out of the zero tests.
+    const std_complex scale = norm2(lhs.w) < norm2(rhs.w) ? rhs.w : lhs.w;
+    if (scale.isZero()) {
+        return mEdge::zero;
+    }
+    mEdge result = mm_add2({lhs.w / scale, lhs.n}, {rhs.w / scale, rhs.n},
+                           rootVar(lhs, rhs));
+    result.w *= scale;
+    return result;
 }
 
 mEdge mm_multiply2(const mEdge &lhs, const mEdge &rhs, int32_t current_var) {
@@ -1212,7 +1220,16 @@ vEdge vv_add(const vEdge &lhs, const vEdge &rhs) {
         return {lhs.w + rhs.w, vNode::terminal};
     }
 
-    return vv_add2(lhs, rhs, rhs.getVar());
+    // Only the ratio of the root weights matters: small ones (2^(-n/2) for a
+    // uniform superposition) are kept out of the zero tests.
+    const std_complex scale = norm2(lhs.w) < norm2(rhs.w) ? rhs.w : lhs.w;
+    if (scale.isZero()) {
+        return vEdge::zero;
+    }
+    vEdge result = vv_add2({lhs.w / scale, lhs.n}, {rhs.w / scale, rhs.n},
+                           rhs.getVar());
+    result.w *= scale;
+    return result;
 }
 
 vEdge vv_kronecker2(const vEdge &lhs, const vEdge &rhs) {
-- 
2.43.0


From 378e663c7f20e274197feb511c75b7ed65d89191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:13 +0000
Subject: [PATCH 28/53] fix: a migrated fiber writes to the operation cache of
 another thread

---
 src/dd.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index da3aa2f..9be88f1 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1210,7 +1210,12 @@ vEdge vv_add2(const vEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 #endif
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    // This fiber may have been resumed by another thread.
+    _aCaches.local().set(lhs, rhs, result);
+#else
     _aCache.set(lhs, rhs, result);
+#endif
 
     return result;
 }
@@ -1504,7 +1509,12 @@ vEdge mv_multiply2(const mEdge &lhs, const vEdge &rhs, int32_t current_var) {
     }
 
     result = makeVEdge(current_var, edges);
+#if defined(isMT) && !defined(CACHE_GLOBAL)
+    // This fiber may have been resumed by another thread.
+    _mCaches.local().set(lhs.n, rhs.n, result);
+#else
     _mCache.set(lhs.n, rhs.n, result);
+#endif
     result.w = result.w * lhs.w * rhs.w;
     if (result.w.isApproximatelyZero()) {
         return vEdge::zero;
-- 
2.43.0


From dc325d38cadc1c08848204f5b05747b27fafeacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:48 +0000
Subject: [PATCH 29/53] fix: a second multi-threaded job indexes past the list
 of schedulers

---
 include/task.h |  8 ++++++--
 src/task.cpp   | 17 +++++++++--------
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/include/task.h b/include/task.h
index 36ab95e..0c4c04e 100644
--- a/include/task.h
+++ b/include/task.h
@@ -7,9 +7,11 @@
 #include <boost/fiber/mutex.hpp>
 #include <boost/fiber/condition_variable.hpp>
 #include <boost/fiber/algo/algorithm.hpp>
+#include <boost/fiber/detail/thread_barrier.hpp>
 #include "wsq.hpp"
 #include <thread>
 #include <atomic>
+#include <memory>
 #include <vector>
 #include "dd.h"
 #include "table.hpp"
@@ -25,6 +27,7 @@ class my_ws : public algorithm {
 private:
     static std::atomic< std::uint32_t >                     counter_;
     static std::vector< intrusive_ptr< my_ws > >    schedulers_;
+    static std::unique_ptr< boost::fibers::detail::thread_barrier > barrier_;
 
     std::uint32_t                                           id_;
     std::uint32_t                                           thread_count_;
@@ -41,10 +44,11 @@ private:
     bool                                                    flag_{ false };
     bool                                                    suspend_;
 
-    static void init_( std::uint32_t, std::vector< intrusive_ptr< my_ws > > &);
-
 public:
 
+    // Call before thread_count threads register themselves.
+    static void init( std::uint32_t thread_count);
+
     my_ws( std::uint32_t, bool = false);
 
     my_ws( my_ws const&) = delete;
diff --git a/src/task.cpp b/src/task.cpp
index fb776a6..35754b5 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -23,21 +23,20 @@ namespace algo {
 std::atomic<std::uint32_t> my_ws::counter_{0};
 std::vector<intrusive_ptr<my_ws>> my_ws::schedulers_{};
 
-void my_ws::init_(std::uint32_t thread_count,
-                  std::vector<intrusive_ptr<my_ws>> &schedulers) {
+std::unique_ptr<boost::fibers::detail::thread_barrier> my_ws::barrier_{};
+
+void my_ws::init(std::uint32_t thread_count) {
+    counter_ = 0;
     // resize array of schedulers to thread_count, initilized with nullptr
-    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers);
+    std::vector<intrusive_ptr<my_ws>>{thread_count, nullptr}.swap(schedulers_);
+    barrier_.reset(new boost::fibers::detail::thread_barrier{thread_count});
 }
 
 my_ws::my_ws(std::uint32_t thread_count, bool suspend)
     : id_{counter_++}, thread_count_{thread_count}, suspend_{suspend} {
-    static boost::fibers::detail::thread_barrier b{thread_count};
-    // initialize the array of schedulers
-    static std::once_flag flag;
-    std::call_once(flag, &my_ws::init_, thread_count_, std::ref(schedulers_));
     // register pointer of this scheduler
     schedulers_[id_] = this;
-    b.wait();
+    barrier_->wait();
 }
 
 void my_ws::awakened(context *ctx) noexcept {
@@ -113,6 +112,8 @@ void my_ws::notify() noexcept {
 }  // namespace boost
 
 void Scheduler::spawn() {
+    boost::fibers::algo::my_ws::init(_nworkers + 1);
+
     for (int i = 0; i < _nworkers; i++) {
         _workers[i]._id = i;
         _workers[i]._sched = this;
-- 
2.43.0


From 930edcb33aa98a4885aa527316fa67cc904e18db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 30/53] fix: concurrent Sampler and Estimator jobs free each
 other's states

---
 qdd/qdd_backend.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 291cab1..6453bbe 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -6,6 +6,7 @@ import uuid
 import dataclasses
 from collections import Counter
 from warnings import warn
+import threading
 import time
 
 from qiskit.providers import BackendV1, JobV1, Options, Provider
@@ -27,6 +28,10 @@ from .circuit_property import CircuitProperty
 from qdd import pyQDD
 import math
 
+# The decision diagrams of a process share one set of tables: jobs which the
+# primitives start in threads of their own run one after another.
+_engine_lock = threading.RLock()
+
 _qiskit_gates_1q_0param: Dict = {
     qiskit_gates.HGate: "H",
     qiskit_gates.IGate: "I",
@@ -372,6 +377,10 @@ class QddBackend(BackendV1):
 
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
+        with _engine_lock:
+            return self._run_experiment_locked(experiments, job_id)
+
+    def _run_experiment_locked(self, experiments, job_id) -> Result:
         if experiments.options["n_threads"] > 1:
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
@@ -434,6 +443,10 @@ class QddBackend(BackendV1):
         return gate
 
     def merge_circuit(self, circ: QiskitCircuit, gc_freq=20):
+        with _engine_lock:
+            return self._merge_circuit_locked(circ, gc_freq)
+
+    def _merge_circuit_locked(self, circ: QiskitCircuit, gc_freq):
         n_qubit = circ.num_qubits
         n_cbit = circ.num_clbits
         self._create_qubitmap(circ)
-- 
2.43.0


From 58be3ed2ee02d78cbe7bb0057f51685ec2b6ecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 31/53] fix: merging a circuit frees the gates merged before

---
 qdd/bindings.cpp   | 14 ++++++++++++++
 qdd/qdd_backend.py |  7 ++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 06c14f1..f9195e1 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -93,6 +93,19 @@ mEdge applyGlobal(mEdge org, double angle){
     return result;
 }
 
+// Collects garbage; the kept edges are updated in place.
+mEdge gc_mat_keep(mEdge mat, const std::vector<mEdge *> &kept, bool force) {
+    std::vector<mEdge> mats = {mat};
+    for (mEdge *k : kept) {
+        mats.push_back(*k);
+    }
+    mats = gc_mat(mats, force);
+    for (std::size_t i = 0; i < kept.size(); i++) {
+        *kept[i] = mats[i + 1];
+    }
+    return mats[0];
+}
+
 vEdge applyGlobal(vEdge org, double angle){
     vEdge result = org;
     Complex e = {std::cos(angle), std::sin(angle)};
@@ -222,6 +235,7 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("gc", py::overload_cast<vEdge, bool>(&gc))
         .def("gc_mat", py::overload_cast<std::vector<mEdge>, bool>(&gc_mat))
         .def("gc_mat", py::overload_cast<mEdge, bool>(&gc_mat))
+        .def("gc_mat_keep", gc_mat_keep)
         .def("set_gc_thr", set_gc_thr);
     m.def("applyGlobal", py::overload_cast<mEdge, double>(&applyGlobal))
      .def("applyGlobal", py::overload_cast<vEdge, double>(&applyGlobal));
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 6453bbe..67b5427 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -8,6 +8,7 @@ from collections import Counter
 from warnings import warn
 import threading
 import time
+import weakref
 
 from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
@@ -32,6 +33,9 @@ import math
 # primitives start in threads of their own run one after another.
 _engine_lock = threading.RLock()
 
+# Merged gates which are still in use: garbage collection keeps them.
+_merged_gates = weakref.WeakSet()
+
 _qiskit_gates_1q_0param: Dict = {
     qiskit_gates.HGate: "H",
     qiskit_gates.IGate: "I",
@@ -535,9 +539,10 @@ class QddBackend(BackendV1):
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
                 print(count,"/",len(circ.data))
             if count%gc_freq==0:
-                current = pyQDD.gc_mat(current, False)
+                current = pyQDD.gc_mat_keep(current, list(_merged_gates), False)
             # pyQDD.clear_cache(False)
         current = pyQDD.applyGlobal(current, circ.global_phase)
+        _merged_gates.add(current)
         return current
 
     def get_initial_qmap(self, num_qubits, size_global):
-- 
2.43.0


From d9f4e11f7ef24c28880cd7e97950232e3eed2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:02 +0000
Subject: [PATCH 32/53] fix: stopping the workers before they wait hangs
 forever

---
 include/task.h | 1 +
 src/task.cpp   | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/task.h b/include/task.h
index 0c4c04e..4562ece 100644
--- a/include/task.h
+++ b/include/task.h
@@ -104,5 +104,6 @@ private:
 
     boost::fibers::condition_variable_any cond_stop;
     boost::fibers::mutex mtx_stop;
+    bool stop = false;
 };
 
diff --git a/src/task.cpp b/src/task.cpp
index 35754b5..4307eb8 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -124,7 +124,7 @@ void Scheduler::spawn() {
                     boost::fibers::algo::my_ws>(this->_nworkers + 1);
                 {
                     std::unique_lock<boost::fibers::mutex> lk(this->mtx_stop);
-                    this->cond_stop.wait(lk);
+                    this->cond_stop.wait(lk, [this] { return this->stop; });
                 }
             },
             i);
@@ -155,9 +155,14 @@ Scheduler::Scheduler(int n) : _nworkers(n) {
 }
 
 Scheduler::~Scheduler() {
+    {
+        std::unique_lock<boost::fibers::mutex> lk(mtx_stop);
+        stop = true;
+    }
     cond_stop.notify_all();
 
     for (WorkerThread &w : _workers) {
         w._thread->join();
+        delete w._thread;
     }
 }
-- 
2.43.0


From 172181bfb94d544f33c49d7a86890665c7caffa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 33/53] fix: more threads than CPUs end the process

---
 src/task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task.cpp b/src/task.cpp
index 4307eb8..0c101b2 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -137,8 +137,8 @@ void Scheduler::spawn() {
         CPU_SET(i, &cpuset);
         if (pthread_setaffinity_np(_workers[i]._thread->native_handle(),
                                    sizeof(cpu_set_t), &cpuset)) {
+            // No such CPU here: the worker runs wherever it is scheduled.
             std::cout << "pthread_setaffinity_np failed" << std::endl;
-            exit(1);
         }
     }
 #endif
-- 
2.43.0


From d95824ec147ef3c2b43ab95312870bad589ca436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 34/53] Verification hook: choose the fiber depth under
 QDD_VERIF

---
 src/dd.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/dd.cpp b/src/dd.cpp
index 9be88f1..96a60db 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -55,8 +55,18 @@ AddCache _aCache(NQUBITS);
 MulCache _mCache(NQUBITS);
 #endif
 
+#ifdef QDD_VERIF
+// Verification builds choose how many levels are split into fibers, and apply
+// operators from several plain threads at once.
+#ifndef QDD_VERIF_FIBER_LEVELS
+#define QDD_VERIF_FIBER_LEVELS 6
+#endif
+static std::atomic<int> LIMIT{10000};
+const int MINUS = QDD_VERIF_FIBER_LEVELS;
+#else
 static int LIMIT = 10000;
 const int MINUS = 6;
+#endif
 
 static mEdge normalizeM(const mEdge &e) {
     // check for all zero weights
-- 
2.43.0


From f7c80041bd59dad600a681d80f19f3f951c02da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 35/53] Verification hook: count stolen fibers under QDD_VERIF

---
 src/task.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/task.cpp b/src/task.cpp
index 0c101b2..46fd8b7 100644
--- a/src/task.cpp
+++ b/src/task.cpp
@@ -16,6 +16,11 @@
 
 using namespace std::chrono_literals;
 
+#ifdef QDD_VERIF
+// Verification builds count the fibers taken from another worker.
+std::atomic<unsigned long> qdd_verif_steals{0};
+#endif
+
 namespace boost {
 namespace fibers {
 namespace algo {
@@ -75,6 +80,9 @@ context *my_ws::pick_next() noexcept {
             victim = schedulers_[id]->steal();
         } while (nullptr == victim && count < size);
         if (nullptr != victim) {
+#ifdef QDD_VERIF
+            ++qdd_verif_steals;
+#endif
             boost::context::detail::prefetch_range(victim, sizeof(context));
             BOOST_ASSERT(!victim->is_context(type::pinned_context));
             context::active()->attach(victim);
-- 
2.43.0


From c91f50665eb572551b0885e13fec4dd5bb0fda79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 36/53] fix: adjust_weight crashes on a rank whose part of the
 state is zero

---
 src/dd.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 96a60db..a8fd336 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2426,8 +2426,8 @@ void dump(boost::mpi::communicator &world, vEdge e, int cycle) {
 }
 
 double adjust_weight(bmpi::communicator &world, vEdge rootEdge) {
-    const auto &[pzero, pone] = determineMeasurementProbabilities(rootEdge, 0);
-    double amp = pzero + pone;
+    // A rank whose part of the state is zero holds no nodes to walk.
+    double amp = assignProbabilities(rootEdge);
     double amp_sum = bmpi::all_reduce(world, amp, std::plus<double>());
     assert(amp_sum > 0);
     rootEdge.w = rootEdge.w / std_complex(std::sqrt(amp_sum), 0);
-- 
2.43.0


From 61d237c6aa9c5c1c5a9d6c5d9e98621b1fc2cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 37/53] fix: controls that act on 0 are taken for controls that
 act on 1

---
 qdd/bindings.cpp   | 38 ++++++++++++++++++++++++++++++++++++--
 qdd/qdd_backend.py | 22 ++++++++++++++++++----
 2 files changed, 54 insertions(+), 6 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index f9195e1..07affde 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -65,10 +65,37 @@ Controls get_controls(std::vector<Qubit> qs) {
     return controls;
 }
 
+// Pairs of a control and whether it is closed (acts on 1).
+using SignedControls = std::vector<std::pair<Qubit, bool>>;
+
+Controls get_controls(const SignedControls &qs) {
+    Controls controls;
+    for (const auto &[q, closed] : qs) {
+        controls.emplace(
+            Control{q, closed ? Control::Type::pos : Control::Type::neg});
+    }
+    return controls;
+}
+
 mEdge makeGate(QubitCount q, std::string name, Qubit target) {
     return makeGate(q, gateMap[name], target);
 }
 
+mEdge makeGate(QubitCount q, GateMatrix m, Qubit target,
+               const SignedControls controls) {
+    return makeGate(q, m, target, get_controls(controls));
+}
+
+mEdge makeGate(QubitCount q, std::string name, Qubit target,
+               const SignedControls controls) {
+    return makeGate(q, gateMap[name], target, controls);
+}
+
+mEdge makeTwoQubitGate(QubitCount q, TwoQubitGateMatrix m, Qubit target0,
+                       Qubit target1, const SignedControls controls) {
+    return makeTwoQubitGate(q, m, target0, target1, get_controls(controls));
+}
+
 mEdge makeGate(QubitCount q, GateMatrix m, Qubit target,
                const std::vector<Qubit> controls) {
     Controls c = get_controls(controls);
@@ -249,7 +276,11 @@ PYBIND11_MODULE(pyQDD, m) {
              py::overload_cast<QubitCount, std::string, Qubit>(&makeGate))
         .def("makeGate",
              py::overload_cast<QubitCount, std::string, Qubit,
-                               const std::vector<Qubit>>(&makeGate));
+                               const std::vector<Qubit>>(&makeGate))
+        .def("makeGate", py::overload_cast<QubitCount, GateMatrix, Qubit,
+                                           const SignedControls>(&makeGate))
+        .def("makeGate", py::overload_cast<QubitCount, std::string, Qubit,
+                                           const SignedControls>(&makeGate));
     m.def("RX", RX).def("RY", RY).def("RZ", RZ).def("CX", CX);
     m.def("rxmat", rx)
         .def("rymat", ry)
@@ -266,7 +297,10 @@ PYBIND11_MODULE(pyQDD, m) {
               &makeTwoQubitGate))
         .def("makeTwoQubitGate",
              py::overload_cast<QubitCount, TwoQubitGateMatrix, Qubit, Qubit,
-                               const std::vector<Qubit>>(&makeTwoQubitGate));
+                               const std::vector<Qubit>>(&makeTwoQubitGate))
+        .def("makeTwoQubitGate",
+             py::overload_cast<QubitCount, TwoQubitGateMatrix, Qubit, Qubit,
+                               const SignedControls>(&makeTwoQubitGate));
     m.def("RXX", RXX)
         .def("RYY", RYY)
         .def("RZZ", RZZ)
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 67b5427..047b918 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -127,6 +127,12 @@ _supported_qiskit_gates: Dict = {
 }
 
 
+def _is_closed_control(gate, index) -> bool:
+    """Tells if a control of a gate acts on 1 (closed) or on 0 (open)."""
+    ctrl_state = getattr(gate, "ctrl_state", None)
+    return ctrl_state is None or bool((ctrl_state >> index) & 1)
+
+
 @dataclasses.dataclass
 class QddExperiments:
     circs: List[QiskitCircuit]
@@ -475,7 +481,9 @@ class QddBackend(BackendV1):
                 if qiskit_gate_type in _qiskit_gates_1q:
                     controls = []
                     for j in range(len(qargs) - 1):
-                        controls.append(self.get_qID(qargs[j]))
+                        controls.append(
+                            (self.get_qID(qargs[j]), _is_closed_control(i, j))
+                        )
                     if qiskit_gate_type in _qiskit_gates_1q_0param:
                         matrix = _qiskit_gates_1q_0param[qiskit_gate_type]
                     elif qiskit_gate_type in _qiskit_gates_1q_1param:
@@ -499,7 +507,9 @@ class QddBackend(BackendV1):
                 elif qiskit_gate_type in _qiskit_gates_2q:
                     controls = []
                     for j in range(len(qargs) - 2):
-                        controls.append(self.get_qID(qargs[j]))
+                        controls.append(
+                            (self.get_qID(qargs[j]), _is_closed_control(i, j))
+                        )
                     if qiskit_gate_type in _qiskit_gates_2q_0param:
                         matrix = _qiskit_gates_2q_0param[qiskit_gate_type]()
                     elif qiskit_gate_type in _qiskit_gates_2q_1param:
@@ -804,7 +814,9 @@ class QddBackend(BackendV1):
                     if qiskit_gate_type in _qiskit_gates_1q:
                         controls = []
                         for j in range(len(qargs) - 1):
-                            controls.append(map_after_swap[self.get_qID(qargs[j])])
+                            controls.append(
+                                (map_after_swap[self.get_qID(qargs[j])], _is_closed_control(i, j))
+                            )
                         if qiskit_gate_type in _qiskit_gates_1q_0param:
                             matrix = _qiskit_gates_1q_0param[qiskit_gate_type]
                         elif qiskit_gate_type in _qiskit_gates_1q_1param:
@@ -855,7 +867,9 @@ class QddBackend(BackendV1):
                     elif qiskit_gate_type in _qiskit_gates_2q:
                         controls = []
                         for j in range(len(qargs) - 2):
-                            controls.append(map_after_swap[self.get_qID(qargs[j])])
+                            controls.append(
+                                (map_after_swap[self.get_qID(qargs[j])], _is_closed_control(i, j))
+                            )
                         if qiskit_gate_type in _qiskit_gates_2q_0param:
                             matrix = _qiskit_gates_2q_0param[qiskit_gate_type]()
                         elif qiskit_gate_type in _qiskit_gates_2q_1param:
-- 
2.43.0


From 6a6d19fead93446e1a6e46b9f24c75e6a38c58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 38/53] fix: circuits without parameter bindings of their own
 are dropped from the job

---
 qdd/qdd_backend.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 047b918..8f5146f 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -357,6 +357,11 @@ class QddBackend(BackendV1):
         if ("parameter_binds" in run_options) and (
             run_options["parameter_binds"] is not None
         ):
+            if len(run_options["parameter_binds"]) != len(qiskit_circs):
+                raise RuntimeError(
+                    f"{len(run_options['parameter_binds'])} parameter bindings were specified"
+                    f" for {len(qiskit_circs)} circuits."
+                )
             param_bound_qiskit_circs = []
             for qiskit_circ, binds in zip(qiskit_circs, run_options["parameter_binds"]):
                 param_bound_qiskit_circs.append(qiskit_circ.assign_parameters(binds))
-- 
2.43.0


From b872e52a391b1106a8aa359d7600183ec9aa45c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:19 +0000
Subject: [PATCH 39/53] fix: a multi-threaded job that fails leaves its threads
 running

---
 qdd/qdd_backend.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 8f5146f..333c7c2 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -400,10 +400,15 @@ class QddBackend(BackendV1):
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
 
-        results = [
-            self._evaluate_circuit(circ, circ_prop, experiments.options)
-            for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
-        ]
+        try:
+            results = [
+                self._evaluate_circuit(circ, circ_prop, experiments.options)
+                for circ, circ_prop in zip(experiments.circs, experiments.circuit_props)
+            ]
+        finally:
+            # a circuit which fails must not leave the workers running
+            if experiments.options["n_threads"] > 1:
+                pyQDD.terminateMT()
 
         result = Result.from_dict(
             {
@@ -416,9 +421,6 @@ class QddBackend(BackendV1):
             }
         )
 
-        if experiments.options["n_threads"] > 1:
-            pyQDD.terminateMT()
-
         return result
 
     def _create_qubitmap(self, circ: QiskitCircuit):
-- 
2.43.0


From 6a7dff1f9ca6988b642d2654aec304ed22a91d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:25 +0000
Subject: [PATCH 40/53] fix: the seed a user sets has no effect on measurements

---
 qdd/bindings.cpp   | 1 +
 qdd/qdd_backend.py | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 07affde..095424a 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -347,6 +347,7 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("measureOneCollapsingMPI", _measureOneCollapsingMPI)
         .def("measureOneMPI", _measureOneMPI);
 #endif
+    m.def("setSeed", [](uint64_t seed) { mt.seed(seed); });
 #ifdef QDD_VERIF
     m.def("_verif_seed", [](uint64_t seed) { mt.seed(seed); });
 #endif
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 333c7c2..65f938d 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -396,6 +396,9 @@ class QddBackend(BackendV1):
             return self._run_experiment_locked(experiments, job_id)
 
     def _run_experiment_locked(self, experiments, job_id) -> Result:
+        if experiments.options["seed_simulator"] is not None:
+            pyQDD.setSeed(experiments.options["seed_simulator"])
+
         if experiments.options["n_threads"] > 1:
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
-- 
2.43.0


From b64b77c251e6cb8683031e039aacd09d5f9d9587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:39 +0000
Subject: [PATCH 41/53] fix: Estimator swaps circuits when one is first asked
 for an identity observable

---
 qdd/qdd_estimator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index e5396dd..e65cca2 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -328,9 +328,9 @@ class Estimator(BaseEstimator):
         experiments_unsorted = {}
         experiments_list = []
         parameter_binds = []
-        for circ_ind in experiments_dict:
+        for circ_ind, basis_map in exp_map.items():
             indices = []
-            for i, (parameters, param_vals) in exp_map[circ_ind].items():
+            for i, (parameters, param_vals) in basis_map.items():
                 for param_val in param_vals:
                     experiments_unsorted[i] = experiments_dict[circ_ind][i]
                     indices.append(i)
-- 
2.43.0


From 939347c1918ad6a8606b38844115eb121a001132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 42/53] fix: reading a distributed state asserts on a rank
 whose part is zero

---
 qdd/bindings.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index 095424a..ae45eef 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -189,13 +189,15 @@ void dump_mpi() {
 }
 
 std::vector<std::complex<double>> _getVectorMPI(vEdge &edge) {
-    size_t dim;
-    std_complex *vec = edge.getVector(&dim);
     std::vector<std_complex> result;
-    for (int i = 0; i < dim; i++) {
-        result.push_back(vec[i]);
+    if (!edge.isTerminal()) {
+        size_t dim;
+        std_complex *vec = edge.getVector(&dim);
+        for (int i = 0; i < dim; i++) {
+            result.push_back(vec[i]);
+        }
+        delete[] vec;
     }
-    delete[] vec;
 
     // A rank whose part of the state is zero holds no nodes.
     result.resize(bmpi::all_reduce(_world, result.size(),
-- 
2.43.0


From 68a6c18543c72b4132c29d4c95dd576542dc0878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:33 +0000
Subject: [PATCH 43/53] fix: distributed jobs fail on bits outside registers

---
 qdd/qdd_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 65f938d..e810d77 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -729,8 +729,8 @@ class QddBackend(BackendV1):
         if use_mpi:
             from mpi4py import MPI
 
-            circ = MPI.COMM_WORLD.bcast(circ, root=0)
-            circ_prop = MPI.COMM_WORLD.bcast(circ_prop, root=0)
+            # together: bits outside registers are known by identity
+            circ, circ_prop = MPI.COMM_WORLD.bcast((circ, circ_prop), root=0)
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
                 print("ERROR: Too many nodes for MPI")
                 assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
-- 
2.43.0


From 841bf16402261c72a5df368ca6eff5de4468d7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:34 +0000
Subject: [PATCH 44/53] fix: distributed jobs lose the global phase of the
 circuit

---
 qdd/qdd_backend.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index e810d77..824e55e 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -730,7 +730,10 @@ class QddBackend(BackendV1):
             from mpi4py import MPI
 
             # together: bits outside registers are known by identity
-            circ, circ_prop = MPI.COMM_WORLD.bcast((circ, circ_prop), root=0)
+            circ, circ_prop, global_phase = MPI.COMM_WORLD.bcast(
+                (circ, circ_prop, circ.global_phase), root=0
+            )
+            circ.global_phase = global_phase  # not kept by pickling the circuit
             if pow(2, circ.num_qubits) <= MPI.COMM_WORLD.Get_size():
                 print("ERROR: Too many nodes for MPI")
                 assert pow(2, circ.num_qubits) > MPI.COMM_WORLD.Get_size()
-- 
2.43.0


From 0db384c840781dbe640bae544e26268aff428fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 45/53] fix: a job with a seed makes the jobs after it
 predictable

---
 qdd/bindings.cpp   |  7 ++++++-
 qdd/qdd_backend.py | 13 +++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/qdd/bindings.cpp b/qdd/bindings.cpp
index ae45eef..a027f3f 100644
--- a/qdd/bindings.cpp
+++ b/qdd/bindings.cpp
@@ -28,6 +28,7 @@ std::map<std::string, GateMatrix> gateMap{
 
 std::random_device rd;
 std::mt19937_64 mt(rd());
+static std::mt19937_64 unseeded_mt; // mt as it was before setSeed
 
 std::pair<vEdge, std::string> _measureAll(vEdge &rootEdge, bool collapse) {
     std::string result = measureAll(rootEdge, collapse, mt);
@@ -349,7 +350,11 @@ PYBIND11_MODULE(pyQDD, m) {
         .def("measureOneCollapsingMPI", _measureOneCollapsingMPI)
         .def("measureOneMPI", _measureOneMPI);
 #endif
-    m.def("setSeed", [](uint64_t seed) { mt.seed(seed); });
+    m.def("setSeed", [](uint64_t seed) {
+        unseeded_mt = mt;
+        mt.seed(seed);
+    });
+    m.def("unsetSeed", []() { mt = unseeded_mt; });
 #ifdef QDD_VERIF
     m.def("_verif_seed", [](uint64_t seed) { mt.seed(seed); });
 #endif
diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 824e55e..47eafe0 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -392,13 +392,18 @@ class QddBackend(BackendV1):
 
     def _run_experiment(self, experiments, job_id) -> Result:
         """Runs the given experiments"""
+        seed = experiments.options["seed_simulator"]
         with _engine_lock:
-            return self._run_experiment_locked(experiments, job_id)
+            if seed is None:
+                return self._run_experiment_locked(experiments, job_id)
+            pyQDD.setSeed(seed)
+            try:
+                return self._run_experiment_locked(experiments, job_id)
+            finally:
+                # the jobs without a seed stay unpredictable
+                pyQDD.unsetSeed()
 
     def _run_experiment_locked(self, experiments, job_id) -> Result:
-        if experiments.options["seed_simulator"] is not None:
-            pyQDD.setSeed(experiments.options["seed_simulator"])
-
         if experiments.options["n_threads"] > 1:
             nt = pyQDD.initMT(experiments.options["n_threads"])
             print(nt, "threads")
-- 
2.43.0


From 05d642c1d0ebbcc49af7d93192c1bbc50655686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:20 +0000
Subject: [PATCH 46/53] fix: Sampler and Estimator give stale results after a
 circuit is edited in place

---
 qdd/qdd_estimator.py | 4 ++--
 qdd/qdd_sampler.py   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index e65cca2..bac302f 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -153,7 +153,7 @@ class Estimator(BaseEstimator):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         observable_indices: list = []
         for observable in observables:
@@ -166,7 +166,7 @@ class Estimator(BaseEstimator):
                 self._observable_ids[_observable_key(observable)] = len(
                     self._observables
                 )
-                self._observables.append(observable)
+                self._observables.append(observable.copy())
         job = PrimitiveJob(
             self._call,
             circuit_indices,
diff --git a/qdd/qdd_sampler.py b/qdd/qdd_sampler.py
index c3e6cd4..da2bc30 100755
--- a/qdd/qdd_sampler.py
+++ b/qdd/qdd_sampler.py
@@ -161,7 +161,7 @@ class Sampler(BaseSampler):
             else:
                 circuit_indices.append(len(self._circuits))
                 self._circuit_ids[_circuit_key(circuit)] = len(self._circuits)
-                self._circuits.append(circuit)
+                self._circuits.append(circuit.copy())
                 self._parameters.append(circuit.parameters)
         job = PrimitiveJob(self._call, circuit_indices, parameter_values, **run_options)
         job._submit()
-- 
2.43.0


From 571112cb878b60ed66b2757f2b60e657fae5fbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:49 +0000
Subject: [PATCH 47/53] fix: backend jobs never collected the operators of
 finished gates

---
 qdd/qdd_backend.py | 12 +++++-------
 qdd/qdd_gate.py    | 19 +++++++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index 47eafe0..c52a134 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -8,7 +8,6 @@ from collections import Counter
 from warnings import warn
 import threading
 import time
-import weakref
 
 from qiskit.providers import BackendV1, JobV1, Options, Provider
 from qiskit.providers.models import BackendConfiguration
@@ -23,7 +22,7 @@ from qiskit.circuit import library
 from qdd import __version__
 from qdd.qdd_failed_job import QddFailedJob
 from qdd.qdd_job import QddJob
-from qdd.qdd_gate import QDDGate
+from qdd.qdd_gate import QDDGate, keep_operator, kept_operators
 from .circuit_property import CircuitProperty
 
 from qdd import pyQDD
@@ -33,9 +32,6 @@ import math
 # primitives start in threads of their own run one after another.
 _engine_lock = threading.RLock()
 
-# Merged gates which are still in use: garbage collection keeps them.
-_merged_gates = weakref.WeakSet()
-
 _qiskit_gates_1q_0param: Dict = {
     qiskit_gates.HGate: "H",
     qiskit_gates.IGate: "I",
@@ -564,10 +560,10 @@ class QddBackend(BackendV1):
             if self.options.show_progress and count % self.options.show_progress_frequency == 0:
                 print(count,"/",len(circ.data))
             if count%gc_freq==0:
-                current = pyQDD.gc_mat_keep(current, list(_merged_gates), False)
+                current = pyQDD.gc_mat_keep(current, kept_operators(), False)
             # pyQDD.clear_cache(False)
         current = pyQDD.applyGlobal(current, circ.global_phase)
-        _merged_gates.add(current)
+        keep_operator(current)
         return current
 
     def get_initial_qmap(self, num_qubits, size_global):
@@ -768,6 +764,7 @@ class QddBackend(BackendV1):
         if circ_prop.stable_final_state == False and options["shots"] is not None:
             reps = options["shots"]
 
+        identity = pyQDD.makeGate(n_qubit, "I", 0)
         prob_cbit = [1] * n_cbit  # probability of 0 (a classical bit starts as 0)
         for shot in range(reps):
             global_set, local_set = self.get_initial_qmap(circ.num_qubits, size_global)
@@ -1035,6 +1032,7 @@ class QddBackend(BackendV1):
                             f" It needs to transpile the circuit before evaluating it."
                         )
                 current = pyQDD.gc(current, False)
+                identity = pyQDD.gc_mat_keep(identity, kept_operators(), False)
                 count = count + 1
                 if options["show_progress"] and count % options["show_progress_frequency"] == 0:
                     print(count,"/",len(circ.data))
diff --git a/qdd/qdd_gate.py b/qdd/qdd_gate.py
index 5ffd456..6ac09b8 100644
--- a/qdd/qdd_gate.py
+++ b/qdd/qdd_gate.py
@@ -1,8 +1,26 @@
+import threading
+import weakref
+
 from qdd import pyQDD
 from qiskit.circuit.gate import Gate
 from qiskit.circuit.exceptions import CircuitError
 
 
+# Operators which are still in use: garbage collection keeps them.
+_kept_operators = weakref.WeakSet()
+_kept_lock = threading.Lock()
+
+
+def keep_operator(medge):
+    with _kept_lock:
+        _kept_operators.add(medge)
+
+
+def kept_operators():
+    with _kept_lock:
+        return list(_kept_operators)
+
+
 class QDDGate(Gate):
 
     def __init__(self, nQubits: int, medge, basis: str = "QDD"):
@@ -11,4 +29,5 @@ class QDDGate(Gate):
     def validate_parameter(self, parameter):
         if not isinstance(parameter, pyQDD.mEdge):
             raise CircuitError(f"Invalid number of params for gate {self.name}.")
+        keep_operator(parameter)
         return parameter
\ No newline at end of file
-- 
2.43.0


From a481d8ce7e6789abbea3bce5fefe7896e97088d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:44 +0000
Subject: [PATCH 48/53] fix: the sparse listing cut basis states to 30 qubits

---
 src/dd.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index a8fd336..e803d85 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -1338,9 +1338,12 @@ void vEdge::printVectorMPI(bmpi::communicator &world) const {
 }
 #endif
 
-static void printVector_sparse2(const vEdge &edge, std::size_t row,
+// An index into a state of any size (at most 100 qubits).
+using WideIndex = unsigned __int128;
+
+static void printVector_sparse2(const vEdge &edge, WideIndex row,
                                 const std_complex &w, uint64_t left,
-                                std::map<int, std_complex> &m) {
+                                std::map<WideIndex, std_complex> &m) {
     std_complex wp = edge.w * w;
 
     const double thr = 0.001;
@@ -1351,7 +1354,7 @@ static void printVector_sparse2(const vEdge &edge, std::size_t row,
     } else if (edge.isTerminal()) {
         if (norm(wp) > thr) {
             row = row << left;
-            for (std::size_t i = 0; i < (1 << left); i++) {
+            for (WideIndex i = 0; i < (WideIndex(1) << left); i++) {
                 m[row | i] = wp;
             }
         }
@@ -1369,15 +1372,17 @@ void vEdge::printVector_sparse() const {
         return;
     }
     Qubit q = this->getVar();
-    std::size_t dim = 1 << (q + 1);
 
-    std::map<int, std_complex> map;
+    std::map<WideIndex, std_complex> map;
 
     printVector_sparse2(*this, 0, {1.0, 0.0}, q + 1, map);
 
+    const int width = std::max(30, q + 1);
     for (auto itr = map.begin(); itr != map.end(); itr++) {
-        std::cout << std::bitset<30>(itr->first) << ": " << itr->second
-                  << std::endl;
+        for (int i = width - 1; i >= 0; i--) {
+            std::cout << int((itr->first >> i) & 1);
+        }
+        std::cout << ": " << itr->second << std::endl;
     }
 }
 
-- 
2.43.0


From 0ad320c7aabb3c3819379bde2794e1b61a9726dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 49/53] fix: vectors and probabilities of more than 30 qubits
 crashed or never ended

---
 src/dd.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index e803d85..36e08b4 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -6,6 +6,7 @@
 #include <bitset>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <map>
 #include <queue>
 #include <unordered_map>
@@ -221,11 +222,17 @@ static void fillMatrix(const mEdge &edge, size_t row, size_t col,
     }
 }
 
+// 2^n, or a size no allocation satisfies.
+static std::size_t dimension(Qubit n) {
+    return n < 60 ? std::size_t(1) << n
+                  : std::numeric_limits<std::size_t>::max() / 2;
+}
+
 void mEdge::printMatrix(Qubit nQubits) const {
     if(nQubits==-1){
         nQubits = this->getVar() + 1;
     }
-    std::size_t dim = 1 << nQubits;
+    std::size_t dim = dimension(nQubits);
 
     std_complex **matrix = new std_complex *[dim];
     for (std::size_t i = 0; i < dim; i++) matrix[i] = new std_complex[dim];
@@ -250,7 +257,7 @@ std_complex **mEdge::getMatrix(std::size_t *dim, Qubit nQubits) const {
     if(nQubits==-1){
         nQubits = this->getVar() + 1;
     }
-    std::size_t d = 1 << nQubits;
+    std::size_t d = dimension(nQubits);
 
     std_complex **matrix = new std_complex *[d];
     for (std::size_t i = 0; i < d; i++) matrix[i] = new std_complex[d];
@@ -1293,7 +1300,7 @@ void vEdge::printVector() const {
         return;
     }
     Qubit q = this->getVar();
-    std::size_t dim = 1 << (q + 1);
+    std::size_t dim = dimension(q + 1);
 
     std_complex *vector = new std_complex[dim];
 
@@ -1315,7 +1322,7 @@ void vEdge::printVectorMPI(bmpi::communicator &world) const {
         ss << "(all 0)" << std::endl;
     } else {
         Qubit q = this->getVar();
-        std::size_t dim = 1 << (q + 1);
+        std::size_t dim = dimension(q + 1);
         std_complex *vector = new std_complex[dim];
         printVector2(*this, 0, {1.0, 0.0}, q + 1, vector);
         for (size_t i = 0; i < dim; i++) {
@@ -1411,7 +1418,7 @@ std_complex *vEdge::getVector(std::size_t *dim) const {
     assert(!this->isTerminal());
 
     Qubit q = this->getVar();
-    std::size_t d = 1 << (q + 1);
+    std::size_t d = dimension(q + 1);
 
     std_complex *vector = new std_complex[d];
     fillVector(*this, 0, {1.0, 0.0}, q + 1, vector);
@@ -1581,8 +1588,10 @@ double assignProbabilities(const vEdge &edge) {
 std::vector<double> probabilities(const vEdge &rootEdge) {
     const auto nqubits = static_cast<QubitCount>(rootEdge.getVar() + 1);
     assignProbabilities(rootEdge);
+    const std::size_t dim = dimension(nqubits);
     std::vector<double> result;
-    for (auto i = 0; i < pow(2, nqubits); i++) {
+    result.reserve(dim);
+    for (std::size_t i = 0; i < dim; i++) {
         vEdge cur = rootEdge;
         double prob = 1.0;
         for (Qubit j = rootEdge.getVar(); j >= 0; j--) {
-- 
2.43.0


From e413769743b3a50b16c7b31841f0260152703690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:04 +0000
Subject: [PATCH 50/53] fix: the state vector backend did not enforce its own
 number of qubits

---
 qdd/qdd_backend.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/qdd/qdd_backend.py b/qdd/qdd_backend.py
index c52a134..cc27455 100644
--- a/qdd/qdd_backend.py
+++ b/qdd/qdd_backend.py
@@ -366,7 +366,9 @@ class QddBackend(BackendV1):
             param_bound_qiskit_circs = qiskit_circs
 
         circ_props = QddBackend._validate_and_get_circuit_properties(
-            param_bound_qiskit_circs, self._save_SV == False
+            param_bound_qiskit_circs,
+            self._save_SV == False,
+            min(self.configuration().n_qubits, QddBackend._DEFAULT_CONFIG["n_qubits"]),
         )
         experiments = QddExperiments(
             circs=param_bound_qiskit_circs,
@@ -1129,24 +1131,27 @@ class QddBackend(BackendV1):
 
     @staticmethod
     def _validate_and_get_circuit_properties(
-        qiskit_circs: List[QiskitCircuit], require_measurement=True
+        qiskit_circs: List[QiskitCircuit], require_measurement=True, max_qubits=None
     ) -> List[CircuitProperty]:
         circ_props = [
-            QddBackend._validate_and_get_circuit_property(circ, require_measurement)
+            QddBackend._validate_and_get_circuit_property(
+                circ, require_measurement, max_qubits
+            )
             for circ in qiskit_circs
         ]
         return circ_props
 
     @staticmethod
     def _validate_and_get_circuit_property(
-        circ: QiskitCircuit, require_measurement=True
+        circ: QiskitCircuit, require_measurement=True, max_qubits=None
     ) -> CircuitProperty:
         """Checks whether the given circuit is valid to run (e.g., #qubits <= #max-qubits),
         and, if valid, returns a CircuitProperty instance that will be used for simulation.
         """
 
         # #qubit must be lower than #max-qubits
-        max_qubits: int = QddBackend._DEFAULT_CONFIG["n_qubits"]
+        if max_qubits is None:
+            max_qubits = QddBackend._DEFAULT_CONFIG["n_qubits"]
         if circ.num_qubits > max_qubits:  # num_qubits includes ancilla registers
             raise RuntimeError(
                 f'Circuit "{circ.name}" has {circ.num_qubits} qubits,'
-- 
2.43.0


From d551ace31e4c49faa189675001c57a0bd11a40b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:52:21 +0000
Subject: [PATCH 51/53] fix: prune changed the nodes of other states, and of
 the terminal

---
 src/dd.cpp | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index 36e08b4..e91b7c5 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -2561,34 +2561,43 @@ void set_gc_thr(int gc_v, int gc_m) {
     return;
 }
 
+// Nodes are shared: what remains of a pruned one is a node of its own.
 int prune(vEdge &v, double thr, std_complex num) {
     std_complex current = num * v.w;
     double mag = std::sqrt(current.mag2());
-    int result = 0;
     if (mag < thr) {
-        v.w = {0.0, 0.0};
-        v.n = vNode::terminal;
-        result = 1;
-    } else {
-        result += prune(v.n->children[0], thr, current);
-        result += prune(v.n->children[1], thr, current);
+        v = vEdge::zero;
+        return 1;
+    }
+    if (v.isTerminal()) {
+        return 0;
+    }
+    int result = 0;
+    std::array<vEdge, 2> children = v.n->children;
+    for (vEdge &child : children) {
+        result += prune(child, thr, current);
     }
+    vEdge pruned = makeVEdge(v.getVar(), children);
+    v = {v.w * pruned.w, pruned.n};
     return result;
 }
 
 int prune(mEdge &m, double thr, std_complex num) {
     std_complex current = num * m.w;
     double mag = std::sqrt(current.mag2());
-    int result = 0;
     if (mag < thr) {
-        m.w = {0.0, 0.0};
-        m.n = mNode::terminal;
-        result = 1;
-    } else {
-        result += prune(m.n->children[0], thr, current);
-        result += prune(m.n->children[1], thr, current);
-        result += prune(m.n->children[2], thr, current);
-        result += prune(m.n->children[3], thr, current);
+        m = mEdge::zero;
+        return 1;
+    }
+    if (m.isTerminal()) {
+        return 0;
+    }
+    int result = 0;
+    std::array<mEdge, 4> children = m.n->children;
+    for (mEdge &child : children) {
+        result += prune(child, thr, current);
     }
+    mEdge pruned = makeMEdge(m.getVar(), children);
+    m = {m.w * pruned.w, pruned.n};
     return result;
 }
-- 
2.43.0


From da7e3e2c64d4c47efa8fc3d588078fabbd55c03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:19 +0000
Subject: [PATCH 52/53] fix: the Estimator refused circuits with a classical
 register called c

---
 qdd/qdd_estimator.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/qdd/qdd_estimator.py b/qdd/qdd_estimator.py
index bac302f..40e5bfe 100755
--- a/qdd/qdd_estimator.py
+++ b/qdd/qdd_estimator.py
@@ -24,7 +24,7 @@ from collections.abc import Sequence
 from warnings import warn
 
 import numpy as np
-from qiskit.circuit import ParameterExpression, QuantumCircuit
+from qiskit.circuit import ClassicalRegister, ParameterExpression, QuantumCircuit
 from qiskit.compiler import transpile
 from qiskit.primitives import BaseEstimator, EstimatorResult
 from qiskit.primitives.primitive_job import PrimitiveJob
@@ -374,8 +374,10 @@ class Estimator(BaseEstimator):
         circs = []
         for meas_circuit in meas_circuits:
             new_circ = circuit.copy()
-            for creg in meas_circuit.cregs:
-                new_circ.add_register(creg)
+            # the measurements go to the first classical bits, whatever they are called
+            missing = meas_circuit.num_clbits - new_circ.num_clbits
+            if missing > 0:
+                new_circ.add_register(ClassicalRegister(missing))
             new_circ.compose(meas_circuit, inplace=True)
             _update_metadata(new_circ, meas_circuit.metadata)
             circs.append(new_circ)
-- 
2.43.0


From db548fd25e931f8f0ad99b5f6c5ad349328f8d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:21 +0000
Subject: [PATCH 53/53] fix: states sent or received without blocking were
 rebuilt before they arrived

---
 src/dd.cpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/dd.cpp b/src/dd.cpp
index e91b7c5..043a331 100644
--- a/src/dd.cpp
+++ b/src/dd.cpp
@@ -7,6 +7,7 @@
 #include <fstream>
 #include <iostream>
 #include <limits>
+#include <list>
 #include <map>
 #include <queue>
 #include <unordered_map>
@@ -2398,12 +2399,22 @@ vEdge receive_dd(boost::mpi::communicator &world, int source_node_id,
         world.recv(source_node_id, 0, w);
         world.recv(source_node_id, 1, v);
     } else {
-        world.irecv(source_node_id, 0, w);
-        world.irecv(source_node_id, 1, v);
+        // The state can be rebuilt only once both parts have arrived.
+        bmpi::request reqs[] = {world.irecv(source_node_id, 0, w),
+                                world.irecv(source_node_id, 1, v)};
+        bmpi::wait_all(std::begin(reqs), std::end(reqs));
     }
     return {w, vec_to_vNode(v, vUnique)};
 }
 
+// What is being sent without blocking, kept until it has left.
+struct PendingSend {
+    std_complex w;
+    std::vector<vContent> v;
+    std::vector<bmpi::request> reqs;
+};
+static std::list<PendingSend> pendingSends;
+
 void send_dd(boost::mpi::communicator &world, vEdge e, int dest_node_id,
              bool isBlocking) {
     std::vector<vContent> v;
@@ -2413,8 +2424,13 @@ void send_dd(boost::mpi::communicator &world, vEdge e, int dest_node_id,
         world.send(dest_node_id, 0, e.w);
         world.send(dest_node_id, 1, v);
     } else {
-        world.isend(dest_node_id, 0, e.w);
-        world.isend(dest_node_id, 1, v);
+        pendingSends.remove_if([](PendingSend &p) {
+            return bool(bmpi::test_all(p.reqs.begin(), p.reqs.end()));
+        });
+        pendingSends.push_back({e.w, std::move(v), {}});
+        PendingSend &p = pendingSends.back();
+        p.reqs.push_back(world.isend(dest_node_id, 0, p.w));
+        p.reqs.push_back(world.isend(dest_node_id, 1, p.v));
     }
     return;
 };
-- 
2.43.0

