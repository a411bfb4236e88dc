#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import plan                                                             # noqa: E402

DD, BE = "src/dd.cpp", "qdd/qdd_backend.py"
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, observe=None, hook=None, state=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                   anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                                observe_at=observe or [], hook_needed=hook)), technique, note))


HOOK = "table and allocation sizes are shrunk under QDD_VERIF so that collisions and growth happen after a few operations"
p("P01", "Gate construction yields exactly the operator the user wrote down",
  "Building a named, parametrised or user-supplied matrix gate on any targets with any set of positive or negative controls, in a register of any supported size, yields the operator that applies that matrix to those targets (first target least significant, as documented) exactly when every control holds and is the identity elsewhere. "
  "Building a gate never changes the matrix the caller supplied, and reading the operator back gives its entries within numerical tolerance.",
  ["inputs"], "every gate matrix, every placement of targets and signed controls, every register size",
  "The tests build a few gates on 2-3 qubits and mostly in ascending order; the number of placements grows factorially and each takes a different path through construction.",
  [DD, "include/dd.h", "include/common.h"],
  [("makeGate", DD), ("makeTwoQubitGate", DD), ("makeLargeGate", DD), ("makeSwap, CX, SWAP, RXX, CSWAP ...", DD)],
  "reference-model monitor (dense operator) over enumerated and random placements",
  "All 1504 placements on up to 5 qubits each run, then thousands of random ones; holds on what was executed.",
  ["mEdge::getMatrix", "applying the gate to basis states"], HOOK)
p("P02", "Applying a sequence of gates gives the state quantum mechanics prescribes",
  "After any sequence of gates applied to any initial state, every amplitude of the engine's state equals, within numerical tolerance, the amplitude obtained by multiplying the dense matrices, whatever structure or symmetry the state has. "
  "The result does not depend on how full or how collided the internal tables are, and a state that was kept is not altered by later operations.",
  ["programs", "inputs", "configurations"], "every gate sequence on every register; every table occupancy",
  "The tests run a handful of circuits and compare a few amplitudes; errors hide in cached sub-results, zero branches, tiny weights and hash collisions that those circuits never form.",
  [DD, "include/cache.hpp", "include/table.hpp"],
  [("mv_multiply", DD), ("makeVEdge and normalisation", DD), ("operation caches", "include/cache.hpp"), ("unique tables", "include/table.hpp")],
  "reference-model monitor (dense simulator) over random programs, with colliding tables",
  "Random programs up to 9 qubits compared amplitude by amplitude, on ordinary and on permanently colliding tables.",
  ["vEdge::getVector"], HOOK)
p("P03", "Sums, products and tensor products obey linear algebra",
  "Adding, multiplying and tensoring operators and states gives the same result, within numerical tolerance, as the same expression over dense matrices and vectors: addition is commutative and associative, multiplication distributes and associates, the tensor product places the left factor on the higher qubits. "
  "This includes cancelling terms, zero operands, scaled operands and operands that were themselves built by such operations.",
  ["inputs", "programs"], "every expression over operators and states of matching sizes",
  "Existing tests exercise each operation on one or two small operands with unit weights; wrong handling of root weights, identity levels or cancellation needs particular operand shapes.",
  [DD], [("mm_add, vv_add", DD), ("mm_multiply", DD), ("mm_kronecker, vv_kronecker", DD)],
  "reference-model monitor plus algebraic-law monitors over random expressions",
  "Random expression triples compared with dense algebra; dimensions up to 2^6.", ["getMatrix", "getVector"], HOOK)
p("P04", "The representation is canonical and compact",
  "Two computations that arrive at bit-identical amplitudes end in the very same diagram, so equality of states and operators can be decided by comparing roots; every diagram is normalised, ordered by qubit, contains no duplicated sub-diagram and no redundant identity level in operators. "
  "Consequently states and operators with structure (basis, product, GHZ, graph and permutation states on up to 100 qubits) stay as small as their structure implies.",
  ["inputs", "programs", "histories"], "every pair of construction routes to the same object; every family size",
  "Tests compare values, not structure: a missed table hit leaves every amplitude right while memory and time grow exponentially.",
  [DD, "include/table.hpp"], [("normalizeV, normalizeM", DD), ("unique table lookup", "include/table.hpp"), ("makeMEdge identity reduction", DD)],
  "structural invariant monitor at quiescent points, with two-route equality checks",
  "Diagrams are walked node by node after each program; canonicity is asserted for weights that are exact binary fractions only, since rounding may legitimately separate others.",
  ["root edge comparison", "node walk", "get_nNodes"], HOOK)
p("P05", "Collecting garbage never changes what the user still holds",
  "At whatever points collections happen and whatever thresholds are set, every state and operator handed to the collector denotes exactly the same vector or matrix afterwards, and every later result is the same as in a run without collection. "
  "A collection that is requested but not forced and finds nothing to do changes nothing.",
  ["programs", "histories", "configurations"], "every program, every placement of collections, every set of live objects, every threshold",
  "The shipped thresholds are above what the tests allocate, so collection practically never runs in them; stale cached results or freed shared nodes need a collection between two related operations.",
  [DD, "include/table.hpp", "include/cache.hpp"], [("gc, gc_mat, set_gc_thr", DD), ("cache clearing", "include/cache.hpp"), ("node free lists", "include/table.hpp")],
  "reference-model monitor on every live object after every collection",
  "Thousands of programs with forced and threshold-driven collections on small and colliding tables; long programs reach the shipped thresholds.",
  ["getVector and getMatrix of every kept object"], HOOK)
p("P06", "Earlier work in the process never influences a later result",
  "The result of any computation is the same, within numerical tolerance, in a fresh process and after any other work (other registers, other gates, other states, collections) has filled the node tables and operation caches. "
  "Repeating a computation gives the same result as the first time.",
  ["histories"], "every preceding history of operations",
  "Each test starts from a nearly empty process; a cache key that omits an operand or level only fails when two unrelated operations meet in one slot.",
  [DD, "include/cache.hpp"], [("AddCache, MulCache lookups", "include/cache.hpp"), ("gate and identity caches", DD)],
  "metamorphic monitor: same computation after adversarial histories, small caches",
  "Pairs of histories on tables of 13 and 4096 buckets, compared with a dense reference.", ["getVector", "getMatrix"], HOOK)
p("P07", "Sampling the whole register follows the Born rule",
  "Sampling all qubits returns one character per qubit, qubit 0 rightmost, with each outcome drawn independently with the probability given by its squared amplitude; impossible outcomes never appear. "
  "A collapsing measurement leaves exactly the basis state it reported, and a non-collapsing one leaves the state untouched.",
  ["inputs", "histories"], "every state, every shot sequence",
  "Tests compare counts of two or three circuits within loose percentages; a bias on one branch, dependence between shots or a wrong collapse passes them.",
  [DD], [("measureAll", DD), ("assignProbabilities", DD)],
  "statistical monitor (Bernstein bounds, lag-1 independence) and collapse monitor",
  "20000 shots of each of thousands of random states; per-comparison false-alarm probability below e^-31.", ["returned outcome strings", "state after collapse"], HOOK)
p("P08", "Measuring one qubit follows the Born rule and projects the state",
  "The probability reported for a qubit is the sum of squared amplitudes with that qubit set accordingly, measuring it returns 0 or 1 with exactly these probabilities, and the state afterwards is the normalised projection onto the reported outcome. "
  "Asking for a probability does not disturb the state, and measuring the same qubit again repeats the outcome.",
  ["inputs", "histories"], "every state, every qubit, every sequence of measurements",
  "Tests measure one qubit of a Bell pair; errors in skipped levels, in renormalisation after rare outcomes or in sequences of measurements are out of reach.",
  [DD], [("measureOne", DD), ("measureOneCollapsing", DD)],
  "reference-model monitor (projection) with statistical monitor (Bernstein bounds)",
  "Every qubit of thousands of random states, outcomes and post-measurement states compared with dense projections.", ["returned outcome", "getVector afterwards"], HOOK)
p("P09", "Every way of reading out a state or operator tells the same truth",
  "The amplitude vector, the operator matrix, the single-precision copies, the list of probabilities and the printed forms of a state or operator all agree with its true entries, in index order with qubit 0 least significant, and probabilities of a normalised state sum to one. "
  "Reading a state or operator changes nothing and yields independent copies; a read-out too large for memory is refused with an error.",
  ["inputs"], "every state and operator, every read-out path",
  "Tests read vectors of tiny states; sparse printing, probabilities of unnormalised or zero-heavy states and reduced operators are not compared with anything.",
  [DD], [("getVector, getEigenVector", DD), ("getMatrix, getEigenMatrix", DD), ("probabilities", DD), ("printVector, printVector_sparse, printMatrix", DD), ("genDot, get_nNodes", DD)],
  "reference-model monitor over all read-out paths", "Random states and operators; printed text is parsed back.", ["returned arrays", "stdout"], HOOK)
p("P10", "Large registers up to 100 qubits are simulated correctly",
  "On registers of up to 100 qubits, gates with any span and any number of controls, fused operators, measurements and permutations give the amplitudes and outcomes that closed-form reasoning predicts for basis, product, GHZ, graph and phase states. "
  "Amplitudes far below machine epsilon are still right relative to their size.",
  ["inputs", "programs"], "every register size up to 100; every program in these closed-form families",
  "No dense comparison exists beyond ~20 qubits, so tests only check that large circuits run; index arithmetic and weights around 2^-50 fail only there.",
  [DD], [("makeGate over long spans", DD), ("normalisation with small root weights", DD), ("measureAll, measureOne", DD)],
  "closed-form oracle monitor on 9-100 qubit registers", "Thousands of random programs whose result is known in closed form.", ["path amplitudes", "outcome strings"], HOOK)
p("P11", "No workload makes the engine touch invalid memory or leak",
  "No sequence of public engine operations reads or writes outside live objects, uses freed nodes, evaluates undefined arithmetic, trips an internal assertion or loses memory that nothing can reach. "
  "This holds while tables overflow, chains grow, nodes are recycled and collections run.",
  ["programs", "inputs", "histories"], "every sequence of public operations",
  "Existing tests run without sanitizers and below the sizes at which tables grow or nodes are recycled.",
  [DD, "include/table.hpp", "include/cache.hpp"], [("node allocator and free lists", "include/table.hpp"), ("cache allocator", "include/cache.hpp"), ("makeLargeGate recursion", DD)],
  "AddressSanitizer + UndefinedBehaviorSanitizer + LeakSanitizer over all engine workloads",
  "All engine workloads under ASan/UBSan/LSan on ordinary and colliding tables; a clean run is not a proof of memory safety.", ["sanitizer reports"], HOOK)
p("P12", "Multi-threaded runs give the same results as sequential ones",
  "With any number of worker threads, applying operators to states gives the same state, the same probabilities and the same measurement statistics as the sequential engine, for every register, program and schedule. "
  "States computed before, during and after a multi-threaded phase stay valid and collections between operations stay harmless.",
  ["schedules", "programs", "configurations"], "every interleaving of worker threads, every thread count, every program",
  "The tests for multi-threading are not part of the default build and run one circuit with one schedule.",
  [DD, "src/task.cpp", "include/task.h"], [("fiber spawning in mv_multiply", DD), ("work-stealing scheduler", "src/task.cpp"), ("per-thread caches", DD)],
  "reference-model monitor over stressed multi-threaded executions",
  "Programs with 2-16 worker threads on 7-12 qubits, thousands of multiplications with stolen fibers; schedules sampled, not enumerated.", ["getVector"], HOOK)
p("P13", "Concurrent operations on shared tables are free of data races",
  "Threads that build, combine and apply operators and states at the same time in a multi-threaded build never race on shared data, and each obtains exactly the result it would obtain alone. "
  "Equal sub-structures built by different threads end in one shared, canonical node: no node is lost or duplicated.",
  ["schedules"], "every interleaving of concurrently running threads",
  "A race is visible only under particular interleavings and needs a detector; no test runs threads under one.",
  [DD, "include/table.hpp", "include/cache.hpp"], [("compare-and-swap insertion", "include/table.hpp"), ("thread-local caches", DD)],
  "ThreadSanitizer plus canonicity monitor over contending threads",
  "ThreadSanitizer over contending std::threads and result/canonicity monitors in uninstrumented builds.", ["TSan reports", "root pointers across threads"], HOOK)
p("P14", "The worker pool starts, works and stops in any order without hanging",
  "Any number of worker threads can be started and stopped any number of times in one process, with or without work in between and with more workers than processors, and each start and stop completes. "
  "Every task handed to the pool is executed exactly once, however it is stolen.",
  ["schedules", "histories", "configurations"], "every sequence of starts and stops, every thread count, every interleaving",
  "Lost wake-ups and double execution depend on timing at start and stop, which no test repeats.",
  ["src/task.cpp", "include/task.h", "include/wsq.hpp", "qdd/bindings.cpp"], [("Scheduler start, stop", "src/task.cpp"), ("work-stealing queue", "include/wsq.hpp"), ("initMT, terminateMT", "qdd/bindings.cpp")],
  "exactly-once and bounded-progress monitors over stressed lifecycles",
  "Hundreds of start/stop cycles with 1-16 workers; a hang is reported only when it repeats under a generous watchdog.", ["task execution log", "completion"], HOOK)
p("P15", "Distributed gate application equals single-process simulation",
  "With a state spread over any power-of-two number of processes, applying any gate on any qubits, by each of the provided exchange strategies, leaves the parts that together form exactly the state a single process would compute. "
  "This holds for gates on local and on distributed qubits, for any controls, and when some processes hold an all-zero part.",
  ["inputs", "programs", "configurations", "schedules"], "every gate placement, process count, strategy and state",
  "The distributed tests need a launcher, are not in the default build, and use a few gates on two processes.",
  [DD], [("getMPIGate", DD), ("mv_multiply_MPI", DD), ("mv_multiply_MPI_bcast3", DD)],
  "reference-model monitor on gathered parts over real multi-process runs",
  "Random programs on 2, 4 and 8 real MPI processes compared with a dense simulator.", ["gathered getVector of every rank"], HOOK)
p("P16", "Distributed measurement and probabilities follow the Born rule",
  "On a distributed state, sampling, single-qubit measurement and probability read-out give every process the same answer, with the distribution the undivided state prescribes, and collapse leaves the parts of exactly the projected state. "
  "This includes distributed qubits and processes that hold nothing.",
  ["inputs", "configurations", "histories"], "every distributed state, qubit and process count",
  "The few distributed tests check one symmetric state.",
  [DD], [("measureAllMPI", DD), ("measureOneMPI, measureOneCollapsingMPI", DD), ("probabilitiesMPI", DD)],
  "reference-model and statistical monitors over real multi-process runs",
  "Random states on 2, 4 and 8 MPI processes; agreement across ranks asserted on every answer.", ["answers of every rank"], HOOK)
p("P17", "Saving, sending and archiving a state preserves it",
  "A state written to a file and read back, sent to another process, or put through an archive and restored denotes the same vector, in the same or a different process, and can be computed with afterwards. "
  "This holds for every state, including unnormalised, terminal-only and heavily shared ones, and does not change the original.",
  ["inputs", "configurations"], "every state; every transport",
  "The serialization test is not in the default build and uses one state.",
  [DD, "include/dd.h"], [("save_binary, load_binary", DD), ("send_dd, receive_dd", DD), ("serialize members", "include/dd.h")],
  "round-trip monitor over files, messages and archives", "Random states through every transport on real MPI processes.", ["getVector after restoring"], HOOK)
p("P18", "Qiskit circuits run with Qiskit's meaning",
  "Any circuit of supported Qiskit gates, with any parameters, qubit order, open or closed controls and register layout, produces the final state that Qiskit's own gate definitions prescribe, including global phase in the state-vector backend. "
  "Transpiling for the backend beforehand does not change the outcome distribution.",
  ["programs", "inputs"], "every circuit over the supported gate set",
  "Tests check each gate on one placement by sampling; argument order, phases and rarely used gates cancel out in counts.",
  [BE, "qdd/qdd_sv_backend.py", "qdd/bindings.cpp"], [("gate dispatch", BE), ("qubit map", BE), ("gate bindings", "qdd/bindings.cpp")],
  "reference-model monitor (numpy over Qiskit definitions) at the backend API",
  "Random circuits over every supported gate class compared amplitude by amplitude with Qiskit's definitions.", ["result().data()['statevector']", "probabilities"], HOOK)
p("P19", "Counts and memory honour the run contract",
  "For a circuit with measurements, the returned counts add up to the requested shots, memory (when requested) lists one outcome per shot that adds up to the counts, every key shows the classical bits in Qiskit's order and register layout, and frequencies follow the exact distribution. "
  "Unwritten classical bits read 0, a bit written several times holds the last value, and only shots are drawn that the distribution allows.",
  ["programs", "inputs", "configurations"], "every circuit with final measurements, every register layout, every shot count",
  "Tests use one register whose clbits equal the qubits; permutations, several registers, partial and repeated measurement are not sampled.",
  [BE], [("counts and memory assembly", BE), ("classical bit map", BE)],
  "conservation and statistical monitors at the backend API",
  "Random circuits and layouts, counts checked for conservation, support and Bernstein bounds against an exact reference.", ["result().get_counts()", "get_memory()"], HOOK)
p("P20", "Mid-circuit measurement, reset and conditions follow Qiskit's semantics",
  "Circuits with mid-circuit measurement, reset and gates conditioned on classical bits or registers produce outcomes with the distribution obtained by following every branch, each shot independently. "
  "Conditional measurements and resets are honoured, and barriers never change an outcome.",
  ["programs", "inputs"], "every dynamic circuit",
  "Tests run a couple of teleportation-like circuits; conditions on partial or multi-bit registers and reuse of measured bits are absent.",
  [BE], [("_evaluate_circuit instruction loop", BE), ("circuit property validation", BE)],
  "branching reference model with statistical monitor at the backend API",
  "Random dynamic circuits compared with an exact branch-following reference.", ["counts", "memory"], HOOK)
p("P21", "Exact probabilities are exact",
  "Asking for results without shots returns the exact outcome distribution of the circuit over its classical bits: it sums to one, every outcome has the probability of the measured qubits' joint distribution, and repeating the call gives the same answer. "
  "It agrees with what sampling the same circuit converges to.",
  ["programs", "inputs"], "every circuit with measurements, every mapping of qubits to classical bits",
  "Tests compare a Bell circuit; permuted or partial measurement maps and conditional structure are not compared with a reference.",
  [BE], [("exact branch of _evaluate_circuit", BE)],
  "reference-model monitor (exact distribution) at the backend API",
  "Random circuits with final measurements compared exactly; circuits with measurements or resets before the end are a recorded known finding.", ["result data probabilities"], HOOK)
p("P22", "Parameters bind to the right gates and batches keep their order",
  "For parametrised circuits, every set of values binds by parameter as the user stated and each gives the result of the circuit with the numbers written in; a list of circuits returns one result per circuit, in order and with its own classical layout, and bindings that do not fit the list are refused. "
  "A run leaves the user's circuits and parameter lists unchanged and never influences the next run.",
  ["inputs", "programs", "histories"], "every batch and every binding",
  "Tests bind one or two parameters in one circuit; order and expression handling over batches are not sampled.",
  [BE], [("run and parameter binding", BE), ("experiment headers", BE)],
  "metamorphic monitor: bound batch against individually written circuits",
  "Random batches with shared, repeated and expression parameters.", ["result per experiment"], HOOK)
p("P23", "Jobs are isolated, rejected cleanly and reported truthfully",
  "Jobs running at the same time in one process return what each would return alone; an invalid request (bad shots, too many qubits, unsupported gate, no measurement) is reported as an error and leaves the backend fully usable. "
  "Job status, success flags, shots and metadata describe what actually happened.",
  ["schedules", "histories", "fault_sequences"], "every mix of concurrent and failing jobs",
  "Tests run one job at a time and look at the error only.",
  [BE, "qdd/qdd_job.py", "qdd/qdd_failed_job.py"], [("run validation", BE), ("engine lock", BE), ("job classes", "qdd/qdd_job.py")],
  "concurrent-history and fault-injection monitors at the job API",
  "Concurrent jobs and injected invalid requests, each result compared with a reference.", ["job.result(), job.status()"], HOOK)
p("P24", "The Sampler returns the quasi-distribution of each circuit and value set",
  "For every batch of circuits and parameter values the Sampler returns one distribution per entry, in order, over the integer outcome of the classical bits: exact when no shots are requested, otherwise frequencies of the requested number of shots. "
  "Results do not depend on earlier calls, on repeated circuits in a batch or on skipping transpilation.",
  ["inputs", "programs", "histories"], "every batch of circuits and parameter values, every option",
  "Tests cover a fixed pair of circuits with one parameter set each.",
  ["qdd/qdd_sampler.py", BE], [("circuit cache", "qdd/qdd_sampler.py"), ("_call", "qdd/qdd_sampler.py")],
  "reference-model and statistical monitors at the primitive API", "Random batches against the exact reference.", ["SamplerResult"], HOOK)
p("P25", "The Estimator returns each observable's expectation value",
  "For every batch of circuits, observables and parameter values the Estimator returns, in order, the expectation value of the observable: exact when approximation is requested without shots, an unbiased estimate otherwise, whose reported variance is the sum of its terms' variances. "
  "This holds for every Pauli sum including identity terms and complex structure, with and without grouping of commuting terms, and does not depend on earlier calls.",
  ["inputs", "programs", "histories"], "every batch of circuits, observables and parameter values, every option",
  "Tests use a handful of observables on two-qubit circuits.",
  ["qdd/qdd_estimator.py"], [("measurement circuits", "qdd/qdd_estimator.py"), ("post-processing", "qdd/qdd_estimator.py"), ("experiment cache", "qdd/qdd_estimator.py")],
  "reference-model and statistical monitors at the primitive API", "Random batches against numpy expectation values.", ["EstimatorResult"], HOOK)
p("P26", "A merged circuit acts exactly like its gates",
  "Merging a circuit into one gate gives a gate that, placed on any qubits of any larger circuit, acts as the merged gates one after another, for any setting of how often memory is collected while merging. "
  "Merged gates stay valid however many others are merged and whatever runs in between, and circuits that cannot be merged are refused.",
  ["programs", "inputs", "histories"], "every mergeable circuit, every placement, every order of merging and running",
  "Tests merge one circuit and place it on the qubits in order.",
  [BE, "qdd/qdd_gate.py"], [("merge_circuit", BE), ("merged gate placement", BE)],
  "reference-model monitor (unitary of the merged circuit) at the backend API",
  "Random merged circuits, placements, collection frequencies and histories.", ["statevector"], HOOK)
p("P27", "Memory stays bounded while the live state stays small",
  "A program of any length whose live states and operators stay small keeps the process's memory use bounded when collection is used: it does not grow with the number of operations, measurements or read-outs. "
  "This also holds for repeated jobs through the backend.",
  ["histories", "programs"], "every long program with small live objects",
  "Tests end after a few operations, long before a slow leak shows.",
  [DD, "include/table.hpp", "include/cache.hpp", BE], [("gc thresholds and free lists", "include/table.hpp"), ("cache clearing", "include/cache.hpp")],
  "resource monitor (bytes in use) over long programs", "Bytes in use after early and after late collections are compared.", ["allocator statistics"], HOOK)

p("P28", "A seed makes random results repeatable",
  "Running the same circuits with the same seed (the backend's seed_simulator, in the run or in its options, or a primitive's seed) gives the same shots, counts and estimates however much other work ran in between. "
  "Different seeds, and runs without a seed, draw different shots, and the circuits of one job do not share their shots.",
  ["histories", "inputs", "configurations"], "every circuit, every way of giving a seed, every history in between",
  "No test sets a seed; a generator that is not reseeded, or reseeded too often, still passes every frequency test.",
  [BE, "qdd/bindings.cpp", "qdd/qdd_sampler.py", "qdd/qdd_estimator.py"], [("seed_simulator option", BE), ("generator", "qdd/bindings.cpp"), ("seed of the primitives", "qdd/qdd_sampler.py")],
  "metamorphic monitor: pairs of runs with equal and with different seeds", "Pairs of histories compared shot by shot.", ["get_memory()", "SamplerResult", "EstimatorResult"], HOOK)
p("P29", "A distributed backend job gives every process the answer an ordinary job gives",
  "With use_mpi, on any supported number of processes and whichever of automatic swapping (either version) and broadcasting is chosen, a job gives on every process the state vector, probabilities and expectation values the same circuit prescribes, and counts drawn from the same distribution, the same on all processes. "
  "Distributed and ordinary jobs may follow each other in any order, a job with too few qubits is refused everywhere, and no process waits for ever.",
  ["inputs", "configurations", "histories"], "every circuit, options, process count and sequence of jobs",
  "The tests run under MPI exercise the engine with one circuit; no test runs the backend over several processes, where a swapped qubit, a part that is zero or a bit layout shows only for particular circuits and counts.",
  [BE, "qdd/bindings.cpp", DD, "qdd/circuit_property.py"],
  [("_run_experiment with use_mpi", BE), ("automatic swapping v1/v2", BE), ("mv_multiply_MPI, measurement over processes", DD)],
  "reference-model monitor in every process of an MPI job, answers compared across processes",
  "mpi4py is not installed: a stand-in (py/stubs/mpi4py) provides the three calls the package makes, over the same MPI library.",
  ["result().data()", "get_counts()", "get_memory()"], HOOK)
p("P30", "The Python engine module computes what the engine's operations mean",
  "Called directly from Python, the engine module (pyQDD) makes the gates, controlled gates, two-qubit and multi-qubit matrices and initial states its functions name, on the qubits given; applying, multiplying, adding, reading out (vector, matrix, text, sizes), collecting and measuring give what linear algebra and the Born rule prescribe, collapsed states included. "
  "Its distributed functions give every process of an MPI job the same answers for the same arguments, and arguments a gate cannot accept are refused rather than answered.",
  ["inputs", "histories", "configurations"], "every function, register, qubit placement, parameter and process count",
  "Tests call a few of the module's functions with fixed arguments; a transposed matrix conversion, a swapped pair of targets or an overload that drops an argument shows only for asymmetric inputs.",
  ["qdd/bindings.cpp", DD, "src/common.cpp"],
  [("PYBIND11_MODULE(pyQDD)", "qdd/bindings.cpp"), ("get_dd / get_dd_mpi conversions", "qdd/bindings.cpp")],
  "dense reference-model monitor over random programs against the module's functions; answers compared across MPI processes",
  "Module functions whose meaning nothing states (an unknown gate name) are left out; see DESIGN.md.",
  ["getVector()", "getEigenMatrix()", "measureAll(), measureOneCollapsing()"], HOOK)
p("P31", "What provider, backend, job and result say about themselves is true",
  "A provider lists and finds the backends by name; a backend's number of qubits, gates, limits and options are those it honours (circuits and shots over a stated limit are refused, unknown options are warned about and ignored); a result carries, for each circuit in order, the circuit's name, shots, register layout, global phase and metadata, the backend's name and version, and the job's id; and the job's status agrees with what result() gives.",
  ["inputs", "configurations"], "every circuit, batch, option set and order of calls",
  "Tests look at single fields of a single result; a header taken from the wrong circuit of a batch, or a limit off by one, shows only in batches and at the limit.",
  [BE, "qdd/qdd_provider.py", "qdd/qdd_job.py"],
  [("QddBackend._validate, _run_experiment header", BE), ("QddProvider.get_backend", "qdd/qdd_provider.py"), ("QddJob.status, result", "qdd/qdd_job.py")],
  "monitor comparing every described value with the circuit, option or job it describes",
  "Exact read-outs beyond memory run under a temporary address-space limit.",
  ["provider.backends()", "backend.target, options", "result().to_dict()", "job.status()"], HOOK)

p("P32", "Pruning removes exactly the entries below the threshold",
  "Pruning a state or operator sets to zero exactly the entries whose magnitude is below the threshold and leaves every other entry as it was; the original, and every other state and operator, keep their values; and the result is an ordinary state or operator for everything that follows.",
  ["inputs", "configurations"], "every state and operator, threshold and later use",
  "No test calls prune; a pruned node that is shared with another state, or the terminal, silently changes results computed afterwards.",
  [DD], [("prune", DD), ("unique tables", "include/table.hpp")],
  "dense-reference monitor on pruned objects, their originals and unrelated objects", "Thresholds are kept away from the entries' own magnitudes by a relative margin.",
  ["returned vectors and matrices", "prune"], HOOK)

HOOKS = dict(guard="QDD_VERIF", enable="-DQDD_VERIF -DQDD_VERIF_NBUCKETS=<n> -DQDD_VERIF_ALLOC=<n> -DQDD_VERIF_FIBER_LEVELS=<n> (set by lib/build.py; the checks compile /repo's sources themselves)",
             source_commits=["a4730ed", "d95824e", "f7c8004"])


def main():
    full = subprocess.run(["git", "-C", build_repo(), "rev-parse"] + HOOKS["source_commits"], stdout=subprocess.PIPE, text=True).stdout.split()
    HOOKS["source_commits"] = full or HOOKS["source_commits"]
    checks = []
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for q, tech, note in P:
            if q["id"] in plan.PLAN:
                f.write(json.dumps(q) + "\n")
                checks.append(dict(property=q["id"], quick_cmd="python3 check.py %s --tier quick" % q["id"],
                                   thorough_cmd="python3 check.py %s --tier thorough" % q["id"],
                                   evidence_file="evidence/%s.json" % q["id"], technique=tech, level="exploration", level_note=note))
    json.dump(dict(version=1, setup_cmd="python3 check.py --setup", hooks=HOOKS, checks=checks, not_applicable=[],
                   notes="See DESIGN.md. KNOWN_FINDINGS.txt lists recorded and repaired defects."),
              open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
    missing = [q["id"] for q, _, _ in P if q["id"] not in plan.PLAN]
    print(len(checks), "claimed; not built yet:", missing)
    for q, _, _ in P:
        assert len(q["title"]) <= 80, q["id"]


def build_repo():
    return os.environ.get("QDD_REPO", "/repo")


if __name__ == "__main__":
    main()
