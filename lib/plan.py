"""What each property's check runs.  `k` scales the number of cases (1: quick)."""
import os
import build
from runner import Job


def cpp(variant, mode, count, shards=8, harness="engine", **kw):
    return Job("cpp", variant, harness, mode, int(count), shards, **kw)


def py(mode, count, shards=8, harness="drv", variant="small", **kw):
    return Job("py", variant, harness, mode, int(count), shards, **kw)


def mpi(mode, count, np, harness="mpi", variant="mpi", shards=1, **kw):
    return Job("mpi", variant, harness, mode, int(count), shards, np=np, **kw)


TOL = "double-precision tolerances: 1e-9 per amplitude on registers compared densely, 1e-9 relative on fused or large ones"
DENSE = "the dense state-vector / matrix reference in cpp/vcommon.hpp is right (it shares no code with the engine)"
STAT = "statistical monitors use Bernstein bounds with a false-alarm probability below e^-31 per comparison"

PLAN = {}


def prop(pid, jobs, rule, assumes, **kw):
    PLAN[pid] = dict(jobs=jobs, rule=rule, assumes=assumes, **kw)


prop("P01", lambda k: [cpp("small", "gates_enum", 1504, 2), cpp("tiny", "gates_enum", 1504, 2),
                       cpp("small", "gates", 48000 * k), cpp("tiny", "gates", 4000 * k)],
     "every placement of targets and signed controls on up to 5 qubits (1504, enumerated), then random named, "
     "parametrised and raw-matrix gates on 1-10 qubits; the full operator is read back and compared entry by entry. "
     "Distinct: different gate, placement and register size.", [DENSE, TOL])
prop("P02", lambda k: [cpp("small", "evolve", 40000 * k), cpp("tiny", "evolve", 10000 * k)],
     "random programs of gates on random registers (1-9 qubits), state compared with the dense simulator during and "
     "after; the tiny build makes every table collide. Distinct: different program text.", [DENSE, TOL])
prop("P03", lambda k: [cpp("small", "algebra", 24000 * k), cpp("tiny", "algebra", 5000 * k)],
     "random operator and state expressions: sums, products, tensor products, adjoints, inner products, "
     "against dense matrices, plus algebraic laws. Distinct: different expression.", [DENSE, TOL])
prop("P04", lambda k: [cpp("small", "canon", 48000 * k), cpp("tiny", "canon", 10000 * k), cpp("small", "sizes", 400 * k)],
     "one state or operator built along two different routes whose weights are exact binary fractions: same root, same "
     "size; structural walk: normalised, ordered, no duplicate nodes, no redundant operator levels; sizes of known "
     "families on large registers. Distinct: different object.", [DENSE])
prop("P05", lambda k: [cpp("small", "gc", 8000 * k), cpp("tiny", "gc", 2500 * k), cpp("small", "gcwork", 16 * k),
                       cpp("tiny", "reuse", 6000 * k), cpp("small", "reuse", 240 * k), cpp("small", "gclarge", 12 * k, 4)],
     "programs interleaved with collections at random points and with random thresholds, keeping random subsets of "
     "live states and operators; every kept object is compared with its dense value after every collection; long "
     "programs reach the shipped thresholds, dense ones have 10^5 nodes, and short-lived objects of one shape recycle nodes. Distinct: different program.", [DENSE, TOL])
prop("P06", lambda k: [cpp("small", "history", 9000 * k), cpp("tiny", "history", 900 * k)],
     "one computation is run in a fresh engine-visible history and again after unrelated work filled the tables and "
     "caches; the results agree with the dense reference and with each other. Distinct: different pair.", [DENSE, TOL])
prop("P07", lambda k: [cpp("small", "sample", 12000 * k), cpp("small", "samplewide", 8000 * k), cpp("small", "rare", 12000 * k)],
     "20000 shots of a random state without collapse, 1500 shots of groups of entangled qubits on 7-100 qubits, repeated collapsing measurements, and outcomes forced by the caller's generator: frequencies, "
     "independence of successive shots, impossible outcomes, collapsed state. Distinct: different state.", [DENSE, STAT])
prop("P08", lambda k: [cpp("small", "measure", 16000 * k), cpp("tiny", "measure", 600 * k), cpp("small", "rare", 12000 * k), cpp("tiny", "rare", 3000 * k)],
     "every qubit of random states: reported probabilities, frequencies of repeated measurement, post-measurement "
     "states, and measurement sequences until the state is classical. Distinct: different state.", [DENSE, STAT])
prop("P09", lambda k: [cpp("small", "probs", 12000 * k), cpp("tiny", "probs", 2500 * k),
                       cpp("small", "print", 8000 * k), cpp("tiny", "print", 800 * k)],
     "every way of reading a state or operator (vector, matrix, probabilities, printed form) against the dense value. "
     "Distinct: different object.", [DENSE, TOL])
prop("P10", lambda k: [cpp("small", "large", 8000 * k)],
     "registers of 9-100 qubits whose amplitudes have closed forms (basis states and permutations, products, "
     "GHZ/graph states, phase cascades, fused operators). Distinct: different program.", [TOL])
_ASAN = dict(gates_enum=1504, gates=2400, evolve=1200, algebra=2400, canon=2400, sizes=40, gc=1000, gcwork=2, history=400,
             sample=60, samplewide=100, measure=60, rare=300, reuse=300, gclarge=2, probs=800, print=400, prune=600, large=160, bounded=2)
_MEMCHECK = dict(gates=400, evolve=160, algebra=160, canon=160, gc=60, history=40, sample=1, samplewide=8, measure=4, rare=60, reuse=20, probs=100, print=60, prune=100, large=40)
_ASANPY = [("drv", "circuits", 300), ("drv", "gates", 400), ("drv", "merge", 120), ("drv", "dynamic", 100), ("drv", "counts", 160), ("drv", "exact", 100),
           ("drv", "binds", 80), ("drv", "sampler", 60), ("drv", "estimator", 60), ("drv", "failing", 60), ("drv", "wide", 80),
           ("pyeng", "operators", 300), ("pyeng", "states", 160), ("pyeng", "measures", 160)]
prop("P11", lambda k: [cpp(v, m, max(1, c * k // (1 if v == "asan" else 3)), 4 if c > 100 else 2, timeout=400)
                       for v in ("asan", "asantiny") for m, c in _ASAN.items() if not (v == "asantiny" and m in ("gcwork", "bounded", "gclarge"))] + [
                       py(m, c * k, 4, harness=h, variant="asan", timeout=400) for h, m, c in _ASANPY] + [
                       cpp("memcheck", m, c * k, 2 if c > 100 else 1, timeout=400) for m, c in _MEMCHECK.items()],
     "every sequential workload, from C++ and through the Python module, under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, with the engine's "
     "assertions on, on small and on permanently colliding tables, and under Valgrind's memcheck for uninitialised memory. Distinct: different case.",
     ["red-zone sanitizers miss non-adjacent and intra-object overflows"], scale=6)
prop("P12", lambda k: [cpp("mt", "mtevolve", 160 * k, 4, harness="mt", slots=2), cpp("mttiny", "mtevolve", 100 * k, 2, harness="mt", slots=2),
                       cpp("mtdeep", "mtevolve", 60 * k, 2, harness="mt", slots=2),
                       cpp("mt", "mtreuse", 80 * k, 4, harness="mt", slots=2), cpp("mttiny", "mtreuse", 120 * k, 2, harness="mt", slots=2), cpp("mt", "mtlarge", 160 * k, 2, harness="mt", slots=2),
                       cpp("mttiny", "mtlarge", 100 * k, 2, harness="mt", slots=2), py("mtjobs", 400 * k, 4, variant="mt", slots=2)],
     "random programs on 7-12 qubits (and 20-60 with closed forms) applied by 1-16 workers, with collections between "
     "operations and phases of sequential work, and the same gates on ever new states with a collection each round, state compared with the dense simulator; stolen fibers are counted. "
     "Distinct: different program.", [DENSE, TOL, "schedules are those the machine produced"])
prop("P13", lambda k: [cpp("tsan", "threads", 600 * k, 4, harness="mt", slots=2), cpp("mtplain", "threads", 6000 * k, 4, harness="mt", slots=2),
                       cpp("asanmt", "threads", 900 * k, 2, harness="mt", slots=2)],
     "2-8 threads build and combine the same and different operators and states at once; results, root identity across "
     "threads and node uniqueness, under ThreadSanitizer, under AddressSanitizer, and uninstrumented on colliding tables. "
     "Distinct: different set of thread programs.",
     [DENSE, "fibers are confined to P12: ThreadSanitizer cannot follow boost.fiber context switches", "schedules are those the machine produced"])
prop("P14", lambda k: [cpp("mt", "lifecycle", 2400 * k, 4, harness="mt", slots=2), cpp("mt", "tasks", 2000 * k, 4, harness="mt", slots=2),
                       cpp("mt", "wsq", 12000 * k, 4, harness="mt", slots=2)],
     "random sequences of starting, using and stopping pools of 1-16 workers; fibers that record their own execution; an "
     "owner and thieves on one work-stealing queue. Distinct: different sequence.", ["schedules are those the machine produced"])
MPISAN = dict(variant="mpiasan", env={"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:handle_abort=1"})
RANKS = "processes share this machine; messages travel through Open MPI's shared-memory transport"
prop("P15", lambda k: [mpi("mpigates", 4500 * k, 2, shards=2), mpi("mpigates", 4500 * k, 4, shards=2), mpi("mpigates", 2400 * k, 8),
                       mpi("mpigates", 1200 * k, 1), mpi("mpiblocks", 4800 * k, 1, shards=8),
                       mpi("mpigates", 900 * k, 2, **MPISAN), mpi("mpigates", 900 * k, 4, **MPISAN)],
     "random programs on 2-12 qubits over 1, 2, 4 and 8 processes, ring and broadcast exchange mixed, starting from basis "
     "states and from arbitrary parts of which some are zero; gathered parts against the dense simulator; every block of "
     "random operators handed to the processes. Distinct: different program and process count.", [DENSE, TOL, RANKS])
prop("P16", lambda k: [mpi("mpimeasure", 720 * k, 2, shards=2), mpi("mpimeasure", 720 * k, 4, shards=2), mpi("mpimeasure", 480 * k, 8),
                       mpi("mpimeasure", 180 * k, 1), mpi("mpiprint", 900 * k, 2), mpi("mpiprint", 900 * k, 4), mpi("mpiprint", 600 * k, 8),
                       mpi("mpirare", 900 * k, 2), mpi("mpirare", 900 * k, 4), mpi("mpirare", 400 * k, 8),
                       mpi("mpimeasure", 90 * k, 2, **MPISAN)],
     "random distributed states over 1, 2, 4 and 8 processes: probabilities, 1500 samples, repeated and collapsing "
     "measurements, gate and measurement programs and the printed vector, answers compared across processes. "
     "Distinct: different program and process count.", [DENSE, STAT, RANKS])
prop("P17", lambda k: [mpi("transport", 1800 * k, 1, shards=2), mpi("transport", 1800 * k, 2, shards=2), mpi("transport", 1200 * k, 4, shards=2),
                       mpi("transport", 720 * k, 8), mpi("biggies", 4 * k, 2), mpi("biggies", 3 * k, 4), mpi("transport", 480 * k, 2, **MPISAN)],
     "random states and operators through files (same and other process), blocking and non-blocking messages, text and binary archives, with tables "
     "scrubbed in between; values and later computations compared. Distinct: different object and process count.",
     [DENSE, TOL, RANKS])
prop("P27", lambda k: [cpp("small", "bounded", 24 * k), py("pybounded", 22 * k, 11)],
     "programs of 2400 gates whose live state stays small, with collection: bytes in use after the last collections "
     "against the first; hundreds of equal backend jobs likewise. Distinct: different program kind and register.", ["mallinfo2 counts what the process holds"])


QREF = "the reference in py/ref.py (numpy over the definitions of Qiskit's gates and control flow) is right"
prop("P18", lambda k: [py("gates", 7696 * k), py("circuits", 4000 * k), py("transpiled", 1600 * k), py("wide", 800 * k, 4), py("initialised", 240 * k)],
     "every supported gate on every placement of registers up to 5 qubits (enumerated), random circuits on 1-7 qubits with open and closed "
     "controls and several registers, Qiskit's random circuits transpiled at every level, and circuits with known outcomes on 20-100 qubits. "
     "Distinct: different circuit.", [QREF, TOL])
prop("P19", lambda k: [py("counts", 2800 * k), py("options", 400 * k), py("wide", 800 * k, 4)],
     "random circuits, classical register layouts, partial, permuted and repeated measurement, 1-3000 shots with and without memory. "
     "Distinct: different circuit, shots and options.", [QREF, STAT])
prop("P20", lambda k: [py("dynamic", 3200 * k), py("directed", 1800 * k, 4)],
     "random and textbook circuits with measurement, reset and conditions on bits and registers (also registers regrouping existing bits) at random places. Distinct: different circuit.", [QREF, STAT])
prop("P21", lambda k: [py("exact", 3200 * k), py("exactdyn", 600 * k, 4)],
     "random circuits and measurement maps without shots, each asked twice and sampled for comparison. Distinct: different circuit.", [QREF, TOL])
prop("P22", lambda k: [py("binds", 2800 * k)],
     "batches of parametrised circuits with awkward parameter names, expressions and shared parameters, against the same circuits written "
     "with numbers; lists of values that do not fit. Distinct: different batch.", [QREF, TOL])
prop("P23", lambda k: [py("failing", 1600 * k), py("failing", 800 * k, 4, variant="mt"), py("options", 800 * k), py("concurrent", 480 * k)],
     "invalid requests of 12 kinds between valid jobs, and up to five threads running backend, primitive and merge jobs at once while "
     "collections are frequent. Distinct: different history.", [QREF, STAT, "schedules are those the machine produced"])
prop("P24", lambda k: [py("sampler", 1600 * k), py("primwide", 400 * k, 4)],
     "batches with repeated circuits and permuted parameters (also elements of vectors) over several calls, exact and with shots; circuits of 20-100 qubits with closed forms. Distinct: different entry.", [QREF, STAT])
prop("P25", lambda k: [py("estimator", 1600 * k), py("primwide", 800 * k, 4)],
     "batches over random Pauli sums (identity terms, negative weights), exact, sampled, normal approximation, with and without grouping; Pauli strings over 20-100 qubits with closed forms. "
     "Distinct: different entry.", [QREF, STAT])
prop("P26", lambda k: [py("merge", 2000 * k)],
     "random circuits merged with random collection frequencies, nested, kept across cases, placed on random qubits. Distinct: different placement.", [QREF, TOL])
prop("P28", lambda k: [py("seeds", 2400 * k), py("fresh", 8 * k, 8)],
     "pairs of runs with one seed given in different ways, with other work in between, runs with other seeds or none, and processes of their own. Distinct: different circuit.", [QREF])


def pympi(mode, count, np, shards=1):
    return py(mode, count, shards, harness="mpidrv", variant="mpi", np=np, slots=np)


prop("P29", lambda k: [pympi("state", 400 * k, 2), pympi("state", 360 * k, 4), pympi("state", 60 * k, 8),
                       pympi("counts", 800 * k, 2), pympi("counts", 500 * k, 4), pympi("counts", 60 * k, 8),
                       pympi("dynamic", 400 * k, 2), pympi("dynamic", 300 * k, 4), pympi("dynamic", 40 * k, 8),
                       pympi("mixed", 200 * k, 2), pympi("mixed", 120 * k, 4), pympi("mixed", 100 * k, 1)],
     "distributed backend jobs over 1, 2, 4 and 8 processes with every combination of automatic swapping, its version and broadcast: state "
     "vectors, exact probabilities, counts, circuits with measurement in the middle, batches, parameters, primitives, mixed with ordinary and "
     "refused jobs; answers compared with the reference and across processes. Distinct: different circuit, options and process count.",
     [QREF, STAT, RANKS])
prop("P30", lambda k: [py("operators", 4000 * k, harness="pyeng"), py("states", 1600 * k, harness="pyeng"), py("measures", 2400 * k, harness="pyeng"),
                       pympi("engine", 600 * k, 2), pympi("engine", 400 * k, 4), pympi("engine", 60 * k, 8)],
     "every function of the pyQDD module that makes, applies, multiplies, adds, reads, prints, measures or distributes states and operators, on "
     "registers up to 6 qubits densely and larger ones by known outcomes. Distinct: different function, register and arguments.", [DENSE, TOL, STAT, RANKS])
prop("P31", lambda k: [py("described", 400 * k)],
     "random jobs and batches; what provider, backend, job and result say about themselves against what was run; limits and option warnings "
     "provoked on both sides of the limit. Distinct: different job.", [QREF])

prop("P32", lambda k: [cpp("small", "prune", 30000 * k), cpp("tiny", "prune", 4000 * k)],
     "random states and operators with entries of very different sizes pruned at thresholds below, between and above them, with sharing relatives alive, and used afterwards. "
     "Distinct: different object and threshold.", [DENSE, TOL])


def setup():
    """setup_cmd: builds every variant once."""
    from runner import prepare
    jobs = []
    for pid in sorted(PLAN):
        jobs += PLAN[pid]["jobs"](1)
    prepare(jobs)
    build.prune()
    print("built", len({(j.kind, j.variant, j.harness) for j in jobs}), "programs")
    return 0
