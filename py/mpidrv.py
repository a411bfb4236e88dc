"""Monitors at the Qiskit backend API in a distributed job (use_mpi); run under mpirun, on the MPI build.
   mpidrv.py <mode> <seed> <start> <count>

Every process builds the same workload from the same random stream; each one judges its own answers."""
import os
import shutil
import sys
import tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs"))
from mpi4py import MPI                                              # noqa: E402
RANK, SIZE = MPI.COMM_WORLD.Get_rank(), MPI.COMM_WORLD.Get_size()
if RANK and "QDD_EVENTS" in os.environ:
    os.environ["QDD_EVENTS"] += ".%d" % RANK
if RANK:
    os.environ.pop("QDD_CASE", None)
from common import *                                                # noqa: E402,F401,F403
from common import (R, TOL, QuantumCircuit, add_cregs, backend, bernstein, compare_counts, compare_dist, describe,   # noqa: E402
                    dynamic_circuit, int_dist, measure_some, np, pyQDD, quiet, random_circuit, ref, short, sv_backend)
import ev                                                           # noqa: E402
from qdd.qdd_estimator import Estimator as QddEstimator             # noqa: E402
from qdd.qdd_sampler import Sampler as QddSampler                   # noqa: E402

LOW = (SIZE - 1).bit_length()                                       # fewer qubits than this + 1: refused


def together(ok):
    """Ends the case everywhere when it failed anywhere."""
    if not MPI.COMM_WORLD.all(ok):
        raise ev.Skip()


def options(rng):
    o = dict(use_mpi=True)
    if rng.random() < 0.8:
        o["use_auto_swap"] = bool(rng.random() < 0.7)
    if rng.random() < 0.8:
        o["swap_ver"] = ["v1", "v2"][rng.integers(2)]
    if rng.random() < 0.8:
        o["use_bcast"] = bool(rng.random() < 0.5)
    return o


def run(b, c, key, **o):
    with quiet():
        res = b.run(c, **o).result()
    together(R.check(res.success is True, key + "-rejected", lambda: "a valid job failed (%s; %s) on process %d of %d: %s" % (
        getattr(res, "status", "?"), o, RANK, SIZE, short(c, 1500))))
    return res


def same_everywhere(x, key, text):
    """Process 0's answer, as text, against everybody's."""
    mine = repr(x)
    R.check(MPI.COMM_WORLD.bcast(mine) == mine, key + "-agreement", lambda: "process %d of %d: another answer than process 0: %s: %s" % (RANK, SIZE, mine[:300], text()))


def where(o, c):
    return lambda: "%d processes, %s: %s" % (SIZE, o, describe(c))


def state(rng, i):
    """State vectors and exact probabilities of several jobs in a row, options mixed, distributed or not."""
    pyQDD.set_gc_thr(*[[65536, 65536], [40, 40], [0, 0]][rng.integers(3)])
    for _ in range(int(rng.integers(1, 4))):
        n = int(rng.integers(LOW + 1, LOW + 6))
        c = random_circuit(rng, n, int(rng.integers(0, 22)), 5)
        o = options(rng) if rng.random() < 0.9 else {}
        res = run(sv_backend(), c, "mpi-state", shots=None, **o)
        want = ref.statevector(c)
        got = np.array(res.data()["statevector"])
        d = np.abs(got - want).max() if got.shape == want.shape else np.inf
        together(R.check(d <= TOL, "mpi-state", lambda: "amplitude error %.3g (%d of %d amplitudes), process %d, %s" % (d, len(got), len(want), RANK, where(o, c)())))
        probs = {k: v for k, v in res.data()["probabilities"].items()}
        together(compare_dist(probs, {k: float(abs(a) ** 2) for k, a in enumerate(want)}, "mpi-state-probabilities", where(o, c)))
        R.seen(describe(c), sorted(o.items()), SIZE)
        R.count("jobs")
        R.count("jobs_" + ("distributed" if o else "sequential"))
        R.count("gates", len(c.data))
    if i % 41 == 0:
        R.sample(where(o, c)()[:300])


def counts(rng, i):
    """Counts and exact outcome probabilities of circuits measured at the end."""
    n = int(rng.integers(LOW + 1, LOW + 5))
    c = random_circuit(rng, n, int(rng.integers(0, 16)), 4)
    add_cregs(rng, c, int(rng.integers(1, 7)))
    measure_some(rng, c)
    want = int_dist(ref.outcome_distribution(c))
    o = options(rng)
    text = where(o, c)
    if rng.random() < 0.4:
        got = run(backend(), c, "mpi-exact", shots=None, **o).data()["probabilities"]
        compare_dist(got, want, "mpi-exact", text)
        R.count("exact")
    else:
        N = int([1, 2, 50, 400][rng.integers(4)])
        memory = bool(rng.random() < 0.5)
        res = run(backend(), c, "mpi-counts", shots=N, memory=memory, **o)
        cnt = int_dist(res.get_counts())
        R.check(sum(cnt.values()) == N, "mpi-counts-total", lambda: "%d outcomes for %d shots: %s" % (sum(cnt.values()), N, text()))
        compare_counts(cnt, want, N, "mpi-counts", text)
        if memory:
            mem = res.get_memory()
            tally = {}
            for m in mem:
                tally[m] = tally.get(m, 0) + 1
            R.check(tally == dict(res.get_counts()), "mpi-memory", lambda: "the memory lists other outcomes than the counts: %s" % text())
        same_everywhere(sorted(cnt.items()), "mpi-counts", text)
        R.count("shots", N)
    R.seen(describe(c), sorted(o.items()), SIZE)
    if i % 41 == 0:
        R.sample(text()[:300])


def dynamic(rng, i):
    """Measurement, reset and conditions before the end."""
    n = int(rng.integers(LOW + 1, LOW + 4))
    c = dynamic_circuit(rng, n, int(rng.integers(1, 5)), int(rng.integers(1, 14)))
    o = options(rng)
    text = where(o, c)
    N = 60
    want = int_dist(ref.outcome_distribution(c))
    res = run(backend(), c, "mpi-dynamic", shots=N, memory=True, **o)
    cnt = int_dist(res.get_counts())
    compare_counts(cnt, want, N, "mpi-dynamic", text)
    same_everywhere(res.get_memory(), "mpi-dynamic", text)
    R.count("shots", N)
    R.seen(describe(c), sorted(o.items()), SIZE)
    if i % 17 == 0:
        R.sample(text()[:300])


def mixed(rng, i):
    """Distributed and ordinary jobs in turn, refused ones between them, and the same seed twice."""
    for _ in range(4):
        kind = int(rng.integers(7))
        c = None
        if kind == 4:                                               # a batch
            cs = [random_circuit(rng, int(rng.integers(LOW + 1, LOW + 4)), 6, 4) for _ in range(int(rng.integers(1, 4)))]
            o = options(rng)
            with quiet():
                res = sv_backend().run(cs, shots=None, **o).result()
            together(R.check(res.success is True and len(res.results) == len(cs), "mpi-batch", lambda: "a batch of %d failed: %s" % (len(cs), where(o, cs[0])())))
            for k, c in enumerate(cs):
                got, want = np.array(res.data(k)["statevector"]), ref.statevector(c)
                R.check(got.shape == want.shape and np.abs(got - want).max() <= TOL, "mpi-batch", where(o, c))
        elif kind == 5:                                             # parameters
            from qiskit.circuit import Parameter
            n = int(rng.integers(LOW + 1, LOW + 4))
            p = [Parameter("p%d" % k) for k in range(3)]
            c = QuantumCircuit(n, n)
            for k in range(8):
                q = [int(x) for x in rng.permutation(n)]
                c.ry(p[k % 3] * (k + 1), q[0]); c.cx(q[0], q[1]) if n > 1 else None; c.rz(p[k % 2], q[-1])
            c.measure(range(n), range(n))
            v = {x: float(rng.uniform(-3, 3)) for x in p}
            o = options(rng)
            with quiet():
                res = backend().run([c], shots=None, parameter_binds=[v], **o).result()
            together(R.check(res.success is True, "mpi-binds", lambda: "failed: " + where(o, c)()))
            compare_dist(res.data()["probabilities"], int_dist(ref.outcome_distribution(c.assign_parameters(v))), "mpi-binds", where(o, c))
        elif kind == 6:                                             # primitives over a distributed backend
            n = int(rng.integers(LOW + 1, LOW + 4))
            while c is None or any(x.operation.name == "unitary" and len(x.qubits) > 1 for x in c.data):
                c = random_circuit(rng, n, 6, 2, phase=False)        # (two-qubit unitaries: known finding)
            o = options(rng)
            from qiskit.quantum_info import SparsePauliOp, Statevector
            obs = SparsePauliOp(["".join(rng.choice(list("IXYZ"), n)) for _ in range(3)], rng.uniform(-1, 1, 3))
            want = float(np.vdot(ref.statevector(c), obs.to_matrix() @ ref.statevector(c)).real)
            got = float(QddEstimator(backend_options=o, run_options={"shots": None}, approximation=True).run([c], [obs]).result().values[0])
            R.check(abs(got - want) <= 1e-7, "mpi-estimator", lambda: "%.9g instead of %.9g for %s: %s" % (got, want, obs, where(o, c)()))
            c.measure_all()
            q = QddSampler(backend_options=o, run_options={"shots": None}).run([c]).result().quasi_dists[0]
            compare_dist(dict(q), int_dist(ref.outcome_distribution(c)), "mpi-sampler", where(o, c))
        elif kind == 0 and LOW:
            c = QuantumCircuit(int(rng.integers(1, LOW + 1)), 1)
            c.h(0); c.measure(0, 0)
            o = options(rng)
            with quiet():
                import contextlib, io
                with contextlib.redirect_stdout(io.StringIO()):
                    job = backend().run(c, shots=5, **o)
            R.check(job.result().success is False, "mpi-too-many", lambda: "a job with fewer amplitudes than needed was accepted: " + where(o, c)())
            R.count("refused")
        elif kind in (0, 1):
            c = random_circuit(rng, int(rng.integers(1, 5)), 8, 4)
            c.measure_all()
            N = 300
            cnt = int_dist(run(backend(), c, "mpi-ordinary", shots=N).get_counts())
            compare_counts(cnt, int_dist(ref.outcome_distribution(c)), N, "mpi-ordinary", lambda: describe(c))
        elif kind == 2:
            c = random_circuit(rng, int(rng.integers(LOW + 1, LOW + 4)), 8, 4)
            c.measure_all()
            o, s = options(rng), int(rng.integers(1 << 31))
            a = run(backend(), c, "mpi-seed", shots=40, memory=True, seed_simulator=s, **o).get_memory()
            b = run(backend(), c, "mpi-seed", shots=40, memory=True, seed_simulator=s, **o).get_memory()
            R.check(a == b, "mpi-seed", lambda: "seed %d: other outcomes the second time: %s" % (s, where(o, c)()))
            same_everywhere(a, "mpi-seed", where(o, c))
        else:
            c = random_circuit(rng, int(rng.integers(LOW + 1, LOW + 4)), 8, 4)
            o = options(rng)
            got = np.array(run(sv_backend(), c, "mpi-mixed", shots=None, **o).data()["statevector"])
            want = ref.statevector(c)
            together(R.check(got.shape == want.shape and np.abs(got - want).max() <= TOL, "mpi-mixed", where(o, c)))
        R.seen(kind, describe(c), SIZE)
        R.count("jobs")


def engine(rng, i):
    """The engine module's distributed functions, called without Qiskit (every process builds the same program)."""
    import pyeng
    n = int(rng.integers(LOW + 1, LOW + 5))
    pyQDD.set_gc_thr(*[[65536, 65536], [40, 40], [0, 0]][rng.integers(3)])
    ones = bool(rng.random() < 0.3)
    e = pyQDD.makeOneStateMPI(n) if ones else pyQDD.makeZeroStateMPI(n)
    v = np.zeros(2 ** n, dtype=complex)
    v[-1 if ones else 0] = 1
    log = ["%d processes, n=%d, %s" % (SIZE, n, "ones" if ones else "zeros")]

    def text():
        return "; ".join(log)[:2500]
    for _ in range(int(rng.integers(0, 16))):
        k = int(rng.integers(13))
        if k == 12:                                                 # through files: one's own part, and another process's
            d = MPI.COMM_WORLD.bcast(tempfile.mkdtemp(prefix="qddv"))
            pyQDD.save_binary(e, "%s/%d" % (d, RANK))
            MPI.COMM_WORLD.all(True)
            other = (RANK + 1) % SIZE
            part = v[other * 2 ** n // SIZE:(other + 1) * 2 ** n // SIZE]
            there = pyQDD.load_binary("%s/%d" % (d, other))
            # (a part that is zero has no vector to read; one as good as zero may be zero)
            got = np.array(pyQDD.getVector(there)) if np.abs(part).max() > 1e-7 else part
            dev = np.abs(got - part).max() if got.shape == part.shape else (np.abs(part).max() + (np.abs(got).max() if got.size else 0))
            R.check(dev <= 1e-8, "mpi-engine-file", lambda: "part %d loaded by process %d, off by %.3g: %s" % (other, RANK, dev, text()))
            e = pyQDD.load_binary("%s/%d" % (d, RANK))
            MPI.COMM_WORLD.all(True)
            if RANK == 0:
                shutil.rmtree(d)
            log.append("files")
        elif k < 9:
            t, g, m, qs = pyeng.gate(rng, n)
            bc = bool(rng.integers(2))
            top = max(qs) if rng.random() < 0.7 else n - 1          # (any qubit above the gate's may be named)
            e = (pyQDD.mv_multiply_MPI_bcast if bc else pyQDD.mv_multiply_MPI)(g, e, n, top)
            v = ref.apply_matrix(v, m, qs, n)
            log.append(t + (" bcast" if bc else " ring"))
        elif k == 9:
            e = pyQDD.gc(e, bool(rng.integers(2)))
            log.append("gc")
        elif k == 10 and rng.random() < 0.6:
            q = int(rng.integers(n))
            e, c = pyQDD.measureOneCollapsingMPI(e, q, n)
            together(R.check(c in ("0", "1") and MPI.COMM_WORLD.bcast(c) == c, "mpi-engine-collapse", lambda: "outcome %r of qubit %d on process %d: %s" % (c, q, RANK, text())))
            v = ref.project(v, q, int(c), n)
            w = np.linalg.norm(v)
            together(R.check(w > 1e-7, "mpi-engine-impossible", lambda: "outcome %s of qubit %d, probability %.3g: %s" % (c, q, w * w, text())))
            v = v / w
            log.append("qubit %d measured: %s" % (q, c))
        else:
            q = int(rng.integers(n))
            e, p0 = pyQDD.measureOneMPI(e, q, n)
            d = abs(p0 - (1 - ref.p_one(v, q, n)))
            R.check(d <= 1e-9, "mpi-engine-measure-one", lambda: "off by %.3g on qubit %d, process %d: %s" % (d, q, RANK, text()))
            log.append("qubit %d asked" % q)
    got = np.array(pyQDD.getVectorMPI(e))
    d = np.abs(got - v).max() if got.shape == v.shape else np.inf
    together(R.check(d <= 1e-8, "mpi-engine-vector", lambda: "off by %.3g, process %d: %s" % (d, RANK, text())))
    got = np.array(pyQDD.probabilitiesMPI(e))
    d = np.abs(got - np.abs(v) ** 2).max() if got.shape == v.shape else np.inf
    R.check(d <= 1e-8, "mpi-engine-probabilities", lambda: "off by %.3g, process %d: %s" % (d, RANK, text()))
    N, tally, mine = 150, np.zeros(2 ** n), []
    for _ in range(N):
        e, o = pyQDD.measureAllMPI(e, False)
        mine.append(o)
        if len(o) == n:
            tally[int(o, 2)] += 1
    for x in range(2 ** n):
        p = abs(v[x]) ** 2
        R.check(bernstein(tally[x], N, p) and (p > 1e-12 or not tally[x]), "mpi-engine-counts", lambda: "outcome %s %d times of %d, probability %.6g: %s" % (bin(x), tally[x], N, p, text()))
    same_everywhere(mine, "mpi-engine-counts", text)
    # process 0 prints everybody's part, in order; a part that is zero is one line
    out = pyeng.grab(lambda: e.printVectorMPI())
    if RANK == 0:
        lines, want, part = out.strip().split("\n"), [], 2 ** n // SIZE
        for k in range(SIZE):
            w = v[k * part:(k + 1) * part]
            have = lines[:1] if lines[:1] == ["(all 0)"] else lines[:part]
            lines = lines[len(have):]
            x = np.zeros(part) if have == ["(all 0)"] else pyeng.parse("\n".join(have))
            want.append(x.shape == w.shape and np.abs(x - w).max() <= 1e-4)
        R.check(all(want) and not lines, "mpi-engine-print", lambda: "parts right: %s, %d lines left, printed %s: %s" % (want, len(lines), out[:500], text()))
    R.seen(text(), SIZE)
    R.count("gates", len(log) - 1)
    if i % 41 == 0:
        R.sample(text()[:300])


if __name__ == "__main__":
    mode = ev.main(dict(state=state, engine=engine, counts=counts, dynamic=dynamic, mixed=mixed))
    if RANK == 0:
        R.finish(mode)
    MPI.Finalize()
