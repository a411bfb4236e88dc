"""Workload generators shared by the Python harnesses."""
import contextlib
import io
import os
import sys
import warnings

warnings.simplefilter("ignore")
import numpy as np                                               # noqa: E402
import qiskit.circuit.library as L                               # noqa: E402
from qiskit import QuantumCircuit, QuantumRegister, ClassicalRegister, AncillaRegister   # noqa: E402
from qiskit.circuit import Clbit, Parameter, Qubit               # noqa: E402
import ref                                                       # noqa: E402
from ev import R, Skip, bernstein, LN                            # noqa: E402
from qdd import QddProvider, pyQDD                               # noqa: E402

if hasattr(pyQDD, "_verif_seed"):
    pyQDD._verif_seed(int(sys.argv[2]) * 1000003 + int(sys.argv[3]) + 17 * int(os.environ.get("OMPI_COMM_WORLD_RANK", "0")))

TOL = 1e-8
NICE = [0, 1, 0.0, np.pi, -np.pi, np.pi / 2, -np.pi / 2, np.pi / 4, 2 * np.pi, 4 * np.pi, 1e-6, 3]


def angle(rng):
    return NICE[rng.integers(len(NICE))] if rng.random() < 0.3 else float(rng.uniform(-7, 7))


def runitary(rng, d):
    m = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
    q, r = np.linalg.qr(m)
    return q * (np.diag(r) / np.abs(np.diag(r)))


def _ctl(rng, k, open_ok=True):
    """A control state: mostly closed."""
    return int(rng.integers(2 ** k)) if open_ok and rng.random() < 0.3 else None


def _fixed(cls):
    return lambda rng: cls()


def _angles(cls, n):
    return lambda rng: cls(*[angle(rng) for _ in range(n)])


def _cfixed(cls, k):
    return lambda rng: cls(ctrl_state=_ctl(rng, k))


def _cangles(cls, n, k):
    return lambda rng: cls(*[angle(rng) for _ in range(n)], ctrl_state=_ctl(rng, k))


# every gate the backend documents as supported: (name, qubits, constructor)
GATES = ([(c.__name__, 1, _fixed(c)) for c in (L.HGate, L.IGate, L.SGate, L.SdgGate, L.SXGate, L.SXdgGate, L.TGate, L.TdgGate, L.XGate, L.YGate, L.ZGate)]
         + [(c.__name__, 2, _cfixed(c, 1)) for c in (L.CXGate, L.CYGate, L.CZGate, L.CSXGate)]
         + [("CCXGate", 3, _cfixed(L.CCXGate, 2)), ("C3XGate", 4, _cfixed(L.C3XGate, 3)), ("C4XGate", 5, _cfixed(L.C4XGate, 4))]
         + [("MCXGate%d" % k, k + 1, (lambda k: lambda rng: L.MCXGate(k, ctrl_state=_ctl(rng, k)))(k)) for k in (2, 3, 4, 5)]
         + [(c.__name__, 1, _angles(c, n)) for c, n in ((L.RXGate, 1), (L.RYGate, 1), (L.RZGate, 1), (L.PhaseGate, 1), (L.RGate, 2), (L.UGate, 3))]
         + [(c.__name__, 2, _cangles(c, n, 1)) for c, n in ((L.CPhaseGate, 1), (L.CU1Gate, 1), (L.CRXGate, 1), (L.CRYGate, 1), (L.CRZGate, 1), (L.CU3Gate, 3), (L.CUGate, 4))]
         + [("MCPhaseGate%d" % k, k + 1, (lambda k: lambda rng: L.MCPhaseGate(angle(rng), k, ctrl_state=_ctl(rng, k)))(k)) for k in (1, 2, 3)]
         + [("SwapGate", 2, _fixed(L.SwapGate)), ("iSwapGate", 2, _fixed(L.iSwapGate)), ("CSwapGate", 3, _cfixed(L.CSwapGate, 1))]
         + [(c.__name__, 2, _angles(c, 1)) for c in (L.RXXGate, L.RYYGate, L.RZZGate, L.RZXGate)]
         + [("UnitaryGate%d" % k, k, (lambda k: lambda rng: L.UnitaryGate(runitary(rng, 2 ** k)))(k)) for k in (1, 2, 3)])


def random_op(rng, n, maxk=5):
    while True:
        name, k, make = GATES[rng.integers(len(GATES))]
        if k <= min(n, maxk):
            return make(rng)


def add_random(rng, c, depth, maxk=5, qubits=None):
    q = list(c.qubits) if qubits is None else qubits
    for _ in range(depth):
        op = random_op(rng, len(q), maxk)
        c.append(op, [q[i] for i in rng.permutation(len(q))[:op.num_qubits]])
        if rng.random() < 0.05:
            c.barrier(*[q[i] for i in rng.permutation(len(q))[:rng.integers(1, len(q) + 1)]])


def random_registers(rng, n):
    """n qubits in one to three registers (or loose, or ancillas)."""
    style = rng.random()
    if style < 0.5:
        return QuantumCircuit(n)
    if style < 0.6:
        return QuantumCircuit([Qubit() for _ in range(n)])
    c, left, k = QuantumCircuit(), n, 0
    while left:
        s = int(rng.integers(1, left + 1))
        c.add_register((AncillaRegister if rng.random() < 0.2 else QuantumRegister)(s, "zyx"[k % 3] + str(k)))
        left, k = left - s, k + 1
    return c


def random_circuit(rng, n, depth, maxk=5, phase=True):
    c = random_registers(rng, n)
    for q in c.qubits:
        if rng.random() < 0.7:
            c.ry(float(rng.uniform(0, 3)), q)
        if rng.random() < 0.5:
            c.rz(float(rng.uniform(0, 6)), q)
    add_random(rng, c, depth, maxk)
    if phase and rng.random() < 0.3:
        c.global_phase = angle(rng)
    return c


def describe(c):
    qi = {q: i for i, q in enumerate(c.qubits)}
    ci = {b: i for i, b in enumerate(c.clbits)}
    out = []
    for ins in c.data:
        op = ins.operation
        s = op.name
        if len(op.params) and op.name not in ("unitary", "qdd"):
            s += "[" + ",".join("%s" % p for p in op.params) + "]"
        if getattr(op, "ctrl_state", None) is not None and op.ctrl_state != 2 ** op.num_ctrl_qubits - 1:
            s += "/o%d" % op.ctrl_state
        s += " " + ",".join(str(qi[q]) for q in ins.qubits)
        if ins.clbits:
            s += "->" + ",".join(str(ci[b]) for b in ins.clbits)
        cond = getattr(op, "condition", None)
        if cond is not None:
            what, val = cond
            s += " if %s==%d" % ("c%d" % ci[what] if isinstance(what, Clbit) else "%s[%d]" % (what.name, what.size), int(val))
        out.append(s)
    t = "; ".join(out)
    return "n=%d m=%d [%s] " % (c.num_qubits, c.num_clbits, " ".join("%s:%d" % (r.name, r.size) for r in c.cregs)) + t


def short(c, k=260):
    t = describe(c)
    return t if len(t) <= k else t[:k] + " ..."


def backend():
    return QddProvider().get_backend()


def sv_backend():
    return QddProvider().get_backend("statevector_simulator")


@contextlib.contextmanager
def quiet():
    """The backend reports failures on stderr; that is not what is judged."""
    with contextlib.redirect_stderr(io.StringIO()):
        yield


def run_ok(b, circ, key, **options):
    with quiet():
        job = b.run(circ, **options)
    res = job.result()
    one = circ[0] if isinstance(circ, list) else circ
    R.need(res.success is True, key + "-rejected", lambda: "a valid job failed (%s, options %s): %s" % (getattr(res, "status", "?"), options, short(one, 1500)))
    return res


def statevector(c, key="sv", tol=TOL, want=None, text=None, b=None, **options):
    options.setdefault("shots", None)
    res = run_ok(b or sv_backend(), c, key, **options)
    got = np.array(res.data()["statevector"])
    want = ref.statevector(c) if want is None else want
    d = np.abs(got - want).max() if got.shape == want.shape else np.inf
    R.check(d <= tol, key, lambda: "amplitude error %.3g (%d of %d amplitudes) in %s" % (d, len(got), len(want), text or describe(c)))
    return res, got


def int_dist(dist):
    return {int(k.replace(" ", "") or "0", 2): v for k, v in dist.items()}


def compare_dist(got, want, key, text, tol=1e-7):
    """Exact distributions, both {int: probability}."""
    bad = [(k, got.get(k, 0.0), want.get(k, 0.0)) for k in set(got) | set(want) if not abs(got.get(k, 0.0) - want.get(k, 0.0)) <= tol]
    return R.check(not bad, key, lambda: "outcome %d has probability %.9g, expected %.9g, in %s" % (*sorted(bad, key=lambda x: -abs(x[1] - x[2]))[0], text()))


def compare_counts(counts, want, shots, key, text):
    """Counts {int: n} against an exact distribution {int: p}."""
    ok = True
    for k in set(counts) | set(want):
        p, n = want.get(k, 0.0), counts.get(k, 0)
        if p < 1e-15:
            ok &= R.check(n == 0, key + "-impossible", lambda: "impossible outcome %d seen %d times in %d shots: %s" % (k, n, shots, text()))
        else:
            ok &= R.check(bernstein(n, shots, p), key, lambda: "outcome %d seen %d of %d times, probability %.9g: %s" % (k, n, shots, p, text()))
    return ok


def format_key(c, bits):
    """Qiskit's key for the value of the classical bits (bits[i]: value of clbit i)."""
    ci = {b: i for i, b in enumerate(c.clbits)}
    if not c.cregs:
        return "".join(str(b) for b in reversed(bits))
    return " ".join("".join(str(bits[ci[b]]) for b in reversed(list(r))) for r in reversed(c.cregs))


def formatted(c, dist):
    """{bit string, clbit 0 last: p} -> {Qiskit key: p}"""
    out = {}
    for k, p in dist.items():
        key = format_key(c, [int(x) for x in reversed(k)])
        out[key] = out.get(key, 0.0) + p
    return out


def add_cregs(rng, c, m):
    """m classical bits in one to three registers, or loose."""
    if rng.random() < 0.1:
        c.add_bits([Clbit() for _ in range(m)])
        return
    left, k = m, 0
    while left:
        s = int(rng.integers(1, left + 1)) if rng.random() < 0.6 else left
        c.add_register(ClassicalRegister(s, "cab"[k % 3] + str(k)))
        left, k = left - s, k + 1


def measure_some(rng, c):
    """Final measurements in random order: any qubit into any classical bit, repeats allowed."""
    n, m = c.num_qubits, c.num_clbits
    style = rng.random()
    if style < 0.3 and m >= n:
        p = rng.permutation(m)[:n]
        for q in rng.permutation(n):
            c.measure(int(q), int(p[q]))
    else:
        for _ in range(int(rng.integers(1, 2 * m + 1))):
            c.measure(int(rng.integers(n)), int(rng.integers(m)))
            if rng.random() < 0.2:
                c.barrier()


def dynamic_circuit(rng, n, m, depth, conditions=True):
    c = QuantumCircuit(n)
    left, k = m, 0
    while left:
        s = int(rng.integers(1, left + 1))
        c.add_register(ClassicalRegister(s, "r%d" % k))
        left, k = left - s, k + 1
    for q in range(n):
        if rng.random() < 0.6:
            c.ry(float(rng.uniform(0, 3)), q)
    for _ in range(depth):
        kind = rng.random()
        before = len(c.data)
        if kind < 0.45:
            op = random_op(rng, n, 3)
            c.append(op, [int(q) for q in rng.permutation(n)[:op.num_qubits]])
        elif kind < 0.75:
            c.measure(int(rng.integers(n)), int(rng.integers(m)))
        elif kind < 0.88:
            c.reset(int(rng.integers(n)))
        else:
            c.barrier()
            continue
        if conditions and rng.random() < 0.35:
            ins = c.data[before]
            if rng.random() < 0.5:
                what, val = c.clbits[rng.integers(m)], int(rng.integers(2))
            else:
                what = c.cregs[rng.integers(len(c.cregs))]
                val = int(rng.integers(2 ** what.size))
            op = ins.operation.to_mutable().c_if(what, val)
            c.data[before] = ins.replace(operation=op)
    c.measure(int(rng.integers(n)), int(rng.integers(m)))
    return c
