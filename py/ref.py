"""Reference semantics for circuits, written with numpy only (no QDD code).

Gate matrices come from Qiskit's own definitions (Instruction.to_matrix), i.e. from the documentation of
the gates a user writes down, not from QDD.  Qubit k is bit k of the state index (little endian).
"""
import numpy as np
from qiskit.circuit import Barrier, Clbit, Measure, Reset


def apply_matrix(state, mat, targets, n):
    """state: 2^n vector; mat: 2^k x 2^k with targets[0] its least significant bit."""
    k = len(targets)
    t = state.reshape([2] * n)                       # axis j is qubit n-1-j
    axes = [n - 1 - q for q in reversed(targets)]    # most significant target first
    t = np.moveaxis(t, axes, range(k))
    shape = t.shape
    t = np.asarray(mat, dtype=complex) @ t.reshape(2 ** k, -1)
    return np.moveaxis(t.reshape(shape), range(k), axes).reshape(-1)


def p_one(state, q, n):
    t = state.reshape([2] * n)
    t = np.take(t, 1, axis=n - 1 - q)
    return float(np.sum(np.abs(t) ** 2))


def project(state, q, v, n):
    t = state.reshape([2] * n).copy()
    ix = [slice(None)] * n
    ix[n - 1 - q] = 1 - v
    t[tuple(ix)] = 0
    return t.reshape(-1)


X = np.array([[0, 1], [1, 0]], dtype=complex)


def statevector(circ):
    """Final state of a circuit without measurement, reset and conditions (measurements are skipped)."""
    n = circ.num_qubits
    qi = {q: i for i, q in enumerate(circ.qubits)}
    s = np.zeros(2 ** n, dtype=complex)
    s[0] = 1
    for ins in circ.data:
        op = ins.operation
        if op.name in ("barrier", "measure"):
            continue
        s = apply_matrix(s, matrix(op), [qi[q] for q in ins.qubits], n)
    return s * np.exp(1j * float(circ.global_phase))


def matrix(op):
    """The operator of an instruction, as Qiskit defines it."""
    try:
        return np.asarray(op.to_matrix(), dtype=complex)
    except Exception:                                 # not given as an array: from its definition
        from qiskit.quantum_info import Operator
        return Operator(op).data


def unitary(circ):
    n = circ.num_qubits
    qi = {q: i for i, q in enumerate(circ.qubits)}
    cols = []
    for c in range(2 ** n):
        s = np.zeros(2 ** n, dtype=complex)
        s[c] = 1
        for ins in circ.data:
            op = ins.operation
            if op.name in ("barrier", "measure"):
                continue
            s = apply_matrix(s, matrix(op), [qi[q] for q in ins.qubits], n)
        cols.append(s)
    return np.array(cols).T * np.exp(1j * float(circ.global_phase))


def outcome_distribution(circ, eps=1e-12):
    """Exact distribution of the final classical bits of any circuit (mid-circuit measurement, reset,
    conditions), by following every branch.  Keys: strings, clbit 0 rightmost, no spaces."""
    n, m = circ.num_qubits, circ.num_clbits
    qi = {q: i for i, q in enumerate(circ.qubits)}
    ci = {c: i for i, c in enumerate(circ.clbits)}
    s = np.zeros(2 ** n, dtype=complex)
    s[0] = 1
    branches = [((0,) * m, s)]                      # unnormalised states
    for ins in circ.data:
        op = ins.operation
        cond = getattr(op, "condition", None)
        out = []
        for bits, st in branches:
            if cond is not None:
                what, val = cond
                if isinstance(what, Clbit):
                    ok = bits[ci[what]] == int(val)
                else:
                    ok = sum(bits[ci[b]] << j for j, b in enumerate(what)) == int(val)
                if not ok:
                    out.append((bits, st))
                    continue
            if op.name == "barrier":
                out.append((bits, st))
            elif op.name in ("measure", "reset"):
                q = qi[ins.qubits[0]]
                for v in (0, 1):
                    pr = project(st, q, v, n)
                    if np.vdot(pr, pr).real <= eps:
                        continue
                    if op.name == "measure":
                        b = list(bits)
                        b[ci[ins.clbits[0]]] = v
                        out.append((tuple(b), pr))
                    else:
                        out.append((bits, apply_matrix(pr, X, [q], n) if v else pr))
            else:
                out.append((bits, apply_matrix(st, matrix(op), [qi[q] for q in ins.qubits], n)))
        # merge identical branches (same bits, same state)
        merged = []
        for bits, st in out:
            for k, (b2, s2) in enumerate(merged):
                if b2 == bits:
                    # parallel states: merge by norm
                    a = np.vdot(s2, s2).real
                    c = np.vdot(st, st).real
                    if a > 0 and c > 0 and abs(abs(np.vdot(s2, st)) - np.sqrt(a * c)) < 1e-13:
                        merged[k] = (b2, s2 * np.sqrt((a + c) / a))
                        break
            else:
                merged.append((bits, st))
        branches = merged
    dist = {}
    for bits, st in branches:
        key = "".join(str(b) for b in reversed(bits))
        dist[key] = dist.get(key, 0.0) + float(np.vdot(st, st).real)
    return dist
