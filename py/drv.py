"""Monitors at the Qiskit backend API (sequential build, and n_threads on the multi-threaded build).
   drv.py <mode> <seed> <start> <count>"""
import copy
import gc as pygc
import contextlib
import os
import resource
import subprocess
import sys
import io
import itertools
import threading
import warnings
from common import *                                             # noqa: F401,F403
from common import (AncillaRegister, GATES, L, LN, NICE, R, Skip, TOL, ClassicalRegister, Clbit, Parameter, QuantumCircuit, QuantumRegister, add_cregs,
                    add_random, angle, backend, bernstein, compare_counts, compare_dist, describe, dynamic_circuit, format_key,
                    formatted, int_dist, measure_some, np, pyQDD, quiet, random_circuit, random_op, random_registers, ref, run_ok, runitary,
                    short, statevector, sv_backend)
import ev
from qiskit import transpile
from qiskit.circuit import ParameterVector
from qiskit.circuit.parametervector import ParameterVectorElement
from qiskit.providers import JobStatus


# ------------------------------------------------------------------ P18
def _placements():
    out = []
    for gi, (name, k, _) in enumerate(GATES):
        for n in range(k, max(k, 4) + 1):
            if n > 5 and k < 6:
                continue
            pl = list(itertools.permutations(range(n), k))
            if len(pl) > 60:
                pl = pl[::len(pl) // 60]
            out += [(gi, n, p) for p in pl]
    return out


PLACE = _placements()


def gates(rng, i):
    """Every supported gate on every placement, applied to a generic product state."""
    gi, n, p = PLACE[i % len(PLACE)]
    name, k, make = GATES[gi]
    c = QuantumCircuit(n)
    for q in range(n):
        c.u(*rng.uniform(0.3, 2.8, 3).tolist(), q)
    op = make(rng)
    c.append(op, list(p))
    statevector(c, "gate")
    R.seen(name, n, p, i // len(PLACE))
    if i % 211 == 0:
        R.sample(short(c))


def circuits(rng, i):
    n = int(rng.integers(1, 8))
    if i % 40 == 7:
        n = int(rng.integers(8, 13))
    c = random_circuit(rng, n, int(rng.integers(0, 26)))
    if rng.random() < 0.5:
        res, got = statevector(c, "circuit")
        want = {k: float(abs(a) ** 2) for k, a in enumerate(ref.statevector(c))}
        compare_dist(res.data()["probabilities"], want, "circuit-probabilities", lambda: describe(c))
    else:                                                           # with shots, the state vector is the same
        statevector(c, "circuit", shots=int(rng.integers(1, 20)))
    R.seen(describe(c))
    R.count("gates", len(c.data))
    if i % 97 == 0:
        R.sample(short(c))


def _transpile(c, **kw):
    try:
        with quiet():
            return transpile(c, backend(), **kw)
    except (TypeError, KeyError) as e:
        import traceback
        where = [f.name for f in traceback.extract_tb(e.__traceback__)]
        if "_decomposer_2q_from_target" not in where:
            raise
        R.violation("transpile-unitary2", "%s (in Qiskit's _decomposer_2q_from_target) when transpiling %s" % (str(e)[:200], describe(c)))


def transpiled(rng, i):
    """Any Qiskit circuit, transpiled for the backend at any level, keeps its outcome distribution."""
    from qiskit.circuit.random import random_circuit as qrc
    from qiskit.quantum_info import Statevector
    if i == 0:                                                      # a two-qubit unitary, at every level
        c = QuantumCircuit(2)
        c.append(L.UnitaryGate(runitary(rng, 4)), [0, 1])
        [_transpile(c, optimization_level=k) for k in range(4)]
    n = int(rng.integers(1, 6))
    c = qrc(n, int(rng.integers(1, 7)), max_operands=min(4, n), seed=int(rng.integers(2 ** 31)))
    want = {k: float(p) for k, p in enumerate(np.abs(Statevector(c).data) ** 2)}
    c.measure_all()
    b = backend()
    lvl = int(rng.integers(4))
    t = _transpile(c, optimization_level=lvl, seed_transpiler=int(rng.integers(1000)))
    if t is None:
        raise Skip
    res = run_ok(b, t, "transpiled", shots=None)
    compare_dist(res.data()["probabilities"], want, "transpiled", lambda: "level %d: %s => %s" % (lvl, describe(c), describe(t)))
    R.seen(describe(c), lvl)
    if i % 61 == 0:
        R.sample("level %d: %s" % (lvl, short(c)))


def initialised(rng, i):
    """initialize, anywhere in a circuit, transpiled: the named qubits are in the given state whatever they were before."""
    n = int(rng.integers(1, 5))
    k = int(rng.integers(1, min(n, 3) + 1))
    q = [int(x) for x in rng.permutation(n)[:k]]
    v = rng.normal(size=2 ** k) + 1j * rng.normal(size=2 ** k) * (rng.random() < 0.7)
    if rng.random() < 0.3:
        v = np.zeros(2 ** k); v[rng.integers(2 ** k)] = 1
    v = v / np.linalg.norm(v)
    a, z = _no_u2(lambda: random_circuit(rng, n, int(rng.integers(0, 8)), 3, False)), _no_u2(lambda: random_circuit(rng, n, int(rng.integers(0, 8)), 3, False))
    c = QuantumCircuit(n, n)
    c.compose(a, range(n), inplace=True)
    c.initialize(v, q)
    c.compose(z, range(n), inplace=True)
    c.measure(range(n), range(n))
    # every outcome of the overwritten qubits in turn, then the given state in their place
    s, want = ref.statevector(a), {}
    for x in range(2 ** k):
        b = s
        for j, y in enumerate(q):
            b = ref.project(b, y, x >> j & 1, n)
        if np.linalg.norm(b) < 1e-9:
            continue
        for j, y in enumerate(q):
            if x >> j & 1:
                b = ref.apply_matrix(b, ref.X, [y], n)
        m = np.zeros((2 ** k, 2 ** k), complex)
        m[:, 0] = v
        b = ref.apply_matrix(b, m, q, n)
        for ins in z.data:
            if ins.operation.name != "barrier":
                b = ref.apply_matrix(b, ref.matrix(ins.operation), [z.find_bit(y).index for y in ins.qubits], n)
        for y in range(2 ** n):
            want[y] = want.get(y, 0.0) + float(abs(b[y]) ** 2)
    t = _transpile(c, optimization_level=int(rng.integers(4)), seed_transpiler=int(rng.integers(1000)))
    if t is None:
        raise Skip
    N = 600
    res = run_ok(backend(), t, "initialised", shots=N)
    compare_counts(int_dist(res.get_counts()), want, N, "initialised", lambda: "initialize %s on %s in %s => %s" % (v, q, describe(c), describe(t)))
    R.seen(describe(c))
    if i % 31 == 0:
        R.sample(short(c))


def _wide_product(rng, b, n, i):
    """Every qubit random by itself: 2^n possible outcomes, each bit's frequency known."""
    c = QuantumCircuit(n, n)
    a = rng.uniform(0.3, 2.8, n)
    for q in range(n):
        c.ry(float(a[q]), q)
        c.rz(angle(rng), q)
    where = [int(x) for x in rng.permutation(n)]                    # qubit q goes to bit where[q]
    for q in range(n):
        c.measure(q, where[q])
    shots = int(rng.integers(100, 600))
    mem = run_ok(b, c, "wide", shots=shots, memory=True).get_memory()
    R.need(len(mem) == shots and all(len(m) == n for m in mem), "wide-shots", lambda: "%d outcomes for %d shots" % (len(mem), shots))
    M = np.array([[ch == "1" for ch in m[::-1]] for m in mem])
    p = np.sin(a / 2) ** 2
    for q in range(n):
        got = int(M[:, where[q]].sum())
        R.check(bernstein(got, shots, p[q]), "wide-marginal", lambda: "n=%d: qubit %d measured 1 in %d of %d shots, probability %.9g" % (n, q, got, shots, p[q]))
    for _ in range(20):
        q, t = (int(x) for x in rng.permutation(n)[:2])
        got = int((M[:, where[q]] & M[:, where[t]]).sum())
        R.check(bernstein(got, shots, p[q] * p[t]), "wide-independent", lambda: "n=%d: qubits %d and %d both 1 in %d of %d shots, probability %.9g" % (n, q, t, got, shots, p[q] * p[t]))
    R.seen(describe(c))


def wide(rng, i):
    """Up to 100 qubits through the backend, outcomes known in closed form."""
    n = int(rng.integers(20, 101))
    b = backend()
    c = QuantumCircuit(n, n)
    kind = int(rng.integers(4))
    shots = int(rng.integers(1, 60))
    if kind == 3:
        return _wide_product(rng, b, n, i)
    if kind == 0:                                                   # classical reversible circuit
        bits = [0] * n
        for _ in range(int(rng.integers(5, 80))):
            k = int(rng.integers(5))
            q = [int(x) for x in rng.permutation(n)[:4]]
            if k == 0:
                c.x(q[0]); bits[q[0]] ^= 1
            elif k == 1:
                c.cx(q[0], q[1]); bits[q[1]] ^= bits[q[0]]
            elif k == 2:
                c.ccx(q[0], q[1], q[2]); bits[q[2]] ^= bits[q[0]] & bits[q[1]]
            elif k == 3:
                c.swap(q[0], q[1]); bits[q[0]], bits[q[1]] = bits[q[1]], bits[q[0]]
            else:
                c.cswap(q[0], q[1], q[2])
                if bits[q[0]]:
                    bits[q[1]], bits[q[2]] = bits[q[2]], bits[q[1]]
        want = {"".join(str(x) for x in reversed(bits)): 1.0}
    elif kind == 1:                                                 # GHZ over a subset, through random edges
        order = [int(x) for x in rng.permutation(n)[:int(rng.integers(2, n + 1))]]
        a = float(rng.uniform(0.3, 2.8))
        c.ry(a, order[0])
        for j in range(1, len(order)):
            c.cx(order[rng.integers(j)], order[j])
        one = ["0"] * n
        for q in order:
            one[n - 1 - q] = "1"
        want = {"0" * n: np.cos(a / 2) ** 2, "".join(one): np.sin(a / 2) ** 2}
    else:                                                           # a phase hidden between two layers of H
        s = [int(x) for x in rng.integers(0, 2, n)]
        for q in range(n):
            c.h(q)
        for q in range(n):
            if s[q]:
                c.z(q)
        for q in range(n):
            c.h(q)
        want = {"".join(str(x) for x in reversed(s)): 1.0}
    c.measure(range(n), range(n))
    res = run_ok(b, c, "wide", shots=shots)
    counts = res.get_counts()
    R.check(sum(counts.values()) == shots, "wide-shots", lambda: "%d outcomes for %d shots" % (sum(counts.values()), shots))
    for k in set(counts) | set(want):
        p, m = want.get(k, 0.0), counts.get(k, 0)
        R.check(bernstein(m, shots, p) and not (p == 0.0 and m), "wide", lambda: "outcome %s seen %d of %d times, probability %.9g, kind %d: %s" % (k, m, shots, p, kind, short(c, 1200)))
    R.seen(describe(c))
    if i % 23 == 0:
        R.sample("n=%d kind %d: %s" % (n, kind, short(c, 160)))


# ------------------------------------------------------------------ P19
def _check_counts(c, res, k, shots, memory, want, key):
    text = lambda: "shots=%d memory=%s: %s" % (shots, memory, describe(c))
    counts = res.get_counts(k)
    fw = formatted(c, want)
    length = {len(x) for x in fw}
    R.need(sum(counts.values()) == shots, key + "-shots", lambda: "counts add up to %d: %s" % (sum(counts.values()), text()))
    R.check(res.results[k].shots == shots, key + "-shots", lambda: "result reports %s shots: %s" % (res.results[k].shots, text()))
    bad = [x for x in counts if len(x) not in length or not set(x) <= set("01 ") or [len(w) for w in x.split(" ")] != [len(w) for w in next(iter(fw)).split(" ")]]
    R.need(not bad, key + "-format", lambda: "key '%s' does not show the classical registers (like '%s'): %s" % (bad[0], next(iter(fw)), text()))
    for x in set(counts) | set(fw):
        p, m = fw.get(x, 0.0), counts.get(x, 0)
        if p < 1e-15:
            R.check(m == 0, key + "-impossible", lambda: "impossible outcome '%s' seen %d times: %s" % (x, m, text()))
        else:
            R.check(bernstein(m, shots, p), key + "-frequency", lambda: "outcome '%s' seen %d of %d times, probability %.9g: %s" % (x, m, shots, p, text()))
    if memory:
        mem = res.get_memory(k)
        R.need(len(mem) == shots, key + "-memory", lambda: "%d memory entries: %s" % (len(mem), text()))
        tally = {}
        for x in mem:
            tally[x] = tally.get(x, 0) + 1
        R.check(tally == dict(counts), key + "-memory", lambda: "memory and counts differ: %s / %s: %s" % (sorted(tally.items())[:4], sorted(counts.items())[:4], text()))
        if shots >= 100:                                            # successive shots are independent
            for x, p in fw.items():
                lag = sum(1 for a, b in zip(mem, mem[1:]) if a == x and b == x)
                dev = np.sqrt(2 * 3 * (shots - 1) * max(p * p, 1e-12) * LN) + 2 * LN + 1
                R.check(abs(lag - (shots - 1) * p * p) <= dev or p > 1 - 1e-9, key + "-independent", lambda: "outcome '%s' (p=%.6g) followed itself %d of %d times: %s" % (x, p, lag, shots, text()))
    R.count("shots", shots)


def counts(rng, i):
    n = int(rng.integers(1, 6))
    c = random_circuit(rng, n, int(rng.integers(0, 12)), 3)
    add_cregs(rng, c, int(rng.integers(1, 7)))
    measure_some(rng, c)
    shots = [1, 2, 3, 17, 100, 1000, 1024, 3000][rng.integers(8)]
    if i % 140 == 77:
        shots = int(rng.integers(20000, 150000))
    memory = bool(rng.random() < 0.5)
    opts = {"memory": memory} if memory or rng.random() < 0.3 else {}
    if shots != 1024 or rng.random() < 0.5:
        opts["shots"] = shots if rng.random() < 0.8 else np.int64(shots)
    b = backend()
    if rng.random() < 0.2 and "shots" in opts:                      # options set on the backend beforehand
        b.set_options(shots=int(opts.pop("shots")))
    res = run_ok(b, c, "counts", **opts)
    _check_counts(c, res, 0, shots, memory, ref.outcome_distribution(c), "counts")
    if not memory:
        R.check("memory" not in res.data(), "counts-memory", lambda: "memory was not requested but is listed: " + describe(c))
    R.seen(describe(c), shots, memory)
    if i % 97 == 0:
        R.sample("shots=%d memory=%s: %s => %s" % (shots, memory, short(c, 180), dict(list(res.get_counts().items())[:3])))


# ------------------------------------------------------------------ P20
def dynamic(rng, i):
    n, m = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    c = dynamic_circuit(rng, n, m, int(rng.integers(2, 14)))
    shots = [40, 150, 400][rng.integers(3)]
    memory = bool(rng.random() < 0.4)
    res = run_ok(backend(), c, "dynamic", shots=shots, memory=memory)
    _check_counts(c, res, 0, shots, memory, ref.outcome_distribution(c), "dynamic")
    R.seen(describe(c))
    if i % 61 == 0:
        R.sample("shots=%d: %s" % (shots, short(c)))


def _regrouped(rng, b, i):
    """Conditions on registers made of bits the circuit has already, in any order, of any other registers."""
    n, m = int(rng.integers(1, 4)), int(rng.integers(2, 7))
    if rng.random() < 0.2:                                          # values beyond 64 bits
        m = int(rng.integers(40, 100))
    c = QuantumCircuit(n)
    add_cregs(rng, c, m)
    regs, known = [], [0] * m                                       # known: a value each bit may well have
    for k in range(int(rng.integers(1, 4))):
        bits = [c.clbits[int(x)] for x in rng.permutation(m)[:int(rng.integers(1, m + 1))]]
        regs.append(ClassicalRegister(name="g%d" % k, bits=bits))
        c.add_register(regs[-1])
    for _ in range(int(rng.integers(3, 12))):
        q, k = int(rng.integers(n)), int(rng.integers(6))
        if k == 0:
            c.measure(q, int(rng.integers(m)))
        elif k == 1:
            c.ry(angle(rng), q)
        elif k == 2:                                                # bits that are surely 0 or 1, so that conditions are met
            c.reset(q)
            v = int(rng.random() < 0.7)
            if v:
                c.x(q)
            for _ in range(int(rng.integers(1, 4))):
                y = int(rng.integers(m))
                c.measure(q, y)
                known[y] = v
        else:
            r = regs[rng.integers(len(regs))]
            v = sum(known[c.find_bit(y).index] << j for j, y in enumerate(r))
            if rng.random() < 0.3:
                v ^= 1 << int(rng.integers(len(r)))
            elif rng.random() < 0.3 and len(r) < 20:
                v = int(rng.integers(2 ** len(r)))
            if rng.random() < 0.3:
                r, v = c.clbits[rng.integers(m)], int(rng.integers(2))
            [lambda: c.x(q), lambda: c.ry(1.1, q), lambda: c.measure(q, int(rng.integers(m)))][rng.integers(3)]().c_if(r, v)
    c.measure(int(rng.integers(n)), int(rng.integers(m)))
    shots = 200
    res = run_ok(b, c, "regrouped", shots=shots)
    counts = {int(k, 2): v for k, v in res.results[0].data.counts.items()}
    R.check(sum(counts.values()) == shots, "regrouped-shots", lambda: "%d outcomes for %d shots: %s" % (sum(counts.values()), shots, describe(c)))
    groups = lambda: "; ".join("%s=%s" % (r.name, [c.find_bit(x).index for x in r]) for r in regs) + "; " + describe(c)
    compare_counts(counts, int_dist(ref.outcome_distribution(c)), shots, "regrouped", groups)
    R.seen(groups())
    if i < 30:
        R.sample(groups()[:300])


def _lone(rng, b, i):
    """One instruction alone that makes the circuit dynamic, the rest as in any circuit."""
    n = int(rng.integers(1, 5))
    c = random_circuit(rng, n, int(rng.integers(1, 8)), 3)
    m = int(rng.integers(2, 6))
    c.add_register(ClassicalRegister(m, "c"))
    if len(c.clbits) != m:
        return
    kind, q, y = int(rng.integers(7)), int(rng.integers(n)), int(rng.integers(m))
    before = [x for x in range(n) if rng.random() < 0.4]
    cond = (c.cregs[-1], int(rng.integers(2 ** m))) if rng.random() < 0.4 else (c.clbits[rng.integers(m)], int(rng.integers(2)))
    if kind > 2:
        for x in before:
            c.measure(x, int(rng.integers(m)))
    if kind == 0:                                                   # a condition before anything is measured
        c.ry(1.3, q).c_if(*cond)
    elif kind == 1:
        c.reset(q)
    elif kind in (2, 3):
        c.measure(q, y).c_if(*cond)
    elif kind == 4:
        c.reset(q).c_if(*cond)
    elif kind == 5:
        c.ry(1.3, q)
    else:
        c.x(q).c_if(*cond)
    for x in rng.permutation(n):
        if rng.random() < 0.7:
            c.measure(int(x), int(rng.integers(m)))
    if not any(x.operation.name == "measure" for x in c.data):
        c.measure(q, y)
    shots = 300
    res = run_ok(b, c, "lone", shots=shots, memory=True)
    _check_counts(c, res, 0, shots, True, ref.outcome_distribution(c), "lone")
    R.seen(describe(c))


def directed(rng, i):
    """Textbook dynamic circuits whose outcome is certain or known."""
    kind = i % 9
    b = backend()
    if kind == 7:
        return _regrouped(rng, b, i)
    if kind == 8:
        return _lone(rng, b, i)
    a, ph = float(rng.uniform(0.3, 2.8)), float(rng.uniform(0, 6))
    if kind == 0:                                                   # teleportation, then undo: always 0
        c = QuantumCircuit(3)
        x, z, o = ClassicalRegister(1, "x"), ClassicalRegister(1, "z"), ClassicalRegister(1, "o")
        for r in (x, z, o):
            c.add_register(r)
        c.u(a, ph, 0.3, 0); c.h(1); c.cx(1, 2); c.cx(0, 1); c.h(0)
        c.measure(0, z[0]); c.measure(1, x[0])
        c.x(2).c_if(x, 1); c.z(2).c_if(z, 1)
        c.append(L.UGate(a, ph, 0.3).inverse(), [2])
        c.measure(2, o[0])
    elif kind == 1:                                                 # reset frees a qubit of an entangled pair
        c = QuantumCircuit(2, 2)
        c.ry(a, 0); c.cx(0, 1); c.reset(0); c.measure([0, 1], [0, 1])
    elif kind == 2:                                                 # repeat-until-success in three rounds
        c = QuantumCircuit(2, 3)
        for k in range(3):
            c.h(0); c.measure(0, k); c.x(0).c_if(k, 1); c.x(1).c_if(c.cregs[0], 2 ** k)
    elif kind == 3:                                                 # a register condition on several bits
        r = ClassicalRegister(3, "r")
        c = QuantumCircuit(4)
        c.add_register(r); c.add_register(ClassicalRegister(1, "s"))
        v = int(rng.integers(8))
        for k in range(3):
            c.ry(a if k == 0 else 1.1, k); c.measure(k, r[k])
        c.x(3).c_if(r, v); c.measure(3, c.clbits[3])
    elif kind == 4:                                                 # conditional measurement and reset
        c = QuantumCircuit(2, 2)
        c.ry(a, 0); c.measure(0, 0); c.x(1)
        c.measure(1, 1).c_if(0, 1); c.reset(1).c_if(0, 0); c.measure(1, 1).c_if(0, 0)
    elif kind == 5:                                                 # the same qubit measured, rotated, measured
        c = QuantumCircuit(1, 3)
        c.h(0); c.measure(0, 0); c.h(0); c.measure(0, 1); c.barrier(); c.measure(0, 2)
    else:                                                           # condition on an unwritten bit
        c = QuantumCircuit(2, 3)
        c.x(0).c_if(2, 0); c.x(1).c_if(1, 1); c.measure([0, 1], [0, 1])
    shots = 200
    res = run_ok(b, c, "directed", shots=shots, memory=True)
    _check_counts(c, res, 0, shots, True, ref.outcome_distribution(c), "directed")
    R.seen(describe(c))
    if i < 7:
        R.sample(short(c))


# ------------------------------------------------------------------ P21
def exact(rng, i):
    n = int(rng.integers(1, 7))
    big = i % 40 == 7
    if big:
        n = int(rng.integers(7, 12))
    c = random_circuit(rng, n, int(rng.integers(0, 14)), 4)
    add_cregs(rng, c, int(rng.integers(7, 15) if big else rng.integers(1, 7)))
    measure_some(rng, c)
    want = int_dist(ref.outcome_distribution(c))
    b = backend()
    res = run_ok(b, c, "exact", shots=None)
    got = res.data()["probabilities"]
    compare_dist(got, want, "exact", lambda: describe(c))
    R.check(abs(sum(got.values()) - 1) < 1e-7, "exact-sum", lambda: "probabilities add up to %.9g: %s" % (sum(got.values()), describe(c)))
    again = run_ok(b, c, "exact", shots=None).data()["probabilities"]
    compare_dist(again, want, "exact-again", lambda: describe(c))
    if rng.random() < 0.3:
        N = 800
        cnt = int_dist(run_ok(b, c, "exact", shots=N).get_counts())
        compare_counts(cnt, got, N, "exact-sampled", lambda: describe(c))
    R.seen(describe(c))
    if i % 97 == 0:
        R.sample(short(c))


def exactdyn(rng, i):
    """Exact probabilities of circuits with measurements or resets before the end."""
    fixed = []
    c = QuantumCircuit(1, 2); c.h(0); c.measure(0, 0); c.h(0); c.measure(0, 1); fixed.append(c)
    c = QuantumCircuit(2, 2); c.h(0); c.cx(0, 1); c.reset(0); c.measure([0, 1], [0, 1]); fixed.append(c)
    c = QuantumCircuit(2, 2); c.h(0); c.measure(0, 0); c.cx(0, 1); c.measure(1, 1); fixed.append(c)
    if i < len(fixed):
        c = fixed[i]
    else:                                                           # one qubit measured at a time, nothing correlated: exact
        n = int(rng.integers(2, 5))
        c = QuantumCircuit(n, n)
        for q in range(n):
            c.ry(float(rng.uniform(0, 3)), q); c.rz(float(rng.uniform(0, 3)), q)
        for q in range(n):
            c.measure(q, q)
            if rng.random() < 0.6:
                c.append(random_op(rng, 1, 1), [q])
        c.x(0)
    want = int_dist(ref.outcome_distribution(c))
    for _ in range(3):
        got = run_ok(backend(), c, "exact-dynamic", shots=None).data()["probabilities"]
        if not compare_dist(got, want, "exact-dynamic", lambda: describe(c)):
            break
    R.seen(describe(c))
    if i < 6:
        R.sample(short(c))


# ------------------------------------------------------------------ P22
def _param_circuit(rng, n, names, meas=True):
    """A parametrised circuit, and a function writing it with numbers."""
    ps = [Parameter(x) for x in names]
    if ps and rng.random() < 0.35:                                  # elements of a vector: v[2] comes before v[10]
        v = ParameterVector("v", int(rng.integers(11, 26)))
        ps = [v[int(x)] for x in rng.permutation(len(v))[:len(ps)]]
    plan = []
    for _ in range(int(rng.integers(2, 9))):
        k = int(rng.integers(6))
        q = [int(x) for x in rng.permutation(n)]
        sel = [int(rng.integers(len(ps))) for _ in range(3)] if ps else []
        co = rng.uniform(-2, 2, 3).tolist()
        plan.append((k, q, sel, co))
    mp = (rng.permutation(n).tolist(), bool(rng.random() < 0.5))

    def write(vals, t=0.4):                                         # t: the angle of the first gate
        c = QuantumCircuit(n, n)
        for j in range(n):
            c.ry(0.4 + 0.3 * j if j else t, j)
        for k, q, sel, co in plan:
            e = [vals[s] for s in sel] if sel else co
            if k == 0:
                c.rx(e[0], q[0])
            elif k == 1:
                c.u(e[0], e[1] * 1.0, co[0] - e[2], q[0])
            elif k == 2:
                c.p(co[0] * e[0] + co[1] * e[1], q[0])
            elif k == 3 and n > 1:
                c.crz(e[0], q[0], q[1]); c.rxx(e[1] * 0.5, q[0], q[1])
            elif k == 4 and n > 1:
                c.cx(q[0], q[1])
            else:
                c.rz(co[2], q[0]); c.ry(e[0] - e[1], q[0])
        if meas:
            c.measure(range(n), mp[0] if mp[1] else range(n))
        return c
    return write, ps


def binds(rng, i):
    b = backend()
    k = int(rng.integers(1, 5))
    # names whose alphabetical order is not the order of creation
    pool = ["z", "a", "θ", "b10", "b2", "m", "Λ", "x_1"]
    batch, bind, plain, names = [], [], [], []
    made = []
    for j in range(k):
        if made and rng.random() < 0.35:                            # a circuit again: other values, permuted ones, nearly the same ones
            write, ps, c, vals = made[rng.integers(len(made))]
            ps = list(ps)
            how = int(rng.integers(4))
            vals = ({p: angle(rng) for p in ps} if how == 0 else
                    {p: vals[q] for p, q in zip(ps, [ps[x] for x in rng.permutation(len(ps))])} if how == 1 else
                    {p: vals[p] + float(rng.choice([-1, 1])) * 10.0 ** float(rng.uniform(-5, -1)) for p in ps} if how == 2 else
                    {p: -vals[p] for p in ps})
            made.append((write, ps, c, vals))
            order = rng.permutation(len(ps))                        # the order of the bindings means nothing
            batch.append(c); bind.append({ps[x]: vals[ps[x]] for x in order if ps[x] in c.parameters}); names.append(c.name)
            plain.append(write([vals[p] for p in ps]))
            R.count("repeated_circuits")
            continue
        n = int(rng.integers(1, 4))
        nm = [pool[x] for x in rng.permutation(len(pool))[:rng.integers(0, 4)]]
        write, ps = _param_circuit(rng, n, nm)
        c = write(ps)
        c.name = "job%d_%d" % (i, int(rng.integers(100)))
        vals = {p: angle(rng) for p in ps}
        used = {p: vals[p] for p in ps if p in c.parameters}
        made.append((write, ps, c, vals))
        batch.append(c); bind.append(used); names.append(c.name)
        plain.append(write([vals[p] for p in ps]))
    text = lambda j: "entry %d of %d, values %s: %s" % (j, k, {str(p): v for p, v in bind[j].items()}, describe(batch[j]))
    for j in range(k):                                              # parameters named by text, or a whole vector at once
        if rng.random() < 0.15:
            bind[j] = {p.name: v for p, v in bind[j].items()}
        elif bind[j] and rng.random() < 0.15 and all(isinstance(p, ParameterVectorElement) for p in bind[j]):
            v = next(iter(bind[j])).vector
            c = batch[j]
            batch[j] = c.copy_empty_like()
            for x in v:                                             # (every element has to be there)
                batch[j].rz(x * 0.0, 0)
            batch[j].compose(c, inplace=True)
            bind[j] = {v: [bind[j].get(x, 0.5) for x in v]}
    before, bound = [describe(c) for c in batch], [dict(x) for x in bind]
    shots = None if rng.random() < 0.6 else int(rng.integers(200, 1500))
    res = run_ok(b, batch, "binds", shots=shots, parameter_binds=bind)
    R.need(len(res.results) == k, "binds-length", lambda: "%d results for %d circuits" % (len(res.results), k))
    for j in range(k):
        want = int_dist(ref.outcome_distribution(plain[j]))
        if shots is None:
            compare_dist(res.data(j)["probabilities"], want, "binds", lambda: text(j))
        else:
            compare_counts(int_dist(res.get_counts(j)), want, shots, "binds", lambda: text(j))
            width = {len(x) for x in res.get_counts(j)}
            R.check(width == {plain[j].num_clbits}, "binds-layout", lambda: "keys of width %s: %s" % (width, text(j)))
        R.check(res.results[j].header.memory_slots == plain[j].num_clbits, "binds-layout", lambda: "header of result %d has %s classical bits: %s" % (j, res.results[j].header.memory_slots, text(j)))
    R.check(before == [describe(c) for c in batch], "binds-unchanged", lambda: "running changed a circuit of the user: " + text(0))
    R.check(bound == bind and all(x is not y for x, y in zip(bound, bind)), "binds-unchanged", lambda: "running changed the list of values: %s, was %s" % (bind, bound))
    # the numbers written in give the same
    res2 = run_ok(b, plain, "binds", shots=None)
    for j in range(k):
        compare_dist(res2.data(j)["probabilities"], int_dist(ref.outcome_distribution(plain[j])), "binds-plain", lambda: text(j))
    # a list of bindings that does not fit the circuits is refused, not cut
    if rng.random() < 0.3:
        wrong = bind[:-1] if rng.random() < 0.5 and k > 1 else bind + [{}]
        with quiet():
            r = b.run(batch, parameter_binds=wrong, shots=None).result()
        R.check(r.success is not True or len(r.results) == k, "binds-mismatch", lambda: "%d circuits and %d sets of values gave %d results" % (k, len(wrong), len(r.results)))
    R.seen([describe(c) for c in plain])
    R.count("entries", k)
    if i % 61 == 0:
        R.sample(text(0)[:300])


# ------------------------------------------------------------------ P23
THREADS = len(__import__("os").listdir("/proc/self/task"))


def _good(rng, n=None):
    n = n or int(rng.integers(1, 5))
    c = random_circuit(rng, n, int(rng.integers(1, 8)), 3)
    c.measure_all()
    return c


def _check_good(rng, b, key, **opts):
    c = _good(rng)
    want = int_dist(ref.outcome_distribution(c))
    if rng.random() < 0.5:
        res = run_ok(b, c, key, shots=None, **opts)
        compare_dist(res.data()["probabilities"], want, key, lambda: describe(c))
    else:
        res = run_ok(b, c, key, shots=300, **opts)
        compare_counts(int_dist(res.get_counts()), want, 300, key, lambda: describe(c))


def _invalid(rng):
    k = int(rng.integers(12))
    c = _good(rng, 2)
    if k == 0:
        return "no shots", c, dict(shots=[0, -1, -1000][rng.integers(3)])
    if k == 1:
        return "too many shots", c, dict(shots=[1000001, 2 ** 40][rng.integers(2)])
    if k == 2:
        c = QuantumCircuit(int(rng.integers(101, 130)), 1); c.h(0); c.measure(0, 0)
        return "too many qubits", c, {}
    if k == 3:
        c = random_circuit(rng, 2, 4, 2)
        return "no measurement", c, {}
    if k == 4:
        c = random_circuit(rng, 3, 3, 2)
        op = [L.CHGate(), L.CSGate(), L.DCXGate(), L.ECRGate(), L.QFT(2).to_gate(), L.Initialize([1, 0, 0, 0])][rng.integers(6)]
        c.append(op, [0, 1])
        add_random(rng, c, 2, 2)
        c.measure_all()
        return "unsupported " + op.name, c, {}
    if k == 5:
        return "not a circuit", ["x", 7, {"a": 1}][rng.integers(3)], {}
    if k == 6:
        return "a list with a stranger", [c, "stranger"], {}
    if k == 7:
        c = QuantumCircuit(1, 1); c.rx(Parameter("t"), 0); c.measure(0, 0)
        return "unbound parameter", c, {}
    if k == 8:
        c = QuantumCircuit(2, 2); c.h(0); c.measure(0, 0); c.x(1).c_if(0, 1); c.measure(1, 1)
        return "condition without shots", c, dict(shots=None)
    if k == 9:
        return "second of two is invalid", [c, random_circuit(rng, 2, 3, 2)], {}
    if k == 10:
        c2 = random_circuit(rng, 2, 3, 2); c2.append(L.CHGate(), [0, 1]); c2.measure_all()
        return "second of two is unsupported", [c, c2], {}
    c2 = QuantumCircuit(2, 2); c2.h(0); c2.measure(0, 0); c2.append(L.CHGate(), [0, 1]); c2.measure(1, 1)
    return "fails in the middle of a shot", c2, dict(shots=5)


def _threads():
    with open("/proc/self/status") as f:
        return int(f.read().split("Threads:")[1].split()[0])


def failing(rng, i):
    b = backend()
    mt = hasattr(pyQDD, "initMT")
    for _ in range(int(rng.integers(1, 4))):
        what, c, o = _invalid(rng)
        if mt and rng.random() < 0.6:
            o = dict(o, n_threads=int(rng.integers(2, 5)))
        try:
            with quiet():
                job = b.run(c, **o)
            res = job.result()
        except Exception as e:                                      # noqa: BLE001
            R.violation("failing-raised", "%s: run raised %r instead of returning a failed job" % (what, e))
            continue
        R.check(res.success is False, "failing-accepted", lambda: "%s was accepted (options %s)" % (what, o))
        R.check(job.status() == JobStatus.ERROR, "failing-status", lambda: "%s: status is %s" % (what, job.status()))
        if mt:
            R.check(_threads() <= THREADS, "failing-threads", lambda: "%s left %d threads running (%s)" % (what, _threads() - THREADS, o))
        R.check(bool(str(getattr(res, "status", "") or "")), "failing-status", lambda: "%s: the result gives no reason" % what)
        R.count("rejected")
        _check_good(rng, b, "failing-after", **(dict(n_threads=int(rng.integers(1, 5))) if mt else {}))
        R.seen(what, i)
    # truthful reporting of a valid job
    c, d = _good(rng), _good(rng)
    d.name = "second-%d" % i
    shots = int(rng.integers(1, 200))
    with quiet():
        job = b.run([c, d], shots=shots)
        job2 = b.run(c, shots=1)
    res = job.result()
    R.check(job.status() == JobStatus.DONE and res.success is True, "report", lambda: "a valid job reports %s, success %s" % (job.status(), res.success))
    R.check(job.job_id() != job2.job_id() and res.job_id == job.job_id(), "report-id", lambda: "job ids %s %s %s" % (job.job_id(), job2.job_id(), res.job_id))
    R.check([r.header.name for r in res.results] == [c.name, d.name], "report-name", lambda: "names are %s" % [r.header.name for r in res.results])
    R.check(all(r.success and r.shots == shots for r in res.results), "report-shots", lambda: "shots %s for %d" % ([r.shots for r in res.results], shots))
    R.check(res.backend_name == (b.name() if callable(b.name) else b.name), "report-backend", lambda: "backend %s" % res.backend_name)
    R.check([len(next(iter(res.get_counts(k)))) for k in (0, 1)] == [c.num_clbits, d.num_clbits], "report-layout", "keys have the wrong width")
    if i % 31 == 0:
        R.sample("rejected and continued; last: %s" % what)


def options(rng, i):
    """Runs with all sorts of options on one backend: each obeys its own options and the backend's, and no others."""
    b = backend()
    defaults = {}
    for step in range(int(rng.integers(3, 8))):
        if rng.random() < 0.2:
            k = [("shots", int(rng.integers(1, 300))), ("memory", bool(rng.random() < 0.5)), ("show_progress", False)][rng.integers(3)]
            b.set_options(**dict([k]))
            defaults.update([k])
        if rng.random() < 0.15:                                     # another backend is none of this one's business
            backend().set_options(shots=7, memory=True)
        if rng.random() < 0.15:
            what, c, o = _invalid(rng)
            with quiet():
                R.check(b.run(c, **dict(o, memory=True)).result().success is False, "options-failing", lambda: what)
        o = {}
        if rng.random() < 0.6:
            o["shots"] = None if rng.random() < 0.3 else int(rng.integers(1, 300))
        if rng.random() < 0.5:
            o["memory"] = bool(rng.random() < 0.6)
        if rng.random() < 0.2:
            o["seed_simulator"] = int(rng.integers(1 << 30))
        if rng.random() < 0.15:
            o["show_progress"], o["show_progress_frequency"] = True, int(rng.integers(1, 5))
        sv = rng.random() < 0.15
        eff = {**{"shots": 1024, "memory": False}, **defaults, **o}
        cs = [_good(rng) for _ in range(int(rng.integers(1, 3)))]
        text = lambda: "step %d, run options %s, backend options %s: %s" % (step, o, defaults, describe(cs[0]))
        if sv:                                                      # a job of the other backend in between
            c = random_circuit(rng, 2, 4, 2)
            statevector(c, "options-sv")
        if rng.random() < 0.25:
            t = Parameter("t")
            c = QuantumCircuit(1, 1); c.ry(t, 0); c.measure(0, 0)
            v = float(rng.uniform(0, 3))
            with quiet():
                r = b.run([c], parameter_binds=[{t: v}], shots=None).result()
            R.need(r.success is True, "options-rejected", text)
            compare_dist(r.data()["probabilities"], {0: np.cos(v / 2) ** 2, 1: np.sin(v / 2) ** 2}, "options-binds", text)
        said = io.StringIO()
        with contextlib.redirect_stdout(said):
            res = run_ok(b, cs if len(cs) > 1 or rng.random() < 0.5 else cs[0], "options", **o)
        R.check(bool(said.getvalue().strip()) <= bool(o.get("show_progress")), "options-chatter", lambda: "printed %r: %s" % (said.getvalue()[:200], text()))
        R.need(len(res.results) == len(cs), "options-length", text)
        for k, c in enumerate(cs):
            d = res.data(k)
            want = int_dist(ref.outcome_distribution(c))
            if eff["shots"] is None:
                R.need("probabilities" in d, "options-shots", lambda: "no probabilities: " + text())
                compare_dist(d["probabilities"], want, "options", text)
                continue
            R.check("probabilities" not in d and sum(res.get_counts(k).values()) == eff["shots"], "options-shots", lambda: "expected %d shots, got %d: %s" % (eff["shots"], sum(res.get_counts(k).values()), text()))
            compare_counts(int_dist(res.get_counts(k)), want, eff["shots"], "options", text)
            R.check(("memory" in d) == eff["memory"], "options-memory", lambda: "memory was %srequested: %s" % ("" if eff["memory"] else "not ", text()))
            if eff["memory"] and "memory" in d:
                R.check(len(d["memory"]) == eff["shots"], "options-memory", lambda: "%d entries: %s" % (len(d["memory"]), text()))
        R.seen(i, step, sorted((k, str(v)) for k, v in o.items()))
        R.count("runs")
    if i % 31 == 0:
        R.sample(text()[:300])


def described(rng, i):
    """What provider, backend and result say about themselves, against what they do."""
    from qdd import QddProvider
    from qiskit.circuit.library.standard_gates import get_standard_gate_name_mapping
    from qiskit.providers.exceptions import QiskitBackendNotFoundError
    import copy
    import datetime
    p = QddProvider()
    names = [x.name() for x in p.backends()]
    R.check(sorted(names) == ["qasm_simulator", "statevector_simulator"], "describe-backends", lambda: "the provider lists %s" % names)
    R.check(p.get_backend().name() == "qasm_simulator", "describe-default", "the default backend is " + p.get_backend().name())
    for x in names:
        R.check(p.get_backend(x).name() == x and [y.name() for y in p.backends(name=x)] == [x], "describe-name", "asked for " + x)
    try:
        x = p.get_backend(["nothing", "qasm", "aer_simulator"][rng.integers(3)])
        R.violation("describe-unknown", "an unknown name gives %s" % x.name())
    except QiskitBackendNotFoundError:
        pass
    sv = bool(rng.random() < 0.4)
    b = p.get_backend(names[1] if sv else names[0])
    conf = b.configuration()
    # every gate it lists, on a random placement, in a register of a few qubits
    std = get_standard_gate_name_mapping()
    for g in conf.basis_gates:
        if g in ("qdd", "reset"):
            continue
        op = L.MCXGate(int(rng.integers(1, 4))) if g == "mcx" else std[g].copy()
        if op.params:
            op = type(op)(*[angle(rng) for _ in op.params])
        n = op.num_qubits + int(rng.integers(0, 3))
        c = QuantumCircuit(n)
        for q in range(n):
            c.u(*rng.uniform(0.3, 2.8, 3).tolist(), q)
        c.append(op, [int(x) for x in rng.permutation(n)[:op.num_qubits]])
        want = {k: float(abs(a) ** 2) for k, a in enumerate(ref.statevector(c))}
        c.measure_all()
        compare_dist(run_ok(b, c, "describe-gate", shots=None).data()["probabilities"], want, "describe-gate", lambda: describe(c))
    # limits
    k = i % 4
    n = conf.n_qubits - int(rng.integers(0, 3) if not sv else rng.integers(4, 9))
    if k == 0 and sv:
        c = QuantumCircuit(n); c.h(0); [c.cx(j, j + 1) for j in range(n - 1)]
        v = np.array(run_ok(b, c, "describe-limit", shots=None).data()["statevector"])
        R.check(v.shape == (2 ** n,) and abs(v[0] - np.sqrt(0.5)) < 1e-9 and abs(v[-1] - np.sqrt(0.5)) < 1e-9 and abs(v[1:-1]).max() < 1e-12, "describe-limit", "GHZ state of %d qubits" % n)
    elif k == 0:
        c = QuantumCircuit(n, n); c.x(n - 1); c.cx(n - 1, 0); c.measure(range(n), range(n))
        r = run_ok(b, c, "describe-limit", shots=3).get_counts()
        R.check(r == {"1" + "0" * (n - 2) + "1": 3}, "describe-limit", lambda: "%d qubits: %s" % (n, r))
    elif k == 1:
        c = QuantumCircuit(conf.n_qubits + int(rng.integers(1, 4)), 1); c.h(0); c.measure(0, 0)
        with quiet():
            R.check(b.run(c, shots=None if sv else 10).result().success is False, "describe-limit", "%d qubits accepted" % c.num_qubits)
        if not sv and i % 16 in (5, 9):
            # every probability of a register this wide fits in no memory
            n = int(rng.integers(42, conf.n_qubits + 1))
            c = QuantumCircuit(n, 3); c.h(0); c.x(n - 1); c.measure([0, n - 1], [0, 1])
            old = resource.getrlimit(resource.RLIMIT_AS)
            resource.setrlimit(resource.RLIMIT_AS, (32 << 30, old[1]))
            try:
                with quiet():
                    r = b.run(c, shots=None).result()
            finally:
                resource.setrlimit(resource.RLIMIT_AS, old)
            R.count("wide exact runs %s" % ("answered" if r.success else "refused"))
            if r.success:
                got = {k: v for k, v in r.data()["probabilities"].items() if v > 1e-12}
                R.check(len(got) == 2 and all(abs(v - 0.5) < 1e-9 for v in got.values()), "describe-wide", lambda: "%d qubits: %s" % (n, str(got)[:200]))
    elif k == 2 and i % 16 == 2:
        c = QuantumCircuit(1, 1); c.h(0); c.measure(0, 0)
        r = run_ok(b, c, "describe-shots", shots=conf.max_shots).get_counts()
        R.check(sum(r.values()) == conf.max_shots and bernstein(r.get("1", 0), conf.max_shots, 0.5), "describe-shots", lambda: str(r))
    elif k == 3:
        c = QuantumCircuit(1, 1); c.h(0); c.measure(0, 0)
        with quiet():
            R.check(b.run(c, shots=conf.max_shots + int(rng.integers(1, 1000))).result().success is False, "describe-shots", "more than max_shots accepted")
    # options it knows, and one it does not
    known = dict(shots=5, memory=True, seed_simulator=3, show_progress=False, show_progress_frequency=3, n_threads=1, use_mpi=False, use_auto_swap=True, use_bcast=False, swap_ver="v2", parameter_binds=None, max_credits=3)
    o = {x: known[x] for x in rng.permutation(list(known))[:int(rng.integers(1, 6))]}
    stranger = ["optimisation", "noise_model", "shot"][rng.integers(3)] if rng.random() < 0.5 else None
    c = QuantumCircuit(1, 1); c.x(0); c.measure(0, 0)
    with warnings.catch_warnings(record=True) as said:
        warnings.simplefilter("always")
        r = b.run(c, **dict(o, **({stranger: 1} if stranger else {}))).result()
    said = [str(w.message) for w in said if "is not used by" in str(w.message)]
    R.check(r.success is True and (any(stranger in w for w in said) and len(said) == 1 if stranger else not said), "describe-options", lambda: "options %s and %s: success %s, warnings %s" % (o, stranger, r.success, said))
    # the report on a batch of circuits with registers, names and metadata of their own
    shots = None if rng.random() < 0.3 else int(rng.integers(1, 50))
    batch = []
    for t in range(int(rng.integers(1, 4))):
        qr = [(AncillaRegister if rng.random() < 0.2 else QuantumRegister)(int(rng.integers(1, 4)), x) for x in ("a", "zz", "b")[:int(rng.integers(1, 4))]]
        cr = [ClassicalRegister(int(rng.integers(1, 4)), x) for x in ("m", "k", "c0")[:int(rng.integers(1, 4))]]
        c = QuantumCircuit(*qr, *cr, name="circuit %d.%d" % (i, t), global_phase=angle(rng), metadata=[None, {}, {"run": int(rng.integers(100)), "who": "x"}][rng.integers(3)])
        add_random(rng, c, 5, 3)
        for q in range(min(c.num_qubits, c.num_clbits)):
            c.measure(q, q)
        batch.append((c, qr, cr, describe(c), c.global_phase, copy.deepcopy(c.metadata)))
    with quiet():
        job = b.run([x[0] for x in batch] if len(batch) > 1 or rng.random() < 0.5 else batch[0][0], shots=shots)
    r = job.result()
    R.need(r.success is True, "describe-rejected", lambda: batch[0][3])
    R.check(len(r.results) == len(batch), "describe-result", lambda: "%d results for %d circuits" % (len(r.results), len(batch)))
    for one, (c, qr, cr, before, phase, meta) in zip(r.results, batch):
        h = one.header
        want = dict(name=c.name, n_qubits=c.num_qubits, memory_slots=c.num_clbits, qreg_sizes=[[x.name, x.size] for x in qr], creg_sizes=[[x.name, x.size] for x in cr],
                    qubit_labels=[[x.name, j] for x in qr for j in range(x.size)], clbit_labels=[[x.name, j] for x in cr for j in range(x.size)])
        for key, x in want.items():
            R.check(getattr(h, key, None) == x, "describe-header", lambda: "%s is %s for %s" % (key, getattr(h, key, None), before))
        R.check(abs(float(h.global_phase) - float(phase)) < 1e-12 and (h.metadata or {}) == (meta or {}), "describe-header", lambda: "phase %s, metadata %s: %s" % (h.global_phase, h.metadata, before))
        R.check(one.shots == shots and one.success is True, "describe-result", lambda: "shots %s, success %s" % (one.shots, one.success))
        R.check(describe(c) == before and c.global_phase == phase and c.metadata == meta, "describe-input", lambda: "the circuit was changed by the run: " + before)
    R.check(r.backend_name == conf.backend_name and r.backend_version == conf.backend_version, "describe-result", lambda: "%s %s" % (r.backend_name, r.backend_version))
    R.check(job.backend().name() == b.name() and job.job_id() == r.job_id and job.done() and not job.running() and not job.cancelled(), "describe-job", lambda: "status %s" % job.status())
    R.seen(batch[0][3], len(batch), shots, sv)
    if i % 31 == 0:
        R.sample(short(batch[0][0]))


def _no_u2(make):
    """Qiskit itself cannot transpile two-qubit unitaries for this backend (known finding): kept out of the primitives."""
    while True:
        c = make()
        if not any(x.operation.name == "unitary" and len(x.qubits) == 2 for x in c.data):
            return c


def concurrent(rng, i):
    """Jobs of several kinds at the same time in one process, while collections are frequent."""
    from qdd.qdd_estimator import Estimator
    from qdd.qdd_sampler import Sampler
    from qiskit.quantum_info import SparsePauliOp, Statevector
    pyQDD.set_gc_thr(int(rng.integers(8, 400)), int(rng.integers(8, 400)))
    T = int(rng.integers(2, 6))
    work = []
    for t in range(T):
        todo = []
        for _ in range(int(rng.integers(2, 6))):
            kind = int(rng.integers(6))
            c = _no_u2(lambda: _good(rng, int(rng.integers(2, 6))))
            u = c.remove_final_measurements(inplace=False)
            if kind == 5:
                todo.append(("merge", u, None))
            elif kind == 4:
                todo.append(("dynamic", dynamic_circuit(rng, 2, 2, 5), None))
            elif kind == 3:
                lab = "".join("IXYZ"[x] for x in rng.integers(0, 4, u.num_qubits))
                todo.append(("estimator", u, SparsePauliOp.from_list([(lab, 1.3), ("Z" * u.num_qubits, -0.4)])))
            else:
                todo.append((["exact", "shots", "sampler"][kind], c, None))
        work.append(todo)
    b = backend() if rng.random() < 0.5 else None
    out = [[None] * len(w) for w in work]
    errs = []

    def job(t):
        try:
            bb = b or backend()
            s, e = Sampler(run_options={"shots": None}), Estimator(run_options={"shots": None}, approximation=True)
            hold = []
            for j, (kind, c, o) in enumerate(work[t]):
                if kind == "exact":
                    out[t][j] = bb.run(c, shots=None).result().data()["probabilities"]
                elif kind == "shots":
                    out[t][j] = bb.run(c, shots=200).result().get_counts()
                elif kind == "dynamic":
                    out[t][j] = bb.run(c, shots=60).result().get_counts()
                elif kind == "sampler":
                    hold.append((j, s.run(c)))
                elif kind == "estimator":
                    hold.append((j, e.run(c, o)))
                else:
                    from qdd.qdd_gate import QDDGate
                    m = bb.merge_circuit(c, int(3))
                    d = QuantumCircuit(c.num_qubits)
                    d.append(QDDGate(c.num_qubits, m), range(c.num_qubits))
                    out[t][j] = np.array(sv_backend().run(d, shots=None).result().data()["statevector"])
            for j, h in hold:
                r = h.result()
                out[t][j] = r.quasi_dists[0] if hasattr(r, "quasi_dists") else r.values[0]
        except Exception as x:                                      # noqa: BLE001
            import traceback
            errs.append(traceback.format_exc())
    ts = [threading.Thread(target=job, args=(t,)) for t in range(T)]
    with quiet():
        [t.start() for t in ts]
        [t.join() for t in ts]
    R.need(not errs, "concurrent-raised", lambda: "%d threads: %s" % (T, errs[0][-2000:]))
    for t in range(T):
        for j, (kind, c, o) in enumerate(work[t]):
            got = out[t][j]
            text = lambda: "%d threads, job %d of thread %d (%s): %s" % (T, j, t, kind, describe(c))
            R.count("jobs")
            if kind in ("exact", "sampler"):
                compare_dist(got, int_dist(ref.outcome_distribution(c)), "concurrent-" + kind, text)
            elif kind in ("shots", "dynamic"):
                N = 200 if kind == "shots" else 60
                R.check(sum(got.values()) == N, "concurrent-" + kind, text)
                compare_counts(int_dist(got), int_dist(ref.outcome_distribution(c)), N, "concurrent-" + kind, text)
            elif kind == "estimator":
                want = Statevector(c).expectation_value(o).real
                R.check(abs(got - want) < 1e-6, "concurrent-estimator", lambda: "%.9g, expected %.9g: %s" % (got, want, text()))
            else:
                want = ref.statevector(c)
                d = np.abs(got - want).max() if got.shape == want.shape else np.inf
                R.check(d < 1e-7, "concurrent-merge", lambda: "amplitude error %.3g: %s" % (d, text()))
    R.seen([[(k, describe(c)) for k, c, _ in w] for w in work])
    if i % 17 == 0:
        R.sample("%d threads: %s" % (T, [[k for k, _, _ in w] for w in work]))


# ------------------------------------------------------------------ P24
def _refused(f, key):
    """Values that do not fit the circuits are an error the caller sees, not an answer."""
    try:
        with quiet():
            r = f().result()
    except (ValueError, RuntimeError):
        R.count("refused")
        return
    R.violation(key, "values that do not fit were accepted and gave %s" % str(r)[:300])


def sampler(rng, i):
    from qdd.qdd_sampler import Sampler
    shots = None if rng.random() < 0.6 else [1, 50, 700, 2000][rng.integers(4)]
    skip = bool(rng.random() < 0.5)
    at_init = bool(rng.random() < 0.5)
    s = Sampler(run_options={"shots": shots} if at_init else None, skip_transpilation=skip)
    if rng.random() < 0.15:                                         # nothing said about shots
        shots, at_init = 1024, True
        s = Sampler(skip_transpilation=skip)
    pool = []
    for _ in range(3):
        n = int(rng.integers(1, 4))
        w, ps = _param_circuit(rng, n, ["z", "a", "p10", "p2"][:rng.integers(0, 5)], True)
        pool.append([w, ps, w(ps), 0.4])
    if rng.random() < 0.5:                                          # alike in everything but one angle
        w, ps, t = pool[0][0], pool[0][1], float(rng.uniform(0, 3))
        pool.append([w, ps, w(ps, t), t])
    if rng.random() < 0.5:
        for e in pool:
            e[2].name = "circuit"
    if rng.random() < 0.5:                                          # layouts other than one bit per qubit
        n = int(rng.integers(1, 4))
        c = _no_u2(lambda: random_circuit(rng, n, 5, 2, False))
        add_cregs(rng, c, int(rng.integers(1, 4)))
        measure_some(rng, c)
        if c.cregs:
            pool.append([lambda v, t, c=c: c, [], c, None])
    for call in range(int(rng.integers(1, 5))):
        if call and rng.random() < 0.5:                             # the user edits a circuit between calls
            e = pool[rng.integers(3)]
            if rng.random() < 0.6:                                  # and keeps a copy of it as it was
                pool.append([e[0], e[1], e[2].copy(), e[3]])
            e[3] = float(rng.uniform(0, 3))
            e[2].data[0] = e[2].data[0].replace(operation=L.RYGate(e[3]))
            R.count("edited_circuits")
        k = int(rng.integers(1, 6))
        sel = [pool[rng.integers(len(pool))] for _ in range(k)]
        if rng.random() < 0.2:
            _refused(lambda: s.run([sel[0][2]], [[0.1] * (sel[0][2].num_parameters + 1)]), "sampler-refuse")
            if sel[0][2].num_parameters:
                _refused(lambda: s.run([sel[0][2]], [[0.1] * (sel[0][2].num_parameters - 1)]), "sampler-refuse")
            _refused(lambda: s.run([sel[0][2]] * 2, [[0.1] * sel[0][2].num_parameters]), "sampler-refuse")
        vals, plain = [], []
        for w, ps, c, t in sel:
            v = {p.name: angle(rng) for p in ps}
            vals.append([v[p.name] for p in c.parameters])          # Qiskit binds in the order of circuit.parameters
            plain.append(w([v[p.name] for p in ps], t))
        with quiet():
            job = s.run([e[2] for e in sel], vals, **({} if at_init else {"shots": shots}))
            r = job.result()
        R.need(len(r.quasi_dists) == k and len(r.metadata) == k, "sampler-length", lambda: "%d distributions for %d entries" % (len(r.quasi_dists), k))
        for j in range(k):
            text = lambda: "call %d, entry %d of %d, shots=%s skip=%s: %s" % (call, j, k, shots, skip, describe(plain[j]))
            want = int_dist(ref.outcome_distribution(plain[j]))
            q = r.quasi_dists[j]
            R.need(all(isinstance(x, (int, np.integer)) for x in q), "sampler-keys", lambda: "keys %s: %s" % (list(q)[:3], text()))
            if shots is None:
                compare_dist(dict(q), want, "sampler", text)
            else:
                N = {x: int(round(p * shots)) for x, p in q.items()}
                R.check(abs(sum(q.values()) - 1) < 1e-9 and all(abs(N[x] - p * shots) < 1e-6 for x, p in q.items()), "sampler-shots", lambda: "not frequencies of %d shots: %s: %s" % (shots, dict(q), text()))
                compare_counts(N, want, shots, "sampler", text)
            R.check(r.metadata[j].get("shots") == shots, "sampler-metadata", lambda: "metadata says %s: %s" % (r.metadata[j].get("shots"), text()))
            R.seen(describe(plain[j]), shots)
        R.count("entries", k)
    if i % 31 == 0:
        R.sample(text()[:300])


# ------------------------------------------------------------------ P25
def _expectation(c, obs):
    s = ref.statevector(c)
    n = c.num_qubits
    P = {"I": np.eye(2), "X": ref.X, "Y": np.array([[0, -1j], [1j, 0]]), "Z": np.diag([1, -1])}
    terms = []
    for lab, co in obs:
        t = s
        for q, ch in enumerate(reversed(lab)):
            if ch != "I":
                t = ref.apply_matrix(t, P[ch], [q], n)
        terms.append((co, float(np.vdot(s, t).real), set(lab) == {"I"}))
    return sum(co * e for co, e, _ in terms), terms


def estimator(rng, i):
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import Pauli, SparsePauliOp
    n = int(rng.integers(1, 5))
    style = int(rng.integers(4))                                    # 0,1: exact; 2: sampled; 3: normal approximation
    shots = None if style < 2 else int(rng.integers(300, 3000))
    group, skip = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    kw = dict(abelian_grouping=group, skip_transpilation=skip)
    if style < 2:
        e = Estimator(run_options={"shots": None} if style else None, approximation=True, **kw)
    elif style == 2:
        e = Estimator(run_options={"shots": shots}, **kw)
        if rng.random() < 0.3:                                      # nothing said about shots
            shots = 1024
            e = Estimator(**kw)
    else:
        e = Estimator(run_options={"shots": shots}, approximation=True, **kw)
    circs = [_param_circuit(rng, n, ["z", "a", "p10", "p2"][:rng.integers(0, 4)], False) for _ in range(2)]
    circs = [[w, ps, _bare(w(ps)), 0.4] for w, ps in circs]
    if rng.random() < 0.4:                                          # alike in everything but one angle
        w, ps, t = circs[0][0], circs[0][1], float(rng.uniform(0, 3))
        circs[1] = [w, ps, _bare(w(ps, t)), t]
    if rng.random() < 0.5:
        for x in circs:
            x[2].name = "circuit"
    for x in circs:                                                 # bits the observables have nothing to do with
        for name in [["c"], ["meas"], ["k", "c"], ["c", "meas"], []][rng.integers(5)] if rng.random() < 0.4 else []:
            x[2].add_register(ClassicalRegister(int(rng.integers(1, n + 3)), name))
        if x[2].num_clbits and not skip and rng.random() < 0.4:     # final measurements are left out
            for q in range(min(n, x[2].num_clbits)):
                x[2].measure(q, q)
        elif rng.random() < 0.1 and not skip:
            x[2].measure_all()
    obs = []
    for _ in range(3):
        labs = {}
        for _ in range(int(rng.integers(1, 6))):
            lab = "".join("IXYZ"[x] for x in rng.integers(0, 4, n))
            if rng.random() < 0.15:
                lab = "I" * n
            labs[lab] = float(rng.uniform(-1.5, 1.5))
        obs.append(list(labs.items()))
        if rng.random() < 0.2:                                      # a term written twice
            obs[-1].insert(int(rng.integers(len(obs[-1]) + 1)), (obs[-1][0][0], float(rng.uniform(-1.5, 1.5))))
    if style < 2 and rng.random() < 0.15:                           # not an observable, but a sum of Pauli strings
        obs = [[(lab, co + 1j * float(rng.uniform(-1, 1))) for lab, co in o] for o in obs]
    ops = [SparsePauliOp.from_list(o) for o in obs]
    if rng.random() < 0.3:                                          # one Pauli string, by its name
        lab, sign = "".join("IXYZ"[x] for x in rng.integers(0, 4, n)), int(rng.integers(2))
        obs[2] = [(lab, -1.0 if sign else 1.0)]
        ops[2] = Pauli("-" + lab) if sign else [lab, Pauli(lab)][rng.integers(2)]
    for call in range(int(rng.integers(1, 4))):
        k = int(rng.integers(1, 6))
        sc, so = [int(x) for x in rng.integers(0, len(circs), k)], [int(x) for x in rng.integers(0, len(obs), k)]
        if call and rng.random() < 0.4:                             # the user edits a circuit between calls
            x = circs[rng.integers(2)]
            if rng.random() < 0.6:                                  # and keeps a copy of it as it was
                circs.append([x[0], x[1], x[2].copy(), x[3]])
            x[3] = float(rng.uniform(0, 3))
            x[2].data[0] = x[2].data[0].replace(operation=L.RYGate(x[3]))
            R.count("edited_circuits")
        if call and rng.random() < 0.3:                             # or an observable
            x = int(rng.integers(3))
            if rng.random() < 0.6:
                obs.append(obs[x]); ops.append(copy.deepcopy(ops[x]))
            obs[x] = [(lab, float(rng.uniform(-1.5, 1.5))) for lab, _ in obs[x]]
            if rng.random() < 0.5 and isinstance(ops[x], SparsePauliOp):
                ops[x].coeffs = np.array([co for _, co in obs[x]], complex)
            else:
                ops[x] = SparsePauliOp.from_list(obs[x])
        if rng.random() < 0.2:
            c = circs[sc[0]][2]
            _refused(lambda: e.run([c], [ops[so[0]]], [[0.1] * (c.num_parameters + 1)]), "estimator-refuse")
            _refused(lambda: e.run([c], [ops[so[0]]] * 2, [[0.1] * c.num_parameters]), "estimator-refuse")
            _refused(lambda: e.run([c], [SparsePauliOp.from_list([("Z" * (n + 1), 1.0)])], [[0.1] * c.num_parameters]), "estimator-refuse")
        vals, plain = [], []
        for j in range(k):
            w, ps, c, t = circs[sc[j]]
            v = {p.name: angle(rng) for p in ps}
            if j and sc[j] == sc[0] and rng.random() < 0.3:         # the same values again
                v = prev
            if j == 0:
                prev = v
            vals.append([v[p.name] for p in c.parameters])
            plain.append(_bare(w([v[p.name] for p in ps], t)))
        extra = {"seed": int(rng.integers(1000))} if style == 3 and rng.random() < 0.5 else {}
        with quiet():
            r = e.run([circs[j][2] for j in sc], [ops[j] for j in so], vals, **extra).result()
            again = e.run([circs[j][2] for j in sc], [ops[j] for j in so], vals, **extra).result()
        R.need(len(r.values) == k and len(r.metadata) == k, "estimator-length", lambda: "%d values for %d entries" % (len(r.values), k))
        for rr in (r, again):
            for j in range(k):
                want, terms = _expectation(plain[j], obs[so[j]])
                text = lambda: "call %d, entry %d of %d, style %d shots=%s grouping=%s skip=%s, observable %s: %s" % (call, j, k, style, shots, group, skip, obs[so[j]], describe(plain[j]))
                got = float(np.real(rr.values[j]))
                var = sum(abs(co) ** 2 * max(0.0, 1 - ex * ex) for co, ex, one in terms if not one)
                if style < 2:
                    got = complex(rr.values[j])
                    R.check(abs(got - want) < 1e-6, "estimator", lambda: "%s, expected %s: %s" % (got, want, text()))
                elif style == 2:
                    tol = sum(abs(co) * (np.sqrt(2 * max(0.0, 1 - ex * ex) * LN / shots) + 4 * LN / (3 * shots)) for co, ex, one in terms if not one) + 1e-9
                    R.check(abs(got - want) <= tol, "estimator-sampled", lambda: "%.6g, expected %.6g +- %.3g: %s" % (got, want, tol, text()))
                    v = rr.metadata[j].get("variance")
                    if v is not None:
                        tv = sum(co * co * (2 * (np.sqrt(2 * max(0.0, 1 - ex * ex) * LN / shots) + 4 * LN / (3 * shots)) + (np.sqrt(2 * LN / shots)) ** 2 * 0.5) for co, ex, one in terms if not one) + 1e-9
                        R.check(abs(float(np.real(v)) - var) <= tv, "estimator-variance", lambda: "variance %.6g, expected %.6g +- %.3g: %s" % (np.real(v), var, tv, text()))
                else:
                    R.check(abs(got - want) <= 9 * np.sqrt(var / shots) + 1e-6, "estimator-normal", lambda: "%.6g, expected %.6g, standard error %.3g: %s" % (got, want, np.sqrt(var / shots), text()))
                    v = rr.metadata[j].get("variance")
                    R.check(v is not None and abs(float(np.real(v)) - var) < 1e-6, "estimator-variance", lambda: "variance %s, expected %.6g: %s" % (v, var, text()))
        if extra:
            R.check(np.allclose(np.real(r.values), np.real(again.values), atol=1e-9), "estimator-seed", lambda: "the same seed gave %s and %s: %s" % (r.values, again.values, text()))
        R.seen(style, group, skip, [describe(c) for c in plain], [obs[j] for j in so])
        R.count("entries", k)
    if i % 31 == 0:
        R.sample(text()[:300])


def primwide(rng, i):
    """The primitives on registers of up to 100 qubits, answers known in closed form."""
    from qdd.qdd_estimator import Estimator
    from qdd.qdd_sampler import Sampler
    from qiskit.quantum_info import SparsePauliOp
    n = int(rng.integers(40, 101)) if rng.random() < 0.8 else int(rng.integers(20, 40))
    product = bool(i % 2)
    exact = not product and i % 8 == 0
    if exact:                                                       # every probability is listed
        n = int(rng.integers(8, 15))
    c = QuantumCircuit(n)
    if product:                                                     # every qubit by itself
        th, ph = rng.uniform(0.2, 2.9, n), rng.uniform(-3, 3, n)
        if rng.random() < 0.4:                                      # most of them certain
            th = np.where(rng.random(n) < 3 / n, th, rng.integers(0, 2, n) * np.pi)
        for q in rng.permutation(n):
            c.ry(float(th[q]), int(q)); c.rz(float(ph[q]), int(q))
        bloch = [dict(I=1.0, X=np.sin(th[q]) * np.cos(ph[q]), Y=np.sin(th[q]) * np.sin(ph[q]), Z=np.cos(th[q])) for q in range(n)]
        value = lambda lab: float(np.prod([bloch[q][ch] for q, ch in enumerate(reversed(lab))]))
    else:                                                           # some qubits flipped, some in a superposition of two strings
        a = float(rng.uniform(0.3, 2.8))
        order = [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]
        c.ry(a, order[0])
        for j in range(1, len(order)):
            c.cx(order[rng.integers(j)], order[j])
        flip = [int(x) for x in rng.integers(0, 2, n)]
        for q in range(n):
            if flip[q]:
                c.x(q)

        def value(lab):                                             # cos(a/2)|f> + sin(a/2)|f'>, f' being f with the bits of 'order' flipped
            lab = lab[::-1]
            moved = {q for q in range(n) if lab[q] in "XY"}
            d = [1.0, 1.0]                                          # <f|Z..|f> for both strings
            for q in range(n):
                if lab[q] == "Z":
                    d[0] *= -1 if flip[q] else 1
                    d[1] *= -1 if flip[q] ^ (q in order) else 1
            if not moved:
                return float(np.cos(a / 2) ** 2 * d[0] + np.sin(a / 2) ** 2 * d[1])
            if moved != set(order):
                return 0.0
            amp = 1.0 + 0j                                          # <f'|P|f>: X|b> = |1-b>, Y|b> = i(-1)^b |1-b>
            for q in range(n):
                if lab[q] == "Y":
                    amp *= 1j * (-1) ** flip[q]
            return float(2 * np.cos(a / 2) * np.sin(a / 2) * (amp * d[0]).real)
    if i % 5 == 4:                                                  # outcomes
        where = [int(x) for x in rng.permutation(n)]
        m = QuantumCircuit(n, n)
        m.compose(c, inplace=True)
        for q in range(n):
            m.measure(q, where[q])
        shots = int(rng.integers(100, 500))
        with quiet():
            d = Sampler(run_options={"shots": shots}).run([m]).result().quasi_dists[0]
        R.check(abs(sum(d.values()) - 1) < 1e-9 and all(0 <= x < 2 ** n for x in d), "primwide-sampler", lambda: "n=%d: frequencies add up to %.9g" % (n, sum(d.values())))
        for q in range(n):
            got = int(round(shots * sum(p for x, p in d.items() if int(x) >> where[q] & 1)))
            p = (1 - value("I" * (n - 1 - q) + "Z" + "I" * q)) / 2
            R.check(bernstein(got, shots, p), "primwide-sampler", lambda: "n=%d: qubit %d (bit %d) is 1 in %d of %d shots, probability %.9g: %s" % (n, q, where[q], got, shots, p, short(c, 900)))
        R.seen(describe(m), shots)
        return
    labs = {}
    last = None
    for _ in range(int(rng.integers(2, 7))):
        lab = ["I"] * n
        if last is not None and rng.random() < 0.5:                 # like the one before but for its first, or last, qubits
            lab = list(last)
        if rng.random() < 0.4:                                      # most of the register
            lab = ["IZ"[int(x)] for x in rng.random(n) < rng.choice([0.5, 0.9, 1.0])]
        hi = rng.random() < 0.6
        for _ in range(int(rng.integers(0 if lab.count("I") < n // 2 else 1, 4))):
            q = int(rng.integers(max(0, n - 40), n)) if hi else int(rng.integers(n))
            lab[n - 1 - q] = "IXYZ"[rng.integers(4)] if product and set(lab) & set("XY") or rng.random() < 0.4 else "IZ"[rng.integers(2)]
        if not product and rng.random() < 0.3:
            for q in order:
                lab[n - 1 - q] = "XY"[rng.integers(2)]
        last = lab
        labs["".join(lab)] = float(rng.uniform(-1.5, 1.5))
    if rng.random() < 0.2:
        labs["I" * n] = float(rng.uniform(-1, 1))
    op = SparsePauliOp.from_list(list(labs.items()))
    want = sum(co * value(lab) for lab, co in labs.items())
    group, skip = bool(rng.random() < 0.5), bool(rng.random() < 0.5)
    shots = None if exact else int(rng.integers(200, 1500))
    kw = dict(abelian_grouping=group, skip_transpilation=skip)
    with quiet():
        e = Estimator(run_options={"shots": shots}, **kw) if shots else Estimator(approximation=True, **kw)
        got = float(np.real(e.run([c], [op]).result().values[0]))
    text = lambda: "n=%d, shots=%s grouping=%s skip=%s, observable %s: %s" % (n, shots, group, skip, labs, short(c, 900))
    if shots:
        tol = 1e-9
        for lab, co in labs.items():
            v = max(0.0, 1 - value(lab) ** 2)
            if set(lab) != {"I"}:
                tol += abs(co) * (np.sqrt(2 * v * LN / shots) + 4 * LN / (3 * shots))
    else:
        tol = 1e-6
    R.check(abs(got - want) <= tol, "primwide-estimator", lambda: "%.6g, expected %.6g +- %.3g: %s" % (got, want, tol, text()))
    R.seen(text())
    R.count("terms", len(labs))
    if i % 23 == 0:
        R.sample(text()[:300])


def _bare(c):
    """The same circuit without classical bits."""
    d = QuantumCircuit(c.num_qubits)
    qi = {q: k for k, q in enumerate(c.qubits)}
    for ins in c.data:
        d.append(ins.operation, [qi[q] for q in ins.qubits])
    return d


# ------------------------------------------------------------------ P26
HELD = []                                                           # merged gates stay in use from case to case


HELD_GATES = []


def merge(rng, i):
    from qdd.qdd_gate import QDDGate
    from qiskit.circuit.library import UnitaryGate
    if rng.random() < 0.6:
        pyQDD.set_gc_thr(int(rng.integers(4, 300)), int(rng.integers(4, 300)))
    b = backend()
    fresh = []
    for _ in range(int(rng.integers(1, 4))):
        k = int(rng.integers(1, 5))
        c = random_circuit(rng, k, int(rng.integers(0, 14)), 4)
        if fresh and rng.random() < 0.35:                           # a merged gate inside another
            f = fresh[rng.integers(len(fresh))]
            if f[0] <= k:
                pos = [int(x) for x in rng.permutation(k)[:f[0]]]
                c.append(QDDGate(f[0], f[1]), [c.qubits[p] for p in pos])
                u = random_circuit(rng, k, 0, 1, False)
                full = _unitary(c, {len(c.data) - 1: f[2]})
            else:
                full = _unitary(c, {})
        else:
            full = _unitary(c, {})
        if rng.random() < 0.4:                                      # classical bits, barriers and closing measurements add nothing
            c.add_register(ClassicalRegister(int(rng.integers(1, k + 1)), "m%d" % len(fresh)))
            if rng.random() < 0.5:
                c.barrier()
            if rng.random() < 0.3:
                c.measure(c.qubits[int(rng.integers(k))], c.clbits[0])
        freq = int(rng.integers(1, 25))
        m = b.merge_circuit(c, freq) if rng.random() < 0.8 else b.merge_circuit(c)
        fresh.append((k, m, full, "gc_freq=%d %s" % (freq, describe(c))))
        M = np.array(m.getEigenMatrix(k))
        d = np.abs(M - full).max() if M.shape == full.shape else np.inf
        R.check(d < 1e-5, "merge-matrix", lambda: "operator off by %.3g (single precision): %s" % (d, fresh[-1][3]))
        R.count("merged")
        if rng.random() < 0.2:                                      # an operator made by hand, put in a gate
            k, w = int(rng.integers(1, 4)), [float(x) for x in rng.uniform(-3, 3, 3)]
            q = int(rng.integers(k))
            raw = pyQDD.makeGate(k, pyQDD.u3(*w), q)
            HELD_GATES.append(QDDGate(k, raw))
            hand = QuantumCircuit(k); hand.u(*w, q)
            fresh.append((k, raw, _unitary(hand, {}), "u3 %s on %d of %d" % (w, q, k)))
        if rng.random() < 0.3:                                      # unrelated work in between
            _check_good(rng, b, "merge-between")
        if rng.random() < 0.3:
            pyQDD.gc(pyQDD.makeZeroState(1), True)
    HELD.extend(f for f in fresh if rng.random() < 0.3)
    del HELD[:-12]
    del HELD_GATES[:-12]
    pool = fresh + HELD
    for _ in range(2):
        n = int(rng.integers(max(f[0] for f in fresh), 7))
        c, r = random_circuit(rng, n, int(rng.integers(0, 5)), 3), None
        mats = {}
        for _ in range(int(rng.integers(1, 4))):
            f = pool[rng.integers(len(pool))]
            if f[0] > n:
                continue
            pos = [int(x) for x in rng.permutation(n)[:f[0]]]
            mats[len(c.data)] = f[2]
            c.append(QDDGate(f[0], f[1]), [c.qubits[p] for p in pos])
            add_random(rng, c, int(rng.integers(0, 3)), 3)
        want = _apply(c, mats)
        text = "%s with %s" % (describe(c), [f[3] for f in pool][:3])
        if rng.random() < 0.2:                                      # through the primitives
            from qdd.qdd_estimator import Estimator
            from qdd.qdd_sampler import Sampler
            probs = np.abs(want) ** 2
            flat = QuantumCircuit(n)
            flat.compose(c, range(n), inplace=True)
            if rng.random() < 0.5:
                z = "".join("IZ"[x] for x in rng.integers(0, 2, n))
                sign = np.array([(-1) ** sum(z[n - 1 - q] == "Z" and k >> q & 1 for q in range(n)) for k in range(2 ** n)])
                with quiet():
                    v = Estimator(run_options={"shots": None}, approximation=True, skip_transpilation=True).run([flat], [z]).result().values[0]
                R.check(abs(float(np.real(v)) - float(sign @ probs)) < 1e-6, "merge-estimator", lambda: "%s is %.9g, expected %.9g: %s" % (z, np.real(v), sign @ probs, text))
            else:
                flat.measure_all()
                with quiet():
                    qd = Sampler(run_options={"shots": None}, skip_transpilation=True).run([flat, flat]).result().quasi_dists[1]
                compare_dist(dict(qd), dict(enumerate(probs)), "merge-sampler", lambda: text)
            R.count("primitives")
        else:
            statevector(c, "merge-placed", 1e-7, want, text)
        R.seen(describe(c), [f[3] for f in fresh])
    if rng.random() < 0.3:                                          # what cannot be merged is refused
        k = int(rng.integers(3))
        c = QuantumCircuit(2, 2)
        c.h(0)
        if k == 0:
            c.reset(0)
        elif k == 1:
            c.x(1).c_if(0, 1)
        else:
            c.append(L.CHGate(), [0, 1])
        try:
            with quiet():
                m = b.merge_circuit(c)
            R.violation("merge-accepted", "a circuit with %s was merged" % ["a reset", "a condition", "an unsupported gate"][k])
        except Exception:                                           # noqa: BLE001 - a refusal, of whatever type
            R.count("refused")
    if i % 31 == 0:
        R.sample(fresh[0][3][:300])


def _apply(c, mats):
    n = c.num_qubits
    s = np.zeros(2 ** n, dtype=complex)
    s[0] = 1
    return _run(c, mats, s) * np.exp(1j * float(c.global_phase))


def _run(c, mats, s):
    qi = {q: k for k, q in enumerate(c.qubits)}
    for k, ins in enumerate(c.data):
        if ins.operation.name == "barrier":
            continue
        s = ref.apply_matrix(s, mats[k] if k in mats else ref.matrix(ins.operation), [qi[q] for q in ins.qubits], c.num_qubits)
    return s


def _unitary(c, mats):
    d = 2 ** c.num_qubits
    return np.array([_run(c, mats, np.eye(d, dtype=complex)[k]) for k in range(d)]).T * np.exp(1j * float(c.global_phase))


# ------------------------------------------------------------------ P28
def _fan(rng, n):
    """A circuit with about 2^n equally likely outcomes."""
    c = random_registers(rng, n)
    for q in c.qubits:
        c.ry(float(rng.uniform(1.2, 1.9)), q)
    for _ in range(4):
        q = [int(x) for x in rng.permutation(n)[:2]]
        c.cx(*q); c.rz(angle(rng), q[0])
    return c


def seeds(rng, i):
    from qdd.qdd_estimator import Estimator
    from qdd.qdd_sampler import Sampler
    from qiskit.quantum_info import SparsePauliOp
    n = int(rng.integers(3, 6))
    kind = i % 6
    shots = int(rng.integers(100, 300))
    c = _fan(rng, n)
    b = backend()
    if kind == 1:                                                   # measured and reused
        m = QuantumCircuit(n, 3 * n)
        for r in range(3):
            m.compose(c, range(n), inplace=True)
            m.measure(range(n), range(r * n, r * n + n))
            m.x(0).c_if(r * n, 1)
            if rng.random() < 0.5:
                m.reset(int(rng.integers(n)))
        c = m
        shots = 40
    elif kind < 4:
        c.measure_all()
    ops = SparsePauliOp.from_list([("".join("IXYZ"[x] for x in rng.integers(0, 4, n)), 0.7), ("Z" * n, 1.0), ("X" * n, 0.4)])
    if kind == 5 and all(abs(abs(e) - 1) < 0.02 for _, e, one in _expectation(c, [(l, float(x.real)) for l, x in ops.to_list()])[1] if not one):
        raise Skip
    objs = {}

    def go(seed, how):
        """One run; how: where the seed is given."""
        with quiet():
            if kind <= 1:
                bb = b if how == 0 else backend()
                opts = {"shots": shots, "memory": True}
                if how == 2:
                    bb.set_options(seed_simulator=seed)
                elif seed is not None:
                    opts["seed_simulator"] = np.int64(seed) if how == 1 else seed
                if how == 3:
                    bb.set_options(seed_simulator=seed + 1)          # the run's own seed wins
                r = run_ok(bb, [c, c] if kind == 0 else c, "seeds", **opts)
                return [r.get_memory(k) for k in range(len(r.results))]
            key = "seed" if how % 2 == 0 or kind == 5 else "seed_simulator"
            if kind in (2, 3):
                s = objs.setdefault("s", Sampler(run_options={"shots": shots})) if kind == 2 else Sampler(run_options={"shots": shots, **({} if seed is None else {key: seed})})
                r = s.run([c, c], **({key: seed} if kind == 2 and seed is not None else {})).result()
                return [dict(q) for q in r.quasi_dists]
            e = Estimator(run_options={"shots": shots}, approximation=kind == 5)
            return [float(np.real(v)) for v in e.run([c, c], [ops, ops], **({} if seed is None else {key: seed})).result().values]

    text = lambda: "kind %d, %d shots: %s" % (kind, shots, describe(c))
    bad = 0
    for _ in range(2):                                              # a draw may fall on a rounding error once, not twice
        seed = int(rng.integers(2 ** 31)) if rng.random() < 0.7 else int(rng.integers(2 ** 62)) if rng.random() < 0.3 else int(rng.integers(3))
        how = int(rng.integers(4))
        first = go(seed, how)
        if rng.random() < 0.5:
            _check_good(rng, b, "seeds-between")
        elif rng.random() < 0.5:
            with quiet():
                pyQDD.gc(pyQDD.makeZeroState(1), True)
        again = go(seed, int(rng.integers(4)))
        same = first == again if kind < 4 else np.allclose(first, again, atol=1e-9)
        if same:
            break
        bad += 1
    R.check(bad < 2, "seeds", lambda: "two runs with one seed differ: %s / %s: %s" % (str(first)[:100], str(again)[:100], text()))
    if kind < 2:
        other = go(seed + (1 + int(rng.integers(1000)) if rng.random() < 0.7 else 2 ** 32 * int(1 + rng.integers(2 ** 20))), how)
        free = [go(None, 0), go(None, 0)]
        go(seed, how)
        after = [go(None, 0)]
        go(seed, how)
        after.append(go(None, 0))
        R.check(after[0] != after[1], "seeds-leave", lambda: "a run without a seed repeats after runs with one seed: " + text())
        R.check(other != first, "seeds-other", lambda: "another seed gave the same shots: " + text())
        R.check(free[0] != free[1] and free[0] != first, "seeds-none", lambda: "runs without a seed repeat: " + text())
        if kind == 0:
            R.check(first[0] != first[1], "seeds-within", lambda: "two circuits of one job share their shots: " + text())
        if kind == 0:
            tally = {}
            for x in first[0] + other[0] + free[0][0] + free[1][0]:
                tally[x] = tally.get(x, 0) + 1
            compare_counts(int_dist(tally), int_dist(ref.outcome_distribution(c)), sum(tally.values()), "seeds-frequency", text)
    R.seen(kind, describe(c))
    R.count("pairs")
    if i % 31 == 0:
        R.sample(text()[:300])


FRESH = """
import sys, warnings
warnings.simplefilter("ignore")
from qiskit import QuantumCircuit
how, seed, n = int(sys.argv[1]), sys.argv[2], 60
seed = None if seed == "None" else int(seed)
c = QuantumCircuit(n, 2 * n)
c.h(range(n))
c.measure(range(n), range(n))
if how == 1:
    c.h(range(n))
    c.measure(range(n), range(n, 2 * n))
if how < 2:
    from qdd import QddProvider
    o = {} if seed is None else {"seed_simulator": seed}
    print("DRAWN", QddProvider().get_backend().run(c, shots=3, memory=True, **o).result().get_memory())
elif how == 2:
    from qdd.qdd_sampler import Sampler
    o = {} if seed is None else {"seed": seed}
    print("DRAWN", sorted(Sampler(run_options={"shots": 3}).run([c], **o).result().quasi_dists[0]))
else:
    from qdd.qdd_estimator import Estimator
    from qiskit.quantum_info import SparsePauliOp
    c = QuantumCircuit(12)
    c.h(range(12))
    o = {} if seed is None else {"seed": seed}
    ops = [SparsePauliOp("I" * (11 - q) + "Z" + "I" * q) for q in range(12)]
    print("DRAWN", [float(x.real) for x in Estimator(run_options={"shots": 2000}).run([c] * 12, ops, **o).result().values])
"""


def fresh(rng, i):
    """Processes of their own: with one seed they draw the same, without any they do not."""
    how = i % 4

    def go(seed):
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", FRESH, str(how), str(seed)], capture_output=True, text=True, timeout=300,
                           env={k: v for k, v in os.environ.items() if not k.startswith("QDD_EVENTS")})
        out = [x for x in p.stdout.splitlines() if x.startswith("DRAWN")]
        R.need(p.returncode == 0 and len(out) == 1, "fresh-failed", lambda: "way %d, seed %s: %s" % (how, seed, (p.stdout + p.stderr)[-600:]))
        return out[0]
    seed = int(rng.integers(2 ** 40))
    a, b, other = go(seed), go(seed), go(seed + 1)
    free = [go(None) for _ in range(3)]
    R.check(a == b, "fresh-seed", lambda: "way %d: two processes with seed %d differ: %s / %s" % (how, seed, a[:200], b[:200]))
    R.check(a != other, "fresh-other", lambda: "way %d: seeds %d and %d draw the same: %s" % (how, seed, seed + 1, a[:200]))
    R.check(len(set(free)) == 3 and a not in free, "fresh-none", lambda: "way %d: processes without a seed draw the same: %s" % (how, [x[:120] for x in free]))
    R.seen(how, seed)
    R.count("processes", 6)


# ------------------------------------------------------------------ P12 through the backend
def mtjobs(rng, i):
    b, sv = backend(), sv_backend()
    log = []
    for _ in range(int(rng.integers(2, 6))):
        t = int([1, 2, 2, 3, 4, 8, 9][rng.integers(7)])
        log.append(t)
        text = lambda: "n_threads %s: %s" % (log, describe(c))
        kind = int(rng.integers(4))
        if kind == 0:
            c = _good(rng, int(rng.integers(2, 7)))
            N = 300
            cnt = int_dist(run_ok(b, c, "mtjobs", shots=N, n_threads=t).get_counts())
            compare_counts(cnt, int_dist(ref.outcome_distribution(c)), N, "mtjobs-counts", text)
        elif kind == 1:
            c = dynamic_circuit(rng, 3, 3, 8)
            N = 60
            cnt = int_dist(run_ok(b, c, "mtjobs", shots=N, n_threads=t).get_counts())
            compare_counts(cnt, int_dist(ref.outcome_distribution(c)), N, "mtjobs-dynamic", text)
        else:
            c = random_circuit(rng, int(rng.integers(6, 10)), int(rng.integers(5, 25)))
            statevector(c, "mtjobs", n_threads=t, text=text(), b=sv)
        R.seen(describe(c), t)
        R.count("jobs")
        if rng.random() < 0.2:
            what, bad, o = _invalid(rng)
            with quiet():
                b.run(bad, **dict(o, n_threads=int(rng.integers(2, 6))))
            log.append("invalid")
    if i % 17 == 0:
        R.sample(text()[:300])


# ------------------------------------------------------------------ P27
def pybounded(rng, i):
    """Bytes the process holds after many equal jobs, against after the first ones."""
    import ctypes
    libc = ctypes.CDLL(None)

    class Mall(ctypes.Structure):
        _fields_ = [(x, ctypes.c_size_t) for x in "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]
    libc.mallinfo2.restype = Mall
    kind = i % 11
    from qdd.qdd_estimator import Estimator
    from qdd.qdd_gate import QDDGate
    from qdd.qdd_sampler import Sampler
    from qiskit.quantum_info import SparsePauliOp
    b, sv = backend(), sv_backend()
    sampler, estimator = Sampler(), Estimator()
    th = Parameter("th")
    par = QuantumCircuit(3, 3); par.h(0); par.rx(th, 1); par.cx(0, 2); par.ry(2 * th, 2); par.measure(range(3), range(3))
    bare = par.remove_final_measurements(inplace=False)
    ops = SparsePauliOp.from_list([("ZZI", 0.5), ("IXX", -1.0), ("III", 0.2)])
    bad = QuantumCircuit(2, 2); bad.h(0); bad.rx(th, 1); bad.measure(0, 0)
    merged = b.merge_circuit(random_circuit(rng, 3, 6), 5)
    pyQDD.set_gc_thr(500, 500)
    circs = [_good(rng, 4) for _ in range(4)]
    dyn = [dynamic_circuit(rng, 3, 3, 8) for _ in range(3)]
    plain = [random_circuit(rng, 6, 12) for _ in range(3)]

    def work(reps):
        for k in range(reps):
            if kind == 0:
                b.run(circs[k % 4], shots=100)
            elif kind == 1:
                b.run(dyn[k % 3], shots=20)
            elif kind == 2:
                sv.run(plain[k % 3], shots=None)
            elif kind == 3:
                b.run(circs[k % 4], shots=None)
            elif kind == 4:
                b.merge_circuit(plain[k % 3], 5)
            elif kind == 5:                                         # equal circuits, other values
                sampler.run([par.copy()], [[float(rng.uniform(0, 6))]]).result()
            elif kind == 6:
                estimator.run([bare.copy()], [ops], [[float(rng.uniform(0, 6))]]).result()
            elif kind == 7:                                         # never the same circuit twice
                b.run(_good(rng, 5), shots=50)
            elif kind == 8:                                         # refused jobs
                with quiet():
                    b.run(bad if k % 2 else [par], shots=20, parameter_binds=[{}, {}])
            elif kind == 9:                                         # batches with values
                b.run([par] * 3, shots=10, parameter_binds=[{th: float(rng.uniform(0, 6))} for _ in range(3)], seed_simulator=k)
            else:                                                   # placing a merged gate
                c = QuantumCircuit(4, 4); c.h(0); c.append(QDDGate(3, merged), [int(x) for x in rng.permutation(4)[:3]]); c.measure(range(4), range(4))
                b.run(c, shots=20)
        pyQDD.gc(pyQDD.makeZeroState(1), True)
        pygc.collect()
        m = libc.mallinfo2()
        return m.uordblks + m.hblkhd
    # tables grow in doubling blocks until they hold the largest set of nodes between two collections
    work(1000 if kind in (5, 6, 7, 9) else 300)
    first = [work(50) for _ in range(3)]
    work(600)
    last = [work(50) for _ in range(3)]
    grown = min(last) - max(first)
    R.check(grown <= 300000, "py-memory", lambda: "kind %d: %d bytes more after 750 further jobs (%d to %d)" % (kind, grown, max(first), min(last)))
    R.count("jobs", 1200)
    R.seen(kind, i)
    R.sample("kind %d: %d bytes, then %d" % (kind, max(first), min(last)))


if __name__ == "__main__":
    MODES = dict(gates=gates, circuits=circuits, transpiled=transpiled, initialised=initialised, wide=wide, counts=counts, dynamic=dynamic, directed=directed,
                 exact=exact, exactdyn=exactdyn, binds=binds, failing=failing, options=options, concurrent=concurrent, sampler=sampler,
                 estimator=estimator, merge=merge, primwide=primwide, described=described, seeds=seeds, fresh=fresh, mtjobs=mtjobs, pybounded=pybounded)
    R.finish(ev.main(MODES))
