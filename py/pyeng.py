"""Monitors at the engine module a Python program can use without Qiskit (pyQDD).
   pyeng.py <mode> <seed> <start> <count>"""
import gc as pygc
from common import *                                                # noqa: F401,F403
from common import LN, NICE, R, angle, bernstein, np, pyQDD, ref, runitary
import ev

S2 = np.sqrt(0.5)
NAMED = dict(I=np.eye(2), H=np.array([[S2, S2], [S2, -S2]]), X=np.array([[0, 1], [1, 0]]), Y=np.array([[0, -1j], [1j, 0]]), Z=np.diag([1, -1]),
             S=np.diag([1, 1j]), Sdag=np.diag([1, -1j]), T=np.diag([1, np.exp(0.25j * np.pi)]), Tdag=np.diag([1, np.exp(-0.25j * np.pi)]),
             SX=np.array([[1 + 1j, 1 - 1j], [1 - 1j, 1 + 1j]]) / 2, SXdag=np.array([[1 - 1j, 1 + 1j], [1 + 1j, 1 - 1j]]) / 2,
             V=np.array([[1, -1j], [-1j, 1]]) * S2, Vdag=np.array([[1, 1j], [1j, 1]]) * S2)
PX, PY, PZ = NAMED["X"], NAMED["Y"], NAMED["Z"]
SWAP = np.eye(4)[[0, 2, 1, 3]].astype(complex)
ISWAP = np.array([[1, 0, 0, 0], [0, 0, 1j, 0], [0, 1j, 0, 0], [0, 0, 0, 1]])


def rot(p, a):
    return np.cos(a / 2) * np.eye(len(p)) - 1j * np.sin(a / 2) * p


def u3(t, p, l):
    return np.array([[np.cos(t / 2), -np.exp(1j * l) * np.sin(t / 2)], [np.exp(1j * p) * np.sin(t / 2), np.exp(1j * (p + l)) * np.cos(t / 2)]])


def one_qubit(rng):
    """(text, what pyQDD is given, the matrix it means)"""
    a, b, c, d = [angle(rng) for _ in range(4)]
    k = int(rng.integers(11))
    t = "%.17g,%.17g,%.17g,%.17g" % (a, b, c, d)
    if k < 3:
        n = list(NAMED)[rng.integers(len(NAMED))]
        return n, n, NAMED[n]
    if k == 3:
        m = runitary(rng, 2)
        return "any", [complex(x) for x in m.flatten()], m
    f, m = {4: (lambda: pyQDD.rxmat(a), lambda: rot(PX, a)), 5: (lambda: pyQDD.rymat(a), lambda: rot(PY, a)), 6: (lambda: pyQDD.rzmat(a), lambda: rot(PZ, a)),
            7: (lambda: pyQDD.u1(c) if a > 0 else pyQDD.p(c), lambda: np.diag([1, np.exp(1j * c)])), 8: (lambda: pyQDD.u2(b, c), lambda: u3(np.pi / 2, b, c)),
            9: (lambda: pyQDD.u3(a, b, c) if d > 0 else pyQDD.u(a, b, c, 0.0), lambda: u3(a, b, c)),
            10: (lambda: pyQDD.u(a, b, c, d) if d > 0 else pyQDD.r(a, b),
                 lambda: np.exp(1j * d) * u3(a, b, c) if d > 0 else rot(np.cos(b) * PX + np.sin(b) * PY, a))}[k]
    return "%d(%s)" % (k, t), f(), m()


def two_qubit(rng):
    a = angle(rng)
    k = int(rng.integers(7))
    if k == 0:
        m = runitary(rng, 4)
        return "any", [[complex(x) for x in r] for r in m], m
    f, m = [(lambda: pyQDD.rxxmat(a), rot(np.kron(PX, PX), a)), (lambda: pyQDD.ryymat(a), rot(np.kron(PY, PY), a)), (lambda: pyQDD.rzzmat(a), rot(np.kron(PZ, PZ), a)),
            (lambda: pyQDD.rzxmat(a), rot(np.kron(PX, PZ), a)), (lambda: pyQDD.swapmat(), SWAP), (lambda: pyQDD.iswapmat(), ISWAP)][k - 1]
    return "%d(%.17g)" % (k, a), f(), m


def controlled(m, closed):
    """The operator on targets + controls (controls above the targets)."""
    k = len(closed)
    d = len(m)
    out = np.eye(d << k, dtype=complex)
    x = sum(int(c) << j for j, c in enumerate(closed))
    out[x * d:(x + 1) * d, x * d:(x + 1) * d] = m
    return out


def controls(rng, free, most=3):
    k = int(rng.integers(0, min(len(free), most) + 1))
    qs = [int(q) for q in free[:k]]
    if rng.random() < 0.5:
        return qs, qs, [True] * k                                   # a plain list: all closed
    closed = [bool(rng.integers(2)) for _ in qs]
    return [(q, c) for q, c in zip(qs, closed)], qs, closed


def gate(rng, n):
    """A random call that makes an operator: (text, edge, matrix, qubits with the least significant first)."""
    q = [int(x) for x in rng.permutation(n)]
    k = int(rng.integers(10))
    if k < 3 or n == 1 and k < 7:
        t, g, m = one_qubit(rng)
        arg, cq, closed = controls(rng, q[1:])
        e = pyQDD.makeGate(n, g, q[0]) if not cq and rng.random() < 0.7 else pyQDD.makeGate(n, g, q[0], arg)
        return "makeGate(%d,%s,%d,%s)" % (n, t, q[0], arg), e, controlled(m, closed), [q[0]] + cq
    if k < 5 and n > 1:
        t, g, m = two_qubit(rng)
        arg, cq, closed = controls(rng, q[2:])
        e = pyQDD.makeTwoQubitGate(n, g, q[0], q[1]) if not cq and rng.random() < 0.7 else pyQDD.makeTwoQubitGate(n, g, q[0], q[1], arg)
        return "makeTwoQubitGate(%d,%s,%d,%d,%s)" % (n, t, q[0], q[1], arg), e, controlled(m, closed), [q[1], q[0]] + cq
    if k == 5:
        m = int(rng.integers(1, min(n, 4) + 1))
        u = runitary(rng, 2 ** m)
        if m == n and rng.random() < 0.5:
            return "unitary(%d)" % n, pyQDD.unitary(n, u if rng.random() < 0.5 else u.tolist()), u, list(range(n))
        return "unitary(%d,%s)" % (n, q[:m]), pyQDD.unitary(n, u if rng.random() < 0.5 else u.tolist(), q[:m]), u, q[:m]
    a = angle(rng)
    if k == 6 and n > 2:
        return "CSWAP(%d,%s)" % (n, q[:3]), pyQDD.CSWAP(n, q[0], q[1], q[2]), controlled(SWAP, [True]), q[:3]
    if k < 9 and n > 1:
        j = int(rng.integers(7))
        name, m = [("RXX", rot(np.kron(PX, PX), a)), ("RYY", rot(np.kron(PY, PY), a)), ("RZZ", rot(np.kron(PZ, PZ), a)), ("RZX", rot(np.kron(PX, PZ), a)),
                   ("SWAP", SWAP), ("ISWAP", ISWAP), ("CX", controlled(PX, [True]))][j]
        e = getattr(pyQDD, name)(*([n, q[0], q[1]] + ([a] if j < 4 else [])))
        return "%s(%d,%d,%d,%.17g)" % (name, n, q[0], q[1], a), e, m, q[:2] if j == 6 else [q[1], q[0]]
    j = int(rng.integers(3))
    name, p = [("RX", PX), ("RY", PY), ("RZ", PZ)][j]
    return "%s(%d,%d,%.17g)" % (name, n, q[0], a), getattr(pyQDD, name)(n, q[0], a), rot(p, a), [q[0]]


def embed(m, qs, n):
    cols = []
    for c in range(2 ** n):
        s = np.zeros(2 ** n, dtype=complex)
        s[c] = 1
        cols.append(ref.apply_matrix(s, m, qs, n))
    return np.array(cols).T


def close(got, want, tol, key, text):
    got, want = np.asarray(got), np.asarray(want)
    d = np.abs(got - want).max() if got.shape == want.shape else np.inf
    return R.check(d <= tol, key, lambda: "off by %.3g (shape %s): %s" % (d, got.shape, text()))


def operators(rng, i):
    """Every way of making an operator, read back; products, phases and collections that keep them."""
    n = int(rng.integers(1, 6))
    pyQDD.set_gc_thr(*[[65536, 65536], [30, 30], [0, 0]][rng.integers(3)])
    live = []                                                       # (text, edge, matrix)
    for _ in range(int(rng.integers(2, 7))):
        t, e, m, qs = gate(rng, n)
        m = embed(m, qs, n)
        close(e.getEigenMatrix(n), m, 1e-6, "py-operator", lambda: t)
        live.append((t, e, m))
        k = int(rng.integers(6))
        a, b = live[rng.integers(len(live))], live[rng.integers(len(live))]
        if k < 3:
            live.append(("(%s)*(%s)" % (a[0], b[0]), pyQDD.mm_multiply(a[1], b[1]), a[2] @ b[2]))
        elif k == 3:
            x = angle(rng)
            live.append(("%.17g@(%s)" % (x, a[0]), pyQDD.applyGlobal(a[1], x), np.exp(1j * x) * a[2]))
            close(a[1].getEigenMatrix(n), a[2], 1e-6, "py-input-changed", lambda: "by applyGlobal: " + a[0])
        elif k == 4:                                                # a collection hands back what it was given
            force = bool(rng.integers(2))
            how = int(rng.integers(3))
            if how == 0:
                live = live[-1:]
                live = [(live[0][0], pyQDD.gc_mat(live[0][1], force), live[0][2])]
            elif how == 1:
                live = [live[j] for j in rng.permutation(len(live))[:3]]
                es = pyQDD.gc_mat([x[1] for x in live], force)
                R.need(len(es) == len(live), "py-gc-mat", lambda: "%d operators back for %d" % (len(es), len(live)))
                live = [(x[0], y, x[2]) for x, y in zip(live, es)]
            else:
                kept = [x[1] for x in live[1:]]
                e = pyQDD.gc_mat_keep(live[0][1], kept, force)
                live = [(live[0][0], e, live[0][2])] + [(x[0], y, x[2]) for x, y in zip(live[1:], kept)]
            R.count("collections")
        t, e, m = live[rng.integers(len(live))]
        close(e.getEigenMatrix(n), m, 2e-6, "py-operator", lambda: t[:1500])
        R.count("operators")
        R.seen(t, i)
    t, e, m = live[0]
    if n <= 3:                                                      # (nothing but the listing is printed)
        out = grab(lambda: e.printMatrix(n))
        close(parse(out), m.flatten(), 1e-4, "py-print-matrix", lambda: t)
    if i % 41 == 0:
        R.sample("n=%d %s" % (n, live[-1][0][:200]))


def grab(f):
    """What the C++ side prints while f runs."""
    import os
    import sys
    import tempfile
    sys.stdout.flush()
    with tempfile.TemporaryFile() as tf:
        old = os.dup(1)
        os.dup2(tf.fileno(), 1)
        try:
            f()
            import ctypes
            ctypes.CDLL(None).fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        tf.seek(0)
        return tf.read().decode()


def parse(text):
    import re
    return np.array([complex(float(a), float(b)) for a, b in re.findall(r"\((\S+) , (\S+)\)", text)])


class Prog:
    """A state in the engine and in the reference."""
    def __init__(self, rng, n):
        self.n, self.text = n, ["n=%d" % n]
        self.e = pyQDD.makeZeroState(n)
        self.v = np.zeros(2 ** n, dtype=complex)
        self.v[0] = 1

    def step(self, rng):
        t, g, m, qs = gate(rng, self.n)
        self.e = pyQDD.mv_multiply(g, self.e)
        self.v = ref.apply_matrix(self.v, m, qs, self.n)
        self.text.append(t)

    def __str__(self):
        return "; ".join(self.text)[:2500]


def states(rng, i):
    """States evolved through the module and read in every way it offers."""
    n = int(rng.integers(1, 8))
    pyQDD.set_gc_thr(*[[65536, 65536], [30, 30], [0, 0]][rng.integers(3)])
    progs = [Prog(rng, n) for _ in range(int(rng.integers(1, 4)))]
    for _ in range(int(rng.integers(1, 25))):
        p = progs[rng.integers(len(progs))]
        k = int(rng.integers(12))
        if k < 9:
            p.step(rng)
        elif k == 9:
            x = angle(rng)
            p.e, p.v = pyQDD.applyGlobal(p.e, x), p.v * np.exp(1j * x)
            p.text.append("phase %.17g" % x)
        elif k == 10:
            p.e = pyQDD.gc(p.e, bool(rng.integers(2)))
            p.text.append("gc alone")
            progs = [p]
        else:
            es = pyQDD.gc([x.e for x in progs], bool(rng.integers(2)))
            R.need(len(es) == len(progs), "py-gc", lambda: "%d states back for %d" % (len(es), len(progs)))
            for x, e in zip(progs, es):
                x.e = e
                x.text.append("gc of %d" % len(progs))
        if rng.random() < 0.05:
            pygc.collect()
    for p in progs:
        close(pyQDD.getVector(p.e), p.v, 1e-9, "py-vector", p.__str__)
        close(np.asarray(p.e.getEigenVector()).flatten(), p.v, 1e-6, "py-eigenvector", p.__str__)
        close(pyQDD.probabilities(p.e), np.abs(p.v) ** 2, 1e-9, "py-probabilities", p.__str__)
        q = int(rng.integers(n))
        e, p0 = pyQDD.measureOne(p.e, q)
        close([p0], [1 - ref.p_one(p.v, q, n)], 1e-9, "py-measure-one", lambda: "qubit %d, %s" % (q, p))
        close(pyQDD.getVector(e), p.v, 1e-9, "py-measure-one", lambda: "state returned by measureOne, qubit %d, %s" % (q, p))
        text = []
        out = grab(lambda: text.append(pyQDD.genDot(p.e)))
        nodes = text[0].count('[label="q')
        R.check(nodes == pyQDD.get_nNodes(p.e) and n <= nodes < 2 ** n and out.strip() in ("", "%d nodes" % nodes), "py-nodes",
                lambda: "%d nodes in the graph, get_nNodes %d (printed %r): %s" % (nodes, pyQDD.get_nNodes(p.e), out, p))
        if rng.random() < 0.3:
            close(parse(grab(p.e.printVector)), p.v, 1e-4, "py-print-vector", p.__str__)
            lines = [x for x in grab(p.e.printVector_sparse).split("\n") if x]
            got = {int(x.split(":")[0], 2): parse(x)[0] for x in lines}
            ok = all(abs(got.get(j, 0) - a) <= (1e-4 if j in got else 0.0011) for j, a in enumerate(p.v)) and max(got) < 2 ** n
            R.check(ok, "py-print-sparse", lambda: "%s: %s" % (lines[:20], p))
        R.seen(str(p))
        R.count("states")
    if i % 41 == 0:
        R.sample(str(progs[0])[:300])


def measures(rng, i):
    """Outcomes drawn through the module: pairs (state, outcome), seeds."""
    n = int(rng.integers(1, 6))
    p = Prog(rng, n)
    for _ in range(int(rng.integers(2, 14))):
        p.step(rng)
    prob = np.abs(p.v) ** 2
    N, tally = 3000, np.zeros(2 ** n)
    for _ in range(N):
        e, s = pyQDD.measureAll(p.e, False)
        R.need(len(s) == n and set(s) <= {"0", "1"}, "py-outcome", lambda: "outcome %r: %s" % (s, p))
        tally[int(s, 2)] += 1
    close(pyQDD.getVector(e), p.v, 1e-9, "py-measure-keeps", lambda: "the state after sampling without collapse: %s" % p)
    for x in range(2 ** n):
        R.check(bernstein(tally[x], N, prob[x]) and (prob[x] > 1e-12 or not tally[x]), "py-counts", lambda: "outcome %s %d times of %d, probability %.6g: %s" % (bin(x), tally[x], N, prob[x], p))
    # one qubit after the other (a collapsing measurement may take over the edge it is given)
    for _ in range(8):
        e, v = pyQDD.applyGlobal(p.e, 0.0), p.v
        for q in [int(x) for x in rng.permutation(n)[:int(rng.integers(1, n + 1))]]:
            before = v
            e, c = pyQDD.measureOneCollapsing(e, q)
            R.need(c in ("0", "1"), "py-outcome", lambda: "outcome %r of qubit %d: %s" % (c, q, p))
            v = ref.project(before, q, int(c), n)
            w = np.linalg.norm(v)
            R.need(w > 1e-7, "py-impossible", lambda: "outcome %s of qubit %d has probability %.3g: %s" % (c, q, w * w, p))
            v = v / w
            R.need(close(pyQDD.getVector(e), v, 1e-8, "py-collapse", lambda: "after %s on qubit %d: %s" % (c, q, p)), "py-collapse-stop", "")
        close(pyQDD.getVector(p.e), p.v, 1e-9, "py-input-changed", lambda: "a copy, by measureOneCollapsing: %s" % p)
    e, s = pyQDD.measureAll(pyQDD.applyGlobal(p.e, 0.0), True)
    basis = np.zeros(2 ** n)
    basis[int(s, 2)] = 1
    close(np.abs(pyQDD.getVector(e)), basis, 1e-9, "py-collapse-all", lambda: "after %s: %s" % (s, p))
    R.check(pyQDD.measureAll(e, True)[1] == s, "py-collapse-all", lambda: "measured twice: %s" % p)
    close(pyQDD.getVector(p.e), p.v, 1e-9, "py-input-changed", lambda: "a copy, by measureAll: %s" % p)
    # the same seed, the same outcomes; afterwards as random as before
    if hasattr(pyQDD, "unsetSeed"):
        seed = int(rng.integers(1 << 63))

        def draw():
            pyQDD.setSeed(seed)
            try:
                return [pyQDD.measureAll(p.e, False)[1] for _ in range(40)] + [pyQDD.measureOneCollapsing(pyQDD.applyGlobal(p.e, 0.0), 0)[1] for _ in range(10)]
            finally:
                pyQDD.unsetSeed()
        a = draw()
        for _ in range(int(rng.integers(3))):
            pyQDD.measureAll(p.e, False)
        R.check(a == draw(), "py-seed", lambda: "seed %d gives other outcomes the second time: %s" % (seed, p))
    R.seen(str(p))
    R.count("outcomes", N)
    if i % 41 == 0:
        R.sample(str(p)[:300])


if __name__ == "__main__":
    R.finish(ev.main(dict(operators=operators, states=states, measures=measures)))
