// Monitors of the sequential engine: every mode runs generated cases against the dense reference.
//   engine <mode> <seed> <start> <count>
#include <malloc.h>
#include <iostream>
#include "vcommon.hpp"
#include <sys/resource.h>
using namespace v;

static const double TOL = 1e-9;

static void check(bool ok, const std::string &key, const std::string &text) {
    count("checks");
    if (!ok) violation(key, text);
}
static std::string vec_str(const Vec &a, size_t max = 8) {
    std::string s = "[";
    for (size_t i = 0; i < a.size() && i < max; i++) s += fmt("%s%.12g%+.12gi", i ? ", " : "", a[i].real(), a[i].imag());
    return s + (a.size() > max ? ", ...]" : "]");
}
static bool same(const Vec &got, const Vec &want, double tol, const std::string &key, const std::string &what) {
    double d = vdist(got, want);
    bool ok = d <= tol;
    check(ok, key, ok ? "" : fmt("%s: dimension %zu, expected %zu; largest amplitude error %.3g; got ", what.c_str(), got.size(), want.size(), d) +
                             vec_str(got) + " expected " + vec_str(want));
    return ok;
}
static bool same_m(const Mat &got, const Mat &want, double tol, const std::string &key, const std::string &what) {
    bool ok = got.size() == want.size() && mdist(got, want) <= tol;
    for (auto &r : got) for (auto &x : r) if (!(std::abs(x) < 1e300)) ok = false;
    if (ok) { count("checks"); return true; }
    std::string d;
    if (got.size() == want.size())
        for (size_t i = 0; i < got.size() && d.empty(); i++)
            for (size_t j = 0; j < got.size(); j++)
                if (!(std::abs(got[i][j] - want[i][j]) <= tol)) {
                    d = fmt("entry (%zu,%zu) is %.12g%+.12gi, expected %.12g%+.12gi", i, j, got[i][j].real(), got[i][j].imag(), want[i][j].real(), want[i][j].imag());
                    break;
                }
    check(false, key, what + ": " + (d.empty() ? fmt("dimension %zu, expected %zu", got.size(), want.size()) : d));
    return false;
}

// A circuit's text, kept for the report of a failing case
struct Log {
    std::string s;
    uint64_t h = 7;
    int n = 0;
    void add(const std::string &x) { h = h * 1099511628211ULL ^ hash_str(x); n++; if (s.size() < 1500) s += (s.empty() ? "" : "; ") + x; }
};

// ------------------------------------------------------------------ gates
static std::vector<Ctl> ctl_from(int n, const std::vector<int> &t, int code) {   // code: base-3 digit per non-target qubit
    std::vector<Ctl> c;
    for (int q = 0; q < n; q++) {
        if (std::find(t.begin(), t.end(), q) != t.end()) continue;
        int d = code % 3;
        code /= 3;
        if (d) c.push_back({q, d == 1});
    }
    return c;
}
static int pow3(int k) { int r = 1; while (k--) r *= 3; return r; }
static void check_gate(int n, const Gate &g, const char *key) {
    seen(gate_hash(g) * 31 + n);
    mEdge e = g.make();
    Mat want = full(n, g.m, g.t, g.c);
    same_m(read_matrix(e, n), want, 1e-11, key, fmt("n=%d ", n) + gate_str(g));
    if (n <= 5) {
        auto em = e.getEigenMatrix(n);
        Mat got = mzero(1 << n);
        bool ok = em.rows() == (1 << n) && em.cols() == (1 << n);
        if (ok) for (int i = 0; i < 1 << n; i++) for (int j = 0; j < 1 << n; j++) got[i][j] = cd(em(i, j));
        else got = mzero(1);
        same_m(got, want, 1e-6, std::string(key) + "-eigen", fmt("getEigenMatrix n=%d ", n) + gate_str(g));
    }
    // the same construction again is the same operator
    mEdge e2 = g.make();
    check(e == e2, "gate-repeat", fmt("n=%d %s: constructing the gate twice gives two different operators", n, gate_str(g).c_str()));
}
// every placement: index enumerates (n, target tuple, control code)
struct Placement { int n, kind; std::vector<int> t; int code; };
static const std::vector<Placement> &placements() {
    static std::vector<Placement> P = [] {
        std::vector<Placement> p;
        for (int n = 1; n <= 5; n++)
            for (int a = 0; a < n; a++)
                for (int c = 0; c < pow3(n - 1); c++) p.push_back({n, 1, {a}, c});
        for (int n = 2; n <= 5; n++)
            for (int a = 0; a < n; a++)
                for (int b = 0; b < n; b++)
                    if (a != b) for (int c = 0; c < pow3(n - 2); c++) p.push_back({n, 2, {a, b}, c});
        for (int n = 1; n <= 5; n++)                                        // every ordered tuple of up to 4 targets
            for (int k = 1; k <= std::min(n, 4); k++) {
                std::vector<int> t(k, 0);
                std::function<void(int)> rec = [&](int i) {
                    if (i == k) { p.push_back({n, 3, t, 0}); return; }
                    for (int q = 0; q < n; q++)
                        if (std::find(t.begin(), t.begin() + i, q) == t.begin() + i) { t[i] = q; rec(i + 1); }
                };
                rec(0);
            }
        return p;
    }();
    return P;
}
static void case_gates_enum(Rng &r, long index) {
    auto &P = placements();
    if (index >= (long)P.size()) return;
    auto &pl = P[index];
    int n = pl.n;
    Gate g;
    g.c = ctl_from(n, pl.t, pl.code);
    auto cs = g.c;
    count("placements");
    if (pl.kind == 1) {
        int t = pl.t[0];
        g.t = {t};
        g.m = runitary(r, 2);
        g.name = "unitary1";
        GateMatrix m = g2(g.m);
        g.make = [=] { return cs.empty() ? makeGate(n, m, t) : makeGate(n, m, t, ectl(cs)); };
        check_gate(n, g, "gate-1q-placement");
        auto &x = named1()[index % named1().size()];
        g.m = x.m; g.name = x.n;
        GateMatrix xm = x.g;
        g.make = [=] { return makeGate(n, xm, t, ectl(cs)); };
        check_gate(n, g, "gate-1q-named");
    } else if (pl.kind == 2) {
        int a = pl.t[0], b = pl.t[1];
        g.t = {b, a};
        g.m = runitary(r, 4);
        g.name = "unitary2";
        auto m = g4(g.m);
        g.make = [=] { return cs.empty() ? makeTwoQubitGate(n, m, a, b) : makeTwoQubitGate(n, m, a, b, ectl(cs)); };
        check_gate(n, g, "gate-2q-placement");
        // structured 4x4 matrices take other paths through identity stripping
        Mat k1 = kron(runitary(r, 2), mident(2)), k2 = kron(mident(2), runitary(r, 2)), k3 = mident(4), k4 = mzero(4);
        k3[3][3] = ei(r.real(-3, 3));
        k4[0][0] = k4[1][2] = k4[2][1] = k4[3][3] = 1;
        const Mat *ks[] = {&k1, &k2, &k3, &k4};
        g.m = *ks[index % 4];
        g.name = fmt("structured2-%ld", index % 4);
        auto m2 = g4(g.m);
        g.make = [=] { return makeTwoQubitGate(n, m2, a, b, ectl(cs)); };
        check_gate(n, g, "gate-2q-structured");
    } else {
        g.t = pl.t;
        g.c.clear();
        int k = pl.t.size();
        g.m = runitary(r, 1 << k);
        g.name = fmt("large%d", k);
        Mat m = g.m;
        auto q = pl.t;
        bool full_id = k == n && std::is_sorted(q.begin(), q.end());
        g.make = [=] { ComplexMatrix cm(m); std::vector<Qubit> tt(q.begin(), q.end()); return makeLargeGate(n, cm, tt); };
        check_gate(n, g, "gate-large-placement");
        if (full_id) {
            g.make = [=] { ComplexMatrix cm(m); return makeLargeGate(n, cm); };
            check_gate(n, g, "gate-large-all");
        }
        // the caller's matrix is an input, not scratch space
        ComplexMatrix cm(m);
        std::vector<Qubit> tt(q.begin(), q.end());
        makeLargeGate(n, cm, tt);
        check(cm == ComplexMatrix(m), "gate-large-input", "makeLargeGate changed the matrix it was given, " + gate_str(g));
    }
    if (index % 997 == 0) sample(fmt("n=%d ", n) + gate_str(g));
}
static void case_gates(Rng &r, long index) {
    int n = r.range(1, 7);
    Gate g = random_gate(r, n, 4);
    check_gate(n, g, "gate-random");
    Mat w = read_matrix(g.make(), n);
    same_m(mmul(w, dagger(w)), mident(1 << n), 1e-10, "gate-unitary", fmt("n=%d ", n) + gate_str(g) + " times its adjoint");
    // constructors of matrices
    double a = rangle(r), b = rangle(r), c = rangle(r), d = rangle(r);
    auto m2 = [](const GateMatrix &m) { return M2(m[0], m[1], m[2], m[3]); };
    auto m4 = [](const TwoQubitGateMatrix &m) { Mat x = mzero(4); for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) x[i][j] = m[i][j]; return x; };
    std::string w4 = fmt("[%.17g,%.17g,%.17g,%.17g]", a, b, c, d);
    same_m(m2(rx(a)), expi(rX(), a), 1e-12, "matrix-rx", "rx" + w4);
    same_m(m2(ry(a)), expi(rY(), a), 1e-12, "matrix-ry", "ry" + w4);
    same_m(m2(rz(a)), expi(rZ(), a), 1e-12, "matrix-rz", "rz" + w4);
    same_m(m2(u3(a, b, c)), rU(a, b, c), 1e-12, "matrix-u3", "u3" + w4);
    same_m(m2(u2(b, c)), rU(PI / 2, b, c), 1e-12, "matrix-u2", "u2" + w4);
    same_m(m2(u1(c)), M2(1, 0, 0, ei(c)), 1e-12, "matrix-u1", "u1" + w4);
    same_m(m2(p(c)), M2(1, 0, 0, ei(c)), 1e-12, "matrix-p", "p" + w4);
    Mat ug = rU(a, b, c);
    for (auto &row : ug) for (auto &x : row) x *= ei(d);
    same_m(m2(u(a, b, c, d)), ug, 1e-12, "matrix-u", "u" + w4);
    same_m(m2(::r(a, b)), M2(std::cos(a / 2), -I1 * ei(-b) * std::sin(a / 2), -I1 * ei(b) * std::sin(a / 2), std::cos(a / 2)), 1e-12, "matrix-r", "r" + w4);
    same_m(m4(rxx_matrix(a)), expi(kron(rX(), rX()), a), 1e-12, "matrix-rxx", "rxx" + w4);
    same_m(m4(ryy_matrix(a)), expi(kron(rY(), rY()), a), 1e-12, "matrix-ryy", "ryy" + w4);
    same_m(m4(rzz_matrix(a)), expi(kron(rZ(), rZ()), a), 1e-12, "matrix-rzz", "rzz" + w4);
    if (index % 10 == 0) {                                   // matrices that fit no gate are refused, trivial ones are scalars
        auto refused = [&](ComplexMatrix m, const std::vector<Qubit> &t, const char *what) {
            bool thrown = false;
            try { makeLargeGate(n, m, t); } catch (const std::invalid_argument &) { thrown = true; }
            check(thrown, "gate-large-refuse", fmt("makeLargeGate accepts %s (%zux%zu on %zu of %d qubits)", what, m.size(), m[0].size(), t.size(), n));
        };
        auto dense = [&](size_t rows, size_t cols) { ComplexMatrix m(rows, std::vector<std::complex<double>>(cols)); for (auto &x : m) for (auto &y : x) y = cd(r.real(-1, 1), r.real(-1, 1)); return m; };
        std::vector<Qubit> t;
        for (int q : r.distinct(n, std::min(n, 2))) t.push_back(q);
        size_t d = (size_t)1 << t.size();
        refused(dense(d + 1 + (d == 1), d + 1 + (d == 1)), t, "a number of rows that is no power of two");
        refused(dense(d, d - 1), t, "a matrix with fewer columns than rows");
        refused(dense(d, 2 * d), t, "a matrix with more columns than rows");
        refused(dense(2 * d, 2 * d), t, "a matrix for more qubits than named");
        if (d > 2) refused(dense(d / 2, d / 2), t, "a matrix for fewer qubits than named");
        ComplexMatrix none, one = dense(1, 1);
        check(makeLargeGate(n, none, t) == mEdge::one, "gate-large-trivial", "makeLargeGate of an empty matrix is not the identity");
        Mat want = mident(1 << n);
        for (auto &row : want) for (auto &x : row) x *= one[0][0];
        same_m(read_matrix(makeLargeGate(n, one, {}), n), want, 1e-13, "gate-large-trivial", "a 1x1 matrix is that multiple of the identity");
    }
    if (index % 997 == 0) sample(fmt("n=%d ", n) + gate_str(g));
}

// ------------------------------------------------------------------ evolve
static Vec eigen_state(vEdge e) {
    auto x = e.getEigenVector();
    Vec r(x.size());
    for (int i = 0; i < (int)x.size(); i++) r[i] = cd(x(i));
    return r;
}
static vEdge basis_state(int n, uint64_t bits) {
    vEdge e = vEdge::one;
    for (int q = 0; q < n; q++)
        e = makeVEdge(q, (bits >> q & 1) ? std::array<vEdge, 2>{vEdge::zero, e} : std::array<vEdge, 2>{e, vEdge::zero});
    return e;
}
static void case_evolve(Rng &r, long index) {
    int n = r.chance(0.1) ? 1 : r.range(1, 8);
    int depth = r.chance(0.1) ? r.range(80, 200) : r.range(1, 45);
    if (NBUCKETS < 64) { n = std::min(n, 7); depth = std::min(depth, 60); }
    else if (index % 50 == 49) { n = 10; depth = 30; }
    Dense d(n);
    vEdge s;
    Log log;
    int start = r.below(4);
    if (start == 0) { s = makeOneState(n); d.a[0] = 0; d.a[((size_t)1 << n) - 1] = 1; log.add("one"); }
    else if (start == 1) { uint64_t b = r.next() & ((1ull << n) - 1); s = basis_state(n, b); d.a[0] = 0; d.a[b] = 1; log.add(fmt("basis %llu", (unsigned long long)b)); }
    else { s = makeZeroState(n); log.add("zero"); }
    std::string head = fmt("n=%d depth=%d: ", n, depth);
    // styles: any gates; superposition then permutations; small angles; one gate and its inverse
    int style = r.below(4);
    bool fuse = r.chance(0.25);
    mEdge fused;
    int pending = 0;
    double ph = 0;
    for (int i = 0; i < depth; i++) {
        Gate g = random_gate(r, n, 3);
        if (style == 1 && i < n) {
            int q = i;
            g = Gate{"h", named1()[0].m, {q}, {}, [=] { return makeGate(n, Hmat, q); }};
        }
        if (style == 2 && r.chance(0.5)) {
            int q = r.below(n);
            double a = std::pow(10.0, -r.range(1, 8)) * r.real(-1, 1);
            g = Gate{fmt("RY[%.17g]", a), expi(rY(), a), {q}, {}, [=] { return RY(n, q, a); }};
        }
        log.add(gate_str(g));
        d.apply(g.m, g.t, g.c);
        mEdge e = g.make();
        if (fuse && r.chance(0.6)) {
            fused = pending ? mm_multiply(e, fused) : e;
            pending++;
            if (pending > 3 || i + 1 == depth) { s = mv_multiply(fused, s); pending = 0; }
        } else {
            if (pending) { s = mv_multiply(fused, s); pending = 0; }
            s = mv_multiply(e, s);
        }
        if (r.chance(0.05)) {                            // a global phase lives in the root weight
            double a = r.real(-3, 3);
            s.w *= std_complex(std::cos(a), std::sin(a));
            for (auto &x : d.a) x *= ei(a);
            log.add(fmt("phase %.17g", a));
        }
        count("gates");
        if (!pending && r.chance(0.12))
            if (!same(read_state(s), d.a, TOL, "evolve", head + log.s)) return;
    }
    if (pending) s = mv_multiply(fused, s);
    Vec got = read_state(s);
    same(got, d.a, TOL, "evolve", head + log.s);
    double nn = 0;
    for (auto &x : got) nn += std::norm(x);
    check(std::abs(nn - 1) < 1e-9, "evolve-norm", fmt("norm %.15g: ", nn) + head + log.s);
    same(eigen_state(s), d.a, 2e-6, "evolve-eigen", "getEigenVector, " + head + log.s);
    check(s.getVar() == n - 1, "evolve-size", "register size changed: " + head + log.s);
    seen(log.h);
    count("states_compared");
    if (index % 211 == 0) sample(head + log.s.substr(0, 300));
}

// ------------------------------------------------------------------ algebra
static Mat rmat(Rng &r, int d, int style) {
    Mat m = mzero(d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) {
        if (style == 1 && r.chance(0.6)) continue;                         // sparse
        m[i][j] = style == 2 ? cd(r.range(-1, 1), 0) : cd(r.real(-1, 1), r.real(-1, 1));
    }
    return m;
}
static mEdge to_medge(const Mat &m, int n) {
    ComplexMatrix cm(m);
    return makeLargeGate(n, cm);
}
static Mat madd(const Mat &a, const Mat &b) { Mat c = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) c[i][j] += b[i][j]; return c; }
static double mmax(const Mat &a) { double x = 0; for (auto &r : a) for (auto &y : r) x = std::max(x, std::abs(y)); return x; }
static vEdge to_vedge(const Vec &x, int n) {
    std::vector<vEdge> e(x.size());
    for (size_t i = 0; i < x.size(); i++) e[i] = std::abs(x[i]) == 0 ? vEdge::zero : vEdge{Complex(x[i]), vEdge::one.n};
    for (int q = 0; q < n; q++) {
        std::vector<vEdge> f(e.size() / 2);
        for (size_t i = 0; i < f.size(); i++) f[i] = makeVEdge(q, {e[2 * i], e[2 * i + 1]});
        e.swap(f);
    }
    return e[0];
}
struct MOp { mEdge e; Mat m; std::string s; };
static MOp random_op(Rng &r, int n) {
    MOp o;
    int k = r.below(6);
    if (k == 0) {
        int style = r.below(3);
        o.m = rmat(r, 1 << n, style);
        o.s = fmt("matrix style %d", style);
        if (mmax(o.m) == 0) o.m[0][0] = 1;
        o.e = to_medge(o.m, n);
    } else if (k == 1) {
        int kk = r.range(1, std::min(n, 3));
        auto q = r.distinct(n, kk);
        Mat m = rmat(r, 1 << kk, 0);
        o.m = full(n, m, q);
        ComplexMatrix cm(m);
        std::vector<Qubit> tt(q.begin(), q.end());
        o.e = makeLargeGate(n, cm, tt);
        o.s = fmt("local matrix on %d qubits", kk);
    } else if (k == 2) {                                                    // identity, all skipped
        o.m = mident(1 << n);
        o.e = makeIdent(n - 1);
        o.s = "identity";
    } else {
        Gate g = random_gate(r, n, 3);
        o.m = full(n, g.m, g.t, g.c);
        o.e = g.make();
        o.s = gate_str(g);
    }
    if (r.chance(0.35)) {
        double a = std::pow(10.0, r.real(-16, 2)), b = r.real(-3, 3);
        cd f = a * ei(b);
        o.e.w *= std_complex(f);
        for (auto &row : o.m) for (auto &x : row) x *= f;
        o.s += fmt(" scaled by %.3g*exp(%.3gi)", a, b);
    }
    return o;
}
static Vec mvec(const Mat &m, const Vec &x) {
    Vec y(x.size());
    for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < x.size(); j++) y[i] += m[i][j] * x[j];
    return y;
}
static double vmax(const Vec &a) { double x = 0; for (auto &y : a) x = std::max(x, std::abs(y)); return x; }
static void case_algebra(Rng &r, long index) {
    int n = r.range(1, 5);
    MOp a = random_op(r, n), b = random_op(r, n), c = random_op(r, n);
    std::string w = fmt("n=%d A=", n) + a.s + " B=" + b.s + " C=" + c.s;
    seen(hash_str(w) ^ r.next());
    auto scale = [&](const Mat &x, const Mat &y) { return 1e-10 * std::max(mmax(x) * mmax(y) * (1 << n), 1e-300); };
    same_m(read_matrix(a.e, n), a.m, 1e-11 * std::max(1e-300, mmax(a.m)), "algebra-read", w);
    Mat ab = mmul(a.m, b.m);
    mEdge eab = mm_multiply(a.e, b.e);
    same_m(read_matrix(eab, n), ab, scale(a.m, b.m), "algebra-multiply", "A*B, " + w);
    double sc = std::max(mmax(a.m), mmax(b.m));
    Mat s = madd(a.m, b.m);
    mEdge es = mm_add(a.e, b.e);
    same_m(read_matrix(es, n), s, 1e-10 * sc, "algebra-add", "A+B, " + w);
    same_m(read_matrix(mm_add(b.e, a.e), n), s, 1e-10 * sc, "algebra-add", "B+A, " + w);
    // (A+B)C = AC + BC, through the engine on both sides
    {
        Mat l = read_matrix(mm_multiply(es, c.e), n), rr = read_matrix(mm_add(mm_multiply(a.e, c.e), mm_multiply(b.e, c.e)), n);
        same_m(l, rr, 1e-9 * std::max(sc * mmax(c.m), 1e-300) * (1 << n), "algebra-distribute", w);
    }
    {
        Mat l = read_matrix(mm_multiply(eab, c.e), n), rr = read_matrix(mm_multiply(a.e, mm_multiply(b.e, c.e)), n);
        same_m(l, rr, 1e-9 * std::max(mmax(a.m) * mmax(b.m) * mmax(c.m), 1e-300) * (1 << (2 * n)), "algebra-associate", w);
    }
    // vectors
    Vec x((size_t)1 << n), y((size_t)1 << n);
    double fx = r.chance(0.3) ? std::pow(10.0, r.real(-16, 1)) : 1;
    for (auto &z : x) z = r.chance(0.3) ? cd(0) : fx * cd(r.real(-1, 1), r.real(-1, 1));
    for (auto &z : y) z = r.chance(0.3) ? cd(0) : cd(r.real(-1, 1), r.real(-1, 1));
    x[r.below(x.size())] = fx;
    y[r.below(y.size())] = 1;
    // small vectors are built at scale one and scaled at the root
    Vec x1 = x;
    for (auto &z : x1) z /= fx;
    vEdge ex = to_vedge(x1, n), ey = to_vedge(y, n);
    ex.w *= std_complex(fx, 0);
    same(read_state(ex), x, 1e-11 * vmax(x), "algebra-vector-read", w);
    Vec xy = x;
    for (size_t i = 0; i < x.size(); i++) xy[i] += y[i];
    auto rs = [&](const vEdge &e) { return e.isTerminal() && e.w.isZero() ? Vec((size_t)1 << n) : read_state(e); };
    same(rs(vv_add(ex, ey)), xy, 1e-10 * std::max(vmax(x), vmax(y)), "algebra-vv-add", "x+y, " + w);
    same(rs(vv_add(ey, ex)), xy, 1e-10 * std::max(vmax(x), vmax(y)), "algebra-vv-add", "y+x, " + w);
    same(rs(mv_multiply(a.e, ex)), mvec(a.m, x), 1e-10 * std::max(mmax(a.m) * vmax(x), 1e-300) * (1 << n), "algebra-mv", "A*x, " + w);
    same(rs(mv_multiply(eab, ey)), mvec(ab, y), 1e-9 * std::max(mmax(a.m) * mmax(b.m) * vmax(y), 1e-300) * (1 << (2 * n)), "algebra-mv", "(A*B)*y, " + w);
    // A-A and x-x are zero
    {
        mEdge neg = a.e;
        neg.w *= std_complex(-1, 0);
        same_m(read_matrix(mm_add(a.e, neg), n), mzero(1 << n), 1e-11 * mmax(a.m), "algebra-cancel", "A-A, " + w);
        vEdge nx = ex;
        nx.w *= std_complex(-1, 0);
        same(rs(vv_add(ex, nx)), Vec((size_t)1 << n), 1e-11 * vmax(x), "algebra-cancel", "x-x, " + w);
    }
    // zeros and multiples of the identity, which have no nodes
    {
        cd k(r.real(-1, 1), r.real(-1, 1)), l(r.real(-1, 1), r.real(-1, 1));
        if (r.chance(0.3)) k *= std::pow(10.0, r.real(-12, 3));
        mEdge ek = mEdge::one, el = mEdge::one;
        ek.w = std_complex(k.real(), k.imag());
        el.w = std_complex(l.real(), l.imag());
        auto kI = mident(1 << n);
        for (int i = 0; i < 1 << n; i++) kI[i][i] = k;
        Mat ka = a.m;
        for (auto &row : ka) for (auto &z : row) z *= k;
        double m = std::max(mmax(a.m), 1e-300), ak = std::abs(k);
        std::string wk = fmt("k=(%.17g,%.17g), ", k.real(), k.imag()) + w;
        same_m(read_matrix(mm_multiply(ek, a.e), n), ka, 1e-11 * m * ak, "algebra-scalar", "kI*A, " + wk);
        same_m(read_matrix(mm_multiply(a.e, ek), n), ka, 1e-11 * m * ak, "algebra-scalar", "A*kI, " + wk);
        same_m(read_matrix(mm_add(a.e, ek), n), madd(a.m, kI), 1e-10 * std::max(m, ak), "algebra-scalar", "A+kI, " + wk);
        same_m(read_matrix(mm_add(ek, a.e), n), madd(kI, a.m), 1e-10 * std::max(m, ak), "algebra-scalar", "kI+A, " + wk);
        same_m(read_matrix(mm_kronecker(ek, a.e), n), ka, 1e-11 * m * ak, "algebra-scalar", "k kron A, " + wk);
        same_m(read_matrix(mm_multiply(ek, el), 1), Mat{{k * l, 0}, {0, k * l}}, 1e-13 * ak, "algebra-scalar", "kI*lI, " + wk);
        same_m(read_matrix(mm_add(ek, el), 1), Mat{{k + l, 0}, {0, k + l}}, 1e-13 * (ak + std::abs(l)), "algebra-scalar", "kI+lI, " + wk);
        same_m(read_matrix(mm_kronecker(ek, el), 1), Mat{{k * l, 0}, {0, k * l}}, 1e-13 * ak, "algebra-scalar", "k kron l, " + wk);
        same_m(read_matrix(mm_add(a.e, mEdge::zero), n), a.m, 1e-11 * m, "algebra-zero", "A+0, " + w);
        same_m(read_matrix(mm_add(mEdge::zero, a.e), n), a.m, 1e-11 * m, "algebra-zero", "0+A, " + w);
        same_m(read_matrix(mm_multiply(a.e, mEdge::zero), n), mzero(1 << n), 0, "algebra-zero", "A*0, " + w);
        same_m(read_matrix(mm_multiply(mEdge::zero, a.e), n), mzero(1 << n), 0, "algebra-zero", "0*A, " + w);
        same_m(read_matrix(mm_kronecker(a.e, mEdge::zero), n), mzero(1 << n), 0, "algebra-zero", "A kron 0, " + w);
        Vec kx = x;
        for (auto &z : kx) z *= k;
        vEdge vk = vEdge::one;
        vk.w = std_complex(k.real(), k.imag());
        same(rs(mv_multiply(ek, ex)), kx, 1e-11 * vmax(x) * ak, "algebra-scalar", "kI*x, " + wk);
        same(rs(vv_kronecker(vk, ex)), kx, 1e-11 * vmax(x) * ak, "algebra-scalar", "k kron x, " + wk);
        same(rs(vv_kronecker(ex, vk)), kx, 1e-11 * vmax(x) * ak, "algebra-scalar", "x kron k, " + wk);
        same(rs(vv_add(ex, vEdge::zero)), x, 1e-11 * vmax(x), "algebra-zero", "x+0, " + w);
        same(rs(vv_add(vEdge::zero, ex)), x, 1e-11 * vmax(x), "algebra-zero", "0+x, " + w);
        same(rs(mv_multiply(mEdge::zero, ex)), Vec((size_t)1 << n), 0, "algebra-zero", "0*x, " + w);
        same(rs(mv_multiply(a.e, vEdge::zero)), Vec((size_t)1 << n), 0, "algebra-zero", "A*0, " + w);
        vEdge z = vv_add(vk, vk);
        check(z.isTerminal() && std::abs(cd(z.w.r, z.w.i) - 2.0 * k) <= 1e-13 * ak, "algebra-scalar", "k+k of two numbers, " + wk);
        z = vv_kronecker(vk, vk);
        check(z.isTerminal() && std::abs(cd(z.w.r, z.w.i) - k * k) <= 1e-13 * ak * ak, "algebra-scalar", "k kron k of two numbers, " + wk);
        z = mv_multiply(el, vk);
        check(z.isTerminal() && std::abs(cd(z.w.r, z.w.i) - k * l) <= 1e-13 * ak, "algebra-scalar", "lI*k, " + wk);
        // without a size, an operator is read up to its top qubit
        size_t dim = 0;
        std_complex **q = a.e.getMatrix(&dim);
        int top = a.e.isTerminal() ? 0 : a.e.getVar() + 1;
        bool ok = dim == (size_t)1 << top;
        for (size_t i = 0; ok && i < dim; i++) for (size_t j = 0; j < dim; j++) if (!(std::abs(cd(q[i][j].r, q[i][j].i) - a.m[i][j]) <= 1e-11 * m)) ok = false;
        for (size_t i = 0; i < dim; i++) delete[] q[i];
        delete[] q;
        check(ok, "algebra-read-default", fmt("getMatrix without a size, top qubit %d, %zu rows: ", top - 1, dim) + w);
    }
    // tensor products, of any sizes
    {
        int n1 = r.range(1, 3), n2 = r.range(1, 3);
        Vec p((size_t)1 << n1), q((size_t)1 << n2), pq((size_t)1 << (n1 + n2));
        for (auto &z : p) z = r.chance(0.2) ? cd(0) : cd(r.real(-1, 1), r.real(-1, 1));
        for (auto &z : q) z = r.chance(0.2) ? cd(0) : cd(r.real(-1, 1), r.real(-1, 1));
        p[0] = 1; q[q.size() - 1] = I1;
        for (size_t i = 0; i < p.size(); i++) for (size_t j = 0; j < q.size(); j++) pq[(i << n2) | j] = p[i] * q[j];
        same(read_state(vv_kronecker(to_vedge(p, n1), to_vedge(q, n2))), pq, 1e-11, "algebra-vv-kron", w);
        Mat ma = rmat(r, 1 << n1, r.below(3)), mb = rmat(r, 1 << n2, 0);   // full-rank right operand: its top qubit is acted on
        ma[0][0] = 1;
        mEdge ka = to_medge(ma, n1), kb = to_medge(mb, n2);
        same_m(read_matrix(mm_kronecker(ka, kb), n1 + n2), kron(ma, mb), 1e-10, "algebra-mm-kron", fmt("kron %d %d", n1, n2));
    }
    count("triples");
    if (index % 211 == 0) sample(w.substr(0, 300));
}

// ------------------------------------------------------------------ canon
struct Walk { std::map<int, int> per_level; std::set<const vNode *> nodes; bool ok = true; std::string why; };
static void walk(const vEdge &e, int level, Walk &w) {
    if (e.w.isZero() && e.isTerminal()) return;                             // a zero branch ends early
    if (e.isTerminal() != (level < 0)) { w.ok = false; w.why = fmt("an edge at level %d reaches a node of level %d", level, (int)e.getVar()); return; }
    if (e.isTerminal()) return;
    if (e.getVar() != level) { w.ok = false; w.why = fmt("an edge at level %d reaches a node of level %d", level, (int)e.getVar()); return; }
    if (!w.nodes.insert(e.n).second) return;
    w.per_level[level]++;
    for (auto &c : e.n->children) walk(c, level - 1, w);
}
static size_t dot_nodes(vEdge e) {                                          // distinct sources in the exported graph
    std::string s = genDot(e);
    std::istringstream is(s);
    std::string line;
    std::set<std::string> src, tgt;
    while (std::getline(is, line)) {
        auto p = line.find("->");
        if (p == std::string::npos) continue;
        std::istringstream a(line.substr(0, p)), b(line.substr(p + 2));
        std::string x, y;
        a >> x;
        b >> y;
        src.insert(x);
        tgt.insert(y);
    }
    return src.size();
}
// distinct nonzero subvectors up to a scalar factor, per level, of an exact vector
static std::map<int, int> minimal(const Vec &a, int n) {
    std::map<int, int> m;
    for (int level = n - 1; level >= 0; level--) {
        size_t sz = (size_t)2 << level;
        std::vector<Vec> reps;
        std::unordered_map<uint64_t, std::vector<int>> byhash;
        for (size_t b = 0; b < a.size(); b += sz) {
            Vec x(a.begin() + b, a.begin() + b + sz);
            size_t f = sz;
            for (size_t i = 0; i < sz; i++) if (std::abs(x[i]) > 1e-9) { f = i; break; }
            if (f == sz) continue;
            cd w = x[f];
            uint64_t h = f;
            for (auto &z : x) {
                z /= w;
                h = h * 1000003 ^ (uint64_t)(int64_t)std::llround(z.real() * 8) * 31 ^ (uint64_t)(int64_t)std::llround(z.imag() * 8);
            }
            bool found = false;
            for (int i : byhash[h]) if (vdist(reps[i], x) < 1e-6) { found = true; break; }
            if (!found) { byhash[h].push_back(reps.size()); reps.push_back(x); }
        }
        m[level] = reps.size();
    }
    return m;
}
// ------------------------------------------------------------------ pruning
static void case_prune(Rng &r, long index) {
    // Entries of very different sizes, and parts that several branches share.
    int n = r.range(1, 7);
    Vec x{1};
    std::string w = fmt("n=%d: ", n);
    while ((int)x.size() < (1 << n)) {
        int k = std::min(n - (int)std::log2(x.size()), r.range(1, 3));
        Vec f((size_t)1 << k);
        for (auto &z : f) z = r.chance(0.2) ? cd(0) : std::polar(std::pow(10.0, r.real(-4, 0)), r.real(0, 6.28));
        f[r.below(f.size())] = 1;
        Vec y;
        for (auto &a : f) for (auto &b : x) y.push_back(a * b);       // the earlier factors are the lower qubits
        x = y;
    }
    if (r.chance(0.3)) for (auto &z : x) if (r.chance(0.1)) z *= std::pow(10.0, r.real(-3, 1));
    double fx = r.chance(0.3) ? std::pow(10.0, r.real(-8, 2)) : 1;
    auto threshold = [&](std::vector<double> m) {                     // between two entries
        std::sort(m.begin(), m.end());
        for (int tries = 0; tries < 20; tries++) {
            double t = r.chance(0.1) ? m.back() * 2 : std::max(m[r.below(m.size())], 1e-7 * m.back()) * r.real(0.5, 2);
            bool close = false;
            for (double v : m) if (std::abs(v - t) < 1e-6 * t) close = true;
            if (!close) return t;
        }
        return 0.0;
    };
    std::vector<double> mag;
    for (auto &z : x) mag.push_back(std::abs(z) * fx);
    double thr = threshold(mag);
    if (thr == 0) return;
    vEdge e = to_vedge(x, n);
    vEdge other = mv_multiply(makeGate(n, Xmat, r.below(n)), e);       // shares nodes with e
    Vec otherWas = read_state(other);
    e.w *= std_complex(fx, 0);
    vEdge kept = e;
    Vec want = x, was = x;
    bool cut = false;
    for (size_t i = 0; i < x.size(); i++) { was[i] *= fx; want[i] = mag[i] < thr ? cd(0) : was[i]; cut = cut || (mag[i] < thr && mag[i] > 0); }
    w += fmt("threshold %.6g: ", thr) + vec_str(was);
    auto rs = [&](const vEdge &v) { return v.isTerminal() && v.w.isZero() ? Vec((size_t)1 << n) : read_state(v); };
    double top = vmax(was);
    int cuts = prune(e, thr);
    same(rs(e), want, 1e-11 * top, "prune-state", w);
    check(!cut || cuts > 0, "prune-count", fmt("nothing cut, says prune: ") + w);
    same(rs(kept), was, 1e-11 * top, "prune-original", "the unpruned state, " + w);
    same(rs(other), otherWas, 1e-12 * vmax(x), "prune-others", "another state, " + w);
    vEdge again = to_vedge(x, n);
    same(rs(again), x, 1e-11 * vmax(x), "prune-others", "the state built anew, " + w);
    Vec rest = was;
    for (size_t i = 0; i < rest.size(); i++) rest[i] -= want[i];
    vEdge minus = e;
    minus.w *= std_complex(-1, 0);
    same(rs(vv_add(kept, minus)), rest, 1e-10 * top, "prune-compute", "what was cut, " + w);
    // operators
    int k = r.range(1, 4);
    MOp a = random_op(r, k);
    std::vector<double> ms;
    for (auto &row : a.m) for (auto &z : row) ms.push_back(std::abs(z));
    double mt = threshold(ms);
    if (mt > 0 && mmax(a.m) > 0) {
        Mat wm = a.m;
        for (auto &row : wm) for (auto &z : row) if (std::abs(z) < mt) z = 0;
        mEdge m = a.e, orig = a.e;
        std::string v = fmt("%d qubits, threshold %.6g: ", k, mt) + a.s;
        int mcut = prune(m, mt);
        double most = 0;
        for (auto &row : a.m) for (auto &z : row) if (std::abs(z) < mt) most = std::max(most, std::abs(z));
        check(most <= 1e-6 * mmax(a.m) || mcut > 0, "prune-count", "nothing cut, says prune: " + v);
        same_m(read_matrix(m, k), wm, 1e-10 * mmax(a.m), "prune-operator", v);
        same_m(read_matrix(orig, k), a.m, 1e-11 * mmax(a.m), "prune-original", "the unpruned operator, " + v);
        mEdge prod = mm_multiply(m, makeIdent(k - 1));
        same_m(read_matrix(prod, k), wm, 1e-10 * mmax(a.m), "prune-compute", "the pruned operator, used, " + v);
    }
    seen(hash_str(w));
    if (index % 211 == 0) sample(w.substr(0, 300));
}

static void case_canon(Rng &r, long index) {
    // An exact family: Hadamards on fresh qubits, then gates that permute or negate amplitudes.
    int n = r.range(1, 8);
    struct G { int k; int a, b, c; };
    std::vector<G> circ;
    for (int q = 0; q < n; q++) if (r.chance(0.6)) circ.push_back({0, q, 0, 0});
    int depth = r.range(0, 25);
    auto add = [&](std::vector<G> &v) {
        int k = r.range(1, 6);
        auto q = r.distinct(n, std::min(n, 3));
        if (k == 2 && n < 2) k = 1;
        if (k == 3 && n < 2) k = 4;
        if (k == 6 && n < 3) k = 5;
        v.push_back({k, q[0], n > 1 ? q[1] : 0, n > 2 ? q[2] : 0});
    };
    for (int i = 0; i < depth; i++) add(circ);
    auto gate = [&](const G &g, Mat &m, std::vector<int> &t, std::vector<Ctl> &c) -> mEdge {
        t = {g.a};
        c.clear();
        switch (g.k) {
        case 0: m = named1()[0].m; return makeGate(n, Hmat, g.a);
        case 1: m = rX(); return makeGate(n, Xmat, g.a);
        case 2: m = rX(); c = {{g.b, true}}; return CX(n, g.a, g.b);
        case 3: m = rZ(); c = {{g.b, true}}; return makeGate(n, Zmat, g.a, ectl(c));
        case 4: m = rZ(); return makeGate(n, Zmat, g.a);
        case 5: m = M2(1, 0, 0, I1); return makeGate(n, Smat, g.a);
        default: m = rX(); c = {{g.b, true}, {g.c, false}}; return makeGate(n, Xmat, g.a, ectl(c));
        }
    };
    auto run = [&](const std::vector<G> &circ, Dense *d) {
        vEdge s = makeZeroState(n);
        for (auto &g : circ) {
            Mat m; std::vector<int> t; std::vector<Ctl> c;
            mEdge e = gate(g, m, t, c);
            s = mv_multiply(e, s);
            if (d) d->apply(m, t, c);
        }
        return s;
    };
    std::string w = fmt("n=%d: ", n);
    for (auto &g : circ) w += fmt("%d(%d,%d,%d) ", g.k, g.a, g.b, g.c);
    seen(hash_str(w));
    Dense d(n);
    vEdge s = run(circ, &d);
    same(read_state(s), d.a, TOL, "canon-value", w);
    // another way to the same state: extra self-inverse pairs, and swapped commuting neighbours
    std::vector<G> other;
    for (auto &g : circ) {
        other.push_back(g);
        if (g.k == 0) continue;
        if (r.chance(0.3)) {
            std::vector<G> one;
            add(one);
            if (one[0].k != 5 && one[0].k != 0) { other.push_back(one[0]); other.push_back(one[0]); }
        }
    }
    auto qs = [](const G &g) { std::set<int> s{g.a}; if (g.k == 2 || g.k == 3 || g.k == 6) s.insert(g.b); if (g.k == 6) s.insert(g.c); return s; };
    for (int rep = 0; rep < 10 && other.size() > 1; rep++) {
        int i = r.below(other.size() - 1);
        auto x = qs(other[i]), y = qs(other[i + 1]);
        bool dis = true;
        for (int q : x) if (y.count(q)) dis = false;
        if (dis) std::swap(other[i], other[i + 1]);
    }
    vEdge s2 = run(other, nullptr);
    same(read_state(s2), d.a, TOL, "canon-value", "rewritten circuit, " + w);
    check(s == s2, "canon-equal", "two circuits for one state give two different diagrams: " + w);
    check(s.n == s2.n, "canon-pointer", "two circuits for one state give two nodes: " + w);
    // structure
    Walk wk;
    walk(s, n - 1, wk);
    check(wk.ok, "canon-levels", wk.why + ": " + w);
    auto want = minimal(d.a, n);
    size_t total = 0, wanted = 0;
    for (int l = 0; l < n; l++) { total += wk.per_level[l]; wanted += want[l]; }
    check(total == wanted, "canon-minimal", fmt("%zu nodes, the state has %zu distinct sub-states: ", total, wanted) + w);
    check((size_t)get_nNodes(s) == wanted, "canon-count", fmt("get_nNodes says %d, the state has %zu distinct sub-states: ", get_nNodes(s), wanted) + w);
    if (index % 3 == 0) {
        size_t dn = dot_nodes(s);
        check(dn == wanted, "canon-dot", fmt("genDot draws %zu nodes, the state has %zu: ", dn, wanted) + w);
    }
    // after a collection the diagram is as compact as before and new work finds its nodes
    if (r.chance(0.3)) {
        std::vector<vEdge> both = {s, s2};
        both = gc(both, true);
        check(both[0] == both[1], "canon-gc", "two equal states differ after a collection: " + w);
        check((size_t)get_nNodes(both[0]) == wanted, "canon-gc", fmt("%d nodes after a collection, %zu before: ", get_nNodes(both[0]), wanted) + w);
        vEdge s3 = run(circ, nullptr);
        check(s3 == both[0], "canon-gc-rebuild", "the state computed again after a collection is another diagram: " + w);
        s = both[0];
    }
    // operators: products of self-inverse gates cancel to the identity, equal products are equal
    {
        std::vector<G> seq;
        for (int i = r.range(1, 6); i--;) add(seq);
        mEdge p = makeIdent(n - 1), q = makeIdent(n - 1);
        std::string sw = fmt("n=%d: ", n);
        for (auto &g : seq) {
            Mat m; std::vector<int> t; std::vector<Ctl> c;
            mEdge e = gate(g, m, t, c);
            p = mm_multiply(e, p);
            sw += fmt("%d(%d,%d,%d) ", g.k, g.a, g.b, g.c);
        }
        for (int i = (int)seq.size() - 1; i >= 0; i--) {
            Mat m; std::vector<int> t; std::vector<Ctl> c;
            mEdge e = gate(seq[i], m, t, c);
            if (seq[i].k == 5) e = makeGate(n, Sdagmat, seq[i].a);
            q = mm_multiply(q, e);
        }
        // q is built as g1^-1 ... gk^-1 applied on the right in reverse: its product with p is the identity
        mEdge inv = makeIdent(n - 1);
        for (size_t i = 0; i < seq.size(); i++) {
            Mat m; std::vector<int> t; std::vector<Ctl> c;
            mEdge e = seq[i].k == 5 ? makeGate(n, Sdagmat, seq[i].a) : gate(seq[i], m, t, c);
            inv = mm_multiply(inv, e);
        }
        mEdge id = mm_multiply(inv, p);
        check(id == makeIdent(n - 1), "canon-identity", "a product with its inverse is not the identity diagram: " + sw);
        mEdge right = makeIdent(n - 1);
        for (int i = (int)seq.size() - 1; i >= 0; i--) {                    // the same product, associated the other way
            Mat m; std::vector<int> t; std::vector<Ctl> c;
            right = mm_multiply(right, gate(seq[i], m, t, c));
        }
        check(right == p, "canon-operator", "one operator has two diagrams: " + sw);
    }
    if (index % 211 == 0) sample(w.substr(0, 300));
}
// families with a known size
static void case_sizes(Rng &r, long index) {
    int n = r.range(2, index % 2 ? 100 : 40);
    seen(n * 7 + index % 3);
    auto h = [&](int q) { return makeGate(n, Hmat, q); };
    // GHZ, from any qubit outwards: 2n-1 nodes
    {
        int c = r.below(n);
        vEdge s = mv_multiply(h(c), makeZeroState(n));
        std::vector<int> q(n);
        std::iota(q.begin(), q.end(), 0);
        r.shuffle(q);
        for (int t : q) if (t != c) s = mv_multiply(CX(n, t, c), s);
        check(get_nNodes(s) == 2 * n - 1, "size-ghz", fmt("GHZ state of %d qubits has %d nodes, expected %d", n, get_nNodes(s), 2 * n - 1));
        check(dot_nodes(s) == (size_t)(2 * n - 1), "size-ghz-dot", fmt("GHZ state of %d qubits", n));
    }
    // product states: n nodes, whatever the one-qubit gates
    {
        vEdge s = makeZeroState(n);
        for (int rep = 0; rep < 2; rep++)
            for (int q = 0; q < n; q++) { Mat u = runitary(r, 2); s = mv_multiply(makeGate(n, g2(u), q), s); }
        check(get_nNodes(s) == n, "size-product", fmt("product state of %d qubits has %d nodes", n, get_nNodes(s)));
    }
    // uniform superposition
    {
        vEdge s = makeZeroState(n);
        for (int q = 0; q < n; q++) s = mv_multiply(h(q), s);
        check(get_nNodes(s) == n, "size-uniform", fmt("uniform superposition of %d qubits has %d nodes", n, get_nNodes(s)));
    }
    // W-like: one excitation anywhere
    {
        vEdge s = vEdge::one, z = vEdge::one;                               // s: one excitation below, z: none
        s = makeVEdge(0, {vEdge::zero, vEdge::one});
        z = makeVEdge(0, {vEdge::one, vEdge::zero});
        for (int q = 1; q < n; q++) {
            vEdge s1 = makeVEdge(q, {s, z});
            z = makeVEdge(q, {z, vEdge::zero});
            s = s1;
        }
        check(get_nNodes(s) == 2 * n - 1, "size-w", fmt("W state of %d qubits has %d nodes, expected %d", n, get_nNodes(s), 2 * n - 1));
        vEdge t = mv_multiply(makeGate(n, Xmat, 0), mv_multiply(makeGate(n, Xmat, 0), s));
        check(s == t, "size-w-pointer", fmt("X X on the W state of %d qubits gives another diagram", n));
    }
    // undoing a random permutation circuit returns to the very same diagram
    {
        vEdge s0 = makeZeroState(n), s = s0;
        std::vector<std::array<int, 3>> ops;
        for (int i = 0; i < 60; i++) {
            auto q = r.distinct(n, 2);
            int k = r.below(2);
            ops.push_back({k, q[0], q[1]});
        }
        auto ap = [&](std::array<int, 3> o) { return o[0] ? CX(n, o[1], o[2]) : makeGate(n, Xmat, o[1]); };
        for (auto &o : ops) s = mv_multiply(ap(o), s);
        check(get_nNodes(s) == n, "size-basis", fmt("basis state of %d qubits has %d nodes", n, get_nNodes(s)));
        for (size_t i = ops.size(); i--;) s = mv_multiply(ap(ops[i]), s);
        check(s == s0 && s.n == s0.n, "size-undo", fmt("undoing a permutation of %d qubits does not return to the same diagram", n));
    }
    count("families", 5);
    if (index % 17 == 0) sample(fmt("families at n=%d", n));
    if (vEdge x = makeZeroState(1); index % 8 == 7) gc(std::vector<vEdge>{x}, true), gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
}

// ------------------------------------------------------------------ gc
static void case_gc(Rng &r, long index) {
    int n = r.range(1, 6);
    struct S { vEdge e; Dense d; };
    struct O { mEdge e; Mat m; };
    std::vector<S> st;
    std::vector<O> op;
    int thr = r.chance(0.5) ? r.range(1, 400) : 1 << r.range(8, 17);
    int thrm = r.chance(0.5) ? r.range(1, 400) : 1 << r.range(8, 17);
    set_gc_thr(thr, thrm);
    Log log;
    std::string head = fmt("n=%d thresholds %d %d: ", n, thr, thrm);
    auto mkstate = [&] {
        Dense d(n);
        st.push_back({makeZeroState(n), d});
    };
    mkstate();
    bool bad = false;
    auto verify = [&](const char *when) {
        for (size_t i = 0; i < st.size(); i++)
            if (!same(read_state(st[i].e), st[i].d.a, TOL, "gc-state", fmt("state %zu of %zu %s: ", i, st.size(), when) + head + log.s)) bad = true;
        for (size_t i = 0; i < op.size(); i++)
            if (!same_m(read_matrix(op[i].e, n), op[i].m, TOL, "gc-operator", fmt("operator %zu of %zu %s: ", i, op.size(), when) + head + log.s)) bad = true;
        count("live_objects_checked", st.size() + op.size());
    };
    std::mt19937_64 mt(r.next());
    int steps = r.range(10, 50);
    for (int i = 0; i < steps && !bad; i++) {
        int k = r.below(12);
        int a = r.below(st.size());
        if (k <= 3) {
            Gate g = random_gate(r, n, 3);
            st[a].e = mv_multiply(g.make(), st[a].e);
            st[a].d.apply(g.m, g.t, g.c);
            log.add(fmt("s%d<-", a) + gate_str(g));
        } else if (k == 4 && st.size() < 5) {
            if (r.chance(0.5)) mkstate(), log.add("new state");
            else { S c = st[a]; st.push_back(c); log.add(fmt("copy s%d", a)); }
        } else if (k == 5 && op.size() < 4) {
            Gate g = random_gate(r, n, 3);
            op.push_back({g.make(), full(n, g.m, g.t, g.c)});
            log.add("op " + gate_str(g));
        } else if (k == 6 && op.size()) {
            int b = r.below(op.size());
            Gate g = random_gate(r, n, 3);
            op[b].e = mm_multiply(g.make(), op[b].e);
            op[b].m = mmul(full(n, g.m, g.t, g.c), op[b].m);
            log.add(fmt("op%d<-", b) + gate_str(g));
        } else if (k == 7 && op.size()) {
            int b = r.below(op.size());
            st[a].e = mv_multiply(op[b].e, st[a].e);
            st[a].d.a = mvec(op[b].m, st[a].d.a);
            log.add(fmt("s%d<-op%d", a, b));
        } else if (k == 8) {
            bool force = r.chance(0.6);
            log.add(force ? "gc!" : "gc");
            if (st.size() == 1 && r.chance(0.5)) st[0].e = gc(st[0].e, force);
            else {
                std::vector<vEdge> l;
                for (auto &s : st) l.push_back(s.e);
                l = gc(l, force);
                if (l.size() != st.size()) { violation("gc-list", "a collection returns " + std::to_string(l.size()) + " states for " + std::to_string(st.size())); return; }
                for (size_t j = 0; j < l.size(); j++) st[j].e = l[j];
            }
            count(force ? "gc_forced" : "gc_requested");
            verify("after gc");
        } else if (k == 9) {
            bool force = r.chance(0.6);
            log.add(force ? "gc_mat!" : "gc_mat");
            if (op.size() == 1 && r.chance(0.5)) op[0].e = gc_mat(op[0].e, force);
            else {
                std::vector<mEdge> l;
                for (auto &s : op) l.push_back(s.e);
                l = gc_mat(l, force);
                if (l.size() != op.size()) { violation("gc-list", "a collection returns " + std::to_string(l.size()) + " operators for " + std::to_string(op.size())); return; }
                for (size_t j = 0; j < l.size(); j++) op[j].e = l[j];
            }
            count(force ? "gc_forced" : "gc_requested");
            verify("after gc_mat");
        } else if (k == 10) {
            // probabilities are remembered per node: they must follow the nodes through a collection
            auto p = probabilities(st[a].e);
            Vec got(p.begin(), p.end()), want;
            for (auto &x : st[a].d.a) want.push_back(std::norm(x));
            if (!same(got, want, 1e-9, "gc-probabilities", fmt("probabilities of s%d: ", a) + head + log.s)) bad = true;
            log.add(fmt("probs s%d", a));
        } else if (k == 11) {
            int q = r.below(n);
            double p1 = st[a].d.pone(q);
            char c = measureOneCollapsing(st[a].e, q, mt);
            double pc = c == '1' ? p1 : 1 - p1;
            if (pc < 1e-9) { check(false, "gc-measure", fmt("impossible outcome %c of qubit %d: ", c, q) + head + log.s); return; }
            st[a].d.collapse(q, c == '1');
            log.add(fmt("s%d measured q%d=%c", a, q, c));
        } else if (st.size() > 1) {
            st.erase(st.begin() + a);
            log.add(fmt("drop s%d", a));
        }
    }
    if (!bad) verify("at the end");
    seen(log.h);
    set_gc_thr(65536, 65536);
    if (index % 97 == 0) sample(head + log.s.substr(0, 300));
    // the next case starts its own objects
}
// a collection at the shipped thresholds, reached by work
static void case_gcwork(Rng &r, long index) {
    int n = r.range(11, 13);
    set_gc_thr(65536, 65536);
    Dense d(n), d2(n);
    vEdge s = makeZeroState(n), s2 = makeZeroState(n);
    Log log;
    std::string head = fmt("n=%d: ", n);
    int gcs = 0;
    std::mt19937_64 mt(r.next());
    for (int i = 0; i < 70; i++) {
        Gate g = random_gate(r, n, 2);
        if (i < n) { int q = i; double a = r.real(0.4, 2.6); g = Gate{"RY", expi(rY(), a), {q}, {}, [=] { return RY(n, q, a); }}; }
        log.add(gate_str(g));
        s = mv_multiply(g.make(), s);
        d.apply(g.m, g.t, g.c);
        if (i % 3 == 0) { s2 = mv_multiply(g.make(), s2); d2.apply(g.m, g.t, g.c); }
        std::vector<vEdge> l = {s, s2};
        auto before = s.n;
        l = gc(l, false);
        s = l[0];
        s2 = l[1];
        if (s.n != before) gcs++;
        if (i % 20 == 19) {
            auto p = probabilities(s);
            double m = 0;
            for (size_t j = 0; j < p.size(); j++) m = std::max(m, std::abs(p[j] - std::norm(d.a[j])));
            check(p.size() == d.a.size() && m < 1e-9, "gc-probabilities", head + fmt("probabilities off by %.3g after %d gates", m, i));
            measureAll(s, false, mt);
        }
    }
    same(read_state(s), d.a, 1e-8, "gc-state", head + log.s);
    same(read_state(s2), d2.a, 1e-8, "gc-state", head + log.s);
    count("collections_at_shipped_threshold", gcs);
    seen(log.h);
    sample(head + fmt("%d gates, %d collections", log.n, gcs));
    gc(std::vector<vEdge>{makeZeroState(1)}, true);
    set_gc_thr(65536, 65536);
}

// Objects with more nodes than any small counter holds.
static vEdge big_state(Rng &r, int n, Vec &a) {
    a.resize((size_t)1 << n);
    double s = 0;
    for (auto &x : a) { x = cd(r.real(-1, 1), r.real(-1, 1)) + cd(0.01, 0); s += std::norm(x); }
    for (auto &x : a) x /= std::sqrt(s);
    return to_vedge(a, n);
}
static void case_gclarge(Rng &r, long index) {
    int n = r.range(16, 17), m = 9;
    set_gc_thr(r.chance(0.5) ? 65536 : 10, 65536);
    Vec a, b;
    vEdge x = big_state(r, n, a), y = big_state(r, n, b);
    std::string head = fmt("dense random states on %d qubits: ", n);
    same(read_state(x), a, TOL, "gclarge-state", head);
    Mat want = rmat(r, 1 << m, 0);
    mEdge o = to_medge(want, m);
    for (int i = 0; i < 3; i++) {
        std::vector<vEdge> l = {x, y};
        l = gc(l, true);
        x = l[0]; y = l[1];
        o = gc_mat(o, true);
        if (!same(read_state(x), a, TOL, "gclarge-state", head + "after a collection")) return;
        if (!same(read_state(y), b, TOL, "gclarge-state", head + "after a collection")) return;
        if (!same_m(read_matrix(o, m), want, TOL, "gclarge-operator", "dense random operator on 9 qubits after a collection")) return;
        // go on with what was kept
        Gate g = random_gate(r, n, 1);
        Dense d(n);
        d.a = a;
        x = mv_multiply(g.make(), x);
        d.apply(g.m, g.t, g.c);
        a = d.a;
        if (!same(read_state(x), a, TOL, "gclarge-state", head + "after a collection and " + gate_str(g))) return;
        auto p = probabilities(y);
        double e = p.size() == b.size() ? 0 : 1;
        for (size_t k = 0; k < p.size() && k < b.size(); k++) e = std::max(e, std::abs(p[k] - std::norm(b[k])));
        check(e < TOL, "gclarge-probabilities", head + fmt("probabilities off by %.3g", e));
        if (i == 0) y = gc(y, true), b = b;                                  // x is lost here on purpose:
        if (i == 0) { x = y; a = b; }                                        // only what was handed over may be used
        count("large_collections", 3);
    }
    seen(r.next());
    sample(head + fmt("%d nodes", get_nNodes(x)));
    gc(std::vector<vEdge>{makeZeroState(1)}, true);
    gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
    set_gc_thr(65536, 65536);
}
// Objects of one shape that come and go: nodes are recycled while cached results about their predecessors exist.
static void case_reuse(Rng &r, long index) {
    int n = r.range(1, 4), d = 1 << n, shape = r.below(4);
    set_gc_thr(r.range(1, 100), r.range(1, 100));
    uint64_t h = 5;
    // one shape per case: fixed targets and controls, leading weight one, other entries of a fixed pattern
    auto q = r.distinct(n, 1 + (n > 1 && r.chance(0.5)));
    std::vector<Ctl> c;
    if (q.size() > 1) c.push_back({q[1], r.chance(0.5)});
    Rng fixed(r.next());
    auto make_op = [&](Mat &m, std::string &s) {
        Mat g;
        double t = r.real(-3, 3);
        if (shape == 0) g = M2(1, 0, 0, ei(t));
        else if (shape == 1) g = M2(1, std::tan(t / 4), -std::tan(t / 4), 1);
        else if (shape == 2) g = M2(1, r.real(-1, 1), r.real(-1, 1), r.real(-1, 1));
        else {                                                              // every entry free but the first
            m = rmat(r, d, 0);
            m[0][0] = 1;
            for (auto &row : m) for (auto &x : row) if (std::abs(x) > 1) x /= std::abs(x);
            s = "dense";
            return to_medge(m, n);
        }
        m = full(n, g, {q[0]}, c);
        s = fmt("[%.6g]", t);
        return makeGate(n, g2(g), q[0], ectl(c));
    };
    auto make_vec = [&](Vec &a) {
        a.assign(d, 0);
        for (int i = 0; i < d; i++) a[i] = shape == 0 ? (i & (1 << q[0]) ? ei(r.real(-3, 3)) : cd(1)) : cd(r.real(-1, 1), shape == 2 ? 0 : r.real(-1, 1));
        if (shape != 0) a[0] = 1;
        return to_vedge(a, n);
    };
    auto vadd = [](Vec x, const Vec &y) { for (size_t i = 0; i < x.size(); i++) x[i] += y[i]; return x; };
    struct KO { mEdge e; Mat m; };
    struct KV { vEdge e; Vec a; };
    std::vector<KO> ko;
    std::vector<KV> kv;
    std::string head = fmt("n=%d shape %d: ", n, shape);
    for (int round = 0; round < 40; round++) {
        Mat A, B;
        Vec x, y;
        std::string sa, sb;
        mEdge a = make_op(A, sa), b = make_op(B, sb);
        vEdge u = make_vec(x), w = make_vec(y);
        std::string what = head + fmt("round %d ", round) + sa + sb;
        h = h * 31 + hash_str(what);
        mEdge sum = mm_add(a, b);
        if (!same_m(read_matrix(sum, n), madd(A, B), 1e-9, "reuse-sum", what)) return;
        mEdge pr = mm_multiply(a, b);
        if (!same_m(read_matrix(pr, n), mmul(A, B), 1e-9, "reuse-product", what)) return;
        vEdge ax = mv_multiply(a, u);
        if (!same(read_state(ax), mvec(A, x), 1e-9, "reuse-apply", what)) return;
        vEdge xy = vv_add(u, w);
        if (vmax(vadd(x, y)) > 1e-6 && !same(read_state(xy), vadd(x, y), 1e-9, "reuse-vectors", what)) return;
        vEdge un = u;
        double nx = 0;
        for (auto &t : x) nx += std::norm(t);
        un.w *= std_complex(1 / std::sqrt(nx), 0);
        auto p = probabilities(un);
        double e = p.size() == x.size() ? 0 : 1;
        for (size_t i = 0; i < p.size() && i < x.size(); i++) e = std::max(e, std::abs(p[i] - std::norm(x[i]) / nx));
        if (e > 1e-9) { check(false, "reuse-probabilities", what + fmt(": off by %.3g", e)); return; }
        count("operations", 5);
        // keep some of it
        if (r.chance(0.3) && ko.size() < 3) { ko.push_back({a, A}); if (r.chance(0.5)) ko.push_back({sum, madd(A, B)}); }
        if (r.chance(0.3) && kv.size() < 3) { kv.push_back({u, x}); if (r.chance(0.5)) kv.push_back({ax, mvec(A, x)}); }
        if (r.chance(0.25)) ko.clear();
        if (r.chance(0.25)) kv.clear();
        int k = r.below(4);
        if (k != 1) {
            std::vector<mEdge> l;
            for (auto &z : ko) l.push_back(z.e);
            l = gc_mat(l, r.chance(0.8));
            for (size_t i = 0; i < ko.size(); i++) ko[i].e = l[i];
            count("collections");
        }
        if (k != 2) {
            std::vector<vEdge> l;
            for (auto &z : kv) l.push_back(z.e);
            l = gc(l, r.chance(0.8));
            for (size_t i = 0; i < kv.size(); i++) kv[i].e = l[i];
            count("collections");
        }
        for (auto &z : ko) if (!same_m(read_matrix(z.e, n), z.m, 1e-9, "reuse-kept", what)) return;
        for (auto &z : kv) if (!same(read_state(z.e), z.a, 1e-9, "reuse-kept", what)) return;
        if (ko.size() && kv.size()) {
            auto &o = ko[r.below(ko.size())];
            auto &v1 = kv[r.below(kv.size())];
            if (!same(read_state(mv_multiply(o.e, v1.e)), mvec(o.m, v1.a), 1e-9 * std::max(1.0, mmax(o.m)), "reuse-kept-apply", what)) return;
        }
    }
    seen(h);
    set_gc_thr(65536, 65536);
    if (index % 97 == 0) sample(head + fmt("40 rounds"));
}

// ------------------------------------------------------------------ history
// A fixed computation, repeated between random others: its results may not depend on what ran before.
static void case_history(Rng &r, long index) {
    int n = r.range(2, 6);
    std::vector<Gate> circ;
    int depth = r.range(5, 25);
    Log log;
    for (int i = 0; i < depth; i++) { circ.push_back(random_gate(r, n, 3)); log.add(gate_str(circ.back())); }
    Dense d(n);
    for (auto &g : circ) d.apply(g.m, g.t, g.c);
    uint64_t mseed = r.next();
    auto run = [&] {
        vEdge s = makeZeroState(n);
        for (auto &g : circ) s = mv_multiply(g.make(), s);
        return s;
    };
    auto runm = [&] {
        mEdge m = makeIdent(n - 1);
        for (auto &g : circ) m = mm_multiply(g.make(), m);
        return m;
    };
    auto shots = [&](vEdge s) {
        std::mt19937_64 mt(mseed);
        std::string o;
        for (int i = 0; i < 6; i++) o += measureAll(s, false, mt) + " ";
        return o;
    };
    std::string head = fmt("n=%d: ", n) + log.s;
    vEdge a = run();
    Vec va = read_state(a);
    same(va, d.a, TOL, "history-first", head);
    std::string sa = shots(a);
    Log junk;
    int rounds = r.range(1, 3);
    for (int k = 0; k < rounds; k++) {
        // unrelated work: other sizes, other gates, the same gates on other qubits and with nearby angles
        int m = r.range(1, 7);
        vEdge t = makeZeroState(m);
        for (int i = r.range(5, 30); i--;) {
            Gate g = random_gate(r, m, 3);
            t = mv_multiply(g.make(), t);
            junk.add(gate_str(g));
            if (r.chance(0.2)) mm_multiply(g.make(), random_gate(r, m, 3).make());
            if (r.chance(0.1)) mm_add(g.make(), random_gate(r, m, 2).make());
            if (r.chance(0.1)) probabilities(t);
        }
        bool collect = r.chance(0.35);
        if (collect) {
            std::vector<vEdge> l = gc(std::vector<vEdge>{t, a}, true);
            a = l[1];
            if (r.chance(0.5)) gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
        }
        vEdge b = run();
        Vec vb = read_state(b);
        same(vb, va, 1e-10, "history-repeat", head + fmt(" repeated after %d other operations", junk.n));
        same(read_state(a), va, 1e-12, "history-kept", head + fmt(": the state kept over %d other operations changed", junk.n));
        check(shots(a) == sa, "history-shots", head + ": the same state and the same seed give other samples: " + shots(a) + " before " + sa);
        Mat mm = read_matrix(runm(), n);
        Vec col(1 << n);
        for (int i = 0; i < 1 << n; i++) col[i] = mm[i][0];
        same(col, va, TOL, "history-fused", head);
        count("repeats");
    }
    // twins: the same gate with an angle that differs in a late digit is not the same gate
    for (int i = r.range(1, 4); i--;) {
        int k = r.below(13), m = r.range(2, 4), q = r.below(m), p2 = (q + 1 + r.below(m - 1)) % m;
        double a = rangle(r), b = rangle(r), c = rangle(r), g0 = rangle(r);
        double x[3] = {a, a + a * std::pow(10.0, -r.real(2, 9)) * (r.chance(0.5) ? 1 : -1), a + std::pow(10.0, -r.real(2, 9))};
        int moved = k >= 7 && k <= 12 ? r.below(k == 12 ? 4 : k >= 10 ? 3 : k >= 8 ? 2 : 1) : 0;
        for (double t : x) {
            double v[4] = {a, b, c, g0};
            v[moved] = moved ? v[moved] + (t - a) : t;
            mEdge e; Dense one(m); Mat w; std::vector<int> at = {q};
            switch (k) {
            case 0: e = RX(m, q, t); w = expi(rX(), t); break;
            case 1: e = RY(m, q, t); w = expi(rY(), t); break;
            case 2: e = RZ(m, q, t); w = expi(rZ(), t); break;
            case 3: e = RXX(m, q, p2, t); w = expi(kron(rX(), rX()), t); at = {q, p2}; break;
            case 4: e = RYY(m, q, p2, t); w = expi(kron(rY(), rY()), t); at = {q, p2}; break;
            case 5: e = RZZ(m, q, p2, t); w = expi(kron(rZ(), rZ()), t); at = {q, p2}; break;
            case 6: e = makeGate(m, rx(t), q, Controls{Control{p2, Control::Type::pos}}); w = expi(rX(), t); break;
            case 7: e = makeGate(m, u1(t), q); w = M2(1, 0, 0, ei(t)); break;
            case 8: e = makeGate(m, u2(v[0], v[1]), q); w = rU(PI / 2, v[0], v[1]); break;
            case 9: e = makeGate(m, ::r(v[0], v[1]), q);
                w = M2(std::cos(v[0] / 2), -I1 * ei(-v[1]) * std::sin(v[0] / 2), -I1 * ei(v[1]) * std::sin(v[0] / 2), std::cos(v[0] / 2)); break;
            case 10: case 11: e = makeGate(m, u3(v[0], v[1], v[2]), q); w = rU(v[0], v[1], v[2]); break;
            default: e = makeGate(m, u(v[0], v[1], v[2], v[3]), q); w = rU(v[0], v[1], v[2]); for (auto &row : w) for (auto &y : row) y *= ei(v[3]);
            }
            vEdge st = makeZeroState(m);
            for (int y = 0; y < m; y++) { double z = 0.4 + 0.5 * y; st = mv_multiply(RY(m, y, z), st); one.apply(expi(rY(), z), {y}); }
            st = mv_multiply(e, st);
            one.apply(w, at, k == 6 ? std::vector<Ctl>{{p2, true}} : std::vector<Ctl>{});
            if (!same(read_state(st), one.a, 2e-11, "history-twin", fmt("constructor %d, n=%d qubit %d, parameter %d now %.17g after %.17g", k, m, q, moved, v[moved], moved ? (moved == 1 ? b : moved == 2 ? c : g0) : a))) break;
            count("twins");
        }
    }
    seen(log.h ^ junk.h);
    if (index % 97 == 0) sample(head.substr(0, 300));
}

// ------------------------------------------------------------------ sampling
static const double LN = 31;                                                // ln(2/delta), delta ~ 7e-14 per test
static bool bernstein(double got, double n, double p) {
    double dev = std::abs(got - n * p), var = std::max(0.0, n * p * (1 - p));
    return dev <= std::sqrt(2 * var * LN) + 2 * LN / 3 + 1;
}
static vEdge random_state(Rng &r, int n, Dense &d, Log &log) {
    vEdge s = makeZeroState(n);
    int style = r.below(5);
    auto ap = [&](const Gate &g) { s = mv_multiply(g.make(), s); d.apply(g.m, g.t, g.c); log.add(gate_str(g)); };
    if (style == 0) {                                                       // GHZ-like: correlated outcomes
        int c = r.below(n);
        double a = r.real(0.2, 2.9);
        ap({fmt("RY[%.17g]", a), expi(rY(), a), {c}, {}, [=] { return RY(n, c, a); }});
        for (int q = 0; q < n; q++) if (q != c) ap({"CX", rX(), {q}, {{c, true}}, [=] { return CX(n, q, c); }});
    } else if (style == 1) {                                                // a product of rare outcomes
        for (int q = 0; q < n; q++) { double a = r.chance(0.5) ? r.real(0.01, 0.4) : PI - r.real(0.01, 0.4); ap({fmt("RY[%.17g]", a), expi(rY(), a), {q}, {}, [=] { return RY(n, q, a); }}); }
    } else if (style == 2) {                                                // a basis state
        for (int q = 0; q < n; q++) if (r.chance(0.5)) ap({"x", rX(), {q}, {}, [=] { return makeGate(n, Xmat, q); }});
    } else {
        for (int i = r.range(1, 25); i--;) ap(random_gate(r, n, 3));
    }
    return s;
}
static uint64_t bits_of(const std::string &s) {                             // leftmost character is the last qubit
    uint64_t x = 0;
    for (char c : s) x = x * 2 + (c == '1');
    return x;
}
static void case_sample(Rng &r, long index) {
    int n = r.range(1, 6);
    Dense d(n);
    Log log;
    vEdge s = random_state(r, n, d, log);
    std::string head = fmt("n=%d: ", n) + log.s;
    std::mt19937_64 mt(r.next());
    int N = 20000;
    size_t dim = (size_t)1 << n;
    std::vector<double> c(dim), lag(dim);
    std::vector<std::vector<double>> pair(n, std::vector<double>(4));       // per qubit: (previous, this)
    std::vector<double> twoq(n * n * 4);
    uint64_t prev = 0;
    for (int i = 0; i < N; i++) {
        std::string o = measureAll(s, false, mt);
        bool okform = (int)o.size() == n;
        for (char ch : o) okform = okform && (ch == '0' || ch == '1');
        if (!okform) { check(false, "sample-form", "outcome '" + o + "' for " + head); return; }
        uint64_t x = bits_of(o);
        c[x]++;
        if (i) { if (x == prev) lag[x]++; for (int q = 0; q < n; q++) pair[q][(prev >> q & 1) * 2 + (x >> q & 1)]++; }
        prev = x;
    }
    count("shots", N);
    for (size_t x = 0; x < dim; x++) {
        double p = std::norm(d.a[x]);
        if (p < 1e-18) check(c[x] == 0, "sample-impossible", fmt("outcome %zu, which has probability %.3g, was drawn %.0f times: ", x, p, c[x]) + head);
        else check(bernstein(c[x], N, p), "sample-distribution", fmt("outcome %zu drawn %.0f of %d times, probability %.9g: ", x, c[x], N, p) + head);
        if (p > 1e-18) check(bernstein(lag[x] * 1.0, N - 1, p * p) || p > 1 - 1e-9 ||
                             std::abs(lag[x] - (N - 1) * p * p) <= std::sqrt(2 * 3 * (N - 1) * p * p * LN) + 2 * LN + 1,
                             "sample-independent", fmt("outcome %zu (p=%.6g) followed itself %.0f of %d times: ", x, p, lag[x], N) + head);
    }
    for (int q = 0; q < n; q++) {
        double p1 = std::min(1.0, std::max(0.0, d.pone(q)));
        double p[4] = {(1 - p1) * (1 - p1), (1 - p1) * p1, p1 * (1 - p1), p1 * p1};
        for (int k = 0; k < 4; k++) {
            double var = 3 * (N - 1) * p[k];                                 // neighbouring pairs overlap
            check(std::abs(pair[q][k] - (N - 1) * p[k]) <= std::sqrt(2 * var * LN) + 2 * LN + 1, "sample-independent",
                  fmt("qubit %d: pair %d seen %.0f of %d times, probability %.6g: ", q, k, pair[q][k], N - 1, p[k]) + head);
        }
    }
    // sampling leaves the state alone
    same(read_state(s), d.a, TOL, "sample-state", "after sampling, " + head);
    // the same seed gives the same outcomes
    {
        uint64_t sd = r.next();
        std::mt19937_64 m1(sd), m2(sd);
        std::string a, b;
        for (int i = 0; i < 10; i++) a += measureAll(s, false, m1), b += measureAll(s, false, m2);
        check(a == b, "sample-seed", "one seed, two sequences of outcomes: " + head);
    }
    // collapse
    for (int i = 0; i < 20; i++) {
        vEdge t = s;
        std::string o = measureAll(t, true, mt);
        uint64_t x = bits_of(o);
        Vec want(dim);
        want[x] = 1;
        if (!same(read_state(t), want, 1e-12, "sample-collapse", "state after outcome " + o + ", " + head)) break;
        check(std::norm(d.a[x]) > 1e-18, "sample-impossible", "collapse to impossible outcome " + o + ", " + head);
        std::string o2 = measureAll(t, r.chance(0.5), mt);
        check(o2 == o, "sample-repeat", "measured " + o + ", then " + o2 + ": " + head);
        count("collapses");
    }
    same(read_state(s), d.a, TOL, "sample-state", "after collapsing a copy, " + head);
    seen(log.h);
    if (index % 41 == 0) sample(head.substr(0, 300));
}

// Registers too wide to tabulate: independent groups of one to three qubits, scattered over the register.
static void case_samplewide(Rng &r, long index) {
    int n = r.range(7, 100);
    if (r.chance(0.25)) { static const int e[] = {31, 32, 33, 63, 64, 65, 99, 100}; n = e[r.below(8)]; }
    std::vector<int> q(n), group(n);
    std::iota(q.begin(), q.end(), 0);
    if (n <= 18) r.shuffle(q);
    else for (int i = 0; i + 3 < n; i += 4) std::reverse(q.begin() + i, q.begin() + i + r.range(1, 4));   // neighbours: few nodes, whatever is rounded
    vEdge s = makeZeroState(n);
    struct Part { std::vector<int> q; std::vector<double> p, c; };
    std::vector<Part> parts;
    bool coins = r.chance(0.25);                                     // fair coins only, and copies of them
    int most = n <= 18 ? 3 : 2, wideGroups = 0;
    for (int i = 0; i < n;) {
        int k = wideGroups < (n <= 18 ? 5 : 40) ? r.range(1, std::min(most, n - i)) : 1;
        wideGroups += k > 1;
        Part p;
        for (int j = 0; j < k; j++) p.q.push_back(q[i + j]);
        Dense d(k);
        bool rare = r.chance(0.1);
        for (int j = 0; j < k; j++) {
            double a = rare ? r.real(0.02, 0.3) : r.real(0.3, 2.9), b = r.real(0, 6);
            if (coins) { if (j == 0) { s = mv_multiply(makeGate(n, Hmat, p.q[j]), s); d.apply(M2(std::sqrt(.5), std::sqrt(.5), std::sqrt(.5), -std::sqrt(.5)), {j}); } continue; }
            s = mv_multiply(RY(n, p.q[j], a), s); d.apply(expi(rY(), a), {j});
            s = mv_multiply(RZ(n, p.q[j], b), s); d.apply(expi(rZ(), b), {j});
        }
        for (int t = k > 1 ? r.range(1, 3) : 0; t--;) {
            int x = r.below(k), y = (x + 1 + r.below(k - 1)) % k;
            double a = r.real(0.3, 2.9);
            if (coins) { s = mv_multiply(CX(n, p.q[x], p.q[y]), s); d.apply(rX(), {x}, {{y, true}}); continue; }
            s = mv_multiply(CX(n, p.q[x], p.q[y]), s); d.apply(rX(), {x}, {{y, true}});
            s = mv_multiply(RY(n, p.q[x], a), s); d.apply(expi(rY(), a), {x});
        }
        for (auto a : d.a) p.p.push_back(std::norm(a));
        p.c.assign(p.p.size(), 0);
        for (int x : p.q) group[x] = parts.size();
        parts.push_back(p);
        i += k;
    }
    std::string head = fmt("n=%d, %zu groups, %d nodes: ", n, parts.size(), get_nNodes(s));
    std::mt19937_64 mt(r.next());
    int N = 1500;
    std::vector<std::vector<char>> got(N, std::vector<char>(n));
    for (int i = 0; i < N; i++) {
        std::string o;
        if (i % 50 == 0) { vEdge t = s; o = measureAll(t, true, mt); std::string again = measureAll(t, false, mt); check(again == o, "wide-repeat", head + "measured " + o + ", then " + again); }
        else o = measureAll(s, false, mt);
        if ((int)o.size() != n) { check(false, "wide-form", head + "outcome " + o); return; }
        for (int x = 0; x < n; x++) got[i][x] = o[n - 1 - x] == '1';
        for (auto &p : parts) { int k = 0; for (size_t j = 0; j < p.q.size(); j++) k |= got[i][p.q[j]] << j; p.c[k]++; }
    }
    count("shots", N);
    for (auto &p : parts)
        for (size_t k = 0; k < p.p.size(); k++)
            check(p.p[k] < 1e-18 ? p.c[k] == 0 : bernstein(p.c[k], N, p.p[k]), "wide-distribution",
                  head + fmt("outcome %zu of the %zu qubits from qubit %d on: %.0f of %d times, probability %.9g", k, p.q.size(), p.q[0], p.c[k], N, p.p[k]));
    // qubits of different groups know nothing of each other, nor do successive shots
    auto one = [&](int x) { const Part &p = parts[group[x]]; double t = 0; size_t j = std::find(p.q.begin(), p.q.end(), x) - p.q.begin(); for (size_t k = 0; k < p.p.size(); k++) if (k >> j & 1) t += p.p[k]; return std::min(1.0, t); };
    for (int rep = 0; rep < 60; rep++) {
        int a = r.below(n), b = r.chance(0.4) ? (a + 1) % n : r.below(n), lag = r.chance(0.25);
        if (!lag && group[a] == group[b]) continue;
        double c = 0, p = one(a) * one(b);
        for (int i = lag; i < N; i++) c += got[i - lag][a] && got[i][b];
        check(std::abs(c - (N - lag) * p) <= std::sqrt(2 * 3 * N * p * LN) + 2 * LN + 1, "wide-independent",
              head + fmt("qubits %d and %d %s both 1 in %.0f of %d shots, probability %.6g", a, b, lag ? "one shot apart" : "", c, N - lag, p));
    }
    seen(r.next());
    if (index % 41 == 0) sample(head);
}

// ------------------------------------------------------------------ one-qubit measurement
static void case_measure(Rng &r, long index) {
    int n = r.range(1, 7);
    Dense d(n);
    Log log;
    vEdge s = random_state(r, n, d, log);
    std::mt19937_64 mt(r.next());
    std::string head = fmt("n=%d: ", n);
    for (int q = 0; q < n; q++) {
        double p0 = measureOne(s, q, mt);
        check(std::abs(p0 - (1 - d.pone(q))) < 1e-9, "measure-probability", fmt("probability of 0 for qubit %d is %.12g, expected %.12g: ", q, p0, 1 - d.pone(q)) + head + log.s);
    }
    same(read_state(s), d.a, TOL, "measure-nodisturb", "after reading probabilities, " + head + log.s);
    // repeated measurement of one state: frequencies, and both post-measurement states
    {
        int q = r.below(n), N = 1500;
        double p1 = std::min(1.0, std::max(0.0, d.pone(q))), ones = 0, agree = 0;
        Dense c0 = d, c1 = d;
        if (p1 < 1 - 1e-12) c0.collapse(q, 0);
        if (p1 > 1e-12) c1.collapse(q, 1);
        char last = 0;
        int pairs = 0;
        for (int i = 0; i < N; i++) {
            vEdge t = s;
            char c = measureOneCollapsing(t, q, mt);
            if (c != '0' && c != '1') { check(false, "measure-form", fmt("outcome %d", (int)c)); return; }
            double pc = c == '1' ? p1 : 1 - p1;
            if (pc < 1e-12) { check(pc > 1e-20, "measure-impossible", fmt("qubit %d gave %c, which has probability %.3g: ", q, c, pc) + head + log.s); break; }
            ones += c == '1';
            if (i < 6) same(read_state(t), (c == '1' ? c1 : c0).a, 1e-8 / std::sqrt(pc), "measure-collapse", fmt("qubit %d measured %c: ", q, c) + head + log.s);
            if (last) { pairs++; agree += last == c; }
            last = c;
        }
        if (p1 > 1e-12 && p1 < 1 - 1e-12) {
            check(bernstein(ones, N, p1), "measure-frequency", fmt("qubit %d was 1 in %.0f of %d measurements, probability %.9g: ", q, ones, N, p1) + head + log.s);
            double pa = p1 * p1 + (1 - p1) * (1 - p1);
            check(std::abs(agree - pairs * pa) <= std::sqrt(2 * 3 * pairs * std::max(pa * (1 - pa), 1e-12) * LN) + 2 * LN + 1, "measure-independent",
                  fmt("qubit %d: consecutive outcomes agree %.0f of %d times, probability %.6g: ", q, agree, pairs, pa) + head + log.s);
        }
        count("measurements", N);
    }
    // a program of gates and measurements, followed step by step
    for (int i = r.range(5, 25); i--;) {
        if (r.chance(0.5)) {
            Gate g = random_gate(r, n, 3);
            s = mv_multiply(g.make(), s);
            d.apply(g.m, g.t, g.c);
            log.add(gate_str(g));
        } else {
            int q = r.below(n);
            double p1 = d.pone(q);
            char c = measureOneCollapsing(s, q, mt);
            double pc = c == '1' ? p1 : 1 - p1;
            log.add(fmt("measure %d=%c", q, c));
            if (pc < 1e-9) { check(pc > 1e-16, "measure-impossible", fmt("probability %.3g: ", pc) + head + log.s); return; }
            d.collapse(q, c == '1');
            count("measurements");
            if (!same(read_state(s), d.a, 1e-8, "measure-collapse", head + log.s)) return;
            double nn = 0;
            for (auto &x : read_state(s)) nn += std::norm(x);
            check(std::abs(nn - 1) < 1e-9, "measure-norm", fmt("norm %.12g after a measurement: ", nn) + head + log.s);
            char c2 = measureOneCollapsing(s, q, mt);
            check(c2 == c, "measure-repeat", fmt("qubit %d measured %c, then %c: ", q, c, c2) + head + log.s);
            if (c2 != c) return;
            double p0 = measureOne(s, q, mt);
            check(std::abs(p0 - (c == '0')) < 1e-9, "measure-repeat", fmt("qubit %d measured %c, then probability of 0 is %.12g: ", q, c, p0) + head + log.s);
        }
    }
    same(read_state(s), d.a, 1e-8, "measure-final", head + log.s);
    seen(log.h);
    if (index % 41 == 0) sample(head + log.s.substr(0, 300));
    if (index % 20 == 19) gc(std::vector<vEdge>{makeZeroState(1)}, true);
}

// Outcomes that hardly ever happen, brought about by the generator the caller hands in: whatever the outcome,
// it must be possible, and the state afterwards must be the one that outcome leaves.
static void case_rare(Rng &r, long index) {
    int n = r.range(1, 6);
    Dense d(n);
    Log log;
    vEdge s = makeZeroState(n);
    auto ap = [&](const Gate &g) { s = mv_multiply(g.make(), s); d.apply(g.m, g.t, g.c); log.add(gate_str(g)); };
    auto tilt = [&] {
        int q = r.below(n), base = r.below(4);
        double a = std::pow(10.0, r.real(-4, -0.2)) * (r.chance(0.5) ? 1 : -1) + (base == 0 ? PI : 0);
        int k = r.below(2);
        ap({fmt("%s[%.17g]", k ? "RX" : "RY", a), expi(k ? rX() : rY(), a), {q}, {}, [=] { return k ? RX(n, q, a) : RY(n, q, a); }});
    };
    for (int i = r.range(1, 3 * n); i--;) {
        if (r.chance(0.6)) tilt();
        else ap(random_gate(r, n, 2));
    }
    std::string head = fmt("n=%d: ", n);
    int rare = 0;
    for (int i = 0; i < 60; i++) {
        if (r.chance(0.25)) {                                               // all qubits at once
            auto mt = rigged(rare_u(r, 0.02));
            vEdge t = s;
            bool col = r.chance(0.5);
            std::string o = measureAll(t, col, mt);
            if ((int)o.size() != n) { check(false, "rare-form", "outcome '" + o + "' for " + head + log.s); return; }
            uint64_t x = bits_of(o);
            double p = std::norm(d.a[x]);
            check(p > 1e-16, "rare-impossible", fmt("outcome %s of probability %.3g: ", o.c_str(), p) + head + log.s);
            if (p < 1e-3) rare++;
            Vec want(d.a.size());
            if (col) want[x] = 1; else want = d.a;
            if (!same(read_state(t), want, col ? 1e-12 : TOL, "rare-collapse", "state after outcome " + o + ", " + head + log.s)) return;
        } else {
            auto mt = rigged(rare_u(r, 1e-9));
            int q = r.below(n);
            vEdge t = s;
            char c = measureOneCollapsing(t, q, mt);
            double p1 = d.pone(q), pc = c == '1' ? p1 : 1 - p1;
            if (!(c == '0' || c == '1')) { check(false, "rare-form", fmt("outcome %d", (int)c)); return; }
            if (!(pc > 1e-14)) { check(false, "rare-impossible", fmt("qubit %d gave %c, of probability %.3g: ", q, c, pc) + head + log.s); return; }
            if (pc < 1e-3) rare++;
            Dense w = d;
            w.collapse(q, c == '1');
            double tol = 1e-9 + 1e-10 / std::sqrt(pc);
            if (!same(read_state(t), w.a, tol, "rare-collapse", fmt("qubit %d measured %c (probability %.3g): ", q, c, pc) + head + log.s)) return;
            double p0 = measureOne(t, q, mt);
            check(std::abs(p0 - (c == '0')) < 1e-9, "rare-repeat", fmt("qubit %d measured %c, then probability of 0 is %.12g: ", q, c, p0) + head + log.s);
            char again = measureOneCollapsing(t, q, mt);
            check(again == c, "rare-repeat", fmt("qubit %d measured %c, then %c: ", q, c, again) + head + log.s);
            if (r.chance(0.3) && pc > 1e-6) {                                // go on from there
                s = t;
                d = w;
                log.add(fmt("measure %d=%c", q, c));
                if (r.chance(0.6)) tilt(); else ap(random_gate(r, n, 2));
                // what the dense state and the engine's differ by is not amplified again
                Vec a = read_state(s);
                if (!same(a, d.a, 10 * tol, "rare-continue", head + log.s)) return;
                d.a = a;
            }
        }
        count("measurements");
    }
    count("rare_outcomes", rare);
    seen(log.h);
    if (index % 41 == 0) sample(head + log.s.substr(0, 300));
}

// ------------------------------------------------------------------ probabilities
static void case_probs(Rng &r, long index) {
    int n = r.range(1, 8);
    Dense d(n);
    Log log;
    vEdge s = random_state(r, n, d, log);
    std::string head = fmt("n=%d: ", n);
    std::mt19937_64 mt(r.next());
    for (int rep = 0; rep < 4; rep++) {
        auto p = probabilities(s);
        double sum = 0, m = 0;
        for (size_t i = 0; i < p.size(); i++) { sum += p[i]; double e = i < d.a.size() ? std::abs(p[i] - std::norm(d.a[i])) : 1; if (!(e <= m)) m = e; }
        check(p.size() == d.a.size() && m < 1e-10, "probabilities", fmt("%zu entries, largest error %.3g: ", p.size(), m) + head + log.s);
        check(std::abs(sum - 1) < 1e-9, "probabilities-sum", fmt("sum %.12g: ", sum) + head + log.s);
        for (double x : p) if (!(x >= -1e-12 && x <= 1 + 1e-9)) { check(false, "probabilities-range", fmt("%.12g: ", x) + head + log.s); break; }
        Vec a = read_state(s);
        double e = 0;
        for (size_t i = 0; i < p.size() && i < a.size(); i++) e = std::max(e, std::abs(std::norm(a[i]) - p[i]));
        check(e < 1e-10, "probabilities-amplitudes", fmt("probabilities and amplitudes disagree by %.3g: ", e) + head + log.s);
        std::vector<double> marg(n);
        for (size_t i = 0; i < p.size(); i++) for (int q = 0; q < n; q++) if (!(i >> q & 1)) marg[q] += p[i];
        for (int q = 0; q < n; q++) check(std::abs(marg[q] - measureOne(s, q, mt)) < 1e-9, "probabilities-marginal", fmt("qubit %d: ", q) + head + log.s);
        count("listings");
        int k = r.below(4);
        if (k == 0) { s = gc(s, true); log.add("gc"); }
        else if (k == 1) {
            int q = r.below(n);
            double p1 = d.pone(q);
            char c = measureOneCollapsing(s, q, mt);
            if ((c == '1' ? p1 : 1 - p1) < 1e-9) return;
            d.collapse(q, c == '1');
            log.add(fmt("measure %d=%c", q, c));
        } else for (int i = 0; i < 3; i++) {
            Gate g = random_gate(r, n, 3);
            s = mv_multiply(g.make(), s);
            d.apply(g.m, g.t, g.c);
            log.add(gate_str(g));
        }
    }
    seen(log.h);
    if (index % 97 == 0) sample(head + log.s.substr(0, 300));
}

// ------------------------------------------------------------------ large registers
static cd amplitude(const vEdge &e, const std::vector<int> &bits) {
    cd w(e.w.r, e.w.i);
    const vNode *p = e.n;
    vEdge c = e;
    while (!c.isTerminal()) {
        c = c.n->children[bits[c.getVar()]];
        w *= cd(c.w.r, c.w.i);
        if (c.w.isZero()) return 0;
    }
    (void)p;
    return w;
}
static std::string lead(const vEdge &e) { return fmt("top qubit %d", (int)e.getVar()); }
static void case_large(Rng &r, long index) {
    int n = r.range(9, 100);
    if (r.chance(0.25)) { static const int e[] = {31, 32, 33, 63, 64, 65, 99, 100}; n = e[r.below(8)]; }
    std::mt19937_64 mt(r.next());
    std::string head = fmt("n=%d ", n);
    int kind = index % 7;
    seen(n * 16 + kind + (r.next() << 20));
    count(fmt("kind%d", kind));
    if (kind == 0) {                                                        // GHZ over any order, sampled and collapsed
        int c = r.below(n);
        vEdge s = mv_multiply(makeGate(n, Hmat, c), makeZeroState(n));
        std::vector<int> q(n);
        std::iota(q.begin(), q.end(), 0);
        r.shuffle(q);
        std::vector<int> done = {c};
        for (int t : q) if (t != c) { s = mv_multiply(CX(n, t, done[r.below(done.size())]), s); done.push_back(t); }
        std::vector<int> z(n, 0), o(n, 1), x(n, 1);
        x[r.below(n)] = 0;
        cd h(std::sqrt(0.5));
        check(std::abs(amplitude(s, z) - h) < TOL && std::abs(amplitude(s, o) - h) < TOL && std::abs(amplitude(s, x)) < TOL, "large-ghz", head + "GHZ amplitudes");
        int ones = 0, N = 400;
        for (int i = 0; i < N; i++) {
            std::string m = measureAll(s, false, mt);
            bool a0 = m == std::string(n, '0'), a1 = m == std::string(n, '1');
            if (!a0 && !a1) { check(false, "large-ghz-sample", head + "GHZ outcome " + m); break; }
            ones += a1;
        }
        check(bernstein(ones, N, 0.5), "large-ghz-sample", head + fmt("%d of %d all ones", ones, N));
        int k = r.below(n);
        check(std::abs(measureOne(s, k, mt) - 0.5) < TOL, "large-marginal", head + fmt("qubit %d of a GHZ state", k));
        char cc = measureOneCollapsing(s, k, mt);
        for (int t : q) if (std::abs(measureOne(s, t, mt) - (cc == '0')) > TOL) { check(false, "large-ghz-collapse", head + fmt("qubit %d after qubit %d gave %c", t, k, cc)); break; }
        std::string m = measureAll(s, true, mt);
        check(m == std::string(n, cc), "large-ghz-collapse", head + "all: " + m);
    } else if (kind == 1) {                                                 // Bernstein-Vazirani: one certain answer
        std::vector<int> secret(n - 1);
        for (auto &b : secret) b = r.below(2);
        int anc = r.below(n);
        std::vector<int> line;
        for (int q = 0; q < n; q++) if (q != anc) line.push_back(q);
        vEdge s = mv_multiply(makeGate(n, Xmat, anc), makeZeroState(n));
        for (int q = 0; q < n; q++) s = mv_multiply(makeGate(n, Hmat, q), s);
        for (int i = 0; i < n - 1; i++) if (secret[i]) s = mv_multiply(CX(n, anc, line[i]), s);
        for (int q = 0; q < n; q++) s = mv_multiply(makeGate(n, Hmat, q), s);
        std::string want(n, '0');
        want[n - 1 - anc] = '1';
        for (int i = 0; i < n - 1; i++) if (secret[i]) want[n - 1 - line[i]] = '1';
        for (int i = 0; i < 20; i++) {
            std::string m = measureAll(s, false, mt);
            if (m != want) { check(false, "large-bv", head + "Bernstein-Vazirani gives " + m + ", secret " + want); break; }
            count("checks");
        }
    } else if (kind == 2) {                                                 // product state: every marginal and random amplitudes
        vEdge s = makeZeroState(n);
        std::vector<Vec> a(n, Vec{1, 0});
        for (int rep = 0; rep < 2; rep++)
            for (int q = 0; q < n; q++) {
                Mat u = runitary(r, 2);
                if (r.chance(0.2)) u = named1()[r.below(12)].m;
                s = mv_multiply(makeGate(n, g2(u), q), s);
                Vec y = {u[0][0] * a[q][0] + u[0][1] * a[q][1], u[1][0] * a[q][0] + u[1][1] * a[q][1]};
                a[q] = y;
            }
        for (int q = 0; q < n; q++) {
            double p0 = measureOne(s, q, mt);
            if (std::abs(p0 - std::norm(a[q][0])) > TOL) { check(false, "large-marginal", head + fmt("qubit %d: probability of 0 is %.12g, expected %.12g", q, p0, std::norm(a[q][0]))); break; }
            count("checks");
        }
        for (int k = 0; k < 20; k++) {
            std::vector<int> b(n);
            cd want = 1;
            for (int q = 0; q < n; q++) { b[q] = r.u01() < std::norm(a[q][1]); want *= a[q][b[q]]; }
            cd got = amplitude(s, b);
            check(std::abs(got - want) <= 1e-9 * std::abs(want) + 1e-300, "large-amplitude", head + fmt("amplitude %.9g%+.9gi, expected %.9g%+.9gi", got.real(), got.imag(), want.real(), want.imag()));
        }
        // sampled frequencies of every qubit
        int N = 600;
        std::vector<double> one(n);
        for (int i = 0; i < N; i++) { std::string m = measureAll(s, false, mt); for (int q = 0; q < n; q++) one[q] += m[n - 1 - q] == '1'; }
        for (int q = 0; q < n; q++) check(bernstein(one[q], N, std::norm(a[q][1])), "large-sample", head + fmt("qubit %d: %.0f of %d ones, probability %.9g", q, one[q], N, std::norm(a[q][1])));
    } else if (kind == 3) {                                                 // a random circuit on a few scattered qubits
        int k = r.range(2, 6);
        auto pos = r.distinct(n, k);
        std::sort(pos.begin(), pos.end());
        Dense d(k);
        vEdge s = makeZeroState(n);
        Log log;
        for (int i = r.range(5, 30); i--;) {
            Gate g = random_gate(r, k, 3);
            std::vector<int> t;
            for (int q : g.t) t.push_back(pos[q]);
            std::vector<Ctl> c;
            for (auto &x : g.c) c.push_back({pos[x.q], x.pos});
            mEdge e;
            if (g.t.size() == 1) e = makeGate(n, g2(g.m), t[0], ectl(c));
            else if (g.t.size() == 2 && (r.chance(0.5) || !c.empty())) e = makeTwoQubitGate(n, g4(g.m), t[1], t[0], ectl(c));
            else { ComplexMatrix cm(g.m); std::vector<Qubit> tt(t.begin(), t.end()); e = makeLargeGate(n, cm, tt); }
            s = mv_multiply(e, s);
            d.apply(g.m, g.t, g.c);
            log.add(gate_str(g));
        }
        head += "on qubits";
        for (int q : pos) head += fmt(" %d", q);
        head += ": " + log.s;
        for (size_t x = 0; x < d.a.size(); x++) {
            std::vector<int> b(n, 0);
            for (int i = 0; i < k; i++) b[pos[i]] = x >> i & 1;
            cd got = amplitude(s, b);
            if (std::abs(got - d.a[x]) > TOL) { check(false, "large-block", head + fmt(" amplitude %zu is %.9g%+.9gi, expected %.9g%+.9gi", x, got.real(), got.imag(), d.a[x].real(), d.a[x].imag())); return; }
            count("checks");
        }
        for (int i = 0; i < k; i++) check(std::abs(measureOne(s, pos[i], mt) - (1 - d.pone(i))) < TOL, "large-marginal", head + fmt(" qubit %d", pos[i]));
        int other = r.below(n);
        if (std::find(pos.begin(), pos.end(), other) == pos.end()) check(std::abs(measureOne(s, other, mt) - 1) < TOL, "large-marginal", head + fmt(" untouched qubit %d", other));
        // measure some of them, compare again
        for (int rep = 0; rep < 3; rep++) {
            int i = r.below(k);
            double p1 = d.pone(i);
            char c = measureOneCollapsing(s, pos[i], mt);
            if ((c == '1' ? p1 : 1 - p1) < 1e-6) return;
            d.collapse(i, c == '1');
        }
        for (size_t x = 0; x < d.a.size(); x++) {
            std::vector<int> b(n, 0);
            for (int i = 0; i < k; i++) b[pos[i]] = x >> i & 1;
            if (std::abs(amplitude(s, b) - d.a[x]) > 1e-7) { check(false, "large-collapse", head + " after measurements"); return; }
        }
        if (r.chance(0.3)) {
            s = gc(s, true);
            std::vector<int> b(n, 0);
            for (int i = 0; i < k; i++) b[pos[i]] = 0;
            check(std::abs(amplitude(s, b) - d.a[0]) < 1e-7, "large-gc", head);
        }
    } else if (kind == 6) {                                                 // every basis state alike: amplitudes 2^(-n/2), with phases between neighbours
        vEdge s = makeZeroState(n);
        std::vector<double> th(n, M_PI / 2), ph(n, 0.0);
        for (int i = r.below(4); i--;) th[r.below(n)] = r.real(0.4, 2.7);
        for (int q = 0; q < n; q++) s = mv_multiply(th[q] == M_PI / 2 && r.chance(0.5) ? makeGate(n, Hmat, q) : RY(n, q, th[q]), s);
        std::vector<std::array<int, 2>> cz;
        for (int i = r.below(9); i--;) {
            int q = r.below(n);
            if (r.chance(0.4)) { double a = r.real(-3, 3); ph[q] += a; s = mv_multiply(makeGate(n, ::p(a), q), s); }
            else {
                int t = std::min(n - 1, q + r.range(1, 2));
                if (t == q) continue;
                cz.push_back({q, t});
                s = mv_multiply(makeGate(n, Zmat, t, ectl({{q, true}})), s);
            }
        }
        auto one = [&](int q) { return std::pow(std::sin(th[q] / 2), 2); };
        std::vector<int> fixed(n, -1);
        auto compare = [&](const std::string &when) {
            for (int q = 0; q < n; q++) {
                double p0 = measureOne(s, q, mt), w = fixed[q] < 0 ? 1 - one(q) : fixed[q] == 0;
                if (std::abs(p0 - w) > TOL) { check(false, "large-uniform-marginal", head + fmt("qubit %d: probability of 0 is %.12g, expected %.12g, ", q, p0, w) + when); return false; }
                count("checks");
            }
            for (int k = 0; k < 10; k++) {
                std::vector<int> b(n);
                cd want = 1;
                for (int q = 0; q < n; q++) {
                    b[q] = fixed[q] < 0 ? r.below(2) : fixed[q];
                    want *= (fixed[q] < 0 ? (b[q] ? std::sin(th[q] / 2) : std::cos(th[q] / 2)) : 1.0) * std::polar(1.0, b[q] * ph[q]);
                }
                for (auto &e : cz) if (b[e[0]] && b[e[1]]) want = -want;
                cd got = amplitude(s, b);
                check(std::abs(got - want) <= 1e-9 * std::abs(want), "large-uniform-amplitude", head + fmt("amplitude %.9g%+.9gi, expected %.9g%+.9gi, ", got.real(), got.imag(), want.real(), want.imag()) + when);
            }
            return true;
        };
        if (!compare("before measuring")) return;
        int ones = 0, of = 0;
        for (int k = r.range(1, 6); k--;) {
            int q = r.below(n);
            char c = measureOneCollapsing(s, q, mt);
            check(fixed[q] < 0 || fixed[q] == c - '0', "large-uniform-collapse", head + fmt("qubit %d was %d, now %c", q, fixed[q], c));
            if (fixed[q] < 0 && th[q] == M_PI / 2) { ones += c == '1'; of++; }
            fixed[q] = c - '0';
        }
        count("uniform_ones", ones), count("uniform_tossed", of);
        if (r.chance(0.05)) s = gc(s, true);
        if (!compare("after measuring")) return;
        std::string m = measureAll(s, r.chance(0.3), mt);
        for (int q = 0; q < n; q++) if (fixed[q] >= 0 && m[n - 1 - q] != '0' + fixed[q]) { check(false, "large-uniform-collapse", head + fmt("qubit %d was %d, sampled %c", q, fixed[q], m[n - 1 - q])); return; }
    } else if (kind == 4) {                                                 // a circuit and its inverse, on a wide register
        int m = std::min(n, r.range(10, 16));
        std::vector<std::function<mEdge()>> fw, bw;
        Log log;
        for (int i = 0; i < 40; i++) {
            auto q = r.distinct(n, 3);
            int k = r.below(5);
            if (k >= 1 && i > m) { q[0] = q[0]; }
            int a = q[0], b = q[1], c = q[2];
            double th = r.real(-3, 3);
            if (k == 0 && i < 12) { fw.push_back([=] { return RX(n, a, th); }); bw.push_back([=] { return RX(n, a, -th); }); }
            else if (k == 1) { fw.push_back([=] { return CX(n, a, b); }); bw.push_back([=] { return CX(n, a, b); }); }
            else if (k == 2) { fw.push_back([=] { return RZZ(n, a, b, th); }); bw.push_back([=] { return RZZ(n, a, b, -th); }); }
            else if (k == 3) { fw.push_back([=] { return CSWAP(n, a, b, c); }); bw.push_back([=] { return CSWAP(n, a, b, c); }); }
            else { fw.push_back([=] { return makeSwap(n, a, b); }); bw.push_back([=] { return SWAP(n, a, b); }); }
            log.add(fmt("%d(%d,%d,%d)", k, a, b, c));
        }
        vEdge s = makeZeroState(n), z = s;
        for (auto &f : fw) s = mv_multiply(f(), s);
        // norm, from the diagram
        for (size_t i = bw.size(); i--;) s = mv_multiply(bw[i](), s);
        std::vector<int> b(n, 0);
        check(std::abs(amplitude(s, b) - cd(1)) < 1e-8, "large-inverse", head + "circuit and inverse: amplitude of |0..0> is " + fmt("%.12g", std::abs(amplitude(s, b))) + " " + log.s);
        for (int i = 0; i < 10; i++) check(measureAll(s, false, mt) == std::string(n, '0'), "large-inverse", head + log.s);
    } else {                                                                // fused operators on a wide register
        mEdge m = makeIdent(n - 1);
        std::vector<Vec> a(n, Vec{1, 0});
        std::vector<int> order(n);
        std::iota(order.begin(), order.end(), 0);
        r.shuffle(order);
        for (int q : order) {
            Mat u = r.chance(0.5) ? named1()[0].m : runitary(r, 2);
            m = mm_multiply(makeGate(n, g2(u), q), m);
            a[q] = {u[0][0], u[1][0]};
        }
        vEdge s = mv_multiply(m, makeZeroState(n));
        for (int k = 0; k < 10; k++) {
            std::vector<int> b(n);
            cd want = 1;
            for (int q = 0; q < n; q++) { b[q] = r.u01() < std::norm(a[q][1]); want *= a[q][b[q]]; }
            cd got = amplitude(s, b);
            check(std::abs(got - want) <= 1e-9 * std::abs(want), "large-fused", head + fmt("fused product: amplitude %.9g%+.9gi, expected %.9g%+.9gi", got.real(), got.imag(), want.real(), want.imag()));
        }
        // permutations: a fused cascade acts as its gates one by one
        mEdge pm = makeIdent(n - 1);
        std::vector<int> bits(n), x;
        for (auto &b : bits) b = r.below(2);
        vEdge t = vEdge::one;
        for (int q = 0; q < n; q++) t = makeVEdge(q, bits[q] ? std::array<vEdge, 2>{vEdge::zero, t} : std::array<vEdge, 2>{t, vEdge::zero});
        for (int i = 0; i < 25; i++) {
            auto q = r.distinct(n, 2);
            if (r.chance(0.5)) { pm = mm_multiply(CX(n, q[0], q[1]), pm); bits[q[0]] ^= bits[q[1]]; }
            else { pm = mm_multiply(SWAP(n, q[0], q[1]), pm); std::swap(bits[q[0]], bits[q[1]]); }
            if (i % 8 == 7) { t = mv_multiply(pm, t); pm = makeIdent(n - 1); }
        }
        t = mv_multiply(pm, t);
        check(std::abs(amplitude(t, bits) - cd(1)) < TOL, "large-permutation", head + "fused permutation of a basis state");
        std::string want;
        for (int q = n - 1; q >= 0; q--) want += bits[q] ? '1' : '0';
        check(measureAll(t, false, mt) == want, "large-permutation", head + "fused permutation of a basis state, measured");
    }
    if (index % 29 == 0) sample(head.substr(0, 200) + fmt(" kind %d", kind));
    if (index % 16 == 15) { gc(std::vector<vEdge>{makeZeroState(1)}, true); gc_mat(std::vector<mEdge>{makeIdent(0)}, true); }
}

// ------------------------------------------------------------------ bounded memory
// A long program whose live states stay small: what it holds must not grow with the number of steps.
static size_t held() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }
static void case_bounded(Rng &r, long index) {
    int kind = index % 5;
    bool lazy = index / 5 % 2;                       // the thresholds alone decide when to collect
    int n = r.range(4, 7);
    set_gc_thr(2000, 2000);
    std::mt19937_64 mt(r.next());
    vEdge s = makeZeroState(n);
    mEdge m = makeIdent(n - 1);
    size_t first = 0, last = 0;
    int cycles = lazy ? 80 : 40, warm = lazy ? 24 : 8;
    size_t maxv = 0;
    for (int c = 0; c < cycles; c++) {
        size_t peak = 0;
        for (int i = 0; i < 60; i++) {
            Gate g = random_gate(r, n, 3);
            mEdge e = g.make();
            s = mv_multiply(e, s);
            if (kind == 1) m = mm_multiply(e, m);
            if (kind == 2 && i % 10 == 0) { read_state(s); probabilities(s); measureAll(s, false, mt); eigen_state(s); read_matrix(e, n); }
            if (kind == 3 && i % 5 == 0) measureOneCollapsing(s, r.below(n), mt);
            if (kind == 4 && i % 10 == 0) { s = makeZeroState(n); genDot(s); get_nNodes(s); }
            if (lazy) peak = std::max(peak, held());
            s = gc(s, false);
            m = gc_mat(m, false);
        }
        if (!lazy) {
            s = gc(s, true);
            m = gc_mat(m, true);
            peak = held();
        }
        if (c < warm) first = std::max(first, peak);
        else { last = lazy ? std::max(last, peak) : peak; maxv = std::max(maxv, peak); }
        count("cycles");
    }
    check(last <= first + (lazy ? first / 64 + (1 << 20) : first / 512 + (1 << 17)), lazy ? "bounded-peak" : "bounded-memory",
          fmt("kind %d n=%d: %zu bytes in use after %d cycles, at most %zu in the first %d", kind, n, last, cycles, first, warm));
    seen(index * 64 + n);
    sample(fmt("kind %d%s n=%d: %d cycles of 60 gates, in use at most %zu early, %zu at the end, %zu at most", kind, lazy ? " lazy" : "", n, cycles, first, last, maxv));
    set_gc_thr(65536, 65536);
}

// ------------------------------------------------------------------ printed and other read-outs
struct CoutGrab {
    std::stringstream ss;
    std::streambuf *old;
    CoutGrab() : old(std::cout.rdbuf(ss.rdbuf())) {}
    ~CoutGrab() { std::cout.rdbuf(old); }
    std::string str() { return ss.str(); }
};
// all "(re , im)" pairs of a text, in order
static Vec complex_in(const std::string &t) {
    Vec out;
    for (size_t i = 0; (i = t.find('(', i)) != std::string::npos; i++) {
        double a, b;
        if (sscanf(t.c_str() + i, "(%lf , %lf)", &a, &b) == 2) out.push_back({a, b});
    }
    return out;
}
static bool printed_like(const Vec &got, const Vec &want, double scale) {
    if (got.size() != want.size()) return false;
    for (size_t i = 0; i < got.size(); i++)
        if (!(std::abs(got[i] - want[i]) <= 2e-5 * std::max(scale, std::abs(want[i])))) return false;
    return true;
}
// the vector a Graphviz listing denotes
struct Dot {
    struct E { uint64_t to; int i; cd w; };
    std::map<uint64_t, std::vector<E>> out;
    std::map<uint64_t, std::string> label;
    uint64_t root = 0, term = 0;
    cd rootw;
    bool ok = true;
    explicit Dot(const std::string &t) {
        std::stringstream ss(t);
        std::string l;
        while (std::getline(ss, l)) {
            unsigned long long a, b;
            int i;
            double x, y;
            if (sscanf(l.c_str(), " %llu -> %llu [label=\"%d(%lf , %lf)\"]", &a, &b, &i, &x, &y) == 5) out[a].push_back({b, i, {x, y}});
            else if (sscanf(l.c_str(), " %llu [label=\"Term w=(%lf , %lf)\"]", &a, &x, &y) == 3) { term = a; rootw = {x, y}; }
            else if (sscanf(l.c_str(), " %llu [label=\"q", &a) == 1) { if (!root) root = a; if (label.count(a)) ok = false; label[a] = l.substr(l.find("\"q") + 1); out[a]; }
            else if (l != "digraph qdd {" && l != "}") ok = false;
        }
        if (!term) ok = false;
    }
    int var(uint64_t node) { return node == term ? -1 : atoi(label[node].c_str() + 1); }
    void mat(uint64_t node, int left, cd w, size_t row, size_t col, Mat &m) {    // levels that are left out act as the identity
        if (!ok) return;
        if (!left) { if (node != term) ok = false; m[row][col] += w; return; }
        int v = var(node);
        if (v >= left) { ok = false; return; }
        if (v < left - 1) {
            for (int b = 0; b < 2; b++) mat(node, left - 1, w, row << 1 | b, col << 1 | b, m);
            return;
        }
        for (auto &e : out[node]) if (e.i >= 0 && e.i < 4) mat(e.to, left - 1, w * e.w, row << 1 | e.i >> 1, col << 1 | (e.i & 1), m); else ok = false;
    }
    void vec(uint64_t node, int left, cd w, size_t row, Vec &v) {
        if (!ok) return;
        if (node == term || !left) {
            if (node != term && w != 0.0) ok = false;
            for (size_t i = 0; i < (size_t)1 << left; i++) v[(row << left) | i] = w;
            return;
        }
        for (auto &e : out[node]) if (e.i >= 0 && e.i < 2) vec(e.to, left - 1, w * e.w, (row << 1) | e.i, v); else ok = false;
    }
};
static void case_print(Rng &r, long index) {
    int n = r.range(1, 6);
    Dense d(n);
    Log log;
    vEdge s = random_state(r, n, d, log);
    Vec want = d.a;
    std::string head = fmt("n=%d: ", n);
    if (r.chance(0.2)) {                                     // unnormalised states too
        vEdge t = mv_multiply(random_gate(r, n, 2).make(), s);
        Vec b = read_state(t);
        double m = 0;                                        // (not a sum that cancels to rounding noise)
        for (size_t i = 0; i < want.size(); i++) m = std::max(m, std::abs(want[i] + b[i]));
        if (m > 0.01) { s = vv_add(s, t); for (size_t i = 0; i < want.size(); i++) want[i] += b[i]; log.add("+another"); }
    }
    double big = 0;
    for (auto &x : want) big = std::max(big, std::abs(x));
    std::string t;
    { CoutGrab g; s.printVector(); t = g.str(); }
    check(printed_like(complex_in(t), want, big), "print-vector", "printVector: " + head + log.s + " printed " + t.substr(0, 300));
    { CoutGrab g; s.printVector_sparse(); t = g.str(); }
    {
        std::stringstream ss(t);
        std::string l;
        long prev = -1;
        std::vector<bool> listed(want.size());
        while (std::getline(ss, l)) {
            Vec c = complex_in(l);
            size_t col = l.find(':');
            long i = col == std::string::npos ? -1 : strtol(l.substr(0, col).c_str(), nullptr, 2);
            bool ok = c.size() == 1 && i > prev && i < (long)want.size();
            if (ok) { ok = std::abs(c[0] - want[i]) <= 2e-5 * std::max(1.0, std::abs(want[i])); listed[i] = true; prev = i; }
            check(ok, "print-sparse", "printVector_sparse line '" + l + "': " + head + log.s);
            if (!ok) break;
        }
        for (size_t i = 0; i < want.size(); i++)
            if (std::abs(want[i]) > 0.00101 && !listed[i]) { check(false, "print-sparse", fmt("printVector_sparse leaves out index %zu of magnitude %.6g: ", i, std::abs(want[i])) + head + log.s); break; }
    }
    same(eigen_state(s), want, 2e-6 * std::max(1.0, big), "print-eigen", "getEigenVector, " + head + log.s);
    { CoutGrab g; t = genDot(s); }
    {
        Dot dot(t);
        Vec v(want.size());
        dot.vec(dot.root, n, dot.rootw, 0, v);
        check(dot.ok && printed_like(v, want, 10 * big), "print-dot", "genDot of the state does not denote it: " + head + log.s + " listing " + t.substr(0, 600));
        check((int)dot.label.size() == get_nNodes(s), "print-nodes", fmt("%zu nodes listed, %d reported: ", dot.label.size(), get_nNodes(s)) + head + log.s);
    }
    // operators
    mEdge e = random_gate(r, n, 3).make();
    for (int i = r.below(4); i > 0; i--) e = r.chance(0.7) ? mm_multiply(random_gate(r, n, 3).make(), e) : mm_add(e, random_gate(r, n, 3).make());
    Mat m = read_matrix(e, n);
    Vec flat;
    double mb = 1e-300;
    for (auto &row : m) for (auto &x : row) { flat.push_back(x); mb = std::max(mb, std::abs(x)); }
    { CoutGrab g; e.printMatrix(n); t = g.str(); }
    check(printed_like(complex_in(t), flat, mb), "print-matrix", "printMatrix disagrees with getMatrix: " + head + t.substr(0, 300));
    check((long)std::count(t.begin(), t.end(), '\n') == (1 << n) + 1, "print-matrix", "printMatrix does not print one row per line: " + head);
    MatrixXcf em = e.getEigenMatrix(n);
    bool ok = em.rows() == (1 << n) && em.cols() == (1 << n);
    for (int i = 0; ok && i < 1 << n; i++) for (int j = 0; j < 1 << n; j++) if (!(std::abs(cd(em(i, j)) - m[i][j]) <= 2e-6 * std::max(1.0, mb))) ok = false;
    check(ok, "print-eigenmatrix", "getEigenMatrix disagrees with getMatrix: " + head);
    // the operator acts on basis states as its columns say
    for (int k = 0; k < 3; k++) {
        size_t x = r.below(1 << n);
        vEdge b = vEdge::one;
        for (int q = 0; q < n; q++) b = makeVEdge(q, x >> q & 1 ? std::array<vEdge, 2>{vEdge::zero, b} : std::array<vEdge, 2>{b, vEdge::zero});
        vEdge c = mv_multiply(e, b);
        Vec col(1 << n), got(1 << n);
        for (int i = 0; i < 1 << n; i++) col[i] = m[i][x];
        if (!c.isTerminal()) got = read_state(c);
        same(got, col, 1e-9 * std::max(1.0, mb), "print-column", fmt("column %zu: ", x) + head);
    }
    if (!e.isTerminal()) {
        CoutGrab g;
        std::string dd = genDot(e);
        Dot dot(dd);
        Mat got = mzero(1 << n);
        dot.mat(dot.root, n, dot.rootw, 0, 0, got);
        Vec gf;
        for (auto &row : got) for (auto &x : row) gf.push_back(x);
        check(dot.ok && printed_like(gf, flat, 10 * mb), "print-dot-operator", "genDot of an operator does not denote it: " + head + dd.substr(0, 600));
        std::string lines = g.str();
        check(lines == fmt("%zu nodes\n", dot.label.size()), "print-dot-operator", fmt("%zu nodes listed, announced: ", dot.label.size()) + lines);
        CoutGrab h;
        e.printMatrix();
        Vec top = complex_in(h.str()), wantt;
        int d = 1 << (e.getVar() + 1);
        for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) wantt.push_back(m[i][j]);
        check(printed_like(top, wantt, mb), "print-matrix", "printMatrix without a size disagrees with getMatrix: " + head + h.str().substr(0, 300));
    }
    // a number is printed as it is, and has no graph
    {
        vEdge k = vEdge::one;
        k.w = std_complex(r.real(-1, 1), r.real(-1, 1));
        Vec kw{cd(k.w.r, k.w.i)};
        std::string a, b, c;
        { CoutGrab g; k.printVector(); a = g.str(); }
        { CoutGrab g; k.printVector_sparse(); b = g.str(); }
        { CoutGrab g; c = genDot(k); }
        check(printed_like(complex_in(a), kw, 1) && printed_like(complex_in(b), kw, 1) && c.empty(), "print-scalar", "a number is printed as " + a + " / " + b + " / " + c);
    }
    // a few basis states of a register too wide for the full listing
    {
        int wn = r.chance(0.3) ? r.range(30, 66) : r.range(7, 100), terms = r.range(1, 4);
        std::map<std::string, cd> amp;                               // by bit string, qubit 0 last
        vEdge sum = vEdge::zero;
        for (int k = 0; k < terms; k++) {
            std::string bits(wn, '0');
            int how = r.below(4);
            for (auto &c : bits) if (how == 0 || (how > 1 && r.chance(0.5))) c = '1';
            if (how == 1) bits[r.chance(0.5) ? 0 : r.below(wn)] = '1';
            if (amp.count(bits)) continue;
            cd x(r.real(0.1, 1), r.real(-1, 1));
            amp[bits] = x;
            vEdge b = vEdge::one;
            for (int q = 0; q < wn; q++) b = makeVEdge(q, bits[wn - 1 - q] == '1' ? std::array<vEdge, 2>{vEdge::zero, b} : std::array<vEdge, 2>{b, vEdge::zero});
            b.w *= std_complex(x.real(), x.imag());
            sum = sum == vEdge::zero ? b : vv_add(sum, b);
        }
        { CoutGrab g; sum.printVector_sparse(); t = g.str(); }
        std::stringstream ss(t);
        std::string l;
        std::map<std::string, cd> got;
        bool ok = true;
        while (std::getline(ss, l)) {
            Vec c = complex_in(l);
            size_t col = l.find(':');
            if (c.size() != 1 || col == std::string::npos) { ok = false; break; }
            std::string bits = l.substr(0, col);                     // padded to a fixed width
            size_t extra = bits.size() > (size_t)wn ? bits.size() - wn : 0;
            if (bits.find_first_not_of("01") != std::string::npos || bits.size() < (size_t)wn || bits.find('1') < extra) { ok = false; break; }
            got[bits.substr(extra)] = c[0];
        }
        ok = ok && got.size() == amp.size();
        for (auto &[b, x] : amp) if (!got.count(b) || std::abs(got[b] - x) > 2e-5) ok = false;
        std::string want;
        for (auto &[b, x] : amp) want += " " + b + fmt(":(%.6g,%.6g)", x.real(), x.imag());
        check(ok, "print-sparse-wide", fmt("printVector_sparse on %d qubits, terms%s, printed ", wn, want.c_str()) + t.substr(0, 400));
    }
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    // a list of more entries than fit in memory is refused
    if (r.chance(0.1)) {
        int wn = r.chance(0.3) ? r.range(62, 66) : r.range(31, 100);
        std::string bits;
        vEdge b = vEdge::one;
        for (int q = 0; q < wn; q++) { bool one = r.chance(0.5); bits += '0' + one; b = makeVEdge(q, one ? std::array<vEdge, 2>{vEdge::zero, b} : std::array<vEdge, 2>{b, vEdge::zero}); }
        rlimit was, less;
        getrlimit(RLIMIT_AS, &was);
        less = was;
        less.rlim_cur = 8ull << 30;
        setrlimit(RLIMIT_AS, &less);
        auto refused = [&](const char *what, std::function<void()> f) {
            try { f(); } catch (const std::exception &) { check(true, "print-refused", ""); return; }
            check(false, "print-refused", fmt("%s of a state on %d qubits comes back", what, wn));
        };
        refused("the vector", [&] { std::size_t d; delete[] b.getVector(&d); });
        refused("the list of probabilities", [&] { probabilities(b); });
        if (r.chance(0.3)) refused("the printed vector", [&] { CoutGrab g; b.printVector(); });
        setrlimit(RLIMIT_AS, &was);
        check(get_nNodes(b) == wn, "print-refused", fmt("%d nodes afterwards on %d qubits", get_nNodes(b), wn));
    }
#endif
    // reading has changed nothing
    same(read_state(s), want, TOL, "print-nodisturb", "after reading, " + head + log.s);
    same_m(read_matrix(e, n), m, 1e-15 * mb, "print-nodisturb", "after reading, " + head);
    count("texts_parsed", 4);
    seen(log.h ^ r.next());
    if (index % 97 == 0) sample(head + log.s.substr(0, 200) + " / operator with largest entry " + fmt("%.3g", mb));
}

int main(int argc, char **argv) {
    std::map<std::string, std::function<void(Rng &, long)>> modes = {
        {"gates_enum", case_gates_enum}, {"gates", case_gates}, {"evolve", case_evolve}, {"algebra", case_algebra},
        {"prune", case_prune}, {"canon", case_canon}, {"sizes", case_sizes}, {"gc", case_gc}, {"gcwork", case_gcwork}, {"history", case_history},
        {"sample", case_sample}, {"samplewide", case_samplewide}, {"measure", case_measure}, {"rare", case_rare}, {"gclarge", case_gclarge}, {"reuse", case_reuse}, {"probs", case_probs}, {"print", case_print}, {"large", case_large}, {"bounded", case_bounded}};
    if (argc == 2 && std::string(argv[1]) == "placements") { printf("%zu\n", placements().size()); return 0; }
    if (argc < 5 || !modes.count(argv[1])) { fprintf(stderr, "usage: engine mode seed start count\n"); return 2; }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    long start = atol(argv[3]), cnt = atol(argv[4]);
    for (long i = start; i < start + cnt; i++) {
        begin_case(mode, seed, i);
        Rng r(seed * 1000003ULL + (uint64_t)i * 7919ULL + hash_str(mode));
        modes[mode](r, i);
        count("cases");
        // keep the collision chains of the tiny tables short enough to finish
        if (i % (NBUCKETS < 64 ? 4 : 64) == 3) { gc(std::vector<vEdge>{makeZeroState(1)}, true); gc_mat(std::vector<mEdge>{makeIdent(0)}, true); }
        if (nviol() > 20) break;
    }
    finish(mode);
    return 0;
}
