// Shared by the harnesses: deterministic randomness, the dense reference simulator, event reporting.
#pragma once
#include <fcntl.h>
#include <unistd.h>
#include <algorithm>
#include <array>
#include <complex>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <numeric>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "dd.h"

namespace v {
using cd = std::complex<double>;
using Vec = std::vector<cd>;
using Mat = std::vector<std::vector<cd>>;

// ---- randomness (own generator: the same numbers with every standard library)
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    double u01() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double real(double a, double b) { return a + (b - a) * u01(); }
    bool chance(double p) { return u01() < p; }
    double gauss() {
        double a = 1.0 - u01(), b = u01();
        return std::sqrt(-2 * std::log(a)) * std::cos(6.283185307179586 * b);
    }
    template <class T> void shuffle(std::vector<T> &x) {
        for (int i = (int)x.size() - 1; i > 0; i--) std::swap(x[i], x[below(i + 1)]);
    }
    std::vector<int> distinct(int n, int k) {
        std::vector<int> q(n);
        std::iota(q.begin(), q.end(), 0);
        shuffle(q);
        q.resize(k);
        return q;
    }
};

// ---- reporting: one line per event, on a descriptor of its own (the engine prints to stdout)
inline FILE *evf() {
    static FILE *f = [] {
        const char *p = getenv("QDD_EVENTS");
        FILE *g = p ? fopen(p, "a") : stdout;
        setvbuf(g, nullptr, _IOLBF, 1 << 16);
        return g;
    }();
    return f;
}
inline std::string esc(const std::string &s) {
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32) o += ' ';
        else o += c;
    }
    return o;
}
inline std::string fmt(const char *f, ...) {
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
struct Case { std::string mode; uint64_t seed = 0; long index = 0; };
inline Case &cur() { static Case c; return c; }
inline long &nviol() { static long n = 0; return n; }
inline void violation(const std::string &key, const std::string &text) {
    if (nviol()++ < 40)
        fprintf(evf(), "{\"e\":\"viol\",\"key\":\"%s\",\"mode\":\"%s\",\"seed\":%llu,\"index\":%ld,\"text\":\"%s\"}\n",
                esc(key).c_str(), cur().mode.c_str(), (unsigned long long)cur().seed, cur().index, esc(text).c_str());
    fflush(evf());
}
inline void sample(const std::string &text) {
    fprintf(evf(), "{\"e\":\"sample\",\"text\":\"%s\"}\n", esc(text).c_str());
}
inline std::map<std::string, long> &counters() { static std::map<std::string, long> m; return m; }
inline void count(const std::string &k, long n = 1) { counters()[k] += n; }
inline std::unordered_set<uint64_t> &distinct() { static std::unordered_set<uint64_t> s; return s; }
inline void seen(uint64_t h) {
    h = (h ^ (h >> 31)) * 0x9E3779B97F4A7C15ULL;
    distinct().insert(h ^ (h >> 29));
}
inline void begin_case(const std::string &mode, uint64_t seed, long index) {
    cur() = {mode, seed, index};
    static int fd = [] { const char *p = getenv("QDD_CASE"); return p ? open(p, O_CREAT | O_WRONLY | O_CLOEXEC, 0644) : -1; }();
    if (fd >= 0) {
        char b[128];
        int n = snprintf(b, sizeof b, "%-40s %20llu %12ld\n", mode.c_str(), (unsigned long long)seed, index);
        if (pwrite(fd, b, n, 0) < 0) {}
    }
}
inline void finish(const std::string &mode) {
    fprintf(evf(), "{\"e\":\"done\",\"mode\":\"%s\",\"distinct\":%zu,\"violations\":%ld,\"counters\":{", mode.c_str(), distinct().size(), nviol());
    bool first = true;
    for (auto &k : counters()) { fprintf(evf(), "%s\"%s\":%ld", first ? "" : ",", esc(k.first).c_str(), k.second); first = false; }
    fprintf(evf(), "},\"hashes\":[");
    size_t k = 0;
    for (uint64_t h : distinct()) { if (k == 20000) break; fprintf(evf(), "%s%llu", k++ ? "," : "", (unsigned long long)(h >> 12)); }
    fprintf(evf(), "]}\n");
    fflush(evf());
}
inline uint64_t hash_str(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    return h;
}

// ---- matrices
inline Mat mzero(int d) { return Mat(d, std::vector<cd>(d, 0.0)); }
inline Mat mident(int d) { Mat m = mzero(d); for (int i = 0; i < d; i++) m[i][i] = 1; return m; }
inline Mat mmul(const Mat &a, const Mat &b) {
    int d = a.size();
    Mat c = mzero(d);
    for (int i = 0; i < d; i++)
        for (int k = 0; k < d; k++)
            if (a[i][k] != 0.0)
                for (int j = 0; j < d; j++) c[i][j] += a[i][k] * b[k][j];
    return c;
}
inline Mat dagger(const Mat &a) {
    int d = a.size();
    Mat c = mzero(d);
    for (int i = 0; i < d; i++) for (int j = 0; j < d; j++) c[j][i] = std::conj(a[i][j]);
    return c;
}
inline double mdist(const Mat &a, const Mat &b) {
    double m = 0;
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) m = std::max(m, std::abs(a[i][j] - b[i][j]));
    return m;
}
// Haar-ish random unitary by Gram-Schmidt
inline Mat runitary(Rng &r, int d) {
    Mat m = mzero(d);
    for (int i = 0; i < d; i++) {
        while (true) {
            for (int j = 0; j < d; j++) m[i][j] = cd(r.gauss(), r.gauss());
            for (int rep = 0; rep < 2; rep++)
                for (int k = 0; k < i; k++) {
                    cd ip = 0;
                    for (int j = 0; j < d; j++) ip += std::conj(m[k][j]) * m[i][j];
                    for (int j = 0; j < d; j++) m[i][j] -= ip * m[k][j];
                }
            double n = 0;
            for (int j = 0; j < d; j++) n += std::norm(m[i][j]);
            n = std::sqrt(n);
            if (n < 1e-3) continue;
            for (int j = 0; j < d; j++) m[i][j] /= n;
            break;
        }
    }
    return m;
}

// ---- the reference: gate matrices written from their textbook definitions, not from the engine
inline Mat M2(cd a, cd b, cd c, cd d) { return {{a, b}, {c, d}}; }
const cd I1(0, 1);
inline Mat rX() { return M2(0, 1, 1, 0); }
inline Mat rY() { return M2(0, -I1, I1, 0); }
inline Mat rZ() { return M2(1, 0, 0, -1); }
inline Mat expi(const Mat &P, double t) {   // exp(-i t/2 P) with P*P = 1
    int d = P.size();
    Mat m = mzero(d);
    for (int i = 0; i < d; i++)
        for (int j = 0; j < d; j++) m[i][j] = (i == j ? cd(std::cos(t / 2)) : cd(0)) - I1 * std::sin(t / 2) * P[i][j];
    return m;
}
inline Mat kron(const Mat &a, const Mat &b) {  // a on the more significant bits
    int da = a.size(), db = b.size();
    Mat m = mzero(da * db);
    for (int i = 0; i < da; i++) for (int j = 0; j < da; j++)
        for (int k = 0; k < db; k++) for (int l = 0; l < db; l++) m[i * db + k][j * db + l] = a[i][j] * b[k][l];
    return m;
}
inline cd ei(double x) { return cd(std::cos(x), std::sin(x)); }
inline Mat rU(double th, double ph, double la) {
    return M2(std::cos(th / 2), -ei(la) * std::sin(th / 2), ei(ph) * std::sin(th / 2), ei(ph + la) * std::cos(th / 2));
}
struct Ctl { int q; bool pos; };

struct Dense {
    int n;
    Vec a;
    explicit Dense(int nn) : n(nn), a((size_t)1 << nn) { a[0] = 1; }
    // t[0] is the least significant bit of the matrix index
    void apply(const Mat &m, const std::vector<int> &t, const std::vector<Ctl> &c = {}) {
        int k = t.size(), d = 1 << k;
        size_t tm = 0;
        for (int q : t) tm |= (size_t)1 << q;
        Vec in(d), out(d);
        for (size_t b = 0; b < a.size(); b++) {
            if (b & tm) continue;
            bool ok = true;
            for (auto &x : c) ok = ok && (((b >> x.q) & 1) == (size_t)x.pos);
            if (!ok) continue;
            for (int i = 0; i < d; i++) {
                size_t ix = b;
                for (int j = 0; j < k; j++) if (i >> j & 1) ix |= (size_t)1 << t[j];
                in[i] = a[ix];
            }
            for (int i = 0; i < d; i++) { out[i] = 0; for (int j = 0; j < d; j++) out[i] += m[i][j] * in[j]; }
            for (int i = 0; i < d; i++) {
                size_t ix = b;
                for (int j = 0; j < k; j++) if (i >> j & 1) ix |= (size_t)1 << t[j];
                a[ix] = out[i];
            }
        }
    }
    double norm() const { double s = 0; for (auto &x : a) s += std::norm(x); return s; }
    double pone(int q) const { double s = 0; for (size_t i = 0; i < a.size(); i++) if (i >> q & 1) s += std::norm(a[i]); return s; }
    void collapse(int q, int b) {
        double p = b ? pone(q) : norm() - pone(q);
        double f = 1 / std::sqrt(p);
        for (size_t i = 0; i < a.size(); i++) if ((int)(i >> q & 1) == b) a[i] *= f; else a[i] = 0;
    }
};
inline double vdist(const Vec &a, const Vec &b) {
    if (a.size() != b.size()) return 1e300;
    double m = 0;
    for (size_t i = 0; i < a.size(); i++) {
        double d = std::abs(a[i] - b[i]);
        if (!(d <= m)) m = d;                         // NaN propagates
    }
    return m;
}

// matrix of a gate on n qubits, from its action on every basis state
inline Mat full(int n, const Mat &m, const std::vector<int> &t, const std::vector<Ctl> &c = {}) {
    int d = 1 << n;
    Mat r = mzero(d);
    for (int j = 0; j < d; j++) {
        Dense x(n);
        x.a[0] = 0;
        x.a[j] = 1;
        x.apply(m, t, c);
        for (int i = 0; i < d; i++) r[i][j] = x.a[i];
    }
    return r;
}

// ---- reading the engine's results through its public interface
inline Vec read_state(const vEdge &e) {
    std::size_t dim = 0;
    std_complex *p = e.getVector(&dim);
    Vec r(dim);
    for (size_t i = 0; i < dim; i++) r[i] = cd(p[i].r, p[i].i);
    delete[] p;
    return r;
}
inline Mat read_matrix(const mEdge &e, int n) {
    std::size_t dim = 0;
    std_complex **p = e.getMatrix(&dim, n);
    Mat r = mzero(dim);
    for (size_t i = 0; i < dim; i++) { for (size_t j = 0; j < dim; j++) r[i][j] = cd(p[i][j].r, p[i][j].i); delete[] p[i]; }
    delete[] p;
    return r;
}

// ---- random gates: the engine's edge and the reference's (matrix, targets, controls)
struct Gate {
    std::string name;
    Mat m;
    std::vector<int> t;
    std::vector<Ctl> c;
    std::function<mEdge()> make;
    int top() const { int x = 0; for (int q : t) x = std::max(x, q); for (auto &k : c) x = std::max(x, k.q); return x; }
};
inline GateMatrix g2(const Mat &m) { return {m[0][0], m[0][1], m[1][0], m[1][1]}; }
inline TwoQubitGateMatrix g4(const Mat &m) {
    TwoQubitGateMatrix r;
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r[i][j] = m[i][j];
    return r;
}
inline double rangle(Rng &r) {
    static const double nice[] = {0, PI, -PI, PI / 2, -PI / 2, PI / 4, 2 * PI, 4 * PI, 1e-7, -1e-5, 1e-3, 3 * PI / 2, 100.0};
    return r.chance(0.35) ? nice[r.below(13)] : r.real(-7, 7);
}
Gate random_gate(Rng &r, int n, int maxk = 3);
// A generator whose next 312 draws all are (nearly) u: rare outcomes on demand.
inline std::mt19937_64 rigged(double u) {
    uint64_t y = (uint64_t)std::ldexp(u, 64);
    auto unr = [](uint64_t z, int s) { uint64_t x = z; for (int i = 0; i < 64 / s + 1; i++) x = z ^ (x >> s); return x; };
    auto unl = [](uint64_t z, int s, uint64_t m) { uint64_t x = z; for (int i = 0; i < 64 / s + 1; i++) x = z ^ ((x << s) & m); return x; };
    uint64_t z = unr(y, 43);
    z = unl(z, 37, 0xfff7eee000000000ULL);
    z = unl(z, 17, 0x71d67fffeda60000ULL);
    uint64_t x = z;
    for (int i = 0; i < 4; i++) x = z ^ ((x >> 29) & 0x5555555555555555ULL);
    std::stringstream ss;
    for (int i = 0; i < 312; i++) ss << x << ' ';
    ss << 0;
    std::mt19937_64 g;
    ss >> g;
    std::mt19937_64 t = g;
    if (t() != y) { fprintf(stderr, "rigged generator does not work here\n"); exit(2); }
    return g;
}
inline double rare_u(Rng &r, double lo) {                            // near 0 or near 1, at every scale down to lo
    double u = std::pow(10.0, r.real(std::log10(lo), -0.3));
    return r.chance(0.5) ? u : 1 - u;
}
inline std::string ctl_str(const std::vector<Ctl> &c) {
    std::string s;
    for (auto &x : c) s += fmt("%s%d", x.pos ? " c" : " n", x.q);
    return s;
}
inline std::string gate_str(const Gate &g) {
    std::string s = g.name + "(";
    for (size_t i = 0; i < g.t.size(); i++) s += fmt(i ? ",%d" : "%d", g.t[i]);
    return s + ctl_str(g.c) + ")";
}
inline Controls ectl(const std::vector<Ctl> &c) {
    Controls r;
    for (auto &x : c) r.insert(Control{x.q, x.pos ? Control::Type::pos : Control::Type::neg});
    return r;
}
struct Named { const char *n; GateMatrix g; Mat m; };
inline const std::vector<Named> &named1() {
    static const double h = std::sqrt(0.5);
    static std::vector<Named> x = {
        {"h", Hmat, M2(h, h, h, -h)}, {"x", Xmat, rX()}, {"y", Ymat, rY()}, {"z", Zmat, rZ()},
        {"s", Smat, M2(1, 0, 0, I1)}, {"sdg", Sdagmat, M2(1, 0, 0, -I1)},
        {"t", Tmat, M2(1, 0, 0, ei(PI / 4))}, {"tdg", Tdagmat, M2(1, 0, 0, ei(-PI / 4))},
        {"sx", SXmat, M2(cd(.5, .5), cd(.5, -.5), cd(.5, -.5), cd(.5, .5))},
        {"sxdg", SXdagmat, M2(cd(.5, -.5), cd(.5, .5), cd(.5, .5), cd(.5, -.5))},
        {"v", Vmat, M2(h, -I1 * h, -I1 * h, h)}, {"vdg", Vdagmat, M2(h, I1 * h, I1 * h, h)},
        {"id", Imat, M2(1, 0, 0, 1)}};
    return x;
}
inline Gate random_gate(Rng &r, int n, int maxk) {
    Gate g;
    int kind = r.below(n >= 2 ? 10 : 4);
    auto controls = [&](int used_top, const std::vector<int> &q, int from) {
        for (size_t i = from; i < q.size(); i++) g.c.push_back({q[i], r.chance(0.5)});
    };
    if (kind == 0) {                                             // named gate
        auto &x = named1()[r.below(named1().size())];
        int q = r.below(n);
        g.name = x.n; g.m = x.m; g.t = {q};
        GateMatrix m = x.g;
        g.make = [=] { return makeGate(n, m, q); };
    } else if (kind == 1) {                                      // rotation, engine's own constructors
        int q = r.below(n), k = r.below(3);
        double a = rangle(r);
        g.t = {q};
        g.name = fmt("%s[%.17g]", k == 0 ? "RX" : k == 1 ? "RY" : "RZ", a);
        g.m = expi(k == 0 ? rX() : k == 1 ? rY() : rZ(), a);
        g.make = [=] { return k == 0 ? RX(n, q, a) : k == 1 ? RY(n, q, a) : RZ(n, q, a); };
    } else if (kind == 2) {                                      // parametrised one-qubit matrices
        int q = r.below(n), k = r.below(6);
        double a = rangle(r), b = rangle(r), c = rangle(r), d = rangle(r);
        g.t = {q};
        GateMatrix m;
        if (k == 0) { g.name = "u3"; m = u3(a, b, c); g.m = rU(a, b, c); }
        else if (k == 1) { g.name = "u2"; m = u2(a, b); g.m = rU(PI / 2, a, b); }
        else if (k == 2) { g.name = "u1"; m = u1(a); g.m = M2(1, 0, 0, ei(a)); }
        else if (k == 3) { g.name = "p"; m = p(a); g.m = M2(1, 0, 0, ei(a)); }
        else if (k == 4) {                                       // rotation about an axis in the XY plane
            g.name = "r"; m = ::r(a, b);
            g.m = M2(std::cos(a / 2), -I1 * ei(-b) * std::sin(a / 2), -I1 * ei(b) * std::sin(a / 2), std::cos(a / 2));
        } else {
            g.name = "u"; m = u(a, b, c, d); g.m = rU(a, b, c);
            for (auto &row : g.m) for (auto &x : row) x *= ei(d);
        }
        g.name += fmt("[%.17g,%.17g,%.17g,%.17g]", a, b, c, d);
        g.make = [=] { return makeGate(n, m, q); };
    } else if (kind == 3) {                                      // any 2x2 unitary
        int q = r.below(n);
        g.name = "unitary1"; g.m = runitary(r, 2); g.t = {q};
        GateMatrix m = g2(g.m);
        g.make = [=] { return makeGate(n, m, q); };
    } else if (kind == 4 || kind == 5) {                         // controlled one-qubit gates, both polarities
        int k = std::min(n, 1 + r.range(1, 4));
        auto q = r.distinct(n, k);
        auto &x = named1()[r.below(named1().size())];
        bool rnd = r.chance(0.4);
        g.m = rnd ? runitary(r, 2) : x.m;
        g.name = rnd ? "cunitary" : std::string("c-") + x.n;
        g.t = {q[0]};
        controls(0, q, 1);
        GateMatrix m = rnd ? g2(g.m) : x.g;
        int t = q[0];
        auto cs = g.c;
        g.make = [=] { return makeGate(n, m, t, ectl(cs)); };
    } else if (kind == 6) {                                      // engine's two-qubit constructors
        auto q = r.distinct(n, std::min(n, 3));
        int a = q[0], b = q[1], k = r.below(q.size() > 2 ? 9 : 8);
        double th = rangle(r);
        g.t = {a, b};                                            // t[0] least significant
        if (k == 0) { g.name = "CX"; g.m = rX(); g.t = {a}; g.c = {{b, true}}; g.make = [=] { return CX(n, a, b); }; }
        else if (k == 1) { g.name = "SWAP"; g.m = mzero(4); g.m[0][0] = g.m[3][3] = g.m[1][2] = g.m[2][1] = 1; g.make = [=] { return SWAP(n, a, b); }; }
        else if (k == 2) { g.name = "makeSwap"; g.m = mzero(4); g.m[0][0] = g.m[3][3] = g.m[1][2] = g.m[2][1] = 1; g.make = [=] { return makeSwap(n, a, b); }; }
        else if (k == 3) { g.name = "ISWAP"; g.m = mzero(4); g.m[0][0] = g.m[3][3] = 1; g.m[1][2] = g.m[2][1] = I1; g.make = [=] { return ISWAP(n, a, b); }; }
        else if (k == 4) { g.name = "RXX"; g.m = expi(kron(rX(), rX()), th); g.make = [=] { return RXX(n, a, b, th); }; }
        else if (k == 5) { g.name = "RYY"; g.m = expi(kron(rY(), rY()), th); g.make = [=] { return RYY(n, a, b, th); }; }
        else if (k == 6) { g.name = "RZZ"; g.m = expi(kron(rZ(), rZ()), th); g.make = [=] { return RZZ(n, a, b, th); }; }
        else if (k == 7) { g.name = "RZX"; g.t = {b, a}; g.m = mzero(0); g.make = [=] { return RZX(n, a, b, th); }; }
        else {
            int c = q[2];
            g.name = "CSWAP"; g.m = mzero(4); g.m[0][0] = g.m[3][3] = g.m[1][2] = g.m[2][1] = 1; g.c = {{c, true}};
            g.make = [=] { return CSWAP(n, a, b, c); };
        }
        if (k == 7) {
            // X on the first operand (the matrix's high bit), Z on the second
            g.t = {b, a};
            g.m = expi(kron(rX(), rZ()), th);
        }
        g.name += fmt("[%.17g]", th);
    } else if (kind == 7) {                                      // any 4x4 unitary, with controls
        int k = std::min(n, 2 + r.range(0, 2));
        auto q = r.distinct(n, k);
        g.m = runitary(r, 4);
        if (r.chance(0.25)) g.m = kron(runitary(r, 2), mident(2));
        g.name = "unitary2";
        g.t = {q[1], q[0]};                                      // matrix high bit = first target
        controls(0, q, 2);
        auto m = g4(g.m);
        int a = q[0], b = q[1];
        auto cs = g.c;
        g.make = [=] { return makeTwoQubitGate(n, m, a, b, ectl(cs)); };
    } else {                                                     // any 2^k x 2^k unitary on any qubits in any order
        int k = r.range(1, std::min(n, maxk));
        auto q = r.distinct(n, k);
        g.m = runitary(r, 1 << k);
        if (r.chance(0.2)) {                                     // a permutation: sparse, exact entries
            std::vector<int> pm(1 << k);
            std::iota(pm.begin(), pm.end(), 0);
            r.shuffle(pm);
            g.m = mzero(1 << k);
            for (int i = 0; i < 1 << k; i++) g.m[pm[i]][i] = r.chance(0.5) ? cd(1) : I1;
        }
        g.name = fmt("large%d", k);
        g.t = q;
        Mat m = g.m;
        g.make = [=] { ComplexMatrix cm(m); std::vector<Qubit> tt(q.begin(), q.end()); return makeLargeGate(n, cm, tt); };
    }
    return g;
}

inline uint64_t gate_hash(const Gate &g) { return hash_str(gate_str(g)); }
}  // namespace v
