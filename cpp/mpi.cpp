// Monitors of the distributed engine (isMPI builds), run under mpirun on 1, 2, 4 or 8 processes.
//   mpi <mode> <seed> <start> <count>
// Every rank draws the same program from the same seed and keeps the same dense reference; the parts
// of the distributed state are gathered on every rank, so that all ranks take the same decisions.
#include <fstream>
#include <iostream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/mpi.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include "vcommon.hpp"
using namespace v;
namespace bm = boost::mpi;

static const double TOL = 1e-9, LN = 32.0;
static bm::communicator *W;
static int RANK, NP, LG;

static bool lead() { return RANK == 0; }
static bool check(bool ok, const std::string &key, const std::string &text) {       // shared: rank 0 speaks
    if (lead()) { count("checks"); if (!ok) violation(key, text); }
    return ok;
}
static bool mine(bool ok, const std::string &key, const std::string &text) {         // this rank's own
    if (lead()) count("checks");
    if (!ok) violation(key, fmt("rank %d of %d: ", RANK, NP) + text);
    return ok;
}
static bool bernstein(double got, double n, double p) {
    double dev = std::abs(got - n * p), var = std::max(0.0, n * p * (1 - p));
    return dev <= std::sqrt(2 * var * LN) + 2 * LN / 3 + 1;
}
static Vec part_of(const vEdge &e, int local) {
    size_t dim = (size_t)1 << local;
    if (e.isTerminal()) return Vec(dim, cd(e.w.r, e.w.i) * (e.w.isZero() ? 0.0 : 1e99));
    return read_state(e);
}
static Vec gather(const vEdge &e, int local) {
    Vec p = part_of(e, local);
    std::vector<double> flat;
    for (auto &x : p) { flat.push_back(x.real()); flat.push_back(x.imag()); }
    std::vector<std::vector<double>> all;
    bm::all_gather(*W, flat, all);
    Vec out;
    for (auto &a : all) for (size_t i = 0; i + 1 < a.size(); i += 2) out.push_back(cd(a[i], a[i + 1]));
    return out;
}
static bool same(const vEdge &e, int local, const Vec &want, const std::string &key, const std::string &what, double tol = TOL) {
    double d = vdist(gather(e, local), want);
    return check(d <= tol, key, d <= tol ? "" : fmt("%d processes, %s: largest amplitude error %.3g", NP, what.c_str(), d));
}
static bool agree(const std::string &s, const std::string &key, const std::string &what) {
    std::vector<std::string> all;
    bm::all_gather(*W, s, all);
    bool ok = true;
    for (auto &x : all) ok = ok && x == all[0];
    return check(ok, key, ok ? "" : fmt("%d processes disagree, %s: ", NP, what.c_str()) + all[0].substr(0, 80) + " / " + s.substr(0, 80));
}
static std::string &log_() { static std::string s; return s; }
static void note(const std::string &s) { if (log_().size() < 1500) log_() += s + "; "; }

static int pick_n(Rng &r, int lo, int hi) { return std::max(LG + 1, r.range(lo, hi)); }

// A distributed state and its dense value, all ranks alike.
struct Dist { vEdge e; Dense d; int n, local; Dist(int n_) : d(n_), n(n_), local(n_ - LG) {} };

static vEdge apply_one(Rng &r, Dist &s, const Gate &g) {
    int top = g.top(), lq = r.chance(0.7) ? top : r.range(top, s.n - 1);
    bool bc = r.chance(0.5);
    note(gate_str(g) + (bc ? "b" : "r") + (lq != top ? fmt("<%d>", lq) : ""));
    mEdge m = g.make();
    vEdge e = bc ? mv_multiply_MPI_bcast3(m, s.e, *W, s.n, lq) : mv_multiply_MPI(m, s.e, *W, s.n, lq);
    s.d.apply(g.m, g.t, g.c);
    count("gates");
    if (top >= s.local) count("gates_across_ranks");
    return e;
}
static void start_state(Rng &r, Dist &s, bool normalised) {
    int style = r.below(4);
    s.d.a.assign(s.d.a.size(), 0);
    if (style == 0) { s.e = makeZeroStateMPI(s.n, *W); s.d.a[0] = 1; note("|0>"); }
    else if (style == 1) { s.e = makeOneStateMPI(s.n, *W); s.d.a.back() = 1; note("|1>"); }
    else {                                                           // any part on every rank, some of them zero
        std::vector<Vec> parts(NP);
        vEdge own = vEdge::zero;
        int alive = r.below(NP);
        for (int k = 0; k < NP; k++) {
            Dense p(s.local);
            if (k != alive && r.chance(style == 2 ? 0.5 : 0.1)) { parts[k] = Vec(p.a.size()); continue; }
            std::vector<Gate> gs;
            for (int i = r.range(0, 8); i--;) gs.push_back(random_gate(r, s.local, 2));
            cd w = r.chance(0.3) ? cd(1) : cd(r.real(-1, 1), r.real(-1, 1)) + cd(0.01, 0);
            vEdge e = makeZeroState(s.local);
            for (auto &g : gs) { p.apply(g.m, g.t, g.c); if (k == RANK) e = mv_multiply(g.make(), e); }
            for (auto &x : p.a) x *= w;
            parts[k] = p.a;
            if (k == RANK) { own = e; own.w *= std_complex(w.real(), w.imag()); }
        }
        for (int k = 0; k < NP; k++) for (size_t i = 0; i < parts[k].size(); i++) s.d.a[k * parts[k].size() + i] = parts[k][i];
        double f = normalised ? 1 / std::sqrt(s.d.norm()) : 1;
        for (auto &x : s.d.a) x *= f;
        own.w *= std_complex(f, 0);
        s.e = own;
        note(style == 2 ? "sparse parts" : "random parts");
    }
}
static void maybe_gc(Rng &r, Dist &s) {
    int k = r.below(12), who = r.below(NP);
    if (k == 0) { s.e = gc(s.e, true); note("gc"); }
    else if (k == 1) { if (RANK == who) s.e = gc(s.e, true); note(fmt("gc on rank %d", who)); }
    else if (k == 2) { gc_mat(std::vector<mEdge>{makeIdent(0)}, true); note("gc_mat"); }
}

// ------------------------------------------------------------------ mpigates
static void case_mpigates(Rng &r, long index) {
    int n = r.chance(0.04) ? pick_n(r, 10, 12) : pick_n(r, 2, 8);
    Dist s(n);
    start_state(r, s, false);
    std::string head = fmt("n=%d: ", n);
    if (!same(s.e, s.local, s.d.a, "mpi-start", head + log_())) return;
    double scale = 1;
    for (auto &x : s.d.a) scale = std::max(scale, std::abs(x));
    vEdge kept = s.e;
    Vec keptv = s.d.a;
    bool keep = r.chance(0.3);
    for (int i = r.range(1, 18); i--;) {
        Gate g = random_gate(r, n, 3);
        if (n <= 6 && r.chance(0.12)) {                              // a fused operator
            Gate h = random_gate(r, n, 3), f;
            f.name = gate_str(g) + "*" + gate_str(h);
            f.m = mmul(full(n, g.m, g.t, g.c), full(n, h.m, h.t, h.c));
            for (int q = 0; q < n; q++) f.t.push_back(q);
            f.make = [=] { return mm_multiply(g.make(), h.make()); };
            g = f;
        }
        s.e = apply_one(r, s, g);
        if (!keep) maybe_gc(r, s);
        if (r.chance(0.25) && !same(s.e, s.local, s.d.a, "mpi-gate", head + log_(), TOL * scale)) return;
    }
    if (!same(s.e, s.local, s.d.a, "mpi-gate", head + log_(), TOL * scale)) return;
    if (keep) same(kept, s.local, keptv, "mpi-kept", head + "the state before " + log_(), TOL * scale);
    // single-process agreement is part of the reference: the same program on an undivided state
    seen(hash_str(log_()) + NP);
    if (index % 40 == 0 && lead()) sample(fmt("%d processes, n=%d: ", NP, n) + log_().substr(0, 200));
}

// ------------------------------------------------------------------ mpiblocks: the sub-operators handed to the ranks
static void case_mpiblocks(Rng &shared, long index) {
    Rng r(shared.next() + 977 * RANK);
    int n = r.range(2, 7);
    Mat want = mident(1 << n);
    mEdge m = makeIdent(n - 1);
    std::string log;
    for (int i = r.range(1, 4); i--;) {
        Gate g = random_gate(r, n, 3);
        m = mm_multiply(g.make(), m);
        want = mmul(full(n, g.m, g.t, g.c), want);
        log += gate_str(g) + "; ";
    }
    if (r.chance(0.3)) { double a = r.real(-2, 2); m.w *= std_complex(a, 0.5); for (auto &row : want) for (auto &x : row) x *= cd(a, 0.5); }
    for (int lg = 0; lg < n && lg <= 4; lg++) {
        int w = 1 << lg, sz = 1 << (n - lg);
        for (int i = 0; i < w; i++) for (int j = 0; j < w; j++) {
            mEdge b = getMPIGate(m, i, j, w, n - 1);
            Mat got = read_matrix(b, n - lg);
            double d = (int)got.size() == sz ? 0 : 1e300;
            for (int x = 0; x < sz && d < 1e200; x++) for (int y = 0; y < sz; y++) d = std::max(d, std::abs(got[x][y] - want[i * sz + x][j * sz + y]));
            if (!mine(d < 1e-8, "mpi-block", d < 1e-8 ? "" : fmt("n=%d, block (%d,%d) of %dx%d is off by %.3g: ", n, i, j, w, w, d) + log)) return;
            if (lead()) count("blocks");
        }
    }
    seen(hash_str(log) + 31 * index);
    if (index % 200 == 0 && lead()) sample(fmt("n=%d: ", n) + log.substr(0, 200));
}

// ------------------------------------------------------------------ mpimeasure
static void case_mpimeasure(Rng &r, long index) {
    int n = pick_n(r, 2, 7);
    Dist s(n);
    start_state(r, s, true);
    for (int i = r.range(0, 12); i--;) { Gate g = random_gate(r, n, 3); s.e = apply_one(r, s, g); maybe_gc(r, s); }
    std::string head = fmt("n=%d: ", n);
    std::mt19937_64 mt(r.next() + 7 * RANK);                        // every process has its own generator
    if (!same(s.e, s.local, s.d.a, "mpi-gate", head + log_())) return;
    Vec before = s.d.a;
    // probabilities of all outcomes
    std::vector<double> p = probabilitiesMPI(*W, s.e);
    bool sized = p.size() == before.size();
    if (!mine(sized, "mpi-probabilities", fmt("n=%d: %zu entries: ", n, p.size()) + log_())) return;
    double m = 0;
    for (size_t i = 0; i < p.size(); i++) m = std::max(m, std::abs(p[i] - std::norm(before[i])));
    mine(m < TOL, "mpi-probabilities", fmt("n=%d: off by %.3g: ", n, m) + log_());
    // probability of every qubit
    for (int q = 0; q < n; q++) {
        double p0 = measureOneMPI(*W, s.e, q, n, mt), want = 1 - s.d.pone(q);
        mine(std::abs(p0 - want) < TOL, "mpi-probability", fmt("n=%d: qubit %d reads 0 with probability %.12g, expected %.12g: ", n, q, p0, want) + log_());
    }
    // samples
    int N = 1500;
    std::string all;
    std::vector<double> c(before.size());
    bool ok = true;
    for (int i = 0; i < N && ok; i++) {
        std::string o = measureAllMPI(*W, s.e, false, mt);
        all += o + " ";
        size_t x = 0;
        for (char ch : o) x = x * 2 + (ch == '1');
        ok = (int)o.size() == n && x < c.size();
        if (ok) c[x]++;
        ok = bm::all_reduce(*W, ok, std::logical_and<bool>());
    }
    if (!check(ok, "mpi-sample", head + "an outcome has the wrong length: " + all.substr(all.size() > 40 ? all.size() - 40 : 0) + log_())) return;
    agree(all, "mpi-sample-agree", "sampled outcomes, " + head + log_());
    count("samples", N);
    for (size_t x = 0; x < c.size(); x++) {
        double px = std::norm(before[x]);
        if (px < 1e-18) check(c[x] == 0, "mpi-sample-impossible", fmt("outcome %zu of probability %.3g drawn %.0f times: ", x, px, c[x]) + head + log_());
        else check(bernstein(c[x], N, px), "mpi-sample-distribution", fmt("%d processes: outcome %zu drawn %.0f of %d times, probability %.9g: ", NP, x, c[x], N, px) + head + log_());
    }
    // pairs of outcome bits: catches correlations that every single outcome's frequency hides
    if (!same(s.e, s.local, before, "mpi-sample-disturbs", head + log_())) return;
    // frequencies of single measurements, with and without collapse
    for (int k = 0; k < 2; k++) {
        int q = r.below(n), M = 300;
        double p1 = s.d.pone(q), ones = 0;
        bool col = r.chance(0.4);
        std::string outs;
        for (int i = 0; i < M; i++) {
            vEdge t = s.e;
            char o = measureOneCollapsingMPI(*W, t, q, n, mt, col);
            outs += o;
            ones += o == '1';
            if (i == 0) {
                Dense w = s.d;
                if (col && (o == '1' ? p1 : 1 - p1) > 1e-12) w.collapse(q, o == '1');
                double big = 0;
                for (auto &x : w.a) big = std::max(big, std::abs(x));
                if (!same(t, s.local, w.a, col ? "mpi-collapse" : "mpi-measure-disturbs", head + fmt("qubit %d measured %c: ", q, o) + log_(), 1e-8 * big)) return;
            }
        }
        agree(outs, "mpi-measure-agree", fmt("qubit %d: ", q) + head + log_());
        check(bernstein(ones, M, p1), "mpi-measure-frequency", fmt("%d processes: qubit %d was 1 in %.0f of %d measurements, probability %.9g: ", NP, q, ones, M, p1) + head + log_());
        count("measurements", M);
    }
    if (!same(s.e, s.local, before, "mpi-measure-disturbs", head + log_())) return;
    // a program of gates and measurements
    for (int i = r.range(3, 14); i--;) {
        if (r.chance(0.5)) { Gate g = random_gate(r, n, 3); s.e = apply_one(r, s, g); }
        else {
            int q = r.below(n);
            double p1 = s.d.pone(q);
            char o = measureOneCollapsingMPI(*W, s.e, q, n, mt);
            if (!agree(std::string(1, o), "mpi-measure-agree", fmt("qubit %d: ", q) + head + log_())) return;
            double po = o == '1' ? p1 : 1 - p1;
            if (!check(po > 1e-15, "mpi-measure-impossible", fmt("qubit %d read %c, probability %.3g: ", q, o, po) + head + log_())) return;
            if (po < 1e-6) return;                                  // too improbable to follow numerically
            s.d.collapse(q, o == '1');
            note(fmt("measure %d=%c", q, o));
            if (!same(s.e, s.local, s.d.a, "mpi-collapse", head + log_(), 1e-8)) return;
            char again = r.chance(0.3) ? measureOneCollapsingMPI(*W, s.e, q, n, mt) : o;
            check(again == o, "mpi-measure-repeat", fmt("qubit %d read %c, then %c: ", q, o, again) + head + log_());
        }
        maybe_gc(r, s);
    }
    same(s.e, s.local, s.d.a, "mpi-collapse", head + log_(), 1e-8);
    seen(hash_str(log_()) + NP);
    if (index % 20 == 0 && lead()) sample(fmt("%d processes, n=%d: ", NP, n) + log_().substr(0, 200));
}

// Rare outcomes, brought about by the generator that is handed in.
static void case_mpirare(Rng &r, long index) {
    int n = pick_n(r, 2, 6);
    Dist s(n);
    bool plain = r.chance(0.5);
    if (plain) { s.d.a.assign(s.d.a.size(), 0); s.e = makeZeroStateMPI(n, *W); s.d.a[0] = 1; note("|0>"); }
    else start_state(r, s, true);
    auto tilt = [&] {
        int q = r.below(n), k = r.below(2);
        double a = std::pow(10.0, r.real(-3.5, -0.2)) * (r.chance(0.5) ? 1 : -1) + (r.below(4) == 0 ? PI : 0);
        s.e = apply_one(r, s, {fmt("%s[%.17g]", k ? "RX" : "RY", a), expi(k ? rX() : rY(), a), {q}, {}, [=] { return k ? RX(n, q, a) : RY(n, q, a); }});
    };
    for (int i = r.range(1, 2 * n); i--;) { if (r.chance(0.6)) tilt(); else { Gate g = random_gate(r, n, 2); s.e = apply_one(r, s, g); } }
    std::string head = fmt("n=%d: ", n);
    if (!same(s.e, s.local, s.d.a, "mpi-gate", head + log_())) return;
    int rare = 0;
    for (int i = 0; i < 20; i++) {
        if (r.chance(0.25)) {
            auto mt = rigged(rare_u(r, 0.02));
            std::string o = measureAllMPI(*W, s.e, false, mt);
            if (!agree(o, "mpi-rare-agree", head + log_())) return;
            size_t x = 0;
            for (char ch : o) x = x * 2 + (ch == '1');
            if (!check((int)o.size() == n && x < s.d.a.size(), "mpi-rare-form", "outcome '" + o + "': " + head + log_())) return;
            check(std::norm(s.d.a[x]) > 1e-16, "mpi-rare-impossible", fmt("outcome %s of probability %.3g: ", o.c_str(), std::norm(s.d.a[x])) + head + log_());
            if (std::norm(s.d.a[x]) < 1e-3) rare++;
        } else {
            auto mt = rigged(rare_u(r, 1e-8));
            int q = r.below(n);
            vEdge t = s.e;
            char c = measureOneCollapsingMPI(*W, t, q, n, mt, true);
            double p1 = s.d.pone(q), pc = c == '1' ? p1 : 1 - p1;
            if (!agree(std::string(1, c), "mpi-rare-agree", head + log_())) return;
            if (!check(pc > 1e-13, "mpi-rare-impossible", fmt("qubit %d read %c, of probability %.3g: ", q, c, pc) + head + log_())) return;
            if (pc < 1e-3) rare++;
            Dense w = s.d;
            w.collapse(q, c == '1');
            double tol = 1e-9 + 1e-10 / std::sqrt(pc);
            if (!same(t, s.local, w.a, "mpi-rare-collapse", fmt("qubit %d measured %c (probability %.3g): ", q, c, pc) + head + log_(), tol)) return;
            double p0 = measureOneMPI(*W, t, q, n, mt);
            mine(std::abs(p0 - (c == '0')) < 1e-9, "mpi-rare-repeat", fmt("qubit %d read %c, then 0 has probability %.12g: ", q, c, p0) + head + log_());
            if (r.chance(0.3) && pc > 1e-6) {
                s.e = t;
                s.d = w;
                note(fmt("measure %d=%c", q, c));
                tilt();
                Vec a = gather(s.e, s.local);
                if (!check(vdist(a, s.d.a) <= 10 * tol, "mpi-rare-continue", head + log_())) return;
                s.d.a = a;
            }
            maybe_gc(r, s);
        }
        count("measurements");
    }
    if (lead()) count("rare_outcomes", rare);
    seen(hash_str(log_()) + NP);
    if (index % 20 == 0 && lead()) sample(fmt("%d processes, n=%d: ", NP, n) + log_().substr(0, 200));
}

// ------------------------------------------------------------------ mpiprint: the printed form of a distributed state
static std::string capture(const std::function<void()> &f) {
    std::string path = std::string(getenv("QDD_SCRATCH") ? getenv("QDD_SCRATCH") : "/tmp") + fmt("/print%d", RANK);
    std::cout.flush(); fflush(stdout);
    int old = dup(1), fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 1); close(fd);
    f();
    std::cout.flush(); fflush(stdout);
    dup2(old, 1); close(old);
    std::ifstream in(path);
    std::stringstream ss;
    ss << in.rdbuf();
    unlink(path.c_str());
    return ss.str();
}
static void case_mpiprint(Rng &r, long index) {
    int n = pick_n(r, 2, 6);
    Dist s(n);
    start_state(r, s, false);
    for (int i = r.range(0, 8); i--;) { Gate g = random_gate(r, n, 3); s.e = apply_one(r, s, g); }
    std::string txt = capture([&] { s.e.printVectorMPI(*W); });
    bool all_ok = true;
    std::string why;
    if (lead()) {
        std::stringstream ss(txt);
        std::string line;
        Vec got;
        while (std::getline(ss, line)) {
            if (line == "(all 0)") { got.resize(got.size() + ((size_t)1 << s.local)); continue; }
            double a = 0, b = 0;
            int used = 0;
            if (sscanf(line.c_str(), " ( %lf , %lf )%n", &a, &b, &used) == 2 || sscanf(line.c_str(), "(%lf,%lf)", &a, &b) == 2) got.push_back(cd(a, b));
            else if (sscanf(line.c_str(), " ( %lf , %lfi )", &a, &b) == 2) got.push_back(cd(a, b));
            else if (!line.empty()) why = "unreadable line " + line;
        }
        double d = vdist(got, s.d.a), big = 1;
        for (auto &x : s.d.a) big = std::max(big, std::abs(x));
        if (!(d <= 2e-5 * big)) { all_ok = false; why += fmt(" %zu entries, error %.3g", got.size(), d); }
    } else all_ok = txt.empty();
    mine(all_ok, "mpi-print", fmt("n=%d: printed form differs (%s): ", n, why.c_str()) + log_());
    if (lead()) count("prints");
    seen(hash_str(log_()) + NP);
    if (index % 50 == 0 && lead()) sample(fmt("%d processes, n=%d: ", NP, n) + log_().substr(0, 120) + " -> " + txt.substr(0, 80));
}

// ------------------------------------------------------------------ transport: files, messages, archives
struct Obj { vEdge e; Vec want; std::string log; int n; };
static Obj random_object(Rng &r) {
    Obj o;
    o.n = r.chance(0.03) ? r.range(11, 13) : r.range(1, 9);
    Dense d(o.n);
    vEdge s = makeZeroState(o.n);
    int style = r.below(7);
    if (style == 0) { o.log = "|0..0>; "; }
    else if (style == 1) { s = makeOneState(o.n); d.a[0] = 0; d.a.back() = 1; o.log = "|1..1>; "; }
    else if (style == 2) {                                           // heavily shared: uniform with a few marks
        for (int q = 0; q < o.n; q++) { Gate g{"h", M2(std::sqrt(.5), std::sqrt(.5), std::sqrt(.5), -std::sqrt(.5)), {q}, {}, [=, n = o.n] { return makeGate(n, Hmat, q); }}; s = mv_multiply(g.make(), s); d.apply(g.m, g.t); }
        o.log = "uniform; ";
    }
    for (int i = style == 0 || style == 1 ? 0 : r.range(0, 12); i--;) {
        Gate g = random_gate(r, o.n, 3);
        s = mv_multiply(g.make(), s);
        d.apply(g.m, g.t, g.c);
        o.log += gate_str(g) + "; ";
    }
    cd w = style == 6 ? cd(r.real(-3, 3), r.real(-3, 3)) : style == 5 ? cd(std::ldexp(1.0, -r.range(1, 60)), 0) : cd(1);
    s.w *= std_complex(w.real(), w.imag());
    for (auto &x : d.a) x *= w;
    if (style == 6 || style == 5) o.log += fmt("times (%.6g,%.6g); ", w.real(), w.imag());
    o.e = s;
    o.want = d.a;
    if (style == 4 && r.chance(0.3)) {                               // terminal only
        o.e = r.chance(0.5) ? vEdge::zero : vEdge::one;
        o.want = {};
        o.log = o.e.w.isZero() ? "zero terminal" : "one terminal";
    }
    return o;
}
static bool holds(const vEdge &e, const Obj &o, const std::string &how) {
    if (o.want.empty()) return mine(e.isTerminal() && e.n == vEdge::zero.n && e.w.r == o.e.w.r && e.w.i == o.e.w.i, "transport-" + how, "a terminal became something else: " + o.log);
    if (e.isTerminal()) return mine(false, "transport-" + how, "became a terminal: " + o.log);
    double big = 0, d = vdist(read_state(e), o.want);
    for (auto &x : o.want) big = std::max(big, std::abs(x));
    return mine(d <= 1e-9 * big, "transport-" + how, d <= 1e-9 * big ? "" : fmt("n=%d: error %.3g of %.3g: ", o.n, d, big) + o.log);
}
static void compute_with(Rng &r, vEdge e, const Obj &o, const std::string &how) {
    if (o.want.empty()) return;
    Obj t = o;
    Dense d(o.n);
    d.a = o.want;
    for (int i = r.range(1, 4); i--;) { Gate g = random_gate(r, o.n, 3); e = mv_multiply(g.make(), e); d.apply(g.m, g.t, g.c); t.log += gate_str(g) + "; "; }
    t.want = d.a;
    holds(e, t, how + "-continued");
    vEdge sum = vv_add(e, o.e);
    for (size_t i = 0; i < d.a.size(); i++) t.want[i] += o.want[i];
    double big = 0, b0 = 0;
    for (auto &x : t.want) big = std::max(big, std::abs(x));
    for (auto &x : o.want) b0 = std::max(b0, std::abs(x));
    if (big > 1e-3 * b0) holds(sum, t, how + "-added");
}
static void case_transport(Rng &shared, long index) {
    uint64_t base = shared.next();
    auto rng_of = [&](int rank) { return Rng(base + 104729 * (uint64_t)rank); };
    Rng r = rng_of(RANK);
    Obj o = random_object(r);                                        // my object
    int from = (RANK + NP - 1) % NP, to = (RANK + 1) % NP;
    std::string dir = getenv("QDD_SCRATCH") ? getenv("QDD_SCRATCH") : "/tmp";
    auto file = [&](int k) { return dir + fmt("/state%d", k); };
    auto value_of = [&](int rank) { Rng q = rng_of(rank); return random_object(q); };     // what that rank holds
    bool scrub = shared.chance(0.5);
    Rng r2(base * 31 + RANK);
    // files
    capture([&] { save_binary(o.e, file(RANK)); });
    if (!holds(o.e, o, "file-original")) {}
    holds(load_binary(file(RANK)), o, "file");
    W->barrier();
    if (scrub) { o.e = gc(o.e, true); gc_mat(std::vector<mEdge>{makeIdent(0)}, true); }
    vEdge other = load_binary(file(from));
    W->barrier();
    unlink(file(RANK).c_str());
    Obj theirs = value_of(from);
    holds(other, theirs, "file-other");
    compute_with(r2, other, theirs, "file-other");
    // messages
    if (NP > 1) {
        bool blocking = shared.chance(0.5);
        vEdge got;
        if (!blocking || RANK % 2 == 0) { send_dd(*W, o.e, to, blocking); got = receive_dd(*W, from, blocking); }
        else { got = receive_dd(*W, from, blocking); send_dd(*W, o.e, to, blocking); }
        holds(got, theirs, "message");
        compute_with(r2, got, theirs, "message");
        holds(o.e, o, "message-original");
        if (lead()) count("messages", NP);
        if (shared.chance(0.3)) {                                     // several on their way at once, tables scrubbed meanwhile
            int many = shared.range(2, 5);
            for (int k = 0; k < many; k++) send_dd(*W, o.e, to, false);
            if (shared.chance(0.5)) { o.e = gc(o.e, true); other = got = vEdge::one; }
            std::vector<vEdge> all;
            for (int k = 0; k < many; k++) all.push_back(receive_dd(*W, from, shared.chance(0.5)));
            for (vEdge &x : all) holds(x, theirs, "message-many");
            if (lead()) count("messages", NP * many);
        }
    }
    // several processes send to one, which takes the states in an order of its own choosing
    if (NP > 2) {
        int hub = shared.below(NP), each = shared.range(1, 2);
        std::vector<int> order;
        for (int k = 0; k < each; k++) for (int q = 0; q < NP; q++) if (q != hub) order.push_back(q);
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[shared.below((int)i)]);
        int late = shared.chance(0.2) ? shared.below(NP) : -1;       // one sender comes late
        auto sent_by = [&](int rank, int k) { Rng q(base * 7 + 15485863 * (uint64_t)(rank * 2 + k)); return random_object(q); };
        if (RANK != hub) {
            if (RANK == late) usleep(3000);
            for (int k = 0; k < each; k++) { Obj s = sent_by(RANK, k); send_dd(*W, s.e, hub); holds(s.e, s, "fan-in-original"); }
        } else {
            std::vector<int> nth(NP, 0);
            std::vector<std::pair<vEdge, Obj>> all;
            for (int q : order) { vEdge g = receive_dd(*W, q); all.push_back({g, sent_by(q, nth[q]++)}); }
            for (auto &[g, s] : all) holds(g, s, "fan-in");
            count("messages", (long)order.size());
        }
    }
    // archives, of states and of operators
    bool text = shared.chance(0.5);
    {
        std::stringstream ss;
        vEdge back;
        if (text) { { boost::archive::text_oarchive oa(ss); oa << o.e; } boost::archive::text_iarchive ia(ss); ia >> back; }
        else { { boost::archive::binary_oarchive oa(ss); oa << o.e; } boost::archive::binary_iarchive ia(ss); ia >> back; }
        holds(back, o, text ? "text-archive" : "binary-archive");
        compute_with(r2, back, o, text ? "text-archive" : "binary-archive");
        holds(o.e, o, "archive-original");
    }
    {
        int n = r2.range(1, 5);
        Mat want = mident(1 << n);
        mEdge m = makeIdent(n - 1);
        std::string log;
        for (int i = r2.range(0, 4); i--;) { Gate g = random_gate(r2, n, 3); m = mm_multiply(g.make(), m); want = mmul(full(n, g.m, g.t, g.c), want); log += gate_str(g) + "; "; }
        std::stringstream ss;
        mEdge back;
        if (text) { { boost::archive::text_oarchive oa(ss); oa << m; } boost::archive::text_iarchive ia(ss); ia >> back; }
        else { { boost::archive::binary_oarchive oa(ss); oa << m; } boost::archive::binary_iarchive ia(ss); ia >> back; }
        double d = mdist(read_matrix(back, n), want);
        mine(d < 1e-9, "transport-operator", fmt("n=%d, %s archive: error %.3g: ", n, text ? "text" : "binary", d) + log);
        Dense x(n);
        Gate g = random_gate(r2, n, 2);
        x.apply(g.m, g.t, g.c);
        Vec y(x.a.size());
        for (size_t i = 0; i < y.size(); i++) for (size_t j = 0; j < y.size(); j++) y[i] += want[i][j] * x.a[j];
        vEdge v = mv_multiply(back, mv_multiply(g.make(), makeZeroState(n)));
        mine(vdist(read_state(v), y) < 1e-9, "transport-operator", fmt("n=%d: the restored operator acts differently: ", n) + log);
    }
    if (lead()) count("round_trips", 4 * NP);
    // the factor that normalises a distributed state
    {
        int n = pick_n(shared, 2, 6);
        Dist s(n);
        start_state(shared, s, false);
        double f = adjust_weight(*W, s.e), want = 1 / std::sqrt(s.d.norm());
        mine(std::abs(f - want) <= 1e-9 * want, "adjust-weight", fmt("n=%d: factor %.12g, expected %.12g: ", n, f, want) + log_());
    }
    seen(hash_str(o.log) + 131 * NP + text);
    if (index % 50 == 0 && lead()) sample(fmt("%d processes, n=%d: ", NP, o.n) + o.log.substr(0, 200));
}

// More nodes than small counters hold.
static void case_biggies(Rng &shared, long index) {
    Rng r(shared.next() + 977 * RANK);
    auto draw = [](uint64_t seed) {
        Rng q(seed);
        Vec a((size_t)1 << 16);
        double s = 0;
        for (auto &x : a) { x = cd(q.real(-1, 1), q.real(-1, 1)) + cd(0.01, 0); s += std::norm(x); }
        for (auto &x : a) x /= std::sqrt(s);
        return a;
    };
    auto build = [](const Vec &a) {
        std::vector<vEdge> e(a.size());
        for (size_t i = 0; i < a.size(); i++) e[i] = vEdge{std_complex(a[i].real(), a[i].imag()), vEdge::one.n};
        for (int q = 0; e.size() > 1; q++) {
            std::vector<vEdge> f(e.size() / 2);
            for (size_t i = 0; i < f.size(); i++) f[i] = makeVEdge(q, {e[2 * i], e[2 * i + 1]});
            e.swap(f);
        }
        return e[0];
    };
    uint64_t base = shared.next();
    Obj o;
    o.n = 16;
    o.want = draw(base + RANK);
    o.e = build(o.want);
    o.log = "dense random state on 16 qubits";
    int from = (RANK + NP - 1) % NP, to = (RANK + 1) % NP;
    Obj theirs = o;
    theirs.want = draw(base + from);
    std::string dir = getenv("QDD_SCRATCH") ? getenv("QDD_SCRATCH") : "/tmp";
    auto file = [&](int k) { return dir + fmt("/big%d", k); };
    capture([&] { save_binary(o.e, file(RANK)); });
    W->barrier();
    vEdge other = load_binary(file(from));
    W->barrier();
    unlink(file(RANK).c_str());
    holds(other, theirs, "file-other");
    if (NP > 1) {
        vEdge got;
        bool blocking = shared.chance(0.5);
        if (!blocking || RANK % 2 == 0) { send_dd(*W, o.e, to, blocking); got = receive_dd(*W, from, blocking); }
        else { got = receive_dd(*W, from, blocking); send_dd(*W, o.e, to, blocking); }
        holds(got, theirs, "message");
    }
    // a distributed state of that size, and gates that send parts of it around
    Dist s(16 + LG);
    for (int k = 0; k < NP; k++) { Vec a = draw(base + k); std::copy(a.begin(), a.end(), s.d.a.begin() + ((size_t)k << 16)); }
    s.e = o.e;
    for (int i = 0; i < 2; i++) {
        int q = r.below(1) + shared.range(14, s.n - 1);
        double a = shared.real(0.3, 2.8);
        s.e = apply_one(shared, s, {fmt("RY[%.17g]", a), expi(rY(), a), {q}, {}, [=, n = s.n] { return RY(n, q, a); }});
        same(s.e, s.local, s.d.a, "mpi-gate", "dense random parts: " + log_(), TOL * 100);
    }
    seen(base);
    if (lead()) { count("large_objects", NP); sample(fmt("%d processes: ", NP) + o.log); }
    gc(std::vector<vEdge>{makeZeroState(1)}, true);
}

int main(int argc, char **argv) {
    bm::environment env(argc, argv);
    bm::communicator world;
    W = &world; RANK = world.rank(); NP = world.size();
    for (LG = 0; (1 << LG) < NP;) LG++;
    std::map<std::string, std::function<void(Rng &, long)>> modes = {
        {"mpigates", case_mpigates}, {"mpiblocks", case_mpiblocks}, {"mpimeasure", case_mpimeasure}, {"mpirare", case_mpirare}, {"mpiprint", case_mpiprint},
        {"transport", case_transport}, {"biggies", case_biggies}};
    if (argc < 5 || !modes.count(argv[1])) { fprintf(stderr, "usage: mpi mode seed start count\n"); return 2; }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    long start = atol(argv[3]), cnt = atol(argv[4]);
    for (long i = start; i < start + cnt; i++) {
        if (lead()) begin_case(mode, seed, i); else cur() = {mode, seed, i};
        Rng r(seed * 1000003ULL + (uint64_t)i * 7919ULL + hash_str(mode) + 13 * NP);
        log_().clear();
        modes[mode](r, i);
        if (lead()) count("cases");
        if (i % 16 == 15) { gc(std::vector<vEdge>{makeZeroState(1)}, true); gc_mat(std::vector<mEdge>{makeIdent(0)}, true); }
        if (bm::all_reduce(world, nviol(), std::plus<long>()) > 20) break;
    }
    if (lead()) finish(mode);
    else fflush(evf());
    world.barrier();
    return 0;
}
