// Monitors of the multi-threaded engine (isMT builds).
//   mt <mode> <seed> <start> <count>
#include <iostream>
#include <thread>
#include "vcommon.hpp"
#include "task.h"
#include <boost/fiber/all.hpp>
using namespace v;

// counts fibers taken from another worker (a hook; absent builds report none)
extern std::atomic<unsigned long> qdd_verif_steals __attribute__((weak));
oneapi::tbb::enumerable_thread_specific<std::chrono::duration<double, std::micro>> steal_timer;

static const double TOL = 1e-9;
static void check(bool ok, const std::string &key, const std::string &text) {
    count("checks");
    if (!ok) violation(key, text);
}
static bool same(const Vec &got, const Vec &want, double tol, const std::string &key, const std::string &what) {
    double d = vdist(got, want);
    check(d <= tol, key, d <= tol ? "" : fmt("%s: dimension %zu/%zu, largest amplitude error %.3g", what.c_str(), got.size(), want.size(), d));
    return d <= tol;
}
struct Steals {
    unsigned long at = &qdd_verif_steals ? qdd_verif_steals.load() : 0;
    ~Steals() { if (&qdd_verif_steals) count("fibers_stolen", (long)(qdd_verif_steals.load() - at)); }
};

// ------------------------------------------------------------------ mtevolve: results under the worker pool
static void case_mtevolve(Rng &r, long index) {
    static const int ws[] = {1, 2, 3, 3, 5, 7, 7, 15};
    int n = r.range(6, 11), w = ws[r.below(8)];
    std::mt19937_64 mt(r.next());
    std::string log;
    auto random_step = [&](vEdge &s, Dense &d, int nn) {
        Gate g = random_gate(r, nn, 3);
        s = mv_multiply(g.make(), s);
        d.apply(g.m, g.t, g.c);
        if (log.size() < 1200) log += gate_str(g) + "; ";
        count("gates");
    };
    Dense before(n), d(n);
    vEdge sb = makeZeroState(n), s = makeZeroState(n);
    bool keep = r.chance(0.5);
    if (keep) for (int i = 0; i < 6; i++) random_step(sb, before, n);      // computed before the pool starts
    {
        Steals st;
        Scheduler pool(w);
        int depth = r.range(8, 30);
        for (int q = 0; q < n; q++) {
            if (r.chance(0.3)) continue;
            double a = r.real(0, 3);
            s = mv_multiply(RY(n, q, a), s);
            d.apply(expi(rY(), a), {q});
        }
        for (int i = 0; i < depth; i++) {
            random_step(s, d, n);
            if (r.chance(0.06)) {
                if (r.chance(0.5)) { auto o = gc(std::vector<vEdge>{s, sb}, true); s = o[0]; sb = o[1]; log += "gc; "; }
                else { gc_mat(std::vector<mEdge>{makeIdent(0)}, true); log += "gc_mat; "; }
            }
            if (r.chance(0.05)) {
                int q = r.below(n);
                double p1 = d.pone(q), p0 = measureOne(s, q, mt);
                check(std::abs(p0 - (1 - p1)) < TOL, "mt-probability", fmt("n=%d workers=%d qubit %d: %.12g, expected %.12g: ", n, w, q, p0, 1 - p1) + log);
                if (p1 > 1e-6 && p1 < 1 - 1e-6) { char c = measureOneCollapsing(s, q, mt); d.collapse(q, c == '1'); log += fmt("measure %d=%c; ", q, c); }
            }
            if (r.chance(0.1) && !same(read_state(s), d.a, TOL, "mt-state", fmt("n=%d workers=%d: ", n, w) + log)) return;
        }
        if (!same(read_state(s), d.a, TOL, "mt-state", fmt("n=%d workers=%d: ", n, w) + log)) return;
        auto p = probabilities(s);
        double m = p.size() == d.a.size() ? 0 : 1;
        for (size_t i = 0; i < p.size() && m < 1; i++) m = std::max(m, std::abs(p[i] - std::norm(d.a[i])));
        check(m < TOL, "mt-probabilities", fmt("n=%d workers=%d: probabilities off by %.3g: ", n, w, m) + log);
        // sums at the top level are split over the workers too
        Dense e(n);
        vEdge t = makeZeroState(n);
        for (int i = 0; i < 5; i++) random_step(t, e, n);
        vEdge sum = vv_add(s, t);
        Vec want(d.a);
        double big = 0;
        for (size_t i = 0; i < want.size(); i++) { want[i] += e.a[i]; big = std::max(big, std::abs(want[i])); }
        if (big > 1e-3) same(read_state(sum), want, TOL, "mt-sum", fmt("n=%d workers=%d: ", n, w) + log);
        count("pools");
    }
    // after the pool has stopped
    if (!same(read_state(s), d.a, TOL, "mt-state", fmt("n=%d workers=%d, after the pool stopped: ", n, w) + log)) return;
    if (keep) same(read_state(sb), before.a, TOL, "mt-kept", fmt("n=%d workers=%d, state from before the pool: ", n, w) + log);
    for (int i = 0; i < 4; i++) random_step(s, d, n);
    same(read_state(s), d.a, TOL, "mt-state", fmt("n=%d workers=%d, continued without the pool: ", n, w) + log);
    for (int i = 0; i < 200; i++) {
        std::string o = measureAll(s, false, mt);
        size_t x = 0;
        for (char c : o) x = x * 2 + (c == '1');
        if (!((int)o.size() == n && std::norm(d.a[x]) > 1e-20)) { check(false, "mt-sample", "impossible outcome " + o + ": " + log); break; }
    }
    seen(hash_str(log) + w);
    if (index % 37 == 0) sample(fmt("n=%d workers=%d: ", n, w) + log.substr(0, 200));
    gc(std::vector<vEdge>{makeZeroState(1)}, true);
    gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
}

// ------------------------------------------------------------------ mtreuse: one pool, the same gates on ever new states, collections in between
static void case_mtreuse(Rng &r, long index) {
    static const int ws[] = {1, 2, 3, 5, 7, 7};
    int n = r.range(6, 10), w = ws[r.below(6)];
    std::vector<Gate> gs;
    std::vector<mEdge> made;
    std::string log;
    for (int i = r.range(3, 8); i--;) { gs.push_back(random_gate(r, n, 3)); log += gate_str(gs.back()) + "; "; }
    std::string head = fmt("n=%d workers=%d: ", n, w) + log;
    Steals st;
    Scheduler pool(w);
    for (auto &g : gs) made.push_back(g.make());
    int rounds = r.range(8, 25);
    bool drop = r.chance(0.3);                                              // gates are collected and made again too
    std::vector<std::pair<vEdge, Vec>> kept;
    for (int k = 0; k < rounds; k++) {
        Dense d(n), e(n);
        vEdge s = makeZeroState(n), t = makeZeroState(n);
        for (int q = 0; q < n; q++) {
            double a = r.real(0.2, 2.9);
            mEdge g = RY(n, q, a);
            s = mv_multiply(g, s); d.apply(expi(rY(), a), {q});
            if (q % 2) { t = mv_multiply(g, t); e.apply(expi(rY(), a), {q}); }
        }
        for (size_t i = 0; i < gs.size(); i++) {
            s = mv_multiply(made[i], s);
            d.apply(gs[i].m, gs[i].t, gs[i].c);
            if (i == 1 && r.chance(0.5)) { auto o = gc(std::vector<vEdge>{s, t}, true); s = o[0]; t = o[1]; kept.clear(); }
        }
        if (!same(read_state(s), d.a, TOL, "mt-reuse", head + fmt("round %d", k))) return;
        vEdge sum = vv_add(s, t);
        Vec want(d.a);
        double big = 0;
        for (size_t i = 0; i < want.size(); i++) { want[i] += e.a[i]; big = std::max(big, std::abs(want[i])); }
        if (big > 1e-3 && !same(read_state(sum), want, TOL, "mt-reuse-sum", head + fmt("round %d", k))) return;
        std::vector<vEdge> keep;
        if (r.chance(0.3)) kept.push_back({s, d.a});
        if (kept.size() > 3) kept.erase(kept.begin());
        for (auto &x : kept) keep.push_back(x.first);
        if (keep.empty()) keep.push_back(makeZeroState(1));
        if (r.chance(0.7)) {
            auto o = gc(keep, true);
            for (size_t i = 0; i < kept.size(); i++) kept[i].first = o[i];
        }
        if (drop && r.chance(0.5)) {
            gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
            made.clear();
            for (auto &g : gs) made.push_back(g.make());
        }
        for (auto &x : kept) if (!same(read_state(x.first), x.second, TOL, "mt-reuse-kept", head + fmt("round %d", k))) return;
        count("rounds");
    }
    seen(hash_str(log) + w);
    if (index % 37 == 0) sample(head.substr(0, 250));
}

// ------------------------------------------------------------------ mtlarge: registers beyond dense comparison, sequential rerun as oracle
static void case_mtlarge(Rng &r, long index) {
    int n = r.range(12, 40), w = r.range(1, 7);
    std::vector<Gate> gates;
    std::string log;
    // a shallow entangler keeps the diagram small while every level is visited
    for (int q = 0; q < n; q++) if (r.chance(0.8)) { double a = r.real(0.1, 3); Gate g; g.make = [=] { return RY(n, q, a); }; g.name = fmt("RY%d", q); gates.push_back(g); }
    for (int i = 0; i < n / 2; i++) { int a = r.below(n - 1), b = a + 1; Gate g; bool f = r.chance(0.5); g.make = [=] { return f ? CX(n, a, b) : RZZ(n, a, b, 0.37 * (a + 1)); }; g.name = fmt("%s%d", f ? "cx" : "rzz", a); gates.push_back(g); }
    for (auto &g : gates) log += g.name + " ";
    auto run = [&] { vEdge s = makeZeroState(n); for (auto &g : gates) s = mv_multiply(g.make(), s); return s; };
    auto amps = [&](vEdge s, uint64_t seed) {
        Rng q(seed);
        Vec out;
        for (int k = 0; k < 64; k++) {
            vEdge e = s;
            cd a = 1;
            for (int l = n - 1; l >= 0 && !(e.w.isZero()); l--) { a *= cd(e.w.r, e.w.i); if (e.isTerminal()) break; e = e.n->children[q.below(2)]; if (l == 0) a *= cd(e.w.r, e.w.i); }
            out.push_back(e.w.isZero() ? cd(0) : a);
        }
        return out;
    };
    Vec par, seq;
    uint64_t seed = r.next();
    {
        Steals st;
        Scheduler pool(w);
        vEdge s = run();
        par = amps(s, seed);
    }
    gc(std::vector<vEdge>{makeZeroState(1)}, true);
    gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
    vEdge s = run();
    seq = amps(s, seed);
    double m = 0, e = 0;
    for (size_t i = 0; i < seq.size(); i++) { m = std::max(m, std::abs(seq[i])); e = std::max(e, std::abs(seq[i] - par[i])); }
    check(e <= 1e-9 * m, "mt-large", fmt("n=%d workers=%d: multi-threaded and sequential amplitudes differ by %.3g of %.3g: ", n, w, e, m) + log);
    seen(hash_str(log) + w);
    count("gates", 2 * gates.size());
    if (index % 17 == 0) sample(fmt("n=%d workers=%d: ", n, w) + log.substr(0, 160));
    gc(std::vector<vEdge>{makeZeroState(1)}, true);
    gc_mat(std::vector<mEdge>{makeIdent(0)}, true);
}

// ------------------------------------------------------------------ lifecycle: start and stop
static void case_lifecycle(Rng &r, long index) {
    int w = r.chance(0.15) ? r.range(16, 24) : r.range(1, 8);
    int kind = r.below(4);
    if (kind == 1) std::this_thread::sleep_for(std::chrono::microseconds(r.below(400)));
    Steals st;
    {
        Scheduler pool(w);
        if (kind == 1) std::this_thread::sleep_for(std::chrono::microseconds(r.below(2000)));
        if (kind >= 2) {
            int n = r.range(2, 8);
            Dense d(n);
            vEdge s = makeZeroState(n);
            for (int i = r.range(1, 6); i > 0; i--) {
                Gate g = random_gate(r, n, 2);
                s = mv_multiply(g.make(), s);
                d.apply(g.m, g.t, g.c);
                if (r.chance(0.2)) std::this_thread::yield();
            }
            same(read_state(s), d.a, TOL, "lifecycle-state", fmt("pool %ld of %d workers", index, w));
        }
    }
    count("start_stop");
    count("workers_started", w);
    seen((uint64_t)w * 4 + kind + (r.next() << 8));
    if (index % 50 == 0) sample(fmt("pool of %d workers, kind %d", w, kind));
    if (index % 16 == 15) { gc(std::vector<vEdge>{makeZeroState(1)}, true); gc_mat(std::vector<mEdge>{makeIdent(0)}, true); }
}

// ------------------------------------------------------------------ tasks: exactly once
static void case_tasks(Rng &r, long index) {
    int w = r.range(1, 9), N = r.range(50, 400);
    std::vector<std::atomic<int>> ran(4 * N);
    for (auto &x : ran) x = 0;
    std::atomic<long> sum{0};
    std::set<std::thread::id> who;
    std::mutex m;
    Steals st;
    {
        Scheduler pool(w);
        std::vector<boost::fibers::future<int>> fs;
        for (int i = 0; i < N; i++) {
            int spin = r.below(300), nest = r.below(4), y = r.below(3);
            boost::fibers::packaged_task<int()> pt([&, i, spin, nest, y] {
                ran[4 * i]++;
                volatile int z = 0;
                for (int k = 0; k < spin; k++) z += k;
                if (y == 0) boost::this_fiber::yield();
                std::vector<boost::fibers::future<int>> in;
                for (int k = 1; k < nest; k++) {
                    boost::fibers::packaged_task<int()> q([&, i, k] { ran[4 * i + k]++; return k; });
                    in.emplace_back(q.get_future());
                    boost::fibers::fiber(std::move(q)).detach();
                }
                int t = 0;
                for (auto &f : in) t += f.get();
                { std::lock_guard<std::mutex> l(m); who.insert(std::this_thread::get_id()); }
                sum += t;
                return i;
            });
            fs.emplace_back(pt.get_future());
            boost::fibers::fiber(std::move(pt)).detach();
            if (r.chance(0.1)) boost::this_fiber::yield();
        }
        for (int i = 0; i < N; i++) check(fs[i].get() == i, "task-result", fmt("task %d of %d on %d workers returned another task's value", i, N, w));
    }
    for (int i = 0; i < N; i++) {
        check(ran[4 * i] == 1, "task-once", fmt("task %d of %d on %d workers ran %d times", i, N, w, (int)ran[4 * i]));
        for (int k = 1; k < 4; k++) if (ran[4 * i + k] > 1) check(false, "task-once", fmt("nested task %d.%d ran %d times", i, k, (int)ran[4 * i + k]));
    }
    count("tasks", N);
    count("threads_that_ran_tasks", who.size());
    seen(who.size() * 1000 + N + (r.next() << 20));
    if (index % 20 == 0) sample(fmt("%d tasks on %d workers, executed by %zu threads", N, w, who.size()));
}

// ------------------------------------------------------------------ wsq: the work-stealing queue, every item exactly once
static void case_wsq(Rng &r, long index) {
    int thieves = r.range(1, 6), N = r.range(200, 6000), cap = 1 << r.range(1, 6);
    WorkStealingQueue<int> q(cap);
    std::vector<std::vector<int>> got(thieves + 1);
    std::atomic<bool> done{false}, go{false};
    std::vector<std::thread> ts;
    uint64_t seed = r.next();
    for (int t = 0; t < thieves; t++)
        ts.emplace_back([&, t] {
            Rng rr(seed + t);
            while (!go.load()) {}
            while (!done.load() || !q.empty()) {
                auto x = q.steal();
                if (x) got[t + 1].push_back(*x);
                else if (rr.chance(0.1)) std::this_thread::yield();
            }
        });
    go = true;
    double pp = r.real(0, 0.6);
    int next = 0;
    while (next < N) {
        int burst = r.range(1, 40);
        for (int i = 0; i < burst && next < N; i++) q.push(next++);
        for (int i = 0; i < burst; i++)
            if (r.chance(pp)) { auto x = q.pop(); if (x) got[0].push_back(*x); }
    }
    if (r.chance(0.5)) while (true) { auto x = q.pop(); if (x) got[0].push_back(*x); else if (q.empty()) break; }
    done = true;
    for (auto &t : ts) t.join();
    std::vector<int> times(N);
    for (auto &g : got) for (int x : g) if (x >= 0 && x < N) times[x]++; else check(false, "wsq-value", fmt("the queue returned %d, which was never pushed", x));
    for (int i = 0; i < N; i++) if (times[i] != 1) { check(false, "wsq-once", fmt("item %d of %d was taken %d times (%d thieves, capacity %d)", i, N, times[i], thieves, cap)); break; }
    for (int t = 1; t <= thieves; t++)
        for (size_t i = 1; i < got[t].size(); i++)
            if (got[t][i] <= got[t][i - 1]) { check(false, "wsq-order", fmt("a thief took item %d after item %d", got[t][i], got[t][i - 1])); break; }
    check(q.empty() && q.size() == 0, "wsq-empty", "the drained queue is not empty");
    long stolen = 0;
    for (int t = 1; t <= thieves; t++) stolen += got[t].size();
    count("items", N);
    count("items_stolen", stolen);
    count("checks", N);
    seen(stolen * 7919 + N + (r.next() << 24));
    if (index % 20 == 0) sample(fmt("%d items, %d thieves, initial capacity %d: %ld stolen", N, thieves, cap, stolen));
}

// ------------------------------------------------------------------ threads: contending plain threads
struct NodeKey {
    uint64_t k[20];
    int len = 0;
    void add(double d) { if (d == 0) d = 0; memcpy(&k[len++], &d, 8); }
    bool operator<(const NodeKey &o) const { return len != o.len ? len < o.len : memcmp(k, o.k, 8 * len) < 0; }
};
struct Dups {
    std::set<const void *> seen_;
    std::map<NodeKey, const void *> by;
    long nodes = 0;
    std::string bad;
    template <class E> void walk(const E &e) {
        if (e.isTerminal() || !seen_.insert(e.n).second) return;
        nodes++;
        NodeKey k;
        k.add(e.n->v);
        k.add(e.n->children.size());
        for (auto &c : e.n->children) { k.add(c.w.r); k.add(c.w.i); k.k[k.len++] = (uint64_t)c.n; }
        auto it = by.emplace(k, e.n);
        if (!it.second && bad.empty()) bad = fmt("two nodes of level %d have the same content", (int)e.n->v);
        for (auto &c : e.n->children) walk(c);
    }
};
static void case_threads(Rng &r, long index) {
    int T = r.range(2, 6), n = r.range(2, 5), depth = r.range(4, 12);
    bool apply =
#if defined(QDD_VERIF_FIBER_LEVELS) && QDD_VERIF_FIBER_LEVELS < 0
        true;                                       // no fibers in this build: operators may be applied by plain threads
#else
        false;
#endif
    bool exact = r.chance(0.5);
    struct Step { int kind; Gate a, b; };
    std::vector<Step> prog;
    auto exact_gate = [&] {
        Gate g;
        auto q = r.distinct(n, 2);
        int k = r.below(5), x = q[0], y = q[1];
        g.t = {x};
        if (k == 0) { g.m = rX(); g.make = [=] { return makeGate(n, Xmat, x); }; }
        else if (k == 1) { g.m = rX(); g.c = {{y, true}}; g.make = [=] { return CX(n, x, y); }; }
        else if (k == 2) { g.m = rZ(); g.c = {{y, false}}; auto c = g.c; g.make = [=] { return makeGate(n, Zmat, x, ectl(c)); }; }
        else if (k == 3) { g.m = M2(1, 0, 0, I1); g.make = [=] { return makeGate(n, Smat, x); }; }
        else { g.m = rY(); g.make = [=] { return makeGate(n, Ymat, x); }; }
        g.name = fmt("g%d", k);
        return g;
    };
    for (int i = 0; i < depth; i++) {
        Step s;
        s.kind = r.below(3);
        s.a = exact ? exact_gate() : random_gate(r, n, 2);
        s.b = exact ? exact_gate() : random_gate(r, n, 2);
        prog.push_back(s);
    }
    // every step: an operator built in one of three ways from two gates; then the states they give
    struct Out { std::vector<mEdge> m; std::vector<vEdge> v; };
    std::vector<Out> out(T);
    std::atomic<int> sync{0};
    std::vector<std::thread> ts;
    uint64_t seed = r.next();
    int rounds = 3;
    for (int t = 0; t < T; t++)
        ts.emplace_back([&, t] {
            Rng rr(seed + t);
            std::vector<int> order(depth);
            std::iota(order.begin(), order.end(), 0);
            out[t].m.assign(depth, mEdge::one);
            out[t].v.assign(depth, vEdge::one);
            sync++;
            while (sync.load() < T) std::this_thread::yield();
            for (int round = 0; round < rounds; round++) {
                if (t & 1) rr.shuffle(order);
                for (int i : order) {
                    const Step &s = prog[i];
                    mEdge a = s.a.make(), b = s.b.make();
                    out[t].m[i] = s.kind == 0 ? mm_multiply(a, b) : s.kind == 1 ? mm_add(a, b) : mm_kronecker(a, mEdge::one);
                    vEdge x = vEdge::one, y = vEdge::one;
                    for (int q = 0; q < n; q++) {
                        x = makeVEdge(q, (i >> (q % 3)) & 1 ? std::array<vEdge, 2>{vEdge::zero, x} : std::array<vEdge, 2>{x, vEdge::zero});
                        y = makeVEdge(q, {y, y});
                    }
                    vEdge z = vv_add(x, y);
                    if (apply) z = mv_multiply(a, z);
                    if (i % 3 == 0) z = vv_kronecker(z, x);
                    out[t].v[i] = z;
                }
            }
        });
    for (auto &t : ts) t.join();
    // oracle: dense
    for (int i = 0; i < depth; i++) {
        const Step &s = prog[i];
        Mat a = full(n, s.a.m, s.a.t, s.a.c), b = full(n, s.b.m, s.b.t, s.b.c), want = s.kind == 0 ? mmul(a, b) : a;
        if (s.kind == 1) for (size_t x = 0; x < a.size(); x++) for (size_t y = 0; y < a.size(); y++) want[x][y] += b[x][y];
        size_t ix = 0;
        for (int q = 0; q < n; q++) if ((i >> (q % 3)) & 1) ix |= 1u << q;
        Vec st((size_t)1 << n, cd(1));
        st[ix] += 1.0;
        if (apply) { Dense d(n); d.a = st; d.apply(s.a.m, s.a.t, s.a.c); st = d.a; }
        if (i % 3 == 0) { Vec k(st.size() << n); for (size_t x = 0; x < st.size(); x++) k[(x << n) | ix] = st[x]; st = k; }
        for (int t = 0; t < T; t++) {
            Mat got = read_matrix(out[t].m[i], n);
            check(got.size() == want.size() && mdist(got, want) < TOL, "threads-operator", fmt("n=%d, thread %d of %d, step %d (kind %d: %s, %s)", n, t, T, i, s.kind, gate_str(s.a).c_str(), gate_str(s.b).c_str()));
            same(read_state(out[t].v[i]), st, TOL, "threads-state", fmt("n=%d, thread %d of %d, step %d", n, t, T, i));
            if (exact) {
                check(out[t].m[i].n == out[0].m[i].n, "threads-canonical", fmt("n=%d: threads 0 and %d hold different nodes for the same operator, step %d", n, t, i));
                if (!apply || true) check(out[t].v[i].n == out[0].v[i].n, "threads-canonical", fmt("n=%d: threads 0 and %d hold different nodes for the same state, step %d", n, t, i));
            }
        }
    }
    Dups dv, dm;
    for (auto &o : out) { for (auto &e : o.m) dm.walk(e); for (auto &e : o.v) dv.walk(e); }
    check(dv.bad.empty(), "threads-duplicate", dv.bad);
    check(dm.bad.empty(), "threads-duplicate", dm.bad);
    count("nodes_walked", dv.nodes + dm.nodes);
    count("operations", (long)T * depth * rounds * 5);
    seen(r.next());
    if (index % 50 == 0) sample(fmt("%d threads, n=%d, %d steps x %d rounds, %s weights: %ld shared nodes", T, n, depth, rounds, exact ? "exact" : "general", dv.nodes + dm.nodes));
}

int main(int argc, char **argv) {
    std::map<std::string, std::function<void(Rng &, long)>> modes = {
        {"mtevolve", case_mtevolve}, {"mtreuse", case_mtreuse}, {"mtlarge", case_mtlarge}, {"lifecycle", case_lifecycle}, {"tasks", case_tasks},
        {"wsq", case_wsq}, {"threads", case_threads}};
    if (argc < 5 || !modes.count(argv[1])) { fprintf(stderr, "usage: mt mode seed start count\n"); return 2; }
    std::string mode = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10);
    long start = atol(argv[3]), cnt = atol(argv[4]);
    for (long i = start; i < start + cnt; i++) {
        begin_case(mode, seed, i);
        Rng r(seed * 1000003ULL + (uint64_t)i * 7919ULL + hash_str(mode));
        modes[mode](r, i);
        count("cases");
        if (mode == "threads" && i % (NBUCKETS < 64 ? 1 : 32) == 0) { gc(std::vector<vEdge>{makeZeroState(1)}, true); gc_mat(std::vector<mEdge>{makeIdent(0)}, true); }
        if (nviol() > 20) break;
    }
    finish(mode);
    return 0;
}
