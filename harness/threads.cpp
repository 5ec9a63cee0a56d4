// C17: detectors share nothing.  Sessions (deterministic functions of their
// index) run alone, interleaved call by call, in concurrent threads, and in
// several processes; their digests must be equal.
#include "common.hpp"
#include <atomic>
#include <pthread.h>
#include <sched.h>

struct Sess {
    Rng r;
    Params p;
    struct Spot s;
    Source src;
    Digest d;
    ul left, done = 0, excess = 0, train = 0;
    int life;
    bool on = false, large = false;
    Sess(uint64_t seed, long idx) : r(seed, idx, 17), src(r) {
        p = gen_params(r);
        if (p.cap > 100) p.cap = 60;
        if (idx % 9 == 4) p.cap = r.pick<ul>({300, 1000});
        large = idx % 11 == 6;
        left = 40 + r.below(160);
        life = 1 + r.below(2);
        if (idx % 31 == 17) { p.cap = idx / 31 % 2 ? 8000 : 2000; p.level = .5; p.q = 1e-3; train = 5 * p.cap / 2; left = 3; life = 1; src = Source(r, r.pick<int>({EXPO, GAUSS, PARETO})); }
        memset(&s, 0, sizeof s);
    }
    bool op() { // one call of the library
        if (!on) {
            int rc = spot_init(&s, p.q, p.low, p.discard, p.level, p.cap);
            d.add((uint64_t)rc);
            on = true;
            return true;
        }
        if (done % 97 == 0 || done == 0) {
            Vec v = src.vec(r, train ? train : large ? 2000 + r.below(6000) : 5 + r.below(200));
            d.add((uint64_t)spot_fit(&s, v.data(), v.size()));
            d.add(s.excess_threshold);
            d.add(s.anomaly_threshold);
        } else switch (r.below(12)) {
            case 0: d.add(spot_quantile(&s, r.u() * .1)); break;
            case 1: d.add(spot_probability(&s, gen_value(r, s, src, .3, .3))); break;
            case 2: {
                char b[64]; memset(b, 7, sizeof b);
                ul n = r.below(64); int w = r.below(3);
                if (w == 0) libspot_version(b, n); else if (w == 1) libspot_license(b, n); else libspot_error((enum LibspotError)(1000 + r.below(5)), b, n);
                for (char c : b) d.add((uint64_t)c);
                break;
            }
            default: {
                int rc = spot_step(&s, gen_value(r, s, src, .1, .4));
                excess += rc == EXCESS;
                d.add((uint64_t)rc);
                d.add(s.anomaly_threshold);
                d.add(s.tail.gamma); d.add(s.tail.sigma);
                d.add((uint64_t)s.n); d.add((uint64_t)s.Nt);
            }
        }
        done++;
        if (--left == 0) {
            Snap x = snap(s);
            d.add(s.tail.peaks.e); d.add(s.tail.peaks.e2); d.add(s.tail.peaks.min); d.add(s.tail.peaks.max);
            for (double y : x.data) d.add(y);
            spot_free(&s);
            on = false;
            if (--life <= 0) return false;
            left = 30 + r.below(60);
            done = 0;
        }
        return true;
    }
    uint64_t run() { while (op()); return d.h; }
};
static std::vector<uint64_t> ref;
static std::vector<int> order_; // of the sessions in a round: those of the same kind overlap in the first ones
static uint64_t SEED;
struct Work { int id, n; std::atomic<int> *next; std::vector<uint64_t> *out; long count; uint64_t jit; std::vector<std::pair<int, uint32_t>> *log; std::atomic<uint32_t> *clock; pthread_barrier_t *bar; };
static void *worker(void *a) {
    Work *w = (Work *)a;
    Rng j(w->jit, w->id);
    pthread_barrier_wait(w->bar);
    for (;;) {
        int i = w->next->fetch_add(1, std::memory_order_relaxed);
        if (i >= w->count) break;
        i = order_[i];
        Sess s(SEED, i);
        while (s.op()) {
            if (w->log->size() < 4000) w->log->push_back({i, w->clock->fetch_add(1, std::memory_order_relaxed)});
            if (j.chance(.02)) sched_yield();
        }
        (*w->out)[i] = s.d.h;
    }
    return nullptr;
}
// a detector that several threads only query, and training data that they all read
struct Shared { const struct Spot *s; const Vec *data; Params p; uint64_t seed, out; pthread_barrier_t *bar; };
static uint64_t reader(const Shared &w) {
    Rng r(w.seed, 5);
    Digest d;
    struct Spot m;
    memset(&m, 0, sizeof m);
    int rc = spot_init(&m, w.p.q, w.p.low, w.p.discard, w.p.level, w.p.cap);
    for (int i = 0; i < 40; i++) {
        d.add(spot_quantile(w.s, r.u() * .1)); d.add(spot_quantile(w.s, w.s->q));
        double t = w.s->excess_threshold, z = w.s->anomaly_threshold;
        d.add(spot_probability(w.s, t + (z - t) * 2 * r.u())); d.add(spot_probability(w.s, z));
        if (rc == 0 && i % 10 == 0) { d.add((uint64_t)spot_fit(&m, w.data->data(), w.data->size())); d.add(m.anomaly_threshold); }
    }
    if (rc == 0) spot_free(&m);
    return d.h;
}
static void *shared_worker(void *a) {
    Shared *w = (Shared *)a;
    pthread_barrier_wait(w->bar);
    w->out = reader(*w);
    return nullptr;
}
int main(int c, char **v) {
    if (!harness_args(c, v)) return 2;
    install_libc();
    long n = R.cases / R.nshards + 8;
    SEED = R.seed * 131 + R.shard;
    bool only_print = R.only_mode == "digest";
    ref.resize(n);
    for (long i = 0; i < n; i++) { Sess s(SEED, i); ref[i] = s.run(); if (s.excess > 3) R.distinct.insert(ref[i]); R.evaluations++; }
    R.counts["sessions alone"] += n;
    if (only_print) { // another process prints the digests
        for (auto h : ref) printf("H\t%llx\n", (unsigned long long)h);
        R.finish();
        return 0;
    }
    for (auto h : ref) printf("H\t%llx\n", (unsigned long long)h);
    // again, alone, in reverse order
    R.mode = "again";
    for (long i = n - 1; i >= 0; i -= 3) { R.cur = i; R.evaluations++; R.counts["sessions repeated"]++; Sess s(SEED, i); if (s.run() != ref[i]) R.fail("repeat", "session %ld gives other results when repeated in the same process", i); }
    // interleaved, call by call
    R.mode = "interleaved";
    for (long g = 0; g < n; g += 6) {
        R.cur = g;
        Rng r(SEED, g, 171);
        std::vector<Sess *> ss;
        std::vector<long> id;
        for (long i = g; i < std::min(n, g + 6); i++) { ss.push_back(new Sess(SEED, i)); id.push_back(i); }
        std::vector<Sess *> act = ss;
        Digest inter;
        while (!act.empty()) {
            ul k = r.below(act.size());
            inter.add((uint64_t)k);
            R.counts["interleaved calls"]++;
            if (!act[k]->op()) act.erase(act.begin() + k);
        }
        R.distinct.insert(inter.h);
        for (size_t k = 0; k < ss.size(); k++) {
            R.evaluations++;
            if (ss[k]->d.h != ref[id[k]]) R.fail("interleaved", "session %ld gives other results when its calls are interleaved with those of %zu other detectors", id[k], ss.size() - 1);
            delete ss[k];
        }
    }
    // concurrent
    R.mode = "threads";
    int T = 4;
    for (int round = 0; round < (R.thorough ? 20 : 3); round++) {
        std::vector<uint64_t> out(n, 0);
        order_.resize(n);
        for (int i = 0; i < n; i++) order_[i] = i;
        // large windows together
        if (round < 2) std::stable_sort(order_.begin(), order_.end(), [&](int a, int b) { auto k = [](int i) { return i % 31 == 17 ? (i / 31 % 2 ? 0 : 1) : i % 11 == 6 ? 2 : i % 9 == 4 ? 3 : 4; }; return k(a) < k(b); });
        std::atomic<int> next(0);
        std::atomic<uint32_t> clock(0);
        pthread_barrier_t bar;
        pthread_barrier_init(&bar, 0, T);
        std::vector<pthread_t> th(T);
        std::vector<Work> w(T);
        std::vector<std::vector<std::pair<int, uint32_t>>> logs(T);
        for (int t = 0; t < T; t++) { logs[t].reserve(4000); w[t] = Work{t, T, &next, &out, n, SEED + round, &logs[t], &clock, &bar}; pthread_create(&th[t], 0, worker, &w[t]); }
        for (auto &t : th) pthread_join(t, 0);
        for (long i = 0; i < n; i++) { R.cur = i; R.evaluations++; if (out[i] != ref[i]) R.fail("threads", "session %ld gives other results when run concurrently with others", i); }
        // evidence: how interleaved the run really was
        std::vector<std::pair<uint32_t, int>> ev;
        for (auto &l : logs) for (auto &e : l) ev.push_back({e.second, e.first});
        std::sort(ev.begin(), ev.end());
        ul sw = 0;
        Digest inter;
        for (size_t i = 1; i < ev.size(); i++) if (ev[i].second != ev[i - 1].second) { sw++; inter.add((uint64_t)ev[i].second); }
        R.distinct.insert(inter.h);
        R.counts["concurrent calls logged"] += ev.size();
        R.counts["switches between detectors seen"] += sw;
        R.counts["sessions in threads"] += n;
        R.mode = "shared";
        for (int k = 0; k < (R.thorough ? 40 : 12); k++) {
            R.cur = k;
            Rng r(SEED, round * 1000 + k, 172);
            Params p = gen_params(r);
            if (p.cap > 3000) p.cap = 3000;
            Source src(r);
            Vec d = src.vec(r, 5 + r.below(k % 4 ? 300 : 4000));
            struct Spot s;
            memset(&s, 0, sizeof s);
            if (spot_init(&s, p.q, p.low, p.discard, p.level, p.cap)) continue;
            spot_fit(&s, d.data(), d.size());
            pthread_barrier_t b2;
            pthread_barrier_init(&b2, 0, T);
            std::vector<Shared> sw_(T, Shared{&s, &d, p, SEED + k, 0, &b2});
            uint64_t want = reader(sw_[0]);
            std::vector<pthread_t> st(T);
            for (int t = 0; t < T; t++) pthread_create(&st[t], 0, shared_worker, &sw_[t]);
            for (auto &t : st) pthread_join(t, 0);
            pthread_barrier_destroy(&b2);
            R.evaluations++;
            R.counts["detectors queried by several threads"]++;
            for (auto &x : sw_) if (x.out != want) { R.fail("shared", "queries of one detector by several threads, or fits on the same training data, give other results than alone (case %d)", k); break; }
            spot_free(&s);
        }
        R.mode = "threads";
        R.sample("round %d: %d threads, %ld sessions, %zu calls logged, %lu switches between detectors", round, T, n, ev.size(), sw);
    }
    R.finish();
    return 0;
}
