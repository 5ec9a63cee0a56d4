// Monitors with their own workloads: C02 allocator discipline, C03 parameter
// validation, C07 twins, C11 queries, C12 excess threshold, C13 refit,
// C23 mirror, C24 scale
#include "common.hpp"
#include <pthread.h>
#include <sys/mman.h>
#include <unistd.h>

// =============================================================== C02 ======
namespace alloc {
struct Block { unsigned char *base; size_t req; };
static std::map<void *, Block> live;
static ul n_malloc, n_free, bad_free, null_free;
static long fail_at = -1; // index of the allocation that fails
static std::vector<size_t> sizes;
static const size_t G = 64;
static void *m(size_t n) {
    ul k = n_malloc++;
    sizes.push_back(n);
    if (fail_at >= 0 && (long)k == fail_at) return nullptr;
    if (n > (size_t)1 << 31) return nullptr; // nothing fits
    unsigned char *b = (unsigned char *)malloc(n + 2 * G);
    if (!b) return nullptr;
    memset(b, 0xA5, G);
    memset(b + G, 0xCD, n);
    memset(b + G + n, 0xA5, G);
    live[b + G] = Block{b, n};
    return b + G;
}
static bool canary_ok(const Block &b) {
    for (size_t i = 0; i < G; i++) if (b.base[i] != 0xA5 || b.base[G + b.req + i] != 0xA5) return false;
    return true;
}
static void f(void *p) {
    n_free++;
    if (!p) { null_free++; return; }
    auto it = live.find(p);
    if (it == live.end()) { bad_free++; return; }
    if (!canary_ok(it->second)) R.fail("canary", "memory around the block of %zu bytes was overwritten", it->second.req);
    free(it->second.base);
    live.erase(it);
}
static void reset() { n_malloc = n_free = bad_free = null_free = 0; fail_at = -1; sizes.clear(); }
}

static void c02_case(uint64_t seed, long idx) {
    using namespace alloc;
    Rng r(seed, idx, 2);
    set_allocators(alloc::m, alloc::f);
    reset();
    int k = 1 + r.below(4); // several detectors alive at once
    struct D { struct Spot s; bool on; Params p; };
    std::vector<D> ds(k);
    for (auto &d : ds) { d.on = false; memset(&d.s, r.pick({0, 0xff, 0x33}), sizeof d.s); }
    ul alive = 0, ops = 20 + r.below(60);
    Digest dg;
    long fault = -1;
    if (r.chance(.4)) fault = r.below(6);
    std::string trace;
    bool huge = false;
    for (ul o = 0; o < ops; o++) {
        D &d = ds[r.below(k)];
        ul m0 = n_malloc, f0 = n_free, b0 = bad_free;
        size_t live0 = live.size();
        R.evaluations++;
        if (!d.on) {
            d.p = gen_params(r);
            if (r.chance(.05)) { d.p.cap = r.pick<ul>({1000, 4096, 20000, 100000}); d.p.level = .9; d.p.q = 1e-4; }
            double q = d.p.q, level = d.p.level;
            ul cap = d.p.cap;
            int want = 0;
            switch (r.below(12)) {
            case 0: q = r.pick({0.0, -1.0, 1.0, (double)NAN, 1 - level}); want = -ERR_Q_OUT_OF_BOUNDS; break;
            case 1: level = r.pick({-0.1, 1.0, 1.5, (double)NAN}); want = -ERR_LEVEL_OUT_OF_BOUNDS; break;
            case 2: cap = 0; want = -ERR_MEMORY_ALLOCATION_FAILED; break;
            case 3: cap = r.pick<ul>({ULONG_MAX, ULONG_MAX / 8 + 1, ULONG_MAX / 8 + 2, 1ul << 61, (1ul << 61) + 1, 1ul << 62, ULONG_MAX / 4, ULONG_MAX / 8, 1ul << 40}); want = -ERR_MEMORY_ALLOCATION_FAILED; break;
            }
            bool willfail = false;
            if (!want && fault >= 0 && (long)n_malloc >= fault && r.chance(.5)) { fail_at = n_malloc; willfail = true; want = -ERR_MEMORY_ALLOCATION_FAILED; }
            int rc = spot_init(&d.s, q, d.p.low, d.p.discard, level, cap);
            fail_at = -1;
            R.counts[rc == 0 ? "init ok" : rc == -ERR_MEMORY_ALLOCATION_FAILED ? "init refused: memory" : "init refused: parameters"]++;
            if (willfail) R.counts["allocation failures injected"]++;
            if (rc != want) { R.fail("init-code", "spot_init(q=%g level=%g max_excess=%lu)%s returned %d, expected %d", q, level, cap, willfail ? " with a failing allocator" : "", rc, want); if (rc == 0) { d.on = true; alive++; } continue; }
            trace += rc == 0 ? 'I' : 'i';
            if (rc == 0) {
                alive++;
                d.on = true;
                if (n_malloc != m0 + 1 || sizes.back() != cap * sizeof(double)) R.fail("init-request", "spot_init with max_excess=%lu made %lu requests (last: %zu bytes)", cap, n_malloc - m0, sizes.empty() ? 0 : sizes.back());
            } else {
                if (live.size() != live0) R.fail("init-leak", "a refused spot_init (%d) kept a block", rc);
                if ((rc == -ERR_Q_OUT_OF_BOUNDS || rc == -ERR_LEVEL_OUT_OF_BOUNDS) && n_malloc != m0) R.fail("init-early", "spot_init refused its parameters (%d) after requesting memory", rc);
                if (rc == -ERR_MEMORY_ALLOCATION_FAILED) { // freeing a detector whose allocation failed is harmless
                    ul bf = bad_free, mm = live.size();
                    spot_free(&d.s);
                    if (bad_free != bf || live.size() != mm) R.fail("free-failed", "freeing a detector whose initialisation failed released memory it does not own");
                }
            }
        } else {
            switch (r.below(8)) {
            case 0: case 1: {
                ul n = r.chance(.2) ? r.below(6) : gen_train_size(r);
                bool many = r.chance(.02);
                if (many) n = r.pick<ul>({10000, 40000, 100000, 400000});
                if (!huge && idx % 500 == 3) { huge = many = true; n = 4000000; R.counts["fits of millions of values"]++; }
                Source src(r, many ? r.pick<int>({GAUSS, EXPO, UNIF, INTS}) : -1);
                Vec v = src.vec(r, n);
                spot_fit(&d.s, v.data(), n);
                trace += 'F';
                R.counts["fits"]++;
                if (n_malloc != m0 || n_free != f0) R.fail("fit", "spot_fit on %lu values made %lu allocations and %lu releases", n, n_malloc - m0, n_free - f0);
                break;
            }
            case 2: case 3: case 4: case 5: {
                Source src(r);
                ul n = r.chance(.1) ? 3000 : 200;
                if (d.p.cap > 100) n = 50;
                if (d.p.cap > 1000) n = 8;
                for (ul i = 0; i < n; i++) spot_step(&d.s, gen_value(r, d.s, src, .2, .2));
                R.counts["steps"] += n;
                trace += 'S';
                if (n_malloc != m0 || n_free != f0) R.fail("step", "%lu steps made %lu allocations and %lu releases", n, n_malloc - m0, n_free - f0);
                break;
            }
            case 6: {
                for (int i = 0; i < 20; i++) { spot_quantile(&d.s, r.u()); spot_probability(&d.s, r.normal() * 10); }
                char buf[64];
                libspot_version(buf, sizeof buf); libspot_license(buf, sizeof buf); libspot_error((enum LibspotError)(1000 + r.below(6)), buf, sizeof buf);
                trace += 'Q';
                R.counts["queries"] += 40;
                if (n_malloc != m0 || n_free != f0) R.fail("query", "queries made %lu allocations and %lu releases", n_malloc - m0, n_free - f0);
                break;
            }
            default: {
                void *own = d.s.tail.peaks.container.data;
                bool was = live.count(own);
                spot_free(&d.s);
                alive--;
                d.on = false;
                trace += 'X';
                R.counts["free"]++;
                if (!was) R.fail("owner", "the detector's storage is not a block of the installed allocator");
                if (live.count(own) || n_free - f0 - 0 != 1 || live.size() != live0 - 1) R.fail("free", "spot_free released %lu blocks (%zu -> %zu live)", n_free - f0, live0, live.size());
                if (r.chance(.5)) {
                    ul f1 = n_free, nf = null_free;
                    spot_free(&d.s);
                    R.counts["double free"]++;
                    if (n_free - f1 != null_free - nf || bad_free != b0) R.fail("double-free", "freeing a detector twice released memory twice");
                }
            }
            }
        }
        if (bad_free != b0) R.fail("bad-free", "a pointer that is not a live block was released");
        if (live.size() != alive) { R.fail("live", "%zu live blocks for %lu live detectors", live.size(), alive); break; }
        for (auto &b : live) if (!canary_ok(b.second)) { R.fail("canary", "memory around a block was overwritten"); break; }
        dg.add((uint64_t)n_malloc); dg.add((uint64_t)trace.back());
    }
    for (auto &d : ds) if (d.on) spot_free(&d.s);
    if (!live.empty()) { R.fail("leak", "%zu blocks leaked at the end", live.size()); for (auto &b : live) free(b.second.base); live.clear(); }
    R.distinct.insert(dg.h);
    R.sample("case %ld: %d detectors, history %s (I init, i refused, F fit, S steps, Q queries, X free), %lu requests, %lu releases", idx, k, trace.c_str(), n_malloc, n_free);
    R.counts["histories"]++;
}
// stack used by a whole life, measured on a painted stack: it must not depend
// on the size of the window or of the data
struct Life { Params p; const Vec *train, *stream; };
static void *life(void *a) {
    Life *l = (Life *)a;
    struct Spot s;
    if (spot_init(&s, l->p.q, l->p.low, l->p.discard, l->p.level, l->p.cap) == 0) {
        spot_fit(&s, l->train->data(), l->train->size());
        for (double x : *l->stream) spot_step(&s, x);
        spot_quantile(&s, 1e-3);
        spot_probability(&s, 1);
        spot_free(&s);
    }
    return nullptr;
}
static size_t stack_used(Life &l) {
    const size_t N = (size_t)32 << 20, paint = (size_t)8 << 20;
    unsigned char *m = (unsigned char *)mmap(0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) return 0;
    memset(m + N - paint, 0xA5, paint);
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, m, N);
    pthread_t t;
    size_t used = 0;
    if (pthread_create(&t, &at, life, &l) == 0) {
        pthread_join(t, nullptr);
        size_t i = N - paint;
        while (i < N && m[i] == 0xA5) i++;
        used = N - i;
    }
    pthread_attr_destroy(&at);
    munmap(m, N);
    return used;
}
static void c02_stack(uint64_t seed, long idx) {
    Rng r(seed, idx, 23);
    install_libc();
    Life l;
    l.p = gen_params(r);
    l.p.level = .5; l.p.q = 1e-3;
    Source src(r, r.pick<int>({GAUSS, EXPO, PARETO, UNIF, INTS}));
    Vec a = src.vec(r, 30), c = src.vec(r, r.pick<ul>({200, 1000, 3000, 4500, 9000})), b = src.vec(r, 30000 + r.below(30000)), st = src.vec(r, 30);
    l.stream = &st;
    size_t u[3];
    ul mid = r.pick<ul>({100, 500, 1200, 2500, 4000});
    for (int k = 0; k < 4; k++) { // the first run also warms up the loader
        l.p.cap = k < 2 ? 20 : k == 2 ? mid : 20000;
        l.train = k < 2 ? &a : k == 2 ? &c : &b;
        size_t x = stack_used(l);
        if (k) u[k - 1] = x;
        R.evaluations++;
    }
    R.counts["painted stacks"] += 4;
    if (!u[0] || !u[1] || !u[2]) return;
    if (u[1] > u[0] + 8192) R.fail("stack", "a window of %lu and %zu training values use %zu bytes of stack, a window of 20 and 30 values %zu", mid, c.size(), u[1], u[0]);
    if (u[2] > u[0] + 8192) R.fail("stack", "a window of 20000 and %zu training values use %zu bytes of stack, a window of 20 and 30 values %zu", b.size(), u[2], u[0]);
    if (idx < 2 && R.samples.size() > 3) R.samples.resize(3);
    if (idx < 2) R.sample("stack: %zu bytes with a window of 20, %zu with %lu, %zu with 20000", u[0], u[1], mid, u[2]);
}
static void c02_noalloc(uint64_t seed, long idx) {
    // no allocator installed, then partial pairs
    Rng r(seed, idx, 22);
    Params p = gen_params(r);
    struct Spot s;
    memset(&s, 0x77, sizeof s);
    set_allocators(nullptr, nullptr);
    R.evaluations++;
    int rc = spot_init(&s, p.q, p.low, p.discard, p.level, p.cap);
    if (rc != -ERR_MEMORY_ALLOCATION_FAILED) R.fail("no-allocator", "spot_init without allocator returned %d", rc);
    else spot_free(&s);
    set_allocators(alloc::m, nullptr);
    alloc::reset();
    rc = spot_init(&s, p.q, p.low, p.discard, p.level, p.cap);
    if (rc == 0) { spot_free(&s); }
    for (auto &b : alloc::live) free(b.second.base);
    alloc::live.clear();
    R.counts["no allocator"]++;
    // the allocator in force is the last installed one
    set_allocators(malloc, free);
    set_allocators(alloc::m, alloc::f);
    alloc::reset();
    rc = spot_init(&s, p.q, p.low, p.discard, p.level, p.cap);
    if (rc != 0 || alloc::n_malloc != 1) R.fail("installed", "the last installed allocator was not used (%d, %lu requests)", rc, alloc::n_malloc);
    else { spot_free(&s); if (alloc::n_free != 1) R.fail("installed-free", "the last installed release function was not used"); }
    for (auto &b : alloc::live) free(b.second.base);
    alloc::live.clear();
    Digest d; d.add((uint64_t)idx); R.distinct.insert(d.h);
}

// =============================================================== C03 ======
static void c03_case(uint64_t seed, long idx) {
    using namespace alloc;
    Rng r(seed, idx, 3);
    set_allocators(alloc::m, alloc::f);
    reset();
    double level = r.chance(.35) ? r.u() : r.pick({0.0, -0.0, 1.0, nextafter(1.0, 0), nextafter(1.0, 2), -5e-324, 5e-324, -1.0, 2.0, (double)NAN, (double)INFINITY, -(double)INFINITY, 0.5, 0.98, 0.99, 1 - 1e-9, -1e-300, 1e300, 0x1p-53, 1 - 0x1p-20});
    double m = 1. - level, q;
    switch (r.below(4)) {
    case 0: q = r.pick({m, nextafter(m, -1), nextafter(m, 2), m / 2, m * 2, -m}); break;
    case 1: q = r.pick({0.0, -0.0, 5e-324, -5e-324, (double)NAN, (double)INFINITY, -(double)INFINITY, 1.0, nextafter(1.0, 0), 2.0, 1e-300, DBL_MIN}); break;
    case 2: q = m * r.u(); break;
    default: q = pow(10, r.uni(-12, 0.2)); break;
    }
    int low = r.pick({0, 1, 2, -1, INT_MAX, INT_MIN, 256, 65536}), dis = r.pick({0, 1, 2, -1, INT_MAX, INT_MIN, 256, 65536});
    ul cap = r.pick<ul>({1, 2, 3, 10, 500, 100000, 0, ULONG_MAX, 1ul << 61, (1ul << 61) + 1, (1ul << 61) + 500, 1ul << 34});
    bool fault = r.chance(.1);
    int want;
    if (!(level >= 0 && level < 1)) want = -ERR_LEVEL_OUT_OF_BOUNDS;
    else if (!(q > 0 && q < m)) want = -ERR_Q_OUT_OF_BOUNDS;
    else if (fault || cap == 0 || cap > 1000000) want = -ERR_MEMORY_ALLOCATION_FAILED;
    else want = 0;
    if (fault) fail_at = 0;
    struct Spot s;
    unsigned char *raw = (unsigned char *)&s;
    int fill = r.below(4);
    for (size_t i = 0; i < sizeof s; i++) raw[i] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0x7f : (unsigned char)r.next();
    bool reuse = r.chance(.2); // a structure that served before
    if (reuse) {
        long fa = fail_at; fail_at = -1;
        spot_init(&s, .001, 1, 0, .9, 7);
        Source src(r, EXPO); Vec v = src.vec(r, 200);
        spot_fit(&s, v.data(), v.size());
        for (int i = 0; i < 50; i++) spot_step(&s, gen_value(r, s, src, .1, .3));
        spot_free(&s);
        reset(); fail_at = fa;
    }
    int rc = spot_init(&s, q, low, dis, level, cap);
    R.evaluations++;
    R.counts[rc == 0 ? "accepted" : rc == -ERR_LEVEL_OUT_OF_BOUNDS ? "level refused" : rc == -ERR_Q_OUT_OF_BOUNDS ? "q refused" : "memory refused"]++;
    if (rc != want) R.fail("code", "spot_init(q=%.17g low=%d discard=%d level=%.17g max_excess=%lu)%s returned %d, expected %d", q, low, dis, level, cap, fault ? " (failing allocator)" : "", rc, want);
    if (rc != 0 && !live.empty()) R.fail("kept", "spot_init returned %d and kept a block", rc);
    if ((rc == -ERR_LEVEL_OUT_OF_BOUNDS || rc == -ERR_Q_OUT_OF_BOUNDS) && n_malloc) R.fail("early", "spot_init returned %d after requesting memory", rc);
    if (rc == 0) {
        const char *bad = nullptr;
        if (s.q != q) bad = "q";
        else if (s.level != level) bad = "level";
        else if (s.low != (low != 0)) bad = "low";
        else if (s.discard_anomalies != (dis != 0)) bad = "discard_anomalies";
        else if (s.__up_down != (low ? -1.0 : 1.0)) bad = "direction";
        else if (s.n != 0) bad = "n";
        else if (s.Nt != 0) bad = "Nt";
        else if (s.anomaly_threshold == s.anomaly_threshold) bad = "anomaly_threshold";
        else if (s.excess_threshold == s.excess_threshold) bad = "excess_threshold";
        else if (s.tail.gamma == s.tail.gamma) bad = "gamma";
        else if (s.tail.sigma == s.tail.sigma) bad = "sigma";
        else if (s.tail.peaks.e != 0) bad = "sum";
        else if (s.tail.peaks.e2 != 0) bad = "sum of squares";
        else if (s.tail.peaks.min == s.tail.peaks.min) bad = "min";
        else if (s.tail.peaks.max == s.tail.peaks.max) bad = "max";
        else if (stored(s) != 0) bad = "stored excesses";
        else if (s.tail.peaks.container.cursor != 0) bad = "cursor";
        else if (s.tail.peaks.container.filled != 0) bad = "filled";
        else if (s.tail.peaks.container.capacity != cap) bad = "capacity";
        else if (s.tail.peaks.container.last_erased_data == s.tail.peaks.container.last_erased_data) bad = "last_erased_data";
        if (bad) R.fail((std::string("pristine-") + bad).c_str(), "after spot_init(q=%.17g low=%d discard=%d level=%.17g max_excess=%lu) the field %s is not pristine", q, low, dis, level, cap, bad);
        R.counts["pristine states compared"]++;
        spot_free(&s);
    }
    for (auto &b : live) free(b.second.base);
    live.clear();
    Digest d; d.add(q); d.add(level); d.add((uint64_t)cap); d.add((uint64_t)(low * 131 + dis)); d.add((uint64_t)fault);
    R.distinct.insert(d.h);
    if (idx % 7 == 0) R.sample("spot_init(q=%.6g low=%d discard=%d level=%.6g max_excess=%lu)%s -> %d", q, low, dis, level, cap, fault ? " [allocation failure injected]" : "", rc);
}

// ============================================================ C07 twins ===
static void c07_twin(uint64_t seed, long idx) {
    Rng r(seed, idx, 7), rb(seed, idx, 77);
    Params p = gen_params(r);
    if (p.cap > 128) p.cap = 100;
    ul large = big_case(r, idx, p);
    struct Spot a, b;
    if (spot_init(&a, p.q, p.low, p.discard, p.level, p.cap) || spot_init(&b, p.q, p.low, p.discard, p.level, p.cap)) { R.fail("init", "spot_init"); return; }
    Source src(r);
    Vec d = src.vec(r, large ? large : gen_train_size(r));
    int ra = spot_fit(&a, d.data(), d.size()), rb_ = spot_fit(&b, d.data(), d.size());
    if (ra != rb_) R.fail("fit", "the same fit returned %d and %d", ra, rb_);
    ul L = large ? 20 : 100 + r.below(500), extra = 0, anom = 0;
    Digest dg;
    for (ul i = 0; i < L; i++) {
        // disturb b only
        ul burst = rb.chance(.3) ? 1 + rb.below(rb.chance(.02) ? 1000 : 5) : 0;
        for (ul k = 0; k < burst; k++) {
            extra++;
            switch (rb.below(5)) {
            case 0: if (spot_step(&b, NAN) >= 0) R.fail("nan", "step(NaN) was not refused"); break;
            case 1: spot_quantile(&b, rb.pick({rb.u(), 0.0, -1.0, 1.0, 1e-9, (double)NAN, 5.0})); break;
            case 2: spot_probability(&b, rb.pick({rb.normal() * 100, (double)INFINITY, -(double)INFINITY, (double)NAN, 0.0, b.anomaly_threshold, b.excess_threshold})); break;
            default:
                if (b.discard_anomalies && std::isfinite(b.anomaly_threshold)) {
                    double ud = b.low ? -1 : 1, z = b.anomaly_threshold;
                    double x = rb.pick({nextafter(z, ud * INFINITY), z + ud * (fabs(z) + 1), ud * 1e300, ud * (double)INFINITY, z + ud * 1e-6 * (fabs(z) + 1e-300)});
                    if (ud * (x - z) > 0) {
                        if (spot_step(&b, x) != ANOMALY) R.fail("anomaly", "step(%.17g) beyond the anomaly threshold %.17g is not an ANOMALY", x, z);
                        anom++;
                    }
                }
            }
        }
        double x = gen_value(r, a, src, .2, .3);
        int va = spot_step(&a, x), vb = spot_step(&b, x);
        R.evaluations++;
        dg.add((uint64_t)va);
        if (va != vb) { R.fail("twin-verdict", "step %lu (%.17g): %s without, %s with %lu interleaved anomalies/NaN/queries", i, x, vname(va), vname(vb), extra); break; }
        Snap sa = snap(a), sb = snap(b);
        const char *df = diff(sa, sb);
        if (df) { R.fail("twin-state", "step %lu: %s differs after %lu interleaved anomalies/NaN/queries", i, df, extra); break; }
    }
    R.counts["twin runs"]++;
    R.counts["interleaved inert operations"] += extra;
    R.counts["interleaved anomalies"] += anom;
    if (extra) { R.distinct.insert(dg.h); R.sample("twin %ld: %s source=%s steps=%lu interleaved=%lu (anomalies %lu)", idx, p.str().c_str(), KNAME[src.kind], L, extra, anom); }
    spot_free(&a);
    spot_free(&b);
}

// =============================================================== C11 ======
struct Q11 { // queries, by closures so that spots and bare tails share the code
    std::function<double(double)> quant; // q -> z
    std::function<double(double)> prob;  // z -> p
    double t, ud, g, sg, s;
    std::string what;
};
static void c11_check(Rng &r, const Q11 &m) {
    LD g = m.g, sg = m.sg, s = m.s;
    // accuracy of the library's formula: log has a 1e-10 absolute error
    LD ag = g == 0 ? 0 : 1 / fabsl(g);
    LD relp = 4e-10L * (1 + ag);          // relative error of probability()
    if (relp > 1e-2L) { R.counts["nearly zero shapes (skipped)"]++; return; }
    R.counts[g == 0 ? "gamma = 0" : g < 0 ? "gamma < 0" : "gamma > 0"]++;
    double sup = g < 0 ? (double)(-sg / g) : INFINITY; // end of the support (distance)
    // the ends
    double p0 = m.prob(m.t);
    R.evaluations++;
    if (!(fabsl(p0 - s) <= s * (relp + 1e-12L))) R.fail("prob-threshold", "%s: probability at the excess threshold is %.17g, the tail proportion is %.17Lg", m.what.c_str(), p0, s);
    double z0 = m.quant(m.s);
    LD ztol = sg * 1e-9L + 16 * EPS * fabsl((LD)m.t) + (g == 0 ? 0 : sg * ag * 1e-13L);
    if (!(fabsl((LD)z0 - m.t) <= ztol)) R.fail("quant-proportion", "%s: quantile at the tail proportion %.17g is %.17g, the excess threshold is %.17g", m.what.c_str(), m.s, z0, m.t);
    double pq = -1, pz = 0;
    LD ptol = 0;
    for (int i = 0; i < 24; i++) {
        LD f = i == 0 ? 0.999L : powl(10, -(LD)i * r.pick({.3, .5}) - .02L);
        if (i == 23) f = 1e-12L;
        double q = (double)(s * f);
        if (!(q > 0) || (pq > 0 && !(q < pq * .7))) continue;
        double z = m.quant(q);
        LD d = (LD)m.ud * ((LD)z - m.t), rr = (LD)q / s;
        LD want = q_gpd(g, sg, rr), tol = q_tol(g, sg, rr) + 16 * EPS * (fabsl((LD)m.t) + fabsl(want)) + 1e-318L;
        R.evaluations++;
        if (!(want < 1e290L) || !(fabsl(g * logl(rr)) < 650)) break; // overflow
        if (!std::isfinite(z)) { R.fail("quant-finite", "%s: quantile(%.17g) is %g", m.what.c_str(), q, z); break; }
        if (!(fabsl(d - want) <= tol)) { R.fail("quant-value", "%s: quantile(%.17g)=%.17g, i.e. %.17Lg beyond the threshold instead of %.17Lg (+-%Lg)", m.what.c_str(), q, z, d, want, tol); break; }
        if (!(d >= -tol)) R.fail("quant-side", "%s: quantile(%.17g)=%.17g is on the wrong side of the excess threshold %.17g", m.what.c_str(), q, z, m.t);
        if (pq > 0) {
            LD dprev = (LD)m.ud * ((LD)pz - m.t);
            LD gap = want - q_gpd(g, sg, (LD)pq / s);
            if (gap > 4 * (tol + ptol) && !(d > dprev)) R.fail("quant-monotone", "%s: quantile(%.17g)=%.17g is not beyond quantile(%.17g)=%.17g", m.what.c_str(), q, z, pq, pz);
            if (gap > 4 * (tol + ptol)) R.counts["monotone pairs"]++;
        }
        // round trip q -> z -> q ; conditioning: d(log p)/dd = 1/(sg + g d)
        LD sl = sg + g * want;
        LD rt = relp + (sl > 0 ? 2 * tol / sl : INFINITY);
        if (rt < .05L) {
            double back = m.prob(z);
            R.counts["q -> z -> q"]++;
            if (!(fabsl((LD)back - q) <= q * rt + 1e-300L)) R.fail("roundtrip-q", "%s: probability(quantile(%.17g)) = %.17g (allowed %Lg)", m.what.c_str(), q, back, rt);
        }
        pq = q; pz = z; ptol = tol;
    }
    // probabilities along increasing distances
    double prev = INFINITY;
    for (int i = 0; i < 24; i++) {
        LD d = sg * powl(10, -3 + i * .2L);
        if (g < 0) d = std::min<LD>(d, (LD)sup * (1 - powl(2, -(LD)i - 1)));
        double z = (double)((LD)m.t + m.ud * d);
        d = (LD)m.ud * ((LD)z - m.t);
        if (!(d > 0) || (g < 0 && d >= (LD)sup * (1 - 1e-9L))) continue;
        double p = m.prob(z);
        R.evaluations++;
        LD u = 1 + g * d / sg;
        LD want = g == 0 ? s * expl(-d / sg) : s * expl(-log1pl(g * d / sg) / g);
        LD cond = (fabsl((LD)z) + fabsl((LD)m.t)) * 4 * EPS / (sg * u) + (g == 0 ? 0 : 4 * EPS / u * ag);
        LD tol = want * (relp + cond + 1e-12L) + 1e-300L;
        if (!(want > 1e-290L)) break;
        if (!(fabsl(p - want) <= tol)) { R.fail("prob-value", "%s: probability(%.17g) = %.17g, expected %.17Lg", m.what.c_str(), z, p, want); break; }
        if (!(p >= 0 && p <= s * (1 + relp + cond))) R.fail("prob-range", "%s: probability(%.17g) = %.17g is outside [0, %.17Lg]", m.what.c_str(), z, p, s);
        if (!(p <= prev * (1 + 2 * (double)(relp + cond)))) R.fail("prob-monotone", "%s: probability(%.17g) = %.17g is above the probability %.17g of a less extreme value", m.what.c_str(), z, p, prev);
        prev = p;
        // z -> p -> z
        LD rr = (LD)p / s;
        LD zt = q_tol(g, sg, rr) + tol / want * (sg * u) + 16 * EPS * (fabsl((LD)m.t) + d);
        if (zt < 1e-3L * d && rr > 0 && rr <= 1 && fabsl(g * logl(rr)) < 650) {
            double back = m.quant(p);
            R.counts["z -> p -> z"]++;
            if (!(fabsl((LD)back - z) <= 3 * zt)) R.fail("roundtrip-z", "%s: quantile(probability(%.17g)) = %.17g (allowed %Lg)", m.what.c_str(), z, back, 3 * zt);
        }
    }
    // on the inner side of the excess threshold probabilities go on increasing
    double last = m.prob(m.t);
    for (int i = 0; i < 10; i++) {
        LD d = -sg * powl(10, -3 + i * .3L);
        if (1 + g * d / sg < .5L) break;
        double z = (double)((LD)m.t + m.ud * d);
        d = (LD)m.ud * ((LD)z - m.t);
        if (!(d < 0)) continue;
        double p = m.prob(z);
        LD u = 1 + g * d / sg, cond = (fabsl((LD)z) + fabsl((LD)m.t)) * 4 * EPS / (sg * u) + (g == 0 ? 0 : 4 * EPS / u * ag);
        R.evaluations++;
        R.counts["inner probabilities"]++;
        if (!(p >= last * (1 - 2 * (double)(relp + cond)))) { R.fail("prob-inner", "%s: probability(%.17g) = %.17g on the inner side of the excess threshold is below the probability %.17g of a more extreme value", m.what.c_str(), z, p, last); break; }
        last = p;
    }
    Digest dg; dg.add(m.g); dg.add(m.sg); dg.add(m.t); R.distinct.insert(dg.h);
}
static void c11_spot(uint64_t seed, long idx) {
    Rng r(seed, idx, 11);
    Params p = gen_params(r);
    if (p.cap < 5) p.cap = 20;
    ul large = big_case(r, idx, p);
    struct Spot s;
    if (spot_init(&s, p.q, p.low, p.discard, p.level, p.cap)) return;
    Source src(r);
    Vec d = src.vec(r, large ? large : gen_train_size(r));
    if (spot_fit(&s, d.data(), d.size()) == 0) {
        for (int k = 0; k < 6; k++) {
            if (s.tail.sigma > 1e-280 && s.tail.sigma < 1e280 && std::isfinite(s.tail.gamma) && s.Nt) {
                char w[256];
                snprintf(w, sizeof w, "spot t=%.17g gamma=%.17g sigma=%.17g Nt=%lu n=%lu low=%d", s.excess_threshold, s.tail.gamma, s.tail.sigma, s.Nt, s.n, s.low);
                c11_check(r, Q11{[&](double q) { return spot_quantile(&s, q); }, [&](double z) { return spot_probability(&s, z); }, s.excess_threshold, s.low ? -1.0 : 1.0, s.tail.gamma, s.tail.sigma, (double)s.Nt / (double)s.n, w});
                R.sample("%s", w);
                R.counts["detector states queried"]++;
            }
            for (int i = 0; i < (large ? 3 : 20); i++) spot_step(&s, gen_value(r, s, src, .05, .5));
        }
    }
    spot_free(&s);
}
static void c11_poked(uint64_t seed, long idx) {
    // arbitrary tails installed in the public structure
    Rng r(seed, idx, 12);
    Params p = gen_params(r);
    struct Spot s;
    if (spot_init(&s, p.q, p.low, p.discard, p.level, 5)) return;
    Vec d = Source(r, EXPO).vec(r, 50);
    spot_fit(&s, d.data(), d.size());
    s.tail.gamma = r.chance(.25) ? 0.0 : r.pick({1e-6, 1e-3, .01, .1, .25, .5, 1.0, 2.0, 5.0}) * (r.chance(.5) ? 1 : -1) * r.uni(.5, 1.5);
    s.tail.sigma = pow(10, r.uni(-6, 6));
    s.excess_threshold = r.chance(.3) ? 0 : r.normal() * s.tail.sigma * pow(10, r.uni(-3, 3));
    s.n = r.pick<ul>({10, 100, 1000, 123457, 4294967296ul, 10000000000ul});
    s.Nt = std::max<ul>(1, (ul)(s.n * r.pick({1e-8, 1e-6, 1e-4, .001, .02, .1, .5, 1.0})));
    char w[256];
    snprintf(w, sizeof w, "spot t=%.17g gamma=%.17g sigma=%.17g Nt=%lu n=%lu low=%d", s.excess_threshold, s.tail.gamma, s.tail.sigma, s.Nt, s.n, s.low);
    c11_check(r, Q11{[&](double q) { return spot_quantile(&s, q); }, [&](double z) { return spot_probability(&s, z); }, s.excess_threshold, s.low ? -1.0 : 1.0, s.tail.gamma, s.tail.sigma, (double)s.Nt / (double)s.n, w});
    // the bare tail
    double sp = (double)s.Nt / (double)s.n;
    std::string w2 = std::string("tail ") + w;
    c11_check(r, Q11{[&](double q) { return tail_quantile(&s.tail, sp, q); }, [&](double z) { return tail_probability(&s.tail, sp, z); }, 0.0, 1.0, s.tail.gamma, s.tail.sigma, sp, w2});
    R.counts["arbitrary tails queried"]++;
    spot_free(&s);
}

// =============================================================== C12 ======
static void c12_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 120);
    Params p = gen_params(r);
    if (r.chance(.7)) p.level = r.pick({.5, .8, .9, .95, .98, .99});
    if (!(p.q < 1 - p.level)) p.q = (1 - p.level) / 3;
    int kind = r.pick({GAUSS, EXPO, UNIF, PARETO, LOGN, BETA, INTS, FEW, CONST, SPARSE, MIXT, OFFSET, SCALEUP, SCALEDOWN, SORTED, REVERSED, TREND, WALK, BURST, ALTER});
    bool exch = !(kind == SORTED || kind == REVERSED || kind == TREND || kind == WALK || kind == BURST || kind == ALTER);
    ul n = r.chance(.25) ? r.below(9) : r.chance(.5) ? 5 + r.below(200) : r.pick<ul>({500, 1000, 2000, 5000, 20000});
    struct Spot s;
    if (spot_init(&s, p.q, p.low, p.discard, p.level, p.cap)) return;
    if (r.chance(.3)) { // a previous life must not leak into the status
        Vec d = Source(r).vec(r, 100);
        spot_fit(&s, d.data(), d.size());
    }
    Source src(r, kind);
    Vec d = src.vec(r, n);
    if (r.chance(.04) && n) d[r.below(n)] = r.pick({(double)INFINITY, -(double)INFINITY, (double)NAN});
    bool clean = true;
    for (double x : d) if (!std::isfinite(x)) clean = false;
    int rc = spot_fit(&s, d.data(), n);
    R.evaluations++;
    double t = s.excess_threshold, z = s.anomaly_threshold;
    R.counts[rc == 0 ? "fits ok" : rc == -ERR_EXCESS_THRESHOLD_IS_NAN ? "refused: excess threshold" : rc == -ERR_ANOMALY_THRESHOLD_IS_NAN ? "refused: anomaly threshold" : "other code"]++;
    bool nums = t == t && z == z;
    if ((rc == 0) != nums) R.fail("status", "fit of %lu %s values returned %d with excess threshold %g and anomaly threshold %g", n, KNAME[kind], rc, t, z);
    if (rc != 0 && z == z) R.fail("status-failed", "fit of %lu values failed (%d) and left an anomaly threshold %g", n, rc, z);
    if (rc != 0 && t != t && rc != -ERR_EXCESS_THRESHOLD_IS_NAN) R.fail("status-excess", "fit returned %d with a NaN excess threshold", rc);
    if (rc != 0 && t == t && rc != -ERR_ANOMALY_THRESHOLD_IS_NAN) R.fail("status-anomaly", "fit returned %d with a valid excess threshold %g and anomaly threshold %g", rc, t, z);
    if (n < 5) { R.counts["less than five values"]++; if (rc != -ERR_EXCESS_THRESHOLD_IS_NAN) R.fail("tiny", "fit of %lu values returned %d", n, rc); }
    else if (clean) {
        if (t != t) R.fail("threshold-nan", "fit of %lu finite %s values gives no excess threshold (%d)", n, KNAME[kind], rc);
        else {
            double mn = *std::min_element(d.begin(), d.end()), mx = *std::max_element(d.begin(), d.end());
            double tol = 64 * EPS * (fabs(mn) + fabs(mx));
            R.counts["ranges compared"]++;
            if (!(t >= mn - tol && t <= mx + tol)) R.fail("range", "excess threshold %.17g outside the training range [%.17g, %.17g] (%lu %s values)", t, mn, mx, n, KNAME[kind]);
            if (exch && n >= 100) {
                LD lev = p.low ? 1 - (LD)p.level : (LD)p.level;
                bool disc = kind == INTS || kind == FEW || kind == CONST || kind == SPARSE;
                // on a lattice the estimate may lie next to the value it stands for
                double nb = disc ? .05 * (mx - mn) : 0;
                if (kind == INTS || kind == FEW) nb = std::max(nb, .5);
                ul below = 0, upto = 0;
                for (double x : d) { if (x < t - nb) below++; if (x <= t + nb) upto++; }
                LD f1 = (LD)below / n, f2 = (LD)upto / n;
                LD se = sqrtl(lev * (1 - lev) / n);
                LD slack = 6 * se + 12.0L / n + .02L;
                if (disc) slack += .03L;
                R.counts[disc ? "ranks compared (ties)" : "ranks compared (continuous)"]++;
                LD err = f1 > lev ? f1 - lev : f2 < lev ? f2 - lev : 0;
                if (fabsl(err) > slack) R.fail("rank", "excess threshold %.17g has rank %.4Lf..%.4Lf among %lu %s values, requested %.4Lf (low=%d, slack %.4Lf)", t, f1, f2, n, KNAME[kind], lev, p.low, slack);
            }
        }
    }
    Digest dg; dg.add((uint64_t)n); dg.add(t); dg.add((uint64_t)rc); dg.add(p.level);
    if (n >= 5) R.distinct.insert(dg.h);
    if (n > 5) R.sample("fit of %lu %s values, level=%g low=%d -> code %d, t=%.6g z=%.6g", n, KNAME[kind], p.level, p.low, rc, t, z);
    spot_free(&s);
}
// designed experiment: the rank of the threshold over many fits of the same kind
static void c12_rank(uint64_t seed, long idx, bool large) {
    Rng r(seed, idx, large ? 122 : 121);
    static const double LV[] = {.5, .8, .9, .95, .98, .99};
    static const int KD[] = {GAUSS, EXPO, UNIF, PARETO};
    static const ul NS[] = {300, 1000, 4000};
    double level = LV[idx % 6];
    int low = (idx / 6) % 2, kind = KD[(idx / 12) % 4];
    ul n = NS[(idx / 48) % 3];
    if (n * (1 - level) < 15) n = 4000;
    if (large) n = 20000;
    struct Spot s;
    if (spot_init(&s, (1 - level) / 50, low, 1, level, 20)) return;
    Source src(r, kind);
    Vec d = src.vec(r, n);
    int rc = spot_fit(&s, d.data(), n);
    R.evaluations++;
    if (rc != 0) { R.fail("rank-code", "fit of %lu %s values (level %g low %d) returned %d", n, KNAME[kind], level, low, rc); spot_free(&s); return; }
    ul bey = 0;
    for (double x : d) if (low ? x < s.excess_threshold : x > s.excess_threshold) bey++;
    // excess of the proportion beyond the threshold, in units of the sampling error
    double e = ((double)bey / n - (1 - level)) / sqrt(level * (1 - level) / n);
    char g[64];
    snprintf(g, sizeof g, "%s.%g.%lu", low ? "low" : "up", level, n);
    printf("A\t%s\t%.6g\n", g, e);
    R.counts["designed fits"]++;
    Digest dg; dg.add(s.excess_threshold); R.distinct.insert(dg.h);
    spot_free(&s);
}

// =============================================================== C13 ======
static void c13_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 13);
    Params p = gen_params(r);
    if (idx % 41 == 5) { p.cap = r.pick<ul>({1000, 3000}); p.level = .8; p.q = 1e-3; }
    struct Spot a, b; // a has a past
    if (spot_init(&a, p.q, p.low, p.discard, p.level, p.cap) || spot_init(&b, p.q, p.low, p.discard, p.level, p.cap)) { R.fail("init", "spot_init"); return; }
    std::string past;
    int rounds = 1 + r.below(3);
    // the training data of a may always come in the same buffer
    static Vec shared(32768);
    bool reuse = r.chance(.6);
    Vec last;
    auto fita = [&](const Vec &d) {
        if (!reuse || d.size() > shared.size()) return spot_fit(&a, d.data(), d.size());
        std::copy(d.begin(), d.end(), shared.begin());
        last = d;
        R.counts["fits from a reused buffer"]++;
        return spot_fit(&a, shared.data(), d.size());
    };
    for (int k = 0; k < rounds; k++) {
        switch (r.below(5)) {
        case 0: { Source s(r); for (int i = 0; i < 50; i++) spot_step(&a, gen_value(r, a, s, .2, .4)); past += 'S'; break; } // steps, possibly before any fit
        case 1: { Vec d = Source(r).vec(r, r.below(5)); int rc = fita(d); past += rc ? 'f' : 'F'; break; } // too few
        case 2: { Vec d(20, r.pick({1.0, (double)INFINITY, (double)NAN})); int rc = fita(d); past += rc ? 'c' : 'C'; break; }
        default: {
            Source s(r);
            Vec d = s.vec(r, gen_train_size(r));
            int rc = fita(d);
            past += rc ? 'f' : 'F';
            ul L = r.below(300);
            for (ul i = 0; i < L; i++) spot_step(&a, gen_value(r, a, s, .1, .4));
            if (r.chance(.3)) { spot_quantile(&a, .01); spot_probability(&a, 1); past += 'Q'; }
            past += 'S';
        }
        }
    }
    Source s(r);
    ul n = r.chance(.08) ? r.below(6) : gen_train_size(r);
    if (p.cap >= 1000) n = 20000;
    else if (reuse && !last.empty() && r.chance(.6)) n = last.size();
    Vec d = s.vec(r, n);
    if (reuse && n > 5 && last.size() == n && r.chance(.5)) { d = last; for (int k = 0; k < 3; k++) d[r.below(n)] = s.draw(r); } // nearly the same data
    int ra = fita(d), rb = spot_fit(&b, d.data(), n);
    R.evaluations++;
    R.counts[rb == 0 ? "refits ok" : "refits refused"]++;
    if (ra != rb) R.fail("code", "fit of %lu values after history %s returned %d, %d on a new detector", n, past.c_str(), ra, rb);
    Snap x = snap(a), y = snap(b);
    const char *df = diff(x, y, IGN_STORAGE);
    if (df) R.fail((std::string("state-") + df).c_str(), "after history %s and a fit of %lu values (%s), %s differs from a new detector's", past.c_str(), n, p.str().c_str(), df);
    else {
        ul L = 30 + r.below(200);
        if (p.cap >= 1000) L = 20;
        for (ul i = 0; i < L; i++) {
            double v = gen_value(r, b, s, .15, .4);
            int va = spot_step(&a, v), vb = spot_step(&b, v);
            R.evaluations++;
            R.counts["steps compared"]++;
            if (va != vb) { R.fail("later-verdict", "after history %s and a refit, step %lu (%.17g) gives %s, %s on a new detector", past.c_str(), i, v, vname(va), vname(vb)); break; }
            x = snap(a); y = snap(b);
            // the running sums may follow another order of the same values
            Vec sx = x.data, sy = y.data;
            std::sort(sx.begin(), sx.end()); std::sort(sy.begin(), sy.end());
            bool eq = sx.size() == sy.size();
            for (size_t j = 0; eq && j < sx.size(); j++) eq = same(sx[j], sy[j]);
            if (!eq || x.s.n != y.s.n || x.s.Nt != y.s.Nt || !same(x.s.excess_threshold, y.s.excess_threshold) || !same(x.s.anomaly_threshold, y.s.anomaly_threshold)) { R.fail("later-state", "after history %s and a refit, the state diverges at step %lu", past.c_str(), i); break; }
        }
    }
    Digest dg; dg.add(b.anomaly_threshold); dg.add((uint64_t)n); for (char ch : past) dg.add((uint64_t)ch);
    if (past.find('F') != std::string::npos || past.find('S') != std::string::npos) R.distinct.insert(dg.h);
    R.sample("history %s then fit of %lu %s values (%s) -> code %d z=%.6g", past.c_str(), n, KNAME[s.kind], p.str().c_str(), ra, a.anomaly_threshold);
    spot_free(&a);
    spot_free(&b);
}

// =============================================================== C23 ======
static bool opp(double a, double b) { return same(a, -b); }
static void c23_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 23);
    Params p = gen_params(r);
    ul large = big_case(r, idx, p);
    struct Spot u, l;
    int nz = r.pick({1, 2, -1, 1024});
    if (spot_init(&u, p.q, 0, p.discard, p.level, p.cap) || spot_init(&l, p.q, nz, p.discard, p.level, p.cap)) { R.fail("init", "spot_init"); return; }
    Source src(r);
    ul n = large ? large : r.chance(.5) ? 5 : gen_train_size(r);
    Vec d = src.vec(r, n), e = d;
    for (auto &x : e) x = -x;
    int ru = spot_fit(&u, d.data(), n), rl = spot_fit(&l, e.data(), n);
    R.evaluations++;
    Digest dg;
    bool exact = opp(u.excess_threshold, l.excess_threshold);
    if (n == 5 && !exact) R.fail("median5", "fit of five values: thresholds %.17g (upper) and %.17g (lower, opposite values)", u.excess_threshold, l.excess_threshold);
    if (!exact && std::isfinite(u.excess_threshold) && std::isfinite(l.excess_threshold) && ru == 0 && (large || r.chance(.4))) {
        // the mirror of the upper detector: opposite thresholds, same tail
        R.counts["mirrored states installed"]++;
        double *blk = l.tail.peaks.container.data;
        l.excess_threshold = -u.excess_threshold; l.anomaly_threshold = -u.anomaly_threshold;
        l.n = u.n; l.Nt = u.Nt;
        l.tail = u.tail;
        l.tail.peaks.container.data = blk;
        memcpy(blk, u.tail.peaks.container.data, stored(u) * sizeof(double));
        rl = ru;
    } else if (!exact && std::isfinite(u.excess_threshold) && std::isfinite(l.excess_threshold)) {
        // install opposite thresholds through a refit on the mirrored excesses:
        // approximate comparison of the fits, then exact comparison from a mirrored state
        R.counts["approximately mirrored fits"]++;
        spot_free(&l);
        if (spot_init(&l, p.q, nz, p.discard, p.level, p.cap)) return;
        // shift the opposite training data so that both detectors share the threshold: five values give it exactly
        Vec d5(d.begin(), d.begin() + 5), e5(e.begin(), e.begin() + 5);
        ru = spot_fit(&u, d5.data(), 5);
        rl = spot_fit(&l, e5.data(), 5);
        if (!opp(u.excess_threshold, l.excess_threshold)) { R.fail("median5", "fit of five values: thresholds %.17g and %.17g", u.excess_threshold, l.excess_threshold); return; }
    }
    if (ru != rl) R.fail("fit-code", "fit of opposite values returned %d in upper mode, %d in lower mode", ru, rl);
    auto cmp = [&](const char *when, ul i) {
        const char *bad = nullptr;
        if (!opp(u.excess_threshold, l.excess_threshold)) bad = "excess threshold";
        else if (!opp(u.anomaly_threshold, l.anomaly_threshold)) bad = "anomaly threshold";
        else if (u.n != l.n) bad = "n";
        else if (u.Nt != l.Nt) bad = "Nt";
        else if (!same(u.tail.gamma, l.tail.gamma)) bad = "gamma";
        else if (!same(u.tail.sigma, l.tail.sigma)) bad = "sigma";
        else if (stored(u) != stored(l)) bad = "number of stored excesses";
        else {
            Snap a = snap(u), b = snap(l);
            std::sort(a.data.begin(), a.data.end()); std::sort(b.data.begin(), b.data.end());
            for (size_t k = 0; k < a.data.size(); k++) if (!same(a.data[k], b.data[k])) { bad = "stored excesses"; break; }
        }
        if (bad) R.fail((std::string("mirror-") + bad).c_str(), "%s %lu: %s is not mirrored (upper t=%.17g z=%.17g gamma=%.17g sigma=%.17g n=%lu Nt=%lu; lower t=%.17g z=%.17g gamma=%.17g sigma=%.17g n=%lu Nt=%lu)", when, i, bad, u.excess_threshold, u.anomaly_threshold, u.tail.gamma, u.tail.sigma, u.n, u.Nt, l.excess_threshold, l.anomaly_threshold, l.tail.gamma, l.tail.sigma, l.n, l.Nt);
        return !bad;
    };
    bool ok = cmp("fit", 0);
    ul L = large ? 25 : 50 + r.below(400), nx = 0;
    double hostile = r.pick({.05, .3}), ex = r.pick({.1, .5});
    for (ul i = 0; ok && i < L; i++) {
        double x = gen_value(r, u, src, hostile, ex);
        int a = spot_step(&u, x), b = spot_step(&l, -x);
        R.evaluations++;
        R.counts[vname(a)]++;
        nx += a == EXCESS;
        dg.add((uint64_t)a);
        if (a != b) { R.fail("verdict", "step %lu: upper mode says %s for %.17g, lower mode says %s for the opposite", i, vname(a), x, vname(b)); break; }
        ok = cmp("step", i);
        if (i % 7 == 0 && ok) {
            double q = r.pick({1e-6, 1e-3, p.q, .2}), z = gen_value(r, u, src, .3, .5);
            if (!opp(spot_quantile(&u, q), spot_quantile(&l, q))) R.fail("quantile", "quantile(%g): %.17g in upper mode, %.17g in lower mode", q, spot_quantile(&u, q), spot_quantile(&l, q));
            if (!same(spot_probability(&u, z), spot_probability(&l, -z))) R.fail("probability", "probability(%.17g) is %.17g in upper mode and %.17g in lower mode for the opposite", z, spot_probability(&u, z), spot_probability(&l, -z));
            R.counts["mirrored queries"] += 2;
        }
    }
    if (nx > 2) { R.distinct.insert(dg.h); R.sample("mirror %ld: q=%g level=%g discard=%d max_excess=%lu source=%s train=%lu steps=%lu excesses=%lu final z=%.6g/%.6g", idx, p.q, p.level, p.discard, p.cap, KNAME[src.kind], n, L, nx, u.anomaly_threshold, l.anomaly_threshold); }
    R.counts[exact ? "exactly mirrored fits" : "re-fitted on five values"]++;
    spot_free(&u);
    spot_free(&l);
}
// =============================================================== C24 ======
static void c24_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 24);
    Params p = gen_params(r);
    ul large = big_case(r, idx, p);
    Source src(r);
    if (src.kind == CONST || src.kind == FEW) src = Source(r, EXPO);
    int k = r.pick({-40, -20, -10, -3, -1, 1, 2, 5, 10, 20, 40, 60});
    double f = ldexp(1, k);
    struct Spot a, b;
    if (spot_init(&a, p.q, p.low, p.discard, p.level, p.cap) || spot_init(&b, p.q, p.low, p.discard, p.level, p.cap)) return;
    ul n = large ? large : gen_train_size(r);
    Vec d = src.vec(r, n), e = d;
    for (auto &x : e) x *= f;
    int ra = spot_fit(&a, d.data(), n), rb = spot_fit(&b, e.data(), n);
    R.evaluations++;
    if (ra != rb) R.fail("code", "fit of %lu values scaled by 2^%d returned %d instead of %d", n, k, rb, ra);
    if (!same(a.excess_threshold * f, b.excess_threshold)) R.fail("threshold", "excess threshold %.17g becomes %.17g when the data are scaled by 2^%d", a.excess_threshold, b.excess_threshold, k);
    Digest dg;
    ul cmp = 0, tie = 0, nx = 0;
    auto state = [&](const char *when, ul i) -> bool { // false: stop (tie or failure)
        if (a.n != b.n || a.Nt != b.Nt || stored(a) != stored(b)) { R.fail("counters", "%s %lu: counters differ under scaling by 2^%d", when, i, k); return false; }
        double g1 = a.tail.gamma, g2 = b.tail.gamma, s1 = a.tail.sigma, s2 = b.tail.sigma / f;
        if (g1 != g1 && g2 != g2) return true;
        Snap sa = snap(a);
        LD m = 0, v = 0; size_t N = sa.data.size();
        for (double y : sa.data) m += y;
        m /= N ? N : 1;
        for (double y : sa.data) v += (y - m) * (y - m);
        LD top = 0, bot = 1e300L;
        for (double y : sa.data) { top = std::max<LD>(top, y); bot = std::min<LD>(bot, y); }
        if (!(top < 1e100L && top > 1e-100L)) { R.counts["extreme magnitudes skipped"]++; return false; }
        if (N < 2 || !(v / N > 1e-4L * m * m)) { R.counts["degenerate windows skipped"]++; return false; }
        cmp++;
        if (fabs(g1 - g2) <= 1e-6 * (1 + fabs(g1)) && fabs(s1 - s2) <= 1e-6 * fabs(s1)) {
            double z1 = a.anomaly_threshold, z2 = b.anomaly_threshold / f;
            // what the difference of the tails explains, and the rounding of both evaluations (dominant for shapes close to zero)
            LD q = (LD)p.q * a.n / a.Nt, w = fabsl((LD)z1 - a.excess_threshold) + fabs(a.excess_threshold);
            LD tol = 2 * fabsl(q_gpd(g1, s1, q) - q_gpd(g2, s2, q)) + 2 * q_tol(g1, s1, q) + 2 * q_tol(g2, s2, q) + 1e-12L * w;
            if (!(w < 1e250L)) { R.counts["overflowing thresholds skipped"]++; return false; }
            if (!same(z1, z2) && !(fabsl((LD)z1 - z2) <= tol) && std::isfinite(tol)) { R.fail("anomaly-threshold", "%s %lu: anomaly threshold %.17g becomes %.17g under scaling by 2^%d", when, i, a.anomaly_threshold, z2, k); return false; }
            return true;
        }
        // another tail is acceptable only when the two are equally likely
        LD l1 = ll_gpd(sa.data, g1, s1), l2 = ll_gpd(sa.data, g2, s2);
        LD tol = 1e-5L + 1e-8L * N + (g1 != 0 ? fabsl(1 + 1 / (LD)g1) * N * 2e-10L : 0) + (g2 != 0 ? fabsl(1 + 1 / (LD)g2) * N * 2e-10L : 0);
        if (fabsl(l1 - l2) <= tol) { tie++; return false; }
        LD mx = *std::max_element(sa.data.begin(), sa.data.end());
        if (1 + g1 / (LD)s1 * mx < 1e-6L || 1 + g2 / (LD)s2 * mx < 1e-6L) { R.counts["boundary fits skipped"]++; return false; }
        R.fail("tail", "%s %lu: gamma=%.17g sigma=%.17g (log-likelihood %.12Lg) becomes gamma=%.17g sigma=%.17g*2^%d (%.12Lg) under scaling, %zu excesses", when, i, g1, s1, l1, g2, s2, k, l2, N);
        return false;
    };
    bool ok = ra == 0 && rb == 0 && state("fit", 0);
    ul L = 30 + r.below(200);
    for (ul i = 0; ok && i < L; i++) {
        double x = gen_value(r, a, src, 0, .3);
        double z = a.anomaly_threshold, t = a.excess_threshold;
        // leave out values within rounding of the anomaly threshold
        if (fabs(x - z) <= 1e-9 * (fabs(z - t) + fabs(t)) + 2 * fabs(z - b.anomaly_threshold / f)) continue;
        int va = spot_step(&a, x), vb = spot_step(&b, x * f);
        R.evaluations++;
        R.counts[vname(va)]++;
        nx += va == EXCESS;
        dg.add((uint64_t)va);
        if (va != vb) { R.fail("verdict", "step %lu: %s for %.17g, %s when everything is scaled by 2^%d (z=%.17g, scaled %.17g)", i, vname(va), x, vname(vb), k, z, b.anomaly_threshold); break; }
        if (va == EXCESS) ok = state("step", i);
    }
    R.counts["tails compared"] += cmp;
    R.counts["likelihood ties"] += tie;
    R.counts["scaled runs"]++;
    if (cmp > 1) { dg.add(a.anomaly_threshold); R.distinct.insert(dg.h); R.sample("scale %ld: 2^%d, %s source=%s train=%lu excesses=%lu z=%.6g -> %.6g", idx, k, p.str().c_str(), KNAME[src.kind], n, nx, a.anomaly_threshold, b.anomaly_threshold); }
    spot_free(&a);
    spot_free(&b);
}

// =============================================================== C26 ======
// the whole state is in the structure and its block: a detector that is moved,
// cloned, rolled back or resumed in another process behaves like its twin
struct Image { struct Spot s; Vec block; };
static Image image(const struct Spot &s) {
    Image i;
    memset(&i.s, 0, sizeof i.s);
    i.s = s;
    ul c = s.tail.peaks.container.capacity;
    i.block.assign(c, 0.0);
    if (c) memcpy(i.block.data(), s.tail.peaks.container.data, c * sizeof(double));
    return i;
}
static void resume_run(struct Spot &s, Rng &r, Source &src, ul n, Digest &d) {
    for (ul i = 0; i < n; i++) {
        if (r.chance(.1)) { d.add(spot_quantile(&s, r.u() * .1)); d.add(spot_probability(&s, gen_value(r, s, src, .1, .5))); continue; }
        d.add((uint64_t)spot_step(&s, gen_value(r, s, src, .15, .4)));
        d.add(s.anomaly_threshold); d.add(s.tail.gamma); d.add(s.tail.sigma); d.add((uint64_t)s.n); d.add((uint64_t)s.Nt);
        d.add(s.tail.peaks.e); d.add(s.tail.peaks.e2); d.add(s.tail.peaks.min); d.add(s.tail.peaks.max);
    }
}
static void c26_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 26);
    Params p = gen_params(r);
    if (p.cap > 128) p.cap = 100;
    ul large = big_case(r, idx, p);
    struct Spot b; // untouched twin
    memset(&b, 0, sizeof b);
    std::vector<void *> junk;
    auto room = [&](bool zero) { // a fresh place for a structure
        unsigned char *m = (unsigned char *)malloc(sizeof(struct Spot) + 512);
        memset(m, zero ? 0 : 0xEE, sizeof(struct Spot) + 512);
        junk.push_back(m);
        return (struct Spot *)(m + 8 * r.below(60));
    };
    struct Spot *a = room(true);
    if (spot_init(a, p.q, p.low, p.discard, p.level, p.cap) || spot_init(&b, p.q, p.low, p.discard, p.level, p.cap)) { R.fail("init", "spot_init"); return; }
    auto block = [](struct Spot &s) -> double *& { return s.tail.peaks.container.data; };
    const size_t bytes = p.cap * sizeof(double);
    Source src(r);
    std::string trace;
    Digest dg;
    ul L = large ? 30 : 60 + r.below(240), nx = 0, moves = 0;
    bool bad = false;
    for (ul i = 0; i < L && !bad; i++) {
        // ---- disturb a, not b
        const char *what = nullptr;
        if (i == 0 || r.chance(.25)) {
            moves++;
            switch (r.below(6)) {
            case 0: { // the structure moves, the old one is overwritten
                struct Spot *n = room(false);
                memcpy(n, a, sizeof *n);
                memset(a, r.pick({0, 0xff, 0x55}), sizeof *a);
                a = n; what = "the structure moved"; trace += 'm';
                break;
            }
            case 1: { // returned by value
                auto ret = [](struct Spot *x) { struct Spot y = *x; return y; };
                struct Spot *n = room(false);
                *n = ret(a);
                memset(a, 0xff, sizeof *a);
                a = n; what = "the structure was passed by value"; trace += 'v';
                break;
            }
            case 2: { // its block moves
                double *n = (double *)malloc(bytes);
                memcpy(n, block(*a), bytes);
                memset(block(*a), 0xff, bytes);
                free(block(*a));
                block(*a) = n; what = "its block moved"; trace += 'b';
                break;
            }
            case 3: { // rolled back after going on
                Image im = image(*a);
                Source other(r);
                ul k = 1 + r.below(40);
                if (r.chance(.3)) { Vec v = other.vec(r, 5 + r.below(100)); spot_fit(a, v.data(), v.size()); }
                for (ul j = 0; j < k; j++) spot_step(a, gen_value(r, *a, other, .1, .5));
                double *keep = block(*a);
                *a = im.s;
                block(*a) = keep;
                memcpy(keep, im.block.data(), bytes);
                what = "it was rolled back to a checkpoint"; trace += 'r';
                break;
            }
            case 4: { // a clone goes its own way and is freed
                struct Spot *n = room(false);
                memcpy(n, a, sizeof *n);
                block(*n) = (double *)malloc(bytes);
                memcpy(block(*n), block(*a), bytes);
                Source other(r);
                ul k = 1 + r.below(40);
                for (ul j = 0; j < k; j++) spot_step(n, gen_value(r, *n, other, .1, .5));
                if (r.chance(.5)) { Vec v = other.vec(r, 5 + r.below(100)); spot_fit(n, v.data(), v.size()); }
                spot_free(n);
                what = "a clone of it went on and was freed"; trace += 'c';
                break;
            }
            default: { // its clone takes over, the original is freed
                struct Spot *n = room(false);
                memcpy(n, a, sizeof *n);
                block(*n) = (double *)malloc(bytes);
                memcpy(block(*n), block(*a), bytes);
                spot_free(a);
                memset(a, 0xff, sizeof *a);
                a = n; what = "its clone took over"; trace += 'o';
            }
            }
            R.counts[what]++;
        }
        // ---- the same call on both
        int ra, rb;
        if (i == 0 || r.chance(.01)) {
            Vec v = src.vec(r, large ? large : gen_train_size(r));
            ra = spot_fit(a, v.data(), v.size());
            rb = spot_fit(&b, v.data(), v.size());
            trace += 'F';
        } else if (r.chance(.1)) {
            double q = r.u() * .2, x = gen_value(r, b, src, .1, .5);
            ra = rb = 0;
            if (!same(spot_quantile(a, q), spot_quantile(&b, q)) || !same(spot_probability(a, x), spot_probability(&b, x))) { R.fail("query", "call %lu: queries differ from those of the untouched twin after %s", i, what ? what : trace.c_str()); bad = true; }
        } else {
            double x = gen_value(r, b, src, .15, .4);
            ra = spot_step(a, x);
            rb = spot_step(&b, x);
            nx += rb == EXCESS;
        }
        R.evaluations++;
        if (ra != rb) { R.fail("result", "call %lu returns %d, %d on the untouched twin (%s; %s)", i, ra, rb, what ? what : trace.c_str(), p.str().c_str()); break; }
        const char *df = diff(snap(*a), snap(b));
        if (df) { R.fail((std::string("state-") + df).c_str(), "call %lu: %s differs from the untouched twin's (%s; %s)", i, df, what ? what : trace.c_str(), p.str().c_str()); break; }
        dg.add((uint64_t)rb);
    }
    dg.add(b.anomaly_threshold);
    for (char ch : trace) dg.add((uint64_t)ch);
    if (nx > 3 && moves > 3) R.distinct.insert(dg.h);
    R.counts["twins"]++;
    R.sample("twins %ld: %s, %lu calls, moves %s (m moved, v by value, b block moved, r rolled back, c cloned, o clone took over, F fit), %lu excesses", idx, p.str().c_str(), L, trace.substr(0, 60).c_str(), nx);
    spot_free(a);
    spot_free(&b);
    for (void *j : junk) free(j);
}
// checkpoint written to a file and resumed by another process
static const char *SELF;
static void c26_resume(uint64_t seed, long idx) {
    Rng r(seed, idx, 261);
    Params p = gen_params(r);
    struct Spot s;
    memset(&s, 0, sizeof s);
    if (spot_init(&s, p.q, p.low, p.discard, p.level, p.cap)) { R.fail("init", "spot_init"); return; }
    Source src(r);
    Vec v = src.vec(r, gen_train_size(r));
    spot_fit(&s, v.data(), v.size());
    ul k = r.below(200);
    for (ul i = 0; i < k; i++) spot_step(&s, gen_value(r, s, src, .15, .4));
    char path[] = "./spot-image-XXXXXX";
    int fd = mkstemp(path);
    if (fd < 0) return;
    FILE *f = fdopen(fd, "wb");
    Image im = image(s);
    fwrite(&im.s, sizeof im.s, 1, f);
    fwrite(im.block.data(), sizeof(double), im.block.size(), f);
    fwrite(&src, sizeof src, 1, f);
    fclose(f);
    Digest d;
    Rng rr(seed, idx, 262);
    resume_run(s, rr, src, 200, d);
    char cmd[600], out[64] = "";
    snprintf(cmd, sizeof cmd, "'%s' resume %s %llu %ld", SELF, path, (unsigned long long)seed, idx);
    FILE *pp = popen(cmd, "r");
    if (pp) {
        if (!fgets(out, sizeof out, pp)) out[0] = 0;
        int st = pclose(pp);
        R.evaluations++;
        R.counts["resumed in another process"]++;
        if (st != 0) R.fail("resume-crash", "the process that resumes the checkpoint ended with status %d", st);
        else if (strtoull(out, 0, 16) != d.h) R.fail("resume", "resumed from a checkpoint in another process, the detector does not go on as the original does (%s, %lu steps before)", p.str().c_str(), k);
    }
    unlink(path);
    R.distinct.insert(d.h);
    spot_free(&s);
}
static int resume_main(char **v) {
    FILE *f = fopen(v[2], "rb");
    struct Spot s;
    if (!f || fread(&s, sizeof s, 1, f) != 1) return 3;
    ul c = s.tail.peaks.container.capacity;
    double *b = (double *)malloc(c * sizeof(double) + 8);
    alignas(Source) unsigned char raw[sizeof(Source)];
    if (fread(b, sizeof(double), c, f) != c || fread(raw, sizeof(Source), 1, f) != 1) return 3;
    fclose(f);
    s.tail.peaks.container.data = b;
    Digest d;
    Rng rr(strtoull(v[3], 0, 10), atol(v[4]), 262);
    resume_run(s, rr, *(Source *)raw, 200, d);
    printf("%llx\n", (unsigned long long)d.h);
    return 0;
}

// =============================================================== C27 ======
// values on a dyadic grid, so that adding the shift is exact
static void c27_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 27);
    Params p = gen_params(r);
    if (p.level < .3) { p.level = .9; p.q = 1e-3; }
    ul large = big_case(r, idx, p);
    Source src(r, r.pick<int>({GAUSS, EXPO, UNIF, PARETO, LOGN, BETA, MIXT, SORTED, REVERSED, BURST}));
    src.a = 0; src.b = r.pick({.25, 1., 1., 4.});
    auto grid = [](double x) { return rint(ldexp(x, 28)) * 0x1p-28; };
    ul n = large ? large : 50 + r.below(950);
    Vec d = src.vec(r, n);
    for (auto &x : d) { x = grid(x); if (fabs(x) > 1024) x = r.u(); }
    for (auto &x : d) x = grid(x);
    struct Spot a, b;
    if (spot_init(&a, p.q, p.low, p.discard, p.level, p.cap) || spot_init(&b, p.q, p.low, p.discard, p.level, p.cap)) return;
    int ra = spot_fit(&a, d.data(), n);
    if (ra) { R.counts["fits refused"]++; spot_free(&a); spot_free(&b); return; }
    double c;
    switch (r.below(6)) {
    case 0: c = grid(-a.excess_threshold); break;              // the threshold lands next to zero
    case 1: c = fabs(a.anomaly_threshold) < 1000 ? grid(-a.anomaly_threshold) : 10; break;
    case 2: c = -1e3 - grid(100 * r.u()); break;               // everything negative
    case 3: c = 1e3 + grid(100 * r.u()); break;                // everything positive
    case 4: c = r.pick({1.0, -1.0, 65536.0, -65536.0, .5, -262144.0}); break;
    default: c = grid(r.uni(-50, 50)); break;
    }
    Vec e = d;
    double mag = fabs(c);
    for (auto &x : e) { mag = std::max(mag, fabs(x)); x += c; }
    const double tt = 1e-11 * (mag + 1); // rounding of the interpolated threshold
    int rb = spot_fit(&b, e.data(), n);
    R.evaluations++;
    R.counts["shifted fits"]++;
    bool ok = true;
    double t = a.excess_threshold;
    for (double x : d) if (fabs(x - t) <= 4 * tt) { R.counts["values at the threshold: skipped"]++; ok = false; break; }
    if (ok && ra != rb) { R.fail("code", "fit of %lu values shifted by %.17g returned %d instead of %d", n, c, rb, ra); ok = false; }
    if (ok && !(fabs(b.excess_threshold - c - t) <= tt)) { R.fail("threshold", "excess threshold %.17g becomes %.17g when the %lu %s values are shifted by %.17g", t, b.excess_threshold, n, KNAME[src.kind], c); ok = false; }
    Digest dg;
    ul cmp = 0, nx = 0;
    auto state = [&](const char *when, ul i) -> bool {
        if (a.n != b.n || a.Nt != b.Nt || stored(a) != stored(b)) { R.fail("counters", "%s %lu: counters differ under a shift by %.17g (n %lu/%lu Nt %lu/%lu)", when, i, c, a.n, b.n, a.Nt, b.Nt); return false; }
        Snap sa = snap(a), sb = snap(b);
        size_t N = sa.data.size();
        for (size_t j = 0; j < N; j++) if (!(fabs(sa.data[j] - sb.data[j]) <= 4 * tt)) { R.fail("excess", "%s %lu: stored excess %.17g becomes %.17g under a shift by %.17g", when, i, sa.data[j], sb.data[j], c); return false; }
        LD m = 0, v = 0, top = 0;
        for (double y : sa.data) { m += y; top = std::max<LD>(top, y); }
        m /= N ? N : 1;
        for (double y : sa.data) v += (y - m) * (y - m);
        if (N < 8 || !(v / N > 1e-3L * m * m) || !(m > 1e4 * tt)) { R.counts["degenerate windows skipped"]++; return false; }
        double g1 = a.tail.gamma, g2 = b.tail.gamma, s1 = a.tail.sigma, s2 = b.tail.sigma;
        LD q = (LD)p.q * a.n / a.Nt;
        cmp++;
        if (fabs(g1 - g2) <= 1e-3 * (1 + fabs(g1)) && fabs(s1 - s2) <= 1e-3 * fabs(s1)) {
            double z1 = a.anomaly_threshold, z2 = b.anomaly_threshold - c;
            LD w = fabsl((LD)z1 - a.excess_threshold) + mag;
            LD tol = 2 * fabsl(q_gpd(g1, s1, q) - q_gpd(g2, s2, q)) + 2 * q_tol(g1, s1, q) + 2 * q_tol(g2, s2, q) + 1e-10L * w + tt;
            if (!(w < 1e12L)) { R.counts["far thresholds skipped"]++; return false; }
            if (!(fabsl((LD)z1 - z2) <= tol) && std::isfinite(tol)) { R.fail("anomaly-threshold", "%s %lu: anomaly threshold %.17g becomes %.17g (less the shift) under a shift by %.17g", when, i, z1, z2, c); return false; }
            // probabilities in the tail
            double y = (double)m * r.uni(.1, 2), ud = p.low ? -1 : 1, x = a.excess_threshold + ud * y;
            if (1 + g1 / s1 * y > .2 && fabs(g1) > 1e-2) {
                double p1 = spot_probability(&a, x), p2 = spot_probability(&b, x + c);
                R.evaluations++;
                R.counts["probabilities compared"]++;
                if (!(fabs(p1 - p2) <= (2e-2 + 50 * tt / (double)m) * p1 + 1e-12)) { R.fail("probability", "%s %lu: probability %.17g becomes %.17g under a shift by %.17g", when, i, p1, p2, c); return false; }
            }
            return true;
        }
        LD l1 = ll_gpd(sa.data, g1, s1), l2 = ll_gpd(sa.data, g2, s2);
        LD tol = 1e-4L + 1e-6L * N + (g1 != 0 ? fabsl(1 + 1 / (LD)g1) * N * 2e-9L : 0) + (g2 != 0 ? fabsl(1 + 1 / (LD)g2) * N * 2e-9L : 0);
        if (fabsl(l1 - l2) <= tol) { R.counts["likelihood ties"]++; return false; }
        if (1 + g1 / (LD)s1 * top < 1e-4L || 1 + g2 / (LD)s2 * top < 1e-4L) { R.counts["boundary fits skipped"]++; return false; }
        R.fail("tail", "%s %lu: gamma=%.17g sigma=%.17g (log-likelihood %.12Lg) becomes gamma=%.17g sigma=%.17g (%.12Lg) under a shift by %.17g, %zu excesses", when, i, g1, s1, l1, g2, s2, l2, c, N);
        return false;
    };
    if (ok) state("fit", 0); // a window too small to compare may still be streamed
    ul L = ok ? 30 + r.below(200) : 0;
    for (ul i = 0; i < L; i++) {
        double x = grid(gen_value(r, a, src, 0, .3)), z = a.anomaly_threshold;
        if (!(fabs(x) < 2048)) continue;
        double near = 1e-6 * (fabs(z - t) + 1) + 4 * tt + 4 * fabs(z - (b.anomaly_threshold - c));
        if (!(fabs(x - z) > near) || fabs(x - t) <= 4 * tt) continue;
        int va = spot_step(&a, x), vb = spot_step(&b, x + c);
        R.evaluations++;
        R.counts[vname(va)]++;
        nx += va == EXCESS;
        dg.add((uint64_t)va);
        if (va != vb) { R.fail("verdict", "step %lu: %s for %.17g, %s when everything is shifted by %.17g (z=%.17g, shifted %.17g)", i, vname(va), x, vname(vb), c, z, b.anomaly_threshold); break; }
        if (va == EXCESS && !state("step", i)) break;
    }
    R.counts["tails compared"] += cmp;
    if (cmp > 1) { dg.add(a.anomaly_threshold); R.distinct.insert(dg.h); R.sample("shift %ld: %.9g, %s source=%s train=%lu excesses=%lu z=%.6g -> %.6g", idx, c, p.str().c_str(), KNAME[src.kind], n, nx, a.anomaly_threshold, b.anomaly_threshold); }
    spot_free(&a);
    spot_free(&b);
}

// =============================================================== C28 ======
// the tail of a detector against that of a new tail given the same excesses in
// another order (and, before them, others that have left it)
static void c28_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 28);
    Params p = gen_params(r);
    if (r.chance(.7)) p.cap = r.pick<ul>({3, 10, 30, 100, 300});
    ul large = big_case(r, idx, p);
    Source src(r, r.pick<int>({GAUSS, EXPO, UNIF, PARETO, LOGN, BETA, MIXT, SORTED, REVERSED, BURST, TREND, WALK}));
    struct Spot a;
    if (spot_init(&a, p.q, p.low, p.discard, p.level, p.cap)) return;
    ul n = large ? large : 50 + r.below(950);
    Vec d = src.vec(r, n);
    if (spot_fit(&a, d.data(), n)) { spot_free(&a); return; }
    Digest dg;
    ul cmp = 0, nx = 0;
    auto compare = [&](const char *when, ul i) {
        Snap sa = snap(a);
        Vec y = sa.data;
        size_t N = y.size();
        LD m = 0, v = 0, top = 0, bot = INFINITY;
        for (double x : y) { m += x; top = std::max<LD>(top, x); bot = std::min<LD>(bot, x); }
        m /= N ? N : 1;
        for (double x : y) v += (x - m) * (x - m);
        if (N < 3 || !(v / N > 1e-3L * m * m) || !(top < 1e100L && m > 1e-100L)) { R.counts["degenerate windows skipped"]++; return; }
        struct Tail t;
        bool exact = r.chance(.5); // a window that wraps: what comes first is evicted
        if (tail_init(&t, exact ? N : N + 1 + r.below(2 * N)) < 0) return;
        ul junk = exact ? r.below(2 * N + 1) : 0;
        for (ul j = 0; j < junk; j++) { tail_push(&t, (double)m * r.expo() * 3); if (r.chance(.05)) tail_fit(&t); }
        std::sort(y.begin(), y.end());
        int how = r.below(3);
        if (how == 1) std::reverse(y.begin(), y.end());
        if (how == 2) for (size_t j = N; j > 1; j--) std::swap(y[j - 1], y[r.below(j)]);
        for (double x : y) tail_push(&t, x);
        tail_fit(&t);
        double g1 = a.tail.gamma, s1 = a.tail.sigma, g2 = t.gamma, s2 = t.sigma;
        tail_free(&t);
        R.evaluations++;
        R.counts[how == 0 ? "compared with increasing order" : how == 1 ? "compared with decreasing order" : "compared with random order"]++;
        if (junk) R.counts["compared with a tail that had a past"]++;
        cmp++;
        dg.add(g1);
        if (fabs(g1 - g2) <= 1e-5 * (1 + fabs(g1)) && fabs(s1 - s2) <= 1e-5 * fabs(s1)) return;
        LD l1 = ll_gpd(sa.data, g1, s1), l2 = ll_gpd(sa.data, g2, s2);
        LD tol = 1e-5L + 1e-8L * N + (g1 != 0 ? fabsl(1 + 1 / (LD)g1) * N * 2e-10L : 0) + (g2 != 0 ? fabsl(1 + 1 / (LD)g2) * N * 2e-10L : 0);
        if (fabsl(l1 - l2) <= tol) { R.counts["likelihood ties"]++; return; }
        if (1 + g1 / (LD)s1 * top < 1e-4L || 1 + g2 / (LD)s2 * top < 1e-4L) { R.counts["boundary fits skipped"]++; return; }
        R.fail("order", "%s %lu: the tail of the detector is gamma=%.17g sigma=%.17g (log-likelihood %.12Lg), the same %zu excesses given to a new tail in another order give gamma=%.17g sigma=%.17g (%.12Lg)", when, i, g1, s1, l1, N, g2, s2, l2);
    };
    compare("fit", 0);
    ul L = large ? 30 : 50 + r.below(400);
    double rate = r.pick({.1, .3, .8});
    for (ul i = 0; i < L; i++) {
        double x = gen_value(r, a, src, 0, rate);
        if (r.chance(.1)) { spot_quantile(&a, p.q / 2); spot_probability(&a, x); }
        if (spot_step(&a, x) != EXCESS) continue;
        nx++;
        if (r.chance(large ? .2 : 30. / (1 + stored(a))) || r.chance(.02)) compare("step", i);
    }
    if (cmp > 2) { R.distinct.insert(dg.h); R.sample("order %ld: %s source=%s train=%lu excesses=%lu compared %lu times", idx, p.str().c_str(), KNAME[src.kind], n, nx, cmp); }
    spot_free(&a);
}

int main(int c, char **v) {
    SELF = v[0];
    if (c == 5 && !strcmp(v[1], "resume")) { install_libc(); return resume_main(v); }
    if (!harness_args(c, v)) return 2;
    long n = R.cases;
    uint64_t s = R.seed;
    install_libc();
    const std::string &P = R.prop;
    if (P == "C02") { case_loop("history", n, [&](long i) { c02_case(s, i); }); case_loop("noalloc", n / 10, [&](long i) { c02_noalloc(s, i); }); case_loop("stack", n / 100, [&](long i) { c02_stack(s, i); }); }
    else if (P == "C03") case_loop("init", n, [&](long i) { c03_case(s, i); });
    else if (P == "C07") case_loop("twin", n, [&](long i) { c07_twin(s, i); });
    else if (P == "C11") { case_loop("spot", n, [&](long i) { c11_spot(s, i); }); case_loop("poked", 2 * n, [&](long i) { c11_poked(s, i); }); }
    else if (P == "C12") { case_loop("fit", n, [&](long i) { c12_case(s, i); }); case_loop("rank", 3 * n, [&](long i) { c12_rank(s, i, false); }); case_loop("ranklarge", n * 3 / 5, [&](long i) { c12_rank(s, i, true); }); }
    else if (P == "C13") case_loop("refit", n, [&](long i) { c13_case(s, i); });
    else if (P == "C23") { case_loop("mirror", n, [&](long i) { c23_case(s, i); }); }
    else if (P == "C24") case_loop("scale", n, [&](long i) { c24_case(s, i); });
    else if (P == "C28") case_loop("order", n, [&](long i) { c28_case(s, i); });
    else if (P == "C27") case_loop("shift", n, [&](long i) { c27_case(s, i); });
    else if (P == "C26") { case_loop("twins", n, [&](long i) { c26_case(s, i); }); case_loop("resume", n / 20, [&](long i) { c26_resume(s, i); }); }
    else return 2;
    R.finish();
    return 0;
}
