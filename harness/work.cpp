// C25: work per call, in basic blocks of the library executed.  The library is
// compiled with -fsanitize-coverage=trace-pc-guard; this file is not.
#include "common.hpp"

static uint64_t ticks;
extern "C" void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { for (; a < b; a++) *a = 1; }
extern "C" void __sanitizer_cov_trace_pc_guard(uint32_t *) { ticks++; }
template <class F> static uint64_t cost(F f) { uint64_t t = ticks; f(); return ticks - t; }
static std::map<std::string, uint64_t> top;
static void most(const char *k, uint64_t v) { auto &x = top[k]; if (v > x) x = v; }


static const double FLAT = 500, PER_STORED = 10000, PER_STORED_LARGE = 4000, PER_VALUE = 300;

static void c25_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 25);
    Params p = gen_params(r);
    bool big = idx % 5 == 1;  // large windows
    bool data = idx % 5 == 3; // large training sets
    if (big) { p.cap = r.pick<ul>({1000, 5000, 5000, 20000}); p.level = r.pick({.5, .8}); p.q = 1e-4; }
    if (data) { p.level = r.pick({.5, .9, .98}); p.q = 1e-4; p.cap = r.pick<ul>({1, 4, 20, 200, 500}); }
    struct Spot s;
    if (spot_init(&s, p.q, p.low, p.discard, p.level, p.cap)) { R.fail("init", "spot_init refused %s", p.str().c_str()); return; }
    Source src(r, big || data ? r.pick<int>({GAUSS, EXPO, UNIF, PARETO, LOGN, BETA}) : r.pick<int>({GAUSS, EXPO, UNIF, PARETO, LOGN, BETA, INTS, FEW, CONST, SPARSE, MIXT, SORTED, REVERSED, TREND, WALK, ALTER}));
    bool random = src.kind <= BETA; // continuous, in random order
    Digest dg;
    int fits = big || data ? 1 : 1 + r.below(2);
    for (int k = 0; k < fits; k++) {
        ul n = big ? 3 * p.cap + r.below(3 * p.cap) : data ? 20000 + r.below(60000) : gen_train_size(r);
        Vec d = src.vec(r, n);
        uint64_t f = cost([&] { spot_fit(&s, d.data(), n); });
        ul st = stored(s);
        R.evaluations++;
        R.counts["fits metered"]++;
        dg.add(f);
        double lim = PER_VALUE * n + PER_STORED * (st + 1.0);
        if (!random) lim += 40. * n * std::min(p.cap, n);
        most("fit: blocks per value", f / n);
        if (f > lim) R.fail(random ? "fit" : "fit-ordered", "fitting %lu %s values (%lu stored, %s) executes %lu blocks, bound %.0f", n, KNAME[src.kind], st, p.str().c_str(), f, lim);
    }
    ul L = big ? 40 : 150, nx = 0;
    bool poke = !big && r.chance(.2); // as after a very long stream
    for (ul i = 0; i < L; i++) {
        if (poke && i == 20) { ul m = 1ul << (20 + r.below(30)); s.n += m; s.Nt += (ul)(m * (1 - p.level)); R.counts["very long streams"]++; }
        double x = gen_value(r, s, src, .2, big ? .2 : .3);
        int v = 0;
        uint64_t k = cost([&] { v = spot_step(&s, x); });
        ul st = stored(s);
        R.evaluations++;
        R.counts[vname(v)]++;
        if (v == EXCESS) {
            nx++;
            dg.add(k);
            double lim = (st >= 5000 ? PER_STORED_LARGE : PER_STORED) * (st + 1.0);
            most(st >= 5000 ? "excess, large window: blocks per stored value" : "excess: blocks per stored value", k / (st + 1));
            if (k > lim) R.fail(st >= 5000 ? "excess-large" : "excess", "an excess with %lu stored (%s) executes %lu blocks, bound %.0f", st, p.str().c_str(), k, lim);
        } else {
            most("other steps: blocks", k);
            if (k > FLAT) R.fail((std::string("step-") + vname(v)).c_str(), "a %s step with %lu stored executes %lu blocks, bound %.0f", vname(v), st, k, FLAT);
        }
        uint64_t a = cost([&] { spot_quantile(&s, r.chance(.5) ? p.q : r.u()); }), b = cost([&] { spot_probability(&s, x); });
        R.evaluations += 2;
        R.counts["queries"] += 2;
        most("queries: blocks", std::max(a, b));
        if (a > FLAT || b > FLAT) R.fail("query", "a query with %lu stored executes %lu blocks, bound %.0f", st, std::max(a, b), FLAT);
    }
    if (nx > 2) R.distinct.insert(dg.h);
    R.sample("metered %ld: %s, source %s, %lu excesses%s", idx, p.str().c_str(), KNAME[src.kind], nx, poke ? ", counters of a very long stream" : "");
    spot_free(&s);
}
int main(int c, char **v) {
    if (!harness_args(c, v)) return 2;
    install_libc();
    case_loop("meter", R.cases, [&](long i) { c25_case(R.seed, i); });
    if (!ticks) return 2; // not metered
    if (R.samples.size() > 5) R.samples.resize(5);
    std::string t;
    for (auto &x : top) t += (t.empty() ? "largest: " : "; ") + x.first + " " + std::to_string(x.second);
    R.sample("%s", t.c_str());
    R.finish();
}
