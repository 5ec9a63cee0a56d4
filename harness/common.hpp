// Shared infrastructure of the C-level monitors: PRNG, workload catalogue,
// snapshots of the public state, extended precision oracles, reporting.
#pragma once
extern "C" {
#include "spot.h"
#include "p2.h"
}
#include <algorithm>
#include <array>
#include <cfloat>
#include <climits>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

typedef long double LD;
typedef unsigned long ul;
typedef std::vector<double> Vec;
static const double EPS = DBL_EPSILON;

// ------------------------------------------------------------------ PRNG ---
struct Rng {
    uint64_t s[4];
    static uint64_t mix(uint64_t &x) {
        uint64_t z = (x += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) {
        uint64_t x = a * 0x9e3779b97f4a7c15ull ^ (b + 0x1234567) * 0xd1342543de82ef95ull ^ (c + 77) * 0xaef17502108ef2d9ull;
        for (auto &v : s) v = mix(x);
    }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    double u() { return ((next() >> 11) + 0.5) * 0x1p-53; } // in (0,1)
    double uni(double a, double b) { return a + (b - a) * u(); }
    ul below(ul n) { return n ? next() % n : 0; }
    bool chance(double p) { return u() < p; }
    double normal() { return sqrt(-2 * log(u())) * cos(6.283185307179586 * u()); }
    double expo() { return -log(u()); }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

// ------------------------------------------------------------- reporting ---
struct Report {
    std::string prop;
    uint64_t seed = 1;
    long only = -1; // replay one case
    long cases = 0;
    long shard = 0, nshards = 1;
    std::string only_mode;
    bool thorough = false;
    long cur = -1;
    const char *mode = "";
    ul violations = 0;
    ul evaluations = 0;
    struct Hashes : std::set<uint64_t> { void insert(uint64_t h) { if (size() < 60000) std::set<uint64_t>::insert(h); } } distinct;
    std::map<std::string, ul> counts;
    std::vector<std::string> samples;
    std::set<std::string> keys;
    void fail(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
        violations++;
        if (!keys.insert(key).second || keys.size() > 20) return;
        char b[2048];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        printf("V\t%s\t%s\t%s\t%ld\t%s\n", prop.c_str(), key, mode, cur, b);
        fflush(stdout);
    }
    void sample(const char *fmt, ...) __attribute__((format(printf, 2, 3))) {
        if (samples.size() >= 6) return;
        char b[1024];
        va_list a;
        va_start(a, fmt);
        vsnprintf(b, sizeof b, fmt, a);
        va_end(a);
        samples.push_back(b);
    }
    static std::string esc(const std::string &s) {
        std::string o;
        for (char c : s) {
            if (c == '"' || c == '\\') o += '\\';
            if ((unsigned char)c < 32) o += ' ';
            else o += c;
        }
        return o;
    }
    void finish() {
        printf("J\t{\"evaluations\": %lu, \"distinct_nontrivial\": %zu, \"violations\": %lu, \"counts\": {", evaluations, distinct.size(), violations);
        bool first = true;
        for (auto &k : counts) { printf("%s\"%s\": %lu", first ? "" : ", ", esc(k.first).c_str(), k.second); first = false; }
        printf("}, \"samples\": [");
        for (size_t i = 0; i < samples.size(); i++) printf("%s\"%s\"", i ? ", " : "", esc(samples[i]).c_str());
        printf("]}\n");
        printf("D");
        for (uint64_t h : distinct) printf("\t%llx", (unsigned long long)h);
        printf("\n");
        fflush(stdout);
    }
};
static Report R;
static inline uint64_t bits(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
static inline bool same(double a, double b) { return bits(a) == bits(b) || (a != a && b != b) || (a == b); }
struct Digest {
    uint64_t h = 1469598103934665603ull;
    void add(uint64_t v) { for (int i = 0; i < 8; i++) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ull; } }
    void add(double d) { add((uint64_t)(d != d ? 0x7ff8000000000000ull : bits(d == 0 ? 0.0 : d))); }
};

// ------------------------------------------------------------ allocators ---
// the monitors that do not study allocation use libc
static inline void install_libc() { set_allocators(malloc, free); }

// ---------------------------------------------------------------- state ----
struct Snap {
    struct Spot s;
    Vec data; // stored excesses in storage order
    bool ok = true;
};
static inline ul stored(const struct Spot &s) {
    const struct Ubend &c = s.tail.peaks.container;
    return c.filled ? c.capacity : c.cursor;
}
static inline Snap snap(const struct Spot &s) {
    Snap r;
    memset(&r.s, 0, sizeof r.s);
    r.s = s;
    ul n = stored(s);
    if (s.tail.peaks.container.data && n <= s.tail.peaks.container.capacity) r.data.assign(s.tail.peaks.container.data, s.tail.peaks.container.data + n);
    else if (n) r.ok = false;
    return r;
}
enum { IGN_N = 1, IGN_STORAGE = 2 };
// name of the first observable field that differs, or null
static const char *diff(const Snap &a, const Snap &b, int ign = 0) {
#define F(f) if (!same((double)a.s.f, (double)b.s.f)) return #f;
    F(q) F(level) F(discard_anomalies) F(low) F(__up_down) F(anomaly_threshold) F(excess_threshold)
    if (a.s.Nt != b.s.Nt) return "Nt";
    if (!(ign & IGN_N) && a.s.n != b.s.n) return "n";
    F(tail.gamma) F(tail.sigma) F(tail.peaks.e) F(tail.peaks.e2) F(tail.peaks.min) F(tail.peaks.max)
#undef F
    if (a.data.size() != b.data.size()) return "number of stored excesses";
    if (a.s.tail.peaks.container.capacity != b.s.tail.peaks.container.capacity) return "capacity";
    if (ign & IGN_STORAGE) {
        Vec x = a.data, y = b.data;
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        for (size_t i = 0; i < x.size(); i++) if (!same(x[i], y[i])) return "stored excesses";
    } else {
        if (a.s.tail.peaks.container.cursor != b.s.tail.peaks.container.cursor) return "cursor";
        if ((a.s.tail.peaks.container.filled != 0) != (b.s.tail.peaks.container.filled != 0)) return "filled";
        if (!same(a.s.tail.peaks.container.last_erased_data, b.s.tail.peaks.container.last_erased_data)) return "last_erased_data";
        for (size_t i = 0; i < a.data.size(); i++) if (!same(a.data[i], b.data[i])) return "stored excesses";
    }
    return nullptr;
}

// ------------------------------------------------------------ workloads ----
enum Kind { GAUSS, EXPO, UNIF, PARETO, LOGN, BETA, INTS, FEW, CONST, SPARSE, MIXT, SORTED, REVERSED, TREND, BURST, OFFSET, SCALEUP, SCALEDOWN, WALK, ALTER, NKINDS };
static const char *KNAME[] = {"gauss", "expo", "unif", "pareto", "logn", "beta", "ints", "few", "const", "sparse", "mixt", "sorted", "reversed", "trend", "burst", "offset", "scaleup", "scaledown", "walk", "alternating"};
struct Source {
    int kind;
    double a, b; // location, scale
    double w = 0;
    ul i = 0;
    Source(Rng &r, int k = -1) {
        kind = k >= 0 ? k : (int)r.below(NKINDS);
        a = r.chance(.5) ? 0 : r.uni(-20, 20);
        b = r.chance(.4) ? 1 : pow(10, r.uni(-2, 2));
        if (kind == OFFSET) { a = r.pick({1e3, -1e5, 1e6}); }
        if (kind == SCALEUP) { b = pow(10, r.uni(3, 6)); a = 0; }
        if (kind == SCALEDOWN) { b = pow(10, r.uni(-6, -3)); a = 0; }
    }
    double draw(Rng &r) {
        i++;
        switch (kind) {
        case EXPO: return a + b * r.expo();
        case UNIF: return a + b * r.u();
        case PARETO: return a + b * (pow(r.u(), -0.4) - 1);
        case LOGN: return a + b * exp(r.normal());
        case BETA: return a + b * (1 - pow(r.u(), .35));
        case INTS: return floor(10 * r.expo());
        case FEW: return (double)r.below(4);
        case CONST: return r.chance(.02) ? a + b * r.u() : a;
        case SPARSE: return r.chance(.9) ? 0.0 : b * r.expo();
        case MIXT: return r.chance(.7) ? a + b * r.normal() : a + 5 * b + b * r.expo();
        case TREND: return a + b * (i * 1e-2 + r.normal());
        case BURST: return a + b * r.normal() * ((i / 37) % 5 == 0 ? 8 : 1);
        case WALK: w += b * r.normal(); return a + w;
        case ALTER: return a + ((i & 1) ? b : -b) * (1 + .1 * r.u());
        default: return a + b * r.normal();
        }
    }
    Vec vec(Rng &r, ul n) {
        Vec v(n);
        for (auto &x : v) x = draw(r);
        if (kind == SORTED) std::sort(v.begin(), v.end());
        if (kind == REVERSED) std::sort(v.rbegin(), v.rend());
        return v;
    }
};
struct Params {
    double q, level;
    int low, discard;
    ul cap;
    std::string str() const {
        char b[160];
        snprintf(b, sizeof b, "q=%.17g level=%.17g low=%d discard=%d max_excess=%lu", q, level, low, discard, cap);
        return b;
    }
};
static Params gen_params(Rng &r) {
    Params p;
    p.level = r.chance(.7) ? r.pick({0.5, 0.8, 0.9, 0.95, 0.98, 0.99}) : (r.chance(.5) ? r.uni(0, .999) : r.pick({0.0, 0.1, 0.25, 0.995, 0.999}));
    double m = 1 - p.level;
    p.q = r.chance(.6) ? pow(10, r.uni(-6, -2)) : (r.chance(.7) ? m * r.u() : r.pick({1e-8, 1e-12, 1e-100, 1e-3, 1e-4}));
    if (!(p.q < m && p.q > 0)) p.q = m / 2;
    p.low = r.chance(.5) ? 0 : r.pick({1, 1, 1, 2, -1, 256});
    p.discard = r.chance(.35) ? 0 : r.pick({1, 1, 1, 1, 2, -1, 4096, INT_MIN});
    p.cap = r.chance(.5) ? r.pick<ul>({1, 2, 3, 4, 5, 7, 8}) : r.pick<ul>({10, 16, 31, 50, 64, 100, 128, 200, 500});
    if (r.chance(.06)) p.cap = 1 + r.below(r.pick<ul>({40, 300}));
    return p;
}
// now and then, a window much larger than those of gen_params: filled (and wrapped) by the training
static ul big_case(Rng &r, long idx, Params &p) {
    if (idx % 89 != 44) return 0;
    p.cap = r.pick<ul>({700, 1024, 1500, 3000, 6000, 10000});
    p.level = r.pick({.5, .25});
    p.q = 1e-3;
    R.counts["large windows"]++;
    return 3 * p.cap + r.below(p.cap);
}
static ul gen_train_size(Rng &r) { return r.chance(.3) ? r.pick<ul>({5, 6, 7, 8, 10, 15}) : (r.chance(.8) ? 20 + r.below(480) : r.pick<ul>({1000, 2000, 3000})); }

// NaNs of every kind: quiet, signalling, of both signs, with payloads
static double gen_nan(Rng &r) {
    uint64_t b = r.pick<uint64_t>({0x7ff8000000000000ull, 0xfff8000000000000ull, 0x7ff0000000000001ull, 0xfff0000000000001ull, 0x7fffffffffffffffull, 0xffffffffffffffffull, 0x7ff8000000000000ull | (r.next() >> 14), 0x7ff4000000000000ull});
    double x;
    memcpy(&x, &b, 8);
    return x;
}
// a stream value aimed at the interesting places of the detector
static double gen_value(Rng &r, const struct Spot &s, Source &src, double hostile, double excess_rate) {
    double t = s.excess_threshold, z = s.anomaly_threshold, ud = s.low ? -1 : 1;
    bool okt = std::isfinite(t), okz = std::isfinite(z);
    double u = r.u();
    if (u < hostile) {
        switch (r.below(14)) {
        case 0: return gen_nan(r);
        case 1: return okt ? t : 0.0;
        case 2: return okt ? nextafter(t, INFINITY) : 1.0;
        case 3: return okt ? nextafter(t, -INFINITY) : -1.0;
        case 4: return okz ? z : 0.0;
        case 5: return okz ? nextafter(z, INFINITY) : 1.0;
        case 6: return okz ? nextafter(z, -INFINITY) : -1.0;
        case 7: return -0.0;
        case 8: return okz ? z + ud * fabs(z - (okt ? t : 0)) * r.pick({1e-9, 1e-3, 1.0, 1e3}) : 5.0;
        case 9: return okt ? t - ud * pow(10, r.uni(-12, 1)) : -5.0;
        case 10: return okt ? t + ud * pow(10, r.uni(-14, -6)) : 1.0;
        case 11: return okz && okt ? z - ud * fabs(z - t) * r.pick({1e-12, 1e-6, .01}) : 0.5;
        case 12: return okz && okt ? t + ud * fabs(z - t) * r.u() : 0.5;
        default: return okt ? t + ud * 1e-3 * (fabs(t) + 1) * (double)r.below(4) : 0;
        }
    }
    if (u < hostile + excess_rate && okt) {
        double w = okz ? fabs(z - t) : src.b;
        if (!(w > 0)) w = src.b;
        return t + ud * w * (r.chance(.3) ? r.u() : std::min(.999, .15 * r.expo()));
    }
    return src.draw(r);
}

// --------------------------------------------------------------- oracles ---
static LD ll_gpd(const Vec &y, LD g, LD s) {
    LD n = (LD)y.size(), v = 0;
    if (!(s > 0)) return NAN;
    if (g == 0) { for (double t : y) v += t; return -n * logl(s) - v / s; }
    for (double t : y) v += log1pl(g / s * t);
    return -n * logl(s) - (1 + 1 / g) * v;
}
// quantile of the tail beyond the threshold (distance), true formula
static LD q_gpd(LD g, LD sg, LD r) {
    LD l = -logl(r); // r = q/s
    if (g == 0) return sg * l;
    return sg * (expm1l(g * l) / g);
}
// bound on the error of the library's own evaluation of the same quantity
// (log: 1e-10 absolute, exp/pow: 1e-12 relative, cancellation in pow-1)
static LD q_tol(LD g, LD sg, LD r) {
    LD l = -logl(r), p = expl(g * l);
    if (g == 0) return sg * (2e-10L + 1e-15L * fabsl(l));
    return sg * p * 3e-10L + fabsl(sg / g) * (p + 1) * (1e-13L + 4e-16L * fabsl(g * l));
}
static const char *vname(int r) {
    switch (r) { case 0: return "NORMAL"; case 1: return "EXCESS"; case 2: return "ANOMALY"; case -1005: return "NAN"; default: return r < 0 ? "ERR" : "OTHER"; }
}

// ------------------------------------------------------------ main loops ---
// args: PROP SEED CASES SHARD NSHARDS TIER [MODE INDEX]
static bool harness_args(int c, char **v) {
    if (c < 7) return false;
    R.prop = v[1];
    R.seed = strtoull(v[2], 0, 10);
    R.cases = atol(v[3]);
    R.shard = atol(v[4]);
    R.nshards = atol(v[5]);
    R.thorough = !strcmp(v[6], "thorough");
    if (c >= 9) { R.only_mode = v[7]; R.only = atol(v[8]); }
    return true;
}
static void case_loop(const char *mode, long n, std::function<void(long)> f) {
    if (R.only >= 0 && R.only_mode != mode) return;
    R.mode = mode;
    for (long i = 0; i < n; i++) {
        if (R.only >= 0 ? i != R.only : i % R.nshards != R.shard) continue;
        R.cur = i;
        f(i);
    }
}
