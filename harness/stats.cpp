// C22: distribution of the anomaly threshold around the true quantile, over
// many independent trainings and streams (printed as aggregates)
#include "common.hpp"
struct Dist { const char *name; double (*draw)(Rng &); double (*sup)(double); }; // sup(q): upper quantile of probability q
static double inv_norm(double p) { // upper tail, by bisection on erfc
    double a = 0, b = 40;
    for (int i = 0; i < 200; i++) { double m = (a + b) / 2; if (.5 * erfc(m / sqrt(2.)) > p) a = m; else b = m; }
    return a;
}
static const Dist DS[] = {
    {"gauss", [](Rng &r) { return r.normal(); }, inv_norm},
    {"expo", [](Rng &r) { return r.expo(); }, [](double q) { return -log(q); }},
    {"unif", [](Rng &r) { return r.u(); }, [](double q) { return 1 - q; }},
    {"pareto", [](Rng &r) { return (pow(r.u(), -.25) - 1) / .25; }, [](double q) { return (pow(q, -.25) - 1) / .25; }},
    {"bounded", [](Rng &r) { return (1 - pow(r.u(), .25)) / .25; }, [](double q) { return (1 - pow(q, .25)) / .25; }},
    {"student", [](Rng &r) { double c = 0; for (int i = 0; i < 3; i++) { double z = r.normal(); c += z * z; } return r.normal() / sqrt(c / 3); }, nullptr},
};
static double student3(double q) { // P(T > t), 3 degrees of freedom
    double a = 0, b = 1e6;
    for (int i = 0; i < 300; i++) {
        double t = (a + b) / 2, x = t / sqrt(3.), cdf = .5 + (x / (1 + x * x) + atan(x)) / M_PI;
        if (1 - cdf > q) a = t; else b = t;
    }
    return a;
}
static void one(uint64_t seed, long idx) {
    Rng r(seed, idx, 220);
    int g = idx % 24;
    const Dist &d = DS[g % 6];
    int low = (g / 6) % 2, wide = g / 12; // wide: level .95, q 1e-4
    double level = wide ? .95 : .98, q = wide ? 1e-4 : 1e-3;
    int discard = (idx / 24) % 2;
    static const ul CAPS[] = {60, 200, 1000};
    ul cap = CAPS[(idx / 48) % 3];
    ul n = 4000;
    double sc = pow(10, r.uni(-3, 3)), loc = r.normal() * 10 * sc, sg = low ? -1 : 1;
    auto draw = [&]() { return loc + sg * sc * d.draw(r); };
    auto sup = [&](double p) { return d.sup ? d.sup(p) : student3(p); };
    struct Spot s;
    if (spot_init(&s, q, low, discard, level, cap)) { R.fail("init", "spot_init"); return; }
    Vec v(n);
    for (auto &x : v) x = draw();
    int rc = spot_fit(&s, v.data(), n);
    R.evaluations++;
    if (rc) { R.fail("fit", "fit of %lu %s values failed (%d)", n, d.name, rc); return; }
    double t0 = sup(1 - level), z0 = sup(q), w = z0 - t0;
    double zs = (s.anomaly_threshold - loc) * sg / sc, ts = (s.excess_threshold - loc) * sg / sc;
    printf("A\tfit.%s.%s.%s.%lu\t%.6g\n", d.name, low ? "low" : "up", wide ? "wide" : "std", cap, (zs - z0) / w);
    printf("A\tthr.%s.%s.%s\t%.6g\n", d.name, low ? "low" : "up", wide ? "wide" : "std", (ts - t0) / w);
    // stationary stream
    ul L = 6000, al = 0, exc = 0, out = 0, flagged = 0;
    for (ul i = 0; i < L; i++) {
        double x = draw();
        bool beyond = sg * (x - s.anomaly_threshold) > 0;
        int k = spot_step(&s, x);
        al += beyond;
        exc += k == EXCESS;
        if (i % 500 == 250 && discard) { // a real outlier
            double o = loc + sg * sc * (z0 + w * r.uni(20, 100));
            if (wide && (g % 6 == 3 || g % 6 == 5)) o = loc + sg * sc * (z0 + 1000 * w);
            out++;
            flagged += spot_step(&s, o) == ANOMALY;
        }
        R.evaluations++;
    }
    zs = (s.anomaly_threshold - loc) * sg / sc;
    printf("A\tend.%s.%s.%s.%s.%lu\t%.6g\n", d.name, low ? "low" : "up", wide ? "wide" : "std", discard ? "discard" : "keep", cap, (zs - z0) / w);
    printf("A\trate.%s.%s.%s.%s.%s\t%.6g\n", d.name, low ? "low" : "up", wide ? "wide" : "std", discard ? "discard" : "keep", cap < 100 ? "small" : "large", al / (q * L));
    printf("A\texc.%s.%s.%s\t%.6g\n", d.name, low ? "low" : "up", wide ? "wide" : "std", exc / ((1 - level) * L));
    if (discard) printf("A\tout.%s.%s.%s\t%.6g\n", d.name, low ? "low" : "up", wide ? "wide" : "std", (double)flagged / out);
    R.counts["stationary runs"]++;
    R.counts["stream values"] += L;
    R.counts["alarms on stationary data"] += al;
    R.counts["outliers injected"] += out;
    R.counts["outliers flagged"] += flagged;
    Digest dg; dg.add(s.anomaly_threshold); R.distinct.insert(dg.h);
    R.sample("%s %s level=%g q=%g max_excess=%lu discard=%d: z=%.4g at fit end (true %.4g), %lu alarms in %lu, %lu/%lu outliers", d.name, low ? "lower" : "upper", level, q, cap, discard, zs, z0, al, L, flagged, out);
    spot_free(&s);
}
int main(int c, char **v) {
    if (!harness_args(c, v)) return 2;
    install_libc();
    case_loop("stationary", R.cases, [&](long i) { one(R.seed, i); });
    R.finish();
    return 0;
}
