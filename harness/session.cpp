// Monitored sessions of the public C API: state recorded before and after
// every call, one online checker per property.  C04..C10
#include "common.hpp"
#include <deque>

struct Monitor {
    virtual ~Monitor() {}
    virtual void start(const Params &, const Snap &) {}
    virtual void fit(const Vec &, int, const Snap &, const Snap &) {}
    virtual void step(double, int, const Snap &, const Snap &) {}
    virtual void query(bool /*quantile*/, double, double, const Snap &, const Snap &) {}
    virtual void poke(const Snap &) {}
    virtual bool nontrivial() { return true; }
};

static double sgn(const Snap &s) { return s.s.low ? -1.0 : 1.0; }
static double exc(const Snap &pre_thr, double x) { return sgn(pre_thr) * (x - pre_thr.s.excess_threshold); }

// ------------------------------------------------------------------- C04 ---
struct M04 : Monitor {
    std::vector<double> hist; // every excess since the fit
    std::vector<double> tol;
    ul cap = 0, wraps = 0;
    bool valid = false;
    void start(const Params &p, const Snap &s) override {
        cap = p.cap;
        if (s.data.size() != 0) R.fail("initial", "a new detector stores %zu excesses", s.data.size());
        if (s.s.tail.peaks.container.capacity != cap) R.fail("capacity", "capacity %lu instead of %lu", s.s.tail.peaks.container.capacity, cap);
    }
    void check(const Snap &s, const char *when, double x) {
        if (!s.ok) { R.fail("size", "after %s: inconsistent container (cursor %lu capacity %lu)", when, s.s.tail.peaks.container.cursor, s.s.tail.peaks.container.capacity); return; }
        ul k = std::min<ul>(hist.size(), cap);
        R.evaluations++;
        if (s.data.size() != k) { R.fail("size", "after %s (x=%.17g): %zu excesses stored, expected %lu (of %zu recorded, max_excess=%lu)", when, x, s.data.size(), k, hist.size(), cap); return; }
        std::vector<std::pair<double, double>> a(k);
        Vec b = s.data;
        for (ul i = 0; i < k; i++) a[i] = {hist[hist.size() - k + i], tol[hist.size() - k + i]};
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (ul i = 0; i < k; i++)
            if (!(fabs(a[i].first - b[i]) <= a[i].second) && !same(a[i].first, b[i])) {
                R.fail("content", "after %s (x=%.17g): stored excess #%lu (sorted) is %.17g, expected %.17g; %zu recorded, max_excess=%lu", when, x, i, b[i], a[i].first, hist.size(), cap);
                return;
            }
        R.counts["windows compared"]++;
        if (hist.size() == cap) R.counts["window exactly full"]++;
        if (hist.size() > cap) R.counts["window after eviction"]++;
        if (cap && hist.size() > 3 * cap) wraps++;
    }
    void push(const Snap &s, double x) {
        hist.push_back(exc(s, x));
        tol.push_back(4 * EPS * (fabs(x) + fabs(s.s.excess_threshold)));
    }
    void fit(const Vec &d, int, const Snap &, const Snap &post) override {
        hist.clear(); tol.clear();
        valid = post.s.excess_threshold == post.s.excess_threshold;
        if (valid) for (double x : d) if (exc(post, x) > 0) push(post, x);
        check(post, "fit", d.size());
    }
    void step(double x, int rc, const Snap &pre, const Snap &post) override {
        if (rc == EXCESS) push(pre, x);
        check(post, vname(rc), x);
    }
    bool nontrivial() override { return hist.size() > cap; }
};

// ------------------------------------------------------------------- C05 ---
// rounding budget: every push/eviction costs a few ulps of the magnitudes in
// play; the budget is forgotten when an extreme value leaves the window
// (the point where the running sums are recomputed)
struct Budget {
    LD be = 0, be2 = 0;
    std::deque<double> fifo;
    std::multiset<double> ord;
    LD sa = 0, sa2 = 0; // sums of magnitudes of the window (only for the budget)
    bool extreme = false;
    // push v in a window of cap values
    void push(double v, ul cap) {
        extreme = false;
        bool h = fifo.size() >= cap;
        fifo.push_back(v);
        ord.insert(v);
        LD er = 0;
        if (h) {
            double e = fifo.front();
            er = e;
            fifo.pop_front();
            extreme = e <= *ord.begin() || e >= *ord.rbegin();
            ord.erase(ord.find(e));
        }
        if (!std::isfinite(sa) || !std::isfinite(sa2) || extreme || (fifo.size() & 1023) == 0) {
            sa = sa2 = 0;
            for (double t : fifo) { sa += fabs(t); sa2 += (LD)t * t; }
        } else { sa += fabs(v) - fabsl(er); sa2 += (LD)v * v - er * er; }
        LD s = sa * 1.0001L, s2 = sa2 * 1.0001L, c = 4;
        if (extreme) { be = be2 = 0; c = (LD)fifo.size() + 4; }
        else { s += fabsl(er) + fabs(v); s2 += er * er + (LD)v * v; }
        be += c * EPS * s + 1e-318L;
        be2 += c * EPS * s2 + 1e-318L;
    }
};
static void stats_check(const struct Peaks &p, const Vec &w, const Budget &b, const char *when) {
    LD s = 0, s2 = 0, mn = INFINITY, mx = -INFINITY;
    bool fin = true;
    for (double v : w) {
        s += v; s2 += (LD)v * v;
        mn = std::min<LD>(mn, v); mx = std::max<LD>(mx, v);
        if (!std::isfinite(v)) fin = false;
    }
    R.evaluations++;
    ul n = w.size();
    if (peaks_size(&p) != n) { R.fail("size", "%s: size %lu, stored %lu", when, peaks_size(&p), n); return; }
    if (!n) { if (!(p.e == 0 && p.e2 == 0 && p.min != p.min && p.max != p.max)) R.fail("empty", "%s: empty window has statistics e=%g e2=%g min=%g max=%g", when, p.e, p.e2, p.min, p.max); return; }
    if (!(p.min == (double)mn)) R.fail("min", "%s: min %.17g, stored minimum %.17Lg (n=%lu)", when, p.min, mn, n);
    if (!(p.max == (double)mx)) R.fail("max", "%s: max %.17g, stored maximum %.17Lg (n=%lu)", when, p.max, mx, n);
    if (!fin || s2 > 1e300L) { R.counts["non finite windows"]++; return; }
    if (!(fabsl(p.e - s) <= b.be)) R.fail("sum", "%s: sum %.17g, stored values sum to %.17Lg (n=%lu, budget %Lg)", when, p.e, s, n, b.be);
    if (!(fabsl(p.e2 - s2) <= b.be2)) R.fail("sumsq", "%s: sum of squares %.17g, stored values give %.17Lg (n=%lu, budget %Lg)", when, p.e2, s2, n, b.be2);
    LD m = s / n, v = s2 / n - m * m;
    double pm = peaks_mean(&p), pv = peaks_var(&p);
    if (!(fabsl(pm - m) <= b.be / n + 4 * EPS * fabsl(m) + 1e-318L)) R.fail("mean", "%s: mean %.17g, stored values give %.17Lg", when, pm, m);
    if (!(fabsl(pv - v) <= b.be2 / n + 3 * fabsl(m) * b.be / n + 16 * EPS * (s2 / n + m * m) + 1e-318L)) R.fail("var", "%s: variance %.17g, stored values give %.17Lg", when, pv, v);
    R.counts["statistics compared"]++;
}
struct M05 : Monitor {
    Budget b;
    ul ev = 0, cap = 0;
    void start(const Params &p, const Snap &s) override { cap = p.cap; stats_check(s.s.tail.peaks, s.data, b, "init"); }
    void one(double v) {
        b.push(v, cap);
        if (b.extreme) { ev++; R.counts["extreme evictions"]++; }
    }
    void fit(const Vec &d, int, const Snap &, const Snap &post) override {
        b = Budget();
        if (post.s.excess_threshold == post.s.excess_threshold)
            for (double x : d) { double e = exc(post, x); if (e > 0) one(e); }
        stats_check(post.s.tail.peaks, post.data, b, "fit");
    }
    void step(double x, int rc, const Snap &pre, const Snap &post) override {
        if (rc == EXCESS) one(exc(pre, x));
        stats_check(post.s.tail.peaks, post.data, b, vname(rc));
    }
    bool nontrivial() override { return ev > 0; }
};

// ------------------------------------------------------------------- C06 ---
struct M06 : Monitor {
    ul seen[4] = {0, 0, 0, 0};
    void step(double x, int rc, const Snap &pre, const Snap &) override {
        double t = pre.s.excess_threshold, z = pre.s.anomaly_threshold;
        if (std::isinf(t) || std::isinf(z)) return;
        int want;
        bool low = pre.s.low != 0;
        if (x != x) want = -ERR_DATA_IS_NAN;
        else if (pre.s.discard_anomalies && (low ? x < z : x > z)) want = ANOMALY;
        else if (low ? x <= t : x >= t) want = EXCESS;
        else want = NORMAL;
        R.evaluations++;
        R.counts[vname(rc)]++;
        if (x == t) R.counts["value equal to the excess threshold"]++;
        if (x == z) R.counts["value equal to the anomaly threshold"]++;
        if (x == nextafter(z, INFINITY) || x == nextafter(z, -INFINITY) || x == nextafter(t, INFINITY) || x == nextafter(t, -INFINITY)) R.counts["value adjacent to a threshold"]++;
        if (rc != want)
            R.fail("verdict", "step(%.17g) returned %s (%d), expected %s: excess threshold %.17g anomaly threshold %.17g low=%d discard=%d n=%lu", x, vname(rc), rc, vname(want), t, z, pre.s.low, pre.s.discard_anomalies, pre.s.n);
        seen[want < 0 ? 3 : want]++;
    }
    bool nontrivial() override { return seen[0] && seen[1]; }
};

// ------------------------------------------------------------------- C07 ---
struct M07 : Monitor {
    ul inert = 0;
    void step(double x, int rc, const Snap &pre, const Snap &post) override {
        const char *d = nullptr;
        if (rc == ANOMALY || rc < 0) {
            d = diff(pre, post);
            inert++;
        } else if (rc == NORMAL) {
            d = diff(pre, post, IGN_N);
            if (!d && post.s.n != pre.s.n + 1) d = "n (must grow by one)";
        } else return;
        R.evaluations++;
        R.counts[vname(rc)]++;
        if (d) R.fail((std::string("step-") + vname(rc)).c_str(), "step(%.17g) -> %s changed %s", x, vname(rc), d);
    }
    void query(bool isq, double a, double, const Snap &pre, const Snap &post) override {
        R.evaluations++;
        inert++;
        R.counts[isq ? "quantile queries" : "probability queries"]++;
        const char *d = diff(pre, post);
        if (d) R.fail("query", "%s(%.17g) changed %s", isq ? "quantile" : "probability", a, d);
    }
    bool nontrivial() override { return inert > 0; }
};

// ------------------------------------------------------------------- C08 ---
struct M08 : Monitor {
    ul n = 0, Nt = 0;
    bool known = true;
    ul big = 0, kinds = 0;
    void start(const Params &, const Snap &s) override {
        if (s.s.n || s.s.Nt) R.fail("initial", "a new detector has n=%lu Nt=%lu", s.s.n, s.s.Nt);
    }
    void poke(const Snap &s) override { n = s.s.n; Nt = s.s.Nt; big++; }
    void fit(const Vec &d, int rc, const Snap &, const Snap &post) override {
        if (rc == 0) {
            n = d.size();
            Nt = 0;
            for (double x : d) if (exc(post, x) > 0) Nt++;
            R.evaluations++;
            R.counts["fits"]++;
            if (post.s.n != n) R.fail("fit-n", "fit on %zu values: n=%lu", d.size(), post.s.n);
            if (post.s.Nt != Nt) R.fail("fit-Nt", "fit on %zu values: Nt=%lu but %lu training values are strictly beyond the excess threshold %.17g (low=%d)", d.size(), post.s.Nt, Nt, post.s.excess_threshold, post.s.low);
        }
        n = post.s.n; Nt = post.s.Nt;
    }
    void step(double x, int rc, const Snap &, const Snap &post) override {
        if (rc == NORMAL || rc == EXCESS) n++;
        if (rc == EXCESS) Nt++;
        kinds |= 1ul << (rc < 0 ? 3 : rc);
        R.evaluations++;
        R.counts[vname(rc)]++;
        if (n > 0xffffffffull) R.counts["steps with more than 2^32 observations"]++;
        if (post.s.n != n || post.s.Nt != Nt) {
            R.fail((std::string("step-") + vname(rc)).c_str(), "step(%.17g) -> %s: n=%lu Nt=%lu, expected n=%lu Nt=%lu", x, vname(rc), post.s.n, post.s.Nt, n, Nt);
            n = post.s.n; Nt = post.s.Nt;
        }
    }
    bool nontrivial() override { return (kinds & 3) == 3; }
};

// ------------------------------------------------------------------- C09 ---
struct M09 : Monitor {
    ul upd = 0;
    void check(const struct Spot *sp, const Snap &s, const char *when) {
        double t = s.s.excess_threshold, z = s.s.anomaly_threshold, g = s.s.tail.gamma, sg = s.s.tail.sigma;
        double again = spot_quantile(sp, s.s.q);
        R.evaluations++;
        if (!same(again, z) && !(fabs(again - z) <= 1e-9 * (fabs(z) + fabs(t)))) R.fail("query", "%s: anomaly threshold %.17g but quantile(q) returns %.17g", when, z, again);
        if (!std::isfinite(g) || !std::isfinite(sg) || !(sg > 0) || !std::isfinite(t) || !s.s.Nt || !s.s.n) { R.counts["undefined tails"]++; return; }
        LD r = (LD)s.s.q * s.s.n / s.s.Nt;
        LD d = q_gpd(g, sg, r), tol = q_tol(g, sg, r);
        if (!(fabsl(d) < 1e290L) || !(tol < 1e290L) || !(fabsl(g * logl(r)) < 690)) { R.counts["overflowing quantiles"]++; return; }
        LD want = t + sgn(s) * d;
        tol += 8 * EPS * (fabsl(t) + fabsl(d)) + 1e-318L;
        upd++;
        R.counts[g == 0 ? "exponential tails" : g < 0 ? "negative shapes" : "positive shapes"]++;
        if (tol > 1e-3L * fabsl(d)) R.counts["ill conditioned (loose tolerance)"]++;
        if (!(fabsl(z - want) <= tol))
            R.fail("formula", "%s: anomaly threshold %.17g, formula gives %.17Lg (+-%Lg): t=%.17g gamma=%.17g sigma=%.17g n=%lu Nt=%lu q=%g low=%d", when, z, want, tol, t, g, sg, s.s.n, s.s.Nt, s.s.q, s.s.low);
    }
    const struct Spot *sp = nullptr;
    void fit(const Vec &, int rc, const Snap &, const Snap &post) override {
        if (rc == 0) check(sp, post, "fit");
    }
    void step(double x, int rc, const Snap &pre, const Snap &post) override {
        if (!same(pre.s.excess_threshold, post.s.excess_threshold)) R.fail("t-moved", "step(%.17g) -> %s moved the excess threshold from %.17g to %.17g", x, vname(rc), pre.s.excess_threshold, post.s.excess_threshold);
        if (rc == EXCESS) check(sp, post, "EXCESS");
        else {
            R.evaluations++;
            R.counts["frozen thresholds"]++;
            if (!same(pre.s.anomaly_threshold, post.s.anomaly_threshold)) R.fail("z-moved", "step(%.17g) -> %s moved the anomaly threshold from %.17g to %.17g", x, vname(rc), pre.s.anomaly_threshold, post.s.anomaly_threshold);
        }
    }
    void query(bool, double, double, const Snap &pre, const Snap &post) override {
        if (!same(pre.s.anomaly_threshold, post.s.anomaly_threshold) || !same(pre.s.excess_threshold, post.s.excess_threshold)) R.fail("query-moved", "a query moved a threshold");
    }
    bool nontrivial() override { return upd > 3; }
};

// ------------------------------------------------------------------- C10 ---
struct Cand { bool ok; LD ll; };
static LD gw(const Vec &y, LD x) {
    LD u = 0, v = 0, n = (LD)y.size();
    for (double t : y) { LD s = 1 + x * t; u += 1 / s; v += logl(s); }
    return u / n * (1 + v / n) - 1;
}
static LD prof(const Vec &y, LD x) {
    LD v = 0, n = (LD)y.size();
    for (double t : y) v += log1pl(x * t);
    return ll_gpd(y, v / n, v / n / x);
}
// likelihood of the only sign change of the profile score between a and b.
// Both ends are given as a range: the sign must be clear, and the same, over
// it, so that a search that starts anywhere in the range brackets the root.
// noise: what the score may be off by at the end next to zero
static Cand root_in(const Vec &y, LD a0, LD a1, LD b1, LD b0, LD noise_a, LD noise_b, bool logscale, int G) {
    Cand c{false, 0};
    if (!(a0 <= a1 && a1 < b1 && b1 <= b0)) return c;
    LD e[4] = {gw(y, a0), gw(y, a1), gw(y, b1), gw(y, b0)};
    for (int i = 0; i < 4; i++) if (!std::isfinite(e[i]) || fabsl(e[i]) < (i < 2 ? noise_a : noise_b)) return c;
    if ((e[0] < 0) != (e[1] < 0) || (e[2] < 0) != (e[3] < 0) || (e[1] < 0) == (e[2] < 0)) return c;
    LD px = a1, pf = e[1];
    int nroots = 0;
    for (int i = 1; i <= G; i++) {
        LD x = i == G ? b1 : logscale ? a1 * powl(b1 / a1, (LD)i / G) : a1 + (b1 - a1) * i / G;
        LD f = gw(y, x);
        if ((f < 0) != (pf < 0)) {
            LD lo = px, hi = x, fl = pf;
            for (int k = 0; k < 80; k++) { LD m = (lo + hi) / 2, fm = gw(y, m); if ((fm < 0) == (fl < 0)) { lo = m; fl = fm; } else hi = m; }
            c.ll = prof(y, (lo + hi) / 2);
            if (!std::isfinite(c.ll)) return c;
            nroots++;
        }
        px = x; pf = f;
    }
    c.ok = nroots == 1; // otherwise ambiguous
    return c;
}
static bool tail_check(const Vec &y, double g, double s, const char *when, bool deep) {
    size_t n = y.size();
    if (n < 1) return false;
    LD mn = INFINITY, mx = 0, m = 0, v = 0;
    for (double t : y) { if (!std::isfinite(t) || t < 0) return false; mn = std::min<LD>(mn, t); mx = std::max<LD>(mx, t); m += t; }
    m /= n;
    for (double t : y) v += (t - m) * (t - m);
    v /= n;
    if (mx < 1e100L && m > 1e-100L) { // the exponential fit is valid, so an invalid one has no reason to be kept
        R.counts["scales checked"]++;
        if (!(s > 0) || !std::isfinite(s) || !std::isfinite(g)) { R.fail("sigma", "%s: fitted gamma=%.17g sigma=%.17g on %zu excesses (mean %Lg)", when, g, s, n, m); return true; }
    }
    if (!(mx < 1e140L && m > 1e-140L && v > 1e-4L * m * m)) { R.counts["degenerate windows skipped"]++; return false; }
    R.evaluations++;
    if (!(s > 0) || !std::isfinite(s) || !std::isfinite(g)) { R.fail("sigma", "%s: fitted gamma=%.17g sigma=%.17g on %zu excesses (mean %Lg)", when, g, s, n, m); return true; }
    LD sup = 1 + (LD)g / s * mx;
    if (!(sup > 0)) { if (sup > -1e-12L) return false; R.fail("support", "%s: largest excess %.17Lg is outside the support of gamma=%.17g sigma=%.17g", when, mx, g, s); return true; }
    if (sup < 1e-9L) { R.counts["boundary fits"]++; return true; }
    LD l = ll_gpd(y, g, s);
    // tolerance: evaluation error of the library's likelihood (log error 1e-10 per term, amplified by 1+1/gamma)
    LD tol = 1e-6L + (LD)n * 1e-9L;
    LD amp = g == 0 ? 0 : (fabsl(1 + 1 / (LD)g)) * n * 2e-10L;
    tol += std::min(amp, (LD)0.1L * n);
    LD le = ll_gpd(y, 0, m);
    R.counts["exponential candidate compared"]++;
    if (!(l >= le - tol)) R.fail("exponential", "%s: log-likelihood %.12Lg of gamma=%.17g sigma=%.17g is below the exponential fit %.12Lg (n=%zu mean=%Lg)", when, l, g, s, le, n, m);
    LD Rr = m * m / v, mg = .5L * (1 - Rr), ms = .5L * m * (1 + Rr);
    if (1 + mg / ms * mx > 1e-4L && (fabsl(mg) > 1e-3L)) {
        LD lm = ll_gpd(y, mg, ms);
        LD mt = tol + fabsl(1 + 1 / mg) * n * 2e-10L + 1e-9L * fabsl(lm);
        R.counts["moment candidate compared"]++;
        if (!(l >= lm - mt)) R.fail("moments", "%s: log-likelihood %.12Lg of gamma=%.17g sigma=%.17g is below the moment fit %.12Lg (gamma=%Lg sigma=%Lg n=%zu)", when, l, g, s, lm, mg, ms, n);
    }
    if (deep && n >= 5 && mn > 0 && 2 * (m - mn) / (mn * mn) * m < 1e20L) {
        // the search keeps 2e-5/mean away from the ends of the domain
        LD e = std::min(2e-5L / m, .5L / mx), e0 = .25L * e, e1 = std::min(4 * e, .55L / mx);
        LD top = 2 * (m - mn) / (mn * mn), cut = -1 / mx;
        LD nz = 1e-12L + 1e-15L * n;
        auto cand = [&](int k, int G) { return k ? root_in(y, e0, e1, top / 1.01L, top * 1.01L, nz, 1e-6L, true, G) : root_in(y, cut + e0, cut + e1, -e1, -e0, 1e-6L, nz, false, G); };
        for (int k = 0; k < 2; k++) {
            Cand c = cand(k, 32);
            if (!c.ok) continue;
            R.counts[k ? "right Grimshaw roots compared" : "left Grimshaw roots compared"]++;
            if (n >= 3000) R.counts["Grimshaw roots compared on 3000 excesses or more"]++;
            if (l >= c.ll - tol - 1e-4L - 1e-5L * n) continue;
            Cand d = cand(k, 4001); // is it really the only one?
            if (!d.ok || l >= d.ll - tol - 1e-4L - 1e-5L * n) { R.counts["several Grimshaw roots"]++; continue; }
            R.fail(k ? "grimshaw-right" : "grimshaw-left", "%s: log-likelihood %.12Lg of gamma=%.17g sigma=%.17g is below the %s profile likelihood solution %.12Lg (n=%zu mean=%Lg min=%Lg max=%Lg)", when, l, g, s, k ? "right" : "left", d.ll, n, m, mn, mx);
        }
    }
    return true;
}
struct M10 : Monitor {
    ul k = 0, done = 0;
    void chk(const Snap &s, const char *w, bool deep) { if (tail_check(s.data, s.s.tail.gamma, s.s.tail.sigma, w, deep)) done++; }
    void fit(const Vec &, int rc, const Snap &, const Snap &post) override { if (rc == 0 || rc == -ERR_ANOMALY_THRESHOLD_IS_NAN) chk(post, "fit", true); }
    void step(double, int rc, const Snap &, const Snap &post) override { if (rc == EXCESS) chk(post, "EXCESS", ++k % 17 == 0); }
    bool nontrivial() override { return done > 2; }
};

// --------------------------------------------------------------- sessions --
static void run_session(uint64_t seed, long idx, Monitor *m, M09 *m9, bool pokes) {
    Rng r(seed, idx, 4);
    Params p = gen_params(r);
    int shape = r.below(10);
    ul L, N = gen_train_size(r);
    double hostile = r.pick({0.0, .05, .2, .5}), ex = r.pick({0.0, .05, .3, .8});
    if (idx % 97 == 13) { // large window, beyond 16 bits
        p.cap = r.pick<ul>({65536, 66000, 70000});
        p.level = .5; p.q = 1e-4; N = 2 * p.cap + 1000 + r.below(3000); L = R.thorough ? 6 : 2; shape = 99; ex = .8;
    } else if (idx % 97 == 50) { // long training
        N = 100000 + r.below(400000); p.level = .98; p.q = 1e-5; L = 300; p.cap = r.pick<ul>({50, 1000, 3000}); ex = .1;
    } else if (idx % 97 == 75) { // long stream
        L = R.thorough ? 3000000 : 150000 + r.below(100000); ex = .01; hostile = .002;
        p.level = r.pick({.98, .99, .995}); p.q = r.pick({1e-3, 1e-4, 1e-5}); p.cap = r.pick<ul>({3, 8, 20, 50}); N = 2000; shape = 98;
    } else if (shape == 0) { p.cap = r.pick<ul>({1000, 2000, 5000}); L = 60; N = 8000; ex = .5; if (r.chance(.5)) { p.level = .5; p.q = 1e-3; N = 3 * p.cap; } }
    else if (shape < 3) { L = 2000 + r.below(4000); ex = .02; if (p.level < .9) { p.level = .95; p.q = std::min(p.q, .01); } if (p.cap > 64) p.cap = 64; }
    else L = 20 + r.below(380);
    struct Spot s;
    memset(&s, r.pick({0, 0xff, 0x5a}), sizeof s);
    int rc = spot_init(&s, p.q, p.low, p.discard, p.level, p.cap);
    if (rc) { R.fail("init", "spot_init(%s) failed with %d", p.str().c_str(), rc); return; }
    if (m9) m9->sp = &s;
    Snap pre = snap(s), post;
    m->start(p, pre);
    Digest dg;
    Source src(r, shape == 99 ? r.pick<int>({EXPO, PARETO, UNIF, GAUSS}) : shape == 98 ? r.pick<int>({GAUSS, EXPO, PARETO, INTS, UNIF}) : -1); // (sorted data make a window of this size quadratic)
    std::string trace;
    int fits = r.chance(.25) ? 2 + r.below(2) : 1;
    if (shape >= 98) fits = 1;
    if (r.chance(.05)) fits = 0;
    ul ops = 0;
    bool big = pokes && r.chance(.3);
    for (int f = 0; f < std::max(fits, 1); f++) {
        if (fits) {
            ul n = f ? gen_train_size(r) : N;
            if (f && r.chance(.1)) n = r.below(5);
            Source ts(r, f ? -1 : src.kind);
            ts.a = src.a; ts.b = src.b;
            if (f) src = ts;
            Vec d = src.vec(r, n);
            if (n >= 5 && r.chance(.03)) d[r.below(n)] = r.pick({(double)INFINITY, -(double)INFINITY});
            double *buf = (double *)malloc(std::max<ul>(1, n) * sizeof(double)); // exact size: overreads are visible to sanitizers
            memcpy(buf, d.data(), n * sizeof(double));
            rc = spot_fit(&s, buf, n);
            free(buf);
            post = snap(s);
            m->fit(d, rc, pre, post);
            R.counts[rc == 0 ? "fits ok" : "fits refused"]++;
            dg.add((uint64_t)rc);
            dg.add(post.s.anomaly_threshold);
            pre = std::move(post);
        }
        if (big) {
            s.n = r.pick<ul>({0xfffffff0ul, 0xfffffffful, 0x100000000ul, 0x7ffffffful, 0x1fffffffful, 0xfffffffffffful, (1ul << 53) - 5, (1ul << 53) + 1, 1ul << 62, (1ul << 63) - 3, ULONG_MAX - 8000000});
            s.Nt = s.n / r.pick<ul>({20, 50, 100, 1}) - r.below(3);
            if (s.Nt > s.n) s.Nt = s.n;
            pre = snap(s);
            m->poke(pre);
            R.counts["huge counters installed"]++;
        }
        for (ul i = 0; i < L; i++) {
            if (r.chance(.03)) {
                bool isq = r.chance(.5);
                double a = isq ? r.pick({p.q, 1e-3, r.u(), 0.0, 1.0, -1.0, 2.0, (double)NAN, 1e-300}) : gen_value(r, s, src, .5, .2);
                double v = isq ? spot_quantile(&s, a) : spot_probability(&s, a);
                post = snap(s);
                m->query(isq, a, v, pre, post);
                dg.add(v);
                pre = std::move(post);
                continue;
            }
            double x = gen_value(r, s, src, hostile, ex);
            if (hostile > .1 && r.chance(.003)) x = r.pick({(double)INFINITY, -(double)INFINITY, 1e300, -1e300, DBL_MAX, -DBL_MAX, 5e-324, -5e-324, DBL_MIN});
            rc = spot_step(&s, x);
            post = snap(s);
            m->step(x, rc, pre, post);
            dg.add((uint64_t)rc);
            ops++;
            if (trace.size() < 60) trace += rc < 0 ? 'E' : "nxA"[rc > 2 ? 0 : rc];
            pre = std::move(post);
        }
    }
    spot_free(&s);
    R.counts["sessions"]++;
    R.counts["operations"] += ops;
    R.counts[std::string("source ") + KNAME[src.kind]]++;
    if (m->nontrivial()) {
        R.distinct.insert(dg.h);
        R.sample("case %ld: %s source=%s train=%lu fits=%d steps=%lu trace=%s final z=%.6g n=%lu Nt=%lu", idx, p.str().c_str(), KNAME[src.kind], N, fits, ops, trace.c_str(), pre.s.anomaly_threshold, pre.s.n, pre.s.Nt);
    }
}

// direct push sequences on the statistics (C05) and on the container (C04)
static void run_peaks(uint64_t seed, long idx) {
    Rng r(seed, idx, 5);
    ul cap = r.chance(.6) ? 1 + r.below(8) : r.pick<ul>({10, 20, 50, 100, 300});
    struct Peaks p;
    if (peaks_init(&p, cap) < 0) { R.fail("init", "peaks_init(%lu)", cap); return; }
    Vec hist;
    Budget b;
    ul L = 50 + r.below(1500), ext = 0;
    int kind = r.below(8);
    double sc = pow(10, r.uni(-3, 3));
    Digest dg;
    double last = 1;
    for (ul i = 0; i < L; i++) {
        double x;
        switch (kind) {
        case 0: x = r.expo(); break;
        case 1: x = (double)r.below(5); break;               // ties
        case 2: x = (double)(L - i); break;                  // decreasing: the max is always the oldest
        case 3: x = (double)i; break;                        // increasing: the min is always the oldest
        case 4: x = r.chance(.03) ? 1e8 * r.u() : r.u(); break; // outliers that leave the window
        case 5: x = 1; break;
        case 6: x = r.chance(.5) ? last : r.expo(); break;
        default: x = pow(r.u(), -2); break;
        }
        x *= sc;
        if (r.chance(.02)) x = 0;
        last = x / sc;
        hist.push_back(x);
        b.push(x, cap);
        if (b.extreme) { ext++; R.counts["extreme evictions"]++; }
        Vec fifo(b.fifo.begin(), b.fifo.end());
        peaks_push(&p, x);
        ul n = p.container.filled ? p.container.capacity : p.container.cursor;
        if (n != fifo.size()) { R.fail("size", "peaks: %lu stored after %zu pushes in a window of %lu", n, hist.size(), cap); break; }
        Vec a(p.container.data, p.container.data + n), c = fifo;
        std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end());
        if (a != c) { R.fail("content", "peaks: the window of %lu does not hold the last %zu values after %zu pushes", cap, fifo.size(), hist.size()); break; }
        stats_check(p, fifo, b, "push");
        dg.add(x);
    }
    R.counts["push sequences"]++;
    if (ext) R.distinct.insert(dg.h);
    if (idx < 2) R.sample("push sequence %ld: window=%lu pushes=%lu kind=%d scale=%g extreme evictions=%lu", idx, cap, L, kind, sc, ext);
    peaks_free(&p);
}
static void run_ubend(uint64_t seed, long idx) {
    Rng r(seed, idx, 6);
    ul cap = idx == 0 ? 200000 : r.chance(.6) ? 1 + r.below(9) : r.pick<ul>({255, 256, 257, 1000, 4096, 65535, 65536, 65537});
    struct Ubend u;
    if (ubend_init(&u, cap) < 0) { R.fail("init", "ubend_init(%lu)", cap); return; }
    ul L = cap > 1000 ? 2 * cap + 100 : 6 * cap + r.below(300);
    std::vector<double> h;
    Digest dg;
    for (ul i = 0; i < L; i++) {
        double x = r.chance(.1) && i ? h[r.below(i)] : r.normal(); // some repeats
        double er = ubend_push(&u, x);
        h.push_back(x);
        ul k = std::min<ul>(h.size(), cap);
        R.evaluations++;
        if (ubend_size(&u) != k) { R.fail("ubend-size", "container of %lu: size %lu after %zu pushes", cap, ubend_size(&u), h.size()); break; }
        if (h.size() > cap) {
            if (!same(er, h[h.size() - 1 - cap])) { R.fail("ubend-erased", "container of %lu: push #%zu reported %.17g erased, the oldest value is %.17g", cap, h.size(), er, h[h.size() - 1 - cap]); break; }
        } else if (er == er) { R.fail("ubend-erased", "container of %lu: push #%zu reported %.17g erased while not full", cap, h.size(), er); break; }
        if (cap <= 10 || i % (cap / 3 + 1) == 0 || i + 1 == L || i + 1 == cap || i == cap) {
            Vec a(u.data, u.data + k), c(h.end() - k, h.end());
            std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end());
            if (a != c) { R.fail("ubend-content", "container of %lu: does not hold the last %lu of %zu values", cap, k, h.size()); break; }
            R.counts["windows compared"]++;
        }
    }
    dg.add((uint64_t)cap); dg.add((uint64_t)L); dg.add(h.back());
    R.distinct.insert(dg.h);
    R.counts["container sequences"]++;
    ubend_free(&u);
}
// direct tail fits (C10)
static void run_tail(uint64_t seed, long idx) {
    Rng r(seed, idx, 10);
    ul n = r.chance(.3) ? 1 + r.below(10) : r.chance(.9) ? 10 + r.below(300) : 1000 + r.below(1500);
    ul cap = r.chance(.7) ? n : std::max<ul>(2, n / (1 + r.below(4)));
    double sc = r.chance(.5) ? pow(10, r.uni(-3, 3)) : pow(10, r.uni(-80, 80));
    if (r.chance(.3)) sc = 1;
    double g = r.pick({0.0, -.9, -.5, -.3, -.1, .1, .3, .5, 1.0, 1.5});
    int kind = r.below(8);
    double width = r.pick({0.0, 0.0, 1e-16, 1e-12, 1e-8, 1e-4, 1e-2}), centre = r.uni(.1, 10);
    struct Tail t;
    if (tail_init(&t, cap) < 0) { R.fail("init", "tail_init(%lu)", cap); return; }
    Digest dg;
    ul pushes = n + (r.chance(.3) ? r.below(2 * n + 1) : 0);
    for (ul i = 0; i < pushes; i++) {
        double u = r.u(), x;
        switch (kind) {
        case 0: x = r.expo(); break;
        case 1: x = floor(3 * r.expo()) + 1; break;
        case 2: x = fabs(r.normal()); break;
        case 3: x = 5 + r.normal(); if (x < .01) x = .01; break;
        case 4: x = r.chance(.9) ? u : 10 * u; break;
        case 7: x = centre * (1 + width * u); break; // (almost) equal excesses
        default: x = g == 0 ? r.expo() : (pow(u, -g) - 1) / g;
        }
        x *= sc;
        if (!(x > 0)) x = sc * 1e-3;
        tail_push(&t, x);
        if (r.chance(.01)) tail_fit(&t);
    }
    double ret = tail_fit(&t);
    double g1 = t.gamma, s1 = t.sigma;
    ul k = t.peaks.container.filled ? t.peaks.container.capacity : t.peaks.container.cursor;
    Vec y(t.peaks.container.data, t.peaks.container.data + k);
    bool ok = tail_check(y, g1, s1, "tail fit", n <= 400);
    if (ok && s1 > 0) {
        LD mx = 0; for (double v : y) mx = std::max<LD>(mx, v);
        LD sup = 1 + (LD)g1 / s1 * mx;
        if (sup > 1e-6L && (g1 == 0 || fabs(g1) > 1e-4)) {
            LD l = ll_gpd(y, g1, s1), tol = 1e-7L + k * 1e-9L + fabsl(l) * 1e-9L + (g1 == 0 ? 0 : fabsl(1 + 1 / (LD)g1) * k * (2e-10L + 4e-16L / sup));
            R.counts["returned likelihoods compared"]++;
            if (!(fabsl(ret - l) <= tol)) R.fail("returned", "tail fit returned log-likelihood %.17g but gamma=%.17g sigma=%.17g have %.17Lg on the %lu stored excesses (tolerance %Lg)", ret, g1, s1, l, k, tol);
        }
        double ret2 = tail_fit(&t);
        if (!same(t.gamma, g1) || !same(t.sigma, s1) || !same(ret, ret2)) R.fail("refit", "refitting the same excesses moved gamma,sigma from %.17g,%.17g to %.17g,%.17g", g1, s1, t.gamma, t.sigma);
    }
    dg.add(g1); dg.add(s1); dg.add(ret);
    if (ok) R.distinct.insert(dg.h);
    R.counts["direct tail fits"]++;
    if (idx < 3) R.sample("tail %ld: n=%lu window=%lu scale=%g kind=%d -> gamma=%.6g sigma=%.6g llhood=%.6g", idx, pushes, cap, sc, kind, g1, s1, ret);
    tail_free(&t);
}

int main(int c, char **v) {
    if (!harness_args(c, v)) return 2;
    long cases = R.cases;
    install_libc();
    auto loop = [&](const char *mode, long n, std::function<void(long)> f) { case_loop(mode, n, f); };
    auto sess = [&](auto mk, bool pokes) {
        loop("session", cases, [&](long i) { auto *m = mk(); run_session(R.seed, i, m, dynamic_cast<M09 *>((Monitor *)m), pokes); delete m; });
    };
    std::string P = R.prop;
    if (P == "C04") { sess([] { return new M04; }, true); loop("ubend", cases / 4, [&](long i) { run_ubend(R.seed, i); }); }
    else if (P == "C05") { sess([] { return new M05; }, true); loop("peaks", cases * 2, [&](long i) { run_peaks(R.seed, i); }); }
    else if (P == "C06") sess([] { return new M06; }, true);
    else if (P == "C07") sess([] { return new M07; }, true);
    else if (P == "C08") sess([] { return new M08; }, true);
    else if (P == "C09") sess([] { return new M09; }, true);
    else if (P == "C10") { sess([] { return new M10; }, true); loop("tail", cases * 4, [&](long i) { run_tail(R.seed, i); }); }
    else return 2;
    R.finish();
    return 0;
}
