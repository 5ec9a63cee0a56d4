// C14 built-in log/exp/pow, C15 root finder, C16 strings
#include "common.hpp"
#include <sys/mman.h>
#include <unistd.h>
extern "C" {
#include "brent.h"
#include "xmath.h"
}

// =============================================================== C14 ======
static LD worst_log, worst_exp, worst_pow;
static double mk(uint64_t sign, uint64_t e, uint64_t m) { uint64_t u = sign << 63 | e << 52 | (m & 0xfffffffffffffull); double d; memcpy(&d, &u, 8); return d; }
static void chk_log(double x) {
    double v = xlog(x);
    R.evaluations++;
    if (x != x || x < 0) { if (v == v) R.fail("log-domain", "log(%.17g) = %.17g, expected NaN", x, v); return; }
    if (x == 0) { if (v != -INFINITY) R.fail("log-zero", "log(0) = %.17g", v); return; }
    if (x == INFINITY) { if (v != INFINITY) R.fail("log-inf", "log(inf) = %.17g", v); return; }
    LD w = logl((LD)x), e = fabsl((LD)v - w);
    if (!(e <= 1e-10L + 4 * EPS * fabsl(w))) R.fail("log", "log(%.17g = %a) = %.17g, expected %.17Lg (error %Lg)", x, x, v, w, e);
    if (e > worst_log) worst_log = e;
}
static void chk_exp(double x) {
    double v = xexp(x);
    R.evaluations++;
    if (x != x) { if (v == v) R.fail("exp-nan", "exp(NaN) = %.17g", v); return; }
    if (x == INFINITY || x > 709.79) { if (v != INFINITY) R.fail("exp-overflow", "exp(%.17g) = %.17g, expected inf", x, v); return; }
    if (x == -INFINITY || x < -745.2) { if (v != 0) R.fail("exp-underflow", "exp(%.17g) = %.17g, expected 0", x, v); return; }
    if (x > 709.78) return; // the very edge of overflow
    LD w = expl((LD)x), e = fabsl((LD)v - w);
    if (!(e <= 1e-12L * w + 6e-309L)) R.fail("exp", "exp(%.17g = %a) = %.17g, expected %.17Lg (relative error %Lg)", x, x, v, w, e / w);
    if (w > 1e-300L && e / w > worst_exp) worst_exp = e / w;
}
static void chk_pow(double a, double x) {
    double v = xpow(a, x);
    R.evaluations++;
    if (a != a || x != x || a < 0) { if (v == v) R.fail("pow-domain", "pow(%.17g, %.17g) = %.17g, expected NaN", a, x, v); return; }
    if (a == 0 || a == INFINITY) {
        if (x == 0) return;
        double w = (a == 0) == (x > 0) ? 0.0 : INFINITY;
        if (v != w) R.fail("pow-limit", "pow(%g, %g) = %.17g, expected %g", a, x, v, w);
        return;
    }
    if (!std::isfinite(x)) {
        if (a == 1) return;
        if (fabs(a - 1) < 1e-9) return;
        double w = (a > 1) == (x > 0) ? INFINITY : 0.0;
        if (v != w) R.fail("pow-limit", "pow(%.17g, %g) = %.17g, expected %g", a, x, v, w);
        return;
    }
    LD ex = (LD)x * logl((LD)a);
    LD tol = fabsl((LD)x) * 1.1e-10L + fabsl(ex) * 8 * EPS + 1.2e-12L;
    if (tol > .1L) { R.counts["pow: ill conditioned, sign of the exponent only"]++;
        if (ex > 800 + 2 * tol && v != INFINITY) R.fail("pow-big", "pow(%.17g, %.17g) = %.17g, expected inf", a, x, v);
        if (ex < -800 - 2 * tol && v != 0) R.fail("pow-small", "pow(%.17g, %.17g) = %.17g, expected 0", a, x, v);
        return; }
    if (ex > 709.7L) { if (ex > 709.8L + tol && v != INFINITY) R.fail("pow-overflow", "pow(%.17g, %.17g) = %.17g, expected inf", a, x, v); return; }
    if (ex < -745.2L - tol) { if (v != 0) R.fail("pow-underflow", "pow(%.17g, %.17g) = %.17g, expected 0", a, x, v); return; }
    LD w = expl(ex), e = fabsl((LD)v - w);
    if (!(e <= w * expm1l(tol) + 6e-309L)) R.fail("pow", "pow(%.17g, %.17g) = %.17g, expected %.17Lg (relative error %Lg)", a, x, v, w, e / w);
    if (w > 1e-300L) worst_pow = std::max(worst_pow, e / w);
}
static ul n_ldexp, n_frexp;
static double my_ldexp(double x, int n) { n_ldexp++; return ldexp(x, n); }
static double my_frexp(double x, int *e) { n_frexp++; return frexp(x, e); }
static void c14_block(uint64_t seed, long idx) {
    Rng r(seed, idx, 14);
    // every binary exponent is visited: idx runs over blocks of them
    Digest dg;
    for (int k = 0; k < 8; k++) {
        uint64_t e = (idx * 8 + k) % 2047;
        for (int i = 0; i < 400; i++) {
            uint64_t m = i < 12 ? (i < 6 ? (uint64_t)i : 0xfffffffffffffull - (i - 6)) : i < 60 ? r.next() & (0xfffffffffffffull << r.below(52)) : r.next();
            double x = mk(0, e, m);
            chk_log(x);
            if (i % 16 == 0) {
                double y = nextafter(x, INFINITY), a = xlog(x), b = xlog(y);
                if (x > 0 && !(a <= b + 2e-10 + 4 * EPS * fabs(a))) R.fail("log-monotone", "log(%a)=%.17g > log(%a)=%.17g", x, a, y, b);
                chk_log(-x);
            }
        }
        dg.add(e);
        R.counts["exponents visited by log"]++;
    }
    for (int i = 0; i < 400; i++) {
        double x;
        switch (r.below(5)) {
        case 0: x = r.uni(-750, 715); break;
        case 1: x = r.uni(-3, 3); break;
        case 2: x = (r.chance(.5) ? 1 : -1) * pow(10, r.uni(-320, 3.2)); break;
        case 3: x = (int)r.below(1500) * 0x1.62e42fefa39efp-1 * r.pick({1.0, -1.0}) + r.pick({0.0, 1e-15, -1e-15, 1e-9, -1e-9}); break;
        default: x = mk(r.below(2), r.below(2047), r.next());
        }
        chk_exp(x);
        double y = nextafter(x, INFINITY), a = xexp(x), b = xexp(y);
        if (!(a <= b * (1 + 2e-12) + 6e-309)) R.fail("exp-monotone", "exp(%.17g)=%.17g > exp(%.17g)=%.17g", x, a, y, b);
        dg.add(x);
        double base = r.chance(.5) ? pow(10, r.uni(-3, 3)) : r.chance(.5) ? mk(0, r.below(2047), r.next()) : 1 + r.normal() * pow(10, r.uni(-12, -1));
        double ex = r.chance(.5) ? r.uni(-20, 20) : r.chance(.7) ? r.uni(-1, 1) * pow(10, r.uni(-6, 4)) : mk(r.below(2), r.below(2047), r.next());
        chk_pow(base, ex);
    }
    static const double S[] = {0.0, -0.0, INFINITY, -INFINITY, NAN, 1, -1, 2, .5, 5e-324, DBL_MIN, DBL_MAX, -5e-324, 709.78, -709.78, 710, -745, -746, 1023, 1024, 1025, 1e5, 1e9, 3e9, 1e10, 1e20, 1e300, -1e9, -3e9, -1e10, -1e300, 0x1.62e42fefa39efp-1, -0x1.62e42fefa39efp-1};
    if (idx % 16 == 0)
        for (double a : S) { chk_log(a); chk_exp(a); for (double b : S) chk_pow(a, b);
            if (is_nan(a) != (a != a)) R.fail("is_nan", "is_nan(%g)", a);
            for (double b : S) { double m = xmin(a, b); R.evaluations++; if (a != a || b != b ? m == m : !(m == (a < b ? a : b))) R.fail("xmin", "min(%g, %g) = %g", a, b, m); } }
    R.distinct.insert(dg.h);
    if (idx % 5 == 0) R.sample("block %ld: log over binary exponents %ld..., exp, pow; worst so far: log %Lg absolute, exp %Lg relative, pow %Lg relative", idx, (idx * 8) % 2047, worst_log, worst_exp, worst_pow);
}
static void c14_utils(uint64_t seed, long idx) {
    Rng r(seed, idx, 140);
    std::vector<std::array<double, 2>> in;
    std::vector<std::array<double, 3>> ref;
    for (int i = 0; i < 300; i++) {
        double a = r.chance(.5) ? mk(0, r.below(2047), r.next()) : pow(10, r.uni(-3, 3)), x = r.chance(.5) ? r.uni(-745, 709) : r.uni(-10, 10);
        in.push_back({a, x});
        ref.push_back({xlog(a), xexp(x), xpow(a, x / 100)});
    }
    set_float_utils(nullptr, nullptr);
    for (size_t i = 0; i < in.size(); i += 10) if (!same(xlog(in[i][0]), ref[i][0]) || !same(xexp(in[i][1]), ref[i][1])) R.fail("null-utils", "set_float_utils(NULL, NULL) changed log/exp");
    n_ldexp = n_frexp = 0;
    int which = idx % 3; // both helpers, only ldexp, only frexp
    set_float_utils(which != 2 ? my_ldexp : nullptr, which != 1 ? my_frexp : nullptr);
    for (size_t i = 0; i < in.size(); i++) {
        double a = in[i][0], x = in[i][1];
        double l = xlog(a), e = xexp(x), p = xpow(a, x / 100);
        R.evaluations += 3;
        if (!(fabs(l - ref[i][0]) <= 1e-10)) R.fail("utils-log", "log(%.17g) is %.17g with the C library helpers, %.17g with the built-in ones", a, l, ref[i][0]);
        if (!(same(e, ref[i][1]) || fabs(e - ref[i][1]) <= 1e-12 * e)) R.fail("utils-exp", "exp(%.17g) is %.17g with the C library helpers, %.17g with the built-in ones", x, e, ref[i][1]);
        if (!(same(p, ref[i][2]) || fabs(p - ref[i][2]) <= 1e-8 * p)) R.fail("utils-pow", "pow is %.17g / %.17g", p, ref[i][2]);
    }
    if (which != 2 && !n_ldexp) R.fail("utils-ldexp-unused", "the installed ldexp was never called");
    if (which != 1 && !n_frexp) R.fail("utils-frexp-unused", "the installed frexp was never called");
    R.counts["values compared with installed helpers"] += in.size();
    R.counts["installed helper calls"] += n_ldexp + n_frexp;
    // the installation survives a null re-installation
    n_ldexp = n_frexp = 0;
    set_float_utils(nullptr, nullptr);
    xexp(100); xlog(1e10);
    if ((which != 2 && !n_ldexp) || (which != 1 && !n_frexp)) R.fail("null-utils", "set_float_utils(NULL, NULL) removed the installed helpers");
    Digest dg; dg.add(in[0][0]); dg.add(in[0][1]); R.distinct.insert(dg.h);
}

// =============================================================== C15 ======
struct Fn {
    int kind;
    double r, k, amp, w;
    double lo, hi;
    std::vector<std::pair<double, double>> ev;
    bool out = false;
    double outx;
    double raw(double x) const {
        double t = (x - r) / w;
        switch (kind) {
        case 0: return amp * t;
        case 1: return amp * t * t * t;
        case 2: return amp * tanh(k * t);
        case 3: return amp * (exp(std::min(50.0, t)) - 1);
        case 4: return amp * (t > 0 ? t : t * k);
        case 5: return amp * pow(fabs(t), 1.0 / 3) * (t < 0 ? -1 : 1);
        case 6: return amp * (t * t * t * t * t + 1e-3 * t);
        case 7: return amp * sin(3 * t) * (1 + .1 * t);
        case 8: return amp * t / (1 + t * t);
        case 9: return amp * (t > 0 ? 1 - exp(-t) : k * t);
        case 10: return amp * atan(k * t);
        case 11: return amp * (t * t + .5);            // no root
        case 12: return -amp * (fabs(t) + 1e-3);       // no root
        case 13: return amp * t * fabs(t);
        case 15: return amp * (t > 0 ? k : -1);        // a step
        default: return amp * (t * t - .25);           // two roots
        }
    }
};
static double fn_eval(double x, void *p) {
    Fn *f = (Fn *)p;
    double y = f->raw(x);
    f->ev.push_back({x, y});
    if (!(x >= f->lo && x <= f->hi)) { f->out = true; f->outx = x; }
    return y;
}
static void c15_case(uint64_t seed, long idx) {
    Rng r(seed, idx, 15);
    Fn f;
    f.kind = r.below(15);
    f.w = pow(10, r.uni(-3, 3));
    f.r = r.chance(.3) ? 0 : r.normal() * f.w * pow(10, r.uni(-2, 2));
    f.k = pow(10, r.uni(-2, 3));
    f.amp = (r.chance(.5) ? 1 : -1) * pow(10, r.uni(-6, 6));
    double a = f.r - f.w * r.u() * pow(10, r.uni(-1, 1)), b = f.r + f.w * r.u() * pow(10, r.uni(-1, 1));
    switch (r.below(8)) {
    case 0: a = f.r; break;                                 // root at an end
    case 1: b = f.r; break;
    case 2: a = f.r + f.w * r.u(), b = a + f.w * r.u(); break; // on one side
    case 3: if (r.chance(.2)) b = a; break;
    }
    double tol = r.chance(.5) ? pow(10, r.uni(-14, -3)) * f.w : r.pick({1e-6, 2e-8, 1e-12, 0.0, .1});
    f.lo = std::min(a, b); f.hi = std::max(a, b);
    double x1 = a, x2 = b;
    if (r.chance(.5)) std::swap(x1, x2);
    double f1 = f.raw(x1), f2 = f.raw(x2);
    int found = r.pick({-7, 0, 1, 42});
    double x = brent(&found, x1, x2, fn_eval, &f, tol);
    R.evaluations += f.ev.size();
    R.counts["searches"]++;
    std::string what;
    { char w[256]; snprintf(w, sizeof w, "kind %d in [%.17g, %.17g] tol=%g (f: %.6g, %.6g)", f.kind, x1, x2, tol, f1, f2); what = w; }
    if (f.out) R.fail("outside", "%s: evaluated at %.17g", what.c_str(), f.outx);
    if (f.ev.size() > 1000) R.fail("unbounded", "%s: %zu evaluations", what.c_str(), f.ev.size());
    if (found != 0 && found != 1) R.fail("flag", "%s: found=%d", what.c_str(), found);
    bool same_sign = (f1 > 0 && f2 > 0) || (f1 < 0 && f2 < 0);
    Digest dg; dg.add(x); dg.add((uint64_t)f.ev.size()); dg.add(x1);
    if (same_sign) {
        R.counts["same signs"]++;
        if (found) R.fail("same-sign", "%s: reports the root %.17g although the signs are equal", what.c_str(), x);
        return;
    }
    R.counts[f1 == 0 || f2 == 0 ? "root at an end" : "opposite signs"]++;
    if (!found && !(tol >= 1e-9 * (fabs(x1) + fabs(x2)))) { R.counts["tolerance below the resolution: gave up"]++; return; }
    if (!found) { R.fail("missed", "%s: no root reported after %zu evaluations", what.c_str(), f.ev.size()); return; }
    if (!(x >= f.lo && x <= f.hi)) R.fail("root-outside", "%s: root %.17g", what.c_str(), x);
    double fx = f.raw(x);
    if (fx != 0) {
        double lim = 1.2 * (2 * (4e-8 * fabs(x) + .5 * tol)) ;
        double best = INFINITY;
        for (auto &e : f.ev) if (e.second == 0 || (e.second > 0) != (fx > 0)) best = std::min(best, fabs(e.first - x));
        // or the function itself changes sign close to the answer
        auto opp = [&](double y) { double v = f.raw(y); return v == 0 || (v > 0) != (fx > 0); };
        if (!(best <= lim) && !opp(std::max(f.lo, x - lim)) && !opp(std::min(f.hi, x + lim))) R.fail("not-a-root", "%s: root %.17g (f=%g), no sign change within %g (nearest seen at distance %g)", what.c_str(), x, fx, lim, best);
    }
    if (f1 != 0 && f2 != 0 && tol > 0 && (f.kind == 3 || f.kind == 6 || f.kind == 10) && f.k < 30) { // smooth, simple root: the point of the method is to need far less than bisection
        double bis = log2((f.hi - f.lo) / (2 * BRENT_DEFAULT_EPSILON * fabs(x) + .5 * tol));
        if (bis >= 15) { R.counts["smooth searches"]++; R.counts["evaluations of smooth searches"] += f.ev.size(); R.counts["evaluations bisection would need"] += (long)bis + 2; }
    }
    R.counts["roots verified"]++;
    if (f.ev.size() > 4) { R.distinct.insert(dg.h); R.sample("%s -> %.17g after %zu evaluations", what.c_str(), x, f.ev.size()); }
}
// a root many orders of magnitude below the interval, steep or stepwise: the
// search may give up, but what it calls a root is one
static void c15_tiny(uint64_t seed, long idx) {
    Rng r(seed, idx, 151);
    Fn f;
    f.kind = r.pick({0, 1, 2, 5, 10, 13, 15, 15});
    double big = pow(10, r.uni(-5, 200));
    f.r = (r.chance(.5) ? 1 : -1) * big * pow(10, -r.uni(0, r.chance(.5) ? 30 : 120));
    f.w = r.chance(.5) ? big : fabs(f.r);
    f.k = pow(10, r.uni(-2, 3));
    f.amp = r.chance(.5) ? 1 : -1;
    double x1 = -big * r.uni(.1, 1), x2 = big * r.uni(.1, 1);
    if (r.chance(.2)) (f.r < 0 ? x2 : x1) = 0;
    if (r.chance(.5)) std::swap(x1, x2);
    f.lo = std::min(x1, x2); f.hi = std::max(x1, x2);
    double tol = r.chance(.4) ? 0 : fabs(f.r) * pow(10, r.uni(-12, 3));
    double f1 = f.raw(x1), f2 = f.raw(x2);
    if (!(f1 > 0 && f2 < 0) && !(f1 < 0 && f2 > 0)) return;
    int found = r.pick({-7, 0, 1, 42});
    double x = brent(&found, x1, x2, fn_eval, &f, tol);
    R.evaluations += f.ev.size();
    R.counts["distant searches"]++;
    char w[256];
    snprintf(w, sizeof w, "kind %d in [%.17g, %.17g] root %.17g tol=%g", f.kind, x1, x2, f.r, tol);
    if (f.out) R.fail("outside", "%s: evaluated at %.17g", w, f.outx);
    if (f.ev.size() > 1000) R.fail("unbounded", "%s: %zu evaluations", w, f.ev.size());
    if (found != 0 && found != 1) R.fail("flag", "%s: found=%d", w, found);
    if (!found) { R.counts["distant root: gave up"]++; return; }
    double fx = f.raw(x), lim = 1.2 * 2 * (4e-8 * fabs(x) + .5 * tol);
    if (fx == 0 || fabs(x - f.r) <= lim) { R.counts["distant roots verified"]++; Digest d; d.add(x); R.distinct.insert(d.h); return; }
    double best = INFINITY;
    for (auto &e : f.ev) if (e.second == 0 || (e.second > 0) != (fx > 0)) best = std::min(best, fabs(e.first - x));
    if (!(best <= lim)) R.fail("not-a-root", "%s: root %.17g (f=%g), no sign change within %g (nearest seen at distance %g)", w, x, fx, lim, best);
}
// functions that misbehave: the search must end and stay inside
static double wild(double x, void *p) {
    Fn *f = (Fn *)p;
    f->ev.push_back({x, 0});
    if (x == x && !(x >= f->lo && x <= f->hi)) { f->out = true; f->outx = x; }
    uint64_t h = bits(x) ^ (uint64_t)f->k;
    h = Rng::mix(h);
    if (f->ev.size() == 1) return f->amp;
    if (f->ev.size() == 2) return -f->amp;
    switch (f->kind) {
    case 0: return (h & 1) ? NAN : 1.0;
    case 1: return (h & 1) ? INFINITY : -INFINITY;
    case 2: return ((h & 1) ? 1 : -1) * ldexp(1, (int)(h >> 8 & 1023) - 512);
    case 3: return NAN;
    case 4: return (h & 1) ? 1 : -1;
    default: return ((h & 1) ? 1e-300 : -1e300);
    }
}
static void c15_wild(uint64_t seed, long idx) {
    Rng r(seed, idx, 150);
    Fn f;
    f.kind = r.below(6);
    f.k = (double)(r.next() >> 12);
    f.amp = r.pick({1.0, -1.0, (double)NAN, 1e300, (double)INFINITY});
    double a = r.normal() * pow(10, r.uni(-3, 3)), b = a + r.normal();
    f.lo = std::min(a, b); f.hi = std::max(a, b);
    int found = 5;
    double x = brent(&found, a, b, wild, &f, r.pick({0.0, 1e-9, 1e-3}));
    R.evaluations += f.ev.size();
    R.counts["discontinuous functions"]++;
    if (f.ev.size() > 1000) R.fail("wild-unbounded", "%zu evaluations on a discontinuous function", f.ev.size());
    if (f.out) R.fail("wild-outside", "discontinuous function kind %d: evaluated at %.17g outside [%.17g, %.17g]", f.kind, f.outx, f.lo, f.hi);
    if (found != 0 && found != 1) R.fail("wild-flag", "found=%d", found);
    (void)x;
}

// =============================================================== C16 ======
static unsigned char *page;
static size_t PG;
static void guard_init() {
    PG = sysconf(_SC_PAGESIZE);
    unsigned char *m = (unsigned char *)mmap(0, 4 * PG, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + PG, 2 * PG, PROT_READ | PROT_WRITE);
    page = m + PG;
}
static void one_string(const char *name, std::function<void(char *, ul)> call, const std::string &text, ul size, bool writes, const char *key) {
    // the buffer ends at the end of the page (reads/writes beyond trap), canaries before
    unsigned char fill = size % 2 ? 0xA7 : 0x00;
    fill = size % 3 == 0 ? 0xff : fill;
    for (int side = 0; side < 2; side++) {
        memset(page, fill, 2 * PG);
        unsigned char *b = side == 0 ? page + 2 * PG - size : page + 64;
        call((char *)b, size);
        R.evaluations++;
        for (unsigned char *p = page; p < page + 2 * PG; p++)
            if ((p < b || p >= b + size) && *p != fill) { R.fail("outside", "%s with a buffer of %lu bytes wrote at offset %ld", name, size, (long)(p - b)); return; }
        std::string want;
        if (writes && size) want = text.substr(0, size - 1);
        for (ul i = 0; i < size; i++) {
            unsigned char w = writes ? (i < want.size() ? (unsigned char)want[i] : 0) : fill;
            if (b[i] != w) { R.fail(key, "%s with a buffer of %lu bytes: byte %lu is 0x%02x, expected 0x%02x", name, size, i, b[i], w); return; }
        }
    }
    Digest d; d.add((uint64_t)size); for (const char *c = name; *c; c++) d.add((uint64_t)*c); R.distinct.insert(d.h);
}
static std::string lower(std::string s) { for (auto &c : s) c = tolower(c); return s; }
static void c16_all(uint64_t seed) {
    guard_init();
    Rng r(seed, 16);
    auto full = [&](std::function<void(char *, ul)> f) { std::vector<char> b(4096, 0x55); f(b.data(), 4096); b[4095] = 0; for (char c : b) if (c == 0x55) return std::string(); return std::string(b.data()); };
    std::string ver = full([](char *b, ul n) { libspot_version(b, n); }), lic = full([](char *b, ul n) { libspot_license(b, n); });
    if (ver != EXPECT_VERSION) R.fail("version", "version is '%s', the library was built as '%s'", ver.c_str(), EXPECT_VERSION);
    if (lic.find("LGPL") == std::string::npos) R.fail("license", "license is '%s'", lic.c_str());
    std::map<int, std::string> msg;
    static const std::map<int, std::vector<const char *>> kw = {{1000, {"memory"}}, {1001, {"level"}}, {1002, {"q ", " q"}}, {1003, {"excess"}}, {1004, {"anomaly"}}, {1005, {"data", "nan"}}};
    for (int e = 1000; e <= 1005; e++) {
        msg[e] = full([e](char *b, ul n) { libspot_error((enum LibspotError)e, b, n); });
        R.evaluations++;
        R.sample("error %d: '%s'", e, msg[e].c_str());
        if (msg[e].empty()) { R.fail((std::string("error-") + std::to_string(e) + "-empty").c_str(), "libspot_error(%d) gives no message", e); continue; }
        bool hit = false;
        for (auto k : kw.at(e)) hit |= lower(msg[e]).find(k) != std::string::npos;
        if (!hit) R.fail("error-text", "libspot_error(%d) gives '%s'", e, msg[e].c_str());
        for (int o = 1000; o < e; o++) if (msg[o] == msg[e]) R.fail("error-distinct", "errors %d and %d share the message '%s'", o, e, msg[e].c_str());
    }
    R.sample("version '%s', license '%s'", ver.c_str(), lic.c_str());
    std::vector<ul> sizes;
    for (ul i = 0; i <= 200; i++) sizes.push_back(i);
    for (ul i : {255ul, 256ul, 257ul, 511ul, 512ul, 1000ul, 1024ul, 4096ul, 5000ul}) sizes.push_back(i);
    for (ul sz : sizes) {
        one_string("libspot_version", [](char *b, ul n) { libspot_version(b, n); }, ver, sz, true, "version-bytes");
        one_string("libspot_license", [](char *b, ul n) { libspot_license(b, n); }, lic, sz, true, "license-bytes");
        for (int e = 1000; e <= 1005; e++) {
            std::string nm = "libspot_error(" + std::to_string(e) + ")";
            one_string(nm.c_str(), [e](char *b, ul n) { libspot_error((enum LibspotError)e, b, n); }, msg[e], sz, !msg[e].empty(), "error-bytes");
        }
        R.counts["buffer sizes"]++;
    }
    std::vector<long> codes = {0, 1, -1, 5, 6, 999, 1006, 1007, 1010, 2000, -999, -1000, -1001, -1004, -1005, -1006, 10000, 65536 + 1000, INT_MAX, INT_MIN, INT_MAX - 1000, (long)UINT_MAX};
    for (int i = 0; i < 500; i++) { int c = (int)r.next(); if (c < 1000 || c > 1005) codes.push_back(c); }
    for (int i = -64; i < 64; i++) { if (i < 0) codes.push_back(1000 + i); codes.push_back(1006 + 64 + i); }
    for (long c : codes) {
        ul sz = r.pick<ul>({0, 1, 2, 7, 64, 200});
        std::string nm = "libspot_error(unknown code " + std::to_string(c) + ")";
        one_string(nm.c_str(), [c](char *b, ul n) { libspot_error((enum LibspotError)c, b, n); }, "", sz, false, "unknown-code");
        R.counts["unknown codes"]++;
    }
    for (ul sz : {0ul, 1ul, 10ul, 4096ul}) {
        libspot_version(nullptr, sz);
        libspot_license(nullptr, sz);
        for (int e = 998; e <= 1008; e++) libspot_error((enum LibspotError)e, nullptr, sz);
        R.counts["null buffers"] += 13;
        R.evaluations += 13;
    }
}

int main(int c, char **v) {
    if (!harness_args(c, v)) return 2;
    long n = R.cases;
    uint64_t s = R.seed;
    install_libc();
    const std::string &P = R.prop;
    if (P == "C14") { case_loop("domain", n, [&](long i) { c14_block(s, i); }); case_loop("helpers", n / 4, [&](long i) { c14_utils(s, i); }); }
    else if (P == "C15") { case_loop("root", n, [&](long i) { c15_case(s, i); }); case_loop("wild", n / 4, [&](long i) { c15_wild(s, i); }); case_loop("distant", n / 4, [&](long i) { c15_tiny(s, i); }); }
    else if (P == "C16") c16_all(s + R.shard);
    else return 2;
    R.finish();
    return 0;
}
