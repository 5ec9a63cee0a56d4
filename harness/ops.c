/* C01: byte strings interpreted as histories of calls of the C library.
 * Pure C so that it also runs under MemorySanitizer.  Every object lives in
 * a heap block of its exact size, so that any stray access is seen. */
#include "brent.h"
#include "p2.h"
#include "spot.h"
#include <float.h>
#include <limits.h>
#include <math.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

typedef unsigned long ul;
static const uint8_t *P;
static size_t N, K;
static uint64_t rs;
static uint64_t rnd(void) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return rs;
}
static double rndu(void) { return ((rnd() >> 11) + 0.5) * 0x1p-53; }
static uint8_t b8(void) { return K < N ? P[K++] : 0; }
static uint64_t b64(void) {
    uint64_t v = 0;
    for (int i = 0; i < 8; i++) v = v << 8 | b8();
    return v;
}
static const double SPECIAL[] = {0.0, -0.0, 1, -1, NAN, INFINITY, -INFINITY, 5e-324, -5e-324, DBL_MIN, -DBL_MIN, DBL_MAX, -DBL_MAX, 1e-300, 1e300, -1e300, 1e154, 1e155, 1e-154, 1e-160, 1e9, 3e9, 4294967296.0, -2147483649.0, 9.3e18, -9.3e18, 1.8e19, 1e20, 0.5, 0.98, 1e-4, 1e-8, 1e16, 1e17, 709.0, 710.0, 1024.0, -745.0, 2.2250738585072011e-308, 0x1p-1074, 0x1p1023, 0.1, 2, 3, 1e8, 1e-12};
#define NSPECIAL (sizeof SPECIAL / sizeof *SPECIAL)
static double dbl(const struct Spot *s) {
    uint8_t c = b8();
    if (c < 48) return SPECIAL[c % NSPECIAL];
    if (c < 128) return (double)(int8_t)b8() / (double)(1 + (c & 7));
    if (c < 208 && s) {
        double t = s->excess_threshold, z = s->anomaly_threshold, w = z - t;
        int8_t k = (int8_t)b8();
        switch (c & 7) {
        case 0: return t;
        case 1: return z;
        case 2: return nextafter(t, k > 0 ? INFINITY : -INFINITY);
        case 3: return nextafter(z, k > 0 ? INFINITY : -INFINITY);
        case 4: return t + w * k / 128.0;
        case 5: return t + w * ldexp(1, k / 4);
        case 6: return z + w * k;
        default: return t + k;
        }
    }
    uint64_t u = b64();
    double d;
    memcpy(&d, &u, 8);
    return d;
}
static ul fails; /* allocations to fail */
static ul live, requests;
static void *mal(size_t n) {
    requests++;
    if (fails && fails-- == 1) return 0;
    void *p = n > (1ul << 28) ? 0 : malloc(n);
    if (p) live++;
    return p;
}
static void fre(void *p) {
    if (p) live--;
    free(p);
}
static struct { ul init, refused, fit, fitok, step, verdict[4], query, direct, str, large; uint64_t dig; } S;
static void dig(double d) {
    uint64_t u;
    if (d != d) d = 0.125; /* also makes MemorySanitizer look at the value */
    memcpy(&u, &d, 8);
    S.dig = (S.dig ^ u) * 1099511628211ull;
}
static double wobble(double x, void *e) { double *p = (double *)e; p[1]++; return (x - p[0]) * (1 + fabs(x)); }
static double *exact(ul n) { return (double *)malloc(n * sizeof(double)); }
/* the training data is only read: compared with a copy, sometimes in pages that cannot be written */
static ul fits_ro;
static int fit_const(struct Spot *s, double *d, ul n) {
    static ul turn;
    int rc;
    if (turn++ % 4 == 0 && n) {
        size_t pg = 4096, len = (n * sizeof(double) + pg - 1) / pg * pg;
        char *m = (char *)mmap(0, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m != (char *)MAP_FAILED) {
            double *r = (double *)(m + len - n * sizeof(double));
            memcpy(r, d, n * sizeof(double));
            mprotect(m, len, PROT_READ);
            rc = spot_fit(s, r, n);
            munmap(m, len);
            fits_ro++;
            return rc;
        }
    }
    double *c = exact(n);
    memcpy(c, d, n * sizeof(double));
    rc = spot_fit(s, d, n);
    if (memcmp(c, d, n * sizeof(double))) { fprintf(stderr, "runtime error: spot_fit modified its training data\n"); abort(); }
    free(c);
    return rc;
}
static double *training(ul *np, const struct Spot *s) {
    uint8_t c = b8(), k = b8();
    rs = 0x9e3779b97f4a7c15ull * (c + 1) ^ k;
    ul n = c < 16 ? c : c < 240 ? c * 2 + (k >> 6 & 1) : (ul)(c - 239) * 150 + (k >> 6);
    double *d = exact(n);
    double sc = (k & 8) ? SPECIAL[b8() % NSPECIAL] : 1, off = (k & 16) ? SPECIAL[b8() % NSPECIAL] : 0;
    uint8_t dirty = (k & 32) ? b8() : 0;
    for (ul i = 0; i < n; i++) {
        double v;
        switch (k & 7) {
        case 0: v = -log(rndu()); break;
        case 1: v = rndu(); break;
        case 2: v = (double)(rnd() % 4); break;
        case 3: v = (double)i; break;
        case 4: v = -(double)i; break;
        case 5: v = pow(rndu(), -1.5); break;
        case 6: v = rnd() % 10 ? 0 : rndu(); break;
        default: { uint64_t u = rnd(); memcpy(&v, &u, 8); }
        }
        v = v * sc + off;
        if (dirty && rnd() % 256 < dirty) v = SPECIAL[rnd() % NSPECIAL];
        d[i] = v;
    }
    *np = n;
    (void)s;
    return d;
}
static void look(const struct Spot *s) {
#ifdef MSAN
    __msan_check_mem_is_initialized(&s->q, sizeof s->q);
    __msan_check_mem_is_initialized(&s->level, sizeof s->level);
    __msan_check_mem_is_initialized(&s->n, sizeof s->n);
    __msan_check_mem_is_initialized(&s->Nt, sizeof s->Nt);
    __msan_check_mem_is_initialized(&s->tail.peaks.e2, sizeof s->tail.peaks.e2);
    __msan_check_mem_is_initialized(&s->tail.peaks.container.cursor, sizeof(ul));
    __msan_check_mem_is_initialized(&s->tail.peaks.container.capacity, sizeof(ul));
    __msan_check_mem_is_initialized(&s->tail.peaks.container.last_erased_data, sizeof(double));
#endif
    dig(s->excess_threshold); dig(s->anomaly_threshold); dig(s->tail.gamma); dig(s->tail.sigma);
    dig(s->tail.peaks.e); dig(s->tail.peaks.e2); dig(s->tail.peaks.min); dig(s->tail.peaks.max);
    dig((double)s->n); dig((double)s->Nt);
    const struct Ubend *u = &s->tail.peaks.container;
    ul n = u->filled ? u->capacity : u->cursor;
    for (ul i = 0; i < n; i++) dig(u->data[i]);
}
#define M 3
int run_ops(const uint8_t *p, size_t n) {
    struct Spot *sp[M] = {0};
    P = p; N = n; K = 0; fails = 0;
    S.dig = 1469598103934665603ull;
    set_allocators(mal, fre);
    ul live0 = live, nsteps = 0;
    while (K < N && nsteps < 6000) {
        uint8_t op = b8();
        int w = op % M;
        struct Spot *s = sp[w];
        switch ((op / M) % 16) {
        case 0: case 1: {
            if (s) { spot_free(s); if (op & 64) spot_free(s); free(s); sp[w] = 0; }
            s = (struct Spot *)malloc(sizeof *s);
            uint8_t c = b8(), m = b8();
            static const double LV[] = {.5, .9, .98, 0, .99, .8, .1, .999}, QQ[] = {1e-3, 1e-4, 1e-6, 1e-2, .05, 1e-9, 1e-300, 5e-324};
            static const ul CAP[] = {1, 2, 3, 4, 5, 8, 16, 50, 200, 300};
            double level = c < 200 ? LV[c & 7] : dbl(0), q = m < 200 ? QQ[m & 7] : dbl(0);
            if (c < 200 && m < 200 && q >= 1 - level) q = (1 - level) / 2;
            uint8_t z = b8();
            ul cap = z < 140 ? CAP[z % 10] : z < 200 ? 1 + (ul)b8() : z < 210 ? 0 : z < 220 ? (1ul << 61) + (z & 3) : z < 230 ? ULONG_MAX - (z & 3) : z < 235 ? b64() : (ul)(z - 234);
            if (z == 255) fails = 1;
            int low = (c & 32) ? (int)(int8_t)b8() : (op & 1), dis = (m & 32) ? (int)(int8_t)b8() : !(m & 8);
            int rc = spot_init(s, q, low, dis, level, cap);
            fails = 0;
            if (rc == 0) { sp[w] = s; S.init++; look(s); }
            else { S.refused++; if (rc == -ERR_MEMORY_ALLOCATION_FAILED) { spot_free(s); spot_free(s); } free(s); }
            break;
        }
        case 2: case 3: case 4: {
            if (!s) break;
            ul k;
            double *d = training(&k, s);
            int rc = fit_const(s, d, k);
            free(d);
            S.fit++;
            S.fitok += rc == 0;
            look(s);
            nsteps += k / 4;
            break;
        }
        case 5: case 6: case 7: {
            if (!s) break;
            int rc = spot_step(s, dbl(s));
            S.step++; nsteps++;
            S.verdict[rc < 0 ? 3 : rc & 3]++;
            look(s);
            break;
        }
        case 8: case 9: { /* a burst */
            if (!s) break;
            uint8_t k = b8(), c = b8();
            rs = 88172645463325252ull ^ (uint64_t)c << 32 ^ k;
            double t = s->excess_threshold, wdt = s->anomaly_threshold - t, sg = s->low ? -1 : 1;
            for (int i = 0; i < k; i++) {
                double x = (c & 3) == 0 ? t + wdt * rndu() : (c & 3) == 1 ? t + sg * -log(rndu()) * 10 : (c & 3) == 2 ? t + (rndu() - .5) * 4 * wdt : -log(rndu());
                int rc = spot_step(s, x);
                S.step++; nsteps++;
                S.verdict[rc < 0 ? 3 : rc & 3]++;
            }
            look(s);
            break;
        }
        case 10: {
            if (!s) break;
            dig(spot_quantile(s, dbl(s)));
            dig(spot_probability(s, dbl(s)));
            dig(spot_quantile(s, rndu()));
            S.query += 3;
            break;
        }
        case 11: {
            uint8_t sz = b8();
            char *buf = (char *)malloc(sz);
            int code = (op & 64) ? 1000 + (int8_t)b8() % 10 : (int)b64();
            /* the enum has room for 0..2047 only as far as the language goes */
            if (op & 1) libspot_version(buf, sz);
            else if (op & 2) libspot_license(buf, sz);
            else { memset(buf, 1, sz); libspot_error((enum LibspotError)(code & 2047), buf, sz); }
            for (int i = 0; i < sz && ((op & 3) != 0); i++) dig(buf[i]);
            free(buf);
            libspot_version(0, sz);
            S.str++;
            break;
        }
        case 12: { /* containers used directly */
            uint8_t cap = 1 + b8() % 9, k = b8();
            struct Peaks *pk = (struct Peaks *)malloc(sizeof *pk);
            if (peaks_init(pk, cap) == 0) {
                for (int i = 0; i < k; i++) { peaks_push(pk, dbl(s)); nsteps++; dig(peaks_mean(pk)); dig(peaks_var(pk)); dig((double)peaks_size(pk)); }
                dig(log_likelihood(pk, dbl(s), dbl(s)));
                peaks_free(pk);
                peaks_free(pk);
            }
            free(pk);
            S.direct++;
            break;
        }
        case 13: {
            uint8_t cap = b8() % 12, k = b8();
            struct Tail *t = (struct Tail *)malloc(sizeof *t);
            if (tail_init(t, cap) == 0) {
                for (int i = 0; i < k; i++) { tail_push(t, (op & 32) ? fabs(dbl(s)) : dbl(s)); nsteps++; if (i % 5 == 4) dig(tail_fit(t)); }
                dig(tail_fit(t)); dig(t->gamma); dig(t->sigma);
                dig(tail_quantile(t, dbl(s), dbl(s)));
                dig(tail_probability(t, dbl(s), dbl(s)));
            }
            tail_free(t);
            free(t);
            S.direct++;
            break;
        }
        case 14: {
            ul k;
            double pr = (op & 64) ? dbl(0) : (double)b8() / 255;
            double *d = training(&k, s);
            dig(p2_quantile(pr, d, k));
            free(d);
            double e[2] = {dbl(s), 0};
            int found;
            dig(brent(&found, dbl(s), dbl(s), wobble, e, fabs(dbl(0))));
            dig(found);
            S.direct++;
            break;
        }
        default:
            dig(xlog(dbl(s))); dig(xexp(dbl(s))); dig(xpow(dbl(s), dbl(s))); dig(xmin(dbl(s), dbl(s)));
            S.direct++;
        }
    }
    for (int i = 0; i < M; i++) if (sp[i]) { spot_free(sp[i]); free(sp[i]); }
    if (live != live0) { fprintf(stderr, "runtime error: %lu blocks leaked\n", live - live0); abort(); }
    return 0;
}

#ifdef FUZZ
int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) { return run_ops(d, n); }
#else
static uint64_t mix(uint64_t *x) {
    uint64_t z = (*x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static long current = -1;
/* sizes that short histories do not reach: windows up to 140000 filled and
 * wrapped, trainings of any length, buffers up to 70000 bytes */
static ul size_of(uint64_t *x, double lo, double hi) {
    ul n = (ul)(lo * pow(hi / lo, (double)(mix(x) >> 11) * 0x1p-53));
    if (mix(x) % 3 == 0) { ul b = 1; while (b * 2 <= n) b *= 2; n = b + mix(x) % 3 - 1; } /* around a power of two */
    else if (mix(x) % 4 == 0 && n > 100) n -= n % 100; /* round */
    return n ? n : 1;
}
static void run_large(uint64_t *x, int huge) {
    set_allocators(mal, fre);
    rs = mix(x) | 1;
    S.dig = 1469598103934665603ull;
    ul cap = huge ? size_of(x, 30000, 140000) : size_of(x, 20, 20000), n = cap * 2 + 10 + mix(x) % (cap + 1);
    struct Spot *s = (struct Spot *)malloc(sizeof *s);
    double level = (mix(x) & 1) ? .5 : .25;
    int low = mix(x) & 1, kind = mix(x) % 4;
    if (spot_init(s, 1e-3, low, mix(x) & 1, level, cap) == 0) {
        S.init++;
        for (int round = 0; round < 2; round++) {
            if (round) n = huge ? 1000 : size_of(x, 5, 20000);
            double *d = exact(n);
            for (ul i = 0; i < n; i++) d[i] = kind == 0 ? -log(rndu()) : kind == 1 ? rndu() : kind == 2 ? (double)(rnd() % 1000) : pow(rndu(), -.3);
            int rc = fit_const(s, d, n);
            S.fit++; S.fitok += rc == 0;
            look(s);
            double t = s->excess_threshold, w = s->anomaly_threshold - t;
            free(d);
            ul steps = huge ? 4 : cap > 2000 ? 30 : 150;
            if (round == 0 && !huge && s->tail.peaks.container.filled) { /* up to the wrap */
                ul rest = cap - s->tail.peaks.container.cursor;
                if (rest < 400) steps = rest + 3;
            }
            for (ul i = 0; i < steps; i++) {
                rc = spot_step(s, t + w * rndu());
                S.step++;
                S.verdict[rc < 0 ? 3 : rc & 3]++;
            }
            dig(spot_quantile(s, 1e-4)); dig(spot_probability(s, t + 2 * w));
            S.query += 2;
            look(s);
        }
        spot_free(s);
    }
    free(s);
    ul sz = size_of(x, 200, 70000);
    char *buf = (char *)malloc(sz);
    libspot_version(buf, sz); libspot_license(buf, sz);
    libspot_error((enum LibspotError)(1000 + mix(x) % 6), buf, sz);
    for (ul i = 0; i < sz; i++) dig(buf[i]);
    free(buf);
    S.str += 3;
    S.large++;
}
int main(int c, char **v) {
    if (c < 7) return 2;
    uint64_t seed = strtoull(v[2], 0, 10);
    long cases = atol(v[3]), shard = atol(v[4]), ns = atol(v[5]);
    long only = c > 8 ? atol(v[8]) : -1;
    static uint8_t buf[8192];
    ul ops = 0;
    static uint64_t seen[200000];
    ul nseen = 0;
    for (long i = 0; i < cases; i++) {
        if (only >= 0 ? i != only : i % ns != shard) continue;
        current = i;
        uint64_t x = seed * 1000003 + (uint64_t)i * 7919;
        size_t n = 60 + mix(&x) % (i % 50 == 7 ? 4000 : 700);
        for (size_t k = 0; k < n; k++) buf[k] = (uint8_t)mix(&x);
        /* most histories start with a valid detector and a training */
        if (i % 8) { uint64_t y = mix(&x); buf[0] = 0; buf[1] = (uint8_t)(y % 200) & ~32; buf[2] = (uint8_t)(y >> 8) % 200; buf[3] = (uint8_t)(y >> 16) % 200; buf[4] = 2 * M; }
        ul before = S.step;
        if (i % 100 == 63) run_large(&x, i % 1500 == 63);
        else run_ops(buf, n);
        if (S.step - before > 3 && nseen < 200000) seen[nseen++] = S.dig;
        ops++;
    }
    printf("J\t{\"evaluations\": %lu, \"violations\": 0, \"counts\": {\"histories\": %lu, \"inits\": %lu, \"refused inits\": %lu, \"fits\": %lu, \"successful fits\": %lu, \"steps\": %lu, \"NORMAL\": %lu, \"EXCESS\": %lu, \"ANOMALY\": %lu, \"rejected\": %lu, \"queries\": %lu, \"direct container/tail/root/math calls\": %lu, \"string calls\": %lu, \"histories with large windows, trainings and buffers\": %lu, \"allocations\": %lu}, \"samples\": [\"last history %ld: digest %llx, %lu steps so far\"]}\n",
           S.init + S.fit + S.step + S.query + S.direct + S.str, ops, S.init, S.refused, S.fit, S.fitok, S.step, S.verdict[0], S.verdict[1], S.verdict[2], S.verdict[3], S.query, S.direct, S.str, S.large, requests, current, (unsigned long long)S.dig, S.step);
    printf("D");
    for (ul i = 0; i < nseen; i++) printf("\t%llx", (unsigned long long)seen[i]);
    printf("\n");
    return 0;
}
#endif
