/* C21: the library in a program without any C library: own entry point, own
 * allocator, raw system calls.  With -DHOSTED the same program runs on libc
 * (reference digest). */
#include "spot.h"
typedef unsigned long ul;
typedef unsigned long long u64;
static ul nmemcpy, nalloc, nfree, nldexp, nfrexp;

#ifdef HOSTED
#include <stdio.h>
#include <stdlib.h>
static void out(const char *p, ul n) { fwrite(p, 1, n, stdout); }
static void quit(int c) { fflush(stdout); exit(c); }
#else
static long sys(long n, long a, long b, long c) {
    long r;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
    return r;
}
static void out(const char *p, ul n) { sys(1, 1, (long)p, n); }
static void quit(int c) { sys(60, c, 0, 0); __builtin_unreachable(); }
/* memory primitives that a compiler may emit calls to */
void *memcpy(void *d, const void *s, ul n) { char *a = d; const char *b = s; nmemcpy++; while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } return d; }
void *memmove(void *d, const void *s, ul n) { char *a = d; const char *b = s; nmemcpy++; if (a < b) while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } else while (n) { n--; a[n] = b[n]; __asm__ volatile("" ::: "memory"); } return d; }
void *memset(void *d, int c, ul n) { char *a = d; nmemcpy++; while (n--) { *a++ = (char)c; __asm__ volatile("" ::: "memory"); } return d; }
int memcmp(const void *x, const void *y, ul n) { const unsigned char *a = x, *b = y; nmemcpy++; for (; n; n--, a++, b++) { if (*a != *b) return *a - *b; __asm__ volatile("" ::: "memory"); } return 0; }
#endif

static void num(u64 v, int base) {
    char b[24];
    int i = 24;
    do { b[--i] = "0123456789abcdef"[v % base]; v /= base; } while (v);
    out(b + i, 24 - i);
}
static void str(const char *s) { ul n = 0; while (s[n]) n++; out(s, n); }
static void kv(const char *k, u64 v, const char *end) { str("\""); str(k); str("\": "); num(v, 10); str(end); }

static u64 rs = 88172645463325252ull;
static u64 rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static double ru(void) { return ((rnd() >> 11) + 0.5) * 0x1p-53; }
static double cast(u64 u) { union { u64 u; double d; } c; c.u = u; return c.d; }
static u64 bits(double d) { union { u64 u; double d; } c; c.d = d; return d != d ? 0x7ff8ull << 48 : c.u; }
static u64 H = 1469598103934665603ull;
static void add(u64 v) { for (int i = 0; i < 8; i++) { H ^= (v >> (8 * i)) & 255; H *= 1099511628211ull; } }
static void addd(double d) { add(bits(d)); }

static double pool[1 << 18];
static ul top;
static void *bump(ul n) {
    ul k = (n + 7) / 8;
    if (n > sizeof pool || top + k > (1 << 18)) return 0;
    nalloc++;
    void *p = pool + top;
    top += k;
    return p;
}
static void drop(void *p) { if (p) nfree++; }
static double my_ldexp(double x, int n) {
    nldexp++;
    while (n > 1000) { x *= 0x1p1000; n -= 1000; }
    while (n < -1000) { x *= 0x1p-1000; n += 1000; }
    return x * cast((u64)(1023 + n) << 52);
}
static double my_frexp(double x, int *e) {
    nfrexp++;
    int k = 0;
    if (x == 0) { *e = 0; return x; }
    u64 u = bits(x);
    if (!(u >> 52 & 2047)) { x *= 0x1p200; k = -200; u = bits(x); }
    *e = k + (int)(u >> 52 & 2047) - 1022;
    return cast((u & ~(2047ull << 52)) | 1022ull << 52);
}
static double data[3000];
static double draw(int k) {
    double u = ru(), v = ru();
    switch (k) {
    case 0: return u;
    case 1: return (u + v + ru() + ru() - 2) * 3;
    case 2: return 1 / u;
    case 3: return (double)(rnd() % 5);
    case 4: return cast(rnd());
    default: return u * u * u * 1e6;
    }
}
static const double HOST[] = {0., -0., 1e308, -1e308, 5e-324, 1., -1., 1e-300, 3e9, 1e20};
static ul calls, verdicts[4], fail;
static void expect(int ok, const char *what) { if (!ok) { str("V\tC21\tbehaviour\tbare\t0\t"); str(what); str("\n"); fail++; } }

static void run(ul cases, ul seed) {
    struct Spot s;
    char buf[100];
    double zero = 0;
    /* before any allocator: every initialisation is refused, nothing crashes */
    for (ul cap = 1; cap < 2000; cap *= 3) { calls++; expect(spot_init(&s, 1e-3, 0, 1, .98, cap) == -ERR_MEMORY_ALLOCATION_FAILED, "initialisation before any allocator is installed is not refused with the allocation error"); spot_free(&s); }
    calls++;
    expect(spot_init(&s, 1e-3, 0, 1, 2., 10) == -ERR_LEVEL_OUT_OF_BOUNDS, "wrong error before any allocator is installed");
    set_allocators(bump, drop);
    for (ul c = 0; c < cases; c++) {
        rs = 88172645463325252ull + (seed * 1000003 + c) * 0x9e3779b97f4a7c15ull;
        if (!rs) rs = 1;
        for (int i = 0; i < 4; i++) rnd();
        top = 0;
        if (c == cases / 2) set_float_utils(my_ldexp, my_frexp);
        ul cap = 1 + rnd() % 200;
        double level = c % 4 == 3 ? ru() : c % 2 ? .98 : .9;
        double q = (1 - level) * ru() * (c % 3 ? .01 : 1);
        int low = (int)(rnd() & 1), dis = (int)(rnd() % 4);
        int rc = spot_init(&s, q, low, dis, level, cap);
        calls++;
        add(rc);
        if (rc) continue;
        for (int life = 0; life < 2; life++) {
            int kind = rnd() % 6;
            ul n = c % 5 ? rnd() % 600 : rnd() % 3000;
            for (ul i = 0; i < n; i++) data[i] = draw(kind);
            rc = spot_fit(&s, data, n);
            calls++;
            add(rc); addd(s.excess_threshold); addd(s.anomaly_threshold);
            for (ul i = 0; i < 150; i++) {
                double x = rnd() % 20 == 0 ? HOST[rnd() % 10] : rnd() % 30 == 0 ? zero / zero : rnd() % 3 ? draw(kind) : s.excess_threshold + (s.anomaly_threshold - s.excess_threshold) * ru();
                rc = spot_step(&s, x);
                calls++;
                verdicts[rc < 0 ? 3 : rc]++;
                add(rc); addd(s.anomaly_threshold); addd(s.tail.gamma); addd(s.tail.sigma);
            }
            for (int i = 0; i < 10; i++) { addd(spot_quantile(&s, ru() * .1)); addd(spot_probability(&s, draw(kind))); calls += 2; }
            add(s.n); add(s.Nt);
        }
        libspot_version(buf, c % 100); libspot_license(buf, c % 100); libspot_error(1000 + c % 6, buf, c % 100);
        calls += 3;
        for (ul i = 0; i < c % 100; i++) add((u64)buf[i]);
        spot_free(&s);
        str("D\t"); num(H, 16); str("\n");
    }
    expect(nldexp > 0 && nfrexp > 0, "the installed float helpers were not used");
    str("J\t{\"evaluations\": "); num(calls, 10); str(", \"counts\": {");
    kv("library calls", calls, ", "); kv("allocator calls", nalloc, ", "); kv("release calls", nfree, ", "); kv("float helper calls", nldexp + nfrexp, ", ");
    kv("compiler emitted memory primitives", nmemcpy, ", "); kv("NORMAL", verdicts[0], ", "); kv("EXCESS", verdicts[1], ", "); kv("ANOMALY", verdicts[2], ", "); kv("rejected", verdicts[3], "}, \"samples\": []}\n");
    str("H\t"); num(H, 16); str("\n");
    quit(0);
}
#ifdef HOSTED
int main(void) { run(CASES, SEED); return 0; }
#else
__attribute__((force_align_arg_pointer)) void _start(void) { run(CASES, SEED); }
#endif
