/* C18: the C detector behind flat functions, for ctypes (separate library) */
#include "spot.h"
#include <stdlib.h>
#include <string.h>
__attribute__((visibility("default"))) void ref_setup(void) { set_allocators(malloc, free); }
__attribute__((visibility("default"))) struct Spot *ref_new(double q, int low, int dis, double level, unsigned long cap, int *rc) {
    struct Spot *s = malloc(sizeof *s);
    memset(s, 0, sizeof *s);
    *rc = spot_init(s, q, low, dis, level, cap);
    if (*rc) { free(s); return 0; }
    return s;
}
__attribute__((visibility("default"))) void ref_del(struct Spot *s) { spot_free(s); free(s); }
__attribute__((visibility("default"))) int ref_fit(struct Spot *s, const double *d, unsigned long n) { return spot_fit(s, d, n); }
__attribute__((visibility("default"))) int ref_step(struct Spot *s, double x) { return spot_step(s, x); }
__attribute__((visibility("default"))) double ref_quantile(struct Spot *s, double x) { return spot_quantile(s, x); }
__attribute__((visibility("default"))) double ref_probability(struct Spot *s, double x) { return spot_probability(s, x); }
__attribute__((visibility("default"))) unsigned long ref_sizeof(void) { return sizeof(struct Spot); }
__attribute__((visibility("default"))) void ref_error(int c, char *b, unsigned long n) { libspot_error((enum LibspotError)c, b, n); }
__attribute__((visibility("default"))) void ref_poke(struct Spot *s, unsigned long n, unsigned long nt) { s->n = n; s->Nt = nt; }
/* q level discard low t z n Nt gamma sigma e e2 min max cursor capacity filled last size */
__attribute__((visibility("default"))) void ref_get(const struct Spot *s, double *o) {
    const struct Peaks *p = &s->tail.peaks;
    const struct Ubend *u = &p->container;
    o[0] = s->q; o[1] = s->level; o[2] = s->discard_anomalies; o[3] = s->low; o[4] = s->excess_threshold; o[5] = s->anomaly_threshold; o[6] = s->n; o[7] = s->Nt;
    o[8] = s->tail.gamma; o[9] = s->tail.sigma; o[10] = p->e; o[11] = p->e2; o[12] = p->min; o[13] = p->max;
    o[14] = u->cursor; o[15] = u->capacity; o[16] = u->filled; o[17] = u->last_erased_data; o[18] = u->filled ? u->capacity : u->cursor;
}
__attribute__((visibility("default"))) const double *ref_data(const struct Spot *s) { return s->tail.peaks.container.data; }
