/* The code under test is compiled with -Dmain=vf_main -Dclock=vf_clock and, in the sanitized build, with its
 * allocation functions renamed to the counting ones below. Nothing here depends on its types. */
#include <stddef.h>
#undef malloc
#undef calloc
#undef realloc
#undef free
#undef getline
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

/* virtual clock */
static long now_us, step_us, calls;
void vf_clock_set(long start_us, long step) { now_us = start_us; step_us = step; calls = 0; }
long vf_clock_calls(void) { return calls; }
long vf_clock(void) { calls++; now_us += step_us; return now_us; }

/* balance of allocations: the set of live blocks, open addressing */
#define SLOTS (1 << 18)
static struct { void *p; size_t n; } tab[SLOTS];
static long live, live_bytes;
static unsigned slot(void *p) { return (unsigned) (((size_t) p >> 4) * 2654435761u) & (SLOTS - 1); }
static void note(void *p, size_t n) {
    if (!p) return;
    live++; live_bytes += (long) n;
    unsigned s = slot(p);
    for (int k = 0; k < SLOTS; k++, s = (s + 1) & (SLOTS - 1))
        if (!tab[s].p || tab[s].p == (void *) -1) { tab[s].p = p; tab[s].n = n; return; }
}
static void forget(void *p) {
    if (!p) return;
    unsigned s = slot(p);
    for (int k = 0; k < SLOTS && tab[s].p; k++, s = (s + 1) & (SLOTS - 1))
        if (tab[s].p == p) { live--; live_bytes -= (long) tab[s].n; tab[s].p = (void *) -1; return; }
}
void *vf_malloc(size_t n) { void *p = malloc(n); note(p, n); return p; }
void *vf_calloc(size_t a, size_t b) { void *p = calloc(a, b); note(p, a * b); return p; }
void *vf_realloc(void *q, size_t n) { forget(q); void *p = realloc(q, n); note(p ? p : q, n); return p; }
void vf_free(void *p) { forget(p); free(p); }
long vf_getline(char **l, size_t *n, FILE *f) {
    char *old = *l;
    long r = getline(l, n, f);
    if (*l != old) { forget(old); note(*l, *n); }
    return r;
}
void vf_live(long *blocks, long *bytes) { *blocks = live; *bytes = live_bytes; }
