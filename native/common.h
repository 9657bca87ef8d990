// Shared parts of the executable-contract harnesses (L2, bounded).  Only the public API of tg.h is used, so that any
// implementation of that API can be judged.
#ifndef COMMON_H
#define COMMON_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdarg.h>
#include <math.h>
#include <float.h>
#include <signal.h>
#include <unistd.h>
#include <sys/time.h>
#include <time.h>
#include "tg.h"

static char g_case[1 << 16];     // description of the input being judged
static unsigned long g_evals, g_nontriv;
static int g_fails;
static uint64_t g_seed = 1, g_rng = 1;
static double g_budget = 10;     // seconds
static int g_tier = 0;           // 0 quick 1 thorough
static double g_t0;
static char g_samples[3][400];
static int g_nsamples;

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool time_left(void) { return now() - g_t0 < g_budget; }
static bool time_frac(double f) { return now() - g_t0 < g_budget * f; }

static uint64_t rnd(void) {
    uint64_t z = (g_rng += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static int rn(int n) { return (int)(rnd() % (uint64_t)n); }            // 0..n-1
static int rr(int a, int b) { return a + rn(b - a + 1); }              // a..b
static double rbits(void) { union { uint64_t u; double d; } x; do x.u = rnd(); while (!isfinite(x.d)); return x.d; }

static void put_fail(const char *kind, const char *msg) {
    printf("FAIL %s: %s\nINPUT %s\nENDFAIL\n", kind, msg, g_case);
    fflush(stdout);
}
static void finish(int rc) {
    printf("STATS {\"evaluations\": %lu, \"nontrivial\": %lu, \"seconds\": %.2f}\n", g_evals, g_nontriv, now() - g_t0);
    for (int i = 0; i < g_nsamples; i++) printf("SAMPLE %s\n", g_samples[i]);
    fflush(stdout);
    _exit(rc);
}
static void fail(const char *fmt, ...) {
    char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    put_fail("contract", b);
    g_fails++;
    finish(1);
}
#define CHECK(c, ...) do { if (!(c)) fail(__VA_ARGS__); } while (0)
static void casef(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); vsnprintf(g_case, sizeof g_case, fmt, ap); va_end(ap);
}
static void caseadd(const char *fmt, ...) {
    size_t n = strlen(g_case); va_list ap; va_start(ap, fmt);
    if (n + 2 < sizeof g_case) vsnprintf(g_case + n, sizeof g_case - n, fmt, ap);
    va_end(ap);
}
static void eval(bool nontrivial) {
    g_evals++; if (nontrivial) g_nontriv++;
    if (nontrivial && g_nsamples < 3 && (g_evals % 97 == 3 || g_nsamples == 0)) {
        snprintf(g_samples[g_nsamples], sizeof g_samples[0], "%s", g_case);
        for (char *p = g_samples[g_nsamples]; *p; p++) if ((unsigned char)*p < 32 || (unsigned char)*p > 126) *p = '.';
        g_nsamples++;
    }
}
void __sanitizer_set_death_callback(void (*cb)(void));
static void on_death(void) { put_fail("sanitizer", "memory or undefined-behaviour error, see stderr"); fflush(stdout); }
static int g_case_secs = 20;
static void on_alarm(int s) { (void)s; put_fail("timeout", "call does not return"); _exit(1); }
static void arm(void) { struct itimerval it = { {0, 0}, {g_case_secs, 0} }; setitimer(ITIMER_VIRTUAL, &it, 0); }
static void on_sig(int s) { (void)s; put_fail("signal", "crash"); _exit(1); }

// counting / failing allocator
static long g_live, g_allocs, g_fail_at = -1, g_fail_all_after = -1;
static bool alloc_should_fail(void) {
    long n = g_allocs++;
    return n == g_fail_at || (g_fail_all_after >= 0 && n >= g_fail_all_after);
}
static void *ct_malloc(size_t n) { if (alloc_should_fail()) return 0; void *p = malloc(n ? n : 1); if (p) g_live++; return p; }
static void *ct_realloc(void *q, size_t n) {
    if (alloc_should_fail()) return 0;
    void *p = realloc(q, n ? n : 1); if (p && !q) g_live++; return p;
}
static void ct_free(void *p) { if (p) { g_live--; free(p); } }
static void use_counting_allocator(void) { tg_env_set_allocator(ct_malloc, ct_realloc, ct_free); }

static void harness_init(int argc, char **argv) {
    if (argc > 1) g_seed = strtoull(argv[1], 0, 10);
    if (argc > 2) g_budget = atof(argv[2]);
    if (argc > 3) g_tier = atoi(argv[3]);
    g_rng = g_seed * 0x1234567 + 99;
    g_t0 = now();
    __sanitizer_set_death_callback(on_death);
    signal(SIGVTALRM, on_alarm);
    signal(SIGALRM, on_alarm);
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    arm();
}

// ---- small helpers shared by harnesses
typedef struct tg_point pt;
typedef struct tg_rect rect;
typedef struct tg_segment seg;
static pt P(double x, double y) { pt p = { x, y }; return p; }
static const char *g_ixname(enum tg_index ix) { static char b[4][40]; static int k; k = (k + 1) & 3; snprintf(b[k], 40, "0x%x", (unsigned)ix); return b[k]; }
static char *hexs(const void *d, size_t n) {
    static char b[1 << 15]; size_t o = 0;
    for (size_t i = 0; i < n && o + 4 < sizeof b; i++) o += sprintf(b + o, "%02x", ((const uint8_t *)d)[i]);
    b[o] = 0; return b;
}
static char *pts_str(const pt *p, int n) {
    static char b[4][1 << 14]; static int k; k = (k + 1) & 3; size_t o = 0; b[k][0] = 0;
    for (int i = 0; i < n && o + 70 < sizeof b[0]; i++) o += sprintf(b[k] + o, "%s%.17g %.17g", i ? "," : "", p[i].x, p[i].y);
    return b[k];
}
#endif
