//@ property M02 M01 L01
//@ covers tg_poly_new
//@ remove tg_ring_clone tg_poly_free tg_malloc rc_init rc_retain
//@ ghost int g_cnt, g_k, g_calls, g_kown, g_extown, g_other, g_blocks, g_rc; _Bool g_failed, g_gave; struct tg_ring *g_kout; struct tg_ring *g_extout; const struct tg_ring *g_ext; const struct tg_ring *const *g_holes;
//@ stub tg_poly_new memset
//@ nloops tg_poly_new 1
//@ loop tg_poly_new 0
__CPROVER_assigns(i, g_calls, g_kown, g_failed, __CPROVER_object_whole(poly->holes))
__CPROVER_loop_invariant(0 <= i && i <= poly->nholes && poly->nholes == nholes && g_calls == i && g_failed == 0)
__CPROVER_loop_invariant(g_kown == (g_k < i ? 1 : 0) && (g_k < nholes ? poly->holes[g_k] == (g_k < i ? g_kout : (struct tg_ring *)0) : 1))
__CPROVER_decreases(poly->nholes - i)
//@ end
static struct tg_poly *g_pm; static struct tg_ring **g_hm; static int g_hn;
static void *tg_malloc(size_t n) { bool f; if (f) { g_failed = 1; return 0; } g_blocks++; if (n == sizeof(struct tg_poly) && !g_gave) { g_gave = 1; return g_pm; } ASSERT(n == sizeof(struct tg_ring *) * g_hn, "pre: room for the holes"); return g_hm; }
void *memset__c(void *p, int c, size_t n) { ASSERT(c == 0, "pre: zeros"); if (p == g_pm) { ASSERT(n == sizeof(struct tg_poly), "pre: the polygon"); *g_pm = (struct tg_poly){ 0 }; } else { ASSERT(p == g_hm && n == sizeof(struct tg_ring *) * g_hn, "pre: the holes"); __CPROVER_array_set(g_hm, (struct tg_ring *)0); } return p; }
static void rc_init(rc_t *rc) { g_rc = 0; }
static void rc_retain(rc_t *rc) { g_rc++; }
// contract of tg_poly_free, decided by unit M01_poly_free
void tg_poly_free(struct tg_poly *p) {
    if (!p) return; ASSERT(p == g_pm && g_blocks > 0 && p->head.base != BASE_RING && !p->head.noheap && g_rc == 1, "pre: the new polygon, of one owner"); g_rc = 0; g_blocks--;
    if (p->exterior) { ASSERT(p->exterior == g_extout, "pre: its exterior"); g_extown--; }
    if (p->holes) { ASSERT(p->holes == g_hm && (p->nholes == g_hn || p->nholes == 0), "pre: its holes"); if (g_k < p->nholes && p->holes[g_k]) { ASSERT(p->holes[g_k] == g_kout, "pre: its hole"); g_kown--; } g_blocks--; }
}
struct tg_ring *tg_ring_clone(const struct tg_ring *r) {
    if (g_calls < 0) { ASSERT(r == g_ext, "pre: the exterior is cloned first"); g_calls = 0; bool f; if (f) { g_failed = 1; return 0; } g_extown++; return g_extout; }
    ASSERT(r == g_holes[g_calls], "pre: the holes are cloned in order"); int j = g_calls; g_calls++;
    bool f; if (f) { g_failed = 1; return 0; }
    if (j == g_k) { g_kown++; return g_kout; }
    struct tg_ring *o; ASSUME(o != 0 && o != g_kout && o != g_extout); return o;
}
void harness(void) {
    int in_n, in_k; bool null; ASSUME(in_n >= -5 && in_n <= 1 << 26 && in_k >= 0 && in_k <= 1 << 26); struct tg_ring *e = malloc(sizeof *e), *a = malloc(sizeof *a), *b = malloc(sizeof *b); ASSUME(e && a && b);
    const struct tg_ring **holes = malloc(sizeof(void *) * (in_n < 0 ? 1ul : in_n + 1ul)); ASSUME(holes != 0);
    g_gave = 0; g_hn = in_n; g_pm = malloc(sizeof(struct tg_poly)); g_hm = malloc(sizeof(struct tg_ring *) * (in_n < 1 ? 1 : in_n)); ASSUME(g_pm && g_hm);
    g_ext = e; g_extout = a; g_kout = b; g_holes = (void *)holes; g_k = in_k; g_cnt = 0; g_calls = -1; g_kown = g_extown = g_other = g_blocks = g_rc = 0; g_failed = 0;
    struct tg_poly *p = tg_poly_new(null ? 0 : e, (void *)holes, in_n);
    if (null) ASSERT(!p && g_calls == -1 && !g_blocks, "post: null without an exterior");
    else if (in_n == 0) ASSERT((void *)p == (g_failed ? 0 : (void *)a) && g_extown == (g_failed ? 0 : 1) && !g_blocks, "post: a polygon without holes is the shared exterior");
    else if (g_failed) ASSERT(!p && !g_extown && !g_kown && !g_blocks && g_cnt <= (in_n < 0 ? 0 : in_n), "post: null on failure and everything taken is released");
    else {
        ASSERT(p && p->head.base == BASE_POLY && p->head.type == TG_POLYGON && p->head.flags == 0 && !p->head.noheap && g_rc == 1, "post: a polygon with one owner");
        ASSERT(p->exterior == a && g_extown == 1, "post: owns the exterior once"); ASSERT(p->nholes == (in_n > 0 ? in_n : 0), "post: number of holes");
        ASSERT(IMPL(in_k < in_n, p->holes[in_k] == b && g_kown == 1), "post: owns each hole once, in the given order"); ASSERT(g_blocks == (in_n > 0 ? 2 : 1), "post: its own memory only");
    }
    REACH(p && in_n == 3, "holes"); REACH(g_failed && in_n == 3 && in_k == 1 && g_calls == 3, "failed hole"); REACH(g_failed && g_calls == -1 && !null, "no memory"); REACH(p && in_n == 0, "shared");
}
