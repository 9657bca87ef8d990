//@ property M01 M02
//@ covers tg_poly_copy
//@ remove tg_ring_copy tg_poly_free tg_malloc rc_init rc_retain
//@ stub tg_poly_copy memset memcpy
//@ ghost int g_k, g_calls, g_kown, g_extown, g_blocks, g_rc; _Bool g_failed, g_gave; struct tg_ring *g_kout; struct tg_ring *g_extout; const struct tg_ring *g_ext; const struct tg_ring *const *g_holes;
//@ nloops tg_poly_copy 1
//@ loop tg_poly_copy 0
__CPROVER_assigns(i, g_calls, g_kown, g_failed, __CPROVER_object_whole(poly2->holes))
__CPROVER_loop_invariant(0 <= i && i <= poly2->nholes && g_calls == i && g_failed == 0)
__CPROVER_loop_invariant(g_kown == (g_k < i ? 1 : 0) && (g_k < poly2->nholes ? poly2->holes[g_k] == (g_k < i ? g_kout : (struct tg_ring *)0) : 1))
__CPROVER_decreases(poly2->nholes - i)
//@ end
static struct tg_poly *g_pm, *g_p; static struct tg_ring **g_hm; static int g_hn;
static void *tg_malloc(size_t n) { bool f; if (f) { g_failed = 1; return 0; } g_blocks++; if (!g_gave) { ASSERT(n == sizeof(struct tg_poly), "pre: size"); g_gave = 1; return g_pm; } ASSERT(n == sizeof(struct tg_ring *) * g_hn, "pre: room for the holes"); return g_hm; }
void *memset__c(void *p, int c, size_t n) { ASSERT(c == 0, "pre: zeros"); if (p == g_pm) { ASSERT(n == sizeof(struct tg_poly), "pre: the polygon"); *g_pm = (struct tg_poly){ 0 }; } else { ASSERT(p == g_hm && n == sizeof(struct tg_ring *) * g_hn, "pre: the holes"); __CPROVER_array_set(g_hm, (struct tg_ring *)0); } return p; }
void *memcpy__c(void *d, const void *s, size_t n) { ASSERT(d == &g_pm->head && s == &g_p->head && n == sizeof(struct head), "pre: copies the head"); g_pm->head = g_p->head; return d; }
static void rc_init(rc_t *rc) { ASSERT(rc == &g_pm->head.rc, "pre: the count of the copy"); g_rc = 0; }
static void rc_retain(rc_t *rc) { ASSERT(rc == &g_pm->head.rc, "pre: the count of the copy"); g_rc++; }
void tg_poly_free(struct tg_poly *p) { // decided by unit M01_poly_free
    if (!p) return; ASSERT(p == g_pm && g_blocks > 0 && p->head.base != BASE_RING && !p->head.noheap && g_rc == 1, "pre: the new polygon, of one owner"); g_rc = 0; g_blocks--;
    if (p->exterior) { ASSERT(p->exterior == g_extout, "pre: its exterior"); g_extown--; }
    if (p->holes) { ASSERT(p->holes == g_hm && (p->nholes == g_hn || p->nholes == 0), "pre: its holes"); if (g_k < p->nholes && p->holes[g_k]) { ASSERT(p->holes[g_k] == g_kout, "pre: its hole"); g_kown--; } g_blocks--; }
}
struct tg_ring *tg_ring_copy(const struct tg_ring *r) {
    if (g_calls < 0) { ASSERT(r == g_ext, "pre: the exterior is copied first"); g_calls = 0; bool f; if (f) { g_failed = 1; return 0; } g_extown++; return g_extout; }
    ASSERT(r == g_holes[g_calls], "pre: the holes are copied in order"); int j = g_calls; g_calls++; bool f; if (f) { g_failed = 1; return 0; } if (j == g_k) { g_kown++; return g_kout; } struct tg_ring *o; ASSUME(o != 0); return o;
}
void harness(void) {
    int in_n, in_k, fl; bool null, ring, nh; ASSUME(in_n >= 0 && in_n <= 1 << 26 && in_k >= 0 && in_k <= 1 << 26 && fl >= 0 && fl < 256); struct tg_ring *e = malloc(sizeof *e), *a = malloc(sizeof *a), *b = malloc(sizeof *b); struct tg_poly *p = malloc(sizeof *p); struct tg_ring **holes = malloc(sizeof(void *) * (in_n + 1ul)); ASSUME(e && a && b && p && holes);
    g_gave = 0; g_hn = in_n; g_pm = malloc(sizeof(struct tg_poly)); g_hm = malloc(sizeof(struct tg_ring *) * (in_n + 1ul)); ASSUME(g_pm && g_hm); p->head.base = BASE_POLY; p->head.type = TG_POLYGON; p->head.flags = fl; p->head.noheap = nh ? 1 : 0; p->exterior = e; p->holes = holes; p->nholes = in_n; g_p = p; e->head.base = BASE_RING;
    g_ext = e; g_extout = a; g_kout = b; g_holes = (void *)holes; g_k = in_k; g_calls = -1; g_kown = g_extown = g_blocks = g_rc = 0; g_failed = 0;
    struct tg_poly *c = tg_poly_copy(null ? 0 : ring ? (void *)e : p);
    if (null) ASSERT(!c && g_calls == -1 && !g_blocks, "post: null copies to null");
    else if (ring) ASSERT((void *)c == (g_failed ? 0 : (void *)a) && !g_blocks && g_calls == 0, "post: a polygon without holes is copied as the ring it is");
    else if (g_failed) ASSERT(!c && !g_extown && !g_kown && !g_blocks, "post: null on failure and everything taken is released");
    else { ASSERT(c == g_pm && c->head.base == BASE_POLY && c->head.type == TG_POLYGON && c->head.flags == fl && !c->head.noheap && g_rc == 1, "post: a polygon with one owner that is not pinned");
        ASSERT(c->exterior == a && g_extown == 1 && c->nholes == in_n && g_blocks == (in_n > 0 ? 2 : 1), "post: owns its own exterior"); ASSERT(IMPL(in_k < in_n, c->holes == g_hm && c->holes[in_k] == b && g_kown == 1), "post: owns a copy of each hole, in order"); }
    ASSERT(p->exterior == e && p->holes == holes && p->nholes == in_n && p->head.noheap == (nh ? 1 : 0), "post: the original is unchanged");
    REACH(c && in_n == 3 && !ring && nh, "holes"); REACH(g_failed && in_n == 3 && in_k == 1 && g_calls == 3, "failed hole"); REACH(c && ring, "ring");
}
