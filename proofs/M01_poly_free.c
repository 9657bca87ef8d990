//@ property M01
//@ covers tg_poly_free
//@ remove tg_ring_free tg_free rc_release
//@ ghost int g_cnt, g_k, g_kown, g_extown, g_blocks, g_rel; struct tg_ring *g_kout; struct tg_ring *g_extout; void *g_a; void *g_b;
//@ nloops tg_poly_free 1
//@ loop tg_poly_free 0
__CPROVER_assigns(i, g_kown, g_cnt)
__CPROVER_loop_invariant(0 <= i && i <= poly->nholes && g_cnt <= i && g_kown <= (g_k < i ? 0 : 1))
__CPROVER_decreases(poly->nholes - i)
//@ end
static bool g_last;
static void tg_free(void *p) { ASSERT((p == g_a && p) || (p == g_b && p), "pre: only the polygon and its hole array are released"); if (p == g_a) { ASSERT(!g_b, "pre: the polygon goes last"); g_a = 0; } else g_b = 0; free(p); g_blocks--; }
static bool rc_release(rc_t *rc) { g_rel++; return g_last; }
void tg_ring_free(struct tg_ring *r) { ASSERT(r != 0, "pre: ring"); if (r == g_extout && g_extown > 0) g_extown--; else { g_cnt++; if (r == g_kout) g_kown = 0; } }
void harness(void) {
    int in_n, in_k; bool null, ring, noheap, last, noholes; ASSUME(in_n >= 0 && in_n <= 1 << 26 && in_k >= 0 && in_k < in_n); struct tg_ring *e = malloc(sizeof *e), *a = malloc(sizeof *a); struct tg_poly *p = malloc(sizeof *p); ASSUME(e && a && p);
    struct tg_ring **holes = malloc(sizeof(void *) * (in_n + 1ul)); ASSUME(holes != 0);
    p->head.base = BASE_POLY; p->head.noheap = noheap ? 1 : 0; p->exterior = e; p->holes = holes; p->nholes = in_n; e->head.base = BASE_RING;
    g_extout = e; g_kout = a; holes[in_k] = a; g_k = in_k; g_cnt = 0; g_kown = 1; g_extown = 1; g_blocks = 2; g_rel = 0; g_last = last ? 1 : 0; g_a = p; g_b = holes;
    int others; // other holes may be anything but the tracked one
    tg_poly_free(null ? 0 : ring ? (void *)e : p);
    if (null) ASSERT(g_kown == 1 && g_extown == 1 && g_blocks == 2 && !g_rel, "post: null is ignored");
    else if (ring) ASSERT(g_extown == 0 && g_blocks == 2 && !g_rel, "post: a polygon without holes is released as the ring it is");
    else if (noheap) ASSERT(g_kown == 1 && g_extown == 1 && g_blocks == 2, "post: a pinned polygon is never released");
    else if (!last) ASSERT(g_rel == 1 && g_kown == 1 && g_extown == 1 && g_blocks == 2, "post: one owner less, nothing is released while others remain");
    else ASSERT(g_rel == 1 && g_kown <= 0 && g_extown == 0 && g_blocks == 0, "post: the last owner releases the exterior, every hole and the memory");
    REACH(!null && !ring && !noheap && last && in_n > 3, "released"); REACH(!last && !null && !ring && !noheap, "shared");
}
