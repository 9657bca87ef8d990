//@ property G04
//@ covers tg_poly_intersects_poly
//@ remove tg_ring_contains_ring tg_ring_intersects_ring tg_poly_empty
//@ ghost int g_k, g_m, g_any; _Bool g_hk, g_hm; struct tg_ring *g_hole, *g_hole2;
//@ nloops tg_poly_intersects_poly 2
//@ loop tg_poly_intersects_poly 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= poly_nholes && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(poly_nholes - i)
//@ end
//@ loop tg_poly_intersects_poly 1
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= other_nholes && !g_any && (g_m < i ? !g_hm : 1))
__CPROVER_decreases(other_nholes - i)
//@ end
static struct tg_poly *g_p, *g_q; static struct tg_ring *g_e1, *g_e2; static bool g_he, g_pe, g_qe, g_b1, g_b2;
static bool tg_poly_empty(const struct tg_poly *p) { ASSERT(p == g_p || p == g_q, "pre: a polygon"); return p == g_p ? g_pe : g_qe; }
static bool tg_ring_intersects_ring(const struct tg_ring *r, const struct tg_ring *s, bool edge) { ASSERT((r == g_e1 && s == g_e2 || r == g_e2 && s == g_e1) && edge, "pre: the exteriors with their edges"); return g_he; }
static bool tg_ring_contains_ring(const struct tg_ring *r, const struct tg_ring *s, bool edge) { ASSERT((s == g_e1 || s == g_e2) && !edge && g_he, "pre: the other exterior in a hole, without its edge");
    if (r == g_hole && s == g_e2) { if (g_hk) g_any = 1; return g_hk; } if (r == g_hole2 && s == g_e1) { if (g_hm) g_any = 1; return g_hm; } bool h; if (h) g_any = 1; return h; }
static struct tg_poly *mk(bool base, int n, int k, struct tg_ring *e, struct tg_ring *hole) { struct tg_poly *p = malloc(sizeof *p); struct tg_ring **h = malloc(sizeof(*h) * n); ASSUME(p && h); p->head.base = base ? BASE_RING : BASE_POLY; p->exterior = e; p->nholes = n; p->holes = h; if (n) h[k] = hole; return p; }
void harness(void) {
    int n, k, n2, m; ASSUME(n >= 0 && n <= 1 << 28 && n2 >= 0 && n2 <= 1 << 28 && k >= 0 && m >= 0 && (n == 0 || k < n) && (n2 == 0 || m < n2)); g_he = nd_bool(); g_hk = nd_bool(); g_hm = nd_bool(); g_k = k; g_m = m; g_any = 0; g_hole = malloc(1); g_hole2 = malloc(1); g_e1 = malloc(1); g_e2 = malloc(1); ASSUME(g_hole && g_hole2 && g_e1 && g_e2);
    g_p = mk(g_b1, n, k, g_e1, g_hole); g_q = mk(g_b2, n2, m, g_e2, g_hole2); if (g_b1) { g_e1 = (void *)g_p; n = 0; } if (g_b2) { g_e2 = (void *)g_q; n2 = 0; }
    bool r = tg_poly_intersects_poly(g_p, g_q);
    if (g_b1 && g_b2) ASSERT(r == g_he, "post: polygons that are rings meet when the rings do");
    else if (g_pe || g_qe) ASSERT(!r, "post: nothing meets an empty polygon");
    else { ASSERT(IMPL(r, g_he), "post: polygons that meet have exteriors that meet"); ASSERT(IMPL(r, (n == 0 || !g_hk) && (n2 == 0 || !g_hm)), "post: neither is in a hole of the other"); ASSERT(IMPL(!r, !g_he || g_any), "post: polygons whose exteriors meet, neither in a hole, meet"); }
    REACH(r && n == 3 && n2 == 2, "in"); REACH(!r && g_he && n == 3 && !g_hk, "hole");
    REACH(r && g_b1 && g_b2, "rings"); REACH(r && g_b1 && !g_b2 && n2 == 1, "ring and polygon");
}
