//@ property G01
//@ covers tg_poly_covers_poly tg_poly_contains_poly
//@ remove tg_ring_contains_ring tg_ring_intersects_ring tg_poly_empty
//@ ghost int g_k, g_m, g_tried; _Bool g_hk, g_cov, g_last, g_lastm; struct tg_ring *g_hole, *g_hole2, *g_cur;
//@ nloops tg_poly_covers_poly 2
//@ loop tg_poly_covers_poly 0
__CPROVER_assigns(i, covers, g_cov, g_last, g_lastm, g_cur)
__CPROVER_loop_invariant(0 <= i && i <= a_nholes && covers && (g_k < i && g_hk ? g_cov : 1))
__CPROVER_decreases(a_nholes - i)
//@ end
//@ loop tg_poly_covers_poly 1
__CPROVER_assigns(j, covers, g_cov, g_lastm)
__CPROVER_loop_invariant(0 <= j && j <= b_nholes && !covers && g_last && g_cur == a_holes[i] && (g_m < j ? g_lastm : 1) && (g_k < i && g_hk ? g_cov : 1))
__CPROVER_decreases(b_nholes - j)
//@ end
static struct tg_poly *g_p, *g_q; static struct tg_ring *g_e1, *g_e2; static bool g_he, g_pe, g_qe, g_b1, g_b2;
static bool tg_poly_empty(const struct tg_poly *p) { ASSERT(p == g_p || p == g_q, "pre: a polygon"); return p == g_p ? g_pe : g_qe; }
static bool tg_ring_intersects_ring(const struct tg_ring *r, const struct tg_ring *s, bool edge) { ASSERT(s == g_e2 && !edge && g_he, "pre: the other exterior against the inside of a hole"); bool h = nd_bool(); if (r == g_hole) h = g_hk; g_last = h; g_lastm = 0; g_cur = (void *)r; return h; }
static bool tg_ring_contains_ring(const struct tg_ring *r, const struct tg_ring *s, bool edge) { ASSERT(edge, "pre: with the edge"); if (!g_tried) { g_tried = 1; ASSERT(r == g_e1 && s == g_e2, "pre: the other exterior in the exterior"); return g_he; }
    ASSERT(s == g_cur && g_last, "pre: the hole the exterior runs into, in a hole of the other"); bool h = nd_bool(); if (h && s == g_hole) g_cov = 1; if (r == g_hole2) g_lastm = !h; return h; }
static struct tg_poly *mk(bool base, int n, int k, struct tg_ring *e, struct tg_ring *hole) { struct tg_poly *p = malloc(sizeof *p); struct tg_ring **h = malloc(sizeof(*h) * n); ASSUME(p && h); p->head.base = base ? BASE_RING : BASE_POLY; p->exterior = e; p->nholes = n; p->holes = h; if (n) h[k] = hole; return p; }
void harness(void) {
    int n, k, n2, m; bool w; ASSUME(n >= 0 && n <= 1 << 28 && n2 >= 0 && n2 <= 1 << 28 && k >= 0 && m >= 0 && (n == 0 || k < n) && (n2 == 0 || m < n2)); g_he = nd_bool(); g_hk = nd_bool(); g_tried = 0; g_k = k; g_m = m; g_cov = g_last = g_lastm = 0; g_cur = 0; g_hole = malloc(1); g_hole2 = malloc(1); g_e1 = malloc(1); g_e2 = malloc(1); ASSUME(g_hole && g_hole2 && g_e1 && g_e2);
    g_p = mk(g_b1, n, k, g_e1, g_hole); g_q = mk(g_b2, n2, m, g_e2, g_hole2); if (g_b1) { g_e1 = (void *)g_p; n = 0; } if (g_b2) { g_e2 = (void *)g_q; n2 = 0; }
    bool r = w ? tg_poly_covers_poly(g_p, g_q) : tg_poly_contains_poly(g_p, g_q);
    if (g_b1 && g_b2) ASSERT(r == g_he, "post: polygons that are rings cover when the rings do");
    else if (g_pe || g_qe) ASSERT(!r, "post: nothing about an empty polygon");
    else { ASSERT(IMPL(r, g_he), "post: the exterior covers the other exterior"); ASSERT(IMPL(r && n && g_hk, g_cov), "post: a hole the other runs into is in a hole of the other"); ASSERT(IMPL(!r, !g_he || (g_last && (n2 == 0 || g_lastm))), "post: otherwise there is a hole the other runs into that is in no hole of the other"); }
    REACH(r && n == 3 && n2 == 2 && g_hk && w, "in"); REACH(!r && g_he && n == 3 && n2 == 2, "hole");
    REACH(r && g_b1 && g_b2, "rings");
}
