//@ property G01 G04
//@ covers tg_ring_contains_ring
//@ remove tg_ring_empty tg_ring_contains_point tg_ring_contains_segment tg_rect_covers_rect
//@ ghost int g_k, g_any; _Bool g_hk; double g_kx, g_ky, g_sx, g_sy;
//@ nloops tg_ring_contains_ring 2
//@ loop tg_ring_contains_ring 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= b->npoints && !g_any && (g_k < i ? g_hk : 1))
__CPROVER_decreases(b->npoints - i)
//@ end
//@ loop tg_ring_contains_ring 1
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= b->nsegs && !g_any && (g_k < i ? g_hk : 1))
__CPROVER_decreases(b->nsegs - i)
//@ end
static struct tg_ring *g_a, *g_b; static bool g_e1, g_e2, g_rc, g_edge;
bool tg_ring_empty(const struct tg_ring *r) { ASSERT(r == g_a || r == g_b, "pre: a ring"); return r == g_a ? g_e1 : g_e2; }
bool tg_rect_covers_rect(struct tg_rect a, struct tg_rect b) { ASSERT(BITS(a.min.x) == BITS(g_a->rect.min.x) && BITS(b.max.y) == BITS(g_b->rect.max.y), "pre: the rectangles in order"); return g_rc; }
struct ring_result tg_ring_contains_point(const struct tg_ring *r, struct tg_point p, bool edge) { struct ring_result q; ASSERT(r == g_a && edge == g_edge && g_rc && !g_e1 && !g_e2 && g_a->convex, "pre: points of the other in a convex ring"); q.hit = BITS(p.x) == BITS(g_kx) && BITS(p.y) == BITS(g_ky) ? g_hk : nd_bool(); if (!q.hit) g_any = 1; return q; }
bool tg_ring_contains_segment(const struct tg_ring *r, struct tg_segment s, bool edge) { ASSERT(r == g_a && edge == g_edge && g_rc && !g_e1 && !g_e2, "pre: segments of the other in the ring"); bool h = BITS(s.a.x) == BITS(g_kx) && BITS(s.a.y) == BITS(g_ky) && BITS(s.b.x) == BITS(g_sx) && BITS(s.b.y) == BITS(g_sy) ? g_hk : nd_bool(); if (!h) g_any = 1; return h; }
void harness(void) {
    int n, k, ns; bool edge; ASSUME(n >= 2 && n <= 1 << 26 && ns >= 1 && ns < n && k >= 0 && k < ns); g_a = malloc(sizeof(struct tg_ring)); g_b = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * n); ASSUME(g_a && g_b); g_b->npoints = n; g_b->nsegs = ns; g_k = k; g_kx = g_b->points[k].x; g_ky = g_b->points[k].y; g_sx = g_b->points[k+1].x; g_sy = g_b->points[k+1].y; g_any = 0; g_e1 = nd_bool(); g_e2 = nd_bool(); g_rc = nd_bool(); g_hk = nd_bool(); g_edge = nd_bool(); g_a->convex = nd_bool();
    bool r = tg_ring_contains_ring(g_a, g_b, g_edge);
    ASSERT(IMPL(r, !g_e1 && !g_e2 && g_rc && g_hk && !g_any), "post: every point or segment of the other is contained"); ASSERT(IMPL(!r, g_e1 || g_e2 || !g_rc || g_any), "post: otherwise one is not");
    REACH(r && n == 4 && g_a->convex, "convex"); REACH(!r && g_rc && !g_e1 && !g_e2 && n == 4 && !g_a->convex, "concave");
}
