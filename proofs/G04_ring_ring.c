//@ property G04
//@ covers tg_ring_intersects_ring
//@ remove tg_ring_empty tg_ring_intersects_segment tg_rect_intersects_rect rect_area tg_ring_rect
//@ ghost int g_k, g_any; _Bool g_hk; double g_kx, g_ky, g_sx, g_sy;
//@ nloops tg_ring_intersects_ring 1
//@ loop tg_ring_intersects_ring 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= other->nsegs && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(other->nsegs - i)
//@ end
static struct tg_ring *g_a, *g_b; static bool g_e1, g_e2, g_rc, g_edge; static double g_a1, g_a2;
bool tg_ring_empty(const struct tg_ring *r) { ASSERT(r == g_a || r == g_b, "pre: a ring"); return r == g_a ? g_e1 : g_e2; }
struct tg_rect tg_ring_rect(const struct tg_ring *r) { return r->rect; }
static double rect_area(struct tg_rect q) { bool a = BITS(q.min.x) == BITS(g_a->rect.min.x); return a ? g_a1 : g_a2; }
bool tg_rect_intersects_rect(struct tg_rect a, struct tg_rect b) { ASSERT(BITS(a.min.x) == BITS(g_a->rect.min.x) && BITS(b.max.y) == BITS(g_b->rect.max.y) || BITS(b.min.x) == BITS(g_a->rect.min.x) && BITS(a.max.y) == BITS(g_b->rect.max.y), "pre: the two rectangles"); return g_rc; }
bool tg_ring_intersects_segment(const struct tg_ring *r, struct tg_segment s, bool edge) { ASSERT((r == g_a || r == g_b) && edge == g_edge && g_rc && !g_e1 && !g_e2, "pre: segments of one against the other"); bool sw = r == g_b, h = !sw && BITS(s.a.x) == BITS(g_kx) && BITS(s.a.y) == BITS(g_ky) && BITS(s.b.x) == BITS(g_sx) && BITS(s.b.y) == BITS(g_sy) ? g_hk : nd_bool(); if (h) g_any = 1; return h; }
void harness(void) {
    int n, k, ns; ASSUME(n >= 2 && n <= 1 << 26 && ns >= 1 && ns < n && k >= 0 && k < ns); bool sw = nd_bool(); g_a = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * n); g_b = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * n); ASSUME(g_a && g_b); g_b->npoints = n; g_b->nsegs = ns; g_a->nsegs = ns; g_k = k; g_kx = g_b->points[k].x; g_ky = g_b->points[k].y; g_sx = g_b->points[k+1].x; g_sy = g_b->points[k+1].y; g_any = 0; g_e1 = nd_bool(); g_e2 = nd_bool(); g_rc = nd_bool(); g_hk = nd_bool(); g_edge = nd_bool(); double a1, a2; g_a1 = a1; g_a2 = a2; ASSUME(sw ? 1 : !(a2 > a1)); ASSUME(BITS(g_a->rect.min.x) != BITS(g_b->rect.min.x)); if (sw) { ASSUME(a2 > a1); g_hk = 0; }
    bool r = tg_ring_intersects_ring(g_a, g_b, g_edge);
    ASSERT(IMPL(r, !g_e1 && !g_e2 && g_rc && g_any), "post: rings that meet have a segment of one that meets the other"); ASSERT(IMPL(!r, g_e1 || g_e2 || !g_rc || !g_any && (sw || !g_hk)), "post: rings that do not meet have none");
    REACH(r && n == 4 && !sw, "meet"); REACH(!r && g_rc && !g_e1 && !g_e2 && n == 4, "apart"); REACH(r && sw, "swapped");
}
