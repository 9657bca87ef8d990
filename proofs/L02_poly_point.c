//@ property L02 G01
//@ covers poly_contains_point tg_poly_covers_point tg_poly_contains_point tg_poly_covers_xy tg_poly_intersects_point
//@ remove tg_ring_contains_point tg_poly_empty
//@ ghost int g_k, g_any, g_first; _Bool g_hk; struct tg_ring *g_hole;
//@ nloops poly_contains_point 1
//@ loop poly_contains_point 0
__CPROVER_assigns(i, covers, g_any, g_first)
__CPROVER_loop_invariant(0 <= i && i <= poly->nholes && covers && !g_any && g_first > 0 && g_first <= i + 1 && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(poly->nholes - i)
//@ end
static struct tg_poly *g_p; static struct tg_ring *g_ext; static double g_x, g_y; static bool g_edge, g_he, g_emp, g_base;
static bool tg_poly_empty(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_emp; }
struct ring_result tg_ring_contains_point(const struct tg_ring *r, struct tg_point p, bool edge) {
    struct ring_result q; ASSERT(BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y), "pre: the point");
    if (g_base) { ASSERT((void *)r == g_p && edge == g_edge, "pre: the ring itself"); q.hit = g_he; return q; }
    ASSERT(!g_emp, "pre: not empty");
    if (!g_first++) { ASSERT(r == g_ext && edge == g_edge, "pre: the exterior with the edge asked for"); q.hit = g_he; return q; }
    ASSERT(edge == !g_edge, "pre: the edge of a hole belongs to the polygon when the edge of the polygon does"); ASSERT(g_he, "pre: inside the exterior");
    if (r == g_hole) { q.hit = g_hk; if (g_hk) g_any = 1; return q; }
    bool h; q.hit = h; if (h) g_any = 1; return q;
}
void harness(void) {
    int n, k, w; bool null; ASSUME(n >= 0 && n <= 1 << 28 && w >= 0 && w <= 4); struct tg_poly *p = malloc(sizeof *p); struct tg_ring **h = malloc(sizeof(*h) * n); g_hole = malloc(sizeof(struct tg_ring)); g_ext = malloc(sizeof(struct tg_ring)); ASSUME(p && h && g_hole && g_ext);
    p->exterior = g_ext; p->nholes = n; p->holes = h; ASSUME(k >= 0 && (n == 0 || k < n)); g_k = k; if (n) h[k] = g_hole; p->head.base = g_base ? BASE_RING : BASE_POLY; g_p = null ? 0 : p; g_he = nd_bool(); g_hk = nd_bool(); if (null) { ASSUME(g_emp && !g_base); } g_any = 0; struct tg_point pt; g_x = pt.x; g_y = pt.y; g_first = 0; g_edge = w == 0 ? nd_bool() : w != 2;
    bool r = w == 0 ? poly_contains_point(g_p, pt, g_edge) : w == 1 ? tg_poly_covers_point(g_p, pt) : w == 2 ? tg_poly_contains_point(g_p, pt) : w == 3 ? tg_poly_covers_xy(g_p, pt.x, pt.y) : tg_poly_intersects_point(g_p, pt);
    if (g_base) ASSERT(r == g_he, "post: a polygon that is a ring contains what the ring does");
    else if (g_emp) ASSERT(!r, "post: an empty polygon contains nothing");
    else { ASSERT(IMPL(r, g_he), "post: what it contains is in the exterior"); ASSERT(IMPL(r, n == 0 || !g_hk), "post: and in none of the holes"); ASSERT(IMPL(!r, !g_he || g_any), "post: what is in the exterior and in no hole is contained"); }
    REACH(r && n == 3 && !g_base, "in"); REACH(!r && g_he && n == 3 && !g_base, "hole"); REACH(!r && null, "null");
    REACH(r && g_base, "ring"); REACH(r && g_edge && n == 1, "edge");
}
