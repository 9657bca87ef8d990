//@ property I02
//@ covers process_points
//@ remove rect_inflate_point rect_inflate tg_rect_to_ixrect fill_in_upper_index_levels
//@ stub process_points memcpy
//@ timeout 600
//@ ghost int g_k, g_cnt, g_base, g_n, g_nsegs, g_seen; double g_px, g_py, g_qx, g_qy;
//@ anyvalue process_points (b.x - a.x) * (b.y + a.y)
//@ anyvalue process_points edge.x*(next).y - edge.y*(next).x
//@ anyvalue process_points edge.x*(edge0).y - edge.y*(edge0).x
//@ nloops process_points 8
//@ loop process_points 0
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 1
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 2
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave, j, r, spreadrect, g_cnt, g_base, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1 && 0 <= j && j < ixspread && i - j == g_base && g_base >= 0 && r == g_cnt && r >= 0 && r <= i && r <= g_n && (g_cnt >= g_n) == (g_base >= g_nsegs) && g_seen == (g_k < g_base ? 1 : 0))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 3
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave, j, r, spreadrect, g_cnt, g_base, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1 && 0 <= j && j < ixspread && i - j == g_base && g_base >= 0 && r == g_cnt && r >= 0 && r <= i && r <= g_n && (g_cnt >= g_n) == (g_base >= g_nsegs) && g_seen == (g_k < g_base ? 1 : 0))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 4
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points))
__CPROVER_loop_invariant(0 <= i && i <= npoints)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 5
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points))
__CPROVER_loop_invariant(0 <= i && i <= npoints)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 6
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), j, r, spreadrect, g_cnt, g_base, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= npoints && 0 <= j && j < ixspread && i - j == g_base && g_base >= 0 && r == g_cnt && r >= 0 && r <= i && r <= g_n && (g_cnt >= g_n) == (g_base >= g_nsegs) && g_seen == (g_k < g_base ? 1 : 0))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 7
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), j, r, spreadrect, g_cnt, g_base, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= npoints && 0 <= j && j < ixspread && i - j == g_base && g_base >= 0 && r == g_cnt && r >= 0 && r <= i && r <= g_n && (g_cnt >= g_n) == (g_base >= g_nsegs) && g_seen == (g_k < g_base ? 1 : 0))
__CPROVER_decreases(npoints - i)
//@ end
void *memcpy__c(void *d, const void *s, unsigned long n) { ASSERT(0, "pre: two points or more"); return d; }
static struct index *g_ix; static struct ixrect *g_rects; static int g_up, g_spread;
#define CV(q, X, Y) ((X) >= (q)->min.x && (X) <= (q)->max.x && (Y) >= (q)->min.y && (Y) <= (q)->max.y)
/* contracts of R01: the rectangle grows to cover the point */
static void rect_inflate_point(struct tg_rect *r, const struct tg_point *p) { double a, b, c, d; r->min.x = a; r->min.y = b; r->max.x = c; r->max.y = d; }
static void rect_inflate(struct tg_rect *r, const struct tg_rect *o) { }
static void tg_rect_to_ixrect(const struct tg_rect *q, struct ixrect *x) {
    long r = x - g_rects; ASSERT(r == g_cnt && r < g_n, "pre: the leaf rectangles in order, and no more than there are");
    if (g_base <= g_k && g_k - g_base < g_spread) g_seen++;
    g_cnt++; g_base += g_spread; ASSUME((g_cnt >= g_n) == (g_base >= g_nsegs)); /* definition of the number of leaf rectangles: n is the least with n * spread >= nsegs */ }
static void fill_in_upper_index_levels(struct index *x) { ASSERT(x == g_ix && g_cnt == g_n, "pre: the leaf level is complete"); g_up++; }
void harness(void) {
    int n, k, ns, spread, nr; ASSUME(n >= 3 && n <= 1 << 26 && spread >= 2 && spread <= 4096); bool closed = nd_bool(); struct tg_point *p = malloc(sizeof(*p) * (unsigned long)n), *o = malloc(sizeof(*p) * (n + 1ul)); struct index *x = malloc(sizeof(struct index) + sizeof(struct level) * 32); ASSUME(p && o && x); ASSUME(PFIN(p[0]));
    ns = num_segments(p, n, closed); ASSUME(nr >= 1 && nr <= ns && k >= 0 && k < ns); struct ixrect *rects = malloc(sizeof(struct ixrect) * (unsigned long)nr); ASSUME(rects); x->nlevels = 1; x->spread = spread; x->levels[0].nrects = nr; x->levels[0].rects = rects;
    g_ix = x; g_rects = rects; g_spread = spread; g_n = nr; g_nsegs = ns; g_k = k; g_base = g_cnt = g_seen = g_up = 0; struct tg_point a = p[k], b = p[k + 1 < n ? k + 1 : 0]; ASSUME(PFIN(a) && PFIN(b)); g_px = a.x; g_py = a.y; g_qx = b.x; g_qy = b.y;
    bool cv, cw; double ar; struct tg_rect q = process_points(p, n, closed, o, x, &cv, &cw, &ar);
    ASSERT(g_up == 1, "post: the upper levels are filled"); ASSERT(g_seen == 1, "post: every segment is under exactly one leaf rectangle");
    REACH(n == 7 && k == 6 && cv, "convex"); REACH(n == 7 && k == 0 && !cv, "concave"); REACH(n == 7 && ns == 6 && closed && nr == 3, "closed");
}
