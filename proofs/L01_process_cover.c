//@ property L01
//@ covers process_points
//@ remove rect_inflate_point rect_inflate tg_rect_to_ixrect fill_in_upper_index_levels
//@ stub process_points memcpy
//@ timeout 600
//@ ghost int g_k; double g_px, g_py, g_lx, g_ly, g_hx, g_hy;
//@ anyvalue process_points (b.x - a.x) * (b.y + a.y)
//@ anyvalue process_points edge.x*(next).y - edge.y*(next).x
//@ anyvalue process_points edge.x*(edge0).y - edge.y*(edge0).x
//@ nloops process_points 8
//@ loop process_points 0
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1 && rect.min.x <= rect.max.x && rect.min.y <= rect.max.y && (g_k < i ? g_px >= rect.min.x && g_px <= rect.max.x && g_py >= rect.min.y && g_py <= rect.max.y : 1))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 1
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1 && rect.min.x <= rect.max.x && rect.min.y <= rect.max.y && (g_k < i ? g_px >= rect.min.x && g_px <= rect.max.x && g_py >= rect.min.y && g_py <= rect.max.y : 1))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 2
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave, j, r, spreadrect)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 3
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), dir, edge, edge0, concave, j, r, spreadrect)
__CPROVER_loop_invariant(0 <= i && i <= npoints && !concave && dir >= -1 && dir <= 1)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 4
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points))
__CPROVER_loop_invariant(0 <= i && i <= npoints && rect.min.x <= rect.max.x && rect.min.y <= rect.max.y && (g_k < i ? g_px >= rect.min.x && g_px <= rect.max.x && g_py >= rect.min.y && g_py <= rect.max.y : 1))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 5
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points))
__CPROVER_loop_invariant(0 <= i && i <= npoints && rect.min.x <= rect.max.x && rect.min.y <= rect.max.y && (g_k < i ? g_px >= rect.min.x && g_px <= rect.max.x && g_py >= rect.min.y && g_py <= rect.max.y : 1))
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 6
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), j, r, spreadrect)
__CPROVER_loop_invariant(0 <= i && i <= npoints)
__CPROVER_decreases(npoints - i)
//@ end
//@ loop process_points 7
__CPROVER_assigns(i, a, b, cwc, rect, __CPROVER_object_whole(ring_points), j, r, spreadrect)
__CPROVER_loop_invariant(0 <= i && i <= npoints)
__CPROVER_decreases(npoints - i)
//@ end
void *memcpy__c(void *d, const void *s, unsigned long n) { ASSERT(0, "pre: two points or more"); return d; }
/* contract of R01: the rectangle grows to just cover the point */
static void rect_inflate_point(struct tg_rect *r, const struct tg_point *p) { ASSUME(PFIN(*p)); if (p->x < r->min.x) r->min.x = p->x; if (p->x > r->max.x) r->max.x = p->x; if (p->y < r->min.y) r->min.y = p->y; if (p->y > r->max.y) r->max.y = p->y; }
static void rect_inflate(struct tg_rect *r, const struct tg_rect *o) { ASSERT(0, "pre: no index here"); }
static void tg_rect_to_ixrect(const struct tg_rect *q, struct ixrect *x) { ASSERT(0, "pre: no index here"); }
static void fill_in_upper_index_levels(struct index *x) { ASSERT(0, "pre: no index here"); }
void harness(void) {
    int n, k; ASSUME(n >= 2 && n <= 1 << 26 && k >= 0 && k < n); struct tg_point *p = malloc(sizeof(*p) * (unsigned long)n), *o = malloc(sizeof(*p) * (n + 1ul)); ASSUME(p && o); g_k = k; g_px = p[k].x; g_py = p[k].y;
    ASSUME(PFIN(p[0]) && FINITE(g_px) && FINITE(g_py)); 
    bool closed = nd_bool(); bool cv, cw; double ar; struct tg_rect q = process_points(p, n, closed, o, 0, &cv, &cw, &ar);
    ASSERT(g_px >= q.min.x && g_px <= q.max.x && g_py >= q.min.y && g_py <= q.max.y, "post: the rectangle covers every point");
    REACH(n == 7 && k == 6 && cv, "convex"); REACH(n == 7 && k == 0 && !cv, "concave");
}
