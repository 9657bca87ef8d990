//@ property S01 I01
//@ covers index_search
//@ remove segment_rect_intersects_rect ixrect_intersects_ixrect tg_rect_to_ixrect
//@ umul index_search i*ixspread
//@ stub index_search index_search
//@ ghost int g_k, g_vis, g_last, g_hit, g_end, g_lo; _Bool g_krel, g_stop;
//@ fptr index_search::iter/visit
//@ note the product i*ixspread does not overflow: it is below the size of the next level (level sizes: property I02)
//@ note precondition of the tracked segment: the index rectangles above it meet the query when its own rectangle does (units I02_*)
//@ nloops index_search 2
//@ loop index_search 0
__CPROVER_assigns(i, g_vis, g_last, g_stop, g_hit)
__CPROVER_loop_invariant(start <= i && (i <= e || e < start) && g_stop == 0 && g_last < i)
__CPROVER_loop_invariant(g_vis == (start <= g_k && g_k < i && g_krel ? 1 : 0))
__CPROVER_decreases(e - i)
//@ end
//@ loop index_search 1
__CPROVER_assigns(i, g_vis, g_last, g_stop, g_hit)
__CPROVER_loop_invariant(start <= i && (i <= e || e < start) && g_stop == 0)
__CPROVER_loop_invariant(g_vis == (start <= g_k && g_k < i && g_krel ? 1 : 0))
__CPROVER_decreases(e - i)
//@ end
static struct tg_ring *g_ring; static void *g_u; static int g_lvl, g_spread; static struct tg_rect g_rect; static bool g_leaf;
static bool segment_rect_intersects_rect(const struct tg_segment *s, const struct tg_rect *r) {
    ASSERT(BITS(r->min.x) == BITS(g_rect.min.x) && BITS(r->min.y) == BITS(g_rect.min.y) && BITS(r->max.x) == BITS(g_rect.max.x) && BITS(r->max.y) == BITS(g_rect.max.y), "pre: the searched rectangle");
    long j = (const struct tg_point *)s - g_ring->points; ASSERT(j >= 0 && j < g_ring->nsegs, "pre: a segment of the series");
    bool n; bool r2 = (j == g_k ? g_krel : n) ? 1 : 0; g_hit = r2 ? (int)j : -1; return r2; }
static void tg_rect_to_ixrect(const struct tg_rect *r, struct ixrect *x) {
    ASSERT(BITS(r->min.x) == BITS(g_rect.min.x) && BITS(r->min.y) == BITS(g_rect.min.y) && BITS(r->max.x) == BITS(g_rect.max.x) && BITS(r->max.y) == BITS(g_rect.max.y), "pre: the searched rectangle");
    struct ixrect n; *x = n; }
static bool ixrect_intersects_ixrect(struct ixrect *a, struct ixrect *b) {
    long j = a - g_ring->index->levels[g_lvl].rects; ASSERT(j >= 0 && j < g_ring->index->levels[g_lvl].nrects, "pre: a rectangle of the level");
    bool n; bool r = (j == g_k && g_krel ? 1 : n) ? 1 : 0; g_hit = r ? (int)j : -1; return r; }
/* contract of the recursive call: the block of children of rectangle i is searched completely unless the callback stops it */
static bool index_search__c(const struct tg_ring *r, struct tg_rect *q, int l, int s, bool (*it)(struct tg_segment, int, void *), void *u) {
    ASSERT(r == g_ring && u == g_u && l == g_lvl + 1, "pre: the next level of the same search"); ASSERT(g_hit >= 0 && s == __CPROVER_uninterpreted_mul(g_hit, g_spread), "pre: the block of children of the rectangle that met the query");
    ASSERT(!g_stop, "pre: no search after the callback returned false");
    bool go; if (!go) { g_stop = 1; return 0; }
    if (g_hit == g_k && g_krel) g_vis++; return 1; }
static bool visit(struct tg_segment s, int j, void *u) {
    ASSERT(g_leaf, "pre: only leaves report"); ASSERT(u == g_u && !g_stop, "pre: no call after the callback returned false"); ASSERT(j == g_hit && j > g_last, "pre: only segments whose rectangle meets the query, in order");
    struct tg_point a = g_ring->points[j], b = g_ring->points[j + 1];
    ASSERT(BITS(s.a.x) == BITS(a.x) && BITS(s.a.y) == BITS(a.y) && BITS(s.b.x) == BITS(b.x) && BITS(s.b.y) == BITS(b.y), "pre: the segment of that index");
    g_last = j; if (j == g_k) g_vis++; bool go; if (!go) g_stop = 1; return go ? 1 : 0;
}
void harness(void) {
    int in_n, in_nrects, in_start, in_lvl, in_nlevels, in_spread, in_k; struct tg_rect q; g_rect = q; bool k; g_krel = k ? 1 : 0; void *u; g_u = u;
    ASSUME(in_n >= 1 && in_n <= 1 << 26 && in_nlevels >= 1 && in_nlevels <= 31 && in_lvl >= 0 && in_lvl <= in_nlevels && in_spread >= 2 && in_spread <= 4096);
    ASSUME(in_nrects >= 1 && in_nrects <= 1 << 26);
    struct tg_ring *r = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * (in_n + 2ul)); struct index *ix = malloc(sizeof(struct index) + sizeof(struct level) * 32); struct ixrect *rects = malloc(sizeof(struct ixrect) * in_nrects);
    ASSUME(r && ix && rects); g_ring = r; r->nsegs = in_n; r->index = ix; ix->spread = in_spread; ix->nlevels = in_nlevels; g_leaf = in_lvl == in_nlevels; g_lvl = in_lvl; g_spread = in_spread;
    if (!g_leaf) { ix->levels[in_lvl].rects = rects; ix->levels[in_lvl].nrects = in_nrects; }
    int cnt = g_leaf ? in_n : in_nrects; ASSUME(in_start >= 0 && in_start < cnt && in_k >= 0 && in_k < cnt);
    g_k = in_k; g_vis = 0; g_last = -1; g_stop = 0; g_hit = -1;
    bool res = index_search(r, &q, in_lvl, in_start, visit, u);
    ASSERT(!res == g_stop, "post: false exactly when the callback stopped the search");
    bool under = in_start <= in_k && in_k - in_start < in_spread;
    ASSERT(IMPL(res && under && g_krel, g_vis == 1), "post: every segment under the block whose rectangle meets the query is reported once");
    ASSERT(IMPL(g_vis, under && g_krel && g_vis == 1), "post: no other segment is reported");
    REACH(g_leaf && res && g_vis, "leaf"); REACH(!g_leaf && res && g_vis && in_k > 5, "branch"); REACH(!res && !g_leaf, "stopped below"); REACH(g_leaf && !res, "stopped");
}
