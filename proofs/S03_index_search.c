//@ property S03
//@ covers multi_index_search
//@ remove tg_rect_intersects_rect tg_geom_rect ixrect_to_tg_rect
//@ umul multi_index_search i*index->spread
//@ stub multi_index_search multi_index_search
//@ ghost int g_k, g_vis, g_last, g_hit; _Bool g_krel, g_stop;
//@ fptr multi_index_search::iter/visit
//@ note the product i*spread does not overflow: it is below the size of the next level (level sizes: property I02)
//@ note ixgeoms holds child indexes: checked by the stand-in
//@ note precondition of the tracked child: the index rectangles above it meet the query when its own rectangle does (units I02_*)
//@ nloops multi_index_search 2
//@ loop multi_index_search 0
__CPROVER_assigns(i, g_vis, g_stop, g_hit, g_asked)
__CPROVER_loop_invariant(startidx <= i && i <= e && g_stop == 0)
__CPROVER_loop_invariant(!(startidx <= g_k && g_k < i && g_krel) || g_vis == 1)
__CPROVER_loop_invariant(g_vis == 0 || (g_vis == 1 && g_krel))
__CPROVER_decreases(e - i)
//@ end
//@ loop multi_index_search 1
__CPROVER_assigns(i, g_vis, g_stop, g_hit)
__CPROVER_loop_invariant(startidx <= i && i <= e && g_stop == 0)
__CPROVER_loop_invariant(!(startidx <= g_k && g_k < i && g_krel) || g_vis == 1)
__CPROVER_loop_invariant(g_vis == 0 || (g_vis == 1 && g_krel))
__CPROVER_decreases(e - i)
//@ end
//@ ghost const struct tg_geom *g_asked;
static struct multi *g_multi; static void *g_u; static int g_lvl, g_spread; static struct tg_rect g_rect; static bool g_leaf; static const struct tg_geom *g_kid; static int g_n, g_ki;
#define SAMEQ(r) (BITS((r).min.x) == BITS(g_rect.min.x) && BITS((r).min.y) == BITS(g_rect.min.y) && BITS((r).max.x) == BITS(g_rect.max.x) && BITS((r).max.y) == BITS(g_rect.max.y))
struct tg_rect tg_geom_rect(const struct tg_geom *g) { ASSERT(g_leaf, "pre: leaf"); g_asked = g; struct tg_rect r; return r; }
static void ixrect_to_tg_rect(struct ixrect *x, struct tg_rect *r) { long j = x - g_multi->index->levels[g_lvl].rects; ASSERT(!g_leaf && j >= 0 && j < g_multi->index->levels[g_lvl].nrects, "pre: a rectangle of the level"); g_hit = (int)j; struct tg_rect n; *r = n; }
bool tg_rect_intersects_rect(struct tg_rect a, struct tg_rect r) {
    ASSERT(SAMEQ(r), "pre: the searched rectangle"); bool n; bool k = g_leaf ? g_asked == g_kid : g_hit == g_k; bool r2 = (k ? (g_leaf ? g_krel : g_krel || n) : n) ? 1 : 0; if (g_leaf) g_hit = r2; return r2; }
/* contract of the recursive call: the block of children of rectangle i is searched completely unless the callback stops it */
static bool multi_index_search__c(const struct multi *m, struct tg_rect r, int l, int s, bool (*it)(const struct tg_geom *, int, void *), void *u) {
    ASSERT(m == g_multi && u == g_u && l == g_lvl + 1 && SAMEQ(r), "pre: the next level of the same search"); ASSERT(s == __CPROVER_uninterpreted_mul(g_hit, g_spread), "pre: the block of children of the rectangle that met the query");
    ASSERT(!g_stop && !g_leaf, "pre: no search after the callback returned false");
    bool go; if (!go) { g_stop = 1; return 0; }
    if (g_hit == g_k && g_krel) g_vis = 1; return 1; }
static bool visit(const struct tg_geom *g, int j, void *u) {
    ASSERT(g_leaf, "pre: only leaves report"); ASSERT(u == g_u && !g_stop, "pre: no call after the callback returned false"); ASSERT(g_hit == 1 && g_asked == g, "pre: only children whose rectangle meets the query");
    ASSERT(g_multi->geoms[j] == g, "pre: the child of that index");
    if (j == g_ki) g_vis = 1; bool go; if (!go) g_stop = 1; return go ? 1 : 0;
}
void harness(void) {
    unsigned long in_sz; ASSUME(in_sz >= 1ul << 35 && in_sz <= (1ul << 35) + 8); int in_n, in_nrects, in_start, in_lvl, in_nlevels, in_spread, in_k, in_ki; struct tg_rect q; g_rect = q; bool k; g_krel = k ? 1 : 0; void *u; g_u = u;
    ASSUME(in_n >= 1 && in_n <= 1 << 26 && in_nlevels >= 1 && in_nlevels <= 31 && in_lvl >= 0 && in_lvl <= in_nlevels && in_spread >= 2 && in_spread <= 4096 && in_nrects >= 1 && in_nrects <= 1 << 26);
    struct multi *m = malloc(sizeof *m); struct tg_geom **kids0 = malloc(in_sz), **kids = kids0 + (1l << 31); /* every int index is readable: that ixgeoms holds child indexes is a precondition */ int *ixg = malloc(sizeof(int) * in_n); struct index *ix = malloc(sizeof(struct index) + sizeof(struct level) * 32); struct ixrect *rects = malloc(sizeof(struct ixrect) * in_nrects);
    ASSUME(m && kids0 && ixg && ix && rects); g_multi = m; m->geoms = kids; m->ngeoms = in_n; m->ixgeoms = ixg; m->index = ix; ix->spread = in_spread; ix->nlevels = in_nlevels; g_leaf = in_lvl == in_nlevels; g_lvl = in_lvl; g_spread = in_spread; g_n = in_n;
    if (!g_leaf) { ix->levels[in_lvl].rects = rects; ix->levels[in_lvl].nrects = in_nrects; }
    int cnt = g_leaf ? in_n : in_nrects; ASSUME(in_start >= 0 && in_start < cnt && in_k >= 0 && in_k < cnt && in_ki >= 0 && in_ki < in_n);
    if (g_leaf) { ixg[in_k] = in_ki; g_kid = kids[in_ki]; } g_ki = in_ki;
    g_k = in_k; g_vis = 0; g_stop = 0; g_hit = 0; g_asked = 0;
    bool res = multi_index_search(m, q, in_lvl, in_start, visit, u);
    ASSERT(!res == g_stop, "post: false exactly when the callback stopped the search");
    bool under = in_start <= in_k && in_k - in_start < in_spread;
    ASSERT(IMPL(res && under && g_krel, g_vis == 1), "post: every child under the block whose rectangle meets the query is reported");
    ASSERT(IMPL(g_vis, g_krel), "post: no other child is reported");
    REACH(g_leaf && res && g_vis, "leaf"); REACH(!g_leaf && res && g_vis && in_k > 5, "branch"); REACH(!res && !g_leaf, "stopped below"); REACH(g_leaf && !res, "stopped");
}
