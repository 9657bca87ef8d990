//@ property S03
//@ covers tg_geom_search geom_multi
//@ remove tg_rect_intersects_rect multi_index_search tg_geom_rect
//@ ghost int g_k, g_vis, g_last, g_hit, g_mi; _Bool g_krel, g_stop, g_self;
//@ ghost const struct tg_geom *g_asked;
//@ fptr tg_geom_search::iter/visit
//@ nloops tg_geom_search 1
//@ loop tg_geom_search 0
__CPROVER_assigns(i, g_vis, g_last, g_stop, g_hit, g_asked)
__CPROVER_loop_invariant(0 <= i && i <= multi->ngeoms && g_stop == 0 && g_last < i && -1 <= g_last && g_self)
__CPROVER_loop_invariant(g_vis == (g_k < i && g_krel ? 1 : 0))
__CPROVER_decreases(multi->ngeoms - i)
//@ end
static const struct tg_geom *g_geom; static struct tg_geom **g_kids; static struct multi *g_multi; static void *g_u; static struct tg_rect g_rect; static struct tg_geom *g_kid;
struct tg_rect tg_geom_rect(const struct tg_geom *g) { g_asked = g; struct tg_rect r; return r; }
bool tg_rect_intersects_rect(struct tg_rect a, struct tg_rect r) {
    ASSERT(BITS(r.min.x) == BITS(g_rect.min.x) && BITS(r.min.y) == BITS(g_rect.min.y) && BITS(r.max.x) == BITS(g_rect.max.x) && BITS(r.max.y) == BITS(g_rect.max.y), "pre: the searched rectangle");
    if (g_asked == g_geom) { g_hit = g_self; return g_self; } bool n; bool r2 = (g_asked == g_kid ? g_krel : n) ? 1 : 0; g_hit = r2 ? 1 : 0; return r2; }
static bool multi_index_search(const struct multi *m, struct tg_rect r, int l, int s, bool (*it)(const struct tg_geom *, int, void *), void *u) {
    ASSERT(g_self && m == g_multi && l == 0 && s == 0 && u == g_u && BITS(r.min.x) == BITS(g_rect.min.x) && BITS(r.max.y) == BITS(g_rect.max.y), "pre: the search starts at the root"); g_mi++; bool b; return b; }
static bool visit(const struct tg_geom *g, int j, void *u) {
    ASSERT(u == g_u && !g_stop && g_self, "pre: no call after the callback returned false"); ASSERT(g_hit == 1 && g_asked == g, "pre: only children whose rectangle meets the query"); ASSERT(j > g_last && j < g_multi->ngeoms && g_kids[j] == g, "pre: the child of that index, in order");
    g_last = j; if (j == g_k) g_vis++; bool go; if (!go) g_stop = 1; return go ? 1 : 0;
}
void harness(void) {
    int in_n, in_k, in_type; ASSUME(in_n >= 0 && in_n <= 1 << 26 && in_k >= 0 && (in_k < in_n || in_n == 0) && in_type >= TG_POINT && in_type <= TG_GEOMETRYCOLLECTION); bool k, null, s, noit, bare, in_nomulti, idx; g_krel = k ? 1 : 0; g_self = s ? 1 : 0; void *u; g_u = u; struct tg_rect q; g_rect = q;
    struct tg_geom *g = malloc(sizeof *g); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * (in_n + 1ul)); struct index *ix = malloc(sizeof *ix); ASSUME(g && m && kids && ix);
    g->head.base = bare ? BASE_POLY : BASE_GEOM; g->head.type = in_type; bool coll = !bare && in_type >= TG_MULTIPOINT; m->geoms = kids; m->ngeoms = in_n; m->index = idx ? ix : 0;
    g->multi = in_nomulti ? 0 : m; g_geom = g; g_multi = m; g_kids = kids; g_kid = kids[in_n ? in_k : 0]; ASSUME(g_kid != g);
    if (in_n) { int d; ASSUME(d >= 0 && d < in_n); }
    g_k = in_k; g_vis = 0; g_last = -1; g_stop = 0; g_hit = 0; g_mi = 0; g_asked = 0;
    tg_geom_search(null ? 0 : g, q, noit ? 0 : visit, u);
    if (null || noit || !coll || in_nomulti || !g_self) ASSERT(g_last == -1 && !g_stop && !g_mi, "post: nothing is reported for null, no callback, no collection, or a collection outside the rectangle");
    else if (idx) ASSERT(g_mi == 1 && g_last == -1, "post: an indexed collection is searched through its index");
    else { ASSERT(!g_mi, "post: no index"); ASSERT(IMPL(!g_stop && in_n > 0 && g_krel, g_vis == 1), "post: every child whose rectangle meets the query is reported once"); ASSERT(IMPL(g_vis, g_krel), "post: no other child is reported"); }
    REACH(g_vis == 1 && in_n > 5, "visited"); REACH(g_stop, "stopped"); REACH(g_mi == 1, "indexed"); REACH(!coll, "no collection");
}
