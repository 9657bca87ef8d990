//@ property S01 I01
//@ covers tg_ring_search tg_line_search
//@ remove segment_rect_intersects_rect index_search
//@ ghost int g_k, g_vis, g_last, g_hit; _Bool g_krel, g_stop;
//@ fptr tg_ring_search::iter/visit
//@ nloops tg_ring_search 1
//@ loop tg_ring_search 0
__CPROVER_assigns(i, g_vis, g_last, g_stop, g_hit)
__CPROVER_loop_invariant(0 <= i && i <= ring->nsegs && g_stop == 0 && g_last < i && -1 <= g_last)
__CPROVER_loop_invariant(g_vis == (g_k < i && g_krel ? 1 : 0))
__CPROVER_decreases(ring->nsegs - i)
//@ end
static struct tg_ring *g_ring; static void *g_u; static struct tg_rect g_rect;
static bool segment_rect_intersects_rect(const struct tg_segment *s, const struct tg_rect *r) {
    ASSERT(BITS(r->min.x) == BITS(g_rect.min.x) && BITS(r->min.y) == BITS(g_rect.min.y) && BITS(r->max.x) == BITS(g_rect.max.x) && BITS(r->max.y) == BITS(g_rect.max.y), "pre: the searched rectangle");
    long j = (const struct tg_point *)s - g_ring->points; ASSERT(j >= 0 && j < g_ring->nsegs, "pre: a segment of the series");
    bool n; bool r2 = (j == g_k ? g_krel : n) ? 1 : 0; g_hit = r2 ? (int)j : -1; return r2; }
static bool index_search(const struct tg_ring *r, struct tg_rect *q, int l, int s, bool (*it)(struct tg_segment, int, void *), void *u) { ASSERT(0, "pre: index"); return 0; }
static bool visit(struct tg_segment s, int j, void *u) {
    ASSERT(u == g_u && !g_stop, "pre: no call after the callback returned false"); ASSERT(j == g_hit && j > g_last, "pre: only segments whose rectangle meets the query, in order");
    struct tg_point a = g_ring->points[j], b = g_ring->points[j + 1];
    ASSERT(BITS(s.a.x) == BITS(a.x) && BITS(s.a.y) == BITS(a.y) && BITS(s.b.x) == BITS(b.x) && BITS(s.b.y) == BITS(b.y), "pre: the segment of that index");
    g_last = j; if (j == g_k) g_vis++; bool go; if (!go) g_stop = 1; return go ? 1 : 0;
}
void harness(void) {
    int in_n, in_k; ASSUME(in_n >= 0 && in_n <= 1 << 26 && in_k >= 0 && (in_k < in_n || in_n == 0)); bool k, null, line; g_krel = k ? 1 : 0; void *u; g_u = u; struct tg_rect q; g_rect = q;
    struct tg_ring *r = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * (in_n + 2ul)); ASSUME(r != 0); g_ring = r; r->nsegs = in_n; r->index = 0; g_k = in_k; g_vis = 0; g_last = -1; g_stop = 0; g_hit = -1;
    if (line) tg_line_search((struct tg_line *)r, q, visit, u); else tg_ring_search(null ? 0 : r, q, visit, u);
    if (null && !line) ASSERT(g_last == -1 && !g_stop, "post: nothing is reported for null");
    else { ASSERT(IMPL(!g_stop && in_n > 0 && g_krel, g_vis == 1), "post: every segment whose rectangle meets the query is reported once"); ASSERT(IMPL(g_vis, g_krel), "post: no other segment is reported"); }
    REACH(g_vis == 1 && in_n > 5, "visited"); REACH(g_stop, "stopped"); REACH(g_last == 7 && line, "line");
}
