//@ property G04
//@ covers tg_ring_intersects_segment intersegiter
//@ plain
//@ remove tg_rect_intersects_rect tg_ring_contains_point tg_ring_search tg_segment_intersects_segment collinear
static struct tg_ring *g_a; static bool g_rc, g_ha, g_hb, g_edge, g_si, g_sig; static struct tg_segment g_s, g_t; static int g_cnt, g_search;
static bool collinear(double a, double b, double c, double d, double e, double f) { return nd_bool(); }
static bool same(struct tg_segment a, struct tg_segment b) { return BITS(a.a.x) == BITS(b.a.x) && BITS(a.a.y) == BITS(b.a.y) && BITS(a.b.x) == BITS(b.b.x) && BITS(a.b.y) == BITS(b.b.y); }
bool tg_rect_intersects_rect(struct tg_rect a, struct tg_rect b) { return g_rc; }
bool tg_segment_intersects_segment(struct tg_segment a, struct tg_segment b) { ASSERT(same(a, g_s) && same(b, g_t) || same(b, g_s) && same(a, g_t), "pre: the segment and one of the ring"); return g_si; }
struct ring_result tg_ring_contains_point(const struct tg_ring *r, struct tg_point p, bool edge) { struct ring_result q; ASSERT(r == g_a && edge == g_edge && g_rc && (PEQ(p, g_s.a) || PEQ(p, g_s.b)), "pre: an end of the segment"); q.hit = PEQ(p, g_s.a) ? g_ha : g_hb; return q; }
void tg_ring_search(const struct tg_ring *r, struct tg_rect q, bool (*it)(struct tg_segment, int, void *), void *ud) {
    ASSERT(r == g_a && !g_ha && !g_hb && g_rc && q.min.x == MIN2(g_s.a.x, g_s.b.x) && q.max.x == MAX2(g_s.a.x, g_s.b.x) && q.min.y == MIN2(g_s.a.y, g_s.b.y) && q.max.y == MAX2(g_s.a.y, g_s.b.y), "pre: the segments near this one");
    struct intersegiterctx *c = ud; ASSERT(c->count == 0 && same(c->seg, g_s) && c->allow_on_edge == g_edge && !c->seg_a_on && !c->seg_b_on, "pre: starts counting at 0"); g_search++;
    int had; bool ao = nd_bool(), bo = nd_bool(); ASSUME(had == 0 || had == 1); c->count = had; c->seg_a_on = g_edge ? 0 : ao; c->seg_b_on = g_edge ? 0 : bo;
    struct tg_segment t; ASSUME(SFIN(t)); g_t = t; g_si = nd_bool(); int i; bool go = it(t, i, ud);
    ASSERT(IMPL(!g_si, c->count == had && go), "step: a segment that does not meet is passed over"); ASSERT(IMPL(g_edge && g_si, c->count == had + 1), "step: with edges, every segment that meets counts"); ASSERT(c->count >= 0 && c->count <= had + 1 && go == (c->count < 2), "step: stops at two"); ASSERT(same(c->seg, g_s) && c->allow_on_edge == g_edge, "step: nothing else changes"); g_cnt = c->count; g_sig = g_si;
}
void harness(void) {
    struct tg_segment s; ASSUME(SFIN(s)); g_s = s; g_a = malloc(sizeof(struct tg_ring)); ASSUME(g_a); g_rc = nd_bool(); g_ha = nd_bool(); g_hb = nd_bool(); if (PEQ(s.a, s.b)) g_hb = g_ha; g_edge = nd_bool(); g_cnt = g_search = 0;
    bool r = tg_ring_intersects_segment(g_a, s, g_edge);
    if (!g_rc) ASSERT(!r && !g_search, "post: rectangles apart, nothing meets"); else if (g_ha || g_hb) ASSERT(r, "post: an end in the ring is enough"); else ASSERT(g_search == 1 && r == (g_cnt >= 2), "post: otherwise it must cross the ring twice");
    REACH(r && g_search && g_edge, "crosses"); REACH(!r && g_search && !g_edge && g_sig, "once");
}
