//@ property G04 G01
//@ covers tg_line_intersects_line tg_line_touches_line line_intersects_line segment_intersects_iter
//@ plain
//@ remove tg_line_line_search any_touching tg_line_num_segments
static struct tg_line *g_a, *g_b; static int g_an, g_bn, g_w, g_calls; static bool g_t, g_last, g_more;
int tg_line_num_segments(const struct tg_line *l) { return l == g_a ? g_an : g_bn; }
static bool any_touching(struct tg_segment a, int ai, int an, struct tg_segment b, int bi, int bn) { ASSERT(an == g_an && bn == g_bn && ai == 3 && bi == 4 && a.a.x == 7 && b.a.x == 8, "pre: the two segments with their places"); g_t = nd_bool(); return g_t; }
void tg_line_line_search(const struct tg_line *a, const struct tg_line *b, bool (*it)(struct tg_segment, int, struct tg_segment, int, void *), void *ud) {
    ASSERT(a == g_a && b == g_b, "pre: the lines in order"); g_more = nd_bool(); struct tg_segment s = {{ 7, 1 }, { 2, 3 }}, t = {{ 8, 1 }, { 2, 3 }}; struct segment_intersects_iter_ctx *c = ud; ASSERT(!c->yes, "pre: starts false");
    if (g_more) { if (g_w) c->yes = nd_bool(); bool go = it(s, 3, t, 4, ud); if (g_w) ASSERT(c->yes == g_t && go == g_t, "step: goes on while they only touch"); else ASSERT(c->yes && !go, "step: one pair is enough"); }
}
void harness(void) {
    int an, bn; g_an = an; g_bn = bn; g_a = malloc(1); g_b = malloc(1); ASSUME(g_a && g_b); g_w = nd_bool();
    bool r = g_w ? tg_line_touches_line(g_a, g_b) : tg_line_intersects_line(g_a, g_b);
    if (!g_w) ASSERT(r == g_more, "post: lines meet when a pair of segments does"); else ASSERT(r == (g_more && g_t), "post: lines touch when the pairs that meet all touch");
    REACH(r && g_w, "touch"); REACH(!r && !g_w, "apart");
}
