//@ property G04 L02
//@ covers line_covers_point_iter tg_line_covers_point tg_line_intersects_point tg_point_intersects_line
//@ plain
//@ remove tg_line_search tg_segment_covers_point
static struct tg_line *g_l; static double g_x, g_y; static struct tg_segment g_s; static bool g_hit, g_any, g_stop;
bool tg_segment_covers_point(struct tg_segment s, struct tg_point p) { ASSERT(BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y), "pre: the point"); ASSERT(BITS(s.a.x) == BITS(g_s.a.x) && BITS(s.a.y) == BITS(g_s.a.y) && BITS(s.b.x) == BITS(g_s.b.x) && BITS(s.b.y) == BITS(g_s.b.y), "pre: the segment"); return g_hit; }
/* contract of the search (S01): every segment whose rectangle meets the point is given until the callback says stop */
void tg_line_search(const struct tg_line *l, struct tg_rect q, bool (*it)(struct tg_segment, int, void *), void *ud) {
    ASSERT(l == g_l && q.min.x == g_x && q.max.x == g_x && q.min.y == g_y && q.max.y == g_y || g_x != g_x || g_y != g_y, "pre: the line and the rectangle of the point");
    bool hit = 0; struct line_covers_point_iter_ctx *c = ud; ASSERT(!c->covers, "pre: starts false");
    /* invariant of the fold: covers == one of the segments given so far covers the point; an arbitrary step preserves it */
    bool more; if (more) { struct tg_segment s; g_s = s; bool h = nd_bool(); g_hit = h; int i; bool go = it(s, i, ud); ASSERT(go == !h, "step: stops when it is found"); ASSERT(c->covers == h, "step: found"); if (h) g_any = 1; }
}
void harness(void) {
    int w; struct tg_point p; ASSUME(p.x == p.x && p.y == p.y); g_l = malloc(1); g_x = p.x; g_y = p.y; g_any = 0;
    bool r = w == 0 ? tg_line_covers_point(g_l, p) : w == 1 ? tg_line_intersects_point(g_l, p) : tg_point_intersects_line(p, g_l);
    ASSERT(r == g_any, "post: covered when a segment covers it");
    REACH(r && w == 1, "in"); REACH(!r && w == 2, "out");
}
