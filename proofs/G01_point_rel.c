//@ property G01 G04
//@ covers tg_point_covers_line tg_point_contains_line tg_point_covers_poly tg_point_contains_poly tg_point_intersects_poly tg_rect_covers_line tg_rect_covers_poly
//@ plain
//@ remove tg_line_empty tg_poly_empty tg_line_rect tg_poly_rect tg_poly_covers_point
static struct tg_line *g_l; static struct tg_poly *g_p; static bool g_le, g_pe, g_r; static struct tg_rect g_q; static double g_x, g_y;
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_le; }
static bool tg_poly_empty(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_pe; }
struct tg_rect tg_line_rect(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_q; }
struct tg_rect tg_poly_rect(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_q; }
bool tg_poly_covers_point(const struct tg_poly *p, struct tg_point q) { ASSERT(p == g_p && BITS(q.x) == BITS(g_x) && BITS(q.y) == BITS(g_y), "pre: the point"); return g_r; }
void harness(void) {
    int w; ASSUME(w >= 0 && w <= 6); g_l = malloc(1); g_p = malloc(1); struct tg_point p; struct tg_rect q, q2; g_q = q2; g_le = nd_bool(); g_pe = nd_bool(); g_r = nd_bool(); g_x = p.x; g_y = p.y; ASSUME(RFIN(g_q) && PFIN(p) && RFIN(q) && g_q.min.x <= g_q.max.x && g_q.min.y <= g_q.max.y && q.min.x <= q.max.x && q.min.y <= q.max.y);
    bool all = PEQ(g_q.min, p) && PEQ(g_q.max, p), in = q.min.x <= g_q.min.x && g_q.max.x <= q.max.x && q.min.y <= g_q.min.y && g_q.max.y <= q.max.y;
    bool r = w == 0 ? tg_point_covers_line(p, g_l) : w == 1 ? tg_point_contains_line(p, g_l) : w == 2 ? tg_point_covers_poly(p, g_p) : w == 3 ? tg_point_contains_poly(p, g_p) : w == 4 ? tg_point_intersects_poly(p, g_p) : w == 5 ? tg_rect_covers_line(q, g_l) : tg_rect_covers_poly(q, g_p);
    if (w <= 1) ASSERT(r == (!g_le && all), "post: a point covers a line that is only that point");
    if (w == 2) ASSERT(r == (!g_pe && all), "post: a point covers a polygon that is only that point");
    if (w == 3) ASSERT(!r, "post: no point contains a polygon");
    if (w == 4) ASSERT(r == g_r, "post: a point meets a polygon that covers it");
    if (w == 5) ASSERT(r == (!g_le && in), "post: a rectangle covers the lines within it");
    if (w == 6) ASSERT(r == (!g_pe && in), "post: a rectangle covers the polygons within it");
    REACH(r && w == 2, "point"); REACH(r && w == 6, "rect");
}
