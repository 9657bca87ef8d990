//@ property G01 G04
//@ covers tg_point_touches_line tg_line_touches_point tg_line_contains_point
//@ plain
//@ remove tg_line_num_segments tg_line_segment_at tg_line_covers_point
static struct tg_line *g_l; static int g_n; static struct tg_segment g_s0, g_s1; static bool g_cov; static double g_x, g_y;
int tg_line_num_segments(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_n; }
struct tg_segment tg_line_segment_at(const struct tg_line *l, int i) { ASSERT(l == g_l && i >= 0 && (i < g_n || !g_n), "pre: a segment of the line"); struct tg_segment z = {0}; if (i == g_n - 1 && i == 0) { struct tg_segment o = { g_s0.a, g_s1.b }; return o; } return i == 0 ? g_s0 : i == g_n - 1 ? g_s1 : z; }
bool tg_line_covers_point(const struct tg_line *l, struct tg_point p) { ASSERT(l == g_l && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y), "pre: the point"); return g_cov; }
void harness(void) {
    int n, w; struct tg_point p; struct tg_segment a, b; ASSUME(n >= 0 && w >= 0 && w <= 2 && SFIN(a) && SFIN(b) && PFIN(p)); g_n = n; g_s0 = a; g_s1 = b; g_l = malloc(1); g_x = p.x; g_y = p.y; g_cov = nd_bool(); if (n == 0) g_cov = 0; bool end = PEQ(p, a.a) || PEQ(p, b.b);
    bool r = w == 0 ? tg_point_touches_line(p, g_l) : w == 1 ? tg_line_touches_point(g_l, p) : tg_line_contains_point(g_l, p);
    if (w < 2) ASSERT(r == (n > 0 && end), "post: a point touches a line at its two ends"); else ASSERT(r == (g_cov && !end), "post: a line contains the points it covers that are not its ends");
    REACH(r && w == 0 && n == 1, "touch"); REACH(r && w == 2, "in");
}
