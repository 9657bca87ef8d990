//@ property G02
//@ plain
//@ covers tg_geom_covers_point tg_geom_covers_xy tg_geom_intersects_point tg_geom_intersects_xy
//@ remove tg_geom_intersects tg_geom_covers
static const struct tg_geom *g_a; static double in_x, in_y; static _Bool g_r; static int g_c, g_which;
static bool seen(const struct tg_geom *a, const struct tg_geom *b, int w) {
    const struct boxed_point *p = (const void *)b;
    ASSERT(a == g_a, "pre: the queried geometry is passed on"); g_c++; g_which = w;
    ASSERT(p->head.base == BASE_POINT && p->head.type == TG_POINT && p->head.flags == 0, "pre: the point is a bare point without flags");
    ASSERT(BITS(p->point.x) == BITS(in_x) && BITS(p->point.y) == BITS(in_y), "pre: the point has the given coordinates");
    return g_r;
}
bool tg_geom_intersects(const struct tg_geom *a, const struct tg_geom *b) { return seen(a, b, 1); }
bool tg_geom_covers(const struct tg_geom *a, const struct tg_geom *b) { return seen(a, b, 2); }
void harness(void) {
    const struct tg_geom *a; bool r; int k; double x, y; g_a = a; g_r = r ? 1 : 0; in_x = x; in_y = y; g_c = 0; g_which = 0;
    ASSUME(k >= 0 && k < 4);
    struct tg_point p = { x, y };
    bool q = k == 0 ? tg_geom_intersects_xy(a, x, y) : k == 1 ? tg_geom_intersects_point(a, p) : k == 2 ? tg_geom_covers_xy(a, x, y) : tg_geom_covers_point(a, p);
    ASSERT(g_c == 1 && g_which == (k < 2 ? 1 : 2) && q == g_r, "post: the answer is that of the two-geometry predicate on the point");
    REACH(k == 0 && q, "intersects"); REACH(k == 3 && !q, "not covered");
}
