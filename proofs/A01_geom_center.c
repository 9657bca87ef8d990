//@ property A01 B03
//@ plain
//@ remove tg_geom_rect
//@ covers tg_geom_point
static struct tg_rect g_out; static const void *g_obj;
struct tg_rect tg_geom_rect(const struct tg_geom *g) { ASSERT(g == g_obj, "pre: the geometry"); return g_out; }
void harness(void) {
    int base, type; int x0, y0, x1, y1; ASSUME(x0 > -1000 && x0 < 1000 && x1 > -1000 && x1 < 1000 && y0 > -1000 && y0 < 1000 && y1 > -1000 && y1 < 1000);
    g_out = (struct tg_rect){ { x0 * 2, y0 * 2 }, { x1 * 2, y1 * 2 } };
    ASSUME(base >= 1 && base <= 5 && base != BASE_POINT && type >= 1 && type <= 7 && type != TG_POINT);
    struct tg_geom *g = malloc(sizeof *g); ASSUME(g != 0); g->head.base = base; g->head.type = type; g_obj = g;
    struct tg_point c = tg_geom_point(g);
    ASSERT(c.x == x0 + x1 && c.y == y0 + y1, "post: the centre of the rectangle (small integers)");
    REACH(c.x == 5 && c.y == -7, "centre");
}
