//@ property M01
//@ plain
//@ covers tg_geom_free
//@ remove geom_free boxed_point_free tg_line_free tg_ring_free tg_poly_free
static int g_n, g_base; static void *g_o;
static void geom_free(struct tg_geom *g) { ASSERT(g == g_o && g_base == BASE_GEOM, "pre: its kind"); g_n++; }
static void boxed_point_free(struct boxed_point *g) { ASSERT(g == g_o && g_base == BASE_POINT, "pre: its kind"); g_n++; }
void tg_line_free(struct tg_line *g) { ASSERT(g == g_o && g_base == BASE_LINE, "pre: its kind"); g_n++; }
void tg_ring_free(struct tg_ring *g) { ASSERT(g == g_o && g_base == BASE_RING, "pre: its kind"); g_n++; }
void tg_poly_free(struct tg_poly *g) { ASSERT(g == g_o && g_base == BASE_POLY, "pre: its kind"); g_n++; }
void harness(void) {
    bool null; int base; ASSUME(base >= 1 && base <= 5); struct tg_geom *g = malloc(sizeof *g); ASSUME(g != 0); g->head.base = base; g_base = base; g_o = g; g_n = 0;
    tg_geom_free(null ? 0 : g);
    ASSERT(g_n == (null ? 0 : 1), "post: released exactly once, as what it is");
    REACH(base == BASE_POLY && g_n, "poly"); REACH(null, "null");
}
