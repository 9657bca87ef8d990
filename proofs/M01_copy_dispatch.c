//@ property M01 M02
//@ plain
//@ covers tg_geom_copy tg_line_copy boxed_point_copy
//@ remove geom_copy tg_ring_copy tg_poly_copy tg_malloc rc_init rc_retain
static int g_n, g_base, g_rc; static const void *g_o; static void *g_r; static struct boxed_point *g_bm; static bool g_failed; static rc_t *g_rcp;
static void *tg_malloc(size_t n) { ASSERT(n == sizeof(struct boxed_point) && g_base == BASE_POINT, "pre: size"); g_n++; bool f; if (f) { g_failed = 1; return 0; } return g_bm; }
static void rc_init(rc_t *rc) { g_rcp = rc; g_rc = 0; }
static void rc_retain(rc_t *rc) { ASSERT(rc == g_rcp, "pre: the same count"); g_rc++; }
static struct tg_geom *geom_copy(const struct tg_geom *g) { ASSERT(g == g_o && g_base == BASE_GEOM, "pre: its kind"); g_n++; return g_r; }
struct tg_ring *tg_ring_copy(const struct tg_ring *g) { ASSERT((const void *)g == g_o && (g_base == BASE_LINE || g_base == BASE_RING), "pre: its kind"); g_n++; return g_r; }
struct tg_poly *tg_poly_copy(const struct tg_poly *g) { ASSERT((const void *)g == g_o && g_base == BASE_POLY, "pre: its kind"); g_n++; return g_r; }
void harness(void) {
    bool null, nh; int base, flags; struct tg_point p; ASSUME(base >= 1 && base <= 5 && flags >= 0 && flags < 256); struct boxed_point *g = malloc(sizeof(struct tg_geom)); g_bm = malloc(sizeof *g_bm); void *r = malloc(8); ASSUME(g && g_bm && r); bool nr; g_r = nr ? 0 : r;
    g->head.base = base; g->head.type = TG_POINT; g->head.flags = flags; g->head.noheap = nh ? 1 : 0; g->point = p; g_base = base; g_o = g; g_n = 0; g_failed = 0; g_rc = 0; g_rcp = 0; g_bm->head.noheap = nh ? 1 : 0;
    void *c = tg_geom_copy(null ? 0 : (void *)g);
    ASSERT(g_n == (null ? 0 : 1), "post: copied once, as what it is");
    if (null) ASSERT(!c, "post: null copies to null");
    else if (base != BASE_POINT) ASSERT(c == g_r, "post: the copy of that kind");
    else if (g_failed) ASSERT(!c, "post: null when memory ran out");
    else ASSERT(c == g_bm && g_rc == 1 && g_rcp == &g_bm->head.rc && !g_bm->head.noheap && g_bm->head.base == BASE_POINT && g_bm->head.type == TG_POINT && g_bm->head.flags == flags && BITS(g_bm->point.x) == BITS(p.x) && BITS(g_bm->point.y) == BITS(p.y), "post: an equal point of one owner that is not pinned");
    REACH(c && base == BASE_POINT && nh, "point"); REACH(c && base == BASE_LINE, "line"); REACH(null, "null");
}
