//@ property M02 M01 A01
//@ plain
//@ covers geom_new geom_new_empty tg_geom_new_point tg_geom_new_point_z tg_geom_new_point_m tg_geom_new_point_zm tg_geom_new_point_empty tg_geom_new_linestring_empty tg_geom_new_polygon_empty tg_geom_new_multipoint_empty tg_geom_new_multilinestring_empty tg_geom_new_multipolygon_empty tg_geom_new_geometrycollection_empty
//@ remove tg_malloc rc_init rc_retain
static struct tg_geom *g_pm; static struct boxed_point *g_bm; static int g_blocks, g_rc; static bool g_failed; static rc_t *g_rcp;
static void *tg_malloc(size_t n) { ASSERT(n == sizeof(struct tg_geom) || n == sizeof(struct boxed_point), "pre: size of the object"); bool f; if (f) { g_failed = 1; return 0; } g_blocks++; return n == sizeof(struct tg_geom) ? (void *)g_pm : (void *)g_bm; }
static void rc_init(rc_t *rc) { g_rcp = rc; g_rc = 0; }
static void rc_retain(rc_t *rc) { ASSERT(rc == g_rcp, "pre: the same count"); g_rc++; }
void harness(void) {
    g_pm = malloc(sizeof *g_pm); g_bm = malloc(sizeof *g_bm); ASSUME(g_pm && g_bm); g_blocks = g_rc = 0; g_failed = 0; g_rcp = 0;
    int k; struct tg_point p; double z, m; ASSUME(k >= 0 && k <= 10); struct tg_geom *g;
    if (k == 0) g = tg_geom_new_point(p); else if (k == 1) g = tg_geom_new_point_z(p, z); else if (k == 2) g = tg_geom_new_point_m(p, m); else if (k == 3) g = tg_geom_new_point_zm(p, z, m);
    else if (k == 4) g = tg_geom_new_point_empty(); else if (k == 5) g = tg_geom_new_linestring_empty(); else if (k == 6) g = tg_geom_new_polygon_empty(); else if (k == 7) g = tg_geom_new_multipoint_empty();
    else if (k == 8) g = tg_geom_new_multilinestring_empty(); else if (k == 9) g = tg_geom_new_multipolygon_empty(); else g = tg_geom_new_geometrycollection_empty();
    ASSERT((!g) == g_failed && g_blocks == (g_failed ? 0 : 1), "post: null exactly when memory ran out");
    if (g && k == 0) {
        struct boxed_point *b = (void *)g; ASSERT(b == g_bm && g_rc == 1 && g_rcp == &b->head.rc && !b->head.noheap && b->head.base == BASE_POINT && b->head.type == TG_POINT && b->head.flags == 0, "post: a point of one owner");
        ASSERT(BITS(b->point.x) == BITS(p.x) && BITS(b->point.y) == BITS(p.y), "post: the given point");
    } else if (g) {
        ASSERT(g == g_pm && g_rc == 1 && g_rcp == &g->head.rc && !g->head.noheap && g->head.base == BASE_GEOM && !g->error, "post: a geometry of one owner");
        ASSERT(g->head.type == (k <= 4 ? TG_POINT : k - 3), "post: its type"); ASSERT(g->head.flags == (k == 1 ? HAS_Z : k == 2 ? HAS_M : k == 3 ? HAS_Z | HAS_M : IS_EMPTY), "post: its dimensions or emptiness");
        if (k <= 3) { ASSERT(BITS(g->point.x) == BITS(p.x) && BITS(g->point.y) == BITS(p.y), "post: the given point"); ASSERT(BITS(g->z) == (k & 1 ? BITS(z) : 0) && BITS(g->m) == (k & 2 ? BITS(m) : 0), "post: the given z and m"); }
        else { ASSERT(k == 4 || (!g->coords && g->ncoords == 0), "post: no coordinates"); ASSERT(k == 4 || !g->multi, "post: no parts"); }
    }
    REACH(g && k == 3, "zm"); REACH(g && k == 10, "empty"); REACH(!g, "no memory"); REACH(g && k == 0, "point");
}
