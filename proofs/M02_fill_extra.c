//@ property M02 A01 M01
//@ plain
//@ covers fill_extra_coords
//@ remove tg_malloc tg_geom_free
//@ stub fill_extra_coords memcpy
static struct tg_geom *g_g; static double *g_new; static const double *g_src; static int g_n, g_cp; static bool g_failed, g_freed;
static void *tg_malloc(size_t n) { ASSERT(n == sizeof(double) * g_n, "pre: room for the coordinates"); bool f; if (f) { g_failed = 1; return 0; } return g_new; }
void *memcpy__c(void *d, const void *s, size_t n) { ASSERT(d == g_new && s == g_src && n == sizeof(double) * g_n, "pre: copies the coordinates"); g_cp++; return d; }
void tg_geom_free(struct tg_geom *g) { ASSERT(g == g_g && !g_freed && !g->coords, "pre: the geometry, without coordinates"); g_freed = 1; }
void harness(void) {
    int n, flags; ASSUME(n >= -9 && n <= 1 << 27 && flags >= 0 && flags < 256); g_n = n; g_g = malloc(sizeof *g_g); g_new = malloc(8); double *s = malloc(8); ASSUME(g_g && g_new && s); g_src = s; g_failed = g_freed = 0; g_cp = 0; g_g->coords = 0;
    struct tg_geom *r = fill_extra_coords(g_g, s, n, flags);
    if (n <= 0) ASSERT(r == g_g && !g_g->coords && g_g->ncoords == 0 && !g_cp && !g_failed, "post: none");
    else if (g_failed) ASSERT(!r && g_freed, "post: null when memory ran out, and the geometry is released");
    else ASSERT(r == g_g && g_g->ncoords == n && g_g->coords == g_new && g_cp == 1, "post: a copy of the coordinates");
    ASSERT(IMPL(r, !g_freed && g_g->head.flags == flags), "post: the dimensions");
    REACH(r && n == 5, "copied"); REACH(!r, "no memory"); REACH(n < 0, "negative");
}
