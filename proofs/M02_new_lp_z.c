//@ property M02 M01 A01
//@ plain
//@ covers tg_geom_new_linestring tg_geom_new_linestring_z tg_geom_new_linestring_m tg_geom_new_linestring_zm tg_geom_new_polygon tg_geom_new_polygon_z tg_geom_new_polygon_m tg_geom_new_polygon_zm
//@ remove geom_new fill_extra_coords tg_line_clone tg_poly_clone tg_geom_free
static struct tg_geom *g_g; static void *g_part, *g_clone; static int g_type, g_own, g_flags, g_n, g_live; static bool g_failed; static const double *g_src;
static struct tg_geom *geom_new(enum tg_geom_type t) { ASSERT(t == g_type && !g_live, "pre: its type"); bool f; if (f) { g_failed = 1; return 0; } g_live++; *g_g = (struct tg_geom){ 0 }; g_g->head.type = t; g_g->head.base = BASE_GEOM; return g_g; }
struct tg_line *tg_line_clone(const struct tg_line *l) { ASSERT(l == g_part && g_type == TG_LINESTRING, "pre: the line"); if (!l) return 0; bool f; if (f) { g_failed = 1; return 0; } g_own++; return g_clone; }
struct tg_poly *tg_poly_clone(const struct tg_poly *l) { ASSERT(l == g_part && g_type == TG_POLYGON, "pre: the polygon"); if (!l) return 0; bool f; if (f) { g_failed = 1; return 0; } g_own++; return g_clone; }
void tg_geom_free(struct tg_geom *g) { ASSERT(g == g_g && g_live == 1, "pre: the geometry"); g_live--; if (g->line) { ASSERT(g->line == g_clone, "pre: its part"); g_own--; } }
static struct tg_geom *fill_extra_coords(struct tg_geom *g, const double *c, int n, enum flags flags) { ASSERT(g == g_g && c == g_src && n == g_n && flags == g_flags, "pre: the given coordinates and dimensions"); bool f; if (f) { g_failed = 1; tg_geom_free(g); return 0; } return g; }
void harness(void) {
    int k, n; bool null; ASSUME(k >= 0 && k <= 7); g_type = k < 4 ? TG_LINESTRING : TG_POLYGON; g_flags = k & 3; g_n = n; g_own = g_live = 0; g_failed = 0; g_g = malloc(sizeof *g_g); void *p = malloc(8), *c = malloc(8); double *s = malloc(8); ASSUME(g_g && p && c && s); g_part = null ? 0 : p; g_clone = c; g_src = s;
    ASSUME(HAS_Z == 1 && HAS_M == 2); struct tg_geom *g;
    if (k == 0) g = tg_geom_new_linestring(g_part); else if (k == 1) g = tg_geom_new_linestring_z(g_part, s, n); else if (k == 2) g = tg_geom_new_linestring_m(g_part, s, n); else if (k == 3) g = tg_geom_new_linestring_zm(g_part, s, n);
    else if (k == 4) g = tg_geom_new_polygon(g_part); else if (k == 5) g = tg_geom_new_polygon_z(g_part, s, n); else if (k == 6) g = tg_geom_new_polygon_m(g_part, s, n); else g = tg_geom_new_polygon_zm(g_part, s, n);
    if (g_failed) ASSERT(!g && !g_own && !g_live, "post: null when memory ran out, and everything taken is released");
    else if (!(k & 3)) ASSERT((void *)g == (null ? 0 : c) && !g_live, "post: the shared line or polygon");
    else ASSERT(g == g_g && (void *)g->line == (null ? 0 : c) && g_own == (null ? 0 : 1), "post: a geometry owning the part once");
    REACH(g && k == 3, "line zm"); REACH(g && k == 4, "polygon"); REACH(g_failed && k == 6 && !g, "failed");
}
