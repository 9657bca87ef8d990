//@ property M02 A01
//@ plain
//@ covers tg_geom_new_multipoint_z tg_geom_new_multipoint_m tg_geom_new_multipoint_zm tg_geom_new_multilinestring_z tg_geom_new_multilinestring_m tg_geom_new_multilinestring_zm tg_geom_new_multipolygon_z tg_geom_new_multipolygon_m tg_geom_new_multipolygon_zm
//@ remove tg_geom_new_multipoint tg_geom_new_multilinestring tg_geom_new_multipolygon fill_extra_coords
static struct tg_geom *g_g; static void *g_parts; static int g_type, g_flags, g_n, g_np, g_live, g_fill; static bool g_failed; static const double *g_src;
static struct tg_geom *mk(int t, const void *p, int n) { ASSERT(t == g_type && p == g_parts && n == g_np && !g_live, "pre: the given parts"); bool f; if (f) { g_failed = 1; return 0; } g_live++; return g_g; }
struct tg_geom *tg_geom_new_multipoint(const struct tg_point *p, int n) { return mk(TG_MULTIPOINT, p, n); }
struct tg_geom *tg_geom_new_multilinestring(const struct tg_line *const l[], int n) { return mk(TG_MULTILINESTRING, l, n); }
struct tg_geom *tg_geom_new_multipolygon(const struct tg_poly *const l[], int n) { return mk(TG_MULTIPOLYGON, l, n); }
static struct tg_geom *fill_extra_coords(struct tg_geom *g, const double *c, int n, enum flags flags) { ASSERT(g == g_g && c == g_src && n == g_n && flags == g_flags, "pre: the given coordinates and dimensions"); g_fill++; bool f; if (f) { g_failed = 1; g_live--; return 0; } return g; }
void harness(void) {
    int t, d, n, np; ASSUME(t >= 0 && t <= 2 && d >= 1 && d <= 3); g_type = t == 0 ? TG_MULTIPOINT : t == 1 ? TG_MULTILINESTRING : TG_MULTIPOLYGON; g_flags = d == 1 ? HAS_Z : d == 2 ? HAS_M : HAS_Z | HAS_M; g_n = n; g_np = np; g_live = g_fill = 0; g_failed = 0;
    g_g = malloc(sizeof *g_g); void *p = malloc(8); double *s = malloc(8); ASSUME(g_g && p && s); g_parts = p; g_src = s; struct tg_geom *g;
    if (t == 0) g = d == 1 ? tg_geom_new_multipoint_z(p, np, s, n) : d == 2 ? tg_geom_new_multipoint_m(p, np, s, n) : tg_geom_new_multipoint_zm(p, np, s, n);
    else if (t == 1) g = d == 1 ? tg_geom_new_multilinestring_z(p, np, s, n) : d == 2 ? tg_geom_new_multilinestring_m(p, np, s, n) : tg_geom_new_multilinestring_zm(p, np, s, n);
    else g = d == 1 ? tg_geom_new_multipolygon_z(p, np, s, n) : d == 2 ? tg_geom_new_multipolygon_m(p, np, s, n) : tg_geom_new_multipolygon_zm(p, np, s, n);
    ASSERT(g == (g_failed ? 0 : g_g) && g_live == (g_failed ? 0 : 1) && IMPL(g, g_fill == 1), "post: the multi-geometry with the coordinates, or null and nothing kept");
    REACH(g && t == 2 && d == 3, "polygons zm"); REACH(!g && t == 1, "failed");
}
