//@ property A01
//@ unwind 24
//@ plain
//@ covers tg_geom_type_string
static bool eq(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return a[i] == b[i]; }
void harness(void) {
    ASSERT(eq(tg_geom_type_string(TG_POINT), "Point") && eq(tg_geom_type_string(TG_LINESTRING), "LineString") && eq(tg_geom_type_string(TG_POLYGON), "Polygon"), "post: the name of the simple types");
    ASSERT(eq(tg_geom_type_string(TG_MULTIPOINT), "MultiPoint") && eq(tg_geom_type_string(TG_MULTILINESTRING), "MultiLineString") && eq(tg_geom_type_string(TG_MULTIPOLYGON), "MultiPolygon") && eq(tg_geom_type_string(TG_GEOMETRYCOLLECTION), "GeometryCollection"), "post: the name of the collection types");
    int t; ASSUME(t < 1 || t > 7); ASSERT(eq(tg_geom_type_string(t), "Unknown"), "post: anything else is unknown");
    REACH(t == -5, "unknown");
}
