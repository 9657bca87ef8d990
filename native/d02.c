#include <ctype.h>
#include "common.h"
#include "shape.h"
#include "gen.h"
// nesting limits: WKT parentheses 1024 deep, JSON values 1024 deep (the document counts one), WKB/GeoBIN geometries 1024 below the outermost
static bool hdr(B *b, int t) { return o_hdr(b, t, 0, 0, 2, false); }
static int leaf_wkb(B *b) {
    switch (rn(5)) {
    case 0: { bool e = hdr(b, 1); o_dbl(b, 1, e); o_dbl(b, 2, e); return 0; }
    case 1: { bool e = hdr(b, 2); o_u32(b, 2, e); for (int i = 0; i < 4; i++) o_dbl(b, i, e); return 0; }
    case 2: { bool e = hdr(b, 3); o_u32(b, 1, e); o_u32(b, 4, e); static double q[] = { 0, 0, 1, 0, 1, 1, 0, 0 }; for (int i = 0; i < 8; i++) o_dbl(b, q[i], e); return 0; }
    case 3: { bool e = hdr(b, 4); o_u32(b, 1, e); e = hdr(b, 1); o_dbl(b, 1, e); o_dbl(b, 2, e); return 1; }
    default: { bool e = hdr(b, 6); o_u32(b, 1, e); e = hdr(b, 3); o_u32(b, 1, e); o_u32(b, 4, e); static double q[] = { 0, 0, 1, 0, 1, 1, 0, 0 }; for (int i = 0; i < 8; i++) o_dbl(b, q[i], e); return 1; }
    }
}
static bool g_wide;      // members beside the nesting
// n nested collections around a leaf; returns the depth of the deepest geometry below the outermost
static int nest_wkb(B *b, int n) {
    int mx = 0, at = 0; int after[2200];
    for (int i = 0; i < n; i++) { bool e = hdr(b, 7); int pre = g_wide && rn(4) == 0 ? rr(1, 2) : 0; after[i] = g_wide && rn(4) == 0; o_u32(b, 1 + pre + after[i], e); at++; while (pre--) { int d = at + leaf_wkb(b); if (d > mx) mx = d; } }
    int d = at + leaf_wkb(b); if (d > mx) mx = d;
    for (int i = n - 1; i >= 0; i--) { if (after[i]) { d = at + leaf_wkb(b); if (d > mx) mx = d; } at--; }
    return mx;
}
static const char *wl[] = { "POINT(1 2)", "POINT EMPTY", "LINESTRING(1 2,3 4)", "POLYGON((0 0,1 0,1 1,0 0))", "MULTIPOINT((1 2),(3 4))", "MULTIPOLYGON(((0 0,1 0,1 1,0 0)))", "GEOMETRYCOLLECTION EMPTY" };
static void nest_wkt(B *b, int n) {
    static bool after[2200];
    for (int i = 0; i < n; i++) { b_s(b, rn(3) ? "GEOMETRYCOLLECTION(" : "geometrycollection ("); int pre = g_wide && rn(4) == 0 ? rr(1, 3) : 0; while (pre--) { b_s(b, wl[rn(7)]); b_s(b, ","); } after[i] = g_wide && rn(4) == 0; }
    b_s(b, wl[rn(7)]);
    for (int i = n - 1; i >= 0; i--) { if (after[i]) { b_s(b, ","); b_s(b, wl[rn(7)]); } b_s(b, ")"); }
}
static const char *jl[] = { "{\"type\":\"Point\",\"coordinates\":[1,2]}", "{\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]}", "{\"type\":\"Polygon\",\"coordinates\":[[[0,0],[1,0],[1,1],[0,0]]]}", "{\"type\":\"MultiPolygon\",\"coordinates\":[[[[0,0],[1,0],[1,1],[0,0]]]]}", "{\"type\":\"Point\",\"coordinates\":[]}", "{\"type\":\"Point\",\"coordinates\":[1,2],\"x\":{\"a\":[[],{}]}}" };
static void nest_json(B *b, int n) {
    static bool after[2200];
    for (int i = 0; i < n; i++) { b_s(b, "{\"type\":\"GeometryCollection\",\"geometries\":["); int pre = g_wide && rn(4) == 0 ? rr(1, 2) : 0; while (pre--) { b_s(b, jl[rn(6)]); b_s(b, ","); } after[i] = g_wide && rn(4) == 0; }
    b_s(b, jl[rn(6)]);
    for (int i = n - 1; i >= 0; i--) { if (after[i]) { b_s(b, ","); b_s(b, jl[rn(6)]); } b_s(b, "]}"); }
}
static int jdepth(const B *b) {     // deepest value, the document counts one
    int d = 0, mx = 0; bool empty = true;
    for (size_t i = 0; i < b->n; i++) { int c = b->d[i]; if (c == '"') { while (b->d[++i] != '"') ; empty = false; if (d + 1 > mx) mx = d + 1; continue; }
        if (c == '[' || c == '{') { if (d + 1 > mx) mx = d + 1; d++; empty = true; } else if (c == ']' || c == '}') { d--; empty = false; } else if (isdigit(c)) { if (d + 1 > mx) mx = d + 1; } }
    (void)empty; return mx;
}
static int pdepth(const B *b) { int d = 0, mx = 0; for (size_t i = 0; i < b->n; i++) { if (b->d[i] == '(') { if (++d > mx) mx = d; } else if (b->d[i] == ')') d--; } return mx; }
static const char *g_fmt;
static void want(struct tg_geom *g, int depth, int limit, int n) {
    const char *e = tg_geom_error(g); CHECK(g, "null");
    if (depth <= limit) CHECK(!e, "%s nested %d deep (%d collections) is rejected: %s", g_fmt, depth, n, e); else CHECK(e, "%s nested %d deep (%d collections) is accepted", g_fmt, depth, n);
    if (!e) {   // what was accepted can be used
        size_t k = tg_geom_wkt(g, 0, 0) + tg_geom_geojson(g, 0, 0) + tg_geom_wkb(g, 0, 0) + tg_geom_geobin(g, 0, 0) + tg_geom_memsize(g); CHECK(k > 10, "writers");
        double a[4], b[4]; tg_geom_fullrect(g, a, b); tg_geom_rect(g);
        struct tg_geom *c = tg_geom_copy(g); CHECK(c, "copy"); tg_geom_free(c);
    }
    tg_geom_free(g); eval(depth > 900);
}
static void run(int n) {
    arm();
    { B b = { 0 }; g_fmt = "WKT"; nest_wkt(&b, n); casef("WKT, %d nested collections%s: %.1500s...", n, g_wide ? " with siblings" : "", (char *)b.d); want(rn(2) ? tg_parse_wktn((char *)b.d, b.n) : tg_parse(b.d, b.n), pdepth(&b), 1024, n); free(b.d); }
    { B b = { 0 }; g_fmt = "GeoJSON"; int w = rn(3); if (w == 1) b_s(&b, "{\"type\":\"Feature\",\"geometry\":"); if (w == 2) b_s(&b, "{\"type\":\"FeatureCollection\",\"features\":[{\"type\":\"Feature\",\"geometry\":");
      nest_json(&b, n / 2); if (w == 1) b_s(&b, ",\"properties\":{}}"); if (w == 2) b_s(&b, ",\"properties\":{}}]}"); casef("GeoJSON, %d nested collections%s: %.1500s...", n / 2, g_wide ? " with siblings" : "", (char *)b.d);
      want(rn(2) ? tg_parse_geojsonn((char *)b.d, b.n) : tg_parse(b.d, b.n), jdepth(&b), 1024, n / 2); free(b.d); }
    { B b = { 0 }; g_fmt = "WKB"; int d = nest_wkb(&b, n); casef("WKB, %d nested collections%s", n, g_wide ? " with siblings" : "");
      want(rn(2) ? tg_parse_wkb(b.d, b.n) : tg_parse(b.d, b.n), d, 1024, n);
      char *h = malloc(2 * b.n + 1); for (size_t i = 0; i < b.n; i++) sprintf(h + 2 * i, "%02x", b.d[i]); g_fmt = "hex"; want(tg_parse_hexn(h, 2 * b.n), d, 1024, n); free(h); free(b.d); }
    { B b = { 0 }; g_fmt = "GeoBIN"; int fcs = rn(3) == 0 ? rr(0, n) : rn(3); bool ft = rn(2);
      static const uint8_t mbr[34] = { 0, 2 };
      for (int i = 0; i < fcs; i++) { b_c(&b, 4); b_add(&b, mbr + 1, 33); b_c(&b, 0); o_u32(&b, 1, false); }
      b_c(&b, ft ? 3 : 2); b_add(&b, mbr + 1, 33); b_c(&b, 0);
      B w = { 0 }; int d = fcs + nest_wkb(&w, n - fcs); b_add(&b, w.d, w.n); free(w.d);
      // WKB parts of a GeoBIN are little-endian by the format; the reader takes both
      casef("GeoBIN, %d feature collections around %d collections", fcs, n - fcs);
      want(tg_parse_geobin(b.d, b.n), d, 1024, n); free(b.d); }
}
static void extra_json(int n) {      // nesting in other members
    arm();
    for (int k = 0; k < 2; k++) { B b = { 0 }; g_fmt = "GeoJSON member"; b_s(&b, rn(2) ? "{\"type\":\"Point\",\"coordinates\":[1,2],\"foo\":" : "{\"type\":\"Feature\",\"geometry\":null,\"properties\":{},\"foo\":"); for (int i = 0; i < n; i++) b_s(&b, k ? "{\"a\":" : "["); if (rn(2) || k) b_s(&b, "1"); for (int i = 0; i < n; i++) b_s(&b, k ? "}" : "]"); b_s(&b, "}");
      casef("GeoJSON with a member of %d nested %s", n, k ? "objects" : "arrays"); want(tg_parse_geojsonn((char *)b.d, b.n), jdepth(&b), 1024, n); free(b.d); }
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    for (int n = 1014; n <= 1032; n++) for (g_wide = 0; g_wide < 2; g_wide++) { run(n); extra_json(n); if (!time_frac(0.6)) break; }
    static const int far[] = { 1, 2, 3, 10, 500, 900, 1100, 1500, 2047, 2100 };
    for (int i = 0; i < 10; i++) { g_wide = i & 1; run(far[i]); extra_json(far[i]); }
    while (time_left()) { g_wide = rn(2); int n = rn(3) ? rr(1012, 1036) : rr(1, 1300); run(n); if (rn(3) == 0) extra_json(n); }
    // far beyond the limit nothing may run out of stack
    for (int k = 0; k < 6; k++) { arm(); B b = { 0 }; casef("form %d nested 300000 deep", k); for (int i = 0; i < 300000; i++) switch (k) { case 0: b_s(&b, "GEOMETRYCOLLECTION("); break; case 1: b_s(&b, "["); break; case 2: b_s(&b, "{\"a\":"); break; case 3: b_add(&b, "\1\7\0\0\0\1\0\0\0", 9); break; case 4: b_s(&b, "("); break; default: { static uint8_t z[40]; z[0] = 4; z[1] = 0; z[2] = 0; z[3] = 1; b_add(&b, z, 7); } }
        if (k == 0 || k == 4) { b_s(&b, "POINT(1 2)"); for (int i = 0; i < 300000; i++) b_s(&b, ")"); }
        struct tg_geom *g = k == 0 ? tg_parse_wktn((char *)b.d, 3000 * 19) : tg_parse_geojsonn((char *)b.d, b.n); CHECK(tg_geom_error(g), "accepted"); tg_geom_free(g);
        if (k == 3) { g = tg_parse_wkb(b.d, b.n); CHECK(tg_geom_error(g), "accepted"); tg_geom_free(g); }
        if (k == 5) { g = tg_parse_geobin(b.d, b.n); CHECK(tg_geom_error(g), "accepted"); tg_geom_free(g); }
        free(b.d); }
    // every kind of container counts, whatever it may legally contain
    for (int k = 0; k < 10; k++) { arm(); B b = { 0 }; casef("WKB of type %d nested 200000 deep", k < 4 ? k + 4 : 0); for (int i = 0; i < 200000; i++) { bool e = o_hdr(&b, k < 4 ? k + 4 : k < 7 ? (i & 1 ? k : 7) : rr(4, 7), k == 9, false, 2, k == 8); o_u32(&b, k & 1 ? 1 : rr(1, 3), e); }
        leaf_wkb(&b); struct tg_geom *g = tg_parse_wkb(b.d, b.n); CHECK(tg_geom_error(g), "accepted"); tg_geom_free(g);
        B w = { 0 }; static const uint8_t z[33] = { 2 }; b_c(&w, 2); b_add(&w, z, 33); b_c(&w, 0); b_add(&w, b.d, b.n); g = tg_parse_geobin(w.d, w.n); CHECK(tg_geom_error(g), "accepted"); tg_geom_free(g); free(w.d); free(b.d); eval(true); }
    CHECK(g_live == 0, "leak");
    finish(0);
}
