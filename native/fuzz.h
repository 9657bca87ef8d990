// Inputs and judgement for the total-parsing properties
#ifndef FUZZ_H
#define FUZZ_H
#include <ctype.h>
// writers and accessors must work on whatever a parser accepts; true for a geometry
static size_t g_sink;
static void use_one(const struct tg_geom *g, int depth) {
    double a[4], b[4]; rect r = tg_geom_rect(g); g_sink += r.min.x == 0;
    int d = tg_geom_fullrect(g, a, b); CHECK(d == 0 || (d >= 2 && d <= 4), "fullrect %d", d);
    int n = tg_geom_num_points(g); for (int i = 0; i < n && i < 50; i++) g_sink += tg_geom_point_at(g, i).x == 1;
    n = tg_geom_num_lines(g); for (int i = 0; i < n && i < 50; i++) g_sink += tg_line_num_points(tg_geom_line_at(g, i));
    n = tg_geom_num_polys(g); for (int i = 0; i < n && i < 50; i++) { const struct tg_poly *p = tg_geom_poly_at(g, i); int h = tg_poly_num_holes(p); g_sink += tg_ring_num_points(tg_poly_exterior(p)); for (int j = 0; j < h && j < 50; j++) g_sink += tg_ring_area(tg_poly_hole_at(p, j)) > 0; }
    n = tg_geom_num_geometries(g); for (int i = 0; i < n && i < 50; i++) { const struct tg_geom *c = tg_geom_geometry_at(g, i); CHECK(c, "member %d of %d is null", i, n); if (depth < 4) use_one(c, depth + 1); }
    n = tg_geom_num_extra_coords(g); const double *x = tg_geom_extra_coords(g); for (int i = 0; i < n; i++) g_sink += x[i] == 1;
    const char *j = tg_geom_extra_json(g); if (j) g_sink += strlen(j);
    g_sink += tg_geom_memsize(g) + tg_geom_is_empty(g) + (tg_geom_z(g) == 1) + (tg_geom_m(g) == 2) + tg_geom_dims(g);
    const struct tg_line *l = tg_geom_line(g); g_sink += tg_line_length(l) > 1; const struct tg_poly *p = tg_geom_poly(g); g_sink += tg_poly_num_holes(p);
}
static bool judge(struct tg_geom *g, const char *how, size_t n) {
    const char *e = tg_geom_error(g);
    if (!g) { CHECK(n == 0, "%s: null although memory is available", how); return false; }
    if (e) { CHECK(*e, "%s: empty error message", how); return false; }
    int t = tg_geom_typeof(g); CHECK(t >= 1 && t <= 7, "%s: type %d without an error", how, t);
    use_one(g, 0);
    static char buf[1 << 12];
    char *q; size_t k;
    #define WR(f, term) k = f(g, 0, 0); q = k < sizeof buf ? buf : malloc(k + 1); CHECK(f(g, q, k + 1) == k, "%s: " #f " length", how); if (term) CHECK(strlen(q) == k, "%s: " #f " text length", how); if (q != buf) free(q);
    WR(tg_geom_wkt, 1) WR(tg_geom_geojson, 1) WR(tg_geom_wkb, 0) WR(tg_geom_geobin, 0) WR(tg_geom_hex, 1)
    #undef WR
    return true;
}
// GeoBIN of the model, written by the library from a constructed or a parsed geometry (with feature wrapping)
static void enc_geobin(B *q, const M *m, bool feat) {
    struct tg_geom *g = mk(m, TG_NONE);
    if (feat) {
        size_t n = tg_geom_geojson(g, 0, 0); char *j = malloc(n + 1); tg_geom_geojson(g, j, n + 1); tg_geom_free(g);
        B t = { 0 }; int nf = rr(1, 3); static const char *ex[] = { "", ",\"properties\":{}", ",\"id\":7", ",\"properties\":null,\"a\":\"b\"" };
        bool col = nf > 1 || rn(2);
        if (col) b_s(&t, rn(2) ? "{\"type\":\"FeatureCollection\",\"features\":[" : "{\"type\":\"FeatureCollection\",\"q\":{},\"features\":[");
        for (int i = 0; i < nf; i++) { if (i) b_s(&t, ","); b_s(&t, "{\"type\":\"Feature\",\"geometry\":"); b_s(&t, rn(5) ? j : "null"); b_s(&t, ex[rn(4)]); b_s(&t, "}"); }
        if (col) b_s(&t, "]}");
        g = tg_parse_geojsonn((char *)t.d, t.n);
        free(j); free(t.d);
    }
    q->n = tg_geom_geobin(g, 0, 0); free(q->d); q->d = malloc(q->n + 1); tg_geom_geobin(g, q->d, q->n); tg_geom_free(g);
}
static uint32_t odd32(void) {
    static const uint32_t v[] = { 0, 1, 2, 3, 4, 6, 7, 8, 0x7fffffff, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000000, 0x10000001, 0x0fffffff, 0x20000000, 0x40000000, 0x15555556, 0x0aaaaaab, 0x08000000, 0x08000001, 1001, 1007, 2001, 3003, 2007, 3007, 0x20000001, 0x20000bb9, 0xe0000001u, 65536, 65535, 0x01000000, 0x02000000, 0x03e9 };
    return rn(3) ? v[rn(sizeof v / sizeof *v)] : rn(2) ? (uint32_t)rn(40) : (uint32_t)rnd();
}
static B mutate_bin(const B *q) {
    B t = { 0 }; t.d = malloc(q->n + 600); t.n = q->n; memcpy(t.d, q->d, q->n);
    for (int k = rr(0, 3); k >= 0; k--) switch (rn(9)) {
        case 0: if (t.n) t.d[rn((int)t.n)] ^= 1 << rn(8); break;
        case 1: if (t.n) t.d[rn((int)t.n)] = rnd(); break;
        case 2: if (t.n) t.n = rn((int)t.n + 1); break;
        case 3: case 4: if (t.n >= 5) { uint32_t v = odd32(); size_t at = rn(3) ? (rn(2) ? 1 : t.n > 9 ? 5 : 1) : (size_t)rn((int)t.n - 4); if (rn(3) == 0) v = __builtin_bswap32(v); memcpy(t.d + at, &v, 4); } break;
        case 5: { size_t l = rn(60), at = t.n ? rn((int)t.n) : 0; memmove(t.d + at + l, t.d + at, t.n - at); for (size_t i = 0; i < l; i++) t.d[at + i] = rn(2) ? rn(8) : rnd(); t.n += l; break; }
        case 6: if (t.n > 8) { size_t l = rn(20) + 1, at = rn((int)t.n); if (at + l > t.n) l = t.n - at; memmove(t.d + at, t.d + at + l, t.n - at - l); t.n -= l; } break;
        case 7: if (t.n) t.d[0] = rn(6); break;
        case 8: if (t.n > 40) { size_t l = rn((int)t.n > 100 ? 100 : (int)t.n), a = rn((int)(t.n - l)), at = rn((int)(t.n - l)); memmove(t.d + at, t.d + a, l); } break;
    }
    uint8_t *d = malloc(t.n + 1); memcpy(d, t.d, t.n); free(t.d); t.d = d;
    return t;
}
#endif
