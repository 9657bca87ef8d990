#include <ctype.h>
#include "common.h"
#include "shape.h"
#include "gen.h"
// GeoBIN round trip, header readers and layout (docs/GEOBIN.md)
static B gb_of(const struct tg_geom *g) { B b = { 0 }; b.n = tg_geom_geobin(g, 0, 0); b.d = malloc(b.n + 1); CHECK(tg_geom_geobin(g, b.d, b.n) == b.n, "length"); return b; }
static bool sx(const char *a, const char *b) { return !a == !b && (!a || !strcmp(a, b)); }
static uint32_t u32(const uint8_t *p) { return p[0] | p[1] << 8 | p[2] << 16 | (uint32_t)p[3] << 24; }
static double dbl(const uint8_t *p) { double d; memcpy(&d, p, 8); return d; }
// decodes one object by the published layout; returns its length
static size_t layout(const uint8_t *p, size_t n, const struct tg_geom *g, bool empties) {
    bool fc = tg_geom_is_featurecollection(g), ft = tg_geom_is_feature(g); const char *x = tg_geom_extra_json(g);
    bool point = tg_geom_typeof(g) == TG_POINT && !fc && !ft && !x;
    size_t wn = tg_geom_wkb(g, 0, 0); uint8_t *w = malloc(wn); tg_geom_wkb(g, w, wn);
    CHECK(n >= 1, "empty GeoBIN");
    if (point) { CHECK(n >= wn && !memcmp(p, w, wn), "a point must be its WKB"); free(w); return wn; }
    CHECK(p[0] == (fc ? 4 : ft ? 3 : 2), "head byte %d", p[0]);
    CHECK(n >= 2, "no dimensions"); int d = p[1]; double mn[4], mx[4]; int gd = tg_geom_fullrect(g, mn, mx);
    CHECK(d == gd || (gd == 0 && (d == 0 || d == 2)), "dimensions %d, geometry has %d", d, gd);
    size_t i = 2; CHECK(n >= i + 16 * d, "short bounds");
    if (d == gd) for (int k = 0; k < d; k++) CHECK(beq(dbl(p + i + 8 * k), mn[k]) && beq(dbl(p + i + 8 * (d + k)), mx[k]), "bounds of dimension %d: %.17g..%.17g, want %.17g..%.17g", k, dbl(p + i + 8 * k), dbl(p + i + 8 * (d + k)), mn[k], mx[k]);
    i += 16 * d;
    const uint8_t *z = memchr(p + i, 0, n - i); CHECK(z, "extra JSON is not terminated");
    CHECK(!strcmp((char *)p + i, x ? x : ""), "extra JSON %s, want %s", p + i, x ? x : "");
    i = z + 1 - p;
    if (fc) {
        CHECK(n >= i + 4, "no feature count"); uint32_t k = u32(p + i); i += 4;
        CHECK((int)k == tg_geom_num_geometries(g), "feature count %u", k);
        for (uint32_t j = 0; j < k; j++) i += layout(p + i, n - i, tg_geom_geometry_at(g, j), empties);
    } else { CHECK(n >= i + wn && !memcmp(p + i, w, wn), "geometry is not the WKB"); i += wn; }
    free(w);
    return i;
}
static void headers(const B *b, const struct tg_geom *g) {
    double mn[4], mx[4], gn[4], gx[4]; int gd = tg_geom_fullrect(g, gn, gx);
    uint8_t *e = exact(b->d, b->n);
    int d = tg_geobin_fullrect(e, b->n, mn, mx);
    CHECK(d == gd, "geobin_fullrect: %d dimensions, geometry %d", d, gd);
    for (int k = 0; k < d; k++) CHECK(beq(mn[k], gn[k]) && beq(mx[k], gx[k]), "geobin_fullrect dimension %d: %.17g..%.17g, geometry %.17g..%.17g", k, mn[k], mx[k], gn[k], gx[k]);
    rect r = tg_geobin_rect(e, b->n), q = tg_geom_rect(g);
    CHECK(beq(r.min.x, q.min.x) && beq(r.min.y, q.min.y) && beq(r.max.x, q.max.x) && beq(r.max.y, q.max.y), "geobin_rect differs from the geometry's");
    pt p = tg_geobin_point(e, b->n), c = tg_geom_point(g);
    if (isfinite(q.min.x + q.max.x) && isfinite(q.min.y + q.max.y))     // the centre of the bounds does not overflow
    CHECK(beq(p.x, c.x) && beq(p.y, c.y), "geobin_point %.17g %.17g, geometry %.17g %.17g", p.x, p.y, c.x, c.y);
    free(e);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator(); g_noneg0 = 1;
    while (time_left()) {
        arm();
        g_cmode = rn(3) ? 1 : 3; g_big = rn(12) == 0; o_sty = 0;
        enum tg_index ix = IXS(rn(12)); const char *d;
        int kind = rn(3);
        M *m = gen(2, kind ? G_NOM | G_ZONLY_COLL : 0); bool em = m_has_empty(m);
        struct tg_geom *g;
        if (kind == 0) { describe(m, "geobin of "); g = mk(m, ix); }
        else {
            B b = { 0 }; int nf = kind == 1 ? 1 : rn(5); bool col = kind == 2;
            static const char *ex[] = { ",\"properties\":{}", ",\"id\":\"a\\\"b\",\"properties\":{\"k\":[1,{\"x\":null}]}", ",\"id\":-1.5e3,\"properties\":{\"a\":{}},\"foreign\":[true]", ",\"properties\":null", ",\"a\":\"\\u0000\"", "" };
            if (col) b_s(&b, rn(2) ? "{\"type\":\"FeatureCollection\",\"features\":[" : "{\"type\":\"FeatureCollection\",\"crs\":{\"n\":1},\"features\":[");
            for (int i = 0; i < nf; i++) { if (i) b_s(&b, ","); bool bare = !col && rn(3) == 0; if (!bare) b_s(&b, "{\"type\":\"Feature\",\"geometry\":"); if (!bare && rn(6) == 0) { b_s(&b, "null"); em = true; } else o_json(&b, m, rn(2) ? 0 : "\"bbox\":[1,2,3,4]"); if (!bare) { b_s(&b, ex[rn(6)]); b_s(&b, "}"); } }
            if (col) b_s(&b, "]}");
            casef("geobin of %.12000s", (char *)b.d);
            g = tg_parse_geojsonn_ix((char *)b.d, b.n, ix); CHECK(!tg_geom_error(g), "does not parse: %s", tg_geom_error(g));
            if (nf == 0) em = true;
            free(b.d);
        }
        B b = gb_of(g);
        size_t l = layout(b.d, b.n, g, em); CHECK(l == b.n, "%zu bytes after the object", b.n - l);
        struct tg_geom *h = rn(2) ? tg_parse_geobin_ix(b.d, b.n, ix) : tg_parse_ix(b.d, b.n, ix);
        CHECK(!tg_geom_error(h), "own output does not parse: %s", tg_geom_error(h));
        if (kind == 0) CHECK(!(d = cmp(h, m, true)), "round trip differs: %s", d);
        CHECK(tg_geom_typeof(g) == tg_geom_typeof(h) && tg_geom_is_feature(g) == tg_geom_is_feature(h) && tg_geom_is_featurecollection(g) == tg_geom_is_featurecollection(h) && sx(tg_geom_extra_json(g), tg_geom_extra_json(h)), "type, feature flags or extra JSON change (%s -> %s)", tg_geom_extra_json(g), tg_geom_extra_json(h));
        CHECK(tg_geom_num_geometries(g) == tg_geom_num_geometries(h), "members are lost");
        if (tg_geom_is_featurecollection(g)) for (int i = 0; i < tg_geom_num_geometries(g); i++) {
            const struct tg_geom *a = tg_geom_geometry_at(g, i), *c = tg_geom_geometry_at(h, i);
            CHECK(tg_geom_typeof(a) == tg_geom_typeof(c) && tg_geom_is_feature(a) == tg_geom_is_feature(c) && sx(tg_geom_extra_json(a), tg_geom_extra_json(c)), "feature %d changes", i);
            if (!em) { B u = gb_of(a), v = gb_of(c); CHECK(u.n == v.n && !memcmp(u.d, v.d, u.n), "feature %d changes", i); free(u.d); free(v.d); }
        }
        B b2 = gb_of(h);
        if (!em) CHECK(b2.n == b.n && !memcmp(b.d, b2.d, b.n), "second writing differs");
        if (!em) { headers(&b, h); headers(&b, g);
            size_t n1 = tg_geom_wkb(g, 0, 0), n2 = tg_geom_wkb(h, 0, 0); uint8_t *w1 = malloc(n1), *w2 = malloc(n2); tg_geom_wkb(g, w1, n1); tg_geom_wkb(h, w2, n2); CHECK(n1 == n2 && !memcmp(w1, w2, n1), "coordinates change"); free(w1); free(w2); }
        // the same bytes as hex text
        char *t = malloc(2 * b.n + 1); for (size_t i = 0; i < b.n; i++) sprintf(t + 2 * i, "%02x", b.d[i]);
        struct tg_geom *k = tg_parse_hex(t); CHECK(!tg_geom_error(k), "hex of a GeoBIN does not parse: %s", tg_geom_error(k)); B b3 = gb_of(k);
        CHECK(b3.n == b2.n && !memcmp(b3.d, b2.d, b2.n), "hex of a GeoBIN parses to another geometry");
        tg_geom_free(k); free(t); free(b3.d);
        eval(m_npts(m) > 1);
        free(b.d); free(b2.d); tg_geom_free(g); tg_geom_free(h); m_free(m);
        CHECK(g_live == 0, "%ld allocations leaked", g_live);
    }
    finish(0);
}
