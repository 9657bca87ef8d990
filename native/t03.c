#include <ctype.h>
#include "common.h"
#include "shape.h"
#include "gen.h"
// WKT / GeoJSON round trips; numbers print in a shortest form that reads back
static char *wkt_of(const struct tg_geom *g) { size_t n = tg_geom_wkt(g, 0, 0); char *b = malloc(n + 1); CHECK(tg_geom_wkt(g, b, n + 1) == n, "length"); return b; }
static char *json_of(const struct tg_geom *g) { size_t n = tg_geom_geojson(g, 0, 0); char *b = malloc(n + 1); CHECK(tg_geom_geojson(g, b, n + 1) == n, "length"); return b; }
static int sigdigits(const char *s, size_t n) {
    char d[2000]; int k = 0;
    for (size_t i = 0; i < n && s[i] != 'e' && s[i] != 'E'; i++) if (isdigit((unsigned char)s[i]) && (k || s[i] != '0') && k < 1999) d[k++] = s[i];
    while (k && d[k - 1] == '0') k--;
    return k;
}
static int shortest(double v) {
    char b[64];
    for (int p = 1; p <= 17; p++) { snprintf(b, sizeof b, "%.*e", p - 1, v); if (strtod(b, 0) == v) return sigdigits(b, strlen(b)); }
    return 17;
}
// the numbers of a text must be these values
static void numbers(const char *s, const double *v, int nv, bool fixed, const char *how) {
    int k = 0;
    while (*s) {
        if (!(isdigit((unsigned char)*s) || *s == '-')) { s++; continue; }
        const char *q = s; while (*q && strchr("0123456789+-.eE", *q)) q++;
        size_t n = q - s; char t[1200]; CHECK(n < sizeof t, "%s: number of %zu characters", how, n); memcpy(t, s, n); t[n] = 0;
        CHECK(k < nv, "%s: more numbers than coordinates", how);
        char *e; double x = strtod(t, &e);
        CHECK(*e == 0 && x == v[k], "%s: %.17g (bits %016llx) is printed as %s", how, v[k], *(unsigned long long *)&v[k], t);
        CHECK(sigdigits(t, n) <= shortest(v[k]), "%s: %.17g is printed as %s, %d digits where %d suffice", how, v[k], t, sigdigits(t, n), shortest(v[k]));
        if (fixed) CHECK(!strpbrk(t, "eE"), "%s: exponent in fixed mode: %s", how, t);
        // strict JSON number, so that any reader accepts it
        const char *c = t; if (*c == '-') c++; CHECK(isdigit((unsigned char)*c) && !(c[0] == '0' && isdigit((unsigned char)c[1])), "%s: malformed %s", how, t);
        const char *dot = strchr(t, '.'); if (dot) CHECK(isdigit((unsigned char)dot[1]), "%s: malformed %s", how, t);
        k++; s = q;
    }
    CHECK(k == nv, "%s: %d numbers, want %d", how, k, nv);
}
static void num_check(double a, double b) {
    casef("POINT %.17g %.17g (bits %016llx %016llx)", a, b, *(unsigned long long *)&a, *(unsigned long long *)&b);
    for (int fixed = 0; fixed < 2; fixed++) {
        tg_env_set_print_fixed_floats(fixed);
        struct tg_geom *g = tg_geom_new_point(P(a, b)); double v[2] = { a, b };
        char *w = wkt_of(g), *j = json_of(g);
        numbers(w, v, 2, fixed, "WKT"); numbers(j, v, 2, fixed, "GeoJSON");
        struct tg_geom *h = tg_parse_wkt(w); pt p = tg_geom_point(h);
        CHECK(!tg_geom_error(h) && p.x == a && p.y == b, "WKT %s reads back as %.17g %.17g", w, p.x, p.y);
        tg_geom_free(h);
        h = tg_parse_geojson(j); p = tg_geom_point(h);
        CHECK(!tg_geom_error(h) && p.x == a && p.y == b, "GeoJSON %s reads back as %.17g %.17g", j, p.x, p.y);
        tg_geom_free(h); free(w); free(j); tg_geom_free(g);
    }
    eval(true);
}
// reading of decimal text: the nearest double, whatever the spelling
static void read_check(const char *t, bool json) {
    double want = strtod(t, 0); if (!isfinite(want)) return;
    char d[600]; struct tg_geom *g;
    if (json) { snprintf(d, sizeof d, "{\"type\":\"Point\",\"coordinates\":[%s,1]}", t); g = tg_parse_geojson(d); } else { snprintf(d, sizeof d, "POINT(%s 1)", t); g = tg_parse_wkt(d); }
    casef("%s", d);
    CHECK(!tg_geom_error(g), "does not parse: %s", tg_geom_error(g));
    pt p = tg_geom_point(g); CHECK(p.x == want, "reads as %.17g (bits %016llx), nearest is %.17g", p.x, *(unsigned long long *)&p.x, want);
    tg_geom_free(g); eval(true);
}
static void rand_dec(char *t) {
    char *o = t; if (rn(2)) *o++ = '-';
    int n = rn(3) ? rr(1, 19) : rr(1, 40); bool z = rn(4) == 0;
    if (z) *o++ = '0'; else { *o++ = '1' + rn(9); for (int i = 1; i < n; i++) *o++ = '0' + (rn(6) ? rn(10) : rn(2) * 9); }
    if (z || rn(2)) { *o++ = '.'; int k = rr(1, rn(4) ? 17 : 40); for (int i = 0; i < k; i++) *o++ = '0' + (rn(3) ? rn(10) : 0); }
    if (rn(3) == 0) o += sprintf(o, "%c%s%d", "eE"[rn(2)], (const char *[]){ "", "+", "-" }[rn(3)], rn(3) ? rn(30) : rn(330));
    *o = 0;
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    // every power of two and ten, their neighbours, and small products
    for (int e = -1074; e <= 1023; e++) { arm(); double v = ldexp(1, e); num_check(v, nextafter(v, 0)); num_check(-v, nextafter(v, INFINITY)); num_check(v * 1.5, ldexp(rr(1, 999), e > 1000 ? 1000 : e)); }
    for (int e = -323; e <= 308; e++) { arm(); char t[40]; sprintf(t, "1e%d", e); double v = strtod(t, 0); num_check(v, nextafter(v, 0)); sprintf(t, "9.5e%d", e > 307 ? 307 : e); v = strtod(t, 0); num_check(v, nextafter(v, INFINITY)); }
    for (int i = -1100; i <= 1100; i++) { num_check(i, i / 10.0); num_check(i / 100.0, i / 1000.0); }
    num_check(0.0, -0.0); num_check(DBL_MAX, -DBL_MAX); num_check(DBL_MIN, 4.9406564584124654e-324);
    static const char *sp[] = { "0.1", "1e22", "1e23", "9007199254740993", "9007199254740992.9999", "1.7976931348623157e308", "2.2250738585072011e-308", "2.2250738585072014e-308", "4.9406564584124654e-324", "0.000001", "1e-7", "123456789012345678", "179769313486231570000000000000000000000000", "8.5e15", "18014398509481985", "0.3", "0.1000000000000000055511151231257827021181583404541015625", "1e0", "1E5", "-0", "-0.0", "0e10", "1.00000000000000000000000000000000000000000000000001" };
    for (int i = 0; i < (int)(sizeof sp / sizeof *sp); i++) { read_check(sp[i], 0); read_check(sp[i], 1); }
    while (time_left()) {
        arm();
        for (int i = 0; i < 40; i++) { g_cmode = 1; double a = rbits(), b = rn(2) ? rr(-180000000, 180000000) / 1e6 : gcoord(); num_check(a, b); char t[300]; rand_dec(t); read_check(t, rn(2)); }
        tg_env_set_print_fixed_floats(rn(2));
        for (int json = 0; json < 2; json++) {
            g_cmode = rn(3); if (g_cmode == 2) g_cmode = 3; g_big = rn(12) == 0;
            g_short = 1; M *m = gen(3, json ? G_NOM | G_ZONLY_COLL : 0); g_short = 0;
            describe(m, json ? "geojson of " : "wkt of ");
            enum tg_index ix = IXS(rn(12));
            struct tg_geom *g = mk(m, ix); const char *d; m_pad(m);
            char *t = json ? json_of(g) : wkt_of(g); size_t n = strlen(t);
            char *e = (char *)exact(t, n);
            for (int way = 0; way < 2; way++) {
                struct tg_geom *h = way ? tg_parse_ix(e, n, ix) : json ? tg_parse_geojsonn_ix(e, n, ix) : tg_parse_wktn_ix(e, n, ix);
                CHECK(!tg_geom_error(h), "own output does not parse: %s: %.3000s", tg_geom_error(h), t);
                CHECK(!(d = cmp(h, m, false)), "round trip differs: %s: %.3000s", d, t);
                char *t2 = json ? json_of(h) : wkt_of(h);
                CHECK(!strcmp(t, t2), "text changes: %.1500s -> %.1500s", t, t2);
                free(t2); tg_geom_free(h);
            }
            free(e); free(t);
            // the reader accepts the oracle's spelling of the same geometry
            B b = { 0 }; o_sty = rn(2); if (json) o_json(&b, m, 0); else o_wkt(&b, m, rn(2)); o_sty = 0;
            struct tg_geom *h = json ? tg_parse_geojsonn((char *)b.d, b.n) : tg_parse_wktn((char *)b.d, b.n);
            CHECK(!tg_geom_error(h), "does not parse: %s: %.3000s", tg_geom_error(h), (char *)b.d);
            CHECK(!(d = cmp(h, m, false)), "differs: %s: %.3000s", d, (char *)b.d);
            tg_geom_free(h); free(b.d);
            eval(m_npts(m) > 3);
            tg_geom_free(g); m_free(m);
            CHECK(g_live == 0, "leak");
        }
        // features
        { B b = { 0 }; M *m = gen(1, G_NOM | G_ZONLY_COLL); int nf = rr(1, 4); bool col = nf > 1 || rn(2);
          static const char *ex[] = { ",\"properties\":{}", ",\"id\":\"a\\\"b\",\"properties\":{\"k\":[1,{\"x\":null}]}", ",\"id\":-1.5e3,\"properties\":{\"a\":{}},\"foreign\":[true]", ",\"properties\":null" };
          if (col) b_s(&b, rn(2) ? "{\"type\":\"FeatureCollection\",\"features\":[" : "{\"type\":\"FeatureCollection\",\"crs\":{\"n\":1},\"features\":[");
          for (int i = 0; i < nf; i++) { if (i) b_s(&b, ","); b_s(&b, "{\"type\":\"Feature\",\"geometry\":"); if (rn(6) == 0) b_s(&b, "null"); else o_json(&b, m, rn(4) ? 0 : "\"bbox\":[1,2,3,4]"); b_s(&b, ex[rn(4)]); b_s(&b, "}"); }
          if (col) b_s(&b, "]}");
          casef("%.9000s", (char *)b.d);
          struct tg_geom *g = tg_parse_geojsonn((char *)b.d, b.n); CHECK(!tg_geom_error(g), "does not parse: %s", tg_geom_error(g));
          CHECK(col ? tg_geom_is_featurecollection(g) : tg_geom_is_feature(g), "not a feature (collection)");
          char *t = json_of(g); struct tg_geom *h = tg_parse_geojson(t); CHECK(!tg_geom_error(h), "own output does not parse: %s: %.3000s", tg_geom_error(h), t);
          char *t2 = json_of(h); CHECK(!strcmp(t, t2), "text changes: %.3000s -> %.3000s", t, t2);
          CHECK(col == tg_geom_is_featurecollection(h) && !col == tg_geom_is_feature(h), "feature flag lost");
          int nn = tg_geom_num_geometries(g); if (col) { CHECK(nn == nf && tg_geom_num_geometries(h) == nf, "features lost"); for (int i = 0; i < nf; i++) { const struct tg_geom *a = tg_geom_geometry_at(g, i), *c = tg_geom_geometry_at(h, i); const char *xa = tg_geom_extra_json(a), *xc = tg_geom_extra_json(c); CHECK(!xa == !xc && (!xa || !strcmp(xa, xc)), "extra JSON of feature %d changes", i); CHECK(tg_geom_typeof(a) == tg_geom_typeof(c) && tg_geom_dims(a) == tg_geom_dims(c), "feature %d changes", i); } }
          free(t); free(t2); tg_geom_free(g); tg_geom_free(h); free(b.d); m_free(m);
          eval(true);
        }
    }
    finish(0);
}
