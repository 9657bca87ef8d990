#include "common.h"
#include "shape.h"
#include "gen.h"
// every writer at every buffer size
typedef size_t (*WF)(const struct tg_geom *, void *, size_t);
static size_t f_wkb(const struct tg_geom *g, void *d, size_t n) { return tg_geom_wkb(g, d, n); }
static size_t f_hex(const struct tg_geom *g, void *d, size_t n) { return tg_geom_hex(g, d, n); }
static size_t f_gb(const struct tg_geom *g, void *d, size_t n) { return tg_geom_geobin(g, d, n); }
static size_t f_wkt(const struct tg_geom *g, void *d, size_t n) { return tg_geom_wkt(g, d, n); }
static size_t f_gj(const struct tg_geom *g, void *d, size_t n) { return tg_geom_geojson(g, d, n); }
static struct { const char *name; WF f; bool text; } W[] = { { "wkb", f_wkb, 0 }, { "hex", f_hex, 1 }, { "geobin", f_gb, 0 }, { "wkt", f_wkt, 1 }, { "geojson", f_gj, 1 } };
static void writer(const struct tg_geom *g, int k) {
    WF f = W[k].f; bool tx = W[k].text;
    size_t L = f(g, 0, 0);
    uint8_t *full = malloc(L + 1); full[L] = 0xA5;
    size_t r = f(g, full, L + (tx ? 1 : 0));
    eval(L > 30);
    CHECK(r == L, "%s: full length %zu with no buffer, %zu with a full one", W[k].name, L, r);
    if (tx) { CHECK(full[L] == 0, "%s: not terminated", W[k].name); CHECK(strlen((char *)full) == L, "%s: embedded NUL", W[k].name); }
    else CHECK(full[L] == 0xA5, "%s: wrote past the end", W[k].name);
    int lim = L < 600 ? (int)L + 3 : 200;
    for (int i = 0; i < lim; i++) {
        size_t n = L < 600 ? (size_t)i : rn(3) ? rnd() % (L + 3) : L - rnd() % 40 + 2;
        uint8_t *b = malloc(n);        // exact size: ASan sees any byte written outside
        memset(b, 0xA5, n);
        r = f(g, b, n);
        CHECK(r == L, "%s: returns %zu for a buffer of %zu, want %zu", W[k].name, r, n, L);
        size_t p = tx ? (n ? (L < n - 1 ? L : n - 1) : 0) : (L < n ? L : n);
        for (size_t j = 0; j < p; j++) CHECK(b[j] == full[j], "%s: buffer of %zu: byte %zu is %02x, want %02x (length %zu)", W[k].name, n, j, b[j], full[j], L);
        if (tx && n) CHECK(b[p] == 0, "%s: buffer of %zu not terminated at %zu", W[k].name, n, p);
        if (!tx) for (size_t j = p; j < n; j++) CHECK(b[j] == 0xA5, "%s: buffer of %zu: byte %zu beyond the output was changed", W[k].name, n, j);
        free(b);
    }
    free(full);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    while (time_left()) {
        arm();
        tg_env_set_print_fixed_floats(rn(2));
        g_cmode = rn(3) ? 1 : 0; g_big = rn(30) == 0; g_short = 1;
        M *m = gen(2, 0);
        describe(m, "geometry ");
        struct tg_geom *g;
        if (rn(3) == 0) {   // features and feature collections with extra members
            B b = { 0 }; int nf = rn(3) ? 1 : rr(1, 3); o_sty = 0;
            if (nf > 1) b_s(&b, "{\"type\":\"FeatureCollection\",\"x\":[1,2],\"features\":[");
            for (int i = 0; i < nf; i++) {
                static const char *ex[] = { "\"properties\":{}", "\"properties\":null", "\"id\":\"a\\u0062\",\"properties\":{\"p\":[1,{}]}", "\"id\":12,\"foo\":\"bar\"" };
                if (i) b_s(&b, ",");
                b_s(&b, "{\"type\":\"Feature\",\"geometry\":"); if (rn(5) == 0) b_s(&b, "null"); else o_json(&b, m, rn(2) ? "\"extra\":{\"a\":1}" : 0);
                b_f(&b, ",%s}", ex[rn(4)]);
            }
            if (nf > 1) b_s(&b, "]}");
            g = tg_parse_geojsonn((char *)b.d, b.n);
            casef("geojson %.4000s", (char *)b.d);
            CHECK(!tg_geom_error(g), "does not parse: %s", tg_geom_error(g));
            free(b.d);
        } else g = mk(m, TG_NONE);
        for (int k = 0; k < 5; k++) writer(g, k);
        tg_geom_free(g); m_free(m);
    }
    finish(0);
}
