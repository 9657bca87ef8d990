#include <ctype.h>
#include "common.h"
#include "shape.h"
#include "gen.h"
#include "fuzz.h"
// format detection: the result is that of the parser the documented rule selects
enum { F_NONE, F_JSON, F_WKT, F_HEX, F_WKB, F_GB };
static const char *fn[] = { "none", "geojson", "wkt", "hex", "wkb", "geobin" };
static bool sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool xd(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool al(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static int rule(const uint8_t *d, size_t n) {
    if (n == 0) return F_NONE;
    size_t i = 0; while (i < n && sp(d[i])) i++;
    if (i < n && d[i] == '{') return F_JSON;
    if (i > 0) return F_WKT;
    if (al(d[0]) || xd(d[0])) { for (i = 0; i < n && i < 16; i++) if (!xd(d[i])) return F_WKT; return F_HEX; }
    return d[0] <= 1 ? F_WKB : F_GB;
}
static void judge_same(const struct tg_geom *a, const struct tg_geom *b, int f) {
    const char *ea = tg_geom_error(a), *eb = tg_geom_error(b);
    if (!a || !b) { CHECK(!a && !b, "one is null"); return; }
    CHECK(!ea == !eb && (!ea || !strcmp(ea, eb)), "detected: %s, %s parser: %s", ea ? ea : "geometry", fn[f], eb ? eb : "geometry");
    if (ea) return;
    size_t n = tg_geom_geobin(a, 0, 0), k = tg_geom_geobin(b, 0, 0); uint8_t *p = malloc(n), *q = malloc(k); tg_geom_geobin(a, p, n); tg_geom_geobin(b, q, k);
    CHECK(n == k && !memcmp(p, q, n), "detected geometry differs from that of the %s parser", fn[f]);
    CHECK(tg_geom_memsize(a) == tg_geom_memsize(b), "index option differs: memory %zu and %zu", tg_geom_memsize(a), tg_geom_memsize(b));
    free(p); free(q);
}
static void feed(const uint8_t *d, size_t n) {
    uint8_t *e = exact(d, n); int f = rule(e, n); enum tg_index ix = rn(3) ? IXS(rn(12)) : TG_DEFAULT;
    casef("%zu bytes %s (index 0x%x, rule: %s)", n, hexs(d, n > 8000 ? 8000 : n), ix, fn[f]);
    struct tg_geom *a = ix == TG_DEFAULT && rn(2) ? tg_parse(e, n) : tg_parse_ix(e, n, ix), *b = 0;
    switch (f) { case F_JSON: b = tg_parse_geojsonn_ix((char *)e, n, ix); break; case F_WKT: b = tg_parse_wktn_ix((char *)e, n, ix); break; case F_HEX: b = tg_parse_hexn_ix((char *)e, n, ix); break;
        case F_WKB: b = tg_parse_wkb_ix(e, n, ix); break; case F_GB: b = tg_parse_geobin_ix(e, n, ix); break; }
    judge_same(a, b, f);
    eval(a && !tg_geom_error(a));
    tg_geom_free(a); tg_geom_free(b); free(e);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    casef("NULL"); CHECK(!tg_parse(0, 0) && !tg_parse(0, 5) && !tg_parse("x", 0), "null or empty data");
    uint8_t s[64];
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j++) { s[0] = i; s[1] = j; feed(s, 2); if (j == 0) feed(s, 1); }
    static const uint8_t lead[] = " \t\n\v\f\r{}[(0129aAfFgGpPzZ\"-+.\x00\x01\x02\x03\x04\x05\x7f\x80\xa0\xff"; int nl = sizeof lead - 1;
    for (int i = 0; i < nl; i++) for (int j = 0; j < nl; j++) for (int k = 0; k < nl; k++) { s[0] = lead[i]; s[1] = lead[j]; s[2] = lead[k]; feed(s, 3); }
    // hex digits of every length and the first other byte at every place
    for (int n = 1; n < 24; n++) for (int at = 0; at <= n; at++) for (int c = 0; c < nl; c++) { for (int i = 0; i < n; i++) s[i] = "0123456789abcdefABCDEF"[(i * 7 + n) % 22]; if (at < n) s[at] = lead[c]; feed(s, n); }
    while (time_left()) {
        arm();
        g_cmode = rn(2) ? 0 : 3; g_big = rn(20) == 0; M *m = gen(2, G_NOM | G_ZONLY_COLL); struct tg_geom *g = mk(m, TG_NONE); describe(m, "");
        // each writer's output is detected as its format
        for (int f = F_JSON; f <= F_GB; f++) {
            size_t n = f == F_JSON ? tg_geom_geojson(g, 0, 0) : f == F_WKT ? tg_geom_wkt(g, 0, 0) : f == F_HEX ? tg_geom_hex(g, 0, 0) : f == F_WKB ? tg_geom_wkb(g, 0, 0) : tg_geom_geobin(g, 0, 0);
            uint8_t *b = malloc(n + 40);
            f == F_JSON ? tg_geom_geojson(g, (char *)b, n + 1) : f == F_WKT ? tg_geom_wkt(g, (char *)b, n + 1) : f == F_HEX ? tg_geom_hex(g, (char *)b, n + 1) : f == F_WKB ? tg_geom_wkb(g, b, n) : tg_geom_geobin(g, b, n);
            int r = rule(b, n); CHECK(r == f || (f == F_GB && tg_geom_typeof(g) == TG_POINT), "%s output would be taken as %s", fn[f], fn[r]);
            feed(b, n);
            if (f == F_JSON || f == F_WKT) { int k = rr(1, 9); memmove(b + k, b, n); for (int i = 0; i < k; i++) b[i] = " \t\n\v\f\r"[rn(6)]; feed(b, n + k); }
            B q = { 0 }; b_add(&q, b, n); for (int i = 0; i < 4; i++) { B t = mutate_bin(&q); if (t.n && rn(2)) t.d[0] = lead[rn(nl)]; feed(t.d, t.n); free(t.d); } free(q.d); free(b);
        }
        // features through every format that keeps them
        B q = { 0 }; enc_geobin(&q, m, true); feed(q.d, q.n); free(q.d);
        tg_geom_free(g); m_free(m);
    }
    finish(0);
}
