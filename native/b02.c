#include "common.h"
#include "shape.h"
#include "gen.h"
// WKB / hex round trip and byte-exact encoding
static uint8_t *wkb_of(const struct tg_geom *g, size_t *n) { *n = tg_geom_wkb(g, 0, 0); uint8_t *b = malloc(*n); size_t k = tg_geom_wkb(g, b, *n); CHECK(k == *n, "length %zu then %zu", *n, k); return b; }
static char *hex_of(const struct tg_geom *g, size_t *n) { *n = tg_geom_hex(g, 0, 0); char *b = malloc(*n + 1); size_t k = tg_geom_hex(g, b, *n + 1); CHECK(k == *n && b[*n] == 0, "hex length"); return b; }
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
static void back(const uint8_t *w, size_t n, const M *m, const char *how) {
    uint8_t *e = exact(w, n);
    enum tg_index ix = IXS(rn(12));
    struct tg_geom *g = rn(4) ? tg_parse_wkb_ix(e, n, ix) : rn(2) ? tg_parse_wkb(e, n) : tg_parse_ix(e, n, ix);
    free(e);
    const char *d = cmp(g, m, true);
    CHECK(!d, "%s: parsed geometry differs: %s", how, d);
    tg_geom_free(g);
    char *h = malloc(2 * n); int mode = rn(3);
    for (size_t i = 0; i < 2 * n; i++) { int v = w[i / 2] >> (i & 1 ? 0 : 4) & 15; bool up = mode == 0 || (mode == 2 && rn(2)); h[i] = v < 10 ? '0' + v : (up ? 'A' : 'a') + v - 10; }
    g = rn(3) ? tg_parse_hexn_ix(h, 2 * n, ix) : tg_parse_ix(h, 2 * n, ix);
    free(h);
    d = cmp(g, m, true);
    CHECK(!d, "%s hex: parsed geometry differs: %s", how, d);
    tg_geom_free(g);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    while (time_left()) {
        arm();
        g_cmode = rn(4) ? 2 : 0; g_big = rn(20) == 0; g_short = 1;
        M *m = gen(3, 0);
        describe(m, "geometry ");
        struct tg_geom *g = mk(m, IXS(rn(12)));
        const char *d = cmp(g, m, true);
        CHECK(!d, "constructed geometry differs: %s", d);
        m_pad(m);
        size_t n, hn; uint8_t *w = wkb_of(g, &n); char *h = hex_of(g, &hn);
        B b = { 0 }; o_wkb(&b, m, 0, 0);
        eval(n > 40);
        CHECK(n == b.n, "WKB has %zu bytes, want %zu", n, b.n);
        if (!m_has_empty(m)) CHECK(memcmp(w, b.d, n) == 0, "WKB bytes differ from the OGC encoding: %.200s", hexs(w, n));
        CHECK(hn == 2 * n, "hex length");
        for (size_t i = 0; i < n; i++) CHECK(hv(h[2 * i]) * 16 + hv(h[2 * i + 1]) == w[i], "hex differs from WKB at byte %zu", i);
        struct tg_geom *g2 = tg_parse_wkb(w, n);
        CHECK(!(d = cmp(g2, m, true)), "round trip differs: %s", d);
        size_t n2; uint8_t *w2 = wkb_of(g2, &n2);
        CHECK(n2 == n && memcmp(w, w2, n) == 0, "second writing differs");
        free(w2); tg_geom_free(g2);
        g2 = tg_parse_hex(h);
        CHECK(!(d = cmp(g2, m, true)), "hex round trip differs: %s", d);
        tg_geom_free(g2);
        back(w, n, m, "own bytes");
        for (int e = 0; e < 3; e++) { B q = { 0 }; o_wkb(&q, m, e, rn(3) == 0); back(q.d, q.n, m, e == 0 ? "little-endian" : e == 1 ? "big-endian" : "mixed-endian"); free(q.d); }
        free(b.d); free(w); free(h); tg_geom_free(g); m_free(m);
        CHECK(g_live == 0, "%ld allocations leaked", g_live);
    }
    finish(0);
}
