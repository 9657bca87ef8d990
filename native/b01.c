#include "common.h"
#include "shape.h"
#include "gen.h"
#include "fuzz.h"
// binary parsing: every byte string
static bool is_hex(const uint8_t *d, size_t n) { for (size_t i = 0; i < n; i++) if (!isxdigit(d[i])) return false; return true; }
static void feed(const uint8_t *d, size_t n) {
    arm();
    casef("%zu bytes %s", n, hexs(d, n > 8000 ? 8000 : n));
    uint8_t *e = exact(d, n);
    enum tg_index ix = IXS(rn(12));
    long live = g_live;
    struct tg_geom *g;
    g = tg_parse_wkb_ix(e, n, ix); bool ok = judge(g, "wkb", n); tg_geom_free(g);
    CHECK(g_live == live, "wkb: %ld allocations leaked", g_live - live);
    g = tg_parse_geobin_ix(e, n, ix); ok |= judge(g, "geobin", n); tg_geom_free(g);
    CHECK(g_live == live, "geobin: %ld allocations leaked", g_live - live);
    double mn[4] = { 1, 2, 3, 4 }, mx[4] = { 5, 6, 7, 8 };
    int dims = tg_geobin_fullrect(e, n, mn, mx);
    CHECK(dims == 0 || (dims >= 2 && dims <= 4), "geobin_fullrect returns %d", dims);
    rect r = tg_geobin_rect(e, n); pt p = tg_geobin_point(e, n); (void)r; (void)p;
    bool raw = is_hex(d, n);
    for (int k = 0; k < (raw ? 1 : 2); k++) {       // as hex text, both as given and encoded
        size_t hn = n; char *h;
        if (k == 0) h = (char *)exact(d, n);
        else { char *t = malloc(2 * n + 1); bool up = rn(2); for (size_t i = 0; i < n; i++) sprintf(t + 2 * i, up ? "%02X" : "%02x", d[i]); hn = 2 * n - (n && rn(8) == 0); h = (char *)exact(t, hn); free(t); }
        g = tg_parse_hexn_ix(h, hn, ix); bool hok = judge(g, "hex", hn); tg_geom_free(g);
        CHECK(g_live == live, "hex: %ld allocations leaked", g_live - live);
        ok |= hok;
        free(h);
    }
    free(e);
    eval(ok);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    uint8_t b[4] = { 0 };
    feed(b, 0);
    for (int i = 0; i < 256; i++) { b[0] = i; feed(b, 1); }
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j += (i < 6 ? 1 : 17)) { b[0] = i; b[1] = j; feed(b, 2); }
    // every truncation and every suspicious byte at every place of small encodings of every kind
    for (int round = 0; time_frac(0.4); round++) {
        g_cmode = 0; g_big = 0; M *m = gen_t(1 + round % 7, 2, 0); B q = { 0 };
        int k = round / 7 % 3;
        if (k == 0) o_wkb(&q, m, rn(3), rn(4) == 0);
        else enc_geobin(&q, m, k == 2);
        if (q.n > 400) q.n = 400;
        for (size_t i = 0; i <= q.n && time_frac(0.5); i++) feed(q.d, i);
        static const uint8_t bad[] = { 0, 1, 2, 3, 4, 5, 7, 8, 0x10, 0x7f, 0x80, 0xf0, 0xff };
        for (size_t i = 0; i < q.n && time_frac(0.5); i++) { uint8_t s = q.d[i]; for (size_t j = 0; j < sizeof bad; j += (i < 20 ? 1 : 4)) { q.d[i] = bad[j]; feed(q.d, q.n); } q.d[i] = s; }
        free(q.d); m_free(m);
    }
    while (time_left()) {
        g_cmode = 2; g_big = rn(10) == 0;
        M *m = gen(3, 0); B q = { 0 };
        switch (rn(4)) { case 0: enc_geobin(&q, m, true); break; case 1: enc_geobin(&q, m, false); break; default: o_wkb(&q, m, rn(3), rn(6) == 0); }
        for (int i = 0; i < 30; i++) { B t = mutate_bin(&q); feed(t.d, t.n); free(t.d); }
        free(q.d); m_free(m);
    }
    finish(0);
}
