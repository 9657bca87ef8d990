#include "common.h"
#include "shape.h"
#include "gen.h"
#include "fuzz.h"
// text parsing: every byte string
static void feed(const uint8_t *d, size_t n) {
    arm();
    casef("%zu bytes %.*s   hex %s", n, n < 20000 ? (int)n : 20000, n && !memchr(d, 0, n) ? (const char *)d : "", hexs(d, n > 6000 ? 6000 : n));
    enum tg_index ix = IXS(rn(12));
    uint8_t *e = exact(d, n); uint8_t *z = malloc(n + 1); memcpy(z, d, n); z[n] = 0; bool ok = false;
    long live = g_live; struct tg_geom *g; size_t zn = strlen((char *)z);
    #define ONE(call, how, len) g = call; ok |= judge(g, how, len); tg_geom_free(g); CHECK(g_live == live, how ": %ld allocations leaked", g_live - live);
    ONE(tg_parse_geojsonn_ix((char *)e, n, ix), "geojson", n)
    ONE(tg_parse_wktn_ix((char *)e, n, ix), "wkt", n)
    ONE(tg_parse_ix(e, n, ix), "auto", n)
    if (rn(3) == 0) {
        ONE(tg_parse_geojson_ix((char *)z, ix), "geojson string", zn)
        ONE(tg_parse_wkt_ix((char *)z, ix), "wkt string", zn)
        ONE(tg_parse(z, n), "auto", n)
    }
    free(e); free(z); eval(ok);
}
static const char *frag[] = { "{", "}", "[", "]", ",", ":", "\"", "\\", "\\u00", "\\ud800", "null", "true", "fals", "-", "+", "0", "00", "1e", "1e999", "-1E-999", ".", ".5", "1.", "e5", "nan", "NaN", "inf", "Infinity", " ", "\t", "\r\n",
    "(", ")", "((", "))", "EMPTY", "POINT", "point z", "LINESTRING", "POLYGON ZM", "MULTIPOINT M", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION(", "SRID=4326;", "\"type\"", "\"Point\"", "\"type\":\"Feature\"", "\"type\":\"FeatureCollection\"",
    "\"coordinates\"", "\"coordinates\":[]", "\"coordinates\":null", "\"geometry\":", "\"geometry\":null", "\"geometries\":", "\"features\":", "\"features\":[{}]", "\"properties\":{}", "\"id\":1", "\"bbox\":[1,2]", "\xff", "\x80", "\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xef\xbb\xbf", "\x00", "\"\\u0000\"", "123456789012345678901234567890123456789012345678901234567890" };
static B mutate_text(const B *q) {
    B t = { 0 }; t.d = malloc(q->n + 2000); t.n = q->n; memcpy(t.d, q->d, q->n);
    for (int k = rr(0, 3); k >= 0; k--) switch (rn(8)) {
        case 0: if (t.n) t.d[rn((int)t.n)] = rnd(); break;
        case 1: if (t.n) t.d[rn((int)t.n)] = "{}[](),:\"\\ 0-e.Z"[rn(16)]; break;
        case 2: if (t.n) t.n = rn((int)t.n + 1); break;
        case 3: case 4: { const char *f = frag[rn(sizeof frag / sizeof *frag)]; size_t l = *f ? strlen(f) : 1, at = rn((int)t.n + 1); memmove(t.d + at + l, t.d + at, t.n - at); memcpy(t.d + at, f, l); t.n += l; break; }
        case 5: if (t.n > 4) { size_t l = rn(12) + 1, at = rn((int)t.n); if (at + l > t.n) l = t.n - at; memmove(t.d + at, t.d + at + l, t.n - at - l); t.n -= l; } break;
        case 6: if (t.n > 8) { size_t l = rn(30) + 1; if (l > t.n) l = t.n; size_t a = rn((int)(t.n - l) + 1), at = rn((int)t.n + 1); uint8_t c[32]; memcpy(c, t.d + a, l); memmove(t.d + at + l, t.d + at, t.n - at); memcpy(t.d + at, c, l); t.n += l; } break;
        case 7: if (t.n) { size_t at = rn((int)t.n); t.d[at] ^= 0x20; } break;
    }
    uint8_t *d = malloc(t.n + 1); memcpy(d, t.d, t.n); d[t.n] = 0; free(t.d); t.d = d;
    return t;
}
static void base(B *q) {
    M *m = gen(2, G_NOM | G_ZONLY_COLL | (rn(3) ? 0 : G_NOEMPTY)); o_sty = rn(2);
    if (rn(2)) o_wkt(q, m, rn(2));
    else {
        bool feat = rn(2), col = feat && rn(2);
        if (col) b_s(q, "{\"type\":\"FeatureCollection\",\"features\":[");
        if (feat) b_s(q, "{\"type\":\"Feature\",\"id\":[\"x\",2],\"geometry\":");
        o_json(q, m, rn(2) ? "\"extra\":{\"a\\n\":[1,-2.5e-3,null]}" : 0);
        if (feat) b_s(q, ",\"properties\":{\"q\":\"\xc3\xa9\\u00e9\"}}");
        if (col) b_s(q, "]}");
    }
    m_free(m);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    static uint8_t buf[1 << 16];
    feed(buf, 0);
    for (int i = 0; i < 256; i++) { buf[0] = i; feed(buf, 1); }
    for (int i = 0; i < 256; i++) for (int j = 0; j < 256; j += 7) { buf[0] = i; buf[1] = j; feed(buf, 2); }
    for (int i = 0; i < (int)(sizeof frag / sizeof *frag); i++) for (int j = 0; j < (int)(sizeof frag / sizeof *frag); j++) {      // token pairs, alone and in a document
        char s[400]; snprintf(s, sizeof s, "%s%s", frag[i], frag[j]); memcpy(buf, s, strlen(s)); feed(buf, strlen(s));
        snprintf(s, sizeof s, "{\"type\":\"Point\",%s%s}", frag[i], frag[j]); memcpy(buf, s, strlen(s)); feed(buf, strlen(s));
        snprintf(s, sizeof s, "{\"type\":\"Polygon\",\"coordinates\":[%s%s]}", frag[i], frag[j]); memcpy(buf, s, strlen(s)); feed(buf, strlen(s));
        snprintf(s, sizeof s, "POLYGON((%s%s", frag[i], frag[j]); memcpy(buf, s, strlen(s)); feed(buf, strlen(s));
    }
    // every truncation of short documents
    while (time_frac(0.4)) { B q = { 0 }; g_cmode = rn(2) ? 3 : 0; base(&q); if (q.n < 500) for (size_t i = 0; i <= q.n; i++) feed(q.d, i); free(q.d); }
    // deep nesting
    for (int k = 0; k < 8; k++) for (int n = 500; n <= 20000; n *= 3) {
        static const char *rep[] = { "[", "{\"a\":", "(", "GEOMETRYCOLLECTION(", "{\"type\":\"GeometryCollection\",\"geometries\":[", "((", "[[1,", "POINT(" };
        B q = { 0 }; if (k == 0) b_s(&q, "{\"type\":\"Point\",\"coordinates\":"); for (int i = 0; i < n; i++) b_s(&q, rep[k]); feed(q.d, q.n); free(q.d);
    }
    while (time_left()) {
        g_cmode = rn(4); if (g_cmode == 2) g_cmode = 1; g_big = rn(10) == 0; B q = { 0 }; base(&q);
        for (int i = 0; i < 30; i++) { B t = mutate_text(&q); feed(t.d, t.n); free(t.d); }
        free(q.d);
    }
    finish(0);
}
