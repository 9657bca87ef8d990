#include <ctype.h>
#include "common.h"
#include "shape.h"
#include "gen.h"
// exactly the JSON of RFC 8259 (UTF-8 by RFC 3629) is accepted; extra members are kept unchanged
// ---- independent recursive validator. returns position after the value or -1
typedef const uint8_t *S;
static S o_skip(S p, S e) { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) p++; return p; }
static S o_lit(S p, S e, const char *w) { size_t n = strlen(w); return (size_t)(e - p) >= n && !memcmp(p, w, n) ? p + n : 0; }
static S o_str(S p, S e) {
    if (p >= e || *p != '"') return 0;
    p++;
    while (p < e) {
        unsigned c = *p;
        if (c == '"') return p + 1;
        if (c < 0x20) return 0;
        if (c == '\\') {
            if (e - p < 2) return 0;
            if (p[1] && strchr("\"\\/bfnrt", p[1])) { p += 2; continue; }
            if (p[1] != 'u' || e - p < 6) return 0;
            for (int i = 2; i < 6; i++) if (!isxdigit(p[i])) return 0;
            p += 6; continue;
        }
        if (c < 0x80) { p++; continue; }
        int n = c >= 0xC2 && c <= 0xDF ? 1 : c >= 0xE0 && c <= 0xEF ? 2 : c >= 0xF0 && c <= 0xF4 ? 3 : 0;
        if (!n || e - p <= n) return 0;
        for (int i = 1; i <= n; i++) if ((p[i] & 0xC0) != 0x80) return 0;
        uint32_t cp = c & (0x3F >> n); for (int i = 1; i <= n; i++) cp = cp << 6 | (p[i] & 63);
        if (n == 2 && (cp < 0x800 || (cp >= 0xD800 && cp <= 0xDFFF))) return 0;
        if (n == 3 && (cp < 0x10000 || cp > 0x10FFFF)) return 0;
        p += n + 1;
    }
    return 0;
}
static S o_nm(S p, S e) {
    if (p < e && *p == '-') p++;
    if (p >= e || !isdigit(*p)) return 0;
    if (*p == '0') p++; else while (p < e && isdigit(*p)) p++;
    if (p < e && *p == '.') { p++; if (p >= e || !isdigit(*p)) return 0; while (p < e && isdigit(*p)) p++; }
    if (p < e && (*p == 'e' || *p == 'E')) { p++; if (p < e && (*p == '+' || *p == '-')) p++; if (p >= e || !isdigit(*p)) return 0; while (p < e && isdigit(*p)) p++; }
    return p;
}
static int g_maxd;
static S o_val(S p, S e, int d) {
    p = o_skip(p, e);
    if (p >= e) return 0;
    if (d > g_maxd) g_maxd = d;
    switch (*p) {
    case 't': return o_lit(p, e, "true"); case 'f': return o_lit(p, e, "false"); case 'n': return o_lit(p, e, "null");
    case '"': return o_str(p, e);
    case '[':
        p = o_skip(p + 1, e); if (p < e && *p == ']') return p + 1;
        for (;;) { p = o_val(p, e, d + 1); if (!p) return 0; p = o_skip(p, e); if (p >= e) return 0; if (*p == ']') return p + 1; if (*p != ',') return 0; p++; }
    case '{':
        p = o_skip(p + 1, e); if (p < e && *p == '}') return p + 1;
        for (;;) { p = o_skip(p, e); p = o_str(p, e); if (!p) return 0; p = o_skip(p, e); if (p >= e || *p != ':') return 0; p = o_val(p + 1, e, d + 1); if (!p) return 0; p = o_skip(p, e); if (p >= e) return 0; if (*p == '}') return p + 1; if (*p != ',') return 0; p++; }
    default: return o_nm(p, e);
    }
}
static bool o_valid(const void *s, size_t n) { S p = s, e = p + n; g_maxd = 0; p = o_val(p, e, 0); return p && o_skip(p, e) == e; }
// ---- generator of JSON values, then damage
static void g_ws(B *b) { if (rn(4) == 0) b_c(b, " \t\n\r"[rn(4)]); }
static void g_strv(B *b) {
    b_c(b, '"');
    for (int k = rn(3) ? rn(6) : rn(40); k > 0; k--) switch (rn(9)) {
        case 0: { static const char *es[] = { "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u0041", "\\uD83D\\ude00", "\\udc00", "\\u0000" }; b_s(b, es[rn(12)]); break; }
        case 1: { uint32_t c = rn(2) ? 0x80 + rn(0x780) : rn(2) ? 0x800 + rn(0xC800) : rn(2) ? 0xE000 + rn(0x2000) : 0x10000 + rn(0x100000);
            if (c < 0x800) { b_c(b, 0xC0 | c >> 6); b_c(b, 0x80 | (c & 63)); } else if (c < 0x10000) { b_c(b, 0xE0 | c >> 12); b_c(b, 0x80 | (c >> 6 & 63)); b_c(b, 0x80 | (c & 63)); }
            else { b_c(b, 0xF0 | c >> 18); b_c(b, 0x80 | (c >> 12 & 63)); b_c(b, 0x80 | (c >> 6 & 63)); b_c(b, 0x80 | (c & 63)); } break; }
        default: { int c = rr(32, 127); if (c == '"' || c == '\\') c = 'q'; b_c(b, c); }
    }
    b_c(b, '"');
}
static void g_val(B *b, int d) {
    g_ws(b);
    switch (rn(d > 0 ? 8 : 5)) {
    case 0: b_s(b, (const char *[]){ "true", "false", "null" }[rn(3)]); break;
    case 1: case 2: g_strv(b); break;
    case 3: case 4: { static const char *n[] = { "0", "-0", "12", "-7", "0.5", "1e5", "1E+05", "2.25e-3", "123456789012345678901234567890", "-1.0", "0e0", "9" }; b_s(b, n[rn(12)]); break; }
    case 5: case 6: b_c(b, '['); g_ws(b); for (int i = 0, n = rn(4); i < n; i++) { if (i) b_c(b, ','); g_val(b, d - 1); } b_c(b, ']'); break;
    default: b_c(b, '{'); g_ws(b); for (int i = 0, n = rn(4); i < n; i++) { if (i) b_c(b, ','); g_ws(b); g_strv(b); g_ws(b); b_c(b, ':'); g_val(b, d - 1); } b_c(b, '}');
    }
    g_ws(b);
}
static void damage(B *b) {
    static const char *f[] = { "\\", "\\u12g4", "\\u12", "\"", ",", ":", "[", "]", "{", "}", "01", "-", "+1", ".5", "1.", "1e", "1e+", "tru", "nulll", "\x01", "\n", "\x1f", "\x7f", "\x80", "\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf4\x8f\xbf\xbf", "\xf5\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xef\xbb\xbf", "/**/", "'", "\x0b", "\x0c", "\xc2\xa0", "\0" };
    for (int k = rr(1, 2); k > 0; k--) switch (rn(5)) {
        case 0: if (b->n) b->d[rn((int)b->n)] = rnd(); break;
        case 1: if (b->n) { int a = rn((int)b->n); memmove(b->d + a, b->d + a + 1, b->n - a - 1); b->n--; } break;
        case 2: if (b->n) b->n = rn((int)b->n + 1); break;
        default: { const char *s = f[rn(sizeof f / sizeof *f)]; size_t l = *s ? strlen(s) : 1; int a = rn((int)b->n + 1); B t = { 0 }; b_add(&t, b->d, a); b_add(&t, s, l); b_add(&t, b->d + a, b->n - a); free(b->d); *b = t; }
    }
}
static int g_ok, g_bad;
static void whole(const uint8_t *d, size_t n) {        // as a complete document
    uint8_t *e = exact(d, n); casef("document of %zu bytes %.*s  hex %s", n, n < 8000 ? (int)n : 8000, (const char *)e, hexs(d, n < 4000 ? n : 4000));
    bool v = o_valid(e, n);
    struct tg_geom *g = tg_parse_geojsonn((char *)e, n); const char *err = tg_geom_error(g);
    bool inv = err && strstr(err, "invalid json");
    if (n > 0 && g_maxd < 1000) { if (v) CHECK(!inv, "valid JSON is reported invalid"); else CHECK(err && inv, "invalid JSON is accepted as JSON (%s)", err ? err : "no error"); }
    tg_geom_free(g); free(e); eval(v && n > 2); v ? g_ok++ : g_bad++;
}
static void member(const uint8_t *d, size_t n, int form) {          // as the value of an extra member
    B b = { 0 };
    static const char *pre[] = { "{\"type\":\"Point\",\"coordinates\":[1,2],\"foo\":", "{\"foo\":", "{\"type\":\"Feature\",\"properties\":", "{\"type\":\"Feature\",\"id\":7,\"bar\":", "{\"type\":\"GeometryCollection\",\"geometries\":[],\"foo\":" };
    static const char *post[] = { "}", ",\"type\":\"LineString\",\"coordinates\":[[1,2],[3,4]]}", ",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]}}", ",\"geometry\":{\"type\":\"Point\",\"coordinates\":[1,2]},\"properties\":{}}", "}" };
    b_s(&b, pre[form]); b_add(&b, d, n); b_s(&b, post[form]);
    uint8_t *e = exact(b.d, b.n); casef("%.*s  value hex %s", b.n < 8000 ? (int)b.n : 8000, (const char *)b.d, hexs(d, n < 4000 ? n : 4000));
    bool v = o_valid(e, b.n), single = o_valid(d, n);
    struct tg_geom *g = tg_parse_geojsonn((char *)e, b.n); const char *err = tg_geom_error(g);
    if (!v) CHECK(err, "invalid JSON is accepted");
    if (single) {
        const uint8_t *p = d, *q = d + n; while (p < q && strchr(" \t\r\n", *p)) p++; while (q > p && strchr(" \t\r\n", q[-1])) q--;
        bool isnull = q - p == 4 && !memcmp(p, "null", 4), obj = *p == 0x7b || isnull;
        if (form != 2 || obj) {
            CHECK(!err, "a valid document is rejected: %s", err);
            const char *x = tg_geom_extra_json(g);
            if (form == 2 && *p == '{' && o_skip(p + 1, q) == q - 1) isnull = true;     // empty properties are implied
            if (form == 2 && isnull) CHECK(!x, "extra JSON for null or empty properties");
            if (form == 2 && isnull) x = "{}"; else
            CHECK(x && o_valid(x, strlen(x)), "extra JSON is not valid JSON: %s", x ? x : "null");
            if (form != 2 || !isnull) CHECK(memmem(x, strlen(x), p, q - p), "the value is not kept unchanged: %s", x);
            size_t on = tg_geom_geojson(g, 0, 0); char *o = malloc(on + 1); tg_geom_geojson(g, o, on + 1);
            CHECK(o_valid(o, on), "output is not valid JSON: %.2000s", o);
            if (form != 2 || !isnull) CHECK(memmem(o, on, p, q - p), "the value is not written unchanged: %.2000s", o);
            struct tg_geom *g2 = tg_parse_geojsonn(o, on); CHECK(!tg_geom_error(g2), "own output does not parse: %s\n%.3000s", tg_geom_error(g2), o);
            const char *x2 = tg_geom_extra_json(g2);
            if (form == 2 && isnull && !x2) x2 = "{}";
            CHECK(x2 && !strcmp(x, x2), "extra JSON changes in a round trip: %.1500s -> %.1500s", x, x2 ? x2 : "null");
            tg_geom_free(g2); free(o);
        }
    }
    tg_geom_free(g); free(e); free(b.d); eval(v);
}
static void both(const uint8_t *d, size_t n) { arm(); whole(d, n); for (int f = 0; f < 5; f++) member(d, n, f); }
int main(int argc, char **argv) {
    harness_init(argc, argv);
    B b = { 0 };
    // all short strings over the bytes the grammar distinguishes
    static const uint8_t al[] = "{}[]:,\"\\ \n0159-+.eEtrufalsn/b\x01\x1f\x7f\x80\x8f\x90\x9f\xa0\xbf\xc0\xc1\xc2\xe0\xed\xf0\xf4\xf5\xff" "d"; int na = sizeof al - 1;
    for (int i = 0; i < 256; i++) { uint8_t s[1] = { i }; both(s, 1); }
    for (int i = 0; i < na; i++) for (int j = 0; j < na; j++) { uint8_t s[2] = { al[i], al[j] }; whole(s, 2); member(s, 2, 0);
        // inside a string, with continuation bytes
        for (int k = 0; k < na; k++) { uint8_t t[7] = { '"', al[i], al[j], al[k], '"' }; whole(t, 5); uint8_t u[8] = { al[i], al[j], al[k] }; whole(u, 3); } }
    // all UTF-8 lead bytes with all second bytes (2, 3 and 4 byte forms)
    for (int i = 0x80; i < 256; i++) for (int j = 0; j < 256; j++) for (int n = 0; n < 4; n++) { uint8_t s[9] = { '"', i, j, 0x80, 0xBF, 0x80 }; s[2 + n] = '"'; whole(s, 3 + n); }
    // long numbers, strings and escapes at every alignment
    for (int pad = 0; pad < 40; pad++) for (int c = 0; c < na; c++) { b.n = 0; b_c(&b, '"'); for (int i = 0; i < pad; i++) b_c(&b, 'a'); b_c(&b, al[c]); for (int i = 0; i < 17; i++) b_c(&b, 'b'); b_c(&b, '"'); both(b.d, b.n); }
    for (int dep = 900; dep < 1000; dep += 33) for (int k = 0; k < 2; k++) { b.n = 0; for (int i = 0; i < dep; i++) b_s(&b, k ? "[" : "{\"a\":"); b_s(&b, "1"); for (int i = 0; i < dep; i++) b_s(&b, k ? "]" : "}"); whole(b.d, b.n); b.n--; whole(b.d, b.n); }
    while (time_left()) {
        b.n = 0; b_s(&b, ""); g_val(&b, 4);
        both(b.d, b.n);
        for (int i = 0; i < 6; i++) { B t = { 0 }; b_add(&t, b.d, b.n); damage(&t); both(t.d, t.n); free(t.d); }
    }
    finish(0);
}
