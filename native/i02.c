#include "common.h"
#include "shape.h"
static bool rcov(rect o, rect i) { return o.min.x <= i.min.x && o.min.y <= i.min.y && o.max.x >= i.max.x && o.max.y >= i.max.y; }
static rect srect(seg s) { return (rect){ P(dmin(s.a.x, s.b.x), dmin(s.a.y, s.b.y)), P(dmax(s.a.x, s.b.x), dmax(s.a.y, s.b.y)) }; }
static bool zr(rect r) { return r.min.x == 0 && r.min.y == 0 && r.max.x == 0 && r.max.y == 0; }
#define GENERIC(NAME, T, NSEG, SPREAD, NLEV, NRECT, RECT, ITEMRECT) \
static void NAME(const T *g, int spread, bool indexed) { \
    int n = NSEG(g), L = NLEV(g); \
    eval(L > 0); \
    if (!indexed) { CHECK(L == 0 && SPREAD(g) == 0 && NRECT(g, 0) == 0 && zr(RECT(g, 0, 0)), "index reported for an unindexed series"); return; } \
    CHECK(SPREAD(g) == spread, "spread %d != %d", SPREAD(g), spread); \
    int want[64], w = 0; long k = ((long)n + spread - 1) / spread; \
    while (k > 1) { want[w++] = k; k = (k + spread - 1) / spread; } \
    CHECK(L == w, "levels %d != %d (n=%d)", L, w, n); \
    for (int l = 0; l < L; l++) CHECK(NRECT(g, l) == want[w - 1 - l], "level %d has %d rects, want %d", l, NRECT(g, l), want[w - 1 - l]); \
    CHECK(NRECT(g, -1) == 0 && NRECT(g, L) == 0 && NRECT(g, 1 << 30) == 0, "level out of range"); \
    CHECK(zr(RECT(g, -1, 0)) && zr(RECT(g, L, 0)), "level rect out of range"); \
    for (int l = 0; l < L; l++) { \
        CHECK(zr(RECT(g, l, -1)) && zr(RECT(g, l, NRECT(g, l))), "rect out of range"); \
        for (int i = 0; i < NRECT(g, l); i++) { \
            rect r = RECT(g, l, i); \
            int e = l + 1 == L ? n : NRECT(g, l + 1); \
            for (int j = i * spread; j < e && j < (i + 1) * spread; j++) { \
                rect c = l + 1 == L ? ITEMRECT(g, j) : RECT(g, l + 1, j); \
                CHECK(rcov(r, c), "level %d rect %d (%.17g %.17g,%.17g %.17g) does not cover item %d (%.17g %.17g,%.17g %.17g)", l, i, r.min.x, r.min.y, r.max.x, r.max.y, j, c.min.x, c.min.y, c.max.x, c.max.y); \
            } \
        } \
    } \
}
static rect ring_item(const struct tg_ring *g, int j) { return srect(tg_ring_segment_at(g, j)); }
static rect line_item(const struct tg_line *g, int j) { return srect(tg_line_segment_at(g, j)); }
GENERIC(chk_ring, struct tg_ring, tg_ring_num_segments, tg_ring_index_spread, tg_ring_index_num_levels, tg_ring_index_level_num_rects, tg_ring_index_level_rect, ring_item)
GENERIC(chk_line, struct tg_line, tg_line_num_segments, tg_line_index_spread, tg_line_index_num_levels, tg_line_index_level_num_rects, tg_line_index_level_rect, line_item)

static int ngeo(const struct tg_geom *g) { int a = tg_geom_num_geometries(g), b = tg_geom_num_points(g); return a > b ? a : b; }
static void options(void) {
    // every kind and a wide range of spreads
    static const int sp[] = { -2147483647 - 1, -70000, -4096, -1, 1, 2, 3, 15, 16, 17, 255, 256, 4094, 4095, 4096, 4097, 5000, 65536, 1 << 20, 2147483647 };
    for (int kind = 0; kind < 16; kind++)
        for (int i = 0; i < 20000; i++) {
            int s = i < 20 ? sp[i] : i - 5000;
            casef("tg_index_with_spread(%d,%d)", kind, s);
            enum tg_index ix = tg_index_with_spread(kind, s);
            int got = -1;
            enum tg_index k = tg_index_extract_spread(ix, &got);
            int want = s == 0 ? tg_env_get_index_spread() : s < 2 ? 2 : s > 4096 ? 4096 : s;
            eval(s > 1);
            CHECK((int)k == kind, "kind %d", k);
            CHECK(got == want, "spread %d want %d", got, want);
            CHECK((int)tg_index_extract_spread(ix, 0) == kind, "kind, null spread");
        }
    int cur = tg_env_get_index_spread();
    CHECK(cur == 16, "default spread %d", cur);
    for (int i = 0; i < 30000; i++) {
        int s = i < 20 ? sp[i] : i - 10000;
        casef("tg_env_set_index_spread(%d)", s);
        tg_env_set_index_spread(s);
        if (s >= 2 && s <= 4096) cur = s;
        CHECK(tg_env_get_index_spread() == cur, "env spread %d want %d", tg_env_get_index_spread(), cur);
        int got; tg_index_extract_spread(TG_NATURAL, &got);
        CHECK(got == cur, "unspecified spread %d want %d", got, cur);
    }
    tg_env_set_index_spread(16);
    enum tg_index d = tg_env_get_default_index();
    CHECK(d == TG_NATURAL, "default index %d", d);
    for (int k = -3; k < 300; k++) {
        casef("tg_env_set_index(%d)", k);
        tg_env_set_index(k);
        if (k == TG_NONE || k == TG_NATURAL || k == TG_YSTRIPES) d = k;
        CHECK(tg_env_get_default_index() == d, "default index %d want %d", tg_env_get_default_index(), d);
    }
    tg_env_set_index(TG_NATURAL);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    options();
    static pt p[60000];
    int it = 0;
    while (time_left()) {
        arm();
        int n, spread = rn(3) ? rr(2, 9) : rr(2, 40);
        if (it < 400) { spread = 2 + it % 4; n = it / 4 + 2; }
        else if (it % 50 == 0) n = rr(1000, 30000);
        else n = rr(2, 400);
        it++;
        int mode = rn(6);
        for (int i = 0; i < n; i++) {
            if (mode == 0) p[i] = P(rr(-100, 100), rr(-100, 100));
            else if (mode == 1) p[i] = P(rr(-9, 9) + rn(1000) / 7.0, rr(-9, 9) / 3.0);
            else if (mode == 2) p[i] = P(rbits(), rbits());
            else if (mode == 3) p[i] = P(ldexp(rr(-99, 99), -rr(130, 1074)), ldexp(rr(-99, 99), rr(100, 1000)));
            else if (mode == 4) p[i] = P(i * 1.1, 0.1 * i * i);
            else p[i] = P(rn(2) ? 3 : i, 7);
        }
        bool close = rn(2);
        if (close) p[n - 1] = p[0];
        int kind = rn(4);
        enum tg_index ix = rn(5) == 0 ? (enum tg_index)kind : tg_index_with_spread(kind, spread);
        if (ix == (enum tg_index)kind) spread = 16;
        casef("ix=0x%x n=%d mode=%d: %s", ix, n, mode, n < 150 ? pts_str(p, n) : "(seeded)");
        bool idx = kind != TG_NONE && n >= 2 * spread;
        struct tg_line *l = tg_line_new_ix(p, n, ix);
        chk_line(l, spread, idx);
        tg_line_free(l);
        struct tg_ring *r = tg_ring_new_ix(p, n, ix);
        chk_ring(r, spread, idx);
        struct tg_ring *r2 = tg_ring_copy(r);
        chk_ring(r2, spread, idx);
        tg_ring_free(r); tg_ring_free(r2);
        if (rn(8) == 0) {
            // index of a collection: only the shape and coverage of upper levels and the union rectangle are observable
            int m = n > 3000 ? 3000 : n;
            struct tg_geom *g = tg_geom_new_multipoint(p, m);
            int L = tg_geom_multi_index_num_levels(g), sp = tg_geom_multi_index_spread(g);
            if (m >= 64) {
                CHECK(L > 0 && sp == 32, "collection of %d not indexed", m);
                long k = (m + sp - 1) / sp; int want[64], w = 0;
                while (k > 1) { want[w++] = k; k = (k + sp - 1) / sp; }
                CHECK(L == w, "collection levels %d != %d", L, w);
                for (int q = 0; q < L; q++) {
                    CHECK(tg_geom_multi_index_level_num_rects(g, q) == want[w - 1 - q], "collection level %d", q);
                    for (int i = 0; q + 1 < L && i < want[w - 1 - q]; i++) for (int j = i * sp; j < (i + 1) * sp && j < want[w - 2 - q]; j++)
                        CHECK(rcov(tg_geom_multi_index_level_rect(g, q, i), tg_geom_multi_index_level_rect(g, q + 1, j)), "collection level %d rect %d", q, i);
                }
                for (int i = 0; i < m; i++) { bool ok = false; for (int j = 0; j < want[0] && !ok; j++) ok = rcov(tg_geom_multi_index_level_rect(g, L - 1, j), (rect){ p[i], p[i] }); CHECK(ok, "point %d in no bottom rect", i); }
            } else CHECK(L == 0, "small collection indexed");
            tg_geom_free(g);
        }
    }
    finish(0);
}
