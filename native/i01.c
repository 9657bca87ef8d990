#include "common.h"
#include "shape.h"
#include "gen.h"
// the same shapes under every index option answer every query alike
#define NK 12
typedef struct { pt p[2100]; int n; pt h[2][40]; int hn[2], nh; int kind; } Sh;   // kind 0 line 1 ring 2 polygon with holes
static double tiny(double v) { return v; }
static double gnum(int mode) {
    switch (mode) { case 0: return rr(-6, 6); case 1: return rr(-40, 40); case 2: return rr(-1000, 1000) / 7.0; case 3: return rbits(); case 4: return ldexp(rr(-9, 9), rr(-1070, 1010)); default: return rr(-3, 3) * 1e8 + rr(0, 3) * 1e-8; }
}
static void gshape(Sh *s, int mode) {
    s->nh = 0; s->kind = rn(3);
    int big = rn(12) == 0 ? 600 : rn(4) == 0 ? 90 : 14;
    if (s->kind == 0) { s->n = rr(2, big); for (int i = 0; i < s->n; i++) s->p[i] = rn(5) == 0 && i ? P(s->p[i - 1].x, gnum(mode)) : P(gnum(mode), gnum(mode)); return; }
    int how = rn(6);
    if (how == 0) s->n = gen_star(s->p, rr(5, big > 14 ? 400 : 24), rr(5, 60));
    else if (how == 1) s->n = gen_comb(s->p, rr(1, 6), rr(1, 3), 9);
    else if (how == 2) { s->n = rr(3, big); for (int i = 0; i < s->n; i++) s->p[i] = P(gnum(mode), gnum(mode)); }     // any polyline, closed
    else s->n = gen_simple(s->p, rr(3, 24), mode == 1 ? 30 : 7);
    if (how != 2) {   // similarity keeps it simple when exact
        double f = mode == 2 ? 1.0 / 8 : mode == 4 ? ldexp(1, rr(-60, 60)) : 1; double ox = rn(3) ? 0 : rr(-5, 5) * f, oy = rn(3) ? 0 : rr(-5, 5) * f;
        for (int i = 0; i < s->n; i++) s->p[i] = P(s->p[i].x * f + ox, s->p[i].y * f + oy);
    }
    if (rn(4)) { s->p[s->n] = s->p[0]; s->n++; }
    if (s->kind == 2) { s->nh = rr(0, 2); for (int k = 0; k < s->nh; k++) { s->hn[k] = gen_simple(s->h[k], rr(3, 12), 6); s->h[k][s->hn[k]] = s->h[k][0]; s->hn[k]++; } }
}
static struct tg_geom *mkshape(const Sh *s, enum tg_index ix) {
    if (s->kind == 0) { struct tg_line *l = tg_line_new_ix(s->p, s->n, ix); return (struct tg_geom *)l; }
    struct tg_ring *r = tg_ring_new_ix(s->p, s->n, ix);
    if (s->kind == 1) return (struct tg_geom *)r;
    struct tg_ring *h[2]; for (int k = 0; k < s->nh; k++) h[k] = tg_ring_new_ix(s->h[k], s->hn[k], ix);
    struct tg_poly *p = tg_poly_new(r, (const struct tg_ring *const *)h, s->nh);
    tg_ring_free(r); for (int k = 0; k < s->nh; k++) tg_ring_free(h[k]);
    return (struct tg_geom *)p;
}
static char *sh_str(const Sh *s) { static char b[2][40000]; static int k; k ^= 1; int o = sprintf(b[k], "%s(%s)", s->kind == 0 ? "LINE" : s->kind == 1 ? "RING" : "POLY", s->n > 150 ? "seeded" : pts_str(s->p, s->n)); for (int i = 0; i < s->nh; i++) o += sprintf(b[k] + o, " hole(%s)", pts_str(s->h[i], s->hn[i])); return b[k]; }
typedef unsigned U;
static U rel(const struct tg_geom *a, const struct tg_geom *b) {
    return tg_geom_intersects(a, b) | tg_geom_covers(a, b) << 1 | tg_geom_contains(a, b) << 2 | tg_geom_touches(a, b) << 3 | tg_geom_equals(a, b) << 4 |
        tg_geom_within(a, b) << 5 | tg_geom_coveredby(a, b) << 6 | tg_geom_disjoint(a, b) << 7;
}
static uint64_t hsum; static int hcnt;
static uint64_t mix(uint64_t x) { x ^= x >> 31; x *= 0x9E3779B97F4A7C15ull; return x ^ x >> 29; }
static bool on_pair(seg a, int ai, seg b, int bi, void *u) { (void)a; (void)b; (void)u; hsum += mix(mix(ai) * 31 + bi); hcnt++; return true; }
static double qx, qy;
static double rd(rect r, int *m, void *u) { (void)m; (void)u; double dx = qx < r.min.x ? r.min.x - qx : qx > r.max.x ? qx - r.max.x : 0, dy = qy < r.min.y ? r.min.y - qy : qy > r.max.y ? qy - r.max.y : 0; return dx > dy ? dx : dy; }
// distance of the segment's bounding rectangle: a lower bound consistent with rd
static double sd(seg s, int *m, void *u) { rect r = { P(dmin(s.a.x, s.b.x), dmin(s.a.y, s.b.y)), P(dmax(s.a.x, s.b.x), dmax(s.a.y, s.b.y)) }; return rd(r, m, u); }
static double last; static bool ordered;
static bool on_near(seg s, double d, int i, void *u) { (void)s; (void)u; if (!(d >= last)) ordered = false; last = d; hsum += mix(i + 7); hcnt++; return true; }
int main(int argc, char **argv) {
    harness_init(argc, argv);
    static Sh a, b;
    while (time_left()) {
        arm();
        int mode = rn(6);
        gshape(&a, mode); gshape(&b, rn(3) ? mode : rn(6));
        if (rn(6) == 0) b = a;
        casef("a=%s b=%s", sh_str(&a), sh_str(&b));
        struct tg_geom *ga = mkshape(&a, TG_NONE), *gb = mkshape(&b, TG_NONE);
        U base = rel(ga, gb), base2 = rel(gb, ga);
        // queries
        pt q[12]; rect qr[6];
        for (int i = 0; i < 12; i++) {
            q[i] = rn(3) ? a.p[rn(a.n)] : P(gnum(mode), gnum(mode));
            if (rn(3) == 0) q[i].x = a.p[rn(a.n)].x; if (rn(3) == 0) q[i].y = a.p[rn(a.n)].y;
            if (rn(6) == 0) q[i] = P(q[i].x / 2 + a.p[0].x / 2, q[i].y / 2 + a.p[0].y / 2);
        }
        for (int i = 0; i < 6; i++) { pt u = q[2 * i], v = q[2 * i + 1]; qr[i] = (rect){ P(dmin(u.x, v.x), dmin(u.y, v.y)), P(dmax(u.x, v.x), dmax(u.y, v.y)) }; }
        U bq[12], br[6], bp[12];
        struct tg_geom *gp[12];
        for (int i = 0; i < 12; i++) { gp[i] = tg_geom_new_point(q[i]); bq[i] = tg_geom_intersects_xy(ga, q[i].x, q[i].y); bp[i] = rel(ga, gp[i]); }
        for (int i = 0; i < 6; i++) br[i] = tg_geom_intersects_rect(ga, qr[i]);
        bool ra = a.kind == 1, la = a.kind == 0, rb = b.kind == 1, lb = b.kind == 0;
        uint64_t bs = 0, bn = 0; int bc = 0, bnc = 0;
        for (int k = 0; k < NK; k++) {
            enum tg_index ia = IXS(k), ib = k ? IXS(rn(NK)) : TG_NONE;
            struct tg_geom *xa = mkshape(&a, ia), *xb = mkshape(&b, ib);
            eval((base & 1) || bq[0]);
            U r1 = rel(xa, xb), r2 = rel(xb, xa);
            CHECK(r1 == base && r2 == base2, "relations (intersects,covers,contains,touches,equals,within,coveredby,disjoint bits) %x/%x with index 0x%x/0x%x, %x/%x without", r1, r2, ia, ib, base, base2);
            for (int i = 0; i < 12; i++) {
                CHECK(tg_geom_intersects_xy(xa, q[i].x, q[i].y) == bq[i], "intersects_xy(%.17g,%.17g) changes with index 0x%x", q[i].x, q[i].y, ia);
                U r = rel(xa, gp[i]); CHECK(r == bp[i], "relations to point %.17g %.17g are %x with index 0x%x, %x without", q[i].x, q[i].y, r, ia, bp[i]);
            }
            for (int i = 0; i < 6; i++) CHECK(tg_geom_intersects_rect(xa, qr[i]) == br[i], "intersects_rect(%.17g %.17g,%.17g %.17g) changes with index 0x%x", qr[i].min.x, qr[i].min.y, qr[i].max.x, qr[i].max.y, ia);
            if (a.kind < 2 && b.kind < 2) {
                hsum = hcnt = 0;
                if (ra && rb) tg_ring_ring_search((void *)xa, (void *)xb, on_pair, 0); else if (ra && lb) tg_ring_line_search((void *)xa, (void *)xb, on_pair, 0); else if (la && lb) tg_line_line_search((void *)xa, (void *)xb, on_pair, 0);
                else tg_ring_line_search((void *)xb, (void *)xa, on_pair, 0);
                if (k == 0) { bs = hsum; bc = hcnt; } else CHECK(bs == hsum && bc == hcnt, "segment search finds %d pairs with index 0x%x/0x%x, %d without", hcnt, ia, ib, bc);
            }
            if (a.kind < 2) {
                hsum = hcnt = 0; qx = q[0].x; qy = q[0].y; last = -INFINITY; ordered = true;
                bool ok = ra ? tg_ring_nearest_segment((void *)xa, rd, sd, on_near, 0) : tg_line_nearest_segment((void *)xa, rd, sd, on_near, 0);
                CHECK(ok, "nearest search failed");
                if (k == 0) { bn = hsum; bnc = hcnt; } else CHECK(bn == hsum && bnc == hcnt, "nearest search reports %d segments with index 0x%x, %d without", hcnt, ia, bnc);
            }
            tg_geom_free(xa); tg_geom_free(xb);
        }
        for (int i = 0; i < 12; i++) tg_geom_free(gp[i]);
        tg_geom_free(ga); tg_geom_free(gb);
    }
    finish(0);
}
