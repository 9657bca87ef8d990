#include "common.h"
#include "shape.h"
#include "gen.h"
// point in polygon against exact integer reference, every index, ring / polygon / geometry representations
static pt *ring; static int nr; static pt hole[4][48]; static int hn[4], nh;   // nh disjoint holes
static int want(pt q) {  // 1 interior 0 boundary -1 outside
    int r = pip_ref(ring, nr, q);
    for (int k = 0; k < nh; k++) {
        int h = pip_ref(hole[k], hn[k], q);
        if (h == 0) return r < 0 ? -1 : 0;   // on the hole edge: boundary
        if (h > 0) return -1;
    }
    return r;
}
static void ask(const struct tg_geom *g, pt q, const char *rep, const char *ix) {
    int w = want(q);
    struct tg_geom *p = tg_geom_new_point(q);
    bool cov = tg_geom_covers(g, p), con = tg_geom_contains(g, p), in = tg_geom_intersects(p, g), ixy = tg_geom_intersects_xy(g, q.x, q.y);
    bool cby = tg_geom_coveredby(p, g), wi = tg_geom_within(p, g), to = tg_geom_touches(g, p);
    tg_geom_free(p);
    eval(w >= 0);
    CHECK(cov == (w >= 0) && cby == cov, "%s index %s: covers(point %g %g) = %d/%d, want %d", rep, ix, q.x, q.y, cov, cby, w >= 0);
    CHECK(con == (w > 0) && wi == con, "%s index %s: contains(point %g %g) = %d/%d, want %d", rep, ix, q.x, q.y, con, wi, w > 0);
    CHECK(in == (w >= 0) && ixy == in, "%s index %s: intersects(point %g %g) = %d xy %d, want %d", rep, ix, q.x, q.y, in, ixy, w >= 0);
    CHECK(to == (w == 0), "%s index %s: touches(point %g %g) = %d, want %d", rep, ix, q.x, q.y, to, w == 0);
}
static void shape(int R) {
    casef("ring (%s)", pts_str(ring, nr));
    for (int k = 0; k < nh; k++) caseadd(" hole (%s)", pts_str(hole[k], hn[k]));
    bool dup = rn(2);
    pt *cl = malloc(sizeof(pt) * (nr + 1)); memcpy(cl, ring, sizeof(pt) * nr); cl[nr] = ring[0];
    pt hc[4][49]; for (int k = 0; k < nh; k++) { memcpy(hc[k], hole[k], sizeof(pt) * hn[k]); hc[k][hn[k]] = hole[k][0]; }
    for (int k = 0; k < 3; k++) {
        enum tg_index ix = k == 0 ? TG_NONE : k == 1 ? (rn(2) ? TG_YSTRIPES : tg_index_with_spread(TG_YSTRIPES, rr(2, 6))) : IXS(rr(3, 11));
        struct tg_ring *r = tg_ring_new_ix(cl, nr + dup, ix);
        struct tg_ring *h[4]; for (int j = 0; j < nh; j++) h[j] = tg_ring_new_ix(hc[j], hn[j] + dup, rn(2) ? ix : TG_NONE);
        struct tg_poly *p = tg_poly_new(r, (const struct tg_ring *const *)h, nh);
        struct tg_geom *g = tg_geom_new_polygon(p);
        double z[3] = { 1, 2, 3 };
        struct tg_geom *gz = tg_geom_new_polygon_z(p, z, 3);
        for (int q = 0; q < 40; q++) {
            pt t;
            switch (rn(6)) {
            case 0: t = ring[rn(nr)]; break;
            case 1: { int i = rn(nr); pt a = ring[i], b = ring[(i + 1) % nr]; t = P(floor((a.x + b.x) / 2), floor((a.y + b.y) / 2)); break; }
            case 2: t = P(rr(-R, R), ring[rn(nr)].y); break;
            case 3: t = P(ring[rn(nr)].x, rr(-R, R)); break;
            case 4: if (nh) { int k = rn(nh), i = rn(hn[k]); pt a = hole[k][i], b = hole[k][(i + 1) % hn[k]]; t = rn(2) ? a : P(floor((a.x + b.x) / 2), floor((a.y + b.y) / 2)); break; } // fall through
            default: t = P(rr(-R, R), rr(-R, R));
            }
            ask((struct tg_geom *)p, t, "poly", g_ixname(ix));
            if (!nh && q % 4 == 0) ask((struct tg_geom *)r, t, "ring", g_ixname(ix));
            if (q % 4 == 1) ask(g, t, "geom", g_ixname(ix));
            if (q % 4 == 2) ask(gz, t, "geomz", g_ixname(ix));
        }
        tg_geom_free(gz); tg_geom_free(g); tg_poly_free(p); tg_ring_free(r); for (int j = 0; j < nh; j++) tg_ring_free(h[j]);
    }
    free(cl);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    pt buf[4000]; ring = buf;
    while (time_left()) {
        arm(); nh = 0;
        int kind = rn(6), R;
        if (kind < 3) { R = rr(3, 12); nr = gen_simple(buf, rr(3, 24), R); }
        else if (kind == 3) { R = rr(20, 400); nr = gen_simple(buf, rr(20, 60), R); }
        else if (kind == 4) { R = 3000; nr = gen_star(buf, rr(30, 300), R); if (!simple_ring(buf, nr)) continue; }
        else { R = 100; nr = gen_comb(buf, rr(2, 40), rr(1, 3), rr(1, 30)); if (rn(2)) for (int i = 0; i < nr; i++) { double t = buf[i].x; buf[i].x = buf[i].y; buf[i].y = t; } R = nr * 2; }
        // holes: small simple rings strictly inside and apart from each other
        int wanted = rn(2) ? rr(1, 4) : 0, s = kind >= 4 ? rr(1, 20) : 1;
        if (wanted > 1 && kind < 4 && rn(2)) { s = 1; }
        for (int w = 0; w < wanted; w++) {
            pt h[48]; int n = rn(2) ? gen_simple(h, rr(3, 10), 3) : (h[0] = P(0, 0), h[1] = P(rr(1, 3), 0), h[2] = P(0, rr(1, 3)), 3);
            int tries = 12; bool ok = false;
            while (tries-- && !ok) {
                pt o = P(rr(-R, R), rr(-R, R)), t[48];
                ok = true;
                for (int i = 0; i < n && ok; i++) { t[i] = P(o.x + h[i].x * s, o.y + h[i].y * s); ok = pip_ref(buf, nr, t[i]) > 0; for (int k = 0; k < nh && ok; k++) ok = pip_ref(hole[k], hn[k], t[i]) < 0; }
                for (int k = 0; k < nh && ok; k++) for (int i = 0; i < hn[k] && ok; i++) ok = pip_ref(t, n, hole[k][i]) < 0;
                for (int i = 0; i < n && ok; i++) for (int j = 0; j < nr && ok; j++) ok = !seg_x_seg(t[i], t[(i + 1) % n], buf[j], buf[(j + 1) % nr]);
                for (int k = 0; k < nh && ok; k++) for (int i = 0; i < n && ok; i++) for (int j = 0; j < hn[k] && ok; j++) ok = !seg_x_seg(t[i], t[(i + 1) % n], hole[k][j], hole[k][(j + 1) % hn[k]]);
                if (ok) { memcpy(hole[nh], t, sizeof(pt) * n); hn[nh++] = n; }
            }
        }
        shape(R);
    }
    finish(0);
}
