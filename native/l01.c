#include "common.h"
#include "shape.h"
static bool req(rect a, rect b) { return a.min.x == b.min.x && a.min.y == b.min.y && a.max.x == b.max.x && a.max.y == b.max.y; }
static rect mbr(const pt *p, int n) { rect r = { p[0], p[0] }; for (int i = 1; i < n; i++) { r.min.x = dmin(r.min.x, p[i].x); r.min.y = dmin(r.min.y, p[i].y); r.max.x = dmax(r.max.x, p[i].x); r.max.y = dmax(r.max.y, p[i].y); } return r; }
static bool zseg(seg s) { return s.a.x == 0 && s.a.y == 0 && s.b.x == 0 && s.b.y == 0; }
static const int BAD[] = { -1, -2, -2147483647 - 1, 2147483647, 1 << 20 };

static void check_line(const pt *p, int n, enum tg_index ix) {
    casef("LINE ix=%s n=%d: %s", g_ixname(ix), n, pts_str(p, n));
    pt *c = malloc(sizeof(pt) * (n ? n : 1)); memcpy(c, p, sizeof(pt) * n);      // exact-size heap copy: over-reads trap
    struct tg_line *l = tg_line_new_ix(c, n, ix);
    free(c);
    CHECK(l, "tg_line_new_ix returned NULL");
    eval(n >= 2);
    CHECK(tg_line_num_points(l) == n, "num_points %d", tg_line_num_points(l));
    const pt *q = tg_line_points(l);
    for (int i = 0; i < n; i++) {
        CHECK(!memcmp(q + i, p + i, sizeof(pt)), "points()[%d]", i);
        pt a = tg_line_point_at(l, i);
        CHECK(!memcmp(&a, p + i, sizeof(pt)), "point_at(%d)", i);
    }
    int ns = n < 2 ? 0 : n - 1;
    CHECK(tg_line_num_segments(l) == ns, "num_segments %d != %d", tg_line_num_segments(l), ns);
    for (int i = 0; i < ns; i++) {
        seg s = tg_line_segment_at(l, i);
        CHECK(pe(s.a, p[i]) && pe(s.b, p[i + 1]), "segment_at(%d)", i);
    }
    for (int i = 0; i < 7; i++) {
        int k = i < 5 ? BAD[i] : i == 5 ? n : n + 1, m = i < 5 ? BAD[i] : i == 5 ? ns : ns + 1;
        pt a = tg_line_point_at(l, k);
        CHECK(a.x == 0 && a.y == 0, "point_at(%d) out of range not zero", k);
        CHECK(zseg(tg_line_segment_at(l, m)), "segment_at(%d) out of range not zero", m);
    }
    if (n >= 2) {
        CHECK(req(tg_line_rect(l), mbr(p, n)), "rect");
        CHECK(req(tg_geom_rect((struct tg_geom *)l), mbr(p, n)), "geom rect");
    }
    CHECK(tg_line_memsize(l) > 0, "memsize");
    tg_line_free(l);
}
static void check_ring(const pt *p0, int n0, bool close, bool simple, enum tg_index ix) {
    pt *p = malloc(sizeof(pt) * (n0 + 1)); memcpy(p, p0, sizeof(pt) * n0);
    int n = n0;
    if (close && n0 > 0) p[n++] = p[0];
    pt *c = malloc(sizeof(pt) * (n ? n : 1)); memcpy(c, p, sizeof(pt) * n);
    casef("RING ix=%s n=%d: %s", g_ixname(ix), n, pts_str(p, n));
    struct tg_ring *r = tg_ring_new_ix(c, n, ix);
    free(c);
    CHECK(r, "tg_ring_new_ix returned NULL");
    eval(n >= 3);
    CHECK(tg_ring_num_points(r) == n, "num_points %d", tg_ring_num_points(r));
    const pt *q = tg_ring_points(r);
    for (int i = 0; i < n; i++) {
        CHECK(!memcmp(q + i, p + i, sizeof(pt)), "points()[%d]", i);
        pt a = tg_ring_point_at(r, i);
        CHECK(!memcmp(&a, p + i, sizeof(pt)), "point_at(%d)", i);
    }
    int ns = n < 3 ? 0 : pe(p[0], p[n - 1]) ? n - 1 : n;
    CHECK(tg_ring_num_segments(r) == ns, "num_segments %d != %d", tg_ring_num_segments(r), ns);
    for (int i = 0; i < ns; i++) {
        seg s = tg_ring_segment_at(r, i);
        CHECK(pe(s.a, p[i]) && pe(s.b, p[(i + 1) % n]), "segment_at(%d)", i);
    }
    for (int i = 0; i < 7; i++) {
        int k = i < 5 ? BAD[i] : i == 5 ? n : n + 1, m = i < 5 ? BAD[i] : i == 5 ? ns : ns + 1;
        pt a = tg_ring_point_at(r, k);
        CHECK(a.x == 0 && a.y == 0, "point_at(%d) out of range not zero", k);
        CHECK(zseg(tg_ring_segment_at(r, m)), "segment_at(%d) out of range not zero", m);
    }
    if (n >= 3) {
        rect b = mbr(p, n);
        CHECK(req(tg_ring_rect(r), b), "rect");
        CHECK(req(tg_geom_rect((struct tg_geom *)r), b), "geom rect");
        CHECK(req(tg_poly_rect((struct tg_poly *)r), b), "poly rect");
    }
    if (simple) {
        i128 a2 = area2(p0, n0);
        CHECK(tg_ring_clockwise(r) == (a2 < 0), "clockwise, twice signed area %lld", (long long)a2);
        CHECK(tg_poly_clockwise((struct tg_poly *)r) == (a2 < 0), "poly clockwise");
        double want = (double)(long long)(a2 < 0 ? -a2 : a2) / 2;
        CHECK(tg_ring_area(r) == want, "area %.17g != %.17g", tg_ring_area(r), want);
        CHECK(tg_ring_convex(r) == convex_ref(p0, n0), "convex != %d", convex_ref(p0, n0));
        double per = 0;
        for (int i = 0; i < n0; i++) per += hypot(p0[i].x - p0[(i + 1) % n0].x, p0[i].y - p0[(i + 1) % n0].y);
        CHECK(fabs(tg_ring_perimeter(r) - per) <= 1e-9 * per, "perimeter");
    } else if (n >= 3) {
        // winding and area of any closed integer series by the shoelace formula
        int m = pe(p[0], p[n - 1]) ? n - 1 : n;
        i128 a2 = area2(p, m);
        CHECK(tg_ring_area(r) == (double)(long long)(a2 < 0 ? -a2 : a2) / 2, "area");
        CHECK(tg_ring_clockwise(r) == (a2 < 0), "clockwise");
    }
    tg_ring_free(r); free(p);
}
static void check_poly(void) {
    int nh = rn(5);
    struct tg_ring *ex, *h[5]; pt p[64];
    int n = gen_simple(p, rr(3, 12), 50);
    casef("POLY nholes=%d ext: %s", nh, pts_str(p, n));
    ex = tg_ring_new(p, n);
    for (int i = 0; i < nh; i++) { int m = gen_simple(p, rr(3, 8), 10); h[i] = tg_ring_new(p, m); }
    struct tg_poly *g = tg_poly_new(ex, (const struct tg_ring *const *)h, nh);
    CHECK(g, "NULL");
    CHECK(tg_poly_exterior(g) == ex, "exterior is not the given ring");
    CHECK(tg_poly_num_holes(g) == nh, "num_holes");
    for (int i = 0; i < nh; i++) CHECK(tg_poly_hole_at(g, i) == h[i], "hole_at(%d)", i);
    for (int i = 0; i < 5; i++) CHECK(!tg_poly_hole_at(g, BAD[i]), "hole_at out of range");
    CHECK(!tg_poly_hole_at(g, nh), "hole_at(nholes)");
    CHECK(req(tg_poly_rect(g), tg_ring_rect(ex)), "poly rect");
    CHECK(tg_poly_clockwise(g) == tg_ring_clockwise(ex), "poly clockwise");
    eval(nh > 0);
    tg_ring_free(ex);
    for (int i = 0; i < nh; i++) tg_ring_free(h[i]);
    CHECK(tg_poly_num_holes(g) == nh, "num_holes after free");
    tg_poly_free(g);
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    // null arguments
    CHECK(tg_ring_num_points(0) == 0 && tg_ring_num_segments(0) == 0 && tg_line_num_points(0) == 0 && tg_line_num_segments(0) == 0, "null");
    CHECK(!tg_ring_points(0) && !tg_line_points(0) && !tg_poly_exterior(0) && tg_poly_num_holes(0) == 0 && !tg_poly_hole_at(0, 0), "null");
    CHECK(zseg(tg_ring_segment_at(0, 0)) && zseg(tg_line_segment_at(0, 0)), "null");
    // exhaustive: all rings of 3..5 points on a 3x3 grid (and with repeated points)
    pt p[9000];
    for (int n = 0; n <= 5; n++) {
        long tot = 1; for (int i = 0; i < n; i++) tot *= 9;
        for (long k = 0; k < tot; k++) {
            if (n == 5 && k % 3 != (long)(g_seed % 3)) continue;
            long z = k; for (int i = 0; i < n; i++) { p[i] = P(z % 3 + 1, z / 3 % 3 - 1); z /= 9; }
            bool s = simple_ring(p, n);
            enum tg_index ix = IXS(k);
            check_ring(p, n, true, s, ix); check_ring(p, n, false, s, ix);
            if (k % 7 == 0) check_line(p, n, ix);
            if (k % 256 == 0) arm();
        }
    }
    // insert repeated consecutive points and collinear points in small simple rings
    while (time_left()) {
        arm();
        int mode = rn(6), n;
        if (mode < 2) n = gen_simple(p, rr(3, 14), mode ? 6 : 1000);
        else if (mode == 2) n = gen_star(p, rr(5, 300), 100000);
        else if (mode == 3) n = gen_comb(p, rr(2, 60), rr(1, 5), 50);
        else if (mode == 4) { n = rr(3, 120); for (int i = 0; i < n; i++) p[i] = P(rr(-9, 9), rr(-9, 9)); }
        else { // convex integer polygon from a parabola
            int m = rr(2, 60); n = 0; for (int i = -m; i <= m; i++) p[n++] = P(i, (double)i * i);
            if (rn(2)) for (int i = 0; i < n / 2; i++) { pt t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; }
            int r = rn(n); pt t[200]; for (int i = 0; i < n; i++) t[i] = p[(i + r) % n]; memcpy(p, t, sizeof(pt) * n);
        }
        bool s = mode == 5 || mode < 2 || (n < 80 && simple_ring(p, n));
        int dup = rn(3) == 0 ? rn(3) + 1 : 0;
        enum tg_index ix = IXS(rn(12));
        if (dup && n > 3) { // repeat consecutive points: same simple ring as a point set
            pt b[9000]; int m = 0;
            for (int i = 0; i < n; i++) { b[m++] = p[i]; if (rn(4) == 0) b[m++] = p[i]; }
            pt ref[9000]; memcpy(ref, p, sizeof(pt) * n);
            // convex_ref on the repeated list sees zero edges; judge with the deduplicated list
            casef("RING with repeats ix=%s: %s", g_ixname(ix), pts_str(b, m));
            struct tg_ring *r = tg_ring_new_ix(b, m, ix);
            if (s) { CHECK(tg_ring_convex(r) == convex_ref(ref, n), "convex with repeated points"); CHECK(tg_ring_clockwise(r) == (area2(ref, n) < 0), "clockwise with repeated points"); }
            tg_ring_free(r); eval(true);
            check_ring(b, m, true, false, ix);
        }
        check_ring(p, n, rn(2), s, ix);
        check_line(p, n, ix);
        if (rn(4) == 0) check_poly();
        if (rn(4) == 0) { for (int i = 0; i < n; i++) p[i] = P(rbits(), rbits()); check_line(p, n, ix); }
    }
    finish(0);
}
