#include "common.h"
static double V[] = { -3, -1, 0, 1, 2.5, 1e300, -1e300 };
static bool ref_ii(rect a, rect b) {
    bool xs = !(a.max.x < b.min.x) && !(b.max.x < a.min.x);
    bool ys = !(a.max.y < b.min.y) && !(b.max.y < a.min.y);
    return xs && ys;
}
static double mn(double a, double b) { return a < b ? a : b; }
static double mx(double a, double b) { return a > b ? a : b; }
static bool req(rect a, rect b) { return a.min.x == b.min.x && a.min.y == b.min.y && a.max.x == b.max.x && a.max.y == b.max.y; }
static void one(rect a, rect b, pt p) {
    casef("a=(%g %g,%g %g) b=(%g %g,%g %g) p=(%g %g)", a.min.x, a.min.y, a.max.x, a.max.y, b.min.x, b.min.y, b.max.x, b.max.y, p.x, p.y);
    bool r = ref_ii(a, b);
    eval(r);
    CHECK(tg_rect_intersects_rect(a, b) == r, "tg_rect_intersects_rect != %d", r);
    CHECK(tg_rect_intersects_rect(b, a) == r, "tg_rect_intersects_rect swapped != %d", r);
    bool c = p.x >= a.min.x && p.x <= a.max.x && p.y >= a.min.y && p.y <= a.max.y;
    CHECK(tg_rect_intersects_point(a, p) == c, "tg_rect_intersects_point != %d", c);
    CHECK(tg_point_intersects_rect(p, a) == c, "tg_point_intersects_rect != %d", c);
    rect u = { { mn(a.min.x, b.min.x), mn(a.min.y, b.min.y) }, { mx(a.max.x, b.max.x), mx(a.max.y, b.max.y) } };
    CHECK(req(tg_rect_expand(a, b), u), "tg_rect_expand");
    rect v = { { mn(a.min.x, p.x), mn(a.min.y, p.y) }, { mx(a.max.x, p.x), mx(a.max.y, p.y) } };
    CHECK(req(tg_rect_expand_point(a, p), v), "tg_rect_expand_point");
    rect q = tg_point_rect(p);
    CHECK(q.min.x == p.x && q.min.y == p.y && q.max.x == p.x && q.max.y == p.y, "tg_point_rect");
    seg s = { b.max, p };
    rect sr = tg_segment_rect(s);
    rect se = { { mn(s.a.x, s.b.x), mn(s.a.y, s.b.y) }, { mx(s.a.x, s.b.x), mx(s.a.y, s.b.y) } };
    CHECK(req(sr, se), "tg_segment_rect");
    seg s2 = { p, b.max };
    CHECK(req(tg_segment_rect(s2), se), "tg_segment_rect reversed");
    CHECK(tg_rect_intersects_rect(a, b) == r, "not a function of the arguments");
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    // exhaustive integer lattice 0..3 pairs
    rect rs[200]; int n = 0;
    for (int x0 = 0; x0 < 4; x0++) for (int x1 = x0; x1 < 4; x1++) for (int y0 = 0; y0 < 4; y0++) for (int y1 = y0; y1 < 4; y1++)
        rs[n++] = (rect){ P(x0, y0), P(x1, y1) };
    for (int i = 0; i < n; i++) { arm(); for (int j = 0; j < n; j++) one(rs[i], rs[j], P(rr(0, 3), rr(0, 3))); }
    while (time_left()) {
        arm();
        for (int k = 0; k < 1000; k++) {
            double c[10];
            for (int i = 0; i < 10; i++) c[i] = rn(3) ? V[rn(7)] : rn(2) ? rbits() : rr(-5, 5) / 4.0;
            rect a = { { mn(c[0], c[1]), mn(c[2], c[3]) }, { mx(c[0], c[1]), mx(c[2], c[3]) } };
            rect b = { { mn(c[4], c[5]), mn(c[6], c[7]) }, { mx(c[4], c[5]), mx(c[6], c[7]) } };
            if (rn(4) == 0) b.min.x = a.max.x, b.max.x = mx(b.min.x, b.max.x);
            one(a, b, P(rn(3) ? c[8] : a.min.x, rn(3) ? c[9] : a.max.y));
        }
    }
    finish(0);
}
