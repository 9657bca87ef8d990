#include "common.h"
#include "shape.h"
// executable contract of tg_segment_intersects_segment
static void one(seg a, seg b, bool ints) {
    casef("segment (%.17g %.17g,%.17g %.17g) with (%.17g %.17g,%.17g %.17g)", a.a.x, a.a.y, a.b.x, a.b.y, b.a.x, b.a.y, b.b.x, b.b.y);
    bool r = tg_segment_intersects_segment(a, b);
    if (ints) {
        bool w = seg_x_seg(a.a, a.b, b.a, b.b);
        eval(w);
        CHECK(r == w, "intersects = %d, exact answer %d", r, w);
        CHECK(tg_segment_intersects_segment(b, a) == r, "depends on the order of the segments");
        seg ar = { a.b, a.a }, br = { b.b, b.a };
        CHECK(tg_segment_intersects_segment(ar, b) == r && tg_segment_intersects_segment(a, br) == r && tg_segment_intersects_segment(ar, br) == r, "depends on the order of the endpoints");
    } else eval(r);
    if (dmax(a.a.x, a.b.x) < dmin(b.a.x, b.b.x) || dmax(b.a.x, b.b.x) < dmin(a.a.x, a.b.x) || dmax(a.a.y, a.b.y) < dmin(b.a.y, b.b.y) || dmax(b.a.y, b.b.y) < dmin(a.a.y, a.b.y))
        CHECK(!r, "bounds are disjoint but segments intersect");
    if (pe(a.a, b.a) || pe(a.a, b.b) || pe(a.b, b.a) || pe(a.b, b.b)) CHECK(r, "shared endpoint but no intersection");
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    int N = 4;
    pt g[16]; int k = 0;
    for (int x = 0; x < N; x++) for (int y = 0; y < N; y++) g[k++] = P(x, y);
    for (int a = 0; a < k; a++) for (int b = 0; b < k; b++) for (int c = 0; c < k; c++) { arm(); for (int d = 0; d < k; d++) one((seg){ g[a], g[b] }, (seg){ g[c], g[d] }, true); }
    while (time_left()) {
        arm();
        for (int it = 0; it < 2000; it++) {
            int R = rn(3) == 0 ? 3 : rn(2) ? 50 : 1 << 20;
            pt p[4]; for (int i = 0; i < 4; i++) p[i] = P(rr(-R, R), rr(-R, R));
            switch (rn(8)) {
            case 0: p[2] = p[rn(2)]; break;
            case 1: { int t = rr(-3, 4); p[2] = P(p[0].x + (p[1].x - p[0].x) * t, p[0].y + (p[1].y - p[0].y) * t); break; }
            case 2: { double dx = rr(-9, 9), dy = rr(-9, 9); for (int i = 1; i < 4; i++) { int t = rr(-4, 4); p[i] = P(p[0].x + dx * t, p[0].y + dy * t); } break; }
            case 3: p[1] = p[0]; break;
            case 4: p[1].y = p[0].y; p[2].y = p[0].y; if (rn(2)) p[3].y = p[0].y; break;
            case 5: p[1].x = p[0].x; p[2].x = p[0].x; if (rn(2)) p[3].x = p[0].x; break;
            case 6: { // point of the first segment on a lattice multiple
                p[1] = P(p[0].x + 2 * rr(-R / 4 - 1, R / 4 + 1), p[0].y + 2 * rr(-R / 4 - 1, R / 4 + 1)); p[2] = P((p[0].x + p[1].x) / 2, (p[0].y + p[1].y) / 2); break; }
            }
            one((seg){ p[0], p[1] }, (seg){ p[2], p[3] }, true);
            pt q[4]; for (int i = 0; i < 4; i++) q[i] = rn(3) ? P(rbits(), rbits()) : P(p[i].x * 0.1, p[i].y * 1e-5);
            if (rn(4) == 0) q[2] = q[rn(2)];
            if (rn(4) == 0) q[3].y = q[0].y;
            if (rn(4) == 0) q[1].x = q[0].x;
            one((seg){ q[0], q[1] }, (seg){ q[2], q[3] }, false);
        }
    }
    finish(0);
}
