#include "common.h"
#include "shape.h"
#include "gen.h"
// nearest-segment iteration
static pt p[3100]; static int NS; static char seen[3100]; static int ng, stop_at; static double last; static const char *bad; static pt q; static int metric;
static double table[3100]; static bool use_more;
static double drect(rect r) {
    double dx = q.x < r.min.x ? r.min.x - q.x : q.x > r.max.x ? q.x - r.max.x : 0, dy = q.y < r.min.y ? r.min.y - q.y : q.y > r.max.y ? q.y - r.max.y : 0;
    return metric == 0 ? dx + dy : metric == 1 ? dmax(dx, dy) : 0;
}
// the partial-step protocol: a first answer may be a lower bound with *more set; the entry is then asked again
static double steps(double d, int *more, bool on) { if (!on) return d; if (*more == 0) { *more = 2; return d / 2; } if (*more == 2) { *more = 1; return d * 0.75; } *more = 0; return d; }
static bool more_r, more_s;
static double drectf(rect r, int *more, void *u) { (void)u; return steps(drect(r), more, more_r); }
static double dseg0(seg s) {
    rect r = { P(dmin(s.a.x, s.b.x), dmin(s.a.y, s.b.y)), P(dmax(s.a.x, s.b.x), dmax(s.a.y, s.b.y)) };
    double d = drect(r);
    if (metric == 2) { unsigned h = (unsigned)(int)(s.a.x * 7 + s.b.y * 13 + s.a.y * 3) % 11; d = h; }     // rect bound 0, arbitrary tie-rich segment distance
    else d += fabs(s.a.x) / 64;       // any distance at least the rectangle's
    return d;
}
static double dsegf(seg s, int *more, void *u) { (void)u; return steps(dseg0(s), more, more_s); }
static double segd(int i) { return dseg0((seg){ p[i], p[i + 1] }); }
static bool it(seg s, double d, int i, void *u) {
    (void)u;
    if (stop_at >= 0 && ng > stop_at) bad = "called after it returned false";
    if (i < 0 || i >= NS) { bad = "index out of range"; return false; }
    if (seen[i]) bad = "segment reported twice";
    seen[i] = 1;
    if (!pe(s.a, p[i]) || !pe(s.b, p[i + 1])) bad = "segment is not the one at its index";
    if (d != segd(i)) bad = "distance is not the segment's";
    if (!(d >= last)) bad = "distances decrease";
    last = d; ng++;
    return stop_at < 0 || ng <= stop_at;
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    while (time_left()) {
        arm();
        int big = rn(8) == 0 ? 3000 : rn(3) == 0 ? 300 : 20, n = rr(2, big);
        double R = rn(2) ? 8 : 500;
        int walk = rn(2);
        for (int i = 0; i < n; i++) p[i] = walk && i ? P(p[i - 1].x + rr(-3, 3), p[i - 1].y + rr(-3, 3)) : P(rr(-R, R), rr(-R, R));
        bool ring = rn(2) && n > 2;
        NS = n - 1; if (ring && !pe(p[0], p[n - 1])) { p[n] = p[0]; NS = n; }
        enum tg_index ix = IXS(rn(12));
        void *g = ring ? (void *)tg_ring_new_ix(p, n, ix) : (void *)tg_line_new_ix(p, n, ix);
        for (int rep = 0; rep < 4; rep++) {
            metric = rn(3); more_r = rn(3) == 0; more_s = rn(3) == 0; q = rn(3) ? P(rr(-R, R), rr(-R, R)) : P(1e6, 3);
            stop_at = rep == 3 ? rn(NS) : -1; ng = 0; last = -INFINITY; bad = 0; memset(seen, 0, NS);
            casef("%s 0x%x metric %d target %g %g stop %d: %s", ring ? "ring" : "line", ix, metric, q.x, q.y, stop_at, n < 200 ? pts_str(p, n) : "seeded");
            long live = g_live;
            bool ok = ring ? tg_ring_nearest_segment(g, drectf, dsegf, it, 0) : tg_line_nearest_segment(g, drectf, dsegf, it, 0);
            eval(n > 30);
            CHECK(!bad, "%s", bad);
            CHECK(ok, "returned false with memory available");
            CHECK(ng == (stop_at >= 0 ? stop_at + 1 : NS), "%d segments reported, want %d", ng, stop_at >= 0 ? stop_at + 1 : NS);
            CHECK(g_live == live, "leak");
            if (rn(4) == 0) {     // memory runs out at some allocation: false, and what was reported is still in order
                stop_at = -1; ng = 0; last = -INFINITY; bad = 0; memset(seen, 0, NS);
                long a0 = g_allocs; g_fail_at = a0 + rn(3); caseadd(" fail at %ld", g_fail_at - a0);
                ok = ring ? tg_ring_nearest_segment(g, drectf, dsegf, it, 0) : tg_line_nearest_segment(g, drectf, dsegf, it, 0);
                bool hit = g_allocs > g_fail_at; g_fail_at = -1;
                CHECK(!bad, "%s", bad);
                CHECK(ok == !hit, "returned %d although an allocation %s", ok, hit ? "failed" : "did not fail");
                if (ok) CHECK(ng == NS, "%d segments reported, want %d", ng, NS);
                CHECK(g_live == live, "leak after failure");
            }
        }
        if (ring) tg_ring_free(g); else tg_line_free(g);
    }
    finish(0);
}
