#include "common.h"
#include "shape.h"
#include "gen.h"
// segment-pair search: exactly the crossing pairs, once each, in argument order, for every index combination; stop at will
typedef struct { int a, b; } Pr;
static Pr got[400000]; static int ng; static int stop_at; static const pt *PA, *PB; static int NA_, NB_; static bool badseg; static bool after;
static bool cb(seg a, int ai, seg b, int bi, void *u) {
    (void)u;
    if (stop_at >= 0 && ng > stop_at) after = true;
    if (ai < 0 || bi < 0 || ai >= NA_ || bi >= NB_ || !pe(a.a, PA[ai]) || !pe(a.b, PA[ai + 1]) || !pe(b.a, PB[bi]) || !pe(b.b, PB[bi + 1])) badseg = true;
    if (ng < 400000) got[ng++] = (Pr){ ai, bi };
    return stop_at < 0 || ng <= stop_at;
}
static int cmpp(const void *x, const void *y) { const Pr *a = x, *b = y; return a->a != b->a ? a->a - b->a : a->b - b->b; }
int main(int argc, char **argv) {
    harness_init(argc, argv);
    static pt a[700], b[700]; static Pr want[400000];
    while (time_left()) {
        arm();
        int big = rn(10) == 0 ? 300 : rn(3) == 0 ? 60 : 9, R = big > 60 ? 300 : rr(3, 30);
        int na = rr(2, big), nb = rr(2, big);
        int walk = rn(3);
        for (int i = 0; i < na; i++) a[i] = walk && i ? P(a[i - 1].x + rr(-3, 3), a[i - 1].y + rr(-3, 3)) : P(rr(-R, R), rr(-R, R));
        for (int i = 0; i < nb; i++) b[i] = rn(5) == 0 ? a[rn(na)] : walk && i ? P(b[i - 1].x + rr(-4, 4), b[i - 1].y + rr(-3, 3)) : P(rr(-R, R), rr(-R, R));
        int ka = rn(2), kb = rn(2);     // 1 ring
        if (!ka && kb) { ka = 1; kb = 0; }      // the public API has line/line, ring/line, ring/ring
        NA_ = na - 1; NB_ = nb - 1;
        if (ka && !pe(a[0], a[na - 1])) { a[na] = a[0]; NA_ = na; }
        if (kb && !pe(b[0], b[nb - 1])) { b[nb] = b[0]; NB_ = nb; }
        if (na < 3) { if (ka) { ka = kb = 0; NA_ = na - 1; NB_ = nb - 1; } }
        if (nb < 3 && kb) { kb = 0; NB_ = nb - 1; }
        PA = a; PB = b; int nw = 0;
        for (int i = 0; i < NA_; i++) for (int j = 0; j < NB_; j++) if (seg_x_seg(a[i], a[i + 1], b[j], b[j + 1])) want[nw++] = (Pr){ i, j };
        for (int rep = 0; rep < 6; rep++) {
            enum tg_index ia = IXS(rn(12)), ib = IXS(rn(12));
            casef("%s 0x%x (%s) with %s 0x%x (%s)", ka ? "ring" : "line", ia, na < 200 ? pts_str(a, na) : "seeded", kb ? "ring" : "line", ib, nb < 200 ? pts_str(b, nb) : "seeded");
            void *ga = ka ? (void *)tg_ring_new_ix(a, na, ia) : (void *)tg_line_new_ix(a, na, ia), *gb = kb ? (void *)tg_ring_new_ix(b, nb, ib) : (void *)tg_line_new_ix(b, nb, ib);
            eval(nw > 0);
            for (int pass = 0; pass < 2; pass++) {
                stop_at = pass ? (nw ? rn(nw) : -1) : -1; ng = 0; badseg = after = false;
                if (ka && kb) tg_ring_ring_search(ga, gb, cb, 0); else if (ka) tg_ring_line_search(ga, gb, cb, 0); else tg_line_line_search(ga, gb, cb, 0);
                CHECK(!badseg, "callback got a segment that is not the one at its index in the caller's order");
                if (pass && nw) { CHECK(!after && ng == stop_at + 1, "called back %d times although stopped at call %d", ng, stop_at + 1); continue; }
                qsort(got, ng, sizeof(Pr), cmpp);
                for (int i = 0; i < ng || i < nw; i++) {
                    if (i < ng && i && got[i].a == got[i - 1].a && got[i].b == got[i - 1].b) fail("pair %d,%d reported twice", got[i].a, got[i].b);
                    if (i >= nw || (i < ng && cmpp(got + i, want + i) < 0)) fail("pair %d,%d reported but does not cross", got[i].a, got[i].b);
                    if (i >= ng || cmpp(got + i, want + i) > 0) fail("crossing pair %d,%d not reported", want[i].a, want[i].b);
                }
            }
            if (ka) { tg_ring_free(ga); } else tg_line_free(ga);
            if (kb) tg_ring_free(gb); else tg_line_free(gb);
        }
    }
    finish(0);
}
