#include "common.h"
#include "shape.h"
#include "gen.h"
// child search of collections
static int got[5000], ng, stop_at; static bool after; static const struct tg_geom *G; static const char *bad;
static bool cb(const struct tg_geom *c, int i, void *u) {
    (void)u; if (stop_at >= 0 && ng > stop_at) after = true;
    if (i < 0) bad = "negative index";
    if (tg_geom_typeof(G) == TG_GEOMETRYCOLLECTION && c != tg_geom_geometry_at(G, i)) bad = "child is not the one at its index";
    if (tg_geom_typeof(G) == TG_MULTILINESTRING && (const void *)tg_geom_line(c) != (const void *)tg_geom_line_at(G, i)) bad = "line is not the one at its index";
    if (tg_geom_typeof(G) == TG_MULTIPOLYGON && tg_geom_poly(c) != tg_geom_poly_at(G, i)) bad = "polygon is not the one at its index";
    if (tg_geom_typeof(G) == TG_MULTIPOINT && !pe(tg_geom_point(c), tg_geom_point_at(G, i))) bad = "point is not the one at its index";
    if (ng < 5000) got[ng++] = i;
    return stop_at < 0 || ng <= stop_at;
}
static int ci(const void *a, const void *b) { return *(int *)a - *(int *)b; }
static bool rx(rect a, rect b) { return a.min.x <= b.max.x && b.min.x <= a.max.x && a.min.y <= b.max.y && b.min.y <= a.max.y; }
int main(int argc, char **argv) {
    harness_init(argc, argv);
    while (time_left()) {
        arm();
        int type = TG_MULTIPOINT + rn(4), n = rn(4) ? rr(1, 40) : rn(3) ? rr(60, 260) : rr(1000, 4000);
        int mode = rn(6); double sc = mode == 3 ? 1e300 : mode == 4 ? 1e-310 : 1;
        rect cr[4200]; struct tg_geom *g = 0;
        static pt p[4200]; struct tg_line *l[4200]; struct tg_poly *po[4200]; struct tg_geom *cg[4200];
        for (int i = 0; i < n; i++) {
            if (mode == 5) p[i] = P(rbits(), rbits()); else p[i] = P(rr(-100, 100) * sc, mode == 1 ? 5 : rr(-100, 100) * sc);
            if (mode == 0 && rn(2)) p[i] = P(rr(-3, 3) / 3.0, rr(-3, 3) / 7.0);
            pt q = mode == 5 ? P(rbits(), rbits()) : P(p[i].x + rr(-4, 4) * sc, p[i].y + rr(-4, 4) * sc);
            cr[i] = (rect){ P(dmin(p[i].x, q.x), dmin(p[i].y, q.y)), P(dmax(p[i].x, q.x), dmax(p[i].y, q.y)) };
            if (type == TG_MULTIPOINT) cr[i] = (rect){ p[i], p[i] };
            pt s[5] = { cr[i].min, P(cr[i].max.x, cr[i].min.y), cr[i].max, P(cr[i].min.x, cr[i].max.y), cr[i].min };
            if (type == TG_MULTILINESTRING) { pt s2[2] = { p[i], q }; l[i] = tg_line_new(s2, 2); }
            if (type == TG_MULTIPOLYGON) { struct tg_ring *r = tg_ring_new(s, 5); po[i] = tg_poly_new(r, 0, 0); tg_ring_free(r); }
            if (type == TG_GEOMETRYCOLLECTION) {
                int k = rn(4);
                if (k == 0) { cg[i] = tg_geom_new_point(p[i]); cr[i] = (rect){ p[i], p[i] }; }
                else if (k == 1) { pt s2[2] = { p[i], q }; struct tg_line *ll = tg_line_new(s2, 2); cg[i] = tg_geom_new_linestring(ll); tg_line_free(ll); }
                else if (k == 2) { pt s2[2] = { p[i], q }; cg[i] = tg_geom_new_multipoint(s2, 2); }
                else { struct tg_ring *r = tg_ring_new(s, 5); struct tg_poly *pp = tg_poly_new(r, 0, 0); cg[i] = tg_geom_new_polygon(pp); tg_ring_free(r); tg_poly_free(pp); }
            }
        }
        if (type == TG_MULTIPOINT) g = tg_geom_new_multipoint(p, n);
        else if (type == TG_MULTILINESTRING) { g = tg_geom_new_multilinestring((const struct tg_line *const *)l, n); for (int i = 0; i < n; i++) tg_line_free(l[i]); }
        else if (type == TG_MULTIPOLYGON) { g = tg_geom_new_multipolygon((const struct tg_poly *const *)po, n); for (int i = 0; i < n; i++) tg_poly_free(po[i]); }
        else { g = tg_geom_new_geometrycollection((const struct tg_geom *const *)cg, n); for (int i = 0; i < n; i++) tg_geom_free(cg[i]); }
        if (rn(3) == 0) { struct tg_geom *c = tg_geom_copy(g); tg_geom_free(g); g = c; }
        G = g;
        for (int rep = 0; rep < 20; rep++) {
            int a = rn(n), b = rn(n); rect q;
            switch (rn(4)) {
            case 0: q = cr[a]; break;
            case 1: q = (rect){ P(cr[a].max.x, cr[a].max.y), P(cr[a].max.x, cr[a].max.y) }; break;
            case 2: q = (rect){ P(dmin(cr[a].min.x, cr[b].min.x), dmin(cr[a].min.y, cr[b].min.y)), P(dmax(cr[a].min.x, cr[b].min.x), dmax(cr[a].min.y, cr[b].min.y)) }; break;
            default: { pt u = mode == 5 ? P(rbits(), rbits()) : P(rr(-110, 110) * sc, rr(-110, 110) * sc); q = (rect){ u, u }; if (mode != 5) q.max = P(u.x + rr(0, 30) * sc, u.y + rr(0, 30) * sc); } }
            static int want[5000]; int nw = 0;
            for (int i = 0; i < n; i++) if (rx(cr[i], q)) want[nw++] = i;
            casef("type %d with %d children (mode %d, seed-determined; first child rect %.17g %.17g,%.17g %.17g), rect %.17g %.17g,%.17g %.17g", type, n, mode, cr[0].min.x, cr[0].min.y, cr[0].max.x, cr[0].max.y, q.min.x, q.min.y, q.max.x, q.max.y);
            eval(nw > 0 && nw < n);
            stop_at = -1; ng = 0; after = false; bad = 0;
            tg_geom_search(g, q, cb, 0);
            CHECK(!bad, "%s", bad);
            qsort(got, ng, sizeof(int), ci);
            for (int i = 1; i < ng; i++) CHECK(got[i] != got[i - 1], "child %d reported twice", got[i]);
            for (int i = 0; i < nw || i < ng; i++) {
                if (i >= ng || (i < nw && got[i] > want[i])) fail("child %d intersects but is not reported", want[i]);
                if (i >= nw || got[i] < want[i]) fail("child %d is reported but does not intersect", got[i]);
            }
            if (nw > 0) { stop_at = rn(nw); ng = 0; tg_geom_search(g, q, cb, 0); CHECK(!after && ng == stop_at + 1, "called back %d times although stopped at call %d", ng, stop_at + 1); }
        }
        tg_geom_free(g);
        // what is not a collection has no children
        g_cmode = 0; M *m = gen_t(rr(1, 3), 0, 0); g = mk(m, TG_NONE); stop_at = -1; ng = 0;
        tg_geom_search(g, (rect){ P(-1e9, -1e9), P(1e9, 1e9) }, cb, 0); CHECK(ng == 0, "a geometry without children reports some");
        tg_geom_free(g); m_free(m);
    }
    tg_geom_search(0, (rect){ P(-1e9, -1e9), P(1e9, 1e9) }, cb, 0);
    finish(0);
}
