#include "common.h"
#include "shape.h"
#include "gen.h"
#include "gval.h"
// the same shape in every representation relates alike
static unsigned rel(const struct tg_geom *a, const struct tg_geom *b) { return tg_geom_intersects(a, b) | tg_geom_covers(a, b) << 1 | tg_geom_contains(a, b) << 2 | tg_geom_touches(a, b) << 3 | tg_geom_coveredby(a, b) << 4 | tg_geom_within(a, b) << 5 | tg_geom_disjoint(a, b) << 6; }
static const char *rn_[] = { "geometry", "bare", "with z/m", "one-member collection", "feature", "one-member multi" };
int main(int argc, char **argv) {
    harness_init(argc, argv);
    while (time_left()) {
        arm();
        g_R = rr(3, 12);
        Geo a = v_geo(1), b = v_related(&a); Geo b1 = b; 
        struct tg_geom *gb = rn(2) ? v_geom1(b1.part[0], rn(6), IXS(rn(12))) : v_geom(&b, IXS(rn(12)));
        if (rn(4) == 0) { tg_geom_free(gb); gb = v_geom1(a.part[0], rn(6), TG_NONE); }
        enum tg_index ix = IXS(rn(12));
        struct tg_geom *g0 = v_geom1(a.part[0], 0, ix);
        unsigned r0 = rel(g0, gb), q0 = rel(gb, g0);
        for (int rep = 1; rep < 6; rep++) {
            if (rep == 1 && a.part[0]->kind == 0) continue;
            struct tg_geom *g = v_geom1(a.part[0], rep, ix);
            casef("%s as %s against %s (and exchanged)", v_str(g0), rn_[rep], v_str(gb));
            eval(r0 & 1);
            unsigned r = rel(g, gb), q = rel(gb, g);
            CHECK(r == r0, "relations (intersects,covers,contains,touches,coveredby,within,disjoint) %x, want %x", r, r0);
            CHECK(q == q0, "relations as second argument %x, want %x", q, q0);
            tg_geom_free(g);
        }
        // empty geometries relate to nothing, however they are written and wherever the query lies
        {
            static const char *em[] = { "POINT EMPTY", "LINESTRING EMPTY", "POLYGON EMPTY", "MULTIPOINT EMPTY", "MULTILINESTRING EMPTY", "MULTIPOLYGON EMPTY", "GEOMETRYCOLLECTION EMPTY",
                "POINT Z EMPTY", "GEOMETRYCOLLECTION(POINT EMPTY,LINESTRING EMPTY)", "GEOMETRYCOLLECTION(GEOMETRYCOLLECTION EMPTY)", "{\"type\":\"Feature\",\"geometry\":null}",
                "{\"type\":\"FeatureCollection\",\"features\":[]}", "{\"type\":\"Point\",\"coordinates\":[]}", "{\"type\":\"Polygon\",\"coordinates\":[]}" };
            const char *e = em[rn(14)]; struct tg_geom *ge = tg_parse(e, strlen(e)); int k = rr(0, 12), l = rr(0, 12);
            casef("%s against %s, rect -%d..%d", e, v_str(gb), k, l);
            if (!tg_geom_error(ge)) {
                CHECK(!tg_geom_intersects_rect(ge, (rect) { { -k, -k }, { l, l } }), "an empty geometry intersects a rectangle");
                CHECK(!tg_geom_intersects_xy(ge, 0, 0) && !tg_geom_covers_xy(ge, 0, 0) && !tg_geom_intersects_xy(ge, k, l) && !tg_geom_covers_point(ge, P(-k, l)), "an empty geometry covers a point");
                unsigned r = rel(ge, gb), q = rel(gb, ge), r1 = rel(ge, g0), q1 = rel(g0, ge);
                CHECK(r == 64 && q == 64 && r1 == 64 && q1 == 64, "relations of an empty geometry: %x %x %x %x, want only disjoint", r, q, r1, q1);
            }
            tg_geom_free(ge);
        }
        // rectangle and xy queries
        pt u = gip(), v = gip(); if (rn(2)) u = a.part[0]->p[rn(a.part[0]->n)]; if (rn(3) == 0) v = a.part[0]->p[rn(a.part[0]->n)];
        rect q = { P(dmin(u.x, v.x), dmin(u.y, v.y)), P(dmax(u.x, v.x), dmax(u.y, v.y)) };
        struct tg_geom *all[2] = { g0, gb };
        for (int k = 0; k < 2; k++) {
            casef("%s rect %g %g %g %g", v_str(all[k]), q.min.x, q.min.y, q.max.x, q.max.y);
            if (q.min.x < q.max.x && q.min.y < q.max.y) {
                pt s[5] = { q.min, P(q.max.x, q.min.y), q.max, P(q.min.x, q.max.y), q.min };
                struct tg_ring *rg = tg_ring_new_ix(s, 5, TG_NONE); struct tg_poly *p = tg_poly_new(rg, 0, 0); struct tg_geom *gp = tg_geom_new_polygon(p);
                bool w = tg_geom_intersects(all[k], gp);
                CHECK(tg_geom_intersects_rect(all[k], q) == w, "intersects_rect %d, polygon %d", !w, w);
                tg_ring_free(rg); tg_poly_free(p); tg_geom_free(gp);
            }
            struct tg_geom *gp = tg_geom_new_point(u); bool w = tg_geom_intersects(all[k], gp);
            CHECK(tg_geom_intersects_xy(all[k], u.x, u.y) == w, "intersects_xy(%g,%g) %d, point %d", u.x, u.y, !w, w);
            tg_geom_free(gp);
        }
        tg_geom_free(g0); tg_geom_free(gb); v_free(&a); v_free(&b);
    }
    CHECK(!tg_geom_intersects_xy(0, 1, 1) && !tg_geom_intersects_rect(0, (rect){ { 0, 0 }, { 1, 1 } }), "null geometry");
    finish(0);
}
