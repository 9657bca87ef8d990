#include "common.h"
#include "shape.h"
#include "gen.h"
#include "gval.h"
// laws of the spatial predicates
int main(int argc, char **argv) {
    harness_init(argc, argv);
    struct tg_geom *em[8]; int ne = 0;
    em[ne++] = 0; em[ne++] = tg_geom_new_point_empty(); em[ne++] = tg_geom_new_linestring_empty(); em[ne++] = tg_geom_new_polygon_empty();
    em[ne++] = tg_geom_new_multipoint_empty(); em[ne++] = tg_geom_new_multilinestring_empty(); em[ne++] = tg_geom_new_multipolygon_empty(); em[ne++] = tg_geom_new_geometrycollection_empty();
    while (time_left()) {
        arm();
        g_R = rr(3, 12);
        Geo a = v_geo(5), b = v_related(&a);
        struct tg_geom *ga = v_geom(&a, IXS(rn(12))), *gb = rn(8) == 0 ? tg_geom_clone(ga) : v_geom(&b, IXS(rn(12)));
        casef("a=%s b=%s", v_str(ga), v_str(gb));
        bool ix = tg_geom_intersects(ga, gb), co = tg_geom_covers(ga, gb), oc = tg_geom_covers(gb, ga), eq = tg_geom_equals(ga, gb);
        bool ct = tg_geom_contains(ga, gb), tc = tg_geom_contains(gb, ga), to = tg_geom_touches(ga, gb), ot = tg_geom_touches(gb, ga);
        eval(ix);
        CHECK(tg_geom_intersects(gb, ga) == ix, "intersects depends on the argument order: %d then %d", ix, !ix);
        CHECK(tg_geom_disjoint(ga, gb) == !ix, "disjoint is not the negation of intersects (%d)", ix);
        CHECK(tg_geom_within(ga, gb) == tc && tg_geom_within(gb, ga) == ct, "within is not contains with arguments exchanged");
        CHECK(tg_geom_coveredby(ga, gb) == oc && tg_geom_coveredby(gb, ga) == co, "coveredby is not covers with arguments exchanged");
        CHECK(!eq || (co && oc), "equals but covers is %d/%d", co, oc);
        CHECK(!co || ix, "covers but does not intersect");
        CHECK(!ct || ix, "contains but does not intersect");
        (void)to; (void)ot;
        struct tg_geom *e = em[rn(ne)];
        casef("a=%s against null or empty %s", v_str(ga), e ? v_str(e) : "NULL");
        const struct tg_geom *o = rn(3) ? ga : em[rn(ne)];
        for (int k = 0; k < 2; k++) {
            const struct tg_geom *x = k ? e : o, *y = k ? o : e;
            CHECK(!tg_geom_intersects(x, y) && tg_geom_disjoint(x, y) && !tg_geom_covers(x, y) && !tg_geom_coveredby(x, y) && !tg_geom_contains(x, y) && !tg_geom_within(x, y) && !tg_geom_touches(x, y) && !tg_geom_equals(x, y), "a null or empty geometry relates to something");
        }
        tg_geom_free(ga); tg_geom_free(gb);
        // termination and laws on arbitrary, also invalid and non-integer, geometries
        if (rn(3) == 0) {
            g_cmode = rn(4); if (g_cmode == 2) g_cmode = 1;
            M *m = gen(2, 0), *n = gen(2, 0); B w = { 0 }; o_sty = 0; o_wkt(&w, m, 1); b_s(&w, "  b="); o_wkt(&w, n, 1); casef("any: a=%.6000s", (char *)w.d); free(w.d);
            ga = mk(m, IXS(rn(12))); gb = mk(n, IXS(rn(12)));
            ix = tg_geom_intersects(ga, gb);
            CHECK(tg_geom_disjoint(ga, gb) == !ix, "disjoint is not the negation of intersects");
            CHECK(tg_geom_within(ga, gb) == tg_geom_contains(gb, ga) && tg_geom_coveredby(ga, gb) == tg_geom_covers(gb, ga), "within/coveredby");
            tg_geom_equals(ga, gb); tg_geom_touches(ga, gb);
            tg_geom_free(ga); tg_geom_free(gb); m_free(m); m_free(n);
        }
        v_free(&a); v_free(&b);
    }
    finish(0);
}
