#include "common.h"
#include "shape.h"
#include "gen.h"
#include "gval.h"
// intersects against exact integer point-set intersection
int main(int argc, char **argv) {
    harness_init(argc, argv);
    while (time_left()) {
        arm();
        g_R = rr(3, 14);
        Geo a = v_geo(5), b = rn(2) ? v_related(&a) : v_geo(5);
        struct tg_geom *ga = v_geom(&a, IXS(rn(12))), *gb = v_geom(&b, IXS(rn(12)));
        casef("a=%s b=%s", v_str(ga), v_str(gb));
        bool want = geo_x(&a, &b), got = tg_geom_intersects(ga, gb);
        eval(want && a.np == 1);
        CHECK(got == want, "intersects is %d, want %d", got, want);
        CHECK(tg_geom_intersects(gb, ga) == want, "intersects with arguments exchanged is %d, want %d", !want, want);
        tg_geom_free(ga); tg_geom_free(gb); v_free(&a); v_free(&b);
    }
    finish(0);
}
