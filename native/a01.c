#include "common.h"
#include "shape.h"
#include "gen.h"
// accessors: totality, bounds, structure, rectangle
static bool zp(pt p) { return p.x == 0 && p.y == 0; }
static bool zr(rect r) { return zp(r.min) && zp(r.max); }
static int bad_ix(int n) { static const int v[] = { -1, -2, -2147483647 - 1, 2147483647, 1 << 30, 65536, 1 << 29, 1 << 28, -65536 }; int k = rn(12); return k < 9 ? v[k] : k == 9 ? n : k == 10 ? n + 1 : n + rn(1000); }
static void probe_out(const struct tg_geom *g) {
    for (int i = 0; i < 6; i++) {
        int k = bad_ix(tg_geom_num_points(g));
        CHECK(zp(tg_geom_point_at(g, k)), "point_at(%d)", k);
        k = bad_ix(tg_geom_num_lines(g)); CHECK(!tg_geom_line_at(g, k), "line_at(%d)", k);
        k = bad_ix(tg_geom_num_polys(g)); CHECK(!tg_geom_poly_at(g, k), "poly_at(%d)", k);
        k = bad_ix(tg_geom_num_geometries(g)); CHECK(!tg_geom_geometry_at(g, k), "geometry_at(%d)", k);
        const struct tg_line *l = tg_geom_line(g); const struct tg_poly *p = tg_geom_poly(g);
        k = bad_ix(tg_line_num_points(l)); CHECK(zp(tg_line_point_at(l, k)), "line point_at(%d)", k);
        k = bad_ix(tg_line_num_segments(l)); { seg s = tg_line_segment_at(l, k); CHECK(zp(s.a) && zp(s.b), "line segment_at(%d)", k); }
        k = bad_ix(tg_poly_num_holes(p)); CHECK(!tg_poly_hole_at(p, k), "hole_at(%d)", k);
        const struct tg_ring *r = tg_poly_exterior(p);
        k = bad_ix(tg_ring_num_points(r)); CHECK(zp(tg_ring_point_at(r, k)), "ring point_at(%d)", k);
        k = bad_ix(tg_ring_num_segments(r)); { seg s = tg_ring_segment_at(r, k); CHECK(zp(s.a) && zp(s.b), "ring segment_at(%d)", k); }
        k = bad_ix(tg_ring_index_num_levels(r)); CHECK(tg_ring_index_level_num_rects(r, k) == 0 && zr(tg_ring_index_level_rect(r, k, 0)), "ring index level %d", k);
    }
}
static void nothing(const struct tg_geom *g) {
    CHECK(tg_geom_num_points(g) == 0 && tg_geom_num_lines(g) == 0 && tg_geom_num_polys(g) == 0 && tg_geom_num_geometries(g) == 0, "null counts");
    CHECK(zp(tg_geom_point(g)) && !tg_geom_line(g) && !tg_geom_poly(g) && zp(tg_geom_point_at(g, 0)) && !tg_geom_line_at(g, 0) && !tg_geom_poly_at(g, 0) && !tg_geom_geometry_at(g, 0), "null parts");
    CHECK(!tg_geom_is_feature(g) && !tg_geom_is_featurecollection(g) && !tg_geom_extra_json(g) && !tg_geom_has_z(g) && !tg_geom_has_m(g) && tg_geom_z(g) == 0 && tg_geom_m(g) == 0 && !tg_geom_extra_coords(g) && tg_geom_num_extra_coords(g) == 0 && tg_geom_memsize(g) == 0 && zr(tg_geom_rect(g)) && tg_geom_is_empty(g) && tg_geom_error(g) && tg_geom_dims(g) == 0 && (int)tg_geom_typeof(g) == 0, "null attributes");
    CHECK(tg_line_num_points(0) == 0 && tg_line_num_segments(0) == 0 && !tg_line_points(0) && zr(tg_line_rect(0)) && !tg_line_clockwise(0) && tg_line_length(0) == 0 && tg_line_memsize(0) == 0 && zp(tg_line_point_at(0, 0)) && tg_line_index_num_levels(0) == 0 && tg_line_index_spread(0) == 0, "null line");
    CHECK(tg_ring_num_points(0) == 0 && tg_ring_num_segments(0) == 0 && !tg_ring_points(0) && zr(tg_ring_rect(0)) && !tg_ring_clockwise(0) && !tg_ring_convex(0) && tg_ring_area(0) == 0 && tg_ring_perimeter(0) == 0 && tg_ring_memsize(0) == 0 && zp(tg_ring_point_at(0, 0)), "null ring");
    CHECK(tg_poly_num_holes(0) == 0 && !tg_poly_exterior(0) && !tg_poly_hole_at(0, 0) && zr(tg_poly_rect(0)) && !tg_poly_clockwise(0) && tg_poly_memsize(0) == 0, "null poly");
}
// rect of a geometry: union over the positions; an empty child counts as the zero rectangle
static bool mrect(const M *m, rect *r) {
    if (m->empty) { *r = (rect){ { 0, 0 }, { 0, 0 } }; return true; }
    if (m->type == TG_GEOMETRYCOLLECTION) { for (int i = 0; i < m->nc; i++) { rect c; mrect(m->c[i], &c); if (!i) *r = c; else { r->min.x = dmin(c.min.x, r->min.x); r->min.y = dmin(c.min.y, r->min.y); r->max.x = dmax(c.max.x, r->max.x); r->max.y = dmax(c.max.y, r->max.y); } } return true; }
    bool any = false;
    if (m->type == TG_POLYGON) { M t = *m; t.nr = 1; m_rect(&t, r, &any); }
    else if (m->type == TG_MULTIPOLYGON) for (int i = 0; i < m->nc; i++) { M t = *m->c[i]; t.nr = 1; m_rect(&t, r, &any); }
    else m_rect(m, r, &any);
    return any;
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    casef("NULL"); nothing(0);
    static const char *names[] = { "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection" };
    for (int t = 1; t <= 7; t++) CHECK(!strcmp(tg_geom_type_string(t), names[t - 1]), "type string %d", t);
    for (int t = -5; t < 300; t++) if (t < 1 || t > 7) CHECK(!strcmp(tg_geom_type_string(t), "Unknown"), "type string %d", t);
    while (time_left()) {
        arm();
        g_cmode = rn(4); if (g_cmode == 2) g_cmode = 1; g_big = rn(10) == 0;
        M *m = gen(3, 0);
        describe(m, "geometry ");
        struct tg_geom *g = mk(m, IXS(rn(12))); const char *d;
        eval(m->nx > 0 || m->nc > 0);
        CHECK(!(d = cmp(g, m, true)), "%s", d);
        probe_out(g);
        rect r, want; 
        mrect(m, &want); r = tg_geom_rect(g);
        CHECK(pe(r.min, want.min) && pe(r.max, want.max), "rect %.17g %.17g,%.17g %.17g, want %.17g %.17g,%.17g %.17g", r.min.x, r.min.y, r.max.x, r.max.y, want.min.x, want.min.y, want.max.x, want.max.y);
        CHECK(tg_geom_memsize(g) > 0 && !tg_geom_error(g) && !tg_geom_extra_json(g), "attributes");
        if (m->type != TG_POINT) CHECK((m->nx > 0) == (tg_geom_extra_coords(g) != 0), "extra coords pointer");
        // counts of other types are zero: covered by cmp(); parts of other types are null
        CHECK((tg_geom_line(g) != 0) == (m->type == TG_LINESTRING && !m->empty) && (tg_geom_poly(g) != 0) == (m->type == TG_POLYGON && !m->empty), "line/poly of another type");
        // short extra coordinates are padded with zeros, surplus ones ignored
        if (rn(3) == 0 && m->nx > 0 && m->type != TG_POINT) {
            int nx = m->nx; double *x = m->x; m->nx = rn(nx); 
            struct tg_geom *h = mk(m, TG_NONE);
            CHECK(tg_geom_num_extra_coords(h) == m->nx || tg_geom_num_extra_coords(h) == nx, "short extra coordinates");
            for (int i = 0; i < m->nx; i++) CHECK(beq(tg_geom_extra_coords(h)[i], x[i]), "short extra coordinate %d", i);
            tg_geom_free(h); m->nx = nx;
        }
        // bare representations used as geometries
        if (m->type == TG_LINESTRING && !m->empty) {
            struct tg_line *l = tg_line_new(m->r[0].p, m->r[0].n); struct tg_geom *h = (struct tg_geom *)l; M t = *m; t.z = t.m = false; t.nx = 0;
            CHECK(!(d = cmp(h, &t, true)), "bare line: %s", d); probe_out(h); tg_geom_free(h);
        }
        if (m->type == TG_POLYGON && !m->empty) {
            struct tg_poly *p = mk_poly(m, TG_NATURAL); struct tg_geom *h = (struct tg_geom *)p; M t = *m; t.z = t.m = false; t.nx = 0;
            CHECK(!(d = cmp(h, &t, true)), "bare polygon: %s", d); probe_out(h); tg_geom_free(h);
            h = (struct tg_geom *)tg_ring_new(m->r[0].p, m->r[0].n); t.nr = 1;
            CHECK(!(d = cmp(h, &t, true)), "bare ring: %s", d); probe_out(h); tg_geom_free(h);
        }
        if (m->type == TG_POINT && !m->empty && !m->z && !m->m) {
            CHECK(!(d = cmp(g, m, true)), "%s", d);
        }
        tg_geom_free(g); m_free(m);
    }
    finish(0);
}
