//@ property A01 L01
//@ plain
//@ covers tg_geom_num_points tg_geom_num_lines tg_geom_num_polys tg_geom_num_geometries tg_geom_point_at tg_geom_line_at tg_geom_poly_at tg_geom_geometry_at
void harness(void) {
    int base, type, in_n, in_i; bool null, nomulti; ASSUME(base >= 1 && base <= 5 && type >= 0 && type <= 7 && in_n >= 0 && in_n <= 1 << 27);
    struct tg_geom *g = malloc(sizeof *g); struct multi *m = malloc(sizeof *m); struct boxed_point *bp = malloc(sizeof *bp); ASSUME(g && m && bp);
    m->geoms = malloc(sizeof(struct tg_geom *) * (in_n + 1ul)); ASSUME(m->geoms != 0); m->ngeoms = in_n;
    g->head.base = base; g->head.type = type; g->multi = nomulti ? 0 : m; struct tg_point pt; bp->point = pt;
    bool in = in_i >= 0 && in_i < in_n; if (in) m->geoms[in_i] = (struct tg_geom *)bp;
    const struct tg_geom *a = null ? 0 : g; bool has = !null && !nomulti && base == BASE_GEOM;
    ASSERT(tg_geom_num_points(a) == (has && type == TG_MULTIPOINT ? in_n : 0), "post: number of points");
    ASSERT(tg_geom_num_lines(a) == (has && type == TG_MULTILINESTRING ? in_n : 0), "post: number of lines");
    ASSERT(tg_geom_num_polys(a) == (has && type == TG_MULTIPOLYGON ? in_n : 0), "post: number of polygons");
    ASSERT(tg_geom_num_geometries(a) == (has && type == TG_GEOMETRYCOLLECTION ? in_n : 0), "post: number of geometries");
    struct tg_point p = tg_geom_point_at(a, in_i);
    if (has && in && type == TG_MULTIPOINT) ASSERT(BITS(p.x) == BITS(pt.x) && BITS(p.y) == BITS(pt.y), "post: the point at the index");
    else ASSERT(BITS(p.x) == 0 && BITS(p.y) == 0, "post: zero point outside the range");
    ASSERT((void *)tg_geom_line_at(a, in_i) == (has && in && type == TG_MULTILINESTRING ? (void *)bp : 0), "post: the line at the index");
    ASSERT((void *)tg_geom_poly_at(a, in_i) == (has && in && type == TG_MULTIPOLYGON ? (void *)bp : 0), "post: the polygon at the index");
    ASSERT((void *)tg_geom_geometry_at(a, in_i) == (has && in && type == TG_GEOMETRYCOLLECTION ? (void *)bp : 0), "post: the geometry at the index");
    REACH(has && in && type == TG_MULTIPOINT && in_i == 9, "point"); REACH(has && in_i == in_n && type == TG_GEOMETRYCOLLECTION, "out of range"); REACH(has && in && type == TG_MULTIPOLYGON, "poly");
}
