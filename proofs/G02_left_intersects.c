//@ property G02 G01
//@ plain
//@ covers tg_geom_intersects
//@ remove point_intersects_geom line_intersects_geom poly_intersects_geom base_geom_intersects_geom
_Bool __CPROVER_uninterpreted_relpt(double, double, const void *); _Bool __CPROVER_uninterpreted_rel(const void *, int, const void *);
static bool point_intersects_geom(struct tg_point p, const struct tg_geom *g) { return __CPROVER_uninterpreted_relpt(p.x, p.y, g); }
static bool line_intersects_geom(struct tg_line *p, const struct tg_geom *g) { return __CPROVER_uninterpreted_rel(p, 1, g); }
static bool poly_intersects_geom(struct tg_poly *p, const struct tg_geom *g) { return __CPROVER_uninterpreted_rel(p, 2, g); }
static bool base_geom_intersects_geom(const struct tg_geom *p, const struct tg_geom *g) { return __CPROVER_uninterpreted_rel(p, 3, g); }
void harness(void) {
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 4); double in_x, in_y; const struct tg_geom *other;
    struct boxed_point *bp = malloc(sizeof *bp); struct tg_ring *r = malloc(sizeof *r); struct tg_poly *p = malloc(sizeof *p); struct tg_geom *g = malloc(sizeof *g);
    ASSUME(bp && r && p && g);
    bp->head.base = BASE_POINT; bp->point.x = in_x; bp->point.y = in_y; g->head.base = BASE_GEOM;
    r->head.base = in_kind == 1 ? BASE_LINE : BASE_RING; p->head.base = BASE_POLY;
    const void *obj = in_kind == 0 ? (void *)bp : in_kind == 3 ? (void *)p : in_kind == 4 ? (void *)g : (void *)r;
    bool want = in_kind == 0 ? __CPROVER_uninterpreted_relpt(in_x, in_y, other) : __CPROVER_uninterpreted_rel(obj, in_kind == 1 ? 1 : in_kind == 4 ? 3 : 2, other);
    ASSERT(!tg_geom_intersects((const struct tg_geom *)obj, other) == !want, "post: a bare shape relates as itself, a geometry as its content");
    ASSERT(!tg_geom_intersects(0, other), "post: null relates to nothing");
    REACH(in_kind == 2 && want, "related ring"); REACH(in_kind == 3 && !want, "unrelated polygon"); REACH(in_kind == 0 && want, "point"); REACH(in_kind == 1, "line"); REACH(in_kind == 4 && want, "geometry");
}
