//@ property G02 G01
//@ plain
//@ covers base_geom_contains_geom
//@ remove point_contains_geom line_contains_geom poly_contains_geom tg_geom_foreach
//@ unwind base_geom_contains_geom.0:1
_Bool __CPROVER_uninterpreted_relpt(double, double, const void *); _Bool __CPROVER_uninterpreted_rel(const void *, int, const void *);
static bool point_contains_geom(struct tg_point p, const struct tg_geom *g) { return __CPROVER_uninterpreted_relpt(p.x, p.y, g); }
static bool line_contains_geom(struct tg_line *p, const struct tg_geom *g) { return __CPROVER_uninterpreted_rel(p, 1, g); }
static bool poly_contains_geom(struct tg_poly *p, const struct tg_geom *g) { return __CPROVER_uninterpreted_rel(p, 2, g); }
void tg_geom_foreach(const struct tg_geom *g, bool (*iter)(const struct tg_geom *, void *), void *u) { ASSERT(0, "pre: only a collection is iterated"); }
void harness(void) {
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 2); double in_x, in_y; int in_flags; const struct tg_geom *other;
    struct tg_ring *r = malloc(sizeof *r); struct tg_geom *g = malloc(sizeof *g); ASSUME(r && g && in_flags >= 0 && in_flags < 256);
    g->head.base = BASE_GEOM; g->head.flags = in_flags;
    if (in_kind == 0) { g->head.type = TG_POINT; g->point.x = in_x; g->point.y = in_y; }
    else if (in_kind == 1) { g->head.type = TG_LINESTRING; g->line = (struct tg_line *)r; }
    else { g->head.type = TG_POLYGON; g->poly = (struct tg_poly *)r; }
    bool want = in_kind == 0 ? __CPROVER_uninterpreted_relpt(in_x, in_y, other) : __CPROVER_uninterpreted_rel(r, in_kind, other);
    bool res = base_geom_contains_geom(g, other);
    if (in_flags & IS_EMPTY) ASSERT(!res, "post: an empty geometry relates to nothing");
    else ASSERT(!res == !want, "post: a geometry relates as its point, line or polygon");
    REACH(in_kind == 2 && res, "polygon"); REACH(in_kind == 1 && !res && !(in_flags & IS_EMPTY), "line"); REACH(in_kind == 0 && (in_flags & IS_EMPTY), "empty");
}
