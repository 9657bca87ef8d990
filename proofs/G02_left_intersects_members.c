//@ property G02 G01
//@ plain
//@ covers base_geom_intersects_geom multiiter
//@ remove point_intersects_geom line_intersects_geom poly_intersects_geom tg_geom_search tg_geom_rect tg_geom_intersects
//@ note tg_geom_search calls its callback on the members it finds until it returns false (property S03); a call with an unrelated member changes nothing, so any number of them is represented by one
_Bool __CPROVER_uninterpreted_rel(const void *, const void *);
static const struct tg_geom *g_left, *g_other; static struct tg_geom *g_m1, *g_m2; static struct tg_rect g_rect; static int g_n;
static bool point_intersects_geom(struct tg_point p, const struct tg_geom *g) { return 0; }
static bool line_intersects_geom(struct tg_line *p, const struct tg_geom *g) { return 0; }
static bool poly_intersects_geom(struct tg_poly *p, const struct tg_geom *g) { return 0; }
bool tg_geom_intersects(const struct tg_geom *a, const struct tg_geom *b) { return !!__CPROVER_uninterpreted_rel(a, b); }
struct tg_rect tg_geom_rect(const struct tg_geom *g) { ASSERT(g == g_left, "pre: the collection's own rectangle"); return g_rect; }
void tg_geom_search(const struct tg_geom *g, struct tg_rect r, bool (*iter)(const struct tg_geom *, int, void *), void *u) {
    ASSERT(g == g_left && BITS(r.min.x) == BITS(g_rect.min.x) && BITS(r.min.y) == BITS(g_rect.min.y) && BITS(r.max.x) == BITS(g_rect.max.x) && BITS(r.max.y) == BITS(g_rect.max.y), "pre: all members of the collection are searched");
    if (g_n > 0 && !iter(g_m1, 0, u)) return;
    if (g_n > 1 && !iter(g_m2, 1, u)) return;
}
void harness(void) {
    int in_type, in_flags, n; ASSUME(in_type >= TG_MULTIPOINT && in_type <= TG_GEOMETRYCOLLECTION && in_flags >= 0 && in_flags < 256); struct tg_rect q; g_rect = q; g_n = n;
    struct tg_geom *l = malloc(sizeof *l), *o, *m1, *m2; ASSUME(l != 0); g_left = l; g_m1 = m1; g_m2 = m2;
    l->head.base = BASE_GEOM; l->head.type = in_type; l->head.flags = in_flags; int ix; bool was;
    struct multiiterctx c = { .other = o, .isect = was };
    bool more = multiiter(m1, ix, &c);
    bool r1 = !!__CPROVER_uninterpreted_rel(m1, o), r2 = !!__CPROVER_uninterpreted_rel(m2, o);
    ASSERT(c.other == o && (r1 ? !more && c.isect : more && !c.isect == !was), "post: multiiter stops and marks exactly at an intersecting member and changes nothing otherwise");
    bool res = base_geom_intersects_geom(l, o);
    if (in_flags & IS_EMPTY) ASSERT(!res, "post: an empty geometry relates to nothing");
    else ASSERT(!res == !((n > 0 && r1) || (n > 1 && r2)), "post: the collection intersects exactly when a member does");
    REACH(res && !r1, "second member"); REACH(!res && n > 1, "none");
}
