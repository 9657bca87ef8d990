//@ property G02 G01
//@ covers base_geom_touches_geom
//@ remove point_touches_geom line_touches_geom poly_touches_geom tg_geom_touches tg_geom_intersects
//@ ghost int g_k; _Bool g_seen, g_krel, g_irel, g_cross;
//@ nloops base_geom_touches_geom 1
//@ loop base_geom_touches_geom 0
__CPROVER_assigns(i, g_seen, touches, g_cross)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_cross == 0)
__CPROVER_loop_invariant(touches ? touches == 1 && g_seen == 1 : g_seen == 0)
__CPROVER_loop_invariant(!(g_k < i) || (g_krel ? g_seen == 1 : !g_irel))
__CPROVER_loop_invariant(i > 1 || !touches || (i == 1 && (g_k != 0 || g_krel)))
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
static const struct tg_geom *g_kid, *g_other;
static bool point_touches_geom(struct tg_point p, const struct tg_geom *g) { return 0; }
static bool line_touches_geom(struct tg_line *p, const struct tg_geom *g) { return 0; }
static bool poly_touches_geom(struct tg_poly *p, const struct tg_geom *g) { return 0; }
bool tg_geom_touches(const struct tg_geom *g, const struct tg_geom *o) { ASSERT(o == g_other, "pre: the right geometry is passed on"); bool n; bool r = (g == g_kid ? g_krel : n) ? 1 : 0; if (r) g_seen = 1; return r; }
bool tg_geom_intersects(const struct tg_geom *g, const struct tg_geom *o) { ASSERT(o == g_other, "pre: the right geometry is passed on"); bool n; bool r = (g == g_kid ? g_irel : n) ? 1 : 0; if (r) g_cross = 1; return r; }
void harness(void) {
    int in_n, in_k; ASSUME(in_n >= 0 && in_n <= 1 << 28); int in_type, in_flags; bool a, b; g_krel = a ? 1 : 0; g_irel = b ? 1 : 0; g_seen = 0; g_cross = 0;
    ASSUME(in_type >= TG_MULTIPOINT && in_type <= TG_GEOMETRYCOLLECTION && in_flags >= 0 && in_flags < 256);
    struct tg_geom *l = malloc(sizeof *l); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * (in_n + 1ul)); const struct tg_geom *other; g_other = other;
    ASSUME(l && m && kids && in_k >= 0 && (in_k < in_n || in_n == 0)); g_k = in_k; bool in_nomulti;
    l->head.base = BASE_GEOM; l->head.type = in_type; l->head.flags = in_flags; l->multi = in_nomulti ? 0 : m; m->geoms = kids; m->ngeoms = in_n; g_kid = kids[in_n ? in_k : 0];
    bool res = base_geom_touches_geom(l, other) ? 1 : 0; bool krel = g_krel;
    if (in_flags & IS_EMPTY) ASSERT(!res, "post: an empty geometry relates to nothing");
    else if (in_nomulti || in_n == 0) ASSERT(!res, "post: a collection without members touches nothing");
    else { ASSERT(IMPL(res, krel || !g_irel), "post: every member touches or stays apart"); ASSERT(IMPL(res, g_seen), "post: a collection touches only through a touching member");
        ASSERT(IMPL(!res && krel, g_cross), "post: a touching member makes the collection touch unless some member crosses"); ASSERT(IMPL(in_n == 1, res == krel), "post: the only member of a collection is related as the collection"); }
    REACH(res && in_n > 3, "collection touches"); REACH(!res && g_cross, "crossing member");
}
