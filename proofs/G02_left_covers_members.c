//@ property G02 G01
//@ covers base_geom_covers_geom tg_geom_foreach geom_foreach
//@ note the members of the right-hand collection are visited by geom_covers_iter, whose own contract is unit G02_covers_iter
//@ remove point_covers_geom line_covers_geom poly_covers_geom geom_covers_iter
//@ ghost int g_k; _Bool g_good, g_bad, g_kempty, g_kcov;
//@ hoist geom_covers_iter_ctx geom_foreach
//@ fptr geom_foreach::iter/geom_covers_iter
//@ nloops geom_foreach 1
//@ loop geom_foreach 0
__CPROVER_assigns(i, g_good, g_bad, ((struct geom_covers_iter_ctx *)udata)->result)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_bad == 0 && (g_good == 0 || g_good == 1))
__CPROVER_loop_invariant(((struct geom_covers_iter_ctx *)udata)->result == g_good)
__CPROVER_loop_invariant(!(g_k < i) || g_kempty || (g_kcov && g_good))
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
static const struct tg_geom *g_kid, *g_left;
static bool point_covers_geom(struct tg_point p, const struct tg_geom *g) { return 0; }
static bool line_covers_geom(struct tg_line *p, const struct tg_geom *g) { return 0; }
static bool poly_covers_geom(struct tg_poly *p, const struct tg_geom *g) { return 0; }
static bool geom_covers_iter(const struct tg_geom *g, void *u) {
    struct geom_covers_iter_ctx *c = u; ASSERT(c->geom == g_left, "pre: members are tested against the left geometry");
    bool e, n; if (g == g_kid) { e = g_kempty; n = g_kcov; }
    if (e) return 1;
    c->result = n ? 1 : 0; if (!n) { g_bad = 1; return 0; }
    g_good = 1; return 1;
}
void harness(void) {
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 2); int in_n, in_k; ASSUME(in_n >= 0 && in_n <= 1 << 28); int in_ltype, in_type, in_flags; bool e, c; g_kempty = e ? 1 : 0; g_kcov = c ? 1 : 0; g_good = 0; g_bad = 0;
    ASSUME(in_ltype >= TG_MULTIPOINT && in_ltype <= TG_GEOMETRYCOLLECTION && in_type >= TG_POINT && in_type <= TG_GEOMETRYCOLLECTION && in_flags >= 0 && in_flags < 256);
    struct tg_geom *l = malloc(sizeof *l), *o = malloc(sizeof *o); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * (in_n + 1ul));
    ASSUME(l && o && m && kids && in_k >= 0 && (in_k < in_n || in_n == 0)); g_k = in_k;
    l->head.base = BASE_GEOM; l->head.type = in_ltype; l->head.flags = in_flags; g_left = l;
    bool multi = in_type >= TG_MULTIPOINT && in_type <= TG_GEOMETRYCOLLECTION && in_kind == 1; bool in_nomulti;
    o->head.base = in_kind == 2 ? BASE_POLY : BASE_GEOM; o->head.type = in_type; o->multi = in_nomulti ? 0 : m; m->geoms = kids; m->ngeoms = in_n;
    if (in_kind == 1 && !multi) { ASSUME(0); }
    struct tg_geom *other = in_kind == 0 ? 0 : o;
    g_kid = multi ? kids[in_n ? in_k : 0] : o;
    bool res = base_geom_covers_geom(l, other) ? 1 : 0;
    if (in_flags & IS_EMPTY) ASSERT(!res, "post: an empty geometry relates to nothing");
    else if (in_kind == 0) ASSERT(!res, "post: nothing relates to null");
    else if (in_kind == 2) ASSERT(res == (!g_kempty && g_kcov), "post: a bare shape is one member");
    else if (in_nomulti || in_n == 0) ASSERT(!res, "post: nothing relates to a collection without members");
    else { ASSERT(IMPL(res, g_kempty || g_kcov), "post: every nonempty member is related"); ASSERT(IMPL(res, g_good), "post: some member is not empty");
        ASSERT(IMPL(!res, g_bad || !g_good), "post: the relation is denied only because of a nonempty member or because all are empty");
        ASSERT(IMPL(!g_kempty && g_kcov && !g_bad, res), "post: related nonempty members make the collection related"); }
    REACH(multi && res && in_n > 3, "collection related"); REACH(multi && !res && in_n > 3 && !in_nomulti && !(in_flags & IS_EMPTY), "collection unrelated"); REACH(in_kind == 2 && res, "bare");
}
