//@ property G02 A01
//@ covers base_geom_deep_empty
//@ remove tg_geom_is_empty
//@ ghost int g_k; _Bool g_seen, g_krel;
//@ nloops base_geom_deep_empty 1
//@ loop base_geom_deep_empty 0
__CPROVER_assigns(i, g_seen)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_seen == 0)
__CPROVER_loop_invariant(!(g_k < i) || g_krel)
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
static const struct tg_geom *g_kid;
bool tg_geom_is_empty(const struct tg_geom *g) { bool n; bool r = (g == g_kid ? g_krel : n) ? 1 : 0; if (!r) g_seen = 1; return r; }
void harness(void) {
    int in_n, in_k; ASSUME(in_n >= 0 && in_n <= 1 << 28); int in_type; bool a; g_krel = a ? 1 : 0; g_seen = 0; ASSUME(in_type >= TG_MULTIPOINT && in_type <= TG_GEOMETRYCOLLECTION);
    struct tg_geom *l = malloc(sizeof *l); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * (in_n + 1ul));
    ASSUME(l && m && kids && in_k >= 0 && (in_k < in_n || in_n == 0)); g_k = in_k; bool in_nomulti;
    l->head.base = BASE_GEOM; l->head.type = in_type; l->multi = in_nomulti ? 0 : m; m->geoms = kids; m->ngeoms = in_n; g_kid = kids[in_n ? in_k : 0];
    bool res = base_geom_deep_empty(l) ? 1 : 0;
    if (in_nomulti || in_n == 0) ASSERT(res, "post: a collection without members is empty");
    else { ASSERT(IMPL(res, g_krel), "post: every member of an empty collection is empty"); ASSERT(IMPL(!res, g_seen), "post: a collection is nonempty only through a nonempty member"); ASSERT(IMPL(in_n == 1, res == g_krel), "post: one member"); }
    REACH(res && in_n > 3, "empty"); REACH(!res, "not empty");
}
