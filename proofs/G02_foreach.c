//@ property G02 S03
//@ covers tg_geom_foreach geom_foreach
//@ ghost int g_cnt; _Bool g_stop; const struct tg_geom *const *g_kids; const struct tg_geom *g_one;
//@ fptr geom_foreach::iter/visit
//@ nloops geom_foreach 1
//@ loop geom_foreach 0
__CPROVER_assigns(i, g_cnt, g_stop)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_stop == 0 && g_cnt == i)
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
static void *g_u; static int g_n; static bool g_multi;
static bool visit(const struct tg_geom *g, void *u) {
    ASSERT(u == g_u, "pre: the caller's data is passed on"); ASSERT(!g_stop, "pre: no call after the callback returned false");
    ASSERT(g_cnt >= 0 && g_cnt < g_n, "pre: only members are visited");
    ASSERT(g == (g_multi ? g_kids[g_cnt] : g_one), "pre: members are visited in order, each once");
    bool go; g_cnt++; if (!go) g_stop = 1; return go ? 1 : 0;
}
void harness(void) {
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 2); int in_n, in_type, in_flags; ASSUME(in_n >= 0 && in_n <= 1 << 28 && in_type >= TG_POINT && in_type <= TG_GEOMETRYCOLLECTION && in_flags >= 0 && in_flags < 256);
    struct tg_geom *o = malloc(sizeof *o); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * (in_n + 1ul)); ASSUME(o && m && kids); bool in_nomulti;
    g_multi = in_kind == 1 && in_type >= TG_MULTIPOINT;
    o->head.base = in_kind == 2 ? BASE_POLY : BASE_GEOM; o->head.type = in_type; o->head.flags = in_flags; o->multi = in_nomulti ? 0 : m; m->geoms = kids; m->ngeoms = in_n;
    g_kids = (void *)kids; g_one = o; g_cnt = 0; g_stop = 0; g_n = in_kind == 0 ? 0 : g_multi ? (in_nomulti ? 0 : in_n) : 1; void *u; g_u = u;
    tg_geom_foreach(in_kind == 0 ? 0 : o, visit, u);
    ASSERT(g_stop || g_cnt == g_n, "post: all members are visited unless the callback stops it");
    REACH(g_cnt == 5, "five"); REACH(g_stop && in_n > 5 && g_multi, "stopped"); REACH(in_kind == 2 && g_cnt == 1, "bare");
}
