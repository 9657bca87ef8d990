//@ property G02 G01
//@ plain
//@ covers geom_contains_iter geom_contains_iter0
//@ remove tg_geom_foreach tg_geom_is_empty tg_geom_contains
//@ note tg_geom_foreach calls its callback on members until it returns false (unit G02_foreach); a call with an unrelated member changes nothing, so any number of them is represented by one
_Bool __CPROVER_uninterpreted_rel(const void *, const void *);
static const struct tg_geom *g_left; static bool g_any; static struct tg_geom *g_m1, *g_m2;
bool tg_geom_is_empty(const struct tg_geom *g);
_Bool __CPROVER_uninterpreted_empty(const void *);
bool tg_geom_is_empty(const struct tg_geom *g) { return !!__CPROVER_uninterpreted_empty(g); }
bool tg_geom_contains(const struct tg_geom *a, const struct tg_geom *b) { return !!__CPROVER_uninterpreted_rel(a, b); }
void tg_geom_foreach(const struct tg_geom *g, bool (*iter)(const struct tg_geom *, void *), void *u) {
    ASSERT(g == g_left, "pre: the members of the left geometry are visited"); int n;
    if (n > 0 && !iter(g_m1, u)) return;
    if (n > 1 && !iter(g_m2, u)) return;
}
void harness(void) {
    struct tg_geom *g, *l, *m1, *m2; g_left = l; g_m1 = m1; g_m2 = m2; bool prev, r0;
    struct geom_contains_iter_ctx c0 = { .geom = g, .result = r0 };
    bool more0 = geom_contains_iter0(m1, &c0);
    ASSERT(c0.geom == g && (!!__CPROVER_uninterpreted_rel(m1, g) ? !more0 && c0.result : more0 && !c0.result == !r0), "post: iter0 stops and marks exactly at a related member and changes nothing otherwise");
    struct geom_contains_iter_ctx c = { .geom = l, .result = prev };
    bool more = geom_contains_iter(g, &c);
    bool r1 = !!__CPROVER_uninterpreted_rel(m1, g), r2 = !!__CPROVER_uninterpreted_rel(m2, g);
    ASSERT(c.geom == l, "post: the left geometry is unchanged");
    if (__CPROVER_uninterpreted_empty(g)) ASSERT(more && !c.result == !prev, "post: empty members are skipped");
    else { ASSERT(IMPL(!r1 && !r2, !more && !c.result), "post: a member related to no left member ends the visit with false"); ASSERT(!more == !c.result && IMPL(c.result, r1 || r2), "post: the visit goes on exactly when a related left member was found"); }
    REACH(more && c.result && !r1, "found second"); REACH(!more, "stopped"); REACH(__CPROVER_uninterpreted_empty(g), "empty");
}
