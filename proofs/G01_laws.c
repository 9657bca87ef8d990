//@ property G01
//@ plain
//@ covers tg_geom_disjoint tg_geom_within tg_geom_coveredby tg_geom_equals
//@ remove tg_geom_intersects tg_geom_contains tg_geom_covers
_Bool __CPROVER_uninterpreted_isect(const void *, const void *); _Bool __CPROVER_uninterpreted_cont(const void *, const void *); _Bool __CPROVER_uninterpreted_cov(const void *, const void *);
bool tg_geom_intersects(const struct tg_geom *a, const struct tg_geom *b) { return !!__CPROVER_uninterpreted_isect(a, b); }
bool tg_geom_contains(const struct tg_geom *a, const struct tg_geom *b) { return !!__CPROVER_uninterpreted_cont(a, b); }
bool tg_geom_covers(const struct tg_geom *a, const struct tg_geom *b) { return !!__CPROVER_uninterpreted_cov(a, b); }
void harness(void) {
    const struct tg_geom *a, *b;
    ASSERT(tg_geom_disjoint(a, b) == !tg_geom_intersects(a, b), "post: disjoint is the negation of intersects");
    ASSERT(tg_geom_within(a, b) == tg_geom_contains(b, a), "post: within is the converse of contains");
    ASSERT(tg_geom_coveredby(a, b) == tg_geom_covers(b, a), "post: coveredby is the converse of covers");
    ASSERT(tg_geom_equals(a, b) == (tg_geom_within(a, b) && tg_geom_contains(a, b)), "post: equals is within and contains");
    REACH(tg_geom_disjoint(a, b), "disjoint"); REACH(tg_geom_equals(a, b), "equal"); REACH(!tg_geom_within(a, b) && tg_geom_coveredby(a, b), "covered only");
}
