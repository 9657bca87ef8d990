//@ property G02 A01
//@ plain
//@ covers tg_geom_is_empty
//@ remove base_geom_deep_empty
_Bool __CPROVER_uninterpreted_deep(const void *);
static bool base_geom_deep_empty(const struct tg_geom *g) { return !!__CPROVER_uninterpreted_deep(g); }
void harness(void) {
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 4); int in_flags; ASSUME(in_flags >= 0 && in_flags < 256);
    struct boxed_point *bp = malloc(sizeof *bp); struct tg_ring *r = malloc(sizeof *r); struct tg_poly *p = malloc(sizeof *p); struct tg_geom *g = malloc(sizeof *g);
    ASSUME(bp && r && p && g);
    bp->head.base = BASE_POINT; g->head.base = BASE_GEOM; r->head.base = in_kind == 1 ? BASE_LINE : BASE_RING; p->head.base = BASE_POLY; p->exterior = r;
    bp->head.flags = in_flags; g->head.flags = in_flags; r->head.flags = in_flags; p->head.flags = in_flags;
    if (in_kind == 2 || in_kind == 3) r->head.base = BASE_RING;
    const void *obj = in_kind == 0 ? (void *)bp : in_kind == 3 ? (void *)p : in_kind == 4 ? (void *)g : (void *)r;
    bool tiny = (r->closed && r->npoints < 3) || r->npoints < 2;
    bool want = (in_flags & IS_EMPTY) != 0 || (in_kind == 0 ? 0 : in_kind == 4 ? !!__CPROVER_uninterpreted_deep(g) : tiny);
    ASSERT(tg_geom_is_empty(obj) == want, "post: empty exactly when flagged, without points, or without a nonempty member");
    ASSERT(tg_geom_is_empty(0), "post: null is empty");
    REACH(want && in_kind == 2, "ring"); REACH(!want && in_kind == 3, "poly"); REACH(!want && in_kind == 4, "geom");
}
