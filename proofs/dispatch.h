/* relation of one bare shape to any representation of another shape: everything below the dispatch is an arbitrary relation */
_Bool __CPROVER_uninterpreted_relpt(double, double); _Bool __CPROVER_uninterpreted_rel(const void *, int);
#define SEEN_point struct tg_point
#define SEEN_line const struct tg_line *
#define SEEN_poly const struct tg_poly *
#define SELF_point struct tg_point
#define SELF_line struct tg_line *
#define SELF_poly struct tg_poly *
#define SAME_point(a, b) (BITS((a).x) == BITS((b).x) && BITS((a).y) == BITS((b).y))
#define SAME_line(a, b) ((a) == (b))
#define SAME_poly(a, b) ((a) == (b))
#define REL_STUBS(K, P) \
static SELF_##K g_self; \
bool tg_##K##_##P##_point(SEEN_##K s, struct tg_point q) { ASSERT(SAME_##K(s, g_self), "pre: the same shape"); return __CPROVER_uninterpreted_relpt(q.x, q.y); } \
bool tg_##K##_##P##_line(SEEN_##K s, const struct tg_line *q) { ASSERT(SAME_##K(s, g_self), "pre: the same shape"); return __CPROVER_uninterpreted_rel(q, 1); } \
bool tg_##K##_##P##_poly(SEEN_##K s, const struct tg_poly *q) { ASSERT(SAME_##K(s, g_self), "pre: the same shape"); return __CPROVER_uninterpreted_rel(q, 2); }
/* K_P_geom: bare representations, and delegation of geometries */
#define DISPATCH(K, P) REL_STUBS(K, P) \
static bool K##_dummy; \
static bool K##_##P##_base_geom(SELF_##K s, const struct tg_geom *g) { ASSERT(SAME_##K(s, g_self), "pre: the same shape"); return __CPROVER_uninterpreted_rel(g, 3); } \
void harness(void) { \
    SELF_##K self; g_self = self; \
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 4); double in_x, in_y; \
    struct boxed_point *bp = malloc(sizeof *bp); struct tg_ring *r = malloc(sizeof *r); struct tg_poly *p = malloc(sizeof *p); struct tg_geom *g = malloc(sizeof *g); \
    ASSUME(bp && r && p && g); \
    bp->head.base = BASE_POINT; bp->point.x = in_x; bp->point.y = in_y; g->head.base = BASE_GEOM; \
    r->head.base = in_kind == 1 ? BASE_LINE : BASE_RING; p->head.base = BASE_POLY; \
    const void *obj = in_kind == 0 ? (void *)bp : in_kind == 3 ? (void *)p : in_kind == 4 ? (void *)g : (void *)r; \
    bool want = in_kind == 0 ? __CPROVER_uninterpreted_relpt(in_x, in_y) : __CPROVER_uninterpreted_rel(obj, in_kind == 1 ? 1 : in_kind == 4 ? 3 : 2); \
    ASSERT(K##_##P##_geom(self, (const struct tg_geom *)obj) == want, "post: a bare shape is related as itself, a geometry as its content"); \
    ASSERT(!K##_##P##_geom(self, 0), "post: nothing relates to null"); \
    REACH(in_kind == 2 && want, "related ring"); REACH(in_kind == 3 && !want, "unrelated polygon"); REACH(in_kind == 0 && want, "point"); REACH(in_kind == 1, "line"); REACH(in_kind == 4 && want, "geometry"); \
}
/* K_P_base_geom: a geometry relates as its content, a collection by its members (of which any number g_k-th is observed) */
#define CHILD(K, P) static const struct tg_geom *g_kid; static bool K##_##P##_geom(SELF_##K s, const struct tg_geom *g) { ASSERT(SAME_##K(s, g_self), "pre: the same shape"); \
    bool n; bool r = (g == g_kid ? g_krel : n) ? 1 : 0; if (r == WITNESS) g_seen = 1; return r; }
#ifndef INIT_EXTRA
#define INIT_EXTRA
#endif
#ifndef EXTRA_STUB
#define EXTRA_STUB
#endif
#define CONTENT(K, P) REL_STUBS(K, P) CHILD(K, P) EXTRA_STUB \
void harness(void) { \
    SELF_##K self; g_self = self; \
    int in_kind; ASSUME(in_kind >= 0 && in_kind <= 3); double in_x, in_y; int in_n, in_k; ASSUME(in_n >= 0 && in_n <= 1 << 28); \
    struct tg_ring *r = malloc(sizeof *r); struct tg_geom *h0 = malloc(sizeof *h0), *h1 = malloc(sizeof *h1), *h2 = malloc(sizeof *h2), *h3 = malloc(sizeof *h3); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * (in_n + 1ul)); \
    ASSUME(r && h0 && h1 && h2 && h3 && m && kids && in_k >= 0 && (in_k < in_n || in_n == 0)); g_k = in_k; g_seen = 0; INIT_EXTRA \
    g_kid = kids[in_n ? in_k : 0]; bool krel; krel = krel ? 1 : 0; g_krel = krel; \
    bool in_nomulti; int in_type, in_flags; ASSUME(in_type >= TG_MULTIPOINT && in_type <= TG_GEOMETRYCOLLECTION && in_flags >= 0 && in_flags < 256); \
    h0->head.base = BASE_GEOM; h0->head.type = TG_POINT; h0->head.flags = in_flags; h0->point.x = in_x; h0->point.y = in_y; \
    h1->head.base = BASE_GEOM; h1->head.type = TG_LINESTRING; h1->head.flags = in_flags; h1->line = (struct tg_line *)r; \
    h2->head.base = BASE_GEOM; h2->head.type = TG_POLYGON; h2->head.flags = in_flags; h2->poly = (struct tg_poly *)r; \
    h3->head.base = BASE_GEOM; h3->head.type = in_type; h3->head.flags = in_flags; h3->multi = in_nomulti ? 0 : m;  m->geoms = kids; m->ngeoms = in_n; \
    struct tg_geom *h = in_kind == 0 ? h0 : in_kind == 1 ? h1 : in_kind == 2 ? h2 : h3; \
    bool empty = (in_flags & IS_EMPTY) != 0; \
    bool res = K##_##P##_base_geom(self, h) ? 1 : 0; \
    if (empty) ASSERT(!res, "post: nothing relates to an empty geometry"); \
    else if (in_kind == 0) ASSERT(res == !!__CPROVER_uninterpreted_relpt(in_x, in_y), "post: a point geometry relates as its point"); \
    else if (in_kind != 3) ASSERT(res == !!__CPROVER_uninterpreted_rel(r, in_kind), "post: a line or polygon geometry relates as its line or polygon"); \
    else if (in_nomulti || in_n == 0) ASSERT(!res, "post: nothing relates to a collection without members"); \
    else { MEMBERS } \
    REACH(in_kind == 2 && !empty && res, "polygon"); REACH(in_kind == 3 && !empty && res, "collection related"); REACH(in_kind == 3 && !empty && !res && in_n > 3, "collection unrelated"); REACH(empty && in_kind == 1, "empty"); \
}
#define ANY_MEMBER ASSERT(IMPL(krel, res), "post: any related member makes the collection related"); ASSERT(IMPL(res, g_seen), "post: a collection is related only through a related member"); ASSERT(IMPL(in_n == 1, res == krel), "post: the only member of a collection is related as the collection");
#define ALL_MEMBERS ASSERT(IMPL(res, krel), "post: the relation holds of every member"); ASSERT(IMPL(!res, g_seen), "post: the relation is denied only because of a member"); ASSERT(IMPL(in_n == 1, res == krel), "post: the only member of a collection is related as the collection");
#define TOUCH_MEMBERS ASSERT(IMPL(res, krel || !g_irel), "post: every member touches or stays apart"); ASSERT(IMPL(res, g_seen), "post: a collection is touched only through a touching member"); \
    ASSERT(IMPL(!res && krel, g_cross), "post: a touched member makes the collection touched unless some member crosses"); ASSERT(IMPL(in_n == 1, res == krel), "post: the only member of a collection is related as the collection");
