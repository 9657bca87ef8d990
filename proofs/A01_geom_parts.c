//@ property A01
//@ plain
//@ remove tg_line_rect tg_ring_rect tg_poly_rect
//@ covers tg_geom_typeof tg_geom_is_feature tg_geom_is_featurecollection tg_geom_rect geom_rect tg_geom_point tg_geom_line tg_geom_poly tg_point_rect
static const void *g_part; static struct tg_rect g_out; static int g_kind;
struct tg_rect tg_line_rect(const struct tg_line *r) { ASSERT(r == g_part && g_kind == 1, "pre: the line"); return g_out; }
struct tg_rect tg_ring_rect(const struct tg_ring *r) { ASSERT(r == g_part && g_kind == 2, "pre: the ring"); return g_out; }
struct tg_rect tg_poly_rect(const struct tg_poly *r) { ASSERT(r == g_part && g_kind == 3, "pre: the polygon"); return g_out; }
#define RBITS(a, b) (BITS((a).min.x) == BITS((b).min.x) && BITS((a).min.y) == BITS((b).min.y) && BITS((a).max.x) == BITS((b).max.x) && BITS((a).max.y) == BITS((b).max.y))
void harness(void) {
    int base, type, flags; bool null, nomulti; struct tg_rect q; struct tg_point pt; g_out = q;
    ASSUME(base >= 1 && base <= 5 && type >= 1 && type <= 7 && flags >= 0 && flags < 256);
    struct boxed_point *bp = malloc(sizeof *bp); struct tg_ring *r = malloc(sizeof *r), *l = malloc(sizeof *l); struct tg_poly *p = malloc(sizeof *p), *p2 = malloc(sizeof *p2); struct tg_geom *g = malloc(sizeof *g); struct multi *m = malloc(sizeof *m); ASSUME(bp && r && l && p && p2 && g && m);
    void *obj = base == BASE_GEOM ? (void *)g : base == BASE_POINT ? (void *)bp : base == BASE_LINE || base == BASE_RING ? (void *)r : (void *)p;
    if (base == BASE_POINT) type = TG_POINT; if (base == BASE_LINE) type = TG_LINESTRING; if (base == BASE_RING || base == BASE_POLY) type = TG_POLYGON;
    struct head *h = obj; h->base = base; h->type = type; h->flags = flags; if (base == BASE_POINT) bp->point = pt;
    bool coll = type >= TG_MULTIPOINT; m->rect = q;
    if (base == BASE_GEOM) { if (type == TG_POINT) g->point = pt; else if (type == TG_LINESTRING) g->line = (void *)l; else if (type == TG_POLYGON) g->poly = p2; else g->multi = nomulti ? 0 : m; }
    g_kind = type == TG_LINESTRING ? 1 : base == BASE_RING ? 2 : type == TG_POLYGON ? 3 : 0;
    g_part = base != BASE_GEOM ? obj : type == TG_LINESTRING ? (void *)l : (void *)p2;
    const struct tg_geom *a = null ? 0 : obj;
    ASSERT(tg_geom_typeof(a) == (null ? 0 : type), "post: type");
    ASSERT(tg_geom_is_feature(a) == (!null && (flags & IS_FEATURE)), "post: feature"); ASSERT(tg_geom_is_featurecollection(a) == (!null && (flags & IS_FEATURE_COL)), "post: feature collection");
    struct tg_rect want = type == TG_POINT ? (struct tg_rect){ pt, pt } : coll && nomulti ? (struct tg_rect){ 0 } : q;
    if (null) want = (struct tg_rect){ 0 };
    struct tg_rect z = tg_geom_rect(a);
    ASSERT(RBITS(z, want), "post: the rectangle of the part, of the children, or of the point");
    struct tg_point c = tg_geom_point(a);
    if (null) ASSERT(BITS(c.x) == 0 && BITS(c.y) == 0, "post: null has the zero point");
    else if (type == TG_POINT) ASSERT(BITS(c.x) == BITS(pt.x) && BITS(c.y) == BITS(pt.y), "post: the point of a point");
    ASSERT(tg_geom_line(a) == (null || type != TG_LINESTRING ? 0 : g_part), "post: the line of a linestring");
    ASSERT(tg_geom_poly(a) == (null || type != TG_POLYGON ? 0 : g_part), "post: the polygon of a polygon");
    REACH(!null && coll && !nomulti, "collection"); REACH(!null && base == BASE_GEOM && type == TG_POLYGON, "polygon"); REACH(!null && base == BASE_RING, "ring"); REACH(!null && base == BASE_GEOM && type == TG_POINT, "point z");
}
