//@ property A01 I02
//@ plain
//@ remove ixrect_to_tg_rect
//@ covers index_spread index_num_levels index_level_num_rects index_level_rect tg_ring_index_spread tg_ring_index_num_levels tg_ring_index_level_num_rects tg_ring_index_level_rect tg_line_index_spread tg_line_index_num_levels tg_line_index_level_num_rects tg_line_index_level_rect tg_geom_multi_index_spread tg_geom_multi_index_num_levels tg_geom_multi_index_level_num_rects tg_geom_multi_index_level_rect geom_multi geom_multi_index
static const struct ixrect *g_q; static struct tg_rect g_out; static int g_conv;
static inline void ixrect_to_tg_rect(struct ixrect *q, struct tg_rect *rect) { ASSERT(q == g_q, "pre: the rectangle of that level and position"); g_conv++; *rect = g_out; }
void harness(void) {
    int in_nl, in_spread, in_l, in_i, in_nr; bool none, null, line, multi; int base, type; struct tg_rect q; g_out = q; g_conv = 0;
    ASSUME(in_nl >= 0 && in_nl <= 64 && in_nr >= 0 && in_nr <= 1 << 26);
    struct index *ix = malloc(sizeof(struct index) + sizeof(struct level) * in_nl);
    struct ixrect *rects = malloc(sizeof(struct ixrect) * (in_nr + 1ul)); ASSUME(ix && rects);
    ix->spread = in_spread; ix->nlevels = in_nl; bool inl = in_l >= 0 && in_l < in_nl;
    if (inl) { ix->levels[in_l].nrects = in_nr; ix->levels[in_l].rects = rects; }
    bool in = inl && in_i >= 0 && in_i < in_nr; g_q = in ? rects + in_i : 0;
    struct tg_ring *r = malloc(sizeof *r); struct tg_geom *g = malloc(sizeof *g); struct multi *m = malloc(sizeof *m); ASSUME(r && g && m);
    r->index = none ? 0 : ix; m->index = none ? 0 : ix;
    ASSUME(base >= 1 && base <= 5 && type >= 0 && type <= 7); g->head.base = base; g->head.type = type; g->multi = m;
    bool coll = base == BASE_GEOM && (type == TG_MULTIPOINT || type == TG_MULTILINESTRING || type == TG_MULTIPOLYGON || type == TG_GEOMETRYCOLLECTION);
    bool has = !none && !null && (!multi || coll);
    const struct tg_ring *a = null ? 0 : r; const struct tg_line *l = (const void *)a; const struct tg_geom *b = null ? 0 : g;
    ASSERT((multi ? tg_geom_multi_index_spread(b) : line ? tg_line_index_spread(l) : tg_ring_index_spread(a)) == (has ? in_spread : 0), "post: spread");
    ASSERT((multi ? tg_geom_multi_index_num_levels(b) : line ? tg_line_index_num_levels(l) : tg_ring_index_num_levels(a)) == (has ? in_nl : 0), "post: number of levels");
    ASSERT((multi ? tg_geom_multi_index_level_num_rects(b, in_l) : line ? tg_line_index_level_num_rects(l, in_l) : tg_ring_index_level_num_rects(a, in_l)) == (has && inl ? in_nr : 0), "post: number of rectangles");
    struct tg_rect z = multi ? tg_geom_multi_index_level_rect(b, in_l, in_i) : line ? tg_line_index_level_rect(l, in_l, in_i) : tg_ring_index_level_rect(a, in_l, in_i);
    if (has && in) ASSERT(g_conv == 1 && BITS(z.min.x) == BITS(q.min.x) && BITS(z.min.y) == BITS(q.min.y) && BITS(z.max.x) == BITS(q.max.x) && BITS(z.max.y) == BITS(q.max.y), "post: the stored rectangle");
    else ASSERT(g_conv == 0 && BITS(z.min.x) == 0 && BITS(z.min.y) == 0 && BITS(z.max.x) == 0 && BITS(z.max.y) == 0, "post: zero rectangle outside the range");
    REACH(has && in && multi, "multi"); REACH(has && in && line && !multi, "line"); REACH(has && inl && !in && !multi, "out of range"); REACH(multi && !coll && !null, "not a collection");
}
