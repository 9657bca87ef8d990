//@ property L02
//@ covers tg_ring_contains_point index_pip
//@ plain
//@ remove tg_rect_covers_point ystripes_pip standard_pip index_pip_counter
static struct tg_ring *g_r; static double g_x, g_y; static bool g_edge, g_in, g_h; static int g_i, g_c;
static void ck(const struct tg_ring *r, struct tg_point p, bool e) { ASSERT(r == g_r && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y) && e == g_edge && g_in, "pre: the question"); g_c++; }
bool tg_rect_covers_point(struct tg_rect q, struct tg_point p) { ASSERT(BITS(q.min.x) == BITS(g_r->rect.min.x) && BITS(q.max.y) == BITS(g_r->rect.max.y) && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y), "pre: the rectangle of the ring"); return g_in; }
static struct ring_result ystripes_pip(const struct tg_ring *r, struct tg_point p, bool e) { ck(r, p, e); ASSERT(r->ystripes, "pre: has stripes"); return (struct ring_result){ g_h, g_i }; }
static struct ring_result standard_pip(const struct tg_ring *r, struct tg_point p, bool e) { ck(r, p, e); return (struct ring_result){ g_h, g_i }; }
static void index_pip_counter(const struct tg_ring *r, struct tg_point p, bool e, int l, int s, bool *in, int *idx) { ck(r, p, e); ASSERT(l == 0 && s == 0 && !*in && *idx == -1 && r->index, "pre: from the root, outside and on no segment"); *in = g_h; *idx = g_i; }
void harness(void) {
    struct tg_point p; int i; g_r = malloc(sizeof(struct tg_ring)); ASSUME(g_r); g_x = p.x; g_y = p.y; g_edge = nd_bool(); g_in = nd_bool(); g_h = nd_bool(); g_i = i; g_c = 0; struct index *ix; struct ystripes *ys; g_r->index = ix; g_r->ystripes = ys; struct tg_rect q; g_r->rect = q;
    struct ring_result r = tg_ring_contains_point(g_r, p, g_edge);
    if (g_in) ASSERT(g_c == 1 && r.hit == g_h && r.idx == g_i, "post: asked once, whichever structure the ring has"); else ASSERT(!g_c && !r.hit && r.idx == -1, "post: outside the rectangle, outside the ring");
    REACH(g_in && !ys && ix, "index"); REACH(g_in && ys, "stripes"); REACH(g_in && !ys && !ix, "none");
}
