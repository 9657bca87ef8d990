//@ property L02 I01
//@ covers ystripes_pip
//@ remove pip_eval_seg ystripe_at
//@ ghost int g_k, g_vis, g_n, g_idx; _Bool g_in; int *g_list;
//@ nloops ystripes_pip 1
//@ hoist ystripes ystripes_pip
//@ loop ystripes_pip 0
__CPROVER_assigns(i, in, idx, g_vis, g_n, g_in, g_idx)
__CPROVER_loop_invariant(0 <= i && i <= ystripe->count && g_n == i && in == g_in && idx == g_idx && g_vis == (g_k < i ? 1 : 0))
__CPROVER_decreases(ystripe->count - i)
//@ end
static struct tg_ring *g_r; static double g_x, g_y; static bool g_edge; static int g_s, g_ns;
static int ystripe_at(double y, double ymin, double h, int n) { ASSERT(BITS(y) == BITS(g_y) && BITS(ymin) == BITS(2.0) && BITS(h) == BITS(5.0) && n == g_ns, "pre: the stripe of the point"); return g_s; }
static void pip_eval_seg(const struct tg_ring *r, int j, struct tg_point p, bool edge, bool *in, int *idx) { ASSERT(r == g_r && j == g_list[g_n] && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y) && edge == g_edge && *in == g_in && *idx == g_idx, "pre: the segments of the stripe in order"); if (g_n == g_k) g_vis++; g_n++; g_in = nd_bool(); int v; g_idx = v; *in = g_in; *idx = g_idx; }
void harness(void) {
    int ns, s, c, k; struct tg_point p; ASSUME(ns >= 1 && ns <= 1 << 24 && s >= 0 && s < ns && c >= 0 && c <= 1 << 26 && k >= 0 && k < c); g_r = malloc(sizeof(struct tg_ring)); struct ystripes *ys = malloc(sizeof(struct ystripes) + sizeof(struct ystripe) * (unsigned long)ns); g_list = malloc(sizeof(int) * (unsigned long)c); ASSUME(g_r && ys && g_list); g_r->ystripes = ys; ys->nstripes = ns; ys->stripes[s].count = c; ys->stripes[s].indexes = g_list; g_r->rect.min.y = 2; g_r->rect.max.y = 7; g_s = s; g_ns = ns; g_k = k; g_vis = 0; g_n = 0; g_in = 0; g_idx = -1; g_edge = nd_bool(); g_x = p.x; g_y = p.y;
    struct ring_result q = ystripes_pip(g_r, p, g_edge);
    ASSERT(g_vis == 1 && g_n == c, "post: every segment of the stripe of the point is judged once"); ASSERT(q.hit == g_in && q.idx == g_idx, "post: the judgement of the last one is the result");
    REACH(c == 3 && k == 2, "three");
}
