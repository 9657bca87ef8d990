//@ property L02 I01
//@ covers index_pip_counter
//@ def -Dludo -Dfor16(i,n,f)=while(i+1<=(n)){f;i++;} -Dfor8(i,n,f)=while(i+1<=(n)){f;i++;} -Dfor1(i,n,f)=while(i+1<=(n)){f;i++;}
//@ note the 16-fold unrolling of for16 is replaced by its single step (the macro repeats the same step; the bounded harness runs the unrolled code)
//@ remove pip_eval_seg branch_maybe_in tg_point_to_ixpoint
//@ umul index_pip_counter i*ixspread
//@ stub index_pip_counter index_pip_counter
//@ ghost int g_k, g_vis, g_last, g_hit; _Bool g_krel;
//@ note the product i*ixspread does not overflow: it is below the size of the next level (level sizes: property I02)
//@ note precondition of the tracked segment: the index rectangles above a segment that matters for the point are entered (units I01_branch_maybe_in, I02_*)
//@ nloops index_pip_counter 2
//@ loop index_pip_counter 0
__CPROVER_assigns(i, g_vis, g_last, __CPROVER_object_whole(in), __CPROVER_object_whole(idx))
__CPROVER_loop_invariant(start <= i && (i <= e || e < start) && g_last < i && g_vis == (start <= g_k && g_k < i ? 1 : 0))
__CPROVER_decreases(e - i)
//@ end
//@ loop index_pip_counter 1
__CPROVER_assigns(i, g_vis, g_last, g_hit)
__CPROVER_loop_invariant(start <= i && (i <= e || e < start) && g_vis >= (start <= g_k && g_k < i && g_krel ? 1 : 0) && g_vis <= i - start)
__CPROVER_decreases(e - i)
//@ end
static struct tg_ring *g_r; static double g_x, g_y; static bool g_edge, g_leaf, *g_in; static int *g_idx, g_lvl, g_spread; static struct ixrect *g_rects; static int g_n;
static void pip_eval_seg(const struct tg_ring *r, int i, struct tg_point p, bool edge, bool *in, int *idx) {
    ASSERT(g_leaf && r == g_r && i >= 0 && i < r->nsegs && i > g_last && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y) && edge == g_edge && in == g_in && idx == g_idx, "pre: the segments of a leaf in order");
    g_last = i; if (i == g_k) g_vis++; }
static void tg_point_to_ixpoint(struct tg_point *p, struct ixpoint *x) { ASSERT(BITS(p->x) == BITS(g_x) && BITS(p->y) == BITS(g_y), "pre: the point"); x->x = 3; x->y = 4; }
static float tagf(int i) { union { int i; float f; } v = { .i = i }; return v.f; }
static bool branch_maybe_in(struct ixpoint p, struct ixrect q) { ASSERT(p.x == 3 && p.y == 4, "pre: the point"); bool r = q.min.x == 5 ? g_krel : nd_bool(); g_hit = r; return r; }
static void index_pip_counter__c(const struct tg_ring *r, struct tg_point p, bool edge, int l, int s, bool *in, int *idx) {
    ASSERT(!g_leaf && r == g_r && l == g_lvl + 1 && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y) && edge == g_edge && in == g_in && idx == g_idx, "pre: the next level of the same search"); ASSERT(g_hit, "pre: only children of a rectangle the point may be in"); g_last = s; if (s == __CPROVER_uninterpreted_mul(g_k, g_spread)) g_vis++; }
void harness(void) {
    int n, nr, start, lvl, nl, spread, k; struct tg_point p; ASSUME(n >= 1 && n <= 1 << 26 && nr >= 1 && nr <= 1 << 26 && nl >= 1 && nl <= 31 && lvl >= 0 && lvl <= nl && spread >= 2 && spread <= 4096);
    struct tg_ring *r = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * (n + 1ul)); struct index *ix = malloc(sizeof(struct index) + sizeof(struct level) * 32); struct ixrect *rects = malloc(sizeof(struct ixrect) * nr); g_in = malloc(1); g_idx = malloc(sizeof(int)); ASSUME(r && ix && rects && g_in && g_idx);
    g_r = r; r->nsegs = n; r->index = ix; ix->spread = spread; ix->nlevels = nl; g_leaf = lvl == nl; g_lvl = lvl; g_spread = spread; g_rects = rects; g_n = nr; g_edge = nd_bool(); g_krel = nd_bool(); g_x = p.x; g_y = p.y;
    if (!g_leaf) { ix->levels[lvl].rects = rects; ix->levels[lvl].nrects = nr; }
    int cnt = g_leaf ? n : nr; ASSUME(start >= 0 && start < cnt && k >= 0 && k < cnt); g_k = k; g_vis = 0; g_last = -1; g_hit = 0; if (!g_leaf) rects[k].min.x = 5;
    index_pip_counter(r, p, g_edge, lvl, start, g_in, g_idx);
    bool under = start <= k && k - start < spread;
    if (g_leaf) ASSERT(g_vis == (under ? 1 : 0), "post: every segment of the leaf is judged once"); else { ASSERT(g_vis >= (under && g_krel ? 1 : 0), "post: the block of children of every rectangle the point may be in is searched"); }
    REACH(g_leaf && g_vis && k == 20, "leaf"); REACH(!g_leaf && g_vis && k > 5, "branch");
}
