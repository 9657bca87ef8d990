//@ property L02 I01
//@ covers standard_pip
//@ def -Dludo -Dfor16(i,n,f)=while(i+1<=(n)){f;i++;} -Dfor8(i,n,f)=while(i+1<=(n)){f;i++;} -Dfor1(i,n,f)=while(i+1<=(n)){f;i++;}
//@ note the 16-fold unrolling of for16 is replaced by its single step (the macro repeats the same step; the bounded harness runs the unrolled code)
//@ remove pip_eval_seg_slow
//@ ghost int g_k, g_vis, g_last, g_idx; _Bool g_krel, g_in;
//@ nloops standard_pip 2
//@ loop standard_pip 0
__CPROVER_assigns(i, in, idx, g_vis, g_last, g_in, g_idx)
__CPROVER_loop_invariant(0 <= i && i <= ring->nsegs && g_last < i && in == g_in && idx == g_idx && g_vis == (g_k < i && g_krel ? 1 : 0))
__CPROVER_decreases(ring->nsegs - i)
//@ end
//@ loop standard_pip 1
__CPROVER_assigns(i)
__CPROVER_loop_invariant(__CPROVER_loop_entry(i) <= i && i <= ring->nsegs && g_last < i && g_vis == (g_k < i && g_krel ? 1 : 0))
__CPROVER_decreases(ring->nsegs - i)
//@ end
static struct tg_ring *g_r; static double g_x, g_y; static bool g_edge;
static void pip_eval_seg_slow(const struct tg_ring *r, int i, struct tg_point p, bool edge, bool *in, int *idx) {
    ASSERT(r == g_r && i >= 0 && i < r->nsegs && i > g_last && BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y) && edge == g_edge && *in == g_in && *idx == g_idx, "pre: the segments in order, with the state so far");
    g_last = i; if (i == g_k) g_vis++; g_in = nd_bool(); int v; g_idx = v; *in = g_in; *idx = g_idx;
}
void harness(void) {
    int n, k; struct tg_point p; ASSUME(n >= 1 && n <= 1 << 26 && k >= 0 && k < n); g_r = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * (n + 1ul)); ASSUME(g_r); g_r->nsegs = n; g_edge = nd_bool(); g_x = p.x; g_y = p.y; g_k = k; g_vis = 0; g_last = -1; g_in = 0; g_idx = -1;
    double a = g_r->points[k].y, b = g_r->points[k + 1].y; ASSUME(a == a && b == b && p.y == p.y); g_krel = p.y >= MIN2(a, b) && p.y <= MAX2(a, b);
    struct ring_result q = standard_pip(g_r, p, g_edge);
    ASSERT(g_vis == (g_krel ? 1 : 0), "post: exactly the segments level with the point are judged, once"); ASSERT(q.hit == g_in && q.idx == g_idx, "post: the judgement of the last one is the result");
    REACH(g_vis && n == 40 && k == 33, "level"); REACH(g_last == -1 && n == 20, "none");
}
