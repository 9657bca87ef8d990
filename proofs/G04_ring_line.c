//@ property G04
//@ covers tg_ring_intersects_line
//@ remove tg_ring_empty tg_line_empty tg_ring_intersects_segment tg_rect_intersects_rect tg_ring_rect tg_line_rect tg_line_num_segments tg_line_segment_at
//@ ghost int g_k, g_any, g_cur; _Bool g_hk;
//@ nloops tg_ring_intersects_line 1
//@ loop tg_ring_intersects_line 0
__CPROVER_assigns(i, g_any, g_cur)
__CPROVER_loop_invariant(0 <= i && i <= nsegs && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(nsegs - i)
//@ end
static struct tg_ring *g_a; static struct tg_line *g_l; static bool g_e1, g_e2, g_rc, g_edge; static int g_n; static struct tg_rect g_q1, g_q2;
bool tg_ring_empty(const struct tg_ring *r) { ASSERT(r == g_a, "pre: the ring"); return g_e1; }
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_e2; }
struct tg_rect tg_ring_rect(const struct tg_ring *r) { return g_q1; }
struct tg_rect tg_line_rect(const struct tg_line *l) { return g_q2; }
bool tg_rect_intersects_rect(struct tg_rect a, struct tg_rect b) { ASSERT(BITS(a.min.x) == BITS(g_q1.min.x) && BITS(b.max.y) == BITS(g_q2.max.y), "pre: the two rectangles"); return g_rc; }
int tg_line_num_segments(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_n; }
struct tg_segment tg_line_segment_at(const struct tg_line *l, int i) { struct tg_segment s; ASSERT(l == g_l && i >= 0 && i < g_n, "pre: a segment of the line"); g_cur = i; return s; }
bool tg_ring_intersects_segment(const struct tg_ring *r, struct tg_segment s, bool edge) { ASSERT(r == g_a && edge == g_edge && g_rc && !g_e1 && !g_e2, "pre: segments of the line against the ring"); bool h = g_cur == g_k ? g_hk : nd_bool(); if (h) g_any = 1; return h; }
void harness(void) {
    int n, k; ASSUME(n >= 0 && k >= 0 && k < n); g_n = n; g_a = malloc(sizeof(struct tg_ring)); g_l = malloc(1); g_k = k; g_any = 0; g_cur = -1; g_e1 = nd_bool(); g_e2 = nd_bool(); g_rc = nd_bool(); g_hk = nd_bool(); g_edge = nd_bool(); struct tg_rect q1, q2; g_q1 = q1; g_q2 = q2;
    bool r = tg_ring_intersects_line(g_a, g_l, g_edge);
    ASSERT(IMPL(r, !g_e1 && !g_e2 && g_rc && g_any), "post: a ring meets a line when it meets a segment"); ASSERT(IMPL(!r, g_e1 || g_e2 || !g_rc || !g_any && !g_hk), "post: and not when it meets none");
    REACH(r && n == 4, "meet"); REACH(!r && g_rc && !g_e1 && !g_e2 && n == 4, "apart");
}
