//@ property G01
//@ covers tg_ring_contains_line
//@ remove tg_ring_empty tg_line_empty tg_ring_intersects_segment tg_ring_contains_segment tg_rect_covers_rect tg_line_rect tg_line_num_segments line_segment_at
//@ ghost int g_k, g_any, g_cur; _Bool g_hk, g_ik;
//@ nloops tg_ring_contains_line 2
//@ loop tg_ring_contains_line 0
__CPROVER_assigns(i, g_any, g_cur)
__CPROVER_loop_invariant(0 <= i && i <= nsegs && !g_any && (g_k < i ? g_hk && g_ik : 1))
__CPROVER_decreases(nsegs - i)
//@ end
//@ loop tg_ring_contains_line 1
__CPROVER_assigns(i, g_any, g_cur)
__CPROVER_loop_invariant(0 <= i && i <= nsegs && !g_any && (g_k < i ? g_hk : 1))
__CPROVER_decreases(nsegs - i)
//@ end
static struct tg_ring *g_a; static struct tg_line *g_l; static bool g_e1, g_e2, g_rc, g_edge, g_inner; static int g_n; static struct tg_rect g_q2;
bool tg_ring_empty(const struct tg_ring *r) { ASSERT(r == g_a, "pre: the ring"); return g_e1; }
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_e2; }
struct tg_rect tg_line_rect(const struct tg_line *l) { return g_q2; }
bool tg_rect_covers_rect(struct tg_rect a, struct tg_rect b) { ASSERT(BITS(a.min.x) == BITS(g_a->rect.min.x) && BITS(b.max.y) == BITS(g_q2.max.y), "pre: the rectangles in order"); return g_rc; }
int tg_line_num_segments(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_n; }
static struct tg_segment line_segment_at(const struct tg_line *l, int i) { struct tg_segment s; ASSERT(l == g_l && i >= 0 && i < g_n, "pre: a segment of the line"); g_cur = i; return s; }
bool tg_ring_contains_segment(const struct tg_ring *r, struct tg_segment s, bool edge) { ASSERT(r == g_a && edge == (g_inner ? 1 : g_edge) && g_rc && !g_e1 && !g_e2, "pre: segments of the line in the ring"); bool h = g_cur == g_k ? g_hk : nd_bool(); if (!h) g_any = 1; return h; }
bool tg_ring_intersects_segment(const struct tg_ring *r, struct tg_segment s, bool edge) { ASSERT(r == g_a && !edge && g_inner, "pre: segments of the line against the inside of the ring"); bool h = g_cur == g_k ? g_ik : nd_bool(); if (!h) g_any = 1; return h; }
void harness(void) {
    int n, k; ASSUME(n >= 0 && k >= 0 && k < n); g_n = n; g_a = malloc(sizeof(struct tg_ring)); ASSUME(g_a); g_l = malloc(1); g_k = k; g_any = 0; g_cur = -1; g_e1 = nd_bool(); g_e2 = nd_bool(); g_rc = nd_bool(); g_hk = nd_bool(); g_ik = nd_bool(); g_edge = nd_bool(); bool rb = nd_bool(); g_inner = !g_edge && rb; struct tg_rect q2; g_q2 = q2;
    bool r = tg_ring_contains_line(g_a, g_l, g_edge, rb);
    ASSERT(IMPL(r, !g_e1 && !g_e2 && g_rc && !g_any && g_hk && IMPL(g_inner, g_ik)), "post: a ring contains a line when it contains every segment"); ASSERT(IMPL(!r, g_e1 || g_e2 || !g_rc || g_any), "post: and not when a segment is not");
    REACH(r && n == 4 && g_inner, "in"); REACH(r && n == 4 && !g_inner, "in"); REACH(!r && g_rc && !g_e1 && !g_e2 && n == 4, "out");
}
