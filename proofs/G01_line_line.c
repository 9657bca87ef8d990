//@ property G01
//@ covers tg_line_covers_line tg_line_contains_line
//@ remove tg_line_empty tg_rect_covers_rect tg_line_rect tg_line_num_segments tg_line_segment_at tg_segment_covers_segment
//@ ghost int g_k, g_m, g_ca, g_cb; _Bool g_found, g_missm, g_none;
//@ nloops tg_line_covers_line 2
//@ loop tg_line_covers_line 0
__CPROVER_assigns(i, j, g_ca, g_cb, g_found, g_missm, g_none)
__CPROVER_loop_invariant(0 <= i && i <= bnsegs && 0 <= j && j < ansegs && (g_k < i ? g_found : 1))
__CPROVER_decreases(bnsegs - i)
//@ end
//@ loop tg_line_covers_line 1
__CPROVER_assigns(lo, hi, k, g_ca, g_found, g_missm, g_none)
__CPROVER_loop_invariant(-1 <= lo && lo <= j && j < hi && hi <= ansegs && k >= -1 && k < ansegs && g_cb == i && (k == -1 ? (g_m > lo && g_m < hi && !(lo == j && hi == j + 1) ? g_missm : 1) : (g_k == i ? g_found : 1)) && (g_k < i ? g_found : 1))
__CPROVER_decreases(ansegs + lo - hi)
//@ end
static struct tg_line *g_a, *g_b; static bool g_e1, g_e2, g_rc; static int g_an, g_bn;
static double tag(int i) { union { unsigned long u; double d; } v = { .u = (unsigned)i }; return v.d; }
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_a || l == g_b, "pre: a line"); return l == g_a ? g_e1 : g_e2; }
struct tg_rect tg_line_rect(const struct tg_line *l) { struct tg_rect q = {{ l == g_a, 0 }, { 0, 0 }}; return q; }
bool tg_rect_covers_rect(struct tg_rect a, struct tg_rect b) { ASSERT(a.min.x == 1 && b.min.x == 0, "pre: the rectangles in order"); return g_rc; }
int tg_line_num_segments(const struct tg_line *l) { ASSERT(l == g_a || l == g_b, "pre: a line"); return l == g_a ? g_an : g_bn; }
struct tg_segment tg_line_segment_at(const struct tg_line *l, int i) { ASSERT(l == g_a && i >= 0 && i < g_an || l == g_b && i >= 0 && i < g_bn, "pre: a segment of the line"); struct tg_segment s = {{ l == g_a ? 1.0 : 0.0, tag(i) }, { 0, 0 }}; if (l == g_a) g_ca = i; else { g_cb = i; g_missm = 0; } return s; }
bool tg_segment_covers_segment(struct tg_segment a, struct tg_segment b) { ASSERT(BITS(a.a.x) == BITS(1.0) && BITS(a.a.y) == (unsigned)g_ca && BITS(b.a.x) == 0 && BITS(b.a.y) == (unsigned)g_cb, "pre: a segment of the first against the current one of the second"); bool h = nd_bool(); if (h && g_cb == g_k) g_found = 1; if (!h && g_ca == g_m) g_missm = 1; return h; }
void harness(void) {
    int n, k, n2, m; ASSUME(n >= 1 && n2 >= 1 && n < 1 << 28 && n2 < 1 << 28 && k >= 0 && k < n2 && m >= 0 && m < n); bool w = nd_bool(); g_a = malloc(1); g_b = malloc(1); ASSUME(g_a && g_b); g_an = n; g_bn = n2; g_k = k; g_m = m; g_found = g_missm = 0; g_ca = g_cb = -1; g_e1 = nd_bool(); g_e2 = nd_bool(); g_rc = nd_bool();
    bool r = w ? tg_line_covers_line(g_a, g_b) : tg_line_contains_line(g_a, g_b);
    ASSERT(IMPL(r, !g_e1 && !g_e2 && g_rc && g_found), "post: every segment is covered by one of the line"); ASSERT(IMPL(!r, g_e1 || g_e2 || !g_rc || g_missm), "post: otherwise a segment is covered by none");
    REACH(r && n == 4 && n2 == 3, "in"); REACH(!r && g_rc && !g_e1 && !g_e2 && n == 4, "out");
}
