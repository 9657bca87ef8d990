//@ property G01
//@ covers tg_line_covers_poly tg_line_contains_poly tg_line_covers_rect tg_line_touches_poly
//@ plain
//@ remove tg_line_empty tg_poly_empty tg_poly_rect tg_line_covers_line rect_to_ring segment_to_ring tg_poly_touches_line
static struct tg_line *g_l; static const struct tg_poly *g_p; static bool g_le, g_pe, g_r, g_t, g_rectp; static struct tg_rect g_q; static struct tg_ring *g_ring; static int g_c;
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_le; }
static bool tg_poly_empty(const struct tg_poly *p) { if (g_rectp) { ASSERT(p->exterior == g_ring && p->nholes == 0 && !p->holes && p->head.base != BASE_RING, "pre: a polygon of the rectangle"); return 0; } ASSERT(p == g_p, "pre: the polygon"); return g_pe; }
struct tg_rect tg_poly_rect(const struct tg_poly *p) { return g_q; }
static void segment_to_ring(struct tg_segment s, struct tg_ring *r) { ASSERT(REQL(((struct tg_rect){ s.a, s.b }), g_q), "pre: the diagonal"); }
static void rect_to_ring(struct tg_rect q, struct tg_ring *r) { ASSERT(REQL(q, g_q), "pre: the rectangle"); g_ring = r; }
bool tg_line_covers_line(const struct tg_line *a, const struct tg_line *b) { ASSERT(a == g_l && (void *)b == g_ring, "pre: the line and the flat rectangle"); g_c++; return g_r; }
bool tg_poly_touches_line(const struct tg_poly *p, const struct tg_line *l) { ASSERT(p == g_p && l == g_l, "pre: swapped"); return g_t; }
void harness(void) {
    int w; ASSUME(w >= 0 && w <= 3); g_le = nd_bool(); g_pe = nd_bool(); g_r = nd_bool(); g_t = nd_bool(); struct tg_rect q; g_q = q; g_l = malloc(1); g_p = malloc(1); g_c = 0; g_rectp = w == 2; ASSUME(RFIN(g_q)); bool flat = g_q.min.x == g_q.max.x || g_q.min.y == g_q.max.y;
    bool r = w == 0 ? tg_line_covers_poly(g_l, g_p) : w == 1 ? tg_line_contains_poly(g_l, g_p) : w == 2 ? tg_line_covers_rect(g_l, g_q) : tg_line_touches_poly(g_l, g_p);
    if (w == 1) ASSERT(!r, "post: no line contains a polygon");
    else if (w == 3) ASSERT(r == g_t, "post: touching is symmetric");
    else ASSERT(r == (!g_le && (w == 2 || !g_pe) && flat && g_r), "post: only a flat polygon can be covered, by what covers its rectangle");
    REACH(r && w == 0, "flat"); REACH(r && w == 2, "rect");
}
