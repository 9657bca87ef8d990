//@ property G04
//@ covers tg_rect_intersects_line tg_rect_intersects_poly tg_poly_intersects_rect tg_poly_covers_rect tg_line_intersects_rect
//@ plain
//@ remove rect_to_ring tg_ring_intersects_line tg_poly_intersects_poly tg_poly_covers_poly
static struct tg_line *g_l; static struct tg_poly *g_p; static bool g_a, g_b, g_c; static struct tg_rect g_q; static struct tg_ring *g_ring;
static void rect_to_ring(struct tg_rect q, struct tg_ring *r) { ASSERT(REQL(q, g_q), "pre: the rectangle"); g_ring = r; }
static bool tg_ring_intersects_line(const struct tg_ring *r, const struct tg_line *l, bool edge) { ASSERT(r == g_ring && l == g_l && edge, "pre: the ring of the rectangle, with its edge"); return g_a; }
bool tg_poly_intersects_poly(const struct tg_poly *p, const struct tg_poly *o) { ASSERT((void *)o == g_ring && p == g_p, "pre: the polygon of the rectangle"); return g_b; }
bool tg_poly_covers_poly(const struct tg_poly *p, const struct tg_poly *o) { ASSERT((void *)o == g_ring && p == g_p, "pre: the polygon of the rectangle"); return g_c; }
void harness(void) {
    int w; struct tg_rect q; g_q = q; g_a = nd_bool(); g_b = nd_bool(); g_c = nd_bool(); ASSUME(w >= 0 && w <= 4 && RFIN(g_q)); g_l = malloc(1); g_p = malloc(1);
    bool r = w == 0 ? tg_rect_intersects_line(g_q, g_l) : w == 1 ? tg_rect_intersects_poly(g_q, g_p) : w == 2 ? tg_poly_intersects_rect(g_p, g_q) : w == 3 ? tg_poly_covers_rect(g_p, g_q) : tg_line_intersects_rect(g_l, g_q);
    ASSERT(r == (w == 0 || w == 4 ? g_a : w == 3 ? g_c : g_b), "post: a rectangle behaves as its ring"); REACH(r && w == 4, "line");
}
