//@ property G01
//@ covers tg_point_touches_poly tg_poly_touches_point
//@ remove tg_line_covers_point tg_poly_exterior tg_poly_num_holes tg_poly_hole_at
//@ ghost int g_k, g_any; _Bool g_hk; struct tg_ring *g_hole;
//@ nloops tg_point_touches_poly 1
//@ loop tg_point_touches_poly 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= nholes && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(nholes - i)
//@ end
static struct tg_poly *g_p; static struct tg_ring *g_ext; static bool g_he; static int g_n; static double g_x, g_y;
const struct tg_ring *tg_poly_exterior(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_ext; }
int tg_poly_num_holes(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_n; }
const struct tg_ring *tg_poly_hole_at(const struct tg_poly *p, int i) { ASSERT(p == g_p && i >= 0 && i < g_n, "pre: a hole of the polygon"); struct tg_ring *o; ASSUME(o != g_ext && o != g_hole); return i == g_k ? g_hole : o; }
bool tg_line_covers_point(const struct tg_line *l, struct tg_point p) { ASSERT(BITS(p.x) == BITS(g_x) && BITS(p.y) == BITS(g_y), "pre: the point"); bool h; if ((void *)l == g_ext) h = g_he; else if ((void *)l == g_hole) h = g_hk; if (h) g_any = 1; return h; }
void harness(void) {
    int n, k; bool w; ASSUME(n >= 0 && k >= 0); g_n = n; g_k = k; g_hole = malloc(1); g_ext = malloc(1); g_p = malloc(1); ASSUME(g_hole && g_ext); g_any = 0; struct tg_point p; g_x = p.x; g_y = p.y;
    bool r = w ? tg_point_touches_poly(p, g_p) : tg_poly_touches_point(g_p, p);
    ASSERT(IMPL(r, g_any), "post: a point that touches is on a ring"); ASSERT(IMPL(!r, !g_he && (k >= n || !g_hk)), "post: a point on a ring touches");
    REACH(r && n == 3 && w && !g_he, "hole"); REACH(!r && n == 2, "none");
}
