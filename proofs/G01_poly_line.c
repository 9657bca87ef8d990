//@ property G01
//@ covers tg_poly_covers_line tg_poly_contains_line
//@ remove tg_ring_contains_line tg_ring_intersects_line tg_poly_empty tg_line_empty tg_poly_exterior tg_poly_num_holes tg_poly_hole_at
//@ ghost int g_k, g_any; _Bool g_hk; struct tg_ring *g_hole;
//@ nloops tg_poly_covers_line 1
//@ loop tg_poly_covers_line 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= nholes && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(nholes - i)
//@ end
//@ nloops tg_poly_contains_line 1
//@ loop tg_poly_contains_line 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= nholes && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(nholes - i)
//@ end
static struct tg_poly *g_p; static struct tg_line *g_l; static struct tg_ring *g_ext; static bool g_he, g_pe, g_le, g_cov; static int g_n;
static bool tg_poly_empty(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_pe; }
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_le; }
const struct tg_ring *tg_poly_exterior(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_ext; }
int tg_poly_num_holes(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_n; }
const struct tg_ring *tg_poly_hole_at(const struct tg_poly *p, int i) { ASSERT(p == g_p && i >= 0 && i < g_n, "pre: a hole of the polygon"); struct tg_ring *o; ASSUME(o != g_ext && o != g_hole); return i == g_k ? g_hole : o; }
static bool tg_ring_contains_line(const struct tg_ring *r, const struct tg_line *l, bool edge, bool touch) { ASSERT(r == g_ext && l == g_l && !g_pe && !g_le, "pre: the exterior"); ASSERT(edge == g_cov && touch == !g_cov, "pre: covering allows the edge, containing does not"); return g_he; }
static bool tg_ring_intersects_line(const struct tg_ring *r, const struct tg_line *l, bool edge) { ASSERT(r != g_ext && l == g_l && !edge && g_he, "pre: the inside of a hole"); if (r == g_hole) { if (g_hk) g_any = 1; return g_hk; } bool h; if (h) g_any = 1; return h; }
void harness(void) {
    int n, k; ASSUME(n >= 0 && k >= 0); g_n = n; g_k = k; g_hole = malloc(1); g_ext = malloc(1); g_p = malloc(1); g_l = malloc(1); ASSUME(g_hole && g_ext); g_any = 0; bool w = nd_bool(); g_cov = w; g_he = nd_bool(); g_hk = nd_bool();
    bool r = w ? tg_poly_covers_line(g_p, g_l) : tg_poly_contains_line(g_p, g_l);
    if (g_pe || g_le) ASSERT(!r, "post: nothing about an empty geometry");
    else { ASSERT(IMPL(r, g_he), "post: the exterior contains the line"); ASSERT(IMPL(r, k >= n || !g_hk), "post: the line enters no hole"); ASSERT(IMPL(!r, !g_he || g_any), "post: a line in the exterior that enters no hole is covered"); }
    REACH(r && n == 3 && w, "in"); REACH(!r && g_he && n == 3 && !w, "hole");
}
