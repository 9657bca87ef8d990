//@ property G04
//@ covers tg_poly_intersects_line tg_line_intersects_poly
//@ remove tg_ring_contains_line tg_ring_intersects_line tg_poly_empty tg_line_empty
//@ ghost int g_k, g_any; _Bool g_hk; struct tg_ring *g_hole;
//@ nloops tg_poly_intersects_line 1
//@ loop tg_poly_intersects_line 0
__CPROVER_assigns(i, g_any)
__CPROVER_loop_invariant(0 <= i && i <= poly->nholes && !g_any && (g_k < i ? !g_hk : 1))
__CPROVER_decreases(poly->nholes - i)
//@ end
static struct tg_poly *g_p; static struct tg_line *g_l; static struct tg_ring *g_ext; static bool g_he, g_pe, g_le, g_base;
static bool tg_poly_empty(const struct tg_poly *p) { ASSERT(p == g_p, "pre: the polygon"); return g_pe; }
bool tg_line_empty(const struct tg_line *l) { ASSERT(l == g_l, "pre: the line"); return g_le; }
static bool tg_ring_intersects_line(const struct tg_ring *r, const struct tg_line *l, bool edge) { ASSERT((g_base ? (void *)r == g_p : r == g_ext && !g_pe && !g_le) && l == g_l && edge, "pre: the exterior with its edge"); return g_he; }
static bool tg_ring_contains_line(const struct tg_ring *r, const struct tg_line *l, bool edge, bool touch) { ASSERT(!g_base && l == g_l && !edge && !touch && g_he, "pre: the inside of a hole"); if (r == g_hole) { if (g_hk) g_any = 1; return g_hk; } bool h; if (h) g_any = 1; return h; }
void harness(void) {
    int n, k; bool null, w; g_he = nd_bool(); g_hk = nd_bool(); ASSUME(n >= 0 && n <= 1 << 28); struct tg_poly *p = malloc(sizeof *p); struct tg_ring **h = malloc(sizeof(*h) * n); g_hole = malloc(sizeof(struct tg_ring)); g_ext = malloc(sizeof(struct tg_ring)); g_l = malloc(1); ASSUME(p && h && g_hole && g_ext);
    p->exterior = g_ext; p->nholes = n; p->holes = h; ASSUME(k >= 0 && (n == 0 || k < n)); g_k = k; if (n) h[k] = g_hole; ASSUME(n == 0 || 1); p->head.base = g_base ? BASE_RING : BASE_POLY; g_p = null ? 0 : p; if (null) { ASSUME(g_pe && !g_base); } g_any = 0;
    bool r = w ? tg_poly_intersects_line(g_p, g_l) : tg_line_intersects_poly(g_l, g_p);
    if (g_base) ASSERT(r == g_he, "post: a polygon that is a ring meets what the ring does");
    else if (g_pe || g_le) ASSERT(!r, "post: nothing about an empty geometry");
    else { ASSERT(IMPL(r, g_he), "post: a line that meets the polygon meets its exterior"); ASSERT(IMPL(r, n == 0 || !g_hk), "post: and is in none of the holes"); ASSERT(IMPL(!r, !g_he || g_any), "post: a line that meets the exterior and is in no hole meets the polygon"); }
    REACH(r && n == 3 && !g_base && w, "in"); REACH(!r && g_he && n == 3 && !g_base, "hole");
    REACH(r && g_base, "ring");
}
