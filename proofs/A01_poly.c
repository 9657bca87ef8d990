//@ property A01 L01
//@ plain
//@ remove tg_ring_rect tg_ring_clockwise tg_ring_empty
//@ covers tg_poly_exterior tg_poly_num_holes tg_poly_hole_at tg_poly_rect tg_poly_clockwise tg_poly_empty
static const struct tg_ring *g_e; static struct tg_rect g_out; static bool g_c, g_m;
struct tg_rect tg_ring_rect(const struct tg_ring *r) { ASSERT(r == g_e, "pre: the exterior"); return g_out; }
bool tg_ring_clockwise(const struct tg_ring *r) { ASSERT(r == g_e, "pre: the exterior"); return g_c; }
bool tg_ring_empty(const struct tg_ring *r) { ASSERT(r == g_e, "pre: the exterior"); return g_m; }
void harness(void) {
    int in_n, in_i; bool null, ring, c, m; struct tg_rect q; g_out = q; g_c = c ? 1 : 0; g_m = m ? 1 : 0;
    ASSUME(in_n >= 0 && in_n <= 1 << 27);
    struct tg_poly *p = malloc(sizeof *p); struct tg_ring *r = malloc(sizeof *r), *e = malloc(sizeof *e); ASSUME(p && r && e);
    p->head.base = BASE_POLY; p->exterior = e; p->nholes = in_n; p->holes = malloc(sizeof(struct tg_ring *) * (in_n + 1ul)); ASSUME(p->holes != 0); r->head.base = BASE_RING;
    const struct tg_poly *a = null ? 0 : ring ? (const void *)r : p; g_e = null ? 0 : ring ? r : e;
    ASSERT(tg_poly_exterior(a) == g_e, "post: the exterior");
    int n = null || ring ? 0 : in_n;
    ASSERT(tg_poly_num_holes(a) == n, "post: number of holes");
    ASSERT(tg_poly_hole_at(a, in_i) == (in_i >= 0 && in_i < n ? p->holes[in_i] : 0), "post: the hole at the index, null outside the range");
    struct tg_rect z = tg_poly_rect(a);
    ASSERT(BITS(z.min.x) == BITS(q.min.x) && BITS(z.min.y) == BITS(q.min.y) && BITS(z.max.x) == BITS(q.max.x) && BITS(z.max.y) == BITS(q.max.y), "post: rectangle of the exterior");
    ASSERT(tg_poly_clockwise(a) == g_c, "post: winding of the exterior"); ASSERT(tg_poly_empty(a) == g_m, "post: empty as the exterior");
    REACH(n > 3 && in_i == 2, "hole"); REACH(n > 3 && in_i == n, "out of range"); REACH(ring && !null, "ring");
}
