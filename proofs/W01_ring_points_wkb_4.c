//@ property W01 B02
//@ covers write_ring_points_wkb_4
//@ remove write_uint32le write_posn_wkb_4
//@ ghost unsigned long g_p, g_base, g_len; int g_k; _Bool g_in; unsigned char g_want, g_old;
//@ use wstub
//@ nloops write_ring_points_wkb_4 1
//@ loop write_ring_points_wkb_4 0
__CPROVER_assigns(i, j, z, m, wr->count, wr->dst[g_p])
__CPROVER_loop_invariant(0 <= i && i <= ring->npoints && wr->count == g_base + 4 + 32 * (size_t)i && j == (2 * i < ncoords ? 2 * i : ncoords))
__CPROVER_loop_invariant(wr->dst[g_p] == (g_p >= g_base && (g_p < g_base + 4 || (g_k < i && g_in)) ? g_want : g_old))
__CPROVER_decreases(ring->npoints - i)
//@ end
STUB_U32
static void write_posn_wkb_4(struct writer *wr, struct tg_point p, double z, double m) PUT(wr, 32, (o < 8 ? BITS(p.x) : o < 16 ? BITS(p.y) : o < 24 ? BITS(z) : BITS(m)) >> (8 * (o & 7)))
void harness(void) {
    W_SETUP()
    g_base = in_count; g_old = old;
    int in_np, in_k, in_nc; size_t in_r; ASSUME(in_np >= 1 && in_np <= 1 << 27 && in_k >= 0 && in_k < in_np && in_r < 32 && in_nc >= 0 && in_nc <= 1 << 27);
    g_k = in_k;
    struct tg_ring *ring = malloc(sizeof(struct tg_ring) + in_np * sizeof(struct tg_point)); ASSUME(ring);
    double *coords = malloc(in_nc * sizeof(double)); ASSUME(coords);
    ring->npoints = in_np;
    size_t total = 4 + 32 * (size_t)in_np;
    bool head = in_p >= in_count && in_p < in_count + 4;
    g_in = in_p == in_count + 4 + 32 * (size_t)in_k + in_r;
    ASSUME(in_p < in_count || in_p >= in_count + total || head || g_in);
    struct tg_point q = ring->points[in_k];
    double z = 2 * in_k < in_nc ? coords[2 * in_k] : 0, m = 2 * in_k + 1 < in_nc ? coords[2 * in_k + 1] : 0;
    g_want = head ? (uint8_t)((uint32_t)in_np >> (8 * (in_p - in_count))) : (uint8_t)((in_r < 8 ? BITS(q.x) : in_r < 16 ? BITS(q.y) : in_r < 24 ? BITS(z) : BITS(m)) >> (8 * (in_r & 7)));
    int r = write_ring_points_wkb_4(&w, ring, coords, in_nc);
    ASSERT(r == in_np && w.count == in_count + total && w.dst == d && w.n == in_n, "post: length");
    ASSERT(d[in_p] == (head || g_in ? g_want : old), "post: exactly the output bytes that fit are stored");
    REACH(in_count > in_n, "beyond"); REACH(g_in && in_k == 7, "inside"); REACH(g_in && in_count + total > in_n, "cut");
}
