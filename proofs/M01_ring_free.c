//@ property M01
//@ plain
//@ covers tg_ring_free tg_line_free boxed_point_free
//@ remove rc_release tg_free
static int g_rel; static rc_t *g_rcp; static bool g_last, g_fo, g_fy; static void *g_o, *g_y;
static bool rc_release(rc_t *rc) { ASSERT(rc == g_rcp && !g_fo, "pre: the count of that object"); g_rel++; return g_last; }
static void tg_free(void *p) { if (p == g_y && p) { ASSERT(!g_fy && !g_fo, "pre: released once, before its owner"); g_fy = 1; } else { ASSERT(p == g_o && !g_fo, "pre: the object, once"); g_fo = 1; } }
void harness(void) {
    bool null, noheap, last, ys; int kind; ASSUME(kind >= 0 && kind <= 2); g_last = last ? 1 : 0; g_rel = 0; g_fo = g_fy = 0;
    struct tg_ring *r = malloc(sizeof *r); struct boxed_point *b = malloc(sizeof *b); void *y = malloc(16); ASSUME(r && b && y); r->ystripes = ys ? y : 0; g_y = kind == 2 || !ys ? 0 : y; r->head.noheap = b->head.noheap = noheap ? 1 : 0;
    g_o = kind == 2 ? (void *)b : (void *)r; g_rcp = kind == 2 ? &b->head.rc : &r->head.rc; if (kind == 2) null = 0;
    if (kind == 0) tg_ring_free(null ? 0 : r); else if (kind == 1) tg_line_free(null ? 0 : (void *)r); else boxed_point_free(b);
    if (null || noheap) ASSERT(!g_fo && !g_fy, "post: null and pinned objects are left alone");
    else ASSERT(g_rel == 1 && g_fo == g_last && g_fy == (g_last && g_y), "post: one owner less, and the last one releases the object with its stripes");
    REACH(g_fo && g_fy && kind == 1, "line"); REACH(g_fo && kind == 2, "point"); REACH(!g_fo && g_rel, "shared");
}
