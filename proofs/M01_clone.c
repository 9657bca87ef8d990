//@ property M01
//@ plain
//@ covers tg_ring_clone tg_line_clone tg_poly_clone tg_geom_clone
//@ remove rc_retain tg_ring_copy tg_poly_copy tg_geom_copy
static int g_ret, g_cp; static rc_t *g_rcp; static const void *g_obj; static void *g_copy; static int g_kind;
static void rc_retain(rc_t *rc) { ASSERT(rc == g_rcp, "pre: the count of that object"); g_ret++; }
struct tg_ring *tg_ring_copy(const struct tg_ring *r) { ASSERT(r == g_obj && g_kind <= 1, "pre: copies the object"); g_cp++; return g_copy; }
struct tg_poly *tg_poly_copy(const struct tg_poly *r) { ASSERT(r == g_obj && g_kind == 2, "pre: copies the object"); g_cp++; return g_copy; }
struct tg_geom *tg_geom_copy(const struct tg_geom *r) { ASSERT(r == g_obj && g_kind == 3, "pre: copies the object"); g_cp++; return g_copy; }
void harness(void) {
    bool null, noheap; ASSUME(g_kind >= 0 && g_kind <= 3); int kind; ASSUME(kind >= 0 && kind <= 3); g_kind = kind; g_ret = g_cp = 0;
    struct tg_geom *o = malloc(sizeof(struct tg_geom) + sizeof(struct tg_ring)); void *c = malloc(8); ASSUME(o && c); o->head.noheap = noheap ? 1 : 0; g_rcp = &o->head.rc; bool oom; g_copy = null || oom ? 0 : c; g_obj = null ? 0 : o;
    void *a = null ? 0 : o;
    void *r = kind == 0 ? (void *)tg_ring_clone(a) : kind == 1 ? (void *)tg_line_clone(a) : kind == 2 ? (void *)tg_poly_clone(a) : (void *)tg_geom_clone(a);
    if (null) ASSERT(!r && !g_ret, "post: null clones to null");
    else if (noheap) ASSERT(r == g_copy && g_cp == 1 && !g_ret, "post: a pinned object is copied");
    else ASSERT(r == o && g_ret == 1 && !g_cp, "post: the same object with one owner more");
    REACH(r == o && kind == 1, "line"); REACH(r == c && kind == 2, "copied"); REACH(r == o && kind == 3, "geom");
}
