//@ property M02 M01 S03
//@ plain
//@ covers geom_new_multi
//@ remove geom_new tg_malloc tg_free calc_index_size fill_index_struct
//@ stub geom_new_multi memset
static struct tg_geom *g_g; static struct multi *g_m; static struct tg_geom **g_kids; static struct index *g_ix; static int *g_ixg; static int g_n, g_type, g_lv, g_live, g_seq, g_filled, g_zero; static bool g_failed; static size_t g_sz;
static bool l_g, l_m, l_k, l_x, l_i;
static struct tg_geom *geom_new(enum tg_geom_type t) { ASSERT(t == g_type && !l_g, "pre: its type"); bool f; if (f) { g_failed = 1; return 0; } l_g = 1; *g_g = (struct tg_geom){ 0 }; g_g->head.type = t; return g_g; }
static void *tg_malloc(size_t n) { bool f; int q = g_seq++;
    if (q == 0) { ASSERT(n == sizeof(struct multi), "pre: size of the list"); if (f) { g_failed = 1; return 0; } l_m = 1; return g_m; }
    if (q == 1) { ASSERT(n == sizeof(struct tg_geom *) * g_n, "pre: room for the children"); if (f) { g_failed = 1; return 0; } l_k = 1; return g_kids; }
    ASSERT(g_n >= 64, "pre: only long lists are indexed"); if (q == 2) { ASSERT(n == g_sz, "pre: size of the index"); if (f) { g_failed = 1; return 0; } l_x = 1; return g_ix; }
    ASSERT(q == 3 && n == sizeof(int) * g_n, "pre: room for the order"); if (f) { g_failed = 1; return 0; } l_i = 1; return g_ixg; }
static void tg_free(void *p) {
    if (p == g_g) { ASSERT(l_g && !l_m, "pre: the geometry goes last"); l_g = 0; } else if (p == g_m) { ASSERT(l_m && !l_k && !l_x && !l_i, "pre: the list after its parts"); l_m = 0; } else if (p == g_kids) { ASSERT(l_k, "pre: once"); l_k = 0; }
    else if (p == g_ix) { ASSERT(l_x, "pre: once"); l_x = 0; } else { ASSERT(p == g_ixg && l_i, "pre: only what was allocated"); l_i = 0; } }
static size_t calc_index_size(int spread, int nsegs, int *nlevels) { ASSERT(spread == 32 && nsegs == g_n, "pre: index of the children"); *nlevels = g_lv; return g_sz; }
static void fill_index_struct(struct index *ix, int nlevels, int n, int spread, size_t sz) { ASSERT(ix == g_ix && nlevels == g_lv && n == g_n && spread == 32 && sz == g_sz, "pre: the index of the children"); g_filled++; }
void *memset__c(void *p, int c, size_t n) { ASSERT(c == 0, "pre: zeros"); if (p == g_m) { ASSERT(n == sizeof(struct multi), "pre: the list"); *g_m = (struct multi){ 0 }; } else { ASSERT(p == g_kids && n == sizeof(struct tg_geom *) * g_n, "pre: the children"); g_zero++; } return p; }
void harness(void) {
    int t, n; ASSUME(t >= TG_MULTIPOINT && t <= TG_GEOMETRYCOLLECTION && n <= 1 << 27); g_type = t; g_n = n < 0 ? 0 : n; g_seq = g_filled = g_zero = 0; g_failed = l_g = l_m = l_k = l_x = l_i = 0; int lv; size_t sz; g_lv = lv; g_sz = sz;
    g_g = malloc(sizeof *g_g); g_m = malloc(sizeof *g_m); g_kids = malloc(8); g_ix = malloc(sizeof *g_ix); g_ixg = malloc(8); ASSUME(g_g && g_m && g_kids && g_ix && g_ixg);
    struct tg_geom *g = geom_new_multi(t, n);
    if (g_failed) ASSERT(!g && !l_g && !l_m && !l_k && !l_x && !l_i, "post: null when memory ran out and everything is released");
    else { ASSERT(g == g_g && g->multi == g_m && g_m->geoms == g_kids && g_m->ngeoms == g_n && g_zero == 1, "post: a list of that many empty places");
        ASSERT(g_n >= 64 ? g_m->index == g_ix && g_m->ixgeoms == g_ixg && g_filled == 1 : !g_m->index && !g_m->ixgeoms && !g_filled, "post: long lists are indexed"); }
    REACH(g && g_n > 64, "indexed"); REACH(g && n < 0, "negative"); REACH(g_failed && l_g == 0 && g_seq == 4, "failed late");
}
