//@ property M01 M02
//@ covers tg_ring_copy
//@ plain
//@ checks off
//@ remove ring_alloc_size tg_malloc tg_free rc_init rc_retain rebase_index
//@ stub tg_ring_copy memcpy
static struct tg_ring *g_r, *g_n; static size_t g_size; static int g_rc, g_reb, g_c1, g_seq; static bool g_failed; static unsigned long g_ixoff;
static size_t ring_alloc_size(const struct tg_ring *r) { ASSERT(r == g_r, "pre: the ring"); return g_size; }
static void *tg_malloc(size_t n) { bool f; ASSERT(!g_seq++ && n == g_size, "pre: the size of the ring, once"); if (f) { g_failed = 1; return 0; } return g_n; }
static void tg_free(void *p) { ASSERT(0, "pre: nothing to release"); }
void *memcpy__c(void *d, const void *s, size_t n) { ASSERT(d == g_n && s == g_r && n == g_size && !g_c1, "pre: copies the whole ring"); g_c1++; g_n->head = g_r->head; g_n->npoints = g_r->npoints; g_n->nsegs = g_r->nsegs; g_n->rect = g_r->rect; g_n->index = g_r->index; g_n->ystripes = 0; g_n->closed = g_r->closed; return d; }
static void rc_init(rc_t *rc) { ASSERT(rc == &g_n->head.rc && g_c1, "pre: the count of the copy, after the copy"); g_rc = 0; }
static void rc_retain(rc_t *rc) { ASSERT(rc == &g_n->head.rc, "pre: the count of the copy"); g_rc++; }
static void rebase_index(struct index *c, const struct index *x) { ASSERT((char *)c == (char *)g_n + g_ixoff && x == g_r->index && g_c1, "pre: the index of the copy, after the copy"); g_reb++; }
void harness(void) {
    bool null, hasix, nh; unsigned long ixoff, size; ASSUME(ixoff <= 1ul << 40);
    g_r = malloc(sizeof(struct tg_ring)); g_n = malloc(sizeof(struct tg_ring)); ASSUME(g_r && g_n); char *a = (void *)g_r, *b = (void *)g_n;
    g_size = size; g_ixoff = ixoff; g_r->head.noheap = nh ? 1 : 0; g_r->index = hasix ? (void *)(a + ixoff) : 0; g_r->ystripes = 0;
    g_rc = g_reb = g_c1 = g_seq = 0; g_failed = 0; int np, nsg; struct tg_rect q; g_r->npoints = np; g_r->nsegs = nsg; g_r->rect = q;
    struct tg_ring *c = tg_ring_copy(null ? 0 : g_r);
    if (null) ASSERT(!c && !g_seq, "post: null copies to null");
    else if (g_failed) ASSERT(!c, "post: null when memory ran out");
    else ASSERT(c == g_n && g_c1 == 1 && g_rc == 1 && !c->head.noheap && c->npoints == np && c->nsegs == nsg && BITS(c->rect.min.x) == BITS(q.min.x) && !c->ystripes && (hasix ? (char *)c->index == b + ixoff && g_reb == 1 : !c->index && !g_reb), "post: a copy of one owner that is not pinned, with its own index");
    ASSERT(g_r->index == (hasix ? (void *)(a + ixoff) : 0) && g_r->head.noheap == (nh ? 1 : 0), "post: the original is unchanged");
    REACH(c && hasix && nh, "indexed"); REACH(!null && !c, "no memory");
}
