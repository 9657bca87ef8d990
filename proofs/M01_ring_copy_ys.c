//@ property M01 M02
//@ covers tg_ring_copy
//@ checks off
//@ remove ring_alloc_size tg_malloc tg_free rc_init rc_retain rebase_index
//@ stub tg_ring_copy memcpy
//@ hoist ystripes process_ystripes
//@ ghost int g_k; unsigned long g_off; char *g_yc; struct ystripes *g_y, *g_yn;
//@ nloops tg_ring_copy 1
//@ loop tg_ring_copy 0
__CPROVER_assigns(i, __CPROVER_object_whole(ring2->ystripes))
__CPROVER_loop_invariant(0 <= i && i <= ring->ystripes->nstripes && (g_k < i ? (char *)g_yn->stripes[g_k].indexes == g_yc + g_off : 1))
__CPROVER_decreases(ring->ystripes->nstripes - i)
//@ end
static struct tg_ring *g_r, *g_n; static size_t g_size, g_ysize; static int g_rc, g_c1, g_c2, g_seq; static bool g_failed, l_r, l_y;
static size_t ring_alloc_size(const struct tg_ring *r) { ASSERT(r == g_r, "pre: the ring"); return g_size; }
static void *tg_malloc(size_t n) { bool f; if (!g_seq++) { ASSERT(n == g_size, "pre: the size of the ring"); if (f) { g_failed = 1; return 0; } l_r = 1; return g_n; } ASSERT(n == g_ysize && g_seq == 2, "pre: the size of its stripes"); if (f) { g_failed = 1; return 0; } l_y = 1; return g_yn; }
static void tg_free(void *p) { if (p == g_n) { ASSERT(l_r, "pre: once"); l_r = 0; } else { ASSERT(p == g_yn && l_y, "pre: only what was allocated"); l_y = 0; } }
void *memcpy__c(void *d, const void *s, size_t n) { if (d == g_n) { ASSERT(s == g_r && n == g_size && l_r && !g_c1, "pre: copies the whole ring"); g_c1++; g_n->ystripes = g_r->ystripes; g_n->index = 0; g_n->head = g_r->head; } else { ASSERT(d == g_yn && s == g_y && n == g_ysize && l_y, "pre: copies all its stripes"); g_c2++; g_yn->memsz = g_y->memsz; g_yn->nstripes = g_y->nstripes; } return d; }
static void rc_init(rc_t *rc) { ASSERT(rc == &g_n->head.rc && g_c1, "pre: the count of the copy, after the copy"); g_rc = 0; }
static void rc_retain(rc_t *rc) { ASSERT(rc == &g_n->head.rc, "pre: the count of the copy"); g_rc++; }
static void rebase_index(struct index *c, const struct index *x) { ASSERT(0, "pre: no index"); }
void harness(void) {
    int ns, k; unsigned long off; ASSUME(ns >= 0 && ns <= 1 << 24 && k >= 0 && k < ns);
    g_r = malloc(sizeof(struct tg_ring)); g_n = malloc(sizeof(struct tg_ring)); unsigned long yh = sizeof(struct ystripes) + sizeof(struct ystripe) * (unsigned long)ns; g_y = malloc(sizeof(struct ystripes) + sizeof(struct ystripe) * (unsigned long)ns); g_yn = malloc(sizeof(struct ystripes) + sizeof(struct ystripe) * (unsigned long)ns); ASSUME(g_r && g_n && g_y && g_yn && off <= yh);
    g_size = sizeof(struct tg_ring); g_r->index = 0; g_r->ystripes = g_y; g_k = k; g_yc = (char *)g_yn; g_off = off; g_ysize = yh; g_y->memsz = yh; g_y->nstripes = ns; g_y->stripes[k].indexes = (void *)((char *)g_y + off);
    g_rc = g_c1 = g_c2 = g_seq = 0; g_failed = l_r = l_y = 0;
    struct tg_ring *c = tg_ring_copy(g_r);
    if (g_failed) ASSERT(!c && !l_r && !l_y, "post: null when memory ran out and everything is released");
    else ASSERT(c == g_n && g_c1 == 1 && g_rc == 1 && !c->head.noheap && !c->index && c->ystripes == g_yn && g_c2 == 1 && (char *)g_yn->stripes[k].indexes == (char *)g_yn + off, "post: a copy of one owner with its own stripes, each index list at the same place");
    ASSERT(g_r->ystripes == g_y && (char *)g_y->stripes[k].indexes == (char *)g_y + off, "post: the original is unchanged");
    REACH(c && ns == 7, "stripes"); REACH(!c && !l_r && g_seq == 2, "no memory for stripes");
}
