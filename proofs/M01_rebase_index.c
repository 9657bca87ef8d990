//@ property M01
//@ covers rebase_index
//@ ghost int g_k; unsigned long g_off; struct index *g_cp, *g_ix;
//@ nloops rebase_index 1
//@ loop rebase_index 0
__CPROVER_assigns(i, __CPROVER_object_whole(copy))
__CPROVER_loop_invariant(0 <= i && i <= index->nlevels && (g_k < i ? (char *)g_cp->levels[g_k].rects == (char *)g_cp + g_off : 1))
__CPROVER_decreases(index->nlevels - i)
//@ end
#define L1(j) x->levels[j].rects = (void *)(a + nd_ulong_below(size));
static unsigned long nd_ulong_below(unsigned long s) { unsigned long v; ASSUME(v <= s); return v; }
void harness(void) {
    int n, k; ASSUME(n >= 0 && n <= 32 && k >= 0 && k < n); unsigned long ex, off; ASSUME(ex <= 1ul << 30);
    unsigned long size = sizeof(struct index) + sizeof(struct level) * (32 + ex); struct index *x = malloc(sizeof(struct index) + sizeof(struct level) * (32 + ex)), *c = malloc(sizeof(struct index) + sizeof(struct level) * (32 + ex)); ASSUME(x && c); char *a = (void *)x, *b = (void *)c; x->nlevels = n; c->nlevels = n; g_cp = c; g_ix = x; g_k = k; ASSUME(off <= size); g_off = off;
    L1(0) L1(1) L1(2) L1(3) L1(4) L1(5) L1(6) L1(7) L1(8) L1(9) L1(10) L1(11) L1(12) L1(13) L1(14) L1(15) L1(16) L1(17) L1(18) L1(19) L1(20) L1(21) L1(22) L1(23) L1(24) L1(25) L1(26) L1(27) L1(28) L1(29) L1(30) L1(31)
    x->levels[k].rects = (void *)(a + off);
    rebase_index(c, x);
    ASSERT((char *)c->levels[k].rects == b + off, "post: every level of the copy points into the copy, at the same offset"); ASSERT((char *)x->levels[k].rects == a + off && x->nlevels == n, "post: the original is unchanged");
    REACH(n == 5 && k == 4, "five");
}
