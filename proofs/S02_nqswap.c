//@ property S02
//@ covers nqswap nqcompare
//@ plain
void harness(void) {
    unsigned long n, i, j, k; ASSUME(n >= 1 && n <= 1ul << 30 && i < n && j < n && k < n); struct nqentry *it = malloc(n * sizeof *it); ASSUME(it); struct nqueue q; q.items = it; q.len = n;
    struct nqentry a = it[i], b = it[j], c = it[k]; ASSUME(!(a.dist != a.dist || b.dist != b.dist || c.dist != c.dist));
    int r = nqcompare(&q, i, j); ASSERT((r < 0) == (a.dist < b.dist) && (r > 0) == (a.dist > b.dist), "post: the sign tells which of the two is nearer");
    nqswap(&q, i, j);
#define SAME(x, y) ((x).dist == (y).dist && (x).kind == (y).kind && (x).rect_level == (y).rect_level && (x).more == (y).more && (x).seg_index == (y).seg_index)
    ASSERT(SAME(it[i], b) && SAME(it[j], a), "post: the two entries are exchanged"); ASSERT(k == i || k == j || SAME(it[k], c), "post: every other entry is left alone"); ASSERT(q.items == it && q.len == n, "post: nothing else changes");
    REACH(i < j && r > 0, "swapped"); REACH(i == j, "same");
}
