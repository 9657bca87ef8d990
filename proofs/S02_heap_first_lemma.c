//@ property S02
//@ covers nqueue_pop
//@ note lemma: with the heap property proved by S02_queue_push and S02_queue_pop for every entry, the first entry is the nearest
static void lemma(const double *it, unsigned long n, unsigned long k, double d) {
    while (k)
    __CPROVER_assigns(k)
    __CPROVER_loop_invariant(k < n && it[k] <= d)
    __CPROVER_decreases(k)
    { unsigned long p = (k - 1) / 2; ASSUME(it[p] <= it[k]); /* heap property at k */ k = p; }
}
void harness(void) {
    unsigned long n, k; ASSUME(n >= 1 && n <= 1ul << 30 && k < n); double *it = malloc(n * sizeof *it); ASSUME(it); double d = it[k]; ASSUME(d == d);
    lemma(it, n, k, d);
    ASSERT(it[0] <= d, "lemma: no entry is nearer than the first"); REACH(k == 6, "walked");
}
