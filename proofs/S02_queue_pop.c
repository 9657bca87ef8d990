//@ property S02
//@ covers nqueue_pop
//@ remove nqswap nqcompare
//@ timeout 300
//@ ghost unsigned long g_k, g_pos, g_pk, g_len; double g_d; int g_kd, g_lv, g_mo, g_id;
//@ nloops nqueue_pop 1
//@ loop nqueue_pop 0
__CPROVER_assigns(i, queue->spare, g_pos, __CPROVER_object_whole(queue->items))
__CPROVER_loop_invariant(queue->len == g_len && (g_len > 0 ? i < g_len : i == 0) && g_pos <= g_len && (g_top ? g_pos == g_len : g_pos < g_len) && (g_k > 0 && g_pk != i ? queue->items[g_pk].dist <= queue->items[g_k].dist : 1) && (g_k > 0 && g_pk == i && i > 0 ? queue->items[(i - 1) / 2].dist <= queue->items[g_k].dist : 1) && queue->items[g_pos].dist == g_d && queue->items[g_pos].kind == g_kd && queue->items[g_pos].rect_level == g_lv && queue->items[g_pos].more == g_mo && queue->items[g_pos].seg_index == g_id)
__CPROVER_decreases(g_len - i)
//@ end
//@ ghost int g_top;
enum { g_pop = 1 };
#define PAR(x) (((x) - 1) / 2)
static struct nqueue *g_q;
static void set_item(struct nqentry *e) { ASSUME(e->dist == g_d && e->kind == g_kd && e->rect_level == g_lv && e->more == g_mo && e->seg_index == g_id); }
/* contract of S02_nqswap: two entries change places; the ghost follows the tracked entry */
static void nqswap(struct nqueue *q, unsigned long i, unsigned long j) { ASSERT(q == g_q && i < g_len + g_pop && j < g_len + g_pop, "pre: entries of the queue"); struct nqentry a = q->items[i], b = q->items[j]; q->items[i] = b; q->items[j] = a; q->spare = a; if (g_pos == i) g_pos = j; else if (g_pos == j) g_pos = i; }

/* contract of S02_nqswap, and the loop invariant, which the harness proves of an arbitrary node, instantiated at node i */
static int nqcompare(struct nqueue *q, unsigned long i, unsigned long j) { ASSERT(q == g_q && i < g_len && j < g_len && i > 0, "pre: entries of the queue"); ASSUME(PAR(i) > 0 ? q->items[PAR(PAR(i))].dist <= q->items[i].dist : 1); ASSUME(q->items[i].dist == q->items[i].dist && q->items[j].dist == q->items[j].dist);
    return q->items[i].dist < q->items[j].dist ? -1 : q->items[i].dist > q->items[j].dist; }
void harness(void) {
    unsigned long n, cap, k, t; ASSUME(n <= 1ul << 30 && cap >= 1 && n <= cap && cap <= 1ul << 30 && (n ? t < n : t == 0) && (n > 1 ? k < n - 1 : k == 0)); struct nqentry *it = malloc(cap * sizeof *it); ASSUME(it); struct nqueue q;
    q.oom = nd_bool(); bool oom0 = q.oom; q.onheap = nd_bool(); q.items = it; q.len = n; q.cap = cap; g_q = &q; g_len = n ? n - 1 : 0; g_k = k; g_pk = k ? PAR(k) : 0; if (k) ASSUME(it[g_pk].dist <= it[k].dist);
    if (n > 1) ASSUME(it[PAR(n - 1)].dist <= it[n - 1].dist); /* the heap property at the last node */
    struct nqentry tr = it[t]; ASSUME(tr.dist == tr.dist); g_d = tr.dist; g_kd = tr.kind; g_lv = tr.rect_level; g_mo = tr.more; g_id = tr.seg_index; g_pos = t; g_top = t == 0;
    const struct nqentry *r = nqueue_pop(&q);
    if (!r) { ASSERT(oom0 || n == 0, "post: nothing is returned only from an empty or failed queue"); ASSERT(q.len == n && q.items == it, "post: and nothing changes"); }
    else { ASSERT(!oom0 && n > 0 && q.len == n - 1 && q.items == it, "post: one entry less"); ASSERT(r == &it[n - 1] && g_pos == (t == 0 ? n - 1 : g_pos) && (t == 0 || g_pos < n - 1), "post: the first entry is returned, every other stays"); ASSERT(it[g_pos].dist == g_d && it[g_pos].kind == g_kd && it[g_pos].rect_level == g_lv && it[g_pos].more == g_mo && it[g_pos].seg_index == g_id, "post: unchanged"); ASSERT(k == 0 || it[PAR(k)].dist <= it[k].dist, "post: no entry is nearer than its parent"); }
    REACH(r && n == 6 && k == 4 && t == 5 && g_pos == 1, "down"); REACH(r && n == 1, "last"); REACH(!r && n == 0, "empty"); REACH(r && t == 0 && n == 7, "top");
}
