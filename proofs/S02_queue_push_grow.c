//@ property S02 M02
//@ covers nqueue_push
//@ remove nqswap nqcompare tg_malloc tg_realloc
//@ stub nqueue_push memcpy
//@ timeout 300
//@ ghost unsigned long g_k, g_pos, g_pk, g_len; double g_d; int g_kd, g_lv, g_mo, g_id;
//@ nloops nqueue_push 1
//@ loop nqueue_push 0
__CPROVER_assigns(i, queue->spare, g_pos, __CPROVER_object_whole(queue->items))
__CPROVER_loop_invariant(i < g_len && g_pos < g_len && queue->items[g_pos].dist == g_d && queue->items[g_pos].kind == g_kd && queue->items[g_pos].rect_level == g_lv && queue->items[g_pos].more == g_mo && queue->items[g_pos].seg_index == g_id)
__CPROVER_decreases(i)
//@ end
enum { g_pop = 0 };
#define PAR(x) (((x) - 1) / 2)
static struct nqueue *g_q;
static void set_item(struct nqentry *e) { ASSUME(e->dist == g_d && e->kind == g_kd && e->rect_level == g_lv && e->more == g_mo && e->seg_index == g_id); }
/* contract of S02_nqswap: two entries change places; the ghost follows the tracked entry */
static void nqswap(struct nqueue *q, unsigned long i, unsigned long j) { ASSERT(q == g_q && i < g_len + g_pop && j < g_len + g_pop, "pre: entries of the queue"); struct nqentry a = q->items[i], b = q->items[j]; q->items[i] = b; q->items[j] = a; q->spare = a; if (g_pos == i) g_pos = j; else if (g_pos == j) g_pos = i; }

/* contract of S02_nqswap */
static int nqcompare(struct nqueue *q, unsigned long i, unsigned long j) { ASSERT(q == g_q && i < g_len && j < g_len, "pre: entries of the queue"); ASSERT(j > 0 && i == PAR(j), "pre: an entry and its parent"); ASSUME(q->items[i].dist == q->items[i].dist && q->items[j].dist == q->items[j].dist);
    return q->items[i].dist < q->items[j].dist ? -1 : q->items[i].dist > q->items[j].dist; }
static struct nqentry *g_new, *g_old; static unsigned long g_cap; static int g_mal, g_rel;
void *tg_malloc(unsigned long n) { ASSERT(n >= sizeof(struct nqentry) * g_len && !g_mal, "pre: room for every entry and the new one"); g_mal++; return nd_bool() ? 0 : g_new; }
void *tg_realloc(void *p, unsigned long n) { ASSERT(p == g_old && n >= sizeof(struct nqentry) * g_len && !g_rel, "pre: the queue's own heap block, room for one more"); g_rel++; if (nd_bool()) return 0; if (g_pos < g_len - 1) set_item(&g_new[g_pos]); return g_new; }
void *memcpy__c(void *d, const void *s, unsigned long n) { ASSERT(d == g_new && s == g_old && n == sizeof(struct nqentry) * (g_len - 1), "pre: all entries are copied to the new block"); if (g_pos < g_len - 1) set_item(&g_new[g_pos]); return d; }
void harness(void) {
    unsigned long n, cap, k, t; ASSUME(n <= 1ul << 30 && cap >= 16 && n == cap && cap <= 1ul << 30 && k <= n && t <= n); struct nqentry *old = malloc(cap * sizeof *old), *nw = malloc((n + 1) * sizeof *nw); ASSUME(old && nw); struct nqueue q; struct nqentry e;
    q.oom = nd_bool(); q.onheap = nd_bool(); bool heap0 = q.onheap, oom0 = q.oom; q.items = old; q.len = n; q.cap = cap; g_q = &q; g_old = old; g_new = nw; g_mal = g_rel = 0; g_len = n + 1; g_k = k; g_pk = k ? PAR(k) : 0; int id; e.seg_index = id; ASSUME(e.dist == e.dist);
    struct nqentry tr = t < n ? old[t] : e; ASSUME(tr.dist == tr.dist); g_d = tr.dist; g_kd = tr.kind; g_lv = tr.rect_level; g_mo = tr.more; g_id = tr.seg_index; g_pos = t;
    nqueue_push(&q, &e);
    if (q.oom) { ASSERT(oom0 || g_mal + g_rel == 1, "post: only a failed allocation is out of memory"); ASSERT(q.items == old && q.len == n && q.cap == cap && q.onheap == heap0 && (t == n || old[t].dist == g_d && old[t].seg_index == g_id), "post: a failed push leaves the queue as it was"); }
    else { ASSERT(!oom0, "post: out of memory is never forgotten"); ASSERT(q.len == n + 1 && q.len <= q.cap, "post: one entry more"); ASSERT(g_pos <= n && q.items[g_pos].dist == g_d && q.items[g_pos].kind == g_kd && q.items[g_pos].rect_level == g_lv && q.items[g_pos].more == g_mo && q.items[g_pos].seg_index == g_id, "post: every entry, the new one included, is in the queue unchanged");
        ASSERT(q.items == (n == cap ? nw : old) && q.onheap == (n == cap || heap0), "post: it grows only when full, and then owns the block"); ASSERT(n < cap || (heap0 ? g_rel == 1 && !g_mal : g_mal == 1 && !g_rel), "post: the first block is not given to realloc"); }
    REACH(n == cap && heap0 && !q.oom, "grown"); REACH(q.oom && !oom0, "oom"); REACH(n == 16 && g_pos == 7 && t == 16, "one step up");
}
