//@ property M01 M02 A01
//@ covers geom_copy
//@ remove tg_geom_copy tg_line_copy tg_poly_copy tg_geom_free tg_malloc rc_init rc_retain rebase_index
//@ stub geom_copy memset memcpy strlen
//@ ghost int g_k, g_calls, g_kown, g_part, g_seq, g_rc, g_reb, g_cpx, g_cpi, g_cpc, g_cpe; _Bool g_failed, l_g, l_m, l_k, l_x, l_i, l_c, l_e; struct tg_geom *g_kout; struct tg_geom *const *g_kids;
//@ nloops geom_copy 1
//@ loop geom_copy 0
__CPROVER_assigns(i, g_calls, g_kown, g_failed, __CPROVER_object_whole(geom2->multi->geoms))
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_calls == i && g_failed == 0)
__CPROVER_loop_invariant(g_kown == (g_k < i ? 1 : 0) && (g_k < geom->multi->ngeoms ? geom2->multi->geoms[g_k] == (g_k < i ? g_kout : (struct tg_geom *)0) : 1))
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
static struct tg_geom *g_o, *n_g; static struct multi *n_m; static struct tg_geom **n_k; static struct index *n_x; static int *n_i; static double *n_c; static char *n_e; static void *n_part; static size_t g_elen;
static void *tg_malloc(size_t n) { bool f; if (f) { g_failed = 1; return 0; }
    if (!l_g) { ASSERT(n == sizeof(struct tg_geom), "pre: size of the geometry"); l_g = 1; return n_g; }
    if (g_o->head.type >= TG_MULTIPOINT && g_o->multi) { struct multi *m = g_o->multi;
        if (!l_m) { ASSERT(n == sizeof(struct multi), "pre: size of the list"); l_m = 1; return n_m; }
        if (m->geoms && !l_k) { ASSERT(n == sizeof(struct tg_geom *) * m->ngeoms, "pre: room for the children"); l_k = 1; return n_k; }
        if (m->index && !l_x) { ASSERT(n == m->index->memsz, "pre: size of the index"); l_x = 1; return n_x; }
        if (m->ixgeoms && !l_i) { ASSERT(n == sizeof(int) * m->ngeoms, "pre: room for the order"); l_i = 1; return n_i; } }
    if (g_o->head.type != TG_POINT && g_o->coords && !l_c) { ASSERT(n == sizeof(double) * g_o->ncoords, "pre: room for the coordinates"); l_c = 1; return n_c; }
    ASSERT(g_o->error && !l_e && n == g_elen + 1, "pre: room for the message"); l_e = 1; return n_e; }
void *memset__c(void *p, int c, size_t n) { ASSERT(c == 0, "pre: zeros"); if (p == n_g) { ASSERT(n == sizeof(struct tg_geom), "pre: the geometry"); *n_g = (struct tg_geom){ 0 }; } else if (p == n_m) { ASSERT(n == sizeof(struct multi), "pre: the list"); *n_m = (struct multi){ 0 }; } else { ASSERT(p == n_k && n == sizeof(struct tg_geom *) * g_o->multi->ngeoms, "pre: the children"); __CPROVER_array_set(n_k, (struct tg_geom *)0); } return p; }
void *memcpy__c(void *d, const void *s, size_t n) {
    if (d == &n_g->head) { ASSERT(s == &g_o->head && n == sizeof(struct head), "pre: copies the head"); n_g->head = g_o->head; }
    else if (d == n_x) { ASSERT(s == g_o->multi->index && n == g_o->multi->index->memsz && !g_reb, "pre: copies the index"); g_cpx++; }
    else if (d == n_i) { ASSERT(s == g_o->multi->ixgeoms && n == sizeof(int) * g_o->multi->ngeoms, "pre: copies the order"); g_cpi++; }
    else if (d == n_c) { ASSERT(s == g_o->coords && n == sizeof(double) * g_o->ncoords, "pre: copies the coordinates"); g_cpc++; }
    else { ASSERT(d == n_e && s == g_o->error && n == g_elen + 1, "pre: copies the message with its terminator"); g_cpe++; } return d; }
unsigned long strlen__c(const char *s) { ASSERT(s == g_o->error && s, "pre: the message"); return g_elen; }
static void rc_init(rc_t *rc) { ASSERT(rc == &n_g->head.rc, "pre: the count of the copy"); g_rc = 0; }
static void rc_retain(rc_t *rc) { ASSERT(rc == &n_g->head.rc, "pre: the count of the copy"); g_rc++; }
static void rebase_index(struct index *c, const struct index *x) { ASSERT(c == n_x && x == g_o->multi->index && g_cpx == 1, "pre: the index of the copy, after the copy"); g_reb++; }
struct tg_line *tg_line_copy(const struct tg_line *l) { ASSERT(l == g_o->line && g_o->head.type == TG_LINESTRING && l, "pre: its line"); bool f; if (f) { g_failed = 1; return 0; } g_part++; return n_part; }
struct tg_poly *tg_poly_copy(const struct tg_poly *l) { ASSERT(l == g_o->poly && g_o->head.type == TG_POLYGON && l, "pre: its polygon"); bool f; if (f) { g_failed = 1; return 0; } g_part++; return n_part; }
struct tg_geom *tg_geom_copy(const struct tg_geom *c) { ASSERT(c == g_kids[g_calls], "pre: the children are copied in order"); int j = g_calls; g_calls++; bool f; if (f) { g_failed = 1; return 0; } if (j == g_k) { g_kown++; return g_kout; } struct tg_geom *o; ASSUME(o != 0); return o; }
void tg_geom_free(struct tg_geom *g) { // decided by unit M01_geom_free
    ASSERT(g == n_g && l_g && !g->head.noheap && g_rc == 1 && g->head.base == BASE_GEOM, "pre: the new geometry, of one owner"); l_g = 0; int t = g->head.type;
    if (t == TG_LINESTRING || t == TG_POLYGON) { if (g->line) { ASSERT((void *)g->line == n_part, "pre: its part"); g_part--; } }
    else if (t >= TG_MULTIPOINT && g->multi) { ASSERT(g->multi == n_m, "pre: its list"); l_m = 0; if (n_m->geoms) { ASSERT(n_m->geoms == n_k, "pre: its children"); l_k = 0; if (g_k < n_m->ngeoms && n_k[g_k]) { ASSERT(n_k[g_k] == g_kout, "pre: its child"); g_kown--; } } if (n_m->index) { ASSERT(n_m->index == n_x, "pre: its index"); l_x = 0; } if (n_m->ixgeoms) { ASSERT(n_m->ixgeoms == n_i, "pre: its order"); l_i = 0; } }
    if (t != TG_POINT && g->coords) { ASSERT(g->coords == n_c, "pre: its coordinates"); l_c = 0; } if (g->error) { ASSERT(g->error == n_e, "pre: its message"); l_e = 0; } }
void harness(void) {
    int t, n, k, nc, fl; bool nh, has, hasg, hasx, hasi, hasc, hase; ASSUME(t >= TG_POINT && t <= TG_GEOMETRYCOLLECTION && n >= 0 && n <= 1 << 26 && k >= 0 && k <= 1 << 26 && nc >= 0 && nc <= 1 << 28 && fl >= 0 && fl < 256);
    g_o = malloc(sizeof *g_o); n_g = malloc(sizeof *n_g); struct multi *m = malloc(sizeof *m); n_m = malloc(sizeof *n_m); struct tg_geom **kids = malloc(sizeof(void *) * (n + 1ul)); n_k = malloc(sizeof(void *) * (n + 1ul)); struct index *x = malloc(sizeof *x); n_x = malloc(sizeof *n_x); int *ig = malloc(8); n_i = malloc(8); double *c = malloc(8); n_c = malloc(8); char *e = malloc(8); n_e = malloc(8); void *part = malloc(8); n_part = malloc(8); struct tg_geom *ko = malloc(8);
    ASSUME(g_o && n_g && m && n_m && kids && n_k && x && n_x && ig && n_i && c && n_c && e && n_e && part && n_part && ko); size_t el; ASSUME(el < 1ul << 40); g_elen = el; size_t ms; x->memsz = ms;
    g_o->head.base = BASE_GEOM; g_o->head.type = t; g_o->head.flags = fl; g_o->head.noheap = nh ? 1 : 0; bool coll = t >= TG_MULTIPOINT; struct tg_point pt; double z, mm; struct tg_rect q;
    if (t == TG_POINT) { g_o->point = pt; g_o->z = z; g_o->m = mm; } else { g_o->coords = hasc ? c : 0; g_o->ncoords = hasc ? nc : 0; if (coll) { g_o->multi = has ? m : 0; m->geoms = hasg ? kids : 0; m->ngeoms = hasg ? n : 0; m->index = hasx ? x : 0; m->ixgeoms = hasi ? ig : 0; m->rect = q; } else g_o->line = has ? part : 0; }
    g_o->error = hase ? e : 0; g_kids = kids; g_kout = ko; g_k = k; g_calls = g_kown = g_part = g_seq = g_rc = g_reb = g_cpx = g_cpi = g_cpc = g_cpe = 0; g_failed = l_g = l_m = l_k = l_x = l_i = l_c = l_e = 0;
    struct tg_geom *r = geom_copy(g_o); bool hm = coll && has;
    if (g_failed) ASSERT(!r && !l_g && !l_m && !l_k && !l_x && !l_i && !l_c && !l_e && !g_part && !g_kown, "post: null when memory ran out and everything taken is released");
    else {
        ASSERT(r == n_g && g_rc == 1 && !r->head.noheap && r->head.base == BASE_GEOM && r->head.type == t && r->head.flags == fl, "post: a copy of one owner that is not pinned");
        if (t == TG_POINT) ASSERT(BITS(r->point.x) == BITS(pt.x) && BITS(r->point.y) == BITS(pt.y) && BITS(r->z) == BITS(z) && BITS(r->m) == BITS(mm), "post: the point with z and m");
        else { ASSERT(r->coords == (hasc ? n_c : 0) && r->ncoords == (hasc ? nc : 0) && g_cpc == (hasc ? 1 : 0), "post: its coordinates"); if (!coll) ASSERT((void *)r->line == (has ? n_part : 0) && g_part == (has ? 1 : 0), "post: a copy of its part"); }
        if (coll) ASSERT(r->multi == (has ? n_m : 0), "post: its list");
        if (hm) { ASSERT(BITS(n_m->rect.min.x) == BITS(q.min.x) && BITS(n_m->rect.min.y) == BITS(q.min.y) && BITS(n_m->rect.max.x) == BITS(q.max.x) && BITS(n_m->rect.max.y) == BITS(q.max.y), "post: its rectangle"); ASSERT(n_m->geoms == (hasg ? n_k : 0) && n_m->ngeoms == (hasg ? n : 0), "post: as many children"); if (hasg && k < n) ASSERT(n_k[k] == ko && g_kown == 1, "post: a copy of each child, in order");
            ASSERT(n_m->index == (hasx ? n_x : 0) && IMPL(hasx, g_cpx == 1 && g_reb == 1), "post: its own index"); ASSERT(n_m->ixgeoms == (hasi ? n_i : 0) && IMPL(hasi, g_cpi == 1), "post: its own order"); }
        ASSERT(r->error == (hase ? n_e : 0) && IMPL(hase, g_cpe == 1), "post: its message or members");
    }
    ASSERT(g_o->head.noheap == (nh ? 1 : 0) && g_o->error == (hase ? e : 0) && IMPL(coll, g_o->multi == (has ? m : 0)), "post: the original is unchanged");
    REACH(r && hm && n == 9 && hasx && hasi && hase && hasc && hasg, "collection"); REACH(r && t == TG_POLYGON && has && hasc, "polygon"); REACH(!r && hase && hm && g_calls == 2 && n == 2 && hasc, "failed late"); REACH(r && t == TG_POINT, "point");
}
