//@ property M02 M01 A01 L01
//@ covers tg_geom_new_geometrycollection
//@ remove geom_new_multi multi_geom_inflate_rect tg_geom_free tg_geom_clone
//@ ghost int g_k, g_calls, g_kown, g_live, g_infl; _Bool g_failed, g_knn; struct tg_geom *g_kout;
//@ nloops tg_geom_new_geometrycollection 1
//@ loop tg_geom_new_geometrycollection 0
__CPROVER_assigns(i, g_calls, g_kown, g_failed, g_live, __CPROVER_object_whole(geom->multi->geoms))
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_calls == i && g_failed == 0 && g_live == 1)
__CPROVER_loop_invariant(g_kown == (g_k < i && g_knn ? 1 : 0) && (g_k < geom->multi->ngeoms ? geom->multi->geoms[g_k] == (g_k < i && g_knn ? g_kout : (struct tg_geom *)0) : 1))
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
static struct tg_geom *g_g; static struct multi *g_m; static struct tg_geom **g_kids; static int g_n; static struct tg_geom ** g_in;
static struct tg_geom *geom_new_multi(enum tg_geom_type t, int n) { ASSERT(t == TG_GEOMETRYCOLLECTION && n == g_n && !g_live, "pre: a list of its type and length"); bool f; if (f) { g_failed = 1; return 0; } g_live = 1; return g_g; }
struct tg_geom *tg_geom_clone(const struct tg_geom *c) { ASSERT(c == g_in[g_calls], "pre: the children are cloned in order"); int j = g_calls; g_calls++; if (!c) { ASSERT(!(j == g_k && g_knn), "pre"); return 0; } bool f; if (f) { g_failed = 1; return 0; } if (j == g_k) { g_kown++; return (void *)g_kout; } struct tg_geom *o; ASSUME(o != 0); return o; }
void tg_geom_free(struct tg_geom *g) { ASSERT(g == g_g && g_live == 1, "pre: the new geometry"); g_live--; if (g_k < g_m->ngeoms && g_kids[g_k]) { ASSERT(g_kids[g_k] == g_kout, "pre: its child"); g_kown--; } }
static struct tg_geom *multi_geom_inflate_rect(struct tg_geom *g) { ASSERT(g == g_g && g_calls == g_m->ngeoms, "pre: after all children"); g_infl++; bool f; if (f) { g_failed = 1; tg_geom_free(g); return 0; } return g; }
void harness(void) {
    int in_n, in_k; ASSUME(in_n <= 1 << 26 && in_n >= -3 && in_k >= 0 && in_k <= 1 << 26); g_g = malloc(sizeof *g_g); g_m = malloc(sizeof *g_m); int n = in_n < 0 ? 0 : in_n; g_kids = malloc(sizeof(void *) * (n + 1ul)); struct tg_geom *ko = malloc(8); struct tg_geom ** in = malloc(sizeof(*in) * (n + 1ul)); ASSUME(g_g && g_m && g_kids && ko && in);
    __CPROVER_array_set(g_kids, (struct tg_geom *)0); g_g->head.base = BASE_GEOM; g_g->head.type = TG_GEOMETRYCOLLECTION; g_g->multi = g_m; g_m->geoms = g_kids; g_m->ngeoms = n; g_n = in_n; g_k = in_k; g_calls = g_kown = g_live = g_infl = 0; g_failed = 0; g_kout = ko; g_in = in;
    bool knn; g_knn = knn ? 1 : 0; if (in_k < n) { if (knn) ASSUME(in[in_k] != 0); else in[in_k] = 0; }
    struct tg_geom *g = tg_geom_new_geometrycollection((void *)in, in_n);
    if (g_failed) ASSERT(!g && !g_live && g_kown == 0, "post: null when memory ran out, and every child taken is released");
    else { ASSERT(g == g_g && g_infl == 1 && g_m->ngeoms == n, "post: a geometry of that many children, with its rectangle and index"); if (in_k < n) ASSERT(g_kids[in_k] == (g_knn ? ko : 0) && g_kown == (g_knn ? 1 : 0), "post: owns each child once, in the given order"); }
    REACH(g && n == 3 && in_k == 1, "three"); REACH(g_failed && g_calls == 2 && n > 2 && in_k == 0, "failed child"); REACH(g && in_n == -1, "negative"); REACH(g_failed && g_calls == 0, "no memory");
}
