//@ property M01
//@ covers geom_free
//@ remove tg_geom_free tg_free rc_release tg_line_free tg_poly_free
//@ ghost int g_cnt, g_k, g_kown, g_rel, g_part; struct tg_geom *g_kout; void *g_b[7]; _Bool g_last; const void *g_line; const void *g_poly;
//@ nloops geom_free 1
//@ loop geom_free 0
__CPROVER_assigns(i, g_kown, g_cnt)
__CPROVER_loop_invariant(0 <= i && i <= geom->multi->ngeoms && g_cnt <= i && g_kown <= (g_k < i ? 0 : 1))
__CPROVER_decreases(geom->multi->ngeoms - i)
//@ end
// 0 geometry 1 multi 2 children 3 index 4 ixgeoms 5 coordinates 6 message
static void tg_free(void *p) {
    ASSERT(p != 0, "pre: memory"); bool ok = 0;
    if (p == g_b[1]) { ASSERT(!g_b[2] && !g_b[3] && !g_b[4], "pre: the child list goes after its parts"); g_b[1] = 0; ok = 1; }
    else if (p == g_b[2]) { g_b[2] = 0; ok = 1; } else if (p == g_b[3]) { g_b[3] = 0; ok = 1; } else if (p == g_b[4]) { g_b[4] = 0; ok = 1; } else if (p == g_b[5]) { g_b[5] = 0; ok = 1; } else if (p == g_b[6]) { g_b[6] = 0; ok = 1; }
    else if (p == g_b[0]) { ASSERT(!g_b[1] && !g_b[5] && !g_b[6], "pre: the geometry goes last"); g_b[0] = 0; ok = 1; }
    ASSERT(ok, "pre: only parts of the geometry are released, each once"); free(p);
}
static bool rc_release(rc_t *rc) { g_rel++; return g_last; }
void tg_line_free(struct tg_line *l) { ASSERT(l == g_line, "pre: its line"); g_part++; }
void tg_poly_free(struct tg_poly *l) { ASSERT(l == g_poly, "pre: its polygon"); g_part++; }
void tg_geom_free(struct tg_geom *c) { g_cnt++; if (c == g_kout) g_kown = 0; }
void harness(void) {
    int in_n, in_k, type; bool noheap, last, nomulti, nogeoms, noix, noixg, nocoords, noerr; ASSUME(in_n >= 0 && in_n <= 1 << 26 && in_k >= 0 && in_k < in_n && type >= TG_POINT && type <= TG_GEOMETRYCOLLECTION);
    struct tg_geom *g = malloc(sizeof *g), *kid = malloc(sizeof *kid); struct multi *m = malloc(sizeof *m); struct tg_geom **kids = malloc(sizeof(void *) * in_n); void *ix = malloc(8), *ixg = malloc(8), *co = malloc(8), *er = malloc(8), *l = malloc(8), *po = malloc(8); ASSUME(g && kid && m && kids && ix && ixg && co && er && l && po);
    bool coll = type >= TG_MULTIPOINT; g->head.base = BASE_GEOM; g->head.type = type; g->head.noheap = noheap ? 1 : 0; g_last = last ? 1 : 0; g_rel = g_part = 0; g_kown = 1; g_kout = kid; g_k = in_k; g_cnt = 0; kids[in_k] = kid;
    g_line = l; g_poly = po; for (int i = 0; i < 7; i++) g_b[i] = 0; g_b[0] = g;
    if (type == TG_LINESTRING) g->line = l; else if (type == TG_POLYGON) g->poly = po; else if (coll) { g->multi = nomulti ? 0 : m; if (!nomulti) { g_b[1] = m; m->geoms = nogeoms ? 0 : kids; g_b[2] = m->geoms; m->ngeoms = in_n; m->index = noix ? 0 : ix; g_b[3] = m->index; m->ixgeoms = noixg ? 0 : ixg; g_b[4] = m->ixgeoms; } }
    if (type == TG_POINT) { double z; g->z = z; } else { g->coords = nocoords ? 0 : co; g_b[5] = g->coords; }
    g->error = noerr ? 0 : er; g_b[6] = g->error;
    bool had5 = g_b[5] != 0, hadk = coll && !nomulti && !nogeoms;
    geom_free(g);
    if (noheap) ASSERT(!g_rel && g_b[0] && g_kown == 1 && !g_part, "post: a pinned geometry is left alone");
    else if (!last) ASSERT(g_rel == 1 && g_b[0] && g_kown == 1 && !g_part, "post: one owner less");
    else { ASSERT(g_rel == 1 && !g_b[0] && !g_b[1] && !g_b[2] && !g_b[3] && !g_b[4] && !g_b[5] && !g_b[6], "post: the last owner releases all its memory");
        ASSERT(g_part == (type == TG_LINESTRING || type == TG_POLYGON ? 1 : 0), "post: and gives up its line or polygon once"); ASSERT(IMPL(hadk, g_kown <= 0 && g_cnt <= in_n) && IMPL(!hadk, g_kown == 1), "post: and each child"); }
    REACH(!g_b[0] && hadk && in_n > 4, "collection"); REACH(!g_b[0] && type == TG_POLYGON && had5, "polygon"); REACH(g_b[0] && g_rel, "shared");
}
