#include "common.h"
#include "shape.h"
#include "gen.h"
// random ownership histories over lines, rings, polygons and geometries; every handle is a geometry with a model
typedef struct { struct tg_geom *g; M *m; int kind; } Hd;      // kind 0 geom 1 line 2 ring 3 poly
static Hd hs[64]; static int nh;
static char trace[6000];
static void tr(const char *f, ...) { size_t n = strlen(trace); va_list ap; va_start(ap, f); if (n + 60 < sizeof trace) vsnprintf(trace + n, 60, f, ap); va_end(ap); }
static M *m_dup(const M *m) {
    M *c = malloc(sizeof *c); *c = *m;
    if (m->nr) { c->r = malloc(sizeof(R) * m->nr); for (int i = 0; i < m->nr; i++) { c->r[i].n = m->r[i].n; c->r[i].p = malloc(sizeof(pt) * (m->r[i].n + 1)); memcpy(c->r[i].p, m->r[i].p, sizeof(pt) * m->r[i].n); } }
    if (m->nc) { c->c = malloc(sizeof(M *) * m->nc); for (int i = 0; i < m->nc; i++) c->c[i] = m_dup(m->c[i]); }
    if (m->x) { c->x = malloc(sizeof(double) * (m->nx + 1)); memcpy(c->x, m->x, sizeof(double) * m->nx); }
    if (m->xj) c->xj = strdup(m->xj);
    return c;
}
static M *m_plain(int type, const R *r, int n) { M t = { .type = type, .r = (R *)r, .nr = n }; return m_dup(&t); }
static void add(struct tg_geom *g, M *m, int kind) { CHECK(g, "constructor returned null"); hs[nh++] = (Hd){ g, m, kind }; }
static int pick(int kind) { for (int t = 0; t < 40 && nh; t++) { int i = rn(nh); if (kind < 0 || hs[i].kind == kind) return i; } return -1; }
static void check(int i) { const char *d = cmp(hs[i].g, hs[i].m, true); if (d) { snprintf(g_case, sizeof g_case, "%s", trace); fail("handle %d changed: %s", i, d); }
    if (hs[i].m->xj) { const char *x = tg_geom_extra_json(hs[i].g); CHECK(x && !strcmp(x, hs[i].m->xj), "extra json changed"); } }
static void freeh(int i) {
    tr("free(h%d);", i);
    switch (rn(3) ? hs[i].kind : 0) { case 1: tg_line_free((void *)hs[i].g); break; case 2: tg_ring_free((void *)hs[i].g); break; case 3: tg_poly_free((void *)hs[i].g); break; default: tg_geom_free(hs[i].g); }
    m_free(hs[i].m); hs[i] = hs[--nh];
}
static size_t wr(int k, const struct tg_geom *g, char *d, size_t n) { return k == 0 ? tg_geom_geojson(g, d, n) : k == 1 ? tg_geom_wkt(g, d, n) : k == 2 ? tg_geom_wkb(g, (uint8_t *)d, n) : k == 3 ? tg_geom_hex(g, d, n) : tg_geom_geobin(g, (uint8_t *)d, n); }
static bool same_out(const struct tg_geom *a, const struct tg_geom *b) {
    for (int k = 0; k < 5; k++) { size_t n = wr(k, a, 0, 0), n2 = wr(k, b, 0, 0); if (n != n2) return false; char *x = malloc(n + 1), *y = malloc(n + 1); wr(k, a, x, n + 1); wr(k, b, y, n + 1); bool e = memcmp(x, y, n) == 0; free(x); free(y); if (!e) return false; }
    rect r = tg_geom_rect(a), s = tg_geom_rect(b);
    return pe(r.min, s.min) && pe(r.max, s.max) && tg_geom_memsize(a) == tg_geom_memsize(b);
}
static void step(void) {
    int op = rn(13), i, j;
    enum tg_index ix = IXS(rn(12));
    if (nh > 50) op = 12;
    switch (op) {
    case 0: { M *m = gen(2, 0); tr("h%d=new;", nh); add(mk(m, ix), m, 0); return; }
    case 1: { M *m = gen_t(TG_LINESTRING, 0, G_NOZM | G_NOEMPTY); tr("h%d=line;", nh); add((void *)tg_line_new_ix(m->r[0].p, m->r[0].n, ix), m, 1); return; }
    case 2: { M *m = gen_t(TG_POLYGON, 0, G_NOZM | G_NOEMPTY); M *q = m_plain(TG_POLYGON, m->r, 1); m_free(m); tr("h%d=ring;", nh); add((void *)tg_ring_new_ix(q->r[0].p, q->r[0].n, ix), q, 2); return; }
    case 3: {   // polygon from rings owned elsewhere
        if ((i = pick(2)) < 0) return; const struct tg_ring *h[3]; R r[4]; int k = 0; r[0] = hs[i].m->r[0];
        while (k < 2 && rn(2) && (j = pick(2)) >= 0) { h[k] = (void *)hs[j].g; r[++k] = hs[j].m->r[0]; }
        tr("h%d=poly(h%d+%d holes);", nh, i, k); add((void *)tg_poly_new((void *)hs[i].g, h, k), m_plain(TG_POLYGON, r, k + 1), 3); return; }
    case 4: if ((i = pick(1)) < 0) return; tr("h%d=linestring(h%d);", nh, i); add(tg_geom_new_linestring((void *)hs[i].g), m_dup(hs[i].m), 0); return;
    case 5: if ((i = pick(3)) < 0) return; tr("h%d=polygon(h%d);", nh, i); add(tg_geom_new_polygon((void *)hs[i].g), m_dup(hs[i].m), 0); return;
    case 6: {   // multi of shared parts
        bool po = rn(2); const void *p[4]; M *m = m_new(po ? TG_MULTIPOLYGON : TG_MULTILINESTRING); R r[4]; M *c[4]; int k = 0, n = rr(1, 4);
        for (; k < n; k++) { if ((i = pick(po ? 3 : 1)) < 0) break; p[k] = hs[i].g; if (po) c[k] = hs[i].m; else r[k] = hs[i].m->r[0]; }
        if (!k) { free(m); return; }
        M t = { .type = m->type }; if (po) { t.c = c; t.nc = k; } else { t.r = r; t.nr = k; } free(m);
        tr("h%d=multi(%d shared);", nh, k);
        add(po ? tg_geom_new_multipolygon((const struct tg_poly *const *)p, k) : tg_geom_new_multilinestring((const struct tg_line *const *)p, k), m_dup(&t), 0); return; }
    case 7: {   // collection of any handles
        const struct tg_geom *p[70]; M *c[70]; int k = 0, n = rn(20) ? rr(1, 4) : 66;
        if (m_npts(hs[0].m) > 200) n = 2;
        for (; k < n; k++) { if ((i = pick(-1)) < 0) break; if (m_npts(hs[i].m) > 40 || (n == 66 && hs[i].m->type == 7)) i = 0; p[k] = hs[i].g; c[k] = hs[i].m; }
        if (!k) return; M t = { .type = TG_GEOMETRYCOLLECTION, .c = c, .nc = k }; if (m_npts(&t) > 400) return;
        tr("h%d=collection(%d shared);", nh, k); add(tg_geom_new_geometrycollection(p, k), m_dup(&t), 0); return; }
    case 8: if ((i = pick(-1)) < 0) return; tr("h%d=clone(h%d);", nh, i);
        { struct tg_geom *c = !rn(2) ? tg_geom_clone(hs[i].g) : hs[i].kind == 1 ? (void *)tg_line_clone((void *)hs[i].g) : hs[i].kind == 2 ? (void *)tg_ring_clone((void *)hs[i].g) : hs[i].kind == 3 ? (void *)tg_poly_clone((void *)hs[i].g) : tg_geom_clone(hs[i].g);
          add(c, m_dup(hs[i].m), hs[i].kind); } return;
    case 9: if ((i = pick(-1)) < 0) return; tr("h%d=copy(h%d);", nh, i);
        { struct tg_geom *c = !rn(2) ? tg_geom_copy(hs[i].g) : hs[i].kind == 1 ? (void *)tg_line_copy((void *)hs[i].g) : hs[i].kind == 2 ? (void *)tg_ring_copy((void *)hs[i].g) : hs[i].kind == 3 ? (void *)tg_poly_copy((void *)hs[i].g) : tg_geom_copy(hs[i].g);
          CHECK(c && c != hs[i].g, "copy is the original or null"); if (!same_out(c, hs[i].g)) { snprintf(g_case, sizeof g_case, "%s", trace); fail("copy of handle %d is distinguishable from it", i); }
          add(c, m_dup(hs[i].m), hs[i].kind); } return;
    case 10: {   // own a component of another geometry
        if ((i = pick(-1)) < 0) return; M *m = hs[i].m; struct tg_geom *g = hs[i].g;
        if (m->empty) return;
        if (m->type == TG_LINESTRING) { tr("h%d=clone(line of h%d);", nh, i); add((void *)tg_line_clone(tg_geom_line(g)), m_plain(TG_LINESTRING, m->r, 1), 1); }
        else if (m->type == TG_POLYGON && rn(2)) { tr("h%d=clone(poly of h%d);", nh, i); add((void *)tg_poly_clone(tg_geom_poly(g)), m_plain(TG_POLYGON, m->r, m->nr), 3); }
        else if (m->type == TG_POLYGON) { int k = rn(m->nr); tr("h%d=clone(ring %d of h%d);", nh, k, i); add((void *)tg_ring_clone(k ? tg_poly_hole_at(tg_geom_poly(g), k - 1) : tg_poly_exterior(tg_geom_poly(g))), m_plain(TG_POLYGON, m->r + k, 1), 2); }
        else if (m->type == TG_MULTILINESTRING) { int k = rn(m->nr); tr("h%d=clone(line %d of h%d);", nh, k, i); add((void *)tg_line_clone(tg_geom_line_at(g, k)), m_plain(TG_LINESTRING, m->r + k, 1), 1); }
        else if (m->type == TG_MULTIPOLYGON) { int k = rn(m->nc); tr("h%d=clone(poly %d of h%d);", nh, k, i); add((void *)tg_poly_clone(tg_geom_poly_at(g, k)), m_dup(m->c[k]), 3); }
        else if (m->type == TG_GEOMETRYCOLLECTION) { int k = rn(m->nc); tr("h%d=clone(child %d of h%d);", nh, k, i); add(tg_geom_clone(tg_geom_geometry_at(g, k)), m_dup(m->c[k]), 0); }
        return; }
    case 11: {  // parse
        M *m = gen(1, 0); B b = { 0 }; o_sty = 0; struct tg_geom *g;
        if (rn(2)) { o_wkb(&b, m, 0, 0); g = tg_parse_ix(b.d, b.n, ix); }
        else { M *q = m; if (m_has_empty(m)) { o_wkb(&b, m, 0, 0); g = tg_parse_ix(b.d, b.n, ix); }
            else { m_free(q); m = gen(1, G_NOEMPTY | G_NOM | G_ZONLY_COLL); o_json(&b, m, "\"k\":[1,\"x\"]"); g = tg_parse_ix(b.d, b.n, ix); m->xj = strdup("{\"k\":[1,\"x\"]}"); } }
        free(b.d); tr("h%d=parse;", nh); add(g, m, 0); return; }
    default: if ((i = pick(-1)) < 0) return; freeh(i); return;
    }
}
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    long pinned = 0;
    while (time_left()) {
        arm();
        trace[0] = 0; nh = 0; g_cmode = 0; g_big = rn(6) == 0;
        uint64_t s = g_rng; tr("history rng=%llx: ", (unsigned long long)s);
        { M *m = gen(2, 0); add(mk(m, IXS(rn(12))), m, 0); }
        int n = rr(5, 60);
        for (int k = 0; k < n; k++) { step(); if (nh == 0) { M *m = gen(1, 0); add(mk(m, IXS(rn(12))), m, 0); } snprintf(g_case, sizeof g_case, "%s", trace); check(rn(nh)); }
        eval(n > 10);
        for (int k = 0; k < nh; k++) check(k);
        while (nh) { freeh(rn(nh)); snprintf(g_case, sizeof g_case, "%s", trace); if (nh) check(rn(nh)); }
        CHECK(g_live == pinned, "%ld allocations not released after every owner was freed", g_live - pinned);
        // a geometry pinned outside the heap is never released, clones and copies of it are independent and are released
        if (rn(4) == 0) {
            M *m = gen(1, 0); struct tg_geom *g = mk(m, IXS(rn(12)));
            if (rn(3) == 0) { tg_geom_free(g); m_free(m); m = gen_t(TG_POLYGON, 0, G_NOZM | G_NOEMPTY); struct tg_ring *r = tg_ring_new(m->r[0].p, m->r[0].n); M *q = m_plain(TG_POLYGON, m->r, 1); m_free(m); m = q; g = (void *)r;
                if (rn(2)) { g = (void *)tg_poly_new(r, 0, 0); tg_ring_free(r); } }
            describe(m, "pinned ");
            tg_geom_setnoheap(g); pinned = g_live;
            struct tg_geom *c = rn(2) ? tg_geom_copy(g) : tg_geom_clone(g), *c2 = tg_geom_clone(c);
            CHECK(c && c != g && c2 == c, "a copy of a pinned geometry is the geometry itself");
            tg_geom_free(g); CHECK(same_out(c, g), "the copy of a pinned geometry is distinguishable from it");
            long l = g_live; tg_geom_free(c); CHECK(g_live == l, "freed while a clone is alive");
            const char *d = cmp(c2, m, true); CHECK(!d, "clone changed after its sibling was freed: %s", d ? d : "");
            tg_geom_free(c2); CHECK(g_live == pinned, "%ld allocations of a copy of a pinned geometry not released", g_live - pinned);
            d = cmp(g, m, true); CHECK(!d, "pinned geometry changed: %s", d ? d : ""); m_free(m);
        }
    }
    tg_geom_free(0); tg_line_free(0); tg_ring_free(0); tg_poly_free(0);
    CHECK(!tg_geom_clone(0) && !tg_line_clone(0) && !tg_ring_clone(0) && !tg_poly_clone(0) && !tg_geom_copy(0) && !tg_line_copy(0) && !tg_ring_copy(0) && !tg_poly_copy(0), "null");
    finish(0);
}
