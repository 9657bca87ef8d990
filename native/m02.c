#include "common.h"
#include "shape.h"
#include "gen.h"
// every allocation of every constructor, copy and parser is made to fail in turn
typedef struct { int kind; M *m; B b; struct tg_geom *src; enum tg_index ix; } Job;
static const struct tg_geom *g_src;
static struct tg_geom *run(const Job *j) {
    switch (j->kind) {
    case 0: return mk(j->m, j->ix);
    case 1: return tg_geom_copy(j->src);
    case 2: return tg_parse_wkb_ix(j->b.d, j->b.n, j->ix);
    case 3: return tg_parse_wktn_ix((char *)j->b.d, j->b.n, j->ix);
    case 4: return tg_parse_geojsonn_ix((char *)j->b.d, j->b.n, j->ix);
    case 5: return tg_parse_geobin_ix(j->b.d, j->b.n, j->ix);
    case 6: return tg_parse_hexn_ix((char *)j->b.d, j->b.n, j->ix);
    default: return tg_parse_ix(j->b.d, j->b.n, j->ix);
    }
}
static B out(const struct tg_geom *g) { B b = { 0 }; size_t n = tg_geom_geobin(g, 0, 0); b.d = malloc(n + 1); b.n = n; tg_geom_geobin(g, b.d, n); return b; }
int main(int argc, char **argv) {
    harness_init(argc, argv);
    use_counting_allocator();
    static const char *kn[] = { "constructors", "copy", "wkb", "wkt", "geojson", "geobin", "hex", "auto" };
    while (time_left()) {
        arm();
        Job j = { 0 };
        j.kind = rn(8); j.ix = IXS(rn(12)); g_cmode = rn(2) ? 0 : 3; g_big = rn(4) == 0; o_sty = rn(2);
        bool feat = (j.kind == 4 || j.kind == 5 || j.kind == 7) && rn(2);
        j.m = gen_t(j.kind < 2 && rn(2) ? rr(1, 7) : rr(1, 7), 2, j.kind == 3 || j.kind == 4 || feat ? G_NOEMPTY | G_NOM | G_ZONLY_COLL : 0);
        struct tg_geom *base = mk(j.m, j.ix);
        if (j.kind == 1) j.src = base;
        else if (feat) {
            int nf = rr(1, 4);
            if (nf > 1) b_s(&j.b, "{\"type\":\"FeatureCollection\",\"k\":{\"a\":[]},\"features\":[");
            for (int i = 0; i < nf; i++) { if (i) b_s(&j.b, ","); b_s(&j.b, "{\"type\":\"Feature\",\"id\":\"x\\u0041\",\"geometry\":"); if (rn(6) == 0) b_s(&j.b, "null"); else o_json(&j.b, j.m, rn(2) ? "\"extra\":[1,2,3]" : 0); b_s(&j.b, ",\"properties\":{\"p\":\"qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq\"}}"); }
            if (nf > 1) b_s(&j.b, "]}");
            if (j.kind == 5) { struct tg_geom *t = tg_parse_geojsonn((char *)j.b.d, j.b.n); CHECK(!tg_geom_error(t), "feature does not parse"); B q = out(t); tg_geom_free(t); free(j.b.d); j.b = q; }
            if (rn(3) == 0) { j.src = tg_parse(j.b.d, j.b.n); j.kind = 1; tg_geom_free(base); base = j.src; }
        }
        else if (j.kind == 2) o_wkb(&j.b, j.m, 2, 0);
        else if (j.kind == 3) { o_wkt(&j.b, j.m, 0); }
        else if (j.kind == 4) o_json(&j.b, j.m, rn(2) ? "\"zz\":{\"a\":[1,2]}" : 0);
        else if (j.kind == 5) { j.b = out(base); }
        else if (j.kind >= 6) { o_wkb(&j.b, j.m, 0, 0); if (j.kind == 6) { char *h = malloc(j.b.n * 2 + 1); for (size_t i = 0; i < j.b.n; i++) sprintf(h + 2 * i, "%02x", j.b.d[i]); free(j.b.d); j.b.d = (uint8_t *)h; j.b.n *= 2; } }
        else if (j.kind == 7) { }
        bool bad = j.kind > 1 && rn(8) == 0;
        if (bad && j.b.n > 1) j.b.n = rr(1, (int)j.b.n - 1);       // a malformed input too
        long live = g_live, a0 = g_allocs; B before = { 0 };
        if (j.kind == 1) before = out(j.src);
        describe(j.m, ""); char desc[700]; snprintf(desc, sizeof desc, "%.600s", g_case);
        casef("%s (index 0x%x%s) of %s", kn[j.kind], j.ix, bad ? ", truncated input" : "", desc);
        struct tg_geom *g = run(&j);
        CHECK(g, "null with memory available");
        long na = g_allocs - a0; B good = { 0 }; bool err = tg_geom_error(g) != 0;
        if (!err) good = out(g);
        tg_geom_free(g);
        CHECK(g_live == live, "leak without failure, input %s", hexs(j.b.d, j.b.n));
        eval(na > 4);
        for (int mode = 0; mode < 2; mode++) for (long k = 0; k < na; k++) {
            if (na > 60 && rn(na) > 60) continue;
            char c2[900]; snprintf(c2, sizeof c2, "%s (index 0x%x%s) of %s; allocation %ld of %ld%s fails", kn[j.kind], j.ix, bad ? ", truncated input" : "", desc, k, na, mode ? " and all later ones" : ""); casef("%s", c2);
            if (mode) g_fail_all_after = g_allocs + k; else g_fail_at = g_allocs + k;
            g = run(&j);
            g_fail_at = g_fail_all_after = -1;
            if (g) {
                bool e = tg_geom_error(g) != 0;
                if (!err) { CHECK(!e, "error geometry (%s) instead of null", tg_geom_error(g)); B o = out(g); CHECK(o.n == good.n && !memcmp(o.d, good.d, o.n), "a damaged geometry instead of null"); free(o.d); }
                tg_geom_free(g);
            }
            CHECK(g_live == live, "%ld allocations leaked", g_live - live);
            if (j.kind == 1) { B o = out(j.src); CHECK(o.n == before.n && !memcmp(o.d, before.d, o.n), "the original was changed"); free(o.d); }
        }
        g = run(&j);
        CHECK(g, "does not succeed again");
        if (!err) { B o = out(g); CHECK(o.n == good.n && !memcmp(o.d, good.d, o.n), "result differs after failures"); free(o.d); }
        tg_geom_free(g); free(good.d); free(before.d); free(j.b.d);
        tg_geom_free(base); m_free(j.m);
        CHECK(g_live == 0, "%ld allocations leaked at the end", g_live);
        // rings, lines and polygons on their own
        if (rn(3) == 0) {
            M *m = gen_t(TG_POLYGON, 0, G_NOZM | G_NOEMPTY); casef("ring/line/polygon functions index 0x%x: %s", j.ix, pts_str(m->r[0].p, m->r[0].n));
            struct tg_ring *r = tg_ring_new_ix(m->r[0].p, m->r[0].n, j.ix); struct tg_line *l = tg_line_new_ix(m->r[0].p, m->r[0].n, j.ix); struct tg_poly *p = mk_poly(m, j.ix);
            struct tg_geom *gp = tg_geom_new_polygon(p); bool pin = rn(2);
            if (pin) { tg_geom_setnoheap((void *)r); tg_geom_setnoheap((void *)l); tg_geom_setnoheap((void *)p); casef("ring/line/polygon functions of pinned parts, index 0x%x: %s", j.ix, pts_str(m->r[0].p, m->r[0].n)); }
            live = g_live;
            for (int f = 0; f < 13; f++) for (int k = 0; k < 10; k++) {
                a0 = g_allocs; g_fail_at = g_allocs + k; void *v = 0; int t = 0;
                switch (f) { case 0: v = tg_ring_copy(r); break; case 1: v = tg_line_copy(l); t = 1; break; case 2: v = tg_poly_copy(p); t = 2; break; case 3: v = tg_poly_new(r, (const struct tg_ring *const *)&r, 1); t = 2; break;
                    case 4: v = tg_ring_new_ix(m->r[0].p, m->r[0].n, j.ix); break; case 5: v = tg_line_new_ix(m->r[0].p, m->r[0].n, j.ix); t = 1; break; case 6: v = tg_geom_new_polygon_z(p, m->x, 0); t = 3; break;
                    case 7: { const struct tg_ring *hs[2] = { r, r }; v = tg_poly_new(r, hs, 2); t = 2; } break; case 8: v = tg_geom_new_linestring_m(l, m->x, 0); t = 3; break; case 9: v = tg_geom_new_geometrycollection((const struct tg_geom *const *)&l, 1); t = 3; break;
                    case 10: { const struct tg_poly *ps[2] = { p, p }; v = tg_geom_new_multipolygon(ps, 2); t = 3; } break; case 11: v = tg_geom_new_polygon_zm(p, m->x, 0); t = 3; break;
                    default: v = tg_geom_new_multilinestring((const struct tg_line *const *)&l, 1); t = 3; }
                bool hit = g_allocs - a0 > k; g_fail_at = -1;
                CHECK(hit == !v, "function %d%s allocation %d: %s", f, pin ? " (pinned parts)" : "", k, v ? "not null although it failed" : "null although nothing failed");
                if (t == 0) tg_ring_free(v); else if (t == 1) tg_line_free(v); else if (t == 2) tg_poly_free(v); else tg_geom_free(v);
                CHECK(g_live == live, "function %d allocation %d: leak", f, k);
                if (!hit) break;
            }
            tg_ring_free(r); tg_line_free(l); tg_poly_free(p); m_free(m); tg_geom_free(gp);
            if (pin) { CHECK(g_live == live, "pinned parts released"); g_live = 0; }
            CHECK(g_live == 0, "leak");
        }
    }
    finish(0);
}
