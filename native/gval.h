// Valid geometries on a small integer grid as a set of parts, with an exact intersection oracle.
#ifndef GVAL_H
#define GVAL_H
typedef struct { int kind; int n; pt p[40]; int nh; int hn[3]; pt h[3][20]; } Part;   // kind 0 point 1 line 2 polygon; rings are closed (last == first)
typedef struct { int np; Part *part[24]; } Geo;
static int g_R = 8;
static pt gip(void) { return P(rr(-g_R, g_R), rr(-g_R, g_R)); }
static void v_hole(Part *q) {
    // a hole strictly inside the exterior: boundary disjoint from every other ring's and all inside
    static pt t[20]; pt o = gip(); int s = rr(1, 3);
    int n = rn(2) ? 4 : 3;
    t[0] = o; t[1] = P(o.x + s, o.y + (rn(3) == 0)); t[2] = P(o.x + s, o.y + s + 1); t[3] = P(o.x, o.y + s);
    if (!simple_ring(t, n)) return;
    for (int i = 0; i < n; i++) {
        if (pip_ref(q->p, q->n - 1, t[i]) != 1) return;
        for (int j = 0; j + 1 < q->n; j++) if (seg_x_seg(t[i], t[(i + 1) % n], q->p[j], q->p[j + 1])) return;
        for (int k = 0; k < q->nh; k++) { if (pip_ref(q->h[k], q->hn[k] - 1, t[i]) != -1) return; for (int j = 0; j + 1 < q->hn[k]; j++) { if (seg_x_seg(t[i], t[(i + 1) % n], q->h[k][j], q->h[k][j + 1])) return; if (pip_ref(t, n, q->h[k][j]) != -1) return; } }
    }
    memcpy(q->h[q->nh], t, sizeof(pt) * n); q->h[q->nh][n] = t[0]; q->hn[q->nh++] = n + 1;
}
static Part *v_part(int kind) {
    Part *q = calloc(1, sizeof *q); q->kind = kind;
    if (kind == 0) { q->n = 1; q->p[0] = gip(); }
    else if (kind == 1) {
        q->n = rr(2, rn(5) == 0 ? 34 : 6);
        q->p[0] = gip();
        for (int i = 1; i < q->n; i++) do { q->p[i] = rn(3) ? P(q->p[i - 1].x + rr(-4, 4), q->p[i - 1].y + rr(-4, 4)) : gip(); if (rn(3) == 0) q->p[i].x = q->p[i - 1].x; else if (rn(3) == 0) q->p[i].y = q->p[i - 1].y; } while (pe(q->p[i], q->p[i - 1]));
    } else {
        int h = rn(5);
        if (h == 0) { pt a = gip(); int w = rr(1, 2 * g_R), e = rr(1, 2 * g_R); q->p[0] = a; q->p[1] = P(a.x + w, a.y); q->p[2] = P(a.x + w, a.y + e); q->p[3] = P(a.x, a.y + e); q->n = 4; }
        else q->n = gen_simple(q->p, rr(3, rn(4) == 0 ? 34 : 9), g_R);
        q->p[q->n] = q->p[0]; q->n++;
        int k = rn(3); while (k--) for (int t = 0; t < 6; t++) { int b = q->nh; v_hole(q); if (q->nh > b) break; }
    }
    return q;
}
static void v_free(Geo *g) { for (int i = 0; i < g->np; i++) free(g->part[i]); g->np = 0; }
static int inpoly(const Part *q, pt p) {   // 1 interior 0 boundary -1 outside
    int r = pip_ref(q->p, q->n - 1, p); if (r <= 0) return r;
    for (int k = 0; k < q->nh; k++) { int h = pip_ref(q->h[k], q->hn[k] - 1, p); if (h == 0) return 0; if (h > 0) return -1; }
    return 1;
}
static bool rings_x(const Part *a, pt u, pt v) {
    for (int j = 0; j + 1 < a->n; j++) if (seg_x_seg(u, v, a->p[j], a->p[j + 1])) return true;
    for (int k = 0; k < a->nh; k++) for (int j = 0; j + 1 < a->hn[k]; j++) if (seg_x_seg(u, v, a->h[k][j], a->h[k][j + 1])) return true;
    return false;
}
static bool part_x(const Part *a, const Part *b) {
    if (a->kind > b->kind) return part_x(b, a);
    if (a->kind == 0 && b->kind == 0) return pe(a->p[0], b->p[0]);
    if (a->kind == 0 && b->kind == 1) { for (int j = 0; j + 1 < b->n; j++) if (on_seg(a->p[0], b->p[j], b->p[j + 1])) return true; return false; }
    if (a->kind == 0) return inpoly(b, a->p[0]) >= 0;
    if (a->kind == 1 && b->kind == 1) { for (int i = 0; i + 1 < a->n; i++) for (int j = 0; j + 1 < b->n; j++) if (seg_x_seg(a->p[i], a->p[i + 1], b->p[j], b->p[j + 1])) return true; return false; }
    if (a->kind == 1) { if (inpoly(b, a->p[0]) >= 0) return true; for (int i = 0; i + 1 < a->n; i++) if (rings_x(b, a->p[i], a->p[i + 1])) return true; return false; }
    for (int i = 0; i + 1 < a->n; i++) if (rings_x(b, a->p[i], a->p[i + 1])) return true;
    for (int k = 0; k < a->nh; k++) for (int i = 0; i + 1 < a->hn[k]; i++) if (rings_x(b, a->h[k][i], a->h[k][i + 1])) return true;
    return inpoly(a, b->p[0]) >= 0 || inpoly(b, a->p[0]) >= 0;
}
static bool geo_x(const Geo *a, const Geo *b) { for (int i = 0; i < a->np; i++) for (int j = 0; j < b->np; j++) if (part_x(a->part[i], b->part[j])) return true; return false; }
static struct tg_poly *v_poly(const Part *q, enum tg_index ix) {
    struct tg_ring *e = tg_ring_new_ix(q->p, q->n, ix), *h[3]; for (int k = 0; k < q->nh; k++) h[k] = tg_ring_new_ix(q->h[k], q->hn[k], ix);
    struct tg_poly *p = tg_poly_new(e, (const struct tg_ring *const *)h, q->nh);
    tg_ring_free(e); for (int k = 0; k < q->nh; k++) tg_ring_free(h[k]); return p;
}
// representation rep of one part: 0 the geometry type; 1 bare line/ring/poly; 2 with z; 3 one-member collection; 4 feature via GeoJSON; 5 one-member multi
static struct tg_geom *v_geom1(const Part *q, int rep, enum tg_index ix) {
    double x[200]; for (int i = 0; i < 200; i++) x[i] = i;
    struct tg_geom *g, *c;
    if (rep == 3) { g = v_geom1(q, 0, ix); c = tg_geom_new_geometrycollection((const struct tg_geom *const *)&g, 1); tg_geom_free(g); return c; }
    if (rep == 4) {
        g = v_geom1(q, 0, ix); size_t n = tg_geom_geojson(g, 0, 0); char *b = malloc(n + 200), *w = malloc(n + 1); tg_geom_geojson(g, w, n + 1);
        sprintf(b, "{\"type\":\"Feature\",\"geometry\":%s,\"properties\":{\"a\":[1]}}", w); tg_geom_free(g); g = tg_parse_geojson_ix(b, ix); free(b); free(w); return g;
    }
    if (q->kind == 0) {
        if (rep == 2) return tg_geom_new_point_zm(q->p[0], 5, 6);
        if (rep == 5) return tg_geom_new_multipoint(q->p, 1);
        return tg_geom_new_point(q->p[0]);
    }
    if (q->kind == 1) {
        struct tg_line *l = tg_line_new_ix(q->p, q->n, ix);
        if (rep == 1) return (struct tg_geom *)l;
        g = rep == 2 ? tg_geom_new_linestring_z(l, x, q->n) : rep == 5 ? tg_geom_new_multilinestring((const struct tg_line *const *)&l, 1) : tg_geom_new_linestring(l);
        tg_line_free(l); return g;
    }
    if (rep == 1 && q->nh == 0 && (rnd() & 1)) return (struct tg_geom *)tg_ring_new_ix(q->p, q->n, ix);
    struct tg_poly *p = v_poly(q, ix);
    if (rep == 1) return (struct tg_geom *)p;
    int np = q->n; for (int k = 0; k < q->nh; k++) np += q->hn[k];
    g = rep == 2 ? tg_geom_new_polygon_z(p, x, np) : rep == 5 ? tg_geom_new_multipolygon((const struct tg_poly *const *)&p, 1) : tg_geom_new_polygon(p);
    tg_poly_free(p); return g;
}
// a collection of the parts (kind chosen: homogenous multi when possible)
static struct tg_geom *v_geom(const Geo *q, enum tg_index ix) {
    struct tg_geom *g = 0;
    if (q->np == 1 && rn(2)) return v_geom1(q->part[0], rn(6), ix);
    bool same = true; for (int i = 1; i < q->np; i++) if (q->part[i]->kind != q->part[0]->kind) same = false;
    if (same && rn(2)) {
        if (q->part[0]->kind == 0) { pt p[24]; for (int i = 0; i < q->np; i++) p[i] = q->part[i]->p[0]; return tg_geom_new_multipoint(p, q->np); }
        if (q->part[0]->kind == 1) { struct tg_line *l[24]; for (int i = 0; i < q->np; i++) l[i] = tg_line_new_ix(q->part[i]->p, q->part[i]->n, ix); g = tg_geom_new_multilinestring((const struct tg_line *const *)l, q->np); for (int i = 0; i < q->np; i++) tg_line_free(l[i]); return g; }
        struct tg_poly *l[24]; for (int i = 0; i < q->np; i++) l[i] = v_poly(q->part[i], ix); g = tg_geom_new_multipolygon((const struct tg_poly *const *)l, q->np); for (int i = 0; i < q->np; i++) tg_poly_free(l[i]); return g;
    }
    struct tg_geom *c[24]; for (int i = 0; i < q->np; i++) c[i] = v_geom1(q->part[i], rn(6), ix);
    g = tg_geom_new_geometrycollection((const struct tg_geom *const *)c, q->np);
    for (int i = 0; i < q->np; i++) tg_geom_free(c[i]);
    return g;
}
static Geo v_geo(int maxp) { Geo g; g.np = rn(3) ? 1 : rr(1, maxp); int same = rn(2) ? rn(3) : -1; for (int i = 0; i < g.np; i++) g.part[i] = v_part(same >= 0 ? same : rn(3)); return g; }
// a geometry related to another: shares parts, vertices, or is a sub-shape of it
static Geo v_related(const Geo *o) {
    Geo g = v_geo(4);
    for (int i = 0; i < g.np; i++) {
        if (rn(2)) continue;
        const Part *s = o->part[rn(o->np)]; Part *q = g.part[i];
        switch (rn(5)) {
        case 0: *q = *s; break;                                                   // same part
        case 1: memset(q, 0, sizeof *q); q->kind = 0; q->n = 1; q->p[0] = s->p[rn(s->n)]; break;
        case 2: if (s->n >= 2) { memset(q, 0, sizeof *q); q->kind = 1; int a = rn(s->n - 1), b = rr(a + 1, s->n - 1); for (int k = a; k <= b; k++) q->p[q->n++] = s->p[k]; } break;
        case 3: if (s->kind == 2) { memcpy(q->p, s->p, sizeof s->p); q->n = s->n; q->nh = 0; q->kind = 2; } break;   // the exterior alone
        default: if (s->kind == 2 && s->nh) { memset(q, 0, sizeof *q); q->kind = 2; q->n = s->hn[0]; memcpy(q->p, s->h[0], sizeof(pt) * q->n); }      // a hole as a polygon
        }
    }
    return g;
}
static char *v_str(const struct tg_geom *g) { static char b[4][12000]; static int k; k = (k + 1) & 3; tg_geom_wkt(g, b[k], sizeof b[0]); return b[k]; }
#endif
