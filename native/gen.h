// Model-based geometry generator: a model M describes a geometry, mk() builds it through the public constructors,
// cmp() compares a geometry with a model through the public accessors, and o_* are independent oracle encoders.
#ifndef GEN_H
#define GEN_H
typedef struct M M;
typedef struct { pt *p; int n; } R;
struct M {
    int type;               // tg_geom_type
    bool z, m, empty;       // empty: built with the *_empty constructor
    R *r; int nr;           // POINT: r[0] one point; LINESTRING: r[0]; POLYGON: rings; MULTIPOINT: one each; MULTILINESTRING: lines
    M **c; int nc;          // MULTIPOLYGON: 2D polygons; GEOMETRYCOLLECTION: members
    double *x; int nx;      // extra coordinates
    bool feat, featcol;     // built by parsing GeoJSON
    char *xj;               // extra json expected (or 0)
};
static M *m_new(int t) { M *m = calloc(1, sizeof *m); m->type = t; return m; }
static void m_free(M *m) {
    if (!m) return;
    for (int i = 0; i < m->nr; i++) free(m->r[i].p);
    for (int i = 0; i < m->nc; i++) m_free(m->c[i]);
    free(m->r); free(m->c); free(m->x); free(m->xj); free(m);
}
// coordinate sources
static int g_cmode = 0;      // 0 small ints, 1 mixed finite, 2 any bit pattern except nan, 3 nearby decimals
static int g_noneg0 = 0;  // no negative zero (the sign of a zero bound is not specified)
static double gcoord1(void) {
    static const double sp[] = { 0.0, -0.0, 1, -1, 0.5, 1e-300, -1e300, 1.7976931348623157e308, 4.9406564584124654e-324, 2.2250738585072014e-308,
        180, -90, 3.141592653589793, 123456789.125, 1e15, 1e16, 1e17, 1e21, 1e22, 123456789012345680.0, 9007199254740993.0, 0.1, 0.3, 2e-5, 1e-7, 5e-324, 16777217 };
    switch (g_cmode) {
    case 0: return rr(-20, 20);
    case 1: return rn(3) == 0 ? sp[rn(sizeof sp / sizeof *sp)] : rn(2) ? rbits() : rr(-1000, 1000) / 8.0;
    case 2: { if (rn(12) == 0) return rn(2) ? INFINITY : -INFINITY; return rn(4) == 0 ? sp[rn(sizeof sp / sizeof *sp)] : rbits(); }
    default: return rr(-180000, 180000) / 1000.0;
    }
}
static double gcoord(void) { double d = gcoord1(); return g_noneg0 ? d + 0.0 : d; }
static pt gpt(void) { double x = gcoord(), y = gcoord(); return P(x, y); }
static R gring(int nmin, int nmax, bool closed) {
    R r; r.n = rr(nmin, nmax); r.p = malloc(sizeof(pt) * (r.n + 1));
    for (int i = 0; i < r.n; i++) r.p[i] = gpt();
    if (closed) r.p[r.n - 1] = r.p[0];
    return r;
}
static int g_big = 0;   // allow long series
static int m_npts(const M *m) { int n = 0; for (int i = 0; i < m->nr; i++) n += m->r[i].n; for (int i = 0; i < m->nc; i++) n += m_npts(m->c[i]); return n; }
static int g_short = 0; // allow fewer extra coordinates than the points have (the missing ones are written as zero)
static void gextra(M *m) {
    int d = m->z + m->m; if (!d) return;
    m->nx = m_npts(m) * d; m->x = calloc(m->nx + 1, sizeof(double));
    int n = m->nx; if (g_short && m->type != TG_POINT && rn(5) == 0) n = rn(m->nx + 1);
    for (int i = 0; i < n; i++) m->x[i] = gcoord();
    m->nx = n;
}
// as it reads back: every point has all its coordinates
static void m_pad(M *m) { int d = m->z + m->m; if (d && m->x) m->nx = m_npts(m) * d; for (int i = 0; i < m->nc; i++) m_pad(m->c[i]); }
enum { G_NOZM = 1, G_NOEMPTY = 2, G_NOCOLL = 4, G_NOM = 8, G_ZONLY_COLL = 16 };
static M *gen_t(int t, int depth, int fl) {
    M *m = m_new(t);
    int lim = g_big && rn(3) == 0 ? 90 : 7;
    if (!(fl & G_NOEMPTY) && rn(12) == 0) { m->empty = true; return m; }
    if (t != TG_GEOMETRYCOLLECTION && !(fl & G_NOZM) && rn(2)) { int k = rn(3); m->z = k != 1; m->m = k != 0; if (fl & G_NOM && m->m) { m->z = true; if (fl & G_ZONLY_COLL) m->m = false; } }
    switch (t) {
    case TG_POINT: m->nr = 1; m->r = calloc(1, sizeof(R)); m->r[0] = gring(1, 1, false); break;
    case TG_LINESTRING: m->nr = 1; m->r = calloc(1, sizeof(R)); m->r[0] = gring(2, lim, false); break;
    case TG_POLYGON: m->nr = rr(1, 3); m->r = calloc(m->nr, sizeof(R)); for (int i = 0; i < m->nr; i++) m->r[i] = gring(4, lim, true); break;
    case TG_MULTIPOINT: m->nr = rr(1, g_big && rn(3) == 0 ? 150 : 6); m->r = calloc(m->nr, sizeof(R)); for (int i = 0; i < m->nr; i++) m->r[i] = gring(1, 1, false); break;
    case TG_MULTILINESTRING: m->nr = rr(1, 5); m->r = calloc(m->nr, sizeof(R)); for (int i = 0; i < m->nr; i++) m->r[i] = gring(2, lim, false); break;
    case TG_MULTIPOLYGON: m->nc = rr(1, 4); m->c = calloc(m->nc, sizeof(M *)); for (int i = 0; i < m->nc; i++) m->c[i] = gen_t(TG_POLYGON, 0, G_NOZM | G_NOEMPTY); break;
    default: m->nc = rr(1, g_big && rn(6) == 0 ? 70 : 4); m->c = calloc(m->nc, sizeof(M *));
        for (int i = 0; i < m->nc; i++) m->c[i] = gen_t(rr(1, depth > 0 && m->nc < 10 ? 7 : 6), depth - 1, fl);
    }
    gextra(m);
    return m;
}
static M *gen(int depth, int fl) { return gen_t(rr(1, fl & G_NOCOLL ? 6 : 7), depth, fl); }

static struct tg_poly *mk_poly(const M *m, enum tg_index ix) {
    struct tg_ring *rs[8]; int k = 0;
    for (; k < m->nr; k++) { rs[k] = tg_ring_new_ix(m->r[k].p, m->r[k].n, ix); if (!rs[k]) break; }
    struct tg_poly *p = k == m->nr ? tg_poly_new(rs[0], (const struct tg_ring *const *)rs + 1, m->nr - 1) : 0;
    for (int i = 0; i < k; i++) tg_ring_free(rs[i]);
    return p;
}
// builds the geometry; 0 when an allocation failed (nothing leaks)
static struct tg_geom *mk(const M *m, enum tg_index ix) {
    struct tg_geom *g = 0;
    int d = (m->z ? 1 : 0) | (m->m ? 2 : 0);
    switch (m->type) {
    case TG_POINT:
        if (m->empty) return tg_geom_new_point_empty();
        return d == 0 ? tg_geom_new_point(m->r[0].p[0]) : d == 1 ? tg_geom_new_point_z(m->r[0].p[0], m->x[0]) : d == 2 ? tg_geom_new_point_m(m->r[0].p[0], m->x[0])
            : tg_geom_new_point_zm(m->r[0].p[0], m->x[0], m->x[1]);
    case TG_LINESTRING: {
        if (m->empty) return tg_geom_new_linestring_empty();
        struct tg_line *l = tg_line_new_ix(m->r[0].p, m->r[0].n, ix); if (!l) return 0;
        g = d == 0 ? tg_geom_new_linestring(l) : d == 1 ? tg_geom_new_linestring_z(l, m->x, m->nx) : d == 2 ? tg_geom_new_linestring_m(l, m->x, m->nx) : tg_geom_new_linestring_zm(l, m->x, m->nx);
        tg_line_free(l); return g; }
    case TG_POLYGON: {
        if (m->empty) return tg_geom_new_polygon_empty();
        struct tg_poly *p = mk_poly(m, ix); if (!p) return 0;
        g = d == 0 ? tg_geom_new_polygon(p) : d == 1 ? tg_geom_new_polygon_z(p, m->x, m->nx) : d == 2 ? tg_geom_new_polygon_m(p, m->x, m->nx) : tg_geom_new_polygon_zm(p, m->x, m->nx);
        tg_poly_free(p); return g; }
    case TG_MULTIPOINT: {
        if (m->empty) return tg_geom_new_multipoint_empty();
        pt *p = malloc(sizeof(pt) * (m->nr + 1)); for (int i = 0; i < m->nr; i++) p[i] = m->r[i].p[0];
        g = d == 0 ? tg_geom_new_multipoint(p, m->nr) : d == 1 ? tg_geom_new_multipoint_z(p, m->nr, m->x, m->nx) : d == 2 ? tg_geom_new_multipoint_m(p, m->nr, m->x, m->nx) : tg_geom_new_multipoint_zm(p, m->nr, m->x, m->nx);
        free(p); return g; }
    case TG_MULTILINESTRING: {
        if (m->empty) return tg_geom_new_multilinestring_empty();
        struct tg_line *l[16]; int k = 0;
        for (; k < m->nr; k++) { l[k] = tg_line_new_ix(m->r[k].p, m->r[k].n, ix); if (!l[k]) break; }
        const struct tg_line *const *cl = (const struct tg_line *const *)l;
        if (k == m->nr) g = d == 0 ? tg_geom_new_multilinestring(cl, k) : d == 1 ? tg_geom_new_multilinestring_z(cl, k, m->x, m->nx) : d == 2 ? tg_geom_new_multilinestring_m(cl, k, m->x, m->nx) : tg_geom_new_multilinestring_zm(cl, k, m->x, m->nx);
        for (int i = 0; i < k; i++) tg_line_free(l[i]);
        return g; }
    case TG_MULTIPOLYGON: {
        if (m->empty) return tg_geom_new_multipolygon_empty();
        struct tg_poly *p[16]; int k = 0;
        for (; k < m->nc; k++) { p[k] = mk_poly(m->c[k], ix); if (!p[k]) break; }
        const struct tg_poly *const *cp = (const struct tg_poly *const *)p;
        if (k == m->nc) g = d == 0 ? tg_geom_new_multipolygon(cp, k) : d == 1 ? tg_geom_new_multipolygon_z(cp, k, m->x, m->nx) : d == 2 ? tg_geom_new_multipolygon_m(cp, k, m->x, m->nx) : tg_geom_new_multipolygon_zm(cp, k, m->x, m->nx);
        for (int i = 0; i < k; i++) tg_poly_free(p[i]);
        return g; }
    default: {
        if (m->empty) return tg_geom_new_geometrycollection_empty();
        struct tg_geom *p[160]; int k = 0;
        for (; k < m->nc; k++) { p[k] = mk(m->c[k], ix); if (!p[k]) break; }
        if (k == m->nc) g = tg_geom_new_geometrycollection((const struct tg_geom *const *)p, k);
        for (int i = 0; i < k; i++) tg_geom_free(p[i]);
        return g; }
    }
}
static bool beq(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static bool veq(double a, double b) { return a == b || (a != a && b != b); }
static bool peq(pt a, pt b, bool bits) { return bits ? beq(a.x, b.x) && beq(a.y, b.y) : veq(a.x, b.x) && veq(a.y, b.y); }
// text of the first difference, or 0. bits: compare bit patterns. Only public accessors are used.
static const char *cmp_ring(const struct tg_ring *r, const R *q, bool bits) {
    static char e[200];
    if (tg_ring_num_points(r) != q->n) { sprintf(e, "ring has %d points, want %d", tg_ring_num_points(r), q->n); return e; }
    for (int i = 0; i < q->n; i++) { pt p = tg_ring_point_at(r, i); if (!peq(p, q->p[i], bits)) { sprintf(e, "ring point %d is %.17g %.17g, want %.17g %.17g", i, p.x, p.y, q->p[i].x, q->p[i].y); return e; } }
    return 0;
}
static const char *cmp_poly(const struct tg_poly *p, const M *m, bool bits) {
    const char *e;
    if (!p) return "polygon is null";
    if (tg_poly_num_holes(p) != m->nr - 1) return "wrong number of holes";
    if ((e = cmp_ring(tg_poly_exterior(p), &m->r[0], bits))) return e;
    for (int i = 1; i < m->nr; i++) if ((e = cmp_ring(tg_poly_hole_at(p, i - 1), &m->r[i], bits))) return e;
    return 0;
}
static bool m_nopos(const M *m) {   // no position at all
    if (m->empty) return true;
    if (m->type == TG_GEOMETRYCOLLECTION) { for (int i = 0; i < m->nc; i++) if (!m_nopos(m->c[i])) return false; return true; }
    return false;
}
static const char *cmp(const struct tg_geom *g, const M *m, bool bits) {
    static char e[300]; const char *s;
    if (!g) return "geometry is null";
    if (tg_geom_error(g)) { snprintf(e, sizeof e, "error: %s", tg_geom_error(g)); return e; }
    if ((int)tg_geom_typeof(g) != m->type) { sprintf(e, "type %d, want %d", tg_geom_typeof(g), m->type); return e; }
    if (tg_geom_is_empty(g) != m_nopos(m)) return "is_empty differs";
    if (!m->empty && (tg_geom_has_z(g) != m->z || tg_geom_has_m(g) != m->m)) { sprintf(e, "z/m %d/%d, want %d/%d", tg_geom_has_z(g), tg_geom_has_m(g), m->z, m->m); return e; }
    if (!m->empty && tg_geom_dims(g) != 2 + m->z + m->m) return "dims differ";
    if (tg_geom_is_feature(g) != m->feat) return "is_feature differs";
    if (tg_geom_is_featurecollection(g) != m->featcol) return "is_featurecollection differs";
    int np = 0, nl = 0, npo = 0, ng = 0;
    if (!m->empty) switch (m->type) { case TG_MULTIPOINT: np = m->nr; break; case TG_MULTILINESTRING: nl = m->nr; break; case TG_MULTIPOLYGON: npo = m->nc; break; case TG_GEOMETRYCOLLECTION: ng = m->nc; break; }
    if (tg_geom_num_points(g) != np || tg_geom_num_lines(g) != nl || tg_geom_num_polys(g) != npo || tg_geom_num_geometries(g) != ng) {
        sprintf(e, "counts %d %d %d %d, want %d %d %d %d", tg_geom_num_points(g), tg_geom_num_lines(g), tg_geom_num_polys(g), tg_geom_num_geometries(g), np, nl, npo, ng); return e; }
    if (m->type != TG_POINT) {
        if (tg_geom_num_extra_coords(g) != m->nx) { sprintf(e, "extra coords %d, want %d", tg_geom_num_extra_coords(g), m->nx); return e; }
        const double *x = tg_geom_extra_coords(g);
        for (int i = 0; i < m->nx; i++) if (!(bits ? beq(x[i], m->x[i]) : veq(x[i], m->x[i]))) { sprintf(e, "extra coord %d is %.17g, want %.17g", i, x[i], m->x[i]); return e; }
    }
    if (m->empty) return 0;
    switch (m->type) {
    case TG_POINT: {
        pt p = tg_geom_point(g);
        if (!peq(p, m->r[0].p[0], bits)) { sprintf(e, "point %.17g %.17g, want %.17g %.17g", p.x, p.y, m->r[0].p[0].x, m->r[0].p[0].y); return e; }
        double z = m->z ? m->x[0] : 0, mm = m->m ? m->x[m->z ? 1 : 0] : 0;
        if (!(bits ? beq(tg_geom_z(g), z) && beq(tg_geom_m(g), mm) : veq(tg_geom_z(g), z) && veq(tg_geom_m(g), mm))) return "z or m differs";
        return 0; }
    case TG_LINESTRING: if (!tg_geom_line(g)) return "line is null"; return cmp_ring((const struct tg_ring *)tg_geom_line(g), &m->r[0], bits);
    case TG_POLYGON: return cmp_poly(tg_geom_poly(g), m, bits);
    case TG_MULTIPOINT: for (int i = 0; i < np; i++) if (!peq(tg_geom_point_at(g, i), m->r[i].p[0], bits)) { sprintf(e, "point %d differs", i); return e; } return 0;
    case TG_MULTILINESTRING: for (int i = 0; i < nl; i++) if ((s = cmp_ring((const struct tg_ring *)tg_geom_line_at(g, i), &m->r[i], bits))) return s; return 0;
    case TG_MULTIPOLYGON: for (int i = 0; i < npo; i++) if ((s = cmp_poly(tg_geom_poly_at(g, i), m->c[i], bits))) return s; return 0;
    default: for (int i = 0; i < ng; i++) if ((s = cmp(tg_geom_geometry_at(g, i), m->c[i], bits))) return s; return 0;
    }
}
// ---- growing text/byte buffer
typedef struct { uint8_t *d; size_t n, cap; } B;
static void b_add(B *b, const void *p, size_t n) { if (b->n + n + 1 > b->cap) { b->cap = (b->cap + n) * 2 + 64; b->d = realloc(b->d, b->cap); } memcpy(b->d + b->n, p, n); b->n += n; b->d[b->n] = 0; }
static void b_s(B *b, const char *s) { b_add(b, s, strlen(s)); }
static void b_c(B *b, int c) { uint8_t x = c; b_add(b, &x, 1); }
static void b_f(B *b, const char *f, ...) { char t[512]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap); b_s(b, t); }
// ---- WKB oracle. endian: 0 LE, 1 BE, 2 random per element. srid: add EWKB srid
static void o_u32(B *b, uint32_t v, bool be) { uint8_t x[4]; for (int i = 0; i < 4; i++) x[be ? 3 - i : i] = v >> (8 * i); b_add(b, x, 4); }
static void o_dbl(B *b, double d, bool be) { uint64_t v; memcpy(&v, &d, 8); uint8_t x[8]; for (int i = 0; i < 8; i++) x[be ? 7 - i : i] = v >> (8 * i); b_add(b, x, 8); }
static bool o_hdr(B *b, int type, bool z, bool m, int endian, bool srid) {
    bool be = endian == 2 ? rn(2) : endian;
    b_c(b, be ? 0 : 1);
    uint32_t t = type + (z ? 1000 : 0) + (m ? 2000 : 0);
    if (srid) t |= 0x20000000;
    o_u32(b, t, be);
    if (srid) o_u32(b, (uint32_t)rnd(), be);
    return be;
}
static const double *o_pos(B *b, pt p, const double *x, int d, bool be) { o_dbl(b, p.x, be); o_dbl(b, p.y, be); for (int i = 0; i < d; i++) o_dbl(b, x[i], be); return x + d; }
static const double *o_ringw(B *b, const R *r, const double *x, int d, bool be) { o_u32(b, r->n, be); for (int i = 0; i < r->n; i++) x = o_pos(b, r->p[i], x, d, be); return x; }
static void o_wkb(B *b, const M *m, int endian, int srid) {
    bool sr = srid && rn(2);
    bool be = o_hdr(b, m->type, m->z, m->m, endian, sr);
    int d = m->z + m->m; const double *x = m->x; static const double none[4];
    if (!x) x = none;
    switch (m->type) {
    case TG_POINT: if (m->empty) { for (int i = 0; i < 2 + d; i++) o_dbl(b, NAN, be); return; } o_pos(b, m->r[0].p[0], x, d, be); return;
    case TG_LINESTRING: if (m->empty) { o_u32(b, 0, be); return; } o_ringw(b, &m->r[0], x, d, be); return;
    case TG_POLYGON: o_u32(b, m->empty ? 0 : m->nr, be); if (!m->empty) for (int i = 0; i < m->nr; i++) x = o_ringw(b, &m->r[i], x, d, be); return;
    case TG_MULTIPOINT: o_u32(b, m->empty ? 0 : m->nr, be); if (!m->empty) for (int i = 0; i < m->nr; i++) { bool e2 = o_hdr(b, 1, m->z, m->m, endian, srid && rn(2)); x = o_pos(b, m->r[i].p[0], x, d, e2); } return;
    case TG_MULTILINESTRING: o_u32(b, m->empty ? 0 : m->nr, be); if (!m->empty) for (int i = 0; i < m->nr; i++) { bool e2 = o_hdr(b, 2, m->z, m->m, endian, srid && rn(2)); x = o_ringw(b, &m->r[i], x, d, e2); } return;
    case TG_MULTIPOLYGON: o_u32(b, m->empty ? 0 : m->nc, be); if (!m->empty) for (int i = 0; i < m->nc; i++) { bool e2 = o_hdr(b, 3, m->z, m->m, endian, srid && rn(2)); o_u32(b, m->c[i]->nr, e2); for (int j = 0; j < m->c[i]->nr; j++) x = o_ringw(b, &m->c[i]->r[j], x, d, e2); } return;
    default: o_u32(b, m->empty ? 0 : m->nc, be); for (int i = 0; i < m->nc; i++) o_wkb(b, m->c[i], endian, srid);
    }
}
// ---- WKT oracle (input text; numbers with 17 digits; style: random spacing and case when >0)
static int o_sty;
static void o_ws(B *b, bool need) { if (need) b_s(b, " "); if (o_sty) { int k = rn(4) == 0 ? rr(1, 2) : 0; while (k--) b_c(b, " \t\n\r"[rn(4)]); } }
static void o_kw(B *b, const char *s) { for (; *s; s++) b_c(b, o_sty && rn(3) == 0 ? *s | 32 : *s); }
static void o_num(B *b, double d) { b_f(b, "%.17g", d); }
static const double *o_wpos(B *b, pt p, const double *x, int d) { o_num(b, p.x); b_s(b, " "); o_ws(b, false); o_num(b, p.y); for (int i = 0; i < d; i++) { b_s(b, " "); o_num(b, x[i]); } return x + d; }
static const double *o_wring(B *b, const R *r, const double *x, int d) {
    b_s(b, "("); o_ws(b, false);
    for (int i = 0; i < r->n; i++) { if (i) { b_s(b, ","); o_ws(b, false); } x = o_wpos(b, r->p[i], x, d); o_ws(b, false); }
    b_s(b, ")"); return x;
}
static const char *o_name(int t) { static const char *n[] = { "", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION" }; return n[t]; }
// zm: 0 only where needed (M), 1 always
static void o_wkt(B *b, const M *m, int zm) {
    static const double none[4]; const double *x = m->x ? m->x : none; int d = m->z + m->m;
    o_kw(b, o_name(m->type));
    if (zm || (m->m && !m->z)) if (d) { b_s(b, rn(2) || !o_sty ? " " : ""); o_kw(b, m->z ? m->m ? "ZM" : "Z" : "M"); }
    if (m->empty) { b_s(b, " "); o_kw(b, "EMPTY"); return; }
    o_ws(b, false);
    switch (m->type) {
    case TG_POINT: o_wring(b, &m->r[0], x, d); return;
    case TG_LINESTRING: o_wring(b, &m->r[0], x, d); return;
    case TG_POLYGON: b_s(b, "("); for (int i = 0; i < m->nr; i++) { if (i) { b_s(b, ","); } o_ws(b, false); x = o_wring(b, &m->r[i], x, d); o_ws(b, false); } b_s(b, ")"); return;
    case TG_MULTIPOINT: { bool par = o_sty && rn(2); b_s(b, "("); for (int i = 0; i < m->nr; i++) { if (i) b_s(b, ","); o_ws(b, false); if (par) x = o_wring(b, &m->r[i], x, d); else x = o_wpos(b, m->r[i].p[0], x, d); o_ws(b, false); } b_s(b, ")"); return; }
    case TG_MULTILINESTRING: b_s(b, "("); for (int i = 0; i < m->nr; i++) { if (i) b_s(b, ","); o_ws(b, false); x = o_wring(b, &m->r[i], x, d); o_ws(b, false); } b_s(b, ")"); return;
    case TG_MULTIPOLYGON: b_s(b, "("); for (int i = 0; i < m->nc; i++) { if (i) b_s(b, ","); o_ws(b, false); b_s(b, "("); for (int j = 0; j < m->c[i]->nr; j++) { if (j) b_s(b, ","); o_ws(b, false); x = o_wring(b, &m->c[i]->r[j], x, d); o_ws(b, false); } b_s(b, ")"); } b_s(b, ")"); return;
    default: b_s(b, "("); for (int i = 0; i < m->nc; i++) { if (i) b_s(b, ","); o_ws(b, false); o_wkt(b, m->c[i], zm); o_ws(b, false); } b_s(b, ")");
    }
}
// ---- GeoJSON oracle (m-only becomes a third dimension)
static void o_jws(B *b) { if (o_sty && rn(4) == 0) b_c(b, " \t\n\r"[rn(4)]); }
static const double *o_jpos(B *b, pt p, const double *x, int d) { b_s(b, "["); o_num(b, p.x); b_s(b, ","); o_jws(b); o_num(b, p.y); for (int i = 0; i < d; i++) { b_s(b, ","); o_num(b, x[i]); } b_s(b, "]"); return x + d; }
static const double *o_jring(B *b, const R *r, const double *x, int d) { b_s(b, "["); for (int i = 0; i < r->n; i++) { if (i) b_s(b, ","); o_jws(b); x = o_jpos(b, r->p[i], x, d); } b_s(b, "]"); return x; }
static const char *o_jname(int t) { static const char *n[] = { "", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection" }; return n[t]; }
static void o_json(B *b, const M *m, const char *extra) {
    static const double none[4]; const double *x = m->x ? m->x : none; int d = m->z + m->m;
    b_f(b, "{\"type\":\"%s\",", o_jname(m->type)); o_jws(b);
    b_s(b, m->type == TG_GEOMETRYCOLLECTION ? "\"geometries\":" : "\"coordinates\":"); o_jws(b);
    if (m->empty) b_s(b, "[]");
    else switch (m->type) {
    case TG_POINT: o_jpos(b, m->r[0].p[0], x, d); break;
    case TG_LINESTRING: o_jring(b, &m->r[0], x, d); break;
    case TG_POLYGON: b_s(b, "["); for (int i = 0; i < m->nr; i++) { if (i) b_s(b, ","); x = o_jring(b, &m->r[i], x, d); } b_s(b, "]"); break;
    case TG_MULTIPOINT: b_s(b, "["); for (int i = 0; i < m->nr; i++) { if (i) b_s(b, ","); x = o_jpos(b, m->r[i].p[0], x, d); } b_s(b, "]"); break;
    case TG_MULTILINESTRING: b_s(b, "["); for (int i = 0; i < m->nr; i++) { if (i) b_s(b, ","); x = o_jring(b, &m->r[i], x, d); } b_s(b, "]"); break;
    case TG_MULTIPOLYGON: b_s(b, "["); for (int i = 0; i < m->nc; i++) { if (i) b_s(b, ","); b_s(b, "["); for (int j = 0; j < m->c[i]->nr; j++) { if (j) b_s(b, ","); x = o_jring(b, &m->c[i]->r[j], x, d); } b_s(b, "]"); } b_s(b, "]"); break;
    default: b_s(b, "["); for (int i = 0; i < m->nc; i++) { if (i) b_s(b, ","); o_json(b, m->c[i], 0); } b_s(b, "]");
    }
    if (extra) { b_s(b, ","); b_s(b, extra); }
    b_s(b, "}");
}
// ---- bounds of the model
static void m_rect(const M *m, rect *r, bool *any) {
    for (int i = 0; i < m->nr; i++) for (int j = 0; j < m->r[i].n; j++) { pt p = m->r[i].p[j];
        if (!*any) { r->min = r->max = p; *any = true; } else { r->min.x = dmin(p.x, r->min.x); r->min.y = dmin(p.y, r->min.y); r->max.x = dmax(p.x, r->max.x); r->max.y = dmax(p.y, r->max.y); } }
    for (int i = 0; i < m->nc; i++) m_rect(m->c[i], r, any);
}
static bool m_has_empty(const M *m) { if (m->empty) return true; for (int i = 0; i < m->nc; i++) if (m_has_empty(m->c[i])) return true; return false; }
static void describe(const M *m, const char *pre) { B b = { 0 }; o_sty = 0; o_wkt(&b, m, 1); casef("%s%.3000s", pre, (char *)b.d); free(b.d); }
// exact-size copies so that sanitizers see every over-read
static uint8_t *exact(const void *d, size_t n) { uint8_t *p = malloc(n); if (n) memcpy(p, d, n); return p; }
#endif
