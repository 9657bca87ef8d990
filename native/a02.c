#include "common.h"
#include "shape.h"
#include "gen.h"
static int fdims; static double fmn[4], fmx[4]; static bool fany[4];
static void acc(int d, double v) { if (!fany[d]) { fmn[d] = fmx[d] = v; fany[d] = true; } else { fmn[d] = dmin(v, fmn[d]); fmx[d] = dmax(v, fmx[d]); } }
static void walkx(const M *m, bool polykid) {
    int d = m->z + m->m; if (2 + d > fdims) fdims = 2 + d;
    bool ext = m->type == TG_POLYGON; (void)polykid;   // holes lie inside the exterior: only the exterior determines the bounds
    for (int i = 0; i < (ext ? 1 : m->nr); i++) for (int j = 0; j < m->r[i].n; j++) { acc(0, m->r[i].p[j].x); acc(1, m->r[i].p[j].y); }
    for (int i = 0; i < m->nc; i++) walkx(m->c[i], false);
    for (int i = 0; i < m->nx; i++) acc(2 + i % d, m->x[i]);
}
static void walk(const M *m) { walkx(m, false); }
int main(int argc, char **argv) {
    harness_init(argc, argv);
    double a[4], b[4];
    CHECK(tg_geom_fullrect(0, a, b) == 0, "null geometry");
    while (time_left()) {
        arm();
        g_cmode = rn(3); if (g_cmode == 2) g_cmode = 3; g_big = rn(20) == 0;
        bool coll = rn(3) == 0;
        M *m = coll ? gen_t(TG_GEOMETRYCOLLECTION, 3, G_NOEMPTY | G_NOM) : gen(0, G_NOEMPTY | G_NOCOLL);
        describe(m, "geometry ");
        struct tg_geom *g = mk(m, IXS(rn(12)));
        fdims = 2; memset(fany, 0, sizeof fany); walk(m);
        eval(fdims > 2);
        for (int rep = 0; rep < 2; rep++) {
            for (int i = 0; i < 4; i++) { a[i] = 77; b[i] = 78; }
            int n = tg_geom_fullrect(g, a, b);
            CHECK(n == fdims, "%d dimensions, want %d", n, fdims);
            for (int i = 0; i < n; i++) CHECK(a[i] == fmn[i] && b[i] == fmx[i], "dimension %d is %.17g..%.17g, want %.17g..%.17g", i, a[i], b[i], fmn[i], fmx[i]);
            rect r = tg_geom_rect(g);
            CHECK(r.min.x == a[0] && r.min.y == a[1] && r.max.x == b[0] && r.max.y == b[1], "differs from tg_geom_rect");
            struct tg_geom *c = tg_geom_copy(g); tg_geom_free(g); g = c;
        }
        tg_geom_free(g); m_free(m);
    }
    finish(0);
}
