// Reference (oracle) geometry on small integers, and random shape generators.
#ifndef SHAPE_H
#define SHAPE_H
// semi-public functions of tg.c (also used by the project's own tests)
enum tg_index tg_index_with_spread(enum tg_index ix, int spread);
enum tg_index tg_index_extract_spread(enum tg_index ix, int *spread);
enum tg_index tg_env_get_default_index(void);
int tg_env_get_index_spread(void);
int tg_geom_multi_index_spread(const struct tg_geom *geom);
int tg_geom_multi_index_num_levels(const struct tg_geom *geom);
int tg_geom_multi_index_level_num_rects(const struct tg_geom *geom, int levelidx);
struct tg_rect tg_geom_multi_index_level_rect(const struct tg_geom *geom, int levelidx, int rectidx);
typedef __int128 i128;
static int sgn(i128 v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static i128 crossi(pt a, pt b, pt c) {  // (b-a)x(c-a), exact for integers < 2^50
    return (i128)(long long)(b.x - a.x) * (i128)(long long)(c.y - a.y) - (i128)(long long)(b.y - a.y) * (i128)(long long)(c.x - a.x);
}
static bool pe(pt a, pt b) { return a.x == b.x && a.y == b.y; }
static double dmin(double a, double b) { return a < b ? a : b; }
static double dmax(double a, double b) { return a > b ? a : b; }
static bool on_seg(pt p, pt a, pt b) {
    return crossi(a, b, p) == 0 && p.x >= dmin(a.x, b.x) && p.x <= dmax(a.x, b.x) && p.y >= dmin(a.y, b.y) && p.y <= dmax(a.y, b.y);
}
static bool seg_x_seg(pt a, pt b, pt c, pt d) {
    if (on_seg(a, c, d) || on_seg(b, c, d) || on_seg(c, a, b) || on_seg(d, a, b)) return true;
    if (pe(a, b) || pe(c, d)) return false;
    return sgn(crossi(a, b, c)) * sgn(crossi(a, b, d)) < 0 && sgn(crossi(c, d, a)) * sgn(crossi(c, d, b)) < 0;
}
// ring given by n points (closing implied): 1 inside, 0 boundary, -1 outside
static int pip_ref(const pt *p, int n, pt q) {
    bool in = false;
    for (int i = 0; i < n; i++) {
        pt a = p[i], b = p[(i + 1) % n];
        if (on_seg(q, a, b)) return 0;
        if ((a.y > q.y) != (b.y > q.y)) {
            // x of crossing > q.x ?
            i128 l = crossi(a, b, q);
            if (b.y > a.y ? l > 0 : l < 0) in = !in;
        }
    }
    return in ? 1 : -1;
}
static i128 area2(const pt *p, int n) {
    i128 s = 0;
    for (int i = 0; i < n; i++) { pt a = p[i], b = p[(i + 1) % n]; s += (i128)(long long)a.x * (long long)b.y - (i128)(long long)b.x * (long long)a.y; }
    return s;
}
// strictly simple ring (no repeated vertices, no crossings, no touching, no spikes)
static bool simple_ring(const pt *p, int n) {
    if (n < 3) return false;
    for (int i = 0; i < n; i++) {
        if (pe(p[i], p[(i + 1) % n])) return false;
        for (int j = i + 1; j < n; j++) {
            pt a = p[i], b = p[(i + 1) % n], c = p[j], d = p[(j + 1) % n];
            if (j == i + 1 || (i == 0 && j == n - 1)) {
                // adjacent: share exactly one endpoint and nothing else
                pt sh = j == i + 1 ? b : a, o1 = j == i + 1 ? a : b, o2 = j == i + 1 ? d : c;
                if (on_seg(o1, c, d) || on_seg(o2, a, b)) return false;
                (void)sh;
                if (n == 3) continue;
            } else if (seg_x_seg(a, b, c, d)) return false;
        }
    }
    return area2(p, n) != 0;
}
static bool convex_ref(const pt *p, int n) {
    int d = 0;
    for (int i = 0; i < n; i++) {
        int s = sgn(crossi(p[i], p[(i + 1) % n], p[(i + 2) % n]));
        if (s && d && s != d) return false;
        if (s) d = s;
    }
    return true;
}
// random simple integer ring: start from a rectangle-ish walk and grow by inserting vertices that keep it simple
static int gen_simple(pt *p, int nmax, int R) {
    int n;
    for (;;) {
        for (int i = 0; i < 3; i++) p[i] = P(rr(-R, R), rr(-R, R));
        n = 3;
        if (simple_ring(p, 3)) break;
    }
    int tries = nmax * 6;
    while (n < nmax && tries-- > 0) {
        int k = rn(n);
        pt a = p[k], b = p[(k + 1) % n], q;
        switch (rn(6)) {
        case 0: q = P((a.x + b.x) / 2, (a.y + b.y) / 2); if (q.x != floor(q.x) || q.y != floor(q.y)) continue; break; // collinear vertex
        case 1: q = P(a.x, b.y); break;
        case 2: q = P(b.x, a.y); break;
        case 3: q = P(rr(-R, R), a.y); break;    // horizontal run
        default: q = P(rr(-R, R), rr(-R, R));
        }
        // check new edges against all others
        if (pe(q, a) || pe(q, b)) continue;
        bool ok = true;
        for (int j = 0; j < n && ok; j++) {
            if (j == k) continue;
            pt c = p[j], d = p[(j + 1) % n];
            bool prev = (j + 1) % n == k, next = j == (k + 1) % n;
            if (prev) { if (on_seg(c, a, q) || on_seg(q, c, d)) ok = false; }
            else if (seg_x_seg(a, q, c, d)) ok = false;
            if (!ok) break;
            if (next) { if (on_seg(d, q, b) || on_seg(q, c, d)) ok = false; }
            else if (seg_x_seg(q, b, c, d)) ok = false;
        }
        if (ok && (on_seg(b, a, q) || on_seg(a, q, b))) ok = false;
        if (!ok) continue;
        memmove(p + k + 2, p + k + 1, sizeof(pt) * (n - k - 1));
        p[k + 1] = q;
        n++;
        if (area2(p, n) == 0) { memmove(p + k + 1, p + k + 2, sizeof(pt) * (n - k - 2)); n--; }
    }
    // random rotation and direction
    if (rn(2)) for (int i = 0; i < n / 2; i++) { pt t = p[i]; p[i] = p[n - 1 - i]; p[n - 1 - i] = t; }
    int r = rn(n);
    pt *t = malloc(sizeof(pt) * n);
    for (int i = 0; i < n; i++) t[i] = p[(i + r) % n];
    memcpy(p, t, sizeof(pt) * n);
    free(t);
    return n;
}
// large simple integer ring: star-shaped around origin (angles sorted), radius random
static int gen_star(pt *p, int n, int R) {
    int m = 0;
    for (int i = 0; i < n; i++) {
        double an = 2 * M_PI * i / n;
        double r = R * (0.3 + 0.7 * (rn(1000) / 1000.0));
        pt q = P(floor(r * cos(an)), floor(r * sin(an)));
        if (m && pe(q, p[m - 1])) continue;
        p[m++] = q;
    }
    return m;
}
// comb / zigzag ring with long horizontal runs; simple by construction
static int gen_comb(pt *p, int teeth, int w, int h) {
    int m = 0;
    for (int i = 0; i < teeth; i++) {
        double y = rr(1, h);
        p[m++] = P(i * 2 * w, 0); p[m++] = P(i * 2 * w, y); p[m++] = P(i * 2 * w + w, y); p[m++] = P(i * 2 * w + w, 0);
    }
    double y = -rr(1, h);
    p[m++] = P((teeth - 1) * 2 * w + w, y); p[m++] = P(0, y);
    return m;
}
static enum tg_index IXS(int k) {
    switch (k % 12) {
    case 0: return TG_NONE;
    case 1: return TG_NATURAL;
    case 2: return TG_YSTRIPES;
    case 3: return TG_DEFAULT;
    case 4: return tg_index_with_spread(TG_NATURAL, 2);
    case 5: return tg_index_with_spread(TG_NATURAL, 3);
    case 6: return tg_index_with_spread(TG_NATURAL, 4);
    case 7: return tg_index_with_spread(TG_YSTRIPES, 2);
    case 8: return tg_index_with_spread(TG_YSTRIPES, 5);
    case 9: return tg_index_with_spread(TG_NATURAL, 7);
    case 10: return tg_index_with_spread(TG_NATURAL, 16);
    default: return tg_index_with_spread(TG_NATURAL, 4096);
    }
}
#endif
