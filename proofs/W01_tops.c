//@ property W01
//@ plain
//@ covers tg_geom_geojson tg_geom_wkt tg_geom_wkb tg_geom_geobin
//@ remove write_geom_geojson write_geom_wkt write_geom_wkb write_geom_geobin
//@ use wstub
//@ note the body of each writer tree is taken as appending one fixed byte sequence through the primitives (units W01_frame and W01_*)
size_t __CPROVER_uninterpreted_len(int); uint8_t __CPROVER_uninterpreted_ch(int, size_t);
#define TREE(f, id) static void f(const struct tg_geom *geom, struct writer *wr) { \
    ASSERT(wr->count == 0, "pre: writing starts at the start of the buffer"); \
    size_t len = __CPROVER_uninterpreted_len(id); ASSUME(len <= 1ul << 50); PUT(wr, len, __CPROVER_uninterpreted_ch(id, o)) }
TREE(write_geom_geojson, 1) TREE(write_geom_wkt, 2) TREE(write_geom_wkb, 3) TREE(write_geom_geobin, 4)
void harness(void) {
    size_t in_n; ASSUME(in_n <= 1ul << 40);
    uint8_t *d = malloc(in_n); ASSUME(d);
    struct tg_geom g; size_t in_p; g_p = in_p; ASSUME(in_n == 0 || in_p < in_n);
    uint8_t old; if (in_n) old = d[in_p]; else d = 0;
    int in_f; ASSUME(in_f >= 1 && in_f <= 4);
    size_t r = in_f == 1 ? tg_geom_geojson(&g, (char *)d, in_n) : in_f == 2 ? tg_geom_wkt(&g, (char *)d, in_n) : in_f == 3 ? tg_geom_wkb(&g, d, in_n) : tg_geom_geobin(&g, d, in_n);
    size_t len = __CPROVER_uninterpreted_len(in_f);
    ASSERT(r == len, "post: the full length is returned whatever the buffer");
    if (in_n) {
        size_t stored = in_f <= 2 ? (len < in_n ? len : in_n - 1) : (len < in_n ? len : in_n);
        if (in_p < stored) ASSERT(d[in_p] == __CPROVER_uninterpreted_ch(in_f, in_p), "post: the longest prefix that fits is stored");
        else if (in_f <= 2 && in_p == stored) ASSERT(d[in_p] == 0, "post: text is terminated inside the buffer");
        else ASSERT(d[in_p] == old, "post: nothing else is touched");
    }
    ASSERT(tg_geom_geojson(0, 0, 0) == 0 && tg_geom_wkt(0, 0, 0) == 0 && tg_geom_wkb(0, 0, 0) == 0 && tg_geom_geobin(0, 0, 0) == 0, "post: null geometry");
    REACH(in_f == 1 && in_n == 0, "null buffer"); REACH(in_f == 2 && r > in_n && in_p == in_n - 1, "cut"); REACH(in_f == 4, "bin");
}
