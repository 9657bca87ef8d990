//@ property A01
//@ plain
//@ covers tg_geom_extra_coords tg_geom_num_extra_coords tg_geom_dims tg_geom_has_z tg_geom_has_m tg_geom_z tg_geom_m
void harness(void) {
    int base, type, flags, in_n; bool null; double z, m; ASSUME(base >= 1 && base <= 5 && type >= 0 && type <= 7 && flags >= 0 && flags < 256);
    struct tg_geom *g = malloc(sizeof *g); ASSUME(g != 0); g->head.base = base; g->head.type = type; g->head.flags = flags; double *c;
    bool pt = type == TG_POINT; if (pt) { g->z = z; g->m = m; } else { g->ncoords = in_n; g->coords = c; }
    const struct tg_geom *a = null ? 0 : g; bool ex = !null && base == BASE_GEOM && !pt;
    ASSERT(tg_geom_extra_coords(a) == (ex ? c : 0), "post: extra coordinates"); ASSERT(tg_geom_num_extra_coords(a) == (ex ? in_n : 0), "post: their number");
    bool hz = !null && (flags & HAS_Z), hm = !null && (flags & HAS_M);
    ASSERT(tg_geom_has_z(a) == hz && tg_geom_has_m(a) == hm, "post: z and m"); ASSERT(tg_geom_dims(a) == (null ? 0 : 2 + hz + hm), "post: dimensions");
    double rz = tg_geom_z(a), rm = tg_geom_m(a);
    if (!null && base == BASE_GEOM && pt) ASSERT(BITS(rz) == BITS(z) && BITS(rm) == BITS(m), "post: z and m of a point"); else ASSERT(BITS(rz) == 0 && BITS(rm) == 0, "post: zero for anything else");
    REACH(hz && hm && pt && base == BASE_GEOM, "zm"); REACH(ex && hm && !hz, "m"); REACH(null, "null");
}
