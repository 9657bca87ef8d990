//@ property A01 B01
//@ plain
//@ covers tg_geom_error tg_geom_extra_json
void harness(void) {
    int base, type, flags; bool null, has; ASSUME(base >= 1 && base <= 5 && type >= 0 && type <= 7 && flags >= 0 && flags < 256);
    struct tg_geom *g = malloc(sizeof *g); ASSUME(g != 0); g->head.base = base; g->head.type = type; g->head.flags = flags; char *s = malloc(4); ASSUME(s != 0); g->error = has ? s : 0;
    const struct tg_geom *a = null ? 0 : g; bool err = flags & IS_ERROR; ASSUME(IMPL(err, has)); // an error geometry carries its message (decided by make_parse_error's unit)
    ASSERT((!!tg_geom_error(a)) == (null || err), "post: an error exactly for null and for error geometries");
    if (!null && err) ASSERT(tg_geom_error(a) == g->error || !has, "post: the message of the error geometry");
    if (null || err || base != BASE_GEOM) ASSERT(!tg_geom_extra_json(a), "post: no extra members for null or errors"); else ASSERT(tg_geom_extra_json(a) == g->xjson, "post: the extra members");
    REACH(err && has && !null, "error"); REACH(has && !err && base == BASE_GEOM && !null, "extra");
}
