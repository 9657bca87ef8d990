//@ property G02
//@ plain
//@ covers tg_geom_intersects_rect rect_to_ring
//@ remove tg_geom_intersects
static const struct tg_geom *g_a; static struct tg_rect in_rect; static _Bool g_r; static int g_c;
#define CORNER(p, X, Y) (BITS((p).x) == BITS(X) && BITS((p).y) == BITS(Y))
bool tg_geom_intersects(const struct tg_geom *a, const struct tg_geom *b) {
    const struct tg_ring *r = (const void *)b;
    ASSERT(a == g_a, "pre: the queried geometry is passed on"); g_c++;
    ASSERT(r->head.base == BASE_RING && r->closed && r->npoints == 5 && r->nsegs == 4 && r->index == 0 && r->ystripes == 0, "pre: the rectangle is a closed ring of four segments");
    ASSERT(CORNER(r->rect.min, in_rect.min.x, in_rect.min.y) && CORNER(r->rect.max, in_rect.max.x, in_rect.max.y), "pre: the ring is bounded by the rectangle");
    ASSERT(CORNER(r->points[0], in_rect.min.x, in_rect.min.y) && CORNER(r->points[1], in_rect.max.x, in_rect.min.y) && CORNER(r->points[2], in_rect.max.x, in_rect.max.y)
        && CORNER(r->points[3], in_rect.min.x, in_rect.max.y) && CORNER(r->points[4], in_rect.min.x, in_rect.min.y), "pre: the ring passes the four corners in order");
    ASSERT(r->convex && !r->clockwise && (r->head.flags & IS_EMPTY) == 0, "pre: the ring is convex, counterclockwise and not empty");
    return g_r;
}
void harness(void) {
    const struct tg_geom *a; bool r; struct tg_rect q; g_a = a; g_r = r ? 1 : 0; in_rect = q; g_c = 0;
    bool res = tg_geom_intersects_rect(a, q);
    ASSERT(g_c == 1 && res == g_r, "post: the answer is that of the two-geometry predicate on the rectangle's ring");
    REACH(res, "yes"); REACH(!res, "no");
}
