//@ property R01 G01
//@ plain
//@ covers pteq feq tg_point_covers_point tg_point_contains_point tg_point_intersects_point tg_point_touches_point tg_point_covers_rect
void harness(void) {
    struct tg_point in_a, in_b; struct tg_rect in_r;
    ASSUME(PFIN(in_a) && PFIN(in_b) && RFIN(in_r));
    bool e = in_a.x == in_b.x && in_a.y == in_b.y;
    ASSERT(pteq(in_a, in_b) == e, "post: points are equal exactly when both coordinates are");
    ASSERT(tg_point_covers_point(in_a, in_b) == e, "post: covers");
    ASSERT(tg_point_contains_point(in_a, in_b) == e, "post: contains");
    ASSERT(tg_point_intersects_point(in_a, in_b) == e, "post: intersects");
    ASSERT(!tg_point_touches_point(in_a, in_b), "post: points do not touch");
    ASSERT(tg_point_covers_rect(in_a, in_r) == (PEQ(in_r.min, in_a) && PEQ(in_r.max, in_a)), "post: point covers a rectangle only if it is that point");
    REACH(e, "equal"); REACH(!e, "different"); REACH(tg_point_covers_rect(in_a, in_r), "covers rect");
}
