//@ property L01
//@ plain
//@ covers tg_rect_point_at tg_rect_segment_at tg_rect_num_points tg_rect_num_segments
void harness(void) {
    struct tg_rect in_r; int in_i;
    ASSUME(RFIN(in_r));
    ASSERT(tg_rect_num_points(in_r) == 5 && tg_rect_num_segments(in_r) == 4, "post: a rectangle has 5 points and 4 segments");
    struct tg_point p = tg_rect_point_at(in_r, in_i);
    struct tg_segment s = tg_rect_segment_at(in_r, in_i);
    if (in_i < 0 || in_i >= 5) ASSERT(PZERO(p), "post: zero point outside the range");
    if (in_i < 0 || in_i >= 4) ASSERT(PZERO(s.a) && PZERO(s.b), "post: zero segment outside the range");
    if (in_i >= 0 && in_i < 4) {
        struct tg_point q = tg_rect_point_at(in_r, in_i + 1);
        ASSERT(PEQ(s.a, p) && PEQ(s.b, q), "post: segment joins consecutive points");
    }
    if (in_i >= 0 && in_i < 5) {
        ASSERT((p.x == in_r.min.x || p.x == in_r.max.x) && (p.y == in_r.min.y || p.y == in_r.max.y), "post: corners");
        ASSERT(p.x == (in_i == 1 || in_i == 2 ? in_r.max.x : in_r.min.x), "post: corner order x");
        ASSERT(p.y == (in_i == 2 || in_i == 3 ? in_r.max.y : in_r.min.y), "post: corner order y");
    }
    REACH(in_i == 3 && p.x == 5, "in range"); REACH(in_i == -7, "out of range");
}
