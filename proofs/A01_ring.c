//@ property A01 L01
//@ plain
//@ covers tg_ring_num_points tg_ring_num_segments tg_ring_point_at tg_ring_segment_at ring_segment_at tg_ring_rect tg_ring_points tg_ring_convex tg_ring_clockwise tg_ring_empty tg_line_num_points tg_line_num_segments tg_line_point_at tg_line_segment_at tg_line_rect tg_line_points tg_line_clockwise tg_line_empty
void harness(void) {
    int in_np, in_ns, in_i; bool null, cl, cw, cv, line; struct tg_rect q;
    ASSUME(in_np >= 0 && in_np <= 1 << 27 && in_ns >= 0 && in_ns <= in_np);
    // process_points keeps one point more than there are segments (decided by L01_process_points)
    struct tg_ring *r = malloc(sizeof(struct tg_ring) + sizeof(struct tg_point) * (in_np > in_ns ? in_np : in_np + 1ul)); ASSUME(r != 0);
    r->npoints = in_np; r->nsegs = in_ns; r->rect = q; r->closed = cl ? 1 : 0; r->clockwise = cw ? 1 : 0; r->convex = cv ? 1 : 0;
    const struct tg_ring *a = null ? 0 : r; const struct tg_line *l = (const void *)a;
    ASSERT((line ? tg_line_num_points(l) : tg_ring_num_points(a)) == (null ? 0 : in_np), "post: number of points");
    ASSERT((line ? tg_line_num_segments(l) : tg_ring_num_segments(a)) == (null ? 0 : in_ns), "post: number of segments");
    struct tg_point p = line ? tg_line_point_at(l, in_i) : tg_ring_point_at(a, in_i);
    if (null || in_i < 0 || in_i >= in_np) ASSERT(BITS(p.x) == 0 && BITS(p.y) == 0, "post: zero point outside the range");
    else ASSERT(BITS(p.x) == BITS(r->points[in_i].x) && BITS(p.y) == BITS(r->points[in_i].y), "post: the point at the index");
    struct tg_segment s = line ? tg_line_segment_at(l, in_i) : tg_ring_segment_at(a, in_i);
    if (null || in_i < 0 || in_i >= in_ns) ASSERT(BITS(s.a.x) == 0 && BITS(s.a.y) == 0 && BITS(s.b.x) == 0 && BITS(s.b.y) == 0, "post: zero segment outside the range");
    else ASSERT(BITS(s.a.x) == BITS(r->points[in_i].x) && BITS(s.a.y) == BITS(r->points[in_i].y) && BITS(s.b.x) == BITS(r->points[in_i + 1].x) && BITS(s.b.y) == BITS(r->points[in_i + 1].y), "post: the segment at the index");
    struct tg_rect g = line ? tg_line_rect(l) : tg_ring_rect(a);
    ASSERT(BITS(g.min.x) == (null ? 0 : BITS(q.min.x)) && BITS(g.min.y) == (null ? 0 : BITS(q.min.y)) && BITS(g.max.x) == (null ? 0 : BITS(q.max.x)) && BITS(g.max.y) == (null ? 0 : BITS(q.max.y)), "post: the rectangle");
    ASSERT((line ? tg_line_points(l) : tg_ring_points(a)) == (null ? (const struct tg_point *)0 : &r->points[0]), "post: the points");
    ASSERT((line ? tg_line_clockwise(l) : tg_ring_clockwise(a)) == (!null && r->clockwise), "post: winding");
    ASSERT(tg_ring_convex(a) == (!null && r->convex), "post: convexity");
    ASSERT((line ? tg_line_empty(l) : tg_ring_empty(a)) == (null || in_np < 2 || (r->closed && in_np < 3)), "post: emptiness");
    REACH(!null && in_i == 5 && in_ns > 7 && line, "line"); REACH(!null && !line && in_i >= in_np, "out of range"); REACH(null, "null"); REACH(!null && in_i == in_ns && in_i < in_np, "last point");
}
