//@ property R01
//@ enforce tg_rect_intersects_point
bool tg_rect_intersects_point(struct tg_rect a, struct tg_point b)
REQ(FINITE(a.min.x) && FINITE(a.min.y) && FINITE(a.max.x) && FINITE(a.max.y) && FINITE(b.x) && FINITE(b.y))
ASG()
ENS(RET == (a.min.x <= b.x && b.x <= a.max.x && a.min.y <= b.y && b.y <= a.max.y));
void harness(void) {
    struct tg_rect in_a; struct tg_point in_b;
    bool r = tg_rect_intersects_point(in_a, in_b);
    REACH(r, "true"); REACH(!r, "false");
}
