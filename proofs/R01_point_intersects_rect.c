//@ property R01
//@ enforce tg_point_intersects_rect
bool tg_point_intersects_rect(struct tg_point b, struct tg_rect a)
REQ(FINITE(a.min.x) && FINITE(a.min.y) && FINITE(a.max.x) && FINITE(a.max.y) && FINITE(b.x) && FINITE(b.y))
ASG()
ENS(RET == (a.min.x <= b.x && b.x <= a.max.x && a.min.y <= b.y && b.y <= a.max.y));
void harness(void) {
    struct tg_rect in_a; struct tg_point in_b;
    bool r = tg_point_intersects_rect(in_b, in_a);
    REACH(r, "true"); REACH(!r, "false");
}
