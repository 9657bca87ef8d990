//@ property R01
//@ enforce tg_rect_intersects_rect
bool tg_rect_intersects_rect(struct tg_rect a, struct tg_rect b)
REQ(FINITE(a.min.x) && FINITE(a.min.y) && FINITE(a.max.x) && FINITE(a.max.y))
REQ(FINITE(b.min.x) && FINITE(b.min.y) && FINITE(b.max.x) && FINITE(b.max.y))
ASG()
ENS(RET == (a.min.x <= b.max.x && b.min.x <= a.max.x && a.min.y <= b.max.y && b.min.y <= a.max.y));
void harness(void) {
    struct tg_rect in_a, in_b;
    bool r = tg_rect_intersects_rect(in_a, in_b);
    REACH(r, "true"); REACH(!r, "false");
}
