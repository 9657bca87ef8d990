//@ property R01 G01
//@ enforce tg_rect_covers_rect
bool tg_rect_covers_rect(struct tg_rect a, struct tg_rect b)
REQ(RFIN(a) && RFIN(b))
ASG()
ENS(RET == (a.min.x <= b.min.x && b.max.x <= a.max.x && a.min.y <= b.min.y && b.max.y <= a.max.y));
void harness(void) {
    struct tg_rect in_a, in_b;
    bool r = tg_rect_covers_rect(in_a, in_b);
    REACH(r, "true"); REACH(!r, "false");
}
