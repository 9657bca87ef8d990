//@ property R01
//@ enforce tg_rect_covers_xy
bool tg_rect_covers_xy(struct tg_rect a, double x, double y)
REQ(RFIN(a) && FINITE(x) && FINITE(y))
ASG()
ENS(RET == (a.min.x <= x && x <= a.max.x && a.min.y <= y && y <= a.max.y));
void harness(void) {
    struct tg_rect in_a; double in_x, in_y;
    bool r = tg_rect_covers_xy(in_a, in_x, in_y);
    REACH(r, "true"); REACH(!r, "false");
}
