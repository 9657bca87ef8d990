//@ property R01
//@ enforce tg_point_rect
struct tg_rect tg_point_rect(struct tg_point p)
REQ(FINITE(p.x) && FINITE(p.y))
ASG()
ENS(RET.min.x == p.x && RET.min.y == p.y && RET.max.x == p.x && RET.max.y == p.y);
void harness(void) {
    struct tg_point in_p;
    struct tg_rect r = tg_point_rect(in_p);
    REACH(r.min.x > 3, "returns");
}
