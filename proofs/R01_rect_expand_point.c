//@ property R01
//@ enforce tg_rect_expand_point
struct tg_rect tg_rect_expand_point(struct tg_rect a, struct tg_point b)
REQ(FINITE(a.min.x) && FINITE(a.min.y) && FINITE(a.max.x) && FINITE(a.max.y) && FINITE(b.x) && FINITE(b.y))
ASG()
ENS(RET.min.x <= a.min.x && RET.min.x <= b.x && (RET.min.x == a.min.x || RET.min.x == b.x))
ENS(RET.min.y <= a.min.y && RET.min.y <= b.y && (RET.min.y == a.min.y || RET.min.y == b.y))
ENS(RET.max.x >= a.max.x && RET.max.x >= b.x && (RET.max.x == a.max.x || RET.max.x == b.x))
ENS(RET.max.y >= a.max.y && RET.max.y >= b.y && (RET.max.y == a.max.y || RET.max.y == b.y));
void harness(void) {
    struct tg_rect in_a; struct tg_point in_b;
    struct tg_rect r = tg_rect_expand_point(in_a, in_b);
    REACH(r.min.x == in_b.x && r.max.y == in_a.max.y, "mixed");
}
