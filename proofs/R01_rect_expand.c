//@ property R01
//@ enforce tg_rect_expand
struct tg_rect tg_rect_expand(struct tg_rect a, struct tg_rect b)
REQ(FINITE(a.min.x) && FINITE(a.min.y) && FINITE(a.max.x) && FINITE(a.max.y))
REQ(FINITE(b.min.x) && FINITE(b.min.y) && FINITE(b.max.x) && FINITE(b.max.y))
ASG()
ENS(RET.min.x <= a.min.x && RET.min.x <= b.min.x && (RET.min.x == a.min.x || RET.min.x == b.min.x))
ENS(RET.min.y <= a.min.y && RET.min.y <= b.min.y && (RET.min.y == a.min.y || RET.min.y == b.min.y))
ENS(RET.max.x >= a.max.x && RET.max.x >= b.max.x && (RET.max.x == a.max.x || RET.max.x == b.max.x))
ENS(RET.max.y >= a.max.y && RET.max.y >= b.max.y && (RET.max.y == a.max.y || RET.max.y == b.max.y));
void harness(void) {
    struct tg_rect in_a, in_b;
    struct tg_rect r = tg_rect_expand(in_a, in_b);
    REACH(r.min.x == in_b.min.x && r.max.y == in_a.max.y, "mixed");
}
