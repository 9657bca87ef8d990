//@ property R02
//@ enforce tg_segment_intersects_segment
//@ replace collinear
//@ timeout 300
static bool collinear(double x1, double y1, double x2, double y2, double x3, double y3)
ASG() ENS(true);
bool tg_segment_intersects_segment(struct tg_segment a, struct tg_segment b)
REQ(SFIN(a) && SFIN(b))
ASG()
ENS(IMPL(MAX2(a.a.x, a.b.x) < MIN2(b.a.x, b.b.x), !RET))
ENS(IMPL(MAX2(b.a.x, b.b.x) < MIN2(a.a.x, a.b.x), !RET))
ENS(IMPL(MAX2(a.a.y, a.b.y) < MIN2(b.a.y, b.b.y), !RET))
ENS(IMPL(MAX2(b.a.y, b.b.y) < MIN2(a.a.y, a.b.y), !RET))
ENS(IMPL(PEQ(a.a, b.a) || PEQ(a.a, b.b) || PEQ(a.b, b.a) || PEQ(a.b, b.b), RET));
void harness(void) {
    struct tg_segment in_a, in_b;
    bool r = tg_segment_intersects_segment(in_a, in_b);
    REACH(!r, "false"); REACH(r && PEQ(in_a.a, in_b.b), "true");
}
