//@ property R02 L02
//@ enforce point_on_segment
//@ replace collinear
static bool collinear(double x1, double y1, double x2, double y2, double x3, double y3)
REQ(FINITE(x1) && FINITE(y1) && FINITE(x2) && FINITE(y2) && FINITE(x3) && FINITE(y3))
ASG()
ENS(IMPL(x1 == x2, RET == (x1 == x3)))
ENS(IMPL(x1 != x2 && y1 == y2, RET == (y1 == y3)))
ENS(IMPL((x3 == x1 && y3 == y1) || (x3 == x2 && y3 == y2), RET));
static bool point_on_segment(struct tg_point p, struct tg_segment s)
REQ(SFIN(s) && PFIN(p))
ASG()
ENS(IMPL(p.x < MIN2(s.a.x, s.b.x) || p.x > MAX2(s.a.x, s.b.x) || p.y < MIN2(s.a.y, s.b.y) || p.y > MAX2(s.a.y, s.b.y), !RET))
ENS(IMPL(PEQ(p, s.a) || PEQ(p, s.b), RET))
ENS(IMPL(s.a.x == s.b.x, RET == (p.x == s.a.x && MIN2(s.a.y, s.b.y) <= p.y && p.y <= MAX2(s.a.y, s.b.y))))
ENS(IMPL(s.a.y == s.b.y, RET == (p.y == s.a.y && MIN2(s.a.x, s.b.x) <= p.x && p.x <= MAX2(s.a.x, s.b.x))));
void harness(void) {
    struct tg_point in_p; struct tg_segment in_s;
    bool r = point_on_segment(in_p, in_s);
    REACH(r && in_s.a.x == in_s.b.x && in_p.y > in_s.a.y, "on"); REACH(!r, "off");
}
