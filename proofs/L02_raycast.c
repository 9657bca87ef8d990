//@ property L02 I01
//@ enforce raycast
//@ replace collinear
//@ timeout 400
//@ note collinear is used through its contract (decided by unit R02_collinear_axis); the slope comparison of the oblique, non-degenerate case is left to the bounded harness
static bool collinear(double x1, double y1, double x2, double y2, double x3, double y3)
REQ(FINITE(x1) && FINITE(y1) && FINITE(x2) && FINITE(y2) && FINITE(x3) && FINITE(y3))
ASG()
ENS(IMPL(x1 == x2, RET == (x1 == x3)))
ENS(IMPL(x1 != x2 && y1 == y2, RET == (y1 == y3)))
ENS(IMPL((x3 == x1 && y3 == y1) || (x3 == x2 && y3 == y2), RET));
static enum tg_raycast_result raycast(struct tg_segment s, struct tg_point p)
REQ(SFIN(s) && PFIN(p))
ASG()
ENS(RET == TG_IN || RET == TG_ON || RET == TG_OUT)
ENS(IMPL(p.y < MIN2(s.a.y, s.b.y) || p.y > MAX2(s.a.y, s.b.y), RET == TG_OUT))
ENS(IMPL(PEQ(p, s.a) || PEQ(p, s.b), RET == TG_ON))
ENS(IMPL(s.a.y == s.b.y, RET == (p.y == s.a.y && MIN2(s.a.x, s.b.x) <= p.x && p.x <= MAX2(s.a.x, s.b.x) ? TG_ON : TG_OUT)))
ENS(IMPL(p.x < MIN2(s.a.x, s.b.x) && p.y > MIN2(s.a.y, s.b.y) && p.y < MAX2(s.a.y, s.b.y), RET == TG_IN))
ENS(IMPL(p.x > MAX2(s.a.x, s.b.x), RET == TG_OUT))
ENS(IMPL(s.a.x == s.b.x && p.x == s.a.x && MIN2(s.a.y, s.b.y) <= p.y && p.y <= MAX2(s.a.y, s.b.y), RET == TG_ON));
void harness(void) {
    struct tg_point in_p; struct tg_segment in_s;
    enum tg_raycast_result r = raycast(in_s, in_p);
    REACH(r == TG_IN, "in"); REACH(r == TG_ON && in_p.x > in_s.a.x, "on"); REACH(r == TG_OUT, "out");
}
