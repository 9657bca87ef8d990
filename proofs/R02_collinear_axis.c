//@ property R02 L02
//@ enforce collinear
//@ timeout 300
static bool collinear(double x1, double y1, double x2, double y2, double x3, double y3)
REQ(FINITE(x1) && FINITE(y1) && FINITE(x2) && FINITE(y2) && FINITE(x3) && FINITE(y3))
ASG()
ENS(IMPL(x1 == x2, RET == (x1 == x3)))
ENS(IMPL(x1 != x2 && y1 == y2, RET == (y1 == y3)))
ENS(IMPL((x3 == x1 && y3 == y1) || (x3 == x2 && y3 == y2), RET));
void harness(void) {
    double in_a, in_b, in_c, in_d, in_e, in_f;
    bool r = collinear(in_a, in_b, in_c, in_d, in_e, in_f);
    REACH(in_a == in_c && r, "vertical"); REACH(in_b == in_d && !r, "horizontal");
}
