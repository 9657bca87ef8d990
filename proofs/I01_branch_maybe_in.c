//@ property I01 L02
//@ enforce branch_maybe_in
static bool branch_maybe_in(struct ixpoint point, struct ixrect rect)
REQ(FINF(point.x) && FINF(point.y) && rect.min.x == rect.min.x && rect.min.y == rect.min.y && rect.max.x == rect.max.x && rect.max.y == rect.max.y)
REQ(rect.min.x <= rect.max.x && rect.min.y <= rect.max.y)
ASG()
ENS(IMPL(rect.min.x <= point.x && point.x <= rect.max.x && rect.min.y <= point.y && point.y <= rect.max.y, RET))
ENS(IMPL(point.x < rect.min.x && rect.min.y <= point.y && point.y <= rect.max.y, RET));
void harness(void) {
    struct ixpoint in_p; struct ixrect in_r;
    bool r = branch_maybe_in(in_p, in_r);
    REACH(r, "true"); REACH(!r, "false");
}
