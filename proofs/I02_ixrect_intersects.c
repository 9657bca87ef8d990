//@ property I02 I01 S01 S03
//@ enforce ixrect_intersects_ixrect
static inline bool ixrect_intersects_ixrect(struct ixrect *a, struct ixrect *b)
REQ(FRESH(a, sizeof(*a)) && FRESH(b, sizeof(*b)))
REQ(a->min.x == a->min.x && a->min.y == a->min.y && a->max.x == a->max.x && a->max.y == a->max.y)
REQ(b->min.x == b->min.x && b->min.y == b->min.y && b->max.x == b->max.x && b->max.y == b->max.y)
ASG()
ENS(RET == (a->min.x <= b->max.x && b->min.x <= a->max.x && a->min.y <= b->max.y && b->min.y <= a->max.y));
void harness(void) {
    struct ixrect *a, *b;
    bool r = ixrect_intersects_ixrect(a, b);
    REACH(r, "true"); REACH(!r, "false");
}
