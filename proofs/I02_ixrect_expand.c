//@ property I02 I01
//@ enforce ixrect_expand
static inline void ixrect_expand(struct ixrect *rect, struct ixrect *other)
REQ(FRESH(rect, sizeof(*rect)) && FRESH(other, sizeof(*other)))
REQ(rect->min.x == rect->min.x && rect->min.y == rect->min.y && rect->max.x == rect->max.x && rect->max.y == rect->max.y)
REQ(other->min.x == other->min.x && other->min.y == other->min.y && other->max.x == other->max.x && other->max.y == other->max.y)
ASG(*rect)
ENS(rect->min.x <= OLD(rect->min.x) && rect->min.x <= other->min.x && (rect->min.x == OLD(rect->min.x) || rect->min.x == other->min.x))
ENS(rect->min.y <= OLD(rect->min.y) && rect->min.y <= other->min.y && (rect->min.y == OLD(rect->min.y) || rect->min.y == other->min.y))
ENS(rect->max.x >= OLD(rect->max.x) && rect->max.x >= other->max.x && (rect->max.x == OLD(rect->max.x) || rect->max.x == other->max.x))
ENS(rect->max.y >= OLD(rect->max.y) && rect->max.y >= other->max.y && (rect->max.y == OLD(rect->max.y) || rect->max.y == other->max.y));
void harness(void) {
    struct ixrect *r, *x;
    ixrect_expand(r, x);
    REACH(true, "done");
}
