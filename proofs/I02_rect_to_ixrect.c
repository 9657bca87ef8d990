//@ property I02 I01
//@ enforce tg_rect_to_ixrect
//@ replace fdownf fupf
static float fdownf(double d) REQ(FINITE(d)) ASG() ENS((double)RET <= d);
static float fupf(double d) REQ(FINITE(d)) ASG() ENS((double)RET >= d);
static void tg_rect_to_ixrect(struct tg_rect *rect, struct ixrect *ixrect)
REQ(FRESH(rect, sizeof(*rect)) && FRESH(ixrect, sizeof(*ixrect)) && RFIN(*rect))
ASG(*ixrect)
ENS((double)ixrect->min.x <= rect->min.x && (double)ixrect->min.y <= rect->min.y)
ENS((double)ixrect->max.x >= rect->max.x && (double)ixrect->max.y >= rect->max.y);
void harness(void) {
    struct tg_rect *r; struct ixrect *x;
    tg_rect_to_ixrect(r, x);
    REACH(true, "done");
}
