//@ property I01 L02
//@ enforce tg_point_to_ixpoint
static inline void tg_point_to_ixpoint(struct tg_point *point, struct ixpoint *ixpoint)
REQ(FRESH(point, sizeof(*point)) && FRESH(ixpoint, sizeof(*ixpoint)) && PFIN(*point))
ASG(*ixpoint)
ENS(ixpoint->x == (float)point->x && ixpoint->y == (float)point->y);
/* lemma: rounding to nearest cannot cross a float bound (so a point inside a rectangle stays inside the index rectangle) */
void harness(void) {
    float in_f; double in_e;
    if (in_f <= in_e) ASSERT(in_f <= (float)in_e, "lemma: rounding keeps lower bounds");
    if (in_f >= in_e) ASSERT(in_f >= (float)in_e, "lemma: rounding keeps upper bounds");
    struct tg_point *p; struct ixpoint *q;
    tg_point_to_ixpoint(p, q);
    REACH(in_f < in_e, "lower"); REACH(in_f > in_e, "upper");
}
