//@ property L01
//@ enforce num_segments
static int num_segments(const struct tg_point *points, int npoints, bool closed)
REQ(npoints >= 0 && npoints < 1000000)
REQ(FRESH(points, (npoints + 1) * sizeof(struct tg_point)))
REQ(IMPL(npoints > 0, PFIN(points[0]) && PFIN(points[npoints - 1])))
ASG()
ENS(RET == (closed ? (npoints < 3 ? 0 : PEQ(points[0], points[npoints - 1]) ? npoints - 1 : npoints) : npoints < 2 ? 0 : npoints - 1));
void harness(void) {
    const struct tg_point *p; int n; bool c;
    int r = num_segments(p, n, c);
    REACH(c && r == 5, "closed"); REACH(!c && r == 2, "open");
}
