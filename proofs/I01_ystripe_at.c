//@ property I01 L02
//@ enforce ystripe_at
//@ timeout 300
static int ystripe_at(double y, double ymin, double height, int nstripes)
REQ(FINITE(y) && FINITE(ymin) && nstripes >= 1)
ASG()
ENS(0 <= RET && RET < nstripes);
void harness(void) {
    double in_y, in_m, in_h; int in_n;
    int r = ystripe_at(in_y, in_m, in_h, in_n);
    REACH(r > 0, "some"); REACH(in_h == 0, "flat");
}
