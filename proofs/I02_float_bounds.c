//@ property I02 I01
//@ plain
//@ covers fnext0 fdown fup fdownf fupf
void harness(void) {
    double in_d; ASSUME(FINITE(in_d));
    float lo = fdownf(in_d), hi = fupf(in_d);
    ASSERT((double)lo <= in_d, "post: lower bound is not above");
    ASSERT((double)hi >= in_d, "post: upper bound is not below");
    REACH(in_d > 1 && lo > 1, "normal"); REACH(in_d > 1e300, "overflow"); REACH(in_d != 0 && in_d < 1e-50 && in_d > -1e-50, "underflow");
}
