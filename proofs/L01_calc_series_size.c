//@ property L01 M01
//@ enforce calc_series_size
static size_t calc_series_size(int npoints)
REQ(npoints >= 0 && npoints < 2147483647)
ASG()
ENS(RET >= offsetof(struct tg_ring, points) + sizeof(struct tg_point) * ((size_t)npoints + 1))
ENS(RET >= offsetof(struct tg_ring, points) + sizeof(struct tg_point) * 5)
ENS((RET & 7) == 0);
void harness(void) { int n; size_t r = calc_series_size(n); REACH(n == 2, "small"); REACH(n == 1000000, "large"); }
