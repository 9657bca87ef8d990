//@ property I02 M01
//@ enforce aligned_size
static size_t aligned_size(size_t size)
REQ(size < (1ul << 60))
ASG()
ENS(RET >= size && RET < size + 8 && (RET & 7) == 0);
void harness(void) { size_t s; size_t r = aligned_size(s); REACH(r > s, "padded"); REACH(r == s, "same"); }
