//@ property M02 M01
//@ enforce grow_cap
static size_t grow_cap(size_t cap, size_t init_cap)
REQ(init_cap >= 1 && init_cap <= 64 && cap < (1ul << 48))
ASG()
ENS(RET > cap && RET >= 1 && RET <= 2 * cap + 64);
void harness(void) {
    size_t c, i;
    size_t r = grow_cap(c, i);
    REACH(c == 0, "first"); REACH(c > 5000, "large");
}
