//@ property M01
//@ plain
//@ def -DTG_NOATOMICS
//@ covers rc_init rc_retain rc_release
void harness(void) {
    rc_t c; int in_n;
    rc_init(&c);
    ASSERT(c == 0, "post: a new object has no extra owner");
    c = in_n; ASSUME(in_n >= 0 && in_n < 2000000000);
    rc_retain(&c);
    ASSERT(c == in_n + 1, "post: retain adds one owner");
    bool last = rc_release(&c);
    ASSERT(c == in_n, "post: release undoes retain");
    ASSERT(last == (in_n == 0), "post: release reports the last owner exactly at count one");
    REACH(last, "last"); REACH(!last, "not last");
}
