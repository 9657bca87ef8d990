//@ property W01 B02 B03
//@ plain
//@ covers write_doublele
//@ remove write_uint64le
//@ use wstub
STUB_U64
void harness(void) { W_SETUP() double in_x; write_doublele(&w, in_x); W_CHECK(8, BITS(in_x) >> (8 * o)) REACH(o == 7, "stored"); REACH(in_count > in_n, "beyond"); }
