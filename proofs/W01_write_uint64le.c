//@ property W01 B02 B03
//@ plain
//@ covers write_uint64le
//@ remove write_byte
//@ unwind write_uint64le.0:9
//@ use wstub
STUB_BYTE
void harness(void) { W_SETUP() uint64_t in_x; write_uint64le(&w, in_x); W_CHECK(8, in_x >> (8 * o)) REACH(o == 7, "stored"); REACH(in_count > in_n, "beyond"); }
