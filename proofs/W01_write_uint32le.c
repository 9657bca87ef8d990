//@ property W01 B02 B03
//@ plain
//@ covers write_uint32le
//@ remove write_byte
//@ unwind write_uint32le.0:5
//@ use wstub
STUB_BYTE
void harness(void) { W_SETUP() uint32_t in_x; write_uint32le(&w, in_x); W_CHECK(4, in_x >> (8 * o)) REACH(o == 3, "stored"); REACH(in_count > in_n, "beyond"); }
