//@ property W01 B02 B03
//@ plain
//@ covers write_byte
//@ use wstub
void harness(void) { W_SETUP() uint8_t in_b; write_byte(&w, in_b); W_CHECK(1, in_b) REACH(want == in_b && o == 0, "stored"); REACH(in_count > in_n, "beyond"); }
