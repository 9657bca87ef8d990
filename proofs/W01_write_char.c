//@ property W01
//@ plain
//@ covers write_char
//@ remove write_byte
//@ use wstub
STUB_BYTE
void harness(void) { W_SETUP() char in_b; write_char(&w, in_b); W_CHECK(1, in_b) REACH(o == 0, "stored"); REACH(in_count > in_n, "beyond"); }
