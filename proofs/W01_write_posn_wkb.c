//@ property W01 B02
//@ plain
//@ covers write_posn_wkb
//@ remove write_doublele
//@ use wstub
STUB_F64
void harness(void) { W_SETUP() struct tg_point in_x; write_posn_wkb(&w, in_x); W_CHECK(16, (o < 8 ? BITS(in_x.x) : BITS(in_x.y)) >> (8 * (o & 7))) REACH(o == 15, "stored"); REACH(in_count > in_n, "beyond"); }
