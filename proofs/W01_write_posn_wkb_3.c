//@ property W01 B02
//@ plain
//@ covers write_posn_wkb_3
//@ remove write_doublele
//@ use wstub
STUB_F64
void harness(void) { W_SETUP() struct tg_point in_x; double in_z; write_posn_wkb_3(&w, in_x, in_z);
    W_CHECK(24, (o < 8 ? BITS(in_x.x) : o < 16 ? BITS(in_x.y) : BITS(in_z)) >> (8 * (o & 7))) REACH(o == 23, "stored"); REACH(in_count > in_n, "beyond"); }
