//@ property W01 B02
//@ plain
//@ covers write_posn_wkb_4
//@ remove write_doublele
//@ use wstub
STUB_F64
void harness(void) { W_SETUP() struct tg_point in_x; double in_z, in_m; write_posn_wkb_4(&w, in_x, in_z, in_m);
    W_CHECK(32, (o < 8 ? BITS(in_x.x) : o < 16 ? BITS(in_x.y) : o < 24 ? BITS(in_z) : BITS(in_m)) >> (8 * (o & 7))) REACH(o == 31, "stored"); REACH(in_count > in_n, "beyond"); }
