//@ property W01 B02
//@ plain
//@ covers write_wkb_type
//@ remove write_byte write_uint32le
//@ use wstub
STUB_BYTE
STUB_U32
void harness(void) { W_SETUP() struct head h; struct head *hp = &h; int in_fl, in_ty; h.flags = (enum flags)in_fl; h.type = (enum tg_geom_type)in_ty;
    write_wkb_type(&w, hp);
    uint32_t t = (uint32_t)h.type + ((h.flags & HAS_Z) ? 1000 : 0) + ((h.flags & HAS_M) ? 2000 : 0);
    W_CHECK(5, o == 0 ? 1 : t >> (8 * (o - 1))) REACH(o == 2 && t == 3003, "stored"); REACH(in_count > in_n, "beyond"); }
