//@ property W01
//@ plain
//@ covers write_nullterm
//@ use wstub
void harness(void) {
    W_SETUP()
    write_nullterm(&w);
    ASSERT(w.dst == d && w.n == in_n && w.count == in_count, "post: the length does not include the terminator");
    size_t at = in_count < in_n ? in_count : in_n - 1;
    ASSERT(d[in_p] == (in_p == at ? 0 : old), "post: terminated after the text or in the last byte, nothing else touched");
    struct writer z = { 0 }; write_nullterm(&z);
    REACH(in_p == at && in_count > in_n, "cut"); REACH(in_p == at && in_count < in_n, "whole");
}
