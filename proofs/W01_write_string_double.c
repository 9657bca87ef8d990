//@ property W01
//@ plain
//@ covers write_string_double
//@ remove fp_dtoa write_char
//@ use wstub
//@ note fp_dtoa is assumed to return the same length for every buffer and to store its prefix and a terminator only inside the buffer it is given (bounded harness w01)
size_t __CPROVER_uninterpreted_len(double, int); char __CPROVER_uninterpreted_ch(double, int, size_t);
size_t fp_dtoa(double f, char fmt, char dst[], size_t n) {
    size_t len = __CPROVER_uninterpreted_len(f, fmt); ASSUME(len >= 1 && len <= 400);
    ASSERT(fmt == (print_fixed_floats ? 'f' : 'g'), "pre: the printing mode is the one set");
    ASSERT(n == 0 || __CPROVER_w_ok(dst, n), "pre: the buffer given to the number printer is inside the output buffer");
    if (n > 0) {
        size_t q = g_p - (__CPROVER_POINTER_OFFSET(dst));
        if (g_p >= __CPROVER_POINTER_OFFSET(dst) && q < n) {
            if (q < len && q + 1 < n) dst[q] = __CPROVER_uninterpreted_ch(f, fmt, q);
            else if (q == len || q + 1 == n) dst[q] = 0;
            else { char junk; dst[q] = junk; }
        }
    }
    return len;
}
STUB_CHAR
void harness(void) { W_SETUP() double in_f; bool in_b; print_fixed_floats = in_b;
    write_string_double(&w, in_f);
    size_t o = in_p - in_count;
    bool plain = !(in_f > -__builtin_inf() && in_f < __builtin_inf()) || in_f == 0;
    size_t len = plain ? 1 : __CPROVER_uninterpreted_len(in_f, in_b ? 'f' : 'g');
    ASSERT(w.dst == d && w.n == in_n && w.count == in_count + len, "post: length is counted whatever the buffer");
    if (in_p < in_count) ASSERT(d[in_p] == old, "post: earlier output is untouched");
    if (in_p >= in_count && o < len && in_p + 1 < in_n) ASSERT(d[in_p] == (uint8_t)(plain ? '0' : __CPROVER_uninterpreted_ch(in_f, in_b ? 'f' : 'g', o)), "post: the text of the number");
    REACH(o == 3 && !plain, "stored"); REACH(plain, "zero");
}
