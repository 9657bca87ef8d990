//@ property W01 B03
//@ covers write_stringn
//@ remove write_char
//@ ghost unsigned long g_p, g_base, g_len; int g_k; _Bool g_in; unsigned char g_want, g_old;
//@ use wstub
//@ nloops write_stringn 1
//@ loop write_stringn 0
__CPROVER_assigns(i, wr->count, wr->dst[g_p])
__CPROVER_loop_invariant(i <= n && wr->count == g_base + i)
__CPROVER_loop_invariant(wr->dst[g_p] == (g_p >= g_base && g_p < g_base + i ? (unsigned char)str[g_p - g_base] : g_old))
__CPROVER_decreases(n - i)
//@ end
STUB_CHAR
void harness(void) {
    W_SETUP() size_t in_len; ASSUME(in_len >= 1 && in_len <= 1ul << 40);
    char *s = malloc(in_len); ASSUME(s); g_base = in_count; g_old = old;
    write_stringn(&w, s, in_len);
    W_CHECK(in_len, (uint8_t)s[o])
    REACH(o == 12 && in_len == 20, "stored");
}
