/* the writer seen through one arbitrary buffer position g_p (only that byte is observed, so a contract need only say what it becomes) */
size_t g_p;
#define W_SETUP(NMAX) \
    struct writer w; size_t in_n, in_count; \
    ASSUME(in_n >= 1 && in_n <= 1ul << 40 && in_count <= 1ul << 50); \
    uint8_t *d = malloc(in_n); ASSUME(d); \
    w.dst = d; w.n = in_n; w.count = in_count; \
    size_t in_p; g_p = in_p; ASSUME(in_p < in_n); \
    uint8_t old = d[in_p];
#define W_CHECK(len, byteexpr) \
    ASSERT(w.dst == d && w.n == in_n && w.count == in_count + (len), "post: length is counted whatever the buffer"); \
    size_t o = in_p - in_count; \
    uint8_t want = in_p >= in_count && o < (len) ? (uint8_t)(byteexpr) : old; \
    ASSERT(d[in_p] == want, "post: exactly the output bytes that fit are stored, everything else is untouched");
#define PUT(wr, len, byteexpr) { size_t o = g_p - (wr)->count; \
    if (g_p >= (wr)->count && o < (len) && g_p < (wr)->n) (wr)->dst[g_p] = (uint8_t)(byteexpr); \
    (wr)->count += (len); }
#define STUB_BYTE static void write_byte(struct writer *wr, uint8_t b) PUT(wr, 1, b)
#define STUB_CHAR static void write_char(struct writer *wr, char b) PUT(wr, 1, b)
#define STUB_U32 static void write_uint32le(struct writer *wr, uint32_t x) PUT(wr, 4, x >> (8 * o))
#define STUB_U64 static void write_uint64le(struct writer *wr, uint64_t x) PUT(wr, 8, x >> (8 * o))
#define STUB_F64 static void write_doublele(struct writer *wr, double x) PUT(wr, 8, BITS(x) >> (8 * o))
