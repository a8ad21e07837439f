// What a program sees of the library through its header: constants, types and prototypes. Compiled as C and C++, with constants and
// with enums, against both forms of the header. Prints one line per observation that is wrong and the number of observations.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "polyglot.h"

static int seen, wrong;
static void want(int ok, const char *what, long long got, long long expected) {
    seen++;
    if (!ok && ++wrong <= 20) {
        printf("{\"violation\":\"%s: %lld, want %lld\"}\n", what, got, expected);
    }
    printf("{\"note\":\"%s %lld\"}\n", what, expected);
}
static uint64_t state;
static uint64_t rnd(void) {
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    return state * 0x2545f4914f6cdd1dull;
}
static void same(const char *what, long long got, long long expected) { want(got == expected, what, got, expected); }
#define SAME(what, got, expected) same(what, (long long)(got), (long long)(expected))

typedef struct { const char *name; polyglot_kind_t kind; unsigned char code; } row;

static uint32_t finish(polyglot_encoder_t *e, uint8_t *out, uint32_t size) {
    polyglot_status_t st = POLYGLOT_STATUS_FAILURE;
    uint32_t n = polyglot_encoder_size(&st, e);
    SAME("status of encoder_size", st, POLYGLOT_STATUS_PASS);
    if (n > size) {
        want(0, "encoded size", n, size);
        n = 0;
    } else {
        polyglot_encoder_buffer(&st, e, out, n);
        SAME("status of encoder_buffer", st, POLYGLOT_STATUS_PASS);
    }
    polyglot_free_encoder(e);
    return n;
}

static long long show(const void *p, size_t n) {
    long long v = 0;
    memcpy(&v, p, n);
    return v;
}
#define ROUND(type, f, tag, values)                                                                  \
    do {                                                                                                   \
        static const type fixed[] = values;                                                                \
        const unsigned nf = sizeof fixed / sizeof *fixed;                                                  \
        for (unsigned i = 0; i < nf + (tag == 7 ? 0 : more); i++) {                                        \
            type v[1];                                                                                     \
            uint64_t bits = rnd();                                                                         \
            memcpy(v, &bits, sizeof *v);                                                                   \
            if (i < nf) *v = fixed[i];                                                                     \
            polyglot_status_t st = POLYGLOT_STATUS_FAILURE;                                                \
            polyglot_encoder_t *e = polyglot_new_encoder(&st);                                             \
            polyglot_encode_##f(&st, e, *v);                                                             \
            SAME("status of encode_" #f, st, POLYGLOT_STATUS_PASS);                                        \
            uint8_t b[32];                                                                                 \
            uint32_t n = finish(e, b, sizeof b);                                                           \
            SAME("tag of " #f, b[0], tag);                                                                 \
            polyglot_decoder_t *d = polyglot_new_decoder(&st, b, n);                                       \
            type g = polyglot_decode_##f(&st, d);                                                          \
            SAME("status of decode_" #f, st, POLYGLOT_STATUS_PASS);                                        \
            want(!memcmp(&g, v, sizeof g), "value of " #f, show(&g, sizeof g), show(v, sizeof *v));                            \
            polyglot_decoder_t *again = polyglot_new_decoder(&st, b, n);                                   \
            want((polyglot_decode_##f(&st, again) < 0) == (*v < 0), "sign of " #f, 0, *v < 0);  \
            polyglot_free_decoder(again);                                                                  \
            SAME("size of the result of decode_" #f, sizeof(polyglot_decode_##f(&st, d)), sizeof(type));   \
            polyglot_decode_##f(&st, d);                                                                   \
            SAME("status of decode_" #f " at the end", st, POLYGLOT_STATUS_FAILURE);                       \
            polyglot_free_decoder(d);                                                                      \
            polyglot_decode_##f(&st, NULL);                                                                \
            SAME("status of decode_" #f " without decoder", st, POLYGLOT_STATUS_NULL_PTR);                 \
            st = POLYGLOT_STATUS_PASS;                                                                     \
            polyglot_encode_##f(&st, NULL, *v);                                                          \
            SAME("status of encode_" #f " without encoder", st, POLYGLOT_STATUS_NULL_PTR);                 \
        }                                                                                                  \
    } while (0)
#define LIST(...) {__VA_ARGS__}

int main(int argc, char **argv) {
    state = 0x9e3779b97f4a7c15ull ^ (argc > 1 ? strtoull(argv[1], NULL, 10) : 1);
    const unsigned more = argc > 2 ? atoi(argv[2]) : 0;
    SAME("size of a status", sizeof(polyglot_status_t), 1);
    SAME("size of a kind", sizeof(polyglot_kind_t), 1);
    SAME("POLYGLOT_STATUS_PASS", (int)POLYGLOT_STATUS_PASS, 0);
    SAME("POLYGLOT_STATUS_FAILURE", (int)POLYGLOT_STATUS_FAILURE, 1);
    SAME("POLYGLOT_STATUS_NULL_PTR", (int)POLYGLOT_STATUS_NULL_PTR, 2);
#define K(n, c) {#n, POLYGLOT_KIND_##n, c}
    const row kinds[] = {K(NONE, 0), K(ARRAY, 1), K(MAP, 2), K(ANY, 3), K(BYTES, 4), K(STRING, 5), K(ERROR, 6), K(BOOL, 7), K(U8, 8), K(U16, 9),
        K(U32, 10), K(U64, 11), K(I32, 12), K(I64, 13), K(F32, 14), K(F64, 15), K(UNKNOWN, 16)};
    const int nk = sizeof kinds / sizeof *kinds;
    for (int i = 0; i < nk; i++) {
        for (int j = 0; j < nk; j++) {
            polyglot_status_t st = POLYGLOT_STATUS_FAILURE;
            polyglot_encoder_t *e = polyglot_new_encoder(&st);
            polyglot_encode_array(&st, e, 0x89abcdefu, kinds[i].kind);
            SAME("status of encode_array", st, POLYGLOT_STATUS_PASS);
            polyglot_encode_map(&st, e, 0xfedcba98u, kinds[i].kind, kinds[j].kind);
            SAME("status of encode_map", st, POLYGLOT_STATUS_PASS);
            uint8_t b[64];
            uint32_t n = finish(e, b, sizeof b);
            SAME("size of headers", n, 8 + 9);
            SAME(kinds[i].name, b[1], kinds[i].code);
            SAME(kinds[i].name, b[9], kinds[i].code);
            SAME(kinds[j].name, b[10], kinds[j].code);
            polyglot_decoder_t *d = polyglot_new_decoder(&st, b, n);
            SAME("length of a list", polyglot_decode_array(&st, d, kinds[i].kind), 0x89abcdefu);
            SAME("status of decode_array", st, POLYGLOT_STATUS_PASS);
            SAME("length of a map", polyglot_decode_map(&st, d, kinds[i].kind, kinds[j].kind), 0xfedcba98u);
            SAME("status of decode_map", st, POLYGLOT_STATUS_PASS);
            polyglot_free_decoder(d);
        }
    }
    ROUND(bool, bool, 7, LIST(true, false));
    ROUND(uint8_t, u8, 8, LIST(0, 1, 127, 128, 255));
    ROUND(uint16_t, u16, 9, LIST(0, 255, 256, 32767, 32768, 65535));
    ROUND(uint32_t, u32, 10, LIST(0, 65535, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu));
    ROUND(uint64_t, u64, 11, LIST(0, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull));
    ROUND(int32_t, i32, 12, LIST(0, -1, 1, 32767, -32768, 0x7fffffff, -0x7fffffff - 1));
    ROUND(int64_t, i64, 13, LIST(0, -1, 1, 0x7fffffff, -0x80000000ll, 0x7fffffffffffffffll, -0x7fffffffffffffffll - 1));
    ROUND(float, f32, 14, LIST(0, -1.5f, 3.4028235e38f, 1e-45f));
    ROUND(double, f64, 15, LIST(0, -1.5, 1.7976931348623157e308, 5e-324));

    polyglot_status_t st = POLYGLOT_STATUS_FAILURE;
    polyglot_encoder_t *e = polyglot_new_encoder(&st);
    SAME("size of encoder_size", sizeof(polyglot_encoder_size(&st, e)), 4);
    SAME("size of a length", sizeof(((polyglot_buffer_t *)0)->length), 4);
    SAME("size of a list length", sizeof(polyglot_decode_array(&st, NULL, POLYGLOT_KIND_U8)), 4);
    SAME("size of a map length", sizeof(polyglot_decode_map(&st, NULL, POLYGLOT_KIND_U8, POLYGLOT_KIND_U8)), 4);
    uint8_t raw[] = {0, 255, 7};
    char text[] = "text", err[] = "an error";
    polyglot_encode_none(&st, e);
    polyglot_encode_bytes(&st, e, raw, sizeof raw);
    polyglot_encode_string(&st, e, text);
    polyglot_encode_error(&st, e, err);
    uint8_t b[64];
    uint32_t n = finish(e, b, sizeof b);
    static const uint8_t expected[] = {0, 4, 10, 3, 0, 255, 7, 5, 10, 4, 't', 'e', 'x', 't', 6, 5, 10, 8, 'a', 'n', ' ', 'e', 'r', 'r', 'o', 'r'};
    SAME("size of data", n, sizeof expected);
    SAME("data", memcmp(b, expected, sizeof expected), 0);
    polyglot_decoder_t *d = polyglot_new_decoder(&st, b, n);
    SAME("nil", polyglot_decode_none(&st, d), true);
    polyglot_buffer_t *p = polyglot_decode_bytes(&st, d);
    SAME("status of decode_bytes", st, POLYGLOT_STATUS_PASS);
    SAME("length of bytes", p->length, sizeof raw);
    SAME("bytes", memcmp(p->data, raw, sizeof raw), 0);
    polyglot_free_decode_bytes(p);
    char *s = polyglot_decode_string(&st, d);
    SAME("string", strcmp(s, text), 0);
    polyglot_free_decode_string(s);
    s = polyglot_decode_error(&st, d);
    SAME("error", strcmp(s, err), 0);
    polyglot_free_decode_error(s);
    polyglot_free_decoder(d);

    static uint8_t big[70000], back[70010]; // lengths above 16 bits pass through every length parameter
    for (unsigned i = 0; i < sizeof big; i++) big[i] = (uint8_t)(i * 131 + (i >> 8));
    e = polyglot_new_encoder(&st);
    polyglot_encode_bytes(&st, e, big, sizeof big);
    n = finish(e, back, sizeof back);
    SAME("size of large data", n, sizeof big + 5);
    d = polyglot_new_decoder(&st, back, n);
    p = polyglot_decode_bytes(&st, d);
    SAME("status of large data", st, POLYGLOT_STATUS_PASS);
    SAME("length of large data", p->length, sizeof big);
    SAME("large data", memcmp(p->data, big, sizeof big), 0);
    polyglot_free_decode_bytes(p);
    polyglot_free_decoder(d);
    printf("{\"counts\":{\"observations\":%d},\"done\":true}\n", seen);
    return 0;
}
