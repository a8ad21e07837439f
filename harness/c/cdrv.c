/* The C bindings under the line protocol of the monitor. */
#include <ctype.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>
#include "polyglot.h"

extern uint32_t vchk_faults(uint32_t *what);
extern uint64_t vchk_total(void);

static char *out;
static size_t outlen, outcap;

static void put(const char *s, size_t n) {
    if (outlen + n + 1 > outcap) {
        outcap = (outlen + n + 1) * 2;
        out = realloc(out, outcap);
    }
    memcpy(out + outlen, s, n);
    outlen += n;
    out[outlen] = 0;
}
static void puts_(const char *s) { put(s, strlen(s)); }

static void puthex(const uint8_t *b, size_t n) {
    static const char h[] = "0123456789abcdef";
    for (size_t i = 0; i < n; i++) {
        char c[2] = {h[b[i] >> 4], h[b[i] & 15]};
        put(c, 2);
    }
}
static void putdigest(const uint8_t *b, size_t n) {
    uint32_t h1 = 2166136261u, h2 = 84696351u;
    char t[64];
    for (size_t i = 0; i < n; i++) {
        h1 = (h1 ^ b[i]) * 16777619u;
        h2 = (h2 ^ b[i]) * 16777619u;
        h2 = h2 << 5 | h2 >> 27;
    }
    snprintf(t, sizeof t, "#%zu:%08x:%08x", n, h1, h2);
    puts_(t);
}
static void putdata(char c, const uint8_t *b, size_t n) {
    put(&c, 1);
    if (n > 4096) putdigest(b, n); else puthex(b, n);
}

static int nib(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
/* exact-size allocation: one byte past the end is out of bounds */
static uint8_t *unhex(const char *s, size_t *n) {
    size_t l = strcmp(s, "-") ? strlen(s) / 2 : 0;
    uint8_t *b = malloc(l ? l : 1);
    for (size_t i = 0; i < l; i++) b[i] = (uint8_t)(nib(s[2 * i]) << 4 | nib(s[2 * i + 1]));
    *n = l;
    return b;
}
static uint8_t *pattern(size_t n, uint8_t seed, int ascii) {
    uint8_t *b = malloc(n + 1);
    uint32_t x = seed * 2654435761u + 1;
    int wide = ascii && seed >= 200;
    for (size_t i = 0; i < n;) {
        x = x * 1664525u + 1013904223u;
        uint8_t c = x >> 24;
        size_t room = n - i;
        if (wide && c % 3 == 0 && room >= 2) {
            b[i++] = 0xc3;
            b[i++] = 0x80 + c % 64;
        } else if (wide && c % 7 == 0 && room >= 3) {
            b[i++] = 0xe4;
            b[i++] = 0xb8;
            b[i++] = 0x80 + c % 64;
        } else if (wide && c % 11 == 0 && room >= 4) {
            b[i++] = 0xf0;
            b[i++] = 0x9f;
            b[i++] = 0x98;
            b[i++] = 0x80 + c % 64;
        } else
            b[i++] = ascii ? 'a' + c % 26 : c;
    }
    b[n] = 0;
    return b;
}

static int encode(polyglot_encoder_t *e, const char *t) {
    polyglot_status_t st = 99;
    uint64_t a[3] = {0, 0, 0};
    char c = t[0];
    const char *p = t + 1;
    if (strchr("abumXSRvwq", c)) {
        for (int i = 0; i < 3 && *p; i++) {
            a[i] = strtoull(p, (char **)&p, 10);
            if (*p == ',') p++;
        }
    }
    size_t n;
    uint8_t *b = NULL;
    switch (c) {
    case 'n': polyglot_encode_none(&st, e); break;
    case 'a': polyglot_encode_array(&st, e, a[1], a[0]); break;
    case 'm': polyglot_encode_map(&st, e, a[2], a[0], a[1]); break;
    case 'x': b = unhex(t[1] ? t + 1 : "-", &n); polyglot_encode_bytes(&st, e, b, n); break;
    case 'X': b = pattern(a[0], a[1], 0); polyglot_encode_bytes(&st, e, b, a[0]); break;
    case 'S': b = pattern(a[0], a[1], 1); polyglot_encode_string(&st, e, (char *)b); break;
    case 'R': b = pattern(a[0], a[1], 1); polyglot_encode_error(&st, e, (char *)b); break;
    case 's':
    case 'e': {
        uint8_t *r = unhex(t[1] ? t + 1 : "-", &n);
        b = malloc(n + 1);
        memcpy(b, r, n);
        b[n] = 0;
        free(r);
        if (c == 's') polyglot_encode_string(&st, e, (char *)b); else polyglot_encode_error(&st, e, (char *)b);
        break;
    }
    case 'b': polyglot_encode_bool(&st, e, a[0] == 1); break;
    case 'u': polyglot_encode_u8(&st, e, a[0]); break;
    case 'v': polyglot_encode_u16(&st, e, a[0]); break;
    case 'w': polyglot_encode_u32(&st, e, a[0]); break;
    case 'q': polyglot_encode_u64(&st, e, a[0]); break;
    case 'i': polyglot_encode_i32(&st, e, strtoll(p, NULL, 10)); break;
    case 'l': polyglot_encode_i64(&st, e, strtoll(p, NULL, 10)); break;
    case 'f': { uint32_t u = strtoul(p, NULL, 16); float f; memcpy(&f, &u, 4); polyglot_encode_f32(&st, e, f); break; }
    case 'd': { uint64_t u = strtoull(p, NULL, 16); double f; memcpy(&f, &u, 8); polyglot_encode_f64(&st, e, f); break; }
    }
    free(b);
    return st;
}

/* The encoded bytes in an exact-size heap block followed by nothing. */
static uint8_t *drain(polyglot_encoder_t *e, size_t *n) {
    polyglot_status_t st = 99;
    uint32_t sz = polyglot_encoder_size(&st, e);
    if (st) { puts_("?size-status"); return NULL; }
    uint8_t *b = malloc(sz ? sz : 1);
    st = 99;
    polyglot_encoder_buffer(&st, e, b, sz);
    if (st) { puts_("?buffer-status"); free(b); return NULL; }
    *n = sz;
    return b;
}

static void fail(polyglot_status_t st, int zero, char c) {
    char t[32];
    if (st == POLYGLOT_STATUS_FAILURE && zero) snprintf(t, sizeof t, "!%c", c);
    else snprintf(t, sizeof t, "?status%d%s", st, zero ? "" : "-nonzero");
    puts_(t);
}

/* Values kept alive until the end of an ownership case. */
static int keeping, nkept;
static struct kept { char c; void *p; size_t at, len; } kept[4096];
static int keep(char c, void *p, size_t at) {
    if (!keeping || nkept == 4096) return 0;
    kept[nkept++] = (struct kept){c, p, at, outlen - at};
    return 1;
}
static void recheck(void) {
    for (int i = 0; i < nkept; i++) {
        struct kept *k = &kept[i];
        char *before = strndup(out + k->at, k->len);
        size_t n = outlen;
        if (k->c == 'x') putdata('x', ((polyglot_buffer_t *)k->p)->data, ((polyglot_buffer_t *)k->p)->length);
        else putdata(k->c, k->p, strlen(k->p));
        int same = outlen - n == k->len && !memcmp(before, out + n, k->len);
        outlen = n;
        out[n] = 0;
        if (!same) puts_("?changed ");
        free(before);
        if (k->c == 'x') polyglot_free_decode_bytes(k->p);
        else if (k->c == 's') polyglot_free_decode_string(k->p);
        else polyglot_free_decode_error(k->p);
    }
    nkept = 0;
}

static uint64_t spent, mark;
static void decode(polyglot_decoder_t *d, const char *t) {
    polyglot_status_t st = 99;
    char c = t[0], buf[48];
    uint64_t a[2] = {0, 0};
    const char *p = t + 1;
    for (int i = 0; i < 2 && *p; i++) {
        a[i] = strtoull(p, (char **)&p, 10);
        if (*p == ',') p++;
    }
    buf[0] = 0;
#define SC(call, type, fmt, conv) { type v = call(&st, d); if (st) fail(st, v == 0, c); else snprintf(buf, sizeof buf, fmt, conv); break; }
    size_t at = outlen;
    mark = vchk_total();
    switch (c) {
    case 'n': { bool v = polyglot_decode_none(&st, d); if (st) fail(st, !v, 'n'); else snprintf(buf, sizeof buf, "n%d", v); break; }
    case 'a': { uint32_t v = polyglot_decode_array(&st, d, a[0]); if (st) fail(st, v == 0, c); else snprintf(buf, sizeof buf, "a%" PRIu32, v); break; }
    case 'm': { uint32_t v = polyglot_decode_map(&st, d, a[0], a[1]); if (st) fail(st, v == 0, c); else snprintf(buf, sizeof buf, "m%" PRIu32, v); break; }
    case 'x': {
        polyglot_buffer_t *v = polyglot_decode_bytes(&st, d);
        if (st) fail(st, v == NULL, c); else { putdata('x', v->data, v->length); if (!keep('x', v, at)) polyglot_free_decode_bytes(v); }
        break;
    }
    case 's': {
        char *v = polyglot_decode_string(&st, d);
        if (st) fail(st, v == NULL, c); else { putdata('s', (uint8_t *)v, strlen(v)); if (!keep('s', v, at)) polyglot_free_decode_string(v); }
        break;
    }
    case 'e': {
        char *v = polyglot_decode_error(&st, d);
        if (st) fail(st, v == NULL, c); else { putdata('e', (uint8_t *)v, strlen(v)); if (!keep('e', v, at)) polyglot_free_decode_error(v); }
        break;
    }
    case 'b': SC(polyglot_decode_bool, bool, "b%d", v)
    case 'u': SC(polyglot_decode_u8, uint8_t, "u%d", v)
    case 'v': SC(polyglot_decode_u16, uint16_t, "v%d", v)
    case 'w': SC(polyglot_decode_u32, uint32_t, "w%" PRIu32, v)
    case 'q': SC(polyglot_decode_u64, uint64_t, "q%" PRIu64, v)
    case 'i': SC(polyglot_decode_i32, int32_t, "i%" PRId32, v)
    case 'l': SC(polyglot_decode_i64, int64_t, "l%" PRId64, v)
    case 'f': { float v = polyglot_decode_f32(&st, d); uint32_t u; memcpy(&u, &v, 4); if (st) fail(st, u == 0, c); else snprintf(buf, sizeof buf, "f%08" PRIx32, u); break; }
    case 'd': { double v = polyglot_decode_f64(&st, d); uint64_t u; memcpy(&u, &v, 8); if (st) fail(st, u == 0, c); else snprintf(buf, sizeof buf, "d%016" PRIx64, u); break; }
    }
    spent += vchk_total() - mark;
    puts_(buf);
    puts_(" ");
}

static void run(char **f, int nf) {
    polyglot_status_t st = 99;
    size_t n;
    if (f[0][0] == 'E' || f[0][0] == 'R') {
        polyglot_encoder_t *e = polyglot_new_encoder(&st);
        if (st) { puts_("?new"); return; }
        for (int i = 2; i < nf; i++) {
            if (f[i][0] == 'I') continue;
            if (encode(e, f[i])) { puts_("?encode-status "); }
        }
        if (f[0][0] == 'R') encode(e, "u77");
        uint8_t *b = drain(e, &n);
        polyglot_free_encoder(e);
        if (!b) return;
        if (f[0][0] == 'E') {
            if (n > 65536) putdigest(b, n); else { puts_("="); puthex(b, n); }
        } else {
            puts_("=");
            puthex(b, n < 16 ? n : 16);
            puts_(" ");
            putdigest(b, n);
            puts_(" ");
            polyglot_decoder_t *d = polyglot_new_decoder(&st, b, n);
            char q[64];
            snprintf(q, sizeof q, "%s", f[2]);
            if (q[0] == 'a' || q[0] == 'm') *strrchr(q, ',') = 0;
            else { q[0] = q[0] == 'R' ? 'e' : (char)tolower(q[0]); q[1] = 0; }
            decode(d, q);
            decode(d, "u");
            decode(d, "u");
            polyglot_free_decoder(d);
        }
        free(b);
        return;
    }
    uint8_t *b = unhex(f[2], &n);
    polyglot_decoder_t *d = polyglot_new_decoder(&st, b, n);
    if (st || !d) { puts_("?new-decoder"); free(b); return; }
    spent = 0;
    /* the decoder works on its own copy */
    memset(b, 0xEE, n);
    free(b);
    keeping = f[0][0] == 'O';
    for (int i = 3; i < nf; i++) decode(d, f[i]);
    polyglot_free_decoder(d);
    if (keeping) {
        /* reuse the memory the decoder had */
        polyglot_encoder_t *e = polyglot_new_encoder(&st);
        for (int i = 0; i < 50; i++) encode(e, "X40,7");
        polyglot_free_encoder(e);
        recheck();
        keeping = 0;
    }
    if (f[0][0] == 'A') {
        char t[32];
        snprintf(t, sizeof t, "@%" PRIu64, spent);
        puts_(t);
    }
}

int main(void) {
    char *line = NULL;
    size_t cap = 0;
    ssize_t l;
    while ((l = getline(&line, &cap, stdin)) > 0) {
        int nf = 0, fc = 64;
        char **f = malloc(sizeof *f * fc);
        for (char *s = strtok(line, " \n"); s; s = strtok(NULL, " \n")) {
            if (nf == fc) f = realloc(f, sizeof *f * (fc *= 2));
            f[nf++] = s;
        }
        if (nf >= 2) {
            uint32_t what = 0;
            outlen = 0;
            put("", 0);
            run(f, nf);
            if (vchk_faults(&what)) {
                char t[48];
                snprintf(t, sizeof t, " ?heap-fault-%u", what);
                puts_(t);
            }
            printf("%s %s\n", f[1], out);
            fflush(stdout);
        }
        free(f);
    }
    free(line);
    free(out);
    return 0;
}
