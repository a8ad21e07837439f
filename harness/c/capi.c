/* In-process monitor of the C API: random valid call histories over live handles (history), every call with
 * every kind of argument and stale status values (status), and independent use from many threads (threads).
 * What it sees is printed as one JSON object per line. */
#include <inttypes.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <unistd.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include "polyglot.h"

extern uint32_t vchk_faults(uint32_t *what);
extern uint64_t vchk_live_blocks(void);
extern void vchk_drain(void);
extern uint64_t vchk_mine(void);

static uint64_t seed;
static int viols;
static pthread_mutex_t io = PTHREAD_MUTEX_INITIALIZER;

/* counters */
static struct { const char *k; long n; } counts[128];
static void count(const char *k, long n) {
    pthread_mutex_lock(&io);
    for (int i = 0; i < 128; i++) {
        if (!counts[i].k) counts[i].k = k;
        if (!strcmp(counts[i].k, k)) { counts[i].n += n; break; }
    }
    pthread_mutex_unlock(&io);
}
static void flush_counts(void) {
    printf("{\"counts\":{");
    for (int i = 0; i < 128 && counts[i].k; i++) printf("%s\"%s\":%ld", i ? "," : "", counts[i].k, counts[i].n);
    printf("},\"done\":true}\n");
    fflush(stdout);
}

static __thread char hist[1 << 16];
static __thread size_t histn;
static void h_reset(void) { histn = 0; hist[0] = 0; }
static void h(const char *f, ...) {
    if (histn > sizeof hist - 256) return;
    va_list a;
    va_start(a, f);
    histn += vsnprintf(hist + histn, 200, f, a);
    va_end(a);
}
static void bad(const char *f, ...) {
    char m[2000];
    va_list a;
    va_start(a, f);
    vsnprintf(m, sizeof m, f, a);
    va_end(a);
    pthread_mutex_lock(&io);
    printf("{\"violation\":\"%s; history: %s\"}\n", m, hist);
    fflush(stdout);
    if (++viols >= 6) { flush_counts(); _exit(0); }
    pthread_mutex_unlock(&io);
}
static void note(const char *s, int triv) {
    pthread_mutex_lock(&io);
    printf("{\"note\":\"%s\",\"triv\":%s}\n", s, triv ? "true" : "false");
    pthread_mutex_unlock(&io);
}
static void *must(void *p) { if (!p) { fprintf(stderr, "out of memory\n"); abort(); } return p; }

/* random numbers */
typedef struct { uint64_t s; } rng;
static uint64_t next(rng *r) {
    uint64_t z = (r->s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static uint32_t below(rng *r, uint32_t n) { return n ? next(r) % n : 0; }
static uint64_t anybits(rng *r, int max) { int b = below(r, max + 1); return b == 0 ? 0 : next(r) >> (64 - b); }

/* the model: items and their documented encoding */
typedef struct { char c; uint8_t k1, k2; uint64_t u; uint8_t *b; size_t n; } item;
static const char alphabet[] = "namxsebuvwqilfd";

static uint8_t *text(rng *r, size_t n) {
    uint8_t *b = must(malloc(n + 1));
    size_t i = 0;
    while (i < n) {
        if (n - i >= 3 && below(r, 6) == 0) { b[i++] = 0xe2; b[i++] = 0x82; b[i++] = 0xac; }
        else if (n - i >= 2 && below(r, 6) == 0) { b[i++] = 0xc3; b[i++] = 0xa9; }
        else b[i++] = 'a' + below(r, 26);
    }
    b[n] = 0;
    return b;
}
static size_t size(rng *r, size_t max) {
    static const size_t edges[] = {0, 0, 1, 2, 7, 8, 15, 16, 31, 32, 63, 64, 126, 127, 128, 129, 255, 256, 1000, 16383, 16384};
    if (max > 100000) return below(r, max);
    size_t n = below(r, 3) ? edges[below(r, sizeof edges / sizeof *edges)] : below(r, 300);
    return n > max ? n % (max + 1) : n;
}
static item mkitem(rng *r, size_t max) {
    item o = {0};
    o.c = alphabet[below(r, 15)];
    o.k1 = below(r, 16);
    o.k2 = below(r, 16);
    switch (o.c) {
    case 'x':
        o.n = size(r, max);
        o.b = must(malloc(o.n ? o.n : 1));
        for (size_t i = 0; i < o.n; i++) o.b[i] = next(r);
        break;
    case 's': case 'e': o.n = size(r, max); o.b = text(r, o.n); break;
    case 'b': o.u = below(r, 2); break;
    case 'u': o.u = below(r, 256); break;
    case 'v': o.u = anybits(r, 16); break;
    case 'a': case 'm': case 'w': o.u = anybits(r, 32); break;
    case 'q': o.u = anybits(r, 64); break;
    case 'i': { uint64_t v = anybits(r, 32); o.u = (uint64_t)(int64_t)(int32_t)((uint32_t)(v >> 1) ^ -(uint32_t)(v & 1)); break; }
    case 'l': { uint64_t v = anybits(r, 64); o.u = (v >> 1) ^ -(v & 1); break; }
    case 'f': o.u = next(r) & 0xffffffff; break;
    case 'd': o.u = next(r); break;
    }
    return o;
}
typedef struct { uint8_t *b; size_t n, cap; } blob;
static void put(blob *o, uint8_t x) {
    if (o->n == o->cap) { o->cap = o->cap ? o->cap * 2 : 64; o->b = must(realloc(o->b, o->cap)); }
    o->b[o->n++] = x;
}
static void var(blob *o, uint64_t v) { for (; v >= 128; v >>= 7) put(o, v | 128); put(o, v); }
static void be(blob *o, uint64_t v, int n) { while (n--) put(o, v >> (8 * n)); }
static int tag(char c) { return strchr("nam?xsebuvwqilfd", c) - "nam?xsebuvwqilfd"; }
static void model(blob *o, const item *i) {
    put(o, tag(i->c));
    switch (i->c) {
    case 'a': put(o, i->k1); put(o, 10); var(o, i->u); break;
    case 'm': put(o, i->k1); put(o, i->k2); put(o, 10); var(o, i->u); break;
    case 'x': case 's': put(o, 10); var(o, i->n); for (size_t j = 0; j < i->n; j++) put(o, i->b[j]); break;
    case 'e': put(o, 5); put(o, 10); var(o, i->n); for (size_t j = 0; j < i->n; j++) put(o, i->b[j]); break;
    case 'b': case 'u': put(o, i->u); break;
    case 'v': case 'w': case 'q': var(o, i->u); break;
    case 'i': { uint32_t v = i->u; var(o, (uint32_t)(v << 1) ^ -(v >> 31)); break; }
    case 'l': var(o, (i->u << 1) ^ -(i->u >> 63)); break;
    case 'f': be(o, i->u, 4); break;
    case 'd': be(o, i->u, 8); break;
    }
}

/* calls */
static const uint8_t stale[] = {0, 1, 2, 77, 255};
static __thread unsigned staleAt;
#define ST polyglot_status_t st = stale[staleAt++ % 5]

static int encode(polyglot_encoder_t *e, const item *o) {
    ST;
    switch (o->c) {
    case 'n': polyglot_encode_none(&st, e); break;
    case 'a': polyglot_encode_array(&st, e, o->u, o->k1); break;
    case 'm': polyglot_encode_map(&st, e, o->u, o->k1, o->k2); break;
    case 'x': polyglot_encode_bytes(&st, e, o->b, o->n); break;
    case 's': polyglot_encode_string(&st, e, (char *)o->b); break;
    case 'e': polyglot_encode_error(&st, e, (char *)o->b); break;
    case 'b': polyglot_encode_bool(&st, e, o->u); break;
    case 'u': polyglot_encode_u8(&st, e, o->u); break;
    case 'v': polyglot_encode_u16(&st, e, o->u); break;
    case 'w': polyglot_encode_u32(&st, e, o->u); break;
    case 'q': polyglot_encode_u64(&st, e, o->u); break;
    case 'i': polyglot_encode_i32(&st, e, (int32_t)o->u); break;
    case 'l': polyglot_encode_i64(&st, e, (int64_t)o->u); break;
    case 'f': { uint32_t u = o->u; float f; memcpy(&f, &u, 4); polyglot_encode_f32(&st, e, f); break; }
    case 'd': { double f; memcpy(&f, &o->u, 8); polyglot_encode_f64(&st, e, f); break; }
    }
    return st;
}

/* a returned object that stays alive */
typedef struct { char c; void *p; uint8_t *want; size_t n; uint8_t *data; } ret;

typedef struct { int st; uint64_t u; ret r; } answer;

static answer decode(polyglot_decoder_t *d, char c, uint8_t k1, uint8_t k2) {
    answer a = {0};
    ST;
    switch (c) {
    case 'n': a.u = polyglot_decode_none(&st, d); break;
    case 'a': a.u = polyglot_decode_array(&st, d, k1); break;
    case 'm': a.u = polyglot_decode_map(&st, d, k1, k2); break;
    case 'x': a.r.p = polyglot_decode_bytes(&st, d); break;
    case 's': a.r.p = polyglot_decode_string(&st, d); break;
    case 'e': a.r.p = polyglot_decode_error(&st, d); break;
    case 'b': a.u = polyglot_decode_bool(&st, d); break;
    case 'u': a.u = polyglot_decode_u8(&st, d); break;
    case 'v': a.u = polyglot_decode_u16(&st, d); break;
    case 'w': a.u = polyglot_decode_u32(&st, d); break;
    case 'q': a.u = polyglot_decode_u64(&st, d); break;
    case 'i': a.u = (uint64_t)(int64_t)polyglot_decode_i32(&st, d); break;
    case 'l': a.u = (uint64_t)polyglot_decode_i64(&st, d); break;
    case 'f': { float f = polyglot_decode_f32(&st, d); uint32_t u; memcpy(&u, &f, 4); a.u = u; break; }
    case 'd': { double f = polyglot_decode_f64(&st, d); memcpy(&a.u, &f, 8); break; }
    }
    a.st = st;
    a.r.c = c;
    return a;
}
static void release(ret *r) {
    switch (r->c) {
    case 'x': polyglot_free_decode_bytes(r->p); break;
    case 's': polyglot_free_decode_string(r->p); break;
    case 'e': polyglot_free_decode_error(r->p); break;
    }
    free(r->want);
    r->p = r->want = NULL;
}
/* content of a returned object right now */
static const uint8_t *content(const ret *r, size_t *n) {
    if (r->c == 'x') {
        polyglot_buffer_t *b = r->p;
        *n = b->length;
        return b->data;
    }
    *n = strlen(r->p);
    return r->p;
}
static int holds(const ret *r) {
    size_t n;
    const uint8_t *b = content(r, &n);
    return n == r->n && (!n || !memcmp(b, r->want, n)) && (r->c != 'x' || b);
}
static void adopt(ret *r) { /* remember what it is now */
    size_t n;
    const uint8_t *b = content(r, &n);
    r->n = n;
    r->want = must(malloc(n ? n : 1));
    if (n) memcpy(r->want, b, n);
}
static void faults(void) {
    uint32_t w = 0;
    if (vchk_faults(&w)) {
        static const char *const t[] = {"", "write before a block", "write behind a block", "block freed with a different size or alignment than it was allocated with", "block freed twice or never allocated", "write to freed memory"};
        bad("the checking allocator reports: %s", t[w % 6]);
        flush_counts();
        _exit(0);
    }
}

/* reads the encoder out into a destination of exactly the reported size, with canaries around it */
static uint8_t *drain(polyglot_encoder_t *e, size_t *n, size_t extra) {
    ST;
    uint32_t sz = polyglot_encoder_size(&st, e);
    if (st) { bad("encoder_size: status %d", st); return NULL; }
    uint8_t *store = must(malloc(sz + extra + 32));
    memset(store, 0xC5, sz + extra + 32);
    st = stale[staleAt++ % 5];
    polyglot_encoder_buffer(&st, e, store + 16, sz + extra);
    if (st) bad("encoder_buffer into %zu bytes for %u: status %d", sz + extra, sz, st);
    for (size_t i = 0; i < 16; i++)
        if (store[i] != 0xC5 || store[16 + sz + extra + i] != 0xC5) { bad("encoder_buffer wrote outside the destination"); break; }
    for (size_t i = 0; i < extra; i++)
        if (store[16 + sz + i] != 0xC5) { bad("encoder_buffer wrote more than the encoder's %u bytes", sz); break; }
    uint8_t *b = must(malloc(sz ? sz : 1));
    memcpy(b, store + 16, sz);
    free(store);
    *n = sz;
    return b;
}

typedef struct { polyglot_encoder_t *e; blob want; item *it; int n; } enc;
typedef struct { polyglot_decoder_t *d; item *it; int n, at; int hostile; } dec;

static void check_enc(enc *e, rng *r) {
    size_t n;
    uint8_t *b = drain(e->e, &n, below(r, 3) ? 0 : below(r, 40));
    if (!b) return;
    if (n != e->want.n || memcmp(b, e->want.b, n)) bad("the encoder holds %zu bytes, expected %zu, or other content", n, e->want.n);
    free(b);
}
static void drop_items(item *it, int n) { for (int i = 0; i < n; i++) free(it[i].b); free(it); }
static item copy_item(const item *o) {
    item x = *o;
    if (o->b) { x.b = must(malloc(o->n + 1)); memcpy(x.b, o->b, o->n); x.b[o->n] = 0; }
    return x;
}

#define NE 4
#define ND 5
#define NR 24

static void one_history(uint64_t k, size_t maxdata) {
    rng R = {seed * 1000003 + k}, *r = &R;
    enc es[NE] = {0};
    dec ds[ND] = {0};
    ret rs[NR] = {0};
    int nrs = 0, steps = 20 + below(r, 120), calls = 0;
    uint64_t before = vchk_live_blocks(), mine = vchk_mine();
    h_reset();
    for (int s = 0; s < steps; s++) {
        int i, what = below(r, 20);
        switch (what) {
        case 0: case 1: /* new encoder or its end */
            i = below(r, NE);
            if (!es[i].e) {
                ST;
                es[i].e = polyglot_new_encoder(&st);
                h("e%d=new ", i);
                if (!es[i].e || st) { bad("new_encoder: status %d", st); return; }
            } else if (below(r, 2)) {
                check_enc(&es[i], r);
                polyglot_free_encoder(es[i].e);
                h("free(e%d) ", i);
                free(es[i].want.b);
                drop_items(es[i].it, es[i].n);
                es[i] = (enc){0};
            }
            break;
        case 2: case 3: case 4: case 5: case 6: /* encode a run of items */
            i = below(r, NE);
            if (es[i].e) {
                for (int m = 1 + below(r, 6); m > 0; m--) {
                    item o = mkitem(r, maxdata);
                    if (o.b) { /* the argument lives in its own block of the exact size and dies right after */
                        item t = copy_item(&o);
                        int st;
                        if (o.c == 'x') { free(t.b); t.b = must(malloc(o.n ? o.n : 1)); memcpy(t.b, o.b, o.n); }
                        st = encode(es[i].e, &t);
                        if (st) bad("encode %c: status %d", o.c, st);
                        if (memcmp(t.b, o.b, o.n)) bad("encoding changed its argument");
                        memset(t.b, 0xEE, o.n);
                        free(t.b);
                    } else {
                        int st = encode(es[i].e, &o);
                        if (st) bad("encode %c: status %d", o.c, st);
                    }
                    h("e%d.%c(%zu) ", i, o.c, o.b ? o.n : (size_t)o.u);
                    model(&es[i].want, &o);
                    es[i].it = must(realloc(es[i].it, (es[i].n + 1) * sizeof(item)));
                    es[i].it[es[i].n++] = o;
                    calls++;
                }
            }
            break;
        case 7:
            i = below(r, NE);
            if (es[i].e) { check_enc(&es[i], r); h("check(e%d) ", i); }
            break;
        case 8: case 9: { /* a decoder over an encoder's content, or over hostile bytes; the input dies right after */
            i = below(r, ND);
            int j = below(r, NE);
            if (below(r, 8)) for (int q = 0; q < NE; q++) if (es[q].want.n > es[j].want.n || (es[q].want.n && below(r, 3) == 0)) j = q;
            if (ds[i].d) break;
            blob in = {0};
            int hostile = below(r, 3) == 0;
            if (es[j].e) for (size_t q = 0; q < es[j].want.n; q++) put(&in, es[j].want.b[q]);
            if (hostile) {
                if (!in.n) for (int q = below(r, 12); q > 0; q--) put(&in, below(r, 17));
                if (in.n) {
                    in.n = 1 + below(r, in.n);
                    for (int q = below(r, 4); q > 0; q--) in.b[below(r, in.n)] = below(r, 2) ? next(r) : below(r, 17);
                }
            }
            uint8_t *exact = must(malloc(in.n ? in.n : 1)), *keep = must(malloc(in.n ? in.n : 1));
            if (in.n) { memcpy(exact, in.b, in.n); memcpy(keep, in.b, in.n); }
            ST;
            ds[i].d = polyglot_new_decoder(&st, exact, in.n);
            h("d%d=new(%s e%d,%zu) ", i, hostile ? "mangled" : "of", j, in.n);
            if (!ds[i].d || st) { bad("new_decoder: status %d", st); return; }
            if (in.n && memcmp(exact, keep, in.n)) bad("new_decoder changed its input");
            memset(exact, 0xEE, in.n);
            free(exact);
            free(keep);
            free(in.b);
            ds[i].hostile = hostile;
            ds[i].at = 0;
            if (es[j].e && !hostile) {
                ds[i].n = es[j].n;
                ds[i].it = must(malloc((ds[i].n + 1) * sizeof(item)));
                for (int q = 0; q < ds[i].n; q++) ds[i].it[q] = copy_item(&es[j].it[q]);
            }
            break;
        }
        case 10: case 11: case 12: case 13: case 14: /* decode a few */
            i = below(r, ND);
            if (ds[i].d) {
                for (int m = 1 + below(r, 8); m > 0 && nrs < NR; m--) {
                    dec *d = &ds[i];
                    item *o = d->at < d->n && !d->hostile ? &d->it[d->at] : NULL;
                    char c = o && below(r, 4) ? o->c : alphabet[below(r, 15)];
                    uint8_t k1 = o && below(r, 6) ? o->k1 : below(r, 17), k2 = o && below(r, 6) ? o->k2 : below(r, 17);
                    answer a = decode(d->d, c, k1, k2);
                    calls++;
                    h("d%d.%c=%d ", i, c, a.st);
                    int ptr = c == 'x' || c == 's' || c == 'e';
                    if (a.st != 0 && a.st != 1) bad("decode %c: status %d", c, a.st);
                    if (a.st == 1 && (ptr ? a.r.p != NULL : a.u != 0)) bad("decode %c failed and still gave a result", c);
                    if (a.st == 0 && ptr && !a.r.p) bad("decode %c: status pass and a null result", c);
                    if (!d->hostile) {
                        int match = o && c == o->c && (c != 'a' && c != 'm' || k1 == o->k1) && (c != 'm' || k2 == o->k2);
                        if (c == 'n') {
                            if (a.st || a.u != (uint64_t)match) bad("decode_none: status %d, result %d", a.st, (int)a.u);
                        } else if (match != (a.st == 0)) {
                            bad("decode %c where the next item is %c: status %d", c, o ? o->c : '-', a.st);
                        } else if (match && !ptr && a.u != o->u) {
                            bad("decode %c gave %" PRIx64 ", expected %" PRIx64, c, a.u, o->u);
                        } else if (match && ptr) {
                            a.r.n = o->n;
                            a.r.want = must(malloc(o->n ? o->n : 1));
                            memcpy(a.r.want, o->b, o->n);
                            if (!holds(&a.r)) bad("decode %c gave other data than was encoded", c);
                        }
                        if (match) d->at++;
                    }
                    if (a.r.p) {
                        if (!a.r.want) adopt(&a.r);
                        rs[nrs++] = a.r;
                        /* it is the caller's: writing to it is allowed and seen by nobody else */
                        if (a.r.n && below(r, 3) == 0) {
                            size_t n;
                            uint8_t *b = (uint8_t *)content(&a.r, &n);
                            memset(b, 'Z', n);
                            memset(a.r.want, 'Z', n);
                        }
                    }
                }
            }
            break;
        case 15: /* end of a decoder; what it returned lives on */
            i = below(r, ND);
            if (ds[i].d) {
                polyglot_free_decoder(ds[i].d);
                h("free(d%d) ", i);
                drop_items(ds[i].it, ds[i].n);
                ds[i] = (dec){0};
            }
            break;
        case 16: case 17: case 18: /* free some returned object */
            if (nrs) {
                i = below(r, nrs);
                if (!holds(&rs[i])) bad("a returned %c changed before it was freed", rs[i].c);
                h("free(%c) ", rs[i].c);
                release(&rs[i]);
                rs[i] = rs[--nrs];
            }
            break;
        case 19:
            for (i = 0; i < nrs; i++)
                if (!holds(&rs[i])) bad("a returned %c changed while it was held", rs[i].c);
            polyglot_free_encoder(NULL);
            polyglot_free_decoder(NULL);
            polyglot_free_decode_bytes(NULL);
            polyglot_free_decode_string(NULL);
            polyglot_free_decode_error(NULL);
            h("free(NULL) ");
            break;
        }
        faults();
    }
    while (nrs) {
        if (!holds(&rs[nrs - 1])) bad("a returned %c changed before it was freed", rs[nrs - 1].c);
        release(&rs[--nrs]);
        if (nrs == NR / 2) /* the rest dies after its decoders */
            for (int i = 0; i < ND; i++) if (ds[i].d) { polyglot_free_decoder(ds[i].d); ds[i].d = NULL; }
    }
    for (int i = 0; i < ND; i++) { if (ds[i].d) polyglot_free_decoder(ds[i].d); drop_items(ds[i].it, ds[i].n); }
    for (int i = 0; i < NE; i++) if (es[i].e) { polyglot_free_encoder(es[i].e); free(es[i].want.b); drop_items(es[i].it, es[i].n); }
    faults();
    if (vchk_live_blocks() != before || vchk_mine() != mine)
        bad("after everything was freed %" PRIi64 " blocks and %" PRIi64 " bytes are still allocated", (int64_t)(vchk_live_blocks() - before), (int64_t)(vchk_mine() - mine));
    hist[400] = 0;
    note(hist, calls == 0);
    count("histories", 1);
    count("calls", calls);
}

/* ---- status ---- */

static void null_handles(void) {
    /* every call with a null handle, from every stale status */
    for (unsigned s = 0; s < 256; s++) {
        uint8_t data[4] = "abc";
        for (const char *c = alphabet; *c; c++) {
            h_reset();
            h("encode %c on a null encoder, status was %u", *c, s);
            polyglot_status_t st = s;
            switch (*c) {
            case 'n': polyglot_encode_none(&st, NULL); break;
            case 'a': polyglot_encode_array(&st, NULL, 3, 1); break;
            case 'm': polyglot_encode_map(&st, NULL, 3, 1, 1); break;
            case 'x': polyglot_encode_bytes(&st, NULL, data, 3); break;
            case 's': polyglot_encode_string(&st, NULL, (char *)data); break;
            case 'e': polyglot_encode_error(&st, NULL, (char *)data); break;
            case 'b': polyglot_encode_bool(&st, NULL, 1); break;
            case 'u': polyglot_encode_u8(&st, NULL, 1); break;
            case 'v': polyglot_encode_u16(&st, NULL, 1); break;
            case 'w': polyglot_encode_u32(&st, NULL, 1); break;
            case 'q': polyglot_encode_u64(&st, NULL, 1); break;
            case 'i': polyglot_encode_i32(&st, NULL, 1); break;
            case 'l': polyglot_encode_i64(&st, NULL, 1); break;
            case 'f': polyglot_encode_f32(&st, NULL, 1); break;
            case 'd': polyglot_encode_f64(&st, NULL, 1); break;
            }
            if (st != 2) bad("status %d", st);
            note(hist, 0);
            h_reset();
            h("decode %c on a null decoder, status was %u", *c, s);
            uint64_t u = 0;
            void *p = NULL;
            st = s;
            switch (*c) {
            case 'n': u = polyglot_decode_none(&st, NULL); break;
            case 'a': u = polyglot_decode_array(&st, NULL, 1); break;
            case 'm': u = polyglot_decode_map(&st, NULL, 1, 1); break;
            case 'x': p = polyglot_decode_bytes(&st, NULL); break;
            case 's': p = polyglot_decode_string(&st, NULL); break;
            case 'e': p = polyglot_decode_error(&st, NULL); break;
            case 'b': u = polyglot_decode_bool(&st, NULL); break;
            case 'u': u = polyglot_decode_u8(&st, NULL); break;
            case 'v': u = polyglot_decode_u16(&st, NULL); break;
            case 'w': u = polyglot_decode_u32(&st, NULL); break;
            case 'q': u = polyglot_decode_u64(&st, NULL); break;
            case 'i': u = polyglot_decode_i32(&st, NULL); break;
            case 'l': u = polyglot_decode_i64(&st, NULL); break;
            case 'f': { float f = polyglot_decode_f32(&st, NULL); uint32_t x; memcpy(&x, &f, 4); u = x; break; }
            case 'd': { double f = polyglot_decode_f64(&st, NULL); memcpy(&u, &f, 8); break; }
            }
            if (st != 2 || u || p) bad("status %d, result %" PRIu64 "/%p", st, u, p);
            note(hist, 0);
        }
        h_reset();
        h("size and buffer of a null encoder, new decoder of a null input, status was %u", s);
        polyglot_status_t st = s;
        if (polyglot_encoder_size(&st, NULL) != 0 || st != 2) bad("encoder_size: status %d", st);
        for (uint32_t n = 0; n < 5; n++) {
            uint8_t c[8];
            memset(c, 0xC5, 8);
            st = s;
            polyglot_encoder_buffer(&st, NULL, c + 2, n);
            if (st != 2) bad("encoder_buffer(null encoder): status %d", st);
            for (int i = 0; i < 8; i++) if (c[i] != 0xC5) { bad("encoder_buffer(null encoder) wrote to the destination"); break; }
            st = s;
            polyglot_encoder_buffer(&st, NULL, NULL, n);
            if (st != 2) bad("encoder_buffer(null, null): status %d", st);
            st = s;
            if (polyglot_new_decoder(&st, NULL, n * n * 50) || st != 2) bad("new_decoder(null, %u): status %d", n * n * 50, st);
        }
        note(hist, 0);
    }
}

/* every call without a status, in a process of its own: it may refuse deliberately, but never write through the null pointer */
static void no_status(void) {
    for (int live = 0; live < 2; live++)
        for (int dec = 0; dec < 2; dec++)
            for (const char *c = dec ? alphabet : "namxsebuvwqilfdSBDE"; *c; c++) {
                h_reset();
                h("%s %c without a status, %s handle", dec ? "decode" : "encode", *c, live ? "live" : "null");
                fflush(stdout);
                polyglot_status_t st = 0;
                uint8_t data[4] = "abc";
                polyglot_encoder_t *e = live ? polyglot_new_encoder(&st) : NULL;
                polyglot_decoder_t *d = live ? polyglot_new_decoder(&st, data, 3) : NULL;
                pid_t p = fork();
                if (p < 0) { perror("fork"); abort(); }
                if (!p) {
                    int z = open("/dev/null", O_WRONLY);
                    dup2(z, 1);
                    dup2(z, 2);
                    if (!dec) switch (*c) {
                    case 'n': polyglot_encode_none(NULL, e); break;
                    case 'a': polyglot_encode_array(NULL, e, 3, 1); break;
                    case 'm': polyglot_encode_map(NULL, e, 3, 1, 1); break;
                    case 'x': polyglot_encode_bytes(NULL, e, data, 3); break;
                    case 's': polyglot_encode_string(NULL, e, (char *)data); break;
                    case 'e': polyglot_encode_error(NULL, e, (char *)data); break;
                    case 'b': polyglot_encode_bool(NULL, e, 1); break;
                    case 'u': polyglot_encode_u8(NULL, e, 1); break;
                    case 'v': polyglot_encode_u16(NULL, e, 1); break;
                    case 'w': polyglot_encode_u32(NULL, e, 1); break;
                    case 'q': polyglot_encode_u64(NULL, e, 1); break;
                    case 'i': polyglot_encode_i32(NULL, e, 1); break;
                    case 'l': polyglot_encode_i64(NULL, e, 1); break;
                    case 'f': polyglot_encode_f32(NULL, e, 1); break;
                    case 'd': polyglot_encode_f64(NULL, e, 1); break;
                    case 'S': polyglot_encoder_size(NULL, e); break;
                    case 'B': polyglot_encoder_buffer(NULL, e, data, 3); break;
                    case 'D': polyglot_new_decoder(NULL, live ? data : NULL, 3); break;
                    case 'E': polyglot_new_encoder(NULL); break;
                    } else switch (*c) {
                    case 'n': polyglot_decode_none(NULL, d); break;
                    case 'a': polyglot_decode_array(NULL, d, 1); break;
                    case 'm': polyglot_decode_map(NULL, d, 1, 1); break;
                    case 'x': polyglot_decode_bytes(NULL, d); break;
                    case 's': polyglot_decode_string(NULL, d); break;
                    case 'e': polyglot_decode_error(NULL, d); break;
                    case 'b': polyglot_decode_bool(NULL, d); break;
                    case 'u': polyglot_decode_u8(NULL, d); break;
                    case 'v': polyglot_decode_u16(NULL, d); break;
                    case 'w': polyglot_decode_u32(NULL, d); break;
                    case 'q': polyglot_decode_u64(NULL, d); break;
                    case 'i': polyglot_decode_i32(NULL, d); break;
                    case 'l': polyglot_decode_i64(NULL, d); break;
                    case 'f': polyglot_decode_f32(NULL, d); break;
                    case 'd': polyglot_decode_f64(NULL, d); break;
                    }
                    _exit(0);
                }
                int w = 0;
                waitpid(p, &w, 0);
                if (WIFSIGNALED(w) && WTERMSIG(w) != SIGABRT) bad("the call ended with signal %d", WTERMSIG(w));
                count(WIFSIGNALED(w) ? "calls without a status that stopped the process deliberately" : "calls without a status that returned", 1);
                note(hist, 0);
                if (e) polyglot_free_encoder(e);
                if (d) polyglot_free_decoder(d);
            }
}

static void one_status(uint64_t k) {
    rng R = {seed * 7777777 + k}, *r = &R;
    h_reset();
    ST;
    polyglot_encoder_t *e = polyglot_new_encoder(&st);
    h("new(status %d) ", st);
    if (!e || st) { bad("new_encoder: status %d", st); return; }
    blob want = {0};
    item *it = NULL;
    int n = 0;
    /* successes and refusals in any order */
    for (int s = 1 + below(r, 12); s > 0; s--) {
        st = stale[staleAt++ % 5];
        int kind = below(r, 8);
        if (kind == 0) {
            h("bytes(NULL,%d) ", kind);
            polyglot_encode_bytes(&st, e, NULL, below(r, 3) * 100);
            if (st != 2) bad("encode_bytes(null): status %d", st);
        } else if (kind == 1) {
            h("string(NULL) error(NULL) ");
            polyglot_encode_string(&st, e, NULL);
            if (st != 2) bad("encode_string(null): status %d", st);
            st = stale[staleAt++ % 5];
            polyglot_encode_error(&st, e, NULL);
            if (st != 2) bad("encode_error(null): status %d", st);
        } else if (kind == 2) { /* text that is not UTF-8 */
            static const char *const ill[] = {"\xff", "a\x80", "ok\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\xaf", "\xf5\x80\x80\x80", "long enough text with one ill byte at its end \xfe"};
            const char *t = ill[below(r, 8)];
            h("ill-formed text ");
            if (below(r, 2)) polyglot_encode_string(&st, e, (char *)t); else polyglot_encode_error(&st, e, (char *)t);
            if (st != 1) bad("encoding ill-formed text: status %d", st);
        } else {
            item o = mkitem(r, 300);
            int q = encode(e, &o);
            h("%c ", o.c);
            if (q) bad("encode %c: status %d", o.c, q);
            model(&want, &o);
            it = must(realloc(it, (n + 1) * sizeof *it));
            it[n++] = o;
        }
        st = stale[staleAt++ % 5];
        uint32_t sz = polyglot_encoder_size(&st, e);
        if (st || sz != want.n) { bad("encoder_size: status %d, %u bytes, expected %zu", st, sz, want.n); break; }
    }
    /* destinations of every size around the right one */
    size_t sz = want.n;
    for (int t = 0; t < 24; t++) {
        size_t dst = t < 8 ? sz + t : t < 16 ? (sz > (size_t)(t - 8) ? sz - 1 - (t - 8) : 0) : below(r, 2 * sz + 2);
        uint8_t *c = must(malloc(dst + 32));
        memset(c, 0xC5, dst + 32);
        st = stale[staleAt++ % 5];
        polyglot_encoder_buffer(&st, e, c + 16, dst);
        int ok = dst >= sz;
        if (st != (ok ? 0 : 1)) bad("encoder_buffer of %zu bytes into %zu: status %d", sz, dst, st);
        size_t touched = ok ? sz : 0;
        if (touched && memcmp(c + 16, want.b, sz)) bad("encoder_buffer into %zu bytes delivered other bytes than were encoded", dst);
        for (size_t i = 0; i < dst + 32; i++)
            if ((i < 16 || i >= 16 + touched) && c[i] != 0xC5) { bad("encoder_buffer of %zu bytes into %zu wrote to byte %zd", sz, dst, (ssize_t)i - 16); break; }
        free(c);
        st = stale[staleAt++ % 5];
        polyglot_encoder_buffer(&st, e, NULL, dst);
        if (st != 2) bad("encoder_buffer(null destination): status %d", st);
    }
    count("destinations", 24);
    /* decoding: failures give fail and nothing, and leave the item; successes give pass */
    st = stale[staleAt++ % 5];
    polyglot_decoder_t *d = polyglot_new_decoder(&st, want.b ? want.b : (uint8_t *)"", want.n);
    if (!d || st) { bad("new_decoder: status %d", st); return; }
    for (int i = 0; i <= n; i++) {
        for (int p = below(r, 5); p > 0; p--) {
            char c = alphabet[below(r, 15)];
            if (i < n && c == it[i].c && c != 'a' && c != 'm') continue;
            uint8_t k1 = below(r, 17), k2 = below(r, 17);
            if (i < n && c == it[i].c && k1 == it[i].k1 && (c == 'a' || k2 == it[i].k2)) continue;
            answer a = decode(d, c, k1, k2);
            h("probe %c=%d ", c, a.st);
            if (c == 'n' ? a.st != 0 || a.u : a.st != 1 || a.u || a.r.p) bad("decode %c of something else: status %d, result %" PRIu64 "/%p", c, a.st, a.u, a.r.p);
            count("failing decodes", 1);
        }
        if (i == n) break;
        answer a = decode(d, it[i].c, it[i].k1, it[i].k2);
        h("decode %c=%d ", it[i].c, a.st);
        if (a.st) { bad("decode %c: status %d", it[i].c, a.st); break; }
        if (a.r.p) {
            a.r.want = must(malloc(it[i].n + 1));
            memcpy(a.r.want, it[i].b, a.r.n = it[i].n);
            if (!holds(&a.r)) bad("decode %c gave other data", it[i].c);
            release(&a.r);
        } else if (it[i].c == 'n' ? a.u != 1 : a.u != it[i].u) bad("decode %c gave another value", it[i].c);
        count("passing decodes", 1);
    }
    polyglot_free_decoder(d);
    /* every prefix that cuts the last item: fail, nothing given */
    if (n > 0) {
        blob last = {0};
        model(&last, &it[n - 1]);
        for (size_t cut = 0; cut < last.n; cut = cut < 20 ? cut + 1 : cut + 37) {
            st = stale[staleAt++ % 5];
            d = polyglot_new_decoder(&st, last.b, cut);
            if (!d || st) { bad("new_decoder: status %d", st); break; }
            answer a = decode(d, it[n - 1].c, it[n - 1].k1, it[n - 1].k2);
            h("cut %c at %zu=%d ", it[n - 1].c, cut, a.st);
            if (it[n - 1].c == 'n' ? a.st != 0 || a.u : a.st != 1 || a.u || a.r.p) bad("decode %c of an incomplete item: status %d, result %" PRIu64 "/%p", it[n - 1].c, a.st, a.u, a.r.p);
            polyglot_free_decoder(d);
            count("failing decodes", 1);
        }
        free(last.b);
    }
    /* text that cannot be a C string or is ill-formed fails and gives null */
    for (int t = 0; t < 4; t++) {
        blob in = {0};
        int err = below(r, 2);
        put(&in, err ? 6 : 5);
        if (err) put(&in, 5);
        put(&in, 10);
        size_t len = 1 + below(r, 200);
        var(&in, len);
        for (size_t i = 0; i < len; i++) put(&in, 'a');
        in.b[in.n - 1 - below(r, len)] = t % 2 ? 0xff : 0;
        st = 77;
        d = polyglot_new_decoder(&st, in.b, in.n);
        answer a = decode(d, err ? 'e' : 's', 0, 0);
        h("text with byte %d=%d ", t % 2 ? 255 : 0, a.st);
        if (a.st != 1 || a.r.p) bad("decoding text that cannot be given to C: status %d, result %p", a.st, a.r.p);
        polyglot_free_decoder(d);
        free(in.b);
    }
    polyglot_free_encoder(e);
    free(want.b);
    drop_items(it, n);
    faults();
    hist[400] = 0;
    note(hist, 0);
}

/* ---- threads ---- */

#define SHARED 120
static item shared[SHARED];
static blob sharedin;
static int rounds;
static pthread_barrier_t gate;

static void *worker(void *arg) {
    long w = (long)arg;
    rng R = {seed * 31 + w}, *r = &R;
    h_reset();
    h("thread %ld", w);
    for (int k = 0; k < rounds; k++) {
        pthread_barrier_wait(&gate);
        ST;
        polyglot_encoder_t *e = polyglot_new_encoder(&st);
        for (int i = 0; i < SHARED; i++) {
            if (encode(e, &shared[i])) bad("encode %c failed", shared[i].c);
            if (below(r, 16) == 0) sched_yield();
        }
        size_t n;
        uint8_t *b = drain(e, &n, 0);
        if (!b || n != sharedin.n || memcmp(b, sharedin.b, n)) bad("round %d: encoding gave other bytes than alone", k);
        polyglot_free_encoder(e);
        polyglot_decoder_t *d = polyglot_new_decoder(&st, k % 2 ? b : sharedin.b, n);
        for (int i = 0; i < SHARED; i++) {
            item *o = &shared[i];
            if (below(r, 4) == 0) { answer a = decode(d, o->c == 'u' ? 'q' : 'u', 0, 0); if (a.st != 1) bad("a mismatched call gave status %d", a.st); }
            answer a = decode(d, o->c, o->k1, o->k2);
            if (a.st) { bad("round %d: decode %c failed", k, o->c); break; }
            if (a.r.p) {
                a.r.want = must(malloc(o->n + 1));
                memcpy(a.r.want, o->b, a.r.n = o->n);
                if (below(r, 8) == 0) sched_yield();
                if (!holds(&a.r)) bad("round %d: decode %c gave other data than alone", k, o->c);
                release(&a.r);
            } else if (o->c != 'n' && a.u != o->u) bad("round %d: decode %c gave %" PRIx64 " instead of %" PRIx64, k, o->c, a.u, o->u);
        }
        polyglot_free_decoder(d);
        free(b);
    }
    count("thread rounds", rounds);
    count("calls under concurrency", (long)rounds * SHARED * 2);
    return NULL;
}

static void threads(long n, int g) {
    rng R = {seed + g};
    for (int i = 0; i < SHARED; i++) { free(shared[i].b); shared[i] = mkitem(&R, i % 30 == 11 ? 200000 : 2000); }
    sharedin.n = 0;
    for (int i = 0; i < SHARED; i++) model(&sharedin, &shared[i]);
    rounds = n;
    pthread_barrier_init(&gate, NULL, g);
    pthread_t t[64];
    for (long i = 0; i < g; i++) pthread_create(&t[i], NULL, worker, (void *)(i + 100 * g));
    for (int i = 0; i < g; i++) pthread_join(t[i], NULL);
    faults();
    char m[100];
    snprintf(m, sizeof m, "%d threads, %ld rounds of %d items", g, n, SHARED);
    note(m, 0);
}

/* every thread encodes and decodes values of one kind, its own ones, as fast as it can, and keeps what it
 * got a while; data comes in sizes beyond what a scratch space or a pool may single out */
typedef struct { item it[3]; blob want[3]; long n; } own;
static void *stormer(void *arg) {
    own *o = arg;
    h_reset();
    h("storm of %c", o->it[0].c);
    enum { KEEP = 5 };
    ret kept[KEEP];
    memset(kept, 0, sizeof kept);
    size_t most = 0;
    for (int i = 0; i < 3; i++) if (o->want[i].n > most) most = o->want[i].n;
    uint8_t *b = must(malloc(most));
    pthread_barrier_wait(&gate);
    for (long k = 0; k < o->n; k++) {
        const item *t = &o->it[k % 3];
        const blob *w = &o->want[k % 3];
        ret *slot = &kept[k % KEEP];
        if (slot->p) {
            int ok = holds(slot);
            release(slot);
            if (!ok) { bad("a result held while other threads go on changed"); break; }
        }
        ST;
        polyglot_encoder_t *e = polyglot_new_encoder(&st);
        if (encode(e, t)) bad("encode %c failed", t->c);
        uint32_t n = polyglot_encoder_size(&st, e);
        if (n != w->n) { bad("encoding %c gave %u bytes instead of %zu", t->c, n, w->n); break; }
        polyglot_encoder_buffer(&st, e, b, n);
        polyglot_free_encoder(e);
        if (memcmp(b, w->b, n)) { bad("encoding %c gave other bytes than alone", t->c); break; }
        polyglot_decoder_t *d = polyglot_new_decoder(&st, b, n);
        answer a = decode(d, t->c, t->k1, t->k2);
        polyglot_free_decoder(d);
        memset(b, 0xa5, n);
        if (a.st) { bad("decode %c failed", t->c); break; }
        if (a.r.p) {
            a.r.want = must(malloc(t->n + 1));
            memcpy(a.r.want, t->b, a.r.n = t->n);
            *slot = a.r;
            if (!holds(slot)) { bad("decode %c gave other data than alone", t->c); break; }
        } else if (t->c != 'n' && a.u != t->u) { bad("decode %c gave %" PRIx64 " instead of %" PRIx64, t->c, a.u, t->u); break; }
    }
    for (int i = 0; i < KEEP; i++)
        if (kept[i].p) {
            if (!holds(&kept[i])) bad("a result held while other threads go on changed");
            release(&kept[i]);
        }
    free(b);
    return NULL;
}
static void storm(char c, size_t most, long n) {
    enum { G = 8 };
    own o[G];
    memset(o, 0, sizeof o);
    rng R = {seed * 77 + c + most * 131};
    pthread_barrier_init(&gate, NULL, G);
    pthread_t t[G];
    for (int w = 0; w < G; w++) {
        o[w].n = n;
        for (int i = 0; i < 3; i++) {
            item *q = &o[w].it[i];
            while (!q->c) {
                item x = mkitem(&R, 24);
                if (x.c == c) *q = x; else free(x.b);
            }
            if (most > 24) {
                free(q->b);
                q->n = i ? below(&R, most) : most / 2;
                q->b = text(&R, q->n);
            }
            model(&o[w].want[i], q);
        }
    }
    for (int w = 0; w < G; w++) pthread_create(&t[w], NULL, stormer, &o[w]);
    for (int w = 0; w < G; w++) pthread_join(t[w], NULL);
    for (int w = 0; w < G; w++) for (int i = 0; i < 3; i++) { free(o[w].it[i].b); free(o[w].want[i].b); }
    faults();
    count("calls in storms of one kind", n * G * 2);
    char m[100];
    snprintf(m, sizeof m, "storm of %c up to %zu bytes, %d threads, %ld rounds", c, most, G, n);
    note(m, 0);
}
static void storms(long n) {
    for (const char *c = alphabet; *c; c++) {
        storm(*c, 24, n);
        if (strchr("xse", *c)) {
            storm(*c, 600, n / 2);
            storm(*c, 6000, n / 4);
            storm(*c, 80000, n / 20 + 5);
            storm(*c, 1200000, n / 400 + 5);
        }
    }
}

/* ---- keep: use again and again with values that never come twice ---- */
static void keeping(long n) {
    rng R = {seed * 991}, *r = &R;
    long all = 0;
    for (const char *c = alphabet; *c; c++)
        for (int big = 0; big < 3; big++) {
            int data = !!strchr("xse", *c);
            if (big && !data) continue;
            size_t most = big == 2 ? 70000 : big ? 700 : 40;
            long per = big == 2 ? n / 40 + 2 : n;
            int64_t least = INT64_MAX;
            int64_t last = 0;
            for (int k = 0; k < 4; k++) {
                for (long i = 0; i < (k ? per : per / 4 + 1); i++, all++) {
                    item o = {0};
                    while (o.c != *c) { free(o.b); o = mkitem(r, 24); }
                    if (data) {
                        free(o.b);
                        o.n = most / 2 + below(r, most / 2);
                        o.b = text(r, o.n);
                    }
                    ST;
                    polyglot_encoder_t *e = polyglot_new_encoder(&st);
                    if (encode(e, &o)) bad("encode %c failed", o.c);
                    if (data) { item t = {.c = o.c, .b = (uint8_t *)"held 16 bytes.. ", .n = 16}; encode(e, &t); }
                    size_t len;
                    uint8_t *b = drain(e, &len, 0);
                    polyglot_free_encoder(e);
                    polyglot_decoder_t *d = polyglot_new_decoder(&st, b, len);
                    answer a = decode(d, o.c, o.k1, o.k2);
                    if (a.st) bad("decode %c failed", o.c);
                    if (a.r.p) release(&a.r);
                    if (data) {
                        uint64_t before = vchk_mine();
                        a = decode(d, o.c, 0, 0);
                        if (a.st) bad("decode %c failed", o.c);
                        int64_t used = (int64_t)(vchk_mine() - before);
                        if (used > 512) bad("a value %c of 16 bytes keeps %" PRIi64 " bytes alive", o.c, used);
                        if (a.r.p) release(&a.r);
                    }
                    polyglot_free_decoder(d);
                    d = polyglot_new_decoder(&st, b, below(r, len));
                    for (int j = 0; j < 4; j++) {
                        a = decode(d, j % 2 ? alphabet[below(r, 15)] : o.c, o.k1, o.k2);
                        if (a.r.p) release(&a.r);
                    }
                    polyglot_free_decoder(d);
                    free(b);
                    free(o.b);
                }
                int64_t now = (int64_t)vchk_mine();
                if (k && now - last < least) least = now - last;
                last = now;
            }
            if (least > 1024) bad("after everything was freed, every %ld rounds of %c up to %zu bytes leave %" PRIi64 " bytes more allocated", per, *c, most, least);
            char m[100];
            snprintf(m, sizeof m, "%c up to %zu bytes", *c, most);
            note(m, 0);
        }
    count("rounds of use", all);
    faults();
}

int main(int argc, char **argv) {
    if (argc < 4) return 2;
    static char buf[1 << 16];
    setvbuf(stdout, buf, _IOFBF, sizeof buf);
    seed = strtoull(argv[2], NULL, 10);
    long n = atol(argv[3]);
    if (!strcmp(argv[1], "history")) {
        polyglot_status_t st;
        polyglot_free_encoder(polyglot_new_encoder(&st)); /* whatever the library allocates once is there now */
        for (long k = 0; k < n; k++) one_history(k, k % 4 ? 400 : 20000);
        vchk_drain();
        h_reset();
        faults();
    } else if (!strcmp(argv[1], "status")) {
        null_handles();
        if (n > 2000) no_status();
        for (long k = 0; k < n; k++) one_status(k);
        vchk_drain();
        h_reset();
        faults();
    } else if (!strcmp(argv[1], "threads")) {
        storms(n * 4);
        threads(n, 2);
        threads(n, 8);
        threads(n / 4 + 1, 32);
    } else if (!strcmp(argv[1], "keep")) {
        keeping(n);
    } else return 2;
    flush_counts();
    return 0;
}
