/* Conformance driver for the C interface: a C program written against the published header. It reads
   operations from stdin and writes one JSON line per operation, together with the state of the heap:
   every block that the library allocates is recorded, has guard bytes behind it, and is overwritten
   and kept for a while when it is freed. Inputs are given in blocks of exactly the right size which
   are overwritten and freed as soon as the call returns; outputs go to blocks with guard bytes. */
#include "image-palette-recoloring.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>

void *__real_malloc(size_t);
void __real_free(void *);

#define GUARD 64
#define MAXB 400000
typedef struct { unsigned char *p; size_t size; int rust; size_t align; } block;
static block tab[1 << 20];              /* open addressing */
static size_t live, live_bytes;
static long bad_free, bad_guard, bad_quarantine, bad_layout;
static int inlib;
#define MASK ((1u << 20) - 1)
static unsigned hash(void *p) { return (unsigned)(((size_t)p >> 4) * 2654435761u) & MASK; }
static block *lookup(void *p) {
    unsigned h = hash(p);
    while (tab[h].p) { if (tab[h].p == (unsigned char *)p) return &tab[h]; h = (h + 1) & MASK; }
    return 0;
}
static void insert(void *p, size_t size, int rust, size_t align) {
    unsigned h = hash(p);
    while (tab[h].p) h = (h + 1) & MASK;
    tab[h].p = p; tab[h].size = size; tab[h].rust = rust; tab[h].align = align;
    live++; live_bytes += size;
}
static void removeb(block *b) {
    live--; live_bytes -= b->size;
    unsigned i = b - tab, j = i;
    for (;;) {
        j = (j + 1) & MASK;
        if (!tab[j].p) break;
        unsigned k = hash(tab[j].p);
        if ((i <= j) ? (i < k && k <= j) : (i < k || k <= j)) continue;
        tab[i] = tab[j]; i = j;
    }
    tab[i].p = 0;
}
/* blocks that were freed */
#define QN 2048
static struct { unsigned char *base, *p; size_t size; } quar[QN];
static int qpos;
static unsigned char *base_of(unsigned char *p) { return *(unsigned char **)(p - sizeof(void *)); }
static void *obtain(size_t size, size_t align, int rust) {
    if (align < 16) align = 16;
    unsigned char *base = __real_malloc(size + align + 16 + GUARD);
    if (!base) abort();
    unsigned char *p = (unsigned char *)(((size_t)base + 16 + align - 1) / align * align);
    *(unsigned char **)(p - sizeof(void *)) = base;
    memset(p, 0xA5, size);
    memset(p + size, 0xC3, GUARD);
    insert(p, size, rust, align);
    return p;
}
static int guard_ok(unsigned char *p, size_t size) {
    for (int i = 0; i < GUARD; i++) if (p[size + i] != 0xC3) return 0;
    return 1;
}
static void check_quarantined(int i) {
    if (!quar[i].base) return;
    for (size_t k = 0; k < quar[i].size; k++) if (quar[i].p[k] != 0xDD) { bad_quarantine++; break; }
    for (int k = 0; k < GUARD; k++) if (quar[i].p[quar[i].size + k] != 0xC3) { bad_quarantine++; break; }
}
static void release(block *b) {
    unsigned char *p = b->p; size_t size = b->size;
    if (!guard_ok(p, size)) bad_guard++;
    memset(p, 0xDD, size);
    unsigned char *base = base_of(p);
    removeb(b);
    check_quarantined(qpos);
    if (quar[qpos].base) __real_free(quar[qpos].base);
    quar[qpos].base = base; quar[qpos].p = p; quar[qpos].size = size;
    qpos = (qpos + 1) % QN;
}
static void audit(void) {
    for (unsigned i = 0; i <= MASK; i++) if (tab[i].p && !guard_ok(tab[i].p, tab[i].size)) bad_guard++;
    for (int i = 0; i < QN; i++) check_quarantined(i);
}
/* Rust's allocator */
void *rec_alloc(size_t size, size_t align) { return obtain(size, align, 1); }
void rec_free(void *p, size_t size, size_t align) {
    block *b = lookup(p);
    if (!b) { bad_free++; return; }
    if (align < 16) align = 16;
    if (!b->rust || b->size != size || b->align != align) bad_layout++;
    release(b);
}
/* malloc of the code of the library that is written in C */
void *__wrap_malloc(size_t n) { return inlib ? obtain(n, 16, 0) : __real_malloc(n); }
void __wrap_free(void *p) {
    if (!p) return;
    block *b = lookup(p);
    if (b) { if (b->rust) bad_layout++; release(b); }
    else if (inlib) bad_free++;
    else __real_free(p);
}
void *__wrap_calloc(size_t a, size_t n) {
    void *p = __wrap_malloc(a * n); memset(p, 0, a * n); return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return __wrap_malloc(n);
    block *b = lookup(p);
    void *q = b ? obtain(n, 16, b->rust) : __wrap_malloc(n);
    memcpy(q, p, b && b->size < n ? b->size : n);
    __wrap_free(p);
    return q;
}
int __wrap_posix_memalign(void **r, size_t align, size_t n) {
    *r = inlib ? obtain(n, align, 0) : aligned_alloc(align, (n + align - 1) / align * align); return 0;
}

/* input blocks */
static unsigned char *data[1000]; static long data_n[1000]; static long data_w[1000], data_h[1000];
static long in_bad;
static unsigned char *lend(long i) {
    unsigned char *base = __real_malloc(data_n[i] + 2 * GUARD);
    memset(base, 0xC3, data_n[i] + 2 * GUARD);
    memcpy(base + GUARD, data[i], data_n[i]);
    return base + GUARD;
}
static void take_back(unsigned char *p, long i) {
    if (memcmp(p, data[i], data_n[i])) in_bad++;
    for (int k = 0; k < GUARD; k++) if (p[k - GUARD] != 0xC3 || p[data_n[i] + k] != 0xC3) in_bad++;
    memset(p, 0x77, data_n[i]);
    __real_free(p - GUARD);
}
/* output blocks */
static long out_bad;
static unsigned char *out_new(size_t n, unsigned char fill) {
    unsigned char *base = __real_malloc(n + 2 * GUARD);
    memset(base, 0xC3, n + 2 * GUARD);
    memset(base + GUARD, fill, n);
    return base + GUARD;
}
static void out_check(unsigned char *p, size_t n) {
    for (int k = 0; k < GUARD; k++) if (p[k - GUARD] != 0xC3 || p[n + k] != 0xC3) out_bad++;
}
static void show(unsigned char *p, size_t n) {
    printf("[");
    for (size_t i = 0; i < n; i++) printf(i ? ",%d" : "%d", p[i]);
    printf("]");
}

static image_weights *W[10]; static decomposed_image *D[10]; static uint8_t *P[10]; static uint8_t PN[10];
static long num(void) { long x; if (scanf("%ld", &x) != 1) exit(3); return x; }

int main(void) {
    char op[16];
    static char outbuf[1 << 20];
    setvbuf(stdout, outbuf, _IOFBF, sizeof outbuf);
    long s = 0, k = 0;
    while (scanf("%15s", op) == 1) {
        if (!strcmp(op, "S")) { s = num(); k = 0; continue; }
        k++;
        printf("{\"s\":%ld,\"k\":%ld,", s, k);
        if (!strcmp(op, "data")) {              /* width height (or count 1) and bytes */
            long i = num(), w = num(), h = num(); long n = 3 * w * h;
            if (data[i]) __real_free(data[i]);
            data[i] = __real_malloc(n + 1); data_n[i] = n; data_w[i] = w; data_h[i] = h;
            for (long j = 0; j < n; j++) data[i][j] = num();
            printf("\"ev\":\"data\",\"i\":%ld", i);
        } else if (!strcmp(op, "newW")) {
            long h = num(), i = num(); unsigned char *p = lend(i);
            inlib = 1; W[h] = create_image_weights(data_w[i], data_h[i], p); inlib = 0;
            take_back(p, i);
            printf("\"ev\":\"newW\",\"h\":%ld,\"i\":%ld,\"null\":%d", h, i, !W[h]);
        } else if (!strcmp(op, "freeW")) {
            long h = num();
            inlib = 1; free_image_weights(W[h]); inlib = 0; W[h] = 0;
            printf("\"ev\":\"freeW\",\"h\":%ld", h);
        } else if (!strcmp(op, "newD")) {
            long h = num(), w = num(), i = num(); unsigned char *p = lend(i);
            inlib = 1; D[h] = create_decomposed_image(W[w], data_w[i], p); inlib = 0;
            take_back(p, i);
            printf("\"ev\":\"newD\",\"h\":%ld,\"w\":%ld,\"p\":%ld,\"null\":%d", h, w, i, !D[h]);
        } else if (!strcmp(op, "freeD")) {
            long h = num();
            inlib = 1; free_decomposed_image(D[h]); inlib = 0; D[h] = 0;
            printf("\"ev\":\"freeD\",\"h\":%ld", h);
        } else if (!strcmp(op, "newP")) {
            long h = num(), c = num(), i = num(), min = num(), max = num(), b = num(); unsigned char *p = lend(i);
            double bound = b < 0 ? -1.0 : b >= 1000000 ? 1e9 : b / 4.0 / 255.0;
            unsigned char *n = out_new(1, 0);
            inlib = 1; P[h] = compute_palette(data_w[i], data_h[i], p, min, max, bound, n); inlib = 0;
            take_back(p, i);
            PN[h] = *n; out_check(n, 1); __real_free(n - GUARD);
            printf("\"ev\":\"newP\",\"h\":%ld,\"c\":%ld,\"null\":%d,\"n\":%d,\"out\":", h, c, !P[h], PN[h]);
            show(P[h], P[h] ? 3 * PN[h] : 0);
        } else if (!strcmp(op, "seeP")) {
            long h = num();
            printf("\"ev\":\"seeP\",\"h\":%ld,\"out\":", h); show(P[h], 3 * PN[h]);
        } else if (!strcmp(op, "freeP")) {
            long h = num();
            inlib = 1; free_computed_palette(P[h], PN[h]); inlib = 0; P[h] = 0;
            printf("\"ev\":\"freeP\",\"h\":%ld", h);
        } else if (!strcmp(op, "size")) {
            long h = num();
            inlib = 1;
            long w = get_decomposed_image_width(D[h]), hh = get_decomposed_image_height(D[h]), n = get_decomposed_image_num_channels(D[h]);
            inlib = 0;
            printf("\"ev\":\"size\",\"h\":%ld,\"w\":%ld,\"hh\":%ld,\"n\":%ld", h, w, hh, n);
        } else if (!strcmp(op, "rec") || !strcmp(op, "gray")) {
            int rec = op[0] == 'r';
            long h = num(), x = num(), w = num(), hh = num();   /* size given by the client */
            size_t n = (rec ? 3 : 1) * w * hh;
            unsigned char *a = out_new(n, 0x11), *b = out_new(n, 0x22); int r1, r2;
            if (rec) {
                unsigned char *p = lend(x);
                inlib = 1; r1 = reconstruct_image(D[h], p, a); r2 = reconstruct_image(D[h], p, b); inlib = 0;
                take_back(p, x);
            } else {
                inlib = 1; r1 = grayscale_image_channel(D[h], x, a); r2 = grayscale_image_channel(D[h], x, b); inlib = 0;
            }
            out_check(a, n); out_check(b, n);
            int untouched = 1;
            for (size_t j = 0; j < n; j++) if (a[j] != 0x11 || b[j] != 0x22) untouched = 0;
            printf("\"ev\":\"%s\",\"h\":%ld,\"x\":%ld,\"ret\":%d,\"same\":%d,\"untouched\":%d,\"out\":", op, h, x, r1,
                   r1 == r2 && (!r1 || !memcmp(a, b, n)), untouched);
            show(a, r1 ? n : 0);
            __real_free(a - GUARD); __real_free(b - GUARD);
        } else if (!strcmp(op, "audit")) {
            audit();
            printf("\"ev\":\"audit\"");
        } else return 4;
        printf(",\"live\":%zu,\"bytes\":%zu,\"bad\":[%ld,%ld,%ld,%ld,%ld,%ld]}\n", live, live_bytes,
               bad_free, bad_layout, bad_guard, bad_quarantine, in_bad, out_bad);
        fflush(stdout);
    }
    return 0;
}
