/* Executes a file of operations against the generated API of one schema and
   records what it observes. One result record per operation; a missing record
   means that the process died in that operation. */
#define _GNU_SOURCE
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#ifndef VF_M32
#include <pthread.h>
#endif
#include <sys/time.h>
#include <sys/mman.h>
#include "driver.h"

#if defined(__has_feature)
#  if __has_feature(memory_sanitizer)
#    define VF_MSAN 1
#    include <sanitizer/msan_interface.h>
#  endif
#endif

enum {
    M_WS_GUARD = 1, M_BUF_GUARD = 2, M_RANGE = 4, M_ALIGN = 8, M_OVERLAP = 16, M_MSG_CHANGED = 32,
    M_REPEAT = 64, M_IN_CHANGED = 128, M_ALLOC = 256, M_REENC = 512, M_AFTERFREE = 1024,
    M_WS_TOUCHED = 2048, M_RC = 4096, M_THREAD = 8192, M_GREW = 16384
};

_Thread_local int in_lib;
static int alloc_in_lib;

/* No heap memory may be used by the generated code and the runtime. */
#ifdef VF_WRAP
void *__real_malloc(size_t n);
void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n);
void __real_free(void *p);
void *__wrap_malloc(size_t n) { if (in_lib) alloc_in_lib = 1; return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { if (in_lib) alloc_in_lib = 1; return __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { if (in_lib) alloc_in_lib = 1; return __real_realloc(p, n); }
void __wrap_free(void *p) { if (in_lib) alloc_in_lib = 1; __real_free(p); }
char *__wrap_strdup(const char *s)
{
    char *p = __wrap_malloc(strlen(s) + 1);
    return strcpy(p, s);
}
#endif

static int differ(const void *a, const void *b, size_t n)
{
    return (n > 0) && (memcmp(a, b, n) != 0);
}

static void die(const char *what)
{
    (void)!write(2, "VF_HARNESS_ERROR ", 17);
    (void)!write(2, what, strlen(what));
    (void)!write(2, "\n", 1);
    _exit(97);
}

static void *xmalloc(size_t n)
{
    void *p = malloc(n == 0 ? 1 : n);
    if (p == NULL) die("memory");
    return p;
}

#if defined(__SANITIZE_ADDRESS__)
#  define VF_ASAN 1
#elif defined(__has_feature)
#  if __has_feature(address_sanitizer)
#    define VF_ASAN 1
#  endif
#endif
#ifdef VF_ASAN
#  include <sanitizer/asan_interface.h>
#endif

/* Whole pages between two that can't be accessed, and that can be made read
   only. The block is at the end of them, or up to 15 bytes from it if it has
   to be aligned. */
struct pages_t { uint8_t *map; size_t size; uint8_t *p; size_t slack; };

#define PAGE 4096
#define PAGES(n) ((n) == 0 ? PAGE : ((n) + 15 + PAGE - 1) / PAGE * PAGE)

static uint8_t *pages_make(struct pages_t *g, size_t n, int aligned)
{
    size_t inner = PAGES(n);
    g->size = inner + 2 * PAGE;
    g->map = mmap(NULL, g->size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (g->map == MAP_FAILED) die("mmap");
    if (mprotect(g->map + PAGE, inner, PROT_READ | PROT_WRITE) != 0) die("mprotect");
    g->p = g->map + PAGE + inner - n;
    if (aligned) g->p -= (uintptr_t)g->p & 15;
    g->slack = (size_t)(g->map + PAGE + inner - (g->p + n));
#ifdef VF_ASAN
    __asan_poison_memory_region(g->p + n, g->slack);
#endif
    return g->p;
}

static void pages_protect(struct pages_t *g, int prot)
{
    if (mprotect(g->map + PAGE, g->size - 2 * PAGE, prot) != 0) die("mprotect");
}

static void pages_free(struct pages_t *g)
{
#ifdef VF_ASAN
    __asan_unpoison_memory_region(g->map, g->size);
#endif
    munmap(g->map, g->size);
}

/* Exactly sized block, so that a sanitizer, or the page after it, sees any
   byte outside. */
static void *exact(size_t n)
{
#ifdef VF_M32
    struct pages_t g;
    return pages_make(&g, n, 0);
#else
    void *p = malloc(n);
    if (p == NULL) die("memory");
    return p;
#endif
}

static void exact_free(void *p, size_t n)
{
#ifdef VF_M32
    size_t inner = PAGES(n);
    munmap((uint8_t *)p + n - inner - PAGE, inner + 2 * PAGE);
#else
    (void)n;
    free(p);
#endif
}

/* Half of all blocks are in pages; which ones depends on the operation only. */
static int choose(size_t a, size_t b, size_t c)
{
#ifdef VF_M32
    return 1;
#endif
    return (int)((((a * 2654435761u) ^ (b * 40503u) ^ (c * 2246822519u)) >> 13) & 1);
}

/* ---------------------------------------------------------------- streams */

static const void *take(struct rd_t *r, size_t n)
{
    const void *p = r->p;
    if ((size_t)(r->e - r->p) < n) die("short operation stream");
    r->p += n;
    return p;
}

uint8_t rd_u8(struct rd_t *r) { return *(const uint8_t *)take(r, 1); }
uint16_t rd_u16(struct rd_t *r) { uint16_t v; memcpy(&v, take(r, 2), 2); return v; }
uint32_t rd_u32(struct rd_t *r) { uint32_t v; memcpy(&v, take(r, 4), 4); return v; }
uint64_t rd_u64(struct rd_t *r) { uint64_t v; memcpy(&v, take(r, 8), 8); return v; }
void rd_f32(struct rd_t *r, void *p) { uint32_t v = (uint32_t)rd_u64(r); memcpy(p, &v, 4); }
void rd_f64(struct rd_t *r, void *p) { uint64_t v = rd_u64(r); memcpy(p, &v, 8); }

/* User data lives in separately allocated blocks, freed per operation. */
struct ext_t { struct ext_t *next; void *p; };
static _Thread_local struct ext_t *exts;

static void *ext_alloc(size_t n)
{
    struct ext_t *e = xmalloc(sizeof(*e));
    e->p = xmalloc(n);
    e->next = exts;
    exts = e;
    return e->p;
}

static void ext_free(void)
{
    while (exts != NULL) {
        struct ext_t *e = exts;
        exts = e->next;
        free(e->p);
        free(e);
    }
}

char *rd_str(struct rd_t *r)
{
    uint32_t n = rd_u32(r);
    char *p;
    (void)rd_u8(r);
    p = ext_alloc(n + 1);
    memcpy(p, take(r, n), n);
    p[n] = 0;
    return p;
}

void rd_bytes(struct rd_t *r, struct pbtools_bytes_t *b)
{
    uint32_t n = rd_u32(r);
    int null = rd_u8(r);
    b->size = n;
    if (n == 0 && null) {
        b->buf_p = NULL;
    } else {
        b->buf_p = ext_alloc(n);
        memcpy(b->buf_p, take(r, n), n);
    }
}

void wr_raw(struct wr_t *w, const void *p, size_t n)
{
    const uint8_t *b = p;
    size_t i;
    if (w->only_hash) {
        for (i = 0; i < n; i++) {
            w->hash = (w->hash ^ b[i]) * 1099511628211ULL;
        }
        w->len += n;
        return;
    }
    if (w->len + n > w->cap) {
        w->cap = (w->len + n) * 2 + 256;
        w->buf = realloc(w->buf, w->cap);
        if (w->buf == NULL) die("memory");
    }
    if (n > 0) memcpy(w->buf + w->len, p, n);
    w->len += n;
}

void wr_u8(struct wr_t *w, int v) { uint8_t b = (uint8_t)v; wr_raw(w, &b, 1); }
void wr_u32(struct wr_t *w, uint32_t v) { wr_raw(w, &v, 4); }
void wr_u64(struct wr_t *w, uint64_t v) { wr_raw(w, &v, 8); }
void wr_f32(struct wr_t *w, const void *p) { uint32_t v; memcpy(&v, p, 4); wr_u64(w, v); }
void wr_f64(struct wr_t *w, const void *p) { uint64_t v; memcpy(&v, p, 8); wr_u64(w, v); }
void wr_str(struct wr_t *w, const char *s)
{
    size_t n = strlen(s);
    wr_u32(w, (uint32_t)n);
    wr_raw(w, s, n);
}
void wr_bytes(struct wr_t *w, const struct pbtools_bytes_t *b)
{
    wr_u32(w, (uint32_t)b->size);
    if (b->size > 0) wr_raw(w, b->buf_p, b->size);
}

static void wr_init(struct wr_t *w, int only_hash)
{
    memset(w, 0, sizeof(*w));
    w->only_hash = only_hash;
    w->hash = 14695981039346656037ULL;
}

static void wr_blob(struct wr_t *w, const void *p, size_t n)
{
    wr_u32(w, (uint32_t)n);
    wr_raw(w, p, n);
}

/* ---------------------------------------------------------- memory walker */

static int inside(struct wk_t *k, const void *p, size_t size)
{
    uintptr_t a = (uintptr_t)p, b = (uintptr_t)k->ws;
    return a >= b && a + size <= b + k->ws_size;
}

static void wk_push(struct wk_t *k, const void *p, size_t size)
{
    if (k->n == k->cap) {
        k->cap = k->cap * 2 + 64;
        k->iv = realloc(k->iv, (size_t)k->cap * sizeof(*k->iv));
        if (k->iv == NULL) die("memory");
    }
    k->iv[k->n].addr = (uintptr_t)p;
    k->iv[k->n].size = size;
    k->n++;
}

void wk_add(struct wk_t *k, const void *p, size_t size, size_t align)
{
    if (!inside(k, p, size)) k->mon |= M_RANGE;
    if (((uintptr_t)p & (align - 1)) != 0) k->mon |= M_ALIGN;
    if (size > 0) wk_push(k, p, size);
}

/* mode 0: decoded message (strings and bytes must be in the workspace, or be
   empty); mode 1: built message (user data may be anywhere). */
void wk_str(struct wk_t *k, const char *s)
{
    size_t n = strlen(s) + 1;
    if (inside(k, s, n)) wk_push(k, s, n);
    else if (inside(k, s, 1) || (k->mode == 0 && n > 1)) k->mon |= M_RANGE;
}

void wk_bytes(struct wk_t *k, const struct pbtools_bytes_t *b)
{
    if (b->size == 0) return;
    if (inside(k, b->buf_p, b->size)) wk_push(k, b->buf_p, b->size);
    else if (k->mode == 0) k->mon |= M_RANGE;
}

static int iv_cmp(const void *a, const void *b)
{
    const struct iv_t *x = a, *y = b;
    return (x->addr > y->addr) - (x->addr < y->addr);
}

static uint32_t walk(const struct entry_t *e, void *msg, const uint8_t *ws, size_t ws_size, int mode)
{
    struct wk_t k;
    int i;
    memset(&k, 0, sizeof(k));
    k.ws = ws;
    k.ws_size = ws_size;
    k.mode = mode;
    e->walk(msg, &k);
    qsort(k.iv, (size_t)k.n, sizeof(*k.iv), iv_cmp);
    for (i = 1; i < k.n; i++) {
        if (k.iv[i - 1].addr + k.iv[i - 1].size > k.iv[i].addr) k.mon |= M_OVERLAP;
    }
    free(k.iv);
    return k.mon;
}

/* -------------------------------------------------------------- workspace */

struct ws_t { uint8_t *block; uint8_t *ws; size_t size; size_t off; int paged; struct pages_t pages; };

/* The workspace ends exactly at the end of a heap block; off shifts its
   start. Bytes before it are guard bytes. */
static void ws_make(struct ws_t *s, size_t size, size_t off, int poison)
{
    s->off = off + 16;
    s->paged = choose(size, off, (size_t)poison);
    s->block = s->paged ? pages_make(&s->pages, size + s->off, 1) : exact(size + s->off);
    s->ws = s->block + s->off;
    s->size = size;
    memset(s->block, 0xd7, s->off);
    if (poison >= 0) {
        memset(s->ws, poison, size);
        if (poison == 0x5a) {
            size_t i;
            for (i = 0; i < size; i++) s->ws[i] = (uint8_t)(i * 167 + 13);
        }
    }
#ifdef VF_MSAN
    __msan_poison(s->ws, size);
#endif
}

static uint32_t ws_check(struct ws_t *s)
{
    size_t i;
    for (i = 0; i < s->off; i++) {
        if (s->block[i] != 0xd7) return M_WS_GUARD;
    }
    return 0;
}

static void ws_free(struct ws_t *s)
{
    if (s->paged) pages_free(&s->pages);
    else exact_free(s->block, s->size + s->off);
}

/* Encoding does not write to the message and its workspace, not even for a
   moment. */
static void ws_freeze(struct ws_t *s, int frozen)
{
    if (s->paged) pages_protect(&s->pages, frozen ? PROT_READ : (PROT_READ | PROT_WRITE));
}

/* Leaves junk on the stack so that uninitialised locals differ. */
static __attribute__((noinline)) void dirty_stack(int v)
{
    volatile uint8_t junk[4096];
    size_t i;
    for (i = 0; i < sizeof(junk); i++) junk[i] = (uint8_t)v;
}

/* --------------------------------------------------------------- encoding */

#define GUARD 32

/* Encodes into an exactly sized buffer, watching its surroundings (the
   sanitizer build sees the end, the guard bytes the rest). */
static int encode_into(const struct entry_t *e, void *msg, size_t size, int fill, uint8_t **out_pp,
                       uint32_t *mon_p)
{
    uint8_t *block = exact(size + GUARD);
    uint8_t *buf = block + GUARD;
    int rc;
    size_t i;
    memset(block, 0xc3, GUARD);
    memset(buf, fill, size);
#ifdef VF_MSAN
    __msan_poison(buf, size);
#endif
    dirty_stack(fill);
    rc = lib(e->enc(msg, buf, size));
    for (i = 0; i < GUARD; i++) {
        if (block[i] != 0xc3) *mon_p |= M_BUF_GUARD;
    }
    if (rc > (int)size) {
        *mon_p |= M_RC;
        rc = -2000;
    }
    *out_pp = NULL;
    if (rc >= 0) {
        *out_pp = xmalloc((size_t)rc);
        memcpy(*out_pp, buf, (size_t)rc);
    }
    exact_free(block, size + GUARD);
    return rc;
}

/* Encode with all the purity monitors. */
static int encode_watched(const struct entry_t *e, void *msg, struct ws_t *ws, size_t cap, uint8_t **out_pp,
                          uint32_t *mon_p)
{
    struct wr_t before, after;
    uint8_t *snap, *second;
    int rc, rc2;
    wr_init(&before, 0);
    wr_init(&after, 0);
    e->dump(msg, &before);
    snap = xmalloc(ws->size);
    memcpy(snap, ws->ws, ws->size);
    ws_freeze(ws, 1);
    rc = encode_into(e, msg, cap, 0x00, out_pp, mon_p);
    ws_freeze(ws, 0);
#ifndef VF_MSAN
    if (memcmp(snap, ws->ws, ws->size) != 0) *mon_p |= M_WS_TOUCHED;
#endif
    free(snap);
    rc2 = encode_into(e, msg, rc >= 0 ? (size_t)rc + 9 : cap, 0xff, &second, mon_p);
    if (rc != rc2 || (rc > 0 && memcmp(*out_pp, second, (size_t)rc) != 0)) *mon_p |= M_REPEAT;
    free(second);
    e->dump(msg, &after);
    if (before.len != after.len || differ(before.buf, after.buf, before.len)) *mon_p |= M_MSG_CHANGED;
    free(before.buf);
    free(after.buf);
    return rc;
}

static void *new_watched(const struct entry_t *e, struct ws_t *s, uint32_t *mon_p)
{
    void *msg;
    dirty_stack(0xee);
    msg = lib(e->new_(s->ws, s->size));
    *mon_p |= ws_check(s);
    if (msg != NULL) *mon_p |= walk(e, msg, s->ws, s->size, 0);
    return msg;
}

/* ------------------------------------------------------------- operations */

static void do_decode_common(const struct entry_t *e, struct rd_t *r, struct wr_t *w, uint32_t ws_size,
                             int off, int poison)
{
    uint32_t n = rd_u32(r);
    const uint8_t *data = take(r, n);
    uint32_t cap = rd_u32(r);
    struct ws_t s;
    uint32_t mon = 0;
    uint8_t *in, *in_block, *out = NULL;
    void *msg;
    int rc = -3000, enc = -3000;
    struct wr_t d1, d2;
    struct pages_t pages;
    int paged;

    wr_init(&d1, 0);
    wr_init(&d2, 0);
    ws_make(&s, ws_size, (size_t)off, poison);
    /* The input ends at the end of its block and may start anywhere. */
    paged = choose(n, (size_t)off + 1, (size_t)poison);
    in_block = paged ? pages_make(&pages, n, 0) : exact(n + ((size_t)off & 7));
    in = paged ? in_block : in_block + ((size_t)off & 7);
    if (n > 0) memcpy(in, data, n);
    msg = new_watched(e, &s, &mon);
    if (msg != NULL) {
        dirty_stack(0x99);
        /* The input can't be written. */
        if (paged) pages_protect(&pages, PROT_READ);
        rc = lib(e->dec(msg, in, n));
        if (paged) pages_protect(&pages, PROT_READ | PROT_WRITE);
        if (n > 0 && memcmp(in, data, n) != 0) mon |= M_IN_CHANGED;
        mon |= ws_check(&s);
        if (rc >= 0) {
            e->dump(msg, &d1);
            mon |= walk(e, msg, s.ws, s.size, 0);
        }
    }
    if (n > 0) memset(in, 0xa5, n);
    if (paged) pages_free(&pages);
    else exact_free(in_block, n + ((size_t)off & 7));
    if (rc >= 0) {
        e->dump(msg, &d2);
        if (d1.len != d2.len || differ(d1.buf, d2.buf, d1.len)) mon |= M_AFTERFREE;
        enc = encode_watched(e, msg, &s, cap, &out, &mon);
        mon |= ws_check(&s);
    }
    if (alloc_in_lib) mon |= M_ALLOC;
    wr_u8(w, msg != NULL);
    wr_u32(w, (uint32_t)rc);
    wr_u32(w, mon);
    wr_blob(w, d1.buf, d1.len);
    wr_u32(w, (uint32_t)enc);
    wr_blob(w, out, enc > 0 ? (size_t)enc : 0);
    free(d1.buf);
    free(d2.buf);
    free(out);
    ws_free(&s);
}

static void do_build(const struct entry_t *e, struct rd_t *r, struct wr_t *w, uint32_t ws_size, int off,
                     int poison)
{
    uint32_t cap = rd_u32(r);
    uint32_t ws2 = rd_u32(r);
    uint32_t nchunks = rd_u16(r);
    uint32_t ndata = rd_u32(r);
    const uint8_t *data = NULL;
    struct ws_t s, s2;
    uint32_t mon = 0, i;
    void *msg, *msg2;
    int rc = 0;

    if (ndata != 0xffffffffu) data = take(r, ndata);
    ws_make(&s, ws_size, (size_t)off, poison);
    msg = new_watched(e, &s, &mon);
    wr_u8(w, msg != NULL);
    if (msg != NULL && data != NULL) {
        uint8_t *in = exact(ndata);
        if (ndata > 0) memcpy(in, data, ndata);
        rc = lib(e->dec(msg, in, ndata));
        exact_free(in, ndata);
    }
    wr_u32(w, (uint32_t)rc);
    for (i = 0; i < nchunks; i++) {
        struct wr_t d;
        uint8_t *out = NULL, *re = NULL;
        int ops, enc = -3000, dec = -3000, reenc = -3000;
        uint32_t len = rd_u32(r);
        struct rd_t rr = { r->p, r->p + len, 0 };
        struct wr_t d2;
        (void)take(r, len);
        wr_init(&d, 0);
        wr_init(&d2, 0);
        ops = -3000;
        if (msg != NULL && rc >= 0) {
            dirty_stack(0x77);
            ops = e->ops(msg, &rr);
            if (ops == 0 && rr.p != rr.e) die("operation stream not consumed");
            if (ops <= -1000) mon |= M_RC;
            mon |= ws_check(&s);
        }
        if (ops == 0) {
            mon |= walk(e, msg, s.ws, s.size, 1);
            e->dump(msg, &d);
            enc = encode_watched(e, msg, &s, cap, &out, &mon);
            mon |= ws_check(&s);
        }
        if (enc >= 0 && ws2 > 0) {
            ws_make(&s2, ws2, (size_t)off, poison);
            msg2 = new_watched(e, &s2, &mon);
            if (msg2 != NULL) {
                uint8_t *in = exact((size_t)enc);
                if (enc > 0) memcpy(in, out, (size_t)enc);
                dec = lib(e->dec(msg2, in, (size_t)enc));
                exact_free(in, (size_t)enc);
                mon |= ws_check(&s2);
                if (dec >= 0) {
                    mon |= walk(e, msg2, s2.ws, s2.size, 0);
                    e->dump(msg2, &d2);
                    reenc = encode_into(e, msg2, (size_t)enc, 0x3c, &re, &mon);
                    if (reenc != enc || (enc > 0 && memcmp(out, re, (size_t)enc) != 0)) mon |= M_REENC;
                }
            }
            ws_free(&s2);
        }
        if (alloc_in_lib) mon |= M_ALLOC;
        wr_u32(w, (uint32_t)ops);
        wr_blob(w, d.buf, d.len);
        wr_u32(w, (uint32_t)enc);
        wr_blob(w, out, enc > 0 ? (size_t)enc : 0);
        wr_u32(w, (uint32_t)dec);
        wr_blob(w, d2.buf, d2.len);
        wr_u32(w, (uint32_t)reenc);
        free(d.buf);
        free(d2.buf);
        free(out);
        free(re);
    }
    wr_u32(w, mon);
    ws_free(&s);
    ext_free();
}

static void do_encsweep(const struct entry_t *e, struct rd_t *r, struct wr_t *w, uint32_t ws_size, int off,
                        int poison)
{
    uint32_t cap = rd_u32(r);
    uint32_t lo = rd_u32(r), hi = rd_u32(r);
    struct ws_t s;
    uint32_t mon = 0, i;
    void *msg;
    uint8_t *ref = NULL, *out = NULL;
    int rc = -3000, ops = -3000;
    struct wr_t before, after;

    ws_make(&s, ws_size, (size_t)off, poison);
    msg = new_watched(e, &s, &mon);
    if (msg != NULL) ops = e->ops(msg, r);
    wr_u8(w, msg != NULL);
    wr_u32(w, (uint32_t)ops);
    if (ops == 0) rc = encode_into(e, msg, cap, 0, &ref, &mon);
    wr_u32(w, (uint32_t)rc);
    wr_blob(w, ref, rc > 0 ? (size_t)rc : 0);
    wr_init(&before, 1);
    wr_init(&after, 1);
    if (ops == 0) e->dump(msg, &before);
    if (hi > (uint32_t)(rc < 0 ? 0 : rc) + 40) hi = (uint32_t)(rc < 0 ? 0 : rc) + 40;
    if (ops != 0) hi = lo;
    wr_u32(w, hi - lo);
    for (i = lo; i < hi; i++) {
        int k = encode_into(e, msg, i, (int)(i & 0xff), &out, &mon);
        if (k >= 0 && (k != rc || (k > 0 && memcmp(out, ref, (size_t)k) != 0))) mon |= M_REPEAT;
        if (i == 0 && lib(e->enc(msg, NULL, 0)) != k) mon |= M_REPEAT;
        free(out);
        wr_u32(w, (uint32_t)k);
    }
    if (ops == 0) e->dump(msg, &after);
    if (before.hash != after.hash) mon |= M_MSG_CHANGED;
    if (alloc_in_lib) mon |= M_ALLOC;
    wr_u32(w, mon);
    free(ref);
    ws_free(&s);
    ext_free();
}

static void do_wssweep(const struct entry_t *e, struct rd_t *r, struct wr_t *w, int off, int poison)
{
    int kind = rd_u8(r);
    uint32_t lo = rd_u32(r), hi = rd_u32(r), step = rd_u32(r), n = rd_u32(r), i;
    const uint8_t *data = take(r, n);
    uint32_t mon = 0;

    wr_u32(w, lo >= hi ? 0 : (hi - lo + step - 1) / step);
    for (i = lo; i < hi; i += step) {
        struct ws_t s;
        void *msg;
        int rc = -3000;
        uint64_t hash = 0;
        struct wr_t d;
        ws_make(&s, i, (size_t)off, poison);
        msg = new_watched(e, &s, &mon);
        if (msg != NULL) {
            if (kind == 0) {
                uint8_t *in = exact(n);
                if (n > 0) memcpy(in, data, n);
                rc = lib(e->dec(msg, n == 0 && (i & 1) ? NULL : in, n));
                exact_free(in, n);
                if (rc >= 0) mon |= walk(e, msg, s.ws, s.size, 0);
            } else {
                struct rd_t rr = { data, data + n, 0 };
                rc = e->ops(msg, &rr);
                if (rc <= -1000) mon |= M_RC;
                if (rc == 0) mon |= walk(e, msg, s.ws, s.size, 1);
            }
            if (rc >= 0) {
                wr_init(&d, 1);
                e->dump(msg, &d);
                hash = d.hash;
            }
        }
        mon |= ws_check(&s);
        wr_u8(w, msg != NULL);
        wr_u32(w, (uint32_t)rc);
        wr_u64(w, hash);
        ws_free(&s);
        ext_free();
    }
    if (alloc_in_lib) mon |= M_ALLOC;
    wr_u32(w, mon);
}

/* ---------------------------------------------------------------- threads */

#ifndef VF_M32

struct job_t {
    const struct entry_t *e;
    const uint8_t *data; uint32_t n;     /* own decode input */
    uint32_t ws_size; uint32_t rounds; uint32_t cap;
    void *shared; const struct entry_t *se;  /* message shared by all threads */
    const uint8_t *expect; int expect_n;
    const uint8_t *sexpect; int sexpect_n;
    const uint8_t *bops; uint32_t bn;    /* own building steps */
    const uint8_t *bexpect; int bexpect_n;
    uint64_t shash;
    uint32_t mon; uint32_t done; uint32_t seed;
    pthread_barrier_t *barrier_p;
};

static void *job_main(void *arg)
{
    struct job_t *j = arg;
    uint32_t k;
    uint8_t *buf = xmalloc(j->cap);
    uint8_t *ws = xmalloc(j->ws_size);
    uint32_t rnd = j->seed;

    pthread_barrier_wait(j->barrier_p);
    for (k = 0; k < j->rounds; k++) {
        void *m;
        int rc;
        struct wr_t d;
        rnd = rnd * 1103515245u + 12345u;
        if ((rnd >> 16) % 5 == 0) usleep((rnd >> 20) % 60);
        /* Own message, own workspace. */
        m = j->e->new_(ws, j->ws_size);
        if (m == NULL) { j->mon |= M_THREAD; break; }
        rc = j->e->dec(m, j->data, j->n);
        if (rc != (int)j->n) j->mon |= M_THREAD;
        rc = j->e->enc(m, buf, j->cap);
        if (rc != j->expect_n || differ(buf, j->expect, (size_t)rc)) j->mon |= M_THREAD;
        /* Too small buffers and truncated input: error paths. */
        if (j->expect_n > 1 && (j->e->enc(m, buf, (size_t)j->expect_n - 1) >= 0)) j->mon |= M_THREAD;
        m = j->e->new_(ws, j->ws_size);
        if (j->n > 1) (void)j->e->dec(m, j->data, j->n - 1);
        (void)pbtools_error_code_to_string(-(int)(rnd >> 28));
        /* Built by hand. */
        m = j->e->new_(ws, j->ws_size);
        if (m == NULL) { j->mon |= M_THREAD; break; }
        {
            struct rd_t rr = { j->bops, j->bops + j->bn, 0 };
            if (j->e->ops(m, &rr) != 0) j->mon |= M_THREAD;
            rc = j->e->enc(m, buf, j->cap);
            if (rc != j->bexpect_n || differ(buf, j->bexpect, (size_t)rc)) j->mon |= M_THREAD;
            ext_free();
        }
        /* Shared, read only. */
        rc = j->se->enc(j->shared, buf, j->cap);
        if (rc != j->sexpect_n || differ(buf, j->sexpect, (size_t)rc)) j->mon |= M_THREAD;
        wr_init(&d, 1);
        j->se->dump(j->shared, &d);
        if (d.hash != j->shash) j->mon |= M_THREAD;
        j->done++;
    }
    free(buf);
    free(ws);
    return NULL;
}

static void do_threads(struct rd_t *r, struct wr_t *w, uint32_t ws_size, int poison)
{
    /* shared: entry, data; then per thread: entry, data */
    uint32_t nthreads = rd_u32(r), rounds = rd_u32(r), cap = rd_u32(r), i, n;
    uint16_t si = rd_u16(r);
    const struct entry_t *se = &entries[si];
    struct job_t *jobs = xmalloc(nthreads * sizeof(*jobs));
    pthread_t *ids = xmalloc(nthreads * sizeof(*ids));
    pthread_barrier_t barrier;
    struct ws_t s;
    void *shared;
    uint8_t *sref = xmalloc(cap);
    int srefn;
    uint32_t mon = 0, done = 0;
    struct wr_t d;
    const uint8_t *sdata;

    n = rd_u32(r);
    sdata = take(r, n);
    ws_make(&s, ws_size, 0, poison);
    shared = se->new_(s.ws, s.size);
    if (shared == NULL || se->dec(shared, sdata, n) != (int)n) mon |= M_THREAD;
    srefn = se->enc(shared, sref, cap);
    if (srefn < 0) mon |= M_THREAD;
    wr_init(&d, 1);
    se->dump(shared, &d);
    pthread_barrier_init(&barrier, NULL, nthreads);
    for (i = 0; i < nthreads; i++) {
        struct job_t *j = &jobs[i];
        struct ws_t t;
        void *m;
        uint8_t *ref = xmalloc(cap);
        memset(j, 0, sizeof(*j));
        j->e = &entries[rd_u16(r)];
        j->n = rd_u32(r);
        j->data = take(r, j->n);
        ws_make(&t, ws_size, 0, poison);
        m = j->e->new_(t.ws, t.size);
        if (m == NULL || j->e->dec(m, j->data, j->n) != (int)j->n) mon |= M_THREAD;
        j->expect_n = j->e->enc(m, ref, cap);
        if (j->expect_n < 0) mon |= M_THREAD;
        j->expect = ref;
        ref = xmalloc(cap);
        j->bn = rd_u32(r);
        j->bops = take(r, j->bn);
        m = j->e->new_(t.ws, t.size);
        if (m == NULL) {
            mon |= M_THREAD;
        } else {
            struct rd_t rr = { j->bops, j->bops + j->bn, 0 };
            if (j->e->ops(m, &rr) != 0) mon |= M_THREAD;
            j->bexpect_n = j->e->enc(m, ref, cap);
            if (j->bexpect_n < 0) mon |= M_THREAD;
            ext_free();
        }
        j->bexpect = ref;
        ws_free(&t);
        j->ws_size = ws_size; j->rounds = rounds; j->cap = cap;
        j->shared = shared; j->se = se; j->sexpect = sref; j->sexpect_n = srefn; j->shash = d.hash;
        j->barrier_p = &barrier; j->seed = i * 77 + 5;
    }
    if (mon == 0) {
        for (i = 0; i < nthreads; i++) {
            if (pthread_create(&ids[i], NULL, job_main, &jobs[i]) != 0) die("thread");
        }
        for (i = 0; i < nthreads; i++) pthread_join(ids[i], NULL);
        for (i = 0; i < nthreads; i++) {
            mon |= jobs[i].mon;
            done += jobs[i].done;
        }
    }
    for (i = 0; i < nthreads; i++) {
        free((void *)jobs[i].expect);
        free((void *)jobs[i].bexpect);
    }
    free(jobs);
    free(ids);
    free(sref);
    ws_free(&s);
    wr_u32(w, mon);
    wr_u32(w, done);
}

#endif

/* Several messages alive at once, used in turns. Every one must behave as
   when it is alone. */
static void do_turns(struct rd_t *r, struct wr_t *w, uint32_t ws_size, int poison)
{
    uint32_t n = rd_u16(r), rounds = rd_u16(r), cap = rd_u32(r), seed = rd_u32(r), i, k;
    struct turn_t {
        const struct entry_t *e; const uint8_t *data; uint32_t n; struct ws_t s; void *msg;
        uint8_t *ref; int refn; uint64_t hash; int rc;
    } *t = xmalloc((n + 1) * sizeof(*t));
    uint32_t mon = 0, done = 0;
    struct wr_t d;

    for (i = 0; i < n; i++) {
        struct turn_t *p = &t[i];
        p->e = &entries[rd_u16(r)];
        p->n = rd_u32(r);
        p->data = take(r, p->n);
        ws_make(&p->s, ws_size, i % 8, poison);
        p->msg = p->e->new_(p->s.ws, p->s.size);
        p->rc = p->msg == NULL ? -3000 : p->e->dec(p->msg, p->data, p->n);
        p->ref = NULL;
        p->refn = -3000;
        p->hash = 0;
        if (p->rc >= 0) {
            wr_init(&d, 1);
            p->e->dump(p->msg, &d);
            p->hash = d.hash;
            p->refn = encode_into(p->e, p->msg, cap, 0, &p->ref, &mon);
        }
    }
    /* All again in fresh workspaces, in turns. */
    for (i = 0; i < n; i++) {
        ws_free(&t[i].s);
        ws_make(&t[i].s, ws_size, (i + 3) % 8, poison ^ 0x33);
    }
    for (i = 0; i < n; i++) t[i].msg = t[i].e->new_(t[i].s.ws, t[i].s.size);
    for (i = n; i-- > 0;) {
        if (t[i].msg != NULL && t[i].e->dec(t[i].msg, t[i].data, t[i].n) != t[i].rc) mon |= M_THREAD;
    }
    for (k = 0; k < rounds && n > 0; k++) {
        struct turn_t *p;
        seed = seed * 1103515245u + 12345u;
        p = &t[(seed >> 8) % n];
        if (p->rc < 0) continue;
        done++;
        switch ((seed >> 20) % 4) {
        case 0: {
            uint8_t *out;
            int rc = encode_into(p->e, p->msg, (size_t)(p->refn < 0 ? (int)cap : p->refn) + (seed >> 24) % 4, 0x11,
                                 &out, &mon);
            if (rc != p->refn || (rc > 0 && memcmp(out, p->ref, (size_t)rc) != 0)) mon |= M_REPEAT;
            free(out);
            break;
        }
        case 1:
            wr_init(&d, 1);
            p->e->dump(p->msg, &d);
            if (d.hash != p->hash) mon |= M_MSG_CHANGED;
            break;
        case 2:
            /* The workspace is used for a new message. */
            p->msg = p->e->new_(p->s.ws, p->s.size);
            if (p->msg == NULL || p->e->dec(p->msg, p->data, p->n) != p->rc) mon |= M_THREAD;
            break;
        default: {
            uint8_t *out;
            if (p->refn > 0) {
                int rc = encode_into(p->e, p->msg, (size_t)p->refn - 1, 0x22, &out, &mon);
                if (rc >= 0) mon |= M_RC;
                free(out);
            }
            break;
        }
        }
    }
    for (i = 0; i < n; i++) {
        if (t[i].rc >= 0) {
            wr_init(&d, 1);
            t[i].e->dump(t[i].msg, &d);
            if (d.hash != t[i].hash) mon |= M_MSG_CHANGED;
        }
        mon |= ws_check(&t[i].s);
        ws_free(&t[i].s);
        free(t[i].ref);
    }
    free(t);
    wr_u32(w, mon);
    wr_u32(w, done);
}

/* ------------------------------------------------------------------- main */

static void hang(int sig)
{
    (void)sig;
    (void)!write(2, "VF_HANG\n", 8);
    _exit(98);
}

#ifdef VF_FUZZ

static void fuzz_fail(const char *what, uint32_t mon)
{
    fprintf(stderr, "VF_MONITOR %s %u\n", what, mon);
    abort();
}

/* Coverage guided fuzzing. Bytes: entry, workspace size class, offset, then
   the input to decode. */
int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static const uint32_t sizes[] = { 0, 16, 64, 100, 200, 400, 1000, 3000, 10000, 1 << 16, 1 << 18, 1 << 16 };
    const struct entry_t *e;
    struct ws_t s;
    uint32_t mon = 0, ws_size;
    uint8_t *in, *out = NULL;
    void *msg;
    int rc, enc;
    struct wr_t d;

    if (size < 3) return 0;
    e = &entries[data[0] % entries_length];
    ws_size = sizes[data[1] % 12] + (data[1] >> 4);
    ws_make(&s, ws_size, data[2] & 7, data[2] & 8 ? 0xff : 0x5a);
    data += 3;
    size -= 3;
    in = exact(size);
    if (size > 0) memcpy(in, data, size);
    msg = new_watched(e, &s, &mon);
    if (msg != NULL) {
        rc = e->dec(msg, in, size);
        if (size > 0 && memcmp(in, data, size) != 0) mon |= M_IN_CHANGED;
        mon |= ws_check(&s);
        if (rc > 0 && (size_t)rc != size) mon |= M_RC;
        if (rc == 0 && size != 0) mon |= M_RC;
        if (rc < -8 || rc == -4) mon |= M_RC;
        if (size > 0) memset(in, 0xa5, size);
        if (rc >= 0) {
            wr_init(&d, 1);
            e->dump(msg, &d);
            mon |= walk(e, msg, s.ws, s.size, 0);
            enc = encode_into(e, msg, size * 3 + 4096, 0x00, &out, &mon);
            free(out);
            if (enc > 0) {
                int again = encode_into(e, msg, (size_t)enc - 1, 0x11, &out, &mon);
                if (again >= 0) mon |= M_RC;
                free(out);
            }
            mon |= ws_check(&s);
        }
    }
    exact_free(in, size);
    ws_free(&s);
    if (mon != 0) fuzz_fail("monitors", mon);
    return 0;
}

#else

int main(int argc, const char *argv[])
{
    long size, have = 0;
    uint8_t *ops;
    struct rd_t r;
    int in, out;
    uint32_t skip;
    int cpu = 30;

    if (argc < 4) die("usage: driver OPS RESULTS SKIP");
    if (argc > 4) cpu = atoi(argv[4]);
    in = open(argv[1], O_RDONLY);
    if (in < 0) die("ops file");
    size = lseek(in, 0, SEEK_END);
    lseek(in, 0, SEEK_SET);
    ops = xmalloc((size_t)size);
    while (have < size) {
        ssize_t n = read(in, ops + have, (size_t)(size - have));
        if (n <= 0) die("read");
        have += n;
    }
    close(in);
    skip = (uint32_t)atoi(argv[3]);
    out = open(argv[2], O_WRONLY | O_CREAT | O_APPEND, 0600);
    signal(SIGPROF, hang);
    signal(SIGPIPE, SIG_IGN);
    r.p = ops;
    r.e = ops + size;
    r.bad = 0;
    while (r.p < r.e) {
        uint32_t len = rd_u32(&r);
        struct rd_t o;
        struct wr_t w;
        struct itimerval t;
        int op, off, poison;
        uint16_t ei;
        uint32_t ws_size, n32;
        const struct entry_t *e;
        o.p = take(&r, len);
        o.e = o.p + len;
        o.bad = 0;
        if (skip > 0) { skip--; continue; }
        memset(&t, 0, sizeof(t));
        t.it_value.tv_sec = cpu;
        setitimer(ITIMER_PROF, &t, NULL);
        alloc_in_lib = 0;
        op = rd_u8(&o);
        ei = rd_u16(&o);
        ws_size = rd_u32(&o);
        off = rd_u8(&o);
        poison = (int)(int16_t)rd_u16(&o);
        if (ei >= entries_length) die("entry");
        e = &entries[ei];
        wr_init(&w, 0);
        wr_u32(&w, 0);
        switch (op) {
        case 1: do_build(e, &o, &w, ws_size, off, poison); break;
        case 2: do_decode_common(e, &o, &w, ws_size, off, poison); break;
        case 3: do_encsweep(e, &o, &w, ws_size, off, poison); break;
        case 4: do_wssweep(e, &o, &w, off, poison); break;
#ifndef VF_M32
        case 5: do_threads(&o, &w, ws_size, poison); break;
#endif
        case 8: do_turns(&o, &w, ws_size, poison); break;
        case 6: wr_u32(&w, (uint32_t)e->size); wr_u32(&w, (uint32_t)sizeof(struct pbtools_heap_t)); break;
        case 7: wr_blob(&w, pbtools_error_code_to_string((int)ws_size),
                        strlen(pbtools_error_code_to_string((int)ws_size))); break;
        default: die("op");
        }
        n32 = (uint32_t)(w.len - 4);
        memcpy(w.buf, &n32, 4);
        if (write(out, w.buf, w.len) != (ssize_t)w.len) die("write");
        free(w.buf);
    }
    (void)!write(out, "\xff\xff\xff\xff", 4);
    return 0;
}

#endif
