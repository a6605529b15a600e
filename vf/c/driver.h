#ifndef VF_DRIVER_H
#define VF_DRIVER_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <stdalign.h>
#include <string.h>
#include <stdlib.h>
#include "pbtools.h"

struct rd_t { const uint8_t *p; const uint8_t *e; int bad; };
struct wr_t { uint8_t *buf; size_t len; size_t cap; uint64_t hash; int only_hash; };
struct iv_t { uintptr_t addr; size_t size; };
struct wk_t { const uint8_t *ws; size_t ws_size; int mode; struct iv_t *iv; int n; int cap; uint32_t mon; };
struct entry_t {
    const char *name;
    void *(*new_)(void *, size_t);
    int (*enc)(void *, uint8_t *, size_t);
    int (*dec)(void *, const uint8_t *, size_t);
    int (*ops)(void *, struct rd_t *);
    void (*dump)(void *, struct wr_t *);
    void (*walk)(void *, struct wk_t *);
    size_t size;
};
extern const struct entry_t entries[];
extern const int entries_length;

extern _Thread_local int in_lib;
#define lib(call) ({ in_lib = 1; __typeof__(call) lib_res_ = (call); in_lib = 0; lib_res_; })
#define lib_void(call) do { in_lib = 1; call; in_lib = 0; } while (0)

uint8_t rd_u8(struct rd_t *r);
uint16_t rd_u16(struct rd_t *r);
uint32_t rd_u32(struct rd_t *r);
uint64_t rd_u64(struct rd_t *r);
char *rd_str(struct rd_t *r);
void rd_f32(struct rd_t *r, void *p);
void rd_f64(struct rd_t *r, void *p);
void rd_bytes(struct rd_t *r, struct pbtools_bytes_t *b);
void wr_raw(struct wr_t *w, const void *p, size_t n);
void wr_u8(struct wr_t *w, int v);
void wr_u32(struct wr_t *w, uint32_t v);
void wr_u64(struct wr_t *w, uint64_t v);
void wr_f32(struct wr_t *w, const void *p);
void wr_f64(struct wr_t *w, const void *p);
void wr_str(struct wr_t *w, const char *s);
void wr_bytes(struct wr_t *w, const struct pbtools_bytes_t *b);
void wk_add(struct wk_t *k, const void *p, size_t size, size_t align);
void wk_str(struct wk_t *k, const char *s);
void wk_bytes(struct wk_t *k, const struct pbtools_bytes_t *b);
#endif
