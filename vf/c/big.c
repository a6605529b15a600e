/* Sizes of 2 GB and more. Memory is mapped without being reserved, and only a
   few pages of it are ever touched. Prints one line per observation. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include "big.h"

static char small[1 << 16];
static uint8_t out[1 << 12];

static void *map(size_t n, int prot)
{
    size_t pages = (n + 4095) / 4096 * 4096;
    char *p = mmap(NULL, pages + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED || mprotect(p + 4096, pages, prot) != 0) {
        printf("nomap\n");
        exit(0);
    }
    return p + 4096 + pages - n;
}

/* A string of n bytes, made of one block that is mapped many times. */
static char *text(size_t n)
{
    size_t block = 1 << 22, i, pages = (n + 1 + block - 1) / block * block;
    int fd = memfd_create("text", 0);
    char *p, *b;
    if (fd < 0 || ftruncate(fd, (long)block) != 0) goto none;
    b = mmap(NULL, block, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    p = mmap(NULL, pages, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED || p == MAP_FAILED) goto none;
    memset(b, 'a', block);
    for (i = 0; i < pages; i += block) {
        if (mmap(p + i, block, PROT_READ | (i + block == pages ? PROT_WRITE : 0),
                 i + block == pages ? MAP_PRIVATE | MAP_FIXED : MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) goto none;
    }
    p[n] = 0;
    return p;
none:
    printf("nomap\n");
    exit(0);
}

static void fill(struct big_m_t *p)
{
    p->a = 7;
    p->s_p = "hello";
    p->b.buf_p = (uint8_t *)"xyz";
    p->b.size = 3;
    if (big_m_l_alloc(p, 3) != 0) exit(3);
    p->l.items_p[1] = -1;
}

static void hex(int rc)
{
    int i;
    printf("%d ", rc);
    for (i = 0; i < rc && i < 100; i++) printf("%02x", out[i]);
    printf("\n");
}

int main(int argc, char *argv[])
{
    size_t n = strtoull(argv[2], NULL, 0);
    struct big_m_t *p;
    static const uint8_t in[] = { 0x08, 0x07, 0x12, 0x01, 0x78 };
    (void)argc;
    if (strcmp(argv[1], "workspace") == 0) {
        char *ws = map(n, PROT_READ | PROT_WRITE);
        static const int lengths[] = { 1 << 28, (1 << 29) - 1, 1 << 29, 0x7fffffff };
        unsigned i;
        p = big_m_new(ws, n);
        if (p == NULL) { printf("new failed\n"); return 0; }
        fill(p);
        hex(big_m_encode(p, out, sizeof(out)));
        for (i = 0; i < 4; i++) {
            if ((size_t)lengths[i] * sizeof(*p->ms.items_p) > n && big_m_ms_alloc(p, lengths[i]) == 0)
                printf("list of %d messages allocated\n", lengths[i]);
            if ((size_t)lengths[i] * 8 > n && big_m_l_alloc(p, lengths[i]) == 0)
                printf("list of %d numbers allocated\n", lengths[i]);
            if ((size_t)lengths[i] * sizeof(char *) > n && big_m_ss_alloc(p, lengths[i]) == 0)
                printf("list of %d strings allocated\n", lengths[i]);
            if ((size_t)lengths[i] * sizeof(*p->bs.items_p) > n && big_m_bs_alloc(p, lengths[i]) == 0)
                printf("list of %d bytes allocated\n", lengths[i]);
        }
        if (big_m_ms_alloc(p, 2) != 0) printf("list of 2 not allocated\n");
        if ((char *)p->ms.items_p < ws || (char *)(p->ms.items_p + 2) > ws + n) printf("outside\n");
        printf("%d\n", big_m_decode(p, in, sizeof(in)));
        printf("%d %d %s\n", (int)(p->s_p >= ws && p->s_p < ws + n), p->a, p->s_p);
    } else if (strcmp(argv[1], "buffer") == 0) {
        uint8_t *buf = map(n, PROT_READ | PROT_WRITE);
        int rc;
        p = big_m_new(small, sizeof(small));
        fill(p);
        rc = big_m_encode(p, buf, n);
        if (rc > 0) memcpy(out, buf, rc < (int)sizeof(out) ? (size_t)rc : sizeof(out));
        hex(rc);
        p = big_m_new(small, sizeof(small));
        hex(big_m_encode(p, buf, n));
    } else if (strcmp(argv[1], "input") == 0) {
        uint8_t *buf = map(n, PROT_READ | PROT_WRITE);
        memcpy(buf, in, sizeof(in));
        p = big_m_new(small, sizeof(small));
        printf("%d\n", big_m_decode(p, buf, n));
    } else {
        int string = strcmp(argv[1], "strings") == 0;
        char *s = string ? text(n) : map(n, PROT_READ);
        struct pbtools_bytes_t b = { (uint8_t *)s, n };
        int where;
        for (where = 0; where < 6; where++) {
            struct big_m_t *q;
            p = big_m_new(small, sizeof(small));
            q = p;
            if (where == 4) { big_m_m_alloc(p); q = p->m_p; }
            if (where == 5) { if (big_m_ms_alloc(p, 1) != 0) exit(3); q = p->ms.items_p; }
            q->a = 5;
            switch (where) {
            case 1:
                if (string) { big_m_os_init(q); q->os_p = s; }
                else { big_m_ob_init(q); q->ob = b; }
                break;
            case 2:
                if (string) { if (big_m_ss_alloc(q, 2) != 0) exit(3); q->ss.items_pp[1] = s; }
                else { if (big_m_bs_alloc(q, 2) != 0) exit(3); q->bs.items_p[0] = b; }
                break;
            case 3:
                if (string) { q->ps.is_present = true; q->ps.value_p = s; }
                else { q->pb.is_present = true; q->pb.value = b; }
                break;
            default:
                if (string) q->s_p = s;
                else q->b = b;
                break;
            }
            hex(big_m_encode(p, out, sizeof(out)));
        }
    }
    return 0;
}
