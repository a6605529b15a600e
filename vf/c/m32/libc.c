#include "libc.h"

int sys6(int n, long a, long b, long c, long d, long e, long f);
__asm__("sys6:\n\tpush %ebp\n\tpush %edi\n\tpush %esi\n\tpush %ebx\n\t"
        "mov 20(%esp), %eax\n\tmov 24(%esp), %ebx\n\tmov 28(%esp), %ecx\n\tmov 32(%esp), %edx\n\t"
        "mov 36(%esp), %esi\n\tmov 40(%esp), %edi\n\tmov 44(%esp), %ebp\n\tint $0x80\n\t"
        "pop %ebx\n\tpop %esi\n\tpop %edi\n\tpop %ebp\n\tret\n");

void *memmove(void *d, const void *s, size_t n)
{
    uint8_t *x = d;
    const uint8_t *y = s;
    if (x < y) while (n-- > 0) *x++ = *y++;
    else while (n-- > 0) x[n] = y[n];
    return d;
}

/* Overlapping blocks are an error of the caller. */
void *memcpy(void *d, const void *s, size_t n)
{
    if (n > 0 && (uintptr_t)d < (uintptr_t)s + n && (uintptr_t)s < (uintptr_t)d + n && d != s) abort();
    return memmove(d, s, n);
}

void *memset(void *d, int v, size_t n)
{
    uint8_t *x = d;
    while (n-- > 0) *x++ = (uint8_t)v;
    return d;
}

int memcmp(const void *a, const void *b, size_t n)
{
    const uint8_t *x = a, *y = b;
    for (; n > 0; n--, x++, y++) if (*x != *y) return *x - *y;
    return 0;
}

void *memchr(const void *a, int v, size_t n)
{
    const uint8_t *x = a;
    for (; n > 0; n--, x++) if (*x == (uint8_t)v) return (void *)x;
    return NULL;
}

size_t strlen(const char *s)
{
    size_t n = 0;
    while (s[n] != 0) n++;
    return n;
}

size_t strnlen(const char *s, size_t m)
{
    size_t n = 0;
    while (n < m && s[n] != 0) n++;
    return n;
}

int strcmp(const char *a, const char *b)
{
    while (*a != 0 && *a == *b) { a++; b++; }
    return (uint8_t)*a - (uint8_t)*b;
}

int strncmp(const char *a, const char *b, size_t n)
{
    for (; n > 0 && *a != 0 && *a == *b; n--) { a++; b++; }
    return n == 0 ? 0 : (uint8_t)*a - (uint8_t)*b;
}

char *strcpy(char *d, const char *s)
{
    return memcpy(d, s, strlen(s) + 1);
}

int atoi(const char *s)
{
    int v = 0;
    while (*s >= '0' && *s <= '9') v = v * 10 + *s++ - '0';
    return v;
}

/* Heap sort. */
static void swap(uint8_t *a, uint8_t *b, size_t n)
{
    while (n-- > 0) { uint8_t t = a[n]; a[n] = b[n]; b[n] = t; }
}

static void sift(uint8_t *p, size_t i, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
    for (;;) {
        size_t c = 2 * i + 1;
        if (c >= n) return;
        if (c + 1 < n && cmp(p + c * size, p + (c + 1) * size) < 0) c++;
        if (cmp(p + i * size, p + c * size) >= 0) return;
        swap(p + i * size, p + c * size, size);
        i = c;
    }
}

void qsort(void *p, size_t n, size_t size, int (*cmp)(const void *, const void *))
{
    size_t i;
    for (i = n / 2; i-- > 0;) sift(p, i, n, size, cmp);
    for (i = n; i-- > 1;) {
        swap(p, (uint8_t *)p + i * size, size);
        sift(p, 0, i, size, cmp);
    }
}

int open(const char *path, int flags, ...) { return sys6(5, (long)path, flags, 0600, 0, 0, 0); }
int close(int fd) { return sys6(6, fd, 0, 0, 0, 0, 0); }
ssize_t read(int fd, void *p, size_t n) { return sys6(3, fd, (long)p, (long)n, 0, 0, 0); }
ssize_t write(int fd, const void *p, size_t n) { return sys6(4, fd, (long)p, (long)n, 0, 0, 0); }
off_t lseek(int fd, off_t o, int w) { return sys6(19, fd, o, w, 0, 0, 0); }
void _exit(int rc) { for (;;) sys6(252, rc, 0, 0, 0, 0, 0); }
void abort(void) { for (;;) __builtin_trap(); }
int munmap(void *p, size_t n) { return sys6(91, (long)p, (long)n, 0, 0, 0, 0); }
int mprotect(void *p, size_t n, int prot) { return sys6(125, (long)p, (long)n, prot, 0, 0, 0); }
int setitimer(int which, const struct itimerval *t, struct itimerval *o)
{
    return sys6(104, which, (long)t, (long)o, 0, 0, 0);
}

void *mmap(void *p, size_t n, int prot, int flags, int fd, long off)
{
    int r = sys6(192, (long)p, (long)n, prot, flags, fd, off / 4096);
    return r < 0 && r > -4096 ? MAP_FAILED : (void *)r;
}

void signal(int sig, void (*f)(int))
{
    struct { void (*f)(int); unsigned long flags; void (*restorer)(void); unsigned long mask[2]; } a = { f, 0, 0, { 0, 0 } };
    sys6(174, sig, (long)&a, 0, 8, 0, 0);
}

/* Blocks of powers of two with a list of free ones each. */
struct block_t { struct block_t *next; size_t k; size_t pad[2]; };
static struct block_t *blocks[32];
static uint8_t *chunk;
static size_t chunk_left;

void *malloc(size_t n)
{
    size_t k = 5, size;
    struct block_t *b;
    if (n > 0x30000000) return NULL;
    while (((size_t)1 << k) < n + sizeof(*b)) k++;
    b = blocks[k];
    if (b != NULL) {
        blocks[k] = b->next;
    } else {
        size = (size_t)1 << k;
        if (size > chunk_left) {
            chunk_left = size > (1 << 22) ? size : (1 << 22);
            chunk = mmap(NULL, chunk_left, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (chunk == MAP_FAILED) { chunk_left = 0; return NULL; }
        }
        b = (struct block_t *)chunk;
        chunk += size;
        chunk_left -= size;
    }
    b->k = k;
    return b + 1;
}

void free(void *p)
{
    struct block_t *b;
    if (p == NULL) return;
    b = (struct block_t *)p - 1;
    b->next = blocks[b->k];
    blocks[b->k] = b;
}

void *calloc(size_t a, size_t b)
{
    void *p = malloc(a * b);
    return p == NULL ? p : memset(p, 0, a * b);
}

void *realloc(void *p, size_t n)
{
    void *q = malloc(n);
    if (p != NULL && q != NULL) {
        size_t old = ((size_t)1 << ((struct block_t *)p - 1)->k) - sizeof(struct block_t);
        memcpy(q, p, old < n ? old : n);
        free(p);
    }
    return q;
}

int main(int argc, const char *argv[]);

__attribute__((used)) static void start(long *sp)
{
    _exit(main((int)sp[0], (const char **)(sp + 1)));
}

__asm__(".globl _start\n_start:\n\tmov %esp, %eax\n\txor %ebp, %ebp\n\tand $-16, %esp\n\tsub $12, %esp\n\tpush %eax\n\tcall start\n");
