/* The few C library functions that the driver, the generated code and the
   runtime need, for 32-bit builds (there is no 32-bit C library here). */
#ifndef VF_M32_LIBC_H
#define VF_M32_LIBC_H
#include <stddef.h>
#include <stdint.h>
typedef int ssize_t;
typedef long off_t;
void *memcpy(void *d, const void *s, size_t n);
void *memmove(void *d, const void *s, size_t n);
void *memset(void *d, int v, size_t n);
int memcmp(const void *a, const void *b, size_t n);
void *memchr(const void *a, int v, size_t n);
size_t strlen(const char *s);
size_t strnlen(const char *s, size_t n);
int strcmp(const char *a, const char *b);
int strncmp(const char *a, const char *b, size_t n);
char *strcpy(char *d, const char *s);
void *malloc(size_t n);
void *calloc(size_t a, size_t b);
void *realloc(void *p, size_t n);
void free(void *p);
void abort(void) __attribute__((noreturn));
void _exit(int rc) __attribute__((noreturn));
int atoi(const char *s);
void qsort(void *p, size_t n, size_t size, int (*cmp)(const void *, const void *));
int open(const char *path, int flags, ...);
int close(int fd);
ssize_t read(int fd, void *p, size_t n);
ssize_t write(int fd, const void *p, size_t n);
off_t lseek(int fd, off_t o, int whence);
#define SEEK_SET 0
#define SEEK_END 2
#define O_RDONLY 0
#define O_WRONLY 1
#define O_CREAT 0100
#define O_APPEND 02000
#define PROT_NONE 0
#define PROT_READ 1
#define PROT_WRITE 2
#define MAP_PRIVATE 2
#define MAP_ANONYMOUS 0x20
#define MAP_FAILED ((void *)-1)
void *mmap(void *p, size_t n, int prot, int flags, int fd, long off);
int munmap(void *p, size_t n);
int mprotect(void *p, size_t n, int prot);
#define SIGPIPE 13
#define SIGPROF 27
#define SIG_IGN ((void (*)(int))1)
void signal(int sig, void (*f)(int));
#define ITIMER_PROF 2
struct timeval { long tv_sec; long tv_usec; };
struct itimerval { struct timeval it_interval; struct timeval it_value; };
int setitimer(int which, const struct itimerval *t, struct itimerval *o);
#define assert(x) ((x) ? (void)0 : abort())
#endif
