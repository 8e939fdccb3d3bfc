/* LD_PRELOAD: counts allocations, and makes chosen ones fail.
 * MEMFAIL_LOG=file: "number caller-hash size" per allocation; MEMFAIL_AT=n: the n-th fails; MEMFAIL_FROM=n: it and all later ones;
 * MEMFAIL_BIG=bytes: requests of at least so many bytes fail; MEMFAIL_SPACE=kb: address space limited to
 * what is in use at the start and so much more. */
#define _GNU_SOURCE
#include <errno.h>
#include <execinfo.h>
#include <fcntl.h>
#include <stdio.h>
#include <sys/resource.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern void *__libc_malloc(size_t), *__libc_calloc(size_t, size_t), *__libc_realloc(void *, size_t), *__libc_memalign(size_t, size_t);
static long at, from, count;
static size_t big;
static int ready, inside, fd = -1;
static char buf[1 << 16];
static int fill;
static long number(const char *name) { const char *s = getenv(name); return s ? atol(s) : 0; }
static void flush(void) { if (fd >= 0 && fill) { if (write(fd, buf, fill) < 0) {} fill = 0; } }
__attribute__((constructor)) static void begin(void)
{
    const char *s = getenv("MEMFAIL_LOG");
    void *a[2];
    at = number("MEMFAIL_AT"); from = number("MEMFAIL_FROM"); big = number("MEMFAIL_BIG");
    if (s) { fd = open(s, O_WRONLY | O_CREAT | O_TRUNC, 0666); backtrace(a, 2); if (fd >= 0 && fd < 200) { int k = fcntl(fd, F_DUPFD_CLOEXEC, 200); if (k >= 0) { close(fd); fd = k; } } }
    if (number("MEMFAIL_SPACE") > 0)
    {
        /* grow the stack first: its growth is not an allocation that could be checked */
        volatile char room[1 << 20]; size_t i; long pages = 0; FILE *f; struct rlimit l;
        for (i = 0; i < sizeof room; i += 1024) room[i] = 1;
        f = fopen("/proc/self/statm", "r");
        if (f) { if (fscanf(f, "%ld", &pages) != 1) pages = 0; fclose(f); }
        if (pages > 0) { l.rlim_cur = l.rlim_max = pages * 4096 + number("MEMFAIL_SPACE") * 1024; setrlimit(RLIMIT_AS, &l); }
    }
    ready = 1;
}
__attribute__((destructor)) static void end(void) { flush(); }
static int fails(size_t size)
{
    if (!ready || inside) return 0;
    count++;
    if (fd >= 0)
    {
        void *a[12]; unsigned long h = 5381; int i, n;
        inside = 1;
        n = backtrace(a, 12);
        for (i = 2; i < n; i++) h = h * 33 ^ ((unsigned long) a[i] & 0xfffffff);
        if (fill > (int) sizeof buf - 100) flush();
        fill += snprintf(buf + fill, 99, "%ld %lx %zu\n", count, h, size);
        inside = 0;
    }
    if ((at && count == at) || (from && count >= from) || (big && size >= big)) { errno = ENOMEM; return 1; }
    return 0;
}
void *malloc(size_t n) { return fails(n) ? NULL : __libc_malloc(n); }
void *calloc(size_t n, size_t m) { return fails(n * m) ? NULL : __libc_calloc(n, m); }
void *realloc(void *p, size_t n) { return fails(n) ? NULL : __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { return fails(n) ? NULL : __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { return fails(n) ? NULL : __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { void *q = fails(n) ? NULL : __libc_memalign(a, n); if (!q) return ENOMEM; *p = q; return 0; }
