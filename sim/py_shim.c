/* The allocator of the C library as the Python module finds it: every block is
 * filled with garbage, ends at an inaccessible page, and is accounted for. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <errno.h>
#include <sys/mman.h>
#define EXPORT __attribute__((visibility("default")))

static struct { void *p, *base; size_t n, map; } blk[4096];
static int nblk; static long calls, bad, fail_at, failed; static uint32_t rnd = 1;

EXPORT long sim_live(void) { long n = 0; for (int i = 0; i < nblk; i++) n += blk[i].p != 0; return n; }
EXPORT long sim_calls(void) { return calls; }
EXPORT long sim_bad(void) { return bad; }
EXPORT long sim_failed(void) { return failed; }
EXPORT void sim_fail_at(long n) { fail_at = n; failed = 0; }

static void *get(size_t n, size_t align, int zero)
{
    calls++;
    if (fail_at && !--fail_at) { failed++; errno = ENOMEM; return 0; }
    int i = 0; while (i < nblk && blk[i].p) i++;
    if (i >= 4096 || n > (64u << 20)) { errno = ENOMEM; return 0; }
    size_t map = ((n + align + 4095) & ~(size_t)4095) + 4096;
    uint8_t *b = mmap(0, map, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (b == MAP_FAILED) { errno = ENOMEM; return 0; }
    mprotect(b + map - 4096, 4096, PROT_NONE);
    uint8_t *p = (uint8_t *)((uintptr_t)(b + map - 4096 - n) & ~(uintptr_t)(align - 1));
    for (size_t k = 0; k < n; k++) p[k] = zero ? 0 : (rnd = rnd * 1664525 + 1013904223) >> 24;
    if (i == nblk) nblk++;
    blk[i].p = p; blk[i].base = b; blk[i].n = n; blk[i].map = map;
    return p;
}

static int find(void *p) { for (int i = 0; i < nblk; i++) if (blk[i].p == p) return i; return -1; }

EXPORT void *malloc(size_t n) { return get(n, 8, 0); }
EXPORT void *calloc(size_t n, size_t m) { return get(n * m, 8, 1); }
EXPORT void *aligned_alloc(size_t a, size_t n) { return get(n, a < 8 ? 8 : a, 0); }
EXPORT int posix_memalign(void **p, size_t a, size_t n) { return (*p = get(n, a, 0)) ? 0 : ENOMEM; }
EXPORT void free(void *p)
{
    if (!p) return;
    int i = find(p);
    if (i < 0) { bad++; return; }
    munmap(blk[i].base, blk[i].map); blk[i].p = 0;
}
EXPORT void *realloc(void *p, size_t n)
{
    int i = p ? find(p) : -1;
    if (p && i < 0) { bad++; return 0; }
    void *q = get(n, 8, 0);
    if (q && p) { memcpy(q, p, blk[i].n < n ? blk[i].n : n); free(p); }
    return q;
}
