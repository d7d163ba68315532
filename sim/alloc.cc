#include "alloc.h"
#include <cstdlib>
#include <new>
#include <unordered_set>
#include <cstring>

namespace {
bool w, hit; long at, n, ncalls;
// open hash of the blocks given out while watched
const int CAP = 1 << 14; void *tab[CAP]; long nlive;
int slot(void *p) { uint64_t h = (uint64_t)p * 0x9e3779b97f4a7c15ull >> 50; while (tab[h] && tab[h] != p) h = (h + 1) & (CAP - 1); return h; }
void put(void *p) { int i = slot(p); if (!tab[i]) { tab[i] = p; nlive++; } }
void del(void *p)
{
    int i = slot(p); if (!tab[i]) return;
    tab[i] = 0; nlive--;
    for (int j = (i + 1) & (CAP - 1); tab[j]; j = (j + 1) & (CAP - 1)) { void *q = tab[j]; tab[j] = 0; tab[slot(q)] = q; }
}
bool denied() { if (!w) return false; ncalls++; if (at && ++n == at) return hit = true; return false; }
}

namespace sim { namespace alloc {
void watch(bool v, long f) { w = v; if (v) { at = f; n = 0; hit = false; ncalls = 0; } }
bool failed() { return hit; }
long live() { return nlive; }
long calls() { return ncalls; }
#ifdef SIM_WRAP_MALLOC
bool on() { return true; }
#else
bool on() { return false; }
#endif
} }

#ifdef SIM_WRAP_MALLOC
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
void *__real_aligned_alloc(size_t, size_t);
void *__wrap_malloc(size_t s) { if (denied()) return 0; void *p = __real_malloc(s); if (w && p) put(p); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (denied()) return 0; void *p = __real_calloc(a, b); if (w && p) put(p); return p; }
void *__wrap_aligned_alloc(size_t a, size_t b) { if (denied()) return 0; void *p = __real_aligned_alloc(a, b); if (w && p) put(p); return p; }
void *__wrap_realloc(void *o, size_t s) { if (denied()) return 0; if (o) del(o); void *p = __real_realloc(o, s); if (w && p) put(p); return p; }
void __wrap_free(void *p) { if (w) ncalls++; if (p) del(p); __real_free(p); }
}
void *operator new(size_t s) { if (denied()) throw std::bad_alloc(); void *p = __real_malloc(s ? s : 1); if (!p) throw std::bad_alloc(); if (w) put(p); return p; }
void *operator new[](size_t s) { return operator new(s); }
void *operator new(size_t s, const std::nothrow_t &) noexcept { if (denied()) return 0; void *p = __real_malloc(s ? s : 1); if (w && p) put(p); return p; }
void *operator new[](size_t s, const std::nothrow_t &t) noexcept { return operator new(s, t); }
void operator delete(void *p) noexcept { if (w) ncalls++; if (p) del(p); __real_free(p); }
void operator delete[](void *p) noexcept { operator delete(p); }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
void operator delete[](void *p, size_t) noexcept { operator delete(p); }
#endif
