// --wrap'ed allocator: counts and (on request) fails the allocations made by library code.
#include "alloc.h"
#include <malloc.h>
#include <cstdlib>
#include <cerrno>
thread_local AllocState g_alloc;
extern "C" {
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
void __real_free(void *); int __real_posix_memalign(void **, size_t, size_t); void *__real_aligned_alloc(size_t, size_t);
static inline bool deny() {
  AllocState &a = g_alloc;
  if (!a.in_lib) return false;
  a.count++;
  if (a.fail_at < 0) return false;
  if (a.fail_at == 0) { a.failed++; if (!a.fail_persist) a.fail_at = -1; errno = ENOMEM; return true; }
  a.fail_at--; return false;
}
static inline void *got(void *p) {
  AllocState &a = g_alloc;
  if (p && a.in_lib) { a.live++; a.bytes += (long)malloc_usable_size(p); if (a.bytes > a.peak) a.peak = a.bytes; }
  return p;
}
void *__wrap_malloc(size_t n) { if (deny()) return 0; return got(__real_malloc(n)); }
void *__wrap_calloc(size_t n, size_t m) { if (deny()) return 0; return got(__real_calloc(n, m)); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { if (deny()) return ENOMEM; int r = __real_posix_memalign(p, a, n); if (!r) got(*p); return r; }
void *__wrap_aligned_alloc(size_t a, size_t n) { if (deny()) return 0; return got(__real_aligned_alloc(a, n)); }
void *__wrap_realloc(void *p, size_t n) {
  if (deny()) return 0;
  AllocState &a = g_alloc;
  long old = p && a.in_lib ? (long)malloc_usable_size(p) : 0;
  void *q = __real_realloc(p, n);
  if (a.in_lib && (q || n == 0)) { if (p) { a.live--; a.bytes -= old; } got(q); }
  return q;
}
void __wrap_free(void *p) {
  AllocState &a = g_alloc;
  if (p && a.in_lib) { a.live--; a.bytes -= (long)malloc_usable_size(p); }
  __real_free(p);
}
}
