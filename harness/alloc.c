/* Counts the live heap blocks and bytes (plain build only). */
#include <stddef.h>
#include <stdatomic.h>
#include <malloc.h>
#include <errno.h>
#include <string.h>
extern void* __libc_malloc(size_t);
extern void __libc_free(void*);
extern void* __libc_calloc(size_t, size_t);
extern void* __libc_realloc(void*, size_t);
extern void* __libc_memalign(size_t, size_t);
static atomic_long blocks, bytes, peak, calls;
/* What the C library allocates for a thread is cached with its stack, how much of it depends on the
   timing: it is not counted. */
__thread int jps_in_create;
static _Atomic(void*) exempt[8192 + 4];
static unsigned slot(void* p) { return (unsigned)(((unsigned long)p >> 4) * 2654435761u >> 7) & 8191; }
static int exempted(void* p) {
    _Atomic(void*)* e = exempt + slot(p);
    for (int i = 0; i < 4; i++) { void* q = p; if (atomic_load_explicit(&e[i], memory_order_relaxed) == p && atomic_compare_exchange_strong(&e[i], &q, 0)) return 1; }
    return 0;
}
static int exempting(void* p) {
    if (!jps_in_create) return 0;
    _Atomic(void*)* e = exempt + slot(p);
    for (int i = 0; i < 4; i++) { void* q = 0; if (atomic_compare_exchange_strong(&e[i], &q, p)) return 1; }
    return 0;
}
static void up(void* p) {
    if (!p || exempting(p)) return;
    atomic_fetch_add(&blocks, 1); atomic_fetch_add(&calls, 1);
    long b = atomic_fetch_add(&bytes, (long)malloc_usable_size(p)) + (long)malloc_usable_size(p);
    long o = atomic_load(&peak);
    while (b > o && !atomic_compare_exchange_weak(&peak, &o, b)) ;
}
static void down(void* p) { if (p && !exempted(p)) { atomic_fetch_sub(&blocks, 1); atomic_fetch_sub(&bytes, (long)malloc_usable_size(p)); } }
/* fresh blocks hold garbage, so that a read of uninitialised memory shows in the results */
void* malloc(size_t n) { void* p = __libc_malloc(n); up(p); if (p) memset(p, 0xA5, n); return p; }
void free(void* p) { down(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); up(p); return p; }
void* realloc(void* q, size_t n) {
    if (!q) return malloc(n);
    down(q);
    void* p = __libc_realloc(q, n);
    if (p) up(p); else if (n) { up(q); atomic_fetch_sub(&calls, 1); }
    return p;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); up(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** r, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
long jps_live_blocks(void) { return atomic_load(&blocks); }
long jps_live_bytes(void) { return atomic_load(&bytes); }
long jps_peak_bytes(void) { return atomic_load(&peak); }
long jps_alloc_calls(void) { return atomic_load(&calls); }
void jps_peak_reset(void) { atomic_store(&peak, atomic_load(&bytes)); }
