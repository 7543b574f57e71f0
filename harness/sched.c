/*
 * Thread faults and schedules.  The code under test is compiled with
 * -Dpthread_create=jps_pthread_create, so that a run may refuse a thread, and
 * (build kinds "sched" and "tsan") with -finstrument-functions, so that every
 * function entry may yield and is counted into a fingerprint of the
 * interleaving.  This file is compiled without either.
 */
#include <pthread.h>
#include <errno.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdint.h>
#include <time.h>

unsigned long jps_sched_seed;      /* 0: no perturbation                */
unsigned long jps_fail_mask;       /* bit i: the i-th thread is refused */
int jps_threads_refused, jps_threads_started;

static atomic_uint last_tid;
static atomic_uint_fast64_t finger;
static atomic_uint switches, tids, entries;
static __thread unsigned me;
static __thread uint32_t prng;
static __thread uint32_t count;

static uint32_t rnd(void) { prng ^= prng << 13; prng ^= prng >> 17; prng ^= prng << 5; return prng; }
static void become(unsigned id) {
    me = id; prng = (uint32_t)(jps_sched_seed * 2654435761u + id * 40503u + 12345u) | 1; count = 0;
}
static void nap(unsigned us) { struct timespec ts = {0, us * 1000L}; nanosleep(&ts, 0); }

void jps_sched_reset(void) { atomic_store(&finger, 0); atomic_store(&switches, 0); atomic_store(&entries, 0); }
unsigned long jps_sched_finger(void) { return (unsigned long)atomic_load(&finger); }
unsigned jps_sched_switches(void) { return atomic_load(&switches); }
unsigned jps_sched_entries(void) { return atomic_load(&entries); }

void __cyg_profile_func_enter(void* fn, void* site) {
    if (!jps_sched_seed) return;
    if (!me) become(atomic_fetch_add_explicit(&tids, 1, memory_order_relaxed) + 1);
    count++;
    atomic_fetch_add_explicit(&entries, 1, memory_order_relaxed);
    unsigned was = atomic_exchange_explicit(&last_tid, me, memory_order_relaxed);
    if (was != me) {
        unsigned n = atomic_fetch_add_explicit(&switches, 1, memory_order_relaxed);
        uint64_t h = ((uint64_t)n << 40) ^ ((uint64_t)me << 32) ^ count;
        h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull;
        atomic_fetch_add_explicit(&finger, h, memory_order_relaxed);
    }
    uint32_t r = rnd();
    if ((r & 127) == 0) sched_yield();
    if ((r & 2047) == 1) nap(r >> 26);
}
void __cyg_profile_func_exit(void* fn, void* site) {}

typedef struct { void* (*fn)(void*); void* arg; } Start;
static Start starts[4096];
#ifdef JPS_COUNTED
extern __thread int jps_in_create;   /* alloc.c */
#else
static __thread int jps_in_create;
#endif
static void* trampoline(void* a) {
    Start* s = a;
    if (jps_sched_seed) {
        become(atomic_fetch_add_explicit(&tids, 1, memory_order_relaxed) + 1);
        nap(rnd() % 200);
    }
    return s->fn(s->arg);
}

static atomic_uint asked;
void jps_thread_reset(void) { atomic_store(&asked, 0); }
int jps_pthread_create(pthread_t* t, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
    unsigned i = atomic_fetch_add(&asked, 1);
    if (i < 64 && (jps_fail_mask >> i & 1)) { jps_threads_refused++; return EAGAIN; }
    jps_threads_started++;
    jps_in_create = 1;
    int rc;
    if (!jps_sched_seed) rc = pthread_create(t, at, fn, arg);
    else {
        Start* s = &starts[i % 4096]; s->fn = fn; s->arg = arg;
        rc = pthread_create(t, at, trampoline, s);
    }
    jps_in_create = 0;
    return rc;
}
