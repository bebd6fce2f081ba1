/* Native replay of a scheduling counterexample: workers run as coroutines on one OS thread, and control may change hands at every
 * instrumented memory access of the real code (clang's thread-sanitizer instrumentation with this runtime instead of TSan's).
 * The schedule is drawn from a seed; seeds are tried in order until the violated assertion fails again, so the replay is deterministic. */
#ifndef VSCHED_H
#define VSCHED_H
#include <ucontext.h>
#include <sys/wait.h>
#include <unistd.h>
#include <pthread.h>
#define NOS __attribute__((no_sanitize("thread"), noinline))
#define MAXT 8
static struct { ucontext_t c; int used, done, joinwait; void *(*f)(void *); void *x; } co[MAXT];
static char stacks[MAXT][1 << 20] __attribute__((aligned(64)));
static int cur; static uint64_t rs; static unsigned prob, budget;
NOS static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned) (rs >> 20); }
NOS static int runnable(int k) { return co[k].used && !co[k].done && (co[k].joinwait < 0 || co[co[k].joinwait].done); }
NOS static void pick(int must)
{
    int n = 0, e[MAXT];
    for (int k = 0; k < MAXT; ++k) if (k != cur && runnable(k)) e[n++] = k;
    if (!n) { if (must) { fprintf(stderr, "ASSERTION FAILED: deadlock\n"); _exit(42); } return; }
    int o = cur; cur = e[rnd() % n]; swapcontext(&co[o].c, &co[cur].c);
}
NOS static void point(void) { if (co[1].used && budget && rnd() % prob == 0) { --budget; pick(0); } }
NOS static void tramp(int k) { co[k].f(co[k].x); co[k].done = 1; pick(1); }
NOS int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x)
{
    for (int k = 1; k < MAXT; ++k) if (!co[k].used) {
        getcontext(&co[k].c); co[k].c.uc_stack.ss_sp = stacks[k]; co[k].c.uc_stack.ss_size = sizeof(stacks[k]); co[k].c.uc_link = 0;
        co[k].used = 1; co[k].done = 0; co[k].joinwait = -1; co[k].f = f; co[k].x = x; makecontext(&co[k].c, (void (*)(void)) tramp, 1, k);
        *t = (pthread_t) k; point(); return 0; }
    return 11;
}
NOS int pthread_join(pthread_t t, void **r) { int k = (int) t; if (!co[k].done) { co[cur].joinwait = k; pick(1); co[cur].joinwait = -1; } co[k].used = 0; return 0; }
NOS int usleep(useconds_t u) { pick(0); return 0; }
NOS static void explore(void (*body)(void))
{
    for (unsigned seed = 1; seed < 4000; ++seed) {
        pid_t p = fork();
        if (!p) { rs = seed * 0x9E3779B97F4A7C15ull; prob = 1 + seed % 7; budget = 1 + seed / 7 % 6; for (int i = 0; i < 5; ++i) rnd(); co[0].used = 1; co[0].joinwait = -1; alarm(20); body(); _exit(0); }
        int st; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) == 42) { fprintf(stderr, "schedule seed %u\n", seed); exit(42); }
    }
}
#define P_(n) NOS void __tsan_read##n(void *p) { point(); } NOS void __tsan_write##n(void *p) { point(); } NOS void __tsan_unaligned_read##n(void *p) { point(); } NOS void __tsan_unaligned_write##n(void *p) { point(); } NOS void __tsan_read_write##n(void *p) { point(); } NOS void __tsan_unaligned_read_write##n(void *p) { point(); } NOS void __tsan_volatile_read##n(void *p) { point(); } NOS void __tsan_volatile_write##n(void *p) { point(); }
P_(1) P_(2) P_(4) P_(8) P_(16)
NOS void __tsan_init(void) {} NOS void __tsan_func_entry(void *p) {} NOS void __tsan_func_exit(void) {} NOS void __tsan_vptr_update(void **a, void *b) {} NOS void __tsan_vptr_read(void **a) {}
NOS void *__tsan_memcpy(void *a, const void *b, size_t n) { point(); for (size_t k = 0; k < n; ++k) ((volatile char *) a)[k] = ((const char *) b)[k]; return a; }
NOS void *__tsan_memmove(void *a, const void *b, size_t n) { point(); return memmove(a, b, n); }
NOS void *__tsan_memset(void *a, int c, size_t n) { point(); for (size_t k = 0; k < n; ++k) ((volatile char *) a)[k] = (char) c; return a; }
NOS void __tsan_atomic_thread_fence(int m) {} NOS void __tsan_atomic_signal_fence(int m) {}
#define A_(n, T) NOS T __tsan_atomic##n##_load(const volatile T *a, int m) { point(); return *a; } NOS void __tsan_atomic##n##_store(volatile T *a, T v, int m) { point(); *a = v; } \
 NOS T __tsan_atomic##n##_exchange(volatile T *a, T v, int m) { point(); T o = *a; *a = v; return o; } NOS T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int m) { point(); T o = *a; *a = o + v; return o; } \
 NOS T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int m) { point(); T o = *a; *a = o - v; return o; } NOS T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int m) { point(); T o = *a; *a = o & v; return o; } \
 NOS T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int m) { point(); T o = *a; *a = o | v; return o; } NOS T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int m) { point(); T o = *a; *a = o ^ v; return o; } \
 NOS int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int m, int f) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 NOS int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int m, int f) { point(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 NOS T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int m, int f) { point(); T o = *a; if (o == c) *a = v; return o; }
A_(8, uint8_t) A_(16, uint16_t) A_(32, uint32_t) A_(64, uint64_t)
#endif
