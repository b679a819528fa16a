#define _GNU_SOURCE
#include "mc.h"
#include "conc.h"
#include <ucontext.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <pthread.h>
#define NT 4
#define STK (256 * 1024)
static struct { ucontext_t c; char *stk; void (*f)(int); int arg, live; pthread_mutex_t *wait; } T[NT];
static ucontext_t top; static int nt;
int conc_self = -1; unsigned long conc_points;
/* mutexes: owner by address */
static struct { pthread_mutex_t *m; int owner; } M[32]; static int nm;
static int *own(pthread_mutex_t *m) { int i; for (i = 0; i < nm; i++) if (M[i].m == m) return &M[i].owner; if (nm == 32) mc_internal("too many mutexes"); M[nm].m = m; M[nm].owner = -1; return &M[nm++].owner; }
static int runnable(int i) { return T[i].live && (!T[i].wait || *own(T[i].wait) < 0); }
static void body(int i) { T[i].f(T[i].arg); T[i].live = 0; swapcontext(&T[i].c, &top); }
void conc_thread(void (*f)(int), int arg) { int i = nt++; if (!T[i].stk) T[i].stk = malloc(STK); T[i].f = f; T[i].arg = arg; T[i].live = 1; T[i].wait = NULL; getcontext(&T[i].c); T[i].c.uc_stack.ss_sp = T[i].stk; T[i].c.uc_stack.ss_size = STK; T[i].c.uc_link = &top; makecontext(&T[i].c, (void (*)(void))body, 1, i); }
static int next_thread;
void conc_run(void)
{
    int i, cur = -1; nm = 0; conc_points = 0;
    while (1) {
        int en[NT], n = 0, k;
        if (cur >= 0 && T[cur].live && next_thread >= 0) { cur = next_thread; next_thread = -1; }
        else {
            for (i = 0; i < nt; i++) if (runnable(i)) en[n++] = i;
            if (!n) { for (i = 0; i < nt; i++) mc_check(!T[i].live, "deadlock: thread %d waits for a mutex for ever", i); break; }
            k = mc_choose(n, "run thread"); cur = en[k];
        }
        next_thread = -1; conc_self = cur;
        mc_log("--- thread %d", cur);
        swapcontext(&top, &T[cur].c);
        conc_self = -1;
    }
    for (i = 0; i < nm; i++) mc_check(M[i].owner < 0, "a mutex stays locked");
    nt = 0;
}
void conc_abort(void) { nt = 0; conc_self = -1; }
void conc_point(const char *what)
{
    int en[NT], n = 0, i, k;
    if (conc_self < 0) return;
    if (++conc_points > 200000) mc_fail("the threads do not finish");
    if (mc_dev_left() <= 0) return;
    for (i = 0; i < nt; i++) if (i != conc_self && runnable(i)) en[n++] = i;
    if (!n) return;
    k = mc_dev(n + 1, "%s: preempt thread %d", what, conc_self);
    if (k) { int s = conc_self; next_thread = en[k - 1]; swapcontext(&T[s].c, &top); }
}
static void block(pthread_mutex_t *m) { int s = conc_self; T[s].wait = m; while (*own(m) >= 0) { next_thread = -1; swapcontext(&T[s].c, &top); } T[s].wait = NULL; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m)
{
    int *o;
    if (conc_self < 0) return 0;
    conc_point("lock");
    o = own(m); if (*o == conc_self) return EDEADLK;
    block(m); *own(m) = conc_self; mc_log("thread %d locks", conc_self);
    return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { if (conc_self < 0) return 0; conc_point("trylock"); if (*own(m) >= 0) return EBUSY; *own(m) = conc_self; return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int *o; if (conc_self < 0) return 0; o = own(m); if (*o != conc_self) return EPERM; *o = -1; mc_log("thread %d unlocks", conc_self); conc_point("unlock"); return 0; }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const void *a) { memset(m, 0, sizeof(*m)); return 0; }
int __wrap_pthread_mutex_destroy(pthread_mutex_t *m) { return 0; }
/* instrumented accesses */
static void acc(void *p, const char *w) { int s = conc_self; if (s < 0) return; if ((char *)p >= T[s].stk && (char *)p < T[s].stk + STK) return; conc_point(w); }
void __tsan_init(void) {} void __tsan_func_entry(void *p) {} void __tsan_func_exit(void) {}
#define A(n) void __tsan_read##n(void *p) { acc(p, "read"); } void __tsan_write##n(void *p) { acc(p, "write"); } void __tsan_unaligned_read##n(void *p) { acc(p, "read"); } void __tsan_unaligned_write##n(void *p) { acc(p, "write"); } void __tsan_volatile_read##n(void *p) { acc(p, "read"); } void __tsan_volatile_write##n(void *p) { acc(p, "write"); }
A(1) A(2) A(4) A(8) A(16)
void __tsan_read_range(void *p, size_t n) { acc(p, "read"); } void __tsan_write_range(void *p, size_t n) { acc(p, "write"); }
void __tsan_vptr_update(void *a, void *b) {} void __tsan_vptr_read(void *a) {}
#define AT(n, t) t __tsan_atomic##n##_load(const volatile t *a, int mo) { acc((void *)a, "atomic load"); return *a; } void __tsan_atomic##n##_store(volatile t *a, t v, int mo) { acc((void *)a, "atomic store"); *a = v; } \
 t __tsan_atomic##n##_exchange(volatile t *a, t v, int mo) { t o; acc((void *)a, "atomic"); o = *a; *a = v; return o; } t __tsan_atomic##n##_fetch_add(volatile t *a, t v, int mo) { t o; acc((void *)a, "atomic"); o = *a; *a += v; return o; } \
 t __tsan_atomic##n##_fetch_sub(volatile t *a, t v, int mo) { t o; acc((void *)a, "atomic"); o = *a; *a -= v; return o; } t __tsan_atomic##n##_fetch_and(volatile t *a, t v, int mo) { t o; acc((void *)a, "atomic"); o = *a; *a &= v; return o; } \
 t __tsan_atomic##n##_fetch_or(volatile t *a, t v, int mo) { t o; acc((void *)a, "atomic"); o = *a; *a |= v; return o; } \
 int __tsan_atomic##n##_compare_exchange_strong(volatile t *a, t *c, t v, int mo, int f) { acc((void *)a, "atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##n##_compare_exchange_weak(volatile t *a, t *c, t v, int mo, int f) { acc((void *)a, "atomic"); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) {}
/* bulk operations of the instrumented code: a scheduling point before, in the middle and after */
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) { size_t h = n / 2; if (conc_self < 0 || n < 2) { if (conc_self >= 0) conc_point("memcpy"); return __real_memcpy(d, s, n); } conc_point("memcpy"); __real_memcpy(d, s, h); conc_point("memcpy"); __real_memcpy((char *)d + h, (const char *)s + h, n - h); return d; }
void *__real_memset(void *d, int c, size_t n);
void *__wrap_memset(void *d, int c, size_t n) { size_t h = n / 2; if (conc_self < 0) return __real_memset(d, c, n); conc_point("memset"); __real_memset(d, c, h); conc_point("memset"); return __real_memset(d, c, n); }
int __real_memcmp(const void *a, const void *b, size_t n);
int __wrap_memcmp(const void *a, const void *b, size_t n) { conc_point("memcmp"); return __real_memcmp(a, b, n); }
int __real_strcmp(const char *a, const char *b);
int __wrap_strcmp(const char *a, const char *b) { conc_point("strcmp"); return __real_strcmp(a, b); }
