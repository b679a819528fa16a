/* The buffer pools, used by one thread: every allocation state, every short sequence, creation with bad arguments or without memory. */
#include "mc.h"
#include "nofault.h"
#include "coap_mem.h"
#include <pthread.h>
#include <errno.h>

static int mfail;
int __real_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a);
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (nf_on && mc_dev(2, "mutex_init fails")) { mfail = 1; return EAGAIN; } return __real_pthread_mutex_init(m, a); }

#define MAXB 32
/* one way to use each of the four kinds of pool */
static coap_mem_t own;
static int k_create(int k, size_t n, size_t l) { return k == 0 ? coap_mem_create(&own, n, l) : k == 1 ? coap_mem_small_create(n, l) : k == 2 ? coap_mem_medium_create(n, l) : coap_mem_large_create(n, l); }
static void k_destroy(int k) { k == 0 ? coap_mem_destroy(&own) : k == 1 ? coap_mem_small_destroy() : k == 2 ? coap_mem_medium_destroy() : coap_mem_large_destroy(); }
static unsigned char *k_alloc(int k, size_t l) { return k == 0 ? coap_mem_alloc(&own, l) : k == 1 ? coap_mem_small_alloc(l) : k == 2 ? coap_mem_medium_alloc(l) : coap_mem_large_alloc(l); }
static void k_free(int k, void *b) { k == 0 ? coap_mem_free(&own, b) : k == 1 ? coap_mem_small_free(b) : k == 2 ? coap_mem_medium_free(b) : coap_mem_large_free(b); }
static size_t k_num(int k) { return k == 0 ? coap_mem_get_num(&own) : k == 1 ? coap_mem_small_get_num() : k == 2 ? coap_mem_medium_get_num() : coap_mem_large_get_num(); }
static size_t k_len(int k) { return k == 0 ? coap_mem_get_len(&own) : k == 1 ? coap_mem_small_get_len() : k == 2 ? coap_mem_medium_get_len() : coap_mem_large_get_len(); }
static size_t k_used(int k)
{
    const unsigned char *a = (const unsigned char *)(k == 0 ? coap_mem_get_active(&own) : k == 1 ? coap_mem_small_get_active() : k == 2 ? coap_mem_medium_get_active() : coap_mem_large_get_active());
    size_t n = k == 0 ? coap_mem_get_active_len(&own) : k == 1 ? coap_mem_small_get_active_len() : k == 2 ? coap_mem_medium_get_active_len() : coap_mem_large_get_active_len(), i, c = 0;
    for (i = 0; i < n; i++) c += __builtin_popcount(a[i]);
    return c;
}
/* what the user of pool k holds: each buffer filled with its own mark */
typedef struct { unsigned char *p[MAXB]; unsigned char mark[MAXB]; int n; size_t num, len; } use_t;
static use_t U[4]; static unsigned char ctr;
static void verify(int k) { use_t *u = &U[k]; int i; size_t j; for (i = 0; i < u->n; i++) for (j = 0; j < u->len; j++) mc_check(u->p[i][j] == u->mark[i], "pool %d: byte %zu of a buffer in use was overwritten", k, j); mc_check(k_used(k) == (size_t)u->n, "pool %d: %zu buffers are marked as used, %d are", k, k_used(k), u->n); }
static int take(int k, size_t l)
{
    use_t *u = &U[k]; unsigned char *p = k_alloc(k, l); int i;
    if (l > u->len) { mc_check(!p, "pool %d: %zu bytes are allocated in a buffer of %zu", k, l, u->len); return 0; }
    if ((size_t)u->n == u->num) { mc_check(!p, "pool %d: a buffer more than the pool has is allocated", k); return 0; }
    mc_check(p != NULL, "pool %d: allocation fails although only %d of %zu buffers are used", k, u->n, u->num);
    for (i = 0; i < u->n; i++) mc_check(p + u->len <= u->p[i] || u->p[i] + u->len <= p, "pool %d: a buffer overlaps another that is in use", k);
    if (++ctr == 0) ctr = 1;
    memset(p, ctr, u->len); u->p[u->n] = p; u->mark[u->n++] = ctr;
    return 1;
}
static void give(int k, int i) { use_t *u = &U[k]; unsigned char *p = u->p[i]; int j; for (j = i; j + 1 < u->n; j++) { u->p[j] = u->p[j + 1]; u->mark[j] = u->mark[j + 1]; } u->n--; k_free(k, p); }
static void begin(int k, size_t num, size_t len) { mc_check(k_create(k, num, len) == 0, "creating a pool of %zu buffers of %zu bytes fails", num, len); memset(&U[k], 0, sizeof(U[k])); U[k].num = num; U[k].len = len; mc_check(k_num(k) == num && k_len(k) == len, "pool %d: wrong dimensions reported", k); verify(k); }
static void finish(int k) { while (U[k].n) give(k, 0); verify(k); while ((size_t)U[k].n < U[k].num) take(k, 1); mc_check(!k_alloc(k, 1), "pool %d: more buffers than it was created with", k); verify(k); k_destroy(k); }

void mc_setup(void) { mc_shard_depth(4); }
static void states(void)
{
    static const size_t nums[] = {8, 16, 24}; static const size_t lens[] = {1, 5, 64};
    int ni = mc_choose(2, "number of buffers"); size_t num = nums[ni], len = lens[mc_choose(3, "buffer length")]; unsigned set = 0, b; int k = mc_choose(4, "kind"), i, ord, nfr = 0; unsigned char *freed[MAXB];
    if (!mc_tier && num == 16) { if (k || len != 5) return; }
    for (b = 0; b < num; b += 4) set |= mc_choose(16, "four buffers released") << b;
    ord = mc_choose(3, "order of release");
    begin(k, num, len);
    while ((size_t)U[k].n < num) take(k, len);
    mc_check(take(k, len) == 0, "exhausted");
    for (b = 0; b < num; b++) if (set >> b & 1) freed[nfr++] = U[k].p[b];
    for (i = 0; i < nfr; i++) {
        int w = ord == 0 ? i : ord == 1 ? nfr - 1 - i : i < nfr / 2 ? 2 * i + 1 : 2 * (i - nfr / 2), j;
        for (j = 0; U[k].p[j] != freed[w]; j++) ;
        give(k, j);
        if (i == nfr / 2) verify(k);
    }
    verify(k);
    mc_state(mc_hash_u(mc_hash_u(k, num), set));
    for (i = 0; i < nfr; i++) mc_check(take(k, i & 1 ? 0 : len), "a released buffer is not available again");
    mc_check(!take(k, 0), "more"); verify(k);
    finish(k); mc_count("states");
}
static void sequences(void)
{
    static const size_t lens[] = {1, 3, 16}; int k = mc_choose(4, "kind"), d = mc_tier ? 9 : 7, i; size_t len = lens[mc_choose(3, "buffer length")]; int pre = mc_choose(3, "already used") * 4 - 1;
    begin(k, 8, len);
    for (i = 0; i < pre; i++) take(k, len);
    for (i = 0; i < d; i++) {
        int op = mc_choose(6, "operation");
        if (op == 0) take(k, len); else if (op == 1) take(k, len + 1); else if (op == 2) take(k, 0);
        else if (U[k].n == 0) break; else if (op == 3) give(k, 0); else if (op == 4) give(k, U[k].n - 1); else give(k, U[k].n / 2);
        verify(k);
    }
    finish(k); mc_count("sequences");
}
static void three(void)
{
    int d = mc_tier ? 8 : 6, i, k, r; heap_mark();
    r = coap_mem_all_create(8, 4, 16, 32, 8, 128); mc_check(r == 0, "coap_mem_all_create fails");
    for (k = 1; k < 4; k++) { memset(&U[k], 0, sizeof(U[k])); U[k].num = k == 2 ? 16 : 8; U[k].len = k == 1 ? 4 : k == 2 ? 32 : 128; mc_check(k_num(k) == U[k].num && k_len(k) == U[k].len, "pool %d has other dimensions than asked for", k); }
    for (i = 0; i < d; i++) {
        int op; k = 1 + mc_choose(3, "pool"); op = mc_choose(3, "operation");
        if (op == 0) take(k, U[k].len); else if (op == 1) { if (U[k].n) give(k, 0); } else while (take(k, 1)) ;
        for (r = 1; r < 4; r++) verify(r);
    }
    for (k = 1; k < 4; k++) { while (U[k].n) give(k, 0); verify(k); }
    coap_mem_all_destroy(); heap_same("pools destroyed"); mc_count("three pools");
}
static void creating(void)
{
    static const size_t ns[] = {8, 16, 0, 1, 7, 9, 12, 4, SIZE_MAX / 4 + 1, SIZE_MAX & ~(size_t)7}, ls[] = {1, 2, 64, 0, SIZE_MAX / 8 + 1, SIZE_MAX / 8 + 2, SIZE_MAX, 4, 16};
    int all = mc_choose(2, "all pools"), k, r, again, bad; size_t n = ns[mc_choose(10, "number")], l = ls[mc_choose(9, "length")]; unsigned __int128 tot = (unsigned __int128)n * l;
    mc_set_dev_budget(mc_tier ? 2 : 1);
    k = mc_choose(all ? 3 : 4, "which"); nf_hit = mfail = 0;
    for (again = 0; again < 2; again++) {
        heap_mark();
        nf_on = 1;
        if (all) r = coap_mem_all_create(k == 0 ? n : 8, k == 0 ? l : 8, k == 1 ? n : 16, k == 1 ? l : 16, k == 2 ? n : 8, k == 2 ? l : 32); else r = k_create(k, n, l);
        nf_on = 0;
        bad = (n & 7) || !l || tot > ((size_t)1 << 40);
        if (r == 0) {
            mc_check(!bad && !nf_hit && !mfail, "a pool of %zu buffers of %zu bytes is created%s", n, l, nf_hit ? " although memory ran out" : "");
            if (all) { int q; for (q = 1; q < 4; q++) { memset(&U[q], 0, sizeof(U[q])); U[q].num = q - 1 == k ? n : q == 2 ? 16 : 8; U[q].len = q - 1 == k ? l : q == 1 ? 8 : q == 2 ? 16 : 32; mc_check(k_num(q) == U[q].num && k_len(q) == U[q].len, "pool %d: wrong dimensions", q); while (take(q, U[q].len)) ; verify(q); } coap_mem_all_destroy(); }
            else { memset(&U[k], 0, sizeof(U[k])); U[k].num = n; U[k].len = l; while (take(k, l)) ; verify(k); k_destroy(k); }
        } else { mc_check(r < 0, "positive error"); mc_check(bad || nf_hit || mfail || n == 0, "a pool of %zu buffers of %zu bytes is refused (%d)", n, l, r); }
        heap_same(r ? "pool refused" : "pool destroyed");
        if (!nf_hit && !mfail) break;
        nf_hit = mfail = 0; mc_set_dev_budget(0);
    }
    mc_count(r ? "refused" : "created");
}
void mc_execute(void)
{
    nf_on = 0; ctr = 0;
    if (!strcmp(mc_part, "states")) states(); else if (!strcmp(mc_part, "sequences")) sequences(); else if (!strcmp(mc_part, "three")) three(); else creating();
}
