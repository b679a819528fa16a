/* Concurrent use of the memory pools and of the TLS session caches. */
#define _GNU_SOURCE
#include "mc.h"
#include "conc.h"
#include "coap_mem.h"
#ifdef WITH_TLS
#include "tls.h"
#endif
#include <stdlib.h>
#include <string.h>
void conc_abort(void);
#define FREE_LEN 16
static int which; static coap_mem_t own_mem;
static void *pal(size_t n) { switch (which) { case 0: return coap_mem_small_alloc(n); case 1: return coap_mem_medium_alloc(n); case 2: return coap_mem_large_alloc(n); } return coap_mem_alloc(&own_mem, n); }
static void pfr(void *p) { switch (which) { case 0: coap_mem_small_free(p); return; case 1: coap_mem_medium_free(p); return; case 2: coap_mem_large_free(p); return; } coap_mem_free(&own_mem, p); }
static int pcount(void) { char *a; size_t n, i; int c = 0; switch (which) { case 0: a = coap_mem_small_get_active(); n = coap_mem_small_get_active_len(); break; case 1: a = coap_mem_medium_get_active(); n = coap_mem_medium_get_active_len(); break; case 2: a = coap_mem_large_get_active(); n = coap_mem_large_get_active_len(); break; default: a = coap_mem_get_active(&own_mem); n = coap_mem_get_active_len(&own_mem); } for (i = 0; i < n; i++) c += __builtin_popcount((unsigned char)a[i]); return c; }
/* scripts: a alloc, f free the oldest buffer held, x free a buffer allocated before the threads started */
static const char *scripts[] = {"af", "aaff", "xa", "afaf", "xxaa", "xaf"};
static int scr[3], pre_n[3]; static char *pre[3][4]; static int avail, demand, nthr, enough;
static void worker(int t)
{
    const char *s = scripts[scr[t]]; char *held[8]; int n = 0, np = 0, i;
    for (; *s; s++) {
        if (*s == 'a') {
            char *p = pal(FREE_LEN);
            if (!p) { mc_check(!enough, "thread %d: no buffer, although there are always enough", t); continue; }
            for (i = 0; i < FREE_LEN; i++) p[i] = 'A' + t * 8 + n;
            held[n++] = p;
            conc_point("holding a buffer");
        } else if (*s == 'x') { for (i = 0; i < FREE_LEN; i++) mc_check(pre[t][np][i] == 'z', "a buffer in use was overwritten"); pfr(pre[t][np++]); }
        else if (n) { for (i = 0; i < FREE_LEN; i++) mc_check(held[0][i] == held[0][0] && (held[0][0] - 'A') / 8 == t, "a buffer of thread %d was handed out twice", t); pfr(held[0]); memmove(held, held + 1, --n * sizeof(held[0])); }
    }
    while (n) { n--; for (i = 0; i < FREE_LEN; i++) mc_check((held[n][i] - 'A') / 8 == t, "a buffer of thread %d was handed out twice", t); pfr(held[n]); }
}
static void part_pool(void)
{
    int i, k, x; char *fill[8]; int nf = 0;
    nthr = !strcmp(mc_part, "pool3") ? 3 : 2;
    mc_set_dev_budget(nthr == 2 ? (mc_tier ? 4 : 3) : (mc_tier ? 3 : 2));
    which = mc_choose(mc_tier || nthr == 2 ? 4 : 1, "pool");
    for (i = 0; i < nthr; i++) scr[i] = mc_choose(nthr == 2 ? 6 : 3, "script of thread %d", i);
    avail = mc_choose(3, "free buffers at the start");
    if (coap_mem_all_create(8, FREE_LEN, 8, FREE_LEN, 8, FREE_LEN) || coap_mem_create(&own_mem, 8, FREE_LEN)) mc_internal("create");
    for (demand = 0, i = 0; i < nthr; i++) { const char *s; int h = 0, m = 0; pre_n[i] = 0; for (s = scripts[scr[i]]; *s; s++) { if (*s == 'a') h++; if (*s == 'f') h--; if (*s == 'x') { pre_n[i]++; h--; } if (h > m) m = h; } demand += m; }
    enough = avail >= demand;
    for (i = 0, x = 0; i < nthr; i++) for (k = 0; k < pre_n[i]; k++) { pre[i][k] = pal(FREE_LEN); mc_check(pre[i][k] != NULL, "no buffer"); memset(pre[i][k], 'z', FREE_LEN); x++; }
    while (x + nf + avail < 8) { fill[nf] = pal(1); mc_check(fill[nf] != NULL, "no buffer"); nf++; }
    for (i = 0; i < nthr; i++) conc_thread(worker, i);
    conc_run();
    mc_check(pcount() == nf, "%d buffers are marked as used, %d are", pcount(), nf);
    for (i = 0; i < nf; i++) pfr(fill[i]);
    mc_check(pcount() == 0, "a buffer is lost");
    coap_mem_destroy(&own_mem); coap_mem_all_destroy();
    mc_count(enough ? "enough buffers" : "scarce");
}
#ifdef WITH_TLS
/* gnutls stand-ins needed to create the cache owners */
int __wrap_gnutls_certificate_allocate_credentials(void **c) { *c = &own_mem; return 0; } void __wrap_gnutls_certificate_free_credentials(void *c) {}
int __wrap_gnutls_certificate_set_x509_trust_file(void *c, const char *f, int t) { return 1; } int __wrap_gnutls_certificate_set_x509_key_file(void *c, const char *a, const char *b, int t) { return 0; }
int __wrap_gnutls_dh_params_init(void **d) { *d = &own_mem; return 0; } int __wrap_gnutls_dh_params_generate2(void *d, unsigned b) { return 0; } void __wrap_gnutls_dh_params_deinit(void *d) {} void __wrap_gnutls_certificate_set_dh_params(void *c, void *d) {}
static tls_server_t S; static tls_client_t C; static int client;
static char keyof[3][16] = {"10.0.0.1", "10.0.0.2", "10.0.0.3"};
static int vlen(int v) { return 40 + 60 * (v & 3); }
static int vals[3][8], nvals[3], deleted[3];
static void op_set(int k, int v) { unsigned char b[256]; gnutls_datum_t d = {b, vlen(v)}, kd = {(unsigned char *)keyof[k], 8}; int r; memset(b, 'a' + v, d.size); r = client ? tls_client_set(&C, keyof[k], d) : tls_server_set(&S, kd, d); mc_check(r == 0, "storing session data fails (%d)", r); }
static void op_get(int k, int must)
{
    gnutls_datum_t kd = {(unsigned char *)keyof[k], 8}, d = client ? tls_client_get(&C, keyof[k]) : tls_server_get(&S, kd); unsigned i; int v, j;
    if (!d.size) { mc_check(!must, "session data that was stored is not found"); return; }
    conc_point("using the data");
    v = d.data[0] - 'a';
    for (j = 0; j < nvals[k]; j++) if (vals[k][j] == v) break;
    mc_check(j < nvals[k], "the data is that of another session (or garbage)");
    mc_check((int)d.size == vlen(v), "session data of %u bytes instead of %d", d.size, vlen(v));
    for (i = 0; i < d.size; i++) mc_check(d.data[i] == 'a' + v, "the data is a mixture");
    gnutls_free(d.data);
}
/* s0 set key 0, s1 set key 1, g get, d delete */
static const char *ts[] = {"s0g0", "s0s0", "g0g1", "s1g0", "d0s0", "s1d0"};
static void tworker(int t)
{
    const char *s = ts[scr[t]]; int n = 0;
    for (; *s; s += 2, n++) { int k = s[1] - '0'; if (*s == 's') op_set(k, t * 2 + n); else if (*s == 'g') op_get(k, s > ts[scr[t]] && s[-2] == 's' && s[-1] == s[1] && !deleted[k]); else if (client) op_get(k, 0); else { gnutls_datum_t kd = {(unsigned char *)keyof[k], 8}; tls_server_delete(&S, kd); } }
}
static void part_cache(void)
{
    int i; const char *s;
    client = !strcmp(mc_part, "clientcache");
    mc_set_dev_budget(mc_tier ? 3 : 2);
    for (i = 0; i < 2; i++) scr[i] = mc_choose(6, "script of thread %d", i);
    if (client ? tls_client_create(&C, "t", "c", "k") : tls_server_create(&S, "t", "c", "k")) mc_internal("create");
    memset(nvals, 0, sizeof(nvals)); memset(deleted, 0, sizeof(deleted));
    vals[0][nvals[0]++] = 7; op_set(0, 7);
    for (i = 0; i < 2; i++) { int n = 0; for (s = ts[scr[i]]; *s; s += 2, n++) { int k = s[1] - '0'; if (*s == 's') vals[k][nvals[k]++] = i * 2 + n; if (*s == 'd') deleted[k] = 1; } }
    for (i = 0; i < 2; i++) conc_thread(tworker, i);
    conc_run();
    op_get(0, !deleted[0]); op_get(1, nvals[1] > 0);
    if (client) tls_client_destroy(&C); else tls_server_destroy(&S);
    mc_count(client ? "client cache" : "server cache");
}
#else
static void part_cache(void) { mc_internal("no TLS"); }
#endif
void mc_setup(void) { mc_shard_depth(!strncmp(mc_part, "pool", 4) ? 4 : 3); }
void mc_execute(void)
{
    conc_abort();
    if (mc_dirty && !strncmp(mc_part, "pool", 4)) { coap_mem_destroy(&own_mem); coap_mem_all_destroy(); }
    if (!strncmp(mc_part, "pool", 4)) part_pool(); else part_cache();
}
