#include "mc.h"
#include "pool.h"
#include "coap_mem.h"
static unsigned cfg[6];
void pool_again(void) { coap_mem_all_destroy(); pool_init(cfg[0], cfg[1], cfg[2], cfg[3], cfg[4], cfg[5]); }
void pool_init(unsigned sn, unsigned sl, unsigned mn, unsigned ml, unsigned ln, unsigned ll)
{
    cfg[0] = sn; cfg[1] = sl; cfg[2] = mn; cfg[3] = ml; cfg[4] = ln; cfg[5] = ll;
    if (coap_mem_all_create(sn, sl, mn, ml, ln, ll) != 0) mc_internal("cannot create pools");
}
static unsigned bits(const char *p, size_t n) { unsigned c = 0; while (n--) { unsigned char b = *p++; while (b) { c += b & 1; b >>= 1; } } return c; }
void pool_used(unsigned *s, unsigned *m, unsigned *l)
{
    *s = bits(coap_mem_small_get_active(), coap_mem_small_get_active_len());
    *m = bits(coap_mem_medium_get_active(), coap_mem_medium_get_active_len());
    *l = bits(coap_mem_large_get_active(), coap_mem_large_get_active_len());
}
void pool_expect(unsigned s, unsigned m, unsigned l, const char *when)
{
    unsigned a, b, c;
    pool_used(&a, &b, &c);
    mc_check(a == s && b == m && c == l, "%s: %u/%u/%u pool buffers in use, expected %u/%u/%u (small/medium/large)", when, a, b, c, s, m, l);
}
/* silence the library's log (printed when replaying) */
#include <stdarg.h>
static void show(const char *m, va_list ap) { if (mc_verbose) { printf("      log: "); vprintf(m, ap); printf("\n"); } }
#define L(n) void __wrap_coap_log_##n(const char *m, ...) { va_list ap; if (!mc_verbose) return; va_start(ap, m); show(m, ap); va_end(ap); }
L(error) L(warn) L(notice) L(info) L(debug)
