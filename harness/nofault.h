/* heap accounting and allocation failures for the proxy harnesses (malloc, calloc, realloc, strdup are wrapped at link time) */
#ifndef NOFAULT_H
#define NOFAULT_H
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#include "mc.h"
size_t __sanitizer_get_current_allocated_bytes(void);
static int nf_on, nf_hit; static const char *nf_name = "allocation fails";
void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b); void *__real_realloc(void *p, size_t n); char *__real_strdup(const char *s);
static int nf(void) { if (!nf_on) return 0; if (mc_dev(2, "%s", nf_name)) { nf_hit++; return 1; } return 0; }
void *__wrap_malloc(size_t n) { return n > (size_t)1 << 40 || nf() ? NULL : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return (unsigned __int128)a * b > (size_t)1 << 40 || nf() ? NULL : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return nf() ? NULL : __real_realloc(p, n); }
char *__wrap_strdup(const char *s) { return nf() ? NULL : __real_strdup(s); }
static size_t heap_base;
static void heap_mark(void) { heap_base = __sanitizer_get_current_allocated_bytes(); }
static void heap_same(const char *when)
{
    size_t n = __sanitizer_get_current_allocated_bytes();
    mc_check(n == heap_base, "%s: %zd bytes of heap memory leaked", when, (ssize_t)(n - heap_base));
}
/* a heap copy of exactly n bytes, so that one byte too many is detected */
static char *exact(const void *p, size_t n) { char *b = __real_malloc(n ? n : 1); if (n) memcpy(b, p, n); return b; }
#endif
