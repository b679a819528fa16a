/* Independent reference for the RFC 7252 message format, written from the RFC, not from the code. */
#ifndef REF_COAP_H
#define REF_COAP_H
#include <string.h>
#include <stdint.h>
#include <stddef.h>
#define RMAXOP 24
typedef struct { unsigned num, len; const unsigned char *val; } rop_t;
typedef struct {
    unsigned ver, type, tkl, cls, det, mid;
    unsigned char tok[8];
    unsigned nop; rop_t op[RMAXOP];
    const unsigned char *pl; size_t pll;
} rmsg_t;

enum { REF_OK = 0, REF_SHORT = 1, REF_VERSION = 2, REF_FORMAT = 3 };

/* 0 = well formed, otherwise why not */
static inline int ref_decode(rmsg_t *m, const unsigned char *b, size_t n)
{
    size_t i = 4; unsigned num = 0, k;
    memset(m, 0, sizeof(*m));
    if (n < 4) return REF_SHORT;
    m->ver = b[0] >> 6; m->type = (b[0] >> 4) & 3; m->tkl = b[0] & 15;
    m->cls = b[1] >> 5; m->det = b[1] & 31; m->mid = (b[2] << 8) | b[3];
    if (m->ver != 1) return REF_VERSION;
    if (m->tkl > 8) return REF_FORMAT;
    if (m->cls == 1 || m->cls == 3 || m->cls == 6 || m->cls == 7) return REF_FORMAT;
    if (n - i < m->tkl) return REF_FORMAT;
    for (k = 0; k < m->tkl; k++) m->tok[k] = b[i++];
    while (i < n && b[i] != 0xff) {
        unsigned d = b[i] >> 4, l = b[i] & 15;
        i++;
        if (d == 15 || l == 15) return REF_FORMAT;
        if (d == 13) { if (i + 1 > n) return REF_FORMAT; d = 13 + b[i]; i += 1; }
        else if (d == 14) { if (i + 2 > n) return REF_FORMAT; d = 269 + b[i] * 256 + b[i + 1]; i += 2; }
        if (l == 13) { if (i + 1 > n) return REF_FORMAT; l = 13 + b[i]; i += 1; }
        else if (l == 14) { if (i + 2 > n) return REF_FORMAT; l = 269 + b[i] * 256 + b[i + 1]; i += 2; }
        if (n - i < l) return REF_FORMAT;
        num += d;
        if (m->nop < RMAXOP) { m->op[m->nop].num = num; m->op[m->nop].len = l; m->op[m->nop].val = b + i; }
        m->nop++;
        i += l;
    }
    if (i < n) {                        /* payload marker */
        i++;
        if (i == n) return REF_FORMAT;
        m->pl = b + i; m->pll = n - i;
    }
    if (m->cls == 0 && m->det == 0) { if (m->type == 1 || m->tkl || m->nop || m->pll) return REF_FORMAT; }
    else if (m->type == 3) return REF_FORMAT;
    return REF_OK;
}

/* encode; options must already be sorted by number. returns the length */
static inline size_t ref_encode(const rmsg_t *m, unsigned char *b)
{
    size_t i = 0; unsigned prev = 0, k;
    b[i++] = 0x40 | (m->type << 4) | m->tkl; b[i++] = (m->cls << 5) | m->det; b[i++] = m->mid >> 8; b[i++] = m->mid & 255;
    for (k = 0; k < m->tkl; k++) b[i++] = m->tok[k];
    for (k = 0; k < m->nop; k++) {
        unsigned d = m->op[k].num - prev, l = m->op[k].len;
        unsigned dn = d < 13 ? d : d < 269 ? 13 : 14, ln = l < 13 ? l : l < 269 ? 13 : 14;
        b[i++] = (dn << 4) | ln;
        if (dn == 13) b[i++] = d - 13; else if (dn == 14) { b[i++] = (d - 269) >> 8; b[i++] = (d - 269) & 255; }
        if (ln == 13) b[i++] = l - 13; else if (ln == 14) { b[i++] = (l - 269) >> 8; b[i++] = (l - 269) & 255; }
        memcpy(b + i, m->op[k].val, l); i += l;
        prev = m->op[k].num;
    }
    if (m->pll) { b[i++] = 0xff; memcpy(b + i, m->pl, m->pll); i += m->pll; }
    return i;
}

/* RFC 7252 / RFC 7959 registered options the library recognises */
static inline int ref_recognised(unsigned n)
{
    static const unsigned t[] = {1, 3, 4, 5, 7, 8, 11, 12, 14, 15, 17, 20, 23, 27, 28, 35, 39, 60};
    for (unsigned i = 0; i < sizeof(t) / sizeof(t[0]); i++) if (t[i] == n) return 1;
    return 0;
}
#endif
