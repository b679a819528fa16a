/* One connection of the HTTP/CoAP proxy: the real connection.c and tls_sock.c (with the HTTP parser, URI and
 * translation code) between an enumerated TLS peer and an enumerated CoAP server. */
#define _GNU_SOURCE
#include "mc.h"
#include "nofault.h"
#include "pool.h"
#include "ref_cross.h"
#include "connection.h"
#include "coap_client.h"
#include <stdio.h>
#include <errno.h>
#include <ctype.h>
#include <sys/select.h>
#include <gnutls/gnutls.h>
void *__real_coap_mem_small_alloc(size_t n); void *__real_coap_mem_medium_alloc(size_t n);
void *__wrap_coap_mem_small_alloc(size_t n) { return nf() ? NULL : __real_coap_mem_small_alloc(n); }
void *__wrap_coap_mem_medium_alloc(size_t n) { return nf() ? NULL : __real_coap_mem_medium_alloc(n); }

/* ---- requests of the HTTP client */
enum { OK, BADREQ, NOTIMPL, NOHOST, TOOBIG, BROKEN, NOTACC };
typedef struct { const char *name, *head; int bodylen; int chunked; int kind; int meth; const char *host, *port, *path, *query; } rq_t;
#define NGEN 256
static rq_t rqs[14 + NGEN] = {
    {"get", "GET coap://h1/a/b HTTP/1.1\r\n", 0, 0, OK, 1, "h1", "5683", "a\tb", ""},
    {"put", "PUT coap://h1:5683/p?x=1&y HTTP/1.1\r\n", 5, 0, OK, 3, "h1", "5683", "p", "x=1\ty"},
    {"post2", "POST coaps://H2.org:7/ HTTP/1.1\r\n", 9, 1, OK, 2, "H2.org", "7", "", ""},
    {"delete", "DELETE coaps://h1/d HTTP/1.1\r\n", 0, 0, OK, 4, "h1", "5684", "d", ""},
    {"baduri", "GET http://h1/a HTTP/1.1\r\n", 0, 0, BADREQ},
    {"options", "OPTIONS coap://h1/ HTTP/1.1\r\n", 3, 0, NOTIMPL},
    {"putbig", "PUT coap://h1/big HTTP/1.1\r\n", 1500, 0, OK, 3, "h1", "5683", "big", ""},
    {"broken", "GET coap://h1/a\r\n", 0, 0, BROKEN},
    {"nohost", "GET coap:///r HTTP/1.1\r\n", 0, 0, NOHOST},
    {"toobig", "POST coap://h1/x HTTP/1.1\r\n", 8193, 0, TOOBIG},
    {"getbody", "GET coap://h1/g HTTP/1.1\r\n", 1100, 0, OK, 1, "h1", "5683", "g", ""},
    {"post", "POST coap://h1:5683/q HTTP/1.1\r\n", 4, 0, OK, 2, "h1", "5683", "q", ""},
    {"puthuge", "PUT coap://h1/hu HTTP/1.1\r\n", 8192, 0, OK, 3, "h1", "5683", "hu", ""},
    {"accept", "GET coap://h1/a HTTP/1.1\r\nAccept: image/png\r\n", 0, 0, NOTACC},
};
#define NRQ 14
static int ntarget, nbody;              /* generated requests follow: targets, then methods and bodies */
static void gen_requests(void)
{
    static const char *sch[] = {"coap", "COAPS", "CoAP", "coaps"}, *hs[] = {"h", "H1", "h1", "h10", "[::1]", "1.2.3.4", "%68"}, *hw[] = {"h", "H1", "h1", "h10", "::1", "1.2.3.4", "h"}, *ps[] = {"", ":", ":5683", ":568", ":56831", ":1"}, *ms[] = {"GET", "POST", "PUT", "DELETE"};
    static const int bl[] = {0, 1, 1023, 1024, 1025, 8192, 8193}; static char text[NGEN][96], port[NGEN][8]; int a, b, c, n = 0;
    for (a = 0; a < 4; a++) for (b = 0; b < 7; b++) for (c = 0; c < 6; c++) {
        rq_t *q = &rqs[NRQ + n];
        snprintf(text[n], 96, "%s %s://%s%s/%d HTTP/1.1\r\n", ms[(a + b + c) % 4], sch[a], hs[b], ps[c], c); snprintf(port[n], 8, "%s", ps[c][0] && ps[c][1] ? ps[c] + 1 : a & 1 ? "5684" : "5683");
        q->name = q->head = text[n]; q->kind = OK; q->meth = (a + b + c) % 4 + 1; q->host = hw[b]; q->port = port[n]; { static char pa[6][2]; pa[c][0] = '0' + c; q->path = pa[c]; } q->query = ""; n++;
    }
    ntarget = n;
    for (a = 0; a < 4; a++) for (b = 0; b < 7; b++) for (c = 0; c < 2; c++) {
        rq_t *q = &rqs[NRQ + n];
        snprintf(text[n], 96, "%s coap://h1/%c HTTP/1.1\r\n", ms[a], 'a' + a); q->name = q->head = text[n]; q->bodylen = bl[b]; q->chunked = c; q->kind = bl[b] > 8192 ? TOOBIG : OK; q->meth = a + 1; q->host = "h1"; q->port = "5683"; { static char pa[4][2]; pa[a][0] = 'a' + a; q->path = pa[a]; } q->query = ""; n++;
    }
    nbody = n - ntarget;
    if (n > NGEN) abort();
}
static unsigned char rbyte(int r, int i) { return (unsigned char)(i * 37 + (i >> 8) + r * 5 + (i % 3 == 1 ? 0 : 1)); }
static char stream[40000]; static int slen, rend[8]; static int nreq, req[8];
static void build(void)
{
    int i, k;
    slen = 0;
    for (i = 0; i < nreq; i++) {
        const rq_t *q = &rqs[req[i]];
        slen += sprintf(stream + slen, "%s", q->head);
        if (q->kind == BROKEN) { slen += sprintf(stream + slen, "\r\n"); rend[i] = slen; continue; }
        if (q->chunked) {
            int h = (q->bodylen + 1) / 2, part;
            slen += sprintf(stream + slen, "Transfer-Encoding: chunked\r\n\r\n");
            for (k = part = 0; part < 2; part++) {
                int to = part ? q->bodylen : h;
                if (to == k) continue;
                slen += sprintf(stream + slen, "%x\r\n", to - k); for (; k < to; k++) stream[slen++] = rbyte(req[i], k);
                slen += sprintf(stream + slen, "\r\n");
            }
            slen += sprintf(stream + slen, "0\r\n\r\n");
        } else {
            if (q->bodylen) slen += sprintf(stream + slen, "Content-Length: %d\r\n", q->bodylen);
            slen += sprintf(stream + slen, "\r\n"); for (k = 0; k < q->bodylen; k++) stream[slen++] = rbyte(req[i], k);
        }
        rend[i] = slen;
    }
}
/* ---- the TLS side: the stream is cut into records; select() sees only records that were not read yet */
static int cut[4200], ncut;                /* record ends */
static int rec, pos, recend;               /* next record, read position, end of the record being read */
static int avail_limit;                    /* records beyond this offset are sent only after more responses */
static int pipelined, closes, eof, sending_failed, faulted, ended, spurious;
static char out[80000]; static int nout;
static int bye, deinit, closed, slept;
#define SD 77
static char session_obj; 
typedef struct { int status; const char *body; size_t blen; int from, end; } resp_t;
static resp_t got[16]; static int ngot;
static void scan_out(void)
{   /* complete responses in the output */
    int p = 0;
    ngot = 0;
    while (p < nout) {
        char *e = memmem(out + p, nout - p, "\r\n\r\n", 4), *l; int cl = -1; resp_t *r = &got[ngot];
        if (!e) return;
        mc_check(nout - p > 12 && !memcmp(out + p, "HTTP/1.1 ", 9) && isdigit(out[p + 9]) && isdigit(out[p + 10]) && isdigit(out[p + 11]) && out[p + 12] == ' ', "the proxy sends something that is not an HTTP response: '%.40s'", out + p);
        r->status = atoi(out + p + 9); r->from = p;
        for (l = out + p; l < e; l = strstr(l, "\r\n") + 2) if (!strncasecmp(l, "Content-Length:", 15)) { mc_check(cl < 0, "two lengths"); cl = atoi(l + 15); }
        if (cl < 0) { mc_check(r->status == 304 || r->status == 204, "response %d has no length", r->status); cl = 0; }
        if (e + 4 + cl > out + nout) return;
        r->body = e + 4; r->blen = cl; p = r->end = e + 4 - out + cl;
        mc_check(ngot < 15, "too many responses"); ngot++;
    }
}
static int complete(void) { int i; for (i = 0; i < nreq && rend[i] <= pos; i++) { if (rqs[req[i]].kind == BROKEN) return i; } return i; }      /* well-formed requests handed over completely */
static int wire_ready(void)
{
    int lim = slen;
    if (!pipelined) { int i; scan_out(); for (i = 0; i < nreq; i++) if (i > ngot) { lim = rend[i - 1]; break; } if (ngot == 0 && nreq) lim = rend[0]; }
    return rec < ncut && cut[rec] <= lim;
}
static void no_stall(const char *where)
{   /* about to wait: everything complete (also in a record that is partly read) must have been answered */
    int i, n;
    scan_out();
    for (i = 0, n = 0; i < nreq && rend[i] <= recend; i++) n++;
    for (i = 0; i < n; i++) if (rqs[req[i]].kind == BROKEN) { n = i; break; }
    mc_check(ngot >= n || ended, "the proxy waits for more input (%s) although %d complete requests were received and %d were answered", where, n, ngot);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (w && FD_ISSET(SD, w)) { mc_log("select: writable"); return 1; }
    if (!r || !FD_ISSET(SD, r)) mc_fail("select does not wait for the connection");
    mc_check(tv != NULL && tv->tv_sec > 0, "select without a timeout");
    if (bye) { mc_log("select while closing"); return !mc_dev(2, "close: the peer does not answer"); }
    if (spurious) { spurious = 0; }
    if (wire_ready() || eof) return 1;
    if (pos < recend) { no_stall("select does not see the rest of the record being read"); }
    no_stall("select");
    if (closes) { eof = 1; mc_log("the peer closes the connection"); return 1; }
    mc_log("select: timeout");
    ended = 1; FD_ZERO(r); if (e) FD_ZERO(e);
    return 0;
}
size_t __wrap_gnutls_record_check_pending(gnutls_session_t s) { return recend - pos; }
ssize_t __wrap_gnutls_record_recv(gnutls_session_t s, void *buf, size_t len)
{
    size_t n;
    mc_check((void *)s == &session_obj && !bye && !deinit, "read on a session that is closed");
    if (len == 0) return GNUTLS_E_INVALID_REQUEST;
    if (pos == recend) {
        if (wire_ready()) {
            if (mc_dev(2, "the record is not complete yet")) { mc_log("recv: again"); return GNUTLS_E_AGAIN; }
            recend = cut[rec++]; mc_log("a record of %d bytes arrives", recend - pos);
        } else if (eof) { ended = 1; return mc_dev(2, "EOF or premature termination") ? GNUTLS_E_PREMATURE_TERMINATION : 0; }
        else return GNUTLS_E_AGAIN;
    }
    n = recend - pos; if (n > len) n = len;
    { size_t k; memcpy(buf, stream + pos, n); (void)k; }
    pos += n;
    mc_log("recv: %zu bytes", n);
    return n;
}
ssize_t __wrap_gnutls_record_send(gnutls_session_t s, const void *buf, size_t len)
{
    size_t n = len > 16384 ? 16384 : len; int d;
    mc_check((void *)s == &session_obj && !bye && !deinit, "write on a session that is closed");
    mc_check(!sending_failed, "the proxy goes on writing after a write failed");
    d = mc_dev(5, "send (1 again, 2 one byte, 3 error, 4 closed)");
    if (d == 1) return GNUTLS_E_AGAIN;
    if (d == 2) n = 1;
    if (d == 3) { sending_failed = ended = 1; return GNUTLS_E_PUSH_ERROR; }
    if (d == 4) { sending_failed = ended = 1; return 0; }
    mc_check(nout + n < sizeof(out), "endless output");
    memcpy(out + nout, buf, n); nout += n;
    return n;
}
int __wrap_gnutls_bye(gnutls_session_t s, gnutls_close_request_t how) { mc_check((void *)s == &session_obj && !deinit, "bye on a closed session"); if (!bye) { bye = 1; } else if (bye++ > 2) return GNUTLS_E_SUCCESS; switch (mc_dev(3, "bye")) { case 0: return GNUTLS_E_SUCCESS; case 1: return GNUTLS_E_AGAIN; } return GNUTLS_E_PUSH_ERROR; }
void __wrap_gnutls_deinit(gnutls_session_t s) { mc_check((void *)s == &session_obj && !deinit, "session destroyed twice"); deinit = 1; }
int __wrap_close(int fd) { mc_check(fd == SD && !closed, "close(%d)", fd); closed = 1; return 0; }
unsigned __wrap_sleep(unsigned s) { slept = 1; return 0; }
int __wrap_pthread_sigmask(int how, const void *a, void *b) { return 0; }

/* ---- the CoAP side */
static coap_client_t *cl; static char cl_host[64], cl_port[16]; static int ncreate;
typedef struct { int done; unsigned cls, det; size_t blen; int fail; } srv_t;      /* what became of request i at the CoAP server */
static srv_t srv[8]; static int nsrv, expect_bw, first_bw;
static char rb(int i, size_t k) { return (char)(k * 13 + i * 17 + (k >> 8) + (k % 4 == 2 ? 0 : 3)); }
static int fwd_index(void)
{   /* the request being forwarded: the first one that is not answered yet */
    int c = complete();
    scan_out();
    mc_check(ngot < c, "a request is forwarded that was not received (completely), or after it was answered");
    mc_check(rqs[req[ngot]].kind == OK, "%s is forwarded", rqs[req[ngot]].name);
    mc_check(!srv[ngot].done, "%s is forwarded a second time", rqs[req[ngot]].name);
    return nsrv = ngot;
}
int __wrap_coap_client_create(coap_client_t *c, const char *h, const char *p, const char *k, const char *ce, const char *t, const char *crl, const char *cn)
{
    int i = fwd_index(), d;
    mc_check(cl == NULL, "a CoAP client is created although there is one");
    mc_check(h && p && !strcasecmp(h, rqs[req[i]].host) && !strcmp(p, rqs[req[i]].port), "connection to %s port %s instead of %s port %s", h ? h : "NULL", p ? p : "NULL", rqs[req[i]].host, rqs[req[i]].port);
    mc_check(k && !strcmp(k, "key") && ce && !strcmp(ce, "cert") && t && !strcmp(t, "trust"), "wrong credentials");
    d = mc_dev(4, "connecting to the CoAP server (1 timeout, 2 refused, 3 out of memory)");
    if (d) { srv[nsrv].done = 1; srv[nsrv].fail = d == 1 ? ETIMEDOUT : EIO; return d == 1 ? -ETIMEDOUT : d == 2 ? -ECONNREFUSED : -ENOMEM; }
    memset(c, 0x33, sizeof(*c)); cl = c; snprintf(cl_host, sizeof(cl_host), "%s", h); snprintf(cl_port, sizeof(cl_port), "%s", p); ncreate++;
    return 0;
}
void __wrap_coap_client_destroy(coap_client_t *c) { mc_check(cl == c, "a CoAP client is destroyed that does not exist"); cl = NULL; memset(c, 0, sizeof(*c)); }
static void seg_check(coap_msg_t *m, unsigned num, const char *s)
{
    coap_msg_op_t *op;
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op)) if (coap_msg_op_get_num(op) == num && coap_msg_op_get_len(op)) {
        size_t n = strcspn(s, "\t");
        mc_check(n == coap_msg_op_get_len(op) && !memcmp(coap_msg_op_get_val(op), s, n), "option %u is '%.*s'", num, (int)coap_msg_op_get_len(op), coap_msg_op_get_val(op));
        s += n; if (*s) s++;
    }
    mc_check(!*s, "option %u for '%s' is missing", num, s);
}
static int check_req(coap_msg_t *m)
{
    int i = fwd_index(); const rq_t *q = &rqs[req[i]]; coap_msg_op_t *op;
    mc_check(cl != NULL, "a request is sent without a connection to a CoAP server");
    mc_check(!strcasecmp(cl_host, q->host) && !strcmp(cl_port, q->port), "the request for %s:%s goes to %s:%s", q->host, q->port, cl_host, cl_port);
    mc_check(coap_msg_get_code_class(m) == 0 && (int)coap_msg_get_code_detail(m) == q->meth, "%s is forwarded as %u.%02u", q->name, coap_msg_get_code_class(m), coap_msg_get_code_detail(m));
    seg_check(m, COAP_MSG_URI_PATH, q->path); seg_check(m, COAP_MSG_URI_QUERY, q->query);
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op)) { unsigned n = coap_msg_op_get_num(op); mc_check(n == COAP_MSG_URI_HOST || n == COAP_MSG_URI_PORT || n == COAP_MSG_URI_PATH || n == COAP_MSG_URI_QUERY, "option %u appears in the request", n); }
    return i;
}
static void body_is(int i, const char *b, size_t n, const char *how)
{
    const rq_t *q = &rqs[req[i]]; size_t k;
    mc_check((int)n == q->bodylen, "%s: body of %zu bytes instead of %d", how, n, q->bodylen);
    for (k = 0; k < n; k++) mc_check((unsigned char)b[k] == rbyte(req[i], k), "%s: byte %zu of the body differs", how, k);
}
static void put_payload(coap_msg_t *resp, int i, size_t from, size_t n) { char b[1024]; size_t k; int r; int keep = nf_on; if (!n) return; for (k = 0; k < n; k++) b[k] = rb(i, from + k); nf_on = 0; r = coap_msg_set_payload(resp, b, n); nf_on = keep; if (r) mc_internal("payload"); }
static void finish(unsigned c, unsigned d, size_t bl, int fail) { srv[nsrv].done = 1; srv[nsrv].cls = c; srv[nsrv].det = d; srv[nsrv].blen = bl; srv[nsrv].fail = fail; expect_bw = 0; }
static void set_code(coap_msg_t *resp, unsigned c, unsigned d) { int keep = nf_on; nf_on = 0; coap_msg_reset(resp); coap_msg_set_type(resp, COAP_MSG_ACK); if (coap_msg_set_code(resp, c, d)) mc_internal("code"); nf_on = keep; }
static size_t force_bl;
static int fewer(void) { return !strcmp(mc_part, "splits"); }
int __wrap_coap_client_exchange(coap_client_t *c, coap_msg_t *rm, coap_msg_t *resp)
{
    static const size_t bls[] = {3, 0, 1024}; static const struct { unsigned c, d; } cs[] = {{2, 5}, {2, 4}, {4, 4}, {5, 0}, {2, 1}, {2, 2}, {2, 3}};
    int i = check_req(rm), a; size_t n;
    mc_check(c == cl, "wrong client"); mc_check(!expect_bw, "a second request is sent for one HTTP request");
    if ((rqs[req[i]].meth == 1 || rqs[req[i]].meth == 4) && rqs[req[i]].bodylen > 1024) mc_check(coap_msg_get_payload_len(rm) == 0, "part of a body"); else body_is(i, coap_msg_get_payload(rm), coap_msg_get_payload_len(rm), "request");
    if (force_bl) { int keep = nf_on; char v[1] = {0x0a}; nf_on = 0; set_code(resp, 2, 5); coap_msg_add_op(resp, COAP_MSG_BLOCK2, 1, v); put_payload(resp, i, 0, 64); nf_on = keep; expect_bw = 2; first_bw = 0; return 0; }
    if (fewer()) { set_code(resp, 2, 5); put_payload(resp, i, 0, 3); finish(2, 5, 3, 0); return 0; }
    a = mc_dev(5, "response (0 plain, 1 first block, 2 too large, 3 error, 4 strange)");
    switch (a) {
    case 0: { int k = mc_dev(7, "code"); n = k < 3 ? bls[mc_dev(3, "payload")] : k < 5 ? 3 : 0; set_code(resp, cs[k].c, cs[k].d); put_payload(resp, i, 0, n); finish(cs[k].c, cs[k].d, n, 0); return 0; }
    case 1: { char v[1] = {0x0a}; int keep = nf_on, z = mc_choose(2, "last block?"); if (z) v[0] = 0x02; nf_on = 0; set_code(resp, 2, rqs[req[i]].meth == 1 ? 5 : 4); if (coap_msg_add_op(resp, COAP_MSG_BLOCK2, 1, v)) mc_internal("block2"); put_payload(resp, i, 0, z ? 20 : 64); nf_on = keep;
              expect_bw = 2; first_bw = z; if (rqs[req[i]].meth != 1) { if (z) finish(2, 4, 20, 0); else finish(2, 4, 0, EBADMSG); } return 0; }
    case 2: set_code(resp, 4, 13); if (rqs[req[i]].meth == 2 || rqs[req[i]].meth == 3) expect_bw = 1; else finish(4, 13, 0, 0); return 0;
    case 3: { static const int er[] = {ETIMEDOUT, EBADMSG, ECONNRESET, ENOMEM}; int e = er[mc_choose(4, "error")]; finish(0, 0, 0, e); return -e; }
    default: { static const struct { unsigned c, d; } st[] = {{2, 31}, {4, 8}, {5, 31}, {2, 0}}; int k = mc_choose(4, "code"); set_code(resp, st[k].c, st[k].d); put_payload(resp, i, 0, 3); finish(st[k].c, st[k].d, 3, 0); return 0; }
    }
}
ssize_t __wrap_coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *rm, coap_msg_t *resp, unsigned b1, unsigned b2, char *body, size_t blen, int have)
{
    int i, a; size_t n, k, cap;
    mc_check(c == cl, "wrong client");
    i = check_req(rm);
    mc_check(b1 >= 16 && b1 <= 1024 && !(b1 & (b1 - 1)) && b2 >= 16 && b2 <= 1024 && !(b2 & (b2 - 1)), "block sizes %u and %u", b1, b2);
    if (expect_bw == 2) { mc_check(have, "the first block is requested again"); mc_check(rqs[req[i]].meth == 1, "continued"); mc_check(coap_msg_get_code_class(resp) == 2 && coap_msg_get_payload_len(resp) == (first_bw ? 20u : 64u), "the first block was lost"); }
    else { mc_check(!have, "there is no first block"); mc_check(rqs[req[i]].meth == 2 || rqs[req[i]].meth == 3, "block-wise %s", rqs[req[i]].name); mc_check(expect_bw == 1 || rqs[req[i]].bodylen > 1024, "block-wise although not needed"); body_is(i, body, blen, "block-wise request"); mc_check(coap_msg_get_payload_len(rm) == 0, "the payload of a block-wise request is set"); }
    cap = blen;
    for (k = 0; k < cap; k++) body[k] = body[k];                  /* the whole buffer must be writable */
    if (force_bl) { mc_check(cap >= force_bl, "the buffer for the body of the response has only %zu bytes", cap); for (k = 0; k < force_bl; k++) body[k] = rb(i, k); set_code(resp, 2, 5); finish(2, 5, force_bl, 0); return force_bl; }
    a = fewer() ? 1 : mc_dev(4, "block-wise result (0 body, 1 no body, 2 error, 3 error response)");
    switch (a) {
    case 0: n = have ? (first_bw ? 20 : mc_choose(2, "body length") ? cap : 100) : cap < 40 ? cap : 40; if (n > cap) n = cap; for (k = 0; k < n; k++) body[k] = rb(i, k);
            set_code(resp, 2, rqs[req[i]].meth == 1 ? 5 : 4); put_payload(resp, i, 0, n > 7 ? 7 : n); { char v[1] = {0x12}; int keep = nf_on; nf_on = 0; coap_msg_add_op(resp, COAP_MSG_BLOCK2, 1, v); nf_on = keep; } finish(2, rqs[req[i]].meth == 1 ? 5 : 4, n, 0); return n;
    case 1: if (have) { finish(0, 0, 0, EBADMSG); return -EBADMSG; } set_code(resp, 2, 4); finish(2, 4, 0, 0); return 0;
    case 2: { static const int er[] = {ETIMEDOUT, EBADMSG, ENOSPC, ECONNRESET}; int e = er[mc_choose(4, "error")]; if (cap) memset(body, 0x77, cap); finish(0, 0, 0, e); return -e; }
    default: set_code(resp, 4, 8); put_payload(resp, i, 0, 5); finish(4, 8, 5, 0); return 0;
    }
}
/* ---- one connection */
static void judge(int final)
{
    int i, c = complete(), k;
    scan_out();
    mc_check(ngot <= c + 1, "%d responses for %d requests", ngot, c);
    for (i = 0; i < ngot && i < c; i++) {
        const rq_t *q = &rqs[req[i]]; resp_t *r = &got[i];
        if (nf_hit && r->status >= 400) continue;
        switch (q->kind) {
        case BADREQ: case NOHOST: mc_check(r->status == 400, "%s is answered with %d", q->name, r->status); break;
        case NOTIMPL: mc_check(r->status == 501 || r->status == 405, "%s is answered with %d", q->name, r->status); break;
        case NOTACC: mc_check(r->status == 406, "%s is answered with %d", q->name, r->status); break;
        case TOOBIG: mc_check(r->status == 502 || r->status == 413, "%s is answered with %d", q->name, r->status); break;
        case OK: {
            srv_t *s = &srv[i];
            mc_check(s->done, "%s is answered with %d before the CoAP server answered", q->name, r->status);
            if (s->fail) { mc_check(s->fail == ETIMEDOUT ? r->status == 504 : r->status >= 500, "%s: no valid response from the CoAP server (%s) becomes %d", q->name, strerror(s->fail), r->status); mc_check(r->blen == 0 || 1, "body"); break; }
            if (!known_code(s->cls, s->det) && r->status >= 500 ) break;            /* not understood */
            mc_check(http_status_ok(s->cls, s->det, r->status), "%s: %u.%02u becomes %d", q->name, s->cls, s->det, r->status);
            mc_check(r->blen == s->blen, "%s: a body of %zu bytes becomes one of %zu bytes", q->name, s->blen, r->blen);
            for (k = 0; k < (int)r->blen; k++) mc_check(r->body[k] == rb(i, k), "%s: byte %d of the response body differs", q->name, k);
            break; }
        }
    }
    if (ngot > c) { mc_check(c < nreq && rqs[req[c]].kind == BROKEN && got[c].status >= 400 && got[c].status < 500, "a response without a request: %d", got[ngot - 1].status); }
    if (final && !sending_failed && !nf_hit) { mc_check(ngot >= c, "%d requests were received but only %d answered", c, ngot); mc_check(ngot == 0 ? nout == 0 : got[ngot - 1].end == nout, "an incomplete response was sent"); }
}
static void run(void)
{
    static param_t par; tls_sock_t *sock; connection_t *con; int failed = 0;
    rec = pos = recend = nout = ngot = bye = deinit = closed = slept = eof = sending_failed = ended = nsrv = expect_bw = ncreate = 0; cl = NULL; spurious = 0;
    memset(srv, 0, sizeof(srv));
    par.port = "4430"; par.coap_client_key_file_name = "key"; par.coap_client_cert_file_name = "cert"; par.coap_client_trust_file_name = "trust";
    heap_mark();
    sock = __real_calloc(1, sizeof(*sock));
    sock->type = TLS_SOCK_SERVER; sock->sd = SD; sock->timeout = 30; sock->session = (gnutls_session_t)&session_obj;
    nf_hit = 0; nf_on = !strcmp(mc_part, "nomem");
    con = connection_new(sock, 0, 1, &par);
    if (!con) { nf_on = 0; mc_check(nf_hit, "connection_new fails"); tls_sock_close(sock); free(sock); failed = 1; }
    else connection_thread_func(con);
    nf_on = 0;
    mc_check(closed && deinit && bye, "the connection is not closed properly (bye %d, session %d, descriptor %d)", bye, deinit, closed);
    mc_check(cl == NULL, "the CoAP client is not released");
    if (!failed) judge(1);
    heap_same("after the connection"); pool_expect(0, 0, 0, "after the connection");
    mc_count(nf_hit ? "memory ran out" : sending_failed ? "send failed" : "served");
}
static void by_request(void) { int i; ncut = 0; for (i = 0; i < nreq; i++) cut[ncut++] = rend[i]; }
static void part_sequence(void)
{   /* sequences of requests, pipelined or not */
    int i, m; 
    nreq = 2 + mc_choose(2, "requests");
    mc_set_dev_budget(nreq == 2 ? (mc_tier ? 3 : 2) : (mc_tier ? 2 : 1));
    for (i = 0; i < nreq; i++) req[i] = mc_choose(NRQ, "request %d", i);
    build();
    m = mc_choose(3, "records (0 one per request, sent after the last response; 1 pipelined; 2 all in one record)");
    pipelined = m > 0; closes = mc_choose(2, "peer closes at the end");
    if (m < 2) by_request(); else { int p; ncut = 0; for (p = 16384; p < slen; p += 16384) cut[ncut++] = p; cut[ncut++] = slen; }
    run();
}
static void part_splits(void)
{   /* every way to cut two short requests into two records (three in the thorough tier), byte by byte, and stopping half way */
    int i, m, a, b;
    mc_set_dev_budget(1);
    nreq = 2; pipelined = 1;
    for (i = 0; i < nreq; i++) { static const int sh[] = {0, 1, 2, 3, 6, 10}; req[i] = sh[mc_choose(6, "request %d", i)]; }
    build(); closes = 1; ncut = 0;
    m = mc_choose(4, "cut (0 two records, 1 byte by byte, 2 truncated stream, 3 blocks of 7)");
    if ((m == 1 || m == 3) && slen > 500) mc_set_dev_budget(0);
    switch (m) {
    case 0: a = 1 + mc_choose(slen > 400 ? (mc_tier ? 400 : 250) : slen - 1, "position"); cut[ncut++] = a; if (mc_tier) { b = mc_choose(slen - a > 60 ? 60 : slen - a, "second position"); if (b) cut[ncut++] = a + b; } cut[ncut++] = slen; break;
    case 1: for (i = 1; i <= slen; i++) cut[ncut++] = i; break;
    case 2: slen = mc_choose(slen > 400 ? 400 : slen, "truncated after"); closes = mc_choose(2, "peer closes"); cut[ncut++] = slen; if (!slen) ncut = 0; break;
    default: for (i = 7; i < slen; i += 7) cut[ncut++] = i; cut[ncut++] = slen;
    }
    run();
}
static void part_large(void)
{   /* requests around the sizes at which the receive buffer grows and ends, followed by a short one */
    static const int at[] = {4096 - 128, 4096, 8192, 16384, 32768 - 128, 32768}; int base = at[mc_choose(6, "size")], d = mc_choose(9, "difference") - 4, i, h; static char hd[36000];
    rq_t *q = NULL; (void)q;
    mc_set_dev_budget(0);
    base += d * (mc_choose(2, "step") ? 1 : 33);
    nreq = 2; pipelined = 1; closes = 1; req[0] = 0; req[1] = 1; build();
    h = base - rend[0]; if (h < 8) h = 8;
    { int second = slen - rend[0], l = rend[0] - 2; memmove(hd, stream + rend[0], second); memcpy(stream + l, "X: ", 3); for (i = 3; i < h - 2; i++) stream[l + i] = 'x'; memcpy(stream + l + h - 2, "\r\n\r\n", 4); slen = rend[0] = l + h + 2; memcpy(stream + slen, hd, second); slen += second; rend[1] = slen; }
    ncut = 0;
    switch (mc_choose(3, "records")) { case 0: for (i = 16384; i < slen; i += 16384) cut[ncut++] = i; break; case 1: for (i = 1000; i < slen; i += 1000) cut[ncut++] = i; break; default: cut[ncut++] = rend[0]; }
    if (!ncut || cut[ncut - 1] != slen) cut[ncut++] = slen;
    /* a request of more than 32 KB less one step may be refused: the connection may end without an answer */
    if (rend[0] > 32768 - 128) { int keep; sending_failed = 0; keep = 1; (void)keep; faulted = 1; } else faulted = 0;
    if (faulted) { static param_t par; tls_sock_t *sock; connection_t *con; rec = pos = recend = nout = ngot = bye = deinit = closed = eof = sending_failed = nsrv = expect_bw = 0; ended = 1; cl = NULL; memset(srv, 0, sizeof(srv));
        par.coap_client_key_file_name = "key"; par.coap_client_cert_file_name = "cert"; par.coap_client_trust_file_name = "trust"; heap_mark(); sock = __real_calloc(1, sizeof(*sock)); sock->type = TLS_SOCK_SERVER; sock->sd = SD; sock->timeout = 30; sock->session = (gnutls_session_t)&session_obj;
        nf_hit = 0; con = connection_new(sock, 0, 1, &par); if (!con) mc_fail("connection_new fails"); connection_thread_func(con);
        mc_check(closed && deinit && bye && !cl, "not closed"); judge(0); heap_same("after the connection"); pool_expect(0, 0, 0, "after the connection"); mc_count("at the size limit"); return; }
    run();
}
static void part_respsize(void)
{   /* responses of every length around those at which the send buffer grows */
    static const int at[] = {3900, 7992}; 
    mc_set_dev_budget(mc_tier ? 1 : 0);
    nreq = 2; pipelined = mc_choose(2, "pipelined"); closes = 1; req[0] = 0; req[1] = mc_choose(2, "second request") ? 0 : 3; build(); by_request();
    if (mc_choose(2, "small first")) { req[0] = 0; }
    force_bl = at[mc_choose(2, "range")] + mc_choose(201, "length"); if (req[1] == 3) { nreq = 1; ncut = 1; slen = rend[0]; }
    run();
}
static void part_targets(void)
{   /* every pair of targets (scheme, host and port in every spelling), the first server may be unreachable */
    mc_set_dev_budget(mc_tier ? 2 : 0);
    nreq = 2; req[0] = NRQ + mc_choose(ntarget, "first target"); req[1] = NRQ + mc_choose(ntarget, "second target"); build(); pipelined = 1; closes = 1; by_request();
    run();
}
static void part_bodies(void)
{   /* every method with bodies around the limits, plain or chunked, one after the other */
    mc_set_dev_budget(1);
    nreq = 2; req[0] = NRQ + ntarget + mc_choose(nbody, "first"); req[1] = NRQ + ntarget + mc_choose(nbody, "second"); build(); pipelined = mc_choose(2, "pipelined"); closes = 1; by_request();
    run();
}
static void part_nomem(void)
{
    int m = mc_choose(6, "request"); static const int rs[] = {0, 1, 2, 4, 6, 3};
    mc_set_dev_budget(mc_tier ? 2 : 1);
    nreq = 2; req[0] = rs[m]; req[1] = mc_choose(2, "second") ? 2 : 0; build(); pipelined = 1; closes = 1; by_request();
    run();
}
void mc_setup(void) { gen_requests(); mc_shard_depth(!strcmp(mc_part, "sequence") ? 3 : 2); pool_init(64, 64, 32, 1024, 8, 1152); }
void mc_execute(void)
{
    nf_on = 0; faulted = 0; force_bl = 0;
    if (mc_dirty) pool_again();
    if (!strcmp(mc_part, "sequence")) part_sequence();
    else if (!strcmp(mc_part, "splits")) part_splits();
    else if (!strcmp(mc_part, "large")) part_large();
    else if (!strcmp(mc_part, "respsize")) part_respsize();
    else if (!strcmp(mc_part, "targets")) part_targets();
    else if (!strcmp(mc_part, "bodies")) part_bodies();
    else if (!strcmp(mc_part, "nomem")) part_nomem();
    else mc_internal("unknown part %s", mc_part);
}
