/* The CoAP server, run unmodified (coap_server_run) on a simulated kernel and network.
 * Every sequence of network/timer events up to a bound is delivered; after each event the datagrams the
 * server sent, the handler calls it made and the timers it armed are compared with a reference model of
 * the message layer (RFC 7252 sections 4 and 5, as this library documents it). */
#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include "pool.h"
#include "ref_coap.h"
#include "coap_server.h"
#ifdef COAP_DTLS_EN
#include "fakedtls.h"
#include <gnutls/gnutls.h>
#else
#define FD_SERVER_ARGS
#endif
#include "coap_mem.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <setjmp.h>
#include <arpa/inet.h>

#define NCL 12
#define MAXD 1400
typedef struct { unsigned char b[MAXD]; size_t n; int cl; } dg_t;

static coap_server_t server;
static jmp_buf done_jb;
static int sock_fd;
static dg_t inbox; static int inbox_full;
static int hello_now;                         /* DTLS: the client opens a session before it sends the message in the inbox */
static void arrive(void)
{
#ifdef COAP_DTLS_EN
    hello_now = fd_session_of(inbox.cl) == NULL; fd_now_cl = inbox.cl;
#endif
}
static dg_t outs[24]; static int nouts;
static int depth, max_depth, running, faults_on, faulted, probing, spins, strict;
static int dgram_consumed;

/* ---------------------------------------------------------------- handler side */
typedef struct { rmsg_t m; unsigned char raw[MAXD]; size_t n; } hcall_t;
static int nh, hcount; static hcall_t hc[4];
static unsigned char last_pl[64]; static size_t last_pll;     /* payload the handler put in its last response */
static const char *handler_fail_at;
static int bw_handler(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp, rmsg_t *m);

static size_t msg_snapshot(coap_msg_t *m, rmsg_t *r)
{
    coap_msg_op_t *op;
    memset(r, 0, sizeof(*r));
    r->ver = coap_msg_get_ver(m); r->type = coap_msg_get_type(m); r->cls = coap_msg_get_code_class(m); r->det = coap_msg_get_code_detail(m);
    r->mid = coap_msg_get_msg_id(m); r->tkl = coap_msg_get_token_len(m); memcpy(r->tok, coap_msg_get_token(m), r->tkl);
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op)) {
        if (r->nop < RMAXOP) { r->op[r->nop].num = coap_msg_op_get_num(op); r->op[r->nop].len = coap_msg_op_get_len(op); r->op[r->nop].val = (unsigned char *)coap_msg_op_get_val(op); }
        r->nop++;
    }
    r->pl = (unsigned char *)coap_msg_get_payload(m); r->pll = coap_msg_get_payload_len(m);
    return 0;
}
static int same_msg(const rmsg_t *a, const rmsg_t *b)
{
    unsigned i;
    if (a->type != b->type || a->cls != b->cls || a->det != b->det || a->mid != b->mid || a->tkl != b->tkl || memcmp(a->tok, b->tok, a->tkl)) return 0;
    if (a->nop != b->nop || a->pll != b->pll || (a->pll && memcmp(a->pl, b->pl, a->pll))) return 0;
    for (i = 0; i < a->nop && i < RMAXOP; i++) if (a->op[i].num != b->op[i].num || a->op[i].len != b->op[i].len || memcmp(a->op[i].val, b->op[i].val, a->op[i].len)) return 0;
    return 1;
}
static int path_is(const rmsg_t *m, const char *p)             /* p: one or two segments "a" or "a/b" */
{
    char s[64] = ""; unsigned i;
    for (i = 0; i < m->nop; i++) if (m->op[i].num == 11) { if (s[0]) strcat(s, "/"); strncat(s, (const char *)m->op[i].val, m->op[i].len); }
    return strcmp(s, p) == 0;
}
/* the response the handler produced */
static unsigned exp_code, exp_nop; static struct { unsigned num, len; } exp_op[4]; static unsigned char exp_pl[1200], exp_val[400]; static size_t exp_pll;
static int val_resp;
static int any_response(coap_msg_t *resp, unsigned tkl)
{
    static const unsigned nums[] = {4, 12, 14, 60, 300, 2048, 65000}, lens[] = {0, 1, 12, 13, 64, 65, 269, 300}; static const int pls[] = {0, 1, 12, 13, 255, 256, 1000, 1100, -1};
    unsigned i, k; int r = 0, n, what = mc_choose(3, "response shape");
    exp_code = 0x45; exp_nop = 0; exp_pll = 0;
    for (k = 0; k < sizeof(exp_val); k++) exp_val[k] = (unsigned char)(k * 3 + 1);
    for (k = 0; k < sizeof(exp_pl); k++) exp_pl[k] = (unsigned char)(k * 5 + (k >> 8) + 2);
    if (what == 0) { exp_code = mc_choose(96, "code"); exp_code = exp_code < 32 ? 0x40 + exp_code : exp_code < 64 ? 0x80 + exp_code - 32 : 0xa0 + exp_code - 64; exp_pll = mc_choose(2, "payload") * 7; }
    else if (what == 1) { exp_nop = 1; exp_op[0].num = nums[mc_choose(7, "number")]; exp_op[0].len = lens[mc_choose(8, "length")]; exp_pll = mc_choose(2, "payload") * 7; }
    else {
        k = mc_choose(4, "options"); exp_nop = k;
        for (i = 0; i < k; i++) { exp_op[i].num = 4 * (i + 1) + 20 * i; exp_op[i].len = 7 * i; }
        n = pls[mc_choose(9, "payload length")];
        if (n < 0) { rmsg_t m; static unsigned char b[2400]; memset(&m, 0, sizeof(m)); m.tkl = tkl; m.nop = exp_nop; for (i = 0; i < k; i++) { m.op[i].num = exp_op[i].num; m.op[i].len = exp_op[i].len; m.op[i].val = exp_val; } n = COAP_MSG_MAX_BUF_LEN - 1 - (int)ref_encode(&m, b); }
        exp_pll = n;
    }
    r = coap_msg_set_code(resp, exp_code >> 5, exp_code & 31);
    for (i = exp_nop; r >= 0 && i-- > 0; ) r = coap_msg_add_op(resp, exp_op[i].num, exp_op[i].len, (char *)exp_val);
    if (r >= 0 && exp_pll) r = coap_msg_set_payload(resp, (char *)exp_pl, exp_pll);
    mc_check(r >= 0, "the response cannot be built (%d)", r);
    return r;
}
static int handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    rmsg_t m, in;
    int r;
    if (nh >= 4) mc_fail("handler called %d times for one datagram", nh + 1);
    msg_snapshot(req, &m);
    if (strict) {
        r = ref_decode(&in, inbox.b, inbox.n);
        mc_check(r == REF_OK && in.nop <= RMAXOP, "handler called for a message that is not well formed");
        mc_check(same_msg(&m, &in), "handler saw a request that differs from the datagram (type %u code %u.%02u id %u, %u options, payload %zu bytes; datagram: type %u code %u.%02u id %u, %u options, payload %zu)",
                 m.type, m.cls, m.det, m.mid, m.nop, m.pll, in.type, in.cls, in.det, in.mid, in.nop, in.pll);
    }
    nh++; hcount++;
    if (path_is(&m, "e")) return -EIO;
    r = bw_handler(t, req, resp, &m);
    if (r != 1) return r;
    if (val_resp) return any_response(resp, m.tkl);
    last_pll = snprintf((char *)last_pl, sizeof(last_pl), "n=%d,id=%u,c=%u", hcount, m.mid, m.det);
    r = coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
    if (r < 0) return r;
    exp_code = 0x45; exp_nop = 1; exp_op[0].num = 12; exp_op[0].len = 1; exp_val[0] = 0x2a; memcpy(exp_pl, last_pl, exp_pll = last_pll);
    r = coap_msg_add_op(resp, COAP_MSG_CONTENT_FORMAT, 1, "\x2a");
    if (r < 0) return r;
    return coap_msg_set_payload(resp, (char *)last_pl, last_pll);
}

/* ---------------------------------------------------------------- addresses */
#ifdef COAP_IP6
#define NEAR_N 19
#else
#define NEAR_N 6
#endif
static int near;
static coap_ipv_sockaddr_in_t addr_of(int cl)
{
    coap_ipv_sockaddr_in_t a;
    memset(&a, 0, sizeof(a));
    *(sa_family_t *)&a = COAP_IPV_AF_INET;
    /* clients 0 and 1 differ only in the port, 0 and 2 only in the (last byte of the) address */
    a.COAP_IPV_SIN_PORT = htons(cl == 1 ? 5001 : 5000 + (cl > 2 ? cl : 0));
#ifdef COAP_IP6
    a.sin6_addr.s6_addr[0] = 0xfe; a.sin6_addr.s6_addr[1] = 0x80; a.sin6_addr.s6_addr[15] = cl == 2 ? 2 : 1;
    a.sin6_scope_id = cl == 3 ? 2 : 0;
    if (near && cl) {                         /* two clients that differ in one byte only */
        a = addr_of(0);
        if (near <= 16) a.sin6_addr.s6_addr[near - 1] ^= 1 + 0x80 * (cl == 2); else if (near <= 18) ((unsigned char *)&a.sin6_port)[near - 17] ^= 1 + 0x80 * (cl == 2); else a.sin6_scope_id = cl;
    }
#else
    a.sin_addr.s_addr = htonl(0x0a000001 + (cl == 2));
    if (near && cl) { a = addr_of(0); if (near <= 4) ((unsigned char *)&a.sin_addr)[near - 1] ^= 1 + 0x80 * (cl == 2); else ((unsigned char *)&a.sin_port)[near - 5] ^= 1 + 0x80 * (cl == 2); }
#endif
    return a;
}

/* ---------------------------------------------------------------- reference model */
typedef struct {
    int active; uint64_t last_use;
    int have_req; unsigned req_mid; int req_sep, req_type;
    dg_t resp; int have_resp;
    int pend; unsigned pend_mid; int nretx; uint64_t interval, deadline; int interval_known;
    unsigned old_mid; int have_old;
    int fuzzy, nfz; unsigned fz[4];                /* a call failed while this client was served: requests of which the server may or may not know */
    /* blockwise */
    int bw; unsigned bw_det; char bw_uri[40]; unsigned b1size, b2size; size_t b1next, b2next; size_t body_end; int codefinal;
} mcl_t;
static mcl_t M[NCL]; static unsigned char mbody[NCL][66100];
#define BODY(c) mbody[(c) - M]
static unsigned used_mids[64]; static int n_used;
static struct { dg_t sent; size_t pll; unsigned char pl[64]; } fz_resp[NCL][4];                /* what was sent for such a request (n = 0: nothing), and the payload the handler had produced */
static uint64_t now_s(void) { return fos_now / 1000000000ull; }

static int take;
static dg_t *next_out(int cl, const char *what)
{
    mc_check(take < nouts, "%s expected, but the server sent nothing more", what);
    mc_check(outs[take].cl == cl, "%s: sent to client %d instead of client %d", what, outs[take].cl, cl);
    return &outs[take++];
}
static void want_empty(int cl, unsigned type, unsigned mid, const char *what)
{
    rmsg_t m; dg_t *d = next_out(cl, what);
    mc_check(ref_decode(&m, d->b, d->n) == REF_OK, "%s: the datagram sent is malformed", what);
    mc_check(m.type == type && m.cls == 0 && m.det == 0 && m.mid == mid, "%s: expected empty type %u id %u, got type %u code %u.%02u id %u", what, type, mid, m.type, m.cls, m.det, m.mid);
}
static void want_same(int cl, dg_t *ref, const char *what)
{
    dg_t *d = next_out(cl, what);
    mc_check(d->n == ref->n && memcmp(d->b, ref->b, d->n) == 0, "%s: the datagram is not identical to the original response", what);
}
static void fresh_mid(unsigned mid)
{
    int i;
    for (i = 0; i < n_used; i++) mc_check(used_mids[i] != mid, "message ID %u used for two different responses", mid);
    if (n_used < 64) used_mids[n_used++] = mid;
}
static int is_sep(const rmsg_t *m) { return path_is(m, "s") || path_is(m, "long/sep"); }
static unsigned bad_option(const rmsg_t *m)
{
    unsigned i;
    for (i = 0; i < m->nop; i++) if ((m->op[i].num & 1) && !ref_recognised(m->op[i].num)) return m->op[i].num;
    return 0;
}
static void m_forget(mcl_t *c) { memset(c, 0, sizeof(*c)); }
static void m_touch(mcl_t *c) { c->last_use = now_s(); }
static void m_accept(int cl)
{
    mcl_t *c = &M[cl]; int i, n = 0, old = -1;
    if (c->active) return;
    for (i = 0; i < NCL; i++) n += M[i].active;
    if (n >= COAP_SERVER_NUM_TRANS) {
        for (i = 0; i < NCL; i++) if (M[i].active && (old < 0 || M[i].last_use < M[old].last_use)) old = i;
        mc_log("model: client %d is evicted", old);
        mc_count("eviction");
        m_forget(&M[old]);
    }
    m_forget(c); c->active = 1; m_touch(c);
}
static void bw_model(mcl_t *c, int cl, const rmsg_t *in, int pend_type, unsigned pend_mid);
static int bw_active_model(mcl_t *c, const rmsg_t *in);

static void m_datagram(int cl)
{
    mcl_t *c = &M[cl]; rmsg_t in, o; dg_t *d; int r, sep; unsigned bad, type; 
    r = ref_decode(&in, inbox.b, inbox.n);
    m_accept(cl);
    if (inbox.n > COAP_MSG_MAX_BUF_LEN) {             /* more than the server can take: never a truncated request; a reset or 4.13 is fine */
        mc_check(nh == 0, "handler called for a datagram that was truncated");
        mc_count("oversized");
        if (take < nouts) {
            d = next_out(cl, "answer to an oversized datagram");
            mc_check(ref_decode(&o, d->b, d->n) == REF_OK, "the answer sent is malformed");
            mc_check((o.type == 3 && in.type == 0 && o.mid == in.mid && o.cls == 0 && o.det == 0) || (o.cls == 4 && o.det == 13), "oversized datagram answered with type %u code %u.%02u", o.type, o.cls, o.det);
        }
        m_touch(c);
        return;
    }
    if (r != REF_OK) {
        mc_check(nh == 0, "handler called for a malformed message");
        if (r == REF_FORMAT && in.type == 0) { want_empty(cl, 3, in.mid, "reset for a malformed confirmable message"); mc_count("reset malformed"); m_touch(c); }
        else mc_count("malformed ignored");
        return;
    }
    m_touch(c);
    if (c->have_req && in.mid == c->req_mid && (in.type == 0 || in.type == 1) && !(in.cls == 0 && in.det == 0)) {
        mc_check(nh == 0, "handler called again for a duplicate request");
        if (in.type == 0) {
            if (c->req_sep) { want_empty(cl, 2, in.mid, "acknowledgement of a duplicate request"); mc_count("dup separate"); }
            else { want_same(cl, &c->resp, "response to a duplicate request"); mc_count("dup piggybacked"); }
        } else mc_count("dup non");
        return;
    }
    if (in.type == 2 || in.type == 3) {
        mc_check(nh == 0, "handler called for an acknowledgement or reset");
        if (c->pend && in.mid == c->pend_mid) { c->pend = 0; mc_count("acked"); } else mc_count("stray ack/rst");
        return;
    }
    if (in.cls != 0 || in.det == 0) {
        mc_check(nh == 0, "handler called for a message that is not a request");
        if (in.type == 0) { want_empty(cl, 3, in.mid, "reset for a confirmable message that is not a request"); mc_count("reset non-request"); }
        else mc_count("non-request ignored");
        return;
    }
    if (c->fuzzy) {                                   /* the request that failed may be handled again, or taken for a duplicate and answered as one */
        int i, dup = 0;
        for (i = c->nfz; i-- > 0 && !dup; ) if (c->fz[i] == in.mid) dup = i + 1;
        if (dup && nh == 0) {
            if (in.type == 0 && is_sep(&in) && !(take + 1 < nouts)) { want_empty(cl, 2, in.mid, "acknowledgement of a repeated request"); mc_count("repeated after a failure"); return; }
            if (in.type == 1 && take == nouts) { mc_count("repeated after a failure"); return; }
            if (in.type == 0 && !is_sep(&in)) {
                d = next_out(cl, "response to a repeated request");
                mc_check(ref_decode(&o, d->b, d->n) == REF_OK, "the response to a repeated request is malformed");
                mc_check(o.type == 2 && o.mid == in.mid && o.cls >= 2 && o.tkl == in.tkl && !memcmp(o.tok, in.tok, in.tkl), "a repeated request is answered with type %u id %u code %u.%02u: not a response to it", o.type, o.mid, o.cls, o.det);
                mc_check(!bad_option(&in) || (o.cls == 4 && o.det == 2), "request with an unrecognised critical option answered with %u.%02u", o.cls, o.det);
                i = dup - 1;
                if (fz_resp[cl][i].sent.n) mc_check(d->n == fz_resp[cl][i].sent.n && !memcmp(d->b, fz_resp[cl][i].sent.b, d->n), "a repeated request is answered with something else than the first time");
                else if (!bad_option(&in)) mc_check(o.cls == 5 || (o.pll == fz_resp[cl][i].pll && !memcmp(o.pl, fz_resp[cl][i].pl, o.pll) && o.nop == 1), "a repeated request is answered with something else than the handler's response");
                mc_count("repeated after a failure"); return;
            }
        }
        c->fuzzy = c->nfz = 0;
    }
    /* a new request */
    c->pend = 0; c->have_req = 0;
    sep = in.type == 0 && is_sep(&in);
    if (sep) want_empty(cl, 2, in.mid, "empty acknowledgement before a separate response");
    bad = bad_option(&in);
    if (!bad && path_is(&in, "e")) {                 /* the application refused: no response, nothing remembered */
        mc_check(nh == 1, "handler not called");
        mc_count("handler error");
        m_forget(c);
        return;
    }
    type = in.type == 1 ? 1 : sep ? 0 : 2;
    if (!bad && bw_active_model(c, &in)) { bw_model(c, cl, &in, type, in.mid); goto record; }
    mc_check(nh == (bad ? 0 : 1), "handler called %d times for a new %s request", nh, bad ? "unacceptable" : "valid");
    d = next_out(cl, "response");
    mc_check(ref_decode(&o, d->b, d->n) == REF_OK, "the response sent is malformed");
    mc_check(o.type == type, "response has type %u, expected %u", o.type, type);
    if (type == 2) mc_check(o.mid == in.mid, "piggybacked response has message ID %u, request had %u", o.mid, in.mid);
    else fresh_mid(o.mid);
    mc_check(o.tkl == in.tkl && memcmp(o.tok, in.tok, in.tkl) == 0, "response token differs from the request's token");
    if (bad) {
        mc_check(o.cls == 4 && o.det == 2, "request with unrecognised critical option %u answered with %u.%02u instead of 4.02", bad, o.cls, o.det);
        mc_count("bad option");
    } else {
        unsigned i;
        mc_check(o.cls * 32 + o.det == exp_code, "response code %u.%02u is not the handler's", o.cls, o.det);
        mc_check(o.nop == exp_nop, "response has %u options, the handler's has %u", o.nop, exp_nop);
        for (i = 0; i < exp_nop; i++) mc_check(o.op[i].num == exp_op[i].num && o.op[i].len == exp_op[i].len && !memcmp(o.op[i].val, exp_val, exp_op[i].len), "response options are not the handler's");
        mc_check(o.pll == exp_pll && (!exp_pll || memcmp(o.pl, exp_pl, exp_pll) == 0), "response payload is not the one the handler produced for this request");
        mc_count(type == 1 ? "non response" : sep ? "separate response" : "piggybacked response");
    }
    c->resp = *d; c->have_resp = 1;
record:
    d = &outs[take - 1];
    ref_decode(&o, d->b, d->n);
    c->resp = *d; c->have_resp = 1;
    c->have_req = 1; c->req_mid = in.mid; c->req_sep = sep; c->req_type = in.type;
    if (sep) {
        if (c->pend_mid) { c->old_mid = c->pend_mid; c->have_old = 1; }
        c->pend = 1; c->pend_mid = o.mid; c->nretx = 0; c->interval_known = 0;
    }
}
static int owner_timer(int cl)
{
    int i;
    for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && fos_fd[i].owner == cl) return i;
    return -1;
}
static void m_timer(int cl)
{
    mcl_t *c = &M[cl];
    mc_check(nh == 0, "handler called because of a timer");
    if (!c->active || !c->pend) { mc_count("stale timer"); return; }
    if (c->nretx < 4) {
        want_same(cl, &c->resp, "retransmission");
        c->nretx++; m_touch(c);
        mc_count("retransmission");
    } else { mc_count("gave up"); m_forget(c); }
}
static void m_check_timers(void)
{
    int cl, t; uint64_t iv;
    for (cl = 0; cl < NCL; cl++) if (M[cl].active && M[cl].pend) {
        t = owner_timer(cl);
        mc_check(t >= 0 && (fos_fd[t].armed || fos_fd[t].expired), "client %d has an unacknowledged separate response but no retransmission timer is running", cl);
        iv = fos_fd[t].interval / 1000000;
        if (M[cl].interval_known && M[cl].interval_known == M[cl].nretx + 1) {
            mc_check(fos_fd[t].expired || fos_fd[t].deadline == M[cl].deadline, "the retransmission timer of client %d was moved by %lld ms although nothing concerned it", cl, ((long long)fos_fd[t].deadline - (long long)M[cl].deadline) / 1000000);
            continue;
        }
        if (M[cl].nretx == 0) mc_check(iv >= 2000 && iv <= 3000, "initial retransmission timeout is %llu ms (must be 2000..3000)", (unsigned long long)iv);
        else mc_check(iv + 2 >= 2 * M[cl].interval && iv <= 2 * M[cl].interval + 2, "retransmission timeout %d is %llu ms after %llu ms (must double)", M[cl].nretx, (unsigned long long)iv, (unsigned long long)M[cl].interval);
        M[cl].deadline = fos_fd[t].deadline; M[cl].interval = iv; M[cl].interval_known = M[cl].nretx + 1;
    }
}

/* ---------------------------------------------------------------- events */
enum { E_NONE, E_REQ, E_ACKMATCH, E_RSTMATCH, E_ACKOLD, E_ACKBOGUS, E_RSTBOGUS, E_ACKREQ, E_PING, E_RESPCON, E_RESPNON, E_RESPACK, E_MALCON, E_MALNON, E_SHORT, E_VER2, E_VER0, E_MALOPT, E_TIMER, E_BOTH, E_BW, E_RSTREQ, E_MALACK, E_BIGREQ, E_VAL, E_AGAIN };
typedef struct { int kind, cl; unsigned type, mid; const char *path; int badop; } ev_t;
typedef struct { int kind; unsigned type, mid; const char *path; int badop; } tmpl_t;

static void build(int cl, unsigned type, unsigned cls, unsigned det, unsigned mid, const char *path, int badop, const char *pl)
{
    rmsg_t m; char seg[2][40]; int ns = 0;
    unsigned k;
    memset(&m, 0, sizeof(m));
    m.type = type; m.cls = cls; m.det = det; m.mid = mid;
    if (cls || det) {
        m.tkl = (unsigned[]){2, 0, 4, 8, 1}[(mid + cl) % 5];
        for (k = 0; k < m.tkl; k++) m.tok[k] = (unsigned char)(0xa0 + 16 * cl + mid * 3 + k);
    }
    if (badop && badop < 11) { m.op[m.nop].num = badop; m.op[m.nop].len = 2; m.op[m.nop].val = (unsigned char *)"zz"; m.nop++; }
    if (path) {
        const char *s = strchr(path, '/');
        snprintf(seg[0], 40, "%.*s", s ? (int)(s - path) : 39, path); ns = 1;
        if (s) { snprintf(seg[1], 40, "%s", s + 1); ns = 2; }
        for (k = 0; k < (unsigned)ns; k++) { m.op[m.nop].num = 11; m.op[m.nop].len = strlen(seg[k]); m.op[m.nop].val = (unsigned char *)seg[k]; m.nop++; }
    }
    if (badop >= 11) { m.op[m.nop].num = badop; m.op[m.nop].len = 2; m.op[m.nop].val = (unsigned char *)"zz"; m.nop++; }
    if (pl) { m.pl = (const unsigned char *)pl; m.pll = strlen(pl); }
    inbox.n = ref_encode(&m, inbox.b);
    inbox.cl = cl; inbox_full = 1;
}

static ev_t alpha[64]; static int nalpha;
static void ev(int kind, int cl, unsigned type, unsigned mid, const char *path, int badop) { alpha[nalpha++] = (ev_t){kind, cl, type, mid, path, badop}; }
static int step_kind, step_timer_cl[NCL], n_step_timer, step_both;
static int permute[8];

static void bw_event(int cl);
/* one datagram with every value of one field */
static dg_t val_last;
static void val_event(int cl)
{
    rmsg_t m; size_t k, n; int what = mc_choose(8, "field"), hi; unsigned j; static unsigned char big[1500];
    memset(&m, 0, sizeof(m));
    m.det = 1; m.mid = 0x0102; m.tkl = 3; memcpy(m.tok, "\x01\xfe\x00", 3);
    m.op[0].num = 11; m.op[0].len = 1; m.op[0].val = (const unsigned char *)"p"; m.nop = 1;
    switch (what) {
    case 0: m.op[0].val = (const unsigned char *)(mc_choose(2, "separate") ? "s" : "p"); hi = mc_choose(256, "ID, high byte"); m.mid = hi * 256 + mc_choose(256, "ID, low byte"); m.type = mc_tier ? mc_choose(2, "type") : 0; break;
    case 1: hi = mc_choose(256, "code"); m.cls = hi >> 5; m.det = hi & 31; m.type = mc_choose(4, "type"); if (mc_choose(2, "no token")) m.tkl = 0; if (mc_choose(2, "bare")) { m.nop = 0; } break;
    case 2: hi = mc_choose(mc_tier ? 1024 : 35, "option number / 64"); j = hi * 64 + mc_choose(64, "option number % 64"); m.type = mc_choose(2, "type"); k = mc_choose(3, "length") * 4; m.op[0].val = (const unsigned char *)(mc_choose(2, "separate") ? "s" : "p");
        if (j < 11) { m.op[1] = m.op[0]; m.op[0].num = j; m.op[0].len = k; m.op[0].val = (const unsigned char *)"zzzzzzzz"; } else { m.op[1].num = j; m.op[1].len = k; m.op[1].val = (const unsigned char *)"zzzzzzzz"; } m.nop = 2; break;
    case 3: m.tkl = mc_choose(9, "token length"); memset(m.tok, mc_choose(256, "token bytes"), 8); m.type = mc_choose(2, "type"); break;
    case 4: n = mc_choose(1165, "length"); m.type = mc_choose(2, "type"); memset(big, 0xff, sizeof(big)); if (n < 14) { m.nop = 0; m.det = n ? 1 : 0; m.pll = n; if (!n) m.tkl = 0; } else m.pll = n - 10; m.pl = big; break;
    case 7: val_resp = 1; hi = mc_choose(3, "piggybacked / separate / NON"); if (hi == 1) m.op[0].val = (const unsigned char *)"s"; if (hi == 2) m.type = 1; m.tkl = mc_choose(3, "token") * 4; break;
    default:
        if (what == 5) { m.tkl = 2; m.op[0].num = 8; m.op[0].len = 1; m.op[0].val = (const unsigned char *)"q"; m.op[1].num = 11; m.op[1].len = 1; m.op[1].val = (const unsigned char *)"s"; m.op[2].num = 60; m.op[2].len = 14; m.op[2].val = (const unsigned char *)"abcdefghijklmn"; m.nop = 3; m.pl = (const unsigned char *)"xyz"; m.pll = 3; }
        else { m.type = 1; m.tkl = 8; m.det = 3; m.op[1].num = 2000; m.op[1].len = 0; m.op[1].val = (const unsigned char *)""; m.nop = 2; m.pl = (const unsigned char *)"\xff"; m.pll = 1; }
        break;
    }
    inbox.n = ref_encode(&m, inbox.b);
    if (what == 5 || what == 6) { k = mc_choose((int)inbox.n + 1, "byte"); if (k == inbox.n) inbox.n = mc_choose((int)inbox.n, "truncated to"); else inbox.b[k] = (unsigned char)mc_choose(256, "value"); }
    inbox.cl = cl; inbox_full = 1;
    val_last = inbox;
}
static void deliver(const ev_t *e)
{
    int cl = e->cl; mcl_t *c = &M[cl];
    switch (e->kind) {
    case E_REQ: val_resp = 0; build(cl, e->type, 0, e->path[0] == 'e' ? 1 : 1 + (e->mid & 3), e->mid, e->path, e->badop, (e->mid & 1) ? "payload" : NULL); break;
    case E_ACKMATCH: build(cl, 2, 0, 0, c->pend_mid, NULL, 0, NULL); break;
    case E_RSTMATCH: build(cl, 3, 0, 0, c->pend_mid, NULL, 0, NULL); break;
    case E_ACKOLD: build(cl, 2, 0, 0, c->have_old ? c->old_mid : c->pend_mid ^ 0x8000, NULL, 0, NULL); break;
    case E_ACKBOGUS: build(cl, 2, 0, 0, 0x7777, NULL, 0, NULL); break;
    case E_RSTBOGUS: build(cl, 3, 0, 0, 0x7778, NULL, 0, NULL); break;
    case E_ACKREQ: build(cl, 2, 0, 0, c->req_mid, NULL, 0, NULL); break;
    case E_RSTREQ: build(cl, 3, 0, 0, c->req_mid, NULL, 0, NULL); break;
    case E_PING: build(cl, 0, 0, 0, e->mid, NULL, 0, NULL); break;
    case E_RESPCON: build(cl, 0, 2, 5, e->mid, NULL, 0, "x"); break;
    case E_RESPNON: build(cl, 1, 4, 4, e->mid, NULL, 0, NULL); break;
    case E_RESPACK: build(cl, 2, 2, 5, c->pend_mid ^ 0x4000, NULL, 0, "y"); break;
    case E_MALCON: build(cl, 0, 0, 1, e->mid, "p", 0, NULL); inbox.b[0] = (inbox.b[0] & 0xf0) | 9; break;
    case E_MALNON: build(cl, 1, 0, 1, e->mid, "p", 0, NULL); inbox.b[0] = (inbox.b[0] & 0xf0) | 15; break;
    case E_MALACK: build(cl, 2, 0, 0, e->mid, NULL, 0, NULL); inbox.b[inbox.n++] = 0xff; break;
    case E_MALOPT: build(cl, 0, 0, 1, e->mid, "p", 0, NULL); inbox.b[inbox.n++] = 0xff; break;   /* payload marker, no payload */
    case E_SHORT: memcpy(inbox.b, "\x40\x01\x00", 3); inbox.n = 3; inbox.cl = cl; inbox_full = 1; break;
    case E_VER2: build(cl, 0, 0, 1, e->mid, "p", 0, NULL); inbox.b[0] = (inbox.b[0] & 0x3f) | 0x80; break;
    case E_VER0: build(cl, 0, 0, 1, e->mid, "p", 0, NULL); inbox.b[0] = (inbox.b[0] & 0x3f); break;
    case E_BIGREQ: build(cl, e->type, 0, 2, e->mid, "p", 0, NULL); inbox.b[inbox.n++] = 0xff; memset(inbox.b + inbox.n, 'Z', e->badop - inbox.n); inbox.n = e->badop; break;
    case E_BW: bw_event(cl); break;
    case E_VAL: val_event(cl); break;
    case E_AGAIN: val_resp = 0; inbox = val_last; inbox_full = 1; break;
    }
    arrive();
    mc_log("client %d sends %zu bytes: %02x%02x%02x%02x", cl, inbox.n, inbox.b[0], inbox.b[1], inbox.b[2], inbox.b[3]);
}
static const char *evname(const ev_t *e)
{
    static char s[80];
    static const char *k[] = {"none", "req", "ack-match", "rst-match", "ack-old", "ack-bogus", "rst-bogus", "ack-req", "ping", "resp-con", "resp-non", "resp-ack", "mal-con", "mal-non", "short", "ver2", "ver0", "mal-opt", "timer", "both", "block", "rst-req", "mal-ack", "big", "values", "the same again"};
    snprintf(s, sizeof(s), "client %d %s %s id=%u /%s bad=%d", e->cl, k[e->kind], e->kind == E_REQ ? (e->type ? "NON" : "CON") : "", e->mid, e->path ? e->path : "", e->badop);
    return s;
}

static void check_step(void)
{
    int i;
    take = 0;
    if (faulted) {
        rmsg_t m; int j;
        for (i = 0; i < nouts; i++) {             /* whatever failed, only the client concerned is sent something, and nothing malformed */
            mc_check(ref_decode(&m, outs[i].b, outs[i].n) == REF_OK, "the server sends a malformed datagram after a failure");
            for (j = 0; j < n_step_timer && step_timer_cl[j] != outs[i].cl; j++) {}
            mc_check(step_kind == 3 ? j < n_step_timer : outs[i].cl == inbox.cl, "the server sends something to client %d, which nothing concerned", outs[i].cl);
        }
        mc_check(nh <= (step_kind == 3 ? 0 : 1), "handler called %d times", nh);
        if (!strcmp(mc_part, "faults")) {
            for (j = 0; j < (step_kind == 3 ? n_step_timer : 1); j++) {
                mcl_t *c = &M[step_kind == 3 ? step_timer_cl[j] : inbox.cl];
                c->active = 1; c->fuzzy = 1; c->pend = 0;
                if (c->have_req && c->nfz < 4) { fz_resp[c - M][c->nfz].sent = c->resp; c->fz[c->nfz++] = c->req_mid; }
                c->have_req = 0;
                if (step_kind == 1 && inbox.n >= 4 && c->nfz < 4) {
                    unsigned mid = inbox.b[2] * 256u + inbox.b[3];
                    int k, old = 0;
                    for (k = 0; k < c->nfz; k++) if (c->fz[k] == mid) old = 1;
                    if (!old || nh) {
                        fz_resp[c - M][c->nfz].sent.n = 0; fz_resp[c - M][c->nfz].pll = 0;
                        if (nh) { fz_resp[c - M][c->nfz].pll = last_pll; memcpy(fz_resp[c - M][c->nfz].pl, last_pl, last_pll); }
                        for (i = 0; i < nouts; i++) if (ref_decode(&m, outs[i].b, outs[i].n) == REF_OK && m.cls >= 2) fz_resp[c - M][c->nfz].sent = outs[i];
                        c->fz[c->nfz++] = mid;
                    }
                }
            }
            faulted = 0; mc_count("failure");
        }
        nouts = 0; nh = 0; return;
    }
    if (step_kind == 2) {                     /* datagram and timer at the same time: either order is fine */
        int tcl = step_timer_cl[0];
        if (M[tcl].pend && nouts > 0 && outs[0].cl == tcl && outs[0].n == M[tcl].resp.n && !memcmp(outs[0].b, M[tcl].resp.b, outs[0].n)
            && !(fos_fd[owner_timer(tcl)].expired)) {
            int dup_first = 0;
            (void)dup_first;
            int nh2 = nh; nh = 0; m_timer(tcl); nh = nh2;
        }
        m_datagram(inbox.cl);
    } else if (step_kind == 1) m_datagram(inbox.cl);
    else if (step_kind == 3) {                /* timers: any processing order */
        int left = n_step_timer, done[NCL] = {0}, j;
        for (i = 0; i < n_step_timer; i++) if (M[step_timer_cl[i]].fuzzy) { done[i] = 2; left--; }
        else if (!(M[step_timer_cl[i]].active && M[step_timer_cl[i]].pend && M[step_timer_cl[i]].nretx < 4)) { int k = nh; nh = 0; m_timer(step_timer_cl[i]); nh = k; done[i] = 1; left--; }
        for (;;) {
            for (j = 0; j < n_step_timer && take < nouts; j++) if (done[j] == 2 && outs[take].cl == step_timer_cl[j]) {       /* may or may not still have something to retransmit */
                rmsg_t m; dg_t *d = &outs[take++];
                mc_check(ref_decode(&m, d->b, d->n) == REF_OK && m.type == 0 && m.cls >= 2, "retransmission after a failure: not a confirmable response");
                done[j] = 1; j = -1;
            }
            if (left <= 0) break;
            mc_check(take < nouts, "retransmission expected, but the server sent nothing");
            for (j = 0; j < n_step_timer; j++) if (!done[j] && outs[take].cl == step_timer_cl[j]) break;
            mc_check(j < n_step_timer, "unexpected datagram to client %d on a timer expiry", outs[take].cl);
            m_timer(step_timer_cl[j]); done[j] = 1; left--;
        }
    }
    mc_check(take == nouts, "server sent %d unexpected datagram(s); first one goes to client %d: %02x%02x%02x%02x", nouts - take, outs[take].cl, outs[take].b[0], outs[take].b[1], outs[take].b[2], outs[take].b[3]);
    mc_check(step_kind != 0 || nh == 0, "handler called without a datagram");
    if (step_kind) m_check_timers();
    nouts = 0; nh = 0;
    {   uint64_t h = 7;
        for (i = 0; i < NCL; i++) if (M[i].active) { h = mc_hash_u(h, i); h = mc_hash_u(h, M[i].have_req * 4 + M[i].pend * 2 + M[i].req_sep); h = mc_hash_u(h, M[i].req_mid * 16 + M[i].nretx); h = mc_hash_u(h, M[i].bw * 100000 + M[i].b1next * 7 + M[i].b2next); }
        mc_state(h);
    }
}

static int ready_timers(fd_set *r, fd_set *in)
{
    int i, n = 0;
    n_step_timer = 0;
    for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && fos_fd[i].expired && FD_ISSET(FOS_BASE + i, in)) { FD_SET(FOS_BASE + i, r); n++; step_timer_cl[n_step_timer++] = fos_fd[i].owner; }
    return n;
}
static void advance(uint64_t to)
{
    int i;
    if (to > fos_now) fos_now = to;
    for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && fos_fd[i].armed && fos_fd[i].deadline <= fos_now) { fos_fd[i].armed = 0; fos_fd[i].expired = 1; }
}
static int armed_list(int *l)
{
    int i, j, n = 0;
    for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && fos_fd[i].armed) l[n++] = i;
    for (i = 0; i < n; i++) for (j = i + 1; j < n; j++) if (fos_fd[l[j]].deadline < fos_fd[l[i]].deadline) { int t = l[i]; l[i] = l[j]; l[j] = t; }
    return n;
}
static uint64_t tick_ns;
static void tick(void)                        /* time passes between events, without crossing a deadline */
{
    int l[FOS_N]; uint64_t to = fos_now + tick_ns; int n = armed_list(l);
    if (n && to >= fos_fd[l[0]].deadline) to = fos_fd[l[0]].deadline - 1;
    if (to > fos_now) fos_now = to;
}
static int next_probe, values;
static void (*script)(void);
static int script_left;
static int script_ev; static ev_t script_e;

int fos_select(int n, fd_set *r, fd_set *w, struct timeval *tv)
{
    fd_set in = *r, out; int nr, l[FOS_N], na, c;
    ev_t *e;
    FD_ZERO(&out);
#ifdef COAP_DTLS_EN
    if (fd_in_handshake()) { *r = out; if (inbox_full) FD_SET(sock_fd, r); return inbox_full; }
    if (inbox_full && !hello_now && !fd_session_of(inbox.cl)) {            /* the session could not be established: the client gives up */
        mc_check(faulted, "the server refuses a good client");
        inbox_full = 0; dgram_consumed++;
    }
#endif
    if (inbox_full) {                          /* the previous datagram has not been read yet */
        mc_check(++spins < 50, "server does not consume a datagram");
        FD_SET(sock_fd, &out); ready_timers(&out, &in); *r = out; return 1;
    }
    mc_check(FD_ISSET(sock_fd, &in), "server does not listen on its socket");
    if (step_kind == 1 || step_kind == 2 || step_kind == 3) check_step();
    step_kind = 0;
    nr = ready_timers(&out, &in);
    if (nr) { mc_check(++spins < 50, "server spins on an expired timer"); step_kind = 3; *r = out; return nr; }
    spins = 0;
    if (probing) { if (probing++ >= 2) longjmp(done_jb, 1);
        faulted = 0; faults_on = 0;
        memset(M, 0, sizeof(M)); n_used = 0;
        for (c = 0; c < NCL; c++) M[c].active = 0;
        e = &(ev_t){E_REQ, 11, 0, 0x1234, "p", 0};
        build(11, 0, 0, 1, 0x1234, "p", 0, "probe"); arrive();
        mc_log("probe: a new client sends a request");
        step_kind = 1; FD_SET(sock_fd, &out); *r = out; return 1;
    }
    if (script_left > 0) { script_left--; script(); step_kind = 1; deliver(&script_e); FD_SET(sock_fd, &out); *r = out; return 1; }
    if (!strcmp(mc_part, "bw-large") && depth && !M[0].bw) { mc_count("transfer"); longjmp(done_jb, 1); }
    if (!strcmp(mc_part, "bw-large")) mc_check(depth < max_depth, "the transfer does not end");
    if (depth >= max_depth) {
        if (next_probe) { probing = 1; faults_on = 0; faulted = 1; step_kind = 0; return fos_select(n, r, w, tv); }
        longjmp(done_jb, 1);
    }
    depth++;
    na = armed_list(l);
    for (c = 0; c < na; c++) mc_check(FD_ISSET(FOS_BASE + l[c], &in) || !(M[fos_fd[l[c]].owner].pend && !faulted), "server does not listen for a pending retransmission timer");
    c = values ? (depth == 1 ? 0 : 1 + mc_choose(nalpha - 1, "event")) : mc_choose(nalpha + na, "event");
    if (c < nalpha) {
        e = &alpha[c];
        if (values && e->kind == E_REQ) e->mid = (val_last.n < 4 ? 0 : val_last.b[2] * 256u + val_last.b[3]) ^ (depth & 1 ? 0x8001 : 0x4002);
        if (e->kind == E_BOTH) {
            int any = 0, k;
            for (k = 0; k < na; k++) if (M[fos_fd[l[k]].owner].pend && M[fos_fd[l[k]].owner].nretx < 4) any = 1;
            if (!any || na != 1) { mc_prune(); }
            advance(fos_fd[l[0]].deadline);
            {   ev_t e2 = *e; e2.kind = e->badop; e2.badop = 0; mc_log("timer expires together with: %s", evname(&e2)); deliver(&e2); }
            step_kind = 2; ready_timers(&out, &in);
            FD_SET(sock_fd, &out); *r = out; return 2;
        }
        if ((e->kind == E_ACKMATCH || e->kind == E_RSTMATCH || e->kind == E_ACKOLD || e->kind == E_RESPACK) && !M[e->cl].pend_mid) mc_prune();
        if ((e->kind == E_ACKREQ || e->kind == E_RSTREQ) && !M[e->cl].have_req) mc_prune();
        tick();
        mc_log("%s", evname(e));
        deliver(e);
        step_kind = 1; FD_SET(sock_fd, &out); *r = out; return 1;
    }
    c -= nalpha;                               /* sleep until the c-th earliest deadline: all earlier ones expire too */
    advance(fos_fd[l[c]].deadline);
    mc_log("time passes: %d timer(s) expire", c + 1);
    step_kind = 3; nr = ready_timers(&out, &in);
    *r = out;
    return nr;
}
ssize_t fos_send(int fd, const void *buf, size_t len, const struct sockaddr *to, socklen_t tolen)
{
    int cl; size_t ret = len;
    mc_check(fd == sock_fd, "datagram sent on the wrong descriptor");
#ifdef COAP_DTLS_EN
    if (len >= 1 && *(unsigned char *)buf == FD_ALERT) return len;
    mc_check(len >= 1 && *(unsigned char *)buf == FD_APP, "data sent outside a DTLS session");
    buf = (const char *)buf + 1; len--;
#endif
    for (cl = 0; cl < NCL; cl++) { coap_ipv_sockaddr_in_t a = addr_of(cl); if (tolen == sizeof(a) && memcmp(&a, to, sizeof(a)) == 0) break; }
    mc_check(cl < NCL, "datagram sent to an address no client has");
    mc_check(nouts < 24, "server sends without end");
    mc_check(len <= MAXD, "datagram of %zu bytes sent", len);
    outs[nouts].cl = cl; outs[nouts].n = len; memcpy(outs[nouts].b, buf, len); nouts++;
    mc_log("server -> client %d: %zu bytes %02x%02x%02x%02x", cl, len, ((unsigned char *)buf)[0], ((unsigned char *)buf)[1], ((unsigned char *)buf)[2], ((unsigned char *)buf)[3]);
    return ret;
}
ssize_t fos_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fromlen)
{
    size_t n = inbox.n; coap_ipv_sockaddr_in_t a;
    mc_check(fd == sock_fd, "receive on the wrong descriptor");
    if (!inbox_full) { errno = EAGAIN; return -1; }
    if (from) { a = addr_of(inbox.cl); memcpy(from, &a, *fromlen < sizeof(a) ? *fromlen : sizeof(a)); *fromlen = sizeof(a); }
#ifdef COAP_DTLS_EN
    {   unsigned char w[MAXD + 1];
        w[0] = hello_now ? FD_HELLO : FD_APP;
        if (hello_now) n = 0; else memcpy(w + 1, inbox.b, n);
        n++;
        memcpy(buf, w, n < len ? n : len);
        if (!(flags & MSG_PEEK)) { if (hello_now) hello_now = 0; else { inbox_full = 0; dgram_consumed++; } }
        return flags & MSG_TRUNC ? n : n < len ? n : len;
    }
#endif
    memcpy(buf, inbox.b, n < len ? n : len);
    if (!(flags & MSG_PEEK)) { inbox_full = 0; dgram_consumed++; }
    if (flags & MSG_TRUNC) return n;
    return n < len ? n : len;
}
void fos_timer_created(int fd) { fos_fd[fd - FOS_BASE].owner = inbox_full ? inbox.cl : -1; mc_check(inbox_full, "timer created without a datagram"); }
int fos_fault(const char *call)
{
    int f;
    if (!faults_on || !running) return 0;
    f = mc_dev(2, "%s", call);
    if (f) { faulted = 1; mc_count(call); return strcmp(call, "send") == 0 ? ENETUNREACH : strcmp(call, "recv") == 0 ? ECONNREFUSED : strcmp(call, "alloc") == 0 ? ENOMEM : EMFILE; }
    return 0;
}
void *__real_coap_mem_small_alloc(size_t n); void *__real_coap_mem_medium_alloc(size_t n); void *__real_coap_mem_large_alloc(size_t n);
void *__wrap_coap_mem_small_alloc(size_t n) { return fos_fault("alloc") ? NULL : __real_coap_mem_small_alloc(n); }
void *__wrap_coap_mem_medium_alloc(size_t n) { return fos_fault("alloc") ? NULL : __real_coap_mem_medium_alloc(n); }
void *__wrap_coap_mem_large_alloc(size_t n) { return fos_fault("alloc") ? NULL : __real_coap_mem_large_alloc(n); }

#ifdef COAP_DTLS_EN
int fd_handshake(fd_sess_t *s)
{
    unsigned char w[2048]; int e = 0; ssize_t n;
    if (fos_fault("gnutls_handshake")) return GNUTLS_E_DECRYPTION_FAILED;
    n = fd_pull(s, w, sizeof(w), &e);
    if (n < 0) return e;
    if (n < 1 || w[0] != FD_HELLO) return GNUTLS_E_AGAIN;
    s->cl = inbox.cl;
    return 0;
}
#endif

#include "h_server_bw.h"

/* ---------------------------------------------------------------- one execution */
static void lru_script(void) { int k = 8 - (script_left + 1); script_e = (ev_t){E_REQ, k, 0, 100 + k, "p", 0}; tick(); }
void mc_setup(void) { int bw = strstr(mc_part, "bw") != NULL; if (!strcmp(mc_part, "bw-large")) bw_limit = 66048; mc_shard_depth(!strcmp(mc_part, "bw-up") ? 6 : bw ? 5 : 3); pool_init(bw ? 192 : 256, 64, bw ? 40 : 64, 1152, 16, bw_limit); bw_fill(BW_MAX); }

static void setup_part(void)
{
    unsigned i;
    static const unsigned ids[] = {0, 1, 65535, 7, 0x100};
    nalpha = 0; near = 0; next_probe = 0; values = 0; script_left = 0; tick_ns = 0; faults_on = 0;
    mc_set_dev_budget(0);
    if (!strcmp(mc_part, "dedup")) {
        max_depth = mc_tier ? 6 : 5;
        for (i = 0; i < 3; i++) { ev(E_REQ, 0, 0, ids[i], "p", 0); }
        ev(E_REQ, 0, 1, 0x11, "p", 0); ev(E_REQ, 0, 1, 0x10, "s", 0);
        ev(E_REQ, 0, 0, 0x22, "s", 0); ev(E_REQ, 0, 0, 0x23, "long/sep", 0);
        ev(E_REQ, 0, 0, 0x25, "p", 9);
        ev(E_REQ, 1, 0, 0, "p", 0); ev(E_REQ, 1, 0, 0x22, "s", 0);
        ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_RSTMATCH, 0, 0, 0, 0, 0); ev(E_ACKBOGUS, 0, 0, 0, 0, 0); ev(E_PING, 0, 0, 0x300, 0, 0); ev(E_MALCON, 0, 0, 0x303, 0, 0); ev(E_ACKREQ, 0, 0, 0, 0, 0);
    } else if (!strcmp(mc_part, "reply")) {
        max_depth = mc_tier ? 5 : 4;
        for (i = 0; i < 5; i++) ev(E_REQ, 0, 0, ids[i], "p", 0);
        for (i = 0; i < 4; i++) ev(E_REQ, 0, 1, ids[i] ^ 0x40, i & 1 ? "s" : "p", 0);
        for (i = 0; i < 4; i++) ev(E_REQ, 0, 0, ids[i] ^ 0x20, i & 1 ? "s" : "long/sep", 0);
        ev(E_REQ, 0, 0, 0x31, "ss", 0); ev(E_REQ, 0, 0, 0x32, "s/x", 0); ev(E_REQ, 0, 0, 0x33, "long", 0);
        ev(E_REQ, 1, 0, 0x22, "s", 0); ev(E_REQ, 1, 0, 7, "p", 0); ev(E_REQ, 2, 1, 7, "p", 0); ev(E_REQ, 2, 0, 8, "p", 0); ev(E_REQ, 3, 0, 7, "p", 0);
    } else if (!strcmp(mc_part, "retransmit")) {
        max_depth = mc_tier ? 8 : 7;
        ev(E_REQ, 0, 0, 0x22, "s", 0); ev(E_REQ, 0, 0, 0x24, "s", 0); ev(E_REQ, 0, 0, 5, "p", 0);
        ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_RSTMATCH, 0, 0, 0, 0, 0); ev(E_ACKOLD, 0, 0, 0, 0, 0); ev(E_RESPACK, 0, 0, 0, 0, 0);
        ev(E_BOTH, 0, 0, 0, 0, E_ACKMATCH);
    } else if (!strcmp(mc_part, "retransmit2")) {
        max_depth = mc_tier ? 7 : 6;
        ev(E_REQ, 0, 0, 0x22, "s", 0); ev(E_REQ, 1, 0, 0x22, "s", 0); ev(E_REQ, 2, 1, 0x24, "s", 0);
        ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_RSTMATCH, 1, 0, 0, 0, 0);
        ev(E_PING, 0, 0, 0x300, 0, 0); ev(E_RSTBOGUS, 0, 0, 0, 0, 0); ev(E_ACKREQ, 0, 0, 0, 0, 0); ev(E_MALNON, 0, 0, 0x304, 0, 0);
    } else if (!strcmp(mc_part, "retransmit-long")) {      /* one pending response, long enough to give up and start over */
        max_depth = mc_tier ? 13 : 11;
        ev(E_REQ, 0, 0, 0x22, "s", 0); ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_MALCON, 0, 0, 0x303, 0, 0);
    } else if (!strcmp(mc_part, "reject")) {
        max_depth = mc_tier ? 5 : 4;
        ev(E_PING, 0, 0, 0x300, 0, 0); ev(E_PING, 1, 0, 0, 0, 0); ev(E_RESPCON, 0, 0, 0x301, 0, 0); ev(E_RESPNON, 0, 0, 0x302, 0, 0);
        ev(E_MALCON, 0, 0, 0xfffe, 0, 0); ev(E_MALNON, 0, 0, 0x304, 0, 0); ev(E_MALOPT, 0, 0, 0x8081, 0, 0); ev(E_SHORT, 0, 0, 0, 0, 0);
        ev(E_MALACK, 0, 0, 0x306, 0, 0); ev(E_BIGREQ, 0, 0, 0x310, 0, 1153); ev(E_BIGREQ, 0, 1, 0x311, 0, 1400); ev(E_BIGREQ, 0, 0, 0x312, 0, 1152);
        ev(E_VER2, 0, 0, 0x305, 0, 0); ev(E_VER0, 0, 0, 0x305, 0, 0); ev(E_ACKBOGUS, 0, 0, 0, 0, 0); ev(E_RSTBOGUS, 0, 0, 0, 0, 0);
        ev(E_REQ, 0, 0, 2, "p", 9); ev(E_REQ, 0, 0, 0x20, "s", 13); ev(E_REQ, 0, 1, 3, "p", 21); ev(E_REQ, 0, 0, 6, "p", 2048 + 1); ev(E_REQ, 0, 0, 8, "p", 10); ev(E_REQ, 0, 0, 9, "p", 2048);
        ev(E_REQ, 0, 0, 4, "p", 0); ev(E_REQ, 0, 0, 0x22, "s", 0); ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_ACKREQ, 0, 0, 0, 0, 0); ev(E_RSTREQ, 0, 0, 0, 0, 0);
    } else if (!strcmp(mc_part, "values")) {
        max_depth = mc_tier ? 3 : 2; values = 1;
        ev(E_VAL, 0, 0, 0, 0, 0); ev(E_AGAIN, 0, 0, 0, 0, 0); ev(E_REQ, 0, 0, 0x4242, "p", 0); ev(E_ACKMATCH, 0, 0, 0, 0, 0);
    } else if (!strcmp(mc_part, "isolate")) {
        max_depth = mc_tier ? 6 : 5;
        for (i = 0; i < 4; i++) { ev(E_REQ, i, 0, 7, "p", 0); ev(E_REQ, i, 0, 0x22, "s", 0); }
        ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_ACKMATCH, 2, 0, 0, 0, 0); ev(E_MALCON, 1, 0, 7, 0, 0); ev(E_REQ, 3, 0, 9, "e", 0);
        ev(E_REQ, 0, 0, 8, "p", 0); ev(E_REQ, 1, 1, 7, "p", 0);
    } else if (!strcmp(mc_part, "neighbours")) {
        max_depth = 3; near = 1 + mc_choose(NEAR_N, "byte of the address in which the clients differ");
        for (i = 0; i < 3; i++) { ev(E_REQ, i, 0, 7, "p", 0); ev(E_REQ, i, 0, 0x22, "s", 0); if (i) ev(E_ACKMATCH, i, 0, 0, 0, 0); }
    } else if (!strcmp(mc_part, "lru")) {
        max_depth = mc_tier ? 5 : 4; tick_ns = 1000000000ull; script = lru_script; script_left = 8;
        for (i = 0; i < 8; i++) ev(E_REQ, i, 0, 100 + i, "p", 0);             /* duplicates: replayed only if still remembered */
        ev(E_REQ, 8, 0, 108, "p", 0); ev(E_REQ, 9, 0, 109, "p", 0); ev(E_REQ, 10, 0, 110, "s", 0); ev(E_REQ, 3, 0, 200, "s", 0);
        ev(E_MALCON, 8, 0, 0x303, 0, 0); ev(E_PING, 0, 0, 0x300, 0, 0);
    } else if (!strncmp(mc_part, "faults", 6)) {
        max_depth = 4; next_probe = 1; faults_on = 1; mc_set_dev_budget(mc_tier ? 2 : 1);
        if (!strcmp(mc_part, "faults-bw")) {
            ev(E_BW, 0, 0, 0, 0, 0); ev(E_REQ, 0, 0, 4, "p", 0);
        } else {
            ev(E_REQ, 0, 0, 4, "p", 0); ev(E_REQ, 0, 0, 0x22, "s", 0); ev(E_REQ, 0, 1, 7, "p", 0); ev(E_REQ, 0, 0, 9, "p", 9); ev(E_REQ, 0, 0, 5, "e", 0);
            ev(E_REQ, 1, 0, 4, "s", 0); ev(E_ACKMATCH, 0, 0, 0, 0, 0); ev(E_MALCON, 0, 0, 0x303, 0, 0); ev(E_PING, 0, 0, 0x300, 0, 0); ev(E_SHORT, 0, 0, 0, 0, 0); ev(E_VER2, 0, 0, 0x306, 0, 0);
        }
    } else if (!strncmp(mc_part, "bw-", 3)) {
        max_depth = bw_setup();
        ev(E_BW, 0, 0, 0, 0, 0);
    } else mc_internal("unknown part %s", mc_part);
    if (!tick_ns) tick_ns = 100000000ull;
    bw_reset();
#ifdef COAP_DTLS_EN
    if (max_depth > 3) max_depth--;
#endif
}

void mc_execute(void)
{
    int r;
    if (mc_dirty) pool_again();
    fos_reset();
#ifdef COAP_DTLS_EN
    fd_reset();
#endif
    memset(M, 0, sizeof(M));
    inbox_full = 0; nouts = 0; nh = 0; hcount = 0; val_resp = 0; depth = 0; n_used = 0; running = 0; faulted = 0; probing = 0; spins = 0; step_kind = 0; strict = 1;
    setup_part();
    fos_rand_mode = !strncmp(mc_part, "retransmit", 10) ? mc_choose(3, "random numbers") : 0;
    {   int k = !strcmp(mc_part, "reply") ? mc_choose(2, "first response ID") : 0;
        fos_rand_state = 12345;
        memset(&server, 0, sizeof(server));
        r = coap_server_create(&server, handle, "h", "5683" FD_SERVER_ARGS);
        mc_check(r == 0, "coap_server_create fails: %d", r);
        if (k) { int g; for (g = 0; g < 70000 && coap_server_get_next_msg_id(&server) != 65533; g++) {} }   /* wrap-around soon */
    }
    sock_fd = fos_find(FOS_SOCK);
    r = coap_server_add_sep_resp_uri_path(&server, "/s");
    mc_check(r == 0, "cannot register a path");
    r = coap_server_add_sep_resp_uri_path(&server, "/long/sep");
    mc_check(r == 0, "cannot register a path");
    if (setjmp(done_jb) == 0) {
        running = 1;
        r = coap_server_run(&server);
        mc_fail("the server stopped serving (coap_server_run returned %d)", r);
    }
    running = 0; faults_on = 0;
    coap_server_destroy(&server);
    mc_check(fos_open_count() == 0, "%d descriptor(s) still open after the server was destroyed", fos_open_count());
    pool_expect(0, 0, 0, "after the server was destroyed");
#ifdef COAP_DTLS_EN
    fd_released("after the server was destroyed");
#endif
}
