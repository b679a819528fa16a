/* The CoAP client and the CoAP server of this library, both run unmodified and against each other, over a network that
 * loses, duplicates, delays and reorders datagrams: every combination of such misbehaviour up to a budget, with the
 * retransmission timers of both sides running on a simulated clock. */
#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include "pool.h"
#include "ref_coap.h"
#include "coap_server.h"
#include "coap_client.h"
#include "coap_mem.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <ucontext.h>
#include <arpa/inet.h>

#define MAXD 1400
#define QN 24
typedef struct { unsigned char b[MAXD]; size_t n; int to_server; } dg_t;
static coap_server_t server; static coap_client_t client;
static ucontext_t main_ctx, srv_ctx; static char stack[512 * 1024];
static int only_loss, in_server, s_sock, c_sock, c_timer, clean, clock_steps;
static dg_t flight[QN], held[8], cin[QN], sin_dg; static int nflight, nheld, ncin, sin_full;
static int step_max;

/* ------------------------------------------------------------ what is known about the current exchange */
enum { NTAG = 8 };
static int tag_now, calls[NTAG], total_calls, rx_calls, bad, stale, srv_fires, gaveup;
static unsigned cur_mid, last_mid; static int have_cur, have_last, bw_now;
static unsigned char up[128], down[128], putresp[128], rx_body[128]; static size_t uplen, downlen, resplen, rx_len;

static coap_ipv_sockaddr_in_t client_addr(void)
{
    coap_ipv_sockaddr_in_t a;
    memset(&a, 0, sizeof(a)); *(sa_family_t *)&a = COAP_IPV_AF_INET; a.COAP_IPV_SIN_PORT = htons(40000);
    return a;
}
static int tag_of(const rmsg_t *m) { unsigned i; for (i = 0; i < m->nop && i < RMAXOP; i++) if (m->op[i].num == 15 && m->op[i].len == 2) return m->op[i].val[1] - '0'; return -1; }

/* ------------------------------------------------------------ the application on the server */
static int rx(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    rx_calls++;
    rx_len = coap_server_trans_get_body_end(t);
    mc_check(rx_len <= sizeof(rx_body), "body of %zu bytes", rx_len);
    memcpy(rx_body, coap_server_trans_get_body(t), rx_len);
    memcpy(coap_server_trans_get_body(t), putresp, resplen); coap_server_trans_set_body_end(t, resplen);
    return coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CHANGED);
}
static int handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    coap_msg_op_t *op; int tag = -1, bw = 0; char pl[16]; int r;
    for (op = coap_msg_get_first_op(req); op; op = coap_msg_op_get_next(op)) {
        if (coap_msg_op_get_num(op) == COAP_MSG_URI_QUERY && coap_msg_op_get_len(op) == 2) tag = coap_msg_op_get_val(op)[1] - '0';
        if (coap_msg_op_get_num(op) == COAP_MSG_URI_PATH && coap_msg_op_get_len(op) == 1 && coap_msg_op_get_val(op)[0] == 'b') bw = 1;
    }
    mc_check(tag >= 0 && tag < NTAG, "the server handles a request nobody sent");
    calls[tag]++; total_calls++;
    if (bw && coap_msg_get_code_detail(req) == COAP_MSG_GET) return coap_server_trans_handle_blockwise(t, req, resp, 16, 16, (char *)down, downlen, NULL);
    if (bw) return coap_server_trans_handle_blockwise(t, req, resp, 16, 16, (char *)putresp, 128, rx);
    r = coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
    if (r < 0) return r;
    snprintf(pl, sizeof(pl), "r%d#%d", tag, calls[tag]);
    return coap_msg_set_payload(resp, pl, strlen(pl));
}
static void server_main(void) { int r = coap_server_run(&server); mc_fail("the server stops serving (%d)", r); }

/* ------------------------------------------------------------ the network */
static void run_server(void)
{
    int before = total_calls; rmsg_t m; int req = 0, dup = 0;
    if (sin_full) {
        mc_check(ref_decode(&m, sin_dg.b, sin_dg.n) == REF_OK, "the client sent a malformed datagram");
        req = m.cls == 0 && m.det && m.type < 2;
        if (req) {
            dup = have_last && m.mid == last_mid && !gaveup;
            if (!have_cur || m.mid != cur_mid) { stale = 1; mc_count("old request arrives late"); }
        }
    }
    in_server = 1;
    swapcontext(&main_ctx, &srv_ctx);
    in_server = 0;
    mc_check(!sin_full, "the server does not read a datagram");
    if (dup) { mc_check(total_calls == before, "the server handles a retransmitted request twice"); mc_count("duplicate request"); }
    else if (req) { if (!bw_now) mc_check(total_calls == before + 1, "the server handled a new request %d times", total_calls - before); last_mid = m.mid; have_last = 1; gaveup = 0; srv_fires = 0; }
    else mc_check(total_calls == before, "the application is called without a request");
}
static void enqueue(dg_t *q, int *n, const dg_t *d) { mc_check(*n < QN, "datagrams without end"); q[(*n)++] = *d; }
static dg_t dequeue(dg_t *q, int *n, int i) { dg_t d = q[i]; (*n)--; memmove(q + i, q + i + 1, (*n - i) * sizeof(*q)); return d; }
ssize_t fos_send(int fd, const void *buf, size_t len, const struct sockaddr *to, socklen_t tl)
{
    dg_t d; rmsg_t m; int k;
    mc_check(fd == (in_server ? s_sock : c_sock), "datagram sent on the wrong descriptor");
    mc_check(len <= MAXD, "datagram of %zu bytes", len);
    memset(&d, 0, sizeof(d.n)); d.n = len; memcpy(d.b, buf, len); d.to_server = !in_server;
    if (in_server) { coap_ipv_sockaddr_in_t a = client_addr(); mc_check(tl == sizeof(a) && !memcmp(to, &a, sizeof(a)), "the server sends to somebody else"); }
    mc_check(ref_decode(&m, d.b, d.n) == REF_OK, "a malformed datagram is sent");
    if (!in_server && m.cls == 0 && m.det) { cur_mid = m.mid; have_cur = 1; }
    k = clean ? 0 : only_loss ? mc_dev(2, "%s datagram is lost", in_server ? "server's" : "client's") : mc_dev(5, "%s datagram: arrives / lost / doubled / doubled, one late / late", in_server ? "server's" : "client's");
    mc_log("%s sends type %u code %u.%02u id %u%s", in_server ? "server" : "client", m.type, m.cls, m.det, m.mid, (const char *[]){"", ": lost", ": doubled", ": doubled, one is late", ": late"}[k]);
    if (k == 1 || k == 4) bad++;
    if (k != 1 && k != 4) enqueue(flight, &nflight, &d);
    if (k == 2) enqueue(flight, &nflight, &d);
    if (k >= 3) { mc_check(nheld < 8, "held"); held[nheld++] = d; }
    return len;
}
ssize_t fos_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fl)
{
    dg_t *d; size_t n;
    if (in_server) {
        mc_check(fd == s_sock, "receive on the wrong descriptor");
        if (!sin_full) { errno = EAGAIN; return -1; }
        d = &sin_dg;
        if (from) { coap_ipv_sockaddr_in_t a = client_addr(); memcpy(from, &a, *fl < sizeof(a) ? *fl : sizeof(a)); *fl = sizeof(a); }
    } else {
        mc_check(fd == c_sock, "receive on the wrong descriptor");
        if (!ncin) { errno = EAGAIN; return -1; }
        d = &cin[0];
    }
    n = d->n; memcpy(buf, d->b, n < len ? n : len);
    if (!(flags & MSG_PEEK)) { if (in_server) sin_full = 0; else dequeue(cin, &ncin, 0); }
    return flags & MSG_TRUNC ? n : n < len ? n : len;
}
static int earliest(void) { int i, b = -1; for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && fos_fd[i].armed && (b < 0 || fos_fd[i].deadline < fos_fd[b].deadline)) b = i; return b; }
static void deliver(const dg_t *d)
{
    if (d->to_server) { sin_dg = *d; sin_full = 1; run_server(); }
    else enqueue(cin, &ncin, d);
}
static void fire(int t)
{
    if (fos_fd[t].deadline > fos_now) fos_now = fos_fd[t].deadline;
    fos_fd[t].armed = 0; fos_fd[t].expired = 1;
    mc_log("%llu ms: a timer of the %s expires", (unsigned long long)(fos_now / 1000000), FOS_BASE + t == c_timer ? "client" : "server");
    if (FOS_BASE + t != c_timer) { if (++srv_fires >= 5) gaveup = 1; run_server(); mc_count("server timer"); }
}
/* one thing happens; 0 if nothing can */
static int network_step(void)
{
    int k, t; dg_t d;
    if (nheld && !clean && (k = mc_choose(1 + nheld, "a late datagram arrives now"))) { d = held[k - 1]; memmove(held + k - 1, held + k, (nheld - k) * sizeof(dg_t)); nheld--; mc_log("a late datagram arrives"); deliver(&d); return 1; }
    if (nflight) { d = dequeue(flight, &nflight, 0); fos_now += 20000000ull; deliver(&d); return 1; }
    t = earliest();
    if (t < 0) return 0;
    fire(t);
    return 1;
}
int fos_select(int n, fd_set *r, fd_set *w, struct timeval *tv)
{
    fd_set in = *r, out; int i, c = 0;
    if (in_server) {
        for (;;) {
            FD_ZERO(&out);
            mc_check(FD_ISSET(s_sock, &in), "the server does not listen on its socket");
            if (sin_full) { FD_SET(s_sock, &out); c++; }
            for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && FOS_BASE + i != c_timer && fos_fd[i].expired && FD_ISSET(FOS_BASE + i, &in)) { FD_SET(FOS_BASE + i, &out); c++; }
            if (c) { mc_check(++step_max < 20000, "the server is busy without end"); *r = out; return c; }
            swapcontext(&srv_ctx, &main_ctx);
        }
    }
    mc_check(FD_ISSET(c_sock, &in) && FD_ISSET(c_timer, &in), "the client does not wait for both its socket and its timer");
    FD_ZERO(r);
    for (;;) {
        mc_check(++step_max < 20000, "the exchange does not end");
        if (ncin) { FD_SET(c_sock, r); c++; }
        if (fos_fd[c_timer - FOS_BASE].expired) { FD_SET(c_timer, r); c++; }
        if (c) return c;
        mc_check(network_step(), "the client waits although nothing can happen any more");
    }
}
void fos_timer_created(int fd) {}
int fos_fault(const char *c) { return 0; }

/* ------------------------------------------------------------ exchanges */
static void begin(int tag) { tag_now = tag; bad = 0; stale = 0; have_cur = 0; step_max = 0; }
static void end(int ret, int con, int ok, int tolerated)
{
    mc_log("exchange %d returns %d (%d lost or late%s)", tag_now, ret, bad, stale ? ", old requests arrived" : "");
    mc_check(fos_now < 3600ull * 1000000000ull * 100, "time");
    if (!ok) {
        mc_check(ret <= 0, "the exchange returns %d", ret);
        mc_check(stale || bad > (con ? tolerated : 0), "the %s exchange fails (%d) although only %d datagram(s) were lost or late", con ? "confirmable" : "non-confirmable", ret, bad);
        mc_count(stale ? "failed: disturbed by an old request" : "failed: too many losses");
    } else mc_count(bad ? "succeeded despite losses" : "succeeded");
    {   uint64_t h = mc_hash_u(11, tag_now * 2 + !!ok); h = mc_hash_u(h, ncin * 8 + nheld); h = mc_hash_u(h, nflight * 16 + bad); h = mc_hash_u(h, have_last * 2 + stale); h = mc_hash_u(h, rx_calls * 8 + total_calls); mc_state(h); }
}
static int lenient;                                /* an interrupted block-wise transfer may cost the next request */
static void simple(int tag, int con, const char *path)
{
    coap_msg_t req, resp; int ret, ok = 0, base; char t[3] = {'t', '0' + tag, 0}; char want[16];
    coap_msg_create(&req); coap_msg_create(&resp);
    coap_msg_set_type(&req, con ? COAP_MSG_CON : COAP_MSG_NON); coap_msg_set_code(&req, COAP_MSG_REQ, COAP_MSG_GET);
    coap_msg_add_op(&req, COAP_MSG_URI_PATH, 1, path); coap_msg_add_op(&req, COAP_MSG_URI_QUERY, 2, t);
    begin(tag); base = calls[tag]; bw_now = lenient;
    mc_log("exchange %d: %s request for /%s", tag, con ? "CON" : "NON", path);
    ret = coap_client_exchange(&client, &req, &resp);
    if (lenient) ok = 1;
    else if (ret == 0) {
        ok = 1;
        mc_check(coap_msg_get_code_class(&resp) == 2 && coap_msg_get_code_detail(&resp) == 5, "response %u.%02u", coap_msg_get_code_class(&resp), coap_msg_get_code_detail(&resp));
        snprintf(want, sizeof(want), "r%d#", tag);
        mc_check(coap_msg_get_payload_len(&resp) > strlen(want) && !memcmp(coap_msg_get_payload(&resp), want, strlen(want)), "the exchange succeeds with the answer to another request (%.*s)", (int)coap_msg_get_payload_len(&resp), coap_msg_get_payload(&resp));
        mc_check(calls[tag] > base, "success, but the server never handled the request");
        if (!stale && !gaveup) mc_check(calls[tag] == base + 1, "the request was handled %d times", calls[tag] - base);
    }
    end(ret, con, ok, *path == 's' ? 3 : 4);
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
}
static int bw_ok;
static void blockwise(int tag, int det)
{
    coap_msg_t req, resp; ssize_t ret; int ok; char t[3] = {'t', '0' + tag, 0}, buf[128]; size_t n = det == 1 ? downlen : resplen;
    coap_msg_create(&req); coap_msg_create(&resp);
    coap_msg_set_type(&req, COAP_MSG_CON); coap_msg_set_code(&req, COAP_MSG_REQ, det);
    coap_msg_add_op(&req, COAP_MSG_URI_PATH, 1, "b"); coap_msg_add_op(&req, COAP_MSG_URI_QUERY, 2, t);
    begin(tag); bw_now = 1; rx_calls = 0;
    memset(buf, 0, sizeof(buf)); if (det != 1) memcpy(buf, up, uplen);
    mc_log("exchange %d: block-wise %s", tag, det == 1 ? "download" : "upload");
    ret = coap_client_exchange_blockwise(&client, &req, &resp, 16, 16, buf, det == 1 ? sizeof(buf) : uplen, 0);
    ok = ret >= 0 && coap_msg_get_code_class(&resp) == 2;
    bw_ok = ok;
    if (ok) {
        mc_check((size_t)ret == n && !memcmp(buf, det == 1 ? down : putresp, n), "the body received is not the body sent (%zd bytes, expected %zu)", ret, n);
        if (det != 1) {
            mc_check(rx_calls >= 1 && (stale || rx_calls == 1), "the application was given the body %d times", rx_calls);
            mc_check(rx_len == uplen && !memcmp(rx_body, up, uplen), "the application was not given the body that was sent");
        }
    }
    end(ret < 0 ? (int)ret : 0, 1, ok, 3);
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
}
static void idle(void)                            /* the application does something else; the network goes on */
{
    int k = mc_choose(3, "pause"), t;
    if (!k) return;
    mc_log("pause");
    while (nflight) { dg_t d = dequeue(flight, &nflight, 0); deliver(&d); }
    if (k == 2) { t = earliest(); if (t >= 0 && FOS_BASE + t == c_timer) { fos_fd[t].armed = 0; fos_fd[t].expired = 1; t = earliest(); } if (t >= 0) { fire(t); while (nflight) { dg_t d = dequeue(flight, &nflight, 0); deliver(&d); } } }
}
void mc_setup(void) { size_t k; pool_init(192, 64, 40, 1152, 16, 128); mc_shard_depth(5); for (k = 0; k < sizeof(up); k++) { up[k] = 7 + k * 3; down[k] = 200 - k; putresp[k] = 90 + k * 5; } }
void mc_execute(void)
{
    int r, i, n, kind[4];
    if (mc_dirty) pool_again();
    fos_reset();
    only_loss = in_server = clean = lenient = 0; c_timer = -1; nflight = nheld = ncin = sin_full = 0; memset(calls, 0, sizeof(calls)); total_calls = rx_calls = 0; gaveup = srv_fires = have_last = have_cur = 0;
    memset(&server, 0, sizeof(server)); memset(&client, 0x55, sizeof(client));
    mc_set_dev_budget(mc_tier ? 3 : 2);
    r = coap_server_create(&server, handle, "h", "5683"); mc_check(r == 0, "coap_server_create fails: %d", r);
    s_sock = fos_find(FOS_SOCK);
    r = coap_server_add_sep_resp_uri_path(&server, "/s"); mc_check(r == 0, "coap_server_add_sep_resp_uri_path fails: %d", r);
    r = coap_client_create(&client, "h", "5683"); mc_check(r == 0, "coap_client_create fails: %d", r);
    for (i = 0; i < FOS_N; i++) { if (fos_fd[i].kind == FOS_SOCK && FOS_BASE + i != s_sock) c_sock = FOS_BASE + i; if (fos_fd[i].kind == FOS_TIMER) c_timer = FOS_BASE + i; }
    getcontext(&srv_ctx); srv_ctx.uc_stack.ss_sp = stack; srv_ctx.uc_stack.ss_size = sizeof(stack); srv_ctx.uc_link = NULL;
    makecontext(&srv_ctx, server_main, 0);
    run_server();                                  /* until it waits */
    if (!strcmp(mc_part, "exchanges")) {
        n = 2;
        for (i = 0; i < n; i++) kind[i] = mc_choose(4, "CON / CON, separate / NON / NON, separate");
        for (i = 0; i < n; i++) { simple(i, kind[i] < 2, kind[i] & 1 ? "s" : "p"); idle(); }
    } else if (!strcmp(mc_part, "loss")) {         /* nothing but losses, many of them */
        only_loss = 1; mc_set_dev_budget(mc_tier ? 14 : 11);
        for (i = 0; i < 2; i++) kind[i] = mc_choose(2, "CON / CON, separate");
        fos_rand_state = 12345 + 7919u * mc_choose(mc_tier ? 4 : 1, "random numbers");
        for (i = 0; i < 2; i++) simple(i, 1, kind[i] ? "s" : "p");
    } else if (!strcmp(mc_part, "one")) {          /* a single exchange, more misbehaviour */
        mc_set_dev_budget(mc_tier ? 5 : 4);
        i = mc_choose(2, "CON / CON, separate"); simple(0, 1, i ? "s" : "p"); idle();
    } else if (!strcmp(mc_part, "blockwise")) {
        static const size_t L[] = {1, 16, 17, 40};
        uplen = downlen = L[mc_choose(4, "body")]; r = mc_choose(4, "download / upload / put or post, with a response"); resplen = r == 2 ? (uplen + 1) / 2 : r == 3 ? uplen : 0;
        blockwise(0, r == 0 ? 1 : r == 3 ? 2 : 3); idle();
        nflight = 0;                                 /* what is still under way is lost */
        if (!bw_ok || stale) { clean = 1; nheld = 0; lenient = 1; simple(1, 1, "p"); lenient = 0; }
    } else mc_internal("unknown part %s", mc_part);
    clean = 1; nheld = 0;
    mc_log("the network is sound again");
    simple(NTAG - 1, 1, mc_choose(2, "final exchange") ? "s" : "p");
    mc_check(calls[NTAG - 1] == 1, "the final exchange was handled %d times", calls[NTAG - 1]);
    coap_client_destroy(&client);
    coap_server_destroy(&server);
    mc_check(fos_open_count() == 0, "descriptors left open");
    pool_expect(0, 0, 0, "in the end");
}
