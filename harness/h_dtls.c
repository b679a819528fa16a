/* DTLS sessions of the CoAP server and client, on a stand-in for GnuTLS: whose messages reach the application, which
 * certificates are accepted, what one client's handshake or alert does to the others, what is released. */
#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include "fakedtls.h"
#include "pool.h"
#include "ref_coap.h"
#include "coap_server.h"
#include "coap_client.h"
#include "coap_mem.h"
#include <gnutls/gnutls.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <setjmp.h>
#include <arpa/inet.h>

#define NCL 12
typedef struct { unsigned char b[64]; size_t n; int cl; } dg_t;
static coap_server_t server; static coap_client_t client; static jmp_buf done_jb;
static dg_t inbox[4]; static int nin, sock_fd, depth, max_depth, running, faults_on, faulted, auth, probing;
static int handled, answers[NCL], mid;
static int hs_script, cl_hs, cl_again; enum { HS_OK, HS_TWO, HS_FATAL, HS_ERR, HS_WARN, HS_TIMEOUT, HS_BADCERT, HS_N };
static int had[NCL], may_end = -1, expect_cl = -1, expect_n, in_event, nested_n, spins, refused;
static uint64_t hs_start; static fd_sess_t *hs_sess; static unsigned hs_waits;
static const char *evn = "";

static coap_ipv_sockaddr_in_t addr_of(int cl)
{
    coap_ipv_sockaddr_in_t a;
    memset(&a, 0, sizeof(a)); *(sa_family_t *)&a = COAP_IPV_AF_INET;
    a.COAP_IPV_SIN_PORT = htons(5000 + cl);
#ifdef COAP_IP6
    a.sin6_addr.s6_addr[15] = 1;
#else
    a.sin_addr.s_addr = htonl(0x0a000001);
#endif
    return a;
}
static int handle(coap_server_trans_t *t, coap_msg_t *req, coap_msg_t *resp)
{
    handled++;
    coap_msg_set_code(resp, COAP_MSG_SUCCESS, COAP_MSG_CONTENT);
    return coap_msg_set_payload(resp, "ok", 2);
}
static void put(int cl, int type, const void *d, size_t n)
{
    dg_t *g = &inbox[nin++];
    mc_check(nin <= 4, "inbox"); g->cl = cl; g->n = 0;
    if (type >= 0) g->b[g->n++] = type;
    memcpy(g->b + g->n, d, n); g->n += n;
}
static void put_req(int cl, int type)
{
    unsigned char m[8] = {0x41, 0x01, 0, 0, 0x77, 0xb1, 'p'};
    mid++; m[2] = mid >> 8; m[3] = mid; m[4] = 0x70 + cl;
    put(cl, type, m, 7);
}
ssize_t fos_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fl)
{
    dg_t *g = &inbox[0]; size_t n = g->n; coap_ipv_sockaddr_in_t a;
    mc_check(fd == sock_fd, "receive on the wrong descriptor");
    if (!nin) { errno = EAGAIN; return -1; }
    if (from) { a = addr_of(g->cl); memcpy(from, &a, *fl < sizeof(a) ? *fl : sizeof(a)); *fl = sizeof(a); }
    fd_now_cl = g->cl;
    memcpy(buf, g->b, n < len ? n : len);
    if (!(flags & MSG_PEEK)) { nin--; memmove(inbox, inbox + 1, nin * sizeof(dg_t)); spins = 0; }
    return flags & MSG_TRUNC ? n : n < len ? n : len;
}
ssize_t fos_send(int fd, const void *buf, size_t len, const struct sockaddr *to, socklen_t tl)
{
    const unsigned char *b = buf; int cl; rmsg_t m;
    mc_check(fd == sock_fd, "datagram sent on the wrong descriptor");
    if (!auth || to) {
        for (cl = 0; cl < NCL; cl++) { coap_ipv_sockaddr_in_t a = addr_of(cl); if (tl == sizeof(a) && !memcmp(&a, to, sizeof(a))) break; }
        if (auth == 2) { coap_ipv_sockaddr_in_t a = addr_of(683); mc_check(tl == sizeof(a), "address length"); return len; }
        mc_check(cl < NCL, "datagram sent to an address no client has");
        if (b[0] == FD_ALERT) { mc_log("server closes the session of client %d", cl); return len; }
        mc_check(b[0] == FD_APP, "data sent outside a DTLS session");
        mc_check(fd_session_of(cl) != NULL, "data sent to client %d, which has no session", cl);
        mc_check(ref_decode(&m, b + 1, len - 1) == REF_OK, "malformed message sent");
        mc_check(m.type == 2 && m.cls == 2 && m.tkl == 1 && m.tok[0] == 0x70 + cl && m.mid == (unsigned)mid, "client %d is sent something that does not answer its request", cl);
        answers[cl]++; mc_log("server answers client %d", cl);
    }
    return len;
}
void fos_timer_created(int fd) {}
int fos_fault(const char *c)
{
    if (!faults_on || !running) return 0;
    if (mc_dev(2, "%s", c)) { faulted = 1; return !strcmp(c, "recv") ? ECONNREFUSED : !strcmp(c, "send") ? ENETUNREACH : EMFILE; }
    return 0;
}
int fd_handshake(fd_sess_t *s)
{
    unsigned char w[2048]; int e = 0; ssize_t n;
    if (hs_sess != s) { hs_sess = s; hs_start = fos_now; hs_waits = 0; }
    if (!s->server) {
        if (fos_fault("handshake")) return GNUTLS_E_DECRYPTION_FAILED;
        s->cl = 0;
        if (cl_again) { if (cl_again < 99) cl_again--; return GNUTLS_E_AGAIN; }
        return cl_hs;
    }
    if (fos_now - hs_start >= 60000000000ull) return GNUTLS_E_TIMEDOUT;
    n = fd_pull(s, w, sizeof(w), &e);
    if (n < 0) return e;
    mc_check(s->cl < 0 || s->cl == fd_now_cl, "a datagram of client %d enters the handshake of client %d", fd_now_cl, s->cl);
    s->cl = fd_now_cl;
    if (w[0] == FD_ALERT) { s->alert = 1; return GNUTLS_E_FATAL_ALERT_RECEIVED; }
    if (w[0] != FD_HELLO) return GNUTLS_E_AGAIN;
    switch (hs_script) {
    case HS_TWO: hs_script = HS_OK; return GNUTLS_E_AGAIN;
    case HS_FATAL: refused = 1; return GNUTLS_E_FATAL_ALERT_RECEIVED;
    case HS_WARN: return GNUTLS_E_WARNING_ALERT_RECEIVED;
    case HS_ERR: refused = 1; return GNUTLS_E_NO_CIPHER_SUITES;
    case HS_TIMEOUT: refused = 1; return GNUTLS_E_TIMEDOUT;
    }
    return 0;
}
/* what must be true when the server waits for the next event */
static int pre_handled, pre_answers[NCL];
static void snapshot(void) { int i; pre_handled = handled; for (i = 0; i < NCL; i++) { pre_answers[i] = answers[i]; had[i] = fd_session_of(i) != NULL; } }
static void judge(void)
{
    int i;
    for (i = 0; i < NCL; i++) {
        int e = i == expect_cl ? expect_n : 0;
        mc_check(faulted || answers[i] - pre_answers[i] == e, "client %d was sent %d answer(s) instead of %d (%s)", i, answers[i] - pre_answers[i], e, evn);
        if (had[i] && i != may_end) mc_check(faulted || fd_session_of(i) != NULL, "client %d lost its DTLS session because of: %s", i, evn);
    }
    mc_check(faulted || handled - pre_handled == expect_n, "the application was called %d time(s) instead of %d (%s)", handled - pre_handled, expect_n, evn);
}
static int expired(fd_set *r) { int i, n = 0; for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == FOS_TIMER && fos_fd[i].expired && FD_ISSET(FOS_BASE + i, r)) n++; return n; }
static void event(void);
int fos_select(int n, fd_set *r, fd_set *w, struct timeval *tv)
{
    fd_set out; int k; fd_sess_t *s;
    FD_ZERO(&out);
    if (auth == 2) {                              /* the client waits in its handshake */
        mc_check(tv != NULL, "the client waits for a handshake without a time limit");
        mc_check(FD_ISSET(fos_find(FOS_SOCK), r), "the client does not listen on its socket");
        mc_check(++spins < 1000, "the client waits for a handshake for ever");
        if (spins <= 4 && mc_choose(2, "the server answers in time")) { FD_SET(fos_find(FOS_SOCK), &out); *r = out; return 1; }
        fos_now += (uint64_t)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull; *r = out; return 0;
    }
    mc_check(FD_ISSET(sock_fd, r), "the server does not listen on its socket");
    (void)expired;
    if ((s = fd_in_handshake())) {                /* the server waits for the rest of a handshake */
        mc_check(tv != NULL, "the server waits for a handshake without a time limit");
        if (!nin && nested_n < 2 && in_event && running) {
            nested_n++;
            k = mc_choose(5, "while the handshake waits");
            if (k == 1) { mc_log("  the client goes on"); put(s->cl, FD_HELLO, "", 0); }
            else if (k == 2 || k == 3) {
                int o = !s->cl;
                if (k == 2 && had[o]) { mc_log("  client %d sends a request", o); put_req(o, FD_APP); if (expect_cl >= 0) mc_prune(); expect_cl = o; expect_n = 1; }
                else if (k == 3 && !had[o]) { mc_log("  client %d says hello", o); put(o, FD_HELLO, "", 0); }
                else mc_prune();
            } else if (k == 4) { mc_log("  the client sends garbage"); put(s->cl, FD_GARBAGE, "x", 1); }
        }
        if (!nin) { fos_now += (uint64_t)tv->tv_sec * 1000000000ull + tv->tv_usec * 1000ull; if (!tv->tv_sec && !tv->tv_usec) fos_now += 1000000; mc_check(++hs_waits < 70000, "the server waits for a handshake for ever"); *r = out; return 0; }
        mc_check(++spins < 100, "the server does not read a datagram");
        FD_SET(sock_fd, &out); *r = out; return 1;
    }
    if (nin) { mc_check(++spins < 100, "the server does not read a datagram"); FD_SET(sock_fd, &out); *r = out; return 1; }
    if (in_event) judge();
    in_event = 0; spins = 0;
    event();
    in_event = 1;
    FD_SET(sock_fd, &out); *r = out; return 1;
}
static int stage_probe;
static void event(void)
{
    int k, cl;
    expect_cl = -1; expect_n = 0; may_end = -1; nested_n = 9; hs_script = HS_OK; refused = 0;
    if (auth) {                                   /* one client with an enumerated certificate */
        snapshot();
        switch (depth++) {
        case 0: fd_world_choose(); evn = "hello"; put(0, FD_HELLO, "", 0); return;
        case 1: evn = "request after the certificate was checked";
            k = fd_world_good(0);
            if (faulted) { k = fd_session_of(0) != NULL; mc_check(!k || fd_world_good(0), "a client with a bad certificate was accepted"); }
            mc_check((fd_session_of(0) != NULL) == k, k ? "a client with a good certificate was refused" : "a client with a bad certificate was accepted");
            mc_count(k ? "accepted" : "refused");
            faults_on = 0; if (faulted) { faulted = 0; }
            put_req(0, FD_APP); if (k) { expect_cl = 0; expect_n = 1; } return;
        case 2: fd_world_ok(); evn = "hello of another client"; put(1, FD_HELLO, "", 0); return;
        case 3: evn = "request of another client"; put_req(1, FD_APP); expect_cl = 1; expect_n = 1; return;
        default: longjmp(done_jb, 1);
        }
    }
    if (depth >= max_depth) {
        snapshot(); fd_world_ok(); faults_on = 0; faulted = 0;
        if (stage_probe == 0) { stage_probe = 1; evn = "hello of a new client"; put(9, FD_HELLO, "", 0); return; }
        if (stage_probe == 1) { stage_probe = 2; evn = "request of a new client"; put_req(9, FD_APP); expect_cl = 9; expect_n = 1; return; }
        if (stage_probe < 4) { cl = stage_probe++ - 2; evn = "final request"; put_req(cl, FD_APP); if (had[cl]) { expect_cl = cl; expect_n = 1; mc_count("still served"); } return; }
        longjmp(done_jb, 1);
    }
    depth++; nested_n = 0; faulted = 0; fd_world_ok();
    snapshot();
    k = mc_choose(7, "event"); cl = mc_choose(2, "client");
    switch (k) {
    case 0: evn = "hello"; if (!had[cl]) { hs_script = mc_choose(HS_N, "handshake"); if (hs_script == HS_BADCERT) fd_world_bad(); } put(cl, FD_HELLO, "", 0); break;
    case 1: evn = "request"; put_req(cl, FD_APP); if (had[cl]) { expect_cl = cl; expect_n = 1; mc_count("served"); } else mc_count("no session"); break;
    case 2: evn = "unprotected request"; put_req(cl, -1); break;
    case 3: evn = "undecipherable record"; put(cl, FD_GARBAGE, "x", 1); break;
    case 4: evn = "close notification"; put(cl, FD_ALERT, "\0", 1); may_end = cl; break;
    case 5: evn = "fatal alert"; put(cl, FD_ALERT, "\2", 1); may_end = cl; break;
    case 6: evn = "malformed message"; put(cl, FD_APP, "\x40\x01\x00", 3); break;
    }
    mc_log("client %d: %s", cl, evn);
}
void mc_setup(void) { pool_init(64, 64, 16, 1152, 8, 64); mc_shard_depth(!strncmp(mc_part, "auth", 4) ? 5 : 4); }

static void server_part(void)
{
    int r;
    memset(&server, 0, sizeof(server));
    r = coap_server_create(&server, handle, "h", "5683" FD_SERVER_ARGS);
    if (r) { mc_check(faulted, "coap_server_create fails"); mc_check(fos_open_count() == 0, "descriptors left open"); fd_released("after a failed coap_server_create"); pool_expect(0, 0, 0, "after a failed coap_server_create"); mc_count("create failed"); return; }
    mc_check(!faulted, "coap_server_create succeeds although a call failed");
    if (!strcmp(mc_part, "create")) { coap_server_destroy(&server); goto out; }
    sock_fd = fos_find(FOS_SOCK);
    if (!setjmp(done_jb)) { running = 1; r = coap_server_run(&server); mc_fail("the server stops (%d)", r); }
    running = 0;
    coap_server_destroy(&server);
out:
    mc_check(fos_open_count() == 0, "descriptors left open");
    fd_released("in the end"); pool_expect(0, 0, 0, "in the end");
}
void mc_execute(void)
{
    int r, named, hs_ok;
    if (mc_dirty) pool_again();
    fos_reset(); fd_want_name = "name"; fd_reset();
    nin = depth = running = faults_on = faulted = auth = handled = mid = in_event = spins = stage_probe = 0; memset(answers, 0, sizeof(answers)); sock_fd = -1; hs_sess = NULL;
    max_depth = mc_tier ? 4 : 3;
    mc_set_dev_budget(0);
    if (!strcmp(mc_part, "sessions")) server_part();
    else if (!strcmp(mc_part, "auth-server")) { auth = 1; if (mc_tier) { faults_on = 1; mc_set_dev_budget(1); } server_part(); }
    else if (!strcmp(mc_part, "create")) { faults_on = running = 1; mc_set_dev_budget(mc_tier ? 3 : 2); server_part(); }
    else if (!strcmp(mc_part, "auth-client")) {
        auth = 2;
        {   static const int out[] = {0, GNUTLS_E_TIMEDOUT, GNUTLS_E_FATAL_ALERT_RECEIVED, GNUTLS_E_WARNING_ALERT_RECEIVED, GNUTLS_E_NO_CIPHER_SUITES, GNUTLS_E_PUSH_ERROR, GNUTLS_E_INTERRUPTED};
            cl_hs = 0; cl_again = mc_choose(mc_tier ? 5 : 4, "attempts that need another one"); if (cl_again) { if (cl_again == (mc_tier ? 4 : 3)) cl_again = 99; fd_world_ok(); cl_hs = out[mc_choose(6, "handshake")]; }
            else if (mc_choose(2, "handshake fails")) { fd_world_ok(); cl_hs = out[1 + mc_choose(5, "handshake")]; } else fd_world_choose();
        }
        hs_ok = cl_again < 99 && !cl_hs;
        named = mc_choose(2, "common name given");
        running = 1; if (mc_tier) { faults_on = 1; mc_set_dev_budget(1); }
        memset(&client, 0x55, sizeof(client));
        r = coap_client_create(&client, "h", "5683", "key.pem", "cert.pem", "trust.pem", "crl.pem", named ? "name" : NULL);
        faults_on = 0;
        if (r == 0) {
            mc_check(!faulted, "success although a call failed");
            mc_check(hs_ok, "coap_client_create succeeds although the DTLS handshake did not");
            mc_check(fd_world_good(named), "a server with a bad certificate was accepted");
            mc_check(!named || fd_host_checked(), "the name in the server's certificate was not checked");
            mc_count("accepted");
            sock_fd = fos_find(FOS_SOCK);
            coap_client_destroy(&client);
        } else { mc_check(r < 0 && (faulted || !hs_ok || !fd_world_good(named)), "a server with a good certificate was refused (%d)", r); mc_count("refused"); }
        mc_check(fos_open_count() == 0, "descriptors left open"); fd_released("in the end"); pool_expect(0, 0, 0, "in the end");
    } else mc_internal("unknown part %s", mc_part);
}
