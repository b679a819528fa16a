/* The CoAP client's exchange functions, run unmodified on a simulated kernel and a server controlled by the
 * harness: every sequence of datagrams and timer expiries up to a bound, compared with a reference model of
 * what RFC 7252 sections 4 and 5 allow a client to do. */
#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include "pool.h"
#include "ref_coap.h"
#include "coap_client.h"
#ifdef COAP_DTLS_EN
#include "fakedtls.h"
#include <gnutls/gnutls.h>
#define RELEASED() fd_released("in the end")
#define CLIENT_ARGS , "key.pem", "cert.pem", "trust.pem", "crl.pem", "name"
#else
#define RELEASED() ((void)0)
#define CLIENT_ARGS
#endif
#include "coap_mem.h"
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <arpa/inet.h>
#include "coap_ipv.h"

#define MAXD 1500
typedef struct { unsigned char b[MAXD]; size_t n; } dg_t;
static coap_client_t client;
static int sock_fd, timer_fd;
static dg_t inbox; static int inbox_full;
static dg_t outs[16]; static int nouts, take;
static int depth, max_depth, spins, faults_on, faulted, in_exchange;
/* the exchange in progress */
enum { PH_IDLE, PH_ACK, PH_RESP };
static int phase, first_sent, nretx, req_con; static dg_t req_dg; static rmsg_t req_m; static uint64_t interval; static int interval_for;
static dg_t prev_resp; static int have_prev;
/* verdicts of the model for the last event */
enum { V_CONT = 1, V_OK = 2, V_ERR = 4, V_RESET = 8, V_TIMEOUT = 16 };
static int verdict, pending_event, both;
static dg_t last_in;
static uint64_t deadline;
static int values, bw_mode; static void bw_server(void);

static void expect_empty(unsigned type, unsigned mid, const char *what)
{
    rmsg_t m;
    mc_check(take < nouts, "%s expected, but nothing was sent", what);
    mc_check(ref_decode(&m, outs[take].b, outs[take].n) == REF_OK, "%s: the datagram sent is malformed", what);
    mc_check(m.type == type && m.cls == 0 && m.det == 0 && m.mid == mid, "%s: expected empty type %u id %u, got type %u code %u.%02u id %u", what, type, mid, m.type, m.cls, m.det, m.mid);
    take++;
}
/* what the client sent since the last event, and whether it may still be waiting */
static int ev_timer, want_sent_type = -1; static unsigned want_sent_mid; static int optional_sent;
static void settle(int returned)
{
    if (!pending_event) return;
    pending_event = 0; take = 0;
    if (faulted) { nouts = 0; return; }
    if ((ev_timer || both) && take < nouts && outs[take].n == req_dg.n && !memcmp(outs[take].b, req_dg.b, req_dg.n)) {
        mc_check(req_con && phase == PH_ACK && nretx < 4, "request retransmitted although it must not be (%s, %d retransmissions so far)", phase == PH_RESP ? "waiting for the response" : "waiting for the acknowledgement", nretx);
        if (ev_timer || !both || 1) { nretx++; take++; mc_count("retransmission"); }
    } else if (ev_timer && req_con && phase == PH_ACK && nretx < 4) mc_fail("timeout %d expired but the request was not retransmitted", nretx + 1);
    if (want_sent_type >= 0) {
        if (optional_sent && take == nouts) {}
        else expect_empty(want_sent_type, want_sent_mid, want_sent_type == 2 ? "acknowledgement" : "reset");
    }
    mc_check(take == nouts, "client sent %d unexpected datagram(s): %02x%02x%02x%02x", nouts - take, outs[take].b[0], outs[take].b[1], outs[take].b[2], outs[take].b[3]);
    nouts = 0;
    if (!returned) mc_check(verdict & V_CONT, "the exchange goes on although it should have ended");
}

/* ------------------------------------------------------------------ events */
enum { E_TIMER, E_ACKEMPTY, E_PIGGY, E_CONOK, E_NONOK, E_RST, E_PIGGYBADTOK, E_CONSAMEMID, E_NONSAMEMID, E_CONBADTOK, E_NONBADTOK, E_ACKOTHERTOK, E_RSTOTHER, E_ACKOTHER, E_CONBADOP, E_NONBADOP, E_PIGGYBADOP,
       E_CONREQ, E_PIGGYREQ, E_PING, E_MALCON, E_MALACK, E_PREV, E_BIG, E_VER2, E_SHORT, E_BOTHCON, E_BOTHACK, E_BOTHNON, E_CONREQNON, E_PLAIN, E_GARBAGE, E_CLOSE, E_WARN, E_FATAL, E_VAL, E_N };
#define E_NPLAIN E_PLAIN
static int wire_type = 0x17, wire_alert;
static const char *ename[] = {"timer expires", "empty ACK", "piggybacked response", "CON response", "NON response", "RST", "piggybacked response with another token", "CON response with the request's message ID", "NON response with the request's message ID",
    "CON with another token", "NON with another token", "ACK with another ID but the token", "RST with another ID", "empty ACK with another ID", "CON response with bad option", "NON response with bad option", "piggybacked response with bad option",
    "CON request with the token", "ACK with request code", "ping", "malformed CON", "malformed ACK", "duplicate of an earlier response", "oversized response", "version 2 message", "3-byte datagram", "timer and CON response", "timer and empty ACK", "timer and NON response", "NON request with the token", "unprotected response", "undecipherable record", "close notification", "warning alert", "fatal alert", "any message"};
static int alpha[E_N], nalpha;
static unsigned rmid;
static void mk(unsigned type, unsigned cls, unsigned det, unsigned mid, int tokkind, int badop, int variant)
{
    rmsg_t m; static unsigned char pl[1400]; unsigned i;
    memset(&m, 0, sizeof(m));
    m.type = type; m.cls = cls; m.det = det; m.mid = mid;
    if (cls || det) {
        memcpy(m.tok, req_m.tok, 8); m.tkl = req_m.tkl;
        if (tokkind == 1) { if (m.tkl) m.tok[m.tkl - 1] ^= 1; else { m.tkl = 1; m.tok[0] = 9; } }
        if (tokkind == 2) m.tkl = m.tkl ? m.tkl - 1 : 2;
        if (tokkind == 3) { m.tok[m.tkl] = 0; m.tkl++; }
        if (tokkind == 4) { m.tkl = 0; }
        if (tokkind == 5) { m.tok[0] ^= 0x80; }
        m.op[m.nop].num = 4; m.op[m.nop].len = 2; m.op[m.nop++].val = (const unsigned char *)"et";
        if (badop == 1) { m.op[m.nop].num = 9; m.op[m.nop].len = 1; m.op[m.nop++].val = (const unsigned char *)"b"; }
        if (badop == 2) { m.op[m.nop].num = 10; m.op[m.nop].len = 1; m.op[m.nop++].val = (const unsigned char *)"e"; }      /* elective: fine */
        for (i = 0; i < sizeof(pl); i++) pl[i] = (unsigned char)(rmid + i * 3);
        m.pl = pl; m.pll = variant ? (unsigned)variant : 6 + rmid % 5;
    }
    inbox.n = ref_encode(&m, inbox.b); inbox_full = 1;
}
/* one datagram with every value of one field, judged by what RFC 7252 says about it */
static int val_acked;
static void val_judge(void)
{
    rmsg_t m; int r = ref_decode(&m, inbox.b, inbox.n), tok = m.tkl == req_m.tkl && !memcmp(m.tok, req_m.tok, m.tkl), resp = m.cls == 2 || m.cls == 4 || m.cls == 5, empty = m.cls == 0 && m.det == 0, bad = 0; unsigned i;
    val_acked = 0;
    verdict = V_CONT | V_ERR;
    if (r == REF_SHORT || r == REF_VERSION) return;
    if (inbox.n > 1152) { if (m.type == 0) { want_sent_type = 3; want_sent_mid = m.mid; optional_sent = 1; } return; }
    if (r == REF_FORMAT) { if (m.type == 0) { want_sent_type = 3; want_sent_mid = m.mid; } return; }
    for (i = 0; i < m.nop; i++) if ((m.op[i].num & 1) && !ref_recognised(m.op[i].num)) bad = 1;
    if (m.type == 3) { verdict = m.mid == req_m.mid ? V_RESET : V_CONT; return; }
    if (m.type == 2) {
        if (m.mid != req_m.mid) { if (empty) verdict = V_CONT; return; }
        if (!req_con) return;
        if (empty) { verdict = V_CONT; val_acked = 1; return; }
        if (resp && tok && !bad) verdict = phase == PH_ACK ? V_OK : V_OK | V_CONT;
        return;
    }
    if (resp && tok && !bad) { verdict = V_OK; if (m.type == 0) { want_sent_type = 2; want_sent_mid = m.mid; } return; }
    if (empty || (resp && !tok)) verdict = V_CONT;
    if (m.type == 0) { want_sent_type = 3; want_sent_mid = m.mid; }
}
static void val_event(void)
{
    rmsg_t m; size_t k, n; int what = mc_choose(7, "field"), hi; unsigned j; static unsigned char big[1500];
    memset(&m, 0, sizeof(m));
    m.cls = 2; m.det = 5; m.mid = req_m.mid; m.tkl = req_m.tkl; memcpy(m.tok, req_m.tok, 8);
    m.pl = (const unsigned char *)"xyz"; m.pll = 3;
    switch (what) {
    case 0: m.type = mc_choose(4, "type"); hi = mc_choose(256, "ID, high byte"); m.mid = hi * 256 + mc_choose(256, "ID, low byte"); if (m.type >= 2) { m.cls = m.det = m.tkl = 0; m.pll = 0; } if (m.type == 1 && !mc_tier) mc_prune(); break;
    case 1: hi = mc_choose(256, "code"); m.cls = hi >> 5; m.det = hi & 31; m.type = mc_choose(4, "type"); if (mc_choose(2, "other ID")) m.mid ^= 0x1000; if (mc_choose(2, "bare")) { m.tkl = 0; m.pll = 0; } break;
    case 2: hi = mc_choose(mc_tier ? 1024 : 35, "option number / 64"); j = hi * 64 + mc_choose(64, "option number % 64"); m.type = mc_choose(3, "type"); k = mc_choose(2, "length") * 4; m.op[0].num = j; m.op[0].len = k; m.op[0].val = (const unsigned char *)"zzzzzzzz"; m.nop = 1; break;
    case 3: m.type = mc_choose(3, "type"); j = mc_choose(9, "token length"); m.tkl = j; if (j) m.tok[mc_choose(j, "byte")] ^= mc_choose(256, "bits"); break;
    case 4: n = mc_choose(1165, "length"); m.type = mc_choose(3, "type"); memset(big, 0xff, sizeof(big)); m.pl = big; m.pll = n; break;
    default:
        m.type = what == 5 ? 0 : 2; m.op[0].num = 4; m.op[0].len = 2; m.op[0].val = (const unsigned char *)"et"; m.op[1].num = 14; m.op[1].len = 1; m.op[1].val = (const unsigned char *)"\x3c"; m.op[2].num = what == 5 ? 60 : 2000; m.op[2].len = what == 5 ? 14 : 0; m.op[2].val = (const unsigned char *)"abcdefghijklmn"; m.nop = 3;
        break;
    }
    inbox.n = ref_encode(&m, inbox.b);
    if (what >= 5) { k = mc_choose((int)inbox.n + 1, "byte"); if (k == inbox.n) inbox.n = mc_choose((int)inbox.n, "truncated to"); else inbox.b[k] = (unsigned char)mc_choose(256, "value"); }
    inbox_full = 1;
    val_judge();
}
static void deliver(int e)
{
    static const unsigned codes[][2] = {{2, 5}, {4, 4}, {5, 0}, {2, 1}, {4, 31}, {2, 4}};
    unsigned k, mid = req_m.mid;
    rmid++;
    verdict = V_CONT; want_sent_type = -1; optional_sent = 0; ev_timer = 0; both = 0; inbox_full = 0;
    pending_event = 1;
    k = rmid % 6;
    switch (e) {
    case E_TIMER:
        ev_timer = 1;
        verdict = phase == PH_ACK && nretx < 4 ? V_CONT : V_TIMEOUT;
        return;
    case E_BOTHACK: both = 1; /* fall through */
    case E_ACKEMPTY:
        mk(2, 0, 0, mid, 0, 0, 0); verdict = V_CONT; if (!req_con) verdict = V_CONT | V_ERR;
        if (both && (phase != PH_ACK || nretx >= 4)) verdict |= V_TIMEOUT;
        break;
    case E_PIGGY: mk(2, codes[k][0], codes[k][1], mid, 0, 2 * (rmid & 1), 0); verdict = !req_con ? V_CONT | V_ERR : phase == PH_ACK ? V_OK : V_OK | V_CONT; break;
    case E_BOTHCON: both = 1; /* fall through */
    case E_CONOK: mk(0, codes[k][0], codes[k][1], mid ^ 0x5a5a, 0, 2 * (rmid & 1), 0); verdict = V_OK; want_sent_type = 2; want_sent_mid = mid ^ 0x5a5a; if (both) { if (phase != PH_ACK || nretx >= 4) { verdict |= V_TIMEOUT; optional_sent = 1; } } break;
    case E_BOTHNON: both = 1; /* fall through */
    case E_NONOK: mk(1, codes[k][0], codes[k][1], mid ^ 0x5a5b, 0, 0, 0); verdict = V_OK; if (both && (phase != PH_ACK || nretx >= 4)) verdict |= V_TIMEOUT; break;
    case E_RST: mk(3, 0, 0, mid, 0, 0, 0); verdict = V_RESET; break;
    case E_PIGGYBADTOK: mk(2, 2, 5, mid, 1 + mc_choose(5, "token"), 0, 0); verdict = V_CONT | V_ERR; break;
    case E_CONSAMEMID: mk(0, 2, 5, mid, 0, 0, 0); verdict = V_OK; want_sent_type = 2; want_sent_mid = mid; break;
    case E_NONSAMEMID: mk(1, 2, 5, mid, 0, 0, 0); verdict = V_OK; break;
    case E_CONBADTOK: mk(0, 2, 5, mid ^ 0x100, 1 + mc_choose(5, "token"), 0, 0); want_sent_type = 3; want_sent_mid = mid ^ 0x100; break;
    case E_NONBADTOK: mk(1, 2, 5, mid ^ 0x101, 1 + mc_choose(5, "token"), 0, 0); break;
    case E_ACKOTHERTOK: mk(2, 2, 5, mid ^ 0x8000, 0, 0, 0); verdict = V_CONT | V_ERR; break;
    case E_RSTOTHER: mk(3, 0, 0, mid ^ 1, 0, 0, 0); break;
    case E_ACKOTHER: mk(2, 0, 0, mid ^ 0x100, 0, 0, 0); break;
    case E_CONBADOP: mk(0, 2, 5, mid ^ 0x5a5c, 0, 1, 0); want_sent_type = 3; want_sent_mid = mid ^ 0x5a5c; verdict = V_CONT | V_ERR; break;
    case E_NONBADOP: mk(1, 2, 5, mid ^ 0x5a5d, 0, 1, 0); verdict = V_CONT | V_ERR; break;
    case E_PIGGYBADOP: mk(2, 2, 5, mid, 0, 1, 0); verdict = V_CONT | V_ERR; break;
    case E_CONREQ: mk(0, 0, 1, mid ^ 0x5a5e, 0, 0, 0); want_sent_type = 3; want_sent_mid = mid ^ 0x5a5e; verdict = V_CONT | V_ERR; break;
    case E_CONREQNON: mk(1, 0, 2, mid ^ 0x5a5e, 0, 0, 0); verdict = V_CONT | V_ERR; break;
    case E_PIGGYREQ: mk(2, 0, 1, mid, 0, 0, 0); verdict = V_CONT | V_ERR; break;
    case E_PING: mk(0, 0, 0, mid ^ 0x200, 0, 0, 0); want_sent_type = 3; want_sent_mid = mid ^ 0x200; break;
    case E_MALCON: mk(0, 2, 5, mid ^ 0x201, 0, 0, 0); inbox.b[0] |= 0x0f; want_sent_type = 3; want_sent_mid = mid ^ 0x201; verdict = V_CONT | V_ERR; break;
    case E_MALACK: mk(2, 0, 0, mid, 0, 0, 0); inbox.b[inbox.n++] = 0xff; verdict = V_CONT | V_ERR; break;
    case E_PREV: inbox = prev_resp; inbox_full = 1; { rmsg_t p; ref_decode(&p, inbox.b, inbox.n); if (p.type == 0) { want_sent_type = 3; want_sent_mid = p.mid; } if (p.type == 2 && p.mid == req_m.mid) verdict = V_CONT | V_ERR; } break;
    case E_BIG: mk(1, 2, 5, mid ^ 0x202, 0, 0, 1200); verdict = V_CONT | V_ERR; break;
    case E_VER2: mk(1, 2, 5, mid ^ 0x203, 0, 0, 0); inbox.b[0] = (inbox.b[0] & 0x3f) | 0x80; verdict = V_CONT | V_ERR; break;
    case E_VAL: val_event(); break;
    case E_SHORT: memcpy(inbox.b, "\x60\x45\x00", 3); inbox.n = 3; inbox_full = 1; verdict = V_CONT | V_ERR; break;
    }
#ifdef COAP_DTLS_EN
    wire_type = FD_APP;
    switch (e) {
    case E_PLAIN: mk(1, 2, 5, mid ^ 0x5a5b, 0, 0, 0); wire_type = 0; break;
    case E_GARBAGE: mk(1, 2, 5, mid ^ 0x5a5b, 0, 0, 0); wire_type = FD_GARBAGE; break;
    case E_CLOSE: case E_WARN: case E_FATAL: inbox_full = 1; inbox.n = 1; inbox.b[0] = e - E_CLOSE; wire_type = FD_ALERT; verdict = e == E_WARN ? V_CONT | V_ERR | V_RESET : V_RESET | V_ERR; break;
    }
#endif
    last_in = inbox;
}
static int last_event;
static void after_event(void)        /* the client asks for the next event: the exchange goes on */
{
    if (!pending_event) return;
    settle(0);
    if ((last_event == E_ACKEMPTY || last_event == E_BOTHACK || (last_event == E_VAL && val_acked)) && req_con && phase == PH_ACK) { phase = PH_RESP; mc_count("empty ACK"); }
}
static void check_timer(void)
{
    uint64_t iv; fos_fd_t *t;
    mc_check(timer_fd >= 0, "no timer");
    t = &fos_fd[timer_fd - FOS_BASE];
    mc_check(t->armed || t->expired, "the client waits without a timeout");
    iv = t->interval / 1000000;
    if (phase == PH_ACK) {
        if (interval_for == nretx) { mc_check(t->expired || t->deadline == deadline, "the acknowledgement timeout was moved by %lld ms", ((long long)t->deadline - (long long)deadline) / 1000000); return; }
        if (nretx == 0) mc_check(iv >= 2000 && iv <= 3000, "initial acknowledgement timeout is %llu ms", (unsigned long long)iv);
        else mc_check(iv + 2 >= 2 * interval && iv <= 2 * interval + 2, "timeout %d is %llu ms after %llu ms (must double)", nretx, (unsigned long long)iv, (unsigned long long)interval);
        interval = iv; interval_for = nretx;
    } else if (interval_for != 100) {
        mc_check(iv == 30000, "response timeout is %llu ms", (unsigned long long)iv);
        interval_for = 100;
    } else { mc_check(t->expired || t->deadline == deadline, "the response timeout was moved by %lld ms", ((long long)t->deadline - (long long)deadline) / 1000000); return; }
    deadline = t->deadline;
}
int fos_select(int n, fd_set *r, fd_set *w, struct timeval *tv)
{
    fd_set in = *r; int e; fos_fd_t *t;
    if (bw_mode && in_exchange) { bw_server(); FD_ZERO(r); FD_SET(sock_fd, r); return 1; }
    mc_check(in_exchange, "select outside an exchange");
    mc_check(FD_ISSET(sock_fd, &in) && FD_ISSET(timer_fd, &in) && n > sock_fd && n > timer_fd, "the client does not wait for both its socket and its timer");
    t = &fos_fd[timer_fd - FOS_BASE];
    FD_ZERO(r);
    if (inbox_full) { mc_check(++spins < 20, "the client does not read a datagram"); FD_SET(sock_fd, r); if (t->expired) { FD_SET(timer_fd, r); return 2; } return 1; }
    if (t->expired && !pending_event) { mc_check(++spins < 20, "the client ignores its timer"); FD_SET(timer_fd, r); return 1; }
    spins = 0;
    after_event();
    if (!first_sent) {                           /* the request must be out by now */
        mc_check(nouts == 1 || faulted, "expected exactly one datagram (the request), %d sent", nouts);
        if (!faulted) {
            req_dg = outs[0]; nouts = 0;
            {   rmsg_t o = req_m; mc_check(ref_decode(&req_m, req_dg.b, req_dg.n) == REF_OK, "the request sent is malformed");
                mc_check(req_m.type == o.type && req_m.cls == o.cls && req_m.det == o.det && req_m.nop == o.nop && req_m.pll == o.pll && (!o.pll || !memcmp(o.pl, req_m.pl, o.pll)), "the request sent is not the application's");
                for (unsigned i = 0; i < o.nop; i++) mc_check(o.op[i].num == req_m.op[i].num && o.op[i].len == req_m.op[i].len && !memcmp(o.op[i].val, req_m.op[i].val, o.op[i].len), "option %u of the request sent is not the application's", i);
                mc_check(req_m.tkl >= 1, "the request has no token");
            }
        }
        first_sent = 1; phase = req_con ? PH_ACK : PH_RESP; nretx = 0; interval_for = -1;
    }
    if (!faulted) check_timer();
    else mc_check(t->armed || t->expired, "after a failed call the client waits without any timeout");
    if (depth >= max_depth) e = E_TIMER;
    else if (values) { depth++; if (depth == 1) values = 1; e = values == 2 ? E_CONOK : depth == 1 && mc_choose(2, "empty ACK first") ? E_ACKEMPTY : E_VAL; if (e == E_VAL) values = 2; }
    else { depth++; e = alpha[mc_choose(nalpha, "event")]; }
    if (e == E_PREV && !have_prev) mc_prune();
    last_event = e;
    mc_log("event: %s", ename[e]);
    fos_now += 100000000ull;
    deliver(e);
    if (ev_timer || both) { if (t->deadline > fos_now) fos_now = t->deadline; t->armed = 0; t->expired = 1; FD_SET(timer_fd, r); }
    if (inbox_full) FD_SET(sock_fd, r);
    return (ev_timer ? 0 : 1) + (ev_timer || both);
}
ssize_t fos_send(int fd, const void *buf, size_t len, const struct sockaddr *to, socklen_t tolen)
{
    size_t ret = len;
    mc_check(fd == sock_fd, "datagram sent on the wrong descriptor");
    if (to) { coap_ipv_sockaddr_in_t a; memset(&a, 0, sizeof(a)); *(sa_family_t *)&a = COAP_IPV_AF_INET; a.COAP_IPV_SIN_PORT = htons(5683); mc_check(tolen == sizeof(a) && !memcmp(&a, to, sizeof(a)), "datagram sent to another address than the server's"); }
#ifdef COAP_DTLS_EN
    if (len >= 1 && *(unsigned char *)buf == FD_ALERT) return len;
    mc_check(len >= 1 && *(unsigned char *)buf == FD_APP, "data sent outside a DTLS session");
    buf = (const char *)buf + 1; len--;
#endif
    mc_check(nouts < 16, "client sends without end");
    mc_check(len <= MAXD, "datagram of %zu bytes", len);
    outs[nouts].n = len; memcpy(outs[nouts].b, buf, len); nouts++;
    mc_log("client sends %zu bytes %02x%02x%02x%02x", len, ((unsigned char *)buf)[0], ((unsigned char *)buf)[1], ((unsigned char *)buf)[2], ((unsigned char *)buf)[3]);
    return ret;
}
ssize_t fos_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fromlen)
{
    size_t n = inbox.n;
    mc_check(fd == sock_fd, "receive on the wrong descriptor");
    if (!inbox_full) { errno = EAGAIN; return -1; }
#ifdef COAP_DTLS_EN
    {   unsigned char w[MAXD + 1]; int p = wire_type != 0;
        if (p) w[0] = wire_type;
        memcpy(w + p, inbox.b, n); n += p;
        memcpy(buf, w, n < len ? n : len);
        if (!(flags & MSG_PEEK)) inbox_full = 0;
        return flags & MSG_TRUNC ? n : n < len ? n : len;
    }
#endif
    memcpy(buf, inbox.b, n < len ? n : len);
    if (!(flags & MSG_PEEK)) inbox_full = 0;
    if (flags & MSG_TRUNC) return n;
    return n < len ? n : len;
}
void fos_timer_created(int fd) { }
int fos_fault(const char *call)
{
    if (!faults_on) return 0;
    if (mc_dev(2, "%s", call)) { faulted = 1; mc_count(call); return strcmp(call, "send") == 0 ? ENETUNREACH : strcmp(call, "recv") == 0 ? ECONNREFUSED : strcmp(call, "alloc") == 0 ? ENOMEM : EMFILE; }
    return 0;
}
void *__real_coap_mem_small_alloc(size_t n); void *__real_coap_mem_medium_alloc(size_t n); void *__real_coap_mem_large_alloc(size_t n);
void *__wrap_coap_mem_small_alloc(size_t n) { return fos_fault("alloc") ? NULL : __real_coap_mem_small_alloc(n); }
void *__wrap_coap_mem_medium_alloc(size_t n) { return fos_fault("alloc") ? NULL : __real_coap_mem_medium_alloc(n); }
void *__wrap_coap_mem_large_alloc(size_t n) { return fos_fault("alloc") ? NULL : __real_coap_mem_large_alloc(n); }

static int same_as_datagram(coap_msg_t *m, const dg_t *d, const char **why)
{
    rmsg_t r; unsigned i = 0; coap_msg_op_t *op;
    *why = "not well formed"; if (ref_decode(&r, d->b, d->n) != REF_OK) return 0;
    *why = "header"; if (coap_msg_get_type(m) != r.type || coap_msg_get_code_class(m) != r.cls || coap_msg_get_code_detail(m) != r.det || coap_msg_get_msg_id(m) != r.mid) return 0;
    *why = "token"; if (coap_msg_get_token_len(m) != r.tkl || memcmp(coap_msg_get_token(m), r.tok, r.tkl)) return 0;
    *why = "options";
    for (op = coap_msg_get_first_op(m); op; op = coap_msg_op_get_next(op), i++) if (i >= r.nop || coap_msg_op_get_num(op) != r.op[i].num || coap_msg_op_get_len(op) != r.op[i].len || memcmp(coap_msg_op_get_val(op), r.op[i].val, r.op[i].len)) return 0;
    if (i != r.nop) return 0;
    *why = "payload"; return coap_msg_get_payload_len(m) == r.pll && (!r.pll || !memcmp(coap_msg_get_payload(m), r.pl, r.pll));
}
static void one_exchange(int con, int det, int withpl)
{
    coap_msg_t req, resp; int ret; const char *why;
    coap_msg_create(&req); coap_msg_create(&resp);
    coap_msg_set_type(&req, con ? COAP_MSG_CON : COAP_MSG_NON); coap_msg_set_code(&req, 0, det);
    {   int f = faults_on; faults_on = 0;
        coap_msg_add_op(&req, COAP_MSG_URI_PATH, 3, "abc"); coap_msg_add_op(&req, COAP_MSG_URI_PATH, 1, "d");
        if (withpl) coap_msg_set_payload(&req, "hello", 5);
        faults_on = f; }
    memset(&req_m, 0, sizeof(req_m));
    req_m.type = con ? 0 : 1; req_m.det = det; req_m.nop = 2;
    req_m.op[0].num = 11; req_m.op[0].len = 3; req_m.op[0].val = (const unsigned char *)"abc"; req_m.op[1].num = 11; req_m.op[1].len = 1; req_m.op[1].val = (const unsigned char *)"d";
    if (withpl) { req_m.pl = (const unsigned char *)"hello"; req_m.pll = 5; }
    req_con = con; first_sent = 0; phase = PH_IDLE; pending_event = 0; nouts = 0; in_exchange = 1; spins = 0; inbox_full = 0; faulted = 0;
    mc_log("exchange: %s request", con ? "CON" : "NON");
    ret = coap_client_exchange(&client, &req, &resp);
    in_exchange = 0;
    mc_log("exchange returns %d", ret);
    if (faulted) {
        if (ret == 0) { mc_check(pending_event && same_as_datagram(&resp, &last_in, &why), "success reported after a failure, without a response"); }
        mc_count(ret ? "error after fault" : "success after fault");
        nouts = 0; pending_event = 0;
    } else {
        mc_check(pending_event, "the exchange ends (%d) although nothing happened", ret);
        settle(1);
        if (ret == 0) {
            mc_check(verdict & V_OK, "exchange succeeds on: %s", ename[last_event]);
            mc_check(same_as_datagram(&resp, &last_in, &why), "the response returned differs from the one received (%s)", why);
            prev_resp = last_in; have_prev = 1;
            mc_count("response returned");
        } else {
            mc_check(ret < 0, "exchange returns %d", ret);
            if (!(verdict & (V_ERR | V_RESET | V_TIMEOUT))) mc_fail("exchange fails with %d on: %s", ret, ename[last_event]);
            if (verdict == V_TIMEOUT) mc_check(ret == -ETIMEDOUT, "timeout reported as %d", ret);
            if (verdict == V_RESET) mc_check(ret == -ECONNRESET, "reset reported as %d", ret);
            mc_count(ret == -ETIMEDOUT ? "timeout" : ret == -ECONNRESET ? "reset" : "other error");
        }
    }
    {   uint64_t h = mc_hash_u(3, ret); h = mc_hash_u(h, phase * 8 + nretx); h = mc_hash_u(h, last_event * 2 + con); mc_state(mc_hash_u(h, depth)); }
    coap_msg_destroy(&req); coap_msg_destroy(&resp);
    pool_expect(0, 0, 0, "after the exchange");
}

#ifdef COAP_DTLS_EN
int fd_handshake(fd_sess_t *s) { mc_check(!s->server, "the client acts as a server"); if (fos_fault("gnutls_handshake")) return GNUTLS_E_DECRYPTION_FAILED; s->cl = 0; return 0; }
#endif
#include "h_client_bw.h"

void mc_setup(void) { pool_init(64, 64, 16, 1152, 8, 64); mc_shard_depth(bw_part() ? 5 : 3); }
static void use(int e) { alpha[nalpha++] = e; }
void mc_execute(void)
{
    int r, i, n = 1, types = 2;
    if (mc_dirty) pool_again();
    fos_reset();
#ifdef COAP_DTLS_EN
    fd_want_name = "name"; fd_reset(); wire_type = FD_APP;
#endif
    nalpha = 0; depth = 0; have_prev = 0; values = 0; rmid = 0; faults_on = 0; faulted = 0; bw_mode = 0; in_exchange = 0; nouts = 0; inbox_full = 0;
    mc_set_dev_budget(0);
    if (!strcmp(mc_part, "match")) {              /* what is accepted as the response */
        max_depth = mc_tier ? 5 : 4; n = 1;
        for (i = 0; i < E_NPLAIN; i++) use(i);
#ifdef COAP_DTLS_EN
        for (i = E_PLAIN; i < E_VAL; i++) use(i);
#endif
    } else if (!strcmp(mc_part, "values")) { max_depth = 4; n = 1; values = 1; use(E_CONOK);
    } else if (!strcmp(mc_part, "sequence")) {    /* several exchanges: late and duplicated messages of earlier ones */
        max_depth = mc_tier ? 6 : 5; n = 3;
        use(E_ACKEMPTY); use(E_PIGGY); use(E_CONOK); use(E_NONOK); use(E_PREV); use(E_TIMER); use(E_RST); use(E_CONSAMEMID); use(E_ACKOTHER); use(E_CONBADTOK);
    } else if (!strcmp(mc_part, "retransmit")) {
        max_depth = mc_tier ? 10 : 9; n = 2;
        fos_rand_mode = 0;
        use(E_TIMER); use(E_ACKEMPTY); use(E_PING); use(E_CONOK); use(E_BOTHCON); use(E_BOTHACK);
    } else if (!strcmp(mc_part, "backoff")) {
        max_depth = 7; n = 1;
        fos_rand_state = 1 + 7919u * mc_choose(mc_tier ? 4096 : 512, "random seed");
        use(E_TIMER); use(E_ACKEMPTY);
    } else if (!strcmp(mc_part, "answer")) {      /* what is acknowledged, reset, ignored */
        max_depth = mc_tier ? 5 : 4; n = 2;
        for (i = 0; i < E_NPLAIN; i++) if (i != E_PIGGYBADTOK && i != E_BIG && i != E_SHORT && i != E_NONBADTOK) use(i);
    } else if (!strcmp(mc_part, "faults")) {
        max_depth = 5; n = 1; mc_set_dev_budget(mc_tier ? 2 : 1);
        use(E_TIMER); use(E_ACKEMPTY); use(E_PIGGY); use(E_CONOK); use(E_NONOK); use(E_CONBADTOK); use(E_MALCON); use(E_CONBADOP);
    } else if (bw_part()) { bw_execute(); return; }
    else mc_internal("unknown part %s", mc_part);
#ifdef COAP_DTLS_EN
    max_depth--;
#endif
    if (!strcmp(mc_part, "faults")) faults_on = 1;
    memset(&client, 0x55, sizeof(client));
    r = coap_client_create(&client, "h", "5683" CLIENT_ARGS);
    if (r != 0) { mc_check(faulted, "coap_client_create fails: %d", r); faults_on = 0; mc_check(fos_open_count() == 0, "descriptors left open by a failed coap_client_create"); RELEASED(); mc_count("create failed"); return; }
    mc_check(!faulted, "coap_client_create succeeds although a call failed");
    sock_fd = fos_find(FOS_SOCK); timer_fd = fos_find(FOS_TIMER);
    for (i = 0; i < n; i++) { int t = mc_choose(types, "request type"); one_exchange(t == 0, 1 + (i + t) % 4, i & 1); if (faulted) break; }
    if (!strcmp(mc_part, "faults")) {             /* afterwards the client still works */
        faults_on = 0; faulted = 0; nalpha = 0; use(E_PIGGY); max_depth = depth + 1;
        one_exchange(1, 1, 0);
        mc_check(have_prev, "the client does not work any more after a failure");
    }
    faults_on = 0;
    coap_client_destroy(&client);
    mc_check(fos_open_count() == 0, "%d descriptor(s) still open after the client was destroyed", fos_open_count());
    pool_expect(0, 0, 0, "after the client was destroyed");
    RELEASED();
}
