/* The TLS layer of the proxy (tls.c, tls_sock.c) between an enumerated GnuTLS and an enumerated kernel: credentials,
 * session caches, opening and accepting connections, verification of the peer, reading, writing and closing. */
#define _GNU_SOURCE
#include "mc.h"
#include "nofault.h"
#include "pool.h"
#undef gnutls_free
#include "tls_sock.h"
#include <gnutls/x509.h>
#include <errno.h>
#include <stdarg.h>
#include <time.h>
#include <netdb.h>
#include <fcntl.h>
#include <arpa/inet.h>
#include <sys/select.h>
#include <pthread.h>
static int fon, dev_n;                         /* deviations allowed / taken since reset */
static int dv(const char *what) { if (!fon) return 0; if (mc_dev(2, "%s fails", what)) { dev_n++; return 1; } return 0; }
/* ---- objects handed out */
static struct { int cred, dh, glob, prio; } live;
static char cred_o[4], dh_o[4], prio_o;     /* 1: in use */
static int take_o(char *o) { int i; for (i = 0; i < 4; i++) if (!o[i]) { o[i] = 1; return i; } mc_fail("objects leak"); }
static void drop_o(char *o, void *p, const char *w) { char *c = p; mc_check(c >= o && c < o + 4 && *c, "%s: an object that does not exist is released", w); *c = 0; }
static int fds[8];                             /* 1 open */
static int newfd(void) { int i; for (i = 1; i < 8; i++) if (!fds[i]) { fds[i] = 1; return 50 + i; } mc_fail("descriptor leak"); }
static void isfd(int fd, const char *w) { mc_check(fd > 50 && fd < 58 && fds[fd - 50], "%s on a descriptor that is not open (%d)", w, fd); }
static int nfds(void) { int i, n = 0; for (i = 0; i < 8; i++) n += fds[i]; return n; }
typedef struct { int live, done, hello, cred, server, request, fd, prio, resumed; } sess_t;
static sess_t ss[4];
static sess_t *isess(void *p, const char *w) { sess_t *s = p; mc_check(s >= ss && s < ss + 4 && s->live, "%s: not a live session", w); return s; }
static int nsess(void) { return ss[0].live + ss[1].live + ss[2].live + ss[3].live; }
static void reset(void) { memset(&live, 0, sizeof(live)); memset(cred_o, 0, 4); memset(dh_o, 0, 4); memset(fds, 0, sizeof(fds)); memset(ss, 0, sizeof(ss)); dev_n = 0; fon = 0; }
static int cert_session_ready(void *s) { return isess(s, "verification")->done; }
#include "fakecert.h"
/* ---- library and credentials */
int __wrap_gnutls_global_init(void) { if (dv("global_init")) return -50; live.glob++; return 0; }
void __wrap_gnutls_global_deinit(void) { live.glob--; mc_check(live.glob >= 0, "library released too often"); }
int __wrap_gnutls_priority_init(void **p, const char *s, const char **e) { if (dv("priority_init")) return -50; live.prio++; *p = &prio_o; return 0; }
void __wrap_gnutls_priority_deinit(void *p) { mc_check(p == &prio_o && live.prio > 0, "priorities released twice"); live.prio--; }
int __wrap_gnutls_certificate_allocate_credentials(void **c) { if (dv("allocate_credentials")) return -25; live.cred++; *c = &cred_o[take_o(cred_o)]; return 0; }
static void iscred(void *c, const char *w) { mc_check((char *)c >= cred_o && (char *)c < cred_o + 4 && *(char *)c, "%s: credentials that do not exist", w); }
void __wrap_gnutls_certificate_free_credentials(void *c) { drop_o(cred_o, c, "credentials"); live.cred--; }
static const char *tf, *cf, *kf; static int trust_set, key_set;
int __wrap_gnutls_certificate_set_x509_trust_file(void *c, const char *f, int t) { iscred(c, "trust"); if (dv("trust file")) return -64; mc_check(!strcmp(f, tf), "another trust file"); trust_set = 1; return 1; }
int __wrap_gnutls_certificate_set_x509_key_file(void *c, const char *a, const char *b, int t) { iscred(c, "key"); if (dv("key file")) return -64; mc_check(!strcmp(a, cf) && !strcmp(b, kf), "another certificate or key file"); key_set = 1; return 0; }
int __wrap_gnutls_dh_params_init(void **d) { if (dv("dh_params_init")) return -25; live.dh++; *d = &dh_o[take_o(dh_o)]; return 0; }
int __wrap_gnutls_dh_params_generate2(void *d, unsigned b) { return dv("dh_params_generate2") ? -25 : 0; }
void __wrap_gnutls_dh_params_deinit(void *d) { drop_o(dh_o, d, "DH parameters"); live.dh--; }
void __wrap_gnutls_certificate_set_dh_params(void *c, void *d) { iscred(c, "dh"); }
int __wrap_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) { if (dv("mutex_init")) return ENOMEM; memset(m, 0, sizeof(*m)); return 0; }
/* ---- kernel */
static struct addrinfo ai[3]; static sock_sockaddr_in_t ai_sin[3]; static int nai, ai_live, connected, connect_seq; 
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *hi, struct addrinfo **r)
{
    int i; if (dv("getaddrinfo")) return EAI_NONAME;
    for (i = 0; i < nai; i++) { memset(&ai[i], 0, sizeof(ai[i])); memset(&ai_sin[i], 0, sizeof(ai_sin[i])); ai_sin[i].SOCK_SIN_FAMILY = SOCK_AF_INET; ((unsigned char *)&ai_sin[i].SOCK_SIN_ADDR)[0] = 10; ((unsigned char *)&ai_sin[i].SOCK_SIN_ADDR)[3] = 1 + i; ai_sin[i].SOCK_SIN_PORT = htons(443); ai[i].ai_family = SOCK_AF_INET; ai[i].ai_socktype = SOCK_STREAM; ai[i].ai_addr = (struct sockaddr *)&ai_sin[i]; ai[i].ai_addrlen = sizeof(ai_sin[i]); ai[i].ai_next = i + 1 < nai ? &ai[i + 1] : NULL; }
    *r = nai ? ai : NULL; ai_live++; return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { ai_live--; mc_check(ai_live >= 0, "address list released twice"); }
int __wrap_socket(int d, int t, int p) { if (dv("socket")) { errno = EMFILE; return -1; } return newfd(); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) { isfd(fd, "connect"); connect_seq++; if (dv("connect")) { errno = ECONNREFUSED; return -1; } connected = ((const unsigned char *)&((const sock_sockaddr_in_t *)a)->SOCK_SIN_ADDR)[3]; return 0; }
int __wrap_fcntl(int fd, int c, ...) { isfd(fd, "fcntl"); if (dv("fcntl")) { errno = EINVAL; return -1; } return 0; }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { isfd(fd, "setsockopt"); if (dv("setsockopt")) { errno = EINVAL; return -1; } return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) { isfd(fd, "bind"); mc_check(((const sock_sockaddr_in_t *)a)->SOCK_SIN_PORT == htons(4433), "bound to another port"); if (dv("bind")) { errno = EADDRINUSE; return -1; } return 0; }
int __wrap_listen(int fd, int b) { isfd(fd, "listen"); if (dv("listen")) { errno = EADDRINUSE; return -1; } return 0; }
int __wrap_close(int fd) { isfd(fd, "close"); fds[fd - 50] = 0; return 0; }
unsigned __wrap_sleep(unsigned s) { return 0; }
static int waits, sel_timeout; static long waited;     /* seconds waited since something was transferred (the timeout is 10) */
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    int k, fd;
    mc_check((r || w) && tv, "select without a descriptor or timeout");
    for (fd = 51; fd < 58; fd++) if ((r && FD_ISSET(fd, r)) || (w && FD_ISSET(fd, w))) isfd(fd, "select");
    mc_check(++waits < 50, "select is called for ever");
    k = fon ? mc_dev(4, "select: 1 timeout, 2 interrupted, 3 error") : 0; dev_n += k > 0;
    mc_check(tv->tv_sec >= 0 && tv->tv_usec >= 0 && tv->tv_usec < 1000000, "an invalid timeout");
    mc_check(waited + tv->tv_sec <= 10, "after waiting %ld s for nothing, waiting for %ld s more exceeds the timeout of 10 s", waited, (long)tv->tv_sec);
    if (k == 0 && waited + 4 > 10) k = 1;                    /* nothing useful before the timeout */
    if (k == 1) { sel_timeout = 1; waited += tv->tv_sec; tv->tv_sec = tv->tv_usec = 0; return 0; }
    if (k == 0) { waited += 4; tv->tv_sec -= 4; if (tv->tv_sec < 0) tv->tv_sec = 0; }
    if (k) { errno = k == 2 ? EINTR : EBADF; return -1; }
    return 1;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n)
{
    int k; isfd(fd, "accept"); mc_check(*n >= sizeof(sock_sockaddr_in_t), "accept with a length of %u", *n);
    k = fon ? mc_dev(4, "accept: 1 nothing yet, 2 interrupted, 3 error") : 0; dev_n += k > 0;
    if (k) { errno = k == 1 ? EAGAIN : k == 2 ? EINTR : EMFILE; return -1; }
    { sock_sockaddr_in_t s; memset(&s, 0, sizeof(s)); s.SOCK_SIN_FAMILY = SOCK_AF_INET; ((unsigned char *)&s.SOCK_SIN_ADDR)[3] = 9; memcpy(a, &s, sizeof(s)); *n = sizeof(s); }
    waited = 0; return newfd();
}
/* ---- sessions */
int __wrap_gnutls_init(void **s, unsigned fl) { int i; if (dv("gnutls_init")) return -25; for (i = 0; i < 4; i++) if (!ss[i].live) { memset(&ss[i], 0, sizeof(ss[i])); ss[i].live = 1; ss[i].server = (fl & GNUTLS_SERVER) != 0; *s = &ss[i]; return 0; } mc_fail("session leak"); }
void __wrap_gnutls_deinit(void *s) { isess(s, "deinit")->live = 0; }
int __wrap_gnutls_priority_set(void *s, void *p) { sess_t *x = isess(s, "priority_set"); if (dv("priority_set")) return -50; mc_check(p == &prio_o, "priorities that do not exist"); x->prio = 1; return 0; }
int __wrap_gnutls_set_default_priority(void *s) { isess(s, "priority")->prio = 1; return 0; }
int __wrap_gnutls_credentials_set(void *s, int t, void *c) { sess_t *x = isess(s, "credentials_set"); if (dv("credentials_set")) return -25; iscred(c, "session"); mc_check(t == GNUTLS_CRD_CERTIFICATE, "credentials of another type"); x->cred = 1; return 0; }
void __wrap_gnutls_certificate_server_set_request(void *s, int r) { isess(s, "set_request")->request = r; }
static void *dbp; static gnutls_db_store_func db_store; static gnutls_db_retr_func db_retr; static gnutls_db_remove_func db_rem;
void __wrap_gnutls_db_set_ptr(void *s, void *p) { isess(s, "db"); dbp = p; } void __wrap_gnutls_db_set_store_function(void *s, gnutls_db_store_func f) { db_store = f; } void __wrap_gnutls_db_set_retrieve_function(void *s, gnutls_db_retr_func f) { db_retr = f; } void __wrap_gnutls_db_set_remove_function(void *s, gnutls_db_remove_func f) { db_rem = f; }
static unsigned char resume_val; static int resume_ok;
int __wrap_gnutls_session_set_data(void *s, const void *d, size_t n) { sess_t *x = isess(s, "session_set_data"); mc_check(n == 30 && resume_ok, "session data of %zu bytes", n); for (; n; n--) mc_check(((const unsigned char *)d)[n - 1] == resume_val, "the session data is not that of this server"); if (dv("session_set_data")) return -49; x->resumed = 1; return 0; }
void __wrap_gnutls_transport_set_ptr(void *s, void *p) { sess_t *x = isess(s, "transport"); x->fd = (int)(long)p; isfd(x->fd, "transport"); }
void __wrap_gnutls_transport_set_int2(void *s, int a, int b) { sess_t *x = isess(s, "transport"); x->fd = a; isfd(a, "transport"); }
static int hs_calls;
int __wrap_gnutls_handshake(void *s)
{
    sess_t *x = isess(s, "handshake"); int k;
    mc_check(x->prio && x->cred && x->fd, "handshake without priorities, credentials or transport");
    isfd(x->fd, "handshake"); mc_check(++hs_calls < 50, "the handshake is repeated for ever");
    k = fon ? mc_dev(6, "handshake: 1 again, 2 interrupted, 3 warning alert, 4 fatal alert, 5 unexpected packet") : 0; dev_n += k > 0;
    if (k >= 4) x->hello = -1;
    mc_check(!(x->hello == -1 && k < 4), "the handshake is continued after a fatal error");
    switch (k) { case 1: return GNUTLS_E_AGAIN; case 2: return GNUTLS_E_INTERRUPTED; case 3: return GNUTLS_E_WARNING_ALERT_RECEIVED; case 4: return GNUTLS_E_FATAL_ALERT_RECEIVED; case 5: return GNUTLS_E_UNEXPECTED_PACKET; }
    x->done = 1; waited = 0; return 0;
}
int __wrap_gnutls_rehandshake(void *s) { isess(s, "rehandshake"); return dv("rehandshake") ? GNUTLS_E_PUSH_ERROR : 0; }
int __wrap_gnutls_alert_get(void *s) { isess(s, "alert"); return mc_choose(2, "alert: no renegotiation") ? GNUTLS_A_NO_RENEGOTIATION : GNUTLS_A_CLOSE_NOTIFY; }
int __wrap_gnutls_session_get_data2(void *s, gnutls_datum_t *d) { isess(s, "get_data2"); if (fon && mc_dev(2, "no session data")) { d->data = NULL; d->size = 0; return -1; } d->size = 30; d->data = gnutls_malloc(30); memset(d->data, 'N', 30); return 0; }
static int bye_ok;
int __wrap_gnutls_bye(void *s, int h) { int k; isess(s, "bye"); k = fon ? mc_dev(4, "bye: 1 again, 2 interrupted, 3 error") : 0; if (k == 0) bye_ok = 1; return k == 0 ? 0 : k == 1 ? GNUTLS_E_AGAIN : k == 2 ? GNUTLS_E_INTERRUPTED : GNUTLS_E_PREMATURE_TERMINATION; }
/* ---- data */
static unsigned char strm(int i) { return (unsigned char)(i * 7 + 1); }
static int rpos, wpos, retry_len; static const void *retry_buf; static int io_calls, io_dead, io_eof;
ssize_t __wrap_gnutls_record_recv(void *s, void *b, size_t n)
{
    int k, i; sess_t *x = isess(s, "recv"); mc_check(x->done, "data is read before the handshake"); mc_check(n > 0, "read of nothing"); mc_check(++io_calls < 60, "reading does not end"); mc_check(!io_dead && !io_eof, "reading goes on after an error or the end");
    k = mc_dev(9, "recv: 1 one byte, 2 half, 3 end, 4 again, 5 interrupted, 6 rehandshake, 7 error, 8 cut off"); dev_n += k > 2;
    if (k == 3) { io_eof = 1; return 0; } if (k == 4) return GNUTLS_E_AGAIN; if (k == 5) return GNUTLS_E_INTERRUPTED; if (k == 6) { waited = 0; return GNUTLS_E_REHANDSHAKE; } if (k == 7) { io_dead = 1; return GNUTLS_E_DECRYPTION_FAILED; } if (k == 8) { io_dead = 1; return GNUTLS_E_PREMATURE_TERMINATION; }
    if (k < 3) waited = 0;
    if (k == 1) n = 1; if (k == 2) n = (n + 1) / 2;
    for (i = 0; i < (int)n; i++) ((unsigned char *)b)[i] = strm(rpos + i);
    rpos += n; return n;
}
ssize_t __wrap_gnutls_record_send(void *s, const void *b, size_t n)
{
    int k, i; sess_t *x = isess(s, "send"); mc_check(x->done, "data is sent before the handshake"); mc_check(++io_calls < 60, "writing does not end"); mc_check(!io_dead, "writing goes on after an error");
    if (retry_len) { mc_check(((int)n == retry_len && b == retry_buf) || (n == 0 && b == NULL), "an interrupted write is repeated with other data"); n = retry_len; b = retry_buf; retry_len = 0; }
    mc_check(n > 0, "write of nothing");
    for (i = 0; i < (int)n; i++) mc_check(((const unsigned char *)b)[i] == strm(wpos + i), "byte %d of the output is wrong", wpos + i);
    k = mc_dev(6, "send: 1 one byte, 2 half, 3 again, 4 interrupted, 5 error"); dev_n += k > 2;
    if (k == 3 || k == 4) { retry_len = n; retry_buf = b; return k == 3 ? GNUTLS_E_AGAIN : GNUTLS_E_INTERRUPTED; }
    if (k == 5) { io_dead = 1; return GNUTLS_E_PUSH_ERROR; }
    if (k == 1) n = 1; if (k == 2) n = (n + 1) / 2;
    wpos += n; waited = 0; return n;
}
/* ------------------------------------------------------------------ parts */
static tls_server_t S; static tls_client_t C;
static void none_left(const char *when, int cred, int dh)
{
    mc_check(nfds() == 0, "%s: %d descriptors stay open", when, nfds()); mc_check(nsess() == 0, "%s: %d sessions stay", when, nsess()); mc_check(crt_live == 0, "%s: a certificate is not released", when);
    mc_check(live.cred == cred && live.dh == dh, "%s: %d credentials and %d DH parameters remain", when, live.cred, live.dh); mc_check(ai_live == 0, "%s: the address list is not released", when);
}
static void names(void) { tf = "trust.pem"; cf = "cert.pem"; kf = "key.pem"; trust_set = key_set = 0; }
static void part_create(void)
{
    int client = mc_choose(2, "client or server"), r, r0;
    mc_set_dev_budget(mc_tier ? 2 : 1); names(); heap_mark(); nf_on = fon = 1; nf_hit = 0;
    r0 = tls_init();
    if (r0 == SOCK_OK) { mc_check(tls_get_priority_cache() == (void *)&prio_o, "no priorities"); mc_check(tls_init() == SOCK_OK && live.glob == 1 && live.prio == 1, "initialising again"); }
    else { mc_check(dev_n, "initialisation fails without a reason"); mc_check(tls_get_priority_cache() == NULL, "priorities although the initialisation failed"); }
    r = client ? tls_client_create(&C, tf, cf, kf) : tls_server_create(&S, tf, cf, kf);
    nf_on = fon = 0;
    if (r == SOCK_OK) {
        mc_check(trust_set && key_set && live.cred == 1 && live.dh == 1, "created without trust, key or DH parameters");
        if (client) tls_client_destroy(&C); else tls_server_destroy(&S);
        mc_count("created");
    } else { mc_check(r < 0 && (dev_n || nf_hit), "creation fails (%d) without a reason", r); mc_count("refused"); }
    none_left("after creation and destruction", 0, 0);
    tls_deinit(); mc_check(live.prio == 0, "priorities are not released"); if (r0 == SOCK_OK) mc_check(live.glob == 0, "the library is not released");
    heap_same("after destruction");
}
static void setup(void) { names(); if (tls_init() || tls_client_create(&C, tf, cf, kf) || tls_server_create(&S, tf, cf, kf)) mc_internal("create"); }
static void teardown(void) { tls_client_destroy(&C); tls_server_destroy(&S); tls_deinit(); none_left("at the end", 0, 0); }
static void open_reset(void) { connected = connect_seq = waits = waited = hs_calls = host_checked = bye_ok = sel_timeout = io_calls = io_dead = io_eof = rpos = wpos = retry_len = 0; dev_n = 0; }
static int do_open(tls_sock_t *s, tls_ssock_t *l, int how, const char *name)
{
    if (how == 0) return tls_sock_open(s, &C, "h", "443", name, 10);
    if (how == 1) { sock_sockaddr_in_t a; memset(&a, 0, sizeof(a)); a.SOCK_SIN_FAMILY = SOCK_AF_INET; ((unsigned char *)&a.SOCK_SIN_ADDR)[0] = 10; ((unsigned char *)&a.SOCK_SIN_ADDR)[3] = 1; return tls_sock_open_from_sockaddr_in(s, &C, name, 10, &a); }
    return tls_ssock_accept(l, s);
}
static void cached(void)
{   /* resumption data of 10.0.0.1 and of another server */
    unsigned char b[30]; gnutls_datum_t d = {b, 30}; char a1[64], a2[64]; sock_sockaddr_in_t a; memset(&a, 0, sizeof(a)); ((unsigned char *)&a.SOCK_SIN_ADDR)[0] = 10; ((unsigned char *)&a.SOCK_SIN_ADDR)[3] = 1; tls_sock_get_addr_string_(a1, sizeof(a1), a.SOCK_SIN_ADDR); ((unsigned char *)&a.SOCK_SIN_ADDR)[3] = 77; tls_sock_get_addr_string_(a2, sizeof(a2), a.SOCK_SIN_ADDR);
    memset(b, 'X', 30); mc_check(!tls_client_set(&C, a2, d), "set"); memset(b, 'R', 30); if (resume_ok) mc_check(!tls_client_set(&C, a1, d), "set"); resume_val = 'R';
}
static int cache_has(unsigned char v) { char a1[64]; gnutls_datum_t d; int r; sock_sockaddr_in_t a; memset(&a, 0, sizeof(a)); ((unsigned char *)&a.SOCK_SIN_ADDR)[0] = 10; ((unsigned char *)&a.SOCK_SIN_ADDR)[3] = connected; tls_sock_get_addr_string_(a1, sizeof(a1), a.SOCK_SIN_ADDR); d = tls_client_get(&C, a1); r = d.size == 30 && d.data[0] == v && d.data[29] == v; if (d.data) gnutls_free(d.data); return r; }
static void part_verify(void)
{
    tls_sock_t s; tls_ssock_t l; int how = mc_choose(3, "open, open by address, accept"), named = how < 2 ? mc_choose(2, "with a name") : 0, r, good, dev;
    heap_mark(); setup(); nai = 2; resume_ok = how < 2 && mc_choose(2, "cached session"); world_ok(); want_name = named ? "peer.org" : NULL; cached();
    world_choose();
    mc_set_dev_budget(0);
    if (how == 2) mc_check(tls_ssock_open(&l, &S, "4433", 10, 5) == SOCK_OK, "listening fails");
    open_reset(); mc_set_dev_budget(mc_tier ? 1 : 0); fon = 1;
    r = do_open(&s, &l, how, want_name); fon = 0; dev = dev_n;
#ifndef TLS_CLIENT_AUTH
    good = how == 2 ? 1 : world_good(named);
#else
    good = world_good(named);
#endif
    mc_check(r <= 0, "result %d", r);
    if (r == SOCK_OK) { mc_check(good, "a peer whose certificate does not pass is accepted"); if (named) mc_check(host_checked, "the peer's name was not checked"); 
#ifdef TLS_CLIENT_AUTH
        if (how == 2) mc_check(((sess_t *)s.session)->request == GNUTLS_CERT_REQUIRE, "the server does not require a certificate");
#endif
        tls_sock_close(&s); mc_count("accepted"); }
    else { mc_check(!good || dev, "a valid peer is refused (%d)", r); mc_check(nsess() == 0 && nfds() == (how == 2), "a refused connection leaves a session or descriptor open"); mc_count("refused"); }
    if (how == 2) tls_ssock_close(&l);
    teardown(); heap_same("verification");
}
static void part_open(void)
{
    tls_sock_t s; tls_ssock_t l; int how = mc_choose(3, "open, open by address, accept"), r, tries = 0, listening = 0;
    heap_mark(); setup(); nai = how == 0 ? mc_choose(3, "addresses") : 1; resume_ok = mc_choose(2, "cached session"); if (how == 2) resume_ok = 0; world_ok(); want_name = "peer.org"; cached();
    mc_set_dev_budget(mc_tier ? 6 : 5); open_reset(); fon = 1;
    if (how == 2) { want_name = NULL; r = tls_ssock_open(&l, &S, "4433", 10, 5); if (r != SOCK_OK) { mc_check(r < 0 && dev_n && nfds() == 0, "listening fails (%d) without a reason or leaves a descriptor", r); fon = 0; teardown(); heap_same("listen"); mc_count("not listening"); return; } listening = 1; dev_n = 0; }
    r = do_open(&s, &l, how, want_name); fon = 0; (void)tries;
    mc_check(r <= 0, "result %d", r);
    if (r == SOCK_OK) {
        sess_t *x; mc_check(nsess() == 1 && nfds() == 1 + listening, "open connection with %d sessions and %d descriptors", nsess(), nfds()); x = isess(s.session, "open");
        mc_check(x->done && x->fd == s.sd && x->server == (how == 2), "the connection is open without a handshake"); if (how < 2) mc_check(x->resumed == (resume_ok && connected == 1), "the cached session is not used (or the wrong one)");
        if (how == 2) mc_check(dbp == &S && db_store && db_retr && db_rem, "the server has no session cache");
        if (how == 2) { gnutls_datum_t k = {(unsigned char *)"id", 2}, v = {(unsigned char *)"value", 5}, g; mc_check(db_store(dbp, k, v) == 0, "store"); g = db_retr(dbp, k); mc_check(g.size == 5 && !memcmp(g.data, "value", 5), "the stored session is not retrieved"); gnutls_free(g.data); db_rem(dbp, k); g = db_retr(dbp, k); mc_check(g.size == 0, "a removed session is retrieved"); }
        open_reset(); { int c = how < 2 ? s.sin.SOCK_SIN_FAMILY == SOCK_AF_INET ? ((unsigned char *)&s.sin.SOCK_SIN_ADDR)[3] : 0 : 0; connected = c; }
        fon = 1; tls_sock_close(&s); fon = 0;
        mc_check(nsess() == 0 && nfds() == listening, "closing leaves %d sessions and %d descriptors", nsess(), nfds());
        if (how < 2 && !bye_ok) mc_check(!cache_has('N'), "a session that was not closed properly is cached");
        if (how < 2 && bye_ok && mc_dev_left() == (mc_tier ? 6 : 5)) mc_check(cache_has('N'), "the session is not cached");
        mc_count("opened");
    } else { mc_check(dev_n || (how == 0 && nai == 0), "opening fails (%d) without a reason", r); mc_check(nsess() == 0 && nfds() == listening, "failing leaves %d sessions and %d descriptors", nsess(), nfds()); if (how == 0 && nai == 2 && connect_seq == 1 && !connected && dev_n == 1) mc_fail("the second address is not tried"); mc_count("failed"); }
    if (listening) tls_ssock_close(&l);
    teardown(); heap_same("open");
}
static void part_io(void)
{
    tls_sock_t s; tls_ssock_t l; int op = mc_choose(5, "read, read_full, write, write_full, rehandshake"), server = mc_choose(2, "server"), len, i, dev, used; ssize_t r; char *b;
    static const int lens[] = {1, 2, 5};
    heap_mark(); setup(); nai = 1; resume_ok = 0; world_ok(); want_name = server ? NULL : "peer.org"; mc_set_dev_budget(0);
    if (server) mc_check(tls_ssock_open(&l, &S, "4433", 10, 5) == 0, "listen");
    open_reset(); mc_check(do_open(&s, &l, server ? 2 : 0, want_name) == SOCK_OK, "open");
    len = lens[mc_choose(3, "length")]; b = exact("", 0); free(b); b = malloc(len); for (i = 0; i < len; i++) b[i] = strm(i);
    open_reset(); mc_set_dev_budget(mc_tier ? 7 : 6); fon = 1; used = 0;
    switch (op) {
    case 0: memset(b, 0, len); r = tls_sock_read(&s, b, len); break; case 1: memset(b, 0, len); r = tls_sock_read_full(&s, b, len); break; case 2: r = tls_sock_write(&s, b, len); break; case 3: r = tls_sock_write_full(&s, b, len); break; default: r = tls_sock_rehandshake(&s); }
    fon = 0; dev = dev_n; (void)used;
    if (op == 4) { if (r == SOCK_OK) mc_check(server, "a client requests a new handshake"); else mc_check(r < 0 && (!server || dev), "new handshake fails (%zd)", r); }
    else if (op < 2) {
        mc_check(r <= len, "%zd bytes read into %d", r, len);
        if (r > 0) { mc_check(op == 0 ? r == rpos : (r == len && rpos == len), "%zd bytes reported, %d received", r, rpos); for (i = 0; i < r; i++) mc_check((unsigned char)b[i] == strm(i), "byte %d read is wrong", i); mc_count("read"); }
        else if (r == 0) mc_check(io_eof, "the end of the connection is reported, but it is open"); else { mc_check(dev > 0 && !io_eof, "reading fails (%zd) without a reason", r); if (sel_timeout) mc_check(r == SOCK_TIMEOUT, "a timeout is reported as %zd", r); mc_count("read fails"); }
    } else {
        mc_check(r <= len, "more written than given");
        if (r > 0) { mc_check(op == 2 ? r == wpos : (r == len && wpos == len), "%zd bytes reported, %d sent", r, wpos); mc_count("written"); } else { mc_check(r < 0 && dev > 0, "writing fails (%zd) without a reason", r); if (sel_timeout) mc_check(r == SOCK_TIMEOUT, "a timeout is reported as %zd", r); mc_count("write fails"); }
    }
    free(b); open_reset(); fon = 0; mc_set_dev_budget(0);
    tls_sock_close(&s); if (server) tls_ssock_close(&l);
    teardown(); heap_same("io");
}
/* ---- the caches as maps */
static gnutls_alloc_function real_gm; static int gm_hit; static void *gm(size_t n) { if (fon && mc_dev(2, "gnutls_malloc fails")) { gm_hit = 1; return NULL; } return real_gm(n); }
static void part_cacheseq(void)
{
    int client = mc_choose(2, "client or server cache"), depth = mc_tier ? 5 : 4, i, k, op, fillers = 0, present[3] = {0}, maybe[3] = {0}, val[3] = {0}, len[3] = {0}, since[3] = {0}; static const int lens[] = {1, 700, 2048};
    static char kname[3][16] = {"10.0.0.1", "10.0.0.10", "10.0.0.2"}; static const int klen[3] = {8, 9, 32}; static unsigned char kid[3][32] = {"AAAABBBB", "AAAABBBBC", "AAAABBBBC\0\0zzz"}; static unsigned char buf[2100];
    heap_mark(); setup(); if (!real_gm) real_gm = gnutls_malloc; gnutls_malloc = gm; mc_set_dev_budget(1);
    for (i = 0; i < depth; i++) {
        op = mc_choose(client ? 9 : 10, "store short, store 700, store 2048, too long, look up, delete, 30 others, 49 others, 51 others, ID too long"); k = op < 6 ? mc_choose(3, "key") : 0;
        if (op < 4) {
            gnutls_datum_t d = {buf, op == 3 ? 2049 : lens[op]}, id = {kid[k], klen[k]}; int r, j; memset(buf, 'a' + i, sizeof(buf)); fon = 1;
            r = client ? tls_client_set(&C, kname[k], d) : tls_server_set(&S, id, d); fon = 0;
            if (op == 3) { mc_check(r < 0, "session data of 2049 bytes is accepted"); maybe[k] = 1; }
            else { mc_check(r == 0, "storing fails (%d)", r); if (!present[k] || maybe[k] || since[k] >= 50) { for (j = 0; j < 3; j++) if (j != k) since[j]++; if (!maybe[k]) since[k] = 0; } present[k] = 1; maybe[k] = 0; val[k] = 'a' + i; len[k] = d.size; }
        } else if (op == 9) {
            static unsigned char lid[40] = "AAAABBBBC\0\0zzz"; int n = 33 + mc_choose(2, "1 or 7 bytes too long") * 6; gnutls_datum_t d = {buf, 64}, id = {lid, n}, g; memset(buf, 'L', 64); lid[32] = 0x55; mc_check(tls_server_set(&S, id, d) != 0, "a session ID of %d bytes is accepted", n); g = tls_server_get(&S, id); mc_check(g.size == 0, "a session that could not be stored is found"); tls_server_delete(&S, id);
        } else if (op == 4 || (op == 5 && client)) {
            gnutls_datum_t id = {kid[k], klen[k]}, d; unsigned j; gm_hit = 0; fon = 1; d = client ? tls_client_get(&C, kname[k]) : tls_server_get(&S, id); fon = 0;
            if (d.size == 0) { mc_check(!present[k] || maybe[k] || since[k] >= 50 || gm_hit, "session data that was stored is not found"); mc_count("not found"); if (d.data) gnutls_free(d.data); }
            else { mc_check(d.data != NULL, "session data without data"); mc_check(present[k], "session data that was not stored (or was deleted) is found"); mc_check((int)d.size == len[k], "session data of %u bytes instead of %d", d.size, len[k]); for (j = 0; j < d.size; j++) mc_check(d.data[j] == val[k], "the session data is that of another session or not the latest"); gnutls_free(d.data); mc_count("found"); }
        } else if (op == 5) { gnutls_datum_t id = {kid[k], klen[k]}; tls_server_delete(&S, id); present[k] = 0; maybe[k] = 0; }
        else { int n = op == 6 ? 30 : op == 7 ? 49 : 51, j; char t[16]; memset(buf, 'Z', 64); while (n--) { gnutls_datum_t d = {buf, 64}, id = {(unsigned char *)t, 0}; id.size = sprintf(t, "10.1.%d.%d", fillers / 200, fillers % 200); fillers++; mc_check((client ? tls_client_set(&C, t, d) : tls_server_set(&S, id, d)) == 0, "storing fails"); for (j = 0; j < 3; j++) since[j]++; } }
    }
    for (k = 0; k < 3; k++) { gnutls_datum_t id = {kid[k], klen[k]}, d = client ? tls_client_get(&C, kname[k]) : tls_server_get(&S, id); unsigned j; if (!d.size) { mc_check(!present[k] || maybe[k] || since[k] >= 50, "session data that was stored is lost"); if (d.data) gnutls_free(d.data); continue; } mc_check(present[k] && (int)d.size == len[k], "the session data is not that stored last"); for (j = 0; j < d.size; j++) mc_check(d.data[j] == val[k], "the session data is that of another session"); gnutls_free(d.data); }
    teardown(); gnutls_malloc = real_gm; heap_same("cache");
}
void mc_setup(void) { mc_shard_depth(3); }
void mc_execute(void)
{
    if (mc_dirty) { fon = 0; nf_on = 0; tls_deinit(); if (real_gm) gnutls_malloc = real_gm; }
    reset(); ai_live = 0; crt_live = 0;
    if (!strcmp(mc_part, "create")) part_create(); else if (!strcmp(mc_part, "verify")) part_verify(); else if (!strcmp(mc_part, "open")) part_open(); else if (!strcmp(mc_part, "io")) part_io(); else if (!strcmp(mc_part, "cacheseq")) part_cacheseq(); else mc_internal("part");
}
