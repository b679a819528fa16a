#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include "fakedtls.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <gnutls/gnutls.h>
#include <gnutls/dtls.h>
#include <gnutls/x509.h>

fd_sess_t fd_s[FD_NS];
static int ns, globals, creds, prios, dhs; static char cred_o, prio_o, dh_o;
int fd_handshakes, fd_now_cl; const char *fd_want_name;

static fd_sess_t *sess(void *p, const char *who)
{
    fd_sess_t *s = p;
    mc_check(s >= fd_s && s < fd_s + FD_NS && s->live, "%s: the DTLS session does not exist", who);
    return s;
}
static fd_sess_t *ready(void *p, const char *who) { fd_sess_t *s = sess(p, who); mc_check(s->hs, "%s before the DTLS handshake is complete", who); return s; }
static int cert_session_ready(void *p) { return sess(p, "certificate")->hs; }
#define NOW ((time_t)(fos_epoch + fos_now / 1000000000ull))
#include "fakecert.h"
void fd_world_ok(void) { world_ok(); } 
void fd_world_choose(void) { world_choose(); }
void fd_world_bad(void) { world_ok(); W.status = GNUTLS_CERT_INVALID | GNUTLS_CERT_REVOKED; }
int fd_world_good(int h) { return world_good(h); }
int fd_host_checked(void) { return host_checked; }

void fd_reset(void) { memset(fd_s, 0, sizeof(fd_s)); ns = 0; globals = creds = prios = dhs = 0; crt_live = 0; fd_handshakes = 0; fd_now_cl = -1; host_checked = 0; want_name = fd_want_name; world_ok(); }
void fd_released(const char *when)
{
    int i, n = 0;
    for (i = 0; i < FD_NS; i++) n += fd_s[i].live;
    mc_check(n == 0, "%s: %d DTLS session(s) not released", when, n);
    mc_check(creds == 0 && prios == 0 && dhs == 0, "%s: DTLS credentials, priorities or parameters not released", when);
    mc_check(crt_live == 0, "%s: certificate not released", when);
    mc_check(globals == 0, "%s: DTLS library initialised and released unequally (%d)", when, globals);
}
fd_sess_t *fd_session_of(int cl) { int i; for (i = 0; i < FD_NS; i++) if (fd_s[i].live && fd_s[i].hs && !fd_s[i].dead && fd_s[i].cl == cl) return &fd_s[i]; return NULL; }
fd_sess_t *fd_in_handshake(void) { int i; for (i = 0; i < FD_NS; i++) if (fd_s[i].live && !fd_s[i].hs) return &fd_s[i]; return NULL; }
static int gf(const char *c) { int e = fos_fault(c); if (e) mc_log("fault: %s fails", c); return e != 0; }
ssize_t fd_pull(fd_sess_t *s, unsigned char *b, size_t len, int *gerr)
{
    ssize_t n;
    mc_check(s->pull != NULL && s->push != NULL, "DTLS session without transport functions");
    errno = 0;
    n = s->pull(s->ptr, b, len);
    if (n < 0) *gerr = errno == EAGAIN || errno == EINTR ? GNUTLS_E_AGAIN : GNUTLS_E_PULL_ERROR;
    else errno = 0;
    return n;
}

int __wrap_gnutls_global_init(void) { if (gf("gnutls_global_init")) return GNUTLS_E_MEMORY_ERROR; globals++; return 0; }
void __wrap_gnutls_global_deinit(void) { mc_check(globals > 0, "gnutls_global_deinit without gnutls_global_init"); globals--; }
int __wrap_gnutls_certificate_allocate_credentials(void **c) { if (gf("gnutls_certificate_allocate_credentials")) return GNUTLS_E_MEMORY_ERROR; mc_check(globals > 0, "library not initialised"); creds++; *c = &cred_o; return 0; }
void __wrap_gnutls_certificate_free_credentials(void *c) { int i; mc_check(c == &cred_o && creds > 0, "credentials that do not exist are released"); for (i = 0; i < FD_NS; i++) mc_check(!(fd_s[i].live && fd_s[i].cred), "the credentials of a live DTLS session are released"); creds--; }
static void cr(void *c) { mc_check(c == &cred_o && creds > 0, "use of credentials that do not exist"); }
int __wrap_gnutls_certificate_set_x509_trust_file(void *c, const char *f, int t) { cr(c); return gf("trust file") ? GNUTLS_E_FILE_ERROR : 1; }
int __wrap_gnutls_certificate_set_x509_crl_file(void *c, const char *f, int t) { cr(c); return gf("crl file") ? 0 : 1; }
int __wrap_gnutls_certificate_set_x509_key_file(void *c, const char *f, const char *k, int t) { cr(c); return gf("key file") ? GNUTLS_E_FILE_ERROR : 0; }
int __wrap_gnutls_dh_params_init(void **d) { if (gf("gnutls_dh_params_init")) return GNUTLS_E_MEMORY_ERROR; dhs++; *d = &dh_o; return 0; }
int __wrap_gnutls_dh_params_generate2(void *d, unsigned b) { mc_check(d == &dh_o && dhs, "no DH parameters"); return gf("gnutls_dh_params_generate2") ? GNUTLS_E_MEMORY_ERROR : 0; }
void __wrap_gnutls_dh_params_deinit(void *d) { mc_check(d == &dh_o && dhs > 0, "DH parameters that do not exist are released"); dhs--; }
void __wrap_gnutls_certificate_set_dh_params(void *c, void *d) { cr(c); mc_check(d == &dh_o && dhs, "no DH parameters"); }
int __wrap_gnutls_priority_init(void **p, const char *s, const char **e) { if (gf("gnutls_priority_init")) return GNUTLS_E_INVALID_REQUEST; prios++; *p = &prio_o; return 0; }
void __wrap_gnutls_priority_deinit(void *p) { mc_check(p == &prio_o && prios > 0, "priorities that do not exist are released"); prios--; }
int __wrap_gnutls_init(void **p, unsigned flags)
{
    int i; fd_sess_t *s;
    if (gf("gnutls_init")) return GNUTLS_E_MEMORY_ERROR;
    mc_check(flags & GNUTLS_DATAGRAM, "a DTLS session must use GNUTLS_DATAGRAM");
    for (i = 0; i < FD_NS && fd_s[(ns + i) % FD_NS].live; i++) {}
    mc_check(i < FD_NS, "DTLS sessions are never released");
    s = &fd_s[(ns + i) % FD_NS]; ns = (ns + i + 1) % FD_NS;
    memset(s, 0, sizeof(*s)); s->live = 1; s->server = !!(flags & GNUTLS_SERVER); s->cl = -1;
    *p = s;
    return 0;
}
void __wrap_gnutls_deinit(void *p) { fd_sess_t *s = sess(p, "gnutls_deinit"); s->live = 0; }
int __wrap_gnutls_credentials_set(void *p, int t, void *c) { fd_sess_t *s = sess(p, "credentials"); cr(c); if (gf("gnutls_credentials_set")) return GNUTLS_E_MEMORY_ERROR; s->cred = 1; return 0; }
int __wrap_gnutls_priority_set(void *p, void *q) { fd_sess_t *s = sess(p, "priorities"); mc_check(q == &prio_o && prios > 0, "no priorities"); if (gf("gnutls_priority_set")) return GNUTLS_E_MEMORY_ERROR; s->prio = 1; return 0; }
void __wrap_gnutls_certificate_server_set_request(void *p, int r) { sess(p, "request")->want_cert = r == GNUTLS_CERT_REQUIRE; }
void __wrap_gnutls_transport_set_ptr(void *p, void *q) { sess(p, "transport")->ptr = q; }
void __wrap_gnutls_transport_set_pull_function(void *p, void *f) { sess(p, "transport")->pull = f; }
void __wrap_gnutls_transport_set_pull_timeout_function(void *p, void *f) { sess(p, "transport")->pull_timeout = f; }
void __wrap_gnutls_transport_set_push_function(void *p, void *f) { sess(p, "transport")->push = f; }
void __wrap_gnutls_dtls_set_mtu(void *p, unsigned m) { sess(p, "mtu"); }
void __wrap_gnutls_dtls_set_timeouts(void *p, unsigned a, unsigned b) { sess(p, "timeouts"); }
unsigned __wrap_gnutls_dtls_get_timeout(void *p) { sess(p, "timeout"); return 1000; }
int __wrap_gnutls_handshake(void *p)
{
    fd_sess_t *s = sess(p, "gnutls_handshake"); int r;
    mc_check(s->cred && s->prio, "DTLS handshake without credentials or priorities");
    mc_check(++s->tries <= 200, "the DTLS handshake is tried without end");
    r = fd_handshake(s);
    if (r == 0) { s->hs = 1; fd_handshakes++; }
    return r;
}
ssize_t __wrap_gnutls_record_recv(void *p, void *buf, size_t len)
{
    fd_sess_t *s = ready(p, "gnutls_record_recv"); unsigned char w[2048]; ssize_t n; int e = 0;
    if (s->nrest) { n = s->nrest < len ? s->nrest : len; memcpy(buf, s->rest, n); memmove(s->rest, s->rest + n, s->nrest - n); s->nrest -= n; return n; }
    if (s->dead) return s->dead == 1 ? 0 : GNUTLS_E_INVALID_SESSION;                       /* as GnuTLS does: nothing is read any more */
    n = fd_pull(s, w, sizeof(w), &e);
    if (n < 0) return e;
    if (n < 1 || (w[0] != FD_APP && w[0] != FD_ALERT)) return GNUTLS_E_AGAIN;            /* discarded; errno stays 0 */
    if (w[0] == FD_ALERT) { s->alert = w[1]; s->dead = n < 2 || w[1] == 0 ? 1 : w[1] == 2 ? 2 : 0; return n < 2 || w[1] == 0 ? 0 : w[1] == 1 ? GNUTLS_E_WARNING_ALERT_RECEIVED : GNUTLS_E_FATAL_ALERT_RECEIVED; }
    n--;
    memcpy(buf, w + 1, (size_t)n < len ? (size_t)n : len);
    if ((size_t)n > len) { s->nrest = n - len; memcpy(s->rest, w + 1 + len, s->nrest); return len; }
    return n;
}
size_t __wrap_gnutls_record_check_pending(void *p) { return sess(p, "check_pending")->nrest; }
static ssize_t fd_push(fd_sess_t *s, int type, const void *b, size_t n)
{
    unsigned char w[2048]; ssize_t r;
    mc_check(n < sizeof(w), "record of %zu bytes", n);
    w[0] = type; memcpy(w + 1, b, n);
    r = s->push(s->ptr, w, n + 1);
    if (r < 0) return errno == EAGAIN ? GNUTLS_E_AGAIN : GNUTLS_E_PUSH_ERROR;
    return n;
}
ssize_t __wrap_gnutls_record_send(void *p, const void *b, size_t n) { fd_sess_t *s = ready(p, "gnutls_record_send"); mc_check(!s->byes, "data sent after the DTLS session was closed"); return fd_push(s, FD_APP, b, n); }
int __wrap_gnutls_bye(void *p, int how) { fd_sess_t *s = sess(p, "gnutls_bye"); int r; s->byes++; mc_check(how == GNUTLS_SHUT_WR, "waiting for the peer's close would block"); r = s->push ? fd_push(s, FD_ALERT, "\0", 1) : 0; return r < 0 ? r : 0; }
int __wrap_gnutls_alert_get(void *p) { return sess(p, "alert")->alert; }
const char *__wrap_gnutls_alert_get_name(int a) { return "alert"; }
const char *__wrap_gnutls_strerror_name(int e) { return "error"; }
int __wrap_gnutls_kx_get(void *p) { ready(p, "kx"); return 1; }
int __wrap_gnutls_cipher_get(void *p) { ready(p, "cipher"); return 1; }
int __wrap_gnutls_mac_get(void *p) { ready(p, "mac"); return 1; }
const char *__wrap_gnutls_cipher_suite_get_name(int a, int b, int c) { return NULL; }
