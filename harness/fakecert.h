/* The certificate the peer presents, as GnuTLS reports it: every answer is enumerated.  The includer defines
 * cert_session_ready(session) (checks the handle; non-zero when the handshake is complete). */
#ifndef FAKECERT_H
#define FAKECERT_H
#include <time.h>
#include <string.h>
#include <gnutls/gnutls.h>
#include <gnutls/x509.h>
static int crt_live; static char crt_o;
static struct { int vret; unsigned status; int type, init, peers, import; time_t exp, act; int host; } W;
#ifndef NOW
static const time_t NOW = 1700000000;
time_t __wrap_time(time_t *t) { if (t) *t = NOW; return NOW; }
#endif
static const char *want_name; static int crt_state, host_checked;
static gnutls_datum_t chain[2] = {{(unsigned char *)"leaf", 4}, {(unsigned char *)"ca", 2}};
static int world_good(int need_host) { return W.vret == 0 && W.status == 0 && W.type == GNUTLS_CRT_X509 && W.init == 0 && W.peers && W.import == 0 && W.exp != -1 && W.exp >= NOW && W.act != -1 && W.act <= NOW && (!need_host || W.host); }
static void world_ok(void) { W.vret = 0; W.status = 0; W.type = GNUTLS_CRT_X509; W.init = 0; W.peers = 1; W.import = 0; W.exp = NOW + 1000000; W.act = NOW - 100; W.host = 1; }
int __wrap_gnutls_certificate_verify_peers2(void *s, unsigned *st) { mc_check(cert_session_ready(s), "the certificate is verified before the handshake"); if (W.vret == 0) *st = W.status; return W.vret; }
int __wrap_gnutls_certificate_verify_peers3(void *s, const char *h, unsigned *st) { mc_check(cert_session_ready(s), "the certificate is verified before the handshake"); if (h) { mc_check(want_name && !strcmp(h, want_name), "another name is verified"); host_checked = 1; } if (W.vret == 0) { *st = W.status; if (h && !W.host) *st |= GNUTLS_CERT_INVALID | GNUTLS_CERT_UNEXPECTED_OWNER; } return W.vret; }
int __wrap_gnutls_certificate_type_get(void *s) { cert_session_ready(s); return W.type; }
int __wrap_gnutls_x509_crt_init(void **c) { if (W.init) return W.init; crt_live++; *c = &crt_o; crt_state = 0; return 0; }
void __wrap_gnutls_x509_crt_deinit(void *c) { mc_check(c == &crt_o && crt_live > 0, "a certificate that does not exist is released"); crt_live--; }
const gnutls_datum_t *__wrap_gnutls_certificate_get_peers(void *s, unsigned *n) { cert_session_ready(s); if (!W.peers) { *n = 0; return NULL; } *n = W.peers; return chain; }
int __wrap_gnutls_x509_crt_import(void *c, const gnutls_datum_t *d, int f) { mc_check(c == &crt_o && crt_live, "import into a certificate that does not exist"); if (W.import) return W.import; crt_state = d->data == chain[0].data && f == GNUTLS_X509_FMT_DER ? 1 : 2; return 0; }
static void leaf(const char *w) { mc_check(crt_state == 1, "%s of something that is not the peer's certificate", w); }
time_t __wrap_gnutls_x509_crt_get_expiration_time(void *c) { leaf("expiration time"); return W.exp; }
time_t __wrap_gnutls_x509_crt_get_activation_time(void *c) { leaf("activation time"); return W.act; }
unsigned __wrap_gnutls_x509_crt_check_hostname(void *c, const char *h) { leaf("host name"); mc_check(want_name && !strcmp(h, want_name), "the certificate is compared with another name"); host_checked = 1; return W.host; }
static void world_choose(void)
{
    static const unsigned sts[] = {0, GNUTLS_CERT_INVALID, GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_FOUND, GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNER_NOT_CA, GNUTLS_CERT_INVALID | GNUTLS_CERT_REVOKED, GNUTLS_CERT_INVALID | GNUTLS_CERT_EXPIRED, GNUTLS_CERT_INVALID | GNUTLS_CERT_SIGNATURE_FAILURE, GNUTLS_CERT_SIGNER_NOT_FOUND, GNUTLS_CERT_SIGNER_NOT_CA, GNUTLS_CERT_REVOKED};
    static const time_t ts[] = {1, -1, 0, 0}; int k;
    world_ok();
    W.vret = mc_choose(2, "verification fails") ? GNUTLS_E_NO_CERTIFICATE_FOUND : 0;
    W.status = sts[mc_choose(10, "status")]; W.type = mc_choose(2, "type") ? GNUTLS_CRT_RAWPK : GNUTLS_CRT_X509; W.init = mc_choose(2, "crt_init fails") ? -25 : 0; W.peers = 2 - mc_choose(3, "certificates: 2, 1, none"); W.import = mc_choose(2, "import fails") ? -34 : 0;
    k = mc_choose(4, "expiration: in a second, a second ago, unknown, now"); W.exp = k == 2 ? -1 : NOW + ts[k]; k = mc_choose(4, "activation: a second ago, in a second, unknown, now"); W.act = k == 2 ? -1 : NOW - ts[k]; W.host = !mc_choose(2, "name differs");
}
#endif
