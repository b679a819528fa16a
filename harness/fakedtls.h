/* A stand-in for GnuTLS's DTLS: sessions, records and handshakes without cryptography.  On the wire a datagram is one
 * type byte (hello, application data, alert) followed by the data in clear.  Every call that can fail is a fault point. */
#ifndef FAKEDTLS_H
#define FAKEDTLS_H
#include <stddef.h>
#include <sys/types.h>
#define FD_HELLO 0x16
#define FD_APP   0x17
#define FD_ALERT 0x15
#define FD_GARBAGE 0x99
typedef struct {
    int live, server, hs, byes, cl, cred, prio, want_cert, tries, alert, dead;
    void *ptr;
    ssize_t (*pull)(void *, void *, size_t);
    int (*pull_timeout)(void *, unsigned);
    ssize_t (*push)(void *, const void *, size_t);
    unsigned char rest[2048]; size_t nrest;
} fd_sess_t;
#define FD_NS 64
extern fd_sess_t fd_s[FD_NS];
extern int fd_handshakes, fd_now_cl;                   /* fd_now_cl: whose datagram is delivered (set by the harness) */
void fd_reset(void);
void fd_released(const char *when);                    /* no session, credential or library reference is left */
fd_sess_t *fd_session_of(int cl);                      /* established session of a client, or NULL */
fd_sess_t *fd_in_handshake(void);
ssize_t fd_pull(fd_sess_t *s, unsigned char *buf, size_t len, int *gerr);   /* through the registered function */
void fd_world_ok(void);
void fd_world_choose(void);
void fd_world_bad(void);
int fd_world_good(int need_host);
int fd_host_checked(void);
extern const char *fd_want_name;
int fd_handshake(fd_sess_t *s);                        /* harness hook: result of gnutls_handshake */
#define FD_SERVER_ARGS , "key.pem", "cert.pem", "trust.pem", "crl.pem"
#endif
