#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdarg.h>
#include <time.h>
#include <fcntl.h>
#include <netdb.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/timerfd.h>
#include "coap_ipv.h"

fos_fd_t fos_fd[FOS_N];
uint64_t fos_now, fos_epoch;
int fos_rand_mode;
uint32_t fos_rand_state;

void fos_reset(void) { memset(fos_fd, 0, sizeof(fos_fd)); fos_now = 0; fos_epoch = 1000000; fos_rand_mode = 0; fos_rand_state = 12345; }
int fos_open_count(void) { int i, n = 0; for (i = 0; i < FOS_N; i++) n += fos_fd[i].kind != 0; return n; }
fos_fd_t *fos_get(int fd, const char *who)
{
    mc_check(fd >= FOS_BASE && fd < FOS_BASE + FOS_N && fos_fd[fd - FOS_BASE].kind, "%s on a descriptor that is not open (%d)", who, fd);
    return &fos_fd[fd - FOS_BASE];
}
int fos_new(int kind)
{
    int i;
    for (i = 0; i < FOS_N; i++) if (!fos_fd[i].kind) { memset(&fos_fd[i], 0, sizeof(fos_fd[i])); fos_fd[i].kind = kind; fos_fd[i].owner = -1; return FOS_BASE + i; }
    mc_fail("descriptor leak: more than %d descriptors are open", FOS_N);
}
int fos_find(int kind) { int i; for (i = 0; i < FOS_N; i++) if (fos_fd[i].kind == kind) return FOS_BASE + i; return -1; }
static int inj(const char *c) { int e = fos_fault(c); if (e) { mc_log("fault: %s fails with errno %d", c, e); errno = e; return 1; } return 0; }

int __wrap_socket(int d, int t, int p) { if (inj("socket")) return -1; return fos_new(FOS_SOCK); }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { fos_get(fd, "setsockopt"); return inj("setsockopt") ? -1 : 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) { fos_get(fd, "bind")->bound = 1; return inj("bind") ? -1 : 0; }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t n) { fos_get(fd, "connect")->bound = 1; return inj("connect") ? -1 : 0; }
int __wrap_fcntl(int fd, int cmd, ...) { fos_get(fd, "fcntl"); return inj("fcntl") ? -1 : 0; }
int __wrap_close(int fd) { fos_fd_t *f = fos_get(fd, "close"); memset(f, 0, sizeof(*f)); return 0; }
int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
static struct addrinfo gai; static coap_ipv_sockaddr_in_t gai_sin; static int gai_live;
int __wrap_getaddrinfo(const char *h, const char *p, const struct addrinfo *hints, struct addrinfo **res)
{
    if (fos_fault("getaddrinfo")) return EAI_AGAIN;
    memset(&gai, 0, sizeof(gai)); memset(&gai_sin, 0, sizeof(gai_sin));
    *(sa_family_t *)&gai_sin = COAP_IPV_AF_INET;
    gai_sin.COAP_IPV_SIN_PORT = htons(5683);
    gai.ai_family = COAP_IPV_AF_INET; gai.ai_socktype = SOCK_DGRAM; gai.ai_addr = (struct sockaddr *)&gai_sin; gai.ai_addrlen = sizeof(gai_sin);
    *res = &gai; gai_live++;
    return 0;
}
void __wrap_freeaddrinfo(struct addrinfo *a) { if (a == &gai) gai_live--; }
int __wrap_timerfd_create(int c, int f) { int fd; if (inj("timerfd_create")) return -1; fd = fos_new(FOS_TIMER); fos_timer_created(fd); return fd; }
int __wrap_timerfd_settime(int fd, int flags, const struct itimerspec *n, struct itimerspec *o)
{
    fos_fd_t *f = fos_get(fd, "timerfd_settime");
    if (f->kind != FOS_TIMER) { errno = EINVAL; return -1; }
    if (n->it_value.tv_nsec < 0 || n->it_value.tv_nsec > 999999999 || n->it_value.tv_sec < 0) { errno = EINVAL; return -1; }
    if (inj("timerfd_settime")) return -1;
    f->expired = 0;
    f->interval = (uint64_t)n->it_value.tv_sec * 1000000000ull + n->it_value.tv_nsec;
    f->armed = f->interval != 0;
    f->arm_time = fos_now;
    f->deadline = fos_now + f->interval;
    return 0;
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n)
{
    fos_fd_t *f;
    if (fd < FOS_BASE) return __real_read(fd, b, n);
    f = fos_get(fd, "read");
    if (f->kind == FOS_TIMER) {
        uint64_t v = 1;
        if (n < 8) { errno = EINVAL; return -1; }
        if (!f->expired) { errno = EAGAIN; return -1; }
        memcpy(b, &v, 8); f->expired = 0; return 8;
    }
    return fos_recv(fd, b, n, 0, NULL, NULL);
}
time_t __wrap_time(time_t *t) { time_t v = (time_t)(fos_epoch + fos_now / 1000000000ull); if (t) *t = v; return v; }
void __wrap_srand(unsigned s) {}
int __wrap_rand(void)
{
    if (fos_rand_mode == 1) return 0;
    if (fos_rand_mode == 2) return 999;
    fos_rand_state = fos_rand_state * 1103515245u + 12345u;
    return (int)((fos_rand_state >> 8) & 0x7fffff);
}
int __wrap_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{   /* the kernel looks at descriptors below n only */
    int i;
    for (i = FOS_BASE; i < FOS_BASE + FOS_N; i++) if (i >= n) { if (r) FD_CLR(i, r); if (w) FD_CLR(i, w); if (e) FD_CLR(i, e); }
    return fos_select(n, r, w, tv);
}
ssize_t __wrap_sendto(int fd, const void *b, size_t l, int fl, const struct sockaddr *to, socklen_t tl) { fos_get(fd, "sendto"); if (inj("send")) return -1; return fos_send(fd, b, l, to, tl); }
ssize_t __wrap_send(int fd, const void *b, size_t l, int fl) { fos_get(fd, "send"); if (inj("send")) return -1; return fos_send(fd, b, l, NULL, 0); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t l, int fl, struct sockaddr *f, socklen_t *fl2) { fos_get(fd, "recvfrom"); if (inj("recv")) return -1; return fos_recv(fd, b, l, fl, f, fl2); }
ssize_t __wrap_recv(int fd, void *b, size_t l, int fl) { fos_get(fd, "recv"); if (inj("recv")) return -1; return fos_recv(fd, b, l, fl, NULL, NULL); }
