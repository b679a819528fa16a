/* A deterministic stand-in for the kernel services the CoAP library uses: descriptors, timerfds, clock,
 * random numbers, name resolution.  Network and select() behaviour is decided by the harness (hooks). */
#ifndef FAKEOS_H
#define FAKEOS_H
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include <sys/select.h>
#include <sys/socket.h>
#define FOS_BASE 100
#define FOS_N    40
enum { FOS_FREE = 0, FOS_SOCK = 1, FOS_TIMER = 2, FOS_STREAM = 3 };
typedef struct {
    int kind, armed, expired, owner;      /* owner: free for the harness */
    uint64_t deadline, interval;          /* ns */
    uint64_t arm_time;
    int bound;
} fos_fd_t;
extern fos_fd_t fos_fd[FOS_N];
extern uint64_t fos_now;                  /* ns */
extern uint64_t fos_epoch;                /* seconds added by time() */
extern int fos_rand_mode;                 /* 0: LCG, 1: always 0, 2: always 999, 3: LCG seeded elsewhere */
extern uint32_t fos_rand_state;
extern int fos_open_count(void);
void fos_reset(void);
fos_fd_t *fos_get(int fd, const char *who);
int fos_new(int kind);
int fos_find(int kind);                   /* first open descriptor of that kind, or -1 */
/* harness hooks */
int fos_fault(const char *call);                                   /* errno to inject, or 0 */
int fos_select(int n, fd_set *r, fd_set *w, struct timeval *tv);
ssize_t fos_send(int fd, const void *buf, size_t len, const struct sockaddr *to, socklen_t tolen);
ssize_t fos_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fromlen);
void fos_timer_created(int fd);
#define FOS_WRAPS
#endif
