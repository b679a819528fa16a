/* The proxy's listener thread, run unmodified: what happens to every accepted connection and to the listener itself when
 * accepting, allocating or starting a thread fails. */
#define _GNU_SOURCE
#include "mc.h"
#include "pool.h"
#include "nofault.h"
#include "listener.h"
#include "connection.h"
#include "sock.h"
#include <pthread.h>
#include <string.h>
#include <errno.h>
#include <setjmp.h>

int go;
#define MAXC 16
enum { C_NONE, C_OPEN, C_CLOSED };
static struct { int st, threads, reads; tls_sock_t *s; } C[MAXC]; static int nc;
static struct { void *(*f)(void *); void *d; int done; } T[MAXC]; static int nt, running_c;
static int ss_open, naccept, limit, probing, probe_c, faults_on, faulted, after_stop, sleeps, late, stopmean, spawn_ok;
static tls_server_t srv; static param_t par;

int __wrap_tls_ssock_open(tls_ssock_t *ss, tls_server_t *s, const char *port, int timeout, int backlog)
{
    mc_check(s == &srv && !strcmp(port, "4433") && timeout == 7 && backlog == 3, "the listening socket is opened with other parameters");
    if (faults_on && mc_dev(2, "tls_ssock_open fails")) { faulted = 1; return SOCK_BIND_ERROR; }
    ss_open++; memset(ss, 0, sizeof(*ss)); ss->sd = 77; return SOCK_OK;
}
void __wrap_tls_ssock_close(tls_ssock_t *ss) { mc_check(ss_open == 1 && ss->sd == 77, "the listening socket is closed although it is not open"); ss_open--; }
static int idx(tls_sock_t *s, const char *who) { int i = s->sd - 1000; mc_check(i >= 0 && i < nc && C[i].st == C_OPEN, "%s on a connection that is not open", who); return i; }
static void run_thread(int i) { int r = running_c, f = nf_on; if (T[i].done) return; T[i].done = 1; nf_on = 0; running_c = i; T[i].f(T[i].d); running_c = r; nf_on = f; }
int __wrap_tls_ssock_accept(tls_ssock_t *ss, tls_sock_t *s)
{
    static const int errs[] = {SOCK_OK, SOCK_TIMEOUT, SOCK_TLS_HANDSHAKE_ERROR, SOCK_INTR, SOCK_ACCEPT_ERROR};
    int i, k;
    mc_check(ss_open == 1 && ss->sd == 77, "accept on a listening socket that is not open");
    memset(s, 0xee, sizeof(*s));
    /* before: every earlier connection is served by one thread or, after a failure, closed */
    for (i = 0; i < nt; i++) if (!T[i].done && late == 1) run_thread(i);
    if (!go) { mc_check(++after_stop < 3, "the listener does not stop"); return SOCK_TIMEOUT; }
    if (naccept >= limit) {
        if (!probing) { probing = 1; faults_on = nf_on = 0; k = 0; probe_c = nc; }
        else { go = 0; mc_check(spawn_ok, "a connection accepted after the failure is not served"); return SOCK_TIMEOUT; }
    } else { naccept++; k = mc_choose(5, "accept"); if (k == 0 && naccept == limit && mc_choose(2, "stopped meanwhile")) { go = 0; stopmean = 1; } }
    if (errs[k] == SOCK_OK) {
        mc_check(nc < MAXC, "connections");
        memset(s, 0, sizeof(*s)); s->sd = 1000 + nc; C[nc].st = C_OPEN; C[nc].s = s; C[nc].threads = C[nc].reads = 0; nc++;
        mc_log("connection %d accepted", nc - 1);
    } else mc_log("accept: %d", errs[k]);
    return errs[k];
}
void __wrap_tls_sock_close(tls_sock_t *s) { int i = idx(s, "close"); C[i].st = C_CLOSED; if (running_c >= 0) C[i].threads = 1; mc_log("connection %d closed", i); }
ssize_t __wrap_tls_sock_read(tls_sock_t *s, void *b, size_t n) { int i = idx(s, "read"); mc_check(running_c >= 0, "the listener itself reads from a connection"); C[i].reads++; return 0; }
ssize_t __wrap_tls_sock_write_full(tls_sock_t *s, void *b, size_t n) { idx(s, "write"); return n; }
size_t __wrap_gnutls_record_check_pending(void *s) { return 0; }
int __wrap_pthread_sigmask(int how, const void *a, void *b) { return 0; }
unsigned __wrap_sleep(unsigned n) { mc_check(n <= 60 && ++sleeps < 100, "the listener sleeps without end"); return 0; }
int __wrap_usleep(unsigned n) { mc_check(++sleeps < 100, "the listener sleeps without end"); return 0; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *d)
{
    int det = 0;
    if (faults_on && mc_dev(2, "pthread_create fails")) { faulted++; return EAGAIN; }
    if (a) pthread_attr_getdetachstate(a, &det);
    mc_check(det == PTHREAD_CREATE_DETACHED, "a thread that is never joined is not detached");
    mc_check(nt < MAXC, "threads");
    T[nt].f = f; T[nt].d = d; T[nt].done = 0; nt++; memset(t, 0, sizeof(*t));
    if (probing) spawn_ok = 1;
    if (running_c == -1 && late == 0) run_thread(nt - 1);
    return 0;
}
void mc_setup(void) { pool_init(64, 256, 16, 1152, 8, 64); mc_shard_depth(4); }
void mc_execute(void)
{
    listener_t *l; int i, r, listener_thread;
    memset(C, 0, sizeof(C)); memset(T, 0, sizeof(T));
    nc = nt = naccept = probing = faulted = after_stop = sleeps = stopmean = spawn_ok = ss_open = 0; go = 1; running_c = -2; nf_hit = 0; probe_c = -1;
    limit = mc_tier ? 5 : 4; mc_set_dev_budget(mc_tier ? 2 : 1);
    memset(&par, 0, sizeof(par)); par.port = "4433";
    late = mc_choose(3, "connection threads run: at once, at the next accept, at the end");
    heap_mark();
    faults_on = nf_on = 1;
    l = listener_new(3, &srv, &par, 7, 3);
    if (!l) { nf_on = 0; mc_check(faulted || nf_hit, "listener_new fails"); mc_check(ss_open == 0, "listening socket left open"); heap_same("failed listener_new"); mc_count("new fails"); return; }
    mc_check(ss_open == 1, "the listening socket is not open");
    r = listener_run(l);
    if (r < 0) { nf_on = 0; mc_check(faulted || nf_hit, "listener_run fails"); listener_delete(l); mc_check(ss_open == 0, "listening socket left open"); heap_same("failed listener_run"); mc_count("run fails"); return; }
    mc_check(nt == 1, "listener_run started %d threads", nt);
    listener_thread = 0; running_c = -1; T[listener_thread].done = 1;
    T[0].f(T[0].d);
    nf_on = faults_on = 0;
    mc_check(!go, "the listener stops although the proxy should run");
    mc_check(ss_open == 0, "listening socket left open");
    for (i = 1; i < nt; i++) run_thread(i);
    for (i = 0; i < nc; i++) mc_check(C[i].st == C_CLOSED, "connection %d is never closed", i);
    for (i = r = 0; i < nc; i++) r += C[i].threads != 1;
    mc_check(r <= faulted + nf_hit + stopmean, "%d connections were not served after %d failures", r, faulted + nf_hit);
    mc_count(faulted ? "thread failure" : nf_hit ? "allocation failure" : "no failure");
    heap_same("in the end");
}
