/* The sample applications: the registry of the registration server, the three servers answering requests through the real
 * CoAP server, and the three clients given every kind of answer. */
#define _GNU_SOURCE
#include "mc.h"
#include "fakeos.h"
#include "pool.h"
#include "ref_coap.h"
#include "nofault.h"
#include "registrar.h"
#include "reg_server.h"
#include "time_server.h"
#include "transfer_server.h"
#include "reg_client.h"
#include "time_client.h"
#include "transfer_client.h"
#include "coap_mem.h"
#include <errno.h>
#include <time.h>
#include <setjmp.h>
#include <arpa/inet.h>

/* states and counters are recorded after the heap was compared */
static uint64_t st_q[64]; static const char *ct_q[64]; static int nst, nct;
static void state(uint64_t h) { if (nst < 64) st_q[nst++] = h; }
static void count(const char *n) { if (nct < 64) ct_q[nct++] = n; }
static void flush(void) { while (nst) mc_state(st_q[--nst]); while (nct) mc_count(ct_q[--nct]); }

/* ------------------------------------------------------------ files */
FILE *__real_fopen(const char *n, const char *m);
static const char *in_name = "in-file"; static char in_data[9000], out_data[9000]; static size_t in_len, out_len; static int out_open, file_fault, file_hit, out_files;
static ssize_t out_write(void *c, const char *b, size_t n)
{
    if (file_fault >= 2) { file_hit = 1; errno = ENOSPC; return 0; }
    mc_check(out_len + n <= sizeof(out_data), "more is written than was sent");
    memcpy(out_data + out_len, b, n); out_len += n; return n;
}
static int out_close(void *c) { out_open--; return 0; }
static size_t in_pos;
static ssize_t in_read(void *c, char *b, size_t n)       /* the second half cannot be read */
{
    size_t k = in_len / 2 - in_pos;
    if (in_pos >= in_len / 2) { file_hit = 1; errno = EIO; return -1; }
    if (k > n) k = n;
    memcpy(b, in_data + in_pos, k); in_pos += k; return k;
}
static int in_seek(void *c, off64_t *o, int w) { in_pos = *o = w == SEEK_SET ? *o : w == SEEK_CUR ? in_pos + *o : in_len + *o; return 0; }
FILE *__wrap_fopen(const char *name, const char *mode)
{
    cookie_io_functions_t io = {.write = out_write, .close = out_close};
    if (mode[0] == 'r' && !strcmp(name, in_name)) { if (file_fault == 1) { file_hit = 1; errno = ENOENT; return NULL; }
        if (file_fault == 2 && in_len) { cookie_io_functions_t i = {.read = in_read, .seek = in_seek}; in_pos = 0; return fopencookie(NULL, mode, i); }
        return fmemopen(in_data, in_len, mode); }
    if (mode[0] == 'w' && !strcmp(name, "out")) { if (file_fault == 1) { file_hit = 1; errno = EACCES; return NULL; } out_len = 0; out_open++; out_files++; { FILE *f = fopencookie(NULL, mode, io); if (f && file_fault == 3) setvbuf(f, NULL, _IONBF, 0); return f; } }
    if (name[0] == '/') return __real_fopen(name, mode);  /* the checker's own files */
    mc_fail("file '%s' opened (%s)", name, mode);
}

/* ------------------------------------------------------------ the registry */
#define MAXID 8
static struct { char id[64], addr[64]; } R[MAXID]; static int nr;
static int rfind(const char *id) { int i; for (i = 0; i < nr; i++) if (!strcmp(R[i].id, id)) return i; return -1; }
static void rset(const char *id, const char *addr) { int i = rfind(id); if (i < 0) { i = nr++; strcpy(R[i].id, id); } strcpy(R[i].addr, addr); }
static void rdel(const char *id) { int i = rfind(id); if (i >= 0) { memmove(R + i, R + i + 1, (nr - i - 1) * sizeof(*R)); nr--; } }
static void rcompare(registrar_t *g, const char *when)
{
    registrar_entry_t *e, *last = NULL; int n = 0, i; uint64_t h = 5;
    for (e = registrar_get_first(g); e; last = e, e = registrar_entry_get_next(e)) {
        mc_check(n++ < nr, "%s: the registry lists %s too many", when, registrar_entry_get_id(e));
        mc_check(registrar_entry_get_prev(e) == last, "%s: the list of clients is broken", when);
        i = rfind(registrar_entry_get_id(e));
        mc_check(i >= 0, "%s: the registry lists the unknown client '%s'", when, registrar_entry_get_id(e));
        mc_check(!strcmp(R[i].addr, registrar_entry_get_addr(e)), "%s: client '%s' has address %s instead of %s", when, R[i].id, registrar_entry_get_addr(e), R[i].addr);
        mc_check(registrar_find(g, R[i].id) == e, "%s: client '%s' is listed twice", when, R[i].id);
        h = mc_hash(h, R[i].id, strlen(R[i].id)); h = mc_hash(h, R[i].addr, strlen(R[i].addr));
    }
    mc_check(n == nr, "%s: the registry lists %d clients instead of %d", when, n, nr);
    mc_check(registrar_get_last(g) == last, "%s: the list of clients has a wrong end", when);
    state(h);
}
static const char *ids[] = {"a", "b", "ab", "0123456789012345678901234567890", "0123456789012345678901234567891", "c"}, *addrs[] = {"10.0.0.1", "192.168.100.200"};
static void part_registrar(void)
{
    registrar_t g; int i, k, r, n = mc_tier ? 6 : 5, N = mc_tier ? 5 : 4;
    mc_set_dev_budget(1); nr = 0; memset(&g, 0x55, sizeof(g)); heap_mark(); registrar_create(&g);
    for (i = 0; i < n; i++) {
        k = mc_choose(2 * N + N, "register (2 addresses) / remove"); nf_hit = 0;
        if (k < 2 * N) {
            const char *id = ids[k / 2], *ad = addrs[k & 1];
            mc_log("add %s %s", id, ad);
            nf_on = 1; r = registrar_add(&g, id, ad); nf_on = 0;
            if (nf_hit) mc_check(r < 0, "out of memory, but the registration returns %d", r);
            else { mc_check(r == (rfind(id) >= 0), "registering a %s client returns %d", rfind(id) >= 0 ? "known" : "new", r); rset(id, ad); }
        } else {
            const char *id = ids[k - 2 * N];
            mc_log("remove %s", id);
            r = registrar_del(&g, id); mc_check(rfind(id) >= 0 ? r == 0 : r < 0, "removing %s client returns %d", rfind(id) >= 0 ? "a" : "an unknown", r); rdel(id);
        }
        rcompare(&g, "registrar");
        for (k = 0; k < 6; k++) mc_check(!registrar_find(&g, ids[k]) == (rfind(ids[k]) < 0), "looking up '%s' is wrong", ids[k]);
    }
    registrar_destroy(&g); nr = 0; rcompare(&g, "destroyed"); heap_same("after destroying the registry"); count("history");
}

/* ------------------------------------------------------------ the servers */
static reg_server_t reg; static time_server_t tim; static transfer_server_t tra;
static jmp_buf done_jb; static int srv_fd, which, depth, mid; static unsigned char dg[256]; static size_t dglen; static int dgfrom, pending, got;
static rmsg_t ans; static unsigned char ansb[1400]; static size_t ansn; static int after_fault;
static struct { unsigned char body[256]; size_t len, off; unsigned num; } U[2];    /* uploads under way */
static int step;
static coap_ipv_sockaddr_in_t addr_of(int c)
{
    coap_ipv_sockaddr_in_t a;
    memset(&a, 0, sizeof(a)); a.sin_family = AF_INET; a.sin_port = htons(40000 + c); inet_pton(AF_INET, addrs[c], &a.sin_addr);
    return a;
}
ssize_t fos_send(int fd, const void *buf, size_t len, const struct sockaddr *to, socklen_t tl)
{
    coap_ipv_sockaddr_in_t a = addr_of(dgfrom);
    mc_check(fd == srv_fd && tl == sizeof(a) && !memcmp(to, &a, sizeof(a)), "the answer goes to somebody else");
    mc_check(len <= sizeof(ansb) && ref_decode(&ans, buf, len) == REF_OK, "a malformed datagram is sent");
    memcpy(ansb, buf, len); ansn = len; ref_decode(&ans, ansb, ansn);
    got++; mc_log("answered %u.%02u", ans.cls, ans.det);
    return len;
}
ssize_t fos_recv(int fd, void *buf, size_t len, int flags, struct sockaddr *from, socklen_t *fl)
{
    coap_ipv_sockaddr_in_t a = addr_of(dgfrom);
    if (!pending) { errno = EAGAIN; return -1; }
    memcpy(buf, dg, dglen < len ? dglen : len); if (from) { memcpy(from, &a, sizeof(a)); *fl = sizeof(a); }
    if (!(flags & MSG_PEEK)) pending = 0;
    return dglen < len ? dglen : len;
}
static size_t put(unsigned char *p, unsigned delta, const void *v, size_t n) { size_t k = 0; p[k++] = (delta > 12 ? 13 : delta) << 4 | (n > 12 ? 13 : n); if (delta > 12) p[k++] = delta - 13; if (n > 12) p[k++] = n - 13; memcpy(p + k, v, n); return k + n; }
static void request(int client, int method, const char *p1, const char *p2, int block, unsigned num, int more, const void *pl, size_t n)
{
    size_t k = 0; unsigned o = 0, b;
    dgfrom = client; mid++; dg[k++] = 0x40; dg[k++] = method; dg[k++] = mid >> 8; dg[k++] = mid;
    if (p1) { k += put(dg + k, 11 - o, p1, strlen(p1)); o = 11; }
    if (p2) { k += put(dg + k, 11 - o, p2, strlen(p2)); o = 11; }
    if (block) { unsigned char v[2]; b = num << 4 | more << 3 | 2; v[0] = b >> 8; v[1] = b; k += put(dg + k, 27 - o, b > 255 ? v : v + 1, b > 255 ? 2 : 1); }
    if (n) { dg[k++] = 0xff; memcpy(dg + k, pl, n); k += n; }
    dglen = k; pending = 1; got = 0;
    mc_log("client %d: method %d /%s/%s, %zu bytes", client, method, p1 ? p1 : "", p2 ? p2 : "", n);
}
static struct { int kind, client, valid, known; char id[64]; unsigned char a[1400]; size_t an; } last;
/* what the answer to the last request has to be */
static void judge(void)
{
    mc_check(!pending && got <= 1, "the request is answered %d times", got);
    if (!got) { mc_check(nf_hit || file_hit || (last.kind != 9 && !last.valid), "the request is not answered"); last.an = 0; count("not answered"); if (which == 0) rcompare(&reg.registrar, "server"); return; }
    if (last.kind == 9) { mc_check(ansn == last.an && !memcmp(ansb, last.a, ansn), "a retransmitted request is answered differently"); count("retransmission"); }
    else if (nf_hit || file_hit) { mc_check(ans.cls != 2, "the server reports success although an operation failed"); count("failure reported"); if (which == 2) after_fault = 1; }
    else if (!last.valid) { mc_check(ans.cls != 2, "a request that cannot be served is answered %u.%02u", ans.cls, ans.det); count("refused"); }
    else if (which == 0) {
        mc_check(ans.cls == 2 && ans.det == (last.known ? 4 : 1), "registering a %s client is answered %u.%02u", last.known ? "known" : "new", ans.cls, ans.det);
        mc_check(ans.pll == 2 && !memcmp(ans.pl, "OK", 2), "a registration is not answered OK");
        rset(last.id, addrs[last.client]); count(last.known ? "changed" : "created");
    } else if (which == 1) {
        char t[64]; time_t now = time(NULL); ctime_r(&now, t); *strchr(t, '\n') = 0;
        mc_check(ans.cls == 2 && ans.det == 5 && ans.pll == strlen(t) && !memcmp(ans.pl, t, ans.pll), "the time is told as '%.*s' instead of '%s'", (int)ans.pll, ans.pl, t); count("time told");
    } else if (last.kind == 1) { mc_check(ans.cls == 2 && ans.det == 31, "a block is answered %u.%02u", ans.cls, ans.det); count("block"); }
    else {
        int c = last.client;
        mc_check(ans.cls == 2 && ans.det == 4, "a complete upload is answered %u.%02u", ans.cls, ans.det);
        mc_check(!out_open && out_len == U[c].len && !memcmp(out_data, U[c].body, out_len), "the file stored is not the file sent (%zu bytes instead of %zu)", out_len, U[c].len); count("file stored");
    }
    if (last.kind != 9) { memcpy(last.a, ansb, ansn); last.an = ansn; }
    if (which == 0) rcompare(&reg.registrar, "server");
    else { uint64_t h = mc_hash_u(which, ans.cls * 32 + ans.det); h = mc_hash_u(h, which == 2 ? U[0].off * 1024 + U[1].off : 0); h = mc_hash(h, out_data, out_len); state(h); }
}
static const char *longp = "a-path-that-is-much-longer-than-the-buffer";
static void next_request(void)
{
    static const char *bid[] = {"a", "b", "0123456789012345678901234567890", "01234567890123456789012345678901", ""}; char big[100]; int k, c;
    nf_hit = file_hit = 0;
    if (which == 0) {
        k = mc_choose(2 * 5 + 6 + (last.an > 0), "request");
        if (k < 10) { last.kind = 0; last.client = k & 1; strcpy(last.id, bid[k / 2]); last.valid = strlen(last.id) && strlen(last.id) < 32; last.known = rfind(last.id) >= 0; request(k & 1, 2, "client", "id", 0, 0, 0, last.id, strlen(last.id)); }
        else if (k == 16) last.kind = 9;
        else { last.kind = 1; last.client = 0; last.valid = 0; if (k == 15) { memset(big, 'x', 100); request(0, 2, "client", "id", 0, 0, 0, big, 100); } else request(0, k == 10 ? 1 : k == 11 ? 3 : k == 12 ? 4 : 2, k == 13 ? "clien" : "client", k == 14 ? "a-path-of-28-bytes" : k == 13 ? "tid" : "id", 0, 0, 0, "a", 1); }
    } else if (which == 1) {
        k = mc_choose(8 + (last.an > 0), "request"); c = k & 1; last.kind = k; if (k < 8) last.client = c;
        if (k == 8) last.kind = 9;
        else { last.valid = k < 2 || k == 7; request(c, k < 2 || k > 4 ? 1 : k, k == 5 ? "tim" : k == 6 ? longp : "time", NULL, 0, 0, 0, "x", k == 7); }
    } else {
        k = U[0].off ? mc_choose(2 + (last.an > 0), "request") : mc_choose(6 + (last.an > 0), "request"); if (U[0].off && k == 2) k = 6;
        c = k & 1; if (k < 6) last.client = c;
        if (k == 6) last.kind = 9;
        else if (k < 2) {                          /* the next block */
            size_t n = U[c].len - U[c].off; int more = n > 64; if (more) n = 64;
            last.valid = 1; last.kind = more; request(c, 3, "client", "transfer", 1, U[c].num, more, U[c].body + U[c].off, n);
            if (!more) { file_fault = mc_dev(4, "storing the file: works / cannot be created / disk full, noticed late / at once"); }
        } else { last.kind = 2; last.valid = 0; last.client = 0; U[0].off = U[0].num = 0; request(0, k == 2 ? 1 : k == 3 ? 2 : 3, "client", k == 5 ? longp : k == 4 ? "transfe" : "transfer", 1, 0, 0, "x", 1); }
    }
    if (last.kind == 9) { dgfrom = last.client; pending = 1; got = 0; mc_log("the last request again"); }
}
static int waiting;
int fos_select(int n, fd_set *r, fd_set *w, struct timeval *tv)
{
    nf_on = 0;
    if (waiting) {
        waiting = 0; judge();
        if (which == 2 && last.valid && last.kind != 9) { int c = last.client; if (last.kind == 1) { U[c].off += 64; U[c].num++; } else { U[c].off = U[c].num = 0; } }
        if (which == 2 && last.kind == 2 && !last.valid) U[0].off = U[0].num = 0;
        file_fault = 0; step++;
    }
    if (step >= depth || after_fault) longjmp(done_jb, 1);
    next_request(); waiting = 1;
    mc_check(FD_ISSET(srv_fd, r), "the server does not listen");
    FD_ZERO(r); FD_SET(srv_fd, r); nf_on = which == 0;
    return 1;
}
void fos_timer_created(int fd) {}
int fos_fault(const char *c) { return 0; }
static void part_server(int w)
{
    static const size_t L[] = {1, 64, 65, 128, 130}; static const uint64_t E[] = {0, 1000000000, 4102444800ull, 253402300799ull};
    int r, c; size_t i;
    which = w; step = 0; waiting = pending = after_fault = 0; mid = 100; nr = 0; file_fault = out_open = 0; out_len = 0; memset(&last, 0, sizeof(last)); fos_reset(); mc_set_dev_budget(mc_tier ? 2 : 1);
    depth = w == 2 ? (mc_tier ? 7 : 6) : mc_tier ? 5 : 4;
    if (w == 1) fos_epoch = E[mc_choose(4, "time")];
    if (w == 2) for (c = 0; c < 2; c++) { U[c].len = L[mc_choose(5, "file")]; U[c].off = U[c].num = 0; for (i = 0; i < U[c].len; i++) U[c].body[i] = i * 7 + c * 100 + 1; }
    heap_mark();
    r = w == 0 ? reg_server_create(&reg, "h", "5683", "k", "c", "t", "l") : w == 1 ? time_server_create(&tim, "h", "5683", "k", "c", "t", "l") : transfer_server_create(&tra, "h", "5683", "k", "c", "t", "l");
    mc_check(r == 0, "the server cannot be created: %d", r); srv_fd = fos_find(FOS_SOCK);
    if (!setjmp(done_jb)) { r = w == 0 ? reg_server_run(&reg) : w == 1 ? time_server_run(&tim) : transfer_server_run(&tra); mc_fail("the server stops serving (%d)", r); }
    nf_on = 0;
    if (w == 0) reg_server_destroy(&reg); else if (w == 1) time_server_destroy(&tim); else transfer_server_destroy(&tra);
    heap_same("after the server was destroyed"); mc_check(!out_open, "a file is left open"); mc_check(!fos_open_count(), "descriptors left open"); pool_expect(0, 0, 0, "after the server was destroyed");
}

/* ------------------------------------------------------------ the clients */
static int x_ret, x_cls, x_det, x_path, x_calls, x_what; static char x_pay[200]; static size_t x_paylen; static const char *x_id; static int cl_open;
int __wrap_coap_client_create(coap_client_t *c, const char *host, const char *port) { mc_check(!strcmp(host, "h") && !strcmp(port, "5683"), "another server"); cl_open++; return 0; }
void __wrap_coap_client_destroy(coap_client_t *c) { cl_open--; }
static void check_request(coap_msg_t *q, int det, const char *p1, const char *p2, const char *pay)
{
    coap_msg_op_t *o = coap_msg_get_first_op(q);
    mc_check(coap_msg_get_type(q) == COAP_MSG_CON && coap_msg_get_code_class(q) == 0 && (int)coap_msg_get_code_detail(q) == det, "another request is sent");
    mc_check(o && coap_msg_op_get_num(o) == 11 && coap_msg_op_get_len(o) == strlen(p1) && !memcmp(coap_msg_op_get_val(o), p1, strlen(p1)), "a request for another path is sent");
    o = coap_msg_op_get_next(o);
    if (p2) { mc_check(o && coap_msg_op_get_num(o) == 11 && coap_msg_op_get_len(o) == strlen(p2) && !memcmp(coap_msg_op_get_val(o), p2, strlen(p2)), "a request for another path is sent"); o = coap_msg_op_get_next(o); }
    mc_check(!o, "a request with other options is sent");
    mc_check(coap_msg_get_payload_len(q) == strlen(pay) && !memcmp(coap_msg_get_payload(q) ? coap_msg_get_payload(q) : "", pay, strlen(pay)), "another payload is sent");
}
static void answer(coap_msg_t *a)
{
    coap_msg_set_type(a, COAP_MSG_ACK); coap_msg_set_code(a, x_cls, x_det);
    if (x_path == 0) { if (x_what == 0) { coap_msg_add_op(a, 11, 6, "client"); coap_msg_add_op(a, 11, 2, "id"); } else coap_msg_add_op(a, 11, 4, "time"); }
    if (x_path == 1) coap_msg_add_op(a, 11, 6, "client");
    if (x_path == 3) coap_msg_add_op(a, 11, 40, longp);
    if (x_paylen) coap_msg_set_payload(a, x_pay, x_paylen);
}
int __wrap_coap_client_exchange(coap_client_t *c, coap_msg_t *q, coap_msg_t *a)
{
    x_calls++; if (x_what == 0) check_request(q, 2, "client", "id", x_id); else check_request(q, 1, "time", NULL, "");
    answer(a); return x_ret;
}
ssize_t __wrap_coap_client_exchange_blockwise(coap_client_t *c, coap_msg_t *q, coap_msg_t *a, unsigned b1, unsigned b2, char *body, size_t len, int have)
{
    x_calls++; check_request(q, 3, "client", "transfer", "");
    mc_check(len == in_len && !memcmp(body, in_data, len), "the body sent is not the file (%zu bytes instead of %zu)", len, in_len);
    mc_check(b1 >= 16 && b1 <= 1024 && !(b1 & (b1 - 1)), "block size %u", b1);
    answer(a); return x_ret;
}
static void part_clients(void)
{
    static const int code[][2] = {{2, 1}, {2, 4}, {2, 5}, {4, 4}, {5, 0}}; static const size_t PL[] = {0, 1, 2, 24, 31, 32, 33, 100}; static const int E[] = {0, -ETIMEDOUT, -1, -ECONNRESET};
    int k, r, good; char *buf; size_t len;
    mc_set_dev_budget(0); nf_on = 0; cl_open = x_calls = 0; file_fault = file_hit = nf_hit = 0;
    x_what = mc_choose(3, "registration / time / transfer"); x_ret = E[mc_choose(4, "exchange")]; k = mc_choose(5, "code"); x_cls = code[k][0]; x_det = code[k][1];
    if (x_what < 2) {
        x_path = mc_choose(4, "path");
        if (x_what == 0) { static const char *pl[] = {"OK", "", "OKAY", "NO", "O", "01234567890123456789012345678901", "0123456789012345678901234567890"}; k = mc_choose(7, "payload"); x_paylen = strlen(pl[k]); memcpy(x_pay, pl[k], x_paylen); len = (size_t []){3, 32, 2}[mc_choose(3, "buffer")]; x_id = len == 3 ? "ab" : len == 2 ? "a" : ids[3]; good = !x_ret && x_cls == 2 && x_det != 5 && !x_path && k == 0 && len > 2; }
        else { x_paylen = PL[mc_choose(8, "payload")]; memset(x_pay, 'T', x_paylen); len = mc_choose(2, "buffer") ? 32 : 25; good = !x_ret && x_cls == 2 && x_det == 5 && !x_path && x_paylen < len; x_id = ""; }
        heap_mark(); buf = __real_malloc(len); memset(buf, 'z', len); if (x_what == 0) strcpy(buf, x_id);
        if (x_what == 0) { reg_client_t c; reg_client_create(&c, "h", "5683", "k", "c", "t", "l", "n"); r = reg_client_register(&c, buf, len); reg_client_destroy(&c); }
        else { time_client_t c; time_client_create(&c, "h", "5683", "k", "c", "t", "l", "n"); r = time_client_get_time(&c, buf, len); time_client_destroy(&c); }
        mc_check(x_calls == 1, "%d exchanges", x_calls);
        if (good) { mc_check(r == (int)x_paylen, "a good answer yields %d", r); mc_check(strnlen(buf, len) == x_paylen && !memcmp(buf, x_pay, x_paylen), "the answer is not given to the caller"); }
        else mc_check(r < 0, "an exchange that failed or an answer that is none is reported as success (%d)", r);
        free(buf);
    } else {
        static const size_t L[] = {0, 1, 64, 65, 4096, 8192}; size_t i; transfer_client_t c;
        in_len = L[mc_choose(6, "file")]; for (i = 0; i < in_len; i++) in_data[i] = i * 11 + i / 256; x_path = 2; x_paylen = 3; file_fault = mc_choose(3, "file is fine / cannot be opened / cannot be read"); if (in_len == 0 && x_ret == 0) x_ret = 0;
        mc_set_dev_budget(1); heap_mark(); transfer_client_create(&c, "h", "5683", "k", "c", "t", "l", "n"); errno = ENOMEM; nf_on = 1; r = transfer_client_execute(&c, in_name); nf_on = 0; transfer_client_destroy(&c);
        if (file_fault == 1 || file_hit || nf_hit) { mc_check(r < 0, "a file that was not sent is reported as sent (%d)", r); mc_check(!x_calls, "something is sent although the file was not read"); }
        else if (x_ret < 0) mc_check(r < 0, "a failed transfer is reported as success (%d)", r);
        else if (x_cls == 2) mc_check(r >= 0, "a completed transfer is reported as failed (%d)", r);
        if (file_fault != 1 && !file_hit && !nf_hit) mc_check(x_calls == 1, "%d exchanges", x_calls);
        good = r >= 0;
    }
    mc_check(!cl_open, "the CoAP client is not destroyed"); heap_same("afterwards"); pool_expect(0, 0, 0, "afterwards"); count(good ? "good answer" : "bad answer");
    state(mc_hash_u(mc_hash_u(3, x_what * 2 + good), r < 0));
}
void mc_setup(void) { time_t t = 0; char b[64]; setenv("TZ", "UTC0", 1); tzset(); ctime_r(&t, b); pool_init(64, 256, 32, 1024, 16, 8192); mc_shard_depth(2); }
void mc_execute(void)
{
    nf_on = nf_hit = nst = nct = 0;
    if (mc_dirty) pool_again();
    if (!strcmp(mc_part, "registrar")) part_registrar();
    else if (!strcmp(mc_part, "reg-server")) part_server(0);
    else if (!strcmp(mc_part, "time-server")) part_server(1);
    else if (!strcmp(mc_part, "transfer-server")) part_server(2);
    else if (!strcmp(mc_part, "clients")) part_clients();
    else mc_internal("unknown part %s", mc_part);
    flush();
}
