#define _GNU_SOURCE
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>

int mc_verbose = 0, mc_tier = 0, mc_dirty = 0, mc_capture = 0;
const char *mc_part = "";

typedef struct {
    uint32_t magic;
    uint32_t len;                      /* valid choices in the current execution */
    uint32_t failed;
    uint32_t pad;
    char msg[1024];
    uint16_t choice[MC_MAX_CHOICES];
    uint16_t nalt[MC_MAX_CHOICES];
} rec_t;

static rec_t *R;
static unsigned pos;                   /* next choice index in this execution */
static int replaying, started;
static unsigned shard = 0, nshards = 1, shard_depth = 2;
static int dev_budget = 1 << 30, dev_used = 0;
static jmp_buf jb;
static uint64_t executions, transitions, skipped, pruned, exec_id;
static unsigned max_depth;
static const char *out_path, *state_path;

static uint64_t *set_tab; static size_t set_cap, set_n;

uint64_t mc_hash(uint64_t h, const void *p, size_t n)
{
    const unsigned char *b = p;
    while (n--) { h ^= *b++; h *= 1099511628211ull; }
    return h ^ (h >> 29);
}
uint64_t mc_hash_u(uint64_t h, uint64_t v) { return mc_hash(h ? h : 1469598103934665603ull, &v, sizeof(v)); }

static void set_add(uint64_t h)
{
    size_t i;
    if (h == 0) h = 1;
    if ((set_n + 1) * 2 > set_cap) {
        size_t oc = set_cap; uint64_t *ot = set_tab;
        set_cap = oc ? oc * 2 : 4096;
        set_tab = calloc(set_cap, sizeof(uint64_t));
        set_n = 0;
        for (i = 0; i < oc; i++) if (ot[i]) set_add(ot[i]);
        free(ot);
    }
    i = (size_t)((h * 0x9E3779B97F4A7C15ull) >> 20) & (set_cap - 1);
    while (set_tab[i]) { if (set_tab[i] == h) return; i = (i + 1) & (set_cap - 1); }
    set_tab[i] = h; set_n++;
}
void mc_state(uint64_t h) { if (set_n < 4000000) set_add(h); }

#define MAXC 96
static struct { char name[64]; uint64_t n; } cnt[MAXC]; static int ncnt;
void mc_count(const char *name)
{
    int i;
    for (i = 0; i < ncnt; i++) if (strcmp(cnt[i].name, name) == 0) { cnt[i].n++; return; }
    if (ncnt < MAXC) { strncpy(cnt[ncnt].name, name, 63); cnt[ncnt].n = 1; ncnt++; }
}
#define SAMPLE_LEN 1500
static char samples[4][SAMPLE_LEN]; static int nsamples;
static char cap[SAMPLE_LEN]; static size_t capn;
static void vcap(const char *fmt, va_list ap)
{
    int r;
    if (capn >= sizeof(cap) - 1) return;
    r = vsnprintf(cap + capn, sizeof(cap) - capn, fmt, ap);
    if (r > 0) { capn += r; if (capn > sizeof(cap) - 1) capn = sizeof(cap) - 1; }
}
static void capf(const char *fmt, ...) { va_list ap; va_start(ap, fmt); vcap(fmt, ap); va_end(ap); }
void mc_label(const char *kind, int c, int n, const char *fmt, ...)
{
    va_list ap;
    if (mc_verbose) { printf("  [%s%d/%d] ", kind, c, n); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n"); }
    if (mc_capture) { va_start(ap, fmt); vcap(fmt, ap); va_end(ap); capf("=%d/%d; ", c, n); }
}
void mc_log(const char *fmt, ...)
{
    va_list ap;
    if (mc_capture) { capf("("); va_start(ap, fmt); vcap(fmt, ap); va_end(ap); capf(") "); }
    if (!mc_verbose) return;
    printf("    "); va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); printf("\n");
}
void mc_internal(const char *fmt, ...)
{
    va_list ap;
    fprintf(stderr, "MC-INTERNAL: "); va_start(ap, fmt); vfprintf(stderr, fmt, ap); va_end(ap); fprintf(stderr, "\n");
    _exit(3);
}
void mc_fail(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt); vsnprintf(R->msg, sizeof(R->msg), fmt, ap); va_end(ap);
    R->failed = 1; R->len = pos;
    fflush(stdout);
    fprintf(stderr, "MC-FAIL: %s\n", R->msg);
    _exit(10);
}
void mc_set_dev_budget(int n) { dev_budget = n; }
int mc_dev_left(void) { return dev_budget - dev_used; }
void mc_shard_depth(int d) { shard_depth = d; }
void mc_prune(void) { pruned++; longjmp(jb, 2); }

int mc_choose_(int n)
{
    if (n <= 0 || n > 65535) mc_internal("bad choice count %d", n);
    if (!started) mc_internal("choice outside an execution");
    if (n == 1) return 0;
    if (pos >= MC_MAX_CHOICES) mc_internal("too many choices");
    if (pos < R->len) {
        if (R->nalt[pos] != n) {
            if (replaying == 2) { if (R->choice[pos] >= n) mc_internal("replay diverged at choice %u: %u of %d", pos, R->choice[pos], n); }
            else mc_internal("nondeterminism: choice %u had %u alternatives, now %d", pos, R->nalt[pos], n);
        }
        transitions++;
        return R->choice[pos++];
    }
    if (replaying) { transitions++; R->choice[pos] = 0; R->nalt[pos] = n; pos++; R->len = pos; return 0; }
    if (pos == shard_depth && nshards > 1) {
        uint64_t h = 14695981039346656037ull; unsigned i;
        for (i = 0; i < pos; i++) h = mc_hash_u(h, R->choice[i] + 1);
        if ((h >> 7) % nshards != shard) longjmp(jb, 1);
    }
    R->choice[pos] = 0; R->nalt[pos] = n; pos++; R->len = pos;
    transitions++;
    return 0;
}
int mc_dev_(int n, int cost)
{
    int c;
    if (dev_used + cost > dev_budget) n = 1;
    c = mc_choose_(n);
    if (c) dev_used += cost;
    return c;
}

static void on_cpu(int sig)
{
    static uint64_t last = ~0ull; static int same = 0;
    (void)sig;
    if (exec_id == last) { if (++same >= 2) {
        static const char m[] = "MC-FAIL: execution makes no progress (CPU hang)\n";
        strcpy(R->msg, "execution makes no progress (CPU-bound hang)");
        R->failed = 1; R->len = pos;
        if (write(2, m, sizeof(m) - 1)) {}
        _exit(10);
    } } else { last = exec_id; same = 0; }
}

static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) { unsigned char c = (unsigned char)*s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}

int main(int argc, char **argv)
{
    const char *rec = NULL, *replay = NULL;
    int i, fd, j;
    struct itimerval it = {{5, 0}, {5, 0}};

    for (i = 1; i < argc; i++) {
        if (!strcmp(argv[i], "--rec")) rec = argv[++i];
        else if (!strcmp(argv[i], "--out")) out_path = argv[++i];
        else if (!strcmp(argv[i], "--states")) state_path = argv[++i];
        else if (!strcmp(argv[i], "--shard")) { shard = atoi(argv[++i]); }
        else if (!strcmp(argv[i], "--nshards")) { nshards = atoi(argv[++i]); }
        else if (!strcmp(argv[i], "--tier")) mc_tier = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--part")) mc_part = argv[++i];
        else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
        else { fprintf(stderr, "bad argument %s\n", argv[i]); return 3; }
    }
    if (rec) {
        fd = open(rec, O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(rec_t)) < 0) { perror(rec); return 3; }
        R = mmap(NULL, sizeof(rec_t), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    } else R = mmap(NULL, sizeof(rec_t), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (R == MAP_FAILED) { perror("mmap"); return 3; }
    R->magic = 0x4d434331;
    signal(SIGVTALRM, on_cpu);
    setitimer(ITIMER_VIRTUAL, &it, NULL);

    if (replay) {                      /* file: whitespace separated choice numbers, '#' comments */
        FILE *f = fopen(replay, "r"); char line[65536];
        if (!f) { perror(replay); return 3; }
        while (fgets(line, sizeof(line), f)) {
            char *t;
            if (line[0] == '#') continue;
            for (t = strtok(line, " \n"); t; t = strtok(NULL, " \n")) { R->choice[R->len] = atoi(t); R->nalt[R->len] = 0; R->len++; }
        }
        fclose(f);
        replaying = 2; mc_verbose = 1; nshards = 1;
        mc_setup();
        started = 1;
        if (setjmp(jb) == 0) mc_execute();
        printf("replay finished without a violation\n");
        return 0;
    }
    mc_setup();
    started = 1;
    R->len = 0;
    while (1) {
        int r;
        pos = 0; dev_used = 0; exec_id++;
        if (nsamples < 4 && executions >= (uint64_t[]){0, 7, 211, 5003}[nsamples]) { mc_capture = 1; capn = 0; cap[0] = 0; }
        r = setjmp(jb);
        if (r == 0) {
            mc_execute();
            mc_dirty = 0;
            if (pos != R->len) mc_internal("execution consumed %u of %u choices", pos, R->len);
            if (shard == 0 || pos > shard_depth || nshards == 1) executions++;
            if (pos > max_depth) max_depth = pos;
            if (mc_capture) { if (capn) strcpy(samples[nsamples++], cap); mc_capture = 0; }
        } else { mc_capture = 0; mc_dirty = 1; if (r == 1) skipped++; }
        while (R->len > 0 && R->choice[R->len - 1] + 1 >= R->nalt[R->len - 1]) R->len--;
        if (R->len == 0) break;
        R->choice[R->len - 1]++;
    }
    if (out_path) {
        FILE *f = fopen(out_path, "w");
        fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"pruned\":%llu,\"max_depth\":%u,\"states\":%zu,\"counters\":{",
                (unsigned long long)executions, (unsigned long long)transitions, (unsigned long long)pruned, max_depth, set_n);
        for (j = 0; j < ncnt; j++) { if (j) fputc(',', f); jstr(f, cnt[j].name); fprintf(f, ":%llu", (unsigned long long)cnt[j].n); }
        fprintf(f, "},\"samples\":[");
        for (j = 0; j < nsamples; j++) { if (j) fputc(',', f); jstr(f, samples[j]); }
        fprintf(f, "]}\n");
        fclose(f);
    }
    if (state_path) {
        FILE *f = fopen(state_path, "wb"); size_t k;
        for (k = 0; k < set_cap; k++) if (set_tab[k]) fwrite(&set_tab[k], 8, 1, f);
        fclose(f);
    }
    return 0;
}
