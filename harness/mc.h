/* mc.h - a small stateless model-checking kernel.
 *
 * A harness is a deterministic function mc_execute() that asks mc_choose(n, label...) whenever the
 * environment may do one of n things.  mc_main() enumerates, depth first, every sequence of answers:
 * the search is exhaustive within the bounds the harness itself sets (depth, alphabet, deviation
 * budget).  Any failed oracle (mc_check/mc_fail), sanitizer report, signal or CPU hang leaves the
 * current choice sequence in a shared record file, from which the driver builds a replay artefact.
 */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>

#define MC_MAX_CHOICES 32768

extern int mc_verbose;                 /* 1 when replaying: labels and observations are printed */
extern int mc_capture;                 /* 1 while an execution is written out as a sample for the evidence file */
void mc_label(const char *kind, int c, int n, const char *fmt, ...) __attribute__((format(printf, 4, 5)));
extern int mc_dirty;                   /* the previous execution was abandoned half way: reset global state */
extern int mc_tier;                    /* 0 quick, 1 thorough */
extern const char *mc_part;            /* harness part selected on the command line ("" if none) */

int  mc_choose_(int n);
int  mc_dev_(int n, int cost);
void mc_log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void mc_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_internal(const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
void mc_state(uint64_t h);             /* record an (abstract) state */
void mc_count(const char *name);       /* named outcome counters for the evidence file */
void mc_set_dev_budget(int n);         /* deviation budget for mc_dev, per execution */
int  mc_dev_left(void);
void mc_prune(void);                   /* abandon this execution (not counted) */
void mc_shard_depth(int d);
uint64_t mc_hash(uint64_t h, const void *p, size_t n);
uint64_t mc_hash_u(uint64_t h, uint64_t v);

/* choose one of n alternatives; the label is only formatted when replaying */
#define mc_choose(n, ...) ({ int c__ = mc_choose_(n); if (__builtin_expect(mc_verbose | mc_capture, 0)) mc_label("", c__, (int)(n), __VA_ARGS__); c__; })
/* like mc_choose, but alternatives other than 0 consume one unit of the deviation budget */
#define mc_dev(n, ...) ({ int c__ = mc_dev_(n, 1); if (__builtin_expect(mc_verbose | mc_capture, 0)) mc_label("dev ", c__, (int)(n), __VA_ARGS__); c__; })
#define mc_check(cond, ...) do { if (!(cond)) mc_fail(__VA_ARGS__); } while (0)

void mc_execute(void);                 /* provided by the harness: one execution */
void mc_setup(void);                   /* provided by the harness: once per process */
#endif
