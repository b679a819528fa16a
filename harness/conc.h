/* Controlled scheduling of real code: coroutines; every access to shared memory (instrumented by -fsanitize=thread,
 * whose run-time functions are defined in conc.c) and every mutex operation is a scheduling point.
 * Switching away from a thread that could go on costs one unit of the deviation budget (preemption bound). */
#ifndef CONC_H
#define CONC_H
void conc_thread(void (*f)(int), int arg);
void conc_run(void);                    /* all interleavings, driven by mc_choose/mc_dev */
void conc_point(const char *what);
extern int conc_self;                   /* -1 outside conc_run */
extern unsigned long conc_points;
#endif
