/* Pool helpers: initialise the three pools and check how many buffers are in use (through the public accessors). */
#ifndef POOL_H
#define POOL_H
void pool_init(unsigned sn, unsigned sl, unsigned mn, unsigned ml, unsigned ln, unsigned ll);
void pool_again(void);                 /* recreate the pools after an abandoned execution */
void pool_used(unsigned *s, unsigned *m, unsigned *l);
void pool_expect(unsigned s, unsigned m, unsigned l, const char *when);
#endif
