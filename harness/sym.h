#ifndef SYM_H
#define SYM_H
#include <stddef.h>
#include <stdint.h>
void sym_bytes(void *p, size_t n, const char *name);   /* arbitrary bytes */
int sym_range(int lo, int hi);                          /* case split, every value explored */
void sym_assume(int c);
void sym_assert(int c, const char *msg);
int sym_memeq(const void *a, const void *b, size_t n);
void sym_observe(const char *tag, const void *p, size_t n);
void sym_cover(const char *tag);
long sym_live(void);                                    /* live heap blocks */
unsigned long sym_conc(unsigned long v);                /* split on every value */
const char *sym_param(const char *name);
int sym_engine(void);
void sym_skip(void);
void sym_done(void);                                   /* the path ends here, as if sym_main returned */
void sym_fault(const char *what, int k);               /* the k-th open / mmap from here on fails (0: none) */
void sym_main(void);
#endif
