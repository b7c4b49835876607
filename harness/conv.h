/* Shared helpers: drive the real library through its public API. */
#include <bsdconv.h>
#include <stdio.h>
#include "sym.h"
#define OUTMAX 4096
typedef struct { unsigned char *d; size_t n; } buf_t;
/* feed one chunk; the library gets its own heap copy (freed by it) */
static void feed(struct bsdconv_instance *ins, const void *p, size_t n, int flush){
	char *c=malloc(n?n:1);
	if(n) memcpy(c,p,n);
	ins->input.data=c; ins->input.len=n; ins->input.flags=F_FREE; ins->input.next=NULL;
	if(flush) ins->flush=1;
}
static buf_t run(struct bsdconv_instance *ins){
	buf_t b;
	ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.len=0; ins->output.data=NULL;
	bsdconv(ins);
	b.d=ins->output.data; b.n=ins->output.len;
	return b;
}
static struct bsdconv_instance *mk(const char *conv){
	struct bsdconv_instance *ins=bsdconv_create(conv);
	sym_assert(ins!=NULL,"conversion can be created");
	return ins;
}
/* whole conversion in one call */
static buf_t conv1(const char *conv,const void *p,size_t n,unsigned long *ierr,unsigned long *oerr){
	struct bsdconv_instance *ins=mk(conv);
	buf_t b;
	bsdconv_init(ins);
	feed(ins,p,n,1);
	b=run(ins);
	if(ierr)*ierr=*bsdconv_counter(ins,"IERR");
	if(oerr)*oerr=*bsdconv_counter(ins,"OERR");
	bsdconv_destroy(ins);
	return b;
}
static int pint(const char *n,int d){ const char *s=sym_param(n); return s?atoi(s):d; }
