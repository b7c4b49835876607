#include "conv.h"
void sym_main(void){
	unsigned char in[8]; int n=pint("n",1); unsigned long ie,oe; buf_t b; long l0=sym_live();
	sym_bytes(in,n,"in");
	b=conv1(sym_param("conv"),in,n,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
