#include "conv.h"
#include "ucs.h"
/* UTF-8 in, UTF-8 out: well-formed text (without NUL) is reproduced byte for byte; ill-formed bytes are dropped and counted */
void sym_main(void){
	u8 in[16],ex[64]; u32 cp[16]; int n=pint("n",1),k,i,m=0,err=0; unsigned long ie,oe; buf_t b; long l0=sym_live();
	sym_bytes(in,n,"in");
	b=conv1(sym_param("conv"),in,n,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	k=u8decode(in,n,0,1,cp);
	for(i=0;i<k;i++){ if(cp[i]==UERR) err++; else m+=u8enc(cp[i],ex+m); }
	if(!err){ sym_cover("clean"); sym_assert(b.n==(size_t)n&&sym_memeq(b.d,in,n),"well-formed UTF-8 is unchanged"); }
	sym_assert(ie==(unsigned long)err,"one input error is counted per rejected byte");
	sym_assert(oe==0,"no output errors");
	sym_assert(b.n==(size_t)m&&sym_memeq(b.d,ex,m),"output holds exactly the well-formed characters");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
