#include "conv.h"
#include "ucs.h"
/* arbitrary bytes -> UTF-8 decoder -> UTF-32BE, against the reference decoder */
void sym_main(void){
	u8 in[16],ex[64]; u32 cp[16]; int n=pint("n",1),opt=pint("opt",0),sub=pint("sub",1),pre=pint("pre",0),k,i,m=0,err=0,surr=0; unsigned long ie,oe; buf_t b; long l0=sym_live();
	const char *head=sym_param("head");
	sym_bytes(in,n,"in");
	if(pre){ sym_assume(in[0]>=pint("lo",0)); sym_assume(in[0]<=pint("hi",255)); }
	(void)head;
	b=conv1(sym_param("conv"),in,n,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	k=u8decode(in,n,opt,pint("ascii",1),cp);
	for(i=0;i<k;i++){
		if(cp[i]==UERR){ err++; if(sub) m+=be32put(0x3f,ex+m); }
		else { m+=be32put(cp[i],ex+m); if(cp[i]>0xffff) sym_cover("astral"); else if(cp[i]>0x7f) sym_cover("bmp"); }
	}
	if(err) sym_cover("error"); if(err==0) sym_cover("clean");
	sym_assert(ie==(unsigned long)err,"one input error is counted per rejected byte");
	sym_assert(oe==0,"no output errors");
	sym_assert(b.n==(size_t)m,"number of decoded characters");
	sym_assert(sym_memeq(b.d,ex,m),"decoded code points");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
