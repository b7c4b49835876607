/* arbitrary bytes through a list of table decoders, against the reference tries */
#include "conv.h"
#include "ucs.h"
#include "trie.h"
#include TABLE
void sym_main(void){
	u8 in[8],ex[256]; int n=pint("n",2),i,j,k,l=0,v=0,m=0,err=0,lo=pint("lo",0),hi=pint("hi",255),lo2=pint("lo2",0),hi2=pint("hi2",255),hi4=pint("hi4",255); unsigned long ie,oe; buf_t b; long l0=sym_live();
	sym_bytes(in,n,"in");
	sym_assume(in[0]>=lo); sym_assume(in[0]<=hi);
	if(n>1){ sym_assume(in[1]>=lo2); sym_assume(in[1]<=hi2); }
	if(n>3) sym_assume(in[3]<=hi4);
	if(pint("nonul",0)) for(i=0;i<n;i++) sym_assume(in[i]!=0);
	b=conv1(sym_param("conv"),in,n,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	for(i=0;i<n;i+=l?l:1){
		for(l=0,k=0;k<NTAB&&!l;k++) l=tmatch(tabs[k],in+i,n-i,&v);
#ifdef SKIPVAL
		if(l){ int q=tabs[k-1]->vd[tabs[k-1]->vo[v]]; if(q==SKIPVAL) sym_skip(); }
#endif
		if(!l){ err++; continue; }
		k--;
		for(j=tabs[k]->vo[v];j<tabs[k]->vo[v+1];j++) m+=be32put(tabs[k]->vd[j],ex+m);
	}
	if(err) sym_cover("error"); else sym_cover("clean");
	sym_assert(ie==(unsigned long)err,"input errors are exactly the bytes the reference rejects");
	sym_assert(oe==0,"no output errors");
	sym_assert(b.n==(size_t)m,"number of decoded characters");
	sym_assert(sym_memeq(b.d,ex,m),"decoded code points");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
