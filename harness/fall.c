/* lists of codecs with overlapping keys: the first codec that recognizes something wins, with its longest key; what nobody
   recognizes is dropped and counted, between the ends it passes.  Tables: random, compiled by bsdconv-mktable. */
#include "conv.h"
#include "trie.h"
#include TABLE
typedef unsigned char u8;
typedef struct { int c[96],n; } list_t;
/* longest key in bytes (FROM), or in whole elements 01 xx separated by 256 */
static int bmatch(const trie_t*t,const list_t*l,int i,int*v){ int j,s=0,best=0; for(j=i;j<l->n;j++){ s=tnext(t,s,l->c[j]); if(!s) break; if(t->val[s]>=0){ best=j-i+1; *v=t->val[s]; } } return best; }
static int ematch(const trie_t*t,const list_t*l,int i,int*v){ int j,s=0,best=0; for(j=i;j<l->n;j++){ if(j>i&&!(s=tnext(t,s,256))) break; if(!(s=tnext(t,s,1))) break; if(!(s=tnext(t,s,l->c[j]))) break; if(t->val[s]>=0){ best=j-i+1; *v=t->val[s]; } } return best; }
static list_t phase(const list_t*x,const trie_t*const*t,int nt,int type,unsigned long*err){
	list_t r; int i,k,l,v=0,j; r.n=0;
	for(i=0;i<x->n;i+=l?l:1){
		for(l=0,k=0;k<nt&&!l;k++) l=type?ematch(t[k],x,i,&v):bmatch(t[k],x,i,&v);
		if(!l){ if(type==1){ r.c[r.n++]=x->c[i]; sym_cover("passed"); } else { ++*err; sym_cover("dropped"); } continue; }
		if(k>1) sym_cover("second"); else sym_cover("first"); if(l>1) sym_cover("long");
		for(j=t[k-1]->vo[v];j<t[k-1]->vo[v+1];j++) r.c[r.n++]=t[k-1]->vd[j];
	}
	return r;
}
void sym_main(void){
	u8 in[16],ex[96]; int n=pint("n",4),i,pieces=pint("pieces",1),p=0,q,hi=pint("hi",0x64); list_t x; unsigned long ie=0,oe=0,a=0,b_; buf_t b={0,0},c; long l0=sym_live(); struct bsdconv_instance*ins;
	sym_bytes(in,n,"in"); for(i=0;i<n;i++){ sym_assume(in[i]>=0x61); sym_assume(in[i]<=hi); }
	ins=mk(sym_param("conv")); bsdconv_init(ins);
	for(i=0;i<pieces;i++){ q=i==pieces-1?n:p+sym_range(0,n-p); feed(ins,in+p,q-p,i==pieces-1); p=q; c=run(ins); b.d=realloc(b.d,b.n+c.n+1); if(c.n) memcpy(b.d+b.n,c.d,c.n); b.n+=c.n; free(c.d); }
	a=*bsdconv_counter(ins,"IERR"); b_=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&a,8); sym_observe("oerr",&b_,8);
	x.n=n; for(i=0;i<n;i++) x.c[i]=in[i];
	for(i=0;i<NPH;i++) x=phase(&x,phs[i].t,phs[i].n,phs[i].type,phs[i].type==0?&ie:&oe);
	for(i=0;i<x.n;i++) ex[i]=x.c[i];
	sym_assert(a==ie,"input errors: one for every byte no codec of the list begins a key with");
	sym_assert(b_==oe,"output errors: one for every character no codec of the list has");
	sym_assert(b.n==(size_t)x.n,"length of the output");
	sym_assert(sym_memeq(b.d,ex,x.n),"the first codec that matches wins, with its longest key");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
