/* scalar values through a table phase (output codecs or an intermediate phase), against the reference tries */
#include "conv.h"
#include "ucs.h"
#include "trie.h"
#include TABLE
static int lay(const u32*c,int k,u8*o,short*sep){ /* canonical element bytes, 256 between elements */
	int i,n=0; for(i=0;i<k;i++){ if(i) sep[n++]=256; sep[n++]=1; if(c[i]>0xffffff) sep[n++]=c[i]>>24; if(c[i]>0xffff) sep[n++]=c[i]>>16&255; if(c[i]>0xff) sep[n++]=c[i]>>8&255; sep[n++]=c[i]&255; } (void)o; return n; }
/* longest sequence of whole elements; returns their number */
static int ematch(const trie_t*t,const u32*c,int k,int*v){
	short b[64]; int i,s=0,best=0,e=0,n=lay(c,k,0,b);
	for(i=0;i<n;i++){ if(b[i]==256) e++; s=tnext(t,s,b[i]); if(!s) break; if((i+1==n||b[i+1]==256)&&t->val[s]>=0){ best=e+1; *v=t->val[s]; } }
	return best; }
void sym_main(void){
	u8 in[32],ex[512]; u32 c[8]; unsigned long sc=0,want=0; int k=pint("k",1),inter=pint("inter",0),i,j,q,l=0,v=0,m=0,err=0,hit=0; unsigned long ie,oe; buf_t b; long l0=sym_live(); u32 lo=pint("lo",0),hi=pint("hi",0x10ffff); int pool=pint("pool",0);
	int k0=0;
#ifdef BONUS
	if(pint("ent",0)==1){ int st=pint("step",1),x=st*sym_range(0,(NENT-1)/st),n=ent_off[x+1]-ent_off[x]; if(k&&n>1) n=1+sym_range(0,n-1); for(i=0;i<n;i++){ c[k0]=ent_cp[ent_off[x]+i]; be32put(c[k0],in+4*k0); k0++; } k+=k0; }
#endif
	for(i=k0;i<k;i++){
#ifdef POOL
		if(i>=pool){ c[i]=POOL[sym_range(0,NPOOL-1)]; be32put(c[i],in+4*i); continue; }
#endif
		sym_bytes(in+4*i,4,"in"); sym_assume(in[4*i]==0); sym_assume(in[4*i+1]<=hi>>16);
		c[i]=(u32)in[4*i+1]<<16|in[4*i+2]<<8|in[4*i+3];
		if(lo) sym_assume(c[i]>=lo); if(hi!=0x10ffff) sym_assume(c[i]<=hi); sym_assume(in[4*i+1]!=0||(in[4*i+2]&0xf8)!=0xd8);
		if(!pint("nul",0)) sym_assume(in[4*i+1]!=0||in[4*i+2]!=0||in[4*i+3]!=0);
	}
#ifdef BONUS
	if(pint("ent",0)==2){ int st=pint("step",1),x=st*sym_range(0,(NENT-1)/st); for(i=ent_off[x];i<ent_off[x+1];i++){ c[k]=ent_cp[i]; be32put(c[k],in+4*k); k++; } }
	{ struct bsdconv_instance*x=mk(sym_param("conv")); int r=pint("again",0)&&sym_range(0,1); bsdconv_init(x); if(r){ feed(x,"\0\0\0A",4,1); b=run(x); free(b.d); bsdconv_init(x); } /* the counter goes on over texts */
		*bsdconv_counter(x,"score")+=1000; feed(x,in,4*k,1); b=run(x); ie=*bsdconv_counter(x,"IERR"); oe=*bsdconv_counter(x,"OERR"); sc=*bsdconv_counter(x,"SCORE"); want=1000; bsdconv_destroy(x); }
#else
	b=conv1(sym_param("conv"),in,4*k,&ie,&oe);
#endif
	sym_observe("out",b.d,b.n); sym_observe("oerr",&oe,8);
	for(i=0;i<k;i+=l?l:1){
		for(l=0,q=0;q<NTAB&&!l;q++) l=ematch(tabs[q],c+i,k-i,&v);
		if(!l){ if(inter) m+=be32put(c[i],ex+m); else err++; continue; }
		q--; hit=1;
#ifdef SKIPVAL
		if(tabs[q]->vd[tabs[q]->vo[v]]==SKIPVAL) sym_skip();
#endif
		j=tabs[q]->vo[v];
#ifdef BONUS
		want+=tabs[q]->vd[j++];
#endif
		for(;j<tabs[q]->vo[v+1];j++){ if(inter) m+=be32put(tabs[q]->vd[j],ex+m); else ex[m++]=tabs[q]->vd[j]; }
	}
	if(hit) sym_cover("mapped"); if(err) sym_cover("error");
	sym_assert(sc==want,"the bonus is added to the score");
	sym_assert(ie==0,"no input errors");
	sym_assert(oe==(unsigned long)err,"output errors are exactly the characters without a mapping");
	sym_assert(b.n==(size_t)m,"length of the result");
	sym_assert(sym_memeq(b.d,ex,m),"mapped data");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
