/* arbitrary bytes -> GB18030 decoder -> UTF-32BE against the published mapping */
#include "conv.h"
#include "ucs.h"
#include "trie.h"
#include TABLE
static int gb4(const u8*p,int n,u32*c){ u32 x;
	if(n<4||p[0]<0x81||p[0]>0xfe||p[1]<0x30||p[1]>0x39||p[2]<0x81||p[2]>0xfe||p[3]<0x30||p[3]>0x39) return 0;
	x=(((p[0]-0x90u)*10+(p[1]-0x30))*126+(p[2]-0x81))*10+(p[3]-0x30);
	if(p[0]<0x90||x>0xfffff) return 0;
	*c=0x10000+x; return 4; }
void sym_main(void){
	u8 in[8],ex[256]; int n=pint("n",2),i,l=0,v=0,m=0,err=0,lo=pint("lo",0),hi=pint("hi",255),lo2=pint("lo2",0),hi2=pint("hi2",255),hi4=pint("hi4",255); unsigned long ie,oe; buf_t b; long l0=sym_live(); u32 c;
	sym_bytes(in,n,"in");
	sym_assume(in[0]>=lo); sym_assume(in[0]<=hi);
	if(n>1){ sym_assume(in[1]>=lo2); sym_assume(in[1]<=hi2); }
	if(n>3) sym_assume(in[3]<=hi4);
	b=conv1(sym_param("conv"),in,n,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	for(i=0;i<n;i+=l?l:1){
		l=gb4(in+i,n-i,&c);
		if(!l&&(l=tmatch(&t0,in+i,n-i,&v))) c=t0.vd[t0.vo[v]];
		if(!l&&(l=tmatch(&t1,in+i,n-i,&v))) c=t1.vd[t1.vo[v]];
		if(l) m+=be32put(c,ex+m); else err++;
	}
	if(err) sym_cover("error"); else sym_cover("clean");
	sym_assert(ie==(unsigned long)err,"input errors are exactly the bytes that are not part of a GB18030 character");
	sym_assert(oe==0,"no output errors");
	sym_assert(b.n==(size_t)m,"number of decoded characters");
	sym_assert(sym_memeq(b.d,ex,m),"decoded code points");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
