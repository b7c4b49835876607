/* scalar values -> GB18030 */
#include "conv.h"
#include "ucs.h"
#include "trie.h"
#include TABLE
static int put(u32 c,u8*o){ u32 x; int i,n;
	if(c<0x80){ o[0]=c; return 1; }
	if(c>0xffff){ x=c-0x10000; o[3]=0x30+x%10; x/=10; o[2]=0x81+x%126; x/=126; o[1]=0x30+x%10; x/=10; o[0]=0x90+x; return 4; }
	x=gbref[c]; n=x>0xffff?4:2; for(i=0;i<n;i++) o[i]=x>>8*(n-1-i); return n; }
void sym_main(void){
	u8 in[16],ex[32]; int k=pint("k",1),i,m=0; unsigned long ie,oe; buf_t b; long l0=sym_live(); u32 c; static const u32 second[]={0x41,0x80,0x4e00,0x9fa6,0x10000,0x45200,0x10ffff};
	sym_bytes(in,4,"in");
	sym_assume(in[0]==0); sym_assume(in[1]<=0x10);
	c=in[1]<<16|in[2]<<8|in[3];
	sym_assume(c!=0); sym_assume(!hisur(c)&&!losur(c));
	if(k>1) be32put(second[sym_range(0,6)],in+4);
	b=conv1(sym_param("conv"),in,4*k,&ie,&oe);
	sym_observe("out",b.d,b.n);
	if(c>0xffff) sym_cover("astral"); else sym_cover("bmp");
	m=put(c,ex);
	if(k>1) m+=put(in[4]<<24|in[5]<<16|in[6]<<8|in[7],ex+m);
	sym_assert(ie==0&&oe==0,"every scalar value is encodable");
	sym_assert(b.n==(size_t)m,"length of the encoded text");
	sym_assert(sym_memeq(b.d,ex,m),"encoded bytes");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
