/* one internal character (Unicode or byte) written as an escape, against the documented form, and read back */
#include "conv.h"
typedef unsigned char u8; typedef uint32_t u32;
static int hx(const char*p,u8*o){ int i=0; for(;p&&p[2*i];i++){ char h[3]={p[2*i],p[2*i+1],0}; o[i]=strtol(h,0,16); } return i; }
void sym_main(void){
	u8 it[8],ex[64],pf[16],sf[16],in[16]; int k,i,m=0,pn=hx(sym_param("prefix"),pf),sn=hx(sym_param("suffix"),sf),mode=pint("mode",16),type=pint("type",1),ok=pint("ok",1); long l0=sym_live(); buf_t b; unsigned long ie,oe; const char*rt=sym_param("rt"); u32 v=0;
	it[0]=type;
	if(type==1){ u8 c[3]; u32 nl=sym_range(1,pint("maxlen",3)); sym_bytes(c,nl,"cp"); for(i=0;i<(int)nl;i++) v=v*256+c[i]; sym_assume(v<=0x10ffff&&(nl==1||c[0]!=0)); sym_assume(v<0xd800||v>0xdfff); for(i=0;i<(int)nl;i++) it[1+i]=c[i]; k=1+nl; }
	else { sym_bytes(it+1,1,"byte"); v=it[1]; k=2; }
	memcpy(in,it,k);
	b=conv1(sym_param("conv"),in,k,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("oerr",&oe,8);
	if(ok){
		for(i=0;i<pn;i++) ex[m++]=pf[i];
		if(mode==16) for(i=1;i<k;i++){ int h=it[i]>>4,l=it[i]&15; ex[m++]=h<10?'0'+h:'A'+h-10; ex[m++]=l<10?'0'+l:'A'+l-10; }
		else if(mode==8){ ex[m++]='0'+(v>>6); ex[m++]='0'+(v>>3&7); ex[m++]='0'+(v&7); }
		else { u32 q=1,nd=1,w; for(w=10;v>=w;w*=10) nd++; while(--nd) q*=10; for(;q;q/=10) ex[m++]='0'+v/q%10; }
		for(i=0;i<sn;i++) ex[m++]=sf[i];
	}
	sym_assert(oe==(unsigned long)!ok,"output error accounting");
	sym_assert(b.n==(size_t)m,"length of the escape");
	sym_assert(sym_memeq(b.d,ex,m),"text of the escape");
	if(rt&&v>=(u32)pint("min",0)&&v<=(u32)pint("max",0x10ffff)){ buf_t c=conv1(rt,b.d,b.n,&ie,&oe); sym_cover("read back"); sym_observe("back",c.d,c.n); sym_assert(ie==0&&oe==0&&c.n==(size_t)k,"reading the escape back gives one character"); sym_assert(sym_memeq(c.d,it,k),"reading the escape back gives the same character"); free(c.d); }
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
