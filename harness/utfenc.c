#include "conv.h"
#include "ucs.h"
/* k arbitrary Unicode scalar values -> encoder, against the reference encoder */
static int enc(const char*e,u32 c,u8*o){
	u8 t[4]; int n=0,i;
	if(e[0]=='8'){ if(c==0) return -1; return u8enc(c,o); }
	if(e[0]=='1'||e[0]=='2'){
		if(c>0xffff){ if(e[0]=='2') return -1; c-=0x10000; n=4; t[0]=0xd8|c>>18;t[1]=c>>10;t[2]=0xdc|(c>>8&3);t[3]=c; }
		else { n=2; t[0]=c>>8;t[1]=c; }
		for(i=0;i<n;i++) o[i]=t[e[1]=='l'?i^1:i];
		return n;
	}
	be32put(c,t); for(i=0;i<4;i++) o[i]=t[e[1]=='l'?3-i:i];
	return 4;
}
void sym_main(void){
	u8 in[16],ex[32]; int k=pint("k",1),i,m=0,r,err=0; unsigned long ie,oe; buf_t b; long l0=sym_live(); u32 c; const char*e=sym_param("enc");
	for(i=0;i<k;i++){
		sym_bytes(in+4*i+1,3,"cp"); in[4*i]=0;
		c=(u32)in[4*i+1]<<16|in[4*i+2]<<8|in[4*i+3];
		sym_assume(scalar(c));
	}
	b=conv1(sym_param("conv"),in,4*k,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("oerr",&oe,8);
	for(i=0;i<k;i++){
		c=(u32)in[4*i+1]<<16|in[4*i+2]<<8|in[4*i+3];
		r=enc(e,c,ex+m); if(r<0) err++; else { m+=r; if(c>0xffff) sym_cover("astral"); else sym_cover("bmp"); }
	}
	sym_assert(ie==0,"no input errors");
	sym_assert(oe==(unsigned long)err,"one output error per unencodable character");
	sym_assert(b.n==(size_t)m,"encoded length");
	sym_assert(sym_memeq(b.d,ex,m),"encoded bytes");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
