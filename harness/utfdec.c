#include "conv.h"
#include "ucs.h"
/* arbitrary bytes -> UTF-16/32 decoder -> UTF-32BE, against the reference decoder */
void sym_main(void){
	u8 in[16],ex[64]; int n=pint("n",4),i,m=0,bad=0,trunc=0,le,w; u32 c,d; unsigned long ie,oe; buf_t b; long l0=sym_live(); const char*e=sym_param("enc");
	le=e[1]=='l'; w=e[0]=='3'?4:2;
	sym_bytes(in,n,"in");
	for(i=0;i<n&&!bad;){
		if(i+w>n){ trunc=n-i; break; }
		if(w==4){ c=le?(u32)in[i+3]<<24|in[i+2]<<16|in[i+1]<<8|in[i]:(u32)in[i]<<24|in[i+1]<<16|in[i+2]<<8|in[i+3]; i+=4; }
		else {
			c=le?in[i+1]<<8|in[i]:in[i]<<8|in[i+1]; i+=2;
			if(hisur(c)){
				if(i+2>n){ bad=1; break; }
				d=le?in[i+1]<<8|in[i]:in[i]<<8|in[i+1]; i+=2;
				if(!losur(d)){ bad=1; break; }
				c=0x10000+((c-0xd800)<<10)+(d-0xdc00);
				sym_cover("pair");
			} else if(losur(c)) sym_skip(); /* lone trail surrogate: outside the claim */
		}
		if(w==4&&!scalar(c)) sym_skip();
		m+=be32put(c,ex+m);
	}
	b=conv1(sym_param("conv"),in,n,&ie,&oe);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	if(bad){ sym_cover("bad"); sym_assert(ie>0,"an unpaired lead surrogate is counted as an input error"); }
	else {
		if(trunc) sym_cover("trunc"); else sym_cover("whole");
		sym_assert(ie==(unsigned long)trunc,"exactly the truncated bytes are counted as input errors");
		sym_assert(b.n==(size_t)m,"number of decoded characters");
		sym_assert(sym_memeq(b.d,ex,m),"decoded code points");
	}
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
