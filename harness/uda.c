/* CP950-UDA: four blocks of 157 characters a row */
#include "conv.h"
#include "ucs.h"
static int trail(int d){ return d>=0x40&&d<=0x7e?d-0x40:d>=0xa1&&d<=0xfe?d-0x62:-1; }
static int uda(int h,int d){
	int t=trail(d);
	if(t<0) return 0;
	if(h>=0xfa&&h<=0xfe) return 0xe000+157*(h-0xfa)+t;
	if(h>=0x8e&&h<=0xa0) return 0xe311+157*(h-0x8e)+t;
	if(h>=0x81&&h<=0x8d) return 0xeeb8+157*(h-0x81)+t;
	if(h>=0xc6&&h<=0xc8&&(h>0xc6||d>=0xa1)) return 0xf672+157*(h-0xc6)+t;
	return 0;
}
void sym_main(void){
	u8 in[8],ex[64]; int n=pint("n",2),cut=pint("cut",0),re=pint("again",0),i,l,u,m=0,err=0; unsigned long ie,oe; buf_t b,c; long l0=sym_live(); struct bsdconv_instance*ins;
	sym_bytes(in,n,"in");
	ins=mk(sym_param("conv")); bsdconv_init(ins);
	if(re){ feed(ins,"\xfa\x40\xfa",3,re-1); b=run(ins); free(b.d); bsdconv_init(ins); bsdconv_counter_reset(ins,NULL); }
	if(cut){ int q=sym_range(0,n); feed(ins,in,q,0); b=run(ins); feed(ins,in+q,n-q,1); c=run(ins);
		b.d=realloc(b.d,b.n+c.n+1); if(c.n) memcpy(b.d+b.n,c.d,c.n); b.n+=c.n; free(c.d);
	}else{ feed(ins,in,n,1); b=run(ins); }
	ie=*bsdconv_counter(ins,"IERR"); oe=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	for(i=0;i<n;i+=l){
		l=1;
		if(pint("ascii",0)&&in[i]&&in[i]<0x80){ m+=be32put(in[i],ex+m); sym_cover("ascii"); continue; }
		if(n-i>=2&&(u=uda(in[i],in[i+1]))){ m+=be32put(u,ex+m); l=2; sym_cover("user"); continue; }
		err++; sym_cover("error");
	}
	sym_assert(ie==(unsigned long)err,"input errors are exactly the bytes outside the user-defined areas");
	sym_assert(oe==0,"no output errors");
	sym_assert(b.n==(size_t)m,"number of decoded characters");
	sym_assert(sym_memeq(b.d,ex,m),"decoded code points");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
