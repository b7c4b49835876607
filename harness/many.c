/* an instance that is used very often gives the same every time and does not grow */
#include "conv.h"
#include <string.h>
typedef unsigned char u8;
static int nib(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static int unhex(u8*o,const char*h){ int n=0; for(;h&&h[0]&&h[1];h+=2) o[n++]=nib(h[0])<<4|nib(h[1]); return n; }
void sym_main(void){
	const char*c=sym_param("conv"); u8 t[64]; int n,r,R=pint("rounds",300),how,cut; long l0=sym_live(),l1=0; struct bsdconv_instance*a; buf_t f,b; unsigned long e[2],e0=0,e1=0;
	n=unhex(t,sym_param("pre")); if(pint("n",1)){ sym_bytes(t+n,1,"byte"); n++; } n+=unhex(t+n,sym_param("post"));
	how=sym_range(0,1); cut=n/2;
	f=conv1(c,t,n,&e[0],&e[1]); a=mk(c);
	for(r=0;r<R;r++){
		bsdconv_init(a);
		/* every other conversion is given up */
		if(how&&r%2){ feed(a,t,cut,0); b=run(a); free(b.d); bsdconv_init(a); }
		e0=*bsdconv_counter(a,"IERR"); e1=*bsdconv_counter(a,"OERR");
		feed(a,t,n,1); b=run(a);
		sym_assert(b.n==f.n&&!memcmp(b.d,f.d,f.n),"the same output every time"); sym_assert(*bsdconv_counter(a,"IERR")-e0==e[0]&&*bsdconv_counter(a,"OERR")-e1==e[1],"the same errors every time");
		free(b.d); if(r==19) l1=sym_live();
	}
	sym_assert(sym_live()==l1,"the instance does not grow"); if(f.n) sym_cover("output");
	if(pint("stream",0)){ /* one text that goes on and on, its output taken piece by piece */
		unsigned long tot=0; bsdconv_init(a);
		for(r=0;r<R;r++){ feed(a,t,n,0); b=run(a); tot+=b.n; free(b.d); if(r==19) l1=sym_live(); }
		sym_assert(sym_live()==l1,"a text that goes on takes no more memory");
	}
	free(f.d); bsdconv_destroy(a); sym_assert(sym_live()==l0,"all memory released");
}
