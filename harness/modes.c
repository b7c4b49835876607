/* The output mode decides where the output goes, never what it is.  A twin that takes everything with AUTOMALLOC after every
   call says what has been produced; the instance under test uses a symbolic mode in every call. */
#include "conv.h"
#include <errno.h>
#include <sys/types.h>
static unsigned char sink[512]; static size_t sn; static int shortw,calls;
/* the descriptor and the stream of this harness: record what they are given; the descriptor accepts part of it */
static char fdtag, filetag;
ssize_t write(int fd,const void*p,size_t n){ size_t k=n; sym_assert(fd==77,"writes go to the descriptor that was given"); sym_assert(n<=sizeof sink-sn,"more than what was produced is written"); if(shortw&&n>1){ k=sym_range(0,n); if(k==0){ sym_cover("eintr"); errno=EINTR; shortw--; return -1; } if(k<n) sym_cover("short"); shortw--; } memcpy(sink+sn,p,k); sn+=k; return k; }
size_t fwrite(const void*p,size_t a,size_t b,FILE*f){ sym_assert((void*)f==(void*)&filetag,"the stream that was given"); if(a*b) memcpy(sink+sn,p,a*b); sn+=a*b; return b; }
static unsigned char pend[512]; static size_t pn;   /* produced and not yet taken out */
static void taken(const void*d,size_t n,const char*m){ sym_assert(n<=pn,m); sym_assert(sym_memeq(d,pend,n),m); memmove(pend,pend+n,pn-n); pn-=n; }
void sym_main(void){
	unsigned char in[32]; int n=pint("n",3),i,pieces=pint("pieces",2),p=0,q,mode,cap,lim=pint("lim",6),lo=pint("lo",0),hi=pint("hi",5); long l0=sym_live(); const char*conv=sym_param("conv"),*pre=sym_param("prefix"); buf_t b; int k=0;
	struct bsdconv_instance*a,*t; unsigned long x,y;
	if(pre){ char s[3]={0}; while(pre[0]){ s[0]=pre[0]; s[1]=pre[1]; in[k++]=strtol(s,0,16); pre+=2; } }
	sym_bytes(in+k,n,"in"); n+=k;
	shortw=pint("short",0);
	a=mk(conv); t=mk(conv); bsdconv_init(a); bsdconv_init(t);
	for(i=0;i<=pieces;i++){
		if(i<pieces){ q=i==pieces-1?n:p+sym_range(0,n-p);
			feed(t,in+p,q-p,i==pieces-1); b=run(t); memcpy(pend+pn,b.d,b.n); pn+=b.n; free(b.d);
			feed(a,in+p,q-p,i==pieces-1); p=q; }
		mode=i<pieces?lo+sym_range(0,hi-lo):1;
		sn=0; a->output.data=NULL; a->output.len=0;
		switch(mode){
			case 0: a->output_mode=BSDCONV_HOLD; bsdconv(a); sym_assert(a->output.len==0,"nothing is delivered when output is held"); sym_cover("hold"); break;
			case 1: cap=sym_range(0,1); a->output.len=cap; a->output_mode=BSDCONV_AUTOMALLOC; bsdconv(a); sym_assert(a->output.len==pn,"everything pending is delivered"); if(cap) ((char*)a->output.data)[a->output.len]=0; taken(a->output.data,pn,"allocated output"); free(a->output.data); sym_cover("automalloc"); break;
			case 2: { unsigned char*u; size_t got; cap=sym_range(0,lim); a->output_mode=BSDCONV_PREMALLOCED;
				if(!cap){ bsdconv(a); sym_assert(a->output.len==pn,"size needed for everything pending"); sym_cover("size"); break; }
				u=malloc(cap); a->output.data=u; a->output.len=cap; bsdconv(a); got=a->output.len; sym_assert(got<=(size_t)cap,"no more than the buffer holds");
				sym_assert(got==pn||got+pint("item",4)>(size_t)cap,"the buffer is filled as far as whole characters go"); if(got<pn) sym_cover("partial"); sym_observe("pre",u,got);
				taken(u,got,"output in the caller's buffer"); free(u); break; }
			case 3: a->output_mode=BSDCONV_FILE; a->output.data=&filetag; bsdconv(a); sym_assert(sn==pn,"everything pending is written to the stream"); taken(sink,sn,"output to a stream"); sym_cover("file"); break;
			case 4: a->output_mode=BSDCONV_FD; a->output.data=(void*)(intptr_t)77; bsdconv(a); sym_assert(sn==pn,"everything pending is written to the descriptor"); taken(sink,sn,"output to a descriptor"); sym_cover("fd"); break;
			case 5: a->output_mode=BSDCONV_NULL; bsdconv(a); pn=0; sym_cover("null"); break;
		}
	}
	x=*bsdconv_counter(a,"IERR"); y=*bsdconv_counter(t,"IERR"); sym_assert(x==y,"input errors"); sym_observe("ie",&x,8);
	x=*bsdconv_counter(a,"OERR"); y=*bsdconv_counter(t,"OERR"); sym_assert(x==y,"output errors"); sym_observe("oe",&x,8);
	bsdconv_destroy(a); bsdconv_destroy(t);
	sym_assert(sym_live()==l0,"all memory released");
}
