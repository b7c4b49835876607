/* BSDCONV_PASS: handing the output of one instance to the next is the same as one conversion "A|B" */
#include "conv.h"
void sym_main(void){
	unsigned char in[32]; int n=pint("n",3),i,pieces=pint("pieces",2),p=0,q,k=0; long l0=sym_live(); const char*pre=sym_param("prefix"); char both[200]; buf_t e,c,o={0,0}; struct bsdconv_instance*a,*b,*z=NULL; unsigned long ie,oe,x; int three=pint("three",0);
	if(pre){ char s[3]={0}; while(pre[0]){ s[0]=pre[0]; s[1]=pre[1]; in[k++]=strtol(s,0,16); pre+=2; } }
	sym_bytes(in+k,n,"in"); n+=k;
	a=mk(sym_param("a")); b=mk(sym_param("b")); bsdconv_init(a); bsdconv_init(b);
	sprintf(both,"%s|%s",sym_param("a"),sym_param("b"));
	e=conv1(both,in,n,&ie,&oe);
	for(i=0;i<pieces;i++){
		q=i==pieces-1?n:p+sym_range(0,n-p);
		feed(a,in+p,q-p,i==pieces-1); p=q;
		a->output_mode=BSDCONV_PASS; a->output.data=b; bsdconv(a);
		if(b->input.data&&b->input.next) sym_cover("chain");
		if(i==pieces-1) b->flush=1;
		c=run(b); o.d=realloc(o.d,o.n+c.n+1); memcpy(o.d+o.n,c.d,c.n); o.n+=c.n; free(c.d);
	}
	x=*bsdconv_counter(a,"IERR")+*bsdconv_counter(b,"IERR"); sym_observe("ie",&x,8); sym_observe("out",o.d,o.n);
	sym_assert(x==ie,"input errors of both");
	x=*bsdconv_counter(a,"OERR")+*bsdconv_counter(b,"OERR"); sym_assert(x==oe,"output errors of both");
	sym_assert(o.n==e.n&&sym_memeq(o.d,e.d,e.n),"chained instances give what the joined conversion gives");
	bsdconv_destroy(b); bsdconv_destroy(a); free(o.d); free(e.d);
	sym_assert(sym_live()==l0,"all memory released");
}
