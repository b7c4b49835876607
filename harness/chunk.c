/* splitting the input over several calls must not change anything */
#include "conv.h"
static buf_t cat(buf_t a,buf_t b){ buf_t r; r.d=malloc(a.n+b.n+1); if(a.n)memcpy(r.d,a.d,a.n); if(b.n)memcpy(r.d+a.n,b.d,b.n); r.n=a.n+b.n; free(a.d); free(b.d); return r; }
void sym_main(void){
	unsigned char in[16]; int n=pint("n",3),i,k=pint("pieces",2),p=0,q; unsigned long ie,oe,ie2,oe2; buf_t a,b={0,0}; long l0=sym_live(); const char*pre=sym_param("pre"); const char*alpha=sym_param("alpha"); struct bsdconv_instance*ins; const char*c=sym_param("conv"); const char*ah=sym_param("ahex"); char ab[64];
	for(i=0;ah&&ah[2*i];i++){ char h[3]={ah[2*i],ah[2*i+1],0}; ab[i]=strtol(h,0,16); ab[i+1]=0; alpha=ab; }
	for(i=0;pre&&pre[2*i];i++){ char h[3]={pre[2*i],pre[2*i+1],0}; in[i]=strtol(h,0,16); }
	if(sym_param("units")); else if(alpha) for(;i<n;i++) in[i]=alpha[sym_range(0,strlen(alpha)-1)];
	else if(i<n){ int lo=pint("lo",-1); sym_bytes(in+i,n-i,"in"); if(lo>=0){ sym_assume(in[i]>=lo); sym_assume(in[i]<=pint("hi",255)); } }
	if(sym_param("units")){ const char*u=sym_param("units"); int w=strcspn(u,","),m=(strlen(u)+1)/(w+1),t,j; for(i=0;i+w/2<=n;i+=w/2){ t=sym_range(0,m-1); for(j=0;j<w/2;j++){ char h[3]={u[t*(w+1)+2*j],u[t*(w+1)+2*j+1],0}; in[i+j]=strtol(h,0,16); } } }
	a=conv1(c,in,n,&ie,&oe);
	ins=mk(c); bsdconv_init(ins);
	for(i=0;i<k;i++){
		q=i==k-1?n:p+sym_range(0,n-p);
		if(!(pint("lateflush",0))&&i==k-1){ feed(ins,in+p,q-p,1); }
		else feed(ins,in+p,q-p,0);
		b=cat(b,run(ins)); p=q;
	}
	if(pint("lateflush",0)){ ins->flush=1; b=cat(b,run(ins)); }
	ie2=*bsdconv_counter(ins,"IERR"); oe2=*bsdconv_counter(ins,"OERR");
	bsdconv_destroy(ins);
	sym_observe("whole",a.d,a.n); sym_observe("pieces",b.d,b.n);
	if(ie) sym_cover("error"); if(a.n) sym_cover("output");
	sym_assert(a.n==b.n,"same length of output however the input is split");
	sym_assert(sym_memeq(a.d,b.d,a.n),"same output however the input is split");
	sym_assert(ie==ie2,"same number of input errors however the input is split");
	sym_assert(oe==oe2,"same number of output errors however the input is split");
	free(a.d); free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
