/* an instance that was used, abandoned at any point and initialized again behaves like a new one */
#include "conv.h"
/* units: characters of equal length given in hexadecimal, separated by commas */
static void text(unsigned char*t,int n,const char*pre,const char*alpha){ int i; const char*u=sym_param("units");
	if(u){ int w=strcspn(u,","),c=(strlen(u)+1)/(w+1),k,j; for(i=0;i+w/2<=n;i+=w/2){ k=sym_range(0,c-1); for(j=0;j<w/2;j++){ char h[3]={u[k*(w+1)+2*j],u[k*(w+1)+2*j+1],0}; t[i+j]=strtol(h,0,16); } } return; }
 for(i=0;i<n&&pre&&pre[2*i];i++){ char h[3]={pre[2*i],pre[2*i+1],0}; t[i]=strtol(h,0,16); } if(alpha){ for(;i<n;i++) t[i]=alpha[sym_range(0,strlen(alpha)-1)]; } else if(i<n) sym_bytes(t+i,n-i,"in"); }
void sym_main(void){
	unsigned char x[16],y[16]; int nx=pint("nx",2),ny=pint("ny",2),how,i,inits; unsigned long ie,oe,ie0,oe0; buf_t a,b,o; long l0=sym_live(); const char*c=sym_param("conv"),*alpha=sym_param("alpha"),*ah=sym_param("ahex"); char ab[64]; struct bsdconv_instance*ins;
	for(i=0;ah&&ah[2*i];i++){ char h[3]={ah[2*i],ah[2*i+1],0}; ab[i]=strtol(h,0,16); ab[i+1]=0; alpha=ab; }
	text(x,nx,sym_param("prex"),alpha); text(y,ny,sym_param("prey"),alpha);
	a=conv1(c,y,ny,&ie,&oe);
	ins=mk(c); bsdconv_init(ins);
	how=sym_range(0,3); /* collected, left inside, flushed, one character at a time */
	if(how==3){ for(i=0;i<nx;i++){ feed(ins,x+i,1,0); o=run(ins); free(o.d); } }
	else { feed(ins,x,nx,how==2); if(how==1){ ins->output_mode=BSDCONV_HOLD; bsdconv(ins); } else { o=run(ins); free(o.d); } }
	inits=sym_param("units")?1:sym_range(1,2); while(inits--) bsdconv_init(ins);
	ie0=*bsdconv_counter(ins,"IERR"); oe0=*bsdconv_counter(ins,"OERR");
	feed(ins,y,ny,1); b=run(ins);
	sym_observe("new",a.d,a.n); sym_observe("reused",b.d,b.n); if(a.n) sym_cover("output");
	sym_assert(a.n==b.n,"same length of output from a reused instance"); sym_assert(sym_memeq(a.d,b.d,a.n),"same output from a reused instance");
	sym_assert(*bsdconv_counter(ins,"IERR")-ie0==ie,"same number of input errors from a reused instance"); sym_assert(*bsdconv_counter(ins,"OERR")-oe0==oe,"same number of output errors from a reused instance");
	free(a.d); free(b.d);
	/* and can be dropped in the middle of a conversion */
	bsdconv_init(ins); feed(ins,x,nx,0); ins->output_mode=BSDCONV_HOLD; bsdconv(ins); bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
