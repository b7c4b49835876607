/* Two instances used in turns, in every order, give what each gives alone; also when one runs while the other is inside a call. */
#include "conv.h"
static struct bsdconv_instance *A,*B; static const char *ca,*cb; static unsigned char x[16],y[16]; static int nx,ny,cx,cy; static buf_t oa,ob; static int armed,count,want,what;
static unsigned long ka[3],kb[3],ra[3],rb[3]; static const char*kn[]={"IERR","OERR","FULL"};
static buf_t cat(buf_t a,buf_t b){ buf_t r; r.d=malloc(a.n+b.n+1); if(a.n)memcpy(r.d,a.d,a.n); if(b.n)memcpy(r.d+a.n,b.d,b.n); r.n=a.n+b.n; free(a.d); free(b.d); return r; }
static void counters(struct bsdconv_instance*i,unsigned long*k){ int j; for(j=0;j<3;j++) k[j]=*bsdconv_counter(i,kn[j]); }
static buf_t alone(const char*c,const unsigned char*p,int n,unsigned long*k){ struct bsdconv_instance*i=mk(c); buf_t b; bsdconv_init(i); feed(i,p,n,1); b=run(i); counters(i,k); bsdconv_destroy(i); return b; }
/* the part of B that happens at the chosen point of A */
static void other(void){
	int w=armed; armed=0;
	if(what==0){ feed(B,y+cy,ny-cy,1); ob=cat(ob,run(B)); } /* the rest of a conversion begun before */
	else { B=mk(cb); bsdconv_init(B); feed(B,y,ny,1); ob=cat(ob,run(B)); counters(B,kb); bsdconv_destroy(B); B=NULL; } /* a whole life */
	armed=w;
}
void sym_point(void){ if(!armed) return; if(count++==want) other(); }
static void text(unsigned char*t,int n,const char*pre,const char*alpha){ int i;
	const char*u=sym_param("units");
	if(u){ int w=strcspn(u,","),c=(strlen(u)+1)/(w+1),k,j; for(i=0;i+w/2<=n;i+=w/2){ k=sym_range(0,c-1); for(j=0;j<w/2;j++){ char h[3]={u[k*(w+1)+2*j],u[k*(w+1)+2*j+1],0}; t[i+j]=strtol(h,0,16); } } return; }
	for(i=0;i<n&&pre&&pre[2*i];i++){ char h[3]={pre[2*i],pre[2*i+1],0}; t[i]=strtol(h,0,16); } if(alpha){ for(;i<n;i++) t[i]=alpha[sym_range(0,strlen(alpha)-1)]; } else if(i<n) sym_bytes(t+i,n-i,"in"); }
void sym_main(void){
	int i,j,mode=pint("mode",0); buf_t a,b; long l0=sym_live(); char ab[64]; const char*alpha=sym_param("alpha"),*ah=sym_param("ahex");
	for(i=0;ah&&ah[2*i];i++){ char h[3]={ah[2*i],ah[2*i+1],0}; ab[i]=strtol(h,0,16); ab[i+1]=0; alpha=ab; }
	ca=sym_param("conv"); cb=sym_param("conv2"); if(!cb) cb=ca; nx=pint("nx",2); ny=pint("ny",2); armed=0; count=0; want=-1; oa.d=ob.d=NULL; oa.n=ob.n=0; A=B=NULL;
	text(x,nx,sym_param("prex"),alpha); text(y,ny,sym_param("prey"),alpha);
	a=alone(ca,x,nx,ra); b=alone(cb,y,ny,rb);
	cx=sym_range(0,nx); cy=ny/2;
	if(mode==0){ /* A1 B1 A2 B2 and A1 B1 B2 A2; B begins and ends at its own first and last step or is there all the time */
		int sa=0,sb=0,keep=sym_range(0,1);
		A=mk(ca); bsdconv_init(A); if(keep){ B=mk(cb); bsdconv_init(B); }
		while(sa<2||sb<2){
			int t=sa==0?0:sb==0?1:sa==2?1:sb==2?0:sym_range(0,1);
			if(!t){ if(sa==0) feed(A,x,cx,0); else feed(A,x+cx,nx-cx,1); oa=cat(oa,run(A)); sa++; }
			else { if(sb==0){ if(!keep){ B=mk(cb); bsdconv_init(B); } feed(B,y,cy,0); } else feed(B,y+cy,ny-cy,1); ob=cat(ob,run(B)); if(++sb==2){ counters(B,kb); if(!keep){ bsdconv_destroy(B); B=NULL; } } }
		}
		if(B) bsdconv_destroy(B);
	} else { /* A is at an allocation inside its second call while B runs */
		int total; what=mode-1;
		for(total=-1;;){
			A=mk(ca); bsdconv_init(A); if(what==0){ B=mk(cb); bsdconv_init(B); if(total>=0){ feed(B,y,cy,0); ob=cat(ob,run(B)); } }
			feed(A,x,cx,0); oa=run(A); feed(A,x+cx,nx-cx,1);
			if(total>=0) want=sym_range(0,total-1); else want=-1;
			count=0; { A->output_mode=BSDCONV_AUTOMALLOC; A->output.len=0; A->output.data=NULL; armed=1; bsdconv(A); armed=0; }
			buf_t r={A->output.data,A->output.len}; oa=cat(oa,r);
			if(total>=0) break;
			total=count; if(total>200) total=200; free(oa.d); bsdconv_destroy(A); if(B) bsdconv_destroy(B); A=B=NULL; if(!total){ free(a.d); free(b.d); sym_skip(); }
		}
		sym_cover("inside");
		if(B){ counters(B,kb); bsdconv_destroy(B); }
	}
	counters(A,ka); bsdconv_destroy(A);
	sym_observe("alone",a.d,a.n); sym_observe("together",oa.d,oa.n); sym_observe("alone2",b.d,b.n); sym_observe("together2",ob.d,ob.n); if(a.n) sym_cover("output");
	sym_assert(a.n==oa.n,"same length of output beside another instance"); sym_assert(sym_memeq(a.d,oa.d,a.n),"same output beside another instance");
	sym_assert(b.n==ob.n,"same length of output of the other instance"); sym_assert(sym_memeq(b.d,ob.d,b.n),"same output of the other instance");
	for(j=0;j<3;j++){ sym_assert(ka[j]==ra[j],"same counters beside another instance"); sym_assert(kb[j]==rb[j],"same counters of the other instance"); }
	free(a.d); free(b.d); free(oa.d); free(ob.d);
	sym_assert(sym_live()==l0,"all memory released");
}
