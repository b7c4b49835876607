/* ANSI control sequences: cut out of a stream of bytes by ANSI-CONTROL, moved behind the character they fall into by BIG5-DEFRAG */
#include "conv.h"
#define ITEMMAX 32
#include "items.h"
#include <ctype.h>
typedef struct { u8 b[ITEMMAX]; int n; } it_t;
static it_t v[64],w[64]; static int nv,nw;
/* the sequence at the beginning of p: its length, 0 when it does not end */
static int seq(const u8*p,int n){ int k; for(k=1;k<n;k++){ u8 c=p[k]; if(k==1?c!='[':((c>='a'&&c<='z')||(c>='A'&&c<='Z'&&c!='O'))) return k+1; if(k==29) return 30; } return 0; }
static void cutseq(const u8*p,int n){ int i,k; nv=0; for(i=0;i<n;i+=k){ if(p[i]==0x1b&&(k=seq(p+i,n-i))){ memcpy(v[nv].b,p+i,k); v[nv++].n=k; sym_cover("sequence"); } else { v[nv].b[0]=3; v[nv].b[1]=p[i]; v[nv++].n=2; k=1; if(p[i]==0x1b) sym_cover("unfinished"); } } }
/* a lead byte goes in front of the next item that is no sequence, the sequences between them behind it */
static void defrag(void){ int i,j,m; nw=0; for(i=0;i<nv;i=m){ m=i+1; w[nw++]=v[i]; if(v[i].n<2||v[i].b[0]!=3||v[i].b[1]<=0x7f) continue;
	for(j=i+1;j<nv&&v[j].b[0]==0x1b;j++); m=j; if(j<nv){ w[nw++]=v[j]; m++; if(j>i+1) sym_cover("moved"); } for(j=i+1;j<nv&&v[j].b[0]==0x1b;j++) w[nw++]=v[j]; } }
static int units(const char*u,u8*t,int n){ int i,k,m=0,c=1; const char*p; for(p=u;*p;p++) if(*p==',') c++; for(i=0;i<n;i++){ k=sym_range(0,c-1); for(p=u;k;p++) if(*p==',') k--; for(;*p&&*p!=',';p+=2){ char h[3]={p[0],p[1],0}; t[m++]=strtol(h,0,16); } } return m; }
void sym_main(void){
	const char*fn=sym_param("fn"),*u=sym_param("units"); u8 in[128]; char conv[96]; int n=pint("n",3),fill=pint("fill",0),flush=pint("flush",0),i,j,c; struct bsdconv_instance*ins; long l0=sym_live(); unsigned long e; static u8 ex[600],o[600]; int m=0;
	if(*fn=='i'){ /* arbitrary items through BIG5-DEFRAG */
		item_t x[6]; for(nv=0;nv<n;nv++){ x[nv].n=1+sym_range(0,pint("max",2)-1); sym_bytes(x[nv].b,x[nv].n,"item"); v[nv].n=x[nv].n; memcpy(v[nv].b,x[nv].b,x[nv].n); }
		defrag(); for(i=0;i<nw;i++){ ex[m++]=w[i].n; memcpy(ex+m,w[i].b,w[i].n); m+=w[i].n; } ins=mk("pass:big5-defrag:pass"); bsdconv_init(ins); feed_items(ins,x,n);
	} else {
		if(u) n=units(u,in,n); else { memset(in+1,'1',fill); if(fill){ in[0]=0x1b; in[1]='['; } sym_bytes(in+fill,n,"in"); n+=fill; }
		snprintf(conv,sizeof conv,"ansi-control,byte%s:%s",strchr("dt",*fn)?":big5-defrag":"",strchr("rt",*fn)?"byte,ansi-control":"pass");
		c=sym_range(0,n);
		for(i=0;i<2;i++){ if(flush) cutseq(i?in+c:in,i?n-c:c); else cutseq(in,i?n:0); if(strchr("dt",*fn)) defrag(); else { memcpy(w,v,sizeof w); nw=nv; }
			for(j=0;j<nw;j++){ int h=strchr("rt",*fn)&&w[j].b[0]==3; if(!strchr("rt",*fn)) ex[m++]=w[j].n; memcpy(ex+m,w[j].b+h,w[j].n-h); m+=w[j].n-h; } }
		ins=mk(conv); bsdconv_init(ins); ins->output_mode=BSDCONV_HOLD; feed(ins,in,c,flush); bsdconv(ins); ins->output_mode=BSDCONV_HOLD; feed(ins,in+c,n-c,1); bsdconv(ins);
	}
	{ struct data_rt*d; for(n=0,d=ins->phase[ins->phasen].data_head->next;d;d=d->next){ if(!strchr("rt",*fn)) o[n++]=d->len; for(j=0;j<(int)d->len;j++) o[n++]=((u8*)d->data)[j]; } }
	e=*bsdconv_counter(ins,"IERR")+*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins); sym_observe("out",o,n);
	sym_assert(e==0,"no errors"); sym_assert(n==m,"length of the result"); sym_assert(sym_memeq(o,ex,m),strchr("ar",*fn)?"sequences are cut out whole, the rest byte by byte":"sequences inside a character go behind it");
	sym_assert(sym_live()==l0,"all memory released");
}
