/* conversion strings: structure, bsdconv_pack, and the four editing functions, against a list of phases */
#include "conv.h"
typedef unsigned char u8;
extern struct bsdconv_instance *bsdconv_unpack(const char *);
#define MP 6
#define MC 5
typedef struct { int type,n; char t[MC][12]; } ph_t;
static ph_t P[MP+1]; static int NP;
/* text of the phase list: a FROM phase starts a conversion, an intermediate phase outside of one stands alone */
static int text(char*o){ int i,j,k=0,in=0; for(i=0;i<NP;i++){ if(i) o[k++]=(P[i].type==FROM||(P[i].type==INTER&&!in))?'|':':'; if(P[i].type==FROM) in=1; if(P[i].type==TO) in=0; for(j=0;j<P[i].n;j++){ if(j) o[k++]=','; memcpy(o+k,P[i].t[j],strlen(P[i].t[j])); k+=strlen(P[i].t[j]); } } o[k]=0; return k; }
static int sep(int c){ return c==0||c==':'||c=='|'||c==','; }
static void same(const char*got,const char*want,int n,const char*m){ sym_assert(got!=NULL&&(int)strlen(got)==n&&sym_memeq(got,want,n+1),m); }
static void drop(struct bsdconv_instance*ins){ int i,j; for(i=1;i<=ins->phasen;i++){ for(j=0;j<=ins->phase[i].codecn;j++) free(ins->phase[i].codec[j].desc); free(ins->phase[i].codec); } free(ins->phase); free(ins); }
static void edit(void){
	const char*shape=sym_param("shape"),*neu=sym_param("neu"); int i,j,k,arg,n=0,start=0,op,ph,co,type,L; char s[128],w[160],*r; u8 b[2*MP*MC]; struct bsdconv_instance*ins; long l0;
	for(i=0;shape[i];i++) if(shape[i]!='0') n+=shape[i]-'0';
	arg=sym_range(-1,n-1); sym_bytes(b,n+1,"names"); for(i=0;i<=n;i++) sym_assume(!sep(b[i])&&b[i]!='#');
	for(i=k=NP=0;;i++){
		if(!shape[i]||shape[i]=='0'){ for(j=start;j<NP;j++) P[j].type=NP-start==1?INTER:j==start?FROM:j==NP-1?TO:INTER; start=NP; if(!shape[i]) break; continue; }
		P[NP].n=shape[i]-'0'; for(j=0;j<P[NP].n;j++,k++){ char*t=P[NP].t[j]; int x=0; t[x++]=b[k]; if(k==arg){ t[x++]='#'; t[x++]=b[n]; t[x++]='&'; t[x++]='z'; } t[x]=0; } NP++;
	}
	text(s); l0=sym_live();
	op=sym_range(pint("op0",0),pint("op1",4));
	if(op==4){ ins=bsdconv_unpack(s); sym_assert(ins!=NULL,"conversion is well-formed"); r=bsdconv_pack(ins); same(r,s,strlen(s),"packed conversion equals the original"); free(r); drop(ins); sym_assert(sym_live()==l0,"all memory released"); return; }
	ph=sym_range(-2*NP-1,NP+2); co=op&1?sym_range(-5,5):0; type=op&1?0:sym_range(0,2); type=type==0?FROM:type==1?INTER:TO;
	r=op==0?bsdconv_insert_phase(s,neu,type,ph):op==1?bsdconv_insert_codec(s,neu,ph,co):op==2?bsdconv_replace_phase(s,neu,type,ph):bsdconv_replace_codec(s,neu,ph,co);
	if(ph< -NP){ free(r); sym_assert(sym_live()==l0,"all memory released"); return; } /* not a position: only has to be harmless */
	if(ph<0) ph+=NP;
	if(op==0){ if(ph>NP) ph=NP; for(i=NP;i>ph;i--) P[i]=P[i-1]; NP++; P[ph].type=type; P[ph].n=1; memcpy(P[ph].t[0],neu,strlen(neu)+1); }
	else if(ph>=NP){ sym_assert(r==NULL,"no such phase"); sym_assert(sym_live()==l0,"all memory released"); return; }
	else if(op==2){ P[ph].type=type; P[ph].n=1; memcpy(P[ph].t[0],neu,strlen(neu)+1); }
	else {
		if(co< -P[ph].n){ free(r); sym_assert(sym_live()==l0,"all memory released"); return; }
		if(co<0) co+=P[ph].n;
		if(op==1){ if(co>P[ph].n) co=P[ph].n; for(i=P[ph].n;i>co;i--) memcpy(P[ph].t[i],P[ph].t[i-1],12); P[ph].n++; }
		else if(co>=P[ph].n){ sym_assert(r==NULL,"no such codec"); sym_assert(sym_live()==l0,"all memory released"); return; }
		memcpy(P[ph].t[co],neu,strlen(neu)+1);
	}
	L=text(w); same(r,w,L,"edited conversion"); free(r); sym_assert(sym_live()==l0,"all memory released");
}
/* arbitrary strings */
static void syntax(void){
	int n=pint("n",5),i,j,k=0,bad=0,ph=1,co=0,ty[16],cn[16],hash=0,start=1; char s[32],w[32],*r; struct bsdconv_instance*ins; long l0;
	sym_bytes(s,n,"text"); for(i=0;i<n;i++) sym_assume(s[i]!=0); s[n]=0;
	for(i=0;i<=n;i++){
		int b=i==0?1:sep(s[i-1]);
		if(b) hash=0;
		if(b&&(sep(s[i])||s[i]=='#')) bad=1;
		if(s[i]=='#'&&!hash){ hash=1; if(sep(s[i+1])) continue; } /* an empty argument list is dropped */
		if(i<n) w[k++]=s[i];
		if(s[i]==','){ co++; continue; }
		if(i==n||s[i]==':'||s[i]=='|'){ cn[ph]=co; co=0; if(i==n||s[i]=='|'){ for(j=start;j<=ph;j++) ty[j]=start==ph?INTER:j==start?FROM:j==ph?TO:INTER; start=ph+1; } ph++; }
	}
	w[k]=0; l0=sym_live(); ins=bsdconv_unpack(s);
	sym_assert((ins==NULL)==bad,"conversion rejected exactly when a codec is empty");
	if(!ins){ sym_cover("rejected"); sym_assert(sym_live()==l0,"everything of a rejected conversion is released"); return; }
	sym_cover("accepted");
	sym_assert(ins->phasen==ph-1,"number of phases"); for(i=1;i<ph;i++) sym_assert(ins->phase[i].type==ty[i]&&ins->phase[i].codecn==cn[i],"phase type and number of codecs");
	r=bsdconv_pack(ins); same(r,w,k,"packed conversion equals the original"); free(r); drop(ins); sym_assert(sym_live()==l0,"all memory released");
}
/* pack of a created instance is an equivalent conversion */
static void equiv(void){
	const char*c=sym_param("conv"),*want=sym_param("want"); int n=pint("n",2); u8 t[8]; struct bsdconv_instance*a,*b; char*p,*q; buf_t x,y; long l0=sym_live();
	a=mk(c); p=bsdconv_pack(a); if(want&&*want) same(p,want,strlen(want),"packed conversion names the modules in use"); b=mk(p); q=bsdconv_pack(b); same(q,p,strlen(p),"packing again");
	sym_bytes(t,n,"in"); bsdconv_init(a); bsdconv_init(b); feed(a,t,n,1); feed(b,t,n,1); x=run(a); y=run(b);
	sym_assert(x.n==y.n&&sym_memeq(x.d,y.d,x.n),"packed conversion converts alike"); sym_assert(*bsdconv_counter(a,"IERR")==*bsdconv_counter(b,"IERR")&&*bsdconv_counter(a,"OERR")==*bsdconv_counter(b,"OERR"),"packed conversion counts alike");
	free(x.d); free(y.d); free(p); free(q); bsdconv_destroy(a); bsdconv_destroy(b); sym_assert(sym_live()==l0,"all memory released");
}
/* conversions with many phases, many codecs, long names and long arguments */
static char big[3][60000];
static int codec(char*o,int k,int nl,int at,u8 b,int al){ int i,n=0; for(i=0;i<nl;i++) o[n++]='a'+k%26; if(k==at){ o[n++]=b; o[n++]='#'; for(i=0;i<al;i++) o[n++]='z'; o[n++]=b; } return n; }
static void large(void){
	int np=pint("phases",3),nc=pint("codecs",1),nl=pint("len",1),al=pint("arg",1),op=sym_range(0,4),ph,co,at,i,j,n=0,m=0; u8 b; char*s=big[0],*w=big[1],*r; struct bsdconv_instance*ins; long l0=sym_live();
	at=sym_range(0,2); at=at==0?0:at==1?np*nc/2:np*nc-1; sym_bytes(&b,1,"name"); sym_assume(!sep(b)&&b!='#');
	ph=sym_range(0,2); ph=ph==0?1:ph==1?np/2:np-2; co=sym_range(0,2); co=co==0?0:co==1?nc/2:nc-1;
	for(i=0;i<np;i++){
		if(i){ s[n++]=':'; w[m++]=':'; } if(op==0&&i==ph){ memcpy(w+m,"new:",4); m+=4; }
		if(op==2&&i==ph){ memcpy(w+m,"new",3); m+=3; }
		for(j=0;j<nc;j++){ int q; if(j) s[n++]=','; q=n; n+=codec(s+n,i*nc+j,nl,at,b,al); if(op==2&&i==ph) continue; if(j) w[m++]=','; if(op==1&&i==ph&&j==co){ memcpy(w+m,"new,",4); m+=4; } if(op==3&&i==ph&&j==co){ memcpy(w+m,"new",3); m+=3; } else { memcpy(w+m,s+q,n-q); m+=n-q; } }
	}
	s[n]=w[m]=0; sym_assert(n<60000&&m<60000,"size of the text");
	if(op==4){ ins=bsdconv_unpack(s); sym_assert(ins!=NULL,"conversion is well-formed"); sym_assert(ins->phasen==np,"number of phases"); for(i=1;i<=np;i++) sym_assert(ins->phase[i].codecn==nc-1&&ins->phase[i].type==(i==1?FROM:i==np?TO:INTER),"phase type and number of codecs"); r=bsdconv_pack(ins); drop(ins); }
	else r=op==0?bsdconv_insert_phase(s,"new",INTER,ph):op==1?bsdconv_insert_codec(s,"new",ph,co):op==2?bsdconv_replace_phase(s,"new",INTER,ph):bsdconv_replace_codec(s,"new",ph,co);
	same(r,w,m,"the conversion"); free(r); sym_assert(sym_live()==l0,"all memory released");
}
void sym_main(void){ int m=pint("mode",0); if(m==3) large(); else if(m==0) edit(); else if(m==1) syntax(); else equiv(); }
