/* REPLACE, INSERT, STRINGS, COUNT, PASS, NULL: lists of items through the named modules compared with what their arguments say */
#include "conv.h"
#include "items.h"
#include <ctype.h>
typedef struct { item_t v[48]; int n; } seq_t;
static void add(seq_t*s,item_t t){ sym_assert(s->n<48,"room in the reference"); s->v[s->n++]=t; }
static int eq(const item_t*a,const item_t*b){ return a->n==b->n&&sym_memeq(a->b,b->b,a->n); }
static seq_t hexlist(const char*s,const char*e){ seq_t r; item_t t; int k=0,v; r.n=0; memset(&t,0,sizeof t); if(!s||s==e) return r; for(;s<=e;s++){ if(s==e||*s=='.'||*s==','){ if(s==e&&!t.n) break; add(&r,t); memset(&t,0,sizeof t); k=0; continue; } v=*s<='9'?*s-'0':(*s|32)-'a'+10; t.b[t.n]=t.b[t.n]<<4|v; if(++k==2){ k=0; t.n++; } } return r; }
static int filt(const char*f,const item_t*t){ unsigned v=0; int i; for(i=1;i<t->n;i++) v=v<<8|t->b[i];
	if(!strcmp(f,"unicode")||!strcmp(f,"1")) return t->b[0]==1; if(!strcmp(f,"byte")||!strcmp(f,"3")) return t->b[0]==3; if(!strcmp(f,"1b")) return t->b[0]==0x1b;
	if(t->b[0]!=1) return 0;
	if(!strcmp(f,"print")) return v>=0x20&&v<=0x7e; if(!strcmp(f,"thai")) return v>=0xe00&&v<=0xe7f;
	sym_assert(0,"unknown filter in the reference"); return 0; }
typedef struct { const char*k,*ke,*v,*ve; } arg_t;
static int is(const arg_t*a,const char*s){ return strlen(s)==(size_t)(a->ke-a->k)&&!strncasecmp(a->k,s,a->ke-a->k); }
static char fbuf[8][32]; static int nf;
static const char*str(const char*s,const char*e){ char*p=fbuf[nf++]; memcpy(p,s,e-s); p[e-s]=0; return p; }
static struct { char name[16]; unsigned long n; } cnt[4]; static int ncnt;
static unsigned long*counter(const char*s,const char*e){ int i; for(i=0;i<ncnt;i++) if(strlen(cnt[i].name)==(size_t)(e-s)&&!strncasecmp(cnt[i].name,s,e-s)) return &cnt[i].n; memcpy(cnt[ncnt].name,s,e-s); cnt[ncnt].name[e-s]=0; return &cnt[ncnt++].n; }
static seq_t apply(const char*m,const char*e,seq_t x){
	arg_t a[6]; int na=0,i,j; const char*p=m,*up=NULL,*q; seq_t r; r.n=0;
	for(q=m;q<e;q++) if(*q=='~'){ up=q; break; }   /* "~": the module falls back to UPPER */
	if(up) e=up;
	while(p<e&&*p!='#') p++; q=p;
	while(q<e){ arg_t*t=&a[na++]; t->k=++q; while(q<e&&*q!='='&&*q!='&') q++; t->ke=q; t->v=t->ve=NULL; if(q<e&&*q=='='){ t->v=++q; while(q<e&&*q!='&') q++; t->ve=q; } }
#define M(s) (strlen(s)==(size_t)(p-m)&&!strncmp(m,s,p-m))
	if(M("null")) return r;
	if(M("replace")){ seq_t f=hexlist(a[na-1].k,a[na-1].ke),t=hexlist(a[na-1].v,a[na-1].ve);
		for(i=0;i<x.n;){ for(j=0;j<f.n&&i+j<x.n&&eq(&x.v[i+j],&f.v[j]);j++); if(j<f.n){ if(j) sym_cover("begun"); add(&r,x.v[i++]); continue; } for(j=0;j<t.n;j++) add(&r,t.v[j]); i+=f.n; sym_cover("replaced"); } return r; }
	if(M("insert")){ seq_t b,c; b.n=c.n=0; for(i=0;i<na;i++) if(is(&a[i],"before")) b=hexlist(a[i].v,a[i].ve); else c=hexlist(a[i].v,a[i].ve);
		for(i=0;i<x.n;i++){ for(j=0;j<b.n;j++) add(&r,b.v[j]); add(&r,x.v[i]); for(j=0;j<c.n;j++) add(&r,c.v[j]); } return r; }
	if(M("strings")){ seq_t b,c=hexlist("010A",(const char*)"010A"+4); const char*f="print"; int min=1,k; const char dflt[]="010A"; c=hexlist(dflt,dflt+4); b.n=0; for(i=0;i<na;i++) if(is(&a[i],"before")) b=hexlist(a[i].v,a[i].ve); else if(is(&a[i],"after")) c=hexlist(a[i].v,a[i].ve); else if(is(&a[i],"for")) f=str(a[i].v,a[i].ve); else min=atoi(str(a[i].v,a[i].ve));
		for(i=0;i<x.n;i=k+1){ for(k=i;k<x.n&&filt(f,&x.v[k]);k++); if(k==i) continue; if(k-i<min){ sym_cover("short"); continue; } sym_cover("run"); for(j=0;j<b.n;j++) add(&r,b.v[j]); for(j=i;j<k;j++) add(&r,x.v[j]); for(j=0;j<c.n;j++) add(&r,c.v[j]); } return r; }
	if(M("count")){ const char*f=NULL; const char dn[]="COUNT"; unsigned long*n=NULL; for(i=0;i<na;i++) if(is(&a[i],"for")) f=str(a[i].v,a[i].ve); else n=counter(a[i].k,a[i].ke); if(!n) n=counter(dn,dn+5); for(i=0;i<x.n;i++) if(!f||filt(f,&x.v[i])){ ++*n; sym_cover("counted"); } return x; }
	if(M("pass")){ const char*f=NULL; int lim=0,done=0; for(i=0;i<na;i++) if(is(&a[i],"for")) f=str(a[i].v,a[i].ve); else lim=atoi(str(a[i].v,a[i].ve));
		for(i=0;i<x.n;i++){ int ok=!f||filt(f,&x.v[i]); if(ok&&lim){ if(done<lim) done++; else ok=0; } if(ok) sym_cover("passed"); else if(up&&x.v[i].n==2&&x.v[i].b[0]==1&&x.v[i].b[1]>='a'&&x.v[i].b[1]<='z'){ x.v[i].b[1]-=32; sym_cover("fallback"); } } return x; }
	sym_assert(0,"unknown module in the reference"); return x;
}
void sym_main(void){
	const char*pat=sym_param("pat"),*mods=sym_param("mods"),*alpha=sym_param("alpha"),*p,*q; int k=strlen(pat),i,m=0,oc,rounds=pint("rounds",1),r,nl=0; seq_t al,x; char conv[256]; u8 ex[400],ob[400]; long l0=sym_live(); struct bsdconv_instance*ins; item_t it[8]; const char*ty=sym_param("types"); ncnt=0; memset(cnt,0,sizeof cnt);
	if(alpha) al=hexlist(alpha,alpha+strlen(alpha));
	for(p=mods,i=sprintf(conv,"pass:");*p;p++){ if(*p=='~'){ memcpy(conv+i,",upper",6); i+=6; } else conv[i++]=*p; } strcpy(conv+i,":pass");
	ins=mk(conv);
	for(r=0;r<rounds;r++){
		nf=0; x.n=0; m=0;
		for(i=0;i<k;i++){
			if(pat[i]=='u') it[i]=uitem(scalar_in(0x10ffff));
			else if(pat[i]=='a') it[i]=al.v[sym_range(0,al.n-1)];
			else if(pat[i]=='b'){ memset(&it[i],0,sizeof it[i]); it[i].n=2; it[i].b[0]=1; sym_bytes(it[i].b+1,1,"char"); sym_assume(it[i].b[1]<0x80); }
			else { memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(1,3); sym_bytes(it[i].b,it[i].n,"item"); if(ty) sym_assume(it[i].b[0]!=1); }
			add(&x,it[i]);
		}
		bsdconv_init(ins); feed_items(ins,it,k); oc=collect(ins,ob,sizeof ob); sym_observe("items",ob,oc);
		for(p=mods;*p;p=*q?q+1:q){ for(q=p;*q&&*q!=':';q++); x=apply(p,q,x); }
		for(i=0;i<x.n;i++) m=put_item(ex,m,x.v[i].b,x.v[i].n);
		sym_assert(oc==m,"number and size of the items"); sym_assert(sym_memeq(ob,ex,m),"resulting items and their order");
	}
	for(i=0;i<ncnt;i++){ unsigned long n=*bsdconv_counter(ins,cnt[i].name); sym_observe(cnt[i].name,&n,8); sym_assert(n==cnt[i].n,"counter"); }
	sym_assert(*bsdconv_counter(ins,"IERR")==0,"no input errors"); sym_assert(*bsdconv_counter(ins,"OERR")==0,"no output errors");
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
