/* Modules that keep files named by the environment: BSDCONV-LOG (input and output), SCORE-TRAIN and SCORE#WITH=TRAINED, over stand-in files. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include "conv.h"
typedef unsigned char u8;
typedef struct { char path[400]; u8 d[400]; int n; int cell; unsigned long at[8]; u8 val[8]; int nc; unsigned long len; int there; } file_t;
typedef struct { int open,f; char m; unsigned long pos; } st_t;
static file_t fl[3]; static st_t st[8]; static int budget; static const char*env[3]; static char home[400];
extern FILE*fopen64(const char*,const char*);
static int con; /* the standard streams are watched */
int sym_stream(FILE*f){ return (con&&(f==stdout||f==stderr))||(char*)f>=(char*)st&&(char*)f<(char*)(st+8); }
static st_t*S(FILE*f){ st_t*s=con&&f==stdout?&st[6]:con&&f==stderr?&st[7]:(st_t*)f; sym_assert(sym_stream(f)&&s->open,"a stream that is open"); return s; }
char*getenv(const char*n){ static const char*N[]={"BSDCONV_FROM_LOG","BSDCONV_TO_LOG","BSDCONV_SCORE"}; int i; for(i=0;i<3;i++) if(!strcmp(n,N[i])) return (char*)env[i]; if(!strcmp(n,"HOME")) return home[0]?home:NULL; return secure_getenv(n); }
static int fault(void){ if(budget<=0||!sym_range(0,1)) return 0; budget--; sym_cover("fault"); return 1; }
static FILE*newst(int f,char m){ int i; for(i=0;st[i].open;i++) sym_assert(i<7,"streams are closed"); st[i].open=1; st[i].f=f; st[i].m=m; st[i].pos=0; return (FILE*)&st[i]; }
FILE*fopen(const char*p,const char*m){ int i; if(strstr(p,"share/bsdconv")) return fopen64(p,m);
	for(i=0;i<3;i++) if(!strcmp(p,fl[i].path)) break;
	sym_assert(i<3,"the file that is named"); if(fault()){ errno=EACCES; return NULL; }
	sym_assert(m[0]=='a'||m[0]=='r',"the file is kept"); if(!fl[i].there){ if(m[0]=='r'){ errno=ENOENT; return NULL; } fl[i].there=1; }
	return newst(i,strchr(m,'+')?'+':m[0]); }
int fclose(FILE*f){ if(!sym_stream(f)&&f!=NULL) return 0; S(f)->open=0; return 0; }
int fseek(FILE*f,long o,int w){  st_t*s=S(f); sym_assert(w==SEEK_SET,"absolute position"); s->pos=o; return 0; }
static void emit(st_t*s,const u8*p,int n){ file_t*q=&fl[s->f]; int i; sym_assert(s->m!='r',"a file open for writing");
	if(q->cell){ sym_assert(n==1,"one score"); for(i=0;i<q->nc&&q->at[i]!=s->pos;i++); if(i==q->nc){ sym_assert(i<8,"number of scores"); q->at[q->nc++]=s->pos; } q->val[i]=*p; s->pos++; if(s->pos>q->len) q->len=s->pos; return; }
	sym_assert(q->n+n<=(int)sizeof q->d,"size of the file"); memcpy(q->d+q->n,p,n); q->n+=n; }
size_t fread(void*p,size_t a,size_t b,FILE*f){ st_t*s=S(f); file_t*q=&fl[s->f]; int i; sym_assert(q->cell&&a*b==1,"one score"); sym_assert(s->m!='a',"a file open for reading"); if(s->pos>=q->len) return 0; for(i=0;i<q->nc&&q->at[i]!=s->pos;i++); *(u8*)p=i<q->nc?q->val[i]:0; s->pos++; return b; }
size_t fwrite(const void*p,size_t a,size_t b,FILE*f){ emit(S(f),p,a*b); return b; }
int fputc(int c,FILE*f){ u8 b=c; emit(S(f),&b,1); return c; }
int fputs(const char*t,FILE*f){ emit(S(f),(const u8*)t,strlen(t)); return 1; }
void sym_print(FILE*f,const char*b,int n){ if(sym_stream(f)) emit(S(f),(const u8*)b,n); }
static int hexline(char*o,const u8*p,int n){ int i; for(i=0;i<n;i++){ o[2*i]="0123456789ABCDEF"[p[i]>>4]; o[2*i+1]="0123456789ABCDEF"[p[i]&15]; } return 2*n; }
static unsigned long score(file_t*f,unsigned long c){ int i; for(i=0;i<f->nc;i++) if(f->at[i]==c) return c<f->len?f->val[i]:0; return 0; }
/* what the text is made of */
static unsigned long ch[8]; static int isu[8],nch;
static void split(const u8*t,int n){ int i; nch=0; for(i=0;i<n;){ int c=t[i],l=c<0x80?1:c<0xe0?2:c<0xf0?3:4,j; isu[nch]=c!=0xff&&c!=0; /* NUL is no UTF-8 here, BYTE takes it */ if(c==0xff){ nch++; i++; continue; } unsigned long v=c<0x80?c:c<0xe0?c&31:c<0xf0?c&15:c&7; for(j=1;j<l;j++) v=v<<6|(t[i+j]&63); ch[nch++]=v; i+=l; } }
void sym_main(void){
	const char*f=sym_param("fn"),*al=sym_param("alpha"); int n=pint("n",3),i,j,e,named,hl,cuts,lim; u8 t[40],ex[400]; int m=0; struct bsdconv_instance*ins; buf_t b; int x=!strcmp(f,"from")?0:!strcmp(f,"to")?1:2;
	memset(fl,0,sizeof fl); memset(st,0,sizeof st); env[0]=env[1]=env[2]=NULL; home[0]=0; budget=0;
	/* the environment */
	named=pint("env",0)?sym_range(0,x==2?3:1):1; strcpy(fl[0].path,"/v/file"); fl[0].there=pint("env",0)?sym_range(0,1):1; fl[0].cell=x==2; strcpy(fl[1].path,"/v/list"); strcpy(fl[2].path,"/v/own"); fl[2].cell=1; fl[2].there=1;
	if(named==1){ env[x]=fl[0].path; if(sym_range(0,1)) strcpy(home,"/h"); }
	else if(named>=2){ hl=named==3?300:2; memset(home,'h',hl); home[0]='/'; home[hl]=0; strcpy(fl[0].path,home); strcat(fl[0].path,"/.bsdconv.score"); }
	budget=pint("faults",0);
	if(!strcmp(f,"output")){ /* BSDCONV-OUTPUT: a line for every item on the stream that is named */
		int err=sym_range(0,2),k=pint("k",2),o; u8 it[4][8]; int l[4]; st[6].open=st[7].open=1; st[6].m=st[7].m='a'; st[6].f=0; st[7].f=1; fl[0].cell=0;
		ins=mk(err==2?"pass:bsdconv-output#stderr":err?"pass:bsdconv-stdout":"pass:bsdconv-output"); bsdconv_init(ins);
		for(i=0;i<k;i++){ l[i]=1+sym_range(0,pint("max",3)-1); sym_bytes(it[i],l[i],"item"); m+=hexline((char*)ex+m,it[i],l[i]); ex[m++]='\n'; }
		for(i=0;i<k;i++){ feed(ins,it[i],l[i],i==k-1); ins->output_mode=BSDCONV_AUTOMALLOC; ins->output.len=0; ins->output.data=NULL; con=1; bsdconv(ins); con=0; sym_assert(ins->output.len==0,"no output"); free(ins->output.data); }
		e=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins); sym_assert(e==0,"no errors"); o=err==2; sym_assert(fl[!o].n==0,"nothing on the other stream"); sym_observe("printed",fl[o].d,fl[o].n); sym_cover("log");
		for(i=j=0;i<fl[o].n;){ if(fl[o].d[i]==' '&&i+1<fl[o].n&&fl[o].d[i+1]=='('){ while(i<fl[o].n&&fl[o].d[i]!='\n') i++; continue; } sym_assert(j<m,"nothing else is printed"); sym_assert(fl[o].d[i]==ex[j],"the items are printed"); i++; j++; }
		sym_assert(j==m,"every item is printed"); return; }
	if(x<2){
		fl[0].there=1; memcpy(fl[0].d,"old\n",4); fl[0].n=4; memcpy(ex,"old\n",4); m=4;
		ins=bsdconv_create(x?"utf-8,byte:bsdconv-log":"bsdconv-log:utf-8");
		sym_assert(ins==NULL||named,"no file is named"); if(!ins){ sym_assert(!named||budget<pint("faults",0),"refused without a reason"); for(i=0;i<8;i++) sym_assert(!st[i].open,"files are closed"); sym_cover("refused"); return; }
		if(!x){ sym_bytes(t,n,"text"); for(i=0;i<n;i++){ m+=hexline((char*)ex+m,t+i,1); ex[m++]='\n'; } }
		else { n=0; for(i=0;i<pint("n",3);i++){ static const char*U[]={"a","\xc3\xa9","\xe4\xb8\x80","\xf0\x9f\x98\x80","\xff","\n"}; static const u8 it[][5]={{1,0x61},{1,0xe9},{1,0x4e,0},{1,1,0xf6,0},{3,0xff},{1,0x0a}}; static const int il[]={2,2,3,4,2,2}; static const int ul[]={1,2,3,4,1,1}; int k=sym_range(0,5); memcpy(t+n,U[k],ul[k]); n+=ul[k]; m+=hexline((char*)ex+m,it[k],il[k]); ex[m++]='\n'; } }
		bsdconv_init(ins); j=sym_range(0,n); feed(ins,t,j,0); b=run(ins); sym_assert(b.n==0,"no output"); free(b.d); feed(ins,t+j,n-j,1); b=run(ins); sym_assert(b.n==0,"no output"); free(b.d);
		sym_assert(*bsdconv_counter(ins,"IERR")==0&&*bsdconv_counter(ins,"OERR")==0,"no errors");
		bsdconv_destroy(ins); for(i=0;i<8;i++) sym_assert(!st[i].open,"files are closed");
		sym_observe("log",fl[0].d,fl[0].n); sym_observe("expected",ex,m); sym_cover("log");
		/* remarks in parentheses may follow an item */
		for(i=j=0;i<fl[0].n;){ if(fl[0].d[i]==' '&&i+1<fl[0].n&&fl[0].d[i+1]=='('){ while(i<fl[0].n&&fl[0].d[i]!='\n') i++; continue; } sym_assert(j<m,"nothing else in the log"); sym_assert(fl[0].d[i]==ex[j],"the log"); i++; j++; }
		sym_assert(j==m,"everything in the log"); return; }
	/* scores */
	{ int train=!strcmp(f,"train"),own=pint("own",0)?sym_range(0,1):0,list=train&&pint("own",0)?sym_range(0,1):0; file_t*q=&fl[own?2:0]; unsigned long sum=0; static const char*U[]={"a","b","\xc3\xa9","\xe4\xb8\x80","\xf0\x9f\x98\x80","\xff"}; static const int ul[]={1,1,2,3,4,1}; static const unsigned long UV[]={0x61,0x62,0xe9,0x4e00,0x1f600}; file_t r; char w[60];
	/* what was there before */
	lim=pint("old",3); for(i=0;i<pint("olds",2);i++){ fl[0].at[i]=fl[2].at[i]=UV[i]; { u8 v; if(lim>9) sym_bytes(&v,1,"old"); else v=sym_range(0,lim); fl[0].val[i]=fl[2].val[i]=v; } fl[0].nc=fl[2].nc=i+1; fl[0].len=fl[2].len=UV[i]+1; } if(!fl[0].there){ fl[0].nc=0; fl[0].len=0; }
	sprintf(w,"utf-8,byte:%s:utf-8,byte",train?"score-train":pint("as",0)?"score#with=trained&as=mine":"score#with=trained");
	ins=bsdconv_create(w);
	if(!ins){ sym_assert(train&&(!named||budget<pint("faults",0)),"refused without a reason"); for(i=0;i<8;i++) sym_assert(!st[i].open,"files are closed"); sym_cover("refused"); return; }
	sym_assert(!train||named,"no file is named");
	if(own) bsdconv_ctl(ins,BSDCONV_CTL_ATTACH_SCORE,newst(2,'+'),0); if(list){ fl[1].there=1; bsdconv_ctl(ins,BSDCONV_CTL_ATTACH_OUTPUT_FILE,newst(1,'a'),0); }
	if(*al=='*'){ sym_bytes(t,n,"text"); for(i=0;i<n;i++) sym_assume(t[i]<0x80); }
	else { n=0; for(i=0;i<pint("n",3);i++){ int k=sym_range(0,5); memcpy(t+n,U[k],ul[k]); n+=ul[k]; } }
	split(t,n); r=*q; if(!train&&!own&&(!fl[0].there||!named||budget<pint("faults",0))) r.nc=r.len=0;
	for(i=0;i<nch;i++) if(isu[i]){ unsigned long v=score(&r,ch[i]); sum+=v; if(train){ if(!v&&list){ ex[m++]=ch[i]>>24; ex[m++]=ch[i]>>16; ex[m++]=ch[i]>>8; ex[m++]=ch[i]; } if(v<3){ for(j=0;j<r.nc&&r.at[j]!=ch[i];j++); if(j==r.nc){ r.at[r.nc++]=ch[i]; } r.val[j]=v+1; if(ch[i]>=r.len) r.len=ch[i]+1; } } }
	bsdconv_init(ins); j=pint("cut",0)?sym_range(0,n):n; feed(ins,t,j,0); b=run(ins); e=b.n; sym_assert(e<=n&&sym_memeq(b.d,t,e),"the text is not changed"); free(b.d); feed(ins,t+j,n-j,1); b=run(ins); sym_assert(b.n==n-e&&sym_memeq(b.d,t+e,b.n),"the text is not changed"); free(b.d);
	sym_observe("text",t,n); if(train) sym_cover("trained"); else { unsigned long c=*bsdconv_counter(ins,pint("as",0)?"MINE":"SCORE"); sym_observe("score",&c,sizeof c); sym_assert(c==sum,"the score is the sum of the scores of the characters"); if(sum) sym_cover("scored"); }
	if(train){ for(i=0;i<r.nc;i++){ u8 o[3]={r.at[i],r.val[i],score(q,r.at[i])}; sym_observe("exp",o,3); } for(i=0;i<r.nc;i++) sym_assert(score(q,r.at[i])==r.val[i],"every character is counted up to three"); sym_assert(q->nc==r.nc,"nothing else is counted"); if(list){ sym_observe("list",fl[1].d,fl[1].n); sym_assert(fl[1].n==m,"new characters are listed"); sym_assert(sym_memeq(fl[1].d,ex,m),"the new characters"); } }
	bsdconv_destroy(ins); for(i=0;i<8;i++) sym_assert(!st[i].open||(own&&st[i].f==2)||(list&&st[i].f==1),"files are closed"); for(j=i=0;i<8;i++) j+=st[i].open; sym_assert(j==own+list,"the caller's files stay open"); }
}
