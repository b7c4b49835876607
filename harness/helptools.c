/* bsdconv-man and bsdconv-completion: the tools' sources are compiled into the harness with their input and output renamed; pages, module lists and the working directory are stand-ins. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include "conv.h"
typedef unsigned char u8;
#define CAP 9400
static u8 out[CAP]; static int on,errn; static char cwd[200]; static const char*base; static int opened; static int code;
extern char*secure_getenv(const char*);
char*getenv(const char*n){ if(!strcmp(n,"BSDCONV_PATH")) return (char*)base; return secure_getenv(n); }
static struct { char*name; u8 d[CAP]; int n; } page[5]; static struct { int open,p,pos,eof; } pf[4];
static void norm(char*o,const char*p){ /* absolute, without . and .. */ char w[900]; char*q=w,*s; int d; if(*p!='/'){ strcpy(w,cwd); strcat(w,"/"); strcat(w,p); } else strcpy(w,p); o[0]=0; d=0;
	while(*q){ while(*q=='/') q++; if(!*q) break; s=q; while(*q&&*q!='/') q++; { int l=q-s; if(l==1&&s[0]=='.') continue; if(l==2&&s[0]=='.'&&s[1]=='.'){ while(d&&o[d]!='/') d--; o[d]=0; continue; } o[d++]='/'; memcpy(o+d,s,l); d+=l; o[d]=0; } } if(!d) strcpy(o,"/"); }
#define TOP "/w/m/share/bsdconv"
static int h_chdir(const char*p){ static const char*D[]={TOP,TOP"/from",TOP"/inter",TOP"/to",TOP"/filter","/w","/w/m"}; char w[900]; int i; norm(w,p); for(i=0;i<7;i++) if(!strcmp(w,D[i])){ strcpy(cwd,w); return 0; } errno=ENOENT; return -1; }
static int gone(void){ return base[0]!='/'&&strcmp(cwd,"/w"); } /* the library does not find its modules any more */
static FILE*h_fopen(const char*p,const char*m){ char w[900]; int i,k; sym_assert(m[0]=='r'&&!strchr(m,'+'),"pages are only read"); norm(w,p); if(strncmp(w,TOP"/",strlen(TOP)+1)){ errno=ENOENT; return NULL; }
	for(i=0;i<5;i++) if(!strcmp(w+strlen(TOP)+1,page[i].name)) break; if(i==5){ errno=ENOENT; return NULL; } for(k=0;pf[k].open;k++) sym_assert(k<3,"pages are closed"); pf[k].open=1; pf[k].p=i; pf[k].pos=pf[k].eof=0; opened++; return (FILE*)&pf[k]; }
#define F(f) int k=((char*)f-(char*)pf)/sizeof pf[0]; sym_assert(k>=0&&k<4&&pf[k].open,"a page that is open")
static int h_fclose(FILE*f){ F(f); pf[k].open=0; return 0; }
static int h_getc(FILE*f){ F(f); if(pf[k].pos>=page[pf[k].p].n){ pf[k].eof=1; return EOF; } return page[pf[k].p].d[pf[k].pos++]; }
static size_t h_fread(void*v,size_t a,size_t b,FILE*f){ F(f); size_t l=page[pf[k].p].n-pf[k].pos,n=a*b; if(!n) return 0; if(n>l){ n=l; pf[k].eof=1; } memcpy(v,page[pf[k].p].d+pf[k].pos,n); pf[k].pos+=n; return n/a; }
static char*h_fgets(char*b,int n,FILE*f){ int i=0,c; while(i<n-1){ c=h_getc(f); if(c==EOF) break; b[i++]=c; if(c=='\n') break; } b[i]=0; return i?b:NULL; }
static int h_feof(FILE*f){ F(f); return pf[k].eof; }
static int h_fseek(FILE*f,long o,int w){ F(f); sym_assert(w==SEEK_SET,"from the beginning"); pf[k].pos=o; pf[k].eof=0; return 0; }
static int isspc(int c){ return c==' '||(c>=9&&c<=13); }
static int h_scan(FILE*f,const char*fmt,char*o){ /* text, blanks and one %[n]s */ int n=0,w=0,c; F(f);
	for(;*fmt;fmt++){ if(isspc(*fmt)){ while((c=h_getc(f))!=EOF&&isspc(c)); if(c!=EOF) pf[k].pos--; continue; }
		if(*fmt=='%'){ for(fmt++;*fmt>='0'&&*fmt<='9';fmt++) w=w*10+*fmt-'0'; sym_assert(*fmt=='s',"format"); while((c=h_getc(f))!=EOF&&isspc(c)); if(c==EOF) return n?n:EOF; while(c!=EOF&&!isspc(c)&&(!w||w-->1||1)){ *o++=c; c=h_getc(f); } *o=0; if(c!=EOF) pf[k].pos--; n++; continue; }
		c=h_getc(f); if(c==EOF) return n?n:EOF; if(c!=*(u8*)fmt){ pf[k].pos--; return n; } }
	return n; }
static size_t put(FILE*f,const void*p,size_t n){ if(f==stderr){ errn+=n; return n; } sym_assert(f==stdout,"the output"); sym_assert(on+n<=CAP,"more than is there is printed"); memcpy(out+on,p,n); on+=n; return n; }
static char tb[600];
static int h_putc(int c,FILE*f){ u8 b=c; put(f,&b,1); return b; }
static char*h_strsep(char**p,const char*d){ char*s=*p,*q; if(!s) return NULL; for(q=s;*q&&!strchr(d,*q);q++); if(*q){ *q=0; *p=q+1; } else *p=NULL; return s; }
static void finish(void); static void h_exit(int c){ code=c; finish(); sym_done(); }
static int fn_man; static const char*AL[][3]={{"FROM","AL","X,Y"},{"INTER","IL","Z"},{"TO","TL","V"},{"FILTER","FL","W"}}; static const char*MOD[][2]={{"FROM","NP"},{"FROM","AB"},{"INTER","AB"},{"TO","R"},{"TO","AB"},{"FILTER","G"}}; static const char*TN[]={"FROM","INTER","TO","FILTER"}; static int T[]={FROM,INTER,TO,FILTER};
static char*h_alias(int t,const char*n){ int i,j; char c; sym_assert(!opened||1,""); if(gone()) return NULL; for(i=0;i<4;i++) if(T[i]==t){ const char*a=AL[i][1]; for(j=0;n[j];j++){ c=n[j]; if(c>='a'&&c<='z') c-=32; if(c!=a[j]) return NULL; } return a[j]?NULL:strdup(AL[i][2]); } return NULL; }
static int h_check(int t,const char*n){ int i,j; char c; if(gone()) return 0; for(i=0;i<6;i++){ const char*m=MOD[i][1]; int k; for(k=0;strcmp(TN[k],MOD[i][0]);k++); if(T[k]!=t) continue; for(j=0;n[j];j++){ c=n[j]; if(c>='a'&&c<='z') c-=32; if(c!=m[j]) break; } if(!n[j]&&!m[j]) return 1; } return 0; }
static const char*LI[]={"A","AB","B","ZB",0},*LF[]={"A","AC","B","BA",0},*LT[]={"AC","B","BAA","C",0}; static int asked;
static char**h_list(int t){ const char**s=t==INTER?LI:t==FROM?LF:LT; char**l; int n; sym_assert(t==INTER||t==FROM||t==TO,"a phase"); for(n=0;s[n];n++); l=malloc(sizeof(char*)*(n+1)); for(n=0;s[n];n++) l[n]=strdup(s[n]); l[n]=NULL; asked|=t==INTER?1:t==FROM?2:4; return l; }
#undef feof
#undef getc
#undef putchar
#undef putc
#define fopen(a,b) h_fopen(a,b)
#define fclose(a) h_fclose(a)
#define fread(a,b,c,d) h_fread(a,b,c,d)
#define fgets(a,b,c) h_fgets(a,b,c)
#define fgetc(a) h_getc(a)
#define getc(a) h_getc(a)
#define feof(a) h_feof(a)
#define ferror(a) 0
#define fseek(a,b,c) h_fseek(a,b,c)
#define rewind(a) h_fseek(a,0,SEEK_SET)
#define fscanf(a,b,c) h_scan(a,b,c)
#define fwrite(a,b,c,d) put(d,a,(b)*(c))
#define fputs(a,f) put(f,a,strlen(a))
#define puts(a) (put(stdout,a,strlen(a)),h_putc('\n',stdout))
#define putchar(a) h_putc(a,stdout)
#define fputc(a,f) h_putc(a,f)
#define putc(a,f) h_putc(a,f)
#define fprintf(f,...) put(f,tb,snprintf(tb,sizeof tb,__VA_ARGS__))
#define printf(...) put(stdout,tb,snprintf(tb,sizeof tb,__VA_ARGS__))
#define vfprintf(f,m,a) put(f,tb,vsnprintf(tb,sizeof tb,m,a))
#define vprintf(m,a) put(stdout,tb,vsnprintf(tb,sizeof tb,m,a))
#define setvbuf(f,b,m,n) 0
#define setbuf(f,b) ((void)0)
#define perror(a) put(stderr,a,strlen(a))
#define exit(c) h_exit(c)
#define chdir(a) h_chdir(a)
#define strsep(a,b) h_strsep(a,b)
#define bsdconv_solve_alias(a,b) h_alias(a,b)
#define bsdconv_module_check(a,b) h_check(a,b)
#define bsdconv_codec_check(a,b) h_check(a,b)
#define bsdconv_modules_list(a) h_list(a)
#define bsdconv_codecs_list(a) h_list(a)
#define main man_main
#include "bsdconv-man.c"
#undef main
#define main comp_main
#include "bsdconv-completion.c"
#undef main
#undef fprintf
#undef printf
/* what is expected */
static char ph[12],nm[12]; static int ok; static char typed[12]; static int tn;
static int pgof(const char*p,const char*c){ char w[40]; int i; strcpy(w,p); for(i=0;w[i];i++) if(w[i]>='A'&&w[i]<='Z') w[i]+=32; strcat(w,"/"); strcat(w,c); strcat(w,".man"); for(i=0;i<5;i++) if(!strcmp(w,page[i].name)) return i; return -1; }
static int has(const char*s){ int i,l=strlen(s); for(i=0;i+l<=on;i++) if(!memcmp(out+i,s,l)) return 1; return 0; }
static void finish(void){
	int i,p,k; sym_observe("out",out,on<60?on:60); sym_observe("code",&code,1);
	if(!fn_man) return;
	for(i=0;i<4;i++) sym_assert(!pf[i].open,"pages are closed");
	if(!ok){ sym_assert(code!=0,"the exit status tells wrong usage"); sym_assert(on==0&&errn>0,"only the usage is told"); sym_cover("usage"); return; }
	sym_assert(code==0,"exit status"); p=pgof(ph,nm);
	if(p>=0){ const char*hp=ph,*hn=nm; char h[40]; int l; if(!strncmp((char*)page[p].d,".redirect ",10)&&page[p].n==18){ p=0; hp="FROM"; hn="AB"; sym_cover("redirected"); } strcpy(h,hp); strcat(h,"/"); strcat(h,hn); strcat(h,":\n"); l=strlen(h); sym_assert(on==l+page[p].n,"the page and nothing else"); sym_assert(!memcmp(out,h,l),"name of the page"); sym_assert(sym_memeq(out+l,page[p].d,page[p].n),"the page"); sym_cover("page"); return; }
	for(k=0;strcmp(TN[k],ph);k++);
	if(!strcmp(nm,AL[k][1])){ sym_assert(has(AL[k][2]),"what the alias stands for"); sym_cover("alias"); return; }
	{ int m=0; for(i=0;i<6;i++) if(!strcmp(MOD[i][0],ph)&&!strcmp(MOD[i][1],nm)) m=1;
	  sym_assert(on>0&&!has("Alias"),"no page is told"); sym_assert(has("No such")==!m,"whether there is such a module"); sym_cover(m?"no page":"no module"); }
}
static void comp(void){
	static const char*AC[]={"a","A","b",":","|",",","'","\"","c","z"}; char arg[12]={0},t[12]; char*argv[3]={"bsdconv-completion",arg,NULL}; int i,j,k,n=pint("n",3),ty,np,at; const char*part; int seenf[4]={0},seeni[4]={0};
	k=0; for(i=0;i<n;i++) arg[k++]=*AC[sym_range(0,9)]; arg[k]=0; sym_observe("arg",arg,k);
	for(i=0,j=0;i<k;i++){ if(arg[i]=='\''||arg[i]=='"'){ if(i!=0&&i!=k-1) sym_skip(); continue; } t[j++]=arg[i]>='a'&&arg[i]<='z'?arg[i]-32:arg[i]; } t[j]=0; tn=j;
	part=t; ty=0; for(i=0;i<tn;i++){ if(t[i]==':') ty=1; else if(t[i]=='|') ty=0; else if(t[i]!=',') continue; part=t+i+1; } np=strlen(part); at=part-t;
	code=comp_main(n<0?1:2,argv); sym_assert(code==0,"exit status"); finish();
	for(i=0;i<on;){ char w[40]; int l=0,f=0; while(i<on&&out[i]!='\n'){ sym_assert(l<39,"a line"); w[l++]=out[i++]; } sym_assert(i<on,"lines are ended"); i++; w[l]=0;
		sym_assert(l>=tn&&!memcmp(w,t,tn),"every suggestion begins with what was typed");
		for(j=0;j<4;j++){ if(!strcmp((ty?LT:LF)[j],w+at)){ sym_assert(!seenf[j],"each once"); seenf[j]=1; f=1; } if(!strcmp(LI[j],w+at)){ sym_assert(!seeni[j],"each once"); seeni[j]=1; f=1; } }
		sym_assert(f,"every suggestion is a module"); sym_cover("suggested"); }
	for(j=0;j<4;j++){ sym_assert(seenf[j]==!strncmp((ty?LT:LF)[j],part,np),"every module that fits is suggested"); if(ty) sym_assert(seeni[j]==!strncmp(LI[j],part,np),"every module that fits is suggested"); }
}
void sym_main(void){
	int i,k,n,pad=pint("pad",0),sh,cs; static const char*PN[]={"from/AB.man","inter/AB.man","to/R.man","filter/F.man","to/TL2.man"}; char a1[40],a2[40],a3[4]="x"; char*argv[5]={"bsdconv-man",a1,a2,a3,NULL};
	on=errn=opened=asked=code=0; strcpy(cwd,"/w"); memset(pf,0,sizeof pf); for(i=0;i<5;i++){ page[i].name=(char*)PN[i]; page[i].n=0; }
	base=sym_range(0,pint("bases",2))==0?"m":"/w/m"; fn_man=0; if(!strcmp(sym_param("fn"),"comp")){ comp(); return; } fn_man=1;
	if(!base[0]) base="m";
	/* pages */
	n=pint("page",2); memset(page[0].d,'x',pad); sym_bytes(page[0].d+pad,n,"page"); page[0].n=pad+n; memcpy(page[1].d,"inter",5); page[1].n=5; memcpy(page[3].d,".re",3); page[3].n=3; memcpy(page[2].d,".redirect from/AB\n",18); page[2].n=18; page[4].n=0;
	/* arguments */
	k=sym_range(0,5); ok=k<4; strcpy(ph,((const char*[]){"FROM","INTER","TO","FILTER","SCORER","FRO"})[k]); cs=sym_range(0,2);
	for(i=0;ph[i];i++) a1[i]=cs==1||(cs==2&&i%2)?ph[i]+32:ph[i]; a1[i]=0;
	if(pint("sym",0)){ n=pint("sym",0); sym_bytes(a2,n,"name"); a2[n]=0; for(i=0;i<n;i++) sym_assume(a2[i]&&a2[i]!='/'); if(n<3&&a2[0]=='.') sym_skip(); }
	else { static const char*N[]={"ab","AB","r","f","TL2","al","IL","Tl","FL","np","g",""}; strcpy(a2,N[sym_range(0,11)]); }
	sym_observe("name",a2,strlen(a2)); for(i=0;a2[i];i++) nm[i]=a2[i]>='a'&&a2[i]<='z'?a2[i]-32:a2[i]; nm[i]=0;
	sh=sym_range(0,4); /* how the arguments are given */
	if(sh==1){ strcat(a1,"/"); strcat(a1,a2); argv[2]=NULL; code=man_main(2,argv); }
	else if(sh==0){ argv[3]=NULL; code=man_main(3,argv); }
	else if(sh==2){ ok=0; code=man_main(4,argv); }
	else if(sh==3){ ok=0; argv[1]=NULL; code=man_main(1,argv); }
	else { ok=0; argv[2]=NULL; code=man_main(2,argv); }
	finish(); 
}
