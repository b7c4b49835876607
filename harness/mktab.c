/* A table source is compiled by bsdconv-mktable, the library loads what came out: it must do what the source says.
   The tool's source is compiled into the harness with its file operations renamed; the library opens the result through stand-ins. */
#define _GNU_SOURCE
#define _BSDCONV_INTERNAL
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include "conv.h"
typedef unsigned char u8;
#define IMG 300000
static u8 img[IMG]; static unsigned long imgn,imgpos; static char src[1600]; static int srcn,srcpos,infd,outfd;
static FILE*m_fopen(const char*n,const char*m){ if(!strcmp(n,"in")){ sym_assert(m[0]=='r',"the source is read"); srcpos=0; infd=1; return (FILE*)&src; } sym_assert(!strcmp(n,"out")&&m[0]=='w',"the table is written"); imgn=imgpos=0; outfd=1; return (FILE*)&img; }
static char*m_fgets(char*b,int n,FILE*f){ int i=0; sym_assert(infd&&f==(FILE*)&src,"an open stream"); while(i<n-1&&srcpos<srcn){ b[i]=src[srcpos++]; if(b[i++]=='\n') break; } if(!i) return NULL; b[i]=0; return b; }
static int m_fseek(FILE*f,long o,int w){ sym_assert(outfd&&f==(FILE*)&img,"an open stream"); sym_assert(w==SEEK_SET,"absolute position"); sym_assert(o>=0&&o<IMG,"position"); imgpos=o; return 0; }
static size_t m_fwrite(const void*p,size_t a,size_t b,FILE*f){ sym_assert(outfd&&f==(FILE*)&img,"an open stream"); sym_assert(imgpos+a*b<=IMG,"size of the table"); memcpy(img+imgpos,p,a*b); imgpos+=a*b; if(imgpos>imgn) imgn=imgpos; return b; }
static int m_fputc(int c,FILE*f){ u8 b=c; m_fwrite(&b,1,1,f); return b; }
static int m_fclose(FILE*f){ if(f==(FILE*)&src) infd=0; else outfd=0; return 0; }
#define USED(x) ((void)(x))
#define fopen m_fopen
#define fgets m_fgets
#define fseek m_fseek
#define fwrite m_fwrite
#define fputc m_fputc
#define putc m_fputc
#define fclose m_fclose
#define printf(...) 0
#define fprintf(...) 0
#define vfprintf(...) 0
#define vprintf(...) 0
#define perror(a) ((void)0)
#define puts(a) 0
#define exit(c) sym_assert(0,"the table is made")
#include "fmalloc.h"
#undef FMALLOC
#define FMALLOC(X) calloc(1,X)   /* the file-backed allocator gives zeroed memory */
#define main mk_main
#define hash mk_hash
#include "bsdconv-mktable.c"
#undef main
#undef hash
#undef fopen
#undef fgets
#undef fseek
#undef fwrite
#undef fputc
#undef putc
#undef fclose
#undef printf
#undef fprintf
#undef exit
/* the library's view */
#define FD 200
extern int __close(int); extern int open64(const char*,int,...); extern void*mmap64(void*,size_t,int,int,int,off_t); extern int fstat64(int,struct stat64*);
static int isvt(const char*p,const char*e){ int l=strlen(p),k=strlen(e); return l>=k&&!strcmp(p+l-k,e); }
static int hascb; static void*vt; static int vtn;
int open(const char*p,int fl,...){ if(isvt(p,"/VTTAB")) return FD; return open64(p,fl); }
int close(int fd){ return fd==FD?0:__close(fd); }
int fstat(int fd,struct stat*s){ if(fd==FD){ memset(s,0,sizeof *s); s->st_size=imgn; s->st_mode=S_IFREG|0644; return 0; } return fstat64(fd,(void*)s); }
void*mmap(void*a,size_t n,int pr,int fl,int fd,off_t o){ if(fd==FD){ u8*m=malloc(imgn); memcpy(m,img,imgn); vt=m; return m; } return mmap64(a,n,pr,fl,fd,o); }
int munmap(void*p,size_t n){ if(p==vt){ free(p); vt=NULL; } return 0; }
static void cb(struct bsdconv_instance*ins){ struct bsdconv_phase*p=THIS_PHASE(ins); struct data_st*data_ptr;
	if(pint("more",0)&&p->i==p->data_head->len){ p->state.status=CONTINUE; return; }   /* wants one more byte */
	DATA_MALLOC(ins,p->data_tail->next); p->data_tail=p->data_tail->next; p->data_tail->next=NULL; p->data_tail->flags=0; p->data_tail->data=pint("to",0)?"X":"\1X"; p->data_tail->len=pint("to",0)?1:2;
	LISTCPY_ST(ins,p->data_tail,p->state.data,p->codec[p->index].data_z);   /* what the row says besides ? */
	p->state.status=NEXTPHASE; }
/* the source as the reference sees it */
typedef struct { int n,e[6],bang,call,data; } line_t;   /* e: 0..255, -1 any */
static line_t L[6]; static int nl;
static const char*D[]={"0131","0132,0133","0133","0132","0134,0132,0133","","0133,0133","0131,0131"}; static const char*DT[]={"31","3233","33","32","343233","","3333","3131"}; static const char*OUT[]={"1","23","3","2","423","","33","11"};
static void put(const char*s){ while(*s){ sym_assert(srcn<(int)sizeof src,"size of the source"); src[srcn++]=*s++; } }
static int fit(const line_t*l,const u8*t,int n,int*lev){ int i,v=0; if(l->n>n) return 0; for(i=0;i<l->n;i++){ int c=t[i]; if(l->e[i]<0||l->e[i]==c){ v++; continue; } if(l->bang&&((c>='A'&&c<='Z'&&l->e[i]==c+32)||(c>='a'&&c<='z'&&l->e[i]==c-32))) continue; return 0; } *lev=v; return 1; }
void sym_main(void){
	const char*alpha=sym_param("alpha"),*fx=sym_param("fix"); int na=strlen(alpha),K=pint("k",3),n=pint("n",3),i,j,lev,m=0,phase=pint("inter",0)?1:pint("to",0)?2:0; u8 t[8],ex[200]; unsigned long ie,oe,xe=0; buf_t b; char*av[]={"mktable","in","out",NULL}; char h[16];
	nl=pint("lines",2); srcn=0; hascb=0; memset(img,0,sizeof img); imgn=0; offset=0; state_r=state_t=NULL; memset(&holder,0,sizeof holder); memset(ci_table,0,sizeof ci_table); memset(table,0,sizeof table);
	for(i=0;i<nl;i++){ line_t*l=&L[i];
		if(pint("blank",0)) switch(sym_range(0,3)){ case 1: put("\n"); break; case 2: put("\r\n"); break; case 3: put(" \t\n"); }
		l->n=sym_range(pint("kmin",1),K); for(j=0;j<l->n;j++){ int c=alpha[sym_range(0,na-1)]; l->e[j]=c=='*'?-1:c; }
		if(pint("onestar",1)){ int st=0; for(j=0;j<l->n;j++) st+=l->e[j]<0; if(st>1) sym_skip(); }
		l->bang=pint("bang",0)?sym_range(0,1):0; l->call=pint("calls",0)?sym_range(0,1):0; l->data=pint("datas",0)?sym_range(0,pint("datas",0)-1):i;
		if(l->call) hascb=1;
		if(pint("more",0)&&l->call&&l->n>1) sym_skip();   /* there the callback cannot tell the first byte */
		/* the line */
		if(pint("form",0)) switch(sym_range(0,2)){ case 1: put("# remark\n"); break; case 2: put("#\n"); }
		if(l->bang) put("!");
		for(j=0;j<l->n;j++){ if(phase==1||phase==2){ if(j) put(","); put("01"); } if(l->e[j]<0) put("*"); else { sprintf(h,j&1?"%02X":"%02x",l->e[j]); put(h); } }
		put(pint("form",0)?((const char*[]){"\t"," ","\t\t ","  "})[sym_range(0,3)]:"\t"); if(l->call) put("?"); put(phase==2?DT[l->data]:D[l->data]);
		put(pint("form",0)?((const char*[]){"\n","\r\n","\t# remark\n","\t \n"," #\n","#remark 31\n"})[sym_range(0,5)]:i+1==nl&&pint("noeol",0)?"":"\n");
	}
	src[srcn]=0; sym_observe("source",src,srcn);
	mk_main(3,av); sym_assert(imgn>0,"a table is made");
	sym_bytes(t,n,"text"); if(phase) for(i=0;i<n;i++){ sym_assume(t[i]<0x80); sym_assume(t[i]>0); }
	if(pint("few",0)) for(i=0;i<n;i++){ sym_assume(t[i]>=0x60); sym_assume(t[i]<=0x62); }
	/* the expected output */
	for(i=0;i<n;){
		int best=-1,bl=0,bv=0,call=0,d,pend=0;
		for(d=1;d<=n-i&&!call;d++){ int w=-1,wv=-1,wc=0; for(j=0;j<nl;j++) if(L[j].n==d&&fit(&L[j],t+i,n-i,&lev)){ if(w<0||(L[j].call<wc)||(L[j].call==wc&&lev>wv)){ w=j; wv=lev; wc=L[j].call; } } if(w>=0){ best=w; bl=d; call=wc; if(call&&d==1&&pint("more",0)){ call=0; pend=1; } } else if(pend&&d==2){ bl=2; call=1; } }
		if(pend&&n-i<2) best=-1;   /* the byte it wants does not come */
		(void)bv;
		if(best<0){ if(phase==1){ ex[m++]=t[i]; } else xe++; i++; continue; }
		sym_cover("key"); if(call){ ex[m++]='X'; sym_cover("call"); } { const char*o=OUT[L[best].data]; while(*o) ex[m++]=*o++; } i+=bl;
	}
	{ struct bsdconv_instance*ins=mk(phase==0?"vttab:ascii":phase==1?"ascii:vttab:ascii":"ascii:vttab"); if(hascb) ins->phase[phase==0?1:2].codec[0].cbconv=cb; /* as if VTTAB.so were there */
	bsdconv_init(ins); feed(ins,t,n,1); b=run(ins); ie=*bsdconv_counter(ins,"IERR"); oe=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins); }
	sym_observe("out",b.d,b.n); sym_observe("expected",ex,m);
	sym_assert(b.n==m,"length of the output"); sym_assert(sym_memeq(b.d,ex,m),"the output the source asks for"); sym_assert((phase==2?oe:ie)==xe,"number of unmatched"); sym_assert((phase==2?ie:oe)==0,"no other errors");
	free(b.d);
}
