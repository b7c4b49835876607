/* Native counterpart of the harness interface: replays recorded inputs against the real build.
   usage: prog MODE < records ; a record is one line of hex input bytes.  Output per record is one line:
     OK tag=hex ... | FAIL message | SKIP
   With SYM_FORK=1 every record runs in its own process (crash/hang isolation). */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <malloc.h>
#include "sym.h"
static unsigned char in[256]; static int nin,pos; static jmp_buf jb; static char *out; static size_t outn,outc; static char failmsg[512];
static long live_base;
static void put(const char*s){ size_t n=strlen(s); if(outn+n+1>outc){outc=(outn+n+1)*2+4096;out=realloc(out,outc);} memcpy(out+outn,s,n+1); outn+=n; }
static int next(void){ if(pos<nin)return in[pos++]; pos++; return 0; }
void sym_bytes(void *p,size_t n,const char*name){ size_t i; (void)name; for(i=0;i<n;i++)((unsigned char*)p)[i]=next(); }
int sym_range(int lo,int hi){ int v=next(); (void)hi; return lo+v; }
void sym_assume(int c){ if(!c)longjmp(jb,2); }
void sym_skip(void){ longjmp(jb,2); }
void sym_done(void){ longjmp(jb,3); }
void sym_assert(int c,const char*m){ if(!c){ snprintf(failmsg,sizeof failmsg,"%s",m); longjmp(jb,1);} }
int sym_memeq(const void*a,const void*b,size_t n){ return n==0||memcmp(a,b,n)==0; }
void sym_observe(const char*t,const void*p,size_t n){ char b[8]; size_t i; put(" "); put(t); put("="); for(i=0;i<n;i++){snprintf(b,8,"%02x",((const unsigned char*)p)[i]);put(b);} }
void sym_cover(const char*t){(void)t;}
unsigned long sym_conc(unsigned long v){return v;}
int sym_engine(void){return 0;}
const char*sym_param(const char*n){ char b[64]; snprintf(b,64,"SYMP_%s",n); return getenv(b); }
/* live heap blocks: counted by interposing the allocator (disabled under valgrind/asan builds) */
static long live;
void sym_point(void) __attribute__((weak));
#define POINT() do{ if(sym_point)sym_point(); }while(0)
#ifndef SYM_NOALLOC
extern void *__libc_malloc(size_t); extern void __libc_free(void*); extern void*__libc_calloc(size_t,size_t); extern void*__libc_realloc(void*,size_t);
void *malloc(size_t n){ void*p=__libc_malloc(n); if(p){live++; if(n<65536)memset(p,0xA5,n);} POINT(); return p; }
void *calloc(size_t a,size_t b){ void*p=__libc_calloc(a,b); if(p)live++; POINT(); return p; }
void free(void*p){ if(p)live--; __libc_free(p); POINT(); }
void *realloc(void*p,size_t n){ void*q=__libc_realloc(p,n); if(!p&&q)live++; return q; }
#endif
#ifndef SYM_NOFAULT
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
static int f_open,f_map;
void sym_fault(const char*w,int k){ if(*w=='o')f_open=k; else f_map=k; }
int open(const char*p,int fl,...){ va_list ap; int m; va_start(ap,fl); m=va_arg(ap,int); va_end(ap); if(f_open&&--f_open==0){errno=EMFILE;return -1;} return syscall(SYS_openat,AT_FDCWD,p,fl,m); }
void*mmap(void*a,size_t n,int pr,int fl,int fd,off_t o){ if(f_map&&--f_map==0){errno=ENOMEM;return MAP_FAILED;} return (void*)syscall(SYS_mmap,a,n,pr,fl,fd,o); }
#endif
#ifdef SYM_PRINT
/* what is printed to a stand-in stream */
#include <stdarg.h>
extern int sym_stream(FILE*); extern void sym_print(FILE*,const char*,int);
int fprintf(FILE*f,const char*m,...){ char b[4096]; int n; va_list ap; va_start(ap,m); if(!sym_stream(f)){ n=vfprintf(f,m,ap); va_end(ap); return n; } n=vsnprintf(b,sizeof b,m,ap); va_end(ap); sym_print(f,b,n); return n; }
int __fprintf_chk(FILE*f,int g,const char*m,...){ char b[4096]; int n; va_list ap; va_start(ap,m); if(!sym_stream(f)){ n=vfprintf(f,m,ap); va_end(ap); return n; } n=vsnprintf(b,sizeof b,m,ap); va_end(ap); sym_print(f,b,n); return n; }
int fflush(FILE*f){ return sym_stream(f)?0:fflush_unlocked(f); }
#endif
long sym_live(void){ return live; }
static int hexv(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static int quiet;
static void one(char*line){
  size_t l=strlen(line); int r; while(l&&(line[l-1]=='\n'||line[l-1]=='\r'))line[--l]=0;
  nin=0; for(size_t i=0;i+1<l&&nin<256;i+=2)in[nin++]=hexv(line[i])<<4|hexv(line[i+1]);
  outn=0; put(""); pos=0; r=setjmp(jb); if(r==0){ sym_main(); }
  if(quiet)return; if(r==0||r==3)printf("OK%s\n",out); else if(r==1)printf("FAIL %s |%s\n",failmsg,out); else printf("SKIP\n"); fflush(stdout);
}
int main(int argc,char**argv){
  char *line=NULL; size_t cap=0; int rep=getenv("SYM_REPEAT")?atoi(getenv("SYM_REPEAT")):1; int warm=0;
  (void)argc;(void)argv;
  while(getline(&line,&cap,stdin)>0){
    char*dup=strdup(line);
    if(getenv("SYM_FORK")){
      fflush(stdout); pid_t p=fork(); if(p==0){ alarm(getenv("SYM_ALARM")?atoi(getenv("SYM_ALARM")):20); for(int i=0;i<rep;i++){ char*d2=strdup(line); if(i<rep-1){ int fd=dup2(1,9); fflush(stdout); freopen("/dev/null","w",stdout); one(d2); fflush(stdout); dup2(9,1);(void)fd; } else one(d2); } _exit(0);} 
      int st; waitpid(p,&st,0); if(WIFSIGNALED(st)){printf("CRASH signal %d\n",WTERMSIG(st));fflush(stdout);} else if(WEXITSTATUS(st)){printf("EXIT %d\n",WEXITSTATUS(st));fflush(stdout);} 
    } else { if(!warm){ char*d2=strdup(line); warm=quiet=1; one(d2); free(d2); quiet=0; } one(dup); } /* the loader allocates on first use */
    free(dup);
  }
  return 0;
}
