/* The command line tool over a stand-in file system: symbolic contents, any operation may fail, and at every moment the files must be whole.
   The tool's source is compiled into the harness with its input and output calls renamed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
#include "conv.h"
typedef unsigned char u8;
#define CAP 4200
typedef struct { u8 d[CAP]; int n,mode,uid,gid,used; } ino_t_;
static ino_t_ ino[6]; static int inos;
static struct { char name[1200]; int i; } dir[6]; static int ents;
typedef struct { int open,i,wr,pos,err,eof,bn,unread; u8 b[CAP]; } hf_t;
static hf_t hf[8]; /* 0..2: standard streams; a descriptor is 100+index */
static int budget,faulted,code,exited,nfile,inplace,metafault; static const char*fname[3]; static u8 orig[3][CAP],conv[3][CAP]; static int on[3],cn[3]; static unsigned long ce[3]; static int done[3];
static char msg[8000]; static int mn; static int seg[4],opened; static char tb[2400];
static int fault(void){ if(budget<=0) return 0; if(!sym_range(0,1)) return 0; budget--; faulted=1; sym_cover("fault"); return 1; }
static int look(const char*n){ int i; for(i=0;i<ents;i++) if(!strcmp(dir[i].name,n)) return i; return -1; }
static int same(const u8*a,int n,const u8*b,int m){ return n==m&&sym_memeq(a,b,n); }
/* the invariant a crash would meet */
static void instant(void){ int f,e; if(!nfile) return; for(f=0;f<nfile;f++){ e=look(fname[f]); sym_assert(e>=0,"at every moment the file exists"); ino_t_*p=&ino[dir[e].i]; if(on[f]==p->n&&sym_memeq(p->d,orig[f],on[f])) continue; sym_assert(inplace,"a file is changed only when asked to"); sym_assert(p->n==cn[f],"at every moment the file is whole"); sym_assert(sym_memeq(p->d,conv[f],cn[f]),"at every moment the file is the original or the conversion"); } }
static hf_t*H(void*f){ hf_t*h=f; sym_assert(h>=hf&&h<hf+8,"a stream that was opened"); sym_assert(h->open,"a stream that is open"); return h; }
static int newh(int i,int wr){ int k; for(k=3;k<8;k++) if(!hf[k].open){ hf[k].open=1; hf[k].i=i; hf[k].wr=wr; hf[k].pos=hf[k].err=hf[k].eof=hf[k].bn=0; return k; } sym_assert(0,"streams are closed"); return -1; }
static int emit(hf_t*h,const u8*p,int n){ ino_t_*q=&ino[h->i]; sym_assert(h->pos+n<=CAP,"more than the conversion is written"); memcpy(q->d+h->pos,p,n); h->pos+=n; if(h->pos>q->n) q->n=h->pos; instant(); return n; }
static int drain(hf_t*h){ int n=h->bn; if(!h->wr||!n) return 0; h->bn=0; if(fault()){ emit(h,h->b,n/2); h->err=1; errno=ENOSPC; return EOF; } emit(h,h->b,n); return 0; }
static FILE*h_fopen(const char*n,const char*m){ int e=look(n),k; if(fault()){ errno=EACCES; return NULL; }
	if(opened<3&&nfile>opened&&!strcmp(n,fname[opened])&&m[0]=='r') seg[opened++]=mn;
	if(m[0]=='r'&&m[1]!='+'&&!strchr(m,'+')){ if(e<0){ errno=ENOENT; return NULL; } return (FILE*)&hf[newh(dir[e].i,0)]; }
	if(e<0){ e=ents++; strcpy(dir[e].name,n); dir[e].i=inos; ino[inos].mode=0644; ino[inos++].n=0; } else if(m[0]=='w'){ ino[dir[e].i].n=0; instant(); }
	k=newh(dir[e].i,1); if(m[0]=='a') hf[k].pos=ino[dir[e].i].n; return (FILE*)&hf[k]; }
static FILE*h_fdopen(int fd,const char*m){ if(fault()){ errno=ENOMEM; return NULL; } sym_assert(fd>=103&&fd<108,"a descriptor that was opened"); return (FILE*)&hf[fd-100]; }
static int h_fileno(FILE*f){ return 100+(int)(H(f)-hf); }
static size_t h_fread(void*p,size_t a,size_t b,FILE*f){ hf_t*h=H(f); ino_t_*q=&ino[h->i]; int n=a*b,l=q->n-h->pos; if(!n) return 0; if(h->err) return 0; if(fault()){ h->err=1; errno=EIO; n=l<n?l/2:n/2; } else if(n>l){ n=l; h->eof=1; } memcpy(p,q->d+h->pos,n); h->pos+=n; return n/a; }
size_t fwrite(const void*p,size_t a,size_t b,FILE*f){ hf_t*h=H(f); int n=a*b; if(!n) return b; if(h->bn+n>pint("buf",3)&&drain(h)) return 0; if(n>CAP-h->bn){ sym_assert(0,"more than the conversion is written"); } memcpy(h->b+h->bn,p,n); h->bn+=n; return b; }
static int h_fflush(FILE*f){ return drain(H(f)); }
static int h_fclose(FILE*f){ hf_t*h=H(f); int r=drain(h); h->open=0; if(h->wr&&h>=hf+3&&!r&&fault()){ errno=EIO; r=EOF; } return r; }
static int h_ferror(FILE*f){ return H(f)->err; }
static int h_feof(FILE*f){ return H(f)->eof; }
static int h_mkstemp(char*t){ int l=strlen(t),k; sym_assert(l>6&&!strcmp(t+l-6,"XXXXXX"),"template"); if(fault()){ errno=EACCES; return -1; } memcpy(t+l-6,"tmp00",6); t[l-1]='a'+ents; t[l]=0; sym_assert(look(t)<0,"new name"); strcpy(dir[ents].name,t); dir[ents++].i=inos; ino[inos].mode=0600; ino[inos].uid=ino[inos].gid=0; ino[inos].n=0; k=newh(inos++,1); return 100+k; }
static int h_close(int fd){ sym_assert(fd>=103&&fd<108&&hf[fd-100].open,"a descriptor that is open"); hf[fd-100].open=0; return 0; }
static void gone(int e){ dir[e]=dir[--ents]; instant(); }
static int h_unlink(const char*n){ int e=look(n); if(e<0){ errno=ENOENT; return -1; } if(!budget&&0) return -1; gone(e); return 0; }
static int h_rename(const char*a,const char*b){ int e=look(a),g; if(fault()){ errno=EXDEV; return -1; } if(e<0){ errno=ENOENT; return -1; } g=look(b); if(g>=0){ dir[g].i=dir[e].i; dir[e]=dir[--ents]; } else strcpy(dir[e].name,b); instant(); return 0; }
static int h_fstat(int fd,struct stat*s){ ino_t_*q; sym_assert(fd>=103&&fd<108,"a descriptor that was opened"); q=&ino[hf[fd-100].i]; memset(s,0,sizeof *s); s->st_mode=S_IFREG|q->mode; s->st_uid=q->uid; s->st_gid=q->gid; s->st_size=q->n; return 0; }
static int h_stat(const char*n,struct stat*s){ int e=look(n); ino_t_*q; if(e<0){ errno=ENOENT; return -1; } q=&ino[dir[e].i]; memset(s,0,sizeof *s); s->st_mode=S_IFREG|q->mode; s->st_uid=q->uid; s->st_gid=q->gid; s->st_size=q->n; return 0; }
static int h_fchown(int fd,uid_t u,gid_t g){ ino_t_*q=&ino[hf[fd-100].i]; if(fault()){ metafault=1; errno=EPERM; return -1; } q->uid=u; q->gid=g; return 0; }
static int h_fchmod(int fd,mode_t m){ ino_t_*q=&ino[hf[fd-100].i]; if(fault()){ metafault=1; errno=EPERM; return -1; } q->mode=m&07777; return 0; }
static int h_say(FILE*f,int n){ if((void*)f==(void*)&hf[2]){ if(mn+n<(int)sizeof msg){ memcpy(msg+mn,tb,n); mn+=n; msg[mn]=0; } } else fwrite(tb,1,n,f); return n; }
static void finish(void){
	int f,e,i; char w[32];
	if(drain(&hf[1])) sym_assert(code!=0,"lost output is reported by the exit status");
	for(f=0;f<nfile;f++){
		e=look(fname[f]); sym_assert(e>=0,"the file exists"); ino_t_*p=&ino[dir[e].i];
		sym_observe("file",p->d,p->n);
		if(code==0&&inplace){ sym_assert(same(p->d,p->n,conv[f],cn[f]),"success means that the file is the conversion"); sym_assert(metafault||(p->mode==(f?0755:0640)&&p->uid==7+f&&p->gid==9),"mode and owner are kept"); sym_cover("converted"); }
		else { int keep=same(p->d,p->n,orig[f],on[f]); if(keep) sym_cover("kept"); sym_assert(keep||same(p->d,p->n,conv[f],cn[f]),"the file is the original or the conversion"); }
	}
	for(i=0;i<ents;i++){ for(f=0;f<nfile;f++) if(!strcmp(dir[i].name,fname[f])) break; sym_assert(f<nfile,"no temporary file is left behind"); }
	if(!faulted) sym_assert(code==0,"no failure without a cause");
	if(code) sym_assert(mn>0,"a failure is reported");
	sym_observe("code",&code,1);
	if(code==0&&!inplace){ static u8 all[3*CAP]; int n=0; for(f=0;f<(nfile?nfile:1);f++){ memcpy(all+n,conv[f],cn[f]); n+=cn[f]; } sym_observe("out",ino[5].d,ino[5].n); sym_assert(same(ino[5].d,ino[5].n,all,n),"success means that all of the output was written"); sym_cover("printed"); }
	if(code==0) for(f=0;f<nfile;f++){ int a=seg[f],z=f+1<nfile?seg[f+1]:mn; char t[3000]; char*q; sym_assert(z-a<(int)sizeof t,"text"); memcpy(t,msg+a,z-a); t[z-a]=0; q=strstr(t,"IERR: "); sym_assert((q!=NULL)==(ce[f]!=0),"errors of the file are reported, and only these"); if(q){ sprintf(w,"IERR: %lu\n",ce[f]); sym_assert(!strncmp(q,w,strlen(w)),"their number"); sym_cover("counted"); } }
	sym_done();
}
static void h_exit(int c){ code=c; exited=1; finish(); }
#undef stdin
#undef stdout
#undef stderr
#define stdin ((FILE*)&hf[0])
#define stdout ((FILE*)&hf[1])
#define stderr ((FILE*)&hf[2])
#define fopen(a,b) h_fopen(a,b)
#define fdopen(a,b) h_fdopen(a,b)
#define fileno(a) h_fileno(a)
#define fread(a,b,c,d) h_fread(a,b,c,d)
#define fflush(a) h_fflush(a)
#define fclose(a) h_fclose(a)
#undef ferror
#undef feof
#define ferror(a) h_ferror(a)
#define feof(a) h_feof(a)
#define mkstemp(a) h_mkstemp(a)
#define close(a) h_close(a)
#define unlink(a) h_unlink(a)
#define remove(a) h_unlink(a)
#define rename(a,b) h_rename(a,b)
#define fstat(a,b) h_fstat(a,b)
#define stat(a,b) h_stat(a,b)
#define fchown(a,b,c) h_fchown(a,b,c)
#define fchmod(a,b) h_fchmod(a,b)
#define fsync(a) 0
#define fprintf(f,...) h_say(f,snprintf(tb,sizeof tb,__VA_ARGS__))
#define printf(...) h_say(stdout,snprintf(tb,sizeof tb,__VA_ARGS__))
#define fputs(s,f) h_say(f,snprintf(tb,sizeof tb,"%s",s))
#define puts(s) h_say(stdout,snprintf(tb,sizeof tb,"%s\n",s))
#define vfprintf(f,m,a) h_say(f,vsnprintf(tb,sizeof tb,m,a))
#define vprintf(m,a) h_say(stdout,vsnprintf(tb,sizeof tb,m,a))
#undef putc
#undef putchar
#define fputc(c,f) h_say(f,(tb[0]=(c),1))
#define putc(c,f) h_say(f,(tb[0]=(c),1))
#define putchar(c) h_say(stdout,(tb[0]=(c),1))
#define setvbuf(f,b,m,n) 0
#define setbuf(f,b) ((void)0)
#define perror(s) h_say(stderr,snprintf(tb,sizeof tb,"%s: error\n",s))
#define exit(c) h_exit(c)
#define main cli_main
#include "bsdconv.c"
#undef main
#undef exit
#undef stat
#undef stdin
#undef stdout
#undef stderr
#undef fopen
#undef fdopen
#undef fileno
#undef fread
#undef fflush
#undef fclose
#undef ferror
#undef feof
#undef mkstemp
#undef close
#undef unlink
#undef remove
#undef rename
#undef fstat
#undef fchown
#undef fchmod
#undef fsync
#undef fprintf
#undef printf
#undef fputs
#undef puts
#undef perror
#undef vfprintf
#undef vprintf
#undef fputc
#undef putc
#undef putchar
#undef setvbuf
#undef setbuf
void sym_main(void){
	static char*fn[3],fb[3][1200]; int nl=pint("name",0); char*argv[10]; int argc=0,i,f,k,n,pad=pint("pad",0); const char*cv=sym_param("conv"); buf_t b; int e;
	memset(hf,0,sizeof hf); for(i=0;i<6;i++){ ino[i].n=0; ino[i].mode=0; ino[i].uid=ino[i].gid=0; } inos=ents=mn=opened=faulted=metafault=code=exited=0; msg[0]=0; nfile=0; budget=0;
	k=pint("files",1); inplace=pint("inplace",1);
	for(f=0;f<3;f++){ static const char*N[]={"f","gg","f2"}; memset(fb[f],'d',nl); strcpy(fb[f]+nl,N[f]); fn[f]=fb[f]; }
	for(f=0;f<(k?k:1);f++){ n=pint(f?"n2":"n",2); for(i=0;i<pad;i++) orig[f][i]='a'+i%7; u8 t[8]; const char*pre=f?"":sym_param("prefix"); int h=pad; if(pre){ char x[3]={0}; while(pre[0]){ x[0]=pre[0]; x[1]=pre[1]; orig[f][h++]=strtol(x,0,16); pre+=2; } } sym_bytes(t,n,"file"); memcpy(orig[f]+h,t,n); on[f]=h+n; b=conv1(cv,orig[f],on[f],&ce[f],0); sym_assert(b.n<CAP,"size"); memcpy(conv[f],b.d,b.n); cn[f]=b.n; free(b.d);
		if(k){ fname[f]=fn[f]; strcpy(dir[f].name,fn[f]); dir[f].i=inos; ents++; } memcpy(ino[inos].d,orig[f],on[f]); ino[inos].n=on[f]; ino[inos].mode=f?0755:0640; ino[inos].uid=7+f; ino[inos].gid=9; inos++; }
	nfile=k; for(i=0;i<3;i++) hf[i].open=1; hf[0].i=0; hf[1].i=5; hf[1].wr=1; hf[2].i=4; hf[2].wr=1;
	argv[argc++]="bsdconv"; argv[argc++]=(char*)cv; if(inplace) argv[argc++]="-i"; for(f=0;f<k;f++) argv[argc++]=fn[f]; argv[argc]=NULL;
	budget=pint("faults",0);
	e=cli_main(argc,argv); code=e&255; finish();
}
