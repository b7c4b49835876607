/* bsdconv_modules_list and bsdconv_module_check over a stand-in module directory; the working directory is nobody's but the caller's. */
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include "conv.h"
typedef unsigned char u8;
static const char*TD[]={"from","inter","to","filter","scorer"}; static int T[]={FROM,INTER,TO,FILTER,SCORER};
static const char*envv,*base; static int ty,noopen,al; static char ent[24][12]; static int ne,dpos,opens; static struct dirent de; static char real[600];
extern FILE*fopen64(const char*,const char*);
char*getenv(const char*n){ if(!strcmp(n,"BSDCONV_PATH")) return (char*)envv; return secure_getenv(n); }
int chdir(const char*p){ sym_assert(0,"the working directory stays the caller's"); return -1; }
int fchdir(int d){ sym_assert(0,"the working directory stays the caller's"); return -1; }
/* what path is behind the modules directory: 0 foreign, else the rest behind base/share/bsdconv/<type>, without leading slashes */
static const char*inmod(const char*p){ static char w[300]; const char*q=w; int i,j; size_t l; if(!base) return NULL;
	l=strlen(base); if(strncmp(p,base,l)) return NULL; p+=l;
	if(l&&*p!='/') return NULL; while(*p=='/') p++; if(strncmp(p,"share/bsdconv",13)) return NULL; p+=13; while(*p=='/') p++;
	for(i=0;i<5;i++){ l=strlen(TD[i]); if(!strncmp(p,TD[i],l)&&(p[l]=='/'||!p[l])){ sym_assert(T[i]==ty,"the directory of the type that was asked for"); p+=l; while(*p=='/') p++; return p; } }
	sym_assert(0,"a directory of modules"); return NULL; }
static int there(const char*r){ int i; const char*q=r; /* 0 nothing, 1 file, 2 directory */
	for(;*q=='.'||*q=='/';q++); if(!*q) return 2;
	for(i=0;i<ne;i++){ const char*e=ent[i]; for(q=r;*e&&*q==*e;q++,e++); if(!*e&&!*q) return 1; }
	return 0; }
static FILE*real1(const char*n){ const char*r=secure_getenv("BSDCONV_PATH"); strcpy(real,r); strcat(real,"/"); strcat(real,n); return fopen64(real,"rb"); }
FILE*fopen(const char*p,const char*m){ const char*r=inmod(p); char n[16]="alias0"; if(!r) return fopen64(p,m);
	if(!strcmp(r,"alias")){ if(!al){ errno=ENOENT; return NULL; } n[5]='0'+al; return real1(n); }
	if(!there(r)){ errno=ENOENT; return NULL; } return real1("alias1"); }
int access(const char*p,int m){ const char*r=inmod(p); if(!r) return faccessat(AT_FDCWD,p,m,0); if(!there(r)){ errno=ENOENT; return -1; } return 0; }
int stat(const char*p,struct stat*s){ const char*r=inmod(p); int t; if(!r) return fstatat(AT_FDCWD,p,s,0); t=there(r); if(!t){ errno=ENOENT; return -1; } memset(s,0,sizeof *s); s->st_mode=t==2?S_IFDIR|0755:S_IFREG|0644; return 0; }
DIR*opendir(const char*p){ const char*r=inmod(p); sym_assert(r&&!*r,"the directory of the modules"); if(noopen){ errno=EACCES; return NULL; } opens++; dpos=0; return (DIR*)&de; }
struct dirent*readdir(DIR*d){ sym_assert(opens>0&&d==(DIR*)&de,"an open directory"); if(dpos>=ne) return NULL; memset(&de,0,sizeof de); strcpy(de.d_name,ent[dpos++]); return &de; }
int closedir(DIR*d){ sym_assert(opens>0&&d==(DIR*)&de,"an open directory"); opens--; return 0; }
static int cmp(const char*a,const char*b){ for(;*a&&*a==*b;a++,b++); return (u8)*a-(u8)*b; }
/* names found in the alias files made by the check */
static const char*AN[][4]={{0},{0},{"AA",0},{"BZ","AC",0},{"Z",0},{"A","ZZ","0",0}};
static const char*POOL[]={"B","A","C","AB","alias","A.so","A.man",".","..","B.so","_X","a","AB.so","B.txt","X-1","ALIAS"};
void sym_main(void){
	const char*f=sym_param("fn"); int i,j,k,n=pint("n",4),t=sym_range(-1,6),bad,soft,m=0; char ex[32][12]; char**l; int fl;
	ne=dpos=opens=0; al=noopen=0; envv=((const char*[]){"/m","m","/m/","../m"})[sym_range(0,pint("envs",3))]; base=envv;
	{ static char b[64]; int z; strcpy(b,base); z=strlen(b); while(z>1&&b[z-1]=='/') b[--z]=0; base=b; }
	for(i=0,k=-1;i<5;i++) if(T[i]==t) k=i; bad=k<0; ty=t; fl=t==FILTER||t==SCORER; (void)soft;
	if(!strcmp(f,"check")){
		static const char*N[]={"AB","A","_Z1","A-B","B"}; char name[8],up[12]; int e=0,r;
		ne=0; for(i=0;i<5;i++){ strcpy(ent[ne],N[i]); if(fl) strcat(ent[ne],".so"); ne++; }
		if(!fl){ strcpy(ent[ne++],"AB.so"); strcpy(ent[ne++],"A.man"); } else strcpy(ent[ne++],"C");
		sym_bytes(name,n,"name"); name[n]=0; for(i=0;i<n;i++) sym_assume(name[i]!=0);
		if(pint("empty",0)) name[0]=0;
		sym_observe("name",name,n);
		r=bsdconv_module_check(t,name);
		for(i=0;i<n;i++) up[i]=name[i]>='a'&&name[i]<='z'?name[i]-32:name[i]; up[n]=0; if(!name[0]) up[0]=0;
		for(i=0;i<5;i++) if(!strcmp(up,N[i])) e=1;
		if(bad) e=0;
		sym_assert((r!=0)==e,"a module is there exactly when its file is"); if(e) sym_cover("found"); else sym_cover("not found");
		if(pint("cc",0)) sym_assert(bsdconv_codec_check(t,name)==r,"the other name of the function");
		return;
	}
	if(pint("many",0)){ n=sym_range(0,pint("many",0)); for(i=0;i<n;i++){ strcpy(ent[i],"N00"); ent[i][1]+=(n-1-i)/10; ent[i][2]+=(n-1-i)%10; if(fl) strcat(ent[i],".so"); } ne=n; }
	else { n=sym_range(0,n); for(i=0;i<n;i++){ j=sym_range(0,sizeof POOL/sizeof*POOL-1); strcpy(ent[i],POOL[j]); for(j=0;j<i;j++) if(!strcmp(ent[j],ent[i])) sym_skip(); } ne=n; }
	noopen=pint("fault",0)?sym_range(0,1):0; al=sym_range(0,5);
	for(i=0;i<ne;i++) sym_observe("entry",ent[i],strlen(ent[i]));
	l=bsdconv_modules_list(t); sym_assert(l!=NULL,"a list"); sym_assert(!opens,"the directory is closed");
	if(!bad){
		if(!noopen) for(i=0;i<ne;i++){ char*d=strchr(ent[i],'.'); if(!strcmp(ent[i],"alias")||(fl?!strstr(ent[i],".so"):d!=NULL)) continue; strcpy(ex[m],ent[i]); d=strchr(ex[m],'.'); if(d) *d=0; m++; }
		for(i=0;al&&AN[al][i];i++) strcpy(ex[m++],AN[al][i]);
		for(i=0;i<m;i++) for(j=i+1;j<m;j++) if(cmp(ex[j],ex[i])<0){ char w[12]; strcpy(w,ex[i]); strcpy(ex[i],ex[j]); strcpy(ex[j],w); }
	}
	for(i=0;l[i];i++){ sym_observe("listed",l[i],strlen(l[i])); sym_assert(i<m,"nothing but modules and aliases"); sym_assert(!cmp(l[i],ex[i]),"the names in order"); }
	sym_assert(i==m,"every module and alias"); if(m>1) sym_cover("list");
	for(i=0;l[i];i++) bsdconv_free(l[i]); bsdconv_free(l);
}
