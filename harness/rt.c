/* Plain C bodies for the libc string functions, executed symbolically together with the code under test. */
#include <stddef.h>
typedef unsigned char u8;
void *malloc(size_t);
void *memcpy(void *, const void *, size_t);
size_t strlen(const char *s){ size_t n=0; while(s[n])n++; return n; }
size_t strnlen(const char *s,size_t m){ size_t n=0; while(n<m&&s[n])n++; return n; }
char *strcpy(char *d,const char *s){ size_t i=0; while((d[i]=s[i]))i++; return d; }
char *stpcpy(char *d,const char *s){ size_t i=0; while((d[i]=s[i]))i++; return d+i; }
char *strncpy(char *d,const char *s,size_t n){ size_t i=0; for(;i<n&&s[i];i++)d[i]=s[i]; for(;i<n;i++)d[i]=0; return d; }
char *strcat(char *d,const char *s){ strcpy(d+strlen(d),s); return d; }
char *strncat(char *d,const char *s,size_t n){ char *p=d+strlen(d); size_t i=0; for(;i<n&&s[i];i++)p[i]=s[i]; p[i]=0; return d; }
int strcmp(const char *a,const char *b){ while(*a&&*a==*b){a++;b++;} return (int)*(const u8*)a-(int)*(const u8*)b; }
int strncmp(const char *a,const char *b,size_t n){ while(n&&*a&&*a==*b){a++;b++;n--;} return n?(int)*(const u8*)a-(int)*(const u8*)b:0; }
static int lc(int c){ return c>='A'&&c<='Z'?c+32:c; }
int strcasecmp(const char *a,const char *b){ while(*a&&lc(*(const u8*)a)==lc(*(const u8*)b)){a++;b++;} return lc(*(const u8*)a)-lc(*(const u8*)b); }
int strncasecmp(const char *a,const char *b,size_t n){ while(n&&*a&&lc(*(const u8*)a)==lc(*(const u8*)b)){a++;b++;n--;} return n?lc(*(const u8*)a)-lc(*(const u8*)b):0; }
char *strchr(const char *s,int c){ for(;;s++){ if(*s==(char)c)return (char*)s; if(!*s)return 0; } }
char *index(const char *s,int c){ return strchr(s,c); }
char *strrchr(const char *s,int c){ const char *r=0; for(;;s++){ if(*s==(char)c)r=s; if(!*s)return (char*)r; } }
char *rindex(const char *s,int c){ return strrchr(s,c); }
char *strstr(const char *h,const char *n){ size_t l=strlen(n); for(;;h++){ if(strncmp(h,n,l)==0)return (char*)h; if(!*h)return 0; } }
char *strpbrk(const char *s,const char *a){ for(;*s;s++)if(strchr(a,*s))return (char*)s; return 0; }
size_t strspn(const char *s,const char *a){ size_t n=0; while(s[n]&&strchr(a,s[n]))n++; return n; }
size_t strcspn(const char *s,const char *a){ size_t n=0; while(s[n]&&!strchr(a,s[n]))n++; return n; }
char *strsep(char **sp,const char *d){ char *s=*sp,*p; if(!s)return 0; for(p=s;;p++){ const char *q; char c=*p; if(!c){*sp=0;return s;} for(q=d;*q;q++)if(*q==c){*p=0;*sp=p+1;return s;} } }
char *strtok_r(char *s,const char *d,char **sv){ char *e; if(!s)s=*sv; s+=strspn(s,d); if(!*s){*sv=s;return 0;} e=s+strcspn(s,d); if(*e){*e=0;*sv=e+1;}else *sv=e; return s; }
char *strdup(const char *s){ size_t n=strlen(s)+1; char *p=malloc(n); memcpy(p,s,n); return p; }
char *strndup(const char *s,size_t m){ size_t n=strnlen(s,m); char *p=malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
int memcmp(const void *a,const void *b,size_t n){ const u8*x=a,*y=b; size_t i; for(i=0;i<n;i++)if(x[i]!=y[i])return (int)x[i]-(int)y[i]; return 0; }
int bcmp(const void *a,const void *b,size_t n){ return memcmp(a,b,n); }
void *memchr(const void *s,int c,size_t n){ const u8*x=s; size_t i; for(i=0;i<n;i++)if(x[i]==(u8)c)return (void*)(x+i); return 0; }
static int sp(int c){ return c==' '||(c>=9&&c<=13); }
unsigned long strtoul(const char *s,char **e,int base){ const char*s0=s; unsigned long v=0; int neg=0,any=0; while(sp(*(u8*)s))s++; if(*s=='+')s++; else if(*s=='-'){neg=1;s++;}
  if((base==0||base==16)&&s[0]=='0'&&(s[1]=='x'||s[1]=='X')&&((s[2]>='0'&&s[2]<='9')||(lc(s[2])>='a'&&lc(s[2])<='f'))){s+=2;base=16;} else if(base==0)base=s[0]=='0'?8:10;
  for(;;s++){ int c=*(u8*)s,d; if(c>='0'&&c<='9')d=c-'0'; else if(c>='a'&&c<='z')d=c-'a'+10; else if(c>='A'&&c<='Z')d=c-'A'+10; else break; if(d>=base)break; any=1; v=v*base+d; } if(e)*e=(char*)(any?s:s0); return neg?-v:v; }
long strtol(const char *s,char **e,int base){ return (long)strtoul(s,e,base); }
long __isoc23_strtol(const char *s,char **e,int base){ return strtol(s,e,base); }
unsigned long __isoc23_strtoul(const char *s,char **e,int base){ return strtoul(s,e,base); }
int atoi(const char *s){ return (int)strtol(s,0,10); }
long atol(const char *s){ return strtol(s,0,10); }
int toupper(int c){ return c>='a'&&c<='z'?c-32:c; }
int tolower(int c){ return c>='A'&&c<='Z'?c+32:c; }
int isdigit(int c){ return c>='0'&&c<='9'; }
int isxdigit(int c){ return isdigit(c)||(lc(c)>='a'&&lc(c)<='f'); }
int isspace(int c){ return sp(c); }
int isalpha(int c){ return lc(c)>='a'&&lc(c)<='z'; }
int isalnum(int c){ return isalpha(c)||isdigit(c); }
int isupper(int c){ return c>='A'&&c<='Z'; }
int islower(int c){ return c>='a'&&c<='z'; }
int isprint(int c){ return c>=32&&c<127; }
int abs(int x){ return x<0?-x:x; }
void *bsearch(const void *k,const void *b,size_t n,size_t w,int(*c)(const void*,const void*)){ size_t l=0,h=n; while(l<h){ size_t m=l+(h-l)/2; const char*p=(const char*)b+m*w; int r=c(k,p); if(r==0)return (void*)p; if(r<0)h=m; else l=m+1; } return 0; }
void qsort(void *b,size_t n,size_t w,int(*c)(const void*,const void*)){ size_t i,j,k; char*p=b; for(i=1;i<n;i++)for(j=i;j>0&&c(p+(j-1)*w,p+j*w)>0;j--)for(k=0;k<w;k++){char t=p[j*w+k];p[j*w+k]=p[(j-1)*w+k];p[(j-1)*w+k]=t;} }
#define W __attribute__((weak))
size_t fread(void *,size_t,size_t,void *); size_t fwrite(const void *,size_t,size_t,void *); void *realloc(void *,size_t);
W int iscntrl(int c){ return (c>=0&&c<32)||c==127; }
W int ispunct(int c){ return c>32&&c<127&&!isalnum(c); }
W int isgraph(int c){ return c>32&&c<127; }
W int isblank(int c){ return c==' '||c=='\t'; }
W int isascii(int c){ return c>=0&&c<128; }
W long labs(long x){ return x<0?-x:x; }
W void *mempcpy(void *d,const void *s,size_t n){ memcpy(d,s,n); return (char*)d+n; }
W void *memrchr(const void *s,int c,size_t n){ const u8*p=s; while(n--) if(p[n]==(u8)c) return (void*)(p+n); return 0; }
W void *rawmemchr(const void *s,int c){ const u8*p=s; while(*p!=(u8)c)p++; return (void*)p; }
W void *memmem(const void *a,size_t n,const void *b,size_t m){ size_t i; for(i=0;i+m<=n;i++) if(!memcmp((const char*)a+i,b,m)) return (char*)a+i; return 0; }
W char *strchrnul(const char *s,int c){ while(*s&&*s!=(char)c)s++; return (char*)s; }
W char *strcasestr(const char *a,const char *b){ size_t n=strlen(b); for(;;a++){ if(!strncasecmp(a,b,n)) return (char*)a; if(!*a) return 0; } }
W char *strtok(char *s,const char *d){ static char *k; return strtok_r(s,d,&k); }
W size_t strlcpy(char *d,const char *s,size_t n){ size_t l=strlen(s),i; if(n){ for(i=0;i<n-1&&s[i];i++)d[i]=s[i]; d[i]=0; } return l; }
W size_t strlcat(char *d,const char *s,size_t n){ size_t l=strnlen(d,n); return l==n?n+strlen(s):l+strlcpy(d+l,s,n-l); }
W unsigned long long strtoull(const char *s,char **e,int b){ return strtoul(s,e,b); }
W long long strtoll(const char *s,char **e,int b){ return strtol(s,e,b); }
W unsigned long long __isoc23_strtoull(const char *s,char **e,int b){ return strtoul(s,e,b); }
W long long __isoc23_strtoll(const char *s,char **e,int b){ return strtol(s,e,b); }
W int fgetc(void *f){ u8 c; return fread(&c,1,1,f)==1?c:-1; }
W int getc(void *f){ return fgetc(f); }
W long getdelim(char **l,size_t *n,int d,void *f){ size_t k=0; int c; while((c=fgetc(f))!=-1){ if(!*l||k+2>*n){ *n=k+64; *l=realloc(*l,*n); } (*l)[k++]=c; if(c==d) break; } if(!k) return -1; (*l)[k]=0; return k; }
W long getline(char **l,size_t *n,void *f){ return getdelim(l,n,'\n',f); }
