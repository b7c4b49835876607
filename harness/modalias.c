/* Every alias stands for what the alias file says: as a name for bsdconv_solve_alias, in a conversion, with arguments and in any spelling; everything that is listed can be resolved. */
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
#include <ctype.h>
#include "conv.h"
static const char*TD[]={"from","inter","to","filter"}; static int T[]={FROM,INTER,TO,FILTER};
static char A[128][2][100]; static int na;
int chdir(const char*p){ sym_assert(0,"the working directory stays the caller's"); return -1; }
static void load(const char*t){ char p[600],b[256],*c; FILE*f; na=0; snprintf(p,sizeof p,"%s/share/bsdconv/%s/alias",getenv("BSDCONV_PATH"),t); f=fopen(p,"rb"); sym_assert(f!=NULL,"the alias file");
	while(fgets(b,sizeof b,f)){ if(b[0]=='#'||!(c=strchr(b,'\t'))) continue; *c++=0; while(*c=='\t') c++; c[strcspn(c,"\r\n")]=0; strcpy(A[na][0],b); strcpy(A[na][1],c); na++; } fclose(f); }
static const char*find(const char*n){ int i; for(i=0;i<na;i++) if(!strcasecmp(A[i][0],n)) return A[i][1]; return NULL; }
void sym_main(void){
	int k=pint("type",0),i,j; const char*f=sym_param("fn"),*arg=sym_param("arg"); char n[100],w[400],v[400]; char*s;
	load(TD[k]);
	if(!strcmp(f,"list")){
		char**l=bsdconv_modules_list(T[k]); int m; const char*e; for(m=0;l[m];m++); sym_assert(m>na,"modules and aliases");
		i=sym_range(0,m-1); sym_observe("name",l[i],strlen(l[i]));
		for(j=0;j<m;j++) if(j>i) sym_assert(strcmp(l[j],l[i])>(k==3?-1:0) /* the checks put files beside the filters */,"each name once, in order");
		e=find(l[i]); s=bsdconv_solve_alias(T[k],l[i]);
		if(e){ sym_assert(!bsdconv_module_check(T[k],l[i]),"an alias is no module"); sym_assert(s!=NULL&&!strcmp(s,e),"the alias is resolved"); sym_cover("alias"); }
		else { sym_assert(bsdconv_module_check(T[k],l[i]),"a module"); sym_assert(s==NULL||!strcmp(s,l[i]),"a module is no alias"); sym_cover("module"); }
		free(s); for(j=0;l[j];j++) free(l[j]); free(l); return; }
	if(!strcmp(f,"none")){   /* what is neither alias nor module */
		int c=pint("n",3); sym_bytes(n,c,"name"); n[c]=0; for(i=0;i<c;i++){ sym_assume(n[i]>' '); sym_assume(n[i]<127); }
		sym_observe("name",n,c);
		s=bsdconv_solve_alias(T[k],n); for(i=0;i<c;i++) n[i]=n[i]>='a'&&n[i]<='z'?n[i]-32:n[i];
		{ const char*e=NULL; for(i=0;i<na;i++) if(!strcmp(A[i][0],n)) e=A[i][1]; if(e){ sym_assert(s!=NULL&&!strcmp(s,e),"the alias is resolved"); sym_cover("alias"); } else { sym_assert(s==NULL||!strcmp(s,n)||!bsdconv_module_check(T[k],s),"nothing else is resolved"); sym_cover("none"); } }
		free(s); return; }
	if(!strcmp(f,"long")){   /* names no file can have */
		static const int LEN[]={240,254,255,256,257,300,4000,4080,4090,4093,4095,4096,4097,4200,9000}; int len=LEN[sym_range(0,14)],kk=sym_range(0,4); const char*pr=((const char*[]){"","pass:","pass:","pass:count#for=","pass:score#with="})[kk],*po=((const char*[]){":pass",":pass","",":pass",":pass"})[kk]; char*c=malloc(len+100); struct bsdconv_instance*b;
		strcpy(c,pr); memset(c+strlen(pr),pint("dot",0)?'/':'n',len); c[strlen(pr)+len]=0; strcat(c,po); b=bsdconv_create(c); sym_assert(b==NULL,"there is no such module"); sym_cover("refused"); free(c); return; }
	/* alias and what it stands for give the same conversion */
	i=sym_range(0,na-1); strcpy(n,A[i][0]); sym_observe("name",n,strlen(n));
	switch(sym_range(0,2)){ case 1: for(j=0;n[j];j++) n[j]=tolower(n[j]); break; case 2: for(j=0;n[j];j++) if(j&1) n[j]=tolower(n[j]); break; }
	w[0]=v[0]=0; { const char*e=A[i][1]; char x[400],*o=x; 
		for(;;){ if((*e==0||*e==',')&&*arg){ const char*q=o; int h=0; while(q>x&&q[-1]!=',') if(*--q=='#') h=1; *o++=h?'&':'#'; strcpy(o,arg); o+=strlen(o); } *o++=*e; if(!*e) break; e++; }
		switch(k){ case 0: snprintf(w,400,"%s%s%s:pass",n,*arg?"#":"",arg); snprintf(v,400,"%s:pass",x); break; case 1: snprintf(w,400,"pass:%s%s%s:pass",n,*arg?"#":"",arg); snprintf(v,400,"pass:%s:pass",x); break; case 2: snprintf(w,400,"pass:%s%s%s",n,*arg?"#":"",arg); snprintf(v,400,"pass:%s",x); break; case 3: snprintf(w,400,"pass:count#for=%s:pass",n); snprintf(v,400,"pass:count#for=%s:pass",x); } }
	{ struct bsdconv_instance*a=bsdconv_create(w),*b=bsdconv_create(v); sym_assert(!a==!b,"created or refused alike");
	if(a){ char*p=bsdconv_pack(a),*q=bsdconv_pack(b); sym_observe("packed",p,strlen(p)); if(k!=3) sym_assert(!strcasecmp(p,q),"the same conversion"); free(p); free(q); bsdconv_destroy(a); bsdconv_destroy(b); sym_cover("created"); } }
}
