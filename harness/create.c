/* bsdconv_create on arbitrary conversion strings: accepted or rejected, never leaking or misusing memory */
#include "conv.h"
#include "text.h"
#include <limits.h>
#include <stdlib.h>
#include <errno.h>
static int in(const char*a,int c){ for(;*a;a++) if((u8)*a==c) return 1; return 0; }
/* dot separated lists of hexadecimal bytes; without dots with dots==0 */
static int hexok(const char*s,int n,int dots){ int i,k=0; for(i=0;i<n;i++){ if(s[i]=='.'&&dots){ if(k&1) return 0; k=0; continue; } if(hexv((u8)s[i])<0) return 0; k++; } return !(k&1); }
/* what bsdconv_error tells: the same as for the plainest conversion of that kind */
static void why(const char*e){ char*m=bsdconv_error(),*r; sym_assert(m!=NULL&&*m,"the error is told"); errno=0; r=bsdconv_error(); sym_assert(strcmp(m,r),"the error is known"); free(r);
	if(e&&*e){ sym_assert(!bsdconv_create(*e=='s'?"utf-8::utf-8":"utf-8:no-such:utf-8"),"conversion rejected"); r=bsdconv_error(); sym_assert(!strcmp(m,r),*e=='s'?"told to be an error in the conversion string":"told to be an unknown module"); free(r); sym_cover("told"); }
	free(m); }
void sym_main(void){
	const char*pre=sym_param("pre"),*suf=sym_param("suf"),*fault=sym_param("fault"),*root,*al=sym_param("al"),*valid=sym_param("valid"); char s[256],keep[4096]; int n=pint("n",0),lp=strlen(pre),ls=suf?strlen(suf):0,i,ok=-1; struct bsdconv_instance*ins; buf_t o; char*p; long l0=sym_live();
	memcpy(s,pre,lp); if(n) sym_bytes(s+lp,n,"text");
	for(i=0;i<n;i++){ u8 c=s[lp+i]; if(al&&*al) sym_assume(in(al,c)); else sym_assume(c&&c!=':'&&c!='|'&&c!=','&&!in(" \t\r\n\f",c)); if(valid&&*valid) sym_assume(c!='&'&&c!='='); }
	memcpy(s+lp+n,suf?suf:"",ls); s[lp+n+ls]=0;
	if(valid&&*valid){ ok=*valid=='n'?0:*valid=='y'?1:hexok(s+lp,n,*valid=='h'); if(valid[1]=='1'&&n==0) ok=0; }
	if(fault&&*fault){ if(*fault=='e'){ root=getenv("BSDCONV_PATH"); snprintf(keep,sizeof keep,"%s",root); setenv("BSDCONV_PATH","/nowhere",1); } else sym_fault(fault,1+sym_range(0,pint("kmax",4))); }
	ins=bsdconv_create(s);
	if(fault&&*fault){ if(*fault=='e'){ setenv("BSDCONV_PATH",keep,1); sym_assert(!ins,"conversion without modules"); } else sym_fault(fault,0); }
	if(ok>=0) sym_assert((ins!=NULL)==ok,"conversion accepted exactly when its arguments are valid");
	if(!ins){ sym_cover("rejected"); sym_assert(sym_live()==l0,"everything of a rejected conversion is released"); why(sym_param("err")); return; }
	sym_cover("accepted");
	p=bsdconv_pack(ins); free(p);
	if(sym_range(0,1)){
		bsdconv_init(ins); feed(ins,"a\xcc\x80",3,1); o=run(ins); free(o.d);
		bsdconv_init(ins); feed(ins,"%u",2,0); o=run(ins); free(o.d);
	}
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
