/* Output modules without a table - ANY, RAW, and the links of ASCII-HTML-* -, and ANY as input: arbitrary items (through PASS) and bytes. */
#include "conv.h"
#include <string.h>
#include <stdlib.h>
#include "items.h"
static int hx(const char*s){ int v=0,i; for(i=0;i<2;i++){ int c=s[i]; v=v*16+(c<='9'?c-'0':(c|32)-'a'+10); } return v; }
static int put(u8*o,int m,const char*s){ int l=strlen(s); memcpy(o+m,s,l); return m+l; }
static int h2(u8*o,int m,u8 c){ o[m++]="0123456789ABCDEF"[c>>4]; o[m++]="0123456789ABCDEF"[c&15]; return m; }
static int h1(u8*o,int m,u8 c){ if(c>15) o[m++]="0123456789ABCDEF"[c>>4]; o[m++]="0123456789ABCDEF"[c&15]; return m; }
static int ascii(item_t*t,u8*o){ if(t->b[0]!=1) return 0; if(t->n==2&&t->b[1]&&t->b[1]<0x80){ *o=t->b[1]; return 1; } if(t->n==3&&t->b[1]==2&&t->b[2]==0xdc){ *o=0x7e; return 1; } return 0; }
void sym_main(void){
	const char*f=sym_param("fn"),*args=sym_param("args"),*ctr=sym_param("ctr"),*rep=sym_param("rep"),*pre=sym_param("pre"); int k=pint("k",2),i,j,m=0,in=!strcmp(f,"from"),ne=0; item_t it[4]; u8 t[8],ex[1200]; char cv[120]; struct bsdconv_instance*ins; buf_t b; u8 o[300]; int on;
	if(!rep) rep=""; if(!pre) pre=""; 
	cv[0]=0; if(!in) strcat(cv,"pass:"); strcat(cv,pre); strcat(cv,!strcmp(f,"from")||!strcmp(f,"any")?"any":f); if(args){ strcat(cv,"#"); strcat(cv,args); } if(in) strcat(cv,":pass");
	ins=mk(cv); bsdconv_init(ins);
	if(in){ int c=sym_range(0,k); sym_bytes(t,k,"bytes"); for(i=0;i<k;i++){ const char*r; if(pre[0]&&t[i]&&t[i]<0x80){ m=put_u(ex,m,t[i]); continue; } ne++; for(r=rep;*r;){ u8 q[20]; int n=0; while(*r&&*r!='.'){ q[n++]=hx(r); r+=2; } if(*r) r++; m=put_item(ex,m,q,n); } }
		ins->output_mode=BSDCONV_HOLD; feed(ins,t,c,0); bsdconv(ins); ins->output_mode=BSDCONV_HOLD; feed(ins,t+c,k-c,1); bsdconv(ins); on=collect(ins,o,sizeof o); sym_observe("items",o,on); sym_assert(on==m&&sym_memeq(o,ex,m),"every byte stands for the items that are named"); if(ne) sym_cover("replaced"); }
	else {
		for(i=0;i<k;i++){ int n=sym_range(pint("min",1),pint("max",4)); it[i].n=n; sym_bytes(it[i].b,n,"item"); if(!strcmp(f,"raw")){ memcpy(ex+m,it[i].b+1,n-1); m+=n-1; continue; }
			if(!strcmp(f,"any")){ const char*r; if(pre[0]&&ascii(&it[i],ex+m)){ m++; continue; } ne++; for(r=rep;*r;){ while(*r&&*r!='.'){ ex[m++]=hx(r); r+=2; } if(*r) r++; } continue; }
			if(pre[0]&&ascii(&it[i],ex+m)){ m++; continue; }
			if(!strcmp(f,"ascii-html-unicode-img")){ if(it[i].b[0]!=1){ ne++; continue; } m=put(ex,m,"<img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-"); m=h1(ex,m,it[i].b[1]); for(j=2;j<n;j++) m=h2(ex,m,it[i].b[j]); m=put(ex,m,"\" />"); continue; }
			if(it[i].b[0]==1){ m=put(ex,m,"<a href=\"http://www.fileformat.info/info/unicode/char/"); for(j=1;j<n;j++) m=h2(ex,m,it[i].b[j]); m=put(ex,m,"/index.htm\"><img class=\"unicode_img\" src=\"http://www.unicode.org/cgi-bin/refglyph?24-"); m=h1(ex,m,it[i].b[1]); for(j=2;j<n;j++) m=h2(ex,m,it[i].b[j]); m=put(ex,m,"\" /></a>"); }
			else if(it[i].b[0]==2){ int x; for(x=0;x<2;x++){ m=put(ex,m,x?"\"><img src=\"http://www.cns11643.gov.tw/AIDB/png.do?page=":"<a href=\"http://www.cns11643.gov.tw/AIDB/query_general_view.do?page="); m=h1(ex,m,it[i].b[1]); m=put(ex,m,"&code="); for(j=2;j<n;j++) m=h2(ex,m,it[i].b[j]); } m=put(ex,m,"\" /></a>"); }
			else ne++; }
		{ static u8 all[1200]; int an=0; for(i=0;i<k;i++){ feed(ins,it[i].b,it[i].n,i==k-1); b=run(ins); memcpy(all+an,b.d,b.n); an+=b.n; free(b.d); }
		  sym_observe("out",all,an<200?an:200); sym_assert(an==m&&sym_memeq(all,ex,m),"the output"); if(m) sym_cover("output"); if(ne) sym_cover("replaced"); }
	}
	{ unsigned long e=*bsdconv_counter(ins,"OERR"),e2=*bsdconv_counter(ins,"IERR"); int own=in?0:strcmp(f,"any")!=0&&strcmp(f,"raw")!=0;
	  int wo=own?ne:0,wi=0; if(ctr){ if(!strcmp(ctr,"OERR")) wo=ne; else if(!strcmp(ctr,"IERR")) wi=ne; else sym_assert(*bsdconv_counter(ins,ctr)==(unsigned long)ne,"the counter that is named"); }
	  sym_assert(e==(unsigned long)wo,"OERR"); sym_assert(e2==(unsigned long)wi,"IERR"); }
	bsdconv_destroy(ins);
}
