/* long inputs: blocks and items of any length, cut anywhere */
#include "conv.h"
#include <stdlib.h>
#include <string.h>
typedef unsigned char u8;
static u8 in[150000]; static u8 out[600000];
static int nib(int c){ return c<='9'?c-'0':(c|32)-'a'+10; }
static int unhex(u8*o,const char*h){ int n=0; for(;h&&h[0]&&h[1];h+=2) o[n++]=nib(h[0])<<4|nib(h[1]); return n; }
static int take(struct bsdconv_instance*a,int m){ buf_t b=run(a); sym_assert(m+(int)b.n<(int)sizeof out,"size of the output"); memcpy(out+m,b.d,b.n); free(b.d); return m+b.n; }
void sym_main(void){
	const char*conv=sym_param("conv"); u8 unit[16],b,lo=pint("lo",0),hi=pint("hi",255); int ul=unhex(unit,sym_param("unit")),reps=pint("reps",100),n=0,k,cut,cutn,pos,i,m; long l0=sym_live(); struct bsdconv_instance*a,*o; buf_t w; unsigned long e[4];
	n=unhex(in,sym_param("pre")); k=n; for(i=0;i<reps;i++){ memcpy(in+n,unit,ul); n+=ul; }
	/* an arbitrary byte in front of a unit: the first, one in the middle, the last */
	pos=pint("pos",-1); if(pos<0) pos=sym_range(0,2); pos=pos==0?0:pos==1?reps/2:reps-1; pos=k+pos*ul; sym_bytes(&b,1,"byte"); sym_assume(b>=lo&&b<=hi); memmove(in+pos+1,in+pos,n-pos); in[pos]=b; n++;
	n+=unhex(in+n,sym_param("post"));
	{ int C[]={1,255,256,257,4096,65535,65536,65537,n-1}; cut=pint("cut",-1); if(cut<0) cut=sym_range(0,8); cutn=C[cut]; sym_assume(cutn<n); }
	a=mk(conv); bsdconv_init(a); feed(a,in,cutn,0); m=take(a,0); feed(a,in+cutn,n-cutn,1); m=take(a,m); e[0]=*bsdconv_counter(a,"IERR"); e[1]=*bsdconv_counter(a,"OERR"); bsdconv_destroy(a);
	w=conv1(conv,in,n,&e[2],&e[3]); sym_assert((int)w.n==m&&!memcmp(w.d,out,m),"the same output for the whole input and for parts"); sym_assert(e[0]==e[2]&&e[1]==e[3],"the same errors for the whole input and for parts");
	if(pint("id",0)){ sym_assert(m==n&&!memcmp(in,out,n),"the input is reproduced"); sym_assert(e[0]==0&&e[1]==0,"no errors"); }
	if(sym_param("wunit")){ int c=unhex(in,sym_param("whead")); for(i=0;i<pint("wreps",reps);i++) c+=unhex(in+c,sym_param("wunit")); for(i=0;i<pint("wreps2",0);i++) c+=unhex(in+c,sym_param("wunit2")?sym_param("wunit2"):""); sym_assert(m==c&&!memcmp(in,out,c),"the text that is due"); }
	if((k=pint("count",-1))>=0) sym_assert(e[0]==(unsigned long)n*k,"every character is counted");
	if((k=pint("first",-1))>=0) sym_assert(m==k&&!memcmp(in,out,m),"as many characters as are asked for");
	if((k=pint("runs",-1))>=0){ static u8 x[3000]; int c=0,r=0; for(i=0;i<=n;i++) if(i<n&&in[i]==unit[0]) r++; else { if(r>=k){ memcpy(x+c,in+i-r,r); c+=r; x[c++]='\n'; } r=0; } sym_assert(m==c&&!memcmp(x,out,c),"the long strings"); }
	if((k=pint("key",-1))>=0){ static u8 x[3000]; int c=0; for(i=0;i<n;){ int r; for(r=0;r<k&&i+r<n&&in[i+r]==unit[0];r++); if(r==k){ x[c++]='B'; i+=k; } else x[c++]=in[i++]; } sym_assert(m==c&&!memcmp(x,out,c),"long occurrences are replaced"); }
	if(sym_param("put")){ u8 p[700]; int l=unhex(p,sym_param("put")); sym_assert(m==n*(l+1),"everything is inserted"); for(i=0;i<n;i++) sym_assert(out[i*(l+1)]==in[i]&&!memcmp(out+i*(l+1)+1,p,l),"what is inserted"); }
	free(w.d); sym_cover("output"); sym_assert(sym_live()==l0,"all memory released");
}
