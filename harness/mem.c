/* any input, through any module: no memory error, everything released, an end reached; what happened must not depend on memory contents */
#include "conv.h"
#define ITEMMAX 48
#include "items.h"
void sym_main(void){
	const char*pat=sym_param("pat"),*conv=sym_param("conv"),*pre=sym_param("prefix"); int k=strlen(pat),i,p,q,n=pint("n",0),L=pint("max",6),cut=pint("cut",0),fin=1; item_t it[6]; u8 in[24]; buf_t b; long l0; struct bsdconv_instance*ins; unsigned long c[2]; int m=0;
	l0=sym_live(); ins=mk(conv);
	if(pre){ char s[3]={0}; while(pre[0]){ s[0]=pre[0]; s[1]=pre[1]; in[m++]=strtol(s,0,16); pre+=2; } }
	if(n){ sym_bytes(in+m,n,"in"); n+=m; }
	for(i=0;i<k;i++){ memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(pint("min",1),L); { int h=it[i].n>8?4:it[i].n,z; sym_bytes(it[i].b,h,"item"); for(z=h;z<it[i].n;z++) it[i].b[z]=it[i].b[3]; /* the tail of a long item repeats one byte */ } if(pat[i]=='u'&&it[i].n) sym_assume(it[i].b[0]==1); if(pat[i]=='x'&&it[i].n) sym_assume(it[i].b[0]!=1); }
	if(pint("ab",0)) fin=sym_range(0,1); /* or the conversion is abandoned */
	bsdconv_init(ins);
	if(n){ p=0; if(cut){ q=sym_range(0,n); feed(ins,in,q,0); ins->output_mode=BSDCONV_HOLD; bsdconv(ins); p=q; } feed(ins,in+p,n-p,fin); }
	else { for(i=0;i<k;i++){ feed(ins,it[i].b,it[i].n,i==k-1&&fin); if(i<k-1){ ins->output_mode=BSDCONV_HOLD; bsdconv(ins); } } }
	b=run(ins); sym_observe("out",b.d,b.n);
	c[0]=*bsdconv_counter(ins,"IERR"); c[1]=*bsdconv_counter(ins,"OERR"); sym_observe("errors",c,16);
	free(b.d); bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
