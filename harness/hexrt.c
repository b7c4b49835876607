/* arbitrary internal items through the textual notation and back */
#include "conv.h"
typedef unsigned char u8; typedef uint32_t u32;
static char dig(int v){ return v<10?'0'+v:'A'+v-10; }
static int items(struct bsdconv_instance*ins,u8*o){ struct data_rt*d; int n=0,j; for(d=ins->phase[ins->phasen].data_head->next;d&&n<200;d=d->next){ o[n++]=d->len; for(j=0;j<(int)d->len&&j<16;j++) o[n++]=((u8*)d->data)[j]; } return n; }
void sym_main(void){
	u8 it[3][8],ex[128],o1[256],o2[256]; int len[3],k=pint("k",2),ml=pint("maxlen",3),i,j,m=0,n1=0,n2; long l0=sym_live(); buf_t b={0,0},t; struct bsdconv_instance*ins=mk(sym_param("enc")); unsigned long ie,oe;
	bsdconv_init(ins);
	for(i=0;i<k;i++){
		len[i]=sym_range(1,ml); sym_bytes(it[i],len[i],"item"); sym_assume(it[i][0]!=0);
		for(j=0;j<len[i];j++){ ex[m++]=dig(it[i][j]>>4); ex[m++]=dig(it[i][j]&15); } ex[m++]=',';
		o1[n1++]=len[i]; for(j=0;j<len[i];j++) o1[n1++]=it[i][j]; o1[n1++]=2; o1[n1++]=0; o1[n1++]=0x2c;
		feed(ins,it[i],len[i],i==k-1); t=run(ins);
		{ buf_t c; c.d=malloc(b.n+t.n+1); if(b.n)memcpy(c.d,b.d,b.n); if(t.n)memcpy(c.d+b.n,t.d,t.n); c.n=b.n+t.n; free(b.d); free(t.d); b=c; }
	}
	oe=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins);
	sym_observe("text",b.d,b.n);
	sym_assert(oe==0,"no output errors"); sym_assert(b.n==(size_t)m,"length of the notation"); sym_assert(sym_memeq(b.d,ex,m),"text of the notation");
	ins=mk(sym_param("dec")); bsdconv_init(ins); feed(ins,b.d,b.n,1); ins->output_mode=BSDCONV_HOLD; bsdconv(ins);
	n2=items(ins,o2); ie=*bsdconv_counter(ins,"IERR"); bsdconv_destroy(ins);
	sym_observe("back",o2,n2);
	sym_assert(ie==0,"the notation is read without errors"); sym_assert(n1==n2,"number and size of the items read back"); sym_assert(sym_memeq(o1,o2,n1),"items read back");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
