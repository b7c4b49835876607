/* textual notations -> internal characters, compared item by item with the reference reader */
#include "conv.h"
#include "text.h"
void sym_main(void){
	u8 in[24],ex[32][16],ob[256],eb[256]; int el[32]; int n=pint("n",4),i=0,j,k,m=0,mode=pint("mode",0),fb=pint("fallback",1),p,oc=0,ec=0,bad=0; const char*pre=sym_param("pre"); const char*alpha=sym_param("alpha"); long l0=sym_live(); struct bsdconv_instance*ins=mk(sym_param("conv")); struct data_rt*d; unsigned long ie;
	for(i=0;pre&&pre[i];i++) in[i]=pre[i];
	if(alpha) for(;i<n;i++) in[i]=alpha[sym_range(0,strlen(alpha)-1)];
	else if(i<n) sym_bytes(in+i,n-i,"in");
	bsdconv_init(ins); feed(ins,in,n,1); ins->output_mode=BSDCONV_HOLD; bsdconv(ins);
	for(p=0;p<n;){
		k=mode==0?esc1(in+p,n-p,ex[m],&el[m]):mode==1?num1(in+p,n-p,ex[m],&el[m]):hexrun(in+p,n-p,ex[m],&el[m]);
		if(!k){ k=1; if(!fb){ bad++; p++; continue; } ex[m][0]=3; ex[m][1]=in[p]; el[m]=2; } else { sym_cover("sequence"); if(ex[m][0]==1) sym_cover("character"); else sym_cover("byte"); }
		m++; p+=k;
	}
	for(i=0;i<m;i++){ eb[ec++]=el[i]; for(j=0;j<el[i];j++) eb[ec++]=ex[i][j]; }
	for(d=ins->phase[ins->phasen].data_head->next;d&&oc<200;d=d->next){ ob[oc++]=d->len; for(j=0;j<(int)d->len&&j<16;j++) ob[oc++]=((u8*)d->data)[j]; }
	ie=*bsdconv_counter(ins,"IERR");
	sym_observe("items",ob,oc); sym_observe("ierr",&ie,8);
	sym_assert(oc==ec,"number and size of the decoded items");
	sym_assert(sym_memeq(ob,eb,ec),"decoded items");
	sym_assert(ie==(unsigned long)bad,"one input error per byte that belongs to no sequence");
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
