/* filters and scorers: membership of arbitrary items, observed through COUNT, PASS and SCORE */
#include "conv.h"
#include "items.h"
#include TABLE
static int member(int f,const item_t*it,u32 c){ int i; if(FT[f].type) return it->n>0&&it->b[0]==FT[f].type; if(it->b[0]!=1) return 0; for(i=0;i<FT[f].n;i++) if(c>=FT[f].r[i][0]&&c<=FT[f].r[i][1]) return FT[f].r[i][2]; return 0; }
void sym_main(void){
	const char*pat=sym_param("pat"); int k=strlen(pat),i,j,lo=pint("lo",0),f=lo+sym_range(0,pint("hi",NFT-1)-lo),m=0,oc,exp=0,no=0,scorer=pint("scorer",0); char conv[200]; item_t it[4]; u32 c[4]; u8 ex[128],ob[256]; long l0=sym_live(); struct bsdconv_instance*ins; unsigned long n,oe;
	if(scorer) snprintf(conv,sizeof conv,"pass:score#with=%s%s:pass",FT[f].name,k>1?"&as=pts":"");
	else snprintf(conv,sizeof conv,"pass:count#for=%s&hits:pass#for=%s",FT[f].name,FT[f].name);
	ins=mk(conv);
	for(i=0;i<k;i++){
		c[i]=0; memset(&it[i],0,sizeof it[i]);
		if(pat[i]=='u'){ u8 t[3]; sym_bytes(t,3,"value"); c[i]=(u32)t[0]<<16|t[1]<<8|t[2]; sym_assume(c[i]<=0x110000); it[i]=uitem(c[i]); }
		else { it[i].n=sym_range(1,3); sym_bytes(it[i].b,it[i].n,"item"); sym_assume(it[i].b[0]!=1); }
		j=member(f,&it[i],c[i]); if(j) sym_cover("in"); else sym_cover("out");
		exp+=j; if(j||scorer) m=put_item(ex,m,it[i].b,it[i].n); else no++;
	}
	bsdconv_init(ins); feed_items(ins,it,k); oc=collect(ins,ob,sizeof ob); n=*bsdconv_counter(ins,scorer?k>1?"pts":"score":"hits"); oe=*bsdconv_counter(ins,"OERR");
	sym_observe("items",ob,oc); sym_observe("count",&n,8); sym_observe("oerr",&oe,8);
	sym_assert(n==(unsigned long)exp,scorer?"score":"items counted by the filter");
	sym_assert(oe==(unsigned long)no,"items refused by the filter");
	sym_assert(oc==m,"number and size of the items passed"); sym_assert(sym_memeq(ob,ex,m),"items passed");
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
