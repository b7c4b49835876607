/* display width: counting, trimming, padding of ambiguous characters */
#include "conv.h"
#include "items.h"
#include TABLE
void sym_main(void){
	const char*pat=sym_param("pat"); int k=strlen(pat),i,n=0,m=0,oc,mode=pint("mode",0),aw=pint("ambi",1),N=pint("width",3),w,ctl=pint("ctl",-1); item_t it[6]; u32 c[6]; int cl[6]; u8 ex[512],ob[512]; long l0=sym_live(); struct bsdconv_instance*ins=mk(sym_param("conv")); unsigned long f=0,h=0,a=0,rf,rh,ra; long rem=N; int s=0,pad=ctl!=0;
	for(i=0;i<k;i++){
		if(pat[i]=='x'){ c[i]=0; cl[i]=0; memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(1,2); sym_bytes(it[i].b,it[i].n,"item"); sym_assume(it[i].b[0]!=1); sym_assume(it[i].b[0]!=0); continue; }
		if(pat[i]=='p') c[i]=POOL[sym_range(0,NPOOL-1)]; else c[i]=scalar_in(0x10ffff);
		it[i]=uitem(c[i]); 
	}
	bsdconv_init(ins); if(ctl>=0) bsdconv_ctl(ins,BSDCONV_CTL_AMBIGUOUS_PAD,0,ctl);
	feed_items(ins,it,k); oc=collect(ins,ob,sizeof ob); sym_observe("items",ob,oc);
	for(i=0;i<k;i++) if(pat[i]!='x'){ cl[i]=wclass(c[i]); if(cl[i]==9) sym_skip(); }
	for(i=0;i<k;i++){
		int amb=cl[i]==3,drop=0;
		if(c[i]==0x32&&pint("sub",0)){ m=put_u(ex,m,0x2082); sym_cover("substituted"); continue; }
		if(cl[i]==1) h++; else if(cl[i]==2) f++; else if(amb) a++;
		w=cl[i]==1?1:cl[i]==2?2:amb?aw:0;
		if(mode==1){ if(rem>=w) rem-=w; else { rem=-1; drop=1; sym_cover("cut"); } }
		if(mode==3||mode==4){ if(s&&pat[i]!='x'&&c[i]==0xa0){ drop=1; s=0; sym_cover("unpadded"); } else s=amb&&pad; }
		if(mode==4){ drop=0; }
		if(!drop) m=put_item(ex,m,it[i].b,it[i].n);
		if(mode==2&&amb&&pad){ m=put_u(ex,m,0xa0); sym_cover("padded"); }
	}
	sym_assert(oc==m,"number and size of the characters");
	sym_assert(sym_memeq(ob,ex,m),"resulting characters");
	if(mode==0){ rf=*bsdconv_counter(ins,"FULL"); rh=*bsdconv_counter(ins,"HALF"); ra=*bsdconv_counter(ins,"AMBI"); sym_assert(rf==f,"full width count"); sym_assert(rh==h,"half width count"); sym_assert(ra==a,"ambiguous width count"); }
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
