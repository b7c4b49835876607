/* Hangul syllables: arithmetic composition and decomposition of arbitrary character sequences */
#include "conv.h"
#include "items.h"
static int L(u32 c){ return c>=0x1100&&c<=0x1112; }
static int V(u32 c){ return c>=0x1161&&c<=0x1175; }
static int T(u32 c){ return c>=0x11a8&&c<=0x11c2; }
static int S(u32 c){ return c>=0xac00&&c<=0xd7a3; }
static int split(u32*c,int k,u32*o){ int i,n=0; for(i=0;i<k;i++) if(S(c[i])){ u32 s=c[i]-0xac00; o[n++]=0x1100+s/588; o[n++]=0x1161+s%588/28; if(s%28) o[n++]=0x11a7+s%28; } else o[n++]=c[i]; return n; }
/* jamo -> syllables; full: also a syllable without final consonant takes one */
static int join(u32*c,int k,u32*o){ int i=0,n=0; while(i<k){
	if(L(c[i])&&i+1<k&&V(c[i+1])){ u32 s=0xac00+((c[i]-0x1100)*21+(c[i+1]-0x1161))*28; i+=2; if(i<k&&T(c[i])){ s+=c[i]-0x11a7; i++; } o[n++]=s; sym_cover("syllable"); }
	else o[n++]=c[i++]; } return n; }
static int emit(u32*c,int k,int mode,u8*o,int m){ u32 a[24],b[24]; int i,n;
	if(mode==0) n=split(c,k,a); else if(mode==1) n=join(c,k,a); else { n=split(c,k,b); n=join(b,n,a); }
	for(i=0;i<n;i++) m=put_u(o,m,a[i]); return m; }
void sym_main(void){
	const char*pat=sym_param("pat"); int k=strlen(pat),i,n=0,m=0,oc,mode=pint("mode",0); item_t it[6]; u32 c[6],r[6]; u8 ex[512],ob[512]; long l0=sym_live(); struct bsdconv_instance*ins=mk(sym_param("conv"));
	for(i=0;i<k;i++){
		if(pat[i]=='x'){ c[i]=0; memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(1,2); sym_bytes(it[i].b,it[i].n,"item"); sym_assume(it[i].b[0]!=1); sym_assume(it[i].b[0]!=0); continue; }
		c[i]=scalar_in(0x10ffff);
		if(pat[i]=='j') sym_assume(c[i]>>8==0x11);
		else if(pat[i]=='h') sym_assume(S(c[i]));
		else if(pat[i]=='b'){ sym_assume(c[i]<0x10000); sym_assume(!T(c[i])||1); }
		it[i]=uitem(c[i]);
	}
	bsdconv_init(ins); feed_items(ins,it,k); oc=collect(ins,ob,sizeof ob); sym_observe("items",ob,oc);
	for(i=0;i<k;i++){ if(pat[i]=='x'){ m=emit(r,n,mode,ex,m); n=0; m=put_item(ex,m,it[i].b,it[i].n); } else r[n++]=c[i]; }
	m=emit(r,n,mode,ex,m);
	sym_assert(oc==m,"number and size of the characters");
	sym_assert(sym_memeq(ob,ex,m),"Hangul characters");
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
