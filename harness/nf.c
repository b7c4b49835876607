/* normalization forms against the algorithm of UAX #15 over independent character data */
#include "conv.h"
#include "items.h"
#include "trie.h"
#include TABLE
#define NCH 64
static int look(const trie_t*t,u32 c,int*v){ item_t it=uitem(c); int i,s=0; for(i=0;i<it.n;i++){ s=tnext(t,s,it.b[i]); if(!s) return 0; } if(t->val[s]<0) return 0; *v=t->val[s]; return 1; }
static int ccc(u32 c){ int v; return look(&t1,c,&v)?(int)t1.vd[t1.vo[v]]:0; }
static u32 comp(u32 a,u32 b){ item_t x=uitem(a),y=uitem(b); int i,s=0;
	if(a>=0x1100&&a<0x1113&&b>=0x1161&&b<0x1176) return 0xac00+((a-0x1100)*21+(b-0x1161))*28;
	if(a>=0xac00&&a<=0xd7a3&&(a-0xac00)%28==0&&b>0x11a7&&b<0x11c3) return a+b-0x11a7;
	for(i=0;i<x.n;i++){ s=tnext(&t2,s,x.b[i]); if(!s) return 0; } s=tnext(&t2,s,256); if(!s) return 0; for(i=0;i<y.n;i++){ s=tnext(&t2,s,y.b[i]); if(!s) return 0; } return t2.val[s]<0?0:t2.vd[t2.vo[t2.val[s]]]; }
/* one run of characters, appended to o */
static int norm(u32*c,int k,int compose,u8*o,int m){
	u32 d[NCH]; int cc[NCH],n=0,i,j,v,w; u32 r;
	for(i=0;i<k;i++){
		if(c[i]>=0xac00&&c[i]<=0xd7a3){ u32 s=c[i]-0xac00; d[n++]=0x1100+s/588; d[n++]=0x1161+s%588/28; if(s%28) d[n++]=0x11a7+s%28; }
		else if(look(&t0,c[i],&v)) for(j=t0.vo[v];j<t0.vo[v+1];j++) d[n++]=t0.vd[j];
		else d[n++]=c[i];
	}
	for(i=0;i<n;i++) cc[i]=ccc(d[i]);
	for(i=1;i<n;i++) for(j=i;j>0&&cc[j]&&cc[j-1]>cc[j];j--){ r=d[j]; d[j]=d[j-1]; d[j-1]=r; w=cc[j]; cc[j]=cc[j-1]; cc[j-1]=w; }
	if(compose){ int st=-1,last=0,q=0; /* last: class of the previous kept character, -1 right after the starter */
		for(i=0;i<n;i++){
			if(st>=0&&(last==-1||(last!=0&&last<cc[i]))&&(r=comp(d[st],d[i]))){ d[st]=r; sym_cover("composed"); continue; }
			if(cc[i]==0){ st=q; last=-1; } else if(st>=0) last=cc[i];
			d[q]=d[i]; cc[q]=cc[i]; q++;
		}
		n=q;
	}
	for(i=0;i<n;i++) m=put_u(o,m,d[i]);
	return m;
}
void sym_main(void){
	const char*pat=sym_param("pat"); int k=strlen(pat),i,n=0,m=0,oc; item_t it[6]; u32 c[6],run_[6]; u8 ex[512],ob[512]; int v; long l0=sym_live(); struct bsdconv_instance*ins=mk(sym_param("conv")); int compose=pint("compose",0);
	for(i=0;i<k;i++){
		if(pat[i]=='s'){ c[i]=scalar_in(pint("hi",0x10ffff)); if(pint("lo",0)) sym_assume(c[i]>=(u32)pint("lo",0)); sym_assume(!look(&t3,c[i],&v)); it[i]=uitem(c[i]); }
		else if(pat[i]=='p'){ c[i]=POOL[sym_range(0,NPOOL-1)]; it[i]=uitem(c[i]); }
		else { c[i]=0; memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(1,2); sym_bytes(it[i].b,it[i].n,"item"); sym_assume(it[i].b[0]!=1); sym_assume(it[i].b[0]!=0); }
	}
	bsdconv_init(ins); feed_items(ins,it,k);
	oc=collect(ins,ob,sizeof ob); sym_observe("items",ob,oc);
	for(i=0;i<k;i++){ if(pat[i]=='x'){ m=norm(run_,n,compose,ex,m); n=0; m=put_item(ex,m,it[i].b,it[i].n); } else run_[n++]=c[i]; }
	m=norm(run_,n,compose,ex,m);
	sym_assert(oc==m,"number and size of the characters of the normalized text");
	sym_assert(sym_memeq(ob,ex,m),"normalized text");
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
