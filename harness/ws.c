/* white space taken out of the text and put back */
#include "conv.h"
#include "items.h"
static int ws(u32 c){ return c==9||c==10||c==13||c==32; }
static u32 up(u32 c){ return c>='a'&&c<='z'?c-32:c; }
void sym_main(void){
	const char*pat=sym_param("pat"); const char*alpha=sym_param("alpha"); int k=strlen(pat),i,m=0,oc,mode=pint("mode",0),rounds=pint("rounds",1),r,j; item_t it[8]; u32 c[8]; u8 ex[256],ob[256]; long l0=sym_live(); struct bsdconv_instance*ins=mk(sym_param("conv"));
	for(r=0;r<rounds;r++){
		for(i=0;i<k;i++){
			c[i]=0; memset(&it[i],0,sizeof it[i]);
			if(pat[i]=='u'){ c[i]=scalar_in(0x10ffff); if(mode==2) sym_assume(c[i]<0x80); it[i]=uitem(c[i]); }
			else if(pat[i]=='a'){ c[i]=alpha[sym_range(0,strlen(alpha)-1)]; if(c[i]=='_')c[i]=32; it[i]=uitem(c[i]); }
			else { it[i].n=sym_range(1,2); sym_bytes(it[i].b,it[i].n,"item"); sym_assume(it[i].b[0]!=1); }
		}
		bsdconv_init(ins); feed_items(ins,it,k); oc=collect(ins,ob,sizeof ob); sym_observe("items",ob,oc);
		/* mode 0 identity, 1 derail only, 2 upper, 3 greedy ab->c between, 4 b removed between */
		m=0;
		if(mode<3) for(i=0;i<k;i++){ int w=pat[i]!='x'&&ws(c[i]); if(w) sym_cover("white"); if(mode==1&&w) continue; if(mode==2&&pat[i]!='x') m=put_u(ex,m,up(c[i])); else m=put_item(ex,m,it[i].b,it[i].n); }
		else { u32 t[8],q[8],g[8],h[8]; int nt=0,nq=0,ng=0,nh=0,p=0;
			for(i=0;i<k;i++) if(ws(c[i])) q[nq++]=c[i]; else t[nt++]=c[i];
			for(i=0;i<nt;) if(mode==3&&i+1<nt&&t[i]=='a'&&t[i+1]=='b'){ g[ng++]='c'; i+=2; sym_cover("joined"); } else if(mode==4&&t[i]=='b') i++; else g[ng++]=t[i++];
			/* text and white space each in order, nothing lost; the split is checked separately */
			for(i=0;i<oc;){ u32 v=0; int n=ob[i++]; for(j=1;j<n;j++) v=v<<8|ob[i+j]; i+=n; if(nh+p<8){ if(ws(v)) h[p++]=v; else t[nh++]=v; } else nh=99; if(nh==99) break; }
			sym_assert(p==nq,"number of white space characters put back"); sym_assert(sym_memeq(h,q,4*nq),"white space characters put back in order");
			sym_assert(nh==ng,"number of other characters"); sym_assert(sym_memeq(t,g,4*ng),"other characters converted as if there were no white space");
			continue; }
		sym_assert(oc==m,"number and size of the characters"); sym_assert(sym_memeq(ob,ex,m),"resulting characters");
	}
	bsdconv_destroy(ins);
	sym_assert(sym_live()==l0,"all memory released");
}
