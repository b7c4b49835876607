/* items marked by the output phase PASS#MARK are recognized by the input phase PASS#UNMARK of the next conversion, others are read as bytes */
#include "conv.h"
#include "items.h"
static const char*const convs[]={"pass:pass#mark|pass#unmark:pass","pass:pass#mark&for=unicode,byte|pass#unmark,byte:pass","pass:pass#for=unicode,byte|pass:pass","pass:pass#for=unicode,byte|pass#for=unicode,byte:pass","pass:pass#mark&for=1b,pass#for=unicode|pass#unmark&for=1b,byte:pass","pass:pass#mark|pass#unmark:pass|pass#unmark,byte:pass"};
void sym_main(void){
	int mode=pint("mode",0),k=pint("k",3),i,j,m=0,oc; u8 ex[300],ob[300]; item_t it[6]; unsigned long oe=0,o,ie; long l0=sym_live(); struct bsdconv_instance*ins=mk(convs[mode]);
	for(i=0;i<k;i++){ memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(1,3); sym_bytes(it[i].b,it[i].n,"item"); }
	bsdconv_init(ins); feed_items(ins,it,k); oc=collect(ins,ob,sizeof ob); sym_observe("items",ob,oc); o=*bsdconv_counter(ins,"OERR"); ie=*bsdconv_counter(ins,"IERR");
	for(i=0;i<k;i++){ u8*b=it[i].b; int n=it[i].n,by=n==2&&b[0]==3; u8 t[2]={3,b[n>1]};
		switch(mode){
			case 0: m=put_item(ex,m,b,n); break;
			case 1: if(b[0]==1||by){ m=put_item(ex,m,b,n); sym_cover("kept"); } else { oe++; sym_cover("dropped"); } break;
			case 2: if(b[0]==1) m=put_item(ex,m,b,n); else if(by) m=put_item(ex,m,b+1,1); else oe++; break;
			case 3: if(b[0]==1) m=put_item(ex,m,b,n); else if(by&&b[1]==1) m=put_item(ex,m,b+1,1); else if(by) m=put_item(ex,m,t,2); else oe++; break;
			case 4: if(b[0]==0x1b) m=put_item(ex,m,b,n); else if(b[0]==1) for(j=0;j<n;j++){ t[1]=b[j]; m=put_item(ex,m,t,2); } else oe++; break;
			case 5: for(j=0;j<n;j++){ t[1]=b[j]; m=put_item(ex,m,t,2); } break;
		} }
	sym_observe("oerr",&o,8);
	sym_assert(oc==m,"number and size of the items"); sym_assert(sym_memeq(ob,ex,m),"items"); sym_assert(o==oe,"output errors: one for every item nobody takes"); sym_assert(ie==0,"no input errors");
	bsdconv_destroy(ins); sym_assert(sym_live()==l0,"all memory released");
}
