/* the counters and the key-value store of an instance against a map */
#include "conv.h"
typedef unsigned char u8;
static int up(int c){ return c>='a'&&c<='z'?c-32:c; }
static int ci_eq(const char*a,const char*b){ int i; for(i=0;;i++){ if(up((u8)a[i])!=up((u8)b[i])) return 0; if(!a[i]) return 1; } }
/* names of any length, alike up to their ends; many others beside them */
static void key(char*k,int L,int any){ int i,x=pint("same",0); memset(k,'k',x); k+=x; sym_bytes(k,L,"key"); for(i=0;i<L;i++) sym_assume(any?(k[i]!=0):(k[i]>0x20&&k[i]<0x7f)); k[L]=0; }
static void counters(void){
	int n=pint("n",3),i,j,r,L[4],fill=pint("fill",0),lens=pint("lens",112); struct bsdconv_instance*a=mk("ascii:ascii"),*b=mk("ascii:ascii"); char k[4][400],fk[8]; bsdconv_counter_t*p[4],*ie,*oe,*o; unsigned long want[4],w2;
	for(i=n-1;i>=0;i--){ L[i]=lens%10; lens/=10; }
	ie=bsdconv_counter(a,"ierr"); oe=bsdconv_counter(a,"OERR"); sym_assert(ie!=oe,"different counters for different names");
	*ie=100; *oe=200; for(i=0;i<fill;i++){ sprintf(fk,"fill%d",i); *bsdconv_counter(a,fk)=1000+i; }
	for(i=0;i<n;i++){ key(k[i],L[i],0); p[i]=bsdconv_counter(a,k[i]); for(j=0;j<i;j++) if(ci_eq(k[i],k[j])) break; if(j==i) sym_assert(*p[i]==0,"a new counter starts at zero"); *p[i]+=i+1; }
	for(i=0;i<n;i++){ want[i]=0; for(j=0;j<n;j++) if(ci_eq(k[i],k[j])){ want[i]+=j+1; if(j!=i) sym_cover("same"); } }
	for(i=0;i<n;i++) for(j=0;j<n;j++) sym_assert((p[i]==p[j])==ci_eq(k[i],k[j]),"one counter per name, in any case");
	for(i=0;i<n;i++){ sym_assert(bsdconv_counter(a,k[i])==p[i],"a counter stays where it is"); sym_assert(*p[i]==want[i],"counter value"); }
	o=bsdconv_counter(b,k[0]); sym_assert(*o==0&&o!=p[0],"counters of another instance"); *o=7;
	bsdconv_init(a); for(i=0;i<n;i++) sym_assert(*p[i]==want[i],"initialization leaves counters alone");
	r=sym_range(0,n); for(i=0;i<fill;i++){ sprintf(fk,"FILL%d",i); sym_assert(*bsdconv_counter(a,fk)==1000+i,"the other counters"); }
	if(r<n){ bsdconv_counter_reset(a,k[r]); for(i=0;i<n;i++) sym_assert(*p[i]==(ci_eq(k[i],k[r])?0:want[i]),"reset of one counter"); sym_assert(*ie==100&&*oe==200,"reset of one counter leaves the others"); }
	else{ bsdconv_counter_reset(a,NULL); for(i=0;i<n;i++) sym_assert(*p[i]==0,"reset of all counters"); sym_assert(*ie==0&&*oe==0,"reset of all counters"); }
	w2=*o; sym_assert(w2==7,"counters of another instance");
	bsdconv_destroy(a); bsdconv_destroy(b);
}
static void store(void){
	static char vals[16],fv[64]; int fill=pint("fill",0), ops=pint("ops",4),pre=pint("pre",3),nk=3,i,j,op,w=0,has[3]={0,0,0}; void*v[3]={0,0,0}; struct bsdconv_instance*a=mk("ascii:ascii"),*b=mk("ascii:ascii"); char k[3][400],fk[8]; long l0; int x=pint("same",0);
	for(i=0;i<nk;i++){ key(k[i],1,1); for(j=0;j<i;j++) sym_assume(k[i][x]!=k[j][x]); if(i==2){ k[i][x+1]='x'; k[i][x+2]=0; } }
	for(i=0;i<fill;i++){ sprintf(fk,"fill%d",i); bsdconv_hash_set(a,fk,&fv[i]); }
	l0=sym_live();
	for(i=0;i<pre;i++){ bsdconv_hash_set(a,k[i],v[i]=&vals[w++]); has[i]=1; }
	for(i=0;i<ops;i++){
		op=sym_range(0,3); j=sym_range(0,nk-1);
		switch(op){
			case 0: bsdconv_hash_set(a,k[j],v[j]=&vals[w++]); has[j]=1; break;
			case 1: { void*r=bsdconv_hash_get(a,k[j]); sym_assert(r==(has[j]?v[j]:NULL),"value of a key"); } break;
			case 2: sym_assert(!!bsdconv_hash_has(a,k[j])==has[j],"presence of a key"); break;
			case 3: bsdconv_hash_del(a,k[j]); if(has[j]) sym_cover("deleted"); has[j]=0; break;
		}
	}
	for(j=0;j<nk;j++){ sym_assert(!!bsdconv_hash_has(a,k[j])==has[j],"presence of a key"); sym_assert(bsdconv_hash_get(a,k[j])==(has[j]?v[j]:NULL),"value of a key"); sym_assert(!bsdconv_hash_has(b,k[j]),"keys of another instance"); }
	for(i=0;i<fill;i++){ sprintf(fk,"fill%d",i); sym_assert(bsdconv_hash_get(a,fk)==&fv[i],"the other keys"); }
	for(j=0;j<nk;j++) bsdconv_hash_del(a,k[j]);
	sym_assert(sym_live()==l0,"deleting a key releases it");
	bsdconv_destroy(a); bsdconv_destroy(b);
}
void sym_main(void){ long l0=sym_live(); if(pint("mode",0)) store(); else counters(); sym_assert(sym_live()==l0,"all memory released"); }
