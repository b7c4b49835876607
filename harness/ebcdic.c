/* EBCDIC with shift states: from: o/i = SO/SI, b = any byte; to: u = any scalar, x = any item, s/d/n = a character with a one-byte, two-byte or no code */
#include "conv.h"
#include "trie.h"
#include "items.h"
#include TABLE
static u8 out[512]; static int m;
static void take(struct bsdconv_instance*ins){ buf_t b=run(ins); memcpy(out+m,b.d,b.n); m+=b.n; free(b.d); }
static void from(void){
	u8 in[16],ex[256]; int n=0,i,j,st=0,l,v,e=0,err=0,cut=pint("cut",0),re=pint("again",0); unsigned long ie,oe; const char*p; struct bsdconv_instance*ins;
	for(p=sym_param("pat");*p;p++) if(*p=='o') in[n++]=14; else if(*p=='i') in[n++]=15; else { sym_bytes(in+n,1,"in"); n++; }
	ins=mk(sym_param("conv")); bsdconv_init(ins);
	if(re){ feed(ins,"\x0e\x45",2,re-1); take(ins); bsdconv_init(ins); bsdconv_counter_reset(ins,NULL); m=0; }
	if(cut){ int q=sym_range(0,n); feed(ins,in,q,0); take(ins); feed(ins,in+q,n-q,1); } else feed(ins,in,n,1);
	take(ins); ie=*bsdconv_counter(ins,"IERR"); oe=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins);
	sym_observe("out",out,m); sym_observe("ierr",&ie,8);
	for(i=0;i<n;i+=l){
		l=1;
		if(in[i]==14){ st=1; sym_cover("shifted"); continue; }
		if(in[i]==15){ st=0; continue; }
		j=tmatch(tabs[0],in+i,1,&v);
		if(j&&!st) goto hit;
		{ int w; if(n-i>1&&tmatch(tabs[1],in+i,2,&w)==2){ v=tabs[1]->vd[tabs[1]->vo[w]]; l=2; sym_cover("double"); e=put_u(ex,e,v); continue; } }
		if(j){ sym_cover("alone"); goto hit; }
		err++; sym_cover("error"); continue;
	hit:	e=put_u(ex,e,tabs[0]->vd[tabs[0]->vo[v]]);
	}
	{ u8 x[256]; int k=0; for(i=0;i<e;i+=ex[i]+1){ u32 c=0; for(j=2;j<=ex[i];j++) c=c<<8|ex[i+j]; x[k]=0; x[k+1]=c>>16; x[k+2]=c>>8&255; x[k+3]=c&255; k+=4; }
	sym_assert(ie==(unsigned long)err,"input errors are exactly the bytes without a meaning in the shift state");
	sym_assert(oe==0,"no output errors");
	sym_assert(k==m,"number of decoded characters");
	sym_assert(sym_memeq(x,out,k),"decoded code points"); }
}
static void to(void){
	item_t it[6]; u8 ex[64]; u8 exw[64]; int n=0,i,k,st=0,e=0,v,err=0,cut=pint("cut",0),re=pint("again",0); unsigned long ie,oe; const char*p=sym_param("pat"); struct bsdconv_instance*ins; int any=pint("any",0);
	static const u32 S[]={0x41,0x0a,0x10},D[]={0x4e00,0x3000};
	k=strlen(p);
	for(i=0;i<k;i++) switch(p[i]){
		case 'u': it[i]=uitem(scalar_in(pint("hi",0xffff))); break;
		case 'x': memset(&it[i],0,sizeof it[i]); it[i].n=sym_range(1,3); sym_bytes(it[i].b,it[i].n,"item"); break;
		case 's': it[i]=uitem(S[sym_range(0,2)]); break;
		case 'd': it[i]=uitem(D[sym_range(0,1)]); break;
		case 'n': it[i]=uitem(sym_range(0,1)?0x1000:0xe0041); break;
		case '*': switch(sym_range(0,2)){ case 0: it[i]=uitem(0x41); break; case 1: it[i]=uitem(0x4e00); break; default: it[i]=uitem(0x1000); } break;
	}
	ins=mk(sym_param("conv")); bsdconv_init(ins);
	if(re){ item_t t=uitem(0x4e00); feed(ins,t.b,t.n,re-1); take(ins); bsdconv_init(ins); bsdconv_counter_reset(ins,NULL); m=0; }
	for(i=0;i<k;i++){ feed(ins,it[i].b,it[i].n,i==k-1); if(cut) take(ins); else { ins->output_mode=BSDCONV_HOLD; bsdconv(ins); } }
	if(!cut) take(ins);
	ie=*bsdconv_counter(ins,"IERR"); oe=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins);
	sym_observe("out",out,m); sym_observe("oerr",&oe,8);
	for(i=0;i<k;i++){
		if(tmatch(tabs[2],it[i].b,it[i].n,&v)!=it[i].n){ if(any){ ex[e]=any; exw[e++]=0; } else err++; sym_cover("error"); continue; }
		const unsigned*q=tabs[2]->vd+tabs[2]->vo[v]; int w=tabs[2]->vo[v+1]-tabs[2]->vo[v];
		if(w==1){ ex[e]=q[0]; exw[e++]=0; sym_cover("single"); } else { ex[e]=q[0]; exw[e++]=1; ex[e]=q[1]; exw[e++]=2; sym_cover("double"); }
	}
	sym_assert(ie==0,"no input errors"); sym_assert(oe==(unsigned long)err,"output errors are exactly the characters without a code");
	for(n=0,i=0;i<m;i++){
		if(out[i]==14&&!st){ st=1; sym_assert(i+1<m&&out[i+1]!=15,"a shift is followed by what it is for"); continue; }
		if(out[i]==15&&st){ st=0; continue; }
		sym_assert(n<e,"nothing but the characters given");
		if(st){ sym_assert(exw[n]==1&&i+1<m,"a double-byte character where the state says so"); sym_assert(out[i]==ex[n]&&out[i+1]==ex[n+1],"its code"); i++; n+=2; }
		else { sym_assert(exw[n]==0,"a single-byte character where the state says so"); sym_assert(out[i]==ex[n],"its code"); n++; }
	}
	sym_assert(n==e,"every character is there");
	sym_assert(st==0,"the text ends in the single-byte state");
}
/* what was decoded can be encoded, and decodes to the same text */
static void rt(void){
	u8 in[16]; int n=0; const char*p,*q=sym_param("page"); char c1[64],c2[64]; buf_t a,b,c; unsigned long o;
	for(p=sym_param("pat");*p;p++) if(*p=='o') in[n++]=14; else if(*p=='i') in[n++]=15; else { sym_bytes(in+n,1,"in"); n++; }
	strcpy(c1,q); strcat(c1,":utf-32be"); strcpy(c2,q); strcat(c2,":"); strcat(c2,q);
	a=conv1(c1,in,n,0,0); b=conv1(c2,in,n,0,&o); c=conv1(c1,b.d,b.n,0,0); sym_observe("out",b.d,b.n);
	if(a.n>4) sym_cover("text");
	sym_assert(o==0,"everything decoded can be encoded"); sym_assert(a.n==c.n&&sym_memeq(a.d,c.d,a.n),"and decodes to the same text");
	free(a.d); free(b.d); free(c.d);
}
void sym_main(void){ long l0=sym_live(); m=0; if(pint("rt",0)) rt(); else if(pint("to",0)) to(); else from(); sym_assert(sym_live()==l0,"all memory released"); }
