/* ISO-2022-JP: designations switch the character set, across calls; pattern of segments: e = a designation, b = any byte, k = byte 21..7E, x = byte after ESC */
#include "conv.h"
#include "ucs.h"
#include "trie.h"
#include "jis_tab.h"
enum{ASC,KANA,ROMAN,K208,K212};
static const struct{ const char*s; int n,m; } esc[]={{"\x1b(B",3,ASC},{"\x1b(I",3,KANA},{"\x1b(J",3,ROMAN},{"\x1b$@",3,K208},{"\x1b$B",3,K208},{"\x1b$(D",4,K212}};
void sym_main(void){
	u8 in[32],ex[256],t[8]; int n=0,i,j,l,v,m=0,err=0,mode=ASC,cut=pint("cut",0),re=pint("again",0); unsigned long ie,oe; buf_t b,c; const char*p; long l0=sym_live(); struct bsdconv_instance*ins;
	for(p=sym_param("pat");*p;p++) switch(*p){
		case 'e': i=sym_range(0,5); memcpy(in+n,esc[i].s,esc[i].n); n+=esc[i].n; break;
		case 'b': sym_bytes(t,1,"in"); in[n++]=t[0]; break;
		case 'k': sym_bytes(t,1,"in"); sym_assume(t[0]>=0x21); sym_assume(t[0]<=0x7e); in[n++]=t[0]; break;
		case '0'...'5': i=*p-'0'; memcpy(in+n,esc[i].s,esc[i].n); n+=esc[i].n; break;
		case 'x': in[n++]=0x1b; break;
		case 'd': in[n++]='$'; break;
		case 'p': in[n++]='('; break;
	}
	ins=mk("jis:utf-32be"); bsdconv_init(ins);
	if(re){ feed(ins,"\x1b$B0!0",6,re-1); b=run(ins); free(b.d); bsdconv_init(ins); bsdconv_counter_reset(ins,NULL); }
	if(cut){ int q=sym_range(0,n); feed(ins,in,q,0); b=run(ins); feed(ins,in+q,n-q,1); c=run(ins);
		b.d=realloc(b.d,b.n+c.n+1); if(c.n) memcpy(b.d+b.n,c.d,c.n); b.n+=c.n; free(c.d);
	}else{ feed(ins,in,n,1); b=run(ins); }
	ie=*bsdconv_counter(ins,"IERR"); oe=*bsdconv_counter(ins,"OERR"); bsdconv_destroy(ins);
	sym_observe("out",b.d,b.n); sym_observe("ierr",&ie,8);
	for(i=0;i<n;i+=l){
		for(j=0;j<6;j++) if(n-i>=esc[j].n&&!memcmp(in+i,esc[j].s,esc[j].n)) break;
		if(j<6){ mode=esc[j].m; l=esc[j].n; sym_cover("designation"); continue; }
		if(n-i>=4&&in[i]==0x1b&&in[i+1]=='('&&in[i+2]=='$'&&in[i+3]=='D') sym_skip(); /* the module's own spelling */
		if(mode==KANA&&((in[i]>=0x21&&in[i]<=0x5f)||(in[i]>=0xa1&&in[i]<=0xdf))){ m+=be32put(0xff61+(in[i]|0x80)-0xa1,ex+m); l=1; sym_cover("katakana"); continue; }
		if(mode==KANA&&in[i]>=0x5f&&in[i]<0x80) sym_skip();
		if(mode==ROMAN&&in[i]==0x5c){ m+=be32put(0xa5,ex+m); l=1; sym_cover("roman"); continue; }
		if(mode==ROMAN&&in[i]==0x7e){ m+=be32put(0x203e,ex+m); l=1; continue; }
		if(mode==ROMAN&&in[i]>=0xa1&&in[i]<=0xdf){ m+=be32put(0xff61+in[i]-0xa1,ex+m); l=1; continue; }
		if((mode==K208||mode==K212)&&n-i>=2){
			if((l=tmatch(tabs[mode==K212],in+i,2,&v))){ int q=tabs[mode==K212]->vd[tabs[mode==K212]->vo[v]]; if(q==SKIPVAL) sym_skip(); m+=be32put(q,ex+m); sym_cover("kanji"); continue; }
		}
		l=1;
		if(in[i]&&in[i]<0x80){ m+=be32put(in[i],ex+m); sym_cover("ascii"); }
		else { err++; sym_cover("error"); }
	}
	sym_assert(ie==(unsigned long)err,"input errors are exactly the bytes outside the designated set and ASCII");
	sym_assert(oe==0,"no output errors");
	sym_assert(b.n==(size_t)m,"number of decoded characters");
	sym_assert(sym_memeq(b.d,ex,m),"decoded code points");
	free(b.d);
	sym_assert(sym_live()==l0,"all memory released");
}
