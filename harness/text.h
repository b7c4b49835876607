/* reference readers for the textual notations */
typedef unsigned char u8; typedef uint32_t u32;
static int hexv(int c){ return c>='0'&&c<='9'?c-'0':c>='A'&&c<='F'?c-'A'+10:c>='a'&&c<='f'?c-'a'+10:-1; }
/* one ESCAPE sequence at p[0..n): consumed length or 0; item written to o, its length to *l */
static int esc1(const u8*p,int n,u8*o,int*l){
	int k=0,i,v=0;
	if(n<2) return 0;
	if((p[0]=='%'||p[0]=='\\')&&p[1]=='u'){
		if(n<6) return 0;
		for(i=2;i<6;i++){ if(hexv(p[i])<0) return 0; v=v*16+hexv(p[i]); }
		o[k++]=1; if(v>>8) o[k++]=v>>8; o[k++]=v; *l=k; return 6;
	}
	if(p[0]=='%'){ if(n<3||hexv(p[1])<0||hexv(p[2])<0) return 0; o[0]=3; o[1]=hexv(p[1])*16+hexv(p[2]); *l=2; return 3; }
	if(p[0]=='\\'&&p[1]=='x'){ if(n<4||hexv(p[2])<0||hexv(p[3])<0) return 0; o[0]=3; o[1]=hexv(p[2])*16+hexv(p[3]); *l=2; return 4; }
	if(p[0]=='\\'){ if(n<4) return 0; for(i=1;i<4;i++){ if(p[i]<'0'||p[i]>'7') return 0; v=v*8+p[i]-'0'; } if(v>255) return 0; o[0]=3; o[1]=v; *l=2; return 4; }
	return 0;
}
/* one numeric character reference */
static int num1(const u8*p,int n,u8*o,int*l){
	int i=2,b=10,d=0,k=0; u32 v=0;
	if(n<4||p[0]!='&'||p[1]!='#') return 0;
	if(p[2]=='x'){ b=16; i=3; }
	for(;i<n;i++,d++){ int h=hexv(p[i]); if(h<0||h>=b) break; v=v*b+h; if(v>0x10ffff) return 0; }
	if(i>=n||p[i]!=';'||!d) return 0;
	o[k++]=1; if(v>>16) o[k++]=v>>16; if(v>>8) o[k++]=v>>8; o[k++]=v; *l=k; return i+1;
}
/* one run of hexadecimal digits; runs of odd length have no defined meaning */
static int hexrun(const u8*p,int n,u8*o,int*l){ int i=0; while(i<n&&hexv(p[i])>=0) i++; if(i&1) sym_skip(); for(*l=0;*l<i/2;++*l) o[*l]=hexv(p[2**l])*16+hexv(p[2**l+1]); return i; }
