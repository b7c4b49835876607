/* Reference model: Unicode transformation formats (written from the standards, not from the code under test). */
#define U_OVERLONG 1
#define U_SUPER 2
#define U_NUL 4
#define U_CESU 8
#define U_LOOSE 16
typedef unsigned char u8; typedef unsigned int u32;
/* one UTF-8 unit; 0 = ill-formed or truncated */
static int u8dec(const u8 *p,int n,int opt,u32 *cp){
	u32 c; int l,i; static const u32 low[7]={0,0,0x80,0x800,0x10000,0x200000,0x4000000};
	if(n<1||p[0]<0xc0) return 0;
	if(p[0]<0xe0){l=2;c=p[0]&0x1f;} else if(p[0]<0xf0){l=3;c=p[0]&0x0f;} else if(p[0]<0xf8){l=4;c=p[0]&7;}
	else if(p[0]<0xfc){l=5;c=p[0]&3;} else if(p[0]<0xfe){l=6;c=p[0]&1;} else return 0;
	if(l>4&&!(opt&U_SUPER)) return 0;
	if(l>n) return 0;
	for(i=1;i<l;i++){ if((p[i]&0xc0)!=0x80) return 0; c=c<<6|(p[i]&0x3f); }
	if(!(opt&U_OVERLONG)&&c<low[l]) return 0;
	if(!(opt&U_SUPER)&&c>0x10ffff) return 0;
	if(c==0&&!(opt&U_NUL)) return 0;
	*cp=c; return l;
}
static int hisur(u32 c){ return c>=0xd800&&c<0xdc00; }
static int losur(u32 c){ return c>=0xdc00&&c<0xe000; }
#define UERR 0xffffffffu
/* whole string: code points, UERR for each rejected byte */
static int u8decode(const u8 *p,int n,int opt,int ascii,u32 *out){
	int i=0,k=0,l,m; u32 c,d;
	while(i<n){
		if(p[i]<0x80){ out[k++]=(ascii&&p[i])?p[i]:UERR; i++; continue; }
		l=u8dec(p+i,n-i,opt,&c);
		if(!l){ out[k++]=UERR; i++; continue; }
		if(hisur(c)&&(opt&U_CESU)){
			m=u8dec(p+i+l,n-i-l,opt,&d);
			if(m&&losur(d)){ out[k++]=0x10000+((c-0xd800)<<10)+(d-0xdc00); i+=l+m; }
			else if(opt&U_LOOSE){ out[k++]=c; i+=l; }
			else { out[k++]=UERR; i++; }
			continue;
		}
		if((hisur(c)||losur(c))&&!(opt&U_LOOSE)){ out[k++]=UERR; i++; continue; }
		out[k++]=c; i+=l;
	}
	return k;
}
static int u8enc(u32 c,u8 *o){
	if(c<0x80){o[0]=c;return 1;}
	if(c<0x800){o[0]=0xc0|c>>6;o[1]=0x80|(c&63);return 2;}
	if(c<0x10000){o[0]=0xe0|c>>12;o[1]=0x80|(c>>6&63);o[2]=0x80|(c&63);return 3;}
	o[0]=0xf0|c>>18;o[1]=0x80|(c>>12&63);o[2]=0x80|(c>>6&63);o[3]=0x80|(c&63);return 4;
}
static int be32put(u32 c,u8 *o){ o[0]=c>>24;o[1]=c>>16;o[2]=c>>8;o[3]=c;return 4; }
static int scalar(u32 c){ return c<=0x10ffff&&!(c>=0xd800&&c<0xe000); }
