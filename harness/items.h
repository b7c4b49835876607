/* lists of internal items through an intermediate phase: fed one by one through PASS, collected from the last phase */
typedef unsigned char u8; typedef uint32_t u32;
#ifndef ITEMMAX
#define ITEMMAX 8
#endif
typedef struct { u8 b[ITEMMAX]; int n; } item_t;
static u32 scalar_in(u32 hi){ u8 t[3]; u32 c; sym_bytes(t,3,"scalar"); c=(u32)t[0]<<16|t[1]<<8|t[2]; sym_assume(t[0]<=0x10); if(hi<0x10ffff) sym_assume(c<=hi); sym_assume(t[0]!=0||(t[1]&0xf8)!=0xd8); return c; }
/* canonical item of a code point */
static item_t uitem(u32 c){ item_t r; int n=0; memset(&r,0,sizeof r); r.b[n++]=1; if(c>0xffff) r.b[n++]=c>>16; if(c>0xff) r.b[n++]=c>>8&255; r.b[n++]=c&255; r.n=n; return r; }
static int put_item(u8*o,int m,const u8*p,int n){ int i; o[m++]=n; for(i=0;i<n;i++) o[m++]=p[i]; return m; }
static int put_u(u8*o,int m,u32 c){ item_t t=uitem(c); return put_item(o,m,t.b,t.n); }
static int collect(struct bsdconv_instance*ins,u8*o,int max){ struct data_rt*d; int n=0,j; for(d=ins->phase[ins->phasen].data_head->next;d&&n+20<max;d=d->next){ o[n++]=d->len; for(j=0;j<(int)d->len&&j<16;j++) o[n++]=((u8*)d->data)[j]; } return n; }
static void feed_items(struct bsdconv_instance*ins,item_t*it,int k){ int i; for(i=0;i<k;i++){ feed(ins,it[i].b,it[i].n,i==k-1); ins->output_mode=BSDCONV_HOLD; bsdconv(ins); } }
