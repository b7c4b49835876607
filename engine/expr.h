// Hash-consed bit-vector expressions over symbolic input bytes.
// An expression over exactly one symbolic byte also carries its complete 256-entry value
// table, so that constraints on a single byte are decided exactly without a solver call;
// everything else goes to z3.
#pragma once
#include <cstdint>
#include <cstring>
#include <cstdlib>
#include <vector>
#include <unordered_map>
#include <bitset>
#include <string>
typedef uint64_t u64; typedef int64_t i64; typedef uint8_t u8; typedef uint32_t u32;

enum Op : u8 {E_CONST,E_SYM,E_TAB,E_ADD,E_SUB,E_MUL,E_UDIV,E_SDIV,E_UREM,E_SREM,E_AND,E_OR,E_XOR,
  E_SHL,E_LSHR,E_ASHR,E_EQ,E_ULT,E_ULE,E_SLT,E_SLE,E_ITE,E_EXTRACT,E_CONCAT,E_ZEXT,E_SEXT,E_UNDEF};

struct VarSet {
  u64 b[4]={0,0,0,0};
  bool empty() const {return !(b[0]|b[1]|b[2]|b[3]);}
  void set(int i){b[i>>6]|=1ull<<(i&63);}
  bool has(int i) const {return b[i>>6]>>(i&63)&1;}
  void operator|=(const VarSet&o){for(int i=0;i<4;i++)b[i]|=o.b[i];}
  bool inter(const VarSet&o) const {for(int i=0;i<4;i++)if(b[i]&o.b[i])return true;return false;}
  int count() const {int n=0;for(int i=0;i<4;i++)n+=__builtin_popcountll(b[i]);return n;}
  int first() const {for(int i=0;i<4;i++)if(b[i])return i*64+__builtin_ctzll(b[i]);return -1;}
  template<class F> void each(F f) const {for(int i=0;i<4;i++){u64 x=b[i];while(x){int j=__builtin_ctzll(x);x&=x-1;f(i*64+j);}}}
};
typedef std::bitset<256> Dom;

struct Expr {
  Op op; u8 w; u8 lo; u8 nk;
  Expr *k[3];
  u64 cv;          // constant value / symbol id
  u64 *tab;        // 256 values when over one symbol
  VarSet vars;
  int id; int var; // var: the single symbol, or -1
  u64 evv; u32 evg; // evaluation memo
};
static inline u64 maskw(unsigned w){return w>=64?~0ull:((1ull<<w)-1);}
static inline i64 sx(u64 v,unsigned w){if(w>=64)return (i64)v; u64 m=1ull<<(w-1); v&=maskw(w); return (i64)((v^m)-m);}

static inline bool opeval(Op op,unsigned w,unsigned kw,u64 a,u64 b,u64 &r){
  switch(op){
    case E_ADD:r=a+b;break; case E_SUB:r=a-b;break; case E_MUL:r=a*b;break;
    // division by zero: the guarded value is irrelevant, SMT-LIB semantics are used
    case E_UDIV:r=b?a/b:maskw(w);break; case E_UREM:r=b?a%b:a;break;
    case E_SDIV:{i64 x=sx(a,w),y=sx(b,w); if(!y)r=x<0?1:maskw(w); else if(y==-1)r=-(u64)x; else r=x/y;break;}
    case E_SREM:{i64 x=sx(a,w),y=sx(b,w); if(!y)r=x; else if(y==-1)r=0; else r=x%y;break;}
    case E_AND:r=a&b;break; case E_OR:r=a|b;break; case E_XOR:r=a^b;break;
    case E_SHL:r=b>=w?0:a<<b;break; case E_LSHR:r=b>=w?0:(a&maskw(w))>>b;break;
    case E_ASHR:{i64 x=sx(a,w); r=b>=w?(x<0?~0ull:0):(u64)(x>>b);break;}
    case E_EQ:r=a==b;break; case E_ULT:r=a<b;break; case E_ULE:r=a<=b;break;
    case E_SLT:r=sx(a,kw)<sx(b,kw);break; case E_SLE:r=sx(a,kw)<=sx(b,kw);break;
    default:return false;
  }
  r&=maskw(w); return true;
}

struct ExprPool {
  struct Key{Op op;u8 w,lo;Expr*k[3];u64 cv;
    bool operator==(const Key&o)const{return op==o.op&&w==o.w&&lo==o.lo&&cv==o.cv&&k[0]==o.k[0]&&k[1]==o.k[1]&&k[2]==o.k[2];}};
  struct KH{size_t operator()(const Key&k)const{u64 h=k.op*1000003u+k.w*131+k.lo; h=h*0x9E3779B97F4A7C15ull+k.cv; for(int i=0;i<3;i++)h=(h^(u64)k.k[i])*0x9E3779B97F4A7C15ull,h^=h>>29; return h;}};
  std::unordered_map<Key,Expr*,KH> m;
  std::unordered_map<u64,std::vector<Expr*>> tabs;
  std::vector<Expr*> all; u32 gen=1;
  Expr *UNDEF;
  ExprPool(){UNDEF=raw(E_UNDEF,0,0,0,nullptr,nullptr,nullptr,0);}
  Expr* raw(Op op,u8 w,u8 lo,u8 nk,Expr*a,Expr*b,Expr*c,u64 cv){
    Expr*e=new Expr(); e->op=op;e->w=w;e->lo=lo;e->nk=nk;e->k[0]=a;e->k[1]=b;e->k[2]=c;e->cv=cv;e->tab=nullptr;
    for(int i=0;i<nk;i++)e->vars|=e->k[i]->vars;
    e->id=all.size(); e->var=-1; e->evg=0; all.push_back(e); return e;
  }
  Expr* cons(u64 v,unsigned w){v&=maskw(w); Key k{E_CONST,(u8)w,0,{0,0,0},v}; auto it=m.find(k); if(it!=m.end())return it->second;
    Expr*e=raw(E_CONST,w,0,0,0,0,0,v); m[k]=e; return e;}
  Expr* sym(int id){Key k{E_SYM,8,0,{0,0,0},(u64)id}; auto it=m.find(k); if(it!=m.end())return it->second;
    Expr*e=raw(E_SYM,8,0,0,0,0,0,id); e->vars.set(id); e->var=id; e->tab=(u64*)malloc(256*8); for(int i=0;i<256;i++)e->tab[i]=i; m[k]=e; return e;}
  // arbitrary function of one symbolic byte
  Expr* table(int var,unsigned w,const u64*t){
    bool same=true; for(int i=1;i<256;i++)if(t[i]!=t[0]){same=false;break;}
    if(same)return cons(t[0],w);
    u64 h=var*31+w; for(int i=0;i<256;i++)h=(h^t[i])*0x9E3779B97F4A7C15ull,h^=h>>31;
    auto&v=tabs[h]; for(Expr*e:v)if(e->var==var&&e->w==w&&!memcmp(e->tab,t,256*8))return e;
    Expr*e=raw(E_TAB,w,0,0,0,0,0,0); e->vars.set(var); e->var=var; e->tab=(u64*)malloc(256*8); memcpy(e->tab,t,256*8); v.push_back(e); return e;
  }
  Expr* mk(Op op,unsigned w,Expr*a,Expr*b=nullptr,Expr*c=nullptr,unsigned lo=0){
    int nk=c?3:b?2:1;
    // constant folding
    if(op!=E_ITE&&a->op==E_CONST&&(!b||b->op==E_CONST)){
      u64 r;
      if(op==E_EXTRACT)return cons(a->cv>>lo,w);
      if(op==E_ZEXT)return cons(a->cv,w);
      if(op==E_SEXT)return cons((u64)sx(a->cv,a->w),w);
      if(op==E_CONCAT)return cons(a->cv<<b->w|b->cv,w);
      if(opeval(op,w,a->w,a->cv,b->cv,r))return cons(r,w);
    }
    if(op==E_ITE){ if(a->op==E_CONST)return a->cv?b:c; if(b==c)return b;
      if(w==1&&b->op==E_CONST&&c->op==E_CONST){ return b->cv?a:lnot(a);} }
    if(b&&nk==2){
      bool ac=a->op==E_CONST,bc=b->op==E_CONST;
      switch(op){
        case E_ADD: if(ac){std::swap(a,b);std::swap(ac,bc);} if(bc&&b->cv==0)return a;
          if(bc&&a->op==E_ADD&&a->k[1]->op==E_CONST)return mk(E_ADD,w,a->k[0],cons(a->k[1]->cv+b->cv,w)); break;
        case E_SUB: if(a==b)return cons(0,w); if(bc)return mk(E_ADD,w,a,cons(-b->cv,w)); break;
        case E_MUL: if(ac){std::swap(a,b);std::swap(ac,bc);} if(bc&&b->cv==0)return b; if(bc&&b->cv==1)return a; break;
        case E_AND: if(ac){std::swap(a,b);std::swap(ac,bc);} if(bc&&b->cv==0)return b; if(bc&&b->cv==maskw(w))return a; if(a==b)return a; break;
        case E_OR: if(ac){std::swap(a,b);std::swap(ac,bc);} if(bc&&b->cv==0)return a; if(bc&&b->cv==maskw(w))return b; if(a==b)return a; break;
        case E_XOR: if(ac){std::swap(a,b);std::swap(ac,bc);} if(bc&&b->cv==0)return a; if(a==b)return cons(0,w); break;
        case E_SHL: case E_LSHR: case E_ASHR: if(bc&&b->cv==0)return a; break;
        case E_EQ: if(a==b)return cons(1,1); if(ac){std::swap(a,b);std::swap(ac,bc);}
          if(bc&&a->w==1)return b->cv?a:lnot(a);
          if(bc&&a->op==E_ZEXT){ if(b->cv>maskw(a->k[0]->w))return cons(0,1); return mk(E_EQ,1,a->k[0],cons(b->cv,a->k[0]->w)); }
          break;
        case E_ULE: case E_SLE: if(a==b)return cons(1,1); break;
        case E_ULT: case E_SLT: if(a==b)return cons(0,1); break;
        case E_CONCAT:
          if(a->op==E_EXTRACT&&b->op==E_EXTRACT&&a->k[0]==b->k[0]&&a->lo==b->lo+b->w){
            return mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,b->lo);}
          if(ac&&a->cv==0)return mk(E_ZEXT,w,b);
          break;
        default:break;
      }
    }
    if(op==E_EXTRACT){
      if(lo==0&&w==a->w)return a;
      if(a->op==E_EXTRACT)return mk(E_EXTRACT,w,a->k[0],nullptr,nullptr,lo+a->lo);
      if(a->op==E_CONCAT){ unsigned bw=a->k[1]->w; if(lo+w<=bw)return mk(E_EXTRACT,w,a->k[1],0,0,lo); if(lo>=bw)return mk(E_EXTRACT,w,a->k[0],0,0,lo-bw);}
      if(a->op==E_ZEXT){ unsigned bw=a->k[0]->w; if(lo>=bw)return cons(0,w); if(lo+w<=bw)return mk(E_EXTRACT,w,a->k[0],0,0,lo);}
    }
    if((op==E_ZEXT||op==E_SEXT)&&a->w==w)return a;
    if(op==E_ZEXT&&a->op==E_ZEXT)return mk(E_ZEXT,w,a->k[0]);
    Key key{op,(u8)w,(u8)lo,{a,b,c},0}; auto it=m.find(key); if(it!=m.end())return it->second;
    VarSet vs=a->vars; if(b)vs|=b->vars; if(c)vs|=c->vars;
    u64 t[256]; int var=-1;
    if(vs.count()==1){
      var=vs.first();
      for(int i=0;i<256;i++){
        u64 x=a->op==E_CONST?a->cv:a->tab[i], y=b?(b->op==E_CONST?b->cv:b->tab[i]):0, z=c?(c->op==E_CONST?c->cv:c->tab[i]):0;
        t[i]=eval1(op,w,lo,a,b,x,y,z);
      }
      bool same=true; for(int i=1;i<256;i++)if(t[i]!=t[0]){same=false;break;}
      if(same){Expr*e=cons(t[0],w); m[key]=e; return e;}
    }
    Expr*e=raw(op,w,lo,nk,a,b,c,0);
    if(var>=0){e->var=var; e->tab=(u64*)malloc(256*8); memcpy(e->tab,t,256*8);}
    m[key]=e; return e;
  }
  Expr* lnot(Expr*a){ if(a->op==E_CONST)return cons(!a->cv,1); return mk(E_XOR,1,a,cons(1,1)); }
  u64 eval1(Op op,unsigned w,unsigned lo,Expr*a,Expr*b,u64 x,u64 y,u64 z){
    u64 r=0;
    switch(op){
      case E_ITE:return x?y:z; case E_EXTRACT:return (x>>lo)&maskw(w); case E_ZEXT:return x;
      case E_SEXT:return (u64)sx(x,a->w)&maskw(w); case E_CONCAT:return (x<<b->w|y)&maskw(w);
      default:opeval(op,w,a->w,x,y,r);return r;
    }
  }
  // value under an assignment of all symbols
  u64 eval(Expr*e,const std::vector<u8>&mdl){gen++; return ev(e,mdl);}
  u64 ev(Expr*e,const std::vector<u8>&mdl){
    if(e->op==E_CONST)return e->cv;
    if(e->tab)return e->tab[mdl[e->var]];
    if(e->evg==gen)return e->evv;
    u64 r;
    if(e->op==E_ITE) r=ev(e->k[0],mdl)?ev(e->k[1],mdl):ev(e->k[2],mdl);
    else { u64 x=ev(e->k[0],mdl), y=e->nk>1?ev(e->k[1],mdl):0; r=eval1(e->op,e->w,e->lo,e->k[0],e->k[1],x,y,0); }
    e->evg=gen; e->evv=r; return r;
  }
};
