// symx: symbolic executor for LLVM 18 IR (KLEE style) used by the /verif checks.
//   symx --harness h.ll --lib libbsdconv.ll --root BUILDDIR --out DIR [--jobs N] [--time S] [--param k=v]...
// Runs sym_main() of the harness.  Bytes made symbolic by sym_bytes() are bit-vector variables;
// every feasible path within the harness' bounds is explored, memory safety is checked at every
// access and every sym_assert is decided by z3 over all values of the path.
#include <malloc.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <z3.h>
#include <map>
#include <set>
#include <memory>
#include <functional>
#include <algorithm>
#include <string>
#include <deque>
#include <chrono>
#include <cstdio>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <limits.h>
#include "expr.h"
using namespace llvm;
using std::string; using std::vector; using std::map; using std::set;

static ExprPool X;
static double now(){return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();}
static double T0;

// ---------------------------------------------------------------- options / stats
struct Opts{ string harness,root,out,entry="sym_main"; vector<string> libs; map<string,string> params; int jobs=1; double time=600; u64 steps=4000000; u64 maxwit=1000000; u64 maxpaths=1ull<<60; bool trace=false; int frontier=64; size_t memMB=2500;} O;
struct Stats{ u64 paths=0,ended=0,forks=0,insts=0,q=0,qsat=0,qunsat=0,qunk=0,asserts=0,asserts_solver=0,asserts_fold=0,assert_unk=0,dom=0,dropped=0,unsupported=0,silent=0; double qtime=0; } S;
static set<string> funcsRun;
static map<string,u64> covers;
static map<string,u64> unsup;
static FILE*fw=nullptr;   // witness/violation stream (json lines)

static string jesc(const string&s){string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>126){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r;}

// ---------------------------------------------------------------- z3
static Z3_context Z; static Z3_solver ZS;
static vector<Z3_ast> zc;
static vector<Z3_ast> zvars;
static void z3init(){ Z3_config cfg=Z3_mk_config(); Z=Z3_mk_context(cfg); ZS=Z3_mk_simple_solver(Z); Z3_solver_inc_ref(Z,ZS);
  Z3_params p=Z3_mk_params(Z); Z3_params_inc_ref(Z,p); Z3_params_set_uint(Z,p,Z3_mk_string_symbol(Z,"timeout"),30000); Z3_solver_set_params(Z,ZS,p); }
static Z3_ast zbv(u64 v,unsigned w){return Z3_mk_unsigned_int64(Z,v,Z3_mk_bv_sort(Z,w));}
static Z3_ast zvar(int i){ if((int)zvars.size()<=i)zvars.resize(i+1,nullptr); if(!zvars[i]){char n[16];snprintf(n,16,"b%d",i);zvars[i]=Z3_mk_const(Z,Z3_mk_string_symbol(Z,n),Z3_mk_bv_sort(Z,8));} return zvars[i];}
static Z3_ast zb2v(Z3_ast b){return Z3_mk_ite(Z,b,zbv(1,1),zbv(0,1));}
static Z3_ast z3of(Expr*e){
  if((int)zc.size()<=e->id)zc.resize(X.all.size()+1024,nullptr);
  if(zc[e->id])return zc[e->id];
  Z3_ast r=nullptr;
  switch(e->op){
    case E_CONST:r=zbv(e->cv,e->w);break;
    case E_SYM:r=zvar(e->cv);break;
    case E_TAB:{ // piecewise affine
      Z3_ast v=zvar(e->var); int hi=255; vector<std::array<int,2>> runs; int i=0;
      while(i<256){int j=i; if(i+1<256){u64 d=(e->tab[i+1]-e->tab[i])&maskw(e->w); j=i+1; while(j+1<256&&((e->tab[j+1]-e->tab[j])&maskw(e->w))==d)j++; if(j==i+1&&d!=0)j=i; } runs.push_back({i,j}); i=j+1;}
      (void)hi;
      for(int k=runs.size()-1;k>=0;k--){int a=runs[k][0],b=runs[k][1]; u64 d=b>a?(e->tab[a+1]-e->tab[a])&maskw(e->w):0; Z3_ast val;
        if(d==0)val=zbv(e->tab[a],e->w); else { Z3_ast ve=e->w>8?Z3_mk_zero_ext(Z,e->w-8,v):e->w<8?Z3_mk_extract(Z,e->w-1,0,v):v;
          Z3_ast t=Z3_mk_bvsub(Z,ve,zbv(a,e->w)); if(d!=1)t=Z3_mk_bvmul(Z,t,zbv(d,e->w)); val=Z3_mk_bvadd(Z,t,zbv(e->tab[a],e->w)); }
        r=r?Z3_mk_ite(Z,Z3_mk_bvule(Z,v,zbv(b,8)),val,r):val; }
      break;}
    default:{
      Z3_ast a=z3of(e->k[0]),b=e->nk>1?z3of(e->k[1]):nullptr,c=e->nk>2?z3of(e->k[2]):nullptr;
      switch(e->op){
        case E_ADD:r=Z3_mk_bvadd(Z,a,b);break; case E_SUB:r=Z3_mk_bvsub(Z,a,b);break; case E_MUL:r=Z3_mk_bvmul(Z,a,b);break;
        case E_UDIV:r=Z3_mk_bvudiv(Z,a,b);break; case E_SDIV:r=Z3_mk_bvsdiv(Z,a,b);break; case E_UREM:r=Z3_mk_bvurem(Z,a,b);break; case E_SREM:r=Z3_mk_bvsrem(Z,a,b);break;
        case E_AND:r=Z3_mk_bvand(Z,a,b);break; case E_OR:r=Z3_mk_bvor(Z,a,b);break; case E_XOR:r=Z3_mk_bvxor(Z,a,b);break;
        case E_SHL:r=Z3_mk_bvshl(Z,a,b);break; case E_LSHR:r=Z3_mk_bvlshr(Z,a,b);break; case E_ASHR:r=Z3_mk_bvashr(Z,a,b);break;
        case E_EQ:r=zb2v(Z3_mk_eq(Z,a,b));break; case E_ULT:r=zb2v(Z3_mk_bvult(Z,a,b));break; case E_ULE:r=zb2v(Z3_mk_bvule(Z,a,b));break;
        case E_SLT:r=zb2v(Z3_mk_bvslt(Z,a,b));break; case E_SLE:r=zb2v(Z3_mk_bvsle(Z,a,b));break;
        case E_ITE:r=Z3_mk_ite(Z,Z3_mk_eq(Z,a,zbv(1,1)),b,c);break;
        case E_EXTRACT:r=Z3_mk_extract(Z,e->lo+e->w-1,e->lo,a);break; case E_CONCAT:r=Z3_mk_concat(Z,a,b);break;
        case E_ZEXT:r=Z3_mk_zero_ext(Z,e->w-e->k[0]->w,a);break; case E_SEXT:r=Z3_mk_sign_ext(Z,e->w-e->k[0]->w,a);break;
        default:abort();
      }}
  }
  Z3_inc_ref(Z,r);
  if((int)zc.size()<=e->id)zc.resize(X.all.size()+1024,nullptr);
  zc[e->id]=r; return r;
}

// ---------------------------------------------------------------- values, memory
struct Val{u64 c; Expr*e; Val(u64 c=0,Expr*e=nullptr):c(c),e(e){}};
static inline Val VE(Expr*e){ if(e->op==E_CONST)return Val(e->cv); return Val(0,e);}
static inline Expr* toE(const Val&v,unsigned w){return v.e?v.e:X.cons(v.c,w);}
static inline bool isU(const Val&v){return v.e&&v.e->op==E_UNDEF;} // X.UNDEF: no bit is defined; others: value in k[0] (zero where undefined), undefined bits in cv

enum OK{O_HEAP,O_STACK,O_GLOBAL,O_MAP,O_SPECIAL};
struct Obj{ int rc=1; OK kind; bool ro=false; bool shared=false; u64 size; u8*buf; Expr**sym=nullptr; string what;
  Obj(OK k,u64 n):kind(k),size(n){buf=(u8*)calloc(1,n?n:1);}
  ~Obj(){if(!shared)free(buf); free(sym);}
  void mksym(){ if(!sym)sym=(Expr**)calloc(size?size:1,sizeof(Expr*)); }
  void undef(){ mksym(); for(u64 i=0;i<size;i++)sym[i]=X.UNDEF; }
  Obj*clone(){ Obj*o=new Obj(kind,0); free(o->buf); o->size=size; o->ro=ro; o->what=what; o->shared=shared;
    if(shared)o->buf=buf; else {o->buf=(u8*)malloc(size?size:1); memcpy(o->buf,buf,size);} if(sym){o->sym=(Expr**)malloc(sizeof(Expr*)*(size?size:1)); memcpy(o->sym,sym,sizeof(Expr*)*size);} return o;}
};
static Obj*const FREED=(Obj*)8;
static void oref(Obj*o){if((u64)o>16)o->rc++;} static void ounref(Obj*o){if((u64)o>16&&--o->rc==0)delete o;}
struct Chunk{int rc=1; Obj*o[64]; Chunk(){memset(o,0,sizeof o);} ~Chunk(){for(auto p:o)ounref(p);} };
struct PArr{ vector<Chunk*> c; u64 n=0;
  PArr(){} PArr(const PArr&x):c(x.c),n(x.n){for(auto k:c)if(k)k->rc++;}
  PArr&operator=(const PArr&)=delete;
  ~PArr(){for(auto k:c)if(k&&--k->rc==0)delete k;}
  Obj*get(u64 i)const{ if(i>=n||!c[i>>6])return nullptr; return c[i>>6]->o[i&63]; }
  Chunk*own(u64 i){ while((i>>6)>=c.size())c.push_back(nullptr); Chunk*&k=c[i>>6]; if(!k)k=new Chunk(); else if(k->rc>1){Chunk*z=new Chunk(); memcpy(z->o,k->o,sizeof z->o); for(auto p:z->o)oref(p); k->rc--; k=z;} if(i>=n)n=i+1; return k;}
  void set(u64 i,Obj*o){Chunk*k=own(i); Obj*old=k->o[i&63]; k->o[i&63]=o; ounref(old);}
  Obj*wr(u64 i){Chunk*k=own(i); Obj*&p=k->o[i&63]; if(p->rc>1){Obj*q=p->clone(); p->rc--; p=q;} return p;}
};
// address layout: id<<32 | BIAS+offset ; globals have bit 62 set
static const u64 BIAS=0x10000000ull; static const u64 GBIT=1ull<<56; static const u64 FNBASE=0x7fu; // functions: id 0x7f
static inline u64 mkaddr(u64 id,bool g){return (id+256)<<32|BIAS|(g?GBIT:0);}

// ---------------------------------------------------------------- compiled code
struct Opnd{ int reg=-1; u64 c=0; bool undef=false; };
struct CFunc; struct Mod;
struct Edge{ int pc; vector<std::pair<int,Opnd>> mv; };
enum IOp{I_BIN,I_ICMP,I_CAST,I_LOAD,I_STORE,I_GEP,I_ALLOCA,I_BR,I_CBR,I_SWITCH,I_CALL,I_RET,I_SELECT,I_UNREACH,I_MOVE,I_FP,I_UNSUP};
struct State;
typedef std::function<bool(State&,vector<Val>&,Val&)> Builtin;
struct CI{ IOp op; int sub=0; unsigned w=0,w2=0; int dst=-1; vector<Opnd> a; vector<Edge> ed; vector<u64> cases; u64 k=0; vector<std::pair<u64,unsigned>> scale;
  CFunc*callee=nullptr; Builtin*bi=nullptr; string name; const Instruction*I=nullptr; int nres=1; };
struct CFunc{ string name; Mod*mod; Function*F; int nregs=0,nargs=0; bool ready=false; vector<CI> code; bool seen=false; };
struct GInit{u64 id; GlobalVariable*G;};
struct Mod{ string path; std::unique_ptr<Module> M; map<string,CFunc*> fn; map<string,u64> gaddr; vector<GInit> ginit; bool isHarness=false,isLib=false; };
static LLVMContext LC;
static vector<CFunc*> funcTable; // address -> function
struct FnEnt{CFunc*f; string ext;};
static vector<FnEnt> fnEnts; static map<string,u64> extFn; static map<CFunc*,u64> fnAddr;
static map<string,Mod*> modCache; static Mod*harness=nullptr; static vector<Mod*> libs;
static u64 nextG=1;
static map<string,Builtin> builtins;

struct Frame{ CFunc*f; int pc=0; vector<Val> r; int dst=-1; vector<u64> allocas; vector<Val> va; };
struct VFile{ string path; string data; u64 pos=0; bool eof=false; bool wr=false; bool open=true; int fd=-1; };
struct Observe{string tag; vector<Val> b;};
struct SymB{string name;};
struct State{
  vector<Frame> fr; PArr heap,glob; vector<Dom> dom; vector<Expr*> cons; VarSet mvars; vector<u8> model; vector<string> names; vector<int> pinned; // pinned: singleton cache (-1 none)
  vector<Observe> obs; map<u64,VFile> files; string cwd; map<string,int> loaded; u64 steps=0; i64 live=0; set<string> cov; u64 nfork=0; int vioHere=0; int fOpen=0,fMap=0,fDl=0;
  bool done=false;
};
struct PathEnd{int why;}; // 0 normal, 1 silent (assume), 2 error, 3 unsupported, 4 limit
static vector<State*> work;

// ---------------------------------------------------------------- solver front end
static Expr* subst(State&s,Expr*e,std::unordered_map<Expr*,Expr*>&memo){
  if(e->vars.empty())return e;
  if(e->tab){ int p=s.pinned[e->var]; return p>=0?X.cons(e->tab[p],e->w):e; }
  auto it=memo.find(e); if(it!=memo.end())return it->second;
  Expr*k[3]={0,0,0}; bool ch=false; for(int i=0;i<e->nk;i++){k[i]=subst(s,e->k[i],memo); if(k[i]!=e->k[i])ch=true;}
  Expr*r=ch?X.mk(e->op,e->w,k[0],k[1],k[2],e->lo):e; memo[e]=r; return r;
}
static Expr* reduce(State&s,Expr*e){
  if(e->op==E_UNDEF||e->op==E_CONST)return e;
  if(e->tab){int p=s.pinned[e->var]; return p>=0?X.cons(e->tab[p],e->w):e;}
  bool any=false; e->vars.each([&](int v){if(s.pinned[v]>=0)any=true;});
  if(!any)return e;
  std::unordered_map<Expr*,Expr*> memo; return subst(s,e,memo);
}
static Val red(State&s,const Val&v){ if(!v.e||v.e->op==E_UNDEF)return v; return VE(reduce(s,v.e)); }
static void setdom(State&s,int v,const Dom&d){ s.dom[v]=d; if(d.count()==1){for(int i=0;i<256;i++)if(d[i]){s.pinned[v]=i;break;}} }
static Dom domOf(Expr*c){Dom d; for(int i=0;i<256;i++)if(c->tab[i])d.set(i); return d;}
static Z3_ast domAst(int v,const Dom&d){
  vector<Z3_ast> o; for(int i=0;i<256;){ if(!d[i]){i++;continue;} int j=i; while(j+1<256&&d[j+1])j++; Z3_ast a;
    if(i==j)a=Z3_mk_eq(Z,zvar(v),zbv(i,8)); else {Z3_ast x[2]={Z3_mk_bvule(Z,zbv(i,8),zvar(v)),Z3_mk_bvule(Z,zvar(v),zbv(j,8))}; a=Z3_mk_and(Z,2,x);} o.push_back(a); i=j+1;}
  if(o.empty())return Z3_mk_false(Z); return o.size()==1?o[0]:Z3_mk_or(Z,o.size(),o.data());
}
static Z3_ast zbool(Expr*e){return Z3_mk_eq(Z,z3of(e),zbv(1,1));}
struct QKey{vector<int> ids; };
static map<vector<u64>,std::pair<int,vector<std::pair<int,u8>>>> qcache;
// 1 sat (mdl updated), 0 unsat, -1 unknown
static int check(State&s,Expr*extra,vector<u8>&mdl){
  VarSet vs=extra->vars; vector<Expr*> rel; vector<char> used(s.cons.size(),0); bool ch=true;
  while(ch){ch=false; for(size_t i=0;i<s.cons.size();i++)if(!used[i]&&s.cons[i]->vars.inter(vs)){used[i]=1;rel.push_back(s.cons[i]);vs|=s.cons[i]->vars;ch=true;}}
  vector<u64> key; key.push_back(extra->id); {vector<int> ids; for(auto e:rel)ids.push_back(e->id); std::sort(ids.begin(),ids.end()); for(int i:ids)key.push_back(i);} 
  vs.each([&](int v){ key.push_back(~0ull-v); const u64*p=(const u64*)&s.dom[v]; for(int i=0;i<4;i++)key.push_back(p[i]); });
  auto it=qcache.find(key); if(it!=qcache.end()){ for(auto&x:it->second.second)mdl[x.first]=x.second; return it->second.first; }
  if(extra->tab){ // split on the symbol's values: constant propagation may leave only single-symbol constraints
    Dom d=s.dom[extra->var]&domOf(extra); int v=extra->var, sv=s.pinned[v], res=0; bool ok=true; vector<std::pair<int,u8>> out;
    for(int x=0;x<256&&ok&&!res;x++){ if(!d[x])continue;
      s.pinned[v]=x; bool sat=true; std::map<int,Dom> ld;
      for(size_t i=0;i<rel.size()&&sat;i++){ Expr*r=reduce(s,rel[i]); if(r->op==E_CONST){ if(!r->cv)sat=false; }
        else if(r->tab){ auto q=ld.emplace(r->var,s.dom[r->var]).first; q->second&=domOf(r); if(q->second.none())sat=false; } else ok=false; }
      if(!ok&&sat)break;
      if(!sat){ok=true;continue;}
      res=1; out.push_back({v,(u8)x}); for(auto&q:ld){ int y=s.model[q.first]; if(!q.second[y]){y=0; while(!q.second[y])y++;} out.push_back({q.first,(u8)y}); } }
    s.pinned[v]=sv;
    if(ok){ S.dom++; for(auto&o:out)mdl[o.first]=o.second; if(qcache.size()>200000)qcache.clear(); qcache[key]={res,out}; return res; }
  }
  double t=now(); S.q++;
  Z3_solver_push(Z,ZS);
  vs.each([&](int v){ if(!s.dom[v].all())Z3_solver_assert(Z,ZS,domAst(v,s.dom[v])); });
  for(auto e:rel)Z3_solver_assert(Z,ZS,zbool(e));
  Z3_solver_assert(Z,ZS,zbool(extra));
  Z3_lbool r=Z3_solver_check(Z,ZS); int res=r==Z3_L_TRUE?1:r==Z3_L_FALSE?0:-1;
  vector<std::pair<int,u8>> out;
  if(res==1){ S.qsat++; Z3_model m=Z3_solver_get_model(Z,ZS); Z3_model_inc_ref(Z,m);
    vs.each([&](int v){ Z3_ast r2; uint64_t x=0; if(Z3_model_eval(Z,m,zvar(v),true,&r2)){Z3_inc_ref(Z,r2); Z3_get_numeral_uint64(Z,r2,&x); Z3_dec_ref(Z,r2);} mdl[v]=x; out.push_back({v,(u8)x}); });
    Z3_model_dec_ref(Z,m);
    // independent validation of the model against the constraints
    if(!X.eval(extra,mdl)){fprintf(stderr,"symx: z3 model does not satisfy query\n");exit(70);} 
  } else if(res==0)S.qunsat++; else S.qunk++;
  Z3_solver_pop(Z,ZS,1); S.qtime+=now()-t;
  if(qcache.size()>200000)qcache.clear();
  qcache[key]={res,out};
  return res;
}
static void addc(State&s,Expr*c){ if(c->tab)setdom(s,c->var,s.dom[c->var]&domOf(c)); else {s.cons.push_back(c); s.mvars|=c->vars;} }
// constraints whose symbols got fixed meanwhile fold away or become plain domain restrictions
static void simplify(State&s){
  bool any=false; for(int v=0;v<(int)s.pinned.size()&&!any;v++)if(s.pinned[v]>=0&&s.mvars.has(v))any=true;
  if(!any)return;
  for(bool ch=true;ch;){ ch=false; vector<Expr*> nc; VarSet mv;
    for(auto c:s.cons){ Expr*r=reduce(s,c); if(r->op==E_CONST&&r->cv){continue;} if(r->tab){ Dom d=s.dom[r->var]&domOf(r); bool one=d.count()==1&&s.dom[r->var].count()!=1; setdom(s,r->var,d); if(one)ch=true; continue; } nc.push_back(r); mv|=r->vars; }
    s.cons.swap(nc); s.mvars=mv; }
}
static State* clone(State&s){ return new State(s); }
// decide a condition on the current path, forking if both outcomes are possible
static void fixmodel1(State&s,Expr*c){ // c single var, not in mvars: make model satisfy dom
  int v=c->var; if(!s.dom[v][s.model[v]]){for(int i=0;i<256;i++)if(s.dom[v][i]){s.model[v]=i;break;}} }
static bool decide(State&s,Val cv){
  if(!cv.e)return cv.c&1;
  Expr*c=reduce(s,cv.e); if(c->op==E_CONST)return c->cv&1;
  if(c->tab){
    Dom t=domOf(c), dt=s.dom[c->var]&t, df=s.dom[c->var]&~t;
    if(dt.none()){S.dom++;return false;} if(df.none()){S.dom++;return true;}
    if(s.mvars.has(c->var)){ simplify(s); dt=s.dom[c->var]&t; df=s.dom[c->var]&~t; if(dt.none())return false; if(df.none())return true; }
    if(!s.mvars.has(c->var)){
      S.dom++;
      bool cur=c->tab[s.model[c->var]]; State*o=clone(s); S.forks++;
      setdom(s,c->var,cur?dt:df); setdom(*o,c->var,cur?df:dt); fixmodel1(*o,c); work.push_back(o); return cur;
    }
  }
  bool cur=X.eval(c,s.model); Expr*neg=X.lnot(c); Expr*oth=cur?neg:c;
  vector<u8> m2=s.model; int r=check(s,oth,m2);
  if(r==0){ if(c->tab){ Dom t=domOf(c); setdom(s,c->var,s.dom[c->var]&(cur?t:~t)); } return cur; }
  if(r<0){ S.dropped++; addc(s,cur?c:neg); return cur; }
  State*o=clone(s); S.forks++; o->model=m2; addc(*o,oth); addc(s,cur?c:neg); work.push_back(o); return cur;
}
static u64 concretize(State&s,Val v,unsigned w){
  for(;;){ v=red(s,v); if(!v.e)return v.c; u64 x=X.eval(v.e,s.model); if(decide(s,VE(X.mk(E_EQ,1,v.e,X.cons(x,w)))))return x; }
}

// ---------------------------------------------------------------- reporting
static string where(State&s){
  string r; for(int i=s.fr.size()-1,n=0;i>=0&&n<6;i--,n++){ Frame&f=s.fr[i]; if(n)r+=" < "; r+=f.f->name; const Instruction*I=f.f->code[f.pc].I; if(I&&I->getDebugLoc()){ r+=":"+std::to_string(I->getDebugLoc().getLine()); } } return r;
}
static string topfn(State&s){ for(int i=s.fr.size()-1;i>=0;i--)if(!s.fr[i].f->mod->isHarness||i==0){return s.fr[i].f->name;} return "";}
static void hexs(string&o,const vector<u8>&m){char b[4];for(u8 c:m){snprintf(b,4,"%02x",c);o+=b;}}
static string witness(State&s,const vector<u8>&m){ string o="\"in\":\""; vector<u8> v(m.begin(),m.begin()+s.dom.size()); hexs(o,v); o+="\",\"obs\":["; bool first=true;
  for(auto&ob:s.obs){ if(!first)o+=","; first=false; o+="[\""+jesc(ob.tag)+"\",\""; char b[4]; for(auto&x:ob.b){ if(isU(x)){o+="??";continue;} u8 c=x.e?X.eval(x.e,m):x.c; snprintf(b,4,"%02x",c); o+=b; } o+="\"]"; }
  o+="]"; return o; }
static map<string,int> vioSeen;
static void report(State&s,const char*kind,const string&msg,const vector<u8>&m){
  string loc=where(s); string key=string(kind)+"|"+msg+"|"+loc; if(vioSeen[key]++>=2)return;
  if(vioSeen.size()>400)return;
  string o="{\"type\":\"violation\",\"kind\":\""+string(kind)+"\",\"msg\":\""+jesc(msg)+"\",\"where\":\""+jesc(loc)+"\","; o+=witness(s,m); o+="}\n"; fputs(o.c_str(),fw); fflush(fw);
}
[[noreturn]] static void fail(State&s,const char*kind,const string&msg){ s.vioHere++; report(s,kind,msg,s.model); throw PathEnd{2}; }
[[noreturn]] static void unsupported(State&s,const string&what){ unsup[what]++; throw PathEnd{3}; }

// ---------------------------------------------------------------- memory access
static bool locate(State&s,u64 a,bool&g,u64&id,u64&off){
  g=a&GBIT; u64 b=a&~GBIT; id=(b>>32); if(id<256)return false; id-=256; off=(b&0xffffffffull)-BIAS; return true; }
static string pdesc(u64 a){char b[64]; if(a<4096)snprintf(b,64,"null pointer (0x%lx)",(long)a); else snprintf(b,64,"0x%lx",(long)a); return b;}
// find object for concrete access; reports and ends the path when invalid
static Obj* access(State&s,u64 a,u64 n,bool wr,u64&off,bool&g,u64&id){
  if(!locate(s,a,g,id,off)){ fail(s,wr?"bad-write":"bad-read",(wr?"write through ":"read through ")+string(a<4096?"null pointer":"wild pointer")); }
  Obj*o=(g?s.glob:s.heap).get(id);
  if(o==FREED)fail(s,"use-after-free",wr?"write to freed memory":"read of freed memory");
  if(!o)fail(s,wr?"bad-write":"bad-read","access to invalid object");
  if(off>o->size||n>o->size-off){ fail(s,wr?"oob-write":"oob-read",string(wr?"write":"read")+" outside "+o->what+" object"); }
  if(wr&&o->ro)fail(s,"ro-write","write to read-only object "+o->what);
  return o;
}
static void parts(const Val&a,unsigned w,Val&v,u64&m){ if(!isU(a)){v=a;m=0;} else if(a.e==X.UNDEF){v=Val(0);m=maskw(w);} else {v=VE(a.e->k[0]);m=a.e->cv;} }
static Val mkpart(const Val&v,u64 m,unsigned w){ m&=maskw(w); if(!m)return v; if(m==maskw(w))return Val(0,X.UNDEF); Expr*e=v.e?X.mk(E_AND,w,v.e,X.cons(~m&maskw(w),w)):X.cons(v.c&~m&maskw(w),w); return Val(0,X.raw(E_UNDEF,w,0,1,e,nullptr,nullptr,m)); }
static Val ldbytes(Obj*o,u64 off,u64 n){
  if(!o->sym){ u64 v=0; memcpy(&v,o->buf+off,n); return Val(v);} 
  bool any=false,un=false; for(u64 i=0;i<n;i++)if(o->sym[off+i]){any=true; if(o->sym[off+i]->op==E_UNDEF)un=true;} 
  if(!any){u64 v=0; memcpy(&v,o->buf+off,n); return Val(v);} 
  if(un&&n==1)return Val(0,o->sym[off]);
  if(un){ u64 m=0; Expr*e=nullptr; for(u64 i=0;i<n;i++){ Val t; u64 bm; if(o->sym[off+i])parts(Val(0,o->sym[off+i]),8,t,bm); else {t=Val(o->buf[off+i]);bm=0;} m|=bm<<(8*i); Expr*b=t.e?t.e:X.cons(t.c,8); e=e?X.mk(E_CONCAT,e->w+8,b,e):b; } return mkpart(VE(e),m,8*n); }
  Expr*e=nullptr; for(u64 i=0;i<n;i++){ Expr*b=o->sym[off+i]?o->sym[off+i]:X.cons(o->buf[off+i],8); e=e?X.mk(E_CONCAT,e->w+8,b,e):b; }
  return VE(e);
}
static void stbytes(Obj*o,u64 off,u64 n,const Val&v){
  if(!v.e){ memcpy(o->buf+off,&v.c,n); if(o->sym)for(u64 i=0;i<n;i++)o->sym[off+i]=nullptr; return; }
  o->mksym();
  if(v.e->op==E_UNDEF&&v.e!=X.UNDEF){ Expr*x=v.e->k[0]; if(x->w<n*8)x=X.mk(E_ZEXT,n*8,x); for(u64 i=0;i<n;i++){ Expr*b=x->w==8?x:X.mk(E_EXTRACT,8,x,0,0,i*8); u64 bm=(v.e->cv>>(8*i))&255; if(bm)o->sym[off+i]=mkpart(VE(b),bm,8).e; else if(b->op==E_CONST){o->sym[off+i]=nullptr;o->buf[off+i]=b->cv;} else o->sym[off+i]=b; } return; }
  for(u64 i=0;i<n;i++){ if(v.e==X.UNDEF){o->sym[off+i]=X.UNDEF;continue;} Expr*b=n==1&&v.e->w==8?v.e:X.mk(E_EXTRACT,8,v.e->w<n*8?X.mk(E_ZEXT,n*8,v.e):v.e,0,0,i*8);
    if(b->op==E_CONST){o->sym[off+i]=nullptr;o->buf[off+i]=b->cv;} else o->sym[off+i]=b; }
}
// Resolve a (possibly symbolic) address for an n-byte access.  Result: either concrete address (returns true, a set)
// or a single-symbol address whose every feasible value lies in bounds of one object (returns false).
static bool resolveAddr(State&s,Val p,u64 n,bool wr,u64&a,Expr*&ae,Obj*&obj,u64&id,bool&g){
  p=red(s,p); if(isU(p))fail(s,"uninit","address depends on uninitialised memory");
  if(!p.e){a=p.c;return true;}
  while(!p.e->tab){ // several symbols: case-split on the one with the smallest domain
    int best=-1; size_t bc=1000; p.e->vars.each([&](int v){size_t c=s.dom[v].count(); if(c<bc){bc=c;best=v;}});
    concretize(s,Val(0,X.sym(best)),8); p=red(s,p); if(!p.e){a=p.c;return true;}
  }
  for(;;){
    Expr*e=p.e; int v=e->var; Dom d=s.dom[v]; u64 t[256]={0}; bool anybad=false; bool anyok=false; u64 oid=0; bool og=false; bool multi=false;
    u64 cat[256]; // 0 bad, else object key
    for(int i=0;i<256;i++){ if(!d[i])continue; bool g2;u64 id2,off; u64 key=0; if(locate(s,e->tab[i],g2,id2,off)){Obj*o=(g2?s.glob:s.heap).get(id2); if((u64)o>16&&off<=o->size&&n<=o->size-off&&!(wr&&o->ro))key=(id2<<1|g2)+1;} cat[i]=key;
      if(!key)anybad=true; else { if(anyok&&(oid!=id2||og!=g2))multi=true; if(!anyok){oid=id2;og=g2;} anyok=true; } }
    if(!anyok){ a=X.eval(e,s.model); return true; } // every value bad: let access() report
    if(!anybad&&!multi){ obj=(og?s.glob:s.heap).get(oid); id=oid; g=og; ae=e; return false; }
    for(int i=0;i<256;i++)t[i]=d[i]?(anybad?cat[i]!=0:cat[i]==((oid<<1|og)+1)):0;
    // out-of-domain entries repeat an in-domain value so the table folds where it can
    Expr*c=X.table(v,1,t);
    bool r=decide(s,VE(c)); p=red(s,p); if(!p.e){a=p.c;return true;} (void)r;
  }
}
static Val loadmem(State&s,Val p,u64 n){
  u64 a;Expr*ae=nullptr;Obj*o=nullptr;u64 id,off;bool g;
  if(!p.e||resolveAddr(s,p,n,false,a,ae,o,id,g)){ if(!p.e)a=p.c; o=access(s,a,n,false,off,g,id); return ldbytes(o,off,n);} 
  int v=ae->var; u64 t[256]; u64 dflt=0; bool hd=false; bool viaIte=false;
  for(int i=0;i<256&&!viaIte;i++){ if(!s.dom[v][i])continue; u64 of=(ae->tab[i]&0xffffffffull)-BIAS; u64 x=0; memcpy(&x,o->buf+of,n);
    if(o->sym){ for(u64 k=0;k<n;k++){ Expr*b=o->sym[of+k]; if(!b)continue; if(b->op==E_UNDEF){ viaIte=true;break;} b=reduce(s,b); u64 bv; if(b->op==E_CONST)bv=b->cv; else if(b->tab&&b->var==v)bv=b->tab[i]; else {viaIte=true;break;} x=(x&~(0xffull<<(8*k)))|bv<<(8*k);} }
    t[i]=x; if(!hd){hd=true;dflt=x;} }
  if(viaIte){ // content depends on other symbols: case-split on the index
    u64 a2=concretize(s,Val(0,ae),64); o=access(s,a2,n,false,off,g,id); return ldbytes(o,off,n); }
  for(int i=0;i<256;i++)if(!s.dom[v][i])t[i]=dflt;
  return VE(X.table(v,n*8,t));
}
static void storemem(State&s,Val p,u64 n,const Val&v){
  p=red(s,p); u64 a; if(p.e){ if(isU(p))fail(s,"uninit","store address depends on uninitialised memory"); a=concretize(s,p,64);} else a=p.c;
  u64 off,id;bool g; Obj*o=access(s,a,n,true,off,g,id); o=(g?s.glob:s.heap).wr(id); stbytes(o,off,n,v);
}
static u64 allocObj(State&s,OK k,u64 n,const char*what,bool undef){
  Obj*o=new Obj(k,n); o->what=what; if(undef&&n)o->undef(); u64 id=s.heap.n; s.heap.set(id,o); return mkaddr(id,false); }
static Val ldb(State&s,Val p,u64 i){ if(!p.e)return loadmem(s,Val(p.c+i),1); return loadmem(s,VE(X.mk(E_ADD,64,p.e,X.cons(i,64))),1); }
static void memcopy(State&s,Val d,Val sr,u64 n){
  if(!n)return; d=red(s,d); sr=red(s,sr); if(isU(d)||isU(sr))fail(s,"uninit","memcpy pointer depends on uninitialised memory");
  if(d.e)d=Val(concretize(s,d,64));
  u64 doff,did;bool dg; 
  if(!sr.e){ u64 soff,sid;bool sg; Obj*so=access(s,sr.c,n,false,soff,sg,sid); access(s,d.c,n,true,doff,dg,did); Obj*o=(dg?s.glob:s.heap).wr(did); so=(sg?s.glob:s.heap).get(sid);
    bool ssym=so->sym; if(ssym){ o->mksym(); memmove(o->sym+doff,so->sym+soff,n*sizeof(Expr*)); } else if(o->sym)memset(o->sym+doff,0,n*sizeof(Expr*)); memmove(o->buf+doff,so->buf+soff,n); return; }
  // symbolic source
  { u64 a;Expr*ae=nullptr;Obj*o2=nullptr;u64 id;bool g; resolveAddr(s,sr,n,false,a,ae,o2,id,g); sr=red(s,sr); if(!sr.e){memcopy(s,d,sr,n);return;} }
  vector<Val> tmp(n); for(u64 i=0;i<n;i++)tmp[i]=ldb(s,sr,i);
  access(s,d.c,n,true,doff,dg,did); Obj*o=(dg?s.glob:s.heap).wr(did); for(u64 i=0;i<n;i++)stbytes(o,doff+i,1,tmp[i]);
}
static string cstr(State&s,Val p){ // concrete string (case-splits symbolic bytes)
  p=red(s,p); u64 a=p.e?concretize(s,p,64):p.c; string r; for(u64 i=0;;i++){ Val b=loadmem(s,Val(a+i),1); if(isU(b))fail(s,"uninit","string contains uninitialised byte"); u64 c=b.e?concretize(s,b,8):b.c; if(!c)break; r.push_back(c); if(r.size()>1000000)fail(s,"hang","unterminated string"); } return r; }
static void putstr(State&s,u64 a,const string&t){ u64 off,id;bool g; access(s,a,t.size()+1,true,off,g,id); Obj*o=(g?s.glob:s.heap).wr(id); memcpy(o->buf+off,t.c_str(),t.size()+1); if(o->sym)memset(o->sym+off,0,(t.size()+1)*sizeof(Expr*)); }
static u64 newstr(State&s,const string&t,const char*w){ u64 a=allocObj(s,O_HEAP,t.size()+1,w,false); s.live++; putstr(s,a,t); return a; }

// ---------------------------------------------------------------- IR loading
static u64 fnAddrOf(CFunc*f){auto it=fnAddr.find(f); if(it!=fnAddr.end())return it->second; u64 a=(FNBASE<<32)+fnEnts.size()*16; fnEnts.push_back({f,""}); fnAddr[f]=a; return a;}
static u64 extAddr(const string&n){auto it=extFn.find(n); if(it!=extFn.end())return it->second; u64 a=(FNBASE<<32)+fnEnts.size()*16; fnEnts.push_back({nullptr,n}); extFn[n]=a; return a;}
static u64 constVal(Mod*m,const Constant*C,bool&undef,vector<u64>*flat=nullptr);
static CFunc* findFn(Mod*m,const string&n){
  auto it=m->fn.find(n); if(it!=m->fn.end())return it->second;
  if(harness){it=harness->fn.find(n); if(it!=harness->fn.end())return it->second;}
  for(Mod*l:libs){it=l->fn.find(n); if(it!=l->fn.end())return it->second;}
  return nullptr;
}
static CFunc*printFn=nullptr; static u64 printAt=0,printN=0; // sym_print of the harness: gets what is printed to a FILE the engine does not know
static CFunc*pointFn=nullptr; // sym_point of the harness: called after every allocation and release (a point where another thread may run)
static map<string,u64> extGlob; // stdout etc.
static u64 globAddr(Mod*m,const GlobalVariable*G){
  string n=G->getName().str(); 
  if(!G->isDeclaration()){return m->gaddr[n];}
  if(harness){auto it=harness->gaddr.find(n); if(it!=harness->gaddr.end())return it->second;}
  for(Mod*l:libs){auto it=l->gaddr.find(n); if(it!=l->gaddr.end())return it->second;}
  auto it=extGlob.find(n); if(it!=extGlob.end())return it->second;
  u64 a=mkaddr(nextG++,true); extGlob[n]=a; return a;
}
static const DataLayout*DL;
static u64 constVal(Mod*m,const Constant*C,bool&undef,vector<u64>*){
  if(auto*I=dyn_cast<ConstantInt>(C))return I->getValue().getLimitedValue();
  if(isa<ConstantPointerNull>(C))return 0;
  if(isa<UndefValue>(C)){undef=true;return 0;}
  if(auto*F=dyn_cast<ConstantFP>(C)){return F->getValueAPF().bitcastToAPInt().getLimitedValue();}
  if(auto*F=dyn_cast<Function>(C)){ CFunc*f=findFn(m,F->getName().str()); return f?fnAddrOf(f):extAddr(F->getName().str()); }
  if(auto*G=dyn_cast<GlobalVariable>(C))return globAddr(m,G);
  if(auto*GA=dyn_cast<GlobalAlias>(C))return constVal(m,GA->getAliasee(),undef);
  if(auto*E=dyn_cast<ConstantExpr>(C)){
    if(auto*GO=dyn_cast<GEPOperator>(E)){ u64 b=constVal(m,cast<Constant>(GO->getPointerOperand()),undef); APInt off(64,0); if(GO->accumulateConstantOffset(*DL,off))return b+off.getSExtValue(); }
    switch(E->getOpcode()){
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constVal(m,E->getOperand(0),undef);
      case Instruction::Trunc: return constVal(m,E->getOperand(0),undef)&maskw(E->getType()->getIntegerBitWidth());
      case Instruction::ZExt: return constVal(m,E->getOperand(0),undef);
      case Instruction::Add: return constVal(m,E->getOperand(0),undef)+constVal(m,E->getOperand(1),undef);
      case Instruction::Sub: return constVal(m,E->getOperand(0),undef)-constVal(m,E->getOperand(1),undef);
    }
  }
  if(C->isZeroValue())return 0;
  undef=true; return 0;
}
static void initGlobal(Mod*m,Obj*o,u64 off,const Constant*C){
  Type*T=C->getType();
  if(isa<ConstantAggregateZero>(C))return; // zero filled
  if(isa<UndefValue>(C))return;
  if(auto*A=dyn_cast<ConstantDataSequential>(C)){ StringRef raw=A->getRawDataValues(); memcpy(o->buf+off,raw.data(),raw.size()); return; }
  if(auto*A=dyn_cast<ConstantArray>(C)){ u64 sz=DL->getTypeAllocSize(A->getType()->getElementType()); for(unsigned i=0;i<A->getNumOperands();i++)initGlobal(m,o,off+i*sz,A->getOperand(i)); return; }
  if(auto*A=dyn_cast<ConstantStruct>(C)){ auto*SL=DL->getStructLayout(A->getType()); for(unsigned i=0;i<A->getNumOperands();i++)initGlobal(m,o,off+SL->getElementOffset(i),A->getOperand(i)); return; }
  bool u=false; u64 v=constVal(m,C,u); memcpy(o->buf+off,&v,DL->getTypeStoreSize(T));
}
static Mod* loadMod(const string&path){
  auto it=modCache.find(path); if(it!=modCache.end())return it->second;
  SMDiagnostic err; auto M=parseIRFile(path,err,LC); if(!M){ modCache[path]=nullptr; return nullptr; }
  Mod*m=new Mod(); m->path=path; m->M=std::move(M); DL=&m->M->getDataLayout();
  for(auto&F:*m->M)if(!F.isDeclaration()){CFunc*c=new CFunc(); c->name=F.getName().str(); c->mod=m; c->F=&F; m->fn[c->name]=c;}
  for(auto&G:m->M->globals())if(!G.isDeclaration()){u64 id=nextG++; m->gaddr[G.getName().str()]=mkaddr(id,true); m->ginit.push_back({id,&G});}
  modCache[path]=m; return m;
}
static void mapGlobals(State&s,Mod*m){
  for(auto&gi:m->ginit){ u64 n=DL->getTypeAllocSize(gi.G->getValueType()); Obj*o=new Obj(O_GLOBAL,n); o->what="global "+gi.G->getName().str(); o->ro=gi.G->isConstant(); initGlobal(m,o,0,gi.G->getInitializer()); s.glob.set(gi.id,o); }
}
static void unmapGlobals(State&s,Mod*m){ for(auto&gi:m->ginit)s.glob.set(gi.id,FREED); }

// ---------------------------------------------------------------- compile IR to internal code
static unsigned bitsOf(Type*T){ if(T->isIntegerTy())return T->getIntegerBitWidth(); if(T->isPointerTy())return 64; if(T->isDoubleTy())return 64; if(T->isFloatTy())return 32; return 0; }
static void compile(CFunc*c){
  c->ready=true; Function&F=*c->F; map<const Value*,int> reg; int n=0;
  auto slots=[&](Type*T)->int{ if(T->isVoidTy())return 0; if(auto*ST=dyn_cast<StructType>(T))return ST->getNumElements(); return 1; };
  for(auto&A:F.args()){reg[&A]=n++;}
  c->nargs=n;
  for(auto&B:F)for(auto&I:B){int k=slots(I.getType()); if(k){reg[&I]=n; n+=k;}}
  c->nregs=n;
  auto op=[&](const Value*V,int sub=0)->Opnd{ Opnd o; auto it=reg.find(V); if(it!=reg.end()){o.reg=it->second+sub;return o;} if(auto*C=dyn_cast<Constant>(V)){ if(V->getType()->isStructTy()){ if(auto*CC=C->getAggregateElement(sub)){C=CC;} else {o.undef=true;return o;} } o.c=constVal(c->mod,C,o.undef); unsigned w=bitsOf(C->getType()); if(w&&w<64)o.c&=maskw(w); return o;} o.undef=true; return o; };
  map<const BasicBlock*,int> start; struct Fix{int ci;int e;const BasicBlock*from,*to;}; vector<Fix> fix;
  auto addEdge=[&](int ci,const BasicBlock*f,const BasicBlock*t){ c->code[ci].ed.push_back(Edge()); fix.push_back({ci,(int)c->code[ci].ed.size()-1,f,t}); };
  for(auto&B:F){
    start[&B]=c->code.size();
    for(auto&I:B){
      if(isa<PHINode>(I))continue;
      CI k; k.I=&I; k.op=I_UNSUP; auto it=reg.find(&I); if(it!=reg.end())k.dst=it->second; k.w=bitsOf(I.getType());
      if(auto*BO=dyn_cast<BinaryOperator>(&I)){
        k.a={op(BO->getOperand(0)),op(BO->getOperand(1))};
        if(BO->getType()->isFPOrFPVectorTy()){ k.op=I_FP; k.sub=BO->getOpcode(); }
        else { k.op=I_BIN; switch(BO->getOpcode()){case Instruction::Add:k.sub=E_ADD;break;case Instruction::Sub:k.sub=E_SUB;break;case Instruction::Mul:k.sub=E_MUL;break;case Instruction::UDiv:k.sub=E_UDIV;break;case Instruction::SDiv:k.sub=E_SDIV;break;case Instruction::URem:k.sub=E_UREM;break;case Instruction::SRem:k.sub=E_SREM;break;case Instruction::And:k.sub=E_AND;break;case Instruction::Or:k.sub=E_OR;break;case Instruction::Xor:k.sub=E_XOR;break;case Instruction::Shl:k.sub=E_SHL;break;case Instruction::LShr:k.sub=E_LSHR;break;case Instruction::AShr:k.sub=E_ASHR;break;default:k.op=I_UNSUP;} if(!k.w)k.op=I_UNSUP; }
      } else if(auto*IC=dyn_cast<ICmpInst>(&I)){ k.op=I_ICMP; k.sub=IC->getPredicate(); k.w2=bitsOf(IC->getOperand(0)->getType()); k.a={op(IC->getOperand(0)),op(IC->getOperand(1))}; if(!k.w2)k.op=I_UNSUP; }
      else if(auto*FC=dyn_cast<FCmpInst>(&I)){ k.op=I_FP; k.sub=1000+FC->getPredicate(); k.w2=bitsOf(FC->getOperand(0)->getType()); k.a={op(FC->getOperand(0)),op(FC->getOperand(1))}; }
      else if(auto*CA=dyn_cast<CastInst>(&I)){ k.op=I_CAST; k.sub=CA->getOpcode(); k.w2=bitsOf(CA->getOperand(0)->getType()); k.a={op(CA->getOperand(0))};
        switch(CA->getOpcode()){case Instruction::Trunc:case Instruction::ZExt:case Instruction::SExt:case Instruction::PtrToInt:case Instruction::IntToPtr:case Instruction::BitCast:break; default:k.op=I_FP;k.sub=2000+CA->getOpcode();} if(!k.w||!k.w2)k.op=I_UNSUP; }
      else if(isa<FreezeInst>(I)){ k.op=I_MOVE; k.nres=slots(I.getType()); for(int i=0;i<k.nres;i++)k.a.push_back(op(I.getOperand(0),i)); }
      else if(I.getOpcode()==Instruction::FNeg){ k.op=I_FP;k.sub=3000;k.a={op(I.getOperand(0))}; }
      else if(auto*L=dyn_cast<LoadInst>(&I)){ k.op=I_LOAD; k.a={op(L->getPointerOperand())}; if(auto*ST=dyn_cast<StructType>(L->getType())){k.sub=1;k.nres=ST->getNumElements(); auto*SL=DL->getStructLayout(ST); for(int i=0;i<k.nres;i++)k.scale.push_back({SL->getElementOffset(i),bitsOf(ST->getElementType(i))});} else if(!k.w)k.op=I_UNSUP; }
      else if(auto*St=dyn_cast<StoreInst>(&I)){ k.op=I_STORE; Type*T=St->getValueOperand()->getType(); k.w=bitsOf(T); k.a={op(St->getPointerOperand())}; if(auto*ST=dyn_cast<StructType>(T)){k.sub=1;k.nres=ST->getNumElements(); auto*SL=DL->getStructLayout(ST); for(int i=0;i<k.nres;i++){k.scale.push_back({SL->getElementOffset(i),bitsOf(ST->getElementType(i))});k.a.push_back(op(St->getValueOperand(),i));}} else {k.a.push_back(op(St->getValueOperand())); if(!k.w)k.op=I_UNSUP;} }
      else if(auto*G=dyn_cast<GetElementPtrInst>(&I)){ k.op=I_GEP; k.a={op(G->getPointerOperand())}; k.k=0; bool ok=!G->getType()->isVectorTy();
        for(auto gi=gep_type_begin(G);gi!=gep_type_end(G);++gi){ Value*ix=gi.getOperand(); if(StructType*ST=gi.getStructTypeOrNull()){ k.k+=DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*CIx=dyn_cast<ConstantInt>(ix))k.k+=sz*CIx->getSExtValue(); else {k.a.push_back(op(ix)); k.scale.push_back({sz,bitsOf(ix->getType())});} } }
        if(!ok)k.op=I_UNSUP; }
      else if(auto*A=dyn_cast<AllocaInst>(&I)){ k.op=I_ALLOCA; k.k=DL->getTypeAllocSize(A->getAllocatedType()); k.a={op(A->getArraySize())}; k.name=A->getName().str(); }
      else if(auto*Br=dyn_cast<BranchInst>(&I)){ int ci=c->code.size(); if(Br->isUnconditional()){k.op=I_BR; c->code.push_back(k); addEdge(ci,&B,Br->getSuccessor(0));} else {k.op=I_CBR;k.a={op(Br->getCondition())}; c->code.push_back(k); addEdge(ci,&B,Br->getSuccessor(0)); addEdge(ci,&B,Br->getSuccessor(1));} continue; }
      else if(auto*Sw=dyn_cast<SwitchInst>(&I)){ int ci=c->code.size(); k.op=I_SWITCH; k.w2=bitsOf(Sw->getCondition()->getType()); k.a={op(Sw->getCondition())}; for(auto&cs:Sw->cases())k.cases.push_back(cs.getCaseValue()->getValue().getLimitedValue()&maskw(k.w2)); c->code.push_back(k); addEdge(ci,&B,Sw->getDefaultDest()); for(auto&cs:Sw->cases())addEdge(ci,&B,cs.getCaseSuccessor()); continue; }
      else if(auto*R=dyn_cast<ReturnInst>(&I)){ k.op=I_RET; if(R->getReturnValue()){k.nres=slots(R->getReturnValue()->getType()); for(int i=0;i<k.nres;i++)k.a.push_back(op(R->getReturnValue(),i));} else k.nres=0; }
      else if(isa<UnreachableInst>(I))k.op=I_UNREACH;
      else if(auto*Se=dyn_cast<SelectInst>(&I)){ k.op=I_SELECT; k.nres=slots(Se->getType()); k.a={op(Se->getCondition())}; for(int i=0;i<k.nres;i++){k.a.push_back(op(Se->getTrueValue(),i));k.a.push_back(op(Se->getFalseValue(),i));} }
      else if(auto*EV=dyn_cast<ExtractValueInst>(&I)){ if(EV->getNumIndices()==1){k.op=I_MOVE;k.a={op(EV->getAggregateOperand(),EV->getIndices()[0])};} }
      else if(auto*IV=dyn_cast<InsertValueInst>(&I)){ if(IV->getNumIndices()==1){k.op=I_MOVE;k.nres=slots(IV->getType()); for(int i=0;i<k.nres;i++)k.a.push_back(i==(int)IV->getIndices()[0]?op(IV->getInsertedValueOperand()):op(IV->getAggregateOperand(),i));} }
      else if(auto*Ca=dyn_cast<CallBase>(&I)){
        if(isa<DbgInfoIntrinsic>(I))continue;
        k.op=I_CALL; k.nres=slots(I.getType()); for(auto&A:Ca->args()){ if(A->getType()->isMetadataTy())k.a.push_back(Opnd()); else {k.a.push_back(op(A)); k.cases.push_back(bitsOf(A->getType()));} }
        if(Function*Fn=Ca->getCalledFunction()){ string nm=Fn->getName().str(); k.name=nm;
          if(Fn->isIntrinsic()){ 
            Intrinsic::ID id=Fn->getIntrinsicID();
            if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::assume||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::donothing||id==Intrinsic::prefetch||id==Intrinsic::stackrestore)continue;
            if(id==Intrinsic::expect){k.op=I_MOVE;k.a.resize(1);} 
            else if(id==Intrinsic::stacksave){k.op=I_MOVE;k.a={Opnd()};}
            else { string b=nm; size_t d=b.find('.',5); // strip type suffix
              static const char*pref[]={"llvm.memcpy","llvm.memmove","llvm.memset","llvm.umin","llvm.umax","llvm.smin","llvm.smax","llvm.abs","llvm.bswap","llvm.fshl","llvm.fshr","llvm.ctpop","llvm.ctlz","llvm.cttz","llvm.objectsize","llvm.is.constant","llvm.usub.sat","llvm.uadd.sat","llvm.trap","llvm.va_start","llvm.va_end","llvm.va_copy","llvm.uadd.with.overflow","llvm.umul.with.overflow"}; (void)d;
              for(auto p:pref)if(nm.compare(0,strlen(p),p)==0)k.name=p;
              auto bi=builtins.find(k.name); if(bi!=builtins.end())k.bi=&bi->second; }
            k.w=bitsOf(I.getType());
          } else { k.callee=findFn(c->mod,nm); if(!k.callee){auto bi=builtins.find(nm); if(bi!=builtins.end())k.bi=&bi->second;} }
        } else if(Ca->isInlineAsm()){k.op=I_UNSUP;} else { k.sub=1; k.a.insert(k.a.begin(),op(Ca->getCalledOperand())); }
      }
      c->code.push_back(k);
    }
  }
  for(auto&f:fix){ Edge&e=c->code[f.ci].ed[f.e]; e.pc=start[f.to]; for(auto&I:*f.to){ auto*P=dyn_cast<PHINode>(&I); if(!P)break; int ns=slots(P->getType()); Value*V=P->getIncomingValueForBlock(f.from); for(int i=0;i<ns;i++)e.mv.push_back({reg[P]+i,op(V,i)}); } }
}

// ---------------------------------------------------------------- interpreter
static inline Val rd(Frame&f,const Opnd&o){ if(o.reg>=0)return f.r[o.reg]; if(o.undef)return Val(0,X.UNDEF); return Val(o.c); }
static void takeEdge(State&s,Edge&e){ Frame&f=s.fr.back(); if(!e.mv.empty()){ Val tmp[64]; size_t n=e.mv.size(); if(n>64)abort(); for(size_t i=0;i<n;i++)tmp[i]=rd(f,e.mv[i].second); for(size_t i=0;i<n;i++)f.r[e.mv[i].first]=tmp[i]; } f.pc=e.pc; }
static void pushCall(State&s,CFunc*c,const vector<Val>&args,int dst){
  if(!c->ready)compile(c); if(!c->seen){c->seen=true; funcsRun.insert((c->mod->isHarness?"harness:":c->mod->isLib?"lib:":c->mod->path.substr(c->mod->path.rfind("share/bsdconv")==string::npos?0:c->mod->path.rfind("share/bsdconv")+14)+":")+c->name);} 
  if(s.fr.size()>200)fail(s,"recursion","call depth exceeds 200");
  s.fr.emplace_back(); Frame&f=s.fr.back(); f.f=c; f.r.resize(c->nregs); for(int i=0;i<c->nargs&&i<(int)args.size();i++)f.r[i]=args[i]; for(size_t i=c->nargs;i<f.r.size();i++)f.r[i]=Val(0,X.UNDEF); f.dst=dst; if(c->F->isVarArg())for(size_t i=c->nargs;i<args.size();i++)f.va.push_back(args[i]);
}
static Val binop(State&s,Op op,unsigned w,Val a,Val b){
  if(!a.e&&!b.e){ if((op==E_UDIV||op==E_SDIV||op==E_UREM||op==E_SREM)&&(b.c&maskw(w))==0)fail(s,"div0","division by zero"); u64 r; opeval(op,w,w,a.c,b.c,r); return Val(r);} 
  if((isU(a)||isU(b))&&(op==E_AND||op==E_OR||op==E_XOR||((op==E_SHL||op==E_LSHR)&&!b.e&&b.c<w))){ Val x,y; u64 m,k; parts(a,w,x,m); parts(b,w,y,k);
    if(op==E_SHL)m<<=b.c; else if(op==E_LSHR)m>>=b.c; else if(op==E_AND){ u64 u=m|k; if(!a.e)u&=a.c; if(!b.e)u&=b.c; m=u; } else if(op==E_OR){ u64 u=m|k; if(!a.e)u&=~a.c; if(!b.e)u&=~b.c; m=u; } else m|=k;
    m&=maskw(w); if(m==maskw(w))return Val(0,X.UNDEF); return mkpart(binop(s,op,w,x,y),m,w); }
  if(isU(a)||isU(b)){ if(op==E_AND){ if(!isU(a)&&!a.e&&(a.c&maskw(w))==0)return Val(0); if(!isU(b)&&!b.e&&(b.c&maskw(w))==0)return Val(0);} if(op==E_MUL){ if(!a.e&&!a.c)return Val(0); if(!b.e&&!b.c)return Val(0);} return Val(0,X.UNDEF);} 
  if((op==E_UDIV||op==E_SDIV||op==E_UREM||op==E_SREM)){ b=red(s,b); if(!b.e){ if(!(b.c&maskw(w)))fail(s,"div0","division by zero"); } else if(decide(s,VE(X.mk(E_EQ,1,b.e,X.cons(0,w)))))fail(s,"div0","division by zero"); }
  return VE(X.mk(op,w,toE(a,w),toE(b,w)));
}
static double bd(u64 v,unsigned w){ if(w==32){float f;u32 x=v;memcpy(&f,&x,4);return f;} double d;memcpy(&d,&v,8);return d;}
static u64 db(double d,unsigned w){ if(w==32){float f=d;u32 x;memcpy(&x,&f,4);return x;} u64 v;memcpy(&v,&d,8);return v;}
static void finishPath(State&s);
static void step(State&s){
  Frame*f=&s.fr.back(); CI&c=f->f->code[f->pc]; s.steps++; S.insts++;
  if((s.steps&0x3ffff)==0&&now()-T0>O.time+5)throw PathEnd{4};
  if(s.steps>O.steps)fail(s,"hang","path exceeds the instruction bound (possible non-termination)");
  switch(c.op){
    case I_BIN: f->r[c.dst]=binop(s,(Op)c.sub,c.w,rd(*f,c.a[0]),rd(*f,c.a[1])); f->pc++; return;
    case I_ICMP:{
      Val a=rd(*f,c.a[0]),b=rd(*f,c.a[1]); Val r; unsigned w=c.w2;
      if(isU(a)||isU(b))r=Val(0,X.UNDEF);
      else { Op op=E_EQ; bool sw=false,ng=false; switch(c.sub){case CmpInst::ICMP_EQ:break;case CmpInst::ICMP_NE:ng=true;break;case CmpInst::ICMP_ULT:op=E_ULT;break;case CmpInst::ICMP_ULE:op=E_ULE;break;case CmpInst::ICMP_UGT:op=E_ULT;sw=true;break;case CmpInst::ICMP_UGE:op=E_ULE;sw=true;break;case CmpInst::ICMP_SLT:op=E_SLT;break;case CmpInst::ICMP_SLE:op=E_SLE;break;case CmpInst::ICMP_SGT:op=E_SLT;sw=true;break;case CmpInst::ICMP_SGE:op=E_SLE;sw=true;break;}
        if(sw)std::swap(a,b);
        if(!a.e&&!b.e){u64 x; opeval(op,1,w,a.c&maskw(w),b.c&maskw(w),x); r=Val(ng?!x:x);} else { Expr*e=X.mk(op,1,toE(a,w),toE(b,w)); if(ng)e=X.lnot(e); r=VE(e);} }
      f->r[c.dst]=r; f->pc++; return; }
    case I_CAST:{ Val a=rd(*f,c.a[0]); Val r; if(isU(a)){ r=a; if(c.sub==Instruction::Trunc||c.sub==Instruction::ZExt){ Val v; u64 m; parts(a,c.w2,v,m); if(c.sub==Instruction::Trunc)v=v.e?VE(X.mk(E_EXTRACT,c.w,v.e,0,0,0)):Val(v.c&maskw(c.w)); else if(v.e)v=VE(X.mk(E_ZEXT,c.w,v.e)); r=mkpart(v,m,c.w); } else if(c.w!=c.w2)r=Val(0,X.UNDEF); } else switch(c.sub){ case Instruction::Trunc: r=a.e?VE(X.mk(E_EXTRACT,c.w,a.e,0,0,0)):Val(a.c&maskw(c.w));break; case Instruction::ZExt: r=a.e?VE(X.mk(E_ZEXT,c.w,a.e)):a;break; case Instruction::SExt: r=a.e?VE(X.mk(E_SEXT,c.w,a.e)):Val((u64)sx(a.c,c.w2)&maskw(c.w));break;
        default: if(c.w==c.w2)r=a; else if(c.w<c.w2)r=a.e?VE(X.mk(E_EXTRACT,c.w,a.e,0,0,0)):Val(a.c&maskw(c.w)); else r=a.e?VE(X.mk(E_ZEXT,c.w,a.e)):a; }
      f->r[c.dst]=r; f->pc++; return; }
    case I_LOAD:{ Val p=rd(*f,c.a[0]);
      if(c.sub==1){ for(int i=0;i<c.nres;i++){ Val q=p.e?VE(X.mk(E_ADD,64,p.e,X.cons(c.scale[i].first,64))):Val(p.c+c.scale[i].first); Val v=loadmem(s,q,(c.scale[i].second+7)/8); s.fr.back().r[c.dst+i]=v;} s.fr.back().pc++; return; }
      Val v=loadmem(s,p,(c.w+7)/8); if(c.w==1&&!isU(v)){ v=v.e?VE(X.mk(E_EXTRACT,1,v.e,0,0,0)):Val(v.c&1);} f=&s.fr.back(); f->r[c.dst]=v; f->pc++; return; }
    case I_STORE:{ Val p=rd(*f,c.a[0]); if(c.sub==1){ if(p.e)p=Val(concretize(s,p,64)); for(int i=0;i<c.nres;i++)storemem(s,Val(p.c+c.scale[i].first),(c.scale[i].second+7)/8,rd(s.fr.back(),c.a[1+i])); s.fr.back().pc++; return; }
      Val v=rd(*f,c.a[1]); if(c.w<8&&v.e&&!isU(v))v=VE(X.mk(E_ZEXT,8,v.e)); storemem(s,p,(c.w+7)/8,v); s.fr.back().pc++; return; }
    case I_GEP:{ Val p=rd(*f,c.a[0]); if(isU(p)){f->r[c.dst]=p;f->pc++;return;} u64 k=c.k; Expr*e=p.e; u64 base=p.c; bool u=false;
      for(size_t i=1;i<c.a.size();i++){ Val x=rd(*f,c.a[i]); if(isU(x)){u=true;break;} u64 sc=c.scale[i-1].first; unsigned w=c.scale[i-1].second; if(!x.e)k+=sc*(u64)sx(x.c,w); else { Expr*t=X.mk(E_SEXT,64,x.e); if(sc!=1)t=X.mk(E_MUL,64,t,X.cons(sc,64)); if(e)e=X.mk(E_ADD,64,e,t); else {e=X.mk(E_ADD,64,t,X.cons(base,64));} } }
      if(u)f->r[c.dst]=Val(0,X.UNDEF); else if(e)f->r[c.dst]=VE(k?X.mk(E_ADD,64,e,X.cons(k,64)):e); else f->r[c.dst]=Val(base+k); f->pc++; return; }
    case I_ALLOCA:{ Val n=rd(*f,c.a[0]); u64 cnt=n.e?concretize(s,n,64):n.c; u64 a=allocObj(s,O_STACK,c.k*cnt,"stack",true); f=&s.fr.back(); u64 id=(a>>32)-256; f->allocas.push_back(id); f->r[c.dst]=Val(a); f->pc++; return; }
    case I_BR: takeEdge(s,c.ed[0]); return;
    case I_CBR:{ Val v=rd(*f,c.a[0]); if(isU(v))fail(s,"uninit","branch depends on uninitialised memory"); bool b=decide(s,v); takeEdge(s,c.ed[b?0:1]); return; }
    case I_SWITCH:{ Val v=red(s,rd(*f,c.a[0])); if(isU(v))fail(s,"uninit","switch depends on uninitialised memory");
      if(!v.e){u64 x=v.c&maskw(c.w2); for(size_t i=0;i<c.cases.size();i++)if(c.cases[i]==x){takeEdge(s,c.ed[i+1]);return;} takeEdge(s,c.ed[0]);return;}
      for(size_t i=0;i<c.cases.size();i++){ if(decide(s,VE(X.mk(E_EQ,1,v.e,X.cons(c.cases[i],c.w2))))){takeEdge(s,c.ed[i+1]);return;} }
      takeEdge(s,c.ed[0]); return; }
    case I_SELECT:{ Val cv=red(s,rd(*f,c.a[0])); 
      for(int i=0;i<c.nres;i++){ Val a=rd(*f,c.a[1+2*i]),b=rd(*f,c.a[2+2*i]); Val r; if(isU(cv))r=Val(0,X.UNDEF); else if(!cv.e)r=cv.c&1?a:b; else if(isU(a)||isU(b)||!c.w){ bool d=decide(s,cv); r=d?a:b; } else r=VE(X.mk(E_ITE,c.w,cv.e,toE(a,c.w),toE(b,c.w))); s.fr.back().r[c.dst+i]=r; }
      s.fr.back().pc++; return; }
    case I_MOVE: { vector<Val> t; for(size_t i=0;i<c.a.size();i++)t.push_back(rd(*f,c.a[i])); for(size_t i=0;i<t.size();i++)if(c.dst>=0)f->r[c.dst+i]=t[i]; f->pc++; return; }
    case I_UNREACH: fail(s,"unreachable","reached unreachable code");
    case I_FP:{ vector<u64> a; for(auto&o:c.a){ Val v=rd(s.fr.back(),o); if(isU(v))fail(s,"uninit","floating point use of uninitialised memory"); unsigned w=64; if(c.sub>=2000&&c.sub<3000)w=c.w2; a.push_back(v.e?concretize(s,v,v.e->w):v.c); (void)w;} f=&s.fr.back(); u64 r=0;
      if(c.sub>=1000&&c.sub<2000){ double x=bd(a[0],c.w2),y=bd(a[1],c.w2); switch(c.sub-1000){case CmpInst::FCMP_OEQ:r=x==y;break;case CmpInst::FCMP_UNE:r=x!=y;break;case CmpInst::FCMP_OLT:r=x<y;break;case CmpInst::FCMP_OLE:r=x<=y;break;case CmpInst::FCMP_OGT:r=x>y;break;case CmpInst::FCMP_OGE:r=x>=y;break;case CmpInst::FCMP_UGT:r=!(x<=y);break;case CmpInst::FCMP_UGE:r=!(x<y);break;case CmpInst::FCMP_ULT:r=!(x>=y);break;case CmpInst::FCMP_ULE:r=!(x>y);break;case CmpInst::FCMP_ONE:r=x<y||x>y;break;case CmpInst::FCMP_UEQ:r=!(x<y||x>y);break;default:unsupported(s,"fcmp");} }
      else if(c.sub>=3000)r=db(-bd(a[0],c.w),c.w);
      else if(c.sub>=2000){ switch(c.sub-2000){case Instruction::SIToFP:r=db((double)sx(a[0],c.w2),c.w);break;case Instruction::UIToFP:r=db((double)(a[0]&maskw(c.w2)),c.w);break;case Instruction::FPToSI:r=(u64)(i64)bd(a[0],c.w2)&maskw(c.w);break;case Instruction::FPToUI:r=(u64)bd(a[0],c.w2)&maskw(c.w);break;case Instruction::FPExt:case Instruction::FPTrunc:r=db(bd(a[0],c.w2),c.w);break;default:unsupported(s,"fpcast");} }
      else { double x=bd(a[0],c.w),y=bd(a[1],c.w),z; switch(c.sub){case Instruction::FAdd:z=x+y;break;case Instruction::FSub:z=x-y;break;case Instruction::FMul:z=x*y;break;case Instruction::FDiv:z=x/y;break;default:unsupported(s,"fop");} r=db(z,c.w); }
      f->r[c.dst]=Val(r); f->pc++; return; }
    case I_RET:{ vector<Val> rv; for(int i=0;i<c.nres;i++)rv.push_back(rd(*f,c.a[i])); for(u64 id:f->allocas)s.heap.set(id,FREED); int dst=f->dst; s.fr.pop_back(); if(s.fr.empty()){s.done=true;throw PathEnd{0};} Frame&p=s.fr.back(); if(dst>=0)for(size_t i=0;i<rv.size();i++)p.r[dst+i]=rv[i]; p.pc++; return; }
    case I_CALL:{
      vector<Val> args; CFunc*callee=c.callee; Builtin*bi=c.bi; size_t st=0; string nm=c.name;
      if(c.sub==1){ Val fp=red(s,rd(*f,c.a[0])); if(isU(fp))fail(s,"uninit","call through uninitialised pointer"); u64 a=fp.e?concretize(s,fp,64):fp.c; f=&s.fr.back(); if((a>>32)!=FNBASE||((a&0xffffffff)/16)>=fnEnts.size())fail(s,"bad-call",a==0?"call through null pointer":"call through wild pointer"); auto&fe=fnEnts[(a&0xffffffff)/16]; callee=fe.f; nm=fe.ext; if(!callee){auto it=builtins.find(nm); bi=it!=builtins.end()?&it->second:nullptr;} else nm=callee->name; if(callee&&callee->mod->path.size()&&!callee->mod->isHarness&&!callee->mod->isLib){ auto it=s.loaded.find(callee->mod->path); if(it==s.loaded.end()||it->second<=0)fail(s,"bad-call","call into an unloaded module"); } st=1; }
      for(size_t i=st;i<c.a.size();i++)args.push_back(rd(*f,c.a[i]));
      if(callee){ pushCall(s,callee,args,c.dst); return; }
      if(bi){ Val r; bool cont=(*bi)(s,args,r); if(cont){ Frame&g=s.fr.back(); if(c.dst>=0){ if(!r.e&&c.w&&c.w<64)r.c&=maskw(c.w); g.r[c.dst]=r;} if(printAt){ u64 t=printAt; printAt=0; pushCall(s,printFn,{args[0],Val(t),Val(printN)},-1); return; } if(pointFn&&(nm=="malloc"||nm=="free"||nm=="calloc")){ pushCall(s,pointFn,{},-1); return; } g.pc++; } return; }
      unsupported(s,"external function "+nm); }
    case I_UNSUP: { string t; raw_string_ostream os(t); if(c.I)c.I->print(os); unsupported(s,"instruction "+t); }
  }
}
static void endPath(State&s,int why){
  S.paths++; for(auto&t:s.cov)covers[t]++;
  if(why==1){S.silent++; S.paths--; return;}
  if(why==3){S.unsupported++;}
  if(why==2)return;
  if(why==4)S.dropped++;
  static u64 nw=0; if(why==0||why==3){ S.ended+=why==0; if(nw++<O.maxwit){ string o=why==0?"{\"type\":\"path\",":"{\"type\":\"unsup\","; o+=witness(s,s.model); o+=",\"steps\":"+std::to_string(s.steps)+"}\n"; fputs(o.c_str(),fw);} }
}
static bool runState(State*s){ // returns true when path ended
  for(;;){ try{ for(;;){ step(*s);} }catch(PathEnd&p){ endPath(*s,p.why); return true; } }
}
#include "builtins.h"

static void writeStats(const char*fn,double t,bool complete,u64 left){
  FILE*f=fopen(fn,"w"); fprintf(f,"{\"paths\":%lu,\"ended\":%lu,\"silent\":%lu,\"forks\":%lu,\"insts\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"qtime\":%.3f,\"domain_decisions\":%lu,\"asserts\":%lu,\"asserts_solver\":%lu,\"asserts_folded\":%lu,\"asserts_unknown\":%lu,\"dropped\":%lu,\"unsupported\":%lu,\"time\":%.3f,\"complete\":%s,\"left\":%lu,",S.paths,S.ended,S.silent,S.forks,S.insts,S.q,S.qsat,S.qunsat,S.qunk,S.qtime,S.dom,S.asserts,S.asserts_solver,S.asserts_fold,S.assert_unk,S.dropped,S.unsupported,t,complete?"true":"false",left);
  fprintf(f,"\"functions\":["); bool first=true; for(auto&x:funcsRun){fprintf(f,"%s\"%s\"",first?"":",",jesc(x).c_str());first=false;} fprintf(f,"],\"covers\":{"); first=true; for(auto&x:covers){fprintf(f,"%s\"%s\":%lu",first?"":",",jesc(x.first).c_str(),x.second);first=false;} fprintf(f,"},\"unsup\":{"); first=true; for(auto&x:unsup){fprintf(f,"%s\"%s\":%lu",first?"":",",jesc(x.first).c_str(),x.second);first=false;} fprintf(f,"}}\n"); fclose(f);
}
static size_t rssMB(){ FILE*f=fopen("/proc/self/statm","r"); if(!f)return 0; long a=0,b=0; if(fscanf(f,"%ld %ld",&a,&b)!=2)b=0; fclose(f); return b*4/1024; }
int main(int argc,char**argv){
  T0=now(); signal(SIGPIPE,SIG_IGN); mallopt(M_MMAP_THRESHOLD,1<<28); mallopt(M_TRIM_THRESHOLD,1<<29); mallopt(M_TOP_PAD,1<<22);
  for(int i=1;i<argc;i++){ string a=argv[i]; auto nx=[&]()->string{return argv[++i];};
    if(a=="--harness")O.harness=nx(); else if(a=="--lib")O.libs.push_back(nx()); else if(a=="--root")O.root=nx(); else if(a=="--out")O.out=nx(); else if(a=="--jobs")O.jobs=stoi(nx()); else if(a=="--time")O.time=stod(nx()); else if(a=="--steps")O.steps=stoull(nx()); else if(a=="--maxwit")O.maxwit=stoull(nx()); else if(a=="--maxpaths")O.maxpaths=stoull(nx()); else if(a=="--entry")O.entry=nx(); else if(a=="--frontier")O.frontier=stoi(nx());
    else if(a=="--param"){string p=nx(); size_t e=p.find('='); O.params[p.substr(0,e)]=p.substr(e+1);} else {fprintf(stderr,"bad arg %s\n",a.c_str());return 64;} }
  initBuiltins(); z3init();
  for(auto&l:O.libs){Mod*m=loadMod(l); if(!m){fprintf(stderr,"cannot load %s\n",l.c_str());return 65;} m->isLib=true; libs.push_back(m);} 
  harness=loadMod(O.harness); if(!harness){fprintf(stderr,"cannot load %s\n",O.harness.c_str());return 65;} harness->isHarness=true;
  State*s0=new State(); s0->heap.n=1; s0->glob.n=1; s0->cwd="/"; for(auto m:libs)mapGlobals(*s0,m); mapGlobals(*s0,harness); initState(*s0);
  { auto pt=harness->fn.find("sym_point"); if(pt!=harness->fn.end())pointFn=pt->second; pt=harness->fn.find("sym_print"); if(pt!=harness->fn.end())printFn=pt->second; }
  auto it=harness->fn.find(O.entry); if(it==harness->fn.end()){fprintf(stderr,"no entry\n");return 66;}
  fw=fopen((O.out+"/r0.jsonl").c_str(),"w");
  pushCall(*s0,it->second,{},-1); work.push_back(s0);
  // breadth phase: expand until there are enough open states to share between workers
  bool timeout=false;
  int want=O.jobs>1?O.frontier*O.jobs/8+1:1<<30;
  std::deque<State*> q; q.push_back(s0); work.clear();
  while(!q.empty()&&(int)q.size()<want){
    State*s=q.front(); q.pop_front();
    // run until it forks once or ends
    bool ended=false; try{ while(work.empty())step(*s); }catch(PathEnd&p){endPath(*s,p.why);ended=true;}
    if(!ended){ if(O.jobs>1)q.push_back(s); else q.push_front(s);} else delete s;
    for(State*w:work){ if(O.jobs>1)q.push_back(w); else q.push_front(w);} work.clear();
    if(now()-T0>O.time||S.paths>=O.maxpaths||((S.forks&1023)==0&&rssMB()>O.memMB)){timeout=true;break;}
  }
  if(q.empty()||timeout){ u64 left=q.size(); fclose(fw); writeStats((O.out+"/s0.json").c_str(),now()-T0,left==0,left); return 0; }
  fflush(fw);
  // parallel phase
  vector<State*> fr(q.begin(),q.end()); 
  volatile int*next=(volatile int*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  vector<pid_t> kids; 
  for(int j=1;j<=O.jobs;j++){ pid_t p=fork(); if(p==0){
      string sfx=std::to_string(j); fw=fopen((O.out+"/r"+sfx+".jsonl").c_str(),"w"); S=Stats(); covers.clear(); unsup.clear(); vioSeen.clear();
      u64 left=0; bool to=false;
      for(;;){ int i=__sync_fetch_and_add((int*)next,1); if(i>=(int)fr.size())break; if(to){left++;continue;}
        work.clear(); work.push_back(fr[i]);
        while(!work.empty()){ State*s=work.back(); work.pop_back(); runState(s); delete s; if(now()-T0>O.time||S.paths>=O.maxpaths||((S.paths&255)==0&&rssMB()>O.memMB)){to=true; break;} }
        left+=work.size(); }
      fclose(fw); writeStats((O.out+"/s"+sfx+".json").c_str(),now()-T0,left==0,left); _exit(0); }
    kids.push_back(p); }
  bool bad=false; for(pid_t p:kids){int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st))bad=true;}
  fclose(fw); writeStats((O.out+"/s0.json").c_str(),now()-T0,true,0);
  return bad?71:0;
}
