// Environment model: allocator, files, dynamic loading, formatted output and the sym_* interface.
#include <ctype.h>
static u64 A_errno,A_env,A_cb,A_ct,A_cu,A_ctp,A_cup,A_cbp; static map<string,u64> paramAddr;
static map<u64,Mod*> dlMods; static map<Mod*,u64> modHandle; static map<string,std::pair<u8*,u64>> mapCache;
static u64 newGlobal(State&s,u64 n,const char*what,OK k=O_GLOBAL){ u64 id=nextG++; Obj*o=new Obj(k,n); o->what=what; s.glob.set(id,o); return mkaddr(id,true); }
static Obj* gobj(State&s,u64 a){ return s.glob.get(((a&~GBIT)>>32)-256); }
static void initState(State&s){
  A_errno=newGlobal(s,4,"errno"); A_env=newGlobal(s,O.root.size()+1,"env"); memcpy(gobj(s,A_env)->buf,O.root.c_str(),O.root.size()+1);
  A_cb=newGlobal(s,384*2,"ctype"); A_ct=newGlobal(s,384*4,"ctype"); A_cu=newGlobal(s,384*4,"ctype");
  for(int i=-128;i<256;i++){ ((uint16_t*)gobj(s,A_cb)->buf)[i+128]=(*__ctype_b_loc())[i]; ((int*)gobj(s,A_ct)->buf)[i+128]=(*__ctype_tolower_loc())[i]; ((int*)gobj(s,A_cu)->buf)[i+128]=(*__ctype_toupper_loc())[i]; }
  A_cbp=newGlobal(s,8,"ctype"); A_ctp=newGlobal(s,8,"ctype"); A_cup=newGlobal(s,8,"ctype");
  u64 v=A_cb+256; memcpy(gobj(s,A_cbp)->buf,&v,8); v=A_ct+512; memcpy(gobj(s,A_ctp)->buf,&v,8); v=A_cu+512; memcpy(gobj(s,A_cup)->buf,&v,8);
  for(auto&p:O.params){ u64 a=newGlobal(s,p.second.size()+1,"param"); memcpy(gobj(s,a)->buf,p.second.c_str(),p.second.size()+1); paramAddr[p.first]=a; }
  for(const char*n:{"stdout","stderr","stdin"}){ auto it=extGlob.find(n); u64 a; if(it==extGlob.end()){a=mkaddr(nextG++,true); extGlob[n]=a;} else a=it->second; Obj*o=new Obj(O_GLOBAL,8); o->what=n; s.glob.set(((a&~GBIT)>>32)-256,o); u64 h=newGlobal(s,8,"FILE",O_SPECIAL); memcpy(o->buf,&h,8); VFile f; f.path=n; f.wr=true; s.files[h]=f; }
}
static void setErr(State&s,int e){ storemem(s,Val(A_errno),4,Val((u64)e)); }
static u64 arg(State&s,vector<Val>&a,size_t i,unsigned w=64){ Val v=a.at(i); if(isU(v))fail(s,"uninit","library call argument is uninitialised"); v=red(s,v); return v.e?concretize(s,v,w):v.c; }
static string absPath(State&s,const string&p){ if(!p.empty()&&p[0]=='/')return p; return s.cwd+"/"+p; }
static void doFree(State&s,u64 a){
  if(!a)return; bool g;u64 id,off; if(!locate(s,a,g,id,off)||g)fail(s,"bad-free","free of a pointer that was not allocated");
  Obj*o=s.heap.get(id); if(o==FREED)fail(s,"double-free","free of already freed memory"); if(!o||o->kind!=O_HEAP||off!=0)fail(s,"bad-free","free of a pointer that was not allocated");
  s.heap.set(id,FREED); s.live--; }
static u64 doMalloc(State&s,u64 n,bool zero){ if(n>(64u<<20))fail(s,"huge-alloc","allocation of more than 64 MB"); s.live++; return allocObj(s,O_HEAP,n,"heap",!zero); }
// ---- formatted output; result bytes may be symbolic
static Val hexdig(Val nib,bool up){ if(!nib.e)return Val((u64)(up?"0123456789ABCDEF":"0123456789abcdef")[nib.c&15]); Expr*e=nib.e; Expr*lt=X.mk(E_ULT,1,e,X.cons(10,e->w)); Expr*e8=e->w>8?X.mk(E_EXTRACT,8,e,0,0,0):e; return VE(X.mk(E_ITE,8,lt,X.mk(E_ADD,8,e8,X.cons('0',8)),X.mk(E_ADD,8,e8,X.cons((up?'A':'a')-10,8)))); }
static void fmtInt(State&s,vector<Val>&out,Val v,unsigned w,int base,bool sgn,bool up,int width,char pad,bool left,int prec){
  v=red(s,v); if(isU(v))fail(s,"uninit","formatted value is uninitialised"); bool neg=false;
  if(!v.e)v.c&=maskw(w);
  if(sgn){ if(v.e){ if(decide(s,VE(X.mk(E_SLT,1,v.e,X.cons(0,w))))){neg=true; v=VE(X.mk(E_SUB,w,X.cons(0,w),v.e));} } else if(sx(v.c,w)<0){neg=true; v.c=(-v.c)&maskw(w);} }
  vector<Val> d; int nd=1; u64 p=base; // number of digits
  if(!v.e){ u64 x=v.c; nd=1; while(x/=base)nd++; u64 y=v.c; for(int i=0;i<nd;i++){d.push_back(hexdig(Val(y%base),up)); y/=base;} }
  else { while(nd<20){ if(w<64&&p>maskw(w))break; if(decide(s,VE(X.mk(E_ULT,1,v.e,X.cons(p,w)))))break; nd++; if(p>~0ull/base)break; p*=base; }
    u64 q=1; for(int i=0;i<nd;i++){ Expr*t; if(base==16){ t=X.mk(E_AND,w,X.mk(E_LSHR,w,v.e,X.cons(4*i,w)),X.cons(15,w)); } else if(base==8){t=X.mk(E_AND,w,X.mk(E_LSHR,w,v.e,X.cons(3*i,w)),X.cons(7,w));} else t=X.mk(E_UREM,w,X.mk(E_UDIV,w,v.e,X.cons(q,w)),X.cons(base,w)); if(w>8)t=X.mk(E_EXTRACT,8,t,0,0,0); d.push_back(hexdig(VE(t),up)); q*=base; } }
  while((int)d.size()<prec)d.push_back(Val('0'));
  int len=d.size()+(neg?1:0); if(!left&&pad==' ')while(len<width){out.push_back(Val(' '));len++;} if(neg)out.push_back(Val('-')); if(!left&&pad=='0')while(len<width){out.push_back(Val('0'));len++;}
  for(int i=d.size()-1;i>=0;i--)out.push_back(d[i]); if(left)while(len<width){out.push_back(Val(' '));len++;}
}
static void doFmt(State&s,vector<Val>&a,size_t fi,vector<Val>&out){
  string f=cstr(s,a.at(fi)); size_t ai=fi+1; auto nxt=[&]()->Val{ if(ai>=a.size())fail(s,"format","too few arguments for format string"); return a[ai++]; };
  for(size_t i=0;i<f.size();i++){ if(f[i]!='%'){out.push_back(Val((u8)f[i]));continue;} i++; bool left=false,zero=false,plus=false; int width=0,prec=-1; int L=0;
    for(;i<f.size();i++){ if(f[i]=='-')left=true; else if(f[i]=='0')zero=true; else if(f[i]=='+')plus=true; else if(f[i]==' '||f[i]=='#'){} else break; } (void)plus;
    if(f[i]=='*'){width=(int)arg(s,a,ai++,32);i++;} else while(isdigit((unsigned char)f[i]))width=width*10+f[i++]-'0';
    if(f[i]=='.'){prec=0;i++; if(f[i]=='*'){prec=(int)arg(s,a,ai++,32);i++;} else while(isdigit((unsigned char)f[i]))prec=prec*10+f[i++]-'0';}
    while(strchr("lhzjtq",f[i])){ if(f[i]=='h')L--; else if(f[i]=='l'||f[i]=='q')L++; else L=2; i++; }
    auto trunc=[&](Val v)->Val{ unsigned w=L>=1?64:L==0?32:L==-1?16:8; if(v.e&&!isU(v)&&v.e->w>w)return VE(X.mk(E_EXTRACT,w,v.e,0,0,0)); if(v.e&&!isU(v)&&v.e->w<w)return VE(X.mk(E_ZEXT,w,v.e)); return v; };
    unsigned w=L>=1?64:L==0?32:L==-1?16:8; char pad=zero&&prec<0?'0':' ';
    switch(f[i]){ case '%':out.push_back(Val('%'));break; case 'd':case 'i':fmtInt(s,out,trunc(nxt()),w,10,true,false,width,pad,left,prec);break; case 'u':fmtInt(s,out,trunc(nxt()),w,10,false,false,width,pad,left,prec);break; case 'x':fmtInt(s,out,trunc(nxt()),w,16,false,false,width,pad,left,prec);break; case 'X':fmtInt(s,out,trunc(nxt()),w,16,false,true,width,pad,left,prec);break; case 'o':fmtInt(s,out,trunc(nxt()),w,8,false,false,width,pad,left,prec);break;
      case 'c':{Val v=nxt(); if(isU(v))fail(s,"uninit","formatted value is uninitialised"); out.push_back(v.e?VE(v.e->w>8?X.mk(E_EXTRACT,8,v.e,0,0,0):v.e):Val(v.c&255));break;}
      case 's':{ Val pv=nxt(); pv=red(s,pv); u64 p=pv.e?concretize(s,pv,64):pv.c; vector<Val> t; for(u64 k=0;prec<0||(int)k<prec;k++){ Val b=loadmem(s,Val(p+k),1); if(isU(b))fail(s,"uninit","formatted string is uninitialised"); if(b.e){ if(decide(s,VE(X.mk(E_EQ,1,b.e,X.cons(0,8)))))break; } else if(!b.c)break; t.push_back(b); if(t.size()>100000)fail(s,"hang","unterminated string"); } int len=t.size(); if(!left)while(len<width){out.push_back(Val(' '));len++;} for(auto&b:t)out.push_back(b); if(left)while(len<width){out.push_back(Val(' '));len++;} break; }
      case 'f':case 'g':case 'e':{ Val v=nxt(); u64 x=v.e?concretize(s,v,64):v.c; double d; memcpy(&d,&x,8); char b[64]; string ff="%"; if(prec>=0)ff+="."+std::to_string(prec); ff+=f[i]; snprintf(b,64,ff.c_str(),d); for(char*q=b;*q;q++)out.push_back(Val((u8)*q)); break; }
      case 'p': nxt(); for(char q:string("0xptr"))out.push_back(Val((u8)q)); break;
      default: unsupported(s,string("format %")+f[i]); } }
}
static void putBytes(State&s,u64 d,const vector<Val>&o,size_t n){ if(!n)return; u64 off,id;bool g; access(s,d,n,true,off,g,id); Obj*ob=(g?s.glob:s.heap).wr(id); for(size_t i=0;i<n;i++)stbytes(ob,off+i,1,o[i]); }
static void vappend(State&s,u64 h,const vector<Val>&b){ auto it=s.files.find(h); if(it==s.files.end())fail(s,"bad-file","operation on an invalid FILE"); if(!it->second.open)fail(s,"bad-file","operation on a closed FILE"); if(it->second.path=="stdout"||it->second.path=="stderr")return; for(auto&x:b)it->second.data.push_back(x.e?'?':(char)x.c); }
static string paramOf(const string&n){auto it=O.params.find(n); return it==O.params.end()?"":it->second;}
#define B(name) builtins[name]=[](State&s,vector<Val>&a,Val&r)->bool
static bool isReg(const string&p){struct stat st; return ::stat(p.c_str(),&st)==0&&S_ISREG(st.st_mode);} 
static bool slurp(const string&p,string&o){ FILE*f=fopen(p.c_str(),"rb"); if(!f)return false; char b[65536]; size_t n; while((n=fread(b,1,sizeof b,f))>0)o.append(b,n); fclose(f); return true; }
static void initBuiltins(){
  B("malloc"){ r=Val(doMalloc(s,arg(s,a,0),false)); return true; };
  B("calloc"){ r=Val(doMalloc(s,arg(s,a,0)*arg(s,a,1),true)); return true; };
  B("free"){ doFree(s,arg(s,a,0)); return true; };
  B("realloc"){ u64 p=arg(s,a,0),n=arg(s,a,1); if(!p){r=Val(doMalloc(s,n,false));return true;} u64 off,id;bool g; Obj*o=access(s,p,0,true,off,g,id); if(g||o->kind!=O_HEAP||off)fail(s,"bad-free","realloc of a pointer that was not allocated"); u64 m=std::min(n,o->size); u64 q=doMalloc(s,n,false); if(m)memcopy(s,Val(q),Val(p),m); doFree(s,p); r=Val(q); return true; };
  for(const char*n:{"llvm.memcpy","llvm.memmove","memcpy","memmove"})B(n){ u64 len=arg(s,a,2); r=a[0]; memcopy(s,a[0],a[1],len); return true; };
  for(const char*n:{"llvm.memset","memset"})B(n){ u64 len=arg(s,a,2); r=a[0]; u64 d=arg(s,a,0); Val v=a[1]; if(v.e&&!isU(v)&&v.e->w>8)v=VE(X.mk(E_EXTRACT,8,v.e,0,0,0)); else if(!v.e)v.c&=255; if(len){ u64 off,id;bool g; access(s,d,len,true,off,g,id); Obj*o=(g?s.glob:s.heap).wr(id); for(u64 i=0;i<len;i++)stbytes(o,off+i,1,v);} return true; };
  auto mm=[](Op op,bool swap){return [op,swap](State&s,vector<Val>&a,Val&r)->bool{ Val x=a[0],y=a[1]; if(isU(x)||isU(y)){r=Val(0,X.UNDEF);return true;} unsigned w=64; { CI&c=s.fr.back().f->code[s.fr.back().pc]; w=c.w; } if(!x.e&&!y.e){u64 t; opeval(op,1,w,x.c,y.c,t); r=(t!=0)!=swap?x:y; return true;} Expr*ex=toE(x,w),*ey=toE(y,w); Expr*c=X.mk(op,1,ex,ey); r=VE(swap?X.mk(E_ITE,w,c,ey,ex):X.mk(E_ITE,w,c,ex,ey)); return true;};};
  builtins["llvm.umin"]=mm(E_ULT,false); builtins["llvm.umax"]=mm(E_ULT,true); builtins["llvm.smin"]=mm(E_SLT,false); builtins["llvm.smax"]=mm(E_SLT,true);
  B("llvm.abs"){ unsigned w=s.fr.back().f->code[s.fr.back().pc].w; Val x=a[0]; if(isU(x)){r=x;return true;} if(!x.e){i64 t=sx(x.c,w); r=Val((u64)(t<0?-t:t)&maskw(w));return true;} r=VE(X.mk(E_ITE,w,X.mk(E_SLT,1,x.e,X.cons(0,w)),X.mk(E_SUB,w,X.cons(0,w),x.e),x.e)); return true; };
  B("llvm.bswap"){ unsigned w=s.fr.back().f->code[s.fr.back().pc].w; Val x=a[0]; if(isU(x)){r=x;return true;} if(!x.e){ u64 o=0; for(unsigned i=0;i<w/8;i++)o|=((x.c>>(8*i))&255)<<(w-8-8*i); r=Val(o); return true;} Expr*e=nullptr; for(unsigned i=0;i<w/8;i++){Expr*b=X.mk(E_EXTRACT,8,x.e,0,0,8*i); e=e?X.mk(E_CONCAT,e->w+8,e,b):b;} r=VE(e); return true; };
  for(const char*n:{"llvm.fshl","llvm.fshr"}){ bool left=string(n)=="llvm.fshl"; builtins[n]=[left](State&s,vector<Val>&a,Val&r)->bool{ unsigned w=s.fr.back().f->code[s.fr.back().pc].w; u64 k=arg(s,a,2)%w; if(!left)k=(w-k)%w; for(auto&v:a)if(isU(v)){r=v;return true;} if(!k){r=left?a[0]:a[1];return true;} Expr*e=X.mk(E_OR,w,X.mk(E_SHL,w,toE(a[0],w),X.cons(k,w)),X.mk(E_LSHR,w,toE(a[1],w),X.cons(w-k,w))); r=VE(e); return true; }; }
  B("llvm.ctpop"){ unsigned w=s.fr.back().f->code[s.fr.back().pc].w; Val x=a[0]; if(isU(x)){r=x;return true;} if(!x.e){ r=Val(__builtin_popcountll(x.c&maskw(w))); return true; } Expr*e=X.cons(0,w); for(unsigned i=0;i<w;i++)e=X.mk(E_ADD,w,e,X.mk(E_AND,w,X.mk(E_LSHR,w,x.e,X.cons(i,w)),X.cons(1,w))); r=VE(e); return true; };
  for(const char*n:{"llvm.ctlz","llvm.cttz"}){ bool lead=n[7]=='l'; builtins[n]=[lead](State&s,vector<Val>&a,Val&r)->bool{ unsigned w=s.fr.back().f->code[s.fr.back().pc].w; Val x=a[0]; if(isU(x)){r=x;return true;} Expr*e=X.cons(w,w); if(!x.e){ u64 c=0; for(;c<w&&!((x.c>>(lead?w-1-c:c))&1);)c++; r=Val(c); return true; }
    for(int i=w-1;i>=0;i--){ unsigned b=lead?w-1-i:i; Expr*t=X.mk(E_EQ,1,X.mk(E_AND,w,X.mk(E_LSHR,w,x.e,X.cons(b,w)),X.cons(1,w)),X.cons(1,w)); e=X.mk(E_ITE,w,t,X.cons(i,w),e); } r=VE(e); return true; }; }
  B("llvm.objectsize"){ r=Val(~0ull); return true; };
  B("llvm.is.constant"){ r=Val(0); return true; };
  B("llvm.trap"){ fail(s,"abort","trap"); };
  B("abort"){ fail(s,"abort","abort() called"); };
  B("exit"){ throw PathEnd{0}; }; B("_exit"){ throw PathEnd{0}; };
  B("__assert_fail"){ fail(s,"abort","assertion: "+cstr(s,a[0])); };
  B("sprintf"){ vector<Val> o; doFmt(s,a,1,o); o.push_back(Val(0)); putBytes(s,arg(s,a,0),o,o.size()); r=Val(o.size()-1); return true; };
  B("snprintf"){ vector<Val> o; u64 n=arg(s,a,1); doFmt(s,a,2,o); u64 len=o.size(); if(n){ vector<Val> t(o.begin(),o.begin()+std::min<u64>(len,n-1)); t.push_back(Val(0)); putBytes(s,arg(s,a,0),t,t.size()); } r=Val(len); return true; };
  B("asprintf"){ vector<Val> o; doFmt(s,a,1,o); o.push_back(Val(0)); u64 p=doMalloc(s,o.size(),false); putBytes(s,p,o,o.size()); storemem(s,Val(arg(s,a,0)),8,Val(p)); r=Val(o.size()-1); return true; };
  // variable arguments: everything in the overflow area of the list
  B("llvm.va_start"){ u64 l=arg(s,a,0); vector<Val> v=s.fr.back().va; u64 p=allocObj(s,O_STACK,8*(v.size()?v.size():1),"arguments",true); s.fr.back().allocas.push_back((p>>32)-256); for(size_t i=0;i<v.size();i++)storemem(s,Val(p+8*i),8,v[i]); storemem(s,Val(l),4,Val(48)); storemem(s,Val(l+4),4,Val(176)); storemem(s,Val(l+8),8,Val(p)); storemem(s,Val(l+16),8,Val(0)); return true; };
  B("llvm.va_end"){ return true; };
  B("llvm.va_copy"){ u64 d=arg(s,a,0),t=arg(s,a,1); for(int i=0;i<3;i++)storemem(s,Val(d+8*i),8,loadmem(s,Val(t+8*i),8)); return true; };
  static auto vargs=[](State&s,vector<Val>&a,size_t k){ u64 l=arg(s,a,k); Val p=loadmem(s,Val(l+8),8); vector<Val> v(a.begin(),a.begin()+k); bool g; u64 id,off; if(p.e||!locate(s,p.c,g,id,off))unsupported(s,"va_list"); Obj*o=(g?s.glob:s.heap).get(id); for(;off+8<=o->size;off+=8,p.c+=8)v.push_back(loadmem(s,p,8)); return v; };
  B("vsnprintf"){ vector<Val> b=vargs(s,a,3); return builtins["snprintf"](s,b,r); };
  B("vsprintf"){ vector<Val> b=vargs(s,a,2); return builtins["sprintf"](s,b,r); };
  B("vasprintf"){ vector<Val> b=vargs(s,a,2); return builtins["asprintf"](s,b,r); };
  B("vfprintf"){ vector<Val> b=vargs(s,a,2); return builtins["fprintf"](s,b,r); };
  B("__sprintf_chk"){ vector<Val> b{a[0]}; for(size_t i=3;i<a.size();i++)b.push_back(a[i]); return builtins["sprintf"](s,b,r); };
  for(const char*n:{"sscanf","__isoc99_sscanf","__isoc23_sscanf"})B(n){ string f=cstr(s,a.at(1)),t=cstr(s,a.at(0)); size_t i=1; int l=0; if(f.size()<2||f[0]!='%')unsupported(s,"sscanf "+f); while(i<f.size()&&(f[i]=='l'||f[i]=='z')){l=1;i++;} if(i+1!=f.size()||!strchr("diuxXo",f[i]))unsupported(s,"sscanf "+f);
    long v=0; int k=l?::sscanf(t.c_str(),f.c_str(),&v):0; if(!l){ int w=0; k=::sscanf(t.c_str(),f.c_str(),&w); v=w; } if(k==1)storemem(s,Val(arg(s,a,2)),l?8:4,Val((u64)v&(l?~0ull:0xffffffffull))); r=Val((u64)(u32)k); return true; };
  B("printf"){ vector<Val> o; doFmt(s,a,0,o); r=Val(o.size()); return true; };
  B("fprintf"){ vector<Val> o; doFmt(s,a,1,o); auto pf=s.files.find(arg(s,a,0)); if(printFn&&(pf==s.files.end()||pf->second.path=="stdout"||pf->second.path=="stderr")){ printN=o.size(); r=Val(printN); o.push_back(Val(0)); printAt=allocObj(s,O_SPECIAL,o.size(),"text",false); putBytes(s,printAt,o,o.size()); return true; } vappend(s,arg(s,a,0),o); r=Val(o.size()); return true; };
  for(const char*n:{"puts","putchar","perror","fflush","setlinebuf","setbuf","usleep"})B(n){ r=Val(0); return true; };
  B("fputs"){ string t=cstr(s,a[0]); vector<Val> o; for(char c:t)o.push_back(Val((u8)c)); vappend(s,arg(s,a,1),o); r=Val(1); return true; };
  for(const char*n:{"fputc","putc"})B(n){ Val v=a[0]; if(v.e&&!isU(v))v=VE(X.mk(E_EXTRACT,8,v.e,0,0,0)); vappend(s,arg(s,a,1),{v}); r=a[0]; return true; };
  B("fwrite"){ u64 n=arg(s,a,1)*arg(s,a,2); vector<Val> o; u64 p=arg(s,a,0); for(u64 i=0;i<n;i++)o.push_back(loadmem(s,Val(p+i),1)); vappend(s,arg(s,a,3),o); r=a[2]; return true; };
  for(const char*n:{"getenv","secure_getenv"})B(n){ string n=cstr(s,a[0]); r=Val(n=="BSDCONV_PATH"?A_env:0); return true; };
  B("__errno_location"){ r=Val(A_errno); return true; };
  B("__ctype_b_loc"){ r=Val(A_cbp); return true; }; B("__ctype_tolower_loc"){ r=Val(A_ctp); return true; }; B("__ctype_toupper_loc"){ r=Val(A_cup); return true; };
  B("getcwd"){ u64 p=arg(s,a,0); if(!p){r=Val(newstr(s,s.cwd,"heap"));return true;} putstr(s,p,s.cwd); r=Val(p); return true; };
  B("chdir"){ string p=absPath(s,cstr(s,a[0])); char b[PATH_MAX+1]; if(!::realpath(p.c_str(),b)){setErr(s,ENOENT); r=Val(0xffffffff); return true;} s.cwd=b; r=Val(0); return true; };
  B("realpath"){ string p=absPath(s,cstr(s,a[0])); char b[PATH_MAX+1]; b[0]=0; char*q=::realpath(p.c_str(),b); u64 d=arg(s,a,1); if(!d){ if(!q){setErr(s,errno);r=Val(0);return true;} r=Val(newstr(s,b,"heap")); return true;} putstr(s,d,b); if(!q){setErr(s,errno); r=Val(0);} else r=Val(d); return true; };
  B("access"){ string p=absPath(s,cstr(s,a[0])); if(::access(p.c_str(),R_OK)){setErr(s,ENOENT);r=Val(0xffffffff);} else r=Val(0); return true; };
  for(const char*n:{"open","open64"})B(n){ if(s.fOpen&&--s.fOpen==0){setErr(s,EMFILE);r=Val(0xffffffff);return true;} string p=absPath(s,cstr(s,a[0])); if((arg(s,a,1,32)&3)!=0)unsupported(s,"open for writing"); if(!isReg(p)){setErr(s,ENOENT);r=Val(0xffffffff);return true;} int fd=100; while(s.files.count(fd)&&s.files[fd].open)fd++; VFile f; f.path=p; f.fd=fd; s.files[fd]=f; r=Val(fd); return true; };
  for(const char*n:{"close","__close"})B(n){ u64 fd=arg(s,a,0,32); auto it=s.files.find(fd); if(it==s.files.end()||!it->second.open){setErr(s,EBADF);r=Val(0xffffffff);return true;} s.files.erase(it); r=Val(0); return true; };
  for(const char*n:{"fstat","fstat64"})B(n){ u64 fd=arg(s,a,0,32); u64 p=arg(s,a,1); auto it=s.files.find(fd); if(it==s.files.end()){setErr(s,EBADF);r=Val(0xffffffff);return true;} struct stat st; ::stat(it->second.path.c_str(),&st); for(u64 i=0;i<sizeof st;i++)storemem(s,Val(p+i),1,Val(0)); storemem(s,Val(p+offsetof(struct stat,st_size)),8,Val(st.st_size)); storemem(s,Val(p+offsetof(struct stat,st_mode)),4,Val(st.st_mode)); r=Val(0); return true; };
  for(const char*n:{"mmap","mmap64"})B(n){ if(s.fMap&&--s.fMap==0){setErr(s,ENOMEM);r=Val(~0ull);return true;} u64 len=arg(s,a,1); u64 fd=arg(s,a,4,32); u64 off=arg(s,a,5); auto it=s.files.find(fd); if(it==s.files.end()||off){setErr(s,EBADF);r=Val(~0ull);return true;} if(!len){setErr(s,EINVAL);r=Val(~0ull);return true;} auto&mc=mapCache[it->second.path]; if(!mc.first){string d; slurp(it->second.path,d); mc.first=(u8*)malloc(d.size()+1); memcpy(mc.first,d.data(),d.size()); mc.second=d.size();}
    Obj*o=new Obj(O_MAP,0); free(o->buf); o->buf=mc.first; o->shared=true; o->ro=true; o->size=std::min(len,mc.second); o->what="mapped "+it->second.path.substr(it->second.path.rfind('/')+1); u64 id=s.heap.n; s.heap.set(id,o); r=Val(mkaddr(id,false)); return true; };
  B("munmap"){ u64 p=arg(s,a,0); bool g;u64 id,off; if(locate(s,p,g,id,off)&&!g){Obj*o=s.heap.get(id); if((u64)o>16&&o->kind==O_MAP){s.heap.set(id,FREED);r=Val(0);return true;}} setErr(s,EINVAL); r=Val(0xffffffff); return true; };
  B("dlopen"){ u64 pp=arg(s,a,0); string p=absPath(s,cstr(s,Val(pp))); char b[PATH_MAX+1]; if(!::realpath(p.c_str(),b)||!isReg(b)){r=Val(0);return true;} string ll=string(b)+".ll"; Mod*m=loadMod(ll); if(!m)unsupported(s,"module without IR: "+string(b)); if(s.loaded[ll]++==0)mapGlobals(s,m); auto it=modHandle.find(m); u64 h; if(it==modHandle.end()){h=mkaddr(nextG++,true);modHandle[m]=h;dlMods[h]=m;} else h=it->second; r=Val(h); return true; };
  B("dlsym"){ u64 h=arg(s,a,0); string n=cstr(s,a[1]); auto it=dlMods.find(h); if(it==dlMods.end())fail(s,"bad-dl","dlsym on an invalid handle"); auto f=it->second->fn.find(n); if(f==it->second->fn.end()||f->second->F->hasLocalLinkage()){ auto g=it->second->gaddr.find(n); r=Val(g==it->second->gaddr.end()?0:g->second); return true;} r=Val(fnAddrOf(f->second)); return true; };
  B("dlclose"){ u64 h=arg(s,a,0); auto it=dlMods.find(h); if(it==dlMods.end())fail(s,"bad-dl","dlclose on an invalid handle"); int&c=s.loaded[it->second->path]; if(c<=0)fail(s,"bad-dl","dlclose on a closed handle"); if(--c==0)unmapGlobals(s,it->second); r=Val(0); return true; };
  B("dlerror"){ r=Val(0); return true; };
  for(const char*n:{"fopen","fopen64"})B(n){ string p=absPath(s,cstr(s,a[0])),m=cstr(s,a[1]); VFile f; f.path=p; if(m[0]=='r'){ if(!isReg(p)){setErr(s,ENOENT); r=Val(0); return true;} slurp(p,f.data);} else f.wr=true; u64 h=allocObj(s,O_SPECIAL,8,"FILE",false); s.files[h]=f; r=Val(h); return true; };
  B("fclose"){ u64 h=arg(s,a,0); auto it=s.files.find(h); if(it==s.files.end())fail(s,"double-free","fclose of an invalid or closed FILE"); s.files.erase(it); r=Val(0); return true; };
  B("feof"){ u64 h=arg(s,a,0); auto it=s.files.find(h); if(it==s.files.end())fail(s,"bad-file","operation on an invalid FILE"); r=Val(it->second.eof); return true; };
  B("fgets"){ u64 d=arg(s,a,0); int n=(int)arg(s,a,1,32); u64 h=arg(s,a,2); auto it=s.files.find(h); if(it==s.files.end())fail(s,"bad-file","operation on an invalid FILE"); VFile&f=it->second; string o; while((int)o.size()<n-1){ if(f.pos>=f.data.size()){f.eof=true;break;} char c=f.data[f.pos++]; o.push_back(c); if(c=='\n')break; } if(o.empty()){r=Val(0);return true;} vector<Val> v; for(char c:o)v.push_back(Val((u8)c)); v.push_back(Val(0)); putBytes(s,d,v,v.size()); r=Val(d); return true; };
  for(const char*n:{"fgetc","getc"})B(n){ u64 h=arg(s,a,0); auto it=s.files.find(h); if(it==s.files.end())fail(s,"bad-file","operation on an invalid FILE"); VFile&f=it->second; if(f.pos>=f.data.size()){f.eof=true;r=Val(0xffffffff);} else r=Val((u8)f.data[f.pos++]); return true; };
  B("fread"){ u64 d=arg(s,a,0),sz=arg(s,a,1),n=arg(s,a,2),h=arg(s,a,3); auto it=s.files.find(h); if(it==s.files.end())fail(s,"bad-file","operation on an invalid FILE"); VFile&f=it->second; u64 k=0; vector<Val> v; while(sz&&k<n&&f.pos+sz<=f.data.size()){ for(u64 i=0;i<sz;i++)v.push_back(Val((u8)f.data[f.pos++])); k++; } if(k<n)f.eof=true; putBytes(s,d,v,v.size()); r=Val(k); return true; };
  B("opendir"){ string p=absPath(s,cstr(s,a[0])); DIR*d=::opendir(p.c_str()); if(!d){setErr(s,ENOENT);r=Val(0);return true;} VFile f; f.path=p; while(auto*e=::readdir(d)){f.data+=e->d_name; f.data+='\n';} closedir(d); u64 h=allocObj(s,O_SPECIAL,8,"DIR",false); f.fd=0; s.files[h]=f; u64 ent=allocObj(s,O_SPECIAL,sizeof(struct dirent),"dirent",false); s.files[h].fd=(int)(ent>>32); r=Val(h); return true; };
  for(const char*n:{"readdir","readdir64"})B(n){ u64 h=arg(s,a,0); auto it=s.files.find(h); if(it==s.files.end())fail(s,"bad-file","operation on an invalid DIR"); VFile&f=it->second; if(f.pos>=f.data.size()){r=Val(0);return true;} size_t e=f.data.find('\n',f.pos); string nm=f.data.substr(f.pos,e-f.pos); f.pos=e+1; u64 ent=(u64)f.fd<<32|BIAS; string path=f.path; putstr(s,ent+offsetof(struct dirent,d_name),nm); struct stat st; ::stat((path+"/"+nm).c_str(),&st); storemem(s,Val(ent+offsetof(struct dirent,d_type)),1,Val(S_ISDIR(st.st_mode)?DT_DIR:DT_REG)); r=Val(ent); return true; };
  B("closedir"){ u64 h=arg(s,a,0); auto it=s.files.find(h); if(it==s.files.end())fail(s,"double-free","closedir of an invalid DIR"); s.files.erase(it); r=Val(0); return true; };
  B("time"){ r=Val(1700000000); return true; };
  // ---- harness interface
  B("sym_engine"){ r=Val(1); return true; };
  B("sym_bytes"){ u64 p=arg(s,a,0),n=arg(s,a,1); string nm=cstr(s,a[2]); if(s.dom.size()+n>250)unsupported(s,"too many symbolic bytes"); for(u64 i=0;i<n;i++){ int id=s.dom.size(); Dom d; d.set(); s.dom.push_back(d); s.model.push_back(0); s.pinned.push_back(-1); s.names.push_back(nm); storemem(s,Val(p+i),1,VE(X.sym(id))); } return true; };
  // case-split choice lo..hi (the choice itself is an input byte, so replays reproduce it)
  B("sym_range"){ int lo=(int)arg(s,a,0,32),hi=(int)arg(s,a,1,32); if(s.dom.size()>250)unsupported(s,"too many symbolic bytes"); Frame&f=s.fr.back(); CI&c=f.f->code[f.pc]; (void)c;
    // the symbol is created together with its first split; re-execution after a fork must not create another
    int id=s.dom.size(); vector<State*> out; for(int v=lo+1;v<=hi;v++){ State*o=clone(s); S.forks++; Dom d; d.set(v-lo); o->dom.push_back(d); o->model.push_back(v-lo); o->pinned.push_back(v-lo); o->names.push_back("choice"); Frame&g=o->fr.back(); CI&k=g.f->code[g.pc]; if(k.dst>=0)g.r[k.dst]=Val((u64)(u32)v); g.pc++; work.push_back(o); }
    Dom d; d.set(0); s.dom.push_back(d); s.model.push_back(0); s.pinned.push_back(0); s.names.push_back("choice"); (void)id; r=Val((u64)(u32)lo); return true; };
  B("sym_assume"){ Val v=red(s,a[0]); if(isU(v))fail(s,"uninit","assumption on uninitialised value"); if(!v.e){ if(!(v.c&0xffffffff))throw PathEnd{1}; return true; } unsigned w=v.e->w; Expr*c=w==1?v.e:X.lnot(X.mk(E_EQ,1,v.e,X.cons(0,w))); c=reduce(s,c); if(c->op==E_CONST){ if(!c->cv)throw PathEnd{1}; return true; }
    if(c->tab&&!s.mvars.has(c->var)){ Dom d=s.dom[c->var]&domOf(c); if(d.none())throw PathEnd{1}; setdom(s,c->var,d); fixmodel1(s,c); return true; }
    if(!X.eval(c,s.model)){ vector<u8> m=s.model; int k=check(s,c,m); if(k==0)throw PathEnd{1}; if(k<0){S.dropped++;throw PathEnd{1};} s.model=m; } addc(s,c); return true; };
  B("sym_assert"){ S.asserts++; Val v=red(s,a[0]); string msg=cstr(s,a[1]); if(isU(v))fail(s,"uninit","asserted value is uninitialised: "+msg);
    if(!v.e){ S.asserts_fold++; if(!(v.c&0xffffffff))fail(s,"assert",msg); return true; }
    unsigned w=v.e->w; Expr*c=w==1?v.e:X.lnot(X.mk(E_EQ,1,v.e,X.cons(0,w))); c=reduce(s,c); if(c->op==E_CONST){ S.asserts_fold++; if(!c->cv)fail(s,"assert",msg); return true; }
    S.asserts_solver++; Expr*n=X.lnot(c); vector<u8> m=s.model; int k=check(s,n,m); if(k==0)return true; if(k<0){S.assert_unk++; return true;}
    report(s,"assert",msg,m); // continue on the part where it holds
    vector<u8> m2=s.model; if(!X.eval(c,m2)){ if(check(s,c,m2)!=1)throw PathEnd{2}; s.model=m2; } addc(s,c); if(c->tab)fixmodel1(s,c); return true; };
  B("sym_memeq"){ u64 n=arg(s,a,2); Expr*e=X.cons(1,1); u64 p=n?arg(s,a,0):0,q=n?arg(s,a,1):0; for(u64 i=0;i<n;i++){ Val x=loadmem(s,Val(p+i),1),y=loadmem(s,Val(q+i),1); if(isU(x)||isU(y))fail(s,"uninit","compared bytes are uninitialised"); e=X.mk(E_AND,1,e,X.mk(E_EQ,1,toE(x,8),toE(y,8))); } r=VE(X.mk(E_ZEXT,32,e)); return true; };
  B("sym_observe"){ string t=cstr(s,a[0]); u64 n=arg(s,a,2); Observe o; o.tag=t; u64 p=n?arg(s,a,1):0; for(u64 i=0;i<n;i++)o.b.push_back(loadmem(s,Val(p+i),1)); s.obs.push_back(o); return true; };
  B("sym_cover"){ s.cov.insert(cstr(s,a[0])); return true; };
  B("sym_live"){ r=Val((u64)s.live); return true; };
  B("sym_conc"){ r=Val(arg(s,a,0,64)); return true; };
  B("sym_param"){ string n=cstr(s,a[0]); auto it=paramAddr.find(n); r=Val(it==paramAddr.end()?0:it->second); return true; };
  B("sym_fault"){ string w=cstr(s,a[0]); int k=arg(s,a,1,32); if(w=="open")s.fOpen=k; else if(w=="mmap")s.fMap=k; else if(w=="dlopen")s.fDl=k; return true; };
  B("setenv"){ string n=cstr(s,a[0]),v=cstr(s,a[1]); if(n!="BSDCONV_PATH"||v.size()>O.root.size())unsupported(s,"setenv"); putstr(s,A_env,v); r=Val(0); return true; };
  B("sym_skip"){ throw PathEnd{1}; };
  B("sym_done"){ throw PathEnd{0}; };
}
#undef B
