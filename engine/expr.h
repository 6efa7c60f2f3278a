// Hash-consed bit-vector expressions with folding.  Floating-point values are
// bit-vectors too; FP operations are separate node kinds.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <bitset>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Kind : u8 { KCONST, KVAR, KADD, KSUB, KMUL, KUDIV, KSDIV, KUREM, KSREM, KAND, KOR, KXOR,
  KSHL, KLSHR, KASHR, KEQ, KULT, KULE, KSLT, KSLE, KITE, KCONCAT, KEXTRACT, KZEXT, KSEXT,
  KFADD, KFSUB, KFMUL, KFDIV, KFEQ, KFLT, KFLE, KFNAN, KFPEXT, KFPTRUNC, KSITOFP, KUITOFP, KFPTOSI, KFPTOUI, KFSQRT,
  KFTRUNC, KFFLOOR, KFCEIL, KFREM };

struct Expr { Kind k; u8 depthflag; uint16_t w; u32 id; u64 c, chi; Expr *a,*b,*d; u32 stamp; bool ctree; u64 ev, evhi; const std::vector<u32>*vars; void* z3; void* z3b; u32 size; };

static inline u128 MASK(unsigned w){ return w>=128? ~(u128)0 : (((u128)1<<w)-1); }
static inline u128 CV(const Expr*e){ return ((u128)e->chi<<64)|e->c; }
static inline i128 SX(u128 v,unsigned w){ if(w>=128) return (i128)v; u128 m=(u128)1<<(w-1); v&=MASK(w); return (i128)((v^m)-m); }

static inline double b2d(u64 x){double d;memcpy(&d,&x,8);return d;} static inline u64 d2b(double d){u64 x;memcpy(&x,&d,8);return x;}
static inline float b2f(u64 x){u32 y=(u32)x;float d;memcpy(&d,&y,4);return d;} static inline u64 f2b(float d){u32 x;memcpy(&x,&d,4);return x;}
// relative error of printing P significant digits and reading them back: half a unit of the last
// decimal digit and half one of the binary one (slack for the roundings of the bound itself)
static inline double symxHalfUnit(int P,bool flt){ double t=0.5; for(int i=1;i<P;i++) t/=10; return (t+(flt?5.9604644775390625e-08:1.1102230246251565e-16))*1.00000095367431640625; }
// the value x (bits, width w) printed with this conversion and read back
static inline u64 convert(u64 x,unsigned w,int prec,char cv){ char f[8]={'%','.','*',cv,0}; std::vector<char> b(512+(prec>0?prec:0)); snprintf(b.data(),b.size(),f,prec,w==64?b2d(x):(double)b2f(x)); return w==64? d2b(strtod(b.data(),nullptr)): f2b(strtof(b.data(),nullptr)); }
// x87 extended precision as the IEEE-like layout sign, 15 exponent bits, 63 fraction bits (width 79)
static inline long double b2l(u128 x){ unsigned se=(unsigned)(x>>63)&0xffff; u64 m=(u64)x&0x7fffffffffffffffull; if(se&0x7fff) m|=1ull<<63; long double d=0; memcpy(&d,&m,8); memcpy((char*)&d+8,&se,2); return d; }
static inline u128 l2b(long double d){ u64 m; uint16_t se; memcpy(&m,&d,8); memcpy(&se,(char*)&d+8,2); return ((u128)se<<63)|(m&0x7fffffffffffffffull); }
static inline long double BF(u128 x,unsigned w){ return w==79? b2l(x): w==64? (long double)b2d((u64)x): (long double)b2f((u64)x);}
static inline u128 FB(long double v,unsigned w){ return w==79? l2b(v): w==64? (u128)d2b((double)v):(u128)f2b((float)v);}

// concrete semantics of every node kind; w = result width, aw = operand width
static inline u128 evalOp(Kind k,unsigned w,unsigned aw,u128 a,u128 b,u128 d,u64 c){
  u128 m=MASK(w);
  switch(k){
  case KADD:return (a+b)&m; case KSUB:return (a-b)&m; case KMUL:return (a*b)&m;
  case KUDIV:return b? (a/b)&m : m; case KUREM:return b? (a%b)&m : a;
  case KSDIV:{ i128 x=SX(a,w),y=SX(b,w); if(y==0) return x<0?1:m; if(y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m;}
  case KSREM:{ i128 x=SX(a,w),y=SX(b,w); if(y==0) return a; if(y==-1) return 0; return (u128)(x%y)&m;}
  case KAND:return a&b; case KOR:return a|b; case KXOR:return a^b;
  case KSHL:return b>=w?0:(a<<(unsigned)b)&m; case KLSHR:return b>=w?0:(a>>(unsigned)b);
  case KASHR:{ i128 x=SX(a,w); unsigned s=b>=w? w-1:(unsigned)b; return (u128)(x>>s)&m;}
  case KEQ:return a==b; case KULT:return a<b; case KULE:return a<=b;
  case KSLT:return SX(a,aw)<SX(b,aw); case KSLE:return SX(a,aw)<=SX(b,aw);
  case KITE:return a?b:d;
  case KEXTRACT:return (a>>(unsigned)c)&m; case KZEXT:return a; case KSEXT:return (u128)SX(a,aw)&m;
  case KFADD:case KFSUB:case KFMUL:case KFDIV:case KFREM:
    if(w==79){long double x=b2l(a),y=b2l(b);return l2b(k==KFADD?x+y:k==KFSUB?x-y:k==KFMUL?x*y:k==KFDIV?x/y:std::fmod(x,y));}
    if(w==64){double x=b2d((u64)a),y=b2d((u64)b);return d2b(k==KFADD?x+y:k==KFSUB?x-y:k==KFMUL?x*y:k==KFDIV?x/y:std::fmod(x,y));}
    else{float x=b2f((u64)a),y=b2f((u64)b);return f2b(k==KFADD?x+y:k==KFSUB?x-y:k==KFMUL?x*y:k==KFDIV?x/y:std::fmod(x,y));}
  case KFEQ:return BF(a,aw)==BF(b,aw); case KFLT:return BF(a,aw)<BF(b,aw); case KFLE:return BF(a,aw)<=BF(b,aw);
  case KFNAN:return std::isnan(BF(a,aw));
  case KFPEXT: case KFPTRUNC:return FB(BF(a,aw),w);
  case KSITOFP:{ i128 x=SX(a,aw); return w==79? l2b((long double)x): w==64? d2b((double)x):f2b((float)x);}
  case KUITOFP:return w==79? l2b((long double)a): w==64? d2b((double)a):f2b((float)a);
  case KFPTOSI:{ long double x=BF(a,aw); if(std::isnan(x)) return 0; if(x>=9.3e18L||x<=-9.3e18L) return (u128)(i128)(x>0?INT64_MAX:INT64_MIN)&m; return (u128)(i128)x&m;}
  case KFPTOUI:{ long double x=BF(a,aw); if(std::isnan(x)||x<=-1) return 0; if(x>=1.8446744073709552e19L) return m; return (u128)x&m;}
  case KFSQRT:return w==79? l2b(std::sqrt(b2l(a))):w==64? d2b(std::sqrt(b2d((u64)a))):f2b(std::sqrt(b2f((u64)a)));
  case KFTRUNC:return FB(std::trunc(BF(a,w)),w); case KFFLOOR:return FB(std::floor(BF(a,w)),w); case KFCEIL:return FB(std::ceil(BF(a,w)),w);
  default: return 0; }
}

struct VarInfo { std::string name; unsigned w; };

struct ExprDB {
  std::vector<VarInfo> vars; std::vector<Expr*> varExpr;
  std::vector<Expr*> slab; size_t slabPos=0; u32 nextId=1;
  std::vector<Expr*> table; size_t count=0;
  std::vector<u64> assign; u32 epoch=1;           // current assignment for eval
  std::unordered_map<u64,std::vector<std::vector<u32>*>> varsets; std::vector<u32> noVars;
  ExprDB(){ table.assign(1<<16,nullptr); }
  static u64 h(Kind k,unsigned w,u64 c,u64 chi,Expr*a,Expr*b,Expr*d){
    u64 x=k*0x9E3779B97F4A7C15ull+w; x=(x^c)*0xff51afd7ed558ccdull; x^=x>>29; x=(x^chi)*0xc4ceb9fe1a85ec53ull;
    x=(x^(a?a->id:0))*0x9E3779B97F4A7C15ull; x^=x>>31; x=(x^(b?b->id:0))*0xff51afd7ed558ccdull; x^=x>>30; x=(x^(d?d->id:0))*0xc4ceb9fe1a85ec53ull; return x^(x>>32);
  }
  Expr* raw(Kind k,unsigned w,u128 cv,Expr*a,Expr*b,Expr*d){
    u64 c=(u64)cv,chi=(u64)(cv>>64); size_t m=table.size()-1; size_t i=h(k,w,c,chi,a,b,d)&m;
    for(;;i=(i+1)&m){ Expr*e=table[i]; if(!e) break; if(e->k==k&&e->w==w&&e->c==c&&e->chi==chi&&e->a==a&&e->b==b&&e->d==d) return e; }
    if(slab.empty()||slabPos==4096){ slab.push_back((Expr*)calloc(4096,sizeof(Expr))); slabPos=0; }
    Expr*e=slab.back()+slabPos++; e->k=k;e->w=w;e->c=c;e->chi=chi;e->a=a;e->b=b;e->d=d;e->id=nextId++;
    e->ctree = k==KCONST || (k==KITE && b->ctree && d->ctree);
    e->size = 1+(a?a->size:0)+(b?b->size:0)+(d?d->size:0); if(e->size>1000000000u) e->size=1000000000u;
    e->vars = nullptr;
    table[i]=e; if(++count*2>table.size()) grow();
    return e;
  }
  void grow(){ std::vector<Expr*> o; o.swap(table); table.assign(o.size()*2,nullptr); size_t m=table.size()-1;
    for(Expr*e:o) if(e){ size_t i=h(e->k,e->w,e->c,e->chi,e->a,e->b,e->d)&m; while(table[i]) i=(i+1)&m; table[i]=e; } }
  const std::vector<u32>& varsOf(Expr*e){
    if(e->vars) return *e->vars;
    // iterative post-order to avoid deep recursion
    std::vector<Expr*> st{e};
    while(!st.empty()){ Expr*x=st.back(); if(x->vars){st.pop_back();continue;}
      bool ready=true; for(Expr*ch:{x->a,x->b,x->d}) if(ch&&!ch->vars){ st.push_back(ch); ready=false; }
      if(!ready) continue; st.pop_back();
      std::vector<u32> v; if(x->k==KVAR) v.push_back((u32)x->c);
      const std::vector<u32>*same=nullptr; int nch=0;
      for(Expr*ch:{x->a,x->b,x->d}) if(ch&&!ch->vars->empty()){ nch++; same=ch->vars; if(v.empty()) v=*ch->vars; else { std::vector<u32> r; std::set_union(v.begin(),v.end(),ch->vars->begin(),ch->vars->end(),std::back_inserter(r)); v.swap(r);} }
      if(x->k!=KVAR && nch==0){ x->vars=&noVars; continue; }
      if(nch==1){ x->vars=same; continue; }
      u64 hh=14695981039346656037ull; for(u32 q:v) hh=(hh^q)*1099511628211ull;
      auto&bk=varsets[hh]; std::vector<u32>*f=nullptr; for(auto*p:bk) if(*p==v){f=p;break;}
      if(!f){ f=new std::vector<u32>(v); bk.push_back(f);} x->vars=f; }
    return *e->vars;
  }
  Expr* K(u128 v,unsigned w){ return raw(KCONST,w,v&MASK(w),0,0,0); }
  Expr* T(){return K(1,1);} Expr* F(){return K(0,1);}
  Expr* var(const std::string&n,unsigned w){ u32 i=vars.size(); vars.push_back({n,w}); Expr*e=raw(KVAR,w,i,0,0,0); varExpr.push_back(e); assign.push_back(0); return e; }
  // ---- evaluation under `assign`
  u128 eval(Expr*e){
    if(e->k==KCONST) return CV(e);
    if(e->k==KVAR) return assign[e->c];
    if(e->stamp==epoch) return ((u128)e->evhi<<64)|e->ev;
    u128 r;
    if(e->k==KITE){ r = (eval(e->a)&1)? eval(e->b):eval(e->d); }
    else if(e->k==KCONCAT){ r=(eval(e->a)<<e->b->w)|eval(e->b); }
    else { u128 a=eval(e->a), b=e->b?eval(e->b):0; r=evalOp(e->k,e->w,e->a->w,a,b,0,e->c); }
    e->stamp=epoch; e->ev=(u64)r; e->evhi=(u64)(r>>64); return r;
  }
  // ---- construction
  std::unordered_map<u64,Expr*> mapMemo;
  Expr* mapTree(Kind k,unsigned w,Expr*t,Expr*o,bool left,u64 c=0){ // apply op over constant ITE tree
    if(t->k==KCONST){ u128 a=CV(t); if(!o) return K(evalOp(k,w,t->w,a,0,0,c),w); u128 b=CV(o); return K(left? evalOp(k,w,t->w,a,b,0,c):evalOp(k,w,o->w,b,a,0,c),w); }
    u64 key=((u64)t->id<<32)^((u64)(o?o->id:0)*2654435761u)^((u64)k<<57)^((u64)left<<56)^(c<<40)^w;
    struct Ent{Kind k;unsigned w;Expr*t,*o;bool l;u64 c;Expr*r;}; static std::unordered_map<u64,Ent> memo;
    auto it=memo.find(key); if(it!=memo.end()){ Ent&n=it->second; if(n.k==k&&n.w==w&&n.t==t&&n.o==o&&n.l==left&&n.c==c) return n.r; }
    Expr*r=ite(t->a,mapTree(k,w,t->b,o,left,c),mapTree(k,w,t->d,o,left,c));
    memo[key]=Ent{k,w,t,o,left,c,r}; return r;
  }
  Expr* notE(Expr*a){ if(a->k==KCONST) return K(!a->c,1); if(a->k==KXOR&&a->b->k==KCONST) return a->a; 
    if(a->k==KITE&&a->ctree) return ite(a->a,notE(a->b),notE(a->d));
    return raw(KXOR,1,0,a,T(),0); }
  Expr* andE(Expr*a,Expr*b){ return bin(KAND,a,b);} Expr* orE(Expr*a,Expr*b){ return bin(KOR,a,b);} 
  Expr* eq(Expr*a,Expr*b){ return bin(KEQ,a,b);} 
  Expr* ite(Expr*c,Expr*a,Expr*b){
    if(c->k==KCONST) return c->c? a:b; if(a==b) return a;
    if(c->k==KXOR&&c->w==1&&c->b->k==KCONST&&c->b->c==1) return ite(c->a,b,a);
    if(a->w==1){ if(a->k==KCONST&&b->k==KCONST) return a->c? c:notE(c);
      if(a->k==KCONST) return a->c? orE(c,b):andE(notE(c),b);
      if(b->k==KCONST) return b->c? orE(notE(c),a):andE(c,a); }
    if(a->k==KITE&&a->a==c) a=a->b; if(b->k==KITE&&b->a==c) b=b->d; if(a==b) return a;
    if(b->k==KITE&&b->b==a) return ite(orE(c,b->a),a,b->d);
    return raw(KITE,a->w,0,c,a,b);
  }
  // ---- floating-point values that are small integers: operations on them are exact and stay integer operations
  std::unordered_map<Expr*,std::pair<i128,i128> > rangeMemo;
  std::pair<i128,i128> range(Expr*e,int d=0){ // of e read as a signed number
    i128 M=e->w>=64? (i128)1<<62: (i128)1<<(e->w-1); std::pair<i128,i128> full(-M*2,M*2); if(e->w>64) return full; if(e->w<64) full=std::make_pair(-M,M-1);
    if(e->k==KCONST){ i128 v=SX(CV(e),e->w); return {v,v}; } if(d>40) return full; auto it=rangeMemo.find(e); if(it!=rangeMemo.end()) return it->second;
    std::pair<i128,i128> r=full,a,b; switch(e->k){
    case KSEXT: r=range(e->a,d+1); break; case KZEXT: r=e->a->w<60? std::make_pair((i128)0,(i128)MASK(e->a->w)): full; break;
    case KADD: a=range(e->a,d+1); b=range(e->b,d+1); r={a.first+b.first,a.second+b.second}; break; case KSUB: a=range(e->a,d+1); b=range(e->b,d+1); r={a.first-b.second,a.second-b.first}; break;
    case KMUL: { a=range(e->a,d+1); b=range(e->b,d+1); i128 L=(i128)1<<50; if(a.first<-L||a.second>L||b.first<-L||b.second>L) break; i128 p[4]={a.first*b.first,a.first*b.second,a.second*b.first,a.second*b.second}; r={*std::min_element(p,p+4),*std::max_element(p,p+4)}; break; }
    case KITE: a=range(e->b,d+1); b=range(e->d,d+1); r={std::min(a.first,b.first),std::max(a.second,b.second)}; break; default: break; }
    if(r.first<full.first||r.second>full.second) r=full; rangeMemo[e]=r; return r; }
  bool exact(std::pair<i128,i128> r,unsigned w){ i128 L=(i128)1<<(w==32?24:w==64?53:62); return (w==32||w==64)&&r.first>=-L&&r.second<=L; }
  // loose: up to the sign of zero, which comparisons do not see
  Expr* asInt(Expr*e,int d=0,bool loose=false){ // the integer (64 bits) this floating-point value is, or null; never a negative zero
    if(e->w!=32&&e->w!=64) return nullptr;
    switch(e->k){
    case KCONST: { double x=e->w==64? b2d(e->c): (double)b2f(e->c); if(!(x>-1e6&&x<1e6)||x!=std::floor(x)||(!loose&&x==0&&std::signbit(x))) return nullptr; return K((u128)(i128)(long)x,64); }
    case KSITOFP: if(e->a->w>64||!exact(range(e->a),e->w)) return nullptr; return sext(e->a,64);
    case KUITOFP: if(e->a->w>=50||((i128)1<<e->a->w)>((i128)1<<(e->w==32?24:53))) return nullptr; return zext(e->a,64);
    case KITE: { if(d>8) return nullptr; Expr*x=asInt(e->b,d+1,loose); if(!x) return nullptr; Expr*y=asInt(e->d,d+1,loose); if(!y) return nullptr; std::pair<i128,i128> p=range(x),q=range(y); unsigned n=bitsFor({std::min(p.first,q.first),std::max(p.second,q.second)}); return n>=64? ite(e->a,x,y): sext(ite(e->a,extract(x,0,n),extract(y,0,n)),64); }
    case KXOR: { if(!loose||d>8||e->b->k!=KCONST||CV(e->b)!=(u128)1<<(e->w-1)) return nullptr; Expr*x=asInt(e->a,d+1,true); return x? narrow(KSUB,K(0,64),x): nullptr; }
    case KFADD: case KFSUB: case KFMUL: { if(!loose||d>8) return nullptr; Expr*x=asInt(e->a,d+1,true); if(!x) return nullptr; Expr*y=asInt(e->b,d+1,true); if(!y) return nullptr; Expr*r=narrow(e->k==KFADD?KADD:e->k==KFSUB?KSUB:KMUL,x,y); return exact(range(r),e->w)? r: nullptr; }
    case KAND: { if(!loose||d>8||e->b->k!=KCONST||CV(e->b)!=MASK(e->w)>>1) return nullptr; Expr*x=asInt(e->a,d+1,true); return x? absInt(x): nullptr; }
    default: return nullptr; } }
  Expr* fromInt(Expr*v,unsigned w){ if(!exact(range(v),w)) return nullptr; return un(KSITOFP,v,w); }
  static unsigned bitsFor(std::pair<i128,i128> r){ unsigned n=1; while(n<64&&(r.first<-((i128)1<<(n-1))||r.second>((i128)1<<(n-1))-1)) n++; return n; }
  // an operation on 64-bit integers done in as few bits as its range needs
  Expr* narrow(Kind k,Expr*x,Expr*y){ std::pair<i128,i128> a=range(x),b=range(y),r; if(k==KADD) r={a.first+b.first,a.second+b.second}; else if(k==KSUB) r={a.first-b.second,a.second-b.first}; else if(k==KMUL){ i128 L=(i128)1<<50; if(a.first<-L||a.second>L||b.first<-L||b.second>L) return bin(k,x,y); i128 p[4]={a.first*b.first,a.first*b.second,a.second*b.first,a.second*b.second}; r={*std::min_element(p,p+4),*std::max_element(p,p+4)}; } else r={std::min(a.first,b.first),std::max(a.second,b.second)};
    unsigned n=bitsFor(r); if(n>=64) return bin(k,x,y); Expr*o=bin(k,extract(x,0,n),extract(y,0,n)); if(o->w==1) return o; return sext(o,64); }
  Expr* absInt(Expr*v){ std::pair<i128,i128> r=range(v); if(r.first>=0) return v; unsigned n=bitsFor({-std::max(-r.first,r.second),std::max(-r.first,r.second)}); if(n>=64) return ite(bin(KSLT,v,K(0,64)),bin(KSUB,K(0,64),v),v); Expr*x=extract(v,0,n); return sext(ite(bin(KSLT,x,K(0,n)),bin(KSUB,K(0,n),x),x),64); }
  Expr* intOp(Kind k,Expr*a,Expr*b,unsigned w){
    if(a->k==KCONST&&b->k==KCONST) return nullptr; if(a->k!=KSITOFP&&a->k!=KUITOFP&&a->k!=KITE&&b->k!=KSITOFP&&b->k!=KUITOFP&&b->k!=KITE&&!(k>=KFEQ&&(a->k==KXOR||b->k==KXOR||a->k==KAND||b->k==KAND||a->k==KFDIV||(a->k>=KFADD&&a->k<=KFMUL)||(b->k>=KFADD&&b->k<=KFMUL)))) return nullptr;
    if(k==KFEQ&&a->k==KFDIV&&b->k==KFDIV&&a->b==b->b&&a->b->k==KCONST){ double q=a->w==64? b2d(a->b->c): 0; if(!(q>=1&&q<=1048576&&q==std::floor(q))) return nullptr; Expr*x=asInt(a->a,0,true),*y=x? asInt(b->a,0,true): nullptr; if(!y) return nullptr; i128 L=(i128)1<<26; if(range(x).first<-L||range(x).second>L||range(y).first<-L||range(y).second>L) return nullptr; return narrow(KEQ,x,y); }
    bool loose= k>=KFEQ; Expr*x=asInt(a,0,loose); if(!x) return nullptr; Expr*y=asInt(b,0,loose); if(!y) return nullptr;
    switch(k){ case KFADD: return fromInt(narrow(KADD,x,y),w); case KFSUB: return fromInt(narrow(KSUB,x,y),w);
    case KFMUL: if(x!=y&&(range(x).first<0||range(y).first<0)) return nullptr; return fromInt(narrow(KMUL,x,y),w);
    case KFEQ: return narrow(KEQ,x,y); case KFLT: return narrow(KSLT,x,y); case KFLE: return notE(narrow(KSLT,y,x)); default: return nullptr; } }
  Expr* bin(Kind k,Expr*a,Expr*b){
    unsigned w = (k>=KEQ&&k<=KSLE)||(k>=KFEQ&&k<=KFLE)?1:a->w;
    if(a->k==KCONST&&b->k==KCONST) return K(evalOp(k,w,a->w,CV(a),CV(b),0,0),w);
    if((k>=KFADD&&k<=KFLE)&&k!=KFDIV){ if(Expr*r=intOp(k,a,b,w)) return r; }
    bool comm = k==KADD||k==KMUL||k==KAND||k==KOR||k==KXOR||k==KEQ||k==KFEQ||k==KFADD||k==KFMUL;
    if(comm&&(a->k==KCONST||(b->k!=KCONST&&a->id>b->id))) std::swap(a,b);
    bool bc=b->k==KCONST; u128 bv=bc?CV(b):0; bool ac=a->k==KCONST; u128 av=ac?CV(a):0; u128 m=MASK(a->w);
    switch(k){
    case KADD: if(bc&&bv==0) return a; if(bc&&a->k==KXOR&&w>1&&a->b->k==KCONST&&CV(a->b)==m) return bin(KSUB,K(bv-1,w),a->a); /* ~x+c = c-1-x */ if(bc&&a->k==KADD&&a->b->k==KCONST) return bin(KADD,a->a,K(CV(a->b)+bv,w));
      if(a->k==KSUB&&a->b==b) return a->a; if(b->k==KSUB&&b->b==a) return b->a; break;
    case KSUB: if(a==b) return K(0,w); if(ac&&av==0&&b->k==KSUB&&b->a->k==KCONST&&CV(b->a)==0) return b->b; if(bc) return bin(KADD,a,K((~bv+1),w));
      if(a->k==KADD){ if(a->a==b) return a->b; if(a->b==b) return a->a; if(a->b->k==KCONST&&b->k==KADD&&b->b->k==KCONST&&a->a==b->a) return K(CV(a->b)-CV(b->b),w);} break;
    case KMUL: if(bc&&bv==0) return b; if(bc&&bv==1) return a; if(bc){ if((bv&(bv-1))==0){ unsigned s=0; while(((u128)1<<s)!=bv) s++; return bin(KSHL,a,K(s,w)); } } break;
    case KUDIV: if(bc&&bv==1) return a; if(bc&&bv&&(bv&(bv-1))==0){ unsigned s=0; while(((u128)1<<s)!=bv) s++; return bin(KLSHR,a,K(s,w)); } break;
    case KUREM: if(bc&&bv&&(bv&(bv-1))==0) return bin(KAND,a,K(bv-1,w)); break;
    case KSDIV: if(bc&&bv==1) return a; break;
    case KAND: if(bc&&bv==(m>>1)&&a->w>=32){ // magnitude of a floating-point result, in a canonical form
        if(a->k==KSITOFP||a->k==KUITOFP||a->k==KITE) if(Expr*x=asInt(a)) if(Expr*r=fromInt(absInt(x),w)) return r;
        if(a->k==KFPEXT) return un(KFPEXT,bin(KAND,a->a,K(MASK(a->a->w)>>1,a->a->w)),w);
        if(a->k==KFSUB&&a->a->id>a->b->id) return bin(KAND,raw(KFSUB,w,0,a->b,a->a,0),b);
        if((a->k==KFMUL||a->k==KFDIV)) { Expr*x=bin(KAND,a->a,b),*y=bin(KAND,a->b,b); return bin(a->k,x,y); }
        if(a->k==KXOR&&a->b->k==KCONST&&CV(a->b)==((u128)1<<(w-1))) return bin(KAND,a->a,b); }
      if(bc){ if(bv==0) return b; if(bv==m) return a; if(a->k==KAND&&a->b->k==KCONST) return bin(KAND,a->a,K(bv&CV(a->b),w));
        if(a->k==KZEXT&&bv>=MASK(a->a->w)&&(bv&MASK(a->a->w))==MASK(a->a->w)) return a;
        if(a->w>8){ unsigned n=0; u128 t=bv; while(t&1){n++;t>>=1;} if(t==0&&n>=1&&n<a->w) return zext(extract(a,0,n),w); } }
      if(a==b) return a; if(w==1&&(b==notE(a))) return F(); break;
    case KOR: if(bc){ if(bv==0) return a; if(bv==m) return b; } if(a==b) return a; if(w==1&&(b==notE(a))) return T();
      if(!bc&&w>1){ // disjoint zext / shl combination -> concat
        Expr*x=a,*y=b; for(int t=0;t<2;t++,std::swap(x,y)) if(x->k==KZEXT&&y->k==KCONCAT&&y->b->k==KCONST&&CV(y->b)==0&&x->a->w<=y->b->w) return concat(y->a,zext(x->a,y->b->w)); }
      break;
    case KXOR: if(bc&&bv==0) return a; if(a==b) return K(0,w); if(w==1&&bc&&bv==1) return notE(a); if(bc&&a->k==KXOR&&a->b->k==KCONST) return bin(KXOR,a->a,K(bv^CV(a->b),w)); break;
    case KSHL: if(bc){ if(bv==0) return a; if(bv>=w) return K(0,w); unsigned s=(unsigned)bv; return concat(extract(a,0,w-s),K(0,s)); } break;
    case KLSHR: if(bc){ if(bv==0) return a; if(bv>=w) return K(0,w); unsigned s=(unsigned)bv; return zext(extract(a,s,w-s),w);} break;
    case KASHR: if(bc){ if(bv==0) return a; unsigned s=bv>=w?w-1:(unsigned)bv; return sext(extract(a,s,w-s),w);} break;
    case KEQ: if(a==b) return T(); if(a->w==1){ if(bc) return bv? a:notE(a);} 
      if(bc){ if(a->k==KZEXT){ if(bv>MASK(a->a->w)) return F(); return eq(a->a,K(bv,a->a->w)); }
        if(a->k==KSEXT){ u128 lo=bv&MASK(a->a->w); if(((u128)SX(lo,a->a->w)&m)!=bv) return F(); return eq(a->a,K(lo,a->a->w)); }
        if(a->k==KADD&&a->b->k==KCONST) return eq(a->a,K(bv-CV(a->b),a->w));
        if(a->k==KXOR&&a->b->k==KCONST) return eq(a->a,K(bv^CV(a->b),a->w));
        if(a->k==KSUB&&a->a->k==KCONST) return eq(a->b,K(CV(a->a)-bv,a->w));
        if(a->k==KCONCAT) return andE(eq(a->a,K(bv>>a->b->w,a->a->w)),eq(a->b,K(bv,a->b->w)));
        if(a->k==KITE&&!a->ctree){ if(a->b->ctree||a->d->ctree) return ite(a->a,eq(a->b,b),eq(a->d,b)); } }
      else { if(a->k==KZEXT&&b->k==KZEXT&&a->a->w==b->a->w) return eq(a->a,b->a);
        if(a->k==KSEXT&&b->k==KSEXT&&a->a->w==b->a->w) return eq(a->a,b->a);
        if(a->k==KCONCAT&&b->k==KCONCAT&&a->b->w==b->b->w) return andE(eq(a->a,b->a),eq(a->b,b->b));
        if(a->k==KADD&&b->k==KADD&&a->b==b->b) return eq(a->a,b->a); if(a->k==KADD&&b->k==KADD&&a->a==b->a) return eq(a->b,b->b); }
      break;
    case KULT: if(a==b) return F(); if(bc){ if(bv==0) return F(); if(bv==1) return eq(a,K(0,a->w)); if(a->k==KZEXT){ if(bv>MASK(a->a->w)) return T(); return bin(KULT,a->a,K(bv,a->a->w)); } }
      if(ac){ if(av==m) return F(); if(b->k==KZEXT){ if(av>=MASK(b->a->w)) return F(); return bin(KULT,K(av,b->a->w),b->a);} if(av==0) return notE(eq(b,a)); }
      if(a->k==KZEXT&&b->k==KZEXT&&a->a->w==b->a->w) return bin(KULT,a->a,b->a); break;
    case KULE: return notE(bin(KULT,b,a));
    case KSLT: if(a==b) return F();
      if(a->k==KSEXT&&b->k==KSEXT&&a->a->w==b->a->w) return bin(KSLT,a->a,b->a);
      if(a->k==KZEXT&&b->k==KZEXT&&a->a->w==b->a->w) return bin(KULT,a->a,b->a);
      if(a->k==KZEXT&&bc){ if(SX(bv,a->w)<=0) return F(); return bin(KULT,a,b);} if(b->k==KZEXT&&ac){ if(SX(av,a->w)<0) return T(); return bin(KULT,a,b);} 
      if(a->k==KSEXT&&bc){ i128 v=SX(bv,a->w); unsigned n=a->a->w; i128 mx=((i128)1<<(n-1))-1, mn=-((i128)1<<(n-1)); if(v>mx) return T(); if(v<=mn) return F(); return bin(KSLT,a->a,K((u128)v,n)); }
      if(b->k==KSEXT&&ac){ i128 v=SX(av,b->w); unsigned n=b->a->w; i128 mx=((i128)1<<(n-1))-1, mn=-((i128)1<<(n-1)); if(v>=mx) return F(); if(v<mn) return T(); return bin(KSLT,K((u128)v,n),b->a); }
      break;
    case KSLE: return notE(bin(KSLT,b,a));
    case KFLE: return orE(bin(KFLT,a,b),bin(KFEQ,a,b));
    case KFEQ: if(a==b) return notE(un(KFNAN,a,1)); break;
    case KFLT: if(a==b) return F(); break;
    default: break; }
    if(k<KFADD || k>=KFEQ){ if(bc&&a->ctree) return mapTree(k,w,a,b,true); if(ac&&b->ctree) return mapTree(k,w,b,a,false); }
    return raw(k,w,0,a,b,0);
  }
  Expr* extract(Expr*a,unsigned lo,unsigned w){
    if(lo==0&&w==a->w) return a; if(a->k==KCONST) return K(CV(a)>>lo,w);
    if(a->k==KEXTRACT) return extract(a->a,lo+(unsigned)a->c,w);
    if(a->k==KCONCAT){ unsigned bw=a->b->w; if(lo+w<=bw) return extract(a->b,lo,w); if(lo>=bw) return extract(a->a,lo-bw,w); return concat(extract(a->a,0,lo+w-bw),extract(a->b,lo,bw-lo)); }
    if(a->k==KZEXT){ unsigned n=a->a->w; if(lo>=n) return K(0,w); if(lo+w<=n) return extract(a->a,lo,w); return zext(extract(a->a,lo,n-lo),w); }
    if(a->k==KSEXT){ unsigned n=a->a->w; if(lo+w<=n) return extract(a->a,lo,w); if(lo==0) return sext(a->a,w); if(lo<n) return sext(extract(a->a,lo,n-lo),w); return sext(extract(a->a,n-1,1),w); }
    if(a->k==KAND||a->k==KOR||a->k==KXOR) return bin(a->k,extract(a->a,lo,w),extract(a->b,lo,w));
    if(lo==0&&(a->k==KADD||a->k==KSUB||a->k==KMUL)&&a->w>w&&(a->b->k==KCONST||a->k!=KMUL)) return bin(a->k,extract(a->a,0,w),extract(a->b,0,w));
    if(a->k==KITE){ if(a->ctree) return mapTree(KEXTRACT,w,a,0,true,lo); if(a->b->k==KCONST||a->d->k==KCONST||w==8) return ite(a->a,extract(a->b,lo,w),extract(a->d,lo,w)); }
    return raw(KEXTRACT,w,lo,a,0,0);
  }
  Expr* concat(Expr*hi,Expr*lo){
    if(hi->k==KCONST&&lo->k==KCONST) return K((CV(hi)<<lo->w)|CV(lo),hi->w+lo->w);
    if(hi->k==KCONST&&CV(hi)==0) return zext(lo,hi->w+lo->w);
    if(hi->k==KEXTRACT&&lo->k==KEXTRACT&&hi->a==lo->a&&hi->c==lo->c+lo->w) return extract(hi->a,(unsigned)lo->c,hi->w+lo->w);
    if(lo->k==KCONCAT){ Expr*t=nullptr; if(hi->k==KEXTRACT&&lo->a->k==KEXTRACT&&hi->a==lo->a->a&&hi->c==lo->a->c+lo->a->w) t=extract(hi->a,(unsigned)lo->a->c,hi->w+lo->a->w); if(t) return concat(t,lo->b); 
      if(hi->k==KCONST&&lo->a->k==KCONST) return concat(K((CV(hi)<<lo->a->w)|CV(lo->a),hi->w+lo->a->w),lo->b); }
    if(hi->k==KCONCAT) return concat(hi->a,concat(hi->b,lo));
    if(hi->k==KZEXT&&lo->k!=KCONST) return zext(concat(hi->a,lo),hi->w+lo->w);
    // sign bytes of a SEXT
    if(hi->k==KSEXT&&hi->a->k==KEXTRACT&&hi->a->w==1&&lo->w<64&&hi->a->a==lo&&hi->a->c==lo->w-1) return sext(lo,hi->w+lo->w);
    return raw(KCONCAT,hi->w+lo->w,0,hi,lo,0);
  }
  Expr* zext(Expr*a,unsigned w){ if(w==a->w) return a; if(w<a->w) return extract(a,0,w); if(a->k==KCONST) return K(CV(a),w); if(a->k==KZEXT) return zext(a->a,w); if(a->ctree) return mapTree(KZEXT,w,a,0,true); return raw(KZEXT,w,0,a,0,0); }
  Expr* sext(Expr*a,unsigned w){ if(w==a->w) return a; if(w<a->w) return extract(a,0,w); if(a->k==KCONST) return K((u128)SX(CV(a),a->w),w); if(a->k==KSEXT) return sext(a->a,w); if(a->k==KZEXT) return zext(a->a,w); if(a->ctree) return mapTree(KSEXT,w,a,0,true); return raw(KSEXT,w,0,a,0,0); }
  Expr* un(Kind k,Expr*a,unsigned w){ if(a->k==KCONST) return K(evalOp(k,w,a->w,CV(a),0,0,0),w);
    if(k>=KFNAN&&k<=KFSQRT&&k!=KSITOFP&&k!=KUITOFP&&(a->k==KSITOFP||a->k==KUITOFP||a->k==KITE||(k==KFNAN&&(a->k==KXOR||a->k==KAND||(a->k>=KFADD&&a->k<=KFMUL)||a->k==KFDIV)))) if(Expr*x=asInt(k==KFNAN&&a->k==KFDIV&&a->b->k==KCONST&&a->w==64&&b2d(a->b->c)>=1&&b2d(a->b->c)<1e9? a->a: a,0,k==KFNAN)){
      if(k==KFNAN) return F(); if(k==KFPEXT||k==KFPTRUNC){ if(Expr*r=w==32||w==64? fromInt(x,w): nullptr) return r; }
      if(k==KFPTOSI&&w<=64) return sext(x,w); if(k==KFPTOUI&&w<=64&&range(x).first>=0) return zext(x,w);
      if(k==KFSQRT&&x->k==KMUL&&x->a==x->b) if(Expr*r=fromInt(absInt(x->a),w)) return r; }
 return raw(k,w,0,a,0,0); }
  std::string show(Expr*e,int d=0){ static const char*N[]={"const","var","+","-","*","udiv","sdiv","urem","srem","&","|","^"}; if(e->k==KCONST){ char b[64]; if(CV(e)>>64) snprintf(b,64,"#%llx_%016llx:%u",(unsigned long long)e->chi,(unsigned long long)e->c,e->w); else snprintf(b,64,"#%llx:%u",(unsigned long long)e->c,e->w); return b; } if(e->k==KVAR) return vars[e->c].name+std::to_string(e->c); if(d>14) return "..";
    std::string r="("+(e->k<=KXOR?std::string(N[e->k]):"k"+std::to_string(e->k)); if(e->k==KEXTRACT) r+="@"+std::to_string(e->c)+":"+std::to_string(e->w); for(Expr*c:{e->a,e->b,e->d}) if(c) r+=" "+show(c,d+1); return r+")"; }
};

