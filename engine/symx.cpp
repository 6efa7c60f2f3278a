// symx: symbolic executor for LLVM bitcode with an SMT back end.
// Explores every feasible path of an entry function; inputs created by the
// harness API are symbolic; assertions are discharged by the solver.
#include "solver.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <memory>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <pthread.h>
#include <sys/mman.h>
using namespace llvm;
static ExprDB DB; static Solver*SOL;
#define UNINIT ((Expr*)1)
static const unsigned OBJSHIFT=24;

struct Val { u64 c=0; Expr*e=nullptr; bool sym()const{return e!=nullptr;} };
static inline Val CVal(u64 c){Val v;v.c=c;return v;}
static inline Val EVal(Expr*e){Val v; if(e->k==KCONST&&e->w<=64){v.c=e->c;return v;} v.e=e;return v;}
static inline Expr*X(const Val&v,unsigned w){ return v.e? v.e: DB.K(v.c,w); }

enum OKind:u8{OGLOBAL,OCONST,OSTACK,OHEAP,OFUNC,OFREED};
struct MemObj{ u64 size=0; std::vector<u8> b; std::vector<Expr*> s; u32 nsym=0; OKind kind=OHEAP; u8 how=0; const char*name=""; };
typedef std::shared_ptr<MemObj> ObjP;
struct Chunk{ ObjP o[64]; };
struct Memory{ std::vector<std::shared_ptr<Chunk>> ch; u64 n=1;
  MemObj*get(u64 id)const{ if(id==0||id>=n) return nullptr; return ch[id>>6]->o[id&63].get(); }
  Chunk&wchunk(u64 id){ auto&p=ch[id>>6]; if(p.use_count()>1) p=std::make_shared<Chunk>(*p); return *p; }
  MemObj*wget(u64 id){ Chunk&c=wchunk(id); ObjP&p=c.o[id&63]; if(p.use_count()>1) p=std::make_shared<MemObj>(*p); return p.get(); }
  u64 add(ObjP o){ u64 id=n++; if((id>>6)>=ch.size()) ch.push_back(std::make_shared<Chunk>()); wchunk(id).o[id&63]=o; return id; }
  void drop(u64 id){ wchunk(id).o[id&63].reset(); }
};
struct Operand{ int slot; Val v; };
struct IInst{ Instruction*I; unsigned opc; int dst; unsigned w; unsigned nops; Operand*ops; i64 gepc=0; i64*scales=nullptr; unsigned*iw=nullptr; Function*callee=nullptr; const std::function<int(struct State&,IInst&,Val*,Val&)>*bi=nullptr; int t1=-1,t2=-1; bool repo=false; };
struct BInfo{ int first; int firstNonPhi; };
struct FInfo{ Function*F; unsigned nregs=0; std::vector<IInst> code; std::vector<BInfo> bbs; std::unordered_map<const BasicBlock*,int> bbidx; std::unordered_map<const Value*,int> slot; std::string name; bool repo=false,rt=false; u64 hits=0; };
struct Frame{ FInfo*f; int pc=0; int bb=0; std::vector<Val> regs; std::vector<u64> allocas; int retdst=-1; bool isInvoke=false; };
struct InputRec{ std::string name; std::vector<Expr*> bytes; };
struct Dom{ std::bitset<256> b; };
struct Token{ Expr*val; unsigned w; int prec; char cv; Expr*read; std::string text; }; // text standing for a symbolic floating-point value
struct State{ std::vector<Frame> fr; Memory mem; std::vector<Expr*> cons; std::unordered_map<Expr*,bool> known; std::map<u32,std::bitset<256>> dom; std::set<u32> entangled;
  std::vector<u64> model; std::vector<InputRec> in; std::vector<InputRec> obs; std::vector<Token> tokens; std::vector<std::pair<Expr*,Expr*>> subst; std::vector<std::pair<Expr*,std::vector<Expr*>>> digs;
  u32 nv=0; u64 excObj=0; u64 excAdj=0; u64 excTI=0; u64 instrs=0; u32 forks=0; u64 heapLive=0; std::string note;
  int unit=-1; u64 unitFrom=0; u32 unitDepth=0; int racePause=0; std::shared_ptr<std::unordered_map<u64,u32>> acc; }; // accesses of the work units of a parallel section to what existed before it
struct KillPath{ std::string why; }; struct PathError{ std::string kind,msg; }; struct Incomplete{ std::string why; }; struct Unsupported{ std::string why; };

// ---------------------------------------------------------------- globals
static LLVMContext LC; static std::unique_ptr<Module> M; static const DataLayout*DL;
static std::unordered_map<const GlobalValue*,u64> gaddr; static std::unordered_map<u64,Function*> funcAt;
static std::unordered_map<Function*,FInfo*> finfo; static std::map<std::string,std::function<int(State&,IInst&,Val*,Val&)>> builtins;
static State*CUR; static std::deque<std::unique_ptr<State>> work; static std::map<std::string,u64> params;
static u64 maxInstr=20000000; static double deadline=1e18; static std::string outFile; static int tokFdR=-1,tokFdW=-1; static unsigned maxErrors=4; static std::string repoPrefix="/repo/"; static bool checkOverflow=false, verbose=false; static unsigned nsamples=6; static u64 seed=1;
static std::unordered_map<u64,int> tiIds; // typeinfo addr -> selector id
struct Stats{ u64 paths=0,killed=0,instrs=0,forks=0,checks=0,checksFolded=0,errors=0,domDecided=0,domForks=0,repoInstrs=0; std::map<std::string,u64> reach; } ST;
struct ErrRec{ std::string kind,msg,trace,inputs; }; static std::vector<ErrRec> errRecs; static std::string incompleteWhy; static std::vector<std::string> samples; static u64 sampleSeen=0; static bool isChild=false; static std::vector<pid_t> kids; static std::set<std::string> coveredRepo;
static u64 rngs=88172645463325252ull; static u64 rng(){ rngs^=rngs<<13; rngs^=rngs>>7; rngs^=rngs<<17; return rngs; }

static std::string jesc(const std::string&s){ std::string r; for(unsigned char c:s){ if(c=='"'||c=='\\'){r+='\\';r+=c;} else if(c<32||c>=127){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=c;} return r; }
static unsigned widthOf(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isDoubleTy()) return 64; if(auto*v=dyn_cast<FixedVectorType>(t)){ unsigned e=v->getElementType()->isFloatTy()||v->getElementType()->isDoubleTy()? v->getPrimitiveSizeInBits().getFixedValue(): 0; return e<=64? e: 0; } if(t->isFloatTy()) return 32; if(t->isX86_FP80Ty()) return 79; return 0; }

static void useState(State&s){ CUR=&s; DB.assign.assign(DB.vars.size(),0); for(size_t i=0;i<s.model.size()&&i<DB.assign.size();i++) DB.assign[i]=s.model[i]; DB.epoch++; }
static u64 evalC(Expr*e){ return (u64)DB.eval(e); }
static std::map<std::pair<u32,unsigned>,Expr*> varPool; // variables are numbered per path, so paths share them
static Expr* freshVar(State&s,const std::string&n,unsigned w,u64 init=0){ Expr*&pe=varPool[{s.nv++,w}]; if(!pe) pe=DB.var(n,w); Expr*e=pe; if(s.model.size()<DB.vars.size()) s.model.resize(DB.vars.size(),0); s.model[e->c]=init; DB.assign[e->c]=init; return e; }

// unary 8-bit truth sets
static std::unordered_map<Expr*,std::bitset<256>> truth;
static const std::bitset<256>& truthSet(Expr*c,u32 v){ auto it=truth.find(c); if(it!=truth.end()) return it->second;
  u64 save=DB.assign[v]; std::bitset<256> r; for(int i=0;i<256;i++){ DB.assign[v]=i; DB.epoch++; if(DB.eval(c)&1) r[i]=1; } DB.assign[v]=save; DB.epoch++; return truth[c]=r; }
static std::bitset<256> domOf(State&s,u32 v){ auto it=s.dom.find(v); if(it!=s.dom.end()) return it->second; std::bitset<256> b; b.set(); return b; }

static size_t domSize(State&s,u32 v){ if(DB.vars[v].w!=8) return 1000000; auto it=s.dom.find(v); return it==s.dom.end()?256:it->second.count(); }
static void collectVals(const std::bitset<256>&d,std::vector<u8>&o){ o.clear(); for(int i=d._Find_first();i<256;i=d._Find_next(i)) o.push_back((u8)i); }
// calls f(values) for every combination of the domains of the variables of c; restores the assignment
struct Combos{ std::vector<u32> v; std::vector<std::vector<u8>> d; std::vector<u64> save; size_t n=1; bool ok=true;
  Combos(State&s,Expr*c,size_t lim){ for(u32 x:DB.varsOf(c)){ size_t k=domSize(s,x); if(k>lim||(n*=k)>lim){ ok=false; return; } } for(u32 x:DB.varsOf(c)){ v.push_back(x); d.emplace_back(); collectVals(domOf(s,x),d.back()); } }
  template<class F> void run(F f){ for(u32 x:v) save.push_back(DB.assign[x]); std::vector<size_t> ix(v.size(),0); bool more=n>0; while(more){ for(size_t i=0;i<v.size();i++) DB.assign[v[i]]=d[i][ix[i]]; DB.epoch++; if(!f()) break; size_t i=0; for(;i<v.size();i++){ if(++ix[i]<d[i].size()) break; ix[i]=0; } more=i<v.size(); } for(size_t i=0;i<v.size();i++) DB.assign[v[i]]=save[i]; DB.epoch++; } };
static void filterDoms(State&s,Expr*c){ std::vector<Expr*> wl{c}; int rounds=0; while(!wl.empty()&&rounds++<200){ Expr*e=wl.back(); wl.pop_back(); auto&vs=DB.varsOf(e); if(vs.size()<2||vs.size()>3) continue; Combos cb(s,e,512); if(!cb.ok) continue; std::vector<std::bitset<256>> keep(vs.size()); cb.run([&]{ if(DB.eval(e)&1) for(size_t i=0;i<cb.v.size();i++) keep[i][DB.assign[cb.v[i]]]=1; return true; });
    for(size_t i=0;i<cb.v.size();i++) if(keep[i].count()<cb.d[i].size()&&keep[i].any()){ s.dom[cb.v[i]]=keep[i]; for(Expr*o:s.cons) if(o!=e){ auto&ov=DB.varsOf(o); if(ov.size()>=2&&ov.size()<=3&&std::find(ov.begin(),ov.end(),cb.v[i])!=ov.end()) wl.push_back(o); } } } }
static void addCons(State&s,Expr*c){ // c must hold
  if(c->k==KCONST) return;
  if(c->k==KAND&&c->w==1){ addCons(s,c->a); addCons(s,c->b); s.known[c]=true; return; }
  if(c->k==KXOR&&c->w==1&&c->b->k==KCONST&&c->a->k==KOR){ addCons(s,DB.notE(c->a->a)); addCons(s,DB.notE(c->a->b)); s.known[c->a]=false; return; }
  if(s.known.count(c)&&s.known[c]) return;
  s.cons.push_back(c); s.known[c]=true; Expr*n=DB.notE(c); s.known[n]=false;
  auto&vs=DB.varsOf(c); if(vs.size()==1&&DB.vars[vs[0]].w==8){ s.dom[vs[0]]=domOf(s,vs[0])&truthSet(c,vs[0]); } else { for(u32 v:vs) s.entangled.insert(v); filterDoms(s,c); }
}
// a byte domain as a union of intervals
struct BSHash{ size_t operator()(const std::pair<u32,std::bitset<256>>&p)const{ return std::hash<std::bitset<256>>()(p.second)*31+p.first; } };
static std::unordered_map<std::pair<u32,std::bitset<256>>,Expr*,BSHash> domExprs;
static Expr* domExpr(u32 v,const std::bitset<256>&d){ auto&e=domExprs[{v,d}]; if(e) return e; Expr*x=DB.varExpr[v]; Expr*r=DB.F(); for(int i=0;i<256;){ if(!d[i]){i++;continue;} int j=i; while(j<255&&d[j+1]) j++; Expr*t= i==j? DB.eq(x,DB.K(i,8)): DB.bin(KULE,DB.bin(KSUB,x,DB.K(i,8)),DB.K(j-i,8)); r=DB.orE(r,t); i=j+1; } return e=r; }
static inline bool unary8(Expr*c){ auto&vs=DB.varsOf(c); return vs.size()==1&&DB.vars[vs[0]].w==8; }
static std::vector<Expr*> slice(State&s,Expr*c){
  std::vector<Expr*> r; std::unordered_set<u32> vs(DB.varsOf(c).begin(),DB.varsOf(c).end()); std::vector<char> in(s.cons.size(),0); bool ch=true;
  while(ch){ ch=false; for(size_t i=0;i<s.cons.size();i++) if(!in[i]){ auto&v=DB.varsOf(s.cons[i]); if(v.size()==1){ if(DB.vars[v[0]].w==8) { in[i]=1; continue; } } bool hit=false; for(u32 x:v) if(vs.count(x)&&domSize(s,x)>1){hit=true;break;} if(hit){ in[i]=1; ch=true; r.push_back(s.cons[i]); for(u32 x:v) vs.insert(x);} } }
  for(u32 v:vs) if(DB.vars[v].w==8){ auto it=s.dom.find(v); if(it!=s.dom.end()){ Expr*d=domExpr(v,it->second); if(d->k!=KCONST) r.push_back(d); } }
  return r; }
static std::string where(State&s);
static Res query(State&s,Expr*c,std::vector<std::pair<u32,u64>>*m){ static bool tq=getenv("SYMX_TRACEQ"); if(tq){ std::string w=where(s); fprintf(stderr,"Q %s\n   vars=",w.substr(0,300).c_str()); for(u32 v:DB.varsOf(c)) fprintf(stderr,"%s ",DB.vars[v].name.c_str()); fprintf(stderr,"\n"); } auto sl=slice(s,c); sl.push_back(c); SOL->digs=&s.digs; SOL->reads.clear(); for(auto&T:s.tokens) if(T.read!=T.val) SOL->reads.push_back({T.val,T.read,T.w,T.prec,T.cv}); Res r=SOL->check(sl,m); if(r==UNKNOWN_) throw Incomplete{"solver returned unknown"}; return r; }
struct Range{ bool ok; u128 lo,hi; };
static Range rangeU(State&s,Expr*e){ u128 m=MASK(e->w); if(e->k==KCONST) return {true,CV(e),CV(e)}; auto&vs=DB.varsOf(e);
  if(vs.size()==1&&DB.vars[vs[0]].w==8&&e->size<40){ u32 v=vs[0]; auto d=domOf(s,v); u64 save=DB.assign[v]; u128 lo=m,hi=0; for(int i=d._Find_first();i<256;i=d._Find_next(i)){ DB.assign[v]=i; DB.epoch++; u128 x=DB.eval(e); if(x<lo) lo=x; if(x>hi) hi=x; } DB.assign[v]=save; DB.epoch++; return {lo<=hi,lo,hi}; }
  if(e->w>64||e->size>400) return {false,0,m};
  if(e->k==KZEXT) return rangeU(s,e->a); if(e->k==KADD||e->k==KMUL){ Range a=rangeU(s,e->a),b=rangeU(s,e->b); u128 h= e->k==KADD? a.hi+b.hi: a.hi*b.hi; if(a.ok&&b.ok&&h<=m) return {true,e->k==KADD? a.lo+b.lo:a.lo*b.lo,h}; return {false,0,m}; }
  if(e->k==KCONCAT&&CV(e->b)==0&&e->b->k==KCONST){ Range a=rangeU(s,e->a); return {a.ok,a.lo<<e->b->w,a.hi<<e->b->w}; }
  if(e->k==KEXTRACT&&e->c==0){ Range a=rangeU(s,e->a); if(a.ok&&a.hi<=m) return a; }
  return {false,0,m}; }
static int knownVal(State&s,Expr*c){ if(c->k==KCONST) return (int)c->c; auto it=s.known.find(c); if(it!=s.known.end()) return it->second; 
  if(c->k==KXOR&&c->w==1&&c->b->k==KCONST){ it=s.known.find(c->a); if(it!=s.known.end()) return !it->second; }
  if(c->k==KAND&&c->w==1){ int a=knownVal(s,c->a),b=knownVal(s,c->b); if(a==0||b==0) return 0; if(a==1&&b==1) return 1; }
  if(c->k==KOR&&c->w==1){ int a=knownVal(s,c->a),b=knownVal(s,c->b); if(a==1||b==1) return 1; if(a==0&&b==0) return 0; }
  auto&vs=DB.varsOf(c); if(vs.size()==1&&DB.vars[vs[0]].w==8){ auto T=truthSet(c,vs[0]); auto D=domOf(s,vs[0]); if((T&D).none()) return 0; if((D&~T).none()) return 1; return -1; }
  auto kn=[&](Expr*e){ if(e->k==KCONST) return (int)e->c; auto i=s.known.find(e); return i==s.known.end()?-1:(int)i->second; };
  if(c->k==KULT||c->k==KSLT){ int g=kn(DB.bin(c->k,c->b,c->a)),q=kn(DB.eq(c->a,c->b)); if(g==1||q==1) return 0; if(g==0&&q==0) return 1; }
  if(c->k==KEQ&&c->a->w>1) for(Kind k:{KULT,KSLT}){ int l=kn(DB.bin(k,c->a,c->b)),g=kn(DB.bin(k,c->b,c->a)); if(l==1||g==1) return 0; if(l==0&&g==0) return 1; }
  if(c->k==KXOR&&c->w==1&&c->b->k==KCONST){ int k=knownVal(s,c->a); return k<0?k:!k; }
  if((c->k==KULT||c->k==KEQ)&&c->a->w>8&&c->a->w<=64&&vs.size()<=24){ Range x=rangeU(s,c->a),y=rangeU(s,c->b); if(x.ok||y.ok){ if(c->k==KULT){ if(x.hi<y.lo) return 1; if(x.lo>=y.hi) return 0; } else if(x.hi<y.lo||y.hi<x.lo) return 0; } }
  if(vs.size()>1&&vs.size()<=8){ Combos cb(s,c,64); if(cb.ok){ int any=0; cb.run([&]{ any|=(DB.eval(c)&1)?1:2; return any!=3; }); if(any==1) return 1; if(any==2) return 0; } }
  return -1; }
// push a clone of s (at the current instruction) with extra constraint c and model patch
static void forkOther(State&s,Expr*c,const std::vector<std::pair<u32,u64>>&m){
  auto n=std::make_unique<State>(s); for(auto&p:m){ if(n->model.size()<=p.first) n->model.resize(p.first+1,0); n->model[p.first]=p.second; }
  n->forks++; { static bool tf=getenv("SYMX_TRACEF"); if(tf) fprintf(stderr,"F %s\n",where(s).substr(0,400).c_str()); } addCons(*n,c); work.push_back(std::move(n)); ST.forks++; }
static bool branch(State&s,Expr*c){
  int k=knownVal(s,c); if(k>=0){ if(c->k!=KCONST) ST.domDecided++; return k; }
  bool v=evalC(c)&1; Expr*other= v? DB.notE(c):c; Expr*mine= v? c:DB.notE(c);
  auto&vs=DB.varsOf(c);
  if(vs.size()==1&&DB.vars[vs[0]].w==8&&!s.entangled.count(vs[0])){ auto T=truthSet(other,vs[0])&domOf(s,vs[0]); u64 x=T._Find_first(); ST.domForks++; forkOther(s,other,{{vs[0],x}}); addCons(s,mine); return v; }
  std::vector<std::pair<u32,u64>> m; if(query(s,other,&m)==SAT_) { forkOther(s,other,m); addCons(s,mine); } else { s.known[mine]=true; s.known[DB.notE(mine)]=false; }
  return v; }
static u64 concretize(State&s,const Val&v,unsigned w){ if(!v.e) return v.c; u64 x=evalC(v.e); Expr*c=DB.eq(v.e,DB.K(x,w)); if(branch(s,c)) return x; throw Incomplete{"concretize"}; }
static void assume(State&s,Expr*c){ int k=knownVal(s,c); if(k==1) return; if(k==0) throw KillPath{"assume"}; if(evalC(c)&1){ addCons(s,c); return; }
  std::vector<std::pair<u32,u64>> m; if(query(s,c,&m)!=SAT_) throw KillPath{"assume"}; for(auto&p:m) s.model[p.first]=p.second; addCons(s,c); useState(s); }

// ---------------------------------------------------------------- memory
static u64 newObj(State&s,u64 size,OKind k,const char*name,bool uninit,u8 how=0){ if(size>=(1u<<OBJSHIFT)) throw Unsupported{"allocation too large"}; auto o=std::make_shared<MemObj>(); o->size=size;o->kind=k;o->name=name;o->how=how;o->b.assign(size,0); if(uninit&&size){ o->s.assign(size,UNINIT); o->nsym=size; } return s.mem.add(o)<<OBJSHIFT; }
static inline void setByteC(MemObj*o,u64 i,u8 v){ o->b[i]=v; if(o->nsym&&o->s[i]){ o->s[i]=nullptr; if(--o->nsym==0) o->s.clear(); } }
static inline void setByteE(MemObj*o,u64 i,Expr*e){ if(e!=UNINIT&&e->k==KCONST){ setByteC(o,i,(u8)e->c); return; } if(o->s.empty()) o->s.assign(o->size,nullptr); if(!o->s[i]) o->nsym++; o->s[i]=e; }
static std::string where(State&s){ std::string r; for(int i=(int)s.fr.size()-1,n=0;i>=0&&n<12;i--,n++){ Frame&f=s.fr[i]; Instruction*I=f.f->code[f.pc].I; r+=demangle(f.f->name); if(auto&d=I->getDebugLoc()){ r+=" at "; r+=cast<DIScope>(d.getScope())->getFilename(); r+=":"+std::to_string(d.getLine()); } r+=" <- "; } return r; }
// resolve a pointer for an access of n bytes: returns object id and offset value
static MemObj* resolve(State&s,const Val&p,u64 n,bool write,u64&id,Val&off){
  u64 a=p.e? evalC(p.e):p.c; id=a>>OBJSHIFT; u64 o=a&((1u<<OBJSHIFT)-1); MemObj*m=s.mem.get(id);
  std::string bad; if(a<4096) bad="null-pointer access"; else if(!m) bad="access through invalid or dangling pointer"; else if(m->kind==OFREED) bad="use after free"; else if(m->kind==OFUNC) bad="data access to function"; else if(o+n>m->size) bad="out-of-bounds access"; else if(write&&m->kind==OCONST) bad="write to constant";
  if(!bad.empty()){
    if(p.e&&p.e->k!=KCONST){ // other values of the pointer may be fine: explore them too
      if(m&&m->kind!=OFREED&&m->kind!=OFUNC&&o+n>m->size&&m->size>=n){ Expr*inb=DB.bin(KULE,DB.bin(KSUB,p.e,DB.K(id<<OBJSHIFT,64)),DB.K(m->size-n,64)); std::vector<std::pair<u32,u64>> mm; if(knownVal(s,inb)!=0&&query(s,inb,&mm)==SAT_) forkOther(s,inb,mm); } }
    throw PathError{"memory",bad+" ("+std::to_string(n)+" bytes at offset "+std::to_string((i64)o)+(m?std::string(" of ")+(m->kind==OHEAP?"heap":m->kind==OSTACK?"stack":m->kind==OFREED?"freed":"global")+" object "+m->name+" size "+std::to_string(m->size):std::string(""))+")"}; }
  if(p.e){ Expr*of=DB.bin(KSUB,p.e,DB.K(id<<OBJSHIFT,64)); Expr*inb=DB.bin(KULE,of,DB.K(m->size-n,64)); branch(s,inb); /* model satisfies inb */ off=EVal(of); }
  else off=CVal(o);
  return m; }
// Two work units that touch the same byte, one of them writing, outside of rt/ functions, atomic operations,
// initialisation of statics and locked mutexes: a data race (work units are not ordered among themselves).
static void noteAccess(State&s,u64 id,u64 off,u64 n,bool write){
  if(id>=s.unitFrom||s.racePause||s.fr.size()<=s.unitDepth) return; MemObj*m=s.mem.get(id); if(!m||m->kind==OCONST) return;
  for(size_t i=s.unitDepth;i<s.fr.size();i++) if(s.fr[i].f->rt) return;
  Instruction*I=s.fr.back().f->code[s.fr.back().pc].I; if(I->isAtomic()) return;
  if(!s.acc) s.acc=std::make_shared<std::unordered_map<u64,u32>>(); else if(s.acc.use_count()>1) s.acc=std::make_shared<std::unordered_map<u64,u32>>(*s.acc);
  u32 me=(u32)s.unit+1; for(u64 i=0;i<n;i++){ u32&a=(*s.acc)[(id<<OBJSHIFT)|(off+i)]; u32 r=a&0xffff,w=a>>16; // reader (0xffff: several), writer
    if((w&&w!=me)||(write&&r&&r!=me)) throw PathError{"race","two work units access the same memory and one of them writes it ("+std::string(m->kind==OHEAP?"heap":m->kind==OSTACK?"stack":"global")+" object "+m->name+")"};
    if(write) w=me; else r= r&&r!=me? 0xffff: me; a=r|(w<<16); } }
static Expr* byteAt(State&s,u64 id,u64 i){ MemObj*m=s.mem.get(id); if(m->nsym&&m->s[i]){ if(m->s[i]==UNINIT){ Expr*v=freshVar(s,"uninit",8,(u64)0xA5); setByteE(s.mem.wget(id),i,v); return v; } return m->s[i]; } return DB.K(m->b[i],8); }
static Val loadC(State&s,u64 id,u64 off,unsigned nb){ MemObj*m=s.mem.get(id); bool sym=false; if(m->nsym) for(unsigned i=0;i<nb;i++) if(m->s[off+i]){sym=true;break;}
  if(!sym&&nb<=8){ u64 v=0; memcpy(&v,&m->b[off],nb); return CVal(v);} Expr*e=byteAt(s,id,off); for(unsigned i=1;i<nb;i++) e=DB.concat(byteAt(s,id,off+i),e); return EVal(e); }
struct MuxKey{u64 id;u32 nb;Expr*e; bool operator<(const MuxKey&o)const{ return std::tie(id,nb,e)<std::tie(o.id,o.nb,o.e); } }; static std::map<MuxKey,Expr*> muxMemo;
static Val load(State&s,const Val&p,unsigned nb){ u64 id; Val off; MemObj*m=resolve(s,p,nb,false,id,off); if(s.unit>=0) noteAccess(s,id,off.e?0:off.c,off.e?m->size:nb,false); if(!off.e) return loadC(s,id,off.c,nb);
  if(m->size>4096) { u64 o=concretize(s,off,64); return loadC(s,id,o,nb); }
  bool memo=m->kind==OCONST; MuxKey key{id,nb,off.e}; if(memo){ auto it=muxMemo.find(key); if(it!=muxMemo.end()) return EVal(it->second); }
  u64 n=m->size-nb+1; unsigned al=0; Expr*o=off.e; while(al<3){ Expr*b=DB.extract(o,al,1); if(b->k==KCONST&&b->c==0) al++; else break; }
  u64 cnt=(n+(1u<<al)-1)>>al; unsigned bits=0; while((1ull<<bits)<cnt) bits++; Expr*so=al?DB.extract(o,al,64-al):o;
  std::function<Expr*(u64,unsigned)> rec=[&](u64 lo,unsigned bit)->Expr*{ if(lo>=cnt) return nullptr; if(bit==0) return X(loadC(s,id,lo<<al,nb),nb*8); Expr*l=rec(lo,bit-1),*h=rec(lo+(1ull<<(bit-1)),bit-1); if(!h) return l; return DB.ite(DB.extract(so,bit-1,1),h,l); };
  Expr*r=rec(0,bits); if(memo) muxMemo[key]=r; return EVal(r); }
static void storeC(State&s,u64 id,u64 off,const Val&v,unsigned nb){ MemObj*m=s.mem.wget(id); if(!v.e){ if(!m->nsym){ if(nb<=8) memcpy(&m->b[off],&v.c,nb); else { memset(&m->b[off],0,nb); memcpy(&m->b[off],&v.c,8);} } else for(unsigned i=0;i<nb;i++) setByteC(m,off+i,i<8?(u8)(v.c>>(8*i)):0); }
  else for(unsigned i=0;i<nb;i++){ unsigned w=v.e->w; Expr*e= 8*i+8<=w? DB.extract(v.e,8*i,8): 8*i<w? DB.zext(DB.extract(v.e,8*i,w-8*i),8):DB.K(0,8); setByteE(m,off+i,e);} }
static void store(State&s,const Val&p,const Val&v,unsigned nb){ u64 id; Val off; MemObj*m=resolve(s,p,nb,true,id,off); if(s.unit>=0&&!off.e) noteAccess(s,id,off.c,nb,true); if(!off.e){ storeC(s,id,off.c,v,nb); return; }
  if(nb>1||m->size>512){ u64 o=concretize(s,off,64); storeC(s,id,o,v,nb); return; }
  Expr*nv=X(v,8); u64 n=m->size; for(u64 i=0;i<n;i++){ Expr*old=byteAt(s,id,i); setByteE(s.mem.wget(id),i,DB.ite(DB.eq(off.e,DB.K(i,64)),nv,old)); } }
static void copyBytes(State&s,const Val&d,const Val&sr,u64 n){ if(!n) return; u64 di,si; Val doff,soff; resolve(s,sr,n,false,si,soff); resolve(s,d,n,true,di,doff); u64 so=concretize(s,soff,64),dof=concretize(s,doff,64); if(s.unit>=0){ noteAccess(s,si,so,n,false); noteAccess(s,di,dof,n,true); }
  MemObj*S=s.mem.get(si); MemObj*D=s.mem.wget(di); S=s.mem.get(si);
  if(!S->nsym&&!D->nsym){ memmove(&D->b[dof],&S->b[so],n); return; }
  std::vector<u8> tb(S->b.begin()+so,S->b.begin()+so+n); std::vector<Expr*> ts; if(S->nsym) ts.assign(S->s.begin()+so,S->s.begin()+so+n);
  for(u64 i=0;i<n;i++){ if(!ts.empty()&&ts[i]) setByteE(D,dof+i,ts[i]); else setByteC(D,dof+i,tb[i]); } }

// ---------------------------------------------------------------- constants
static u64 addrOf(const GlobalValue*g){ auto it=gaddr.find(g); if(it==gaddr.end()) { if(auto*a=dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(a->getAliasee()->stripPointerCasts())); throw Unsupported{"unknown global "+g->getName().str()}; } return it->second; }
static Val evalConst(const Constant*c);
static Val evalCE(const ConstantExpr*ce){
  switch(ce->getOpcode()){
  case Instruction::GetElementPtr:{ APInt o(64,0); auto*g=cast<GEPOperator>(ce); if(!g->accumulateConstantOffset(*DL,o)) throw Unsupported{"const gep"}; return CVal(evalConst(cast<Constant>(ce->getOperand(0))).c+o.getZExtValue()); }
  case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: { Val v=evalConst(ce->getOperand(0)); unsigned w=widthOf(ce->getType()); v.c&=(u64)MASK(w); return v; }
  case Instruction::Trunc:{ Val v=evalConst(ce->getOperand(0)); v.c&=(u64)MASK(widthOf(ce->getType())); return v; }
  case Instruction::Add: return CVal(evalConst(ce->getOperand(0)).c+evalConst(ce->getOperand(1)).c);
  case Instruction::Sub: return CVal((evalConst(ce->getOperand(0)).c-evalConst(ce->getOperand(1)).c)&(u64)MASK(widthOf(ce->getType())));
  case Instruction::ICmp: { auto p=ce->getPredicate(); u64 a=evalConst(ce->getOperand(0)).c,b=evalConst(ce->getOperand(1)).c; return CVal(p==ICmpInst::ICMP_EQ? a==b: p==ICmpInst::ICMP_NE? a!=b: throw Unsupported{"const icmp"}); }
  default: throw Unsupported{std::string("constexpr ")+ce->getOpcodeName()}; } }
static std::vector<Val>* newAgg(size_t n){ return new std::vector<Val>(n); }
static Val evalConst(const Constant*c){
  if(auto*i=dyn_cast<ConstantInt>(c)){ if(i->getBitWidth()<=64) return CVal(i->getZExtValue()); APInt v=i->getValue(); u128 x=v.extractBitsAsZExtValue(64,0)|((u128)v.extractBitsAsZExtValue(i->getBitWidth()-64,64)<<64); Val r; r.e=DB.K(x,i->getBitWidth()); return r; }
  if(auto*f=dyn_cast<ConstantFP>(c)) { if(c->getType()->isX86_FP80Ty()){ APInt b=f->getValueAPF().bitcastToAPInt(); return EVal(DB.K(((u128)b.extractBitsAsZExtValue(16,64)<<63)|(b.extractBitsAsZExtValue(64,0)&0x7fffffffffffffffull),79)); } return CVal(f->getValueAPF().bitcastToAPInt().getZExtValue()); }
  if(isa<ConstantPointerNull>(c)) return CVal(0);
  if(auto*g=dyn_cast<GlobalValue>(c)) return CVal(addrOf(g));
  if(auto*ce=dyn_cast<ConstantExpr>(c)) return evalCE(ce);
  if(isa<UndefValue>(c)){ if(c->getType()->isAggregateType()){ unsigned n=c->getType()->isStructTy()? c->getType()->getStructNumElements():c->getType()->getArrayNumElements(); Val v; v.c=(u64)newAgg(n); return v;} return CVal(0); }
  if(isa<ConstantAggregateZero>(c)||isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantDataSequential>(c)){ unsigned n=c->getType()->isStructTy()? c->getType()->getStructNumElements():c->getType()->getArrayNumElements(); auto*a=newAgg(n); for(unsigned i=0;i<n;i++) (*a)[i]=evalConst(c->getAggregateElement(i)); Val v; v.c=(u64)a; return v; }
  throw Unsupported{"constant"}; }
static Val mem80(Expr*e){ Expr*se=DB.extract(e,63,16); Val v; v.e=DB.concat(se,DB.concat(DB.notE(DB.eq(DB.extract(se,0,15),DB.K(0,15))),DB.extract(e,0,63))); return v; }
static void initMem(MemObj&o,u64 off,const Constant*c){
  Type*t=c->getType();
  if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)) return;
  if(auto*cs=dyn_cast<ConstantDataSequential>(c)){ StringRef d=cs->getRawDataValues(); memcpy(&o.b[off],d.data(),d.size()); return; }
  if(isa<ConstantArray>(c)||isa<ConstantVector>(c)){ u64 es=DL->getTypeAllocSize(t->isArrayTy()? t->getArrayElementType():cast<VectorType>(t)->getElementType()); for(unsigned i=0;i<c->getNumOperands();i++) initMem(o,off+i*es,cast<Constant>(c->getOperand(i))); return; }
  if(isa<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<c->getNumOperands();i++) initMem(o,off+sl->getElementOffset(i),cast<Constant>(c->getOperand(i))); return; }
  Val v=evalConst(c); if(t->isX86_FP80Ty()) v=mem80(X(v,79)); unsigned nb=DL->getTypeStoreSize(t); if(v.e){ for(unsigned i=0;i<nb;i++) o.b[off+i]=(u8)(CV(v.e)>>(8*i)); } else memcpy(&o.b[off],&v.c,std::min(nb,8u)); }

// ---------------------------------------------------------------- translation
static FInfo* getF(Function*F){
  auto it=finfo.find(F); if(it!=finfo.end()) return it->second;
  auto*fi=new FInfo; fi->F=F; fi->name=F->getName().str(); finfo[F]=fi;
  if(auto*sp=F->getSubprogram()){ std::string fn=sp->getFilename().str(); if(fn.compare(0,repoPrefix.size(),repoPrefix)==0) fi->repo=true; if(fn.find("/rt/")!=std::string::npos) fi->rt=true; }
  int n=0; for(auto&a:F->args()) fi->slot[&a]=n++;
  for(auto&B:*F) for(auto&I:B) if(!I.getType()->isVoidTy()) fi->slot[&I]=n++;
  fi->nregs=n;
  for(auto&B:*F){ int idx=fi->bbs.size(); fi->bbidx[&B]=idx; fi->bbs.push_back({(int)fi->code.size(),0}); bool phis=true; for(auto&I:B){ if(isa<DbgInfoIntrinsic>(I)) continue; if(auto*ii=dyn_cast<IntrinsicInst>(&I)){ auto id=ii->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl) continue; }
      if(phis&&!isa<PHINode>(I)){ fi->bbs[idx].firstNonPhi=fi->code.size(); phis=false; } IInst x; x.I=&I; x.opc=I.getOpcode(); x.dst=I.getType()->isVoidTy()?-1:fi->slot[&I]; x.w=widthOf(I.getType()); x.nops=0; x.ops=nullptr; fi->code.push_back(x); } }
  for(auto&x:fi->code){ Instruction*I=x.I; x.repo=fi->repo; std::vector<Value*> ov; 
    if(auto*cb=dyn_cast<CallBase>(I)){ for(auto&a:cb->args()) ov.push_back(a.get()); if(auto*cf=dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts())) x.callee=cf; else if(auto*al=dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) { x.callee=dyn_cast<Function>(al->getAliaseeObject()); ov.push_back(cb->getCalledOperand()); } else ov.push_back(cb->getCalledOperand());
      if(x.callee){ std::string nm=x.callee->getName().str(); auto b=builtins.find(nm); if(b!=builtins.end()) x.bi=&b->second; else if(x.callee->isIntrinsic()){ size_t p; std::string q=nm; while(true){ b=builtins.find(q); if(b!=builtins.end()){ x.bi=&b->second; break;} p=q.rfind('.'); if(p==std::string::npos||p<5) break; q=q.substr(0,p);} } } 
      if(auto*iv=dyn_cast<InvokeInst>(I)){ x.t1=fi->bbidx[iv->getNormalDest()]; x.t2=fi->bbidx[iv->getUnwindDest()]; } }
    else if(auto*br=dyn_cast<BranchInst>(I)){ if(br->isConditional()){ ov.push_back(br->getCondition()); x.t1=fi->bbidx[br->getSuccessor(0)]; x.t2=fi->bbidx[br->getSuccessor(1)]; } else x.t1=fi->bbidx[br->getSuccessor(0)]; }
    else if(isa<PHINode>(I)||isa<LandingPadInst>(I)||isa<SwitchInst>(I)){ for(auto&o:I->operands()) ov.push_back(o.get()); }
    else for(auto&o:I->operands()) ov.push_back(o.get());
    x.nops=ov.size(); x.ops=new Operand[ov.size()+1];
    for(unsigned i=0;i<ov.size();i++){ Value*v=ov[i]; x.ops[i].slot=-1; auto sl=fi->slot.find(v); if(sl!=fi->slot.end()) x.ops[i].slot=sl->second; else if(isa<BasicBlock>(v)||isa<MetadataAsValue>(v)||isa<InlineAsm>(v)) {} else if(auto*c=dyn_cast<Constant>(v)){ if(isa<UndefValue>(c)&&!c->getType()->isAggregateType()) x.ops[i].slot=-2; else if(c->getType()->isVectorTy()) x.ops[i].slot=-3; else x.ops[i].v=evalConst(c); } }
    if(auto*g=dyn_cast<GetElementPtrInst>(I)){ x.scales=new i64[ov.size()+1]; x.iw=new unsigned[ov.size()+1]; i64 cst=0; unsigned k=1; for(auto gi=gep_type_begin(g),ge=gep_type_end(g);gi!=ge;++gi,++k){ Value*idx=gi.getOperand(); x.scales[k]=0; if(auto*st=gi.getStructTypeOrNull()){ cst+=DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); } else { i64 sz=DL->getTypeAllocSize(gi.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(idx)) cst+=ci->getSExtValue()*sz; else { x.scales[k]=sz; x.iw[k]=widthOf(idx->getType()); } } } x.gepc=cst; }
  }
  return fi; }

static Val getOp(State&s,const Frame&f,const Operand&o,unsigned w){ if(o.slot>=0) return f.regs[o.slot]; if(o.slot==-2){ return EVal(freshVar(s,"undef",w?w:64,0)); } if(o.slot==-3) throw Unsupported{"vector operand"}; return o.v; }
#define OPV(i) getOp(s,f,x.ops[i],widthOf(x.I->getOperand(i)->getType()))
static void pushFrame(State&s,Function*F,const Val*args,unsigned n,int retdst,bool inv){
  if(F->isDeclaration()) throw Unsupported{"call to undefined function "+demangle(F->getName().str())};
  if(s.fr.size()>2000) throw PathError{"recursion","call depth exceeds 2000"};
  FInfo*fi=getF(F); fi->hits++; s.fr.emplace_back(); Frame&f=s.fr.back(); f.f=fi; f.regs.resize(fi->nregs); for(unsigned i=0;i<n&&i<F->arg_size();i++) f.regs[i]=args[i]; f.bb=0; f.pc=fi->bbs[0].first; f.retdst=retdst; f.isInvoke=inv; 
  // byval arguments are copied
  for(unsigned i=0;i<F->arg_size();i++) if(F->getArg(i)->hasByValAttr()){ u64 sz=DL->getTypeAllocSize(F->getParamByValType(i)); u64 a=newObj(s,sz,OSTACK,"byval",true); copyBytes(s,CVal(a),f.regs[i],sz); s.fr.back().regs[i]=CVal(a); s.fr.back().allocas.push_back(a>>OBJSHIFT); } }
static void gotoBB(State&s,int t){ Frame&f=s.fr.back(); FInfo*fi=f.f; int from=f.bb; BInfo&b=fi->bbs[t]; int n=b.firstNonPhi-b.first; if(n>0){ Val tmp[32]; std::vector<Val> big; Val*p=tmp; if(n>32){big.resize(n);p=big.data();} for(int i=0;i<n;i++){ IInst&x=fi->code[b.first+i]; auto*ph=cast<PHINode>(x.I); unsigned k=0; for(;k<ph->getNumIncomingValues();k++) if(fi->bbidx[ph->getIncomingBlock(k)]==from) break; p[i]=getOp(s,f,x.ops[k],x.w); } for(int i=0;i<n;i++) f.regs[fi->code[b.first+i].dst]=p[i]; } f.bb=t; f.pc=b.firstNonPhi; }
static void popFrame(State&s){ Frame&f=s.fr.back(); for(u64 id:f.allocas) s.mem.drop(id); s.fr.pop_back(); }

// ---------------------------------------------------------------- RTTI / exceptions
struct TI{ std::vector<std::pair<GlobalVariable*,i64>> bases; bool virt=false; };
static GlobalVariable* gvAt(u64 addr){ static std::unordered_map<u64,GlobalVariable*> m; if(m.empty()) for(auto&g:M->globals()) { auto it=gaddr.find(&g); if(it!=gaddr.end()) m[it->second]=&g; } auto it=m.find(addr&~(u64)((1u<<OBJSHIFT)-1)); return it==m.end()?nullptr:it->second; }
static std::vector<std::tuple<GlobalVariable*,i64,bool>> tiBases(GlobalVariable*g){ std::vector<std::tuple<GlobalVariable*,i64,bool>> r; if(!g->hasInitializer()) return r; auto*cs=dyn_cast<ConstantStruct>(g->getInitializer()); if(!cs) return r; std::string vt; if(auto*v=dyn_cast<GlobalVariable>(cs->getOperand(0)->stripInBoundsConstantOffsets())) vt=v->getName().str(); 
  if(vt=="_ZTVN10__cxxabiv120__si_class_type_infoE") r.push_back({cast<GlobalVariable>(cs->getOperand(2)->stripPointerCasts()),0,false});
  else if(vt=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") for(unsigned i=4;i+1<cs->getNumOperands();i+=2){ i64 of=cast<ConstantInt>(cs->getOperand(i+1))->getSExtValue(); r.push_back({cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts()),of>>8,of&1}); }
  return r; }
static bool sameTI(GlobalVariable*a,GlobalVariable*b){ return a==b||a->getName()==b->getName(); }
// is `d` (at address obj) convertible to base `b`?  adds the adjustment
static bool upcast(State&s,GlobalVariable*d,GlobalVariable*b,u64&obj){ if(sameTI(d,b)) return true; for(auto&[g,of,virt]:tiBases(d)){ u64 o=obj; if(virt){ Val vp=load(s,CVal(o),8); Val vo=load(s,CVal(vp.c+of),8); o+=vo.c; } else o+=of; if(upcast(s,g,b,o)){ obj=o; return true; } } return false; }
static int catchMatch(State&s,GlobalVariable*c,u64 ti,u64 exc,u64&adj){ GlobalVariable*t=gvAt(ti); adj=exc; if(!t||!c) return 0; return upcast(s,t,c,adj); }
static bool hasHandler(State&s){ for(int i=(int)s.fr.size()-1;i>0;i--){ if(!s.fr[i].isInvoke) continue; Frame&c=s.fr[i-1]; IInst&x=c.f->code[c.pc]; auto*iv=cast<InvokeInst>(x.I); auto*lp=iv->getUnwindDest()->getLandingPadInst(); for(unsigned k=0;k<lp->getNumClauses();k++) if(lp->isCatch(k)){ auto*cl=lp->getClause(k)->stripPointerCasts(); if(isa<ConstantPointerNull>(cl)) return true; u64 adj; if(catchMatch(s,cast<GlobalVariable>(cl),s.excTI,s.excObj,adj)) return true; } else return true; } return false; }
static void unwind(State&s){ // current frame top is the frame whose call threw (callee frames already popped)
  while(true){ if(s.fr.size()<=1){ throw PathError{"terminate","exception escapes the entry function"}; }
    bool inv=s.fr.back().isInvoke; popFrame(s); Frame&f=s.fr.back(); if(!inv) continue; IInst&x=f.f->code[f.pc]; gotoBB(s,x.t2); return; } }
static std::string tiName(u64 ti){ GlobalVariable*g=gvAt(ti); if(!g) return "?"; std::string n=g->getName().str(); return n.size()>4? demangle("_Z"+n.substr(4)):n; }
static void doThrow(State&s,u64 obj,u64 ti){ s.excObj=obj; s.excTI=ti; s.excAdj=obj; if(!hasHandler(s)) throw PathError{"terminate","uncaught exception of type "+tiName(ti)};
  Frame&f=s.fr.back(); IInst&x=f.f->code[f.pc]; // the throwing call itself may be an invoke in this frame
  if(isa<InvokeInst>(x.I)) gotoBB(s,x.t2); else unwind(s); }

// ---------------------------------------------------------------- instruction semantics
static Val binop(Kind k,unsigned w,const Val&a,const Val&b){ if(!a.e&&!b.e&&w<=64) { return CVal((u64)evalOp(k,w,w,a.c,b.c,0,0)); } Expr*r=DB.bin(k,X(a,w),X(b,w)); if(k==KADD&&CUR&&!CUR->subst.empty()) for(auto&p:CUR->subst) if(p.first==r) return EVal(p.second); return EVal(r); }
static Val icmp(unsigned p,unsigned w,const Val&a,const Val&b){
  if(!a.e&&!b.e){ u64 m=(u64)MASK(w); u64 x=a.c&m,y=b.c&m; i64 sx=(i64)SX(x,w),sy=(i64)SX(y,w); switch(p){case CmpInst::ICMP_EQ:return CVal(x==y);case CmpInst::ICMP_NE:return CVal(x!=y);case CmpInst::ICMP_UGT:return CVal(x>y);case CmpInst::ICMP_UGE:return CVal(x>=y);case CmpInst::ICMP_ULT:return CVal(x<y);case CmpInst::ICMP_ULE:return CVal(x<=y);case CmpInst::ICMP_SGT:return CVal(sx>sy);case CmpInst::ICMP_SGE:return CVal(sx>=sy);case CmpInst::ICMP_SLT:return CVal(sx<sy);default:return CVal(sx<=sy);} }
  Expr*x=X(a,w),*y=X(b,w); switch(p){case CmpInst::ICMP_EQ:return EVal(DB.eq(x,y));case CmpInst::ICMP_NE:return EVal(DB.notE(DB.eq(x,y)));case CmpInst::ICMP_UGT:return EVal(DB.bin(KULT,y,x));case CmpInst::ICMP_UGE:return EVal(DB.bin(KULE,y,x));case CmpInst::ICMP_ULT:return EVal(DB.bin(KULT,x,y));case CmpInst::ICMP_ULE:return EVal(DB.bin(KULE,x,y));case CmpInst::ICMP_SGT:return EVal(DB.bin(KSLT,y,x));case CmpInst::ICMP_SGE:return EVal(DB.bin(KSLE,y,x));case CmpInst::ICMP_SLT:return EVal(DB.bin(KSLT,x,y));default:return EVal(DB.bin(KSLE,x,y));} }
static Val fcmp(unsigned p,unsigned w,const Val&a,const Val&b){ Expr*x=X(a,w),*y=X(b,w); auto un=[&]{ return DB.orE(DB.un(KFNAN,x,1),DB.un(KFNAN,y,1)); };
  Expr*eq=DB.bin(KFEQ,x,y),*lt=DB.bin(KFLT,x,y),*gt=DB.bin(KFLT,y,x),*le=DB.bin(KFLE,x,y),*ge=DB.bin(KFLE,y,x);
  switch(p){case CmpInst::FCMP_FALSE:return CVal(0);case CmpInst::FCMP_TRUE:return CVal(1);case CmpInst::FCMP_OEQ:return EVal(eq);case CmpInst::FCMP_OGT:return EVal(gt);case CmpInst::FCMP_OGE:return EVal(ge);case CmpInst::FCMP_OLT:return EVal(lt);case CmpInst::FCMP_OLE:return EVal(le);
  case CmpInst::FCMP_ONE:return EVal(DB.orE(lt,gt));case CmpInst::FCMP_ORD:return EVal(DB.notE(un()));case CmpInst::FCMP_UNO:return EVal(un());case CmpInst::FCMP_UEQ:return EVal(DB.notE(DB.orE(lt,gt)));case CmpInst::FCMP_UGT:return EVal(DB.notE(le));case CmpInst::FCMP_UGE:return EVal(DB.notE(lt));case CmpInst::FCMP_ULT:return EVal(DB.notE(ge));case CmpInst::FCMP_ULE:return EVal(DB.notE(gt));default:return EVal(DB.notE(eq));} }

static u64 cstOff(State&s,const Val&o){ return o.e? concretize(s,o,64):o.c; }
static void loadTyped(State&s,Type*t,const Val&p,Val&r);
static Val pplus(const Val&p,u64 o){ return p.e? EVal(DB.bin(KADD,p.e,DB.K(o,64))):CVal(p.c+o); }
static void loadTyped(State&s,Type*t,const Val&p,Val&r){ if(t->isStructTy()){ auto*st=cast<StructType>(t); auto*sl=DL->getStructLayout(st); auto*a=newAgg(st->getNumElements()); for(unsigned i=0;i<st->getNumElements();i++) loadTyped(s,st->getElementType(i),pplus(p,sl->getElementOffset(i)),(*a)[i]); r=Val(); r.c=(u64)a; return; }
  if(t->isArrayTy()){ u64 es=DL->getTypeAllocSize(t->getArrayElementType()); unsigned n=t->getArrayNumElements(); auto*a=newAgg(n); for(unsigned i=0;i<n;i++) loadTyped(s,t->getArrayElementType(),pplus(p,i*es),(*a)[i]); r=Val(); r.c=(u64)a; return; }
  unsigned w=widthOf(t); if(!w) throw Unsupported{"load of unsupported type"}; if(w==79){ Expr*e=X(load(s,p,10),80); r=EVal(DB.concat(DB.extract(e,64,16),DB.extract(e,0,63))); return; } unsigned nb=(w+7)/8; Val v; if(p.e&&t->isPointerTy()){ u64 id; Val off; resolve(s,p,nb,false,id,off); v=load(s,CVal(id<<OBJSHIFT|cstOff(s,off)),nb); } else v=load(s,p,nb); if(w%8){ if(v.e) v=EVal(DB.extract(v.e,0,w)); else v.c&=(u64)MASK(w);} r=v; }
static void storeTyped(State&s,Type*t,const Val&p,const Val&v){ if(t->isStructTy()){ auto*st=cast<StructType>(t); auto*sl=DL->getStructLayout(st); auto*a=(std::vector<Val>*)v.c; for(unsigned i=0;i<st->getNumElements();i++) storeTyped(s,st->getElementType(i),pplus(p,sl->getElementOffset(i)),(*a)[i]); return; }
  if(t->isArrayTy()){ u64 es=DL->getTypeAllocSize(t->getArrayElementType()); auto*a=(std::vector<Val>*)v.c; for(unsigned i=0;i<a->size();i++) storeTyped(s,t->getArrayElementType(),pplus(p,i*es),(*a)[i]); return; }
  unsigned w=widthOf(t); if(!w) throw Unsupported{"store of unsupported type"}; if(w==79){ store(s,p,mem80(X(v,79)),10); return; } store(s,p,v,(w+7)/8); }

static void ovCheck(State&s,IInst&x,Kind k,unsigned w,const Val&a,const Val&b){ // signed overflow in repo code
  Expr*A=DB.sext(X(a,w),w+(k==KMUL?w:1)),*B=DB.sext(X(b,w),w+(k==KMUL?w:1)); if(A->w>128) return; Expr*R=DB.bin(k,A,B); Expr*bad=DB.notE(DB.eq(R,DB.sext(DB.extract(R,0,w),R->w))); if(bad->k==KCONST){ if(bad->c) throw PathError{"overflow","signed integer overflow"}; return; } if(branch(s,bad)) throw PathError{"overflow","signed integer overflow"}; }

static bool step(State&s){ // execute one instruction; returns false when the entry function returned
  Frame&f=s.fr.back(); IInst&x=f.f->code[f.pc]; Instruction*I=x.I;
  s.instrs++; ST.instrs++; if(x.repo) ST.repoInstrs++;
  if(s.instrs>maxInstr) throw PathError{"nontermination","instruction bound exceeded on this path ("+std::to_string(maxInstr)+")"};
  auto setR=[&](const Val&v){ f.regs[x.dst]=v; f.pc++; };
  switch(x.opc){
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    static const std::map<unsigned,Kind> km={{Instruction::Add,KADD},{Instruction::Sub,KSUB},{Instruction::Mul,KMUL},{Instruction::And,KAND},{Instruction::Or,KOR},{Instruction::Xor,KXOR},{Instruction::Shl,KSHL},{Instruction::LShr,KLSHR},{Instruction::AShr,KASHR}};
    Kind k; switch(x.opc){case Instruction::Add:k=KADD;break;case Instruction::Sub:k=KSUB;break;case Instruction::Mul:k=KMUL;break;case Instruction::And:k=KAND;break;case Instruction::Or:k=KOR;break;case Instruction::Xor:k=KXOR;break;case Instruction::Shl:k=KSHL;break;case Instruction::LShr:k=KLSHR;break;default:k=KASHR;}
    if(!x.w) throw Unsupported{"vector arithmetic"}; Val a=OPV(0),b=OPV(1); if(checkOverflow&&x.repo&&(k==KADD||k==KSUB||k==KMUL)&&x.w>=32&&cast<OverflowingBinaryOperator>(I)->hasNoSignedWrap()) ovCheck(s,x,k,x.w,a,b); setR(binop(k,x.w,a,b)); return true; }
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: { Val a=OPV(0),b=OPV(1); if(b.e? branch(s,DB.eq(b.e,DB.K(0,x.w))):b.c==0) throw PathError{"arith","division by zero"}; Kind k=x.opc==Instruction::UDiv?KUDIV:x.opc==Instruction::SDiv?KSDIV:x.opc==Instruction::URem?KUREM:KSREM; setR(binop(k,x.w,a,b)); return true; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { if(!x.w) throw Unsupported{"fp type"}; if(x.opc==Instruction::FRem&&(OPV(0).e||OPV(1).e)) throw Unsupported{"fmod"}; Kind k=x.opc==Instruction::FAdd?KFADD:x.opc==Instruction::FSub?KFSUB:x.opc==Instruction::FMul?KFMUL:x.opc==Instruction::FDiv?KFDIV:KFREM; setR(binop(k,x.w,OPV(0),OPV(1))); return true; }
  case Instruction::FNeg: { Val a=OPV(0); setR(EVal(DB.bin(KXOR,X(a,x.w),DB.K((u128)1<<(x.w-1),x.w)))); return true; }
  case Instruction::ICmp: { unsigned w=widthOf(I->getOperand(0)->getType()); if(!w) throw Unsupported{"vector icmp"}; Val a=OPV(0),b=OPV(1); setR(icmp(cast<ICmpInst>(I)->getPredicate(),w,a,b)); return true; }
  case Instruction::FCmp: { unsigned w=widthOf(I->getOperand(0)->getType()); if(!w) throw Unsupported{"fp type"}; Val a=OPV(0),b=OPV(1); setR(fcmp(cast<FCmpInst>(I)->getPredicate(),w,a,b)); return true; }
  case Instruction::Alloca: { auto*ai=cast<AllocaInst>(I); u64 sz=DL->getTypeAllocSize(ai->getAllocatedType()); u64 n=1; if(ai->isArrayAllocation()) n=concretize(s,OPV(0),widthOf(ai->getOperand(0)->getType())); u64 a=newObj(s,sz*n,OSTACK,"alloca",true); f.allocas.push_back(a>>OBJSHIFT); setR(CVal(a)); return true; }
  case Instruction::Load: { Val r; loadTyped(s,I->getType(),OPV(0),r); setR(r); return true; }
  case Instruction::Store: { Val v=OPV(0),p=OPV(1); storeTyped(s,I->getOperand(0)->getType(),p,v); f.pc++; return true; }
  case Instruction::GetElementPtr: { Val b=OPV(0); if(x.I->getType()->isVectorTy()) throw Unsupported{"vector gep"}; Val r=b; if(r.e){ Expr*e=DB.bin(KADD,r.e,DB.K((u64)x.gepc,64)); r=EVal(e);} else r.c+=x.gepc; for(unsigned k=1;k<x.nops;k++) if(x.scales[k]){ Val ix=getOp(s,f,x.ops[k],x.iw[k]); if(!ix.e){ i64 iv=(i64)SX(ix.c,x.iw[k]); if(r.e) r=EVal(DB.bin(KADD,r.e,DB.K((u64)(iv*x.scales[k]),64))); else r.c+=iv*x.scales[k]; } else { Expr*e=DB.sext(ix.e,64); e=DB.bin(KMUL,e,DB.K((u64)x.scales[k],64)); r=EVal(DB.bin(KADD,X(r,64),e)); } } setR(r); return true; }
  case Instruction::Trunc: { Val a=OPV(0); if(!x.w) throw Unsupported{"vec"}; if(a.e) setR(EVal(DB.extract(a.e,0,x.w))); else setR(CVal(a.c&(u64)MASK(x.w))); return true; }
  case Instruction::ZExt: { Val a=OPV(0); if(a.e&&a.e->w==1&&x.w<=64){ auto it=s.known.find(a.e); if(it!=s.known.end()){ setR(CVal(it->second?1:0)); return true; } } if(a.e||x.w>64) setR(EVal(DB.zext(X(a,widthOf(I->getOperand(0)->getType())),x.w))); else setR(a); return true; }
  case Instruction::SExt: { unsigned aw=widthOf(I->getOperand(0)->getType()); Val a=OPV(0); if(a.e||x.w>64) setR(EVal(DB.sext(X(a,aw),x.w))); else setR(CVal((u64)SX(a.c,aw)&(u64)MASK(x.w))); return true; }
  case Instruction::FPExt: { if(!x.w) throw Unsupported{"long double"}; Val a=OPV(0); setR(EVal(DB.un(KFPEXT,X(a,widthOf(I->getOperand(0)->getType())),x.w))); return true; }
  case Instruction::FPTrunc: { unsigned aw=widthOf(I->getOperand(0)->getType()); if(!aw) throw Unsupported{"long double"}; setR(EVal(DB.un(KFPTRUNC,X(OPV(0),aw),x.w))); return true; }
  case Instruction::SIToFP: case Instruction::UIToFP: { if(!x.w) throw Unsupported{"long double"}; unsigned aw=widthOf(I->getOperand(0)->getType()); setR(EVal(DB.un(x.opc==Instruction::SIToFP?KSITOFP:KUITOFP,X(OPV(0),aw),x.w))); return true; }
  case Instruction::FPToSI: case Instruction::FPToUI: { unsigned aw=widthOf(I->getOperand(0)->getType()); if(!aw) throw Unsupported{"long double"}; setR(EVal(DB.un(x.opc==Instruction::FPToSI?KFPTOSI:KFPTOUI,X(OPV(0),aw),x.w))); return true; }
  case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val a=OPV(0); unsigned aw=widthOf(I->getOperand(0)->getType()); if(!x.w||!aw) throw Unsupported{"bitcast type"}; if(x.w!=aw) a= a.e? EVal(x.w<aw?DB.extract(a.e,0,x.w):DB.zext(a.e,x.w)):CVal(a.c&(u64)MASK(x.w)); setR(a); return true; }
  case Instruction::Freeze: { setR(OPV(0)); return true; }
  case Instruction::Select: { Val c=OPV(0); if(!widthOf(I->getOperand(0)->getType())) throw Unsupported{"vector select"}; 
    if(!c.e){ setR(c.c&1? OPV(1):OPV(2)); return true; }
    int k=knownVal(s,c.e); if(k>=0){ setR(k?OPV(1):OPV(2)); return true; }
    if(I->getType()->isPointerTy()||!x.w){ bool b=branch(s,c.e); setR(b?OPV(1):OPV(2)); return true; }
    Val a=OPV(1),b=OPV(2); setR(EVal(DB.ite(c.e,X(a,x.w),X(b,x.w)))); return true; }
  case Instruction::ExtractValue: { Val a=OPV(0); for(unsigned i:cast<ExtractValueInst>(I)->indices()) a=(*(std::vector<Val>*)a.c)[i]; setR(a); return true; }
  case Instruction::InsertValue: { Val a=OPV(0),v=OPV(1); auto idx=cast<InsertValueInst>(I)->getIndices(); std::function<Val(Val,unsigned)> ins=[&](Val ag,unsigned d){ auto*n=new std::vector<Val>(*(std::vector<Val>*)ag.c); if(d+1==idx.size()) (*n)[idx[d]]=v; else (*n)[idx[d]]=ins((*n)[idx[d]],d+1); Val r; r.c=(u64)n; return r; }; setR(ins(a,0)); return true; }
  case Instruction::Br: { if(x.nops==0){ gotoBB(s,x.t1); return true; } Val c=getOp(s,f,x.ops[0],1); bool b= c.e? branch(s,c.e):(c.c&1); gotoBB(s,b?x.t1:x.t2); return true; }
  case Instruction::Switch: { auto*sw=cast<SwitchInst>(I); Val c=OPV(0); unsigned w=widthOf(sw->getCondition()->getType()); if(!c.e){ BasicBlock*t=sw->getDefaultDest(); for(auto&cs:sw->cases()) if(cs.getCaseValue()->getZExtValue()==c.c){ t=cs.getCaseSuccessor(); break; } gotoBB(s,f.f->bbidx[t]); return true; }
    std::map<BasicBlock*,Expr*> conds; std::vector<BasicBlock*> order; Expr*any=DB.F(); for(auto&cs:sw->cases()){ Expr*e=DB.eq(c.e,DB.K(cs.getCaseValue()->getZExtValue(),w)); any=DB.orE(any,e); auto*t=cs.getCaseSuccessor(); if(!conds.count(t)){ conds[t]=e; order.push_back(t);} else conds[t]=DB.orE(conds[t],e); }
    for(auto*t:order) if(t!=sw->getDefaultDest()&&branch(s,conds[t])){ gotoBB(s,f.f->bbidx[t]); return true; } gotoBB(s,f.f->bbidx[sw->getDefaultDest()]); return true; }
  case Instruction::Unreachable: throw PathError{"unreachable","reached unreachable code"};
  case Instruction::Ret: { Val r; bool hv=x.nops>0; if(hv) r=OPV(0); int rd=f.retdst; bool inv=f.isInvoke; popFrame(s); if(s.fr.empty()) return false; Frame&c=s.fr.back(); if(rd>=0&&hv) c.regs[rd]=r; if(inv){ IInst&ci=c.f->code[c.pc]; gotoBB(s,ci.t1); } else c.pc++; return true; }
  case Instruction::Resume: { Val a=OPV(0); auto*v=(std::vector<Val>*)a.c; s.excObj=(*v)[0].c; s.excTI=loadC(s,(s.excObj-64)>>OBJSHIFT,(s.excObj-64)&((1u<<OBJSHIFT)-1),8).c; unwind(s); return true; }
  case Instruction::LandingPad: { auto*lp=cast<LandingPadInst>(I); u64 sel=0; u64 adj=s.excObj; for(unsigned k=0;k<lp->getNumClauses();k++) if(lp->isCatch(k)){ auto*cl=lp->getClause(k)->stripPointerCasts(); u64 ta=0; bool m; if(isa<ConstantPointerNull>(cl)){ m=true; } else { ta=addrOf(cast<GlobalValue>(cl)); m=catchMatch(s,cast<GlobalVariable>(cl),s.excTI,s.excObj,adj); } if(m){ if(!tiIds.count(ta)){ int n=tiIds.size()+1; tiIds[ta]=n; } sel=tiIds[ta]; break; } } else { /* filter: treat empty filter as terminate */ auto*arr=lp->getClause(k); if(arr->getType()->getArrayNumElements()==0) throw PathError{"terminate","exception in noexcept/throw() function"}; }
    s.excAdj=adj; storeC(s,(s.excObj-32)>>OBJSHIFT,(s.excObj-32)&((1u<<OBJSHIFT)-1),CVal(adj),8); auto*a=newAgg(2); (*a)[0]=CVal(s.excObj); (*a)[1]=CVal(sel); Val r; r.c=(u64)a; setR(r); return true; }
  case Instruction::AtomicRMW: { auto*rm=cast<AtomicRMWInst>(I); Val p=OPV(0),v=OPV(1); Val old; loadTyped(s,I->getType(),p,old); Val nv; switch(rm->getOperation()){ case AtomicRMWInst::Add:nv=binop(KADD,x.w,old,v);break; case AtomicRMWInst::Sub:nv=binop(KSUB,x.w,old,v);break; case AtomicRMWInst::Xchg:nv=v;break; case AtomicRMWInst::Or:nv=binop(KOR,x.w,old,v);break; case AtomicRMWInst::And:nv=binop(KAND,x.w,old,v);break; default: throw Unsupported{"atomicrmw"}; } storeTyped(s,I->getType(),p,nv); setR(old); return true; }
  case Instruction::AtomicCmpXchg: { Val p=OPV(0),c=OPV(1),n=OPV(2); Type*t=I->getOperand(1)->getType(); Val old; loadTyped(s,t,p,old); Val e=icmp(CmpInst::ICMP_EQ,widthOf(t),old,c); bool b=e.e? branch(s,e.e):e.c; if(b) storeTyped(s,t,p,n); auto*a=newAgg(2); (*a)[0]=old; (*a)[1]=CVal(b); Val r; r.c=(u64)a; setR(r); return true; }
  case Instruction::Fence: f.pc++; return true;
  case Instruction::Call: case Instruction::Invoke: {
    auto*cb=cast<CallBase>(I); unsigned n=cb->arg_size(); Val args[24]; if(n>24) throw Unsupported{"too many args"}; for(unsigned i=0;i<n;i++){ if(x.callee&&x.callee->isIntrinsic()&&x.ops[i].slot==-1&&isa<MetadataAsValue>(cb->getArgOperand(i))) continue; args[i]=getOp(s,f,x.ops[i],widthOf(cb->getArgOperand(i)->getType())); }
    Function*F=x.callee; const auto*bi=x.bi;
    if(!F){ Val fp=getOp(s,f,x.ops[x.nops-1],64); if(isa<InlineAsm>(cb->getCalledOperand())) { f.pc++; return true; } u64 a=concretize(s,fp,64); auto it=funcAt.find(a); if(it==funcAt.end()) throw PathError{"memory","call through invalid function pointer"}; F=it->second; auto b=builtins.find(F->getName().str()); if(b!=builtins.end()) bi=&b->second; }
    if(bi){ Val r; int rc=(*bi)(s,x,args,r); if(rc==0){ Frame&g=s.fr.back(); if(x.dst>=0) g.regs[x.dst]=r; if(x.opc==Instruction::Invoke) gotoBB(s,x.t1); else g.pc++; } if(rc!=2) return true; }
    if(F->isDeclaration()&&F->isIntrinsic()) throw Unsupported{"intrinsic "+F->getName().str()};
    pushFrame(s,F,args,n,x.dst,x.opc==Instruction::Invoke); return true; }
  default: throw Unsupported{std::string("instruction ")+I->getOpcodeName()}; }
}
#include "builtins.h"
#include "driver.h"
