// Built-in functions: harness API, memory primitives, LLVM intrinsics, exceptions.
#pragma once
typedef std::function<int(State&,IInst&,Val*,Val&)> BI;
static u64 cst(State&s,const Val&v,unsigned w){ return v.e? concretize(s,v,w):v.c; }
static std::string cstr(State&s,const Val&p){ std::string r; u64 a=cst(s,p,64); for(u64 i=0;i<100000;i++){ Val v=load(s,CVal(a+i),1); u64 c=cst(s,v,8); if(!c) return r; r+=(char)c; } return r; }
static std::string hexBytes(const std::vector<Expr*>&b){ std::string r; char t[4]; for(Expr*e:b){ snprintf(t,4,"%02x",(unsigned)evalC(e)); r+=t; } return r; }
static std::string recJson(const std::vector<InputRec>&v){ std::string r="["; for(size_t i=0;i<v.size();i++){ if(i) r+=","; r+="[\""+jesc(v[i].name)+"\",\""+hexBytes(v[i].bytes)+"\"]"; } return r+"]"; }
static void recordError(State&s,const std::string&kind,const std::string&msg){
  ST.errors++; std::string tr=where(s); std::string key=kind+"|"+msg; u64 same=0; for(auto&e:errRecs) if(e.kind+"|"+e.msg==key) same++; if(same>=2||errRecs.size()>=40) return;
  useState(s); errRecs.push_back({kind,msg,tr,"{\"inputs\":"+recJson(s.in)+",\"obs\":"+recJson(s.obs)+"}"}); if(verbose) fprintf(stderr,"ERROR %s: %s\n  %s\n  %s\n",kind.c_str(),msg.c_str(),tr.c_str(),errRecs.back().inputs.c_str()); }
static InputRec mkRec(State&s,const std::string&name,u64 addr,u64 n){ InputRec r; r.name=name; for(u64 i=0;i<n;i++){ u64 a=addr+i; r.bytes.push_back(byteAt(s,a>>OBJSHIFT,a&((1u<<OBJSHIFT)-1))); } return r; }
static u64 doAlloc(State&s,u64 n,u8 how){ if(how<200) s.heapLive++; return newObj(s,n,OHEAP,"heap",true,how); }
static void doFree(State&s,const Val&pv,u8 how){ u64 p=cst(s,pv,64); if(!p) return; u64 id=p>>OBJSHIFT; MemObj*m=s.mem.get(id); if(!m) throw PathError{"memory","free of invalid pointer"}; if(m->kind==OFREED) throw PathError{"memory","double free"}; if(m->kind!=OHEAP||(p&((1u<<OBJSHIFT)-1))) throw PathError{"memory","free of non-heap pointer"};
  if(m->how!=how) throw PathError{"memory","mismatched allocation/deallocation functions"}; auto o=std::make_shared<MemObj>(); o->kind=OFREED; o->name="heap"; o->size=m->size; s.mem.wchunk(id).o[id&63]=o; if(how<200) s.heapLive--; }
static Expr* memcmpE(State&s,u64 a,u64 b,u64 n){ // sign of the first difference as 32-bit value
  Expr*r=DB.K(0,32); for(u64 i=n;i-->0;){ Expr*x=X(load(s,CVal(a+i),1),8),*y=X(load(s,CVal(b+i),1),8); if(x==y) continue; Expr*c=DB.eq(x,y); Expr*lt=DB.bin(KULT,x,y); r=DB.ite(c,r,DB.ite(lt,DB.K(0xffffffff,32),DB.K(1,32))); } return r; }
static void memsetB(State&s,const Val&p,const Val&v,u64 n){ if(!n) return; u64 id; Val off; resolve(s,p,n,true,id,off); u64 o=cst(s,off,64); MemObj*m=s.mem.wget(id); for(u64 i=0;i<n;i++){ if(v.e) setByteE(m,o+i,DB.extract(v.e,0,8)); else setByteC(m,o+i,(u8)v.c); } }
static Val minmax(Kind lt,bool mx,unsigned w,Val a,Val b){ Expr*x=X(a,w),*y=X(b,w); Expr*c=DB.bin(lt,x,y); return mx? EVal(DB.ite(c,y,x)):EVal(DB.ite(c,x,y)); }
static void checkCond(State&s,Expr*c,const std::string&msg){ // property assertion
  ST.checks++; if(c->k==KCONST){ ST.checksFolded++; if(c->c) return; throw PathError{"check",msg}; }
  std::vector<std::pair<u32,u64>> m; Expr*n=DB.notE(c); Res r=query(s,n,&m);
  if(r==UNSAT_){ s.known[c]=true; s.known[n]=false; return; }
  { State bad(s); for(auto&p:m){ if(bad.model.size()<=p.first) bad.model.resize(p.first+1,0); bad.model[p.first]=p.second; } recordError(bad,"check",msg); useState(s); }
  assume(s,c); }
static void harnessChoice(State&){ }

static void initBuiltins(){
  auto&B=builtins;
  // ---- harness API
  B["symx_bytes"]=[](State&s,IInst&,Val*a,Val&){ u64 p=cst(s,a[0],64),n=cst(s,a[1],64); std::string nm=cstr(s,a[2]); for(u64 i=0;i<n;i++){ Expr*v=freshVar(s,nm,8,rng()&255); u64 q=p+i; resolve(s,CVal(q),1,true,*new u64,*new Val); setByteE(s.mem.wget(q>>OBJSHIFT),q&((1u<<OBJSHIFT)-1),v);} s.in.push_back(mkRec(s,nm,p,n)); return 0; };
  B["symx_word"]=[](State&s,IInst&,Val*a,Val&){ u64 p=cst(s,a[0],64),n=cst(s,a[1],64); std::string nm=cstr(s,a[2]); Expr*v=freshVar(s,nm,8*n,n<=4?rng()%3:0); store(s,CVal(p),EVal(v),n); s.in.push_back(mkRec(s,nm,p,n)); return 0; };
  B["symx_observe"]=[](State&s,IInst&,Val*a,Val&){ std::string nm=cstr(s,a[0]); u64 p=cst(s,a[1],64),n=cst(s,a[2],64); u64 id;Val off; if(n) resolve(s,CVal(p),n,false,id,off); s.obs.push_back(mkRec(s,nm,p,n)); return 0; };
  B["symx_assume"]=[](State&s,IInst&,Val*a,Val&){ Expr*c=DB.notE(DB.eq(X(a[0],32),DB.K(0,32))); assume(s,c); return 0; };
  B["symx_check"]=[](State&s,IInst&,Val*a,Val&){ Expr*c=DB.notE(DB.eq(X(a[0],32),DB.K(0,32))); checkCond(s,c,cstr(s,a[1])); return 0; };
  B["symx_reach"]=[](State&s,IInst&,Val*a,Val&){ ST.reach[cstr(s,a[0])]++; return 0; };
  B["symx_concretize"]=[](State&s,IInst&,Val*a,Val&r){ r=CVal(cst(s,a[0],64)); return 0; };
  B["symx_param"]=[](State&s,IInst&,Val*a,Val&r){ std::string n=cstr(s,a[0]); auto it=params.find(n); r= it==params.end()? a[1]:CVal(it->second); return 0; };
  B["symx_heap_live"]=[](State&s,IInst&,Val*,Val&r){ r=CVal(s.heapLive); return 0; };
  B["symx_kill"]=[](State&s,IInst&,Val*a,Val&)->int{ throw KillPath{cstr(s,a[0])}; };
  B["symx_fail"]=[](State&s,IInst&,Val*a,Val&)->int{ throw PathError{"model",cstr(s,a[0])}; };
  B["symx_unsupported"]=[](State&s,IInst&,Val*a,Val&)->int{ throw Unsupported{cstr(s,a[0])}; };
  B["symx_debug"]=[](State&s,IInst&,Val*a,Val&){ fprintf(stderr,"[dbg] %s %llu%s\n",cstr(s,a[0]).c_str(),(unsigned long long)(a[1].e? evalC(a[1].e):a[1].c),a[1].e?" (sym)":""); return 0; };
  B["symx_is_const"]=[](State&,IInst&,Val*a,Val&r){ r=CVal(!a[0].e); return 0; };
  // ---- heap
  B["symx_malloc"]=[](State&s,IInst&,Val*a,Val&r){ r=CVal(doAlloc(s,cst(s,a[0],64),(u8)cst(s,a[1],32))); return 0; };
  B["symx_free"]=[](State&s,IInst&,Val*a,Val&){ doFree(s,a[0],(u8)cst(s,a[1],32)); return 0; };
  B["symx_objsize"]=[](State&s,IInst&,Val*a,Val&r){ u64 p=cst(s,a[0],64); MemObj*m=s.mem.get(p>>OBJSHIFT); r=CVal(m?m->size-(p&((1u<<OBJSHIFT)-1)):0); return 0; };
  auto alloc=[](u8 how,int arg){ return [how,arg](State&s,IInst&,Val*a,Val&r){ u64 n=cst(s,a[arg],64); r=CVal(doAlloc(s,n,how)); return 0; }; };
  B["_Znwm"]=alloc(1,0); B["_Znam"]=alloc(2,0); B["_ZnwmRKSt9nothrow_t"]=alloc(1,0); B["_ZnamRKSt9nothrow_t"]=alloc(2,0); B["malloc"]=alloc(0,0);
  B["_ZnwmSt11align_val_t"]=alloc(1,0);
  B["calloc"]=[](State&s,IInst&,Val*a,Val&r){ u64 n=cst(s,a[0],64)*cst(s,a[1],64); u64 p=doAlloc(s,n,0); memsetB(s,CVal(p),CVal(0),n); r=CVal(p); return 0; };
  auto fr=[](u8 how){ return [how](State&s,IInst&,Val*a,Val&){ doFree(s,a[0],how); return 0; }; };
  for(auto n:{"_ZdlPv","_ZdlPvm","_ZdlPvRKSt9nothrow_t","_ZdlPvSt11align_val_t","_ZdlPvmSt11align_val_t"}) B[n]=fr(1); for(auto n:{"_ZdaPv","_ZdaPvm","_ZdaPvRKSt9nothrow_t"}) B[n]=fr(2); B["free"]=fr(0);
  B["realloc"]=[](State&s,IInst&,Val*a,Val&r){ u64 p=cst(s,a[0],64),n=cst(s,a[1],64); u64 q=doAlloc(s,n,0); if(p){ MemObj*m=s.mem.get(p>>OBJSHIFT); if(!m||m->kind!=OHEAP) throw PathError{"memory","realloc of invalid pointer"}; copyBytes(s,CVal(q),CVal(p),std::min(n,m->size)); doFree(s,CVal(p),0);} r=CVal(q); return 0; };
  // ---- memory primitives
  auto cpy=[](State&s,IInst&,Val*a,Val&r){ copyBytes(s,a[0],a[1],cst(s,a[2],64)); r=a[0]; return 0; };
  // parallel sections: -1 ends one, k begins work unit k of the section (0 begins the section)
  B["symx_unit"]=[](State&s,IInst&,Val*a,Val&){ int k=(int)a[0].c; if(k==0){ s.unitFrom=s.mem.n; s.acc.reset(); } s.unit=k; s.unitDepth=s.fr.size(); return 0; };
  B["symx_race_pause"]=[](State&s,IInst&,Val*a,Val&){ s.racePause+=(int)a[0].c; return 0; };
  B["memcpy"]=cpy; B["memmove"]=cpy; B["llvm.memcpy"]=cpy; B["llvm.memmove"]=cpy; B["llvm.memcpy.inline"]=cpy;
  auto mset=[](State&s,IInst&,Val*a,Val&r){ memsetB(s,a[0],a[1],cst(s,a[2],64)); r=a[0]; return 0; };
  B["memset"]=mset; B["llvm.memset"]=mset;
  auto mcmp=[](State&s,IInst&,Val*a,Val&r){ u64 n=cst(s,a[2],64); r= n? EVal(memcmpE(s,cst(s,a[0],64),cst(s,a[1],64),n)):CVal(0); return 0; };
  B["memcmp"]=mcmp; B["bcmp"]=mcmp;
  // a symbolic byte looked up in consecutive bytes ("0123456789"): found or not, without a path per value
  B["memchr"]=[](State&s,IInst&,Val*a,Val&r){ if(!a[1].e||a[0].e||a[2].e||a[2].c<4||a[2].c>256) return 2; u64 p=a[0].c,n=a[2].c; u64 c0=0; for(u64 i=0;i<n;i++){ Val v=load(s,CVal(p+i),1); if(v.e) return 2; if(!i) c0=v.c; else if(v.c!=c0+i) return 2; }
    Expr*c=DB.extract(a[1].e,0,8); Expr*d=DB.bin(KSUB,c,DB.K(c0,8)); if(branch(s,DB.bin(KULT,d,DB.K(n,8)))) r=EVal(DB.bin(KADD,DB.zext(d,64),DB.K(p,64))); else r=CVal(0); return 0; };
  // ---- exceptions
  B["symx_throw"]=[](State&s,IInst&,Val*a,Val&){ doThrow(s,cst(s,a[0],64),cst(s,a[1],64)); return 1; };
  B["_ZSt9terminatev"]=[](State&,IInst&,Val*,Val&)->int{ throw PathError{"terminate","std::terminate called"}; };
  B["__clang_call_terminate"]=B["_ZSt9terminatev"]; 
  B["llvm.eh.typeid.for"]=[](State&,IInst&,Val*a,Val&r){ u64 t=a[0].c; if(!tiIds.count(t)){ int n=tiIds.size()+1; tiIds[t]=n; } r=CVal(tiIds[t]); return 0; };
  B["__dynamic_cast"]=[](State&s,IInst&,Val*a,Val&r){ u64 p=cst(s,a[0],64); if(!p){ r=CVal(0); return 0; } u64 vp=cst(s,load(s,CVal(p),8),64); i64 ott=(i64)cst(s,load(s,CVal(vp-16),8),64); u64 ti=cst(s,load(s,CVal(vp-8),8),64); u64 obj=p+ott; GlobalVariable*t=gvAt(ti),*d=gvAt(a[2].c); if(!t||!d) throw Unsupported{"dynamic_cast type info"}; u64 o=obj; r=CVal(upcast(s,t,d,o)?o:0); return 0; };
  // ---- ends
  B["abort"]=[](State&,IInst&,Val*,Val&)->int{ throw PathError{"abort","abort called"}; };
  B["exit"]=[](State&,IInst&,Val*,Val&)->int{ throw PathError{"exit","exit called"}; }; B["_exit"]=B["exit"];
  B["__assert_fail"]=[](State&s,IInst&,Val*a,Val&)->int{ throw PathError{"assert",cstr(s,a[0])}; };
  B["__cxa_pure_virtual"]=[](State&,IInst&,Val*,Val&)->int{ throw PathError{"abort","pure virtual function called"}; };
  B["llvm.trap"]=[](State&,IInst&,Val*,Val&)->int{ throw PathError{"abort","trap"}; }; B["llvm.ubsantrap"]=B["llvm.trap"];
  auto nop=[](State&,IInst&,Val*,Val&r){ r=CVal(0); return 0; };
  for(auto n:{"__cxa_atexit","llvm.va_start","llvm.va_end","llvm.stackrestore","llvm.stacksave","llvm.assume","llvm.prefetch","llvm.donothing","llvm.invariant.start","llvm.invariant.end","llvm.dbg.declare","llvm.dbg.value","llvm.dbg.label","llvm.experimental.noalias.scope.decl"}) B[n]=nop;
  for(auto n:{"llvm.expect","llvm.launder.invariant.group","llvm.strip.invariant.group","llvm.ssa.copy","llvm.annotation","llvm.ptr.annotation","llvm.arithmetic.fence"}) B[n]=[](State&,IInst&,Val*a,Val&r){ r=a[0]; return 0; };
  B["llvm.is.constant"]=nop; B["llvm.objectsize"]=[](State&,IInst&x,Val*,Val&r){ r=CVal((u64)MASK(x.w)); return 0; };
  B["llvm.threadlocal.address"]=[](State&,IInst&,Val*a,Val&r){ r=a[0]; return 0; };
  // ---- integer intrinsics
  struct MM{const char*n;Kind k;bool mx;}; for(MM m:{MM{"llvm.umax",KULT,true},MM{"llvm.umin",KULT,false},MM{"llvm.smax",KSLT,true},MM{"llvm.smin",KSLT,false}}) B[m.n]=[m](State&,IInst&x,Val*a,Val&r){ r=minmax(m.k,m.mx,x.w,a[0],a[1]); return 0; };
  B["llvm.abs"]=[](State&,IInst&x,Val*a,Val&r){ Expr*e=X(a[0],x.w); r=EVal(DB.ite(DB.bin(KSLT,e,DB.K(0,x.w)),DB.bin(KSUB,DB.K(0,x.w),e),e)); return 0; };
  struct OV{const char*n;Kind k;bool sg;}; for(OV o:{OV{"llvm.sadd.with.overflow",KADD,true},OV{"llvm.uadd.with.overflow",KADD,false},OV{"llvm.ssub.with.overflow",KSUB,true},OV{"llvm.usub.with.overflow",KSUB,false},OV{"llvm.smul.with.overflow",KMUL,true},OV{"llvm.umul.with.overflow",KMUL,false}}) B[o.n]=[o](State&,IInst&x,Val*a,Val&r){ unsigned w=widthOf(x.I->getOperand(0)->getType()); unsigned W=o.k==KMUL?2*w:w+1; Expr*A=X(a[0],w),*Bb=X(a[1],w); Expr*EA=o.sg?DB.sext(A,W):DB.zext(A,W),*EB=o.sg?DB.sext(Bb,W):DB.zext(Bb,W); Expr*R=DB.bin(o.k,EA,EB); Expr*lo=DB.extract(R,0,w); Expr*back=o.sg?DB.sext(lo,W):DB.zext(lo,W); auto*ag=newAgg(2); (*ag)[0]=EVal(lo); (*ag)[1]=EVal(DB.notE(DB.eq(R,back))); r=Val(); r.c=(u64)ag; return 0; };
  B["llvm.ctlz"]=[](State&,IInst&x,Val*a,Val&r){ unsigned w=x.w; Expr*e=X(a[0],w); Expr*q=DB.K(w,w); for(unsigned i=0;i<w;i++) q=DB.ite(DB.extract(e,i,1),DB.K(w-1-i,w),q); r=EVal(q); return 0; };
  B["llvm.cttz"]=[](State&,IInst&x,Val*a,Val&r){ unsigned w=x.w; Expr*e=X(a[0],w); Expr*q=DB.K(w,w); for(unsigned i=w;i-->0;) q=DB.ite(DB.extract(e,i,1),DB.K(i,w),q); r=EVal(q); return 0; };
  B["llvm.ctpop"]=[](State&,IInst&x,Val*a,Val&r){ unsigned w=x.w; Expr*e=X(a[0],w); Expr*q=DB.K(0,w); for(unsigned i=0;i<w;i++) q=DB.bin(KADD,q,DB.zext(DB.extract(e,i,1),w)); r=EVal(q); return 0; };
  B["llvm.bswap"]=[](State&,IInst&x,Val*a,Val&r){ unsigned w=x.w; Expr*e=X(a[0],w); Expr*q=DB.extract(e,0,8); for(unsigned i=8;i<w;i+=8) q=DB.concat(q,DB.extract(e,i,8)); r=EVal(q); return 0; };
  auto fsh=[](bool left){ return [left](State&,IInst&x,Val*a,Val&r){ unsigned w=x.w; Expr*hi=X(a[0],w),*lo=X(a[1],w); Expr*sh=DB.bin(KUREM,X(a[2],w),DB.K(w,w)); Expr*inv=DB.bin(KSUB,DB.K(w,w),sh); if(left) r=EVal(DB.ite(DB.eq(sh,DB.K(0,w)),hi,DB.bin(KOR,DB.bin(KSHL,hi,sh),DB.bin(KLSHR,lo,inv)))); else r=EVal(DB.ite(DB.eq(sh,DB.K(0,w)),lo,DB.bin(KOR,DB.bin(KLSHR,lo,sh),DB.bin(KSHL,hi,inv)))); return 0; }; };
  B["llvm.fshl"]=fsh(true); B["llvm.fshr"]=fsh(false);
  B["llvm.usub.sat"]=[](State&,IInst&x,Val*a,Val&r){ Expr*p=X(a[0],x.w),*q=X(a[1],x.w); r=EVal(DB.ite(DB.bin(KULT,p,q),DB.K(0,x.w),DB.bin(KSUB,p,q))); return 0; };
  // ---- floating point
  auto fabsB=[](State&,IInst&x,Val*a,Val&r){ r=EVal(DB.bin(KAND,X(a[0],x.w),DB.K(MASK(x.w)>>1,x.w))); return 0; };
  for(auto n:{"llvm.fabs","fabs","fabsf","fabsl"}) B[n]=fabsB;
  auto f1=[](Kind k){ return [k](State&,IInst&x,Val*a,Val&r){ if(!x.w) throw Unsupported{"fp type"}; r=EVal(DB.un(k,X(a[0],x.w),x.w)); return 0; }; };
  for(auto n:{"llvm.sqrt","sqrt","sqrtf","sqrtl"}) B[n]=f1(KFSQRT); for(auto n:{"llvm.floor","floor","floorf","floorl"}) B[n]=f1(KFFLOOR); for(auto n:{"llvm.ceil","ceil","ceilf","ceill"}) B[n]=f1(KFCEIL); for(auto n:{"llvm.trunc","trunc","truncf","truncl"}) B[n]=f1(KFTRUNC);
  B["llvm.fmuladd"]=[](State&,IInst&x,Val*a,Val&r){ r=binop(KFADD,x.w,binop(KFMUL,x.w,a[0],a[1]),a[2]); return 0; };
  B["llvm.copysign"]=[](State&,IInst&x,Val*a,Val&r){ Expr*sb=DB.K((u128)1<<(x.w-1),x.w),*mm=DB.K(MASK(x.w)>>1,x.w); r=EVal(DB.bin(KOR,DB.bin(KAND,X(a[0],x.w),mm),DB.bin(KAND,X(a[1],x.w),sb))); return 0; };
  B["llvm.is.fpclass"]=[](State&,IInst&x,Val*a,Val&r){ unsigned w=widthOf(x.I->getOperand(0)->getType()); unsigned m=a[1].c; Expr*e=X(a[0],w); Expr*ab=DB.bin(KAND,e,DB.K(MASK(w)>>1,w)); unsigned fb=w==79?63:w==64?52:23; u128 inf=(MASK(w)>>1)&~MASK(fb), mn=(u128)1<<fb; Expr*sg=DB.extract(e,w-1,1); Expr*c=DB.F(); Expr*isn=DB.bin(KULT,DB.K(inf,w),ab),*isi=DB.eq(ab,DB.K(inf,w)),*isz=DB.eq(ab,DB.K(0,w)); Expr*sub=DB.andE(DB.bin(KULT,ab,DB.K(mn,w)),DB.notE(isz)); Expr*nor=DB.andE(DB.bin(KULE,DB.K(mn,w),ab),DB.bin(KULT,ab,DB.K(inf,w)));
    auto add=[&](Expr*q){ c=DB.orE(c,q); }; if((m&3)==3) add(isn); if(m&4) add(DB.andE(isi,sg)); if(m&512) add(DB.andE(isi,DB.notE(sg))); if(m&8) add(DB.andE(nor,sg)); if(m&256) add(DB.andE(nor,DB.notE(sg))); if(m&16) add(DB.andE(sub,sg)); if(m&128) add(DB.andE(sub,DB.notE(sg))); if(m&32) add(DB.andE(isz,sg)); if(m&64) add(DB.andE(isz,DB.notE(sg))); r=EVal(c); return 0; };
  // ---- host conversions on concrete data
  // A symbolic floating-point value has no decimal text of its own: it is written as a
  // token, a number-like text that the conversions below map back to the value.  With
  // fewer digits than needed to identify the value, the token reads back as any value
  // within the rounding of that many digits (an over-approximation).
  auto strtox=[](State&s,Val*a,Val&r,unsigned w){ std::string t=cstr(s,a[0]); size_t k=t.find_first_not_of(" \t\n\r\v\f"); if(k==std::string::npos) k=0; size_t e=k; while(e<t.size()&&(isdigit(t[e])||strchr("+-.eE",t[e]))) e++;
    std::string q=t.substr(k,e-k); for(auto&T:s.tokens) if(T.text==q){ store(s,a[1],CVal(e),8); r=EVal(T.w==w? T.read: T.w<w? DB.un(KFPEXT,T.read,w):DB.un(KFPTRUNC,T.read,w)); return; }
    char*ep; u64 v; if(w==64) v=d2b(strtod(t.c_str(),&ep)); else v=f2b(strtof(t.c_str(),&ep)); store(s,a[1],CVal((u64)(ep-t.c_str())),8); r=CVal(v); };
  B["symx_strtod"]=[strtox](State&s,IInst&,Val*a,Val&r){ strtox(s,a,r,64); return 0; };
  B["symx_strtof"]=[strtox](State&s,IInst&,Val*a,Val&r){ strtox(s,a,r,32); return 0; };
  static auto token=[](State&s,Expr*v,unsigned w,int prec,char cv='g')->std::string{ if(cv=='e'){ cv='g'; prec++; } for(auto&T:s.tokens) if(T.val==v&&T.w==w&&T.prec==prec&&T.cv==cv) return T.text;
    Token T; T.val=v; T.w=w; T.prec=prec; T.cv=cv; char b[64]; snprintf(b,sizeof b,"4.70%03u27e-91",(unsigned)s.tokens.size()); T.text=b; int full=w==32?9:17;
    auto num=[&](double x){ return DB.K(w==64?d2b(x):f2b((float)x),w); }; Expr*ab=DB.K(MASK(w)>>1,w);
    if(cv=='g'&&prec>=full) T.read=v; else { Expr*rd=freshVar(s,"read",w,convert(evalC(v),w,prec,cv)); T.read=rd; Expr*d=DB.bin(KAND,DB.bin(KFSUB,rd,v),ab),*a=DB.bin(KAND,v,ab);
      // half a unit of the last decimal digit and half one of the binary one, for values that are
      // neither denormal nor next to the largest; fewer digits give no more
      Expr*in=DB.orE(DB.eq(a,DB.K(0,w)),DB.andE(DB.bin(KFLE,num(w==32?1e-36:1e-306),a),DB.bin(KFLE,a,num(w==32?1e38:1e307))));
      if(cv=='g'){ int k=knownVal(s,in); if(k<0){ std::vector<std::pair<u32,u64>> m; if((evalC(in)&1)&&query(s,DB.notE(in),&m)==UNSAT_){ s.known[in]=true; k=1; } }
        auto lim=[&](int q){ return DB.bin(KFLE,d,DB.bin(KFMUL,num(symxHalfUnit(q,w==32)),a)); };
        if(k==1){ for(int q=1;q<=prec;q++) assume(s,lim(q)); }
        else { double mx=w==32?3.4028234663852886e38:1.7976931348623157e308; Expr*fin=DB.bin(KFLE,a,num(mx)); if(knownVal(s,fin)!=1){ std::vector<std::pair<u32,u64>> m; if(!(evalC(fin)&1)||query(s,DB.notE(fin),&m)!=UNSAT_) throw Unsupported{"formatting a value that need not be finite"}; }
          Expr*ar=DB.bin(KAND,rd,ab),*big=DB.bin(KFLE,num(w==32?1e38:1e307),a); // only next to the largest value the text may read as infinity
          assume(s,DB.ite(in,lim(prec),DB.ite(big,DB.orE(DB.bin(KFLE,d,DB.bin(KFMUL,num(0.5),a)),DB.andE(DB.bin(KFLE,num(mx*0.9),a),DB.bin(KFLE,a,ar))),DB.bin(KFLE,d,num(w==32?1e-36:1e-306))))); } }
      else assume(s,DB.bin(KFLE,d,DB.bin(KFADD,num(0.51*std::pow(10.0,-prec)),DB.bin(KFMUL,num(w==32?1.2e-7:2.3e-16),a)))); }
    s.tokens.push_back(T); return T.text; };
  // harness: text that reads back as exactly this value
  B["symx_double_text"]=[](State&s,IInst&,Val*a,Val&r){ std::string t; char b[64]; if(a[0].e) t=token(s,a[0].e,64,17); else { snprintf(b,sizeof b,"%.17g",b2d(a[0].c)); t=b; } for(size_t i=0;i<=t.size();i++) store(s,CVal(a[1].c+i),CVal((u8)t.c_str()[i]),1); return 0; };
  B["symx_float_text"]=[](State&s,IInst&,Val*a,Val&r){ std::string t; char b[64]; if(a[0].e) t=token(s,a[0].e,32,9); else { snprintf(b,sizeof b,"%.9g",b2f(a[0].c)); t=b; } for(size_t i=0;i<=t.size();i++) store(s,CVal(a[1].c+i),CVal((u8)t.c_str()[i]),1); return 0; };
  B["_ZSt16__convert_from_vRKP15__locale_structPciPKcz"]=[](State&s,IInst&x,Val*a,Val&r){ u64 n=cst(s,a[2],32); std::string fmt=cstr(s,a[3]); unsigned na=cast<CallBase>(x.I)->arg_size(); char buf[512]; int len; int prec=-1; Val v;
    char cv=fmt.back(); if(!strchr("gGeEfFaA",cv)||fmt.find('L')!=std::string::npos) throw Unsupported{"convert_from_v "+fmt};
    if(na==5&&fmt.find('*')==std::string::npos) v=a[4]; else if(na==6&&fmt.find(".*")!=std::string::npos){ prec=(int)cst(s,a[4],32); v=a[5]; } else throw Unsupported{"convert_from_v "+fmt};
    if(v.e){ if(!strchr("gef",cv)) throw Unsupported{"formatting a symbolic floating-point value with %"+std::string(1,cv)}; Expr*e=v.e; unsigned w=64; if(e->k==KFPEXT&&e->a->w==32){ e=e->a; w=32; } if(prec<0) prec=6; if(prec==0&&cv=='g') prec=1; std::string t=token(s,e,w,prec,cv); strcpy(buf,t.c_str()); len=t.size(); }
    else len= prec>=0||na==6? snprintf(buf,sizeof buf,fmt.c_str(),prec,b2d(v.c)):snprintf(buf,sizeof buf,fmt.c_str(),b2d(v.c));
    for(int i=0;i<=len&&i<(int)n;i++) store(s,CVal(a[1].c+i),CVal((u8)buf[i]),1); r=CVal((u32)len); return 0; };
  // decimal digits of a symbolic integer: one path per number of digits
  static auto digits=[](State&s,Expr*v,std::vector<Expr*>&out){ unsigned w=v->w; while(v->k==KITE) v= branch(s,v->a)? v->b: v->d; for(auto&q:s.digs) if(q.first==v){ out=q.second; return; } u128 p=1; unsigned k=1; for(;k<=20;k++){ p*=10; if(w<128&&p>MASK(w)) break; if(branch(s,DB.bin(KULT,v,DB.K(p,w)))) break; } u64 x=evalC(v); std::vector<u8> dv(k); for(unsigned i=k;i-->0;){ dv[i]=x%10; x/=10; }
    Expr*h=nullptr; for(unsigned i=0;i<k;i++){ Expr*c=freshVar(s,"digit",8,'0'+dv[i]); assume(s,DB.bin(KULE,DB.bin(KSUB,c,DB.K('0',8)),DB.K(9,8))); if(i==0&&k>1) assume(s,DB.notE(DB.eq(c,DB.K('0',8)))); Expr*d=DB.zext(DB.bin(KSUB,c,DB.K('0',8)),w); 
      h= h? DB.bin(KADD,DB.bin(KMUL,h,DB.K(10,w)),d):d; out.push_back(c); } assume(s,DB.eq(v,h)); s.subst.push_back({h,v}); s.digs.push_back({v,std::vector<Expr*>(out.end()-k,out.end())}); };
  auto intToChar=[](unsigned w){ return [w](State&s,IInst&,Val*a,Val&r){ if(!a[1].e) return 2; u64 fl=cst(s,a[3],32); if((fl&74)!=2&&!(cst(s,a[4],1)&1)) return 2; std::vector<Expr*> d; digits(s,X(a[1],w),d); u64 e=cst(s,a[0],64); for(size_t i=0;i<d.size();i++) store(s,CVal(e-d.size()+i),EVal(d[i]),1); r=CVal((u32)d.size()); return 0; }; };
  B["_ZSt13__int_to_charIcmEiPT_T0_PKS0_St13_Ios_Fmtflagsb"]=intToChar(64); B["_ZSt13__int_to_charIcjEiPT_T0_PKS0_St13_Ios_Fmtflagsb"]=intToChar(32);
  // snprintf family: the format is concrete; symbolic integers without padding, symbolic
  // floating-point values as tokens, symbolic text byte by byte
  auto fmtOut=[](State&s,IInst&x,Val*a,unsigned ai,const std::string&fmt,std::vector<Val>&out){ auto*cb=cast<CallBase>(x.I); unsigned na=cb->arg_size(); auto lit=[&](const std::string&t){ for(char c:t) out.push_back(CVal((u8)c)); };
    auto next=[&](unsigned&w)->Val{ if(ai>=na) throw Unsupported{"format "+fmt}; w=widthOf(cb->getArgOperand(ai)->getType()); return a[ai++]; };
    for(size_t i=0;i<fmt.size();i++){ if(fmt[i]!='%'){ out.push_back(CVal((u8)fmt[i])); continue; } i++; if(i<fmt.size()&&fmt[i]=='%'){ out.push_back(CVal('%')); continue; }
      std::string fl; while(i<fmt.size()&&strchr("-+ #0",fmt[i])) fl+=fmt[i++]; int wd=-1,prec=-1; unsigned w; auto num=[&]{ if(i<fmt.size()&&fmt[i]=='*'){ i++; Val v=next(w); return (int)cst(s,v,w); } int n=0; while(i<fmt.size()&&isdigit(fmt[i])) n=n*10+fmt[i++]-'0'; return n; };
      if(i<fmt.size()&&(fmt[i]=='*'||isdigit(fmt[i]))) wd=num(); if(i<fmt.size()&&fmt[i]=='.'){ i++; prec=num(); } std::string lm; while(i<fmt.size()&&strchr("hlqjzt",fmt[i])) lm+=fmt[i++]; if(i>=fmt.size()) throw Unsupported{"format "+fmt}; char cv=fmt[i]; char b[512];
      std::string spec="%"+fl+(wd>=0?std::to_string(wd):"")+(prec>=0?"."+std::to_string(prec):"");
      if(cv=='c'){ Val v=next(w); if(wd>1) throw Unsupported{"format "+fmt}; out.push_back(v.e? EVal(DB.extract(v.e,0,8)):CVal((u8)v.c)); }
      else if(cv=='s'){ Val v=next(w); u64 p=cst(s,v,64); size_t o=out.size(); for(int k=0;prec<0||k<prec;k++){ Val c=load(s,CVal(p+k),1); if(c.e? branch(s,DB.eq(c.e,DB.K(0,8))): !(c.c&255)) break; out.push_back(c); } size_t n=out.size()-o; if(wd>0&&n<(size_t)wd) out.insert(fl.find('-')!=std::string::npos? out.end(): out.begin()+o,wd-n,CVal(' ')); }
      else if(strchr("diuxXo",cv)){ Val v=next(w); if(lm=="hh"||lm=="h"){ unsigned q=lm=="h"?16:8; if(v.e) v=EVal(DB.extract(v.e,0,q)); w=q; if(v.e&&(cv=='d'||cv=='i')){ v=EVal(DB.sext(v.e,32)); w=32; } }
        if(v.e&&strchr("xX",cv)&&wd<=0&&prec<0&&fl.empty()){ Expr*e=X(v,w); unsigned k=1; for(;4*k<w;k++) if(branch(s,DB.bin(KULT,e,DB.K((u128)1<<(4*k),w)))) break; for(unsigned q=k;q-->0;){ unsigned nb=std::min(4u,w-4*q); Expr*n=DB.zext(DB.extract(e,4*q,nb),8); out.push_back(EVal(DB.ite(DB.bin(KULT,n,DB.K(10,8)),DB.bin(KADD,n,DB.K('0',8)),DB.bin(KADD,n,DB.K((cv=='x'?'a':'A')-10,8))))); } continue; }
        if(v.e&&(!strchr("diu",cv)||wd>0||prec>=0||!fl.empty())) v=CVal(cst(s,v,w));
        if(v.e){ Expr*e=X(v,w); if(cv!='u'){ Expr*ng=DB.bin(KSLT,e,DB.K(0,w)); if(branch(s,ng)){ out.push_back(CVal('-')); e=DB.bin(KSUB,DB.K(0,w),e); } } std::vector<Expr*> d; digits(s,e,d); for(Expr*c:d) out.push_back(EVal(c)); }
        else { u64 m= w>=64? ~0ull: ((1ull<<w)-1); long long sv= w<64&&(v.c>>(w-1)&1)? (long long)(v.c|~m): (long long)(v.c&m); snprintf(b,sizeof b,(spec+"ll"+cv).c_str(),cv=='d'||cv=='i'? sv: (long long)(v.c&m)); lit(b); } }
      else if(strchr("eEfFgGaA",cv)){ Val v=next(w); if(w!=64) throw Unsupported{"format "+fmt}; if(!v.e){ snprintf(b,sizeof b,(spec+cv).c_str(),b2d(v.c)); lit(b); }
        else { if(!strchr("gef",cv)||wd>0||!fl.empty()) throw Unsupported{"formatting a symbolic floating-point value with "+spec+cv}; Expr*e=v.e; unsigned q=64; if(e->k==KFPEXT&&e->a->w==32){ e=e->a; q=32; } if(prec<0) prec=6; if(prec==0&&cv=='g') prec=1; lit(token(s,e,q,prec,cv)); } }
      else if(cv=='p'){ Val v=next(w); snprintf(b,sizeof b,"0x%llx",(unsigned long long)cst(s,v,64)); lit(b); } else throw Unsupported{"format "+fmt}; } };
  auto fmtTo=[](State&s,const Val&p,u64 n,std::vector<Val>&out,Val&r){ u64 at=cst(s,p,64); if(n){ u64 k=std::min<u64>(n-1,out.size()); for(u64 i=0;i<k;i++) store(s,CVal(at+i),out[i],1); store(s,CVal(at+k),CVal(0),1); } r=CVal((u32)out.size()); };
  B["snprintf"]=[fmtOut,fmtTo](State&s,IInst&x,Val*a,Val&r){ std::vector<Val> o; fmtOut(s,x,a,3,cstr(s,a[2]),o); fmtTo(s,a[0],cst(s,a[1],64),o,r); return 0; };
  B["sprintf"]=[fmtOut,fmtTo](State&s,IInst&x,Val*a,Val&r){ std::vector<Val> o; fmtOut(s,x,a,2,cstr(s,a[1]),o); fmtTo(s,a[0],~0ull>>1,o,r); return 0; };
  auto toCharsLen=[](unsigned w){ return [w](State&s,IInst&,Val*a,Val&r){ if(!a[0].e||cst(s,a[1],32)!=10) return 2; std::vector<Expr*> d; digits(s,X(a[0],w),d); r=CVal((u32)d.size()); return 0; }; };
  B["_ZNSt8__detail14__to_chars_lenImEEjT_i"]=toCharsLen(64); B["_ZNSt8__detail14__to_chars_lenIjEEjT_i"]=toCharsLen(32);
  auto toChars10=[](unsigned w){ return [w](State&s,IInst&,Val*a,Val&r){ if(!a[2].e) return 2; u64 p=cst(s,a[0],64),n=cst(s,a[1],32); std::vector<Expr*> d; digits(s,X(a[2],w),d); if(d.size()>n) throw PathError{"memory","number written outside its buffer"}; while(d.size()<n) d.insert(d.begin(),DB.K('0',8)); for(size_t i=0;i<n;i++) store(s,CVal(p+i),EVal(d[i]),1); r=CVal(0); return 0; }; };
  B["_ZNSt8__detail18__to_chars_10_implImEEvPcjT_"]=toChars10(64); B["_ZNSt8__detail18__to_chars_10_implIjEEvPcjT_"]=toChars10(32);
}
