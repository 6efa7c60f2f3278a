// SMT back end: lowers Expr to Z3 terms, decides queries, extracts models.
#pragma once
#include "expr.h"
#include <z3.h>
#include <sys/time.h>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <cmath>
static inline double now(){ timeval t; gettimeofday(&t,0); return t.tv_sec+t.tv_usec*1e-6; }
enum Res { UNSAT_=0, SAT_=1, UNKNOWN_=2 };
struct SolverStats { u64 queries=0, cacheHits=0, sat=0, unsat=0, unknown=0, heavy=0; double time=0, maxq=0; };
struct Solver {
  ExprDB&db; Z3_context ctx; Z3_solver inc; u32 incCount=0; std::unordered_map<Expr*,Z3_ast> lit; SolverStats st;
  Z3_solver small=nullptr; u64 smallLimit=getenv("SYMX_SMALL")?atoi(getenv("SYMX_SMALL")):1500; unsigned quickMs=3000, heavyMs=120000; bool dump=false;
  std::unordered_map<u64,std::pair<std::vector<Expr*>,std::pair<Res,std::vector<std::pair<u32,u64>>>>> cache;
  Solver(ExprDB&d):db(d){ Z3_config c=Z3_mk_config(); Z3_global_param_set("model.completion","false"); ctx=Z3_mk_context(c); Z3_set_error_handler(ctx,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); }); newInc(); }
  void newInc(){ inc=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,inc); lit.clear(); incCount=0; }
  Z3_sort bv(unsigned w){ return Z3_mk_bv_sort(ctx,w); }
  Z3_ast num(u128 v,unsigned w){ if(w<=64) return Z3_mk_unsigned_int64(ctx,(u64)v,bv(w)); 
    return Z3_mk_concat(ctx,Z3_mk_unsigned_int64(ctx,(u64)(v>>64),bv(w-64)),Z3_mk_unsigned_int64(ctx,(u64)v,bv(64))); }
  Z3_sort fp(unsigned w){ return w==79? Z3_mk_fpa_sort(ctx,15,64): w==64? Z3_mk_fpa_sort_64(ctx):Z3_mk_fpa_sort_32(ctx); }
  Z3_ast tofp(Expr*e){ return Z3_mk_fpa_to_fp_bv(ctx,lo(e),fp(e->w)); }
  Z3_ast rne(){ return Z3_mk_fpa_rne(ctx); } Z3_ast rtz(){ return Z3_mk_fpa_rtz(ctx); }
  Z3_ast b2bv(Z3_ast b){ return Z3_mk_ite(ctx,b,num(1,1),num(0,1)); }
  static bool isFP(Kind k){ return k>=KFADD; }
  std::unordered_map<Expr*,bool> fpmemo;
  bool hasFP(Expr*e){ if(e->k==KCONST||e->k==KVAR) return false; auto it=fpmemo.find(e); if(it!=fpmemo.end()) return it->second; bool r=isFP(e->k)||(e->a&&hasFP(e->a))||(e->b&&hasFP(e->b))||(e->d&&hasFP(e->d)); return fpmemo[e]=r; }
  // boolean lowering of width-1 expressions
  Z3_ast lob(Expr*e){
    if(e->z3b) return (Z3_ast)e->z3b; Z3_ast r;
    switch(e->k){
    case KCONST: r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx);break;
    case KEQ: if(e->a->w==1) r=Z3_mk_iff(ctx,lob(e->a),lob(e->b)); else r=Z3_mk_eq(ctx,lo(e->a),lo(e->b)); break;
    case KULT: r=Z3_mk_bvult(ctx,lo(e->a),lo(e->b));break; case KULE: r=Z3_mk_bvule(ctx,lo(e->a),lo(e->b));break;
    case KSLT: r=Z3_mk_bvslt(ctx,lo(e->a),lo(e->b));break; case KSLE: r=Z3_mk_bvsle(ctx,lo(e->a),lo(e->b));break;
    case KAND:{Z3_ast x[2]={lob(e->a),lob(e->b)}; r=Z3_mk_and(ctx,2,x);break;} case KOR:{Z3_ast x[2]={lob(e->a),lob(e->b)}; r=Z3_mk_or(ctx,2,x);break;}
    case KXOR: if(e->b->k==KCONST) r=e->b->c? Z3_mk_not(ctx,lob(e->a)):lob(e->a); else r=Z3_mk_xor(ctx,lob(e->a),lob(e->b)); break;
    case KITE: r=Z3_mk_ite(ctx,lob(e->a),lob(e->b),lob(e->d));break;
    case KFEQ: r=Z3_mk_fpa_eq(ctx,tofp(e->a),tofp(e->b));break; case KFLT: r=Z3_mk_fpa_lt(ctx,tofp(e->a),tofp(e->b));break; case KFLE: r=Z3_mk_fpa_leq(ctx,tofp(e->a),tofp(e->b));break;
    case KFNAN: r=Z3_mk_fpa_is_nan(ctx,tofp(e->a));break;
    default: r=Z3_mk_eq(ctx,lo2(e),num(1,1)); }
    e->z3b=(void*)r; return r;
  }
  Z3_ast lo(Expr*e){ if(e->z3) return (Z3_ast)e->z3;
    // iterative for depth
    Z3_ast r; bool boolish = e->w==1 && (e->k==KEQ||e->k==KULT||e->k==KULE||e->k==KSLT||e->k==KSLE||e->k==KFEQ||e->k==KFLT||e->k==KFLE||e->k==KFNAN||((e->k==KAND||e->k==KOR||e->k==KXOR||e->k==KITE)));
    r= boolish? b2bv(lob(e)) : lo2(e); e->z3=(void*)r; return r; }
  Z3_ast lo2(Expr*e){
    if(e->z3) return (Z3_ast)e->z3; Z3_ast r; unsigned w=e->w;
    switch(e->k){
    case KCONST: r=num(CV(e),w);break;
    case KVAR: r=Z3_mk_const(ctx,Z3_mk_int_symbol(ctx,(int)e->c),bv(w));break;
    case KADD:r=Z3_mk_bvadd(ctx,lo(e->a),lo(e->b));break; case KSUB:r=Z3_mk_bvsub(ctx,lo(e->a),lo(e->b));break; case KMUL:r=Z3_mk_bvmul(ctx,lo(e->a),lo(e->b));break;
    case KUDIV:r=Z3_mk_bvudiv(ctx,lo(e->a),lo(e->b));break; case KSDIV:r=Z3_mk_bvsdiv(ctx,lo(e->a),lo(e->b));break; case KUREM:r=Z3_mk_bvurem(ctx,lo(e->a),lo(e->b));break; case KSREM:r=Z3_mk_bvsrem(ctx,lo(e->a),lo(e->b));break;
    case KAND:r=Z3_mk_bvand(ctx,lo(e->a),lo(e->b));break; case KOR:r=Z3_mk_bvor(ctx,lo(e->a),lo(e->b));break; case KXOR:r=Z3_mk_bvxor(ctx,lo(e->a),lo(e->b));break;
    case KSHL:r=Z3_mk_bvshl(ctx,lo(e->a),lo(e->b));break; case KLSHR:r=Z3_mk_bvlshr(ctx,lo(e->a),lo(e->b));break; case KASHR:r=Z3_mk_bvashr(ctx,lo(e->a),lo(e->b));break;
    case KITE:r=Z3_mk_ite(ctx,lob(e->a),lo(e->b),lo(e->d));break;
    case KCONCAT:r=Z3_mk_concat(ctx,lo(e->a),lo(e->b));break; case KEXTRACT:r=Z3_mk_extract(ctx,(unsigned)e->c+w-1,(unsigned)e->c,lo(e->a));break;
    case KZEXT:r=Z3_mk_zero_ext(ctx,w-e->a->w,lo(e->a));break; case KSEXT:r=Z3_mk_sign_ext(ctx,w-e->a->w,lo(e->a));break;
    case KFADD:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_add(ctx,rne(),tofp(e->a),tofp(e->b)));break; case KFSUB:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_sub(ctx,rne(),tofp(e->a),tofp(e->b)));break;
    case KFMUL:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_mul(ctx,rne(),tofp(e->a),tofp(e->b)));break; case KFDIV:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_div(ctx,rne(),tofp(e->a),tofp(e->b)));break;
    case KFREM:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_rem(ctx,tofp(e->a),tofp(e->b)));break;
    case KFPEXT:case KFPTRUNC:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_float(ctx,rne(),tofp(e->a),fp(w)));break;
    case KSITOFP:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_signed(ctx,rne(),lo(e->a),fp(w)));break; case KUITOFP:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_to_fp_unsigned(ctx,rne(),lo(e->a),fp(w)));break;
    case KFPTOSI:r=Z3_mk_fpa_to_sbv(ctx,rtz(),tofp(e->a),w);break; case KFPTOUI:r=Z3_mk_fpa_to_ubv(ctx,rtz(),tofp(e->a),w);break;
    case KFSQRT:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_sqrt(ctx,rne(),tofp(e->a)));break;
    case KFTRUNC:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_round_to_integral(ctx,rtz(),tofp(e->a)));break;
    case KFFLOOR:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtn(ctx),tofp(e->a)));break;
    case KFCEIL:r=Z3_mk_fpa_to_ieee_bv(ctx,Z3_mk_fpa_round_to_integral(ctx,Z3_mk_fpa_rtp(ctx),tofp(e->a)));break;
    default: r=b2bv(lob(e)); }
    e->z3=(void*)r; return r;
  }
  // ---- abstraction of floating-point operations by fresh variables
  std::unordered_map<Expr*,Expr*> absMemo; std::vector<Expr*> absSeen;
  Expr* abs(Expr*e){ if(!hasFP(e)) return e; auto it=absMemo.find(e); if(it!=absMemo.end()) return it->second; Expr*r;
    if(isFP(e->k)) r=db.var("fp",e->w);
    else { Expr*a=e->a?abs(e->a):0,*b=e->b?abs(e->b):0,*d=e->d?abs(e->d):0; switch(e->k){ case KITE:r=db.ite(a,b,d);break; case KCONCAT:r=db.concat(a,b);break; case KEXTRACT:r=db.extract(a,(unsigned)e->c,e->w);break; case KZEXT:r=db.zext(a,e->w);break; case KSEXT:r=db.sext(a,e->w);break; case KXOR: r= e->w==1&&b->k==KCONST&&b->c==1? db.notE(a):db.bin(KXOR,a,b);break; default:r=db.bin(e->k,a,b);} }
    return absMemo[e]=r; }
  void fpNodes(Expr*e,std::unordered_set<Expr*>&seen,std::vector<Expr*>&out){ if(!hasFP(e)||!seen.insert(e).second) return; if(isFP(e->k)){ out.push_back(e); } for(Expr*c:{e->a,e->b,e->d}) if(c) fpNodes(c,seen,out); }
  // Every compared value gets a rank in one total order (shared by the widths: widening is
  // exact), a NaN flag and a finite flag; axioms hold for every IEEE value, so UNSAT is sound.
  static Expr* isMag(Expr*e){ if(e->w>=32&&e->k==KAND&&e->b->k==KCONST&&CV(e->b)==(MASK(e->w)>>1)) return e->a; if(e->w>=32&&e->k==KZEXT&&e->a->k==KEXTRACT&&e->a->c==0&&e->a->w==e->w-1&&e->a->a->w==e->w) return e->a->a; return nullptr; }
  static bool isNeg(Expr*e){ return e->k==KXOR&&e->w>=32&&e->b->k==KCONST&&CV(e->b)==((u128)1<<(e->w-1)); }
  static Expr* strip(Expr*e){ while(e->k==KFPEXT) e=e->a; return e; }
  bool nonneg(Expr*e){ e=strip(e); if(isMag(e)) return true; if(e->k==KCONST) return !(CV(e)>>(e->w-1)&1); if(e->k==KUITOFP||e->k==KFSQRT) return e->k==KUITOFP; if(e->k==KFMUL||e->k==KFADD) return nonneg(e->a)&&nonneg(e->b); return false; }
  std::unordered_map<Expr*,Expr*> rankMemo,finMemo; std::map<long double,Expr*> constRank;
  Expr* rankOf(Expr*e){ e=strip(e); if(e->k==KCONST){ long double v=BF(CV(e),e->w); if(v==0) v=0; auto&r=constRank[v]; if(!r) r=db.var("rank",12); return r; } auto&r=rankMemo[e]; if(!r) r=db.var("rank",12); return r; }
  Expr* nanOf(Expr*e){ for(;;){ e=strip(e); if(Expr*q=isMag(e)) e=q; else if(isNeg(e)) e=e->a; else break; } if(e->k==KCONST) return std::isnan(BF(CV(e),e->w))? db.T():db.F(); if(e->k==KSITOFP||e->k==KUITOFP) return db.F(); return abs(db.un(KFNAN,e,1)); }
  Expr* finOf(Expr*e){ for(;;){ e=strip(e); if(Expr*q=isMag(e)) e=q; else if(isNeg(e)) e=e->a; else break; } if(e->k==KCONST) return std::isfinite(BF(CV(e),e->w))? db.T():db.F(); if(e->k==KSITOFP||e->k==KUITOFP) return db.T(); auto&r=finMemo[e]; if(!r) r=db.var("fin",1); return r; }
  // exponent width of the narrowest format the value surely fits: products and differences of narrow values stay finite in a wide format
  unsigned srcW(Expr*e){ for(;;){ if(Expr*q=isMag(e)) e=q; else if(e->k==KFPEXT||isNeg(e)) e=e->a; else break; } if(e->k==KSITOFP||e->k==KUITOFP) return 64; return e->w; }
  Res checkAbstract(const std::vector<Expr*>&cs){ std::vector<Expr*> as; std::unordered_set<Expr*> seen; std::vector<Expr*> fs; for(Expr*e:cs){ as.push_back(abs(e)); fpNodes(e,seen,fs); }
    auto add=[&](Expr*q){ if(q->k!=KCONST||!q->c) as.push_back(q); }; auto imp=[&](Expr*p,Expr*q){ add(db.orE(db.notE(p),q)); };
    std::unordered_set<Expr*> terms; std::vector<Expr*> tl; std::vector<Expr*> cmps; auto term=[&](Expr*e){ e=strip(e); if(terms.insert(e).second) tl.push_back(e); };
    for(Expr*f:fs) if(f->k==KFLT||f->k==KFEQ){ cmps.push_back(f); term(f->a); term(f->b); }
    if(tl.size()>200) return check(as,nullptr);
    // close the terms under the operands of products
    for(size_t i=0;i<tl.size()&&tl.size()<200;i++) if(tl[i]->k==KFMUL){ term(tl[i]->a); term(tl[i]->b); }
    for(Expr*f:cmps){ Expr*x=f->a,*y=f->b,*rx=rankOf(x),*ry=rankOf(y),*n=db.orE(nanOf(x),nanOf(y)); Expr*v=abs(f); Expr*c=f->k==KFLT? db.bin(KULT,rx,ry):db.eq(rx,ry); add(db.eq(v,db.andE(db.notE(n),c))); }
    Expr*zero=nullptr; for(Expr*t:tl){ if(t->k==KCONST) continue; if(nonneg(t)){ if(!zero) zero=rankOf(db.K(0,t->w)); imp(db.notE(nanOf(t)),db.bin(KULE,zero,rankOf(t))); } imp(finOf(t),db.notE(nanOf(t))); }
    { Expr*prev=nullptr; long double pv=0; for(auto&c:constRank){ if(prev&&!std::isnan(c.first)) add(db.bin(KULT,prev,c.second)); prev=c.second; pv=c.first; } (void)pv; }
    for(auto&c:constRank) if(std::isinf(c.first)) for(Expr*t:tl) if(t->k!=KCONST) imp(finOf(t),c.first>0? db.bin(KULT,rankOf(t),c.second):db.bin(KULT,c.second,rankOf(t)));
    // operations
    std::vector<Expr*> muls; for(Expr*f:fs){ Expr*v=f; if(f->k==KFSUB&&f->a==f->b&&!f->a->c){}
      if(f->k==KFSUB&&f->a==f->b){ imp(finOf(f->a),db.notE(nanOf(f))); imp(db.notE(finOf(f->a)),nanOf(f)); imp(finOf(f->a),db.eq(rankOf(f),rankOf(db.K(0,f->w)))); Expr*mg=db.bin(KAND,f,db.K(MASK(f->w)>>1,f->w)); imp(finOf(f->a),db.eq(rankOf(mg),rankOf(db.K(0,f->w)))); imp(finOf(f->a),finOf(f)); }
      else if((f->k==KFSUB||f->k==KFADD||f->k==KFMUL)&&f->w==79&&srcW(f->a)<=64&&srcW(f->b)<=64) imp(db.andE(finOf(f->a),finOf(f->b)),finOf(f));
      if(f->k>=KFADD&&f->k<=KFDIV) imp(finOf(f),db.notE(nanOf(f)));
      if(f->k==KFMUL) muls.push_back(f); }
    if(muls.size()<=24) for(size_t i=0;i<muls.size();i++) for(size_t j=0;j<muls.size();j++) if(i!=j){ Expr*p=muls[i],*q=muls[j]; for(int u=0;u<2;u++) for(int v=0;v<2;v++){ Expr*x=u?p->b:p->a,*y=v?q->b:q->a,*ox=u?p->a:p->b,*oy=v?q->a:q->b; if(x==y&&ox!=oy&&nonneg(x)&&nonneg(ox)&&nonneg(oy)) imp(db.andE(db.bin(KULE,rankOf(ox),rankOf(oy)),db.andE(db.notE(db.orE(nanOf(p),nanOf(q))),db.notE(db.orE(nanOf(ox),nanOf(oy))))),db.bin(KULE,rankOf(p),rankOf(q))); } }
    // equal operands, equal results
    if(fs.size()<=60) for(size_t i=0;i<fs.size();i++) for(size_t j=i+1;j<fs.size();j++){ Expr*p=fs[i],*q=fs[j]; if(p->k!=q->k||p->w!=q->w||p->a->w!=q->a->w||p->k==KFEQ||p->k==KFLT) continue; Expr*c=db.eq(abs(p->a),abs(q->a)); if(p->b) c=db.andE(c,db.eq(abs(p->b),abs(q->b))); if(c->k==KCONST&&!c->c) continue; imp(c,db.eq(abs(p),abs(q))); }
    return check(as,nullptr); }
  // ---- linear integer arithmetic: exact for sums and multiples by constants, everything else opaque (used for UNSAT only)
  struct LI{ Z3_ast t; u128 lo,hi; }; std::unordered_map<Expr*,LI> lmemo; std::vector<Z3_ast> lside; Z3_sort is(){ return Z3_mk_int_sort(ctx); }
  Z3_ast inum(u128 v){ char b[48]; int i=47; b[i]=0; if(!v) b[--i]='0'; while(v){ b[--i]='0'+(int)(v%10); v/=10; } return Z3_mk_numeral(ctx,b+i,is()); }
  Z3_ast lbound(Z3_ast t,u128 lo,u128 hi){ Z3_ast x[2]={Z3_mk_ge(ctx,t,inum(lo)),Z3_mk_le(ctx,t,inum(hi))}; return Z3_mk_and(ctx,2,x); }
  Z3_ast opaqueInt(u128 lo,u128 hi){ Z3_ast v=Z3_mk_fresh_const(ctx,"i",is()); lside.push_back(lbound(v,lo,hi)); return v; }
  Z3_ast wrapTo(Z3_ast t,unsigned w,i128 kmin,i128 kmax){ Z3_ast r=opaqueInt(0,MASK(w)); Z3_ast k=Z3_mk_fresh_const(ctx,"k",is()); auto sn=[&](i128 v){ return v<0? Z3_mk_unary_minus(ctx,inum((u128)-v)):inum((u128)v); }; lside.push_back(Z3_mk_ge(ctx,k,sn(kmin))); lside.push_back(Z3_mk_le(ctx,k,sn(kmax))); Z3_ast m[2]={k,inum((u128)1<<w)}; Z3_ast s[2]={r,Z3_mk_mul(ctx,2,m)}; lside.push_back(Z3_mk_eq(ctx,t,Z3_mk_add(ctx,2,s))); return r; }
  LI li(Expr*e){ auto it=lmemo.find(e); if(it!=lmemo.end()) return it->second; unsigned w=e->w; u128 M=MASK(w); LI r{nullptr,0,M};
    auto two=[&](bool mul,Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return mul? Z3_mk_mul(ctx,2,x):Z3_mk_add(ctx,2,x); };
    if(e->k==KCONST) r={inum(CV(e)),CV(e),CV(e)};
    else if(w<=64&&e->k==KZEXT) r=li(e->a);
    else if(w<=64&&e->k==KCONCAT){ LI a=li(e->a),b=li(e->b); u128 p=(u128)1<<e->b->w; r={two(false,two(true,a.t,inum(p)),b.t),a.lo*p+b.lo,a.hi*p+b.hi}; }
    else if(w<=64&&e->k==KADD){ LI a=li(e->a),b=li(e->b); if(e->b->k==KCONST&&CV(e->b)>(M>>1)){ u128 n=M+1-CV(e->b); Z3_ast x[2]={a.t,inum(n)}; Z3_ast t=Z3_mk_sub(ctx,2,x); if(a.lo>=n) r={t,a.lo-n,a.hi-n}; else r={wrapTo(t,w,-1,0),0,M}; } else { Z3_ast t=two(false,a.t,b.t); if(a.hi+b.hi<=M) r={t,a.lo+b.lo,a.hi+b.hi}; else r={wrapTo(t,w,0,1),0,M}; } }
    else if(w<=64&&e->k==KSUB){ LI a=li(e->a),b=li(e->b); Z3_ast x[2]={a.t,b.t}; Z3_ast t=Z3_mk_sub(ctx,2,x); if(a.lo>=b.hi) r={t,a.lo-b.hi,a.hi-b.lo}; else r={wrapTo(t,w,-1,0),0,M}; }
    else if(w<=64&&e->k==KMUL&&e->b->k==KCONST&&CV(e->b)<((u128)1<<60)){ LI a=li(e->a); u128 c=CV(e->b); Z3_ast t=two(true,a.t,inum(c)); if(a.hi*c<=M) r={t,a.lo*c,a.hi*c}; else r={wrapTo(t,w,0,(i128)((a.hi*c)>>w)),0,M}; }
    else if(w<=64&&e->k==KEXTRACT&&e->c==0&&e->a->w<=64){ LI a=li(e->a); if(a.hi<=M) r=a; else r={wrapTo(a.t,w,0,(i128)(a.hi>>w)),0,M}; }
    else if(w<=64&&w>1&&e->k==KITE){ Z3_ast c=lb(e->a); LI a=li(e->b),b=li(e->d); r={Z3_mk_ite(ctx,c,a.t,b.t),std::min(a.lo,b.lo),std::max(a.hi,b.hi)}; }
    else r.t=opaqueInt(0,M);
    return lmemo[e]=r; }
  std::unordered_map<Expr*,Z3_ast> lbmemo;
  Z3_ast lb(Expr*e){ auto it=lbmemo.find(e); if(it!=lbmemo.end()) return it->second; Z3_ast r=nullptr; auto sgn=[&](Expr*x){ LI a=li(x); u128 h=(u128)1<<(x->w-1); if(a.hi<h) return a.t; Z3_ast y[2]={a.t,inum((u128)1<<x->w)}; return Z3_mk_ite(ctx,Z3_mk_ge(ctx,a.t,inum(h)),Z3_mk_sub(ctx,2,y),a.t); };
    auto&vs=db.varsOf(e);
    if(e->k==KCONST) r=e->c?Z3_mk_true(ctx):Z3_mk_false(ctx);
    else if(vs.size()==1&&db.vars[vs[0]].w==8&&e->size<64&&e->w==1&&!hasFP(e)){ u32 v=vs[0]; u64 save=db.assign[v]; Z3_ast x=li(db.varExpr[v]).t; std::vector<Z3_ast> iv; int st=-1; for(int i=0;i<=256;i++){ bool t=false; if(i<256){ db.assign[v]=i; db.epoch++; t=db.eval(e)&1; } if(t&&st<0) st=i; if(!t&&st>=0){ iv.push_back(lbound(x,st,i-1)); st=-1; } } db.assign[v]=save; db.epoch++; r= iv.empty()? Z3_mk_false(ctx): iv.size()==1? iv[0]: Z3_mk_or(ctx,iv.size(),iv.data()); }
    else switch(e->k){ case KAND:{ Z3_ast x[2]={lb(e->a),lb(e->b)}; r=Z3_mk_and(ctx,2,x); break; } case KOR:{ Z3_ast x[2]={lb(e->a),lb(e->b)}; r=Z3_mk_or(ctx,2,x); break; } case KXOR: r= Z3_mk_xor(ctx,lb(e->a),lb(e->b)); if(e->b->k==KCONST) r=e->b->c? Z3_mk_not(ctx,lb(e->a)):lb(e->a); break; case KITE: r=Z3_mk_ite(ctx,lb(e->a),lb(e->b),lb(e->d)); break;
      case KEQ: r= e->a->w==1? Z3_mk_iff(ctx,lb(e->a),lb(e->b)): Z3_mk_eq(ctx,li(e->a).t,li(e->b).t); break; case KULT: r=Z3_mk_lt(ctx,li(e->a).t,li(e->b).t); break; case KULE: r=Z3_mk_le(ctx,li(e->a).t,li(e->b).t); break; case KSLT: r=Z3_mk_lt(ctx,sgn(e->a),sgn(e->b)); break; case KSLE: r=Z3_mk_le(ctx,sgn(e->a),sgn(e->b)); break;
      default: r=Z3_mk_fresh_const(ctx,"b",Z3_mk_bool_sort(ctx)); }
    return lbmemo[e]=r; }
  bool isLinear(Expr*e,std::unordered_set<Expr*>&seen){ if(!seen.insert(e).second) return false; if(e->k==KMUL&&e->w>=32&&e->b->k==KCONST) return true; for(Expr*c:{e->a,e->b,e->d}) if(c&&isLinear(c,seen)) return true; return false; }
  bool linearUnsat(const std::vector<Expr*>&cs){ std::unordered_set<Expr*> seen; bool any=false; for(Expr*e:cs) any=any||isLinear(e,seen); if(!any) return false;
    lmemo.clear(); lbmemo.clear(); lside.clear(); Z3_solver s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_LIA")); Z3_solver_inc_ref(ctx,s); setTimeout(s,linMs); for(Expr*e:cs) Z3_solver_assert(ctx,s,lb(e)); for(Z3_ast a:lside) Z3_solver_assert(ctx,s,a); Z3_lbool r=Z3_solver_check(ctx,s); Z3_solver_dec_ref(ctx,s); lmemo.clear(); lbmemo.clear(); lside.clear(); return r==Z3_L_FALSE; }
  unsigned linMs=4000;
  // ---- quick search for a model over interesting values
  u64 sr=0x2545F4914F6CDD1Dull; u64 rnd(){ sr^=sr<<13; sr^=sr>>7; sr^=sr<<17; return sr; }
  const std::vector<std::pair<Expr*,std::vector<Expr*>>>*digs=nullptr; // decimal digits determined by a value
  struct Read{ Expr*val,*read; unsigned w; int prec; char cv; }; std::vector<Read> reads; // values read back from text
  bool search(const std::vector<Expr*>&cs,std::vector<std::pair<u32,u64>>&m){ bool rat=false; std::vector<u32> vs; std::unordered_set<u32> seen; for(Expr*e:cs) for(u32 v:db.varsOf(e)) if(seen.insert(v).second) vs.push_back(v); std::vector<u64> save; std::vector<u32> wide; for(u32 v:vs){ save.push_back(db.assign[v]); if(db.vars[v].w>=32) wide.push_back(v); } bool ok=false;
    static const double sp[]={0,1,-1,2,0.5,0.1,1e-3,1e-6,7.6e-6,1e-8,2.2e-16,1.1e-16,1e-17,100,3,1e10,1e30,9.2e18,4.6e18,1e300,1.7e308,5e-324,1e-310,3.4e38,1e-40,1.2e-7,0.9999999}; const int NS=sizeof sp/sizeof*sp;
    auto val=[&](unsigned w)->u64{ u64 r=rnd(); int k=r%12; r=rnd(); if(w!=64&&w!=32) return r&(u64)MASK(w); 
      if(k<4){ double d=sp[r%NS]*((r>>20)&1?1:-1); return w==64?d2b(d):f2b((float)d); }
      if(k<7&&wide.size()>1){ u32 o=wide[r%wide.size()]; if(db.vars[o].w==w){ u64 x=db.assign[o]; int q=(r>>16)%6; return (q==0?x: q==1?x+1: q==2?x-1: q==3?x^(1ull<<(w-1)): q==4? x+(1ull<<((r>>24)%(w-2))): x-(1ull<<((r>>24)%(w-2))))&(u64)MASK(w); } else { double d=db.vars[o].w==64?b2d(db.assign[o]):b2f(db.assign[o]); return w==64?d2b(d):f2b((float)d); } }
      if(k<8){ i64 x=(i64)(r%2001)-1000; return (u64)x&(u64)MASK(w); } if(k<9){ u64 x=1ull<<(r%w); return (x+((r>>8)%3)-1)&(u64)MASK(w); }
      if(k<11){ double d=((double)(i64)rnd())/(double)(1ull<<(rnd()%63)); if((r>>9)&1) d=std::ldexp(d,(int)(rnd()%80)-70); return w==64?d2b(d):f2b((float)d); } return r&(u64)MASK(w); };
    double t0=now(); for(int it=0;it<60000&&!ok;it++){ if((it&255)==0&&now()-t0>4) break; for(size_t i=0;i<vs.size();i++){ u32 v=vs[i]; if(it<20000&&rnd()%3==0) db.assign[v]=save[i]; else db.assign[v]=db.vars[v].w==8? (rnd()%2?save[i]:rnd()&255): val(db.vars[v].w); } if(wide.size()>=3&&rnd()%2==0){ u32 v=wide[rnd()%wide.size()],a=wide[rnd()%wide.size()],b=wide[rnd()%wide.size()]; if(db.vars[v].w==64&&v!=a&&v!=b){ auto num=[&](u32 x)->double{ return db.vars[x].w==32? b2f(db.assign[x]): rat? (double)(i64)db.assign[x]:b2d(db.assign[x]); }; rat=rnd()&1; double x=num(a),y=num(b),q=std::fabs(x-y)/((rnd()&1)? std::fabs(x):std::fabs(y)); if(rnd()%2) q*=1+(rnd()%3?1e-3:1e-15); db.assign[v]=d2b(q); } } db.epoch++; for(auto&R:reads) if(seen.count((u32)R.read->c)){ db.assign[R.read->c]=convert((u64)db.eval(R.val),R.w,R.prec,R.cv); db.epoch++; } if(digs) for(auto&p:*digs){ u64 x=(u64)db.eval(p.first); for(size_t i=p.second.size();i-->0;x/=10) if(seen.count((u32)p.second[i]->c)) db.assign[p.second[i]->c]='0'+x%10; } db.epoch++; ok=true; for(Expr*e:cs) if(!(db.eval(e)&1)){ ok=false; break; } }
    if(ok) for(u32 v:vs) m.push_back({v,db.assign[v]}); for(size_t i=0;i<vs.size();i++) db.assign[vs[i]]=save[i]; db.epoch++; return ok; }
  // decide conjunction `cs`; model (var id,value) for the variables of cs
  Res check(std::vector<Expr*> cs, std::vector<std::pair<u32,u64>>*model, bool final=false){
    std::sort(cs.begin(),cs.end(),[](Expr*a,Expr*b){return a->id<b->id;}); cs.erase(std::unique(cs.begin(),cs.end()),cs.end());
    u64 h=1469598103934665603ull; for(Expr*e:cs) h=(h^e->id)*1099511628211ull;
    auto it=cache.find(h); if(it!=cache.end()&&it->second.first==cs){ st.cacheHits++; if(model) *model=it->second.second.second; return it->second.second.first; }
    double t0=now(); st.queries++; bool f=false; u64 sz=0; for(Expr*e:cs){ if(!f&&hasFP(e)) f=true; sz+=e->size; }
    Z3_lbool r=Z3_L_UNDEF; Z3_solver s=nullptr; bool pushed=false;
    if(f){ Res a=checkAbstract(cs); std::vector<std::pair<u32,u64>> m; Res fr=UNKNOWN_; if(a==UNSAT_) fr=UNSAT_; else if(search(cs,m)) fr=SAT_;
      if(fr!=UNKNOWN_){ double dt=now()-t0; st.time+=dt; if(dt>st.maxq) st.maxq=dt; if(fr==SAT_) st.sat++; else st.unsat++; cache[h]={cs,{fr,m}}; if(model) *model=m; return fr; } }
    if(!f&&linearUnsat(cs)){ double dt=now()-t0; st.time+=dt; if(dt>st.maxq) st.maxq=dt; st.unsat++; cache[h]={cs,{UNSAT_,{}}}; return UNSAT_; }
    if(!f&&sz<smallLimit){
      if(!small){ small=Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx,small); setTimeout(small,quickMs); }
      Z3_solver_push(ctx,small); pushed=true; for(Expr*e:cs) Z3_solver_assert(ctx,small,lob(e)); r=Z3_solver_check(ctx,small); s=small; }
    if(!f&&r==Z3_L_UNDEF){
      static unsigned lim=getenv("SYMX_INC")?atoi(getenv("SYMX_INC")):0; if(incCount>lim){ Z3_solver_dec_ref(ctx,inc); newInc(); }
      std::vector<Z3_ast> as; for(Expr*e:cs){ auto l=lit.find(e); if(l!=lit.end()) as.push_back(l->second); else { Z3_ast p=Z3_mk_fresh_const(ctx,"p",Z3_mk_bool_sort(ctx)); Z3_solver_assert(ctx,inc,Z3_mk_implies(ctx,p,lob(e))); lit[e]=p; incCount++; as.push_back(p);} }
      setTimeout(inc,quickMs); r=Z3_solver_check_assumptions(ctx,inc,as.size(),as.data()); s=inc;
      if(r==Z3_L_UNDEF){ Z3_solver_dec_ref(ctx,inc); newInc(); s=nullptr; }
    }
    Z3_solver own=nullptr;
    if(r==Z3_L_UNDEF){ st.heavy++; if(getenv("SYMX_SHOWHEAVY")){ fprintf(stderr,"HEAVY\n"); for(Expr*e:cs) fprintf(stderr,"   %s\n",db.show(e).c_str()); }
      Z3_tactic t= f? Z3_mk_tactic(ctx,"qffp"):Z3_mk_tactic(ctx,"qfbv"); Z3_tactic_inc_ref(ctx,t);
      own=Z3_mk_solver_from_tactic(ctx,t); Z3_solver_inc_ref(ctx,own); setTimeout(own,heavyMs);
      for(Expr*e:cs) Z3_solver_assert(ctx,own,lob(e)); r=Z3_solver_check(ctx,own); s=own; Z3_tactic_dec_ref(ctx,t);
      if(dump&&r==Z3_L_UNDEF){ FILE*o=fopen("/tmp/unknown.smt2","w"); if(o){ fputs(Z3_solver_to_string(ctx,own),o); fclose(o);} } }
    Res res = r==Z3_L_TRUE?SAT_: r==Z3_L_FALSE?UNSAT_:UNKNOWN_;
    std::vector<std::pair<u32,u64>> m;
    if(res==SAT_){ Z3_model mo=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,mo);
      std::unordered_set<u32> seen; for(Expr*e:cs) for(u32 v:db.varsOf(e)) if(seen.insert(v).second){ Z3_ast out; u64 x=0; if(Z3_model_eval(ctx,mo,lo(db.varExpr[v]),true,&out)) Z3_get_numeral_uint64(ctx,out,&x); m.push_back({v,x}); }
      Z3_model_dec_ref(ctx,mo); }
    if(own) Z3_solver_dec_ref(ctx,own); if(pushed) Z3_solver_pop(ctx,small,1);
    double dt=now()-t0; st.time+=dt; if(dt>st.maxq) st.maxq=dt; if(res==SAT_) st.sat++; else if(res==UNSAT_) st.unsat++; else st.unknown++;
    if(res!=UNKNOWN_){ if(cache.size()>400000) cache.clear(); cache[h]={cs,{res,m}}; }
    if(model) *model=m; return res;
  }
  void setTimeout(Z3_solver s,unsigned ms){ Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"timeout"),ms); Z3_solver_set_params(ctx,s,p); Z3_params_dec_ref(ctx,p); }
};
