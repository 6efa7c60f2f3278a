// C09 tolerant comparison, C10 integers and booleans
#include "symx.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include <limits>
#include <cmath>
using namespace testutil;
// the documented relation, in arithmetic wide enough for every operand
template<class T> static bool close(T a,T b,double tol){ long double u=a,v=b,d=__builtin_fabsl(u-v),e=__builtin_fabs(tol),eps=std::numeric_limits<T>::epsilon(); u=__builtin_fabsl(u); v=__builtin_fabsl(v); return (d<=e*u)|(d<=e*v)|((u<eps)&(v<eps)); }
static bool isFinite(double v){ return (v-v)==0; }
static void put(DoubleNumeric&m,double v){ char t[64]; symx_double_text(v,t); m.SetContent(t); }
static void put(FloatNumeric&m,float v){ char t[64]; symx_float_text(v,t); m.SetContent(t); }
static void put(IntegerNumeric&m,long v){ m.SetValue(v); }

static bool isNan(double v){ return v!=v; }
// magnitude within the values of n decimal digits (n=0: any)
static void digits(long v,unsigned n){ if(!n) return; unsigned long lo=0,hi=9,a=v<0? 0ul-(unsigned long)v:(unsigned long)v; for(unsigned i=1;i<n;i++){ lo= lo? lo*10:10; hi=i<18? hi*10+9: 9223372036854775808ul; } symx_assume((a>=lo)&(a<=hi)); }
static void narrow(double,unsigned){} static void narrow(float,unsigned){} static void narrow(long v,unsigned n){ digits(v,n); }
// mode 0: the relation; 1: reflexive; 2: symmetric; 3: the visitor uses it; 4: monotone
template<class N,class T> static void tolerant(){
  unsigned mode=symx_param("mode",0);
  T u=symx_any<T>("u"); narrow(u,symx_param("nu",0)); double tol=symx_any<double>("tol"); symx_assume(isFinite((double)u)); symx_assume(isFinite(tol));
  N a; a.SetAttributeName("a"); put(a,u);
  if(mode==1){ symx_check(a.IsEqualTolerant(a,tol),"reflexive"); N c(a); symx_check(c.IsEqualTolerant(a,tol),"reflexive"); symx_reach("end"); return; }
  T v=symx_any<T>("v"); narrow(v,symx_param("nv",0)); symx_assume(isFinite((double)v)); N b; b.SetAttributeName("a"); put(b,v);
  if(mode==0){ bool r=a.IsEqualTolerant(b,tol); symx_check(r==close<T>(u,v,tol),"the tolerant comparison is the documented relation"); symx_observe_int("r",r); symx_reach("end"); }
  if(mode==2){ symx_check(b.IsEqualTolerant(a,tol)==a.IsEqualTolerant(b,tol),"symmetric"); symx_reach("end"); }
  if(mode==4){ double t2=symx_any<double>("tol2"); symx_assume(isFinite(t2)); symx_assume(__builtin_fabs(tol)<=__builtin_fabs(t2)); symx_check(!a.IsEqualTolerant(b,tol)|b.IsEqualTolerant(a,t2),"monotone in the tolerance"); symx_reach("end"); }
  if(mode==3){ CompareVisitor c; c.SetBaselineMeasurement(&b); c.SetTolerance(tol); symx_check(c.GetTolerance()==tol,"tolerance kept"); if(tol!=0) { a.AcceptVisitor(c); symx_check(c.GetResult()==b.IsEqualTolerant(a,tol),"the comparison visitor applies its tolerance"); symx_reach("end"); } }
}
static NumericData* mk(unsigned k,double d,float f,long i,bool o){ if(k==0){ DoubleNumeric*m=new DoubleNumeric; put(*m,d); return m; } if(k==1){ FloatNumeric*m=new FloatNumeric; put(*m,f); return m; } if(k==2){ IntegerNumeric*m=new IntegerNumeric; m->SetValue(i); return m; } BooleanNumeric*m=new BooleanNumeric; m->SetValue(o); return m; }
extern "C" {
void h_tol_double(){ tolerant<DoubleNumeric,double>(); }
void h_tol_float(){ tolerant<FloatNumeric,float>(); }
void h_tol_long(){ tolerant<IntegerNumeric,long>(); } // integers through their decimal text
void h_tol_bool(){ unsigned x=symx_choice(2,"x"),y=symx_choice(2,"y"); double tol=symx_any<double>("tol"); symx_assume(isFinite(tol)); BooleanNumeric a,b; a.SetValue(x); b.SetValue(y); symx_check(a.IsEqualTolerant(b,tol)==(x==y),"booleans are equal exactly when they are the same"); symx_reach("end"); }
// numbers of different measurement types
void h_tol_mixed(){ unsigned ka=symx_choice(4,"ka"),kb=symx_choice(4,"kb"); symx_assume(ka!=kb); double d=symx_any<double>("d"),tol=symx_any<double>("tol"); float f=symx_any<float>("f"); long i=(long)(int8_t)symx_any<unsigned char>("i"); symx_assume(i>=-9&&i<=9); bool o=symx_choice(2,"o"); symx_assume(isFinite(d)&isFinite((double)f)&isFinite(tol));
  NumericData*a=mk(ka,d,f,i,o),*b=mk(kb,d,f,i,o); a->SetAttributeName("n"); b->SetAttributeName("n"); symx_check(!a->IsEqualTolerant(*b,tol),"numbers of different measurement types never compare equal");
  CompareVisitor c; c.SetBaselineMeasurement(b); c.SetTolerance(tol); a->AcceptVisitor(c); symx_check(!c.GetResult(),"numbers of different measurement types never compare equal (visitor)"); symx_check(!(*a==*b),"numbers of different measurement types never compare equal (exact)"); delete a; delete b; symx_reach("end"); }
// ------------------------------------------------------------------ C10
// exact decimal text, as an independent conversion
static bool decimalOf(const std::string&t,long v){ size_t n=t.size(); bool neg=v<0; bool ok=(n>=1u+neg)&(n<=19u+neg); if(!ok) return false; size_t k=0; if(neg){ ok&=t[0]=='-'; k=1; } unsigned long a=neg? 0ul-(unsigned long)v:(unsigned long)v,h=0; ok&=(n-k==1)|(t[k]!='0'); for(;k<n;k++){ unsigned char d=(unsigned char)(t[k]-'0'); ok&=d<10u; h=h*10+d; } return ok&(h==a); }
void h_int_text(){ long v=symx_any<long>("v"); digits(v,symx_param("n",0)); IntegerNumeric m; m.SetValue(v); symx_check(decimalOf(m.GetContent(),v),"the recorded text is the exact decimal value"); symx_observe_str("t",m.GetContent());
  symx_check(m.GetValue()==v,"reads back as the same number"); IntegerNumeric c(m); c.SetAttributeName("x"); m.SetAttributeName("x"); symx_check(c.GetValue()==v,"a copy reads back as the same number"); symx_check(c==m,"equal to itself"); symx_reach("end"); }
void h_int_differ(){ long u=symx_any<long>("u"),v=symx_any<long>("v"); digits(u,symx_param("nu",0)); digits(v,symx_param("nv",0)); IntegerNumeric a,b; a.SetAttributeName("i"); b.SetAttributeName("i"); a.SetValue(u); b.SetValue(v); { const std::string&x=a.GetContent(),&y=b.GetContent(); for(size_t i=0;i<x.size()&&i<y.size();i++) if(x[i]!=y[i]) break; } // one path per first difference
  bool e=a==b; symx_check(e==(u==v),"equal exactly when the integers are");
  CompareVisitor c; c.SetToleranceOff(); c.SetBaselineMeasurement(&b); a.AcceptVisitor(c); symx_check(c.GetResult()==(u==v),"the comparison visitor without tolerance"); symx_observe_int("e",e); symx_reach("end"); }
void h_bool(){ unsigned x=symx_choice(2,"x"),y=symx_choice(2,"y"); BooleanNumeric a,b; a.SetAttributeName("b"); b.SetAttributeName("b"); a.SetValue(x); b.SetValue(y); symx_check(a.GetValue()==(bool)x,"reads back"); symx_check(a.GetContent()==(x?"1":"0"),"recorded as 0 or 1"); symx_check((a==b)==(x==y),"equal exactly when the same"); CompareVisitor c; c.SetBaselineMeasurement(&b); a.AcceptVisitor(c); symx_check(c.GetResult()==(x==y),"visitor"); symx_reach("end"); }
}
