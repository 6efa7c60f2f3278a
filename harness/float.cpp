// C30: floating-point measurements and their text
#include "run.h"
#include <limits>
// half a unit of the last of P digits, relative (as the executor's model of printing has it)
static double halfUnit(int P,bool flt){ double t=0.5; for(int i=1;i<P;i++) t/=10; return (t+(flt?5.9604644775390625e-08:1.1102230246251565e-16))*1.00000095367431640625; }
static double mag(double v){ return __builtin_fabs(v); } static float mag(float v){ return __builtin_fabsf(v); }
template<class T> struct Of; template<> struct Of<double>{ typedef DoubleNumeric N; enum{ digits=16 }; static const char*type(){ return "numeric/double"; } }; template<> struct Of<float>{ typedef FloatNumeric N; enum{ digits=7 }; static const char*type(){ return "numeric/float"; } };
template<class T> static bool near(T r,T v){ const T u=(T)halfUnit(Of<T>::digits,sizeof(T)==4); return mag((T)(r-v))<=u*mag(v); }
template<class T> static T any(){ T v=symx_any<T>("v"); T a=mag(v); const T lo=sizeof(T)==4?(T)1e-36:(T)1e-306,hi=sizeof(T)==4?(T)1e38:(T)1e307; symx_assume((a==0)|((lo<=a)&(a<=hi))); return v; }
template<class T> static void direct(){ typedef typename Of<T>::N N; T v=any<T>(); N m; m.SetAttributeName("n"); unsigned before=symx_choice(2,"before"); if(before) m.SetValue((T)12.25); m.SetValue(v); symx_check(near<T>(m.GetValue(),v),"the recorded text reads back within the printed digits"); symx_check(m.GetValue()==m.GetValue(),"the same every time");
  N t; t.SetContent(m.GetContent()); symx_check(near<T>(t.GetValue(),v),"a measurement given the text reads back the same"); N c(m); symx_check(near<T>(c.GetValue(),v),"a copy reads back the same"); N e; e.SetValue(3); e=m; symx_check(near<T>(e.GetValue(),v),"an assigned measurement reads back the same"); symx_check(c==m,"a copy is equal"); symx_check(m.IsEqualTolerant(c,0),"a copy is equal within no tolerance"); symx_reach("end"); }
struct Recorder : Run { int isf; double d; float f; Recorder():isf(0),d(0),f(0){} int body(){ if(isf) return MeasurementNumericFloat(f,"n")<0; return MeasurementNumericDouble(d,"n")<0; } };
template<class T> static void recorded(){ typedef typename Of<T>::N N; T v=any<T>(); { Recorder r; r.isf=sizeof(T)==4; if(r.isf) r.f=(float)v; else r.d=v; symx_check(r.go("-O","out.xml")==0&&r.ran==1,"the recording run succeeds"); } std::string doc; symx_check(fs_read("out.xml",doc),"the document is there"); XmlElement root; XmlReader x(doc); symx_check(x.document(root)&&root.kids.size()==1,"it holds one measurement"); if(root.kids.size()!=1) return; XmlElement&e=root.kids[0]; const std::string*ty=e.get("type"); symx_check(ty&&*ty==Of<T>::type(),"of the type"); N t; t.SetContent(e.text); symx_check(near<T>(t.GetValue(),v),"the recorded text reads back within the printed digits"); symx_reach("end"); }
extern "C" {
void h_double(){ direct<double>(); }
void h_float(){ direct<float>(); }
void h_double_run(){ recorded<double>(); }
void h_float_run(){ recorded<float>(); }
}
