// Geometry measurements (itk::Regression).
#include "run.h"
#include "itktfRegression.h"
enum { SIZE1,SIZE2,SIZE3,INDEX2,INDEX3,REGION2,REGION3,POINT3,POINT2F,VECTOR3,VECTOR2F,ARRAY4,ARRAY3F,MAT23,MAT32,MAT33F,KINDS };
static bool integral(int k){ return k<=REGION3; }
static unsigned count(int k){ static const unsigned c[]={1,2,3,2,3,4,6,3,2,3,2,4,3,6,6,9}; return c[k]; }
static std::string suffix(int k,unsigned i){ char b[16]; std::string p; unsigned d; switch(k){
  case REGION2: case REGION3: d=k==REGION2?2:3; p=i<d?" Index":" Size"; b[0]='_'; b[1]=(char)('0'+i%d); b[2]=0; return p+b;
  case MAT23: case MAT32: case MAT33F: d=k==MAT32?2:3; b[0]='_'; b[1]=(char)('0'+i/d); b[2]='_'; b[3]=(char)('0'+i%d); b[4]=0; return b;
  default: b[0]='_'; b[1]=(char)('0'+i); b[2]=0; return b; } }
struct Vals { int kind; long iv[8]; double dv[12]; float fv[12]; };
static void get(const Vals&v,unsigned i,double&d){ d=v.dv[i]; }
static void get(const Vals&v,unsigned i,float&d){ d=v.fv[i]; }
struct G : itk::Regression { Vals v; std::string name; int tol,ran,sum; G():tol(-1),ran(0),sum(0){}
  template<class T> int m(int (itk::Regression::*)(const T&,const std::string&,bool),const T&){ return 0; }
#define MEASURE(FN,X) (tol<0? FN(X,name): FN(X,name,tol!=0))
  template<unsigned D> itk::Size<D> size(int o){ itk::Size<D> s; for(unsigned i=0;i<D;i++) s[i]=(unsigned long)v.iv[o+i]; return s; }
  template<unsigned D> itk::Index<D> index(int o){ itk::Index<D> s; for(unsigned i=0;i<D;i++) s[i]=v.iv[o+i]; return s; }
  template<class T> T fill(unsigned n){ T s; for(unsigned i=0;i<n;i++) get(v,i,s[i]); return s; }
  template<class M> M matrix(unsigned r,unsigned c){ M s; for(unsigned i=0;i<r;i++) for(unsigned j=0;j<c;j++) get(v,i*c+j,s(i,j)); return s; }
  int Test(int,char**){ ran++; switch(v.kind){
    case SIZE1: sum=MEASURE(MeasurementInsightSize,size<1>(0)); break; case SIZE2: sum=MEASURE(MeasurementInsightSize,size<2>(0)); break; case SIZE3: sum=MEASURE(MeasurementInsightSize,size<3>(0)); break;
    case INDEX2: sum=MEASURE(MeasurementInsightIndex,index<2>(0)); break; case INDEX3: sum=MEASURE(MeasurementInsightIndex,index<3>(0)); break;
    case REGION2: { itk::ImageRegion<2> r(index<2>(0),size<2>(2)); sum=MEASURE(MeasurementInsightRegion,r); break; } case REGION3: { itk::ImageRegion<3> r(index<3>(0),size<3>(3)); sum=MEASURE(MeasurementInsightRegion,r); break; }
    case POINT3: { typedef itk::Point<double,3> T; sum=MEASURE(MeasurementInsightPoint,fill<T>(3)); break; } case POINT2F: { typedef itk::Point<float,2> T; sum=MEASURE(MeasurementInsightPoint,fill<T>(2)); break; }
    case VECTOR3: { typedef itk::Vector<double,3> T; sum=MEASURE(MeasurementInsightVector,fill<T>(3)); break; } case VECTOR2F: { typedef itk::Vector<float,2> T; sum=MEASURE(MeasurementInsightVector,fill<T>(2)); break; }
    case ARRAY4: { typedef itk::FixedArray<double,4> T; sum=MEASURE(MeasurementInsightFixedArray,fill<T>(4)); break; } case ARRAY3F: { typedef itk::FixedArray<float,3> T; sum=MEASURE(MeasurementInsightFixedArray,fill<T>(3)); break; }
    case MAT23: { typedef itk::Matrix<double,2,3> T; sum=MEASURE(MeasurementInsightMatrix,matrix<T>(2,3)); break; } case MAT32: { typedef itk::Matrix<double,3,2> T; sum=MEASURE(MeasurementInsightMatrix,matrix<T>(3,2)); break; }
    default: { typedef itk::Matrix<float,3,3> T; sum=MEASURE(MeasurementInsightMatrix,matrix<T>(3,3)); } } return 0; }
  int go(const char*a,const char*b){ static char s[3][16]; char*v[4]; strcpy(s[0],"prog"); strcpy(s[1],a); strcpy(s[2],b); v[0]=s[0]; v[1]=s[1]; v[2]=s[2]; v[3]=0; return Main(3,v); } };
static bool isFloat(int k){ return k==POINT2F||k==VECTOR2F||k==ARRAY3F||k==MAT33F; }
// an integer of n digits (negative ones for indices)
static long integer(unsigned n,bool neg,const char*nm){ long lo=1; for(unsigned i=1;i<n;i++) lo*=10; if(n==1&&!neg) lo=0; long v=symx_any<long>(nm); long hi= n==19? 0x7fffffffffffffffl: (n==1?10:lo*10)-1; if(!neg) symx_assume((v>=lo)&(v<=hi)); else symx_assume((v<=-lo)&(v>=-hi)); return v; }
static void real(Vals&v,unsigned i,const char*nm){ if(isFloat(v.kind)){ float x=symx_any<float>(nm); symx_assume(x-x==0); v.fv[i]=x; v.dv[i]=x; } else { double x=symx_any<double>(nm); symx_assume(x-x==0); v.dv[i]=x; v.fv[i]=0; } }
static bool isIndex(int k,unsigned i){ return k==INDEX2||k==INDEX3||(k==REGION2&&i<2)||(k==REGION3&&i<3); }
static unsigned digitsOf(int k,unsigned i){ unsigned d=symx_param("digits",1); return d==19?19:1+(d+i*3)%18; }
static bool negOf(int k,unsigned i){ return isIndex(k,i)&&((symx_param("neg",0)>>i)&1); }
static Vals values(int k){ Vals v; v.kind=k; for(unsigned i=0;i<count(k);i++){ if(integral(k)) v.iv[i]=integer(digitsOf(k,i),negOf(k,i),"i"); else real(v,i,"d"); } return v; }
static std::string content(const Vals&v,unsigned i){ if(integral(v.kind)){ IntegerNumeric n; n.SetValue(v.iv[i]); return n.GetContent(); } DoubleNumeric n; n.SetValue(v.dv[i]); return n.GetContent(); }
static bool attr(XmlElement&e,const char*n,const std::string&v){ const std::string*a=e.get(n); return a&&same(*a,v); }
extern "C" {
void h_record(){ fs_dir("data"); fs_capture(); int k=symx_param("kind",0); G g; g.v=values(k); g.name=printable(symx_param("name",1),"name",false); g.tol=(int)symx_choice(3,"tol")-1;
  int r=g.go("-O","o.xml"); symx_check(g.ran==1&&r==0,"the recording run succeeds"); std::string t; symx_check(fs_read("o.xml",t),"the recording exists"); XmlElement root; XmlReader x(t); bool ok=x.document(root); symx_check(ok,"one well-formed document"); if(!ok) return;
  symx_check(root.kids.size()==count(k),"one measurement per component");
  for(unsigned i=0;i<count(k)&&i<root.kids.size();i++){ XmlElement&e=root.kids[i]; symx_check(e.name=="DartMeasurement"&&attr(e,"type",integral(k)?"numeric/integer":"numeric/double"),"of a number"); symx_check(attr(e,"name",g.name+suffix(k,i)),"in order, named by name and position"); symx_check(same(e.text,content(g.v,i)),"holding the component's value"); if(integral(k)) symx_observe_str("text",e.text); }
  symx_reach("end"); }
// one component differs from the baseline
void h_compare(){ fs_dir("data"); fs_capture(); int k=symx_param("kind",0); unsigned n=count(k),w=symx_choice(n+1,"which"); G a,b; Vals u=values(k),v=u; double step=0;
  if(w<n){ if(integral(k)){ v.iv[w]=integer(digitsOf(k,w),negOf(k,w),"other"); symx_assume(v.iv[w]!=u.iv[w]); } else { real(v,w,"other"); if(isFloat(k)) symx_assume(v.fv[w]!=u.fv[w]); else symx_assume(v.dv[w]!=u.dv[w]); } } (void)step;
  a.v=u; b.v=v; a.name=b.name="n"; b.tol=integral(k)&&symx_choice(2,"tol")?-1:0; symx_check(a.go("-O","b.xml")==0,"the recording run succeeds"); int r=b.go("-I","b.xml"); symx_check(b.ran==1,"the test runs");
  symx_check(r==(w<n),"exactly one mismatch for one differing component"); symx_check(b.sum==(int)n-(w<n),"every other component matches"); symx_observe_int("r",r); symx_reach("end"); }
// the tolerance is used when asked for and by default for real components, and only then
void h_tolerance(){ fs_dir("data"); fs_capture(); int k=symx_param("kind",0); unsigned n=count(k),w=symx_choice(n,"which"); int far=symx_choice(2,"far"); G a,b; Vals u; u.kind=k; for(unsigned i=0;i<n;i++){ u.iv[i%8]=1000000+i; u.dv[i]=1.5+i; u.fv[i]=1.5f+i; } Vals v=u; if(far){ v.iv[w%8]+=100; v.dv[w]*=1.01; v.fv[w]*=1.01f; } else { v.iv[w%8]+=1; v.dv[w]*=1.000000001; v.fv[w]*=1.000001f; }
  a.v=u; b.v=v; a.name=b.name="n"; b.tol=(int)symx_choice(3,"tol")-1; symx_check(a.go("-O","b.xml")==0,"the recording run succeeds"); int r=b.go("-I","b.xml"); bool tolerant= b.tol<0? !integral(k): b.tol;
  symx_check(r==(far||!tolerant),"a close value matches exactly when tolerance applies"); symx_check(b.sum==(int)n-r,"every other component matches"); symx_reach("end"); }
// kinds follow each other in one run
struct Seq : G { Vals w; int ret2; Seq():ret2(0){} int Test(int c,char**a){ G::Test(c,a); int s=sum; Vals t=v; v=w; G::Test(c,a); ret2=sum; v=t; sum=s; return 0; } };
void h_sequence(){ fs_dir("data"); fs_capture(); int k=symx_param("kind",0),l=symx_param("other",1); Seq g; g.v=values(k); g.w=values(l); g.name="n"; g.go("-O","o.xml"); std::string t; symx_check(fs_read("o.xml",t),"the recording exists"); XmlElement root; XmlReader x(t); bool ok=x.document(root); symx_check(ok,"one well-formed document"); if(!ok) return;
  symx_check(root.kids.size()==count(k)+count(l),"one measurement per component"); for(unsigned i=0;i<root.kids.size()&&i<count(k)+count(l);i++){ unsigned j=i<count(k)?i:i-count(k); const Vals&y=i<count(k)?g.v:g.w; symx_check(attr(root.kids[i],"name","n"+suffix(y.kind,j)),"in order, named by name and position"); symx_check(same(root.kids[i].text,content(y,j)),"holding the component's value"); } symx_reach("end"); }
}
