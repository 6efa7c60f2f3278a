// Images measured from memory.
#include "run.h"
#include "itktfRegression.h"
#include "imageio.h"
static double byte(const char*n){ return (double)symx_any<signed char>(n); }
template<class P,unsigned N> struct M : itk::Regression { typedef itk::Image<P,N> I; long z[3]; double sp[3],o[3]; std::vector<double> px[2]; std::string name[2]; int r[2]; double thr; unsigned tol; bool done; M():thr(0),tol(0),done(false){}
  typename I::Pointer make(int k){ typename I::Pointer p=I::New(); typename I::SizeType s; typename I::SpacingType e; typename I::PointType q; for(unsigned i=0;i<N;i++){ s[i]=z[i]; e[i]=sp[i]; q[i]=o[i]; } p->SetRegions(s); p->SetSpacing(e); p->SetOrigin(q); p->Allocate(); P*b=p->GetBufferPointer(); for(size_t i=0;i<px[k].size();i++) b[i]=(P)px[k][i]; return p; }
  int Test(int,char**){ if(tol||thr!=0) SetImageInsightTolerance(thr,tol); for(int k=0;k<2;k++) r[k]=MeasurementInsightImage<I>(make(k),name[k]); done=true; return 0; }
  int go(const char*a,const char*b){ static char s[3][16]; char*v[4]; strcpy(s[0],"prog"); strcpy(s[1],a); strcpy(s[2],b); v[0]=s[0]; v[1]=s[1]; v[2]=s[2]; v[3]=0; return Main(3,v); } };
static void size(long*z,unsigned n){ unsigned p=symx_param("size",11); z[0]=p%10; z[1]=p/10%10; z[2]=n>2?p/100:1; }
static std::vector<double> pixels(const long*z,const char*n){ std::vector<double> v; for(long i=0;i<z[0]*z[1]*z[2];i++) v.push_back(byte(n)); return v; }
static bool attr(XmlElement&e,const char*n,const std::string&v){ const std::string*a=e.get(n); return a&&same(*a,v); }
// any value of the pixel type
template<class P> static std::vector<double> values(const long*z,const char*n){ std::vector<double> v; for(long i=0;i<z[0]*z[1]*z[2];i++){ P x=symx_any<P>(n); symx_assume(x==x); v.push_back((double)x); } return v; }
static double finite(const char*n){ double d=symx_any<double>(n); symx_assume(d-d==0); return d; }
template<class P,unsigned N> void init(M<P,N>&m){ size(m.z,N); for(int i=0;i<3;i++){ m.sp[i]=0.5+i; m.o[i]=i; } m.name[0]="one"; m.name[1]="two"; }
template<class P,unsigned N> void record(){ images(); fs_capture(); fs_dir("data"); M<P,N> m; init(m); for(unsigned i=0;i<N;i++) m.o[i]=finite("origin"); for(int k=0;k<2;k++){ m.px[k]=values<P>(m.z,"px"); m.name[k]=printable(symx_param("name",1),"name",false); }
  int r=m.go("-O","o.xml"); symx_check(r==0&&m.done,"the recording run succeeds"); std::string t; symx_check(fs_read("o.xml",t),"the recording exists"); XmlElement root; XmlReader x(t); bool ok=x.document(root); symx_check(ok,"one well-formed document"); if(!ok) return; symx_check(root.kids.size()==2,"one measurement for each image"); symx_check(pics().size()==2,"one file for each image"); std::string before;
  for(unsigned k=0;k<2&&k<root.kids.size();k++){ XmlElement&e=root.kids[k]; symx_check(e.name=="DartMeasurementFile"&&attr(e,"type","image/itk")&&attr(e,"name",m.name[k]),"an image of that name"); symx_check(e.text!=before,"the files differ"); before=e.text; std::map<std::string,Pic>::iterator f=pics().find(e.text); symx_check(f!=pics().end(),"the file holds the image"); if(f==pics().end()) continue; Pic&p=f->second; bool geo=p.dims==N&&p.writes==1; for(unsigned i=0;i<N;i++) geo&=(p.size[i]==m.z[i])&(p.spacing[i]==m.sp[i])&(p.origin[i]==m.o[i]); symx_check(geo,"with its geometry"); bool eq=p.px.size()==m.px[k].size(); if(eq) for(size_t i=0;i<p.px.size();i++) eq&=p.px[i]==m.px[k][i]; symx_check(eq,"and its pixels"); } symx_reach("end"); }
template<class P,unsigned N> void compare(){ images(); fs_capture(); fs_dir("data"); fs_dir("out"); M<P,N> a,b; init(a); init(b); int want=0; bool bad[2]; if(symx_param("tolerance",0)){ b.thr=(double)symx_any<unsigned char>("thr"); b.tol=symx_choice(2,"tol"); } for(int k=0;k<2;k++){ a.px[k]=pixels(a.z,"base"); b.px[k]=a.px[k]; size_t at=symx_choice(a.px[k].size(),"at"); b.px[k][at]=byte("test"); double d=b.px[k][at]-a.px[k][at]; unsigned n=!(__builtin_fabs(d)<=b.thr); bad[k]=n>b.tol; want+=bad[k]; } if(symx_param("shift",0)){ unsigned i=symx_choice(N,"axis"); b.o[i]=finite("origin"); bool s=b.o[i]!=a.o[i]; want=0; for(int k=0;k<2;k++){ bad[k]|=s; want+=bad[k]; } }
  symx_check(a.go("-O","b.xml")==0&&a.done,"the recording run succeeds"); std::map<std::string,Pic> old=pics(); pics().clear(); for(std::map<std::string,Pic>::iterator i=old.begin();i!=old.end();++i) pic(("data/"+i->first).c_str(),i->second);
  int r=b.go("-I","b.xml"); symx_check(b.done,"the test runs"); symx_check(r==want,"one mismatch for each image that differs"); for(int k=0;k<2;k++) symx_check(b.r[k]==!bad[k],"each image is compared with its own baseline"); symx_observe_int("r",r); symx_reach("end"); }
extern "C" {
void h_record_double2(){ record<double,2>(); }
void h_record_short3(){ record<short,3>(); }
void h_record_float2(){ record<float,2>(); }
void h_compare_double2(){ compare<double,2>(); }
void h_compare_short3(){ compare<short,3>(); }
}
