// Image comparison: in memory, between files, as a measurement.
#include "run.h"
#include "itktfRegression.h"
#include "imageio.h"
enum { W=0, H=1, D=2 };
static double byte(const char*n){ return (double)symx_any<unsigned char>(n); }
static double gap(double c,double t){ return ((c==t)|((c!=c)&(t!=t)))? 0: __builtin_fabs(c-t); }
// the number of pixels that differ: no test pixel within the radius (edges replicated) is within the threshold
struct Box { long lo[3],hi[3]; };
static Box whole(const long*z){ Box b; for(int i=0;i<3;i++){ b.lo[i]=0; b.hi[i]=z[i]; } return b; }
static unsigned long differing(const std::vector<double>&base,const std::vector<double>&test,const long*z,const Box&q,double thr,long R){
  unsigned long n=0; for(long k=q.lo[2];k<q.hi[2];k++) for(long j=q.lo[1];j<q.hi[1];j++) for(long i=q.lo[0];i<q.hi[0];i++){ double c=base[(k*z[1]+j)*z[0]+i]; unsigned near=0; for(long w=-R;w<=R;w++) for(long v=-R;v<=R;v++) for(long u=-R;u<=R;u++){ long x=i+u,y=j+v,s=k+w; x=x<q.lo[0]?q.lo[0]:x>=q.hi[0]?q.hi[0]-1:x; y=y<q.lo[1]?q.lo[1]:y>=q.hi[1]?q.hi[1]-1:y; s=s<q.lo[2]?q.lo[2]:s>=q.hi[2]?q.hi[2]-1:s; double t=test[(s*z[1]+y)*z[0]+x]; near|=gap(c,t)<=thr; } n+=!near; } return n; }
static unsigned long beyond(unsigned long n,unsigned long tol){ return n<=tol? 0: n-tol; }
template<class P,unsigned N> typename itk::Image<P,N>::Pointer make(const long*z,const std::vector<double>&v,long x0=0){ typedef itk::Image<P,N> I; typename I::Pointer p=I::New(); typename I::IndexType x; typename I::SizeType s; for(unsigned i=0;i<N;i++){ x[i]=x0; s[i]=z[i]; } p->SetRegions(typename I::RegionType(x,s)); p->Allocate(); P*b=p->GetBufferPointer(); for(size_t i=0;i<v.size();i++) b[i]=(P)v[i]; return p; }
static bool anyPixels(){ return symx_param("any",0); }
static double threshold(){ if(!anyPixels()) return byte("thr"); double t=symx_any<double>("thr"); symx_assume(t>=0); return t; }
static std::vector<double> pixels(const long*z,const char*n){ std::vector<double> v; unsigned long c=z[0]*z[1]*z[2]; for(unsigned long i=0;i<c;i++) v.push_back(anyPixels()? symx_any<double>(n): byte(n)); return v; }
// sizes are parameters of the form 100*depth+10*height+width
static void dims(const char*name,long*z,unsigned n){ unsigned p=symx_param(name,11); z[0]=p%10; z[1]=p/10%10; z[2]=n>2?p/100:1; }
template<class P,unsigned N> static void image(){ typedef itk::Image<P,N> I; long a[3],b[3]; dims("base",a,N); dims("test",b,N); std::vector<double> base=pixels(a,"base"),test=pixels(b,"test"); long x0=symx_param("x0",0),R=symx_param("radius",0); typename I::Pointer bi=make<P,N>(a,base,x0),ti=make<P,N>(b,test,x0); bool diffsize=false; for(int i=0;i<3;i++) diffsize|=a[i]!=b[i]; bool given=symx_param("region",0); typename I::RegionType r; Box q=whole(a);
  if(given){ typename I::IndexType x; typename I::SizeType s; for(unsigned i=0;i<N;i++){ q.lo[i]=symx_choice(a[i],"from"); q.hi[i]=q.lo[i]+1+symx_choice(a[i]-q.lo[i],"size"); x[i]=x0+q.lo[i]; s[i]=q.hi[i]-q.lo[i]; } r=typename I::RegionType(x,s); }
  unsigned form=symx_param("form",0); double thr=0; unsigned tol=0; unsigned long got;
  typename I::ConstPointer ct=ti.GetPointer(),cb=bi.GetPointer();
  if(form==0){ thr=byte("thr"); tol=symx_any<unsigned>("tol"); got= given? itk::Regression::CompareImage<I>(ct,cb,thr,tol,R,r): itk::Regression::CompareImage<I>(ct,cb,thr,tol,R); }
  else if(form==1){ R=0; got= given? itk::Regression::CompareImage<I>(ct,cb,r): itk::Regression::CompareImage<I>(ct,cb); }
  else { thr=byte("thr"); R=0; got=itk::Regression::CompareImage<I>(ct,cb,thr); }
  if(diffsize&&!given){ symx_check(got==itk::NumericTraits<unsigned long>::max(),"the largest value for different sizes"); symx_reach("end"); return; }
  unsigned long want=differing(base,test,a,q,thr,R);
  if(!given||R==0) symx_check(got==beyond(want,tol),"how far the number of differing pixels exceeds the tolerance"); 
  else { // neighbours outside of the region may be looked at, or not
    Box all=whole(a); unsigned long n=0,least=0; for(long k=q.lo[2];k<q.hi[2];k++) for(long j=q.lo[1];j<q.hi[1];j++) for(long i=q.lo[0];i<q.hi[0];i++){ (void)n; double c=base[(k*a[1]+j)*a[0]+i]; unsigned near=0; for(long w=-R;w<=R;w++) for(long v=-R;v<=R;v++) for(long u=-R;u<=R;u++){ long x=i+u,y=j+v,s=k+w; if(x<0||y<0||s<0||x>=a[0]||y>=a[1]||s>=a[2]) continue; double t=test[(s*a[1]+y)*a[0]+x]; near|=gap(c,t)<=thr; } least+=!near; } (void)all;
    symx_check((got<=beyond(want,tol))&(got>=beyond(least,tol)),"how far the number of differing pixels in the region exceeds the tolerance"); }
  symx_observe_int("got",got==0); symx_reach("end"); }
// one image of the given name
static Pic picture(const char*par,const char*name){ Pic p; unsigned d=symx_param(par,11); p.dims=d>99?3:2; p.size[0]=d%10; p.size[1]=d/10%10; p.size[2]=d>99?d/100:1; p.px=pixels(p.size,name); return p; }
static bool sized(const Pic&a,const Pic&b){ return a.size[0]==b.size[0]&&a.size[1]==b.size[1]&&a.size[2]==b.size[2]; }
static double space(unsigned k){ return k==0?1.0:k==1?1.0000000000000002:2.5; }
struct Case { Pic b,t; bool equal,fault; double thr; unsigned tol,radius; };
// every difference that matters, alone or with others
static Case make_case(){ Case c; images(); c.b=picture("base","base"); c.t=picture("test","test"); c.equal=sized(c.b,c.t); c.fault=false;
  switch(symx_param("geometry",0)){ case 1: { unsigned d=symx_choice(3,"axis"); c.b.spacing[d]=space(symx_choice(3,"bs")); c.t.spacing[d]=space(symx_choice(3,"ts")); break; }
    case 2: for(unsigned d=0;d<c.b.dims;d++){ c.b.origin[d]=symx_any<double>("bo"); symx_assume(c.b.origin[d]-c.b.origin[d]==0); c.t.origin[d]=symx_any<double>("to"); symx_assume(c.t.origin[d]-c.t.origin[d]==0); } break; }
  bool geo=true; for(unsigned d=0;d<c.b.dims;d++) geo&=(c.b.spacing[d]==c.t.spacing[d])&(c.b.origin[d]==c.t.origin[d]); c.equal&=geo;
  if(symx_param("fault",0)){ c.b.fault=symx_choice(5,"bfault"); c.t.fault=symx_choice(5,"tfault"); c.fault=c.b.fault||c.t.fault; }
  c.thr=symx_param("thr",1)?threshold():0; c.tol=symx_param("tol",1)?symx_any<unsigned>("tol"):0; c.radius=symx_param("radius",0);
  if(sized(c.b,c.t)) c.equal=c.equal&(differing(c.b.px,c.t.px,c.b.size,whole(c.b.size),c.thr,c.radius)<=c.tol); c.equal=c.equal&&!c.fault;
  if(c.b.fault!=4) pic("b.img",c.b); if(c.t.fault!=4) pic("t.img",c.t); return c; }
static MeasurementFile file(const char*f,const char*type){ MeasurementFile m; m.SetAttributeName("n"); m.SetAttributeType(type); m.SetFileName(f); return m; }
// two images are measured in one run, each under its own tolerances
struct Two : itk::Regression { int how,ran; double thr[2]; unsigned tol[2],radius[2]; int ret[2]; Two():ran(0){}
  int Test(int,char**){ ran++; for(int i=0;i<2;i++){ if(how!=1||i==0){ if(how==2&&i==0) SetImageInsightTolerance(thr[i]); else SetImageInsightTolerance(thr[i],tol[i],radius[i]); } else SetImageInsightToleranceOff(); ret[i]=MeasurementInsightFileImage(i?"t/two.img":"t/one.img",i?"two":"one"); } return 0; }
  int go(const char*a,const char*b){ static char s[3][16]; char*v[4]; strcpy(s[0],"prog"); strcpy(s[1],a); strcpy(s[2],b); v[0]=s[0]; v[1]=s[1]; v[2]=s[2]; v[3]=0; return Main(3,v); } };
extern "C" {
void h_double2(){ image<double,2>(); }
void h_short2(){ image<short,2>(); }
void h_float3(){ image<float,3>(); }
// the static comparison of two files
void h_files(){ typedef itk::Image<double,3> I; Case c=make_case(); bool threw=false; unsigned long got=0; fileutil::PathName t("t.img"),b("b.img"); try { if(symx_param("form",0)) got=itk::Regression::CompareImage<I>(t,b); else got=itk::Regression::CompareImage<I>(t,b,c.thr,c.tol,c.radius); } catch(itk::ExceptionObject&){ threw=true; }
  symx_check(threw==c.fault,"fails exactly when an image cannot be read"); if(!threw){ if(!sized(c.b,c.t)) symx_check(got==itk::NumericTraits<unsigned long>::max(),"the largest value for different sizes"); else symx_check(got==beyond(differing(c.b.px,c.t.px,c.b.size,whole(c.b.size),c.thr,c.radius),c.tol),"how far the number of differing pixels exceeds the tolerance"); } symx_reach("end"); }
// the measurement visitor
void h_visit(){ fs_capture(); Case c=make_case(); MeasurementFile t=file("t.img","image/itk"),b=file("b.img","image/itk"); itk::CompareVisitor v; if(symx_param("again",0)){ Pic p; p.px.push_back(1); pic("p.img",p); p.px[0]=symx_choice(2,"first")?1:9; pic("q.img",p); bool eq=p.px[0]==1; MeasurementFile x=file("p.img","image/itk"),y=file("q.img","image/itk"); v.SetBaselineMeasurement(&x); y.AcceptVisitor(v); symx_check(v.GetResult()==eq,"an earlier comparison"); }
  switch(symx_param("set",0)){ case 0: v.SetImageInsightTolerance(c.thr,c.tol,c.radius); break; case 1: v.SetImageInsightTolerance(77,99,2); v.SetImageInsightToleranceOff(); break; }
  v.SetBaselineMeasurement(&b); t.AcceptVisitor(v); symx_check(v.GetResult()==c.equal,"equal exactly when both can be read and sizes, spacings, origins and enough pixels agree"); symx_observe_int("r",v.GetResult()); symx_reach("end"); }
// other measurements, and baselines that are no files, are compared as ever
void h_other(){ fs_capture(); images(); Pic p; p.px.push_back(1); pic("t.img",p); pic("b.img",p); itk::CompareVisitor v; v.SetImageInsightTolerance(1,1,1); int k=symx_choice(3,"kind"); MeasurementFile t=file("t.img",k==0?"image/png":"image/itk"),b=file("b.img",k==0?"image/png":"image/itk"); StringText s; s.SetAttributeName("n"); s.SetContent("x"); std::string text=printable(2,"text",false); StringText u; u.SetAttributeName("n"); u.SetContent(text); bool same_=same(text,"xy"); StringText w; w.SetAttributeName("n"); w.SetContent("xy");
  if(k==0){ int f=symx_choice(2,"same"); fs_file("t.img","one",3); fs_file("b.img",f?"one":"two",3); v.SetBaselineMeasurement(&b); t.AcceptVisitor(v); symx_check(v.GetResult()==f,"other files are compared by content"); }
  else if(k==1){ v.SetBaselineMeasurement(&s); t.AcceptVisitor(v); symx_check(!v.GetResult(),"an image is not equal to a text"); }
  else { v.SetBaselineMeasurement(&w); u.AcceptVisitor(v); symx_check(v.GetResult()==same_,"texts are compared as texts"); } symx_reach("end"); }
void h_run(){ fs_capture(); images(); fs_dir("data"); fs_dir("t"); fs_dir("out"); Pic b[2],t[2]; Two a,c; a.how=c.how=symx_param("how",0); int want=0; bool bad[2];
  for(int i=0;i<2;i++){ b[i]=picture(i?"base2":"base1","base"); t[i]=picture(i?"test2":"test1","test"); c.thr[i]=byte("thr"); c.tol[i]=symx_any<unsigned>("tol"); c.radius[i]=symx_param("radius",0)>>i&1; a.thr[i]=0; a.tol[i]=a.radius[i]=0; bool off=c.how==1&&i==1,part=c.how==2&&i==0; pic(i?"data/two.img":"data/one.img",b[i]); pic(i?"t/two.img":"t/one.img",t[i]); bad[i]= !sized(b[i],t[i]); if(!bad[i]) bad[i]= differing(b[i].px,t[i].px,b[i].size,whole(b[i].size),off?0:c.thr[i],off||part?0:c.radius[i])>(off||part?0:c.tol[i]); want+=bad[i]; }
  symx_check(a.go("-O","b.xml")==0&&a.ran==1,"the recording run succeeds"); symx_check(pics()["t/one.img"].reads==0,"without looking at the images"); int r=c.go("-I","b.xml"); symx_check(c.ran==1,"the test runs"); symx_check(r==want,"one mismatch for each image that differs"); for(int i=0;i<2;i++) symx_check(c.ret[i]==!bad[i],"each image is judged under its own tolerances"); symx_observe_int("r",r); symx_reach("end"); }
}
