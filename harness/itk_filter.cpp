// The image difference filter on images in memory.
#include "run.h"
#include "itktfDifferenceImageFilter.h"
#include "itkImage.h"
#include <thread>
#include <atomic>
static unsigned units(){ return symx_param("units",1); }
#ifdef SYMX
static void meet(){}
#else
// lets the work units of a replay run at the same time
static void meet(){ static std::atomic<unsigned> n(0); n.fetch_add(1,std::memory_order_relaxed); for(int i=0;i<2000&&n.load(std::memory_order_relaxed)%units();i++) std::this_thread::sleep_for(std::chrono::microseconds(500)); }
#endif
// an arbitrary division of the region into pieces: cuts along one dimension
struct Cuts : itk::ImageRegionSplitterBase { unsigned dim,n; bool meets=false; long start[5]; 
  typedef Cuts Self; typedef itk::SmartPointer<Self> Pointer; static Pointer New(){ Pointer p=new Self; p->UnRegister(); return p; } Cuts():dim(0),n(1){}
  unsigned GetNumberOfSplitsInternal(unsigned,const itk::IndexValueType[],const itk::SizeValueType[],unsigned want) const { return want<n?want:n; }
  unsigned GetSplitInternal(unsigned d,unsigned i,unsigned pieces,itk::IndexValueType x[],itk::SizeValueType s[]) const { (void)d; if(meets) meet(); if(i<n){ long e= i+1<pieces? start[i+1]: (long)s[dim]; x[dim]+=start[i]; s[dim]=e-start[i]; } return pieces<n?pieces:n; } };
template<class P,unsigned D> struct Filter : itk::tf::DifferenceImageFilter<itk::Image<P,D>,itk::Image<P,D> > {
  typedef Filter Self; typedef itk::SmartPointer<Self> Pointer; static Pointer New(){ Pointer p=new Self; p->UnRegister(); return p; }
  Cuts::Pointer cuts; const itk::ImageRegionSplitterBase*GetImageRegionSplitter() const { return cuts.GetPointer(); } };
struct Setup { unsigned w,h,radius; bool ignore; double thr; unsigned dim,pieces; long cut[4]; long x0,y0; };
// geometry and division chosen freely within the parameters
static Setup setup(){ Setup s; s.w=symx_param("w",1); s.h=symx_param("h",1); s.radius=symx_param("radius",0); s.ignore=symx_choice(2,"ignore"); s.x0=symx_param("x0",0); s.y0=-s.x0; s.thr=0; s.dim=0; s.pieces=1; return s; }
static void divide(Setup&s){ unsigned most=symx_param("pieces",1); s.pieces=1+symx_choice(most,"pieces"); s.dim=symx_choice(2,"dim"); unsigned n=s.dim?s.h:s.w; s.cut[0]=0; for(unsigned i=1;i<s.pieces;i++) s.cut[i]=s.cut[i-1]+1+(n>1?symx_choice(n-1,"cut"):0); bool ok=true; for(unsigned i=1;i<s.pieces;i++) ok&= s.cut[i]<(long)n; symx_assume(ok); }
template<class P> typename itk::Image<P,2>::Pointer image(const Setup&s,const std::vector<P>&v){ typedef itk::Image<P,2> I; typename I::Pointer p=I::New(); typename I::IndexType x; x[0]=s.x0; x[1]=s.y0; typename I::SizeType z; z[0]=s.w; z[1]=s.h; typename I::RegionType r(x,z); p->SetRegions(r); p->Allocate(); P*b=p->GetBufferPointer(); for(size_t i=0;i<v.size();i++) b[i]=v[i]; return p; }
struct Result { std::vector<double> out; unsigned long count; double sum,mean; };
template<class P> Result compute(const Setup&s,const std::vector<P>&valid,const std::vector<P>&test,bool again=false){
  typedef Filter<P,2> F; typename F::Pointer f=F::New(); f->cuts=Cuts::New(); f->cuts->dim=s.dim; f->cuts->n=s.pieces; for(unsigned i=0;i<s.pieces;i++) f->cuts->start[i]=s.cut[i];
  if(again){ std::vector<P> o(valid); for(size_t i=0;i<o.size();i++) o[i]=(P)(i*3); f->SetNumberOfWorkUnits(s.pieces+2); f->SetValidInput(image<P>(s,o)); o[0]=99; f->SetTestInput(image<P>(s,o)); f->SetMagnitudeThreshold(5); f->SetToleranceRadius(0); f->UpdateLargestPossibleRegion(); symx_check(f->GetNumberOfPixelsWithDifferences()==1,"the first comparison finds its difference"); } // an earlier use of the same filter
  f->cuts->meets= !again&&s.pieces+symx_param("spare",0)==units(); f->SetNumberOfWorkUnits(s.pieces+symx_param("spare",0)); f->SetValidInput(image<P>(s,valid)); f->SetTestInput(image<P>(s,test)); f->SetMagnitudeThreshold(s.thr); f->SetToleranceRadius(s.radius); f->SetIgnoreBoundaryPixels(s.ignore); f->UpdateLargestPossibleRegion();
  Result r; P*b=f->GetOutput()->GetBufferPointer(); symx_check(f->GetOutput()->GetBufferedRegion().GetNumberOfPixels()==(unsigned long)s.w*s.h,"the output covers the image"); for(unsigned i=0;i<s.w*s.h;i++) r.out.push_back((double)b[i]); r.count=f->GetNumberOfPixelsWithDifferences(); r.sum=f->GetTotalMagnitude(); r.mean=f->GetMeanMagnitude(); return r; }
static double diff(double c,double t){ return ((c==t)|((c!=c)&(t!=t)))? 0: c-t; }
static double gap(double c,double t){ return __builtin_fabs(diff(c,t)); }
// what the filter has to find: exact says that sums are computed without rounding
template<class P> void expect(const Setup&s,const std::vector<P>&valid,const std::vector<P>&test,const Result&r,bool output,bool sums){
  unsigned long count=0; double sum=0;
  for(long y=0;y<(long)s.h;y++) for(long x=0;x<(long)s.w;x++){ long i=y*s.w+x; long R=s.radius; bool inner= x>=R&&y>=R&&x+R<(long)s.w&&y+R<(long)s.h; double c=(double)valid[i]; unsigned within=s.ignore&&!inner; unsigned some=0; unsigned least=1; double o=r.out[i],oa=__builtin_fabs(o);
    if(!within) for(long b=-R;b<=R;b++) for(long a=-R;a<=R;a++){ long u=x+a,v=y+b; u=u<0?0:u>=(long)s.w?s.w-1:u; v=v<0?0:v>=(long)s.h?s.h-1:v; double t=(double)test[v*s.w+u]; double g=gap(c,t); within|=(g<=s.thr); double d=diff(c,t); some|=(o==d)|((o!=o)&(d!=d)); least&=!(g<oa)&!((g==g)&(o!=o)); }
    if(output){ symx_check(!within|(o==0),"zero where the pixels agree"); symx_check(within|some,"a difference to a test pixel within the radius where they differ"); symx_check(within|least,"the smallest difference within the radius"); symx_observe_int("o",o==0); }
    count+=!within; if(sums) sum+= within?0:oa; }
  symx_check(r.count==count,"the number of pixels with differences"); symx_observe_int("count",(long)r.count);
  if(sums){ symx_check((r.sum==sum)|((sum!=sum)&(r.sum!=r.sum)),"the sum of the magnitudes"); double m=r.sum/(s.w*s.h); symx_check((r.mean==m)|((m!=m)&(r.mean!=r.mean)),"the mean of the magnitudes"); } }
template<class P> P small(const char*n){ signed char c=symx_any<signed char>(n); return (P)c; }
template<> unsigned char small<unsigned char>(const char*n){ return symx_any<unsigned char>(n); }
template<class P> void ints(bool output){ Setup s=setup(); divide(s); unsigned n=s.w*s.h; std::vector<P> a(n),b(n); unsigned vm=symx_param("valid",255),tm=symx_param("test",255); for(unsigned i=0;i<n;i++){ a[i]=(vm>>i)&1? small<P>("valid"): (P)(7*i); b[i]=(tm>>i)&1? small<P>("test"): (P)(60+9*i); } unsigned t=symx_param("thr",0); if(t) s.thr=t; else { s.thr=symx_any<unsigned char>("thr"); symx_assume(s.thr<100); } Result r=compute<P>(s,a,b,symx_param("again",0)); expect<P>(s,a,b,r,output,output); symx_reach("end"); }
extern "C" {
void h_int_double(){ ints<double>(true); }
void h_int_float(){ ints<float>(true); }
void h_int_short(){ ints<short>(true); }
void h_int_uchar(){ ints<unsigned char>(false); }
// one pixel of each image is arbitrary, the others keep their distance
void h_point(){ Setup s=setup(); divide(s); unsigned n=s.w*s.h; std::vector<double> a(n),b(n); unsigned p=symx_choice(n,"valid_at"),q=symx_choice(n,"test_at"); for(unsigned i=0;i<n;i++){ a[i]=100*i; b[i]=-1000.0-50*(double)i; } unsigned sym=symx_param("sym",7); if(sym&1) a[p]=symx_any<double>("valid"); if(sym&2) b[q]=symx_any<double>("test"); s.thr=120; if(sym&4) s.thr=symx_any<double>("thr"); symx_assume(s.thr==s.thr); Result r=compute<double>(s,a,b); expect<double>(s,a,b,r,true,n==1); symx_reach("end"); }
}
