// What is reported about images that do not match.
#include "run.h"
#include "itktfRegression.h"
#include "imageio.h"
static double byte(const char*n){ return (double)symx_any<unsigned char>(n); }
static Pic picture(const char*par,const char*name,unsigned sym){ Pic p; unsigned d=symx_param(par,11); p.dims=d>99?3:2; p.size[0]=d%10; p.size[1]=d/10%10; p.size[2]=d>99?d/100:1; for(unsigned long i=0;i<p.count();i++) p.px.push_back((sym>>i)&1? byte(name): (double)((i*37+11)%251)); return p; }
static bool sized(const Pic&a,const Pic&b){ return a.size[0]==b.size[0]&&a.size[1]==b.size[1]&&a.size[2]==b.size[2]; }
static double space(unsigned k){ return k==0?1.0:k==1?1.0000000000000002:2.5; }
static double place(unsigned k){ return k==0?0.0:k==1?-1.5:1e10; }
static double gap(double c,double t){ return c==t? 0: __builtin_fabs(c-t); }
// pixels that differ (edges replicated)
static unsigned long differing(const Pic&b,const Pic&t,double thr,long R){ unsigned long n=0; const long*z=b.size; for(long k=0;k<z[2];k++) for(long j=0;j<z[1];j++) for(long i=0;i<z[0];i++){ double c=b.px[(k*z[1]+j)*z[0]+i]; unsigned near=0; for(long w=-R;w<=R;w++) for(long v=-R;v<=R;v++) for(long u=-R;u<=R;u++){ long x=i+u,y=j+v,s=k+w; if(x<0||y<0||s<0||x>=z[0]||y>=z[1]||s>=z[2]) continue; near|=gap(c,t.px[(s*z[1]+y)*z[0]+x])<=thr; } n+=!near; } return n; }
static std::string triple(const double*v,unsigned dims,double fill){ std::ostringstream s; s<<"["; for(unsigned i=0;i<3;i++){ if(i) s<<", "; s<<(i<dims?v[i]:fill); } s<<"]"; return s.str(); }
static std::string triple(const long*v){ std::ostringstream s; s<<"["; for(int i=0;i<3;i++){ if(i) s<<", "; s<<v[i]; } s<<"]"; return s.str(); }
static MeasurementFile file(const std::string&f,const std::string&name){ MeasurementFile m; m.SetAttributeName(name); m.SetAttributeType("image/itk"); m.SetFileName(f); return m; }
static bool attr(XmlElement&e,const char*n,const std::string&v){ const std::string*a=e.get(n); return a&&same(*a,v); }
static itk::IOComponentEnum kinds[]={itk::IOComponentEnum::DOUBLE,itk::IOComponentEnum::SHORT,itk::IOComponentEnum::FLOAT,itk::IOComponentEnum::UCHAR};
static const char*const kindNames[]={"double","short","float","unsigned_char"};
// the next element has to be this one
struct Expect { XmlElement root; size_t at; std::string name; 
  bool read(const std::string&t){ std::string d="<r>"+t+"</r>"; XmlReader x(d); at=0; bool ok=x.document(root); symx_check(ok,"the reports are well-formed"); return ok; }
  void next(const char*element,const char*type,const std::string&n,const std::string&text){ bool ok=at<root.kids.size(); symx_check(ok,"a report is missing"); if(!ok) return; XmlElement&e=root.kids[at++]; symx_check(e.name==element&&attr(e,"type",type)&&attr(e,"name",n),"the report is labelled"); symx_check(same(e.text,text),"the report holds the value"); }
  void text(const char*label,const std::string&v){ next("DartMeasurement","text/string",label+name,v); }
  void end(){ symx_check(at==root.kids.size(),"nothing else is reported"); } };
// one written picture: the middle slice stretched over all greys
static void written(const char*f,const Pic&p,const std::vector<double>&px,bool grey){ std::map<std::string,Pic>::iterator i=pics().find(f); symx_check(i!=pics().end(),"the picture is written"); if(i==pics().end()) return; Pic&w=i->second; symx_check(w.dims==2&&w.size[0]==p.size[0]&&w.size[1]==p.size[1]&&w.type==itk::IOComponentEnum::UCHAR&&w.comps==1,"of the image's width and height"); if(!grey||w.px.size()!=(size_t)(p.size[0]*p.size[1])) return; long off=p.size[2]/2*p.size[1]*p.size[0]; size_t n=w.px.size(); for(size_t a=0;a<n;a++){ unsigned least=1,most=1; for(size_t b=0;b<n;b++){ least&=px[off+a]<=px[off+b]; most&=px[off+a]>=px[off+b]; } symx_check(!(least&!most)|(w.px[a]==0),"the least value is black"); symx_check(!(most&!least)|(w.px[a]>=254),"the largest value is white"); for(size_t b=0;b<n;b++) symx_check(!(px[off+a]<px[off+b])|(w.px[a]<=w.px[b]),"in the order of the values"); } }
extern "C" {
void h_report(){ images(); fs_dir("out"); fs_dir("d"); Pic b=picture("base","base",symx_param("bsym",0)),t=picture("test","test",symx_param("tsym",1)); unsigned g=symx_param("geometry",0); if(g==1){ unsigned d=symx_choice(b.dims,"axis"); b.spacing[d]=space(symx_choice(3,"bs")); t.spacing[d]=space(symx_choice(3,"ts")); } if(g==2){ unsigned d=symx_choice(b.dims,"axis"); b.origin[d]=place(symx_choice(3,"bo")); t.origin[d]=place(symx_choice(3,"to")); } if(g==3){ b.spacing[0]=2.5; t.origin[1]=-1.5; }
  unsigned bk=0,tk=0; if(symx_param("types",0)){ bk=symx_choice(4,"bk"); tk=symx_choice(4,"tk"); b.type=kinds[bk]; t.type=kinds[tk]; } if(symx_param("rgb",0)){ if(symx_choice(2,"brgb")) b.comps=3; if(symx_choice(2,"trgb")) t.comps=3; }
  double thr=symx_param("thr",0)?byte("thr"):0; unsigned radius=symx_param("radius",0); Expect x; x.name=printable(symx_param("name",1),"name",false); pic("b.img",b); pic("d/t.img",t);
  itk::DifferenceVisitor v; std::ostringstream os; v.SetOutStream(os); v.SetImageInsightTolerance(thr,symx_any<unsigned>("tol"),radius); MeasurementFile tm=file("d/t.img",x.name),bm=file("b.img",x.name); v.SetBaselineMeasurement(&bm); fs_capture(); tm.AcceptVisitor(v); if(!x.read(os.str())) return;
  if(!sized(b,t)){ x.text("Baseline Size ",triple(b.size)); x.text("Test ImageSize ",triple(t.size)); x.end(); symx_reach("end"); return; }
  bool sp=false,o=false; for(unsigned i=0;i<b.dims;i++){ sp|=b.spacing[i]!=t.spacing[i]; o|=b.origin[i]!=t.origin[i]; }
  if(sp){ x.text("Baseline Spacing ",triple(b.spacing,b.dims,1)); x.text("Test Spacing ",triple(t.spacing,t.dims,1)); } if(o){ x.text("Baseline Origin ",triple(b.origin,b.dims,0)); x.text("Test Origin ",triple(t.origin,t.dims,0)); }
  if(b.comps!=t.comps){ x.text("Baseline PixelType ",b.comps==3?"rgb":"scalar"); x.text("Test PixelType ",t.comps==3?"rgb":"scalar"); } if(bk!=tk){ x.text("Baseline ComponentType ",kindNames[bk]); x.text("Test ComponentType ",kindNames[tk]); }
  if(b.comps!=t.comps){ x.next("DartMeasurement","numeric/integer","Baseline Number Of Components "+x.name,b.comps==3?"3":"1"); x.next("DartMeasurement","numeric/integer","Test Number Of Components "+x.name,t.comps==3?"3":"1"); }
  if(b.comps==1&&t.comps==1){ DoubleNumeric n; unsigned long k=0,d=differing(b,t,thr,radius); while(k<d) k++; n.SetValue((double)k); x.next("DartMeasurement","numeric/double","ImageError "+x.name,n.GetContent()); } else x.at++;
  static const char*const parts[]={"out/t.img.diff.png","out/t.img.base.png","out/t.img.test.png"}; for(int i=0;i<3;i++) x.next("DartMeasurementFile","image/png","Difference "+x.name,parts[i]); x.end();
  bool grey=symx_param("grey",0); std::vector<double> dpx; if(grey) for(size_t i=0;i<b.px.size();i++){ double d=b.px[i]-t.px[i]; dpx.push_back(__builtin_fabs(d)<=thr?0:d); } written(parts[0],b,dpx,grey); written(parts[1],b,b.px,grey); written(parts[2],t,t.px,grey);
  symx_reach("end"); }
// images that cannot be read
void h_unreadable(){ images(); fs_dir("out"); fs_dir("d"); Pic b,t; b.px.push_back(1); t.px.push_back(2); if(symx_choice(2,"size")){ t.size[0]=2; t.px.push_back(3); } b.fault=symx_choice(5,"bfault"); t.fault=symx_choice(5,"tfault"); symx_assume(b.fault||t.fault); if(b.fault!=4) pic("b.img",b); if(t.fault!=4) pic("d/t.img",t); Expect x; x.name=printable(1,"name",false); itk::DifferenceVisitor v; std::ostringstream os; v.SetOutStream(os); MeasurementFile tm=file("d/t.img",x.name),bm=file("b.img",x.name); v.SetBaselineMeasurement(&bm); fs_capture(); bool threw=false; try { tm.AcceptVisitor(v); } catch(...) { threw=true; } symx_check(!threw,"reporting does not fail"); if(!x.read(os.str())) return;
  bool headers=(b.fault==0||b.fault==PIC_DATA)&&(t.fault==0||t.fault==PIC_DATA); if(headers&&!sized(b,t)){ x.text("Baseline Size ",triple(b.size)); x.text("Test ImageSize ",triple(t.size)); } else { x.next("DartMeasurementFile","image/itk","Test "+x.name,"d/t.img"); x.next("DartMeasurementFile","image/itk","Baseline "+x.name,"b.img"); } x.end(); symx_reach("end"); }
}
// measurements go on after an image that does not match
struct Go : itk::Regression { bool done; std::string text; int r[3]; Go():done(false){}
  int Test(int,char**){ r[0]=MeasurementInsightFileImage("t/one.img","one"); r[1]=MeasurementTextString(text,"text"); r[2]=MeasurementInsightFileImage("t/two.img","two"); done=true; return 0; }
  int go(const char*a,const char*b){ static char s[3][16]; char*v[4]; strcpy(s[0],"prog"); strcpy(s[1],a); strcpy(s[2],b); v[0]=s[0]; v[1]=s[1]; v[2]=s[2]; v[3]=0; return Main(3,v); } };
extern "C" {
void h_run(){ fs_capture(); images(); fs_dir("data"); fs_dir("t"); fs_dir("out"); Pic b,t,c,d; b.px.push_back(5); t=b; c=b; d=b; bool bad=true; switch(symx_choice(9,"how")){ case 0: bad=false; break; case 1: t.px[0]=6; break; case 2: t.size[1]=2; t.px.push_back(5); break; case 3: t.spacing[1]=2; break; case 4: t.origin[0]=0.25; break; case 5: t.fault=PIC_NOREADER; break; case 6: t.fault=PIC_HEADER; break; case 7: b.fault=PIC_DATA; break; case 8: t.spacing[0]=3; t.origin[1]=1; t.px[0]=9; } d.px[0]=byte("two"); bool bad2=d.px[0]!=5; Go x,y; x.text="ab"; y.text=printable(2,"text",false); bool bad1=!same(x.text,y.text); pic("data/one.img",b); pic("t/one.img",t); pic("data/two.img",c); pic("t/two.img",d);
  symx_check(x.go("-O","b.xml")==0&&x.done,"the recording run succeeds"); int r=y.go("-I","b.xml"); symx_check(y.done,"the test runs to its end"); symx_check(r==(int)bad+bad1+bad2,"every mismatch counts"); symx_check(y.r[0]==!bad&&y.r[1]==!bad1&&y.r[2]==!bad2,"each measurement is judged on its own"); std::string out; symx_check(fs_stdout(out),"output"); symx_check((out.find("\"Test text\"")!=std::string::npos)==bad1,"later mismatches are reported"); symx_check((out.find("ImageError two")!=std::string::npos)==bad2,"and later images"); symx_reach("end"); }
}
