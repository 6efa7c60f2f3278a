// The image comparison program, run as a whole.
#include "run.h"
#define main program_main
#include "itktf/itktfImageCompare.cxx"
#undef main
#include "imageio.h"
// an argument: a file, or an option and its value
struct Value { const char*text; bool valid; double v; };
static const Value reals[]={{"0",true,0},{"7",true,7},{"2.5",true,2.5},{"1e1",true,10},{".5",true,.5},{"2.99999999",true,2.99999999},{"x",false,0},{"",false,0},{"3x",false,0},{"1 2",false,0},{"1.5.2",false,0},{"1e400",false,0}};
static const Value counts[]={{"0",true,0},{"1",true,1},{"2",true,2},{"4294967295",true,4294967295.0},{"x",false,0},{"",false,0},{"1x",false,0},{"1.5",false,0},{" -1",false,0},{"-1",false,0},{"4294967296",false,0}};
static const Value radii[]={{"0",true,0},{"1",true,1},{"x",false,0},{"",false,0},{"1x",false,0},{"-1",false,0},{"0.0",false,0}};
enum { FILE_,INTENSITY,NUMBER,RADIUS,UNKNOWN };
static const char*const unknown[]={"--other","-x","--","--intensityTolerances","--IntensityTolerance","--radius","-","---radiusTolerance"};
static char store[24][40]; static char*av[26]; static int ac;
static void arg(const char*s){ strcpy(store[ac],s); av[ac]=store[ac]; ac++; av[ac]=0; }
static void begin(const char*mode,const char*xml){ ac=0; arg("prog"); arg(mode); arg(xml); }
static const char*const names[]={"t/a.img","t/b.img","t/c.img","t/d.img"}; static const char*const based[]={"data/a.img","data/b.img","data/c.img","data/d.img"};
struct Px { unsigned char x[2]; };
static double dist(double a,double b){ return __builtin_fabs(a-b); }
// base image: 0 100; how many of the two pixels differ
static unsigned differing(const Px&p,double thr,unsigned radius){ unsigned a=dist(p.x[0],0)<=thr,b=dist(p.x[1],100)<=thr; if(radius){ a|=dist(p.x[1],0)<=thr; b|=dist(p.x[0],100)<=thr; } return (unsigned)!a+(unsigned)!b; }
static unsigned digit(unsigned v,unsigned i){ while(i--) v/=10; return v%10; }
static Px px[4];
static void setup(unsigned files){ fs_capture(); images(); fs_dir("data"); fs_dir("t"); fs_dir("out"); for(unsigned i=0;i<files;i++){ Pic b; b.size[0]=2; b.px.push_back(0); b.px.push_back(100); pic(based[i],b); Pic t=b; for(int k=0;k<2;k++){ px[i].x[k]= k==0||symx_param("both",0)? symx_any<unsigned char>("px"): 3; t.px[k]=px[i].x[k]; } pic(names[i],t); } }
// makes a test image equal to its baseline
static void alike(unsigned i){ px[i].x[0]=0; px[i].x[1]=100; pics()[names[i]].px[0]=0; pics()[names[i]].px[1]=100; }
static bool attr(XmlElement&e,const char*n,const std::string&v){ const std::string*a=e.get(n); return a&&*a==v; }
// the recording of n files
static void record(unsigned n,bool quiet){ begin("-O","b.xml"); for(unsigned i=0;i<n;i++) arg(names[i]); int r=program_main(ac,av); symx_check(r==0,"recording succeeds"); if(quiet) return; std::string t; symx_check(fs_read("b.xml",t),"the recording exists"); XmlElement root; XmlReader x(t); bool ok=x.document(root); symx_check(ok,"one well-formed document"); if(!ok) return; symx_check(root.kids.size()==n,"one measurement for each file"); for(unsigned i=0;i<n&&i<root.kids.size();i++){ XmlElement&e=root.kids[i]; char name[16]; strcpy(name,"ImageFile0"); name[9]=(char)('0'+i); symx_check(e.name=="DartMeasurementFile"&&attr(e,"name",name)&&attr(e,"type","image/itk"),"named in order"); symx_check(e.text==names[i]+2,"holding the file's name"); } }
extern "C" {
// the shape says what the arguments are, from the last digit on: 0 file, 1 intensity, 2 number, 3 radius
void h_options(){ unsigned shape=symx_param("shape",0),n=symx_param("n",1),files=0; for(unsigned i=0;i<n;i++) files+=digit(shape,i)==FILE_; setup(files); record(files,false); begin("-I","b.xml"); double thr=0,number=0; unsigned radius=0,f=0; int want=0;
  for(unsigned i=0;i<n;i++) switch(digit(shape,i)){ case FILE_: arg(names[f]); want+= differing(px[f],thr,radius)>number; f++; break;
    case INTENSITY: { const Value&v=reals[symx_choice(6,"real")]; arg("--intensityTolerance"); arg(v.text); thr=v.v; break; }
    case NUMBER: { const Value&v=counts[symx_choice(4,"count")]; arg("--numberOfPixelTolerance"); arg(v.text); number=v.v; break; }
    case RADIUS: { const Value&v=radii[symx_choice(2,"radius")]; arg("--radiusTolerance"); arg(v.text); radius=(unsigned)v.v; break; } }
  int r=program_main(ac,av); symx_check(r==want,"each file is compared under the options before it"); symx_observe_int("r",r); symx_reach("end"); }
// one thing is wrong somewhere
void h_wrong(){ unsigned before=symx_param("before",0),after=symx_param("after",0); setup(before+after); bool rec=symx_choice(2,"record"); if(!rec) record(before+after,true); begin(rec?"-O":"-I",rec?"c.xml":"b.xml"); if(symx_choice(2,"good")){ arg("--radiusTolerance"); arg("1"); } for(unsigned i=0;i<before;i++) arg(names[i]);
  switch(symx_choice(after?4:7,"kind")){ case 0: { arg("--intensityTolerance"); arg(reals[6+symx_choice(6,"real")].text); break; } case 1: { arg("--numberOfPixelTolerance"); arg(counts[4+symx_choice(7,"count")].text); break; } case 2: { arg("--radiusTolerance"); arg(radii[2+symx_choice(5,"radius")].text); break; } case 3: arg(unknown[symx_choice(8,"unknown")]); break; case 4: arg("--intensityTolerance"); break; case 5: arg("--numberOfPixelTolerance"); break; default: arg("--radiusTolerance"); }
  for(unsigned i=0;i<after;i++) arg(names[before+i]); for(unsigned i=0;i<before+after;i++) alike(i);
  int r=program_main(ac,av); symx_check(r!=0,"the program fails"); symx_reach("end"); }
// a value of arbitrary characters that is no number
void h_garbage(){ setup(1); record(1,true); alike(0); unsigned len=symx_param("len",1),opt=symx_param("option",1); std::string v=symx_string(len,"value"); unsigned valid=1,digits=0; for(unsigned i=0;i<len;i++){ unsigned char c=v[i]; symx_assume(c!=0); bool dg=(c>='0')&(c<='9'); digits|=dg; valid&= dg; } 
  if(opt==INTENSITY) symx_assume(!digits); else symx_assume(!valid&&!(v[0]=='+')&&!(v[0]==' ')&&!((unsigned char)v[0]-9u<5)); begin("-I","b.xml"); arg(opt==1?"--intensityTolerance":opt==2?"--numberOfPixelTolerance":"--radiusTolerance"); arg(v.c_str()); arg(names[0]); int r=program_main(ac,av); symx_check(r!=0,"the program fails"); symx_reach("end"); }
void h_none(){ setup(0); begin("-O","b.xml"); int r=program_main(ac,av); symx_check(r==0,"nothing to do"); symx_reach("end"); }
// an arbitrary option is unknown
void h_unknown(){ setup(1); record(1,true); unsigned len=symx_param("len",2); alike(0); std::string o="-"+symx_string(len,"option"); for(unsigned i=1;i<=len;i++) symx_assume(o[i]!=0); begin("-I","b.xml"); arg(names[0]); arg(o.c_str()); if(symx_choice(2,"value")) arg("1"); int r=program_main(ac,av); symx_check(r!=0,"the program fails"); symx_reach("end"); }
}
