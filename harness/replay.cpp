// The run driver: C07 record and replay, C08 counting, C12 results, C27 reports,
// C29 documents.
#include "run.h"
#include "TestingFramework/tfDiff.h"
#include "TestingFramework/tfMeasurementVisitor.h"
static bool letters(const std::string&s){ unsigned ok=1; for(size_t i=0;i<s.size();i++){ unsigned char c=s[i]; ok&=(c>=32)&(c<127)&(c!='&')&(c!='<')&(c!='>')&(c!='"'); } return ok; }
static bool at0(const std::string&t,const char*p){ for(size_t i=0;p[i];i++) if(i>=t.size()||t[i]!=p[i]) return false; return true; }
// ------------------------------------------------------------------ C07, C29
enum { KSTR,KPLAIN,KINT,KFLOAT,KDBL,KBOOL,KTXT,KPNG,KJPG };
static const char*const elName[]={"DartMeasurement","DartMeasurement","DartMeasurement","DartMeasurement","DartMeasurement","DartMeasurement","DartMeasurementFile","DartMeasurementFile","DartMeasurementFile"};
static const char*const tyName[]={"text/string","text/plain","numeric/integer","numeric/float","numeric/double","numeric/boolean","text/plain","image/png","image/jpeg"};
struct Val { int kind; std::string name,text; long i; float f; double d; bool b; int tol; };
// the digits of an integer of n digits with the given sign
static long integer(size_t n,bool neg,const char*nm){ static const unsigned long p10[]={0,1,10,100,1000,10000,100000,1000000,10000000,100000000,1000000000,10000000000ul,100000000000ul,1000000000000ul,10000000000000ul,100000000000000ul,1000000000000000ul,10000000000000000ul,100000000000000000ul,1000000000000000000ul};
  long v=symx_any<long>(nm); unsigned long m= neg? 0ul-(unsigned long)v: (unsigned long)v; symx_assume(((n==1&&!neg)|(m>=p10[n]))&(n==19? (m<=(neg?9223372036854775808ul:9223372036854775807ul)): (m<p10[n+1]))); return v; }
static bool fileNames; // file measurements name any file, not the one there is
static Val value(int kind,size_t nn,size_t nc){ Val v; v.kind=kind; v.i=0; v.f=0; v.d=0; v.b=false; v.tol=0; v.name=printable(nn,"name",false);
  switch(kind){ case KSTR: case KPLAIN: v.text=printable(nc,"text",true); break; case KINT: v.i=integer(symx_param("digits",1),symx_param("neg",0),"int"); break;
    case KFLOAT: v.f=symx_any<float>("float"); symx_assume(v.f-v.f==0); break; case KDBL: v.d=symx_any<double>("double"); symx_assume(v.d-v.d==0); break; case KBOOL: v.b=symx_any<unsigned char>("bool")&1; break;
    default: v.text= fileNames? printable(nc,"file",false): std::string("f.dat"); break; } return v; }
struct Maker : Run { std::vector<Val> vals; std::vector<int> rets; std::string dir;
  int make(const Val&v){ switch(v.kind){ case KSTR: return MeasurementTextString(v.text,v.name); case KPLAIN: return MeasurementTextPlain(v.text,v.name); case KINT: return MeasurementNumericInteger(v.i,v.name); case KFLOAT: return MeasurementNumericFloat(v.f,v.name); case KDBL: return MeasurementNumericDouble(v.d,v.name); case KBOOL: return MeasurementNumericBoolean(v.b,v.name); case KTXT: return MeasurementFileTextPlain(dir+v.text,v.name); case KPNG: return MeasurementFileImagePNG(dir+v.text,v.name); default: return MeasurementFileImageJPEG(dir+v.text,v.name); } }
  int body(){ for(size_t i=0;i<vals.size();i++) rets.push_back(make(vals[i])); return 0; } };
static std::vector<Val> sequence(){ std::vector<Val> r; unsigned code=symx_param("kinds",0),n=symx_param("n",1); size_t nn=symx_param("name",1),nc=symx_param("text",1); for(unsigned i=0;i<n;i++){ r.push_back(value(code%10,i?0:nn,nc)); if(i) r.back().name="m"; code/=10; } return r; }
static void makeFiles(){ std::string c=symx_string(2,"file"); fs_file("f.dat",c.data(),c.size()); }
static void needs(const std::vector<Val>&v){ for(size_t i=0;i<v.size();i++) if(v[i].kind>=KTXT){ makeFiles(); return; } }
static bool gap(const std::string&s){ unsigned ok=1; for(size_t i=0;i<s.size();i++) ok&=(s[i]==' ')|(s[i]=='\n')|(s[i]=='\t'); return ok; }
// the text a measurement of this value holds
static std::string textOf(const Val&v){ switch(v.kind){ case KSTR: case KPLAIN: return v.text; case KTXT: case KPNG: case KJPG: { size_t k=v.text.size(); while(k&&v.text[k-1]!='/') k--; return v.text.substr(k); } case KINT: { IntegerNumeric n; n.SetValue(v.i); return n.GetContent(); } case KFLOAT: { FloatNumeric n; n.SetValue(v.f); return n.GetContent(); } case KDBL: { DoubleNumeric n; n.SetValue(v.d); return n.GetContent(); } default: { BooleanNumeric n; n.SetValue(v.b); return n.GetContent(); } } }
#ifdef HOSTNAME
static std::string theHost; static int hostFails;
extern "C" int gethostname(char*p,size_t n) throw(){ if(hostFails) return -1; if(theHost.size()+1>n){ memcpy(p,theHost.data(),n); return -1; } memcpy(p,theHost.c_str(),theHost.size()+1); return 0; }
#endif
static void checkDoc(const std::string&t,const std::vector<Val>&vals){ XmlElement root; XmlReader r(t); bool ok=r.document(root); symx_check(ok,"one well-formed document"); if(!ok) return; symx_check(at0(t,"<?xml "),"with a declaration"); symx_check(gap(root.text),"nothing but measurements"); symx_check(root.kids.size()==vals.size(),"every measurement is in the document, once"); 
  for(size_t i=0;i<vals.size()&&i<root.kids.size();i++){ XmlElement&e=root.kids[i]; const std::string*n=e.get("name"),*ty=e.get("type"); symx_check(e.name==elName[vals[i].kind]&&ty&&*ty==tyName[vals[i].kind],"measurements in the order made, with their types"); symx_check(n&&same(*n,vals[i].name),"with their names"); symx_check(e.children==0&&same(e.text,textOf(vals[i])),"with their contents"); } }
extern "C" {
void h_replay(){ std::vector<Val> vals=sequence(); needs(vals); std::string dir; if(symx_param("dir",0)){ fs_dir("d"); fs_file("d/f.dat","ab",2); dir="d/"; }
  { Maker m; m.vals=vals; m.dir=dir; int r=m.go("-O","base.xml"); symx_check(m.ran==1&&r==0,"the recording run succeeds"); } std::string doc; symx_check(fs_read("base.xml",doc),"the recording exists"); symx_observe_int("size",0);
  { Maker m; m.vals=vals; m.dir=dir; int r= dir.empty()? symx_param("report",0)? m.go("-I","base.xml","-O","report.txt"): m.go("-I","base.xml"): m.go("-P","d","-I","base.xml"); symx_check(m.ran==1,"the test runs against the recording"); unsigned all=1; for(size_t i=0;i<m.rets.size();i++) all&= m.rets[i]==1; symx_check(all&&m.rets.size()==vals.size(),"every measurement matches"); symx_check(r==0,"the run succeeds"); }
  std::string doc2; symx_check(fs_read("base.xml",doc2)&&same(doc,doc2),"the recording is left alone"); symx_reach("end"); }
void h_document(){ fs_capture(); fileNames=symx_param("files",0); std::vector<Val> vals=sequence(); needs(vals);
#ifdef HOSTNAME
  size_t hn=symx_param("host",0); if(hn<8){ theHost=symx_string(hn,"host"); unsigned ok=1; for(size_t i=0;i<hn;i++){ unsigned char c=theHost[i]; ok&=((c>='a')&(c<='z'))|(c=='-')|(c=='.')|((c>='0')&(c<='9')); } symx_assume(ok); } else { for(size_t i=0;i<hn;i++) theHost+= i%3? '-':'a'; } hostFails=symx_choice(2,"hostfails");
#endif
  unsigned rep=symx_param("repeat",1); std::vector<Val> all; for(unsigned i=0;i<rep;i++) all.insert(all.end(),vals.begin(),vals.end());
  bool file=symx_choice(2,"tofile"); bool old=symx_choice(2,"old"); if(old) fs_file("out.xml","<output>old text</output>",25); std::string doc; { Maker m; m.vals=all; int r= file? m.go("-O","out.xml"): m.go(); symx_check(r==0&&m.ran==1,"the recording run succeeds"); symx_check(file? fs_read("out.xml",doc): fs_stdout(doc),"the document is there when the run returns"); } symx_reach("end"); checkDoc(doc,all); symx_reach("doc"); }
}
// ------------------------------------------------------------------ C08, C27
// baseline items written by hand; the test's items; each of kind string, plain,
// integer, double (one of three values), boolean or file
struct Item { unsigned kind; std::string name; std::string text; unsigned n; };
static const char*const dtext[]={"1.5","-2","1e+300"}; static const double dval[]={1.5,-2,1e300};
static const unsigned kindMap[]={KSTR,KPLAIN,KINT,KDBL,KBOOL,KTXT};
static Item item(const char*who,unsigned kinds){ Item t; t.kind=symx_choice(kinds,who); t.name=symx_string(symx_param("name",1),who); symx_assume(letters(t.name)); t.n=0;
  switch(t.kind){ case 0: case 1: t.text=symx_string(symx_param("text",1),who); symx_assume(letters(t.text)); break; case 2: { unsigned char c=symx_any<unsigned char>(who); symx_assume((c>='0')&(c<='9')); t.text=std::string(1,(char)c); break; } case 3: t.n=symx_choice(3,who); t.text=dtext[t.n]; break; case 4: { unsigned char c=symx_any<unsigned char>(who); symx_assume((c=='0')|(c=='1')); t.text=std::string(1,(char)c); break; } default: t.n=symx_choice(2,who); t.text=t.n?"g.dat":"f.dat"; } return t; }

struct Comparer : Run { std::vector<Item> items; std::vector<int> rets; int ret; bool tol; Comparer():ret(0),tol(false){}
  int make(const Item&t){ switch(t.kind){ case 0: return MeasurementTextString(t.text,t.name); case 1: return MeasurementTextPlain(t.text,t.name); case 2: return MeasurementNumericInteger(t.text[0]-'0',t.name,tol); case 3: return MeasurementNumericDouble(dval[t.n],t.name,!tol); case 4: return MeasurementNumericBoolean(t.text[0]=='1',t.name,tol); default: return MeasurementFileTextPlain(t.text,t.name); } }
  int body(){ for(size_t i=0;i<items.size();i++) rets.push_back(make(items[i])); return ret; } };
static std::string docOf(const std::vector<Item>&b){ std::string d="<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<!-- c -->\n<output>\n"; for(size_t i=0;i<b.size();i++){ int k=kindMap[b[i].kind]; d+=std::string("<")+elName[k]+" name=\""+b[i].name+"\" type=\""+tyName[k]+"\">"+b[i].text+"</"+elName[k]+">\n"; } return d+"</output>\n"; }
// same name and type: a plain text and a plain text file have the same type
static bool paired(const Item&a,const Item&b){ return !strcmp(tyName[kindMap[a.kind]],tyName[kindMap[b.kind]]) && same(a.name,b.name); }
static bool nameEq(const Item&a,const Item&b){ return a.kind==b.kind && (kindMap[a.kind]==kindMap[b.kind]) && same(a.name,b.name); }
struct Setup { std::vector<Item> base,test; };
static Setup setup(){ Setup s; unsigned nb=symx_param("nb",1),nt=symx_param("nt",1),k=symx_param("kinds",6); for(unsigned i=0;i<nb;i++) s.base.push_back(item("base",k)); for(unsigned i=0;i<nt;i++) s.test.push_back(item("test",k)); fs_file("f.dat","one",3); fs_file("g.dat","two",3); std::string d=docOf(s.base); fs_file("base.xml",d.data(),d.size()); return s; }
extern "C" {
void h_count(){ Setup s=setup(); Comparer c; c.items=s.test; c.tol=symx_choice(2,"tol"); c.ret=0; int exp=symx_choice(2,"exp"); if(exp){ c.ret=3; c.SetExpectedReturn(3); } int r=c.go("-I","base.xml"); symx_check(c.ran==1&&c.rets.size()==s.test.size(),"the test runs once"); symx_observe_int("r",r);
  int want=0; for(size_t i=0;i<s.test.size()&&i<c.rets.size();i++){ bool there= i<s.base.size()&&nameEq(s.base[i],s.test[i]); bool eq= there&&same(s.base[i].text,s.test[i].text); want+= !eq; if(eq) symx_check(c.rets[i]==1,"a matching measurement reports 1"); else if(there) symx_check(c.rets[i]==0,"a measurement whose value differs reports 0"); }
  symx_check(r==want,"the run returns the number of mismatches"); symx_reach("end"); }
// many mismatches in one run
struct Many : Run { unsigned n; std::string name; Many():n(0){} int body(){ for(unsigned i=0;i<n;i++) MeasurementTextString("x",name); return 0; } };
void h_many(){ Many m; m.n=symx_param("many",1); unsigned good=symx_param("good",0); m.name=symx_string(1,"name"); symx_assume(letters(m.name)); std::string d="<output>"; for(unsigned i=0;i<good;i++) d+="<DartMeasurement name=\"n\" type=\"text/string\">x</DartMeasurement>"; d+="</output>"; fs_file("base.xml",d.data(),d.size()); int r=m.go("-I","base.xml"); symx_check(m.ran==1,"the test runs once"); symx_check(r==(int)(m.name=="n"? m.n-(good<m.n?good:m.n): m.n),"the run returns the number of mismatches"); symx_observe_int("r",r); symx_reach("end"); }
// C10: integers through the run driver, compared without tolerance
struct OneInt : Run { long v; int got; OneInt():v(0),got(-1){} int body(){ got=MeasurementNumericInteger(v,"n",false); return 0; } };
void h_int_run(){ long u=integer(symx_param("nu",1),symx_param("uneg",0),"u"),v=integer(symx_param("nv",1),symx_param("vneg",0),"v"); { IntegerNumeric a,b; a.SetValue(u); b.SetValue(v); const std::string&x=a.GetContent(),&y=b.GetContent(); for(size_t i=0;i<x.size()&&i<y.size();i++) if(x[i]!=y[i]) break; } /* one path per first difference */ { OneInt m; m.v=u; symx_check(m.go("-O","base.xml")==0,"the recording run succeeds"); } OneInt m; m.v=v; int r=m.go("-I","base.xml"); symx_check(m.ran==1&&m.got==(int)(u==v),"the integers compare equal exactly when they are"); symx_check(r==(int)(u!=v),"and a difference is counted"); symx_observe_int("r",r); symx_reach("end"); }
// C18: where the baseline and the files of its measurements are taken from
struct Lookup : Run { std::string text; bool file; int got; Lookup():file(false),got(-1){} int body(){ got= file? MeasurementFileTextPlain("t.dat","n"): MeasurementTextString(text,"n"); return 0; } };
static std::string oneDoc(bool file,const std::string&c){ return file? "<output><DartMeasurementFile name=\"n\" type=\"text/plain\">"+c+"</DartMeasurementFile></output>": "<output><DartMeasurement name=\"n\" type=\"text/string\">"+c+"</DartMeasurement></output>"; }
static void put(const std::string&p,unsigned kind,const std::string&c){ if(kind==1) fs_file(p.c_str(),c.data(),c.size()); else if(kind==2) fs_dir(p.c_str()); }
void h_lookup(){ bool file=symx_choice(2,"what"); const char*dirs[3]={"d","e","g"}; unsigned np=symx_param("dirs",2); unsigned kind[3]; Lookup l; l.file=file; std::string base=file?"f.dat":"b.xml"; bool here=symx_choice(2,"here"); std::string given= symx_choice(2,"subdir")? "s/"+base: base; fs_dir("s"); 
  for(unsigned i=0;i<np;i++){ fs_dir(dirs[i]); kind[i]=symx_choice(3,"kind"); put(std::string(dirs[i])+"/"+(file?base:given=="b.xml"?"b.xml":"s/b.xml"),0,""); if(!file&&given!="b.xml"){ fs_dir((std::string(dirs[i])+"/s").c_str()); put(std::string(dirs[i])+"/s/b.xml",kind[i],oneDoc(false,dirs[i])); } else put(std::string(dirs[i])+"/"+base,kind[i],file?std::string(dirs[i]):oneDoc(false,dirs[i])); }
  if(file){ if(here) put(given,1,"c"); std::string d=oneDoc(true,given); fs_file("b.xml",d.data(),d.size()); } else put(given,1,oneDoc(false,"c"));
  l.text=symx_string(1,"text"); symx_assume(letters(l.text)); fs_file("t.dat",l.text.data(),1); std::string want= file? here?"c":"": "c"; for(unsigned i=0;i<np;i++) if(kind[i]==1) want=dirs[i]; // -P d -P e searches e first
  std::string in= file? "b.xml": given; int r= np==1? l.go("-P","d","-I",in.c_str()): np==2? l.go("-P","d","-P","e","-I",in.c_str()): l.go("-I",in.c_str()); symx_check(l.ran==1,"the test runs"); symx_check(l.got==(int)(!want.empty()&&l.text==want),"the file is taken from the first directory that holds it"); symx_observe_int("r",r); symx_reach("end"); }
// C27
}
struct Reports { const std::string&t; XmlReader r; Reports(const std::string&s):t(s),r(s){} bool next(XmlElement&e){ r.ws(); return r.element(e); } bool done(){ r.ws(); return r.i==t.size(); } };
static bool attr(XmlElement&e,const char*n,const std::string&v){ const std::string*a=e.get(n); return a&&same(*a,v); }
static void kindOf(XmlElement&e,const Item&t){ int k=kindMap[t.kind]; symx_check(e.name==elName[k]&&attr(e,"type",tyName[k]),"a report has the type of the measurement"); }
extern "C" {
void h_reports(){ fs_capture(); Setup s=setup(); Comparer c; c.items=s.test; bool file=symx_choice(2,"tofile"); int r= file? c.go("-O","rep.txt","-I","base.xml"): c.go("-I","base.xml"); symx_check(c.ran==1,"the test runs"); (void)r; std::string t; symx_check(file? fs_read("rep.txt",t): fs_stdout(t),"there is an output"); symx_observe_str("out",t); Reports q(t);
  for(size_t i=0;i<s.test.size();i++){ const Item&x=s.test[i]; if(!(i<s.base.size()&&paired(s.base[i],x))){ XmlElement e; bool ok=q.next(e); symx_check(ok,"an unmatched measurement is reported"); if(!ok) return; kindOf(e,x); symx_check(attr(e,"name","Unmatched "+x.name),"an unmatched measurement is reported by name"); symx_check(same(e.text,x.text),"an unmatched measurement is reported with its value"); symx_reach("unmatched"); continue; }
    const Item&b=s.base[i]; if(b.kind==x.kind&&same(b.text,x.text)) continue;
    if(x.kind==1){ XmlElement e; bool ok=q.next(e); symx_check(ok,"a text difference is reported"); if(!ok) return; kindOf(e,x); std::ostringstream d; Diff(b.text,x.text,d); symx_check(attr(e,"name","Difference "+x.name),"a text difference is reported by name"); symx_check(same(e.text,d.str()),"the line difference from the baseline to the test is reported"); symx_reach("difference"); continue; }
    bool st=false,sb=false; for(int k=0;k<2;k++){ XmlElement e; bool ok=q.next(e); symx_check(ok,"both values are reported"); if(!ok) return; if(attr(e,"name","Test "+x.name)){ st=true; kindOf(e,x); symx_check(same(e.text,x.text),"the value of the test is reported"); } else if(attr(e,"name","Baseline "+x.name)){ sb=true; kindOf(e,b); symx_check(same(e.text,b.text),"the value of the baseline is reported"); } } symx_check(st&&sb,"both values are reported, labelled as test and baseline"); symx_reach("values"); }
  symx_check(q.done(),"nothing else is reported"); symx_reach("end"); }
}
// ------------------------------------------------------------------ C12
struct Odd { int x; };
struct Said : std::exception { char w[4]; Said(const std::string&s){ memset(w,0,4); memcpy(w,s.data(),s.size()); } const char*what() const throw(){ return w; } };
static std::string message;
static void raise(unsigned k){ switch(k){ case 1: throw std::length_error("e"); case 2: throw std::domain_error("e"); case 3: throw std::out_of_range("e"); case 4: throw std::invalid_argument("e"); case 5: throw std::bad_alloc(); case 6: throw std::bad_cast(); case 7: throw std::range_error("e"); case 8: throw std::overflow_error("e"); case 9: throw std::underflow_error("e"); case 10: throw std::runtime_error("e"); case 11: throw std::logic_error("e"); case 12: throw std::bad_exception(); case 13: throw 7; case 14: throw Odd(); case 15: throw "text"; case 16: throw Said(message); case 17: throw std::runtime_error(message); case 18: throw std::logic_error(message); case 19: throw message; } }
struct Failing : Run { unsigned stage,kind,mism,drop; int ret; bool compare; mutable bool threw; Failing():stage(0),kind(0),mism(0),drop(0),ret(0),compare(false),threw(false){}
  void boom(unsigned s) const { if(s==stage&&!threw){ threw=true; raise(kind); } }
  bool GetCompareMode() const { if(ran!=2) boom(ran?4:1); return RegressionTest::GetCompareMode(); } // called by set-up and tear-down
  int body(){ ran=2; boom(2); for(unsigned i=0;i<mism;i++) MeasurementTextString(i&1?"other":"no","n"); MeasurementTextString("b","z"); boom(3); if(drop==1) unlink("base.xml"); if(drop==2) SetInFileName(""); if(drop==3) SetInFileName("nowhere.xml"); if(drop==4&&!compare) fs_file("out.xml","",0); ran=1; return ret; }
};
static const char goodEnd[]="<DartMeasurement name=\"z\" type=\"text/string\">b</DartMeasurement></output>";
extern "C" {
void h_result(){ Failing f; f.compare=symx_choice(2,"compare"); f.mism=f.compare? symx_choice(3,"mismatches"): 0; f.stage=symx_choice(5,"stage"); f.kind= f.stage? 1+symx_choice(19,"kind"): 0; if(f.kind>15) message=symx_string(2*symx_choice(2,"long"),"message"); f.drop= f.stage? 0: symx_choice(5,"drop"); f.ret=symx_any<int>("ret"); int exp=symx_any<int>("exp"); f.SetExpectedReturn(exp);
  std::string d="<output>"; for(unsigned i=0;i<f.mism;i++) d+="<DartMeasurement name=\"n\" type=\"text/string\">a</DartMeasurement>"; d+=goodEnd; fs_file("base.xml",d.data(),d.size()); bool out=symx_choice(2,"out");
  int r= f.compare? out? f.go("-I","base.xml","-O","out.txt"): f.go("-I","base.xml"): out? f.go("-O","out.xml"): f.go(); symx_observe_int("r",r); symx_observe_int("threw",f.threw);
  if(f.stage==2||f.stage==3) symx_check(f.threw,"the test runs");
  if(f.threw) symx_check(r!=0,"a run that throws does not report success"); else { symx_check(f.ran==1,"the test runs"); symx_check((r==0)==((f.ret==exp&&f.mism==0)||(f.ret!=exp&&f.ret==0)),"success exactly when the expected value is returned and nothing mismatches, or 0 is returned"); if(f.ret!=exp) symx_check(r==f.ret,"an unexpected value is passed on"); symx_reach("normal"); } symx_reach("end"); }
// set-up that fails by itself
void h_setup(){ Failing f; f.ret=symx_any<int>("ret"); int exp=symx_any<int>("exp"); f.SetExpectedReturn(exp); unsigned k=symx_choice(8,"what"); f.compare=true; std::string d=std::string("<output>")+goodEnd; int r;
  fs_file("base.xml",d.data(),k==1?d.size()-1:k==2?0:d.size(),k==3?FS_NOREAD:0); fs_file("ro.txt","x",1,FS_NOWRITE); fs_dir("d",FS_NOSEARCH);
  switch(k){ case 0: r=f.go("-I","missing.xml"); break; case 1: case 2: case 3: r=f.go("-I","base.xml"); break; case 4: r=f.go("-I","base.xml","-O","nodir/out.txt"); break; case 5: r=f.go("-P","nodir","-I","base.xml"); break; case 6: r=f.go("-P","d","-I","base.xml"); break; default: r=f.go("-I","d"); }
  symx_check(f.ran==0,"the test does not run without its set-up"); symx_check(r!=0,"a run whose set-up fails does not report success"); symx_observe_int("r",r); symx_reach("end"); }
}
