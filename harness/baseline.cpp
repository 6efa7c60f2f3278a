// C13: any baseline document
#include "run.h"
struct Recorder : CompareVisitor { std::vector<std::string>*log; using CompareVisitor::Visit;
  void take(Measurement&m){ Measurement*b=_baseline; log->push_back(b->GetAttributeName()); log->push_back(b->GetAttributeType()); DataMeasurement*d=dynamic_cast<DataMeasurement*>(b); log->push_back(d? d->GetAttributeEncoding(): "file"); log->push_back(d? d->GetAttributeCompression(): "file"); log->push_back(b->GetContent()); (void)m; }
  virtual void Visit(Measurement&m){ take(m); } virtual void Visit(NumericData&m){ take(m); } virtual bool GetResult() const { return true; } };
static DataMeasurement* mk(const std::string&t){ return t=="text/string"? (DataMeasurement*)new StringText: t=="numeric/integer"? (DataMeasurement*)new IntegerNumeric: t=="numeric/float"? (DataMeasurement*)new FloatNumeric: t=="numeric/double"? (DataMeasurement*)new DoubleNumeric: t=="numeric/boolean"? (DataMeasurement*)new BooleanNumeric: (DataMeasurement*)new PlainText; }
struct Exp { bool file; std::string name,type,enc,comp,text; };
struct Reader : Run { std::vector<Exp> exp; std::vector<std::string> log; bool bad; Reader():bad(false){}
  CompareVisitor* CreateCompareVisitor() const { Recorder*r=new Recorder; r->log=const_cast<std::vector<std::string>*>(&log); return r; }
  int body(){ for(size_t i=0;i<exp.size();i++){ Measurement*m; if(exp[i].file){ MeasurementFile*f=new MeasurementFile; f->SetAttributeType(exp[i].type); m=f; } else m=mk(exp[i].type); m->SetAttributeName(exp[i].name); size_t n=log.size(); int r=CompareMeasurement(*m); symx_check(log.size()==n+5&&r==1,"a measurement is read for each measurement element, with its name and type"); if(log.size()!=n+5) return 9;
      const Exp&e=exp[i]; symx_check(same(log[n],e.name)&&same(log[n+1],e.type),"with its name and type"); symx_check(same(log[n+2],e.file?"file":e.enc),"with its encoding"); symx_check(same(log[n+3],e.file?"file":e.comp),"with its compression"); symx_check(same(log[n+4],e.text),"with its content"); delete m; } return 0; } };
static void judge(const std::string&doc){ fs_file("base.xml",doc.data(),doc.size()); XmlReader x(doc); XmlElement root; bool ok=x.document(root); Reader r; if(ok) for(size_t i=0;i<root.kids.size();i++){ XmlElement&k=root.kids[i]; bool f=k.name=="DartMeasurementFile"; if(!f&&!(k.name=="DartMeasurement")) continue; Exp e; e.file=f; const std::string*a=k.get("name"); e.name= a?*a: f?"unknown":""; a=k.get("type"); if(f) e.type= a?*a:"text/plain"; else { Measurement*m=mk(a?*a:""); e.type=m->GetAttributeType(); delete m; } a=k.get("encoding"); e.enc=a?*a:"none"; a=k.get("compression"); e.comp=a?*a:"none"; e.text=k.text; r.exp.push_back(e); }
  int rc=r.go("-I","base.xml"); symx_observe_int("rc",rc); if(!ok){ symx_check(r.ran==0&&rc!=0,"a document that is not well-formed is an error of the run"); symx_reach("rejected"); } else { symx_check(r.ran==1&&rc==0,"a well-formed document is read"); symx_reach("read"); } symx_reach("end"); }
#define DM "<DartMeasurement name=\"a\" type=\"text/string\">"
#define ED "</DartMeasurement>"
#define SENT "<DartMeasurement name=\"z\" type=\"numeric/integer\">7</DartMeasurement>"
static const char*const tmpl[][3]={
 {"","",""},                                              // 0
 {"<output>",SENT "</output>",""},
 {"<output>" DM,ED SENT "</output>",""},
 {"<output>" "<DartMeasurement name=\"","\" type=\"text/plain\">x" ED SENT "</output>",""},
 {"<output>" "<DartMeasurement name=\"n\" type=\"text/plain\"",">x" ED SENT "</output>",""},
 {"<output>" "<DartMeasurement type=\"text/","\" name=\"q\">x" ED SENT "</output>",""}, // 5
 {"<output>" "<DartMeasuremen"," name=\"a\" type=\"text/string\">x" ED SENT "</output>",""},
 {"<output>" DM "ab<x>","</x>cd" ED SENT "</output>",""},
 {"","<output>" SENT "</output>",""},
 {"<output>" SENT "</output>","",""},
 {"<output>" DM "ab<![CDATA[","]]>cd" ED SENT "</output>",""}, // 10
 {"<output>" DM "ab<!--","-->cd" ED SENT "</output>",""},
 {"<output><foo>","<DartMeasurement name=\"in\" type=\"text/string\">y" ED "</foo>" SENT "</output>",""},
 {"<output><DartMeasurementFile name=\"f\" type=\"image/png\">","</DartMeasurementFile>" SENT "</output>",""},
 {"<output><DartMeasurementFile ",">f.png</DartMeasurementFile>" SENT "</output>",""},
 {"<output>" "<DartMeasurement encoding=\"","\" compression=\"c\" name=\"e\" type=\"text/plain\">QUI=" ED SENT "</output>",""}, // 15
 {"<output>" "<DartMeasurement name=\"n\" type=\"numeric/double\"/>",SENT "</output>",""},
 {"<output>" DM "&",";" ED SENT "</output>",""},
 {"<output>" DM "&#x",";" ED SENT "</output>",""},
 {"<o","utput>" SENT "</output>",""},
 {"<output>" DM "a</","DartMeasurement>" SENT "</output>",""}, // 20
};
static const char rich[]="<?xml version=\"1.0\" encoding=\"US-ASCII\"?>\n<!-- c -->\n<output>\n<DartMeasurement name=\"a&lt;\" type=\"text/plain\">l&amp;1\nl2</DartMeasurement>\n<other k='v'/><DartMeasurementFile name=\"f\" type=\"image/png\">f.png</DartMeasurementFile>\n" SENT "\n</output>\n";
extern "C" {
void h_hole(){ unsigned t=symx_param("t",0); size_t n=symx_param("n",1),pad=symx_param("pad",0); std::string h=symx_string(n,"hole"); std::string d=tmpl[t][0]; if(pad){ size_t at=t==2||t==7||t==10||t==11? 8: 0; size_t len=d.size(); if(pad>len) d=d.substr(0,at)+std::string(pad-len,' ')+d.substr(at); } judge(d+h+tmpl[t][1]); }
void h_cut(){ std::string d=rich; size_t k=symx_choice(250,"at"); symx_assume(k<d.size()); judge(d.substr(0,k)); }
// one byte of a rich document replaced
void h_byte(){ std::string d=rich; size_t k=symx_param("from",0)+symx_choice(16,"at"); symx_assume((k>=41)&(k<d.size())); d[k]=symx_any<char>("byte"); judge(d); }
// long contents and many measurements, across buffer boundaries
void h_long(){ size_t n=symx_param("n",1000),m=symx_param("m",1); std::string d="<output>"; for(size_t i=0;i<m;i++){ std::string c; for(size_t k=0;k<n;k++) c+= k%37==36? '\n': (char)('a'+(k+i)%26); if(n&&i==m/2) c[n/2]=symx_any<char>("c"); d+=DM+c+ED; } judge(d+"</output>"); }
}
