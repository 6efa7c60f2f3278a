// C06 printing, C15 file measurements, C16 content and data, C20 visitors
#include "fs.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include "TestingFramework/tfBase64.h"
#include "xmlread.h"
#include <sstream>
#include <vector>
using namespace testutil;
static bool same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return false; unsigned d=0; for(size_t i=0;i<a.size();i++) d|=(unsigned char)(a[i]^b[i]); return !d; }
static DataMeasurement* mk(unsigned k){ switch(k){ case 0: return new PlainText; case 1: return new StringText; case 2: return new IntegerNumeric; case 3: return new FloatNumeric; case 4: return new DoubleNumeric; default: return new BooleanNumeric; } }
static const char*const types[]={"text/plain","text/string","numeric/integer","numeric/float","numeric/double","numeric/boolean"};
// n printable characters (with ws also tabs and newlines)
static std::string printable(size_t n,const char*name,bool ws){ std::string s=symx_string(n,name); unsigned ok=1; for(size_t i=0;i<n;i++){ unsigned char c=s[i]; ok&=((c>=32)&(c<127))|(ws&((c=='\t')|(c=='\n'))); } symx_assume(ok); return s; }
extern "C" {
// ------------------------------------------------------------------ C06
void h_print(){ unsigned k=symx_param("kind",0); size_t nn=symx_param("name",1),nc=symx_param("content",1),ne=symx_param("enc",0),nz=symx_param("comp",0),nt=symx_param("type",0);
  std::string name=printable(nn,"name",false),content=printable(nc,"content",true),enc="none",comp="none",type; Measurement*m; 
  if(k<6){ DataMeasurement*d=mk(k); m=d; type=types[k]; if(ne){ enc=printable(ne,"enc",false); d->SetAttributeEncoding(enc); } if(nz){ comp=printable(nz,"comp",false); d->SetAttributeCompression(comp); } } else { MeasurementFile*f=new MeasurementFile; type=printable(nt,"type",false); f->SetAttributeType(type); m=f; }
  m->SetAttributeName(name); m->SetContent(content); std::ostringstream os; os<<"x"; if(symx_param("shift",0)) m->Print(os); else os<<*m; std::string t=os.str(); symx_observe_str("text",t);
  XmlReader r(t); r.i=1; XmlElement e; bool ok= t.size()>1 && t[0]=='x' && r.element(e) && r.i==t.size(); symx_check(ok,"one well-formed element"); if(!ok) return;
  symx_check(e.name==(k<6?"DartMeasurement":"DartMeasurementFile"),"element name");
  const std::string*an=e.get("name"),*at=e.get("type"),*ae=e.get("encoding"),*ac=e.get("compression");
  symx_check(an&&same(*an,name),"the name reads back"); symx_check(at&&same(*at,type),"the type reads back"); symx_check(ae? same(*ae,enc)&&!(enc=="none"): enc=="none","the encoding reads back, and is written when it is not the default"); symx_check(ac? same(*ac,comp)&&!(comp=="none"): comp=="none","the compression reads back, and is written when it is not the default");
  symx_check(e.attrs.size()==2u+(ae?1:0)+(ac?1:0),"no other attributes"); symx_check(e.children==0&&same(e.text,content),"the content reads back"); symx_check(same(m->GetContent(),content)&&same(m->GetAttributeName(),name),"printing leaves the measurement alone"); delete m; symx_reach("end"); }
// ------------------------------------------------------------------ C15
}
static const char*const ftypes[]={"text/plain","text/string","image/png","application/octet-stream"};
static bool mkfile(const char*p,unsigned state,size_t n,const char*nm,std::string&c){ if(state==1) return false; c=symx_string(n,nm); fs_file(p,c.data(),n,state==2?FS_NOREAD:0); return state==0; }
static void fileEq(bool ra,bool rb,const std::string&ca,const std::string&cb,const char*ty){
  MeasurementFile a,b; a.SetAttributeName("f"); b.SetAttributeName("f"); a.SetAttributeType(ty); b.SetAttributeType(ty); a.SetFileName("a.dat"); b.SetFileName("b.dat"); int fds=fs_openfds();
  bool want=ra&&rb&&same(ca,cb); bool e=a==b; symx_observe_int("e",e); symx_check(e==want,"equal exactly when both files can be read and hold the same bytes"); symx_check((b==a)==want,"equal exactly when both files can be read and hold the same bytes (other side first)"); symx_check((a==a)==ra,"a file equals itself exactly when it can be read");
  CompareVisitor v; v.SetBaselineMeasurement(&b); v.SetTolerance(0.5); a.AcceptVisitor(v); symx_check(v.GetResult()==want,"the comparison visitor agrees"); symx_check(fs_openfds()==fds,"files closed"); symx_reach("end"); }
extern "C" {
void h_files(){ std::string ca,cb; const char*ty=ftypes[symx_choice(4,"type")]; unsigned sa=symx_choice(3,"sa"),sb=symx_choice(3,"sb"); bool ra=mkfile("a.dat",sa,symx_param("n",1),"a",ca),rb=mkfile("b.dat",sb,symx_param("m",1),"b",cb); fileEq(ra,rb,ca,cb,ty); }
// large files: two copies of one text that may differ in any one byte, or in length
void h_bigfiles(){ size_t n=symx_param("n",4096); const char*ty=ftypes[symx_choice(3,"type")]; std::string a(n,'\0'),b; for(size_t i=0;i<n;i++) a[i]=(char)(i*7+(i>>8)); b=a; int d=(int)symx_choice(3,"longer")-1; size_t at[]={0,1,n/2,n-2,n-1}; size_t p=at[symx_choice(5,"at")]; a[p]=symx_any<char>("x"); b[p]=symx_any<char>("y"); if(d>0) b+='\n'; if(d<0) b.resize(n-1); fs_file("a.dat",a.data(),a.size()); fs_file("b.dat",b.data(),b.size()); fileEq(true,true,a,b,ty); }
}
// ------------------------------------------------------------------ C16
struct Ref { std::string name,content,enc; bool known; std::string data; bool hasDec; std::string dec; Ref():known(true),hasDec(true){ enc="none"; } }; // known: the data view is determined; dec: what the content decodes to
static std::string ref64(const std::string&d){ static const char al[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for(size_t i=0;i<d.size();i+=3){ size_t n=d.size()-i; unsigned w=(unsigned char)d[i]<<16|(n>1?(unsigned char)d[i+1]<<8:0)|(n>2?(unsigned char)d[i+2]:0); r+=al[w>>18&63]; r+=al[w>>12&63]; r+= n>1? al[w>>6&63]:'='; r+= n>2? al[w&63]:'='; } return r; }
static void view(Ref&r){ if(r.enc=="none"){ r.known=true; r.data=r.content; } else { r.known=r.hasDec; r.data=r.dec; } }
static void setData(DataMeasurement&x,Ref&q,const char*p,size_t n){ std::string c(p,n); x.SetContentAsData(p,n); q.content=x.GetContent(); q.known=true; q.data=c; if(q.enc=="none"){ symx_check(same(q.content,c),"unencoded data is the content"); q.hasDec=c.empty(); q.dec.clear(); } else { symx_check(same(q.content,ref64(c)),"the content encodes the data"); q.hasDec=true; q.dec=c; } }
static void checkView(DataMeasurement&m,const Ref&r){ symx_check(same(m.GetAttributeName(),r.name),"name"); symx_check(m.GetAttributeEncoding()==r.enc,"encoding"); symx_check(same(m.GetContent(),r.content),"content"); if(r.known){ size_t n=m.GetContentAsDataSize(); const char*p=(const char*)m.GetContentAsData(); symx_check(n==r.data.size()&&same(std::string(p,n),r.data),"the data view is the content decoded by the current encoding"); } symx_check(same(m.GetContent(),r.content),"reading leaves the content alone"); }
template<class T> static void history(){ uint64_t live=symx_heap_live(); { T a,b; T*m[2]={&a,&b}; Ref r[2];
  unsigned ops=symx_param("ops",3); for(unsigned s=0;s<ops;s++){ unsigned w= s==0&&ops>1? 0: symx_choice(2,"which"); T&x=*m[w]; Ref&q=r[w]; unsigned op=symx_choice(9,"op"); 
    switch(op){
    case 0: { unsigned l=symx_choice(3,"len"); std::string c=symx_string(l==2?4:l,"content"); q.hasDec=l!=1; q.dec.clear(); if(l==2){ unsigned ok=1,v=0; for(int i=0;i<4;i++){ ok&=(c[i]>='A')&(c[i]<='Z'); v=v<<6|(unsigned)(unsigned char)(c[i]-'A'); } symx_assume(ok); for(int i=16;i>=0;i-=8) q.dec+=(char)(v>>i); } x.SetContent(c); q.content=c; view(q); break; }
    case 1: { unsigned l=symx_choice(3,"len"); std::string c=symx_string(l==2?3:l,"data"); setData(x,q,c.data(),c.size()); break; }
    case 2: { unsigned e=symx_choice(2,"enc"); x.SetAttributeEncoding(e?"base64":"none"); q.enc=e?"base64":"none"; view(q); break; }
    case 3: { std::string n=symx_string(1,"name"); x.SetAttributeName(n); q.name=n; break; }
    case 4: m[1-w]->operator=(x); r[1-w]=q; view(r[1-w]); break;
    case 5: x=x; break;
    case 6: { T*c=new T(x); Ref k=q; view(k); checkView(*c,k); c->SetContent("zz"); c->SetAttributeName("other"); char z=7; c->SetContentAsData(&z,1); delete c; break; }
    case 7: { if(!q.known) break; size_t n=x.GetContentAsDataSize(); if(n>1){ const char*p=(const char*)x.GetContentAsData(); setData(x,q,p+1,n-1); } break; }
    default: x.SetAttributeCompression("none"); break; }
    if(symx_param("eager",0)) for(int i=0;i<2;i++) checkView(*m[i],r[i]); }
  for(int i=0;i<2;i++) checkView(*m[i],r[i]); 
  if(r[0].known&&r[1].known){ symx_check((a==b)==(same(r[0].name,r[1].name)&&same(r[0].data,r[1].data)),"equal exactly when names and data are"); }
  for(int i=0;i<2;i++) checkView(*m[i],r[i]); symx_observe_str("a",a.GetContent()); symx_observe_str("b",b.GetContent()); }
  symx_check(symx_heap_live()==live,"no memory leaked"); symx_reach("end"); }
extern "C" {
void h_history(){ switch(symx_param("kind",0)){ case 0: history<PlainText>(); break; case 1: history<StringText>(); break; case 2: history<IntegerNumeric>(); break; default: history<DoubleNumeric>(); } }
}
// ------------------------------------------------------------------ C20
enum { VM,VFILE,VDATA,VTEXT,VPLAIN,VSTRING,VNUM,VINT,VFLOAT,VDOUBLE,VBOOL };
static const int up[]={-1,VM,VM,VDATA,VTEXT,VTEXT,VDATA,VNUM,VNUM,VNUM,VNUM};
template<class B> struct Rec : B { bool over[11]; int calls; int which; void*obj; 
  Rec():calls(0),which(-1),obj(0){}
  void hit(int k,Measurement&m){ calls++; which=k; obj=dynamic_cast<void*>(&m); }
#define V(K,T) virtual void Visit(T&m){ if(over[K]) hit(K,m); else B::Visit(m); }
  V(VM,Measurement) V(VFILE,MeasurementFile) V(VDATA,DataMeasurement) V(VTEXT,TextData) V(VPLAIN,PlainText) V(VSTRING,StringText) V(VNUM,NumericData) V(VINT,IntegerNumeric) V(VFLOAT,FloatNumeric) V(VDOUBLE,DoubleNumeric) V(VBOOL,BooleanNumeric)
};
// user types: visited as their nearest library class
struct MyMeasure : Measurement { std::string c,n; const std::string&GetElementTypeName()const{ return n; } const std::string&GetAttributeType()const{ return n; } void SetContent(const std::string&x){ c=x; } const std::string&GetContent()const{ return c; } bool IsEqual(Measurement&){ return false; } void PrintStartTag(std::ostream&)const{} };
struct MyData : DataMeasurement { std::string c; const std::string&GetAttributeType()const{ return c; } void SetContent(const std::string&x){ c=x; } const std::string&GetContent()const{ return c; } };
struct MyText : TextData { std::string c; const std::string&GetAttributeType()const{ return c; } };
struct MyNum : NumericData { std::string c; const std::string&GetAttributeType()const{ return c; } bool IsEqualTolerant(const NumericData&,double){ return false; } };
struct MyPlain : PlainText {}; struct MyInt : IntegerNumeric {}; struct MyFile : MeasurementFile {};
static Measurement* anyMeasurement(unsigned k,int&cls){ static const int c[]={VPLAIN,VSTRING,VINT,VFLOAT,VDOUBLE,VBOOL,VFILE,VM,VDATA,VTEXT,VNUM,VPLAIN,VINT,VFILE}; cls=c[k]; switch(k){ case 6: return new MeasurementFile; case 7: return new MyMeasure; case 8: return new MyData; case 9: return new MyText; case 10: return new MyNum; case 11: return new MyPlain; case 12: return new MyInt; case 13: return new MyFile; default: return mk(k); } }
template<class V> static void dispatch(V&v,bool builtin(int)){ unsigned k=symx_choice(14,"type"); int cls; Measurement*m=anyMeasurement(k,cls); m->SetAttributeName("n"); m->SetContent("1"); for(int i=0;i<11;i++) v.over[i]=symx_any<unsigned char>("handler")&1;
  m->AcceptVisitor(v); int c=cls; while(c>=0&&!v.over[c]&&!builtin(c)) c=up[c]; bool mine= c>=0&&v.over[c];
  symx_check(v.calls==(mine?1:0),"exactly one overridden handler is called, or none"); if(mine){ symx_check(v.which==c,"the most specific overridden handler"); symx_check(v.obj==dynamic_cast<void*>(m),"with the same object"); } symx_observe_int("which",v.which); delete m; symx_reach("end"); }
static bool none(int){ return false; } static bool ofDiff(int c){ return c==VM||c==VPLAIN; } static bool ofCompare(int c){ return c==VM||c==VNUM; }
extern "C" {
void h_visit(){ Rec<MeasurementVisitor> v; dispatch(v,none); }
void h_visit_diff(){ Rec<DifferenceVisitor> v; PlainText b; b.SetAttributeName("n"); b.SetContent("2"); std::ostringstream os; v.SetBaselineMeasurement(&b); v.SetOutStream(os); dispatch(v,ofDiff); }
void h_visit_compare(){ Rec<CompareVisitor> v; PlainText b; b.SetAttributeName("x"); v.SetBaselineMeasurement(&b); dispatch(v,ofCompare); }
}
