// Generated file names (itk::Regression).
#include "run.h"
#include "itktfRegression.h"
static std::string A(size_t n,const char*name,bool slash){ std::string s=symx_string(n,name); unsigned ok=1; for(size_t i=0;i<n;i++) ok&=(s[i]!=0)&(s[i]!='-')&(slash|((s[i]!='/')&(s[i]!='\\'))); symx_assume(ok); return s; }
struct N : itk::Regression { std::string ext[4],root[4],name[4]; int n; int ran; N():n(0),ran(0){}
  int Test(int,char**){ ran++; for(int i=0;i<n;i++) name[i]=GenerateFileName(ext[i],root[i]); return 0; }
  void go(const std::string*a,int na){ char buf[6][32]; char*v[7]; for(int i=0;i<na;i++){ memcpy(buf[i],a[i].c_str(),a[i].size()+1); v[i]=buf[i]; } v[na]=0; Main(na,v); }
  std::string gen(const std::string&e,const std::string&r){ return GenerateFileName(e,r); } };
static bool begins(const std::string&s,const std::string&p){ if(s.size()<p.size()) return false; unsigned d=0; for(size_t i=0;i<p.size();i++) d|=(unsigned char)(s[i]^p[i]); return !d; }
static bool ends(const std::string&s,const std::string&p){ return s.size()>=p.size()&&same(s.substr(s.size()-p.size()),p); }
// three requests in one run: pairwise different, each with its root, program name and extension; the same again in another run with other surroundings
extern "C" void h_names(){
  fs_dir("data"); fs_capture();
  std::string a[3]; int na=1+symx_param("args",1); a[0]=A(symx_param("prog",1),"p",false); for(int i=1;i<na;i++) a[i]=A(symx_param("len",1),"a",true);
  N r,q; r.n=q.n=3; static const char*roots[]={"","d","/x/y","e/"};
  for(int i=0;i<3;i++){ r.ext[i]=A(i==1?2:symx_param("ext",1),"e",false); unsigned k=symx_choice(5,"root"); r.root[i]=k<4?std::string(roots[k]):A(2,"r",false); q.ext[i]=r.ext[i]; q.root[i]=r.root[i]; }
  r.go(a,na); symx_check(r.ran==1,"the test ran");
  fs_setenv("HOME","elsewhere"); q.SetImageInsightTolerance(1,2,3); q.SetRelativeTolerance(0.5); q.go(a,na);
  for(int i=0;i<3;i++){
    symx_check(same(r.name[i],q.name[i]),"the same command line and history give the same name");
    std::string rest=r.name[i],d=r.root[i];
    if(d!=""){ symx_check(begins(rest,d),"the name begins with the root directory"); rest=rest.substr(d.size()); char last=d[d.size()-1]; if(last!='/'){ symx_check(rest.size()>0&&rest[0]=='/',"a separator follows the root"); rest=rest.substr(1); } }
    symx_check(begins(rest,a[0]+"_"),"the name begins with the program name");
    symx_check(ends(rest,"."+r.ext[i]),"the name carries the extension");

    for(int j=0;j<i;j++) symx_check(!same(r.name[i],r.name[j]),"names are pairwise different");
    symx_observe_str("name",r.name[i]); }
  symx_reach("end"); }
// any one byte of the command line decides about the name
extern "C" void h_hash(){
  fs_dir("data"); fs_capture(); int na=1+symx_param("args",1); size_t len=symx_param("len",2); std::string a[5],b[5]; 
  for(int i=0;i<na;i++){ a[i]=A(len,"a",true); b[i]=a[i]; }
  unsigned w=symx_choice(na,"which"); unsigned k=symx_choice(len,"at"); unsigned char c=symx_any<unsigned char>("c"); symx_assume(c!=0&&c!='-'&&c!=(unsigned char)a[w][k]); b[w][k]=c;
  N r,q; r.n=q.n=1; r.ext[0]=q.ext[0]="x"; r.go(a,na); q.go(b,na);
  symx_check(!same(r.name[0],q.name[0]),"a command line differing in one byte gives another name");
  // and where the program name is not what differs, nothing but the hash does
  if(w>0) symx_check(begins(q.name[0],a[0]+"_"),"the name begins with the program name");
  symx_observe_str("a",r.name[0]); symx_observe_str("b",q.name[0]); symx_reach("end"); }
// many requests
extern "C" void h_many(){
  fs_dir("data"); fs_capture(); N r; std::string a[1]={"prog"}; r.go(a,1); static std::string all[40]; int n=symx_param("n",20); std::string x=A(1,"e",false); 
  for(int i=0;i<n;i++){ all[i]=r.gen(i%3?x:std::string("png"),i%2?"d":""); for(int j=0;j<i;j++) symx_check(!same(all[i],all[j]),"names are pairwise different"); }
  // a second run of the same object goes on counting
  r.n=2; r.ext[0]=r.ext[1]=x; r.go(a,1); for(int j=0;j<n;j++) symx_check(!same(r.name[0],all[j])&&!same(r.name[1],all[j]),"names stay different over runs of one object");
  symx_observe_str("last",r.name[1]); symx_reach("end"); }
