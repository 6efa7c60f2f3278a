// C17, C18, C19, C28
#include "fs.h"
#include "FileUtilities/PathName.h"
#include "FileUtilities/FileUtilities.h"
#include <stdexcept>
#include <fcntl.h>
#include <vector>
using namespace fileutil;
static bool same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return false; unsigned d=0; for(size_t i=0;i<a.size();i++) d|=(unsigned char)(a[i]^b[i]); return !d; }
// the file a path names: absolute flag and the components other than "" and "."
static std::string canon(const std::string&p){ std::string r; if(!p.empty()&&p[0]=='/') r="/"; size_t i=0; while(i<p.size()){ size_t j=i; while(j<p.size()&&p[j]!='/') j++; if(j>i&&!(j==i+1&&p[i]=='.')){ r+='\0'; r.append(p,i,j-i); } i=j+1; } return r; }
static size_t lastsep(const std::string&p){ size_t r=std::string::npos; for(size_t i=0;i<p.size();i++) if(p[i]=='/') r=i; return r; }
static std::string refjoin(const std::string&a,const std::string&b){ if(a.empty()||(!b.empty()&&b[0]=='/')) return b; size_t n=a.size(); while(n&&a[n-1]=='/') n--; return a.substr(0,n)+"/"+b; }
static void decompose(){ // C17
  size_t n=symx_param("n",4); std::string p=symx_string(n,"path"); PathName pn(p);
  symx_check(same(pn.GetPathName(),p)&&same(pn.GetNativePathName(),p),"the path is the given text"); symx_check(pn.IsNativeFormat(),"native format");
  symx_check((pn.GetPathType()==PathName::Absolute)==(n&&p[0]=='/')&&(pn.GetPathType()==PathName::Relative)==!(n&&p[0]=='/'),"a path is absolute exactly when it starts with a separator");
  std::string t=pn.Tail().GetPathName(),e=pn.Extension(),d=pn.DirectoryName().GetPathName(); symx_observe_str("tail",t); symx_observe_str("ext",e); symx_observe_str("dir",d);
  size_t s=lastsep(p); std::string rt= s==std::string::npos? p: p.substr(s+1); symx_check(same(t,rt),"last component");
  size_t dot=std::string::npos; for(size_t i=0;i<rt.size();i++) if(rt[i]=='.') dot=i; symx_check(same(e,dot==std::string::npos? std::string(): rt.substr(dot+1)),"extension");
  if(s==std::string::npos) symx_check(d==".","directory of a single component"); else symx_check(same(canon(d),canon(p.substr(0,s+1)))&&!d.empty(),"directory part names all but the last component");
  if(n){ PathName j(pn.DirectoryName()); j.Append(pn.Tail()); symx_check(same(canon(j.GetPathName()),canon(p)),"joining directory and last component names the same file"); }
  symx_check(same(pn.GetPathName(),p),"queries leave the path alone"); symx_reach("end"); }
static void join(){ // C17
  size_t n=symx_param("n",2),m=symx_param("m",2); std::string a=symx_string(n,"left"),b=symx_string(m,"right"); PathName l(a),r(b); PathName&x=l.Append(r); 
  symx_check(&x==&l,"join returns its left side"); symx_check(same(r.GetPathName(),b),"join leaves the right side alone"); std::string j=l.GetPathName(); symx_observe_str("join",j);
  symx_check(same(j,refjoin(a,b)),"join of two paths");
  PathName c(l),q; q=l; l.SetPathName("zz"); symx_check(same(c.GetPathName(),j)&&same(q.GetPathName(),j),"copies are independent"); PathName s2(a); s2.Append(s2); symx_check(same(s2.GetPathName(),refjoin(a,a)),"join with itself"); 
  if(m){ bool nul=false; for(size_t i=0;i<m;i++) nul|=b[i]==0; if(!nul){ PathName k(a); k.Append(b.c_str()); symx_check(same(k.GetPathName(),j),"join with a C string"); } }
  symx_reach("end"); }
static void checksplit(const PathList&l,const std::string&v){
  std::vector<std::string> ref; if(!v.empty()){ size_t i=0; for(size_t k=0;k<=v.size();k++) if(k==v.size()||v[k]==':'){ ref.push_back(v.substr(i,k-i)); i=k+1; } }
  symx_check(l.size()==ref.size(),"number of pieces"); size_t k=0; bool ok=true; for(PathList::const_iterator i=l.begin();i!=l.end()&&k<ref.size();++i,++k) ok&=same(i->GetPathName(),ref[k]); symx_check(ok,"pieces in order");
  std::string j; k=0; for(PathList::const_iterator i=l.begin();i!=l.end();++i,++k){ if(k) j+=':'; j+=i->GetPathName(); } symx_check(same(j,v),"re-joining gives the string"); symx_observe_int("pieces",l.size()); symx_reach("end"); }
static void split(){ size_t n=symx_param("n",4); std::string v=symx_string(n,"value"); checksplit(GetPathListFromColonSeparatedList(v),v); } // C19
static void envlist(){ // C19
  size_t n=symx_param("n",3); std::string v=symx_string(n,"value"); unsigned d=1; for(size_t i=0;i<n;i++) d&=v[i]!=0; symx_assume(d);
  fs_setenv("VP_LIS","wrong:one"); fs_setenv("VP_LIST2","wrong:two"); unsigned set=symx_choice(2,"set"); if(set) fs_setenv("VP_LIST",v);
  PathList l=GetPathFromEnviroment("VP_LIST"); if(!set){ symx_check(l.empty(),"unset variable gives nothing"); symx_reach("unset"); } else checksplit(l,v); }
// C18: look a name up in a list of symbolic paths over a small file system
static void mktree(){ fs_dir("a"); fs_dir("b"); fs_dir("b/s"); unsigned k=symx_choice(6,"a/f-kind"); 
  if(k==1) fs_file("a/f","A",1); else if(k==2) fs_dir("a/f"); else if(k==3) fs_fifo("a/f"); else if(k==4) fs_link("a/f","../b/g"); else if(k==5) fs_link("a/f","nowhere");
  fs_file("b/f","B",1,symx_choice(2,"unreadable")?FS_NOREAD:0); fs_file("b/g","G",1); fs_file("b/s/f","S",1); }
static void search(){
  mktree(); size_t k=symx_param("k",2),nl=symx_param("nl",2),nn=symx_param("nn",1); bool absname=symx_param("absname",0); if(absname) nn=1; std::string name=symx_string(nn,"name"); unsigned nz=1; for(size_t i=0;i<nn;i++) nz&=name[i]!=0; if(absname) name=fs_cwd()+(symx_choice(2,"inb")?"/b/":"/a/")+name;
  std::vector<std::string> ent; PathList pl; for(size_t i=0;i<k;i++){ char nm[8]={'e',(char)('0'+i),0}; unsigned mode=symx_choice(symx_param("abs",0)?3:2,i?"mode1":"mode0"); std::string e= mode==0? symx_string(nl,nm): mode==1? std::string(i?"b":"a")+(symx_choice(2,"slash")?"/":""): fs_cwd()+"/b"; for(size_t j=0;j<e.size();j++) nz&=e[j]!=0; ent.push_back(e); pl.push_back(PathName(e)); }
  symx_assume(nz);
  std::string got=PathName(name).SearchPathList(pl).GetPathName();
  std::string want; for(size_t i=0;i<k;i++){ std::string j=refjoin(ent[i],name); struct stat st; if(!stat(j.c_str(),&st)&&S_ISREG(st.st_mode)){ want=j; symx_reach("found"); break; } }
  symx_check(same(got,want),"first match on the search list, or nothing"); PathList::iterator it=pl.begin(); bool keep=pl.size()==k; for(size_t i=0;i<k;i++,++it) keep&=same(it->GetPathName(),ent[i]); symx_check(keep,"the list is left alone"); if(want.empty()) symx_reach("none"); symx_reach("end"); }
// C28
static const int NAMES=9; static const char*const NAME[NAMES]={"x","d/x","d","d/e","l","n","d/../x","x/","d/"};
static void predicates(){ // one entry of every kind and permission at "x" and in "d", seen through every kind of name
  unsigned dperm=symx_choice(8,"dir-perm"); int dfl=(dperm&1?FS_NOREAD:0)|(dperm&2?FS_NOWRITE:0)|(dperm&4?FS_NOSEARCH:0);
  unsigned kind=symx_choice(4,"kind"),perm=symx_choice(8,"perm"); int pf=(perm&1?FS_NOREAD:0)|(perm&2?FS_NOWRITE:0);
  fs_dir("d"); const char*at= symx_choice(2,"where")?"d/x":"x";
  if(kind==0) fs_file(at,"data",4,pf|(perm&4?FS_EXEC:0)); else if(kind==1) fs_dir(at,pf|(perm&4?FS_NOSEARCH:0)); else if(kind==2) { symx_assume(perm==0); fs_fifo(at); } else symx_assume(perm==0);
  fs_link("l",symx_choice(2,"link")? at:"nowhere"); fs_dir("d/e"); fs_chmod_dir("d",dfl);
  const char*nm=NAME[symx_choice(NAMES,"name")]; PathName p(nm);
  struct stat st; bool ex=!stat(nm,&st);
  bool e=p.Exists(),f=p.IsFile(),d=p.IsDirectory(),r=p.IsReadable(),w=p.IsWritable(),x=p.IsExecutable();
  symx_observe_int("answers",e|f<<1|d<<2|r<<3|w<<4|x<<5);
  symx_check(e==ex,"Exists"); symx_check(f==(ex&&S_ISREG(st.st_mode)),"IsFile"); symx_check(d==(ex&&S_ISDIR(st.st_mode)),"IsDirectory"); bool sx= ex&&S_ISDIR(st.st_mode)? !access(nm,X_OK):true;
  symx_check(r==(!access(nm,R_OK)&&sx),"IsReadable"); symx_check(w==(!access(nm,W_OK)&&sx),"IsWritable"); symx_check(x==!access(nm,X_OK),"IsExecutable");
  // a listing gives exactly the entries
  bool dir=ex&&S_ISDIR(st.st_mode); PathList l=p.SearchDirectory(); if(!dir) symx_check(l.empty(),"a non-directory lists nothing"); else if(access(nm,R_OK)) symx_check(l.empty(),"an unreadable directory lists nothing"); else { bool isd=!strcmp(nm,"d")||!strcmp(nm,"d/"); unsigned want=2+(isd? 1+(!strcmp(at,"d/x")&&kind<3):0); symx_check(l.size()==want,"number of entries"); symx_reach("listed"); }
  symx_reach("end"); }
static void listing(){ // any set of entry names
  size_t n=symx_param("n",3); const char*all[]={"a","b.txt",".h","c c","sub","zz"}; bool in[6]; fs_dir("D"); fs_dir("E"); fs_file("E/other","",0); fs_file("outside","",0); size_t cnt=0; (void)n;
  for(int i=0;i<6;i++){ in[i]=symx_choice(2,"present"); if(in[i]){ std::string q=std::string("D/")+all[i]; if(i==4) fs_dir(q.c_str()); else fs_file(q.c_str(),"xxxxxx",i); cnt++; } } if(in[4]) fs_file("D/sub/deep","",0);
  PathList l=PathName(symx_choice(2,"slash")?"D/":"D").SearchDirectory(); size_t dots=0; std::vector<int> seen(6,0); for(PathList::iterator i=l.begin();i!=l.end();++i){ const std::string&s=i->GetPathName(); if(s=="."||s=="..") dots++; else { int k=-1; for(int j=0;j<6;j++) if(s==all[j]) k=j; symx_check(k>=0,"every listed name is an entry"); if(k>=0) seen[k]++; } }
  for(int j=0;j<6;j++) symx_check(seen[j]==(in[j]?1:0),"every entry is listed once"); symx_check(dots==2,"the two dot entries"); symx_check(PathName("outside").SearchDirectory().empty()&&PathName("missing").SearchDirectory().empty(),"a non-directory lists nothing"); symx_observe_int("n",l.size()); symx_reach("end"); }
static void curdir(){ // C28: changing the current directory
  std::string base=fs_cwd(); fs_dir("d"); fs_dir("d/e"); fs_file("f","x",1); unsigned lk=symx_choice(3,"link"); fs_link("l",lk==0?"d/e":lk==1?"f":"gone"); int ns=symx_choice(2,"closed"); if(ns) fs_chmod_dir("d",FS_NOSEARCH);
  symx_check(GetCurrentDirectory().GetPathName()==base,"the current directory at the start");
  size_t n=symx_param("n",2); std::string p; unsigned m=symx_choice(4,"mode"); if(m==0){ p=symx_string(n,"path"); unsigned nz=1; for(size_t i=0;i<n;i++) nz&=p[i]!=0; symx_assume(nz); } else p= m==1?"d/e": m==2? base+"/d":"d/../d/e/..";
  struct stat st; bool dir=!stat(p.c_str(),&st)&&S_ISDIR(st.st_mode); bool threw=false,ret=false; std::string what; try{ ret=SetCurrentDirectory(PathName(p)); }catch(std::runtime_error&e){ threw=true; }
  symx_check(threw==!dir,"exactly the non-directories are refused"); std::string now=fs_cwd(); symx_check(GetCurrentDirectory().GetPathName()==now||access(".",X_OK),"the current directory is reported");
  if(threw||!ret) symx_check(now==base,"a refused change leaves the current directory"); else { // compare with a direct chdir
    symx_check(!chdir(base.c_str()),"back"); symx_check(!chdir(p.c_str()),"the system can change too"); symx_check(fs_cwd()==now,"the directory changed to is the one named"); symx_reach("changed"); }
  if(dir&&!threw&&!ret){ symx_check(chdir(p.c_str())!=0,"reported failure is real"); symx_reach("denied"); }
  symx_reach("end"); }
extern "C" { void h_decompose(){ decompose(); } void h_join(){ join(); } void h_split(){ split(); } void h_env(){ envlist(); } void h_search(){ search(); } void h_predicates(){ predicates(); } void h_listing(){ listing(); } void h_curdir(){ curdir(); } }
