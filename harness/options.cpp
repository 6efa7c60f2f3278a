// C11: framework options
#include "run.h"
#include <sys/stat.h>
#include <fcntl.h>
static bool hasArg(const std::string&s){ unsigned z=0; for(size_t i=0;i<s.size();i++) z|= s[i]==0; return !z; }
struct Args : Run { std::vector<std::string> got; bool nulled; int n; std::string in,out; int exp; std::vector<std::string> path; Args():nulled(false),n(-1),exp(0){} 
  int Test(int argc,char**argv){ ran++; n=argc; for(int i=0;i<argc&&i<16;i++) got.push_back(argv[i]?argv[i]:"<null>"); in=GetInFileName(); out=GetOutFileName(); exp=GetExpectedReturn(); const fileutil::PathList&l=GetInFileSearchPath(); for(fileutil::PathList::const_iterator i=l.begin();i!=l.end();++i) path.push_back(i->GetPathName()); return exp; }
  int body(){ return 0; } };
static bool isFile(const std::string&p){ struct stat st; return !p.empty()&&stat(p.c_str(),&st)==0&&S_ISREG(st.st_mode); }
static bool isDir(const std::string&p){ struct stat st; return !p.empty()&&stat(p.c_str(),&st)==0&&S_ISDIR(st.st_mode); }
// the effect the arguments must have, by the documentation
// lost: an unwritable output file came after a writable one, which may or may not still count
struct Want { bool error; int exp; std::string in,out; std::vector<std::string> path,rest; bool lost; Want():error(false),exp(0),lost(false){} };
static bool is(const std::string&s,char c){ return s.size()==2 && (unsigned)((s[0]=='-')&(s[1]==c)); }
static Want effect(const std::vector<std::string>&a,int exp0){ Want w; w.exp=exp0; size_t i=0; for(;i+1<a.size();i+=2){ const std::string&v=a[i+1]; 
    if(is(a[i],'O')){ if(!(isFile(v)&&access(v.c_str(),W_OK)!=0)){ w.out=v; w.lost=false; } else if(!w.out.empty()) w.lost=true; }
    else if(is(a[i],'I')){ if(!isFile(v)||access(v.c_str(),R_OK)!=0){ w.error=true; return w; } w.in=v; }
    else if(is(a[i],'R')) w.exp=(int)strtol(v.c_str(),0,10);
    else if(is(a[i],'P')){ if(!isDir(v)||access(v.c_str(),R_OK|X_OK)!=0){ w.error=true; return w; } w.path.insert(w.path.begin(),v); }
    else break; }
  w.rest.assign(a.begin()+i,a.end()); return w; }
static void files(){ fs_file("i","<output></output>",17); fs_file("j","<output></output>",17); fs_file("r","<output></output>",17,FS_NOWRITE); fs_file("u","<output></output>",17,FS_NOREAD); fs_dir("d"); fs_dir("e"); fs_dir("x",FS_NOSEARCH); fs_dir("y",FS_NOREAD); fs_file("p","<output></output>",17); }
static void judge(const std::vector<std::string>&a){ Args t; int exp0= symx_choice(2,"preset")? 5: 0; t.SetExpectedReturn(exp0); Want w=effect(a,exp0); symx_assume(w.in.empty()||!same(w.in,w.out)); bool openable= w.out.empty()|| (isFile(w.out)? access(w.out.c_str(),W_OK)==0: false); if(!openable){ int f=open(w.out.c_str(),O_WRONLY|O_CREAT|O_TRUNC,0666); if(f>=0){ close(f); openable=true; } }
  static char mem[16][8]; char*argv[16]; int argc=0; argv[argc++]=strcpy(mem[0],"prog"); for(size_t i=0;i<a.size();i++) argv[argc]=strcpy(mem[argc],a[i].c_str()),argc++; argv[argc]=0; char*before[16]; for(int i=0;i<=argc;i++) before[i]=argv[i];
  int r=t.Main(argc,argv); symx_observe_int("r",r); symx_observe_int("ran",t.ran);
  if(w.error){ symx_check(t.ran==0&&r!=0,"an unreadable input file or search path is an error"); symx_reach("error"); return; }
  if(!openable&&w.lost) return; if(!openable){ symx_check(t.ran==0&&r!=0,"an output file that cannot be created is an error"); symx_reach("noout"); return; }
  symx_check(t.ran==1,"the test runs"); if(t.ran!=1) return; bool ok= t.got.size()==w.rest.size()+1 && (size_t)t.n==t.got.size(); symx_check(ok,"the test gets the remaining arguments"); if(!ok) return; symx_check(t.got[0]=="prog","the test gets the program name"); for(size_t i=0;i<w.rest.size();i++) symx_check(same(t.got[i+1],w.rest[i]),"the test gets the remaining arguments unchanged and in order");
  symx_check(same(t.in,w.in),"the last input file counts"); symx_check(same(t.out,w.out)||(w.lost&&t.out.empty()),"the last writable output file counts"); symx_check(t.exp==w.exp,"the last expected value counts"); bool pl=t.path.size()==w.path.size(); symx_check(pl,"every search path is used"); if(pl) for(size_t i=0;i<w.path.size();i++) symx_check(same(t.path[i],w.path[i]),"later search paths are searched first");
  symx_check(r==0,"the run succeeds"); symx_reach("end"); }
extern "C" {
// any bytes
void h_any(){ files(); size_t n=symx_param("n",2); unsigned code=symx_param("lens",0); std::vector<std::string> a; for(size_t i=0;i<n;i++){ a.push_back(symx_string(code%10,"arg")); code/=10; symx_assume(hasArg(a.back())); } judge(a); }
// options and well-chosen values
void h_options(){ files(); unsigned n=symx_param("n",2),tail=symx_param("tail",1); std::vector<std::string> a; for(unsigned i=0;i<n;i++){ static const char*const v[4][5]={{"i","j","u","zz","d"},{"o","p","r","d","d/q"},{"7","-12","0x","",""},{"d","e","x","y","i"}}; static const unsigned nv[]={5,5,4,5}; unsigned o=symx_choice(4,"opt"); a.push_back(std::string("-")+"IORP"[o]); if(o==2&&symx_param("num",0)) a.push_back(symx_string(3,"num")); else a.push_back(v[o][symx_choice(nv[o],"value")]); symx_assume(hasArg(a.back())); }
  for(unsigned i=0;i<tail;i++){ switch(symx_choice(4,"tail")){ case 0: a.push_back("-I"); break; case 1: a.push_back("-P"); break; case 2: a.push_back(symx_string(1,"word")); symx_assume(hasArg(a.back())); break; default: a.push_back("--"); } } judge(a); }
}
