// C25: the pipe wrapper.  The process library is replaced (in both builds) by a
// child that behaves in any way within the bounds.
#include "run.h"
#define main pipe_main
#include "TestingFramework/tfPipeToXML.cxx"
#undef main
struct Piece { int pipe; std::string d; };
struct Child { std::vector<std::string> cmd; bool set,ran,waited,shared[4],merge; int setCmds,executed,deleted,news; std::vector<Piece> pieces; size_t next; int end; int value,other; char*buf; size_t bufn; Child():set(false),ran(false),waited(false),merge(false),setCmds(0),executed(0),deleted(0),news(0),next(0),end(0),value(0),other(0),buf(0),bufn(0){ for(int i=0;i<4;i++) shared[i]=false; } };
static Child*C;
#define KP(x) symx_check((x)==(itksysProcess*)C&&C->deleted==0,"the process object is the one created, and alive")
static void reuse(){ for(size_t i=0;i<C->bufn;i++) C->buf[i]='#'; delete[] C->buf; C->buf=0; C->bufn=0; }
extern "C" {
itksysProcess* itksysProcess_New(void){ C->news++; return (itksysProcess*)C; }
void itksysProcess_Delete(itksysProcess*p){ KP(p); C->deleted++; reuse(); }
int itksysProcess_SetCommand(itksysProcess*p,char const*const*c){ KP(p); C->setCmds++; C->cmd.clear(); for(;c&&*c;c++) C->cmd.push_back(*c); C->set=true; return 1; }
int itksysProcess_AddCommand(itksysProcess*p,char const*const*c){ KP(p); C->setCmds++; for(;c&&*c;c++) C->cmd.push_back(*c); C->set=true; return 1; }
void itksysProcess_SetTimeout(itksysProcess*,double){}
int itksysProcess_SetWorkingDirectory(itksysProcess*,char const*){ return 1; }
void itksysProcess_SetPipeShared(itksysProcess*p,int w,int s){ KP(p); if(w>0&&w<4) C->shared[w]=s; }
void itksysProcess_SetOption(itksysProcess*p,int o,int v){ KP(p); if(o==itksysProcess_Option_MergeOutput) C->merge=v; }
int itksysProcess_GetOption(itksysProcess*,int){ return 0; }
// ends: 0 exited, 1 exception, 2 expired, 3 killed, 4 disowned, 5 could not be started
void itksysProcess_Execute(itksysProcess*p){ KP(p); C->executed++; if(C->set) C->ran=true; }
static bool running(){ return C->ran&&C->end!=5; }
int itksysProcess_WaitForData(itksysProcess*p,char**d,int*n,double*){ KP(p); if(!running()||C->waited) return itksysProcess_Pipe_None; while(C->next<C->pieces.size()){ Piece&q=C->pieces[C->next++]; if(C->shared[q.pipe]) continue; reuse(); C->bufn=q.d.size(); C->buf=new char[C->bufn?C->bufn:1]; for(size_t i=0;i<C->bufn;i++) C->buf[i]=q.d[i]; *d=C->buf; *n=(int)C->bufn; return C->merge? (int)itksysProcess_Pipe_STDOUT: q.pipe; } return itksysProcess_Pipe_None; }
int itksysProcess_WaitForExit(itksysProcess*p,double*){ KP(p); if(running()) C->waited=true; return 1; }
int itksysProcess_GetState(itksysProcess*p){ KP(p); if(!C->ran) return itksysProcess_State_Starting; if(C->end==5) return itksysProcess_State_Error; if(!C->waited) return itksysProcess_State_Executing; static const int s[]={itksysProcess_State_Exited,itksysProcess_State_Exception,itksysProcess_State_Expired,itksysProcess_State_Killed,itksysProcess_State_Disowned}; return s[C->end]; }
int itksysProcess_GetExitValue(itksysProcess*p){ KP(p); return running()&&C->waited&&C->end==0? C->value: C->other; }
int itksysProcess_GetExitCode(itksysProcess*p){ KP(p); return running()&&C->waited&&C->end==0? C->value<<8: C->other; }
int itksysProcess_GetExitException(itksysProcess*p){ KP(p); return running()&&C->waited&&C->end==1? itksysProcess_Exception_Fault: itksysProcess_Exception_None; }
const char* itksysProcess_GetErrorString(itksysProcess*){ return C->end==5? "error": "Success"; }
const char* itksysProcess_GetExceptionString(itksysProcess*){ return C->end==1? "exception": "No exception"; }
void itksysProcess_Kill(itksysProcess*){ symx_check(0,"the child is left to run"); } void itksysProcess_Interrupt(itksysProcess*){} void itksysProcess_Disown(itksysProcess*){}
}
struct Wrapped : tfPipeToXMLRegressionTest { int ran,ret; Wrapped():ran(0),ret(0){} int Test(int c,char**v){ ran++; return ret=tfPipeToXMLRegressionTest::Test(c,v); } };
// any pieces of the given number and sizes (decimal digits of `sizes`), each from either pipe
static std::string pieces(Child&c){ unsigned n=symx_param("n",1),sz=symx_param("sizes",1); std::string out; for(unsigned i=0;i<n;i++){ Piece p; p.pipe= symx_choice(2,"pipe")? itksysProcess_Pipe_STDERR: itksysProcess_Pipe_STDOUT; if(symx_param("long",0)){ p.d=std::string(symx_param("long",0),(char)('a'+i)); p.d[0]=printable(1,"first",true)[0]; p.d[p.d.size()-1]=printable(1,"last",true)[0]; } else p.d=printable(sz%10,"data",true); sz/=10; if(p.pipe==itksysProcess_Pipe_STDOUT) out+=p.d; c.pieces.push_back(p); } return out; }
static void ending(Child&c){ c.end=symx_choice(6,"end"); c.value=(int)symx_any<unsigned char>("value"); c.other=(int)symx_any<unsigned char>("other")-1; }
static int invoke(RegressionTest*t,const std::vector<std::string>&a){ std::vector<std::vector<char> > s; std::vector<char*> v; for(size_t i=0;i<a.size();i++) s.push_back(std::vector<char>(a[i].c_str(),a[i].c_str()+a[i].size()+1)); for(size_t i=0;i<s.size();i++) v.push_back(&s[i][0]); v.push_back(0); return t? t->Main((int)a.size(),&v[0]): pipe_main((int)a.size(),&v[0]); }
static std::vector<std::string> with(const char*a,const char*b,const std::vector<std::string>&cmd){ std::vector<std::string> r; r.push_back("prog"); r.push_back(a); r.push_back(b); r.insert(r.end(),cmd.begin(),cmd.end()); return r; }
static void sane(Child&c,const std::vector<std::string>&cmd){ symx_check(c.news==1&&c.deleted==1,"one process object, given back"); symx_check(c.executed==1&&c.setCmds==1,"the command is run once"); unsigned ok=c.cmd.size()==cmd.size(); for(size_t i=0;i<cmd.size()&&i<c.cmd.size();i++) ok&=same(c.cmd[i],cmd[i]); symx_check(ok,"the command and its arguments are passed on unchanged"); }
static void document(const std::string&doc,const std::string&out){ XmlElement root; XmlReader x(doc); bool ok=x.document(root); symx_check(ok&&root.kids.size()==1,"the document holds one measurement"); if(!ok||root.kids.size()!=1) return; XmlElement&e=root.kids[0]; const std::string*n=e.get("name"),*t=e.get("type"); symx_check(e.name=="DartMeasurement"&&t&&*t=="text/plain"&&n&&*n=="stdout","a plain text measurement of the standard output"); symx_check(e.children==0&&same(e.text,out),"the measurement is exactly what the child wrote to its standard output"); }
extern "C" {
// the output and the way the child ends
void h_pipe(){ Child c; C=&c; std::string out=pieces(c); ending(c); std::vector<std::string> cmd(1,"tool"); Wrapped w; int r=invoke(&w,with("-O","out.xml",cmd)); std::string doc; symx_check(w.ran==1&&fs_read("out.xml",doc),"the wrapper runs and records"); sane(c,cmd); document(doc,c.end==5?std::string():out);
  if(c.end==0) symx_check(w.ret==c.value,"the child's exit value is passed on"); else symx_check(w.ret!=0,"no success when the child did not end normally"); if(c.end) symx_check(r!=0,"the run does not succeed when the child did not end normally"); else symx_check(r==c.value,"the run ends with the child's exit value"); symx_observe_int("r",r); symx_reach("end"); }
// recorded, then compared with the recording: equal exactly when the output is
void h_again(){ std::vector<std::string> cmd(1,"tool"); std::string a,b; { Child c; C=&c; a=pieces(c); symx_check(invoke(0,with("-O","base.xml",cmd))==0,"the recording run succeeds"); } { Child c; C=&c; b=pieces(c); c.value=symx_choice(2,"value"); int r=invoke(0,with("-I","base.xml",cmd)); symx_check((r==0)==(c.value==0&&same(a,b)),"the comparing run succeeds exactly when output and exit value are as recorded"); symx_observe_int("r",r); } symx_reach("end"); }
// the command line
void h_command(){ Child c; C=&c; unsigned n=symx_param("args",1); c.value=0; std::vector<std::string> cmd; for(unsigned i=0;i<n;i++){ std::string s=symx_string(i==1?2:1,"arg"); for(size_t k=0;k<s.size();k++) symx_assume(s[k]!=0); if(!i) symx_assume(s[0]!='-'); if(i==2&&symx_choice(2,"empty")) s.clear(); cmd.push_back(s); } Wrapped w; int r=invoke(&w,with("-O","out.xml",cmd)); symx_check(w.ran==1&&r==0,"the wrapper succeeds when the child does"); sane(c,cmd); symx_reach("end"); }
// no command: nothing to run, so no success
void h_none(){ Child c; C=&c; c.value=0; c.end=5; c.other=0; Wrapped w; std::vector<std::string> a; a.push_back("prog"); if(symx_choice(2,"out")){ a.push_back("-O"); a.push_back("out.xml"); } int r=invoke(&w,a); symx_check(r!=0,"no success when there is no command to run"); symx_reach("end"); }
}
