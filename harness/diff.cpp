// C04, C05
#include "symx.h"
#include "TestingFramework/tfDiff.h"
#include <sstream>
#include <vector>
#include <string.h>
using std::string;
typedef std::vector<string> Lines;
static Lines split(const string&s){ Lines r(1); for(size_t i=0;i<s.size();i++){ if(s[i]=='\n') r.push_back(string()); else r.back()+=s[i]; } return r; }
static bool same(const string&a,const string&b){ if(a.size()!=b.size()) return false; unsigned d=0; for(size_t i=0;i<a.size();i++) d|=(unsigned char)(a[i]^b[i]); return d==0; }
// reads a decimal number at p; false if there is none
static bool num(const string&o,size_t&p,size_t&v){ size_t s=p; v=0; while(p<o.size()&&o[p]>='0'&&o[p]<='9') v=v*10+(o[p++]-'0'); return p>s&&p-s<9&&(o[s]!='0'||p==s+1); }
static bool lit(const string&o,size_t&p,const char*t){ size_t n=strlen(t); if(o.compare(p,n,t)) return false; p+=n; return true; }
// the quoted lines must be the actual ones: compared without branching on their bytes
static bool quoted(const string&o,size_t&p,const char*pre,const Lines&l,size_t from,size_t cnt){ unsigned d=0; for(size_t i=0;i<cnt;i++){ string w=pre+l[from+i]+"\n"; if(o.size()-p<w.size()) return false; for(size_t k=0;k<w.size();k++) d|=(unsigned char)(o[p+k]^w[k]); p+=w.size(); } return d==0; }
static void textsBytes(string&a,string&b){ size_t n=symx_param("n",2),m=symx_param("m",2); a=symx_string(n,"from"); b=symx_string(m,"to"); }
// k lines each of which is one of the letters a, b (c): `alpha` letters
static string letters(size_t k,unsigned alpha,const char*nm){ string s; for(size_t i=0;i<k;i++){ char c=symx_any<char>(nm); symx_assume(c>='a'&&c<(char)('a'+alpha)); if(i) s+='\n'; s+=c; } return s; }
static void textsLines(string&a,string&b){ unsigned al=symx_param("alpha",2); a=letters(symx_param("n",3),al,"from"); b=letters(symx_param("m",3),al,"to"); }
// long lines (beyond the width of the line hash), printable
static void textsLong(string&a,string&b){ size_t n=symx_param("n",10); for(int i=0;i<2;i++){ string s(n,'\0'); for(size_t k=0;k<n;k++){ if(k==0||k+1==n||k==n-10){ char c=symx_any<char>(i?"to":"from"); symx_assume(c>=' '&&c<='~'); s[k]=c; } else s[k]='m'; } (i?b:a)=s; } b="\n"+b; }
static string diff(const string&a,const string&b){ std::ostringstream os; testutil::Diff(a,b,os); return os.str(); }
// parses and checks the script against the two texts; gives deleted+inserted
static bool script(const string&o,const Lines&x,const Lines&y,size_t&cost){
  size_t p=0,cx=0,cy=0; cost=0; bool first=true;
  while(p<o.size()){ size_t a,b,c,d; if(!num(o,p,a)) return false; b=a; bool rb=false; if(p<o.size()&&o[p]==','){ p++; if(!num(o,p,b)) return false; rb=true; if(b<=a) return false; } if(p>=o.size()) return false; char op=o[p++]; if(!num(o,p,c)) return false; d=c; bool rd=false; if(p<o.size()&&o[p]==','){ p++; if(!num(o,p,d)) return false; rd=true; if(d<=c) return false; } if(!lit(o,p,"\n")) return false;
    size_t x0,x1,y0,y1; // 0-based half-open ranges replaced
    if(op=='c'){ if(!a||!c) return false; x0=a-1; x1=b; y0=c-1; y1=d; } else if(op=='a'){ if(rb||!c) return false; x0=x1=a; y0=c-1; y1=d; } else if(op=='d'){ if(rd||!a||!c) return false; x0=a-1; x1=b; y0=y1=c-1; } else return false;
    if(x1>x.size()||y1>y.size()||x0<cx||y0<cy) return false; if(!first&&x0==cx&&y0==cy) return false; // separate commands are separated by kept lines
    if(x0-cx!=y0-cy) return false; for(;cx<x0;cx++,cy++) if(!same(x[cx],y[cy])) return false;
    if(x1>x0&&!quoted(o,p,"< ",x,x0,x1-x0)) return false; if(op=='c'&&!lit(o,p,"----\n")) return false; if(y1>y0&&!quoted(o,p,"> ",y,y0,y1-y0)) return false;
    cost+=(x1-x0)+(y1-y0); cx=x1; cy=y1; first=false; }
  if(x.size()-cx!=y.size()-cy) return false; for(;cx<x.size();cx++,cy++) if(!same(x[cx],y[cy])) return false; return true; }
static size_t lcs(const Lines&x,const Lines&y){ std::vector<std::vector<size_t> > t(x.size()+1,std::vector<size_t>(y.size()+1,0)); for(size_t i=x.size();i-->0;) for(size_t j=y.size();j-->0;) t[i][j]= same(x[i],y[j])? t[i+1][j+1]+1 : t[i+1][j]>t[i][j+1]?t[i+1][j]:t[i][j+1]; return t[0][0]; }
static void texts(string&a,string&b){ switch(symx_param("kind",0)){ case 0: textsBytes(a,b); break; case 1: textsLines(a,b); break; default: textsLong(a,b); } }
extern "C" void h_apply(){ string a,b; texts(a,b); uint64_t live=symx_heap_live(); string o=diff(a,b); symx_observe_str("out",o); Lines x=split(a),y=split(b); size_t cost; symx_check(script(o,x,y,cost),"the printed commands turn the first text into the second"); symx_reach("end"); (void)live; }
extern "C" void h_minimal(){ string a,b; texts(a,b); string o=diff(a,b); symx_observe_str("out",o); Lines x=split(a),y=split(b); bool eq=same(a,b); symx_check(o.empty()==eq,"nothing is printed exactly for equal texts"); size_t cost=0; bool ok=script(o,x,y,cost); symx_check(!ok||cost==x.size()+y.size()-2*lcs(x,y),"the number of edited lines is minimal"); symx_check(ok,"the output is an edit script of the two texts"); symx_reach("end"); }
