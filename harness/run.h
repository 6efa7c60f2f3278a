// A test program for the framework: a RegressionTest whose body is a callback.
#ifndef HRUN_H
#define HRUN_H
#include "fs.h"
#include "TestingFramework/tfMeasurement.h"
#include "TestingFramework/tfMeasurementVisitor.h"
#include "TestingFramework/tfRegressionTest.h"
#include "xmlread.h"
#include <sstream>
#include <stdexcept>
using namespace testutil;
static bool same(const std::string&a,const std::string&b){ if(a.size()!=b.size()) return false; unsigned d=0; for(size_t i=0;i<a.size();i++) d|=(unsigned char)(a[i]^b[i]); return !d; }
// n printable characters (with ws also tabs and newlines)
static std::string printable(size_t n,const char*name,bool ws){ std::string s=symx_string(n,name); unsigned ok=1; for(size_t i=0;i<n;i++){ unsigned char c=s[i]; ok&=((c>=32)&(c<127))|(ws&((c=='\t')|(c=='\n'))); } symx_assume(ok); return s; }
struct Run : RegressionTest { int ran; Run():ran(0){}
  virtual int body()=0;
  int Test(int,char**){ ran++; return body(); }
  // runs with the given arguments (after the program name)
  int go(const char*a=0,const char*b=0,const char*c=0,const char*d=0,const char*e=0,const char*f=0){ const char*v[8]={"prog",a,b,c,d,e,f,0}; static char s[8][64]; char*argv[8]; int n=0; while(v[n]){ strcpy(s[n],v[n]); argv[n]=s[n]; n++; } argv[n]=0; return Main(n,argv); }
};
#endif
