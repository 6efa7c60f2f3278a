// Native side of the harness API: replays one concrete case on the real code.
// Case file (env SYMX_CASE): lines "I name hex" (inputs in order), "P name value" (parameters).
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
#include <exception>
struct In{ std::string name,data; }; static std::vector<In> ins; static size_t pos; static std::map<std::string,uint64_t> par; static FILE*out; static bool hooked; static long live,quiet;
static void fin(int c,const char*t,const char*m){ fprintf(out,"%s %s\n",t,m); fflush(out); _exit(c); }
struct Quiet{ Quiet(){quiet++;} ~Quiet(){quiet--;} };
extern "C" {
int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*)) __attribute__((weak));
static void mh(const volatile void*,size_t){ if(!quiet) live++; } static void fh(const volatile void*p){ if(p&&!quiet) live--; }
void symx_bytes(void*p,size_t n,const char*name){ Quiet q; if(pos>=ins.size()||ins[pos].name!=name||ins[pos].data.size()!=n) fin(77,"DIVERGED",name); memcpy(p,ins[pos].data.data(),n); pos++; }
void symx_word(void*p,size_t n,const char*name){ symx_bytes(p,n,name); }
void symx_observe(const char*name,const void*p,size_t n){ Quiet q; std::string h; char b[4]; for(size_t i=0;i<n;i++){ snprintf(b,4,"%02x",((const unsigned char*)p)[i]); h+=b; } fprintf(out,"OBS %s %s\n",name,h.c_str()); fflush(out); }
void symx_assume(int c){ if(!c) fin(78,"ASSUME","false"); }
void symx_check(int c,const char*m){ if(!c) fin(1,"CHECK-FAIL",m); }
void symx_reach(const char*){}
uint64_t symx_concretize(uint64_t v){ return v; }
uint64_t symx_param(const char*n,uint64_t d){ Quiet q; auto it=par.find(n); return it==par.end()?d:it->second; }
uint64_t symx_heap_live(void){ return (uint64_t)live; }
void symx_double_text(double v,char*o){ sprintf(o,"%.17g",v); }
void symx_float_text(float v,char*o){ sprintf(o,"%.9g",(double)v); }
void symx_kill(const char*m){ fin(78,"ASSUME",m); }
void symx_fail(const char*m){ fin(1,"CHECK-FAIL",m); }
ENTRIES
}
static int hexv(char c){ return c<='9'?c-'0':c-'a'+10; }
int main(int,char**argv){ Quiet*q=new Quiet; out=fopen(getenv("SYMX_OUT"),"a"); if(!out) return 70; FILE*f=fopen(getenv("SYMX_CASE"),"r"); if(!f) return 70; static char line[1<<20]; while(fgets(line,sizeof line,f)){ char t,n[200]; int k=0; if(sscanf(line,"%c %199s %n",&t,n,&k)<2) continue; char*v=line+k; v[strcspn(v,"\n")]=0; if(t=='P') par[n]=strtoull(v,0,10); else { std::string d; for(char*c=v;c[0]&&c[1];c+=2) d+=(char)(hexv(c[0])*16+hexv(c[1])); ins.push_back({n,d}); } } fclose(f);
  if(__sanitizer_install_malloc_and_free_hooks) __sanitizer_install_malloc_and_free_hooks(mh,fh);
  const char*e=getenv("SYMX_ENTRY"); void(*fn)()=0; TABLE if(!fn) return 71; delete q; fn(); quiet++; fin(0,"DONE","ok"); }
