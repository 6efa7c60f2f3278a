// Harness API.  Under the symbolic executor the functions are built in; the
// native replay build links them against rt/native.cpp, which reads the inputs
// of one concrete case from a file.
#ifndef SYMX_H
#define SYMX_H
#include <stddef.h>
#include <stdint.h>
#include <string>
extern "C" {
void symx_bytes(void*p,size_t n,const char*name);
void symx_word(void*p,size_t n,const char*name); // as symx_bytes, but one symbolic value of n bytes
void symx_observe(const char*name,const void*p,size_t n);
void symx_assume(int c);
void symx_check(int c,const char*msg);
void symx_reach(const char*name);
uint64_t symx_concretize(uint64_t v);
uint64_t symx_param(const char*name,uint64_t dflt);
uint64_t symx_heap_live(void);
void symx_double_text(double v,char*out); // a text that reads back as exactly v
void symx_float_text(float v,char*out);
}
template<class T> static inline T symx_any(const char*name){ T v; symx_bytes(&v,sizeof v,name); return v; }
template<> inline double symx_any<double>(const char*name){ double v; symx_word(&v,8,name); return v; }
template<> inline float symx_any<float>(const char*name){ float v; symx_word(&v,4,name); return v; }
template<> inline long symx_any<long>(const char*name){ long v; symx_word(&v,8,name); return v; }
// one of 0..n-1, a separate path for each value
static inline unsigned symx_choice(unsigned n,const char*name){ unsigned char v=symx_any<unsigned char>(name); symx_assume(v<n); return (unsigned)symx_concretize(v); }
static inline std::string symx_string(size_t n,const char*name){ std::string s(n,'\0'); if(n) symx_bytes(&s[0],n,name); return s; }
static inline void symx_observe_int(const char*n,long v){ symx_observe(n,&v,sizeof v); }
static inline void symx_observe_str(const char*n,const std::string&s){ symx_observe(n,s.data(),s.size()); }
#endif
