// C01, C02, C03
#include "symx.h"
#include "TestingFramework/tfBase64.h"
#include <stdexcept>
#include <string.h>
using testutil::Base64;
static const char ALPHA[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// reference: RFC 2045 encoding
static std::string refEncode(const unsigned char*p,size_t n,bool nl){ std::string r; unsigned col=0; for(size_t i=0;i<n;i+=3){ if(nl&&col==72){ r+='\n'; col=0; } unsigned a=p[i],b=i+1<n?p[i+1]:0,c=i+2<n?p[i+2]:0; unsigned v=a<<16|b<<8|c; r+=ALPHA[v>>18&63]; r+=ALPHA[v>>12&63]; r+= i+1<n? ALPHA[v>>6&63]:'='; r+= i+2<n? ALPHA[v&63]:'='; col+=4; } return r; }
static bool sameBytes(const unsigned char*a,const unsigned char*b,size_t n){ unsigned d=0; for(size_t i=0;i<n;i++) d|=a[i]^b[i]; return d==0; }
static void configure(Base64&b,bool nl,bool ig){ if(nl) b.SetAddNewLines(true); else b.SetAddNewLines(false); b.SetIgnoreInvalids(ig); }
static void roundtrip(){ // C01
  size_t n=symx_param("n",3); bool nl=symx_choice(2,"newlines"),ig=symx_choice(2,"ignore");
  unsigned char*data=new unsigned char[n]; if(n) symx_bytes(data,n,"data");
  Base64 enc; configure(enc,nl,ig); std::string t=enc.Encode(data,n); symx_observe_str("text",t);
  Base64 dec; configure(dec,symx_choice(2,"newlines2"),ig);
  size_t k=dec.IsBase64(t); symx_check(k==n,"validity check reports the byte count");
  unsigned char*out=new unsigned char[n]; size_t m=(size_t)-1;
  try{ m=dec.Decode(t,out); } catch(std::exception&){ symx_check(0,"decoding an encoded text must not throw"); }
  symx_check(m==n,"decode reports the original byte count"); symx_check(sameBytes(out,data,n),"decode gives the original bytes");
  delete[] data; delete[] out; symx_reach("end"); }
static void canonical(){ // C02
  size_t n=symx_param("n",3); bool nl=symx_choice(2,"newlines"),ig=symx_choice(2,"ignore"); 
  unsigned char*data=new unsigned char[n]; if(n) symx_bytes(data,n,"data");
  Base64 enc; configure(enc,nl,ig); std::string t=enc.Encode(data,n); symx_observe_str("text",t);
  std::string r=refEncode(data,n,nl); symx_check(t.size()==r.size(),"length of the encoding"); symx_check(t.c_str()[t.size()]==0,"the text is terminated"); symx_check(t.size()==r.size()&&sameBytes((const unsigned char*)t.data(),(const unsigned char*)r.data(),r.size()),"encoding is the RFC 2045 text");
  Base64 d2; std::string t2=d2.Encode(data,n); if(nl) symx_check(t2==t,"line breaks are the default"); 
  d2.NeLinesOff(); std::string t3=d2.Encode(data,n); if(!nl) symx_check(t3==t,"NeLinesOff"); d2.NewLinesOn(); if(nl) symx_check(d2.Encode(data,n)==t,"NewLinesOn");
  delete[] data; symx_reach("end"); }
// reference: value 0..63, 64 padding, 254 white space, 255 other
static constexpr struct Cls{ unsigned char t[256]; constexpr Cls():t(){ for(int c=0;c<256;c++) t[c]= c>=65&&c<=90? c-65: c>=97&&c<=122? c-97+26: c>=48&&c<=57? c-48+52: c==43?62: c==47?63: c==61?64: c==32||(c>=9&&c<=13)?254:255; } } CLS; // value 0..63, 64 padding, 254 white space, 255 other
static int cls(unsigned char c){ return CLS.t[c]; }
static bool refDecode(const std::string&s,bool ig,unsigned char*out,size_t&n){ n=0; int q=0; unsigned v=0; for(size_t i=0;i<s.size();i++){ int c=cls((unsigned char)s[i]); if(c==254) continue; if(c==255){ if(!ig) return false; continue; }
    if(c==64){ if(q<2) return false; int pads=1,need=4-q; for(i++;pads<need;i++){ if(i>=s.size()) return false; int d=cls((unsigned char)s[i]); if(d==254) continue; if(d==255){ if(!ig) return false; continue; } if(d!=64) return false; pads++; } v<<=6*(4-q); out[n++]=v>>16; if(q==3) out[n++]=v>>8; return true; }
    v=v<<6|c; if(++q==4){ out[n++]=v>>16; out[n++]=v>>8; out[n++]=v; q=0; v=0; } } return q==0; }
static void agree(){ // C03
  size_t L=symx_param("len",4); bool nl=symx_choice(2,"newlines"),ig=symx_choice(2,"ignore"); std::string s=symx_string(L,"text");
  unsigned char ref[64]; size_t rn=0; bool ok=refDecode(s,ig,ref,rn);
  Base64 b; configure(b,nl,ig); size_t k=b.IsBase64(s); size_t cap= ok? rn:(L/4)*3+3; unsigned char*out=new unsigned char[cap]; bool threw=false; size_t m=0;
  try{ m=b.Decode(s,out); } catch(std::runtime_error&){ threw=true; } catch(std::exception&){ threw=true; }
  symx_observe_int("ok",ok); symx_observe_int("n",m);
  if(ok){ symx_check(!threw,"a valid text is decoded"); symx_check(m==rn,"decode reports the number of bytes"); symx_check(k==rn,"validity check announces the number of bytes"); symx_check(sameBytes(out,ref,rn),"decoded bytes"); symx_reach("valid"); }
  else { symx_check(threw,"an invalid text is rejected by an exception"); symx_check(k==0,"validity check reports 0 for an invalid text"); symx_reach("invalid"); }
  delete[] out; }
extern "C" void h_roundtrip(){ roundtrip(); }
extern "C" void h_canonical(){ canonical(); }
extern "C" void h_agree(){ agree(); }
