// Model of the Expat XML parser (symbolic build only; the native build links the
// real library).  XML 1.0 over US-ASCII without DOCTYPE and without encoding
// detection: documents that need either are outside the bounds of the checks.
// The document is collected and parsed when the last buffer arrives; character
// data is delivered in pieces (at references, line ends and buffer boundaries),
// as Expat does.
#include "mfs.h"
#include <expat.h>
#define W __attribute__((weak))
namespace {
struct Piece { size_t b,n; };
struct P { void*ud; XML_StartElementHandler st; XML_EndElementHandler en; XML_CharacterDataHandler cd; char*d; size_t n,cap; char*buf; size_t bufn; int err; unsigned long line; int fin; size_t cuts[64]; int ncuts; int stopped;
  char*names[16]; int depth; };
char* mem(size_t n){ return (char*)symx_malloc(n?n:1,200); }
bool nameC(unsigned char c,bool first){ bool a=((c>='a')&(c<='z'))|((c>='A')&(c<='Z'))|(c=='_')|(c==':'); bool b=((c>='0')&(c<='9'))|(c=='-')|(c=='.'); return first? a: (a|b); }
bool ws(unsigned char c){ return (c==' ')|(c=='\n')|(c=='\t')|(c=='\r'); }
bool bad(unsigned char c){ return ((c<32)&(c!='\t')&(c!='\n')&(c!='\r'))|(c>=128); }
struct Parse { P&p; const char*t; size_t n,i; Parse(P&q):p(q),t(q.d),n(q.n),i(0){}
  bool fail(int e){ if(!p.err) p.err=e; return false; }
  bool at(const char*s){ for(size_t k=0;s[k];k++) if(i+k>=n||t[i+k]!=s[k]) return false; return true; }
  bool skipWs(){ size_t b=i; while(i<n&&ws(t[i])) i++; return i>b; }
  size_t name(){ size_t b=i; while(i<n&&nameC(t[i],i==b)) i++; return i-b; }
  // reference at t[i]=='&'; writes up to 4 bytes
  int ref(char*o){ i++; if(i>=n){ fail(XML_ERROR_UNCLOSED_TOKEN); return -1; } if(t[i]=='#'){ i++; bool hex=i<n&&t[i]=='x'; if(hex) i++; size_t b=i; unsigned long v=0; for(;;i++){ if(i>=n){ fail(XML_ERROR_UNCLOSED_TOKEN); return -1; } unsigned char c=t[i]; if(c==';') break; int d; if((unsigned)(c-'0')<10u) d=c-'0'; else if(hex&&(unsigned)(c-'a')<6u) d=c-'a'+10; else if(hex&&(unsigned)(c-'A')<6u) d=c-'A'+10; else { fail(XML_ERROR_INVALID_TOKEN); return -1; } v=v*(hex?16:10)+d; if(v>=0x110000) v=0x110000; }
      if(i==b){ fail(XML_ERROR_INVALID_TOKEN); return -1; } i++; if(v>=0x110000||(v>=0xd800&&v<=0xdfff)||v==0xfffe||v==0xffff||(v<32&&v!=9&&v!=10&&v!=13)){ fail(XML_ERROR_BAD_CHAR_REF); return -1; }
      if(v<0x80){ o[0]=(char)v; return 1; } if(v<0x800){ o[0]=(char)(0xc0|v>>6); o[1]=(char)(0x80|(v&63)); return 2; } if(v<0x10000){ o[0]=(char)(0xe0|v>>12); o[1]=(char)(0x80|(v>>6&63)); o[2]=(char)(0x80|(v&63)); return 3; } o[0]=(char)(0xf0|v>>18); o[1]=(char)(0x80|(v>>12&63)); o[2]=(char)(0x80|(v>>6&63)); o[3]=(char)(0x80|(v&63)); return 4; }
    size_t b=i,k=name(); if(!k||i>=n||t[i]!=';'){ fail(XML_ERROR_INVALID_TOKEN); return -1; } i++; static const char*const e[]={"amp","lt","gt","quot","apos"}; for(int q=0;q<5;q++){ size_t l=__builtin_strlen(e[q]); if(l!=k) continue; size_t z=0; while(z<l&&t[b+z]==e[q][z]) z++; if(z==l){ o[0]="&<>\"'"[q]; return 1; } } fail(XML_ERROR_UNDEFINED_ENTITY); return -1; }
  bool comment(){ i+=4; for(;;){ if(i+2>=n){ return fail(XML_ERROR_UNCLOSED_TOKEN); } if(at("--")) break; if(bad(t[i])) return fail(XML_ERROR_INVALID_TOKEN); i++; } if(t[i+2]!='>') return fail(XML_ERROR_INVALID_TOKEN); i+=3; return true; }
  bool pi(){ size_t s=i; i+=2; size_t b=i,k=name(); if(!k) return fail(XML_ERROR_INVALID_TOKEN); if(k==3){ int up=0,ok=1; for(int z=0;z<3;z++){ char c=t[b+z]; if(c=="XML"[z]) up=1; else if(c!="xml"[z]) ok=0; } if(ok) return fail(up?XML_ERROR_INVALID_TOKEN:XML_ERROR_MISPLACED_XML_PI); }
    if(!at("?>")&&!(i<n&&ws(t[i]))) return fail(XML_ERROR_INVALID_TOKEN); for(;;){ if(i+1>=n) return fail(XML_ERROR_UNCLOSED_TOKEN); if(at("?>")){ i+=2; return true; } if(bad(t[i])) return fail(XML_ERROR_INVALID_TOKEN); i++; } (void)s; }
  bool misc(){ for(;;){ skipWs(); if(at("<!--")){ if(!comment()) return false; } else if(at("<?")){ if(!pi()) return false; } else return true; } }
  bool attrName(size_t b,size_t k,const char*w){ for(size_t z=0;z<k;z++) if(t[b+z]!=w[z]) return false; return !w[k]; }
  bool decl(){ i+=5; int seen=0; for(;;){ bool s=skipWs(); if(at("?>")){ i+=2; return seen? true: fail(XML_ERROR_XML_DECL); } if(!s) return fail(XML_ERROR_XML_DECL); size_t b=i,k=name(); int w= attrName(b,k,"version")?1: attrName(b,k,"encoding")?2: attrName(b,k,"standalone")?3: 0; if(!w||w<=seen||(w>1&&!seen)) return fail(XML_ERROR_XML_DECL); seen=w; skipWs(); if(i>=n||t[i]!='=') return fail(XML_ERROR_XML_DECL); i++; skipWs(); if(i>=n||(t[i]!='"'&&t[i]!='\'')) return fail(XML_ERROR_XML_DECL); char q=t[i++]; b=i; while(i<n&&t[i]!=q){ unsigned char c=t[i]; if(!(nameC(c,false)&&c!=':')) return fail(XML_ERROR_XML_DECL); i++; } if(i>=n) return fail(XML_ERROR_XML_DECL); k=i-b; i++; if(w==2&&(!k||!nameC(t[b],true)||t[b]=='_'||t[b]==':')) return fail(XML_ERROR_XML_DECL); if(w==3&&!attrName(b,k,"yes")&&!attrName(b,k,"no")) return fail(XML_ERROR_XML_DECL); } }
  void chars(const char*s,size_t k){ if(k&&p.cd) p.cd(p.ud,s,(int)k); }
  // a run of character data starting at b, cut at the buffer boundaries
  void run(size_t b,size_t e){ for(int c=0;c<p.ncuts;c++) if(p.cuts[c]>b&&p.cuts[c]<e){ chars(t+b,p.cuts[c]-b); b=p.cuts[c]; } chars(t+b,e-b); }
  bool startTag(bool&empty){ i++; size_t b=i,k=name(); if(!k) return fail(XML_ERROR_INVALID_TOKEN); if(p.depth>=16) symx_unsupported("element depth"); char*nm=mem(k+1); for(size_t z=0;z<k;z++) nm[z]=t[b+z]; nm[k]=0; p.names[p.depth++]=nm;
    const char*at_[41]; int na=0; bool ok=true; for(;;){ bool s=skipWs(); if(i>=n){ ok=fail(XML_ERROR_UNCLOSED_TOKEN); break; } if(t[i]=='>'){ i++; empty=false; break; } if(t[i]=='/'){ if(i+1>=n){ ok=fail(XML_ERROR_UNCLOSED_TOKEN); break; } if(t[i+1]!='>'){ ok=fail(XML_ERROR_INVALID_TOKEN); break; } i+=2; empty=true; break; } if(!s){ ok=fail(XML_ERROR_INVALID_TOKEN); break; }
      size_t ab=i,ak=name(); if(!ak){ ok=fail(XML_ERROR_INVALID_TOKEN); break; } skipWs(); if(i>=n||t[i]!='='){ ok=fail(XML_ERROR_INVALID_TOKEN); break; } i++; skipWs(); if(i>=n||(t[i]!='"'&&t[i]!='\'')){ ok=fail(XML_ERROR_INVALID_TOKEN); break; } char q=t[i++];
      if(na>=38) symx_unsupported("attribute count"); char*an=mem(ak+1); for(size_t z=0;z<ak;z++) an[z]=t[ab+z]; an[ak]=0; size_t e=i; while(e<n&&t[e]!=q) e++; char*v=mem(e-i+5); size_t o=0; at_[na++]=an; at_[na++]=v; v[0]=0;
      for(;;){ if(i>=n){ ok=fail(XML_ERROR_UNCLOSED_TOKEN); break; } unsigned char c=t[i]; if(c==(unsigned char)q){ i++; break; } if(c=='<'||bad(c)){ ok=fail(XML_ERROR_INVALID_TOKEN); break; } if(c=='&'){ int r=ref(v+o); if(r<0){ ok=false; break; } o+=r; continue; } if(c=='\r'){ v[o++]=' '; i++; if(i<n&&t[i]=='\n') i++; continue; } v[o++]= ws(c)? ' ': (char)c; i++; } v[o]=0; if(!ok) break;
      for(int a=0;a<na-2;a+=2){ const char*x=at_[a]; size_t z=0; while(x[z]&&x[z]==an[z]) z++; if(x[z]==an[z]){ ok=fail(XML_ERROR_DUPLICATE_ATTRIBUTE); break; } } if(!ok) break; }
    at_[na]=0; if(ok&&p.st) p.st(p.ud,nm,at_); for(int a=0;a<na;a++) symx_free((void*)at_[a],200); return ok; }
  void close(){ char*nm=p.names[--p.depth]; if(p.en) p.en(p.ud,nm); symx_free(nm,200); }
  bool content(){ size_t text=i; for(;;){ if(i>=n) return fail(XML_ERROR_NO_ELEMENTS); unsigned char c=t[i];
      if(c=='<'){ if(i+1>=n) return fail(XML_ERROR_UNCLOSED_TOKEN); char d=t[i+1];
        if(d=='/'){ i+=2; size_t b=i,k=name(); if(!k) return fail(XML_ERROR_INVALID_TOKEN); skipWs(); if(i>=n||t[i]!='>') return fail(XML_ERROR_INVALID_TOKEN); i++; if(!attrName(b,k,p.names[p.depth-1])) return fail(XML_ERROR_TAG_MISMATCH); close(); if(p.depth==0) return true; }
        else if(d=='?'){ if(!pi()) return false; }
        else if(d=='!'){ if(at("<!--")){ if(!comment()) return false; } else if(at("<![CDATA[")){ i+=9; size_t b=i; for(;;){ if(i>=n) return fail(XML_ERROR_UNCLOSED_CDATA_SECTION); if(at("]]>")){ run(b,i); i+=3; break; } if(bad(t[i])) return fail(XML_ERROR_INVALID_TOKEN); if(t[i]=='\r'||t[i]=='\n'){ run(b,i); bool cr=t[i]=='\r'; i++; if(cr&&i<n&&t[i]=='\n') i++; chars("\n",1); b=i; } else i++; } } else return fail(XML_ERROR_INVALID_TOKEN); }
        else { bool empty; if(!startTag(empty)) return false; if(empty){ close(); if(p.depth==0) return true; } }
        text=i; continue; }
      if(c=='&'){ char o[4]; int r=ref(o); if(r<0) return false; chars(o,r); text=i; continue; }
      if(c=='\n'||c=='\r'){ i++; if(c=='\r'&&i<n&&t[i]=='\n') i++; chars("\n",1); continue; }
      size_t b=i; while(i<n){ c=t[i]; if((c=='<')|(c=='&')|(c=='\n')|(c=='\r')) break; if(bad(c)) return fail(XML_ERROR_INVALID_TOKEN); if(c=='>'&&i>=text+2&&t[i-1]==']'&&t[i-2]==']') return fail(XML_ERROR_INVALID_TOKEN); i++; } run(b,i); } }
  bool document(){ if(n>=2){ unsigned char a=t[0],b=t[1]; if(((a==0xfe)&(b==0xff))|((a==0xff)&(b==0xfe))|((a==0xef)&(b==0xbb))|(a==0)|((a=='<')&(b==0))) symx_kill("encoding detection"); }
    if(at("<?xml")&&n>5&&ws(t[5])){ if(!decl()) return false; } if(!misc()) return false; if(i>=n) return fail(XML_ERROR_NO_ELEMENTS); if(at("<!")){ if(i+2<n&&(unsigned)((t[i+2]|32)-'a')<26u) symx_kill("document type"); return fail(XML_ERROR_INVALID_TOKEN); } if(t[i]!='<') return fail(XML_ERROR_SYNTAX); bool empty; if(!startTag(empty)) return false; if(empty) close(); else if(!content()) return false; if(!misc()) return false; if(i<n) return fail(XML_ERROR_JUNK_AFTER_DOC_ELEMENT); return true; }
};
P* get(XML_Parser x){ return (P*)x; }
}
extern "C" {
W XML_Parser XMLCALL XML_ParserCreate(const XML_Char*){ P*p=(P*)mem(sizeof(P)); __builtin_memset(p,0,sizeof *p); p->line=1; return (XML_Parser)p; }
W void XMLCALL XML_ParserFree(XML_Parser x){ P*p=get(x); if(!p) return; if(p->d) symx_free(p->d,200); if(p->buf) symx_free(p->buf,200); while(p->depth>0) symx_free(p->names[--p->depth],200); symx_free(p,200); }
W void XMLCALL XML_SetElementHandler(XML_Parser x,XML_StartElementHandler s,XML_EndElementHandler e){ get(x)->st=s; get(x)->en=e; }
W void XMLCALL XML_SetStartElementHandler(XML_Parser x,XML_StartElementHandler s){ get(x)->st=s; }
W void XMLCALL XML_SetEndElementHandler(XML_Parser x,XML_EndElementHandler e){ get(x)->en=e; }
W void XMLCALL XML_SetCharacterDataHandler(XML_Parser x,XML_CharacterDataHandler c){ get(x)->cd=c; }
W void XMLCALL XML_SetUserData(XML_Parser x,void*u){ get(x)->ud=u; }
W enum XML_Status XMLCALL XML_Parse(XML_Parser x,const char*s,int len,int fin){ P*p=get(x); if(len<0){ p->err=XML_ERROR_INVALID_ARGUMENT; return XML_STATUS_ERROR; } if(p->fin){ p->err=XML_ERROR_FINISHED; return XML_STATUS_ERROR; } if(p->n+len>p->cap){ size_t c=(p->n+len)*2+64; char*d=mem(c); if(p->n) __builtin_memcpy(d,p->d,p->n); if(p->d) symx_free(p->d,200); p->d=d; p->cap=c; } if(len) __builtin_memcpy(p->d+p->n,s,len); p->n+=len;
  if(!fin){ if(p->ncuts<64) p->cuts[p->ncuts++]=p->n; return XML_STATUS_OK; } p->fin=1; Parse q(*p); bool ok=q.document(); if(!ok&&!p->err) p->err=XML_ERROR_SYNTAX; return ok? XML_STATUS_OK: XML_STATUS_ERROR; }
W void* XMLCALL XML_GetBuffer(XML_Parser x,int n){ P*p=get(x); if(p->buf) symx_free(p->buf,200); p->buf=mem(n); p->bufn=n; return p->buf; }
W enum XML_Status XMLCALL XML_ParseBuffer(XML_Parser x,int len,int fin){ P*p=get(x); if(len<0||(size_t)len>p->bufn) symx_fail("XML_ParseBuffer: more bytes than the buffer holds"); return XML_Parse(x,p->buf,len,fin); }
W enum XML_Error XMLCALL XML_GetErrorCode(XML_Parser x){ return (enum XML_Error)get(x)->err; }
W XML_Size XMLCALL XML_GetCurrentLineNumber(XML_Parser x){ return get(x)->line; }
W XML_Size XMLCALL XML_GetCurrentColumnNumber(XML_Parser){ return 0; }
W const XML_LChar* XMLCALL XML_ErrorString(enum XML_Error){ return "error"; }
}
