// C14: the bytes handed to the XML parser.  The parser is replaced (in both
// builds) by a recorder.
#include "run.h"
#include <expat.h>
struct Rec { void*ud; std::string got; char*buf; size_t n; int fin; int after; };
static Rec*cur; static int created,freed;
extern "C" {
XML_Parser XML_ParserCreate(const XML_Char*){ created++; cur=new Rec; cur->ud=0; cur->buf=0; cur->n=0; cur->fin=0; cur->after=0; return (XML_Parser)cur; }
void XML_ParserFree(XML_Parser p){ freed++; (void)p; }
void XML_SetElementHandler(XML_Parser,XML_StartElementHandler,XML_EndElementHandler){}
void XML_SetStartElementHandler(XML_Parser,XML_StartElementHandler){}
void XML_SetEndElementHandler(XML_Parser,XML_EndElementHandler){}
void XML_SetCharacterDataHandler(XML_Parser,XML_CharacterDataHandler){}
void XML_SetUserData(XML_Parser p,void*u){ ((Rec*)p)->ud=u; }
enum XML_Status XML_Parse(XML_Parser p,const char*s,int len,int fin){ Rec*r=(Rec*)p; symx_check(len>=0,"a length that is not negative"); if(r->fin) r->after++; r->got.append(s,len); if(fin) r->fin++; return XML_STATUS_OK; }
void* XML_GetBuffer(XML_Parser p,int n){ Rec*r=(Rec*)p; delete[] r->buf; r->buf=new char[n?n:1]; for(int i=0;i<n;i++) r->buf[i]='#'; r->n=n; return r->buf; }
enum XML_Status XML_ParseBuffer(XML_Parser p,int len,int fin){ Rec*r=(Rec*)p; symx_check(len>=0&&(size_t)len<=r->n,"no more bytes than the buffer holds"); return XML_Parse(p,r->buf,len,fin); }
enum XML_Error XML_GetErrorCode(XML_Parser){ return XML_ERROR_NONE; }
XML_Size XML_GetCurrentLineNumber(XML_Parser){ return 1; }
XML_Size XML_GetCurrentColumnNumber(XML_Parser){ return 0; }
const XML_LChar* XML_ErrorString(enum XML_Error){ return "error"; }
}
struct Idle : Run { int body(){ return 0; } };
extern "C" {
void h_chunks(){ size_t n=symx_param("n",1); if(symx_param("range",0)) n+=symx_choice(symx_param("range",0),"size"); std::string d(n,'\0'); for(size_t i=0;i<n;i++) d[i]=(char)(i*31+(i>>7)+1); 
  if(n<=4) d=symx_string(n,"file"); else { size_t at[6]={0,n/2,n-1,1023,1024,2047}; for(int k=0;k<6;k++) if(at[k]<n) d[at[k]]=symx_any<char>("byte"); }
  fs_file("base.xml",d.data(),n); cur=0; Idle r; int rc=r.go("-I","base.xml"); symx_check(created==1&&cur!=0,"one parser is used"); if(!cur) return; symx_check(r.ran==1&&rc==0,"a file the parser accepts is accepted"); symx_check(same(cur->got,d),"the parser gets exactly the bytes of the file, in order"); symx_check(cur->fin==1&&cur->after==0,"the last piece, and only that, is marked as final"); symx_observe_int("got",cur->got.size()); symx_reach("end"); }
}
