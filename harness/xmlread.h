// A reference reader for one XML element: attributes, character data, entity and
// character references, CDATA sections, comments.  Rejects what XML 1.0 rejects
// (within ASCII).  Nested elements are read and counted.
#ifndef XMLREAD_H
#define XMLREAD_H
#include <string>
#include <vector>
struct XmlElement { std::string name; std::vector<std::pair<std::string,std::string> > attrs; std::string text; int children; std::vector<XmlElement> kids; XmlElement():children(0){}
  const std::string*get(const char*n)const{ for(size_t i=0;i<attrs.size();i++) if(attrs[i].first==n) return &attrs[i].second; return 0; } };
struct XmlReader { const std::string&t; size_t i; XmlReader(const std::string&s):t(s),i(0){}
  bool at(const char*p){ size_t n=std::char_traits<char>::length(p); for(size_t k=0;k<n;k++) if(i+k>=t.size()||t[i+k]!=p[k]) return false; return true; }
  bool ws(){ size_t b=i; while(i<t.size()&&(t[i]==' '||t[i]=='\n'||t[i]=='\t'||t[i]=='\r')) i++; return i>b; }
  static bool nameChar(unsigned char c,bool first){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||c=='_'||c==':'||(!first&&((c>='0'&&c<='9')||c=='-'||c=='.')); }
  bool name(std::string&n){ size_t b=i; while(i<t.size()&&nameChar(t[i],i==b)) i++; n=t.substr(b,i-b); return i>b; }
  static void utf8(std::string&o,unsigned v){ if(v<0x80) o+=(char)v; else if(v<0x800){ o+=(char)(0xc0|v>>6); o+=(char)(0x80|(v&63)); } else if(v<0x10000){ o+=(char)(0xe0|v>>12); o+=(char)(0x80|(v>>6&63)); o+=(char)(0x80|(v&63)); } else { o+=(char)(0xf0|v>>18); o+=(char)(0x80|(v>>12&63)); o+=(char)(0x80|(v>>6&63)); o+=(char)(0x80|(v&63)); } }
  bool reference(std::string&o){ i++; static const char*const e[]={"amp;","&","lt;","<","gt;",">","quot;","\"","apos;","'"}; for(int k=0;k<10;k+=2) if(at(e[k])){ o+=e[k+1]; i+=std::char_traits<char>::length(e[k]); return true; }
    if(at("#")){ i++; bool hex=at("x"); if(hex) i++; unsigned v=0; size_t b=i; for(;i<t.size()&&t[i]!=';';i++){ char c=t[i]; int d= c>='0'&&c<='9'? c-'0': hex&&c>='a'&&c<='f'? c-'a'+10: hex&&c>='A'&&c<='F'? c-'A'+10: -1; if(d<0) return false; v=v*(hex?16:10)+d; if(v>0x10ffff) v=0x110000; } if(i>=t.size()||i==b) return false; i++; if(v>0x10ffff||(v<32&&v!=9&&v!=10&&v!=13)||(v>=0xd800&&v<=0xdfff)||v==0xfffe||v==0xffff) return false; utf8(o,v); return true; }
    return false; }
  static bool legal(unsigned char c){ return ((c>=32)&(c<128))|(c=='\t')|(c=='\n')|(c=='\r'); }
  // line ends are read as one newline
  char newline(){ if(t[i]=='\r'&&i+1<t.size()&&t[i+1]=='\n') i++; return '\n'; }
  bool comment(){ i+=4; while(!at("--")){ if(i>=t.size()||!legal(t[i])) return false; i++; } if(!at("-->")) return false; i+=3; return true; }
  bool pi(){ i+=2; std::string n; if(!name(n)) return false; if(n.size()==3&&(n[0]|32)=='x'&&(n[1]|32)=='m'&&(n[2]|32)=='l') return false; if(!at("?>")&&!(i<t.size()&&(t[i]==' '||t[i]=='\n'||t[i]=='\t'||t[i]=='\r'))) return false; while(!at("?>")){ if(i>=t.size()||!legal(t[i])) return false; i++; } i+=2; return true; }
  bool attributes(XmlElement&e,bool&empty){ for(;;){ bool s=ws(); if(at(">")){ i++; empty=false; return true; } if(at("/>")){ i+=2; empty=true; return true; } if(!s) return false; std::string n,v; if(!name(n)) return false; ws(); if(!at("=")) return false; i++; ws(); if(i>=t.size()) return false; char q=t[i]; if(q!='"'&&q!='\'') return false; i++; for(;;){ if(i>=t.size()) return false; char c=t[i]; if(c==q) break; if(c=='<') return false; if(c=='&'){ if(!reference(v)) return false; continue; } if(!legal(c)) return false; if(c=='\r') newline(); v+= (c=='\t'||c=='\n'||c=='\r')? ' ': c; i++; } i++; if(e.get(n.c_str())) return false; e.attrs.push_back(std::make_pair(n,v)); } }
  bool element(XmlElement&e,int depth=0){ if(depth>8||!at("<")) return false; i++; if(!name(e.name)) return false; bool empty; if(!attributes(e,empty)) return false; if(empty) return true;
    for(;;){ if(i>=t.size()) return false; char c=t[i]; if(c=='<'){ if(at("</")){ i+=2; std::string n; if(!name(n)) return false; ws(); if(!at(">")) return false; i++; return n==e.name; }
        if(at("<!--")){ if(!comment()) return false; continue; } if(at("<?")){ if(!pi()) return false; continue; }
        if(at("<![CDATA[")){ i+=9; while(!at("]]>")){ if(i>=t.size()||!legal(t[i])) return false; e.text+= t[i]=='\r'? newline(): t[i]; i++; } i+=3; continue; }
        e.kids.push_back(XmlElement()); e.children++; if(!element(e.kids.back(),depth+1)) return false; continue; }
      if(c=='&'){ if(!reference(e.text)) return false; continue; } if(at("]]>")) return false; if(!legal(c)) return false; e.text+= c=='\r'? newline(): c; i++; } }
  // a whole document: declaration, white space and comments, one element
  bool misc(){ for(;;){ ws(); if(at("<!--")){ if(!comment()) return false; } else if(at("<?")){ if(!pi()) return false; } else return true; } }
  bool document(XmlElement&e){ if(at("<?xml ")){ while(!at("?>")){ if(i>=t.size()) return false; i++; } i+=2; } return misc()&&element(e)&&misc()&&i==t.size(); }
};
#endif
