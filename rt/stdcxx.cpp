// The out-of-line part of libstdc++ and of the C++ ABI library (symbolic build
// only).  Everything that libstdc++ implements in headers is compiled from the
// installed headers; this file supplies what lives in libstdc++.so.
#include "mfs.h"
#include <cxxabi.h>
#include <exception>
#include <new>
#include <stdexcept>
#include <string>
#include <locale>
#include <ios>
#include <istream>
#include <ostream>
#include <fstream>
#include <sstream>
#include <list>
#include <map>
#include <functional>
#include <unordered_map>
#include <typeinfo>
#include <cerrno>
// ------------------------------------------------------------ exceptions ABI
namespace { struct Hdr { const void*ti; void(*dtor)(void*); long handlers; Hdr*next; void*adj; long pad[3]; }; Hdr*caughtTop; int uncaughtN; inline Hdr*hdr(void*o){ return (Hdr*)((char*)o-64); } }
static_assert(sizeof(Hdr)==64,"layout known to the engine");
extern "C" {
void* __cxa_allocate_exception(size_t n) throw(){ char*p=(char*)symx_malloc(n+64,201); Hdr*h=(Hdr*)p; h->ti=0;h->dtor=0;h->handlers=0;h->next=0;h->adj=0; return p+64; }
void __cxa_free_exception(void*o) throw(){ symx_free((char*)o-64,201); }
void __cxa_throw(void*o,std::type_info*ti,void(*d)(void*)){ Hdr*h=hdr(o); h->ti=ti; h->dtor=d; h->handlers=0; uncaughtN++; symx_throw(o,(void*)ti); __builtin_unreachable(); }
void* __cxa_begin_catch(void*o) throw(){ Hdr*h=hdr(o); if(h->handlers<0) h->handlers=-h->handlers+1; else h->handlers++; uncaughtN--; if(caughtTop!=h){ h->next=caughtTop; caughtTop=h; } return h->adj; }
void __cxa_end_catch(){ Hdr*h=caughtTop; if(!h) return; if(h->handlers<0){ if(++h->handlers==0) caughtTop=h->next; return; } if(--h->handlers==0){ caughtTop=h->next; if(h->dtor) h->dtor((char*)h+64); symx_free(h,201); } }
void* __cxa_get_exception_ptr(void*o) throw(){ return hdr(o)->adj; }
void __cxa_rethrow(){ Hdr*h=caughtTop; if(!h) std::terminate(); h->handlers=-h->handlers; uncaughtN++; symx_throw((char*)h+64,(void*)h->ti); __builtin_unreachable(); }
void __cxa_bad_cast(){ throw std::bad_cast(); } void __cxa_bad_typeid(){ throw std::bad_typeid(); } void __cxa_throw_bad_array_new_length(){ throw std::bad_array_new_length(); }
void symx_race_pause(int);
int __cxa_guard_acquire(abi::__guard*g){ if(*(char*)g) return 0; symx_race_pause(1); return 1; } void __cxa_guard_release(abi::__guard*g){ *(char*)g=1; symx_race_pause(-1); } void __cxa_guard_abort(abi::__guard*){ symx_race_pause(-1); }
int pthread_mutex_lock(pthread_mutex_t*) noexcept { symx_race_pause(1); return 0; } int pthread_mutex_unlock(pthread_mutex_t*) noexcept { symx_race_pause(-1); return 0; }
void* __dso_handle=0; void __cxa_deleted_virtual(){ symx_fail("deleted virtual"); }
std::type_info* __cxa_current_exception_type(){ return caughtTop? (std::type_info*)caughtTop->ti:0; }
}
namespace std {
static terminate_handler termH; static void(*unexpH)(); terminate_handler set_terminate(terminate_handler h) noexcept { terminate_handler o=termH; termH=h; return o; } terminate_handler get_terminate() noexcept { return termH; }
typedef void(*UnexpH)(); extern "C" UnexpH model_set_unexpected(UnexpH h) asm("_ZSt14set_unexpectedPFvvE"); UnexpH model_set_unexpected(UnexpH h){ UnexpH o=unexpH; unexpH=h; return o; }
bool uncaught_exception() throw(){ return uncaughtN>0; } int uncaught_exceptions() throw(){ return uncaughtN; }
exception::~exception() throw(){} const char* exception::what() const throw(){ return "std::exception"; }
bad_exception::~bad_exception() throw(){} const char* bad_exception::what() const throw(){ return "std::bad_exception"; }
bad_alloc::~bad_alloc() throw(){} const char* bad_alloc::what() const throw(){ return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() throw(){} const char* bad_array_new_length::what() const throw(){ return "std::bad_array_new_length"; }
bad_cast::~bad_cast() throw(){} const char* bad_cast::what() const throw(){ return "std::bad_cast"; }
bad_typeid::~bad_typeid() throw(){} const char* bad_typeid::what() const throw(){ return "std::bad_typeid"; }
bad_function_call::~bad_function_call() throw(){} const char* bad_function_call::what() const throw(){ return "bad_function_call"; }
type_info::~type_info(){} 
// reference-counted string of the standard exceptions
static const char* cowmk(const char*s,size_t n){ char*p=(char*)symx_malloc(n+9,202); *(long*)p=1; for(size_t i=0;i<n;i++) p[8+i]=s[i]; p[8+n]=0; return p+8; }
static void cowdrop(const char*p){ if(!p) return; long*c=(long*)(p-8); if(--*c==0) symx_free(c,202); }
__cow_string::__cow_string():_M_p(cowmk("",0)){} __cow_string::__cow_string(const std::string&s):_M_p(cowmk(s.data(),s.size())){} __cow_string::__cow_string(const char*s,size_t n):_M_p(cowmk(s,n)){}
__cow_string::__cow_string(const __cow_string&o) noexcept:_M_p(o._M_p){ ++*(long*)(_M_p-8); } __cow_string& __cow_string::operator=(const __cow_string&o) noexcept { ++*(long*)(o._M_p-8); cowdrop(_M_p); _M_p=o._M_p; return *this; }
__cow_string::~__cow_string(){ cowdrop(_M_p); } __cow_string::__cow_string(__cow_string&&o) noexcept:_M_p(o._M_p){ o._M_p=cowmk("",0); } __cow_string& __cow_string::operator=(__cow_string&&o) noexcept { const char*t=_M_p; _M_p=o._M_p; o._M_p=t; return *this; }
#define EXC(C,B) C::C(const string&s):B(s){} C::C(const char*s):B(s){} C::~C() noexcept {}
logic_error::logic_error(const string&s):exception(),_M_msg(s){} logic_error::logic_error(const char*s):exception(),_M_msg(s,__builtin_strlen(s)){} logic_error::logic_error(const logic_error&o) noexcept:exception(o),_M_msg(o._M_msg){} logic_error& logic_error::operator=(const logic_error&o) noexcept{ _M_msg=o._M_msg; return *this; } logic_error::logic_error(logic_error&&o) noexcept:exception(o),_M_msg(std::move(o._M_msg)){} logic_error::~logic_error() noexcept{} const char* logic_error::what() const noexcept{ return _M_msg._M_p; }
runtime_error::runtime_error(const string&s):exception(),_M_msg(s){} runtime_error::runtime_error(const char*s):exception(),_M_msg(s,__builtin_strlen(s)){} runtime_error::runtime_error(const runtime_error&o) noexcept:exception(o),_M_msg(o._M_msg){} runtime_error& runtime_error::operator=(const runtime_error&o) noexcept{ _M_msg=o._M_msg; return *this; } runtime_error::runtime_error(runtime_error&&o) noexcept:exception(o),_M_msg(std::move(o._M_msg)){} runtime_error::~runtime_error() noexcept{} const char* runtime_error::what() const noexcept{ return _M_msg._M_p; }
EXC(domain_error,logic_error) EXC(invalid_argument,logic_error) EXC(length_error,logic_error) EXC(out_of_range,logic_error) EXC(range_error,runtime_error) EXC(overflow_error,runtime_error) EXC(underflow_error,runtime_error)
void __throw_bad_exception(){ throw bad_exception(); } void __throw_bad_alloc(){ throw bad_alloc(); } void __throw_bad_array_new_length(){ throw bad_array_new_length(); } void __throw_bad_cast(){ throw bad_cast(); } void __throw_bad_typeid(){ throw bad_typeid(); } void __throw_bad_function_call(){ throw bad_function_call(); }
void __throw_logic_error(const char*s){ throw logic_error(s); } void __throw_domain_error(const char*s){ throw domain_error(s); } void __throw_invalid_argument(const char*s){ throw invalid_argument(s); } void __throw_length_error(const char*s){ throw length_error(s); } void __throw_out_of_range(const char*s){ throw out_of_range(s); } void __throw_out_of_range_fmt(const char*s,...){ throw out_of_range(s); } void __throw_runtime_error(const char*s){ throw runtime_error(s); } void __throw_range_error(const char*s){ throw range_error(s); } void __throw_overflow_error(const char*s){ throw overflow_error(s); } void __throw_underflow_error(const char*s){ throw underflow_error(s); }
void __throw_ios_failure(const char*s){ throw runtime_error(s); } void __throw_ios_failure(const char*s,int){ throw runtime_error(s); } void __throw_system_error(int){ throw runtime_error("system_error"); }
void __glibcxx_assert_fail(const char*,int,const char*,const char*m) noexcept { symx_fail(m?m:"libstdc++ assertion"); __builtin_unreachable(); }
// ------------------------------------------------------------ containers
namespace __detail { void _List_node_base::_M_hook(_List_node_base*p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; } void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
void _List_node_base::_M_transfer(_List_node_base*f,_List_node_base*l) noexcept { if(this==l) return; l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; this->_M_prev->_M_next=f; _List_node_base*t=this->_M_prev; this->_M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; }
void _List_node_base::_M_reverse() noexcept { _List_node_base*t=this; do{ std::swap(t->_M_next,t->_M_prev); t=t->_M_prev; } while(t!=this); }
void _List_node_base::swap(_List_node_base&x,_List_node_base&y) noexcept { if(x._M_next!=&x){ if(y._M_next!=&y){ std::swap(x._M_next,y._M_next); std::swap(x._M_prev,y._M_prev); x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next->_M_prev=y._M_prev->_M_next=&y; } else { y._M_next=x._M_next; y._M_prev=x._M_prev; y._M_next->_M_prev=y._M_prev->_M_next=&y; x._M_next=x._M_prev=&x; } } else if(y._M_next!=&y){ x._M_next=y._M_next; x._M_prev=y._M_prev; x._M_next->_M_prev=x._M_prev->_M_next=&x; y._M_next=y._M_prev=&y; } }
// unordered containers
static const size_t primes[]={1,2,3,5,7,11,13,17,23,29,37,47,59,73,97,127,167,211,277,359,467,607,787,1031,1361,1777,2333,3037,0};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { size_t i=0; while(primes[i]&&primes[i]<n) i++; if(!primes[i]) symx_unsupported("hash table too large"); _M_next_resize=(size_t)(primes[i]*(double)_M_max_load_factor); return primes[i]; }
std::pair<bool,std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb,std::size_t ne,std::size_t ni) const { if(ne+ni>_M_next_resize){ size_t need=ne+ni; if(!_M_next_resize&&need<11) need=11; if(need>=nb) return {true,_M_next_bkt(std::max(need+1,nb*2))}; _M_next_resize=nb; } return {false,0}; }
}
size_t _Hash_bytes(const void*p,size_t n,size_t seed){ size_t h=seed^14695981039346656037ull; for(size_t i=0;i<n;i++) h=(h^((const unsigned char*)p)[i])*1099511628211ull; return h; }
size_t _Fnv_hash_bytes(const void*p,size_t n,size_t h){ return _Hash_bytes(p,n,h); }
typedef _Rb_tree_node_base NB;
NB* _Rb_tree_increment(NB*x) throw(){ if(x->_M_right){ x=x->_M_right; while(x->_M_left) x=x->_M_left; return x; } NB*y=x->_M_parent; while(x==y->_M_right){ x=y; y=y->_M_parent; } if(x->_M_right!=y) x=y; return x; }
const NB* _Rb_tree_increment(const NB*x) throw(){ return _Rb_tree_increment((NB*)x); }
NB* _Rb_tree_decrement(NB*x) throw(){ if(x->_M_color==_S_red&&x->_M_parent->_M_parent==x) return x->_M_right; if(x->_M_left){ NB*y=x->_M_left; while(y->_M_right) y=y->_M_right; return y; } NB*y=x->_M_parent; while(x==y->_M_left){ x=y; y=y->_M_parent; } return y; }
const NB* _Rb_tree_decrement(const NB*x) throw(){ return _Rb_tree_decrement((NB*)x); }
static void rotL(NB*x,NB*&root){ NB*y=x->_M_right; x->_M_right=y->_M_left; if(y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
static void rotR(NB*x,NB*&root){ NB*y=x->_M_left; x->_M_left=y->_M_right; if(y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if(x==root) root=y; else if(x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
void _Rb_tree_insert_and_rebalance(const bool left,NB*x,NB*p,NB&h) throw(){ NB*&root=h._M_parent; x->_M_parent=p; x->_M_left=0; x->_M_right=0; x->_M_color=_S_red;
  if(left){ p->_M_left=x; if(p==&h){ h._M_parent=x; h._M_right=x; } else if(p==h._M_left) h._M_left=x; } else { p->_M_right=x; if(p==h._M_right) h._M_right=x; }
  while(x!=root&&x->_M_parent->_M_color==_S_red){ NB*xpp=x->_M_parent->_M_parent; if(x->_M_parent==xpp->_M_left){ NB*y=xpp->_M_right; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_right){ x=x->_M_parent; rotL(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotR(xpp,root); } }
    else { NB*y=xpp->_M_left; if(y&&y->_M_color==_S_red){ x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if(x==x->_M_parent->_M_left){ x=x->_M_parent; rotR(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rotL(xpp,root); } } }
  root->_M_color=_S_black; }
NB* _Rb_tree_rebalance_for_erase(NB*const z,NB&h) throw(){ NB*&root=h._M_parent,*&lm=h._M_left,*&rm=h._M_right; NB*y=z,*x=0,*xp=0;
  if(!y->_M_left) x=y->_M_right; else if(!y->_M_right) x=y->_M_left; else { y=y->_M_right; while(y->_M_left) y=y->_M_left; x=y->_M_right; }
  if(y!=z){ z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if(y!=z->_M_right){ xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if(root==z) root=y; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
  else { xp=y->_M_parent; if(x) x->_M_parent=y->_M_parent; if(root==z) root=x; else if(z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if(lm==z){ if(!z->_M_right) lm=z->_M_parent; else { NB*q=x; while(q->_M_left) q=q->_M_left; lm=q; } } if(rm==z){ if(!z->_M_left) rm=z->_M_parent; else { NB*q=x; while(q->_M_right) q=q->_M_right; rm=q; } } }
  if(y->_M_color!=_S_red){ while(x!=root&&(x==0||x->_M_color==_S_black)) if(x==xp->_M_left){ NB*w=xp->_M_right; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotL(xp,root); w=xp->_M_right; } if((!w->_M_left||w->_M_left->_M_color==_S_black)&&(!w->_M_right||w->_M_right->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_right||w->_M_right->_M_color==_S_black){ w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rotR(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_right) w->_M_right->_M_color=_S_black; rotL(xp,root); break; } }
    else { NB*w=xp->_M_left; if(w->_M_color==_S_red){ w->_M_color=_S_black; xp->_M_color=_S_red; rotR(xp,root); w=xp->_M_left; } if((!w->_M_right||w->_M_right->_M_color==_S_black)&&(!w->_M_left||w->_M_left->_M_color==_S_black)){ w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if(!w->_M_left||w->_M_left->_M_color==_S_black){ w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rotL(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if(w->_M_left) w->_M_left->_M_color=_S_black; rotR(xp,root); break; } }
    if(x) x->_M_color=_S_black; }
  return y; }
// ------------------------------------------------------------ locale
_Atomic_word locale::id::_S_refcount; size_t locale::id::_M_id() const throw(){ if(!_M_index) _M_index=++_S_refcount; return _M_index-1; }
locale::facet::~facet(){} __c_locale locale::facet::_S_c_locale; const char locale::facet::_S_c_name[2]="C"; 
__c_locale locale::facet::_S_get_c_locale(){ return 0; } __c_locale locale::facet::_S_clone_c_locale(__c_locale&) throw(){ return 0; } void locale::facet::_S_destroy_c_locale(__c_locale&){ } void locale::facet::_S_create_c_locale(__c_locale&,const char*,__c_locale){} __c_locale locale::facet::_S_lc_ctype_c_locale(__c_locale,const char*){ return 0; }
ctype<char>::mask classic_tab[256]; static void initTab(){ typedef ctype_base C; for(int c=0;c<128;c++){ int m=0; bool up=c>='A'&&c<='Z',lo=c>='a'&&c<='z',dg=c>='0'&&c<='9'; if(c==' '||(c>=9&&c<=13)) m|=C::space; if(c==' '||c=='\t') m|=C::blank; if(up) m|=C::upper|C::alpha; if(lo) m|=C::lower|C::alpha; if(dg) m|=C::digit|C::xdigit; if((c>='a'&&c<='f')||(c>='A'&&c<='F')) m|=C::xdigit; if(c<32||c==127) m|=C::cntrl; if(c>=32&&c<127) m|=C::print; if(c>32&&c<127){ m|=C::print; if(!(up|lo|dg)) m|=C::punct; } classic_tab[c]=m; } }
const ctype_base::mask ctype_base::upper; const ctype_base::mask ctype_base::space; locale::id ctype<char>::id; const size_t ctype<char>::table_size;
const ctype_base::mask* ctype<char>::classic_table() throw(){ return classic_tab; }
ctype<char>::ctype(const mask*t,bool del,size_t r):facet(r),_M_c_locale_ctype(0),_M_del(t!=0&&del),_M_toupper(0),_M_tolower(0),_M_table(t?t:classic_tab),_M_widen_ok(0),_M_narrow_ok(0){ for(int i=0;i<256;i++){ _M_widen[i]=(char)i; _M_narrow[i]=(char)i; } _M_widen_ok=1; _M_narrow_ok=1; }
ctype<char>::~ctype(){} void ctype<char>::_M_widen_init() const { } void ctype<char>::_M_narrow_init() const { }
char ctype<char>::do_toupper(char c) const { return (unsigned char)(c-'a')<26? c-32:c; } char ctype<char>::do_tolower(char c) const { return (unsigned char)(c-'A')<26? c+32:c; } const char* ctype<char>::do_toupper(char*b,const char*e) const { for(;b<e;b++) *b=do_toupper(*b); return e; } const char* ctype<char>::do_tolower(char*b,const char*e) const { for(;b<e;b++) *b=do_tolower(*b); return e; }
template<> numpunct<char>::~numpunct(){} template<> void numpunct<char>::_M_initialize_numpunct(__c_locale){ if(!_M_data) _M_data=new(symx_malloc(sizeof(__numpunct_cache<char>),203)) __numpunct_cache<char>; _M_data->_M_grouping=""; _M_data->_M_grouping_size=0; _M_data->_M_use_grouping=false; _M_data->_M_decimal_point='.'; _M_data->_M_thousands_sep=','; for(size_t i=0;i<__num_base::_S_oend;i++) _M_data->_M_atoms_out[i]=__num_base::_S_atoms_out[i]; for(size_t i=0;i<__num_base::_S_iend;i++) _M_data->_M_atoms_in[i]=__num_base::_S_atoms_in[i]; _M_data->_M_truename="true"; _M_data->_M_truename_size=4; _M_data->_M_falsename="false"; _M_data->_M_falsename_size=5; }
const char* __num_base::_S_atoms_in="-+xX0123456789abcdefABCDEF"; const char* __num_base::_S_atoms_out="-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base&io,char*f,char mod) throw(){ ios_base::fmtflags fl=io.flags(); *f++='%'; if(fl&ios_base::showpos) *f++='+'; if(fl&ios_base::showpoint) *f++='#'; ios_base::fmtflags ff=fl&ios_base::floatfield; if(ff!=(ios_base::fixed|ios_base::scientific)){ *f++='.'; *f++='*'; } if(mod) *f++=mod; if(ff==ios_base::fixed) *f++='f'; else if(ff==ios_base::scientific) *f++=(fl&ios_base::uppercase)?'E':'e'; else if(ff==(ios_base::fixed|ios_base::scientific)) *f++=(fl&ios_base::uppercase)?'A':'a'; else *f++=(fl&ios_base::uppercase)?'G':'g'; *f=0; }
bool __verify_grouping(const char*,size_t,const string&) throw(){ return true; }

}
extern "C" double symx_strtod(const char*,uint64_t*); extern "C" float symx_strtof(const char*,uint64_t*);
namespace std {
template<> void __convert_to_v(const char*s,double&v,ios_base::iostate&e,const __c_locale&) throw(){ uint64_t n=0; v=symx_strtod(s,&n); if(n==0||s[n]){ v=0; e=ios_base::failbit; } else if(v==__builtin_huge_val()){ v=__DBL_MAX__; e=ios_base::failbit; } else if(v==-__builtin_huge_val()){ v=-__DBL_MAX__; e=ios_base::failbit; } }
template<> void __convert_to_v(const char*s,float&v,ios_base::iostate&e,const __c_locale&) throw(){ uint64_t n=0; v=symx_strtof(s,&n); if(n==0||s[n]){ v=0; e=ios_base::failbit; } else if(v==__builtin_huge_valf()){ v=__FLT_MAX__; e=ios_base::failbit; } else if(v==-__builtin_huge_valf()){ v=-__FLT_MAX__; e=ios_base::failbit; } }
template<> void __convert_to_v(const char*,long double&,ios_base::iostate&,const __c_locale&) throw(){ symx_unsupported("long double"); }
// codecvt: the identity conversion
locale::id codecvt<char,char,mbstate_t>::id; codecvt<char,char,mbstate_t>::codecvt(size_t r):__codecvt_abstract_base<char,char,mbstate_t>(r),_M_c_locale_codecvt(0){} codecvt<char,char,mbstate_t>::~codecvt(){}
codecvt_base::result codecvt<char,char,mbstate_t>::do_out(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; } codecvt_base::result codecvt<char,char,mbstate_t>::do_unshift(state_type&,char*t,char*,char*&tn) const { tn=t; return noconv; } codecvt_base::result codecvt<char,char,mbstate_t>::do_in(state_type&,const char*f,const char*,const char*&fn,char*t,char*,char*&tn) const { fn=f; tn=t; return noconv; }
int codecvt<char,char,mbstate_t>::do_encoding() const throw(){ return 1; } bool codecvt<char,char,mbstate_t>::do_always_noconv() const throw(){ return true; } int codecvt<char,char,mbstate_t>::do_length(state_type&,const char*f,const char*e,size_t m) const { size_t d=e-f; return d<m?d:m; } int codecvt<char,char,mbstate_t>::do_max_length() const throw(){ return 1; }
// the classic locale
locale::_Impl* locale::_S_classic; locale::_Impl* locale::_S_global;
static const locale::facet* facets[64]; static const locale::facet* caches[64]; static char implMem[sizeof(locale::_Impl)] __attribute__((aligned(16))); static char locMem[sizeof(locale)] __attribute__((aligned(16)));
void locale::_Impl::_M_install_cache(const facet*c,size_t i){ _M_caches[i]=c; c->_M_add_reference(); }
locale::_Impl::~_Impl() throw(){} 
locale::locale() throw():_M_impl(_S_global){ } locale::locale(const locale&o) throw():_M_impl(o._M_impl){ } locale::~locale() throw(){} const locale& locale::operator=(const locale&o) throw(){ _M_impl=o._M_impl; return *this; } const locale& locale::classic(){ return *(locale*)locMem; } locale locale::global(const locale&l){ locale r; _S_global=l._M_impl; return r; } bool locale::operator==(const locale&o) const throw(){ return _M_impl==o._M_impl; } string locale::name() const { return "C"; } locale::locale(const char*):_M_impl(_S_global){}
static void initLocale(){ initTab(); locale::_Impl*im=(locale::_Impl*)implMem; im->_M_refcount=1; im->_M_facets=facets; im->_M_caches=caches; im->_M_facets_size=60; locale::_S_classic=locale::_S_global=im; ((locale*)locMem)->_M_impl=im;
#define FAC(T) { const locale::facet*f=new(symx_malloc(sizeof(T),203)) T(1); facets[T::id._M_id()]=f; }
 { const locale::facet*f=new(symx_malloc(sizeof(ctype<char>),203)) ctype<char>(0,false,1); facets[ctype<char>::id._M_id()]=f; } { const locale::facet*f=new(symx_malloc(sizeof(codecvt<char,char,mbstate_t>),203)) codecvt<char,char,mbstate_t>(1); facets[codecvt<char,char,mbstate_t>::id._M_id()]=f; } FAC(numpunct<char>) FAC(num_get<char>) FAC(num_put<char>) }
// ios_base
ios_base::ios_base() throw():_M_precision(),_M_width(),_M_flags(),_M_exception(),_M_streambuf_state(),_M_callbacks(0),_M_word_zero(),_M_word_size(_S_local_word_size),_M_word(_M_local_word),_M_ios_locale(){ }
ios_base::~ios_base(){ } void ios_base::_M_init() throw(){ _M_precision=6; _M_width=0; _M_flags=skipws|dec; _M_ios_locale=locale(); } void ios_base::_M_call_callbacks(event) throw(){} void ios_base::_M_dispose_callbacks() throw(){} locale ios_base::imbue(const locale&l) throw(){ locale o=_M_ios_locale; _M_ios_locale=l; return o; } bool ios_base::sync_with_stdio(bool){ return true; } 
void ios_base::_M_swap(ios_base&r) noexcept { std::swap(_M_precision,r._M_precision); std::swap(_M_width,r._M_width); std::swap(_M_flags,r._M_flags); std::swap(_M_exception,r._M_exception); std::swap(_M_streambuf_state,r._M_streambuf_state); } void ios_base::_M_move(ios_base&r) noexcept { _M_precision=r._M_precision; _M_width=r._M_width; _M_flags=r._M_flags; _M_exception=r._M_exception; _M_streambuf_state=r._M_streambuf_state; }
ios_base::Init::Init(){} ios_base::Init::~Init(){} void __attribute__((used)) ios_base_library_init(){}
const ios_base::fmtflags ios_base::boolalpha, ios_base::dec, ios_base::fixed, ios_base::hex, ios_base::internal, ios_base::left, ios_base::oct, ios_base::right, ios_base::scientific, ios_base::showbase, ios_base::showpoint, ios_base::showpos, ios_base::skipws, ios_base::unitbuf, ios_base::uppercase, ios_base::adjustfield, ios_base::basefield, ios_base::floatfield; const ios_base::iostate ios_base::badbit, ios_base::eofbit, ios_base::failbit, ios_base::goodbit; const ios_base::openmode ios_base::app, ios_base::ate, ios_base::binary, ios_base::in, ios_base::out, ios_base::trunc; const ios_base::seekdir ios_base::beg, ios_base::cur, ios_base::end;
// istream functions specialised in the library
template<> istream& istream::getline(char*s,streamsize n,char d){ _M_gcount=0; ios_base::iostate e=ios_base::goodbit; sentry c(*this,true); if(c){ streambuf*sb=rdbuf(); int ch=sb->sgetc(); while(_M_gcount+1<n&&ch!=-1&&(char)ch!=d){ *s++=(char)ch; ch=sb->snextc(); ++_M_gcount; } if(ch==-1) e|=ios_base::eofbit; else if((char)ch==d){ ++_M_gcount; sb->sbumpc(); } else e|=ios_base::failbit; } if(n>0) *s=0; if(!_M_gcount) e|=ios_base::failbit; if(e) setstate(e); return *this; }
template<> istream& istream::ignore(streamsize n){ if(n==1) return ignore(); _M_gcount=0; sentry c(*this,true); if(n>0&&c){ ios_base::iostate e=ios_base::goodbit; streambuf*sb=rdbuf(); while(_M_gcount<n||n==0x7fffffffffffffffL){ int ch=sb->sbumpc(); if(ch==-1){ e|=ios_base::eofbit; break; } ++_M_gcount; } if(e) setstate(e); } return *this; }
template<> istream& istream::ignore(streamsize n,int_type d){ _M_gcount=0; sentry c(*this,true); if(n>0&&c){ ios_base::iostate e=ios_base::goodbit; streambuf*sb=rdbuf(); while(_M_gcount<n||n==0x7fffffffffffffffL){ int ch=sb->sbumpc(); if(ch==-1){ e|=ios_base::eofbit; break; } ++_M_gcount; if(ch==d) break; } if(e) setstate(e); } return *this; }
template<> istream& getline(istream&in,string&s,char d){ size_t x=0; ios_base::iostate e=ios_base::goodbit; istream::sentry c(in,true); if(c){ s.erase(); streambuf*sb=in.rdbuf(); int ch=sb->sgetc(); while(ch!=-1&&(char)ch!=d){ s+=(char)ch; x++; ch=sb->snextc(); } if(ch==-1) e|=ios_base::eofbit; else { x++; sb->sbumpc(); } } if(!x) e|=ios_base::failbit; if(e) in.setstate(e); return in; }
template<> istream& operator>>(istream&in,string&s){ size_t x=0; ios_base::iostate e=ios_base::goodbit; istream::sentry c(in,false); if(c){ s.erase(); streamsize w=in.width(); size_t n=w>0?(size_t)w:s.max_size(); streambuf*sb=in.rdbuf(); const ctype<char>&ct=use_facet<ctype<char>>(in.getloc()); int ch=sb->sgetc(); while(x<n&&ch!=-1&&!ct.is(ctype_base::space,(char)ch)){ s+=(char)ch; x++; ch=sb->snextc(); } if(x<n&&ch==-1) e|=ios_base::eofbit; in.width(0); } if(!x) e|=ios_base::failbit; if(e) in.setstate(e); return in; }
void __istream_extract(istream&in,char*s,streamsize n){ streamsize x=0; ios_base::iostate e=ios_base::goodbit; istream::sentry c(in,false); if(c){ streamsize w=in.width(); if(0<w&&w<n) n=w; streambuf*sb=in.rdbuf(); const ctype<char>&ct=use_facet<ctype<char>>(in.getloc()); int ch=sb->sgetc(); while(x<n-1&&ch!=-1&&!ct.is(ctype_base::space,(char)ch)){ *s++=(char)ch; x++; ch=sb->snextc(); } if(x<n-1&&ch==-1) e|=ios_base::eofbit; *s=0; in.width(0); } if(!x) e|=ios_base::failbit; if(e) in.setstate(e); }
template<> streamsize __copy_streambufs_eof(streambuf*in,streambuf*out,bool&eof){ streamsize r=0; eof=true; int c=in->sgetc(); while(c!=-1){ int o=out->sputc((char)c); if(o==-1){ eof=false; break; } r++; c=in->snextc(); } return r; }
// files
#define FD(p) ((int)(long)(p)-1)
__basic_file<char>::__basic_file(__c_lock*) throw():_M_cfile(0),_M_cfile_created(false){} __basic_file<char>::~__basic_file(){ close(); }
__basic_file<char>* __basic_file<char>::open(const char*n,ios_base::openmode m,int){ if(is_open()) return 0; typedef ios_base B; int mm=m&(B::in|B::out|B::trunc|B::app); bool r,w,t,a; 
 if(mm==B::out||mm==(B::out|B::trunc)) r=0,w=1,t=1,a=0; else if(mm==B::app||mm==(B::out|B::app)) r=0,w=1,t=0,a=1; else if(mm==B::in) r=1,w=0,t=0,a=0; else if(mm==(B::in|B::out)) r=1,w=1,t=0,a=0; else if(mm==(B::in|B::out|B::trunc)) r=1,w=1,t=1,a=0; else if(mm==(B::in|B::app)||mm==(B::in|B::out|B::app)) r=1,w=1,t=0,a=1; else return 0;
 int fd=mfs_open(n,r,w,t,a); if(fd<0) return 0; _M_cfile=(__c_file*)(long)(fd+1); _M_cfile_created=true; return this; }
__basic_file<char>* __basic_file<char>::close(){ if(!is_open()) return 0; mfs_close(FD(_M_cfile)); _M_cfile=0; return this; } bool __basic_file<char>::is_open() const throw(){ return _M_cfile!=0; } int __basic_file<char>::fd() throw(){ return FD(_M_cfile); }
streamsize __basic_file<char>::xsputn(const char*s,streamsize n){ return mfs_write(FD(_M_cfile),s,n); } streamsize __basic_file<char>::xsputn_2(const char*a,streamsize n,const char*b,streamsize m){ long k= n? mfs_write(FD(_M_cfile),a,n):0; if(k!=n) return k; return k+(m?mfs_write(FD(_M_cfile),b,m):0); } streamsize __basic_file<char>::xsgetn(char*s,streamsize n){ return mfs_read(FD(_M_cfile),s,n); } streamoff __basic_file<char>::seekoff(streamoff o,ios_base::seekdir w) throw(){ return mfs_seek(FD(_M_cfile),o,w); } int __basic_file<char>::sync(){ return 0; } streamsize __basic_file<char>::showmanyc(){ return 0; }
// standard streams over descriptors 0..2
struct fdbuf: public streambuf { int fd; char c; fdbuf(int f):fd(f){} int overflow(int x){ if(x!=-1){ char k=(char)x; mfs_write(fd,&k,1); } return x==-1?0:x; } streamsize xsputn(const char*s,streamsize n){ return mfs_write(fd,s,n); } int underflow(){ if(mfs_read(fd,&c,1)!=1) return -1; setg(&c,&c,&c+1); return (unsigned char)c; } };
}
#define SD(T,N,S) char N[sizeof(std::T)] asm(S) __attribute__((aligned(16)));
SD(ostream,m_cout,"_ZSt4cout") SD(ostream,m_cerr,"_ZSt4cerr") SD(ostream,m_clog,"_ZSt4clog") SD(istream,m_cin,"_ZSt3cin") SD(fdbuf,b0,"m_buf0") SD(fdbuf,b1,"m_buf1") SD(fdbuf,b2,"m_buf2")
static void __attribute__((constructor(102))) initStd(){ std::initLocale(); new(b0) std::fdbuf(0); new(b1) std::fdbuf(1); new(b2) std::fdbuf(2); new(m_cout) std::ostream((std::streambuf*)b1); new(m_cerr) std::ostream((std::streambuf*)b2); new(m_clog) std::ostream((std::streambuf*)b2); new(m_cin) std::istream((std::streambuf*)b0); ((std::ostream*)m_cerr)->setf(std::ios_base::unitbuf); ((std::istream*)m_cin)->tie((std::ostream*)m_cout);
 { std::ostringstream o; o<<1; int x=0; std::istringstream i("7"); i>>x; } }
