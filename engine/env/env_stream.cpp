// Text output with symbolic characters.  libstdc++'s stream formatting is binary only; these are
// its unformatted and string inserters, written out so that the characters of the text keep their
// symbolic values on the way through a string stream's buffer and back out of str().
// Numbers are formatted by the real libstdc++ from concrete values.
#include <ostream>
#include <sstream>
#include <cstring>
#include <string>
extern "C" { int sv_stream_sink(void*,size_t); void sv_stream_clear(void*,size_t); }
struct SvBuf : std::streambuf { static char*b(std::streambuf*s){ return (s->*(&SvBuf::pbase))(); } static char*p(std::streambuf*s){ return (s->*(&SvBuf::pptr))(); } static char*gb(std::streambuf*s){ return (s->*(&SvBuf::eback))(); } static char*g(std::streambuf*s){ return (s->*(&SvBuf::gptr))(); } static char*ge(std::streambuf*s){ return (s->*(&SvBuf::egptr))(); } static void area(std::streambuf*s,char*a,char*b,char*c){ (s->*(&SvBuf::setg))(a,b,c); } static void bump(std::streambuf*s,int n){ (s->*(&SvBuf::pbump))(n); } static char*e(std::streambuf*s){ return (s->*(&SvBuf::epptr))(); } };
// room for the text and for a number written by the library after it: growing a string stream
// inside the library would lose the symbolic characters already in it
static void sv_append(std::ostream&o,const char*p,long n){ std::streambuf*s=o.rdbuf(); if(n<=0)return; bool sink=sv_stream_sink((void*)p,(size_t)n)!=0; char*b0=SvBuf::b(s);
  if(!sink)if(SvBuf::e(s)-SvBuf::p(s)<n+64&&dynamic_cast<std::stringbuf*>(s)){ std::string save; if(b0)save.assign(b0,SvBuf::p(s)); bool in=SvBuf::gb(s)!=SvBuf::ge(s); long go=SvBuf::g(s)-b0,eo=SvBuf::ge(s)?SvBuf::ge(s)-b0:0; long k=n+64; for(long i=0;i<k;i++)s->sputc('?'); SvBuf::bump(s,(int)-k); char*b=SvBuf::b(s); if(in)SvBuf::area(s,b,b+go,b+eo); else SvBuf::area(s,b+eo,b+eo,b+eo); for(size_t i=0;i<save.size();i++)b[i]=save[i]; }
  long r=s->sputn(p,n); if(r!=n){ o.setstate(std::ios_base::badbit); return; }
  char*b=SvBuf::b(s),*q=SvBuf::p(s); if(!b||q-b<n)return; if(sink){ sv_stream_clear(q-n,(size_t)n); return; } for(long i=0;i<n;i++)q[i-n]=p[i]; }
static std::ostream& sv_insert(std::ostream&o,const char*p,long n){ if(!o.good()){ o.setstate(std::ios_base::failbit); return o; } long w=o.width(),pad=w>n?w-n:0; bool left=(o.flags()&std::ios_base::adjustfield)==std::ios_base::left; char f=o.fill(); if(!left)for(long i=0;i<pad;i++)sv_append(o,&f,1); sv_append(o,p,n); if(left)for(long i=0;i<pad;i++)sv_append(o,&f,1); o.width(0); return o; }
static std::string sv_text(std::streambuf*s,std::string(*)(std::streambuf*)){ char*b=SvBuf::b(s),*q=SvBuf::p(s); std::string r; for(;b<q;b++)r.push_back(*b); return r; }
extern "C" {
std::ostream& svs_put(std::ostream*o,char c) asm("_ZNSo3putEc"); std::ostream& svs_put(std::ostream*o,char c){ if(o->good())sv_append(*o,&c,1); return *o; }
std::ostream& svs_write(std::ostream*o,const char*p,long n) asm("_ZNSo5writeEPKcl"); std::ostream& svs_write(std::ostream*o,const char*p,long n){ if(o->good())sv_append(*o,p,n); return *o; }
std::ostream& svs_ins(std::ostream&o,const char*p,long n) asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l"); std::ostream& svs_ins(std::ostream&o,const char*p,long n){ return sv_insert(o,p,n); }
std::ostream& svs_cs(std::ostream&o,const char*p) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc"); std::ostream& svs_cs(std::ostream&o,const char*p){ if(!p){ o.setstate(std::ios_base::badbit); return o; } return sv_insert(o,p,(long)strlen(p)); }
std::ostream& svs_c(std::ostream&o,char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c"); std::ostream& svs_c(std::ostream&o,char c){ return sv_insert(o,&c,1); }
std::string svs_str(const std::ostringstream*o) asm("_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv"); std::string svs_str(const std::ostringstream*o){ return sv_text(o->rdbuf(),0); }
}
