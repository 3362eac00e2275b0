#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <string>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 1
#ifdef SV_SYM
// sprintf/snprintf are encoded symbolically (the C library is not instrumented)
#include <cstdio>
#include <cstring>
#include <cstdint>
#include <type_traits>
namespace sv_fmt {
struct Sink{ char*p; size_t cap,n; inline void c(char x){ if(n+1<cap)p[n]=x; n++; } };
struct Spec{ bool left,zero,plus,alt; int width,prec; char conv; char text[32]; };
inline bool next(Sink&o,const char*&f,Spec&s){ for(;*f;){ if(*f!='%'){o.c(*f++);continue;} if(f[1]=='%'){o.c('%');f+=2;continue;} const char*b=f++; s=Spec(); s.prec=-1; for(;;f++){ if(*f=='-')s.left=true; else if(*f=='0')s.zero=true; else if(*f=='+')s.plus=true; else if(*f=='#'||*f==' ')s.alt=true; else break; } while(*f>='0'&&*f<='9')s.width=10*s.width+(*f++-'0'); if(*f=='.'){ s.prec=0; for(f++;*f>='0'&&*f<='9';)s.prec=10*s.prec+(*f++-'0'); } while(*f=='l'||*f=='h'||*f=='z'||*f=='j'||*f=='t'||*f=='L')f++; s.conv=*f; if(*f)f++; size_t k=0; for(;b<f&&k<31;)s.text[k++]=*b++; s.text[k]=0; return true; } return false; }
inline void body(Sink&o,const Spec&s,const char*t,size_t n){ for(int i=(int)n;!s.left&&i<s.width;i++)o.c(' '); for(size_t i=0;i<n;i++)o.c(t[i]); for(int i=(int)n;s.left&&i<s.width;i++)o.c(' '); }
inline void num(Sink&o,const Spec&s,uint64_t v,bool neg){ char t[80]; int k=80; unsigned base=s.conv=='x'||s.conv=='X'?16:s.conv=='o'?8:10; do{ unsigned d=(unsigned)(v%base); t[--k]=(char)(d<10?'0'+d:(s.conv=='X'?'A':'a')+d-10); v/=base; }while(v); int min=s.prec>=0?s.prec:(s.zero&&!s.left?s.width-(neg?1:0):0); while(80-k<min&&k>1)t[--k]='0'; if(neg)t[--k]='-'; else if(s.plus&&(s.conv=='d'||s.conv=='i'))t[--k]='+'; body(o,s,t+k,80-k); }
template<class T> inline void one(Sink&o,const Spec&s,T v){
  if constexpr(std::is_integral<T>::value||std::is_enum<T>::value){ if(s.conv=='c'){ char c=(char)v; body(o,s,&c,1); } else if(s.conv=='d'||s.conv=='i'){ int64_t x=(int64_t)v; num(o,s,x<0?0-(uint64_t)x:(uint64_t)x,x<0); } else { uint64_t x; if constexpr(sizeof(T)<4)x=(uint64_t)(unsigned)v; else if constexpr(sizeof(T)==4)x=(uint64_t)(uint32_t)v; else x=(uint64_t)v; num(o,s,x,false); } }
  else if constexpr(std::is_convertible<T,const char*>::value){ if(s.conv=='s'){ const char*t=v; size_t n=0; while((s.prec<0||(int)n<s.prec)&&t[n])n++; body(o,s,t,n); return; } char b[512]; int r=::snprintf(b,sizeof b,s.text,v); for(int i=0;i<r&&i<511;i++)o.c(b[i]); }
  else { char b[512]; int r=::snprintf(b,sizeof b,s.text,v); for(int i=0;i<r&&i<511;i++)o.c(b[i]); } }
inline void all(Sink&o,const char*f){ Spec s; while(next(o,f,s)){} }
template<class T,class...A> inline void all(Sink&o,const char*f,T v,A...a){ Spec s; if(!next(o,f,s))return; one(o,s,v); all(o,f,a...); }
}
template<class...A> inline int sv_snprintf(char*out,size_t cap,const char*f,A...a){ sv_fmt::Sink o={out,cap,0}; sv_fmt::all(o,f,a...); if(cap)out[o.n<cap?o.n:cap-1]=0; return (int)o.n; }
template<class...A> inline int sv_sprintf(char*out,const char*f,A...a){ return sv_snprintf(out,(size_t)1<<40,f,a...); }
namespace std{ using ::sv_snprintf; using ::sv_sprintf; }
#define sprintf sv_sprintf
#define snprintf sv_snprintf
#endif
