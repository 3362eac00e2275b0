// Models of the libCom leaf functions pvData calls (the real libCom is only present as a
// binary).  Compiled with the symbolic instrumentation; replays use the real libCom instead.
// tools/envtest.py compares them with the real libCom.
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <cctype>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdio>
#include <cstdarg>
#include <string>
#include <epicsTypes.h>
#include <epicsStdlib.h>
#include <epicsString.h>
#include <epicsConvert.h>
#include <epicsMath.h>
#include <epicsAssert.h>
#include <epicsThread.h>
#include "sv.h"

static unsigned long my_strtoul(const char*s,const char**end,int base,bool sgn,bool&range,bool&neg,bool c23=false){
  const char*p=s; while(isspace((unsigned char)*p))p++;
  neg=false; range=false; if(*p=='+'||*p=='-'){neg=*p=='-';p++;}
  if((base==0||base==16)&&p[0]=='0'&&(p[1]=='x'||p[1]=='X')&&isxdigit((unsigned char)p[2])){p+=2;base=16;}
  if(c23&&(base==0||base==2)&&p[0]=='0'&&(p[1]=='b'||p[1]=='B')&&(p[2]=='0'||p[2]=='1')){p+=2;base=2;}
  if(base==0)base=p[0]=='0'?8:10;
  unsigned long v=0; bool any=false,ovf=false; unsigned long lim=ULONG_MAX/base; unsigned rem=ULONG_MAX%base;
  for(;;){ int c=(unsigned char)*p; int d; if(c>='0'&&c<='9')d=c-'0'; else if(c>='a'&&c<='z')d=c-'a'+10; else if(c>='A'&&c<='Z')d=c-'A'+10; else break;
    if(d>=base)break; any=true; if(v>lim||(v==lim&&(unsigned)d>rem))ovf=true; v=v*base+d; p++; }
  *end=any?p:s;
  if(sgn){ if(ovf||(neg?v>(unsigned long)LONG_MAX+1:v>(unsigned long)LONG_MAX)){range=true;return neg?(unsigned long)LONG_MIN:LONG_MAX;} }
  else if(ovf){range=true;return ULONG_MAX;}
  return neg?0-v:v;
}
static int fin(const char*endp,char**units){ int c; while((c=*endp)&&isspace((unsigned char)c))++endp; if(c&&!units)return S_stdlib_extraneous; if(units)*units=(char*)endp; return 0; }
extern "C" {
int epicsParseLong(const char*str,long*to,int base,char**units){ int c; while((c=*str)&&isspace((unsigned char)c))++str; const char*e;bool r,n; unsigned long v=my_strtoul(str,&e,base,true,r,n); if(e==str)return S_stdlib_noConversion; if(r)return S_stdlib_overflow; int s=fin(e,units); if(s)return s; *to=(long)v; return 0;}
int epicsParseULong(const char*str,unsigned long*to,int base,char**units){ int c; while((c=*str)&&isspace((unsigned char)c))++str; const char*e;bool r,n; unsigned long v=my_strtoul(str,&e,base,false,r,n); if(e==str)return S_stdlib_noConversion; if(r)return S_stdlib_overflow; int s=fin(e,units); if(s)return s; *to=v; return 0;}
int epicsParseLLong(const char*str,long long*to,int base,char**units){long t;int s=epicsParseLong(str,&t,base,units);if(!s)*to=t;return s;}
int epicsParseULLong(const char*str,unsigned long long*to,int base,char**units){unsigned long t;int s=epicsParseULong(str,&t,base,units);if(!s)*to=t;return s;}
#define SI(N,T,LO,HI) int epicsParse##N(const char*str,T*to,int base,char**units){ long v; int s=epicsParseLong(str,&v,base,units); if(s)return s; if(v<LO||v>HI)return S_stdlib_overflow; *to=(T)v; return 0;}
#define UI(N,T,M) int epicsParse##N(const char*str,T*to,int base,char**units){ unsigned long v; int s=epicsParseULong(str,&v,base,units); if(s)return s; if(v>M&&v<=~M)return S_stdlib_overflow; *to=(T)v; return 0;}
SI(Int8,epicsInt8,-0x80,0x7f) SI(Int16,epicsInt16,-0x8000,0x7fff) SI(Int32,epicsInt32,-0x80000000L,0x7fffffffL)
UI(UInt8,epicsUInt8,0xfful) UI(UInt16,epicsUInt16,0xfffful) UI(UInt32,epicsUInt32,0xfffffffful)
int epicsParseInt64(const char*str,epicsInt64*to,int base,char**units){long t;int s=epicsParseLong(str,&t,base,units);if(!s)*to=t;return s;}
int epicsParseUInt64(const char*str,epicsUInt64*to,int base,char**units){unsigned long t;int s=epicsParseULong(str,&t,base,units);if(!s)*to=t;return s;}
// floating point text is decided per concrete text: every byte of it is case-split by the solver
int epicsParseDouble(const char*str,double*to,char**units){
  int c; while((c=*str)&&isspace((unsigned char)c))++str;
  std::string t; for(const char*p=str;*p;p++)t.push_back((char)sv_concrete((unsigned char)*p));
  errno=0; char*e; double v=strtod(t.c_str(),&e); if(e==t.c_str())return S_stdlib_noConversion;
  if(errno==ERANGE)return v==0?S_stdlib_underflow:S_stdlib_overflow;
  int s=fin(str+(e-t.c_str()),units); if(s)return s; *to=v; return 0; }
int epicsParseFloat(const char*str,float*to,char**units){ double v; int s=epicsParseDouble(str,&v,units); if(s)return s; double a=fabs(v); if(v>0&&a<=FLT_MIN)return S_stdlib_underflow; if(std::isfinite(v)&&a>=FLT_MAX)return S_stdlib_overflow; *to=(float)v; return 0; }
float epicsConvertDoubleToFloat(double value){ double a; if(value==0||!std::isfinite(value))return (float)value; a=fabs(value); if(a>=FLT_MAX){return value>0?FLT_MAX:-FLT_MAX;} if(a<=FLT_MIN){return value>0?FLT_MIN:-FLT_MIN;} return (float)value; }
int epicsStrCaseCmp(const char*a,const char*b){ for(;;){ int x=toupper((unsigned char)*a),y=toupper((unsigned char)*b); if(x==255)x=-1; if(y==255)y=-1; /* glibc: toupper(EOF) */  if(!y)return x!=0; if(!x)return -1; if(x!=y)return x<y?-1:1; a++;b++; } }
char* epicsStrDup(const char*s){ size_t n=strlen(s)+1; char*p=(char*)malloc(n); memcpy(p,s,n); return p; }
unsigned int epicsStrHash(const char*str,unsigned int seed){ unsigned h=seed; char c; while((c=*str++)){ h^=~((h<<11)^c^(h>>5)); if(!(c=*str++))break; h^=(h<<7)^c^(h>>3);} return h; }
int epicsStrnCaseCmp(const char*a,const char*b,size_t len){ for(size_t k=0;k<len;k++){ int x=toupper((unsigned char)*a),y=toupper((unsigned char)*b); if(x==255)x=-1; if(y==255)y=-1; if(!y)return x!=0; if(!x)return -1; if(x!=y)return x<y?-1:1; a++;b++; } return 0; }
size_t epicsStrnLen(const char*s,size_t max){ size_t i=0; for(;i<max;i++)if(!s[i])break; return i; }
char* epicsStrnDup(const char*s,size_t len){ size_t n=epicsStrnLen(s,len); char*p=(char*)malloc(n+1); memcpy(p,s,n); p[n]=0; return p; }
unsigned int epicsMemHash(const char*str,size_t length,unsigned int seed){ unsigned h=seed; while(length--){ h^=~((h<<11)^*str++^(h>>5)); if(!length--)break; h^=(h<<7)^*str++^(h>>3);} return h; }
int epicsVsnprintf(char*b,size_t n,const char*f,va_list a){ return vsnprintf(b,n,f,a); }
#undef snprintf
int epicsSnprintf(char*b,size_t n,const char*f,...){ va_list a; va_start(a,f); int r=vsnprintf(b,n,f,a); va_end(a); return r; }
void epicsAssert(const char*file,unsigned line,const char*msg,const char*){ (void)file;(void)line;(void)msg; abort(); }
int errlogPrintf(const char*,...){return 0;}
unsigned epicsStdCall epicsThreadGetStackSize(epicsThreadStackSizeClass){return 1<<16;}
}

// C library functions whose result depends on symbolic bytes (see Modelled[] in svpass.cpp)
#define SL(N,T,C) T __svm_##N(const char*s,char**e,int base){ const char*p;bool r,n; unsigned long v=my_strtoul(s,&p,base,true,r,n,C); if(r)errno=ERANGE; if(e)*e=(char*)p; return (T)v; }
#define UL_(N,T,C) T __svm_##N(const char*s,char**e,int base){ const char*p;bool r,n; unsigned long v=my_strtoul(s,&p,base,false,r,n,C); if(r)errno=ERANGE; if(e)*e=(char*)p; return (T)v; }
extern "C" {
SL(strtol,long,false) SL(strtoll,long long,false) SL(__isoc23_strtol,long,true) SL(__isoc23_strtoll,long long,true)
UL_(strtoul,unsigned long,false) UL_(strtoull,unsigned long long,false) UL_(__isoc23_strtoul,unsigned long,true) UL_(__isoc23_strtoull,unsigned long long,true)
int __svm_atoi(const char*s){ const char*p;bool r,n; return (int)my_strtoul(s,&p,10,true,r,n); }
long __svm_atol(const char*s){ const char*p;bool r,n; return (long)my_strtoul(s,&p,10,true,r,n); }
long long __svm_atoll(const char*s){ const char*p;bool r,n; return (long long)my_strtoul(s,&p,10,true,r,n); }
char* __svm_strstr(const char*h,const char*n){ for(;;h++){ size_t i=0; while(n[i]){ if(h[i]!=n[i])break; i++; } if(!n[i])return (char*)h; if(!*h)return 0; } }
void* __svm_memmem(const void*H,size_t hl,const void*N,size_t nl){ const char*h=(const char*)H,*n=(const char*)N; if(nl>hl)return 0; for(size_t k=0;k+nl<=hl;k++){ size_t i=0; while(i<nl){ if(h[k+i]!=n[i])break; i++; } if(i==nl)return (void*)(h+k); } return 0; }
static bool svm_in(const char*set,char c){ for(;*set;set++)if(*set==c)return true; return false; }
size_t __svm_strspn(const char*s,const char*a){ size_t i=0; for(;s[i];i++)if(!svm_in(a,s[i]))break; return i; }
size_t __svm_strcspn(const char*s,const char*r){ size_t i=0; for(;s[i];i++)if(svm_in(r,s[i]))break; return i; }
char* __svm_strpbrk(const char*s,const char*a){ for(;*s;s++)if(svm_in(a,*s))return (char*)s; return 0; }
void* __svm_memrchr(const void*s,int c,size_t n){ const unsigned char*p=(const unsigned char*)s; while(n--)if(p[n]==(unsigned char)c)return (void*)(p+n); return 0; }
void* __svm_rawmemchr(const void*s,int c){ const unsigned char*p=(const unsigned char*)s; while(*p!=(unsigned char)c)p++; return (void*)p; }
char* __svm_strchrnul(const char*s,int c){ for(;*s;s++)if(*s==(char)c)break; return (char*)s; }
size_t __svm_strnlen(const char*s,size_t n){ size_t i=0; for(;i<n;i++)if(!s[i])break; return i; }
char* __svm_strndup(const char*s,size_t n){ size_t k=0; for(;k<n;k++)if(!s[k])break; char*p=(char*)malloc(k+1); memcpy(p,s,k); p[k]=0; return p; }
char* __svm_stpcpy(char*d,const char*s){ size_t n=strlen(s); memcpy(d,s,n+1); return d+n; }
void* __svm_mempcpy(void*d,const void*s,size_t n){ memcpy(d,s,n); return (char*)d+n; }
int __svm_isgraph(int c){ return c>32&&c<127; }
int __svm_isblank(int c){ return c==' '||c=='\t'; }
int __svm_iscntrl(int c){ return (c>=0&&c<32)||c==127; }
int __svm_ispunct(int c){ return c>32&&c<127&&!((c>='0'&&c<='9')||(c>='a'&&c<='z')||(c>='A'&&c<='Z')); }
long long __svm_llabs(long long v){ return v<0?0-v:v; }
}
