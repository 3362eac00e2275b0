// Compares the models of engine/env/env_core.cpp (symbols prefixed m_) with the real libCom.
#include <cstdio>
#include <cstring>
#include <string>
#include <random>
#include <cmath>
#include <epicsTypes.h>
#include <epicsStdlib.h>
#include <epicsString.h>
#include <epicsConvert.h>
#include <cstdint>
#include <cctype>
#include <cerrno>
extern "C" {
uint64_t sv_concrete(uint64_t v){ return v; } void sv_stop(){} void sv_make(void*,size_t,const char*){} void sv_assume_(int){}
#define P(N,T) int m_epicsParse##N(const char*,T*,int,char**);
P(Long,long) P(ULong,unsigned long) P(LLong,long long) P(ULLong,unsigned long long) P(Int8,epicsInt8) P(Int16,epicsInt16) P(Int32,epicsInt32) P(Int64,epicsInt64) P(UInt8,epicsUInt8) P(UInt16,epicsUInt16) P(UInt32,epicsUInt32) P(UInt64,epicsUInt64)
int m_epicsParseDouble(const char*,double*,char**); int m_epicsParseFloat(const char*,float*,char**);
float m_epicsConvertDoubleToFloat(double); int m_epicsStrCaseCmp(const char*,const char*); unsigned m_epicsStrHash(const char*,unsigned);
int m_epicsStrnCaseCmp(const char*,const char*,size_t); size_t m_epicsStrnLen(const char*,size_t); unsigned m_epicsMemHash(const char*,size_t,unsigned);
long m___svm___isoc23_strtol(const char*,char**,int); unsigned long m___svm___isoc23_strtoul(const char*,char**,int); int m___svm_atoi(const char*);
char*m___svm_strstr(const char*,const char*); void*m___svm_memmem(const void*,size_t,const void*,size_t); size_t m___svm_strspn(const char*,const char*); size_t m___svm_strcspn(const char*,const char*); char*m___svm_strpbrk(const char*,const char*); void*m___svm_memrchr(const void*,int,size_t); size_t m___svm_strnlen(const char*,size_t); char*m___svm_strchrnul(const char*,int);
int m___svm_isgraph(int); int m___svm_isblank(int); int m___svm_iscntrl(int); int m___svm_ispunct(int);
}
static long n=0,bad=0;
static void fail(const char*w,const std::string&s){ if(bad++<30)printf("DIFFERENT %s on \"%s\"\n",w,s.c_str()); }
template<class T,class A,class B> static void one(const char*w,A a,B b,const std::string&s,int base){ for(int u=0;u<2;u++){ T x=T(7),y=T(7); char*e=0,*f=0; int r=a(s.c_str(),&x,base,u?&e:0),q=b(s.c_str(),&y,base,u?&f:0); n++;
  if(r!=q||(!r&&(memcmp(&x,&y,sizeof x)||e!=f)))fail(w,s); } }
static int eqd(double a,double b){ return a==b||(a!=a&&b!=b); }
static void text(const std::string&s){
#define T(N,TY) for(int b:{0,10,16,8})one<TY>(#N,m_epicsParse##N,epicsParse##N,s,b);
  T(Long,long) T(ULong,unsigned long) T(LLong,long long) T(ULLong,unsigned long long) T(Int8,epicsInt8) T(Int16,epicsInt16) T(Int32,epicsInt32) T(Int64,epicsInt64) T(UInt8,epicsUInt8) T(UInt16,epicsUInt16) T(UInt32,epicsUInt32) T(UInt64,epicsUInt64)
  for(int u=0;u<2;u++){ double x=7,y=7; char*e=0,*f=0; int r=m_epicsParseDouble(s.c_str(),&x,u?&e:0),q=epicsParseDouble(s.c_str(),&y,u?&f:0); n++; if(r!=q||(!r&&(!eqd(x,y)||e!=f)))fail("Double",s);
    float v=7,w=7; e=f=0; r=m_epicsParseFloat(s.c_str(),&v,u?&e:0); q=epicsParseFloat(s.c_str(),&w,u?&f:0); n++; if(r!=q||(!r&&(!eqd(v,w)||e!=f)))fail("Float",s); }
  for(int b:{0,10,16,8}){ char*e,*f; n+=2; errno=0; long x=m___svm___isoc23_strtol(s.c_str(),&e,b); int p=errno; errno=0; long y=strtol(s.c_str(),&f,b); if(x!=y||e!=f||p!=errno)fail("strtol",s); errno=0; unsigned long u=m___svm___isoc23_strtoul(s.c_str(),&e,b); p=errno; errno=0; unsigned long v=strtoul(s.c_str(),&f,b); if(u!=v||e!=f||p!=errno)fail("strtoul",s); }
  n++; if(m_epicsStrHash(s.c_str(),5)!=epicsStrHash(s.c_str(),5))fail("Hash",s);
}
int main(){ std::mt19937_64 g(1); const char al[]="0123456789abfxXeE+-. \tnaifNIFzg\n"; const int k=sizeof al-1;
  text(""); for(int i=0;i<k;i++){ text(std::string(1,al[i])); for(int j=0;j<k;j++){ std::string s; s+=al[i]; s+=al[j]; text(s); for(int l=0;l<k;l++)text(s+al[l]); } }
  for(int i=0;i<60000;i++){ std::string s; int len=1+g()%22; for(int j=0;j<len;j++)s+=(g()%4)?(char)('0'+g()%10):al[g()%k]; text(s); }
  const char*lim[]={"127","128","-128","-129","255","256","-255","-256","32767","32768","-32768","-32769","65535","65536","2147483647","2147483648","-2147483648","-2147483649","4294967295","4294967296","9223372036854775807","9223372036854775808","-9223372036854775808","-9223372036854775809","18446744073709551615","18446744073709551616","-18446744073709551615","0x7fffffffffffffff","0xffffffffffffffff","0x10000000000000000","1e38","3.5e38","1e-38","1e-46","1e308","1e309","1e-320","1e-400","inf","-inf","nan","infinity","0x1p3"};
  for(const char*a:lim){ text(a); text(std::string(" ")+a+" "); text(std::string("+")+a); text(std::string(a)+"x"); }
  for(int i=0;i<100000;i++){ double d; uint64_t u=g(); memcpy(&d,&u,8); if(i&1){ float f; uint32_t x=(uint32_t)u; memcpy(&f,&x,4); d=f; } if(i%5==0)d=std::ldexp((double)(g()%1000)+.5,-160+(int)(g()%40)); n++; if(!eqd(m_epicsConvertDoubleToFloat(d),epicsConvertDoubleToFloat(d))){ char b[64]; snprintf(b,64,"%a",d); fail("DoubleToFloat",b);} }
  for(int i=0;i<200000;i++){ std::string a,b; int l=g()%4,m=g()%4; for(int j=0;j<l;j++)a+=(char)(1+g()%255); for(int j=0;j<m;j++)b+=(g()%2&&j<l)?(char)(a[j]^((g()%2)?32:0)):(char)(1+g()%255); if(a.find('\0')!=a.npos||b.find('\0')!=b.npos)continue; n++; int x=m_epicsStrCaseCmp(a.c_str(),b.c_str()),y=epicsStrCaseCmp(a.c_str(),b.c_str()); if((x<0)!=(y<0)||(x>0)!=(y>0))fail("CaseCmp",a+"|"+b); }
  for(int c=-1;c<256;c++){ n+=4; if(!!isgraph(c)!=m___svm_isgraph(c)||!!isblank(c)!=m___svm_isblank(c)||!!iscntrl(c)!=m___svm_iscntrl(c)||!!ispunct(c)!=m___svm_ispunct(c))fail("ctype",std::to_string(c)); }
  for(int i=0;i<200000;i++){ std::string a,b; int l=g()%8,m=g()%4; for(int j=0;j<l;j++)a+="abAB\377"[g()%5]; for(int j=0;j<m;j++)b+="abAB\377"[g()%5]; const char*x=a.c_str(),*y=b.c_str(); size_t k=g()%9; n+=10;
    auto sg=[](int v){return (v>0)-(v<0);};
    if(sg(m_epicsStrnCaseCmp(x,y,k))!=sg(epicsStrnCaseCmp(x,y,k)))fail("nCaseCmp",a+"|"+b); if(m_epicsStrnLen(x,k)!=epicsStrnLen(x,k))fail("nLen",a); if(m_epicsMemHash(x,a.size(),3)!=epicsMemHash(x,a.size(),3))fail("MemHash",a);
    if(m___svm_strstr(x,y)!=strstr(x,y))fail("strstr",a+"|"+b); if(m___svm_memmem(x,l,y,m)!=memmem(x,l,y,m))fail("memmem",a+"|"+b); if(m___svm_strspn(x,y)!=strspn(x,y))fail("strspn",a+"|"+b); if(m___svm_strcspn(x,y)!=strcspn(x,y))fail("strcspn",a+"|"+b); if(m___svm_strpbrk(x,y)!=strpbrk(x,y))fail("strpbrk",a+"|"+b); if(m___svm_memrchr(x,'a',l)!=memrchr(x,'a',l))fail("memrchr",a); if(m___svm_strnlen(x,k)!=strnlen(x,k))fail("strnlen",a); if(m___svm_strchrnul(x,'B')!=strchrnul(x,'B'))fail("strchrnul",a); }
  printf("%ld comparisons, %ld different\n",n,bad); return bad!=0; }
