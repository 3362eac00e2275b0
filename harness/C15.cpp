//@title Text to number parsing is exact
//@bounds every text of 0..3 (thorough 0..4) non-NUL bytes for each of the 8 integer types and boolean; for each integer type decimal texts of one digit less, as many and one more than the type's largest value that follow it up to a free digit at a chosen place (thorough: any place), continue with its digits or zeros and end in a free digit, with and without sign and surrounding blanks; hexadecimal texts of up to one digit more than the type holds; octal likewise
//@bounds boolean: every text of 0..5 bytes; float and double: texts of 3 (thorough 4) characters over the alphabet "19.-e+ x"
//@bounds routes: parseToPOD, castUnsafe from std::string and C string, getAs and putFrom of a text field
//@assume unsigned types take a negative number as its two's complement (strtoul convention, kept by libCom)
//@explain oracle: a recogniser of the number grammar (blanks sign 0x/0/decimal digits blanks) and range comparison by digit strings; libCom's epicsParse* are modelled in engine/env and checked against the real library
#include "val.h"
#include <limits>
#include <pv/typeCast.h>
static bool isb(unsigned char c){ return c==' '||(c>=9&&c<=13); }
static int digit(unsigned char c){ if(c>='0'&&c<='9')return c-'0'; if(c>='a'&&c<='f')return c-'a'+10; if(c>='A'&&c<='F')return c-'A'+10; return 99; }
// the oracle: does s spell an integer of T, and which
template<class T> static bool spells(const std::string&s,T&out){
  size_t i=0,n=s.size(); while(i<n&&isb(s[i]))i++; bool neg=false; if(i<n&&(s[i]=='+'||s[i]=='-')){neg=s[i]=='-';i++;}
  int base=10; if(i<n&&s[i]=='0'){ if(i+2<n&&(s[i+1]=='x'||s[i+1]=='X')&&digit(s[i+2])<16){base=16;i+=2;} else base=8; }
  size_t b=i; uint64_t v=0; bool big=false; while(i<n&&digit(s[i])<base){ unsigned d=digit(s[i]); if(v>(~(uint64_t)0-d)/base)big=true; v=v*base+d; i++; } if(i==b)return false;
  while(i<n&&isb(s[i]))i++; if(i<n)return false; if(big)return false;
  uint64_t hi=(uint64_t)std::numeric_limits<T>::max();
  if(std::numeric_limits<T>::is_signed){ if(neg?v>hi+1:v>hi)return false; } else if(neg){ if(sizeof(T)<8&&v!=0&&(0-v)>hi&&(0-v)<=~hi)return false; } else if(v>hi)return false;
  out=(T)(neg?0-v:v); return true; }
template<class F> static void ints(unsigned k,F f){ switch(k){ case 0:f(int8());break; case 1:f(uint8());break; case 2:f(int16());break; case 3:f(uint16());break; case 4:f(int32());break; case 5:f(uint32());break; case 6:f(int64());break; default:f(uint64()); } }
template<class T> static T parse(const std::string&s,unsigned route,T old){ T v=old; switch(route){ case 0: epics::pvData::detail::parseToPOD(s.c_str(),&v); break; case 1: v=castUnsafe<T>(s); break; case 2: { const char*p=s.c_str(); v=castUnsafe<T>(p); break; }
  case 3:{ PVStringPtr f=getPVDataCreate()->createPVScalar<PVString>(); f->put(s); v=f->getAs<T>(); break; } default:{ std::tr1::shared_ptr<PVScalarValue<T> > f=getPVDataCreate()->createPVScalar<PVScalarValue<T> >(); f->put(old); try{ f->template putFrom<std::string>(s); }catch(...){ sv_check(eqv(f->get(),old),"a refused text leaves the target unchanged"); throw; } v=f->get(); } } return v; }
template<class T> static void one(const std::string&s,unsigned route){ T want=0,got=0,old=(T)77; bool ok=spells<T>(s,want),acc=true; try{ got=parse<T>(s,route,old); }catch(std::exception&){ acc=false; }
  sv_check(acc==ok,"a text is accepted exactly when it spells a number in range"); if(acc)sv_check(eqv(got,want),"the value is the number the text spells"); }
static std::string anyText(size_t n){ std::string s=symString(n); for(size_t i=0;i<n;i++)sv_assume(s[i]!=0); return s; }
QUICK(short_texts){ unsigned k=sv_pick(8,"type"),r=sv_pick(5,"route"); size_t n=sv_pick(r==0?(sv_tier?5:4):r==4?3:2,"len"); if(!sv_tier&&n==3)sv_assume(k==0||k==1||k==7); std::string s=anyText(n); ints(k,[&](auto t){ one<decltype(t)>(s,r); }); }
static const char*const MAXS[8]={"127","255","32767","65535","2147483647","4294967295","9223372036854775807","18446744073709551615"};
// texts around the limit: the digits of the largest value with one free digit at a chosen place, zeros or the same digits behind it and a free last digit; one digit less, as many, one more
QUICK(decimal_limits){ unsigned k=sv_pick(8,"type"); std::string s=MAXS[k]; size_t n=s.size(); unsigned ex=sv_pick(3,"digits"); if(ex==0)s=s.substr(0,n-1); if(ex==2)s+="0"; n=s.size(); size_t p=sv_pick(sv_tier||n<11?n:3,"place"); if(p==2&&n>=11&&!sv_tier)p=n-2; if(sv_pick(2,"zeros"))for(size_t i=p+1;i<n;i++)s[i]='0'; char c=sv_any<char>("digit"),d=sv_any<char>("digit"); sv_assume((unsigned)(c>='0')&(unsigned)(c<='9')); sv_assume((unsigned)(d>='0')&(unsigned)(d<='9')); if(p==0)sv_assume(c!='0'); if(k>=4)c=(char)sv_concrete((unsigned char)c); s[p]=c; if(p!=n-1)s[n-1]=d; bool z=sv_pick(2,"sign"); s=(z?" -":"")+s+(z?" ":""); ints(k,[&](auto t){ one<decltype(t)>(s,0); }); }
QUICK(hex_octal_limits){ unsigned k=sv_pick(8,"type"); bool hex=sv_pick(2,"hex"); unsigned bits; ints(k,[&](auto t){ bits=sizeof(t)*8; }); unsigned n=hex?bits/4+sv_pick(2,"digits"):(bits+2)/3+sv_pick(2,"digits"); std::string s(n,'1'); char c=sv_any<char>("lead"); sv_assume((unsigned)(c>='1')&(unsigned)(c<=(hex?'9':'7'))); s[0]=c; unsigned char l=sv_any<unsigned char>("last"); sv_assume(isb(l)||digit(l)<99||l=='g'||l==':'); s[n-1]=(char)l; std::string p=sv_pick(2,"neg")?"-":""; s=p+(hex?(sv_pick(2,"X")?"0X":"0x"):"0")+s; ints(k,[&](auto t){ one<decltype(t)>(s,0); }); }
QUICK(booleans){ unsigned r=sv_pick(5,"route"); size_t n=r==0?sv_pick(7,"len"):4+sv_pick(2,"len"); std::string s=anyText(n); static const char T_[]="true",F_[]="false"; unsigned t=n==4,f=n==5; for(size_t i=0;i<n;i++){ unsigned char c=s[i]; unsigned char lo=c+(((unsigned)(c>='A')&(unsigned)(c<='Z'))?32:0); if(n==4)t&=lo==(unsigned char)T_[i]; if(n==5)f&=lo==(unsigned char)F_[i]; }
  boolean got=7; bool acc=true; try{ got=parse<boolean>(s,r,1); }catch(std::exception&){ acc=false; } sv_check(acc==(bool)(t|f),"exactly true and false are accepted, in any case"); if(acc)sv_check(got==(boolean)t,"true is 1 and false is 0"); }
QUICK(floats){ static const char A[]="19.-e+ x"; unsigned n=sv_tier?4:3; std::string s; for(unsigned i=0;i<n;i++)s+=A[sv_pick(8,"ch")]; char*e; const char*p=s.c_str(); double d=strtod(p,&e); bool ok=e!=p; while(*e==' ')e++; if(*e)ok=false; bool dbl=sv_pick(2,"double"); double got=0; bool acc=true; try{ got=dbl?parse<double>(s,0,1.0):(double)parse<float>(s,0,1.0f); }catch(std::exception&){ acc=false; } sv_check(acc==ok,"a text is accepted exactly when it spells a floating point number"); if(acc)sv_check(got==(dbl?d:(double)(float)d),"the value is the nearest floating point number"); }
