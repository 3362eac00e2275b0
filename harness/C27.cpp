//@title A dynamically typed scalar holds exactly the value assigned
//@bounds histories of 2 (thorough 3) operations (construct, assign, copy, move, swap, clear, raw buffer) on two scalars over all 12 types and empty; values symbolic, texts of 1 or 40 characters (inline and heap storage)
//@bounds conversion out: every pair of types (values as in C14)
//@explain model: a tagged record kept by the harness; AddressSanitizer shadow (use after free, double free) and an allocation count for leaks
#include "val.h"
#include <pv/anyscalar.h>
struct Mod{ int t; uint64_t v; std::string s; Mod():t(-1),v(0){} };
template<class T> static uint64_t raw(T v){ uint64_t r=0; memcpy(&r,&v,sizeof v); return r; } template<> uint64_t raw(boolean v){ return v?1:0; }
static void agree(const AnyScalar&a,const Mod&m){ sv_check((int)a.type()==m.t,"the type is that of the last value assigned"); sv_check(a.empty()==(m.t==-1)&&(bool)a==(m.t!=-1),"empty means no value"); if(m.t==-1)return;
  byScalarType((ScalarType)m.t,[&](auto x){ typedef decltype(x) T; const T&r=a.ref<T>(); if constexpr(std::is_same<T,std::string>::value)sv_check(eqv(r,m.s),"the value is the last text assigned"); else sv_check(raw<T>(r)==m.v,"the value is the last one assigned, bit for bit"); });
  if(m.t!=pvInt)sv_check(THROWS(a.ref<int32>()),"a reference of another type is refused"); if(m.t!=pvString)sv_check(THROWS(a.ref<std::string>()),"a text reference to a number is refused"); if(m.t!=pvUInt)sv_check(THROWS(a.ref<uint32>()),"a reference of another type is refused");
  if(m.t==pvString)sv_check(strcmp((const char*)a.bufferUnsafe(),m.s.c_str())==0,"the raw buffer is the text"); else sv_check(a.bufferUnsafe()==a.unsafe(),"the raw buffer is the value"); }
static std::string text(){ std::string s(sv_pick(2,"long")?40:1,'y'); char c=sv_any<char>("ch"); sv_assume(c!=0); s[0]=c; return s; }
static void put(AnyScalar&a,Mod&m,int how){ unsigned t=sv_pick(12,"type"); m.t=(int)t; byScalarType((ScalarType)t,[&](auto x){ typedef decltype(x) T; if constexpr(std::is_same<T,std::string>::value){ std::string s=text(); m.s=s; if(how==0)a=s; else if(how==1)a=AnyScalar(s); else { AnyScalar b(pvString,&s); a=b; } } else { T v=symVal<T>("v"); m.v=raw<T>(v); if(how==0)a=v; else if(how==1)a=AnyScalar(v); else { AnyScalar b((ScalarType)t,&v); a=b; } } }); }
static void init(AnyScalar&a,Mod&m){ switch(sv_pick(4,"init")){ case 0: break; case 1:{ int32 v=sv_any<int32>("i"); a=v; m.t=pvInt; m.v=raw(v); break; } case 2: { std::string s=text(); a=s; m.t=pvString; m.s=s; break; } default:{ double v=symVal<double>("d"); a=v; m.t=pvDouble; m.v=raw(v); } } }
static void step(AnyScalar&a,Mod&m,AnyScalar&b,Mod&n){ switch(sv_pick(9,"op")){ case 0: put(a,m,0); break; case 1: a=b; m=n; break; case 2: a.swap(b); std::swap(m,n); break; case 3: a.clear(); m=Mod(); break; case 4: { AnyScalar c(b); a=c; m=n; agree(c,n); break; } case 5: { AnyScalar c(std::move(b)); a=c; m=n; n=Mod(); break; } case 6: a=std::move(b); m=n; n=Mod(); break; case 7: a=(const AnyScalar&)a; break; default: b.swap(a); std::swap(m,n); } agree(a,m); agree(b,n); }
QUICK(assign){ AnyScalar a; Mod m; init(a,m); agree(a,m); put(a,m,(int)sv_pick(3,"how")); agree(a,m); }
QUICK(history){ AnyScalar a,b; Mod m,n; init(a,m); init(b,n); for(int i=0;i<(sv_tier?2:1);i++)step(a,m,b,n); switch(sv_pick(4,"last")){ case 0: a.swap(b); std::swap(m,n); break; case 1: a=b; m=n; break; case 2: b.clear(); n=Mod(); break; default: b=std::move(a); n=m; m=Mod(); } agree(a,m); agree(b,n); }
QUICK(literals){ AnyScalar a("text"); sv_check(a.type()==pvString&&a.ref<std::string>()=="text","a C string is stored as text"); std::string s=text(); const char*p=s.c_str(); AnyScalar b(p); sv_check(b.type()==pvString&&eqv(b.ref<std::string>(),s),"a C string is stored as text");  AnyScalar e; sv_check(THROWS(e.as<int32>())&&THROWS(e.ref<int32>()),"an empty scalar has no value"); int32 x=sv_any<int32>("x"); AnyScalar d(x); d.ref<int32>()=5; sv_check(d.ref<int32>()==5,"a reference can be written through"); }
QUICK(convert){ unsigned f=sv_pick(11,"from"),t=sv_pick(11,"to"); sv_assume(f!=pvString); byScalarType((ScalarType)f,[&](auto x){ typedef decltype(x) F; if constexpr(!std::is_same<F,std::string>::value){ F v=symVal<F>("v"); AnyScalar a(v); byScalarType((ScalarType)t,[&](auto y){ typedef decltype(y) T; if constexpr(!std::is_same<T,std::string>::value&&std::is_integral<F>::value){ if constexpr(std::is_same<T,boolean>::value!=std::is_same<F,boolean>::value)sv_check(THROWS(a.as<T>()),"truth values and numbers do not convert into each other"); else { T w=a.as<T>(); sv_check(raw<T>(w)==raw<T>((T)v),"conversion gives the value of a cast"); } } }); } }); }
QUICK(storage){ // every text stored is released exactly once: live heap blocks of the texts' size
  size_t n0=sv_live(); { std::string s(3040,'z'); size_t one=sv_live(); sv_check(one==n0+1,"counting blocks"); AnyScalar a,b; Mod m; for(int i=0;i<(sv_tier?3:2);i++)switch(sv_pick(8,"op")){ case 0: a=s; break; case 1: b=a; break; case 2: a.swap(b); break; case 3: a.clear(); break; case 4: a=3; break; case 5: b=std::move(a); break; case 6: { AnyScalar c(a); a=b; break; } default: { AnyScalar*p=new AnyScalar(s); AnyScalar q(*p); delete p; sv_check(q.ref<std::string>()==s,"a copy survives its original"); a=q; } }
    size_t k=sv_live(),w=1+(a.type()==pvString&&!a.empty())+(b.type()==pvString&&!b.empty()); sv_check(k==w,"exactly the texts held are allocated"); } sv_check(sv_live()==n0,"all texts are released"); }
