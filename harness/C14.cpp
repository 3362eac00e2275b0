//@title Scalar conversions give the C++ cast value or fail
//@bounds every pair of the 12 scalar types; one arbitrary value (floating sources within the range of an integer target, where the C++ cast is defined), arrays of 0..3 arbitrary elements; through castUnsafeV, PVScalar getAs/putFrom/assign/copy, PVScalarArray getAs/putFrom/assign and convert-to-untyped
//@bounds numbers to text: every 8-bit integer, 14 edge values of each wider type and 8 exactly printable floating values; text to number is C15
//@explain oracle: the C++ cast of the value, computed in the harness; refusals by the table of convertible types (boolean converts only from and to boolean and text)
#include "zoo.h"
#include <pv/typeCast.h>
#include <cfloat>
#include <limits>
static bool convertible(ScalarType from,ScalarType to){ if(from==pvString||to==pvString)return true; return (from==pvBoolean)==(to==pvBoolean); }
template<class T> struct Num{ static const bool v=!std::is_same<T,std::string>::value; };
template<class TO,class FROM> static TO cast(FROM v){ if constexpr(std::is_same<TO,float>::value&&std::is_same<FROM,double>::value){ double a=v<0?-v:v; if(v==0||v!=v||a>DBL_MAX)return (float)v; if(a>=FLT_MAX)return v>0?FLT_MAX:-FLT_MAX; if(a<=FLT_MIN)return v>0?FLT_MIN:-FLT_MIN; return (float)v; } else return (TO)v; }
template<class TO,class FROM> static void assumeInRange(FROM v){ if constexpr(std::is_floating_point<FROM>::value&&std::is_integral<TO>::value){ FROM lo=(FROM)std::numeric_limits<TO>::min(),hi=(FROM)std::numeric_limits<TO>::max(); sv_assume((unsigned)(v>=lo)&(unsigned)(v<(sizeof(TO)<4?hi+1:hi))); } }
template<class F> static void byNum(ScalarType t,F f){ switch(t){ case pvBoolean:f(boolean());break; case pvByte:f(int8());break; case pvShort:f(int16());break; case pvInt:f(int32());break; case pvLong:f(int64());break; case pvUByte:f(uint8());break; case pvUShort:f(uint16());break; case pvUInt:f(uint32());break; case pvULong:f(uint64());break; case pvFloat:f(float());break; case pvDouble:f(double());break; default: break; } }
template<class F> static void pairs(F f){ ScalarType a=(ScalarType)sv_pick(11,"from"),b=(ScalarType)sv_pick(11,"to"); byNum(a,[&](auto x){ byNum(b,[&](auto y){ f(x,y,a,b); }); }); }
struct Raw{ unsigned char b[8]; Raw(){ memset(b,0,8); } template<class T> T as()const{ T t; memcpy((void*)&t,b,sizeof t); return t; } template<class T> void set(T t){ memcpy(b,&t,sizeof t); } };
static unsigned eqr(const Raw&a,const Raw&b){ unsigned d=0; for(int i=0;i<8;i++)d|=a.b[i]^b.b[i]; return d==0; }
static void want(const Raw&src,Raw&dst,Raw&direct,ScalarType a,ScalarType b){ byNum(a,[&](auto x){ byNum(b,[&](auto y){ typedef decltype(x) A; typedef decltype(y) B; A v=src.as<A>(); assumeInRange<B>(v); dst.set<B>(cast<B>(v)); direct.set<B>(castUnsafe<B,A>(v)); }); }); }
static Raw any(ScalarType t,const char*n){ Raw r; byNum(t,[&](auto x){ r.set(symVal<decltype(x)>(n)); }); return r; }
static void put(PVScalar&p,const Raw&v){ byNum(p.getScalar()->getScalarType(),[&](auto x){ typedef decltype(x) T; ((PVScalarValue<T>&)p).put(v.as<T>()); }); }
static Raw get(PVScalar&p){ Raw r; byNum(p.getScalar()->getScalarType(),[&](auto x){ typedef decltype(x) T; r.set<T>(((PVScalarValue<T>&)p).get()); }); return r; }
QUICK(scalars){ ScalarType a=(ScalarType)sv_pick(11,"from"),b=(ScalarType)sv_pick(11,"to"); Raw v=any(a,"v"),w,d,r; bool ok=convertible(a,b),t=false; if(ok){ want(v,w,d,a,b); sv_check(eqr(w,d),"the converted value is the C++ cast"); } PVScalarPtr p=getPVDataCreate()->createPVScalar(a),q=getPVDataCreate()->createPVScalar(b); put(*p,v); Raw old=any(b,"old"); put(*q,old); unsigned how=sv_pick(6,"how");
  try{ switch(how){ case 0: castUnsafeV(1,b,r.b,a,v.b); break; case 1: byNum(b,[&](auto y){ typedef decltype(y) B; r.set<B>(p->getAs<B>()); }); break; case 2: byNum(a,[&](auto x){ typedef decltype(x) A; q->putFrom(v.as<A>()); }); r=get(*q); break; case 3: q->assign(*p); r=get(*q); break; case 4: q->putFrom((const void*)v.b,a); r=get(*q); break; default: q->copyUnchecked(*p); r=get(*q); } }catch(std::runtime_error&){ t=true; }
  sv_check(t==!ok,"a conversion is refused exactly when the types do not convert"); if(t)sv_check(eqr(get(*q),old),"a refused conversion changes nothing"); else sv_check(eqr(r,w),"the converted value is the C++ cast"); sv_check(eqr(get(*p),v),"converting leaves the source alone"); }
template<class A> static void typed(ScalarType a){ ScalarType b; switch(sv_pick(4,"to")){ case 0: b=pvByte; break; case 1: b=pvUInt; break; case 2: b=pvLong; break; default: b=pvFloat; } Raw v=any(a,"v"),w,d; want(v,w,d,a,b); PVScalarPtr p0=getPVDataCreate()->createPVScalar(a); put(*p0,v); PVScalarValue<A>&p=(PVScalarValue<A>&)*p0; PVScalarPtr q=getPVDataCreate()->createPVScalar(b); Raw r; switch(b){ case pvByte: r.set(p.template getAs<int8>()); ((PVByte&)*q).putFrom<A>(v.as<A>()); break; case pvUInt: r.set(p.template getAs<uint32>()); ((PVUInt&)*q).putFrom<A>(v.as<A>()); break; case pvLong: r.set(p.template getAs<int64>()); ((PVLong&)*q).putFrom<A>(v.as<A>()); break; default: r.set(p.template getAs<float>()); ((PVFloat&)*q).putFrom<A>(v.as<A>()); } sv_check(eqr(r,w)&&eqr(get(*q),w),"typed access converts alike"); }
QUICK(direct){ switch(sv_pick(5,"from")){ case 0: typed<int16>(pvShort); break; case 1: typed<uint8>(pvUByte); break; case 2: typed<int64>(pvLong); break; case 3: typed<uint64>(pvULong); break; default: typed<double>(pvDouble); } }
static shared_vector<const void> arr(ScalarType t,const std::vector<Raw>&v){ shared_vector<const void> r; byNum(t,[&](auto x){ typedef decltype(x) T; shared_vector<T> a(v.size()); for(size_t i=0;i<v.size();i++)a[i]=v[i].template as<T>(); r=static_shared_vector_cast<const void>(shared_vector<const T>(freeze(a))); }); return r; }
static std::vector<Raw> elems(PVScalarArray&p){ std::vector<Raw> r; byNum(p.getScalarArray()->getElementType(),[&](auto x){ typedef decltype(x) T; shared_vector<const T> v(((PVValueArray<T>&)p).view()); r.resize(v.size()); for(size_t i=0;i<v.size();i++)r[i].template set<T>(v[i]); }); return r; }
QUICK(arrays){ ScalarType a=(ScalarType)sv_pick(11,"from"),b=(ScalarType)sv_pick(11,"to"); bool ok=convertible(a,b); size_t n=sv_pick(4,"n"); std::vector<Raw> v(n),w(n); Raw d; for(size_t i=0;i<n;i++){ v[i]=any(a,"v"); if(ok)want(v[i],w[i],d,a,b); } shared_vector<const void> cv(arr(a,v)); PVScalarArrayPtr p=getPVDataCreate()->createPVScalarArray(a),q=getPVDataCreate()->createPVScalarArray(b); p->putFrom(cv); std::vector<Raw> r; bool t=false; unsigned how=sv_pick(sv_tier?4:3,"how"); if(how==1||how==2)sv_assume(n>0);
  try{ switch(how){ case 0: byNum(b,[&](auto y){ typedef decltype(y) B; shared_vector<const B> o; p->getAs(o); r.resize(o.size()); for(size_t i=0;i<o.size();i++)r[i].template set<B>(o[i]); }); break; case 1: q->putFrom(cv); r=elems(*q); break; case 2: q->assign(*p); r=elems(*q); break; default: byNum(b,[&](auto y){ typedef decltype(y) B; std::vector<B> o(n+1); memset((void*)&o[0],0x33,sizeof(B)*(n+1)); B g=o[n]; castUnsafeV(n,b,&o[0],a,cv.data()); for(size_t i=0;i<n;i++){ Raw e; e.template set<B>(o[i]); r.push_back(e); } sv_check(eqv(o[n],g),"nothing is written beyond the last element"); }); } }catch(std::runtime_error&){ t=true; }
  if(n||how==3)sv_check(t==!ok,"a conversion is refused exactly when the types do not convert"); if(t){ sv_check(q->getLength()==0,"a refused conversion changes nothing"); return; } if(r.size()!=n){ sv_fail("conversion keeps the number of elements"); return; } if(!ok)return; unsigned e=1; for(size_t i=0;i<n;i++)e&=eqr(r[i],w[i]); sv_check(e,"each converted element is the C++ cast"); std::vector<Raw> u(elems(*p)); e=u.size()==n; if(e)for(size_t i=0;i<n;i++)e&=eqr(u[i],v[i]); sv_check(e,"converting leaves the source alone"); }
// numbers to text
static std::string dec(bool neg,uint64 m){ std::string s; do{ s.insert(s.begin(),(char)('0'+m%10)); m/=10; }while(m); if(neg)s.insert(s.begin(),'-'); return s; }
template<class T> static std::string text(T v){ if(v<0)return dec(true,(uint64)0-(uint64)(int64)v); return dec(false,(uint64)v); }
template<class T> static void toText(T v,ScalarType a,const std::string&w){ std::tr1::shared_ptr<PVScalarValue<T> > p=std::tr1::static_pointer_cast<PVScalarValue<T> >(getPVDataCreate()->createPVScalar(a)); p->put(v); std::string s; switch(sv_pick(4,"how")){ case 0: castUnsafeV(1,pvString,&s,a,&v); break; case 1: s=((PVScalar&)*p).getAs<std::string>(); break; case 2: { PVStringPtr q=getPVDataCreate()->createPVScalar<PVString>(); q->assign(*p); s=q->get(); break; } default: s=castUnsafe<std::string,T>(v); } sv_check(s==w,"a number becomes its decimal text"); }
QUICK(bytes_to_text){ bool sg=sv_pick(2,"signed"); int lo=sv_pick(16,"lo")|sv_pick(16,"hi")<<4; if(sg)toText<int8>((int8)lo,pvByte,text((int8)lo)); else toText<uint8>((uint8)lo,pvUByte,text((unsigned)lo)); }
QUICK(edges_to_text){ ScalarType a=(ScalarType)(pvShort+sv_pick(8,"type")); if(a==pvUByte||a>pvULong)sv_stop(); byNum(a,[&](auto t){ typedef decltype(t) T; if constexpr(std::is_integral<T>::value){ T mx=std::numeric_limits<T>::max(),mn=std::numeric_limits<T>::min(); T V[14]={0,1,(T)-1,9,10,99,100,mx,mn,(T)(mx-1),(T)(mn+1),(T)(mx/10),(T)12345,(T)(mx/10*10)}; T v=V[sv_pick(14,"v")]; toText<T>(v,a,text(v)); } }); }
QUICK(floats_to_text){ static const double V[8]={0,1,-1,0.5,-2.25,100,123456,1e6}; static const char*S[8]={"0","1","-1","0.5","-2.25","100","123456","1e+06"}; unsigned k=sv_pick(8,"v"); if(sv_pick(2,"double"))toText<double>(V[k],pvDouble,S[k]); else toText<float>((float)V[k],pvFloat,S[k]); }
QUICK(boolean_to_text){ boolean b=(boolean)sv_pick(2,"b"); toText<boolean>(b,pvBoolean,b?"true":"false"); }
// failing elements
QUICK(failing_element){ size_t n=1+sv_pick(4,"n"),bad=sv_pick(5,"bad"); std::vector<std::string> s(n); for(size_t i=0;i<n;i++)s[i]=i==bad?"x":"7"; std::vector<int32> o(n+1,-1); std::string msg; bool t=false; try{ castUnsafeV(n,pvInt,&o[0],pvString,&s[0]); }catch(std::runtime_error&e){ t=true; msg=e.what(); } sv_check(t==(bad<n),"one element that does not convert fails the conversion"); for(size_t i=0;i<n&&i<bad;i++)sv_check(o[i]==7,"the elements before it are converted"); sv_check(o[n]==-1,"nothing is written beyond the last element"); if(t&&n>1){ std::string w="index "; w+=(char)('0'+bad); sv_check(msg.find(w)!=std::string::npos,"the error names the failing element"); } }
