//@title Declared string and array bounds always hold
//@bounds bounded strings with bound 1..3 and texts of 0..bound+2 symbolic characters, numbers given to bounded strings; bounded and fixed arrays of 1..3 elements (byte, int, double, string) with 0..bound+2 symbolic elements; every public way to assign: put, <<=, putFrom of each kind, AnyScalar, assign, copy, text conversion, replace, reuse, setLength, setCapacity, reception, structure copies
//@bounds the raw exchange PVValueArray::swap (documented as not checking) is outside; a fixed array that was never given a value has no elements; a failed reception may leave an array empty
//@explain oracle: the declared bound and the value held before
#include "zoo.h"
#include <pv/convert.h>
#include <pv/anyscalar.h>
static PVStringPtr bstr(size_t m){ return std::tr1::static_pointer_cast<PVString>(getPVDataCreate()->createPVScalar(getFieldCreate()->createBoundedString(m))); }
template<class P,class F> static bool attempt(P,F f){ try{ f(); return true; }catch(std::exception&){ return false; } }
QUICK(strings){ size_t m=1+sv_pick(3,"bound"),o=sv_pick(m+1,"old"),n=sv_pick(m+3,"len"); PVStringPtr p=bstr(m); std::string old=symString(o,"old"),v=symString(n,"text"); if(o)p->put(old); unsigned w=sv_pick(13,"how"); bool ok=attempt(0,[&]{
    switch(w){ case 0: p->put(v); break; case 1: *p<<=v; break; case 2: p->putFrom<std::string>(v); break; case 3: ((PVScalar&)*p).putFrom(v); break; case 4: p->putFrom(AnyScalar(v)); break; case 5: p->putFrom((const void*)&v,pvString); break;
    case 6: { PVStringPtr q=getPVDataCreate()->createPVScalar<PVString>(); q->put(v); p->assign(*q); break; } case 7: { PVStringPtr q=getPVDataCreate()->createPVScalar<PVString>(); q->put(v); p->copyUnchecked(*q); break; } case 8: { PVStringPtr q=bstr(m+3); q->put(v); ((PVScalar&)*p).copy(*q); break; }
    case 9: getConvert()->fromString(std::tr1::static_pointer_cast<PVScalar>(p),v); break; case 10: { Bytes b; wVal(b,v,EPICS_BYTE_ORDER); In in(b,64,1); p->deserialize(&in.buf,&in); break; }
    case 11: { PVUnionPtr u=getPVDataCreate()->createPVUnion(FB()->addBoundedString("s",m)->createUnion()); u->select<PVString>("s")->put(old); PVUnionPtr q=getPVDataCreate()->createPVUnion(FB()->addBoundedString("s",m)->createUnion()); try{ q->select<PVString>("s")->put(v); }catch(std::exception&){ sv_check(n>m,"a text within the bound is accepted"); throw; } u->copy(*q); p->put(u->get<PVString>()->get()); break; }
    default: { PVStructurePtr a=getPVDataCreate()->createPVStructure(FB()->addBoundedString("s",m)->createStructure()); a->getSubFieldT<PVScalar>("s")->putFrom(v); p->put(a->getSubFieldT<PVString>("s")->get()); } } });
  sv_check(ok==(n<=m),"a text is accepted exactly when it is within the bound"); sv_check(eqv(p->get(),ok?v:old),"the string holds the accepted text or else the old one"); sv_check(p->get().size()<=m,"a bounded string never exceeds its bound"); PVStringPtr c=std::tr1::static_pointer_cast<PVString>(getPVDataCreate()->createPVScalar(p)); sv_check(eqv(c->get(),p->get()),"cloning keeps the value"); sv_check(!attempt(0,[&]{ c->put(std::string(m+1,'z')); }),"cloning keeps the bound"); }
QUICK(numbers){ size_t m=1+sv_pick(3,"bound"); PVStringPtr p=bstr(m); static const int V[6]={7,-7,42,-42,999,-1000}; int v=V[sv_pick(6,"num")]; size_t n=v==7?1:v==-7||v==42?2:v==-42||v==999?3:5; unsigned w=sv_pick(6,"how"); bool ok=attempt(0,[&]{ switch(w){ case 0: p->putFrom<int32>(v); break; case 1: ((PVScalar&)*p).putFrom((int16)v); break; case 2: p->putFrom(AnyScalar((int64)v)); break; case 3: { PVLongPtr q=getPVDataCreate()->createPVScalar<PVLong>(); q->put(v); p->assign(*q); break; } case 4: { int32 x=v; p->putFrom((const void*)&x,pvInt); break; } default: { PVShortPtr q=getPVDataCreate()->createPVScalar<PVShort>(); q->put((int16)v); ((PVScalar&)*p).copyUnchecked(*q); } } }); sv_check(ok==(n<=m),"a number is accepted exactly when its text is within the bound"); sv_check(p->get().size()==(ok?n:0),"the string holds the accepted text or else the old one"); }
template<class T> static void arrays(){ size_t m=1+sv_pick(3,"bound"); bool fixed=sv_pick(2,"fixed"); ScalarType st=(ScalarType)ScalarTypeID<T>::value; ScalarArrayConstPtr t=fixed?getFieldCreate()->createFixedScalarArray(st,m):getFieldCreate()->createBoundedScalarArray(st,m); typedef PVValueArray<T> A; typedef typename A::const_svector V; std::tr1::shared_ptr<A> p=std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray(t)); symval_strlen=1; size_t o=fixed?m:sv_pick(m+1,"old"); V old(symArr<T>(o)); p->replace(old); size_t n=sv_pick(m+3,"len"); V v(symArr<T>(n)); unsigned w=sv_pick(14,"how"); bool exact=true; size_t len=n; bool any=true;
  bool ok=attempt(0,[&]{ switch(w){ case 0: p->replace(v); break; case 1: p->template putFrom<T>(v); break; case 2: { shared_vector<const void> u(static_shared_vector_cast<const void>(v)); p->PVScalarArray::putFrom(u); break; }
    case 3: { shared_vector<std::string> s(n,std::string("1")); p->template putFrom<std::string>(freeze(s)); exact=false; break; } case 4: { shared_vector<int16> s(n,(int16)1); p->template putFrom<int16>(freeze(s)); exact=false; break; }
    case 5: case 6: { std::tr1::shared_ptr<A> q=std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray(st)); q->replace(v); if(w==5)p->assign(*q); else p->PVScalarArray::copyUnchecked(*q); break; }
    case 7: { std::tr1::shared_ptr<A> q=std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray(getFieldCreate()->createBoundedScalarArray(st,7))); q->replace(v); p->PVScalarArray::copy(*q); break; }
    case 8: case 9: { std::string s; for(size_t i=0;i<n;i++)s+=i?",1":"1"; any=n>0; if(w==9){ StringArray l(n,"1"); sv_assume(n>=o); getConvert()->fromStringArray(p,0,n,l,0); any=true; } else { if(!n)sv_stop(); getConvert()->fromString(std::tr1::static_pointer_cast<PVScalarArray>(p),s); } exact=false; break; }
    case 10: { typename A::svector s(p->reuse()); sv_check(s.unique(),"reuse gives a sole owner"); s.resize(n); for(size_t i=0;i<n;i++)s[i]=v[i]; try{ p->replace(freeze(s)); }catch(...){ sv_check(p->getLength()==0,"a refused value is not taken"); p->replace(old); throw; } break; }
    case 11: p->setLength(n); exact=false; break; case 12: p->setCapacity(n); len=o; exact=false; break;
    default: { Bytes b; if(!fixed)wSize(b,n,EPICS_BYTE_ORDER); else sv_assume(n>=m); for(size_t i=0;i<n;i++)wVal(b,v[i],EPICS_BYTE_ORDER); In in(b,64,sv_pick(2,"step")); p->deserialize(&in.buf,&in); if(fixed){ sv_check(in.consumed()==b.size()/n*m,"a fixed array takes exactly its elements"); len=m; exact=false; } break; } } });
  size_t k=p->getLength(); sv_check(fixed?k==m:k<=m,"an array never leaves its declared bounds"); bool fits=fixed?(w==13?n>=m:n==m):n<=m; if(w==12&&!fixed&&n<o)sv_check(p->getLength()==o&&eqa(p->view(),old),"a capacity below the length changes nothing");
  sv_check(ok==fits,"an array value is accepted exactly when it is within the bound"); if(ok){ sv_check(k==len,"the array has the accepted number of elements"); if(exact)sv_check(eqa(p->view(),v),"the array holds the accepted elements"); } else sv_check(eqa(p->view(),old),"a refused assignment leaves the old value"); if(w==11&&ok){ unsigned e=1; for(size_t i=0;i<k&&i<o;i++)e&=eqv(p->view()[i],old[i]); sv_check(e,"changing the length keeps the elements"); } }
QUICK(array_bytes){ arrays<int8>(); }
QUICK(array_ints){ arrays<int32>(); }
THOROUGH(array_doubles){ arrays<double>(); }
QUICK(array_strings){ arrays<std::string>(); }
QUICK(many_types){ ScalarType st=(ScalarType)sv_pick(12,"type"); size_t m=2; bool fixed=sv_pick(2,"fixed"); size_t n=sv_pick(4,"len"); byScalarType(st,[&](auto t){ typedef decltype(t) T; typedef PVValueArray<T> A; ScalarArrayConstPtr f=fixed?getFieldCreate()->createFixedScalarArray(st,m):getFieldCreate()->createBoundedScalarArray(st,m); std::tr1::shared_ptr<A> p=std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray(f)); symval_strlen=1; shared_vector<const T> v(symArr<T>(n)); bool ok=attempt(0,[&]{ p->replace(v); }); sv_check(ok==(fixed?n==m:n<=m),"an array value is accepted exactly when it is within the bound"); std::tr1::shared_ptr<A> c=std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVField(PVFieldPtr(p))); sv_check(eqa(c->view(),p->view()),"cloning keeps the value"); shared_vector<T> l(m+1); sv_check(!attempt(0,[&]{ c->replace(freeze(l)); }),"cloning keeps the bound"); }); }
