//@title Test helpers and exceptions report what happened
//@bounds numbers: all values of all element types; texts of up to 2 arbitrary characters; arrays of up to 2 elements; structures with the field, with another type, without it, inside a union, and no structure at all
//@bounds exceptions: messages of up to 3 characters out of a, newline, percent sign and byte 255; all standard exception types used by the library
//@explain oracle: a recording stand-in for the test reporting of EPICS Base
#include "zoo.h"
#include <sstream>
#include <epicsUnitTest.h>
#include <testMain.h>
#include <pv/pvUnitTest.h>
#include <pv/epicsException.h>
#include "env.h"
static int streams_=(sv_streams(1),0);
static void one(bool pass,const char*l){ std::vector<EnvTest>&t=env_tests(); sv_check(t.size()==1&&(t[0].kind==0||t[0].kind==1),"one result is reported"); if(t.size()!=1)return; sv_check(t[0].kind==(pass?1:0),l); }
static const char*L="a test passes exactly when its condition holds";
template<class T> static bool eqT(const T&a,const T&b){ return a==b; }
QUICK(equal){ unsigned k=sv_pick(4,"type"); bool ne=sv_pick(2,"not"); env_tests().clear(); bool e=false; if(k==0){ int8 a=(int8)sv_any<signed char>("a"),b=(int8)sv_any<signed char>("b"); e=a==b; if(ne)testNotEqual(a,b); else testEqual(a,b); } else if(k==1){ static const double D[3]={0,1.5,-1}; double a=D[sv_pick(3,"a")],b=D[sv_pick(3,"b")]; e=a==b; if(ne)testNotEqual(a,b)<<" note"; else testEqual(a,b)<<" note"; } else if(k==2){ std::string a=symString(sv_pick(3,"len")),b=symString(sv_pick(3,"len2")); e=eqv(a,b); if(ne)testNotEqual(a,b); else testEqual(a,b); } else { shared_vector<const uint8> a=symArr<uint8>(sv_pick(2,"n")),b=symArr<uint8>(sv_pick(2,"m")); e=eqa(a,b); if(ne)testNotEqual(a,b); else testEqual(a,b); }
  std::vector<EnvTest>&t=env_tests(); unsigned res=0; bool pass=false; for(size_t i=0;i<t.size();i++)if(t[i].kind<2){ res++; pass=t[i].kind==1; } sv_check(res==1,"one result is reported"); sv_check(pass==(ne?!e:e),L); }
QUICK(truth){ bool b=sv_any<bool>("b"); env_tests().clear(); testTrue(b)<<" why"; one(b,L); sv_check(env_tests()[0].text=="b why","the condition and the note are reported"); env_tests().clear(); testShow()<<"text"; sv_check(env_tests().size()==1&&env_tests()[0].kind==2&&env_tests()[0].text=="text","a note reports no result"); }
QUICK(lines){ unsigned n=sv_pick(4,"lines"); bool b=sv_pick(2,"pass"),show=sv_pick(2,"show"); std::string m="first"; for(unsigned i=0;i<n;i++){ m+="\nmore"; m+=(char)('0'+i); } env_tests().clear(); if(show)testShow()<<m; else { ::detail::testPassx p(b); p<<m; } std::vector<EnvTest>&t=env_tests(); sv_check(t.size()==n+1,"every line is reported"); if(t.size()!=n+1)return; sv_check(t[0].kind==(show?2:b?1:0)&&t[0].text=="first","the first line carries the result"); for(unsigned i=0;i<n;i++)sv_check(t[i+1].kind==2&&t[i+1].text==std::string("more")+(char)('0'+i),"the other lines are notes"); }
QUICK(field_scalar){ unsigned k=sv_pick(5,"field"); PVStructurePtr p; PVDataCreatePtr dc=getPVDataCreate(); int32 v=sv_range<int32>(-2,2,"v"),w=(int32)sv_pick(5,"w")-2; v=(int32)sv_concrete((unsigned)(v+2))-2; bool here=false; switch(k){ case 0: break; case 1: p=dc->createPVStructure(FB()->addNestedStructure("a")->add("x",pvInt)->endNested()->createStructure()); p->getSubFieldT<PVInt>("a.x")->put(v); here=true; break; case 2: p=dc->createPVStructure(FB()->addNestedStructure("a")->add("x",pvUInt)->endNested()->createStructure()); break; case 3: p=dc->createPVStructure(FB()->add("a",pvInt)->createStructure()); break; default: p=dc->createPVStructure(FB()->addNestedStructure("a")->addNestedUnion("x")->add("i",pvInt)->add("s",pvString)->endNested()->endNested()->createStructure()); if(sv_pick(2,"selected")){ p->getSubFieldT<PVUnion>("a.x")->select<PVInt>("i")->put(v); here=true; } else if(sv_pick(2,"other"))p->getSubFieldT<PVUnion>("a.x")->select("s"); }
  env_tests().clear(); testFieldEqual<PVInt>(p,"a.x",w); one(here&&v==w,L); }
QUICK(field_text){ std::string a=symString(sv_pick(2,"len")),b=symString(sv_pick(2,"len2")); sv_assume(a.empty()||a[0]!='\n'); sv_assume(b.empty()||b[0]!='\n'); PVStructurePtr p=getPVDataCreate()->createPVStructure(FB()->add("s",pvString)->createStructure()); p->getSubFieldT<PVString>("s")->put(a); env_tests().clear(); testFieldEqual<PVString>(p,"s",b); one(eqv(a,b),L); }
QUICK(field_array){ unsigned k=sv_pick(3,"field"); PVStructurePtr p; shared_vector<const uint8> a=symArr<uint8>(sv_pick(3,"n")),b=symArr<uint8>(sv_pick(3,"m")); if(k){ p=getPVDataCreate()->createPVStructure(FB()->addArray("s",k==1?pvUByte:pvByte)->createStructure()); if(k==1)p->getSubFieldT<PVUByteArray>("s")->replace(a); } env_tests().clear(); testFieldEqual<PVUByteArray>(p,"s",b); one(k==1&&eqa(a,b),L); }
QUICK(throws){ unsigned k=sv_pick(3,"what"); bool outer=false; env_tests().clear(); try{ testThrows(std::runtime_error,if(k==1)throw std::runtime_error("x"); if(k==2)throw std::logic_error("y")); }catch(std::logic_error&){ outer=true; } if(k==2)sv_check(outer&&env_tests().empty(),"another exception is not swallowed"); else one(k==1,"an expected exception passes, its absence fails"); }
struct TM{ static int made,gone; int n; TM():n(0){ made++; } ~TM(){ gone++; } void a(){ n++; testTrue(n==1); } }; int TM::made=0; int TM::gone=0;
QUICK(method){ env_tests().clear(); TEST_METHOD(TM,a) ; TEST_METHOD(TM,a); sv_check(TM::made==2&&TM::gone==2,"every method test has its own object"); unsigned ok=0; for(size_t i=0;i<env_tests().size();i++)ok+=env_tests()[i].kind==1; sv_check(ok==2,"every method is run once"); }
template<class E> static void exc(const std::string&m,unsigned how){ int line=0; std::string text,show; bool caught=false; try{ try{ if(how==0){ line=__LINE__; THROW_EXCEPTION2(E,m); } else { line=__LINE__; THROW_EXCEPTION(E(m)); } }catch(E&e){ caught=true; text=e.what(); show=SHOW_EXCEPTION(e); } }catch(...){} sv_check(caught,"an exception is caught as what it is"); if(!caught)return; std::string c(m.c_str()); sv_check(text.size()>=c.size()&&eqv(text.substr(0,c.size()),c),"an exception tells its message"); if(!std::is_same<E,BaseException>::value)sv_check(text.size()==c.size(),"an exception tells its message"); std::ostringstream w; w<<"On line "<<line<<" of "<<__FILE__<<"\n"; sv_check(show.compare(0,w.str().size(),w.str())==0,"an exception knows where it was thrown"); if(std::is_same<E,BaseException>::value)sv_check(text.size()>c.size()&&text[c.size()]=='\n'&&text.compare(c.size()+1,w.str().size(),w.str())==0,"a pvData exception tells where it was thrown"); }
static std::string msg(unsigned most){ static const char C[4]={'a','\n','%',(char)0xff}; std::string m; for(unsigned n=sv_pick(most+1,"len");n;n--)m+=C[sv_pick(4,"char")]; return m; }
QUICK(exceptions){ std::string m=msg(2); unsigned how=sv_pick(2,"how"); switch(sv_pick(4,"type")){ case 0: exc<std::logic_error>(m,how); break; case 1: exc<std::runtime_error>(m,how); break; case 2: exc<std::invalid_argument>(m,how); break; default: exc<BaseException>(m,how); } }
QUICK(plain_exception){ std::string m=msg(3); BaseException e(m); std::string c(m.c_str()); std::string t=e.what(),t2=e.what(); sv_check(t.size()>=c.size()&&eqv(t.substr(0,c.size()),c)&&eqv(t,t2),"an exception tells its message, every time"); std::runtime_error r("x"); sv_check(SHOW_EXCEPTION(r).empty(),"an exception thrown without its origin has none"); }
