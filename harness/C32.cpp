//@title Types and the library's shared objects can be used from any thread
//@bounds two threads beside main with up to 2 (thorough 3) preemptions at arbitrary lock and thread operations; every kind of type, created through the factory, the builder or received; every singleton of the library
//@bounds concurrent use of one value by two threads is outside (values are protected by their user); release of a type is observed at its lock operations
//@explain oracle: types made by two threads are equal and, while one lives, the same object; type counters return to their old values; all accesses of library state are checked for data races on every schedule
#include "h.h"
#include <pv/thread.h>
#include <pv/event.h>
#include <pv/lock.h>
#include <pv/reftrack.h>
#include <pv/convert.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
#include <pv/alarm.h>
#include <pv/timeStamp.h>
#include <pv/createRequest.h>
#include <functional>
#include <sstream>
#include "env.h"
namespace {
struct Fn:public epicsThreadRunable{ std::function<void()> f; explicit Fn(std::function<void()> f):f(f){} void run(){ f(); } };
const unsigned NKIND=9;
FieldConstPtr mk(unsigned k){ FieldCreatePtr c(getFieldCreate()); switch(k){
  case 0: return c->createBoundedString(7);
  case 1: return c->createBoundedScalarArray(pvInt,3);
  case 2: return c->createFixedScalarArray(pvDouble,3);
  case 3: return c->createFieldBuilder()->add("a",pvInt)->addArray("b",pvString)->createStructure();
  case 4: return c->createFieldBuilder()->setId("u")->add("a",pvInt)->add("b",pvByte)->createUnion();
  case 5: return c->createFieldBuilder()->addNestedStructure("n")->add("a",pvInt)->endNested()->add("z",pvInt)->createStructure();
  case 6: return c->createStructureArray(c->createFieldBuilder()->add("s",pvShort)->createStructure());
  case 7: return c->createUnionArray(c->createFieldBuilder()->add("s",pvShort)->createUnion());
  default: { static const uint8_t w[]={0x80,2,'i','d',1,1,'x',0x83,9}; Bytes b(w,w+sizeof w); In in(b); return c->deserialize(&in.buf,&in); } } }
std::string text(const FieldConstPtr&f){ std::ostringstream s; s<<*f; return s.str(); }
}
QUICK(create){ unsigned k=sv_pick(NKIND,"kind"); env_preempt=sv_tier?3:2; size_t n0=epics::atomic::get(Field::num_instances); { FieldConstPtr a,b; Fn f([&]{ a=mk(k); }); { Thread t(f,"t",0); b=mk(k); } sv_check(a==b,"equal types that live at the same time are one object"); sv_check(text(a)==text(b),"equal types read the same"); FieldConstPtr c(mk(k)); sv_check(c==a,"equal types that live at the same time are one object"); } sv_check(epics::atomic::get(Field::num_instances)==n0,"types go when nobody uses them"); { FieldConstPtr c(mk(k)); sv_check(c.use_count()>=1,"and can be made again"); } sv_check(epics::atomic::get(Field::num_instances)==n0,"types go when nobody uses them"); }
QUICK(release){ unsigned k=sv_pick(NKIND,"kind"); env_preempt=sv_tier?3:2; size_t n0=epics::atomic::get(Field::num_instances); FieldConstPtr a(mk(k)); std::string want=text(a); FieldConstPtr b; Fn f([&]{ b=mk(k); }); { Thread t(f,"t",0); a.reset(); } sv_check(text(b)==want,"a type made while another thread releases an equal one is sound"); FieldConstPtr c(mk(k)); sv_check(c==b,"and is shared"); b.reset(); c.reset(); sv_check(epics::atomic::get(Field::num_instances)==n0,"types go when nobody uses them"); FieldConstPtr d(mk(k)); sv_check(text(d)==want,"and can be made again"); }
QUICK(release_both){ unsigned k=sv_pick(NKIND,"kind"); env_preempt=sv_tier?3:2; size_t n0=epics::atomic::get(Field::num_instances); bool keep=sv_pick(2,"keep"); FieldConstPtr h; if(keep)h=mk(k); auto body=[&]{ FieldConstPtr x(mk(k)); if(keep)sv_check(x==h,"a type in use is shared"); x.reset(); }; Fn f(body); { Thread t(f,"t",0); body(); } h.reset(); sv_check(epics::atomic::get(Field::num_instances)==n0,"types go when nobody uses them"); }
QUICK(nested_release){ env_preempt=sv_tier?3:2; size_t n0=epics::atomic::get(Field::num_instances); FieldCreatePtr c(getFieldCreate()); StructureConstPtr in(c->createFieldBuilder()->add("s",pvShort)->createStructure()); StructureConstPtr out(c->createFieldBuilder()->add("in",in)->addBoundedString("q",3)->createStructure()); in.reset(); StructureConstPtr got; FieldConstPtr q; Fn f([&]{ got=c->createFieldBuilder()->add("s",pvShort)->createStructure(); q=c->createBoundedString(3); }); bool both=sv_pick(2,"use"); { Thread t(f,"t",0); if(both){ FieldConstPtr x(out->getField("in")); out.reset(); sv_check(text(x)==text(x),"a member outlives its structure"); } else out.reset(); } sv_check(got->getNumberFields()==1&&got->getFieldName(0)=="s","a member type is sound when its structure goes"); got.reset(); q.reset(); sv_check(epics::atomic::get(Field::num_instances)==n0,"types go when nobody uses them"); }
// types in use by two threads
QUICK(use){ env_preempt=2; unsigned k=3+sv_pick(3,"kind"); FieldConstPtr f(mk(k)),g(mk(k==5?3:5)); unsigned what=sv_pick(4,"use"); std::string ref=text(f); Out oref; f->serialize(&oref.buf,&oref); Bytes want=oref.done(); auto body=[&]{ switch(what){ case 0: sv_check(text(f)==ref,"a type reads the same in every thread"); break; case 1: { Out o; f->serialize(&o.buf,&o); sv_check(o.done()==want,"a type is sent the same by every thread"); break; } case 2: { sv_check(*f==*f&&*f!=*g,"types compare the same in every thread"); FieldConstPtr h(f); env_yield(); break; } default: { PVFieldPtr v(f->build()); sv_check(v->getField()==f,"values of a type can be made in every thread"); env_yield(); PVFieldPtr w(getPVDataCreate()->createPVField(f)); sv_check(*v==*w,"values of a type can be made in every thread"); } } }; Fn r(body); { Thread t(r,"t",0); body(); } }
// first use of the library by two threads
QUICK(first_use){ env_preempt=sv_tier?3:2; unsigned k=sv_pick(8,"which"); const void*p[2]={0,0}; auto body=[&](int i){ const void*r=0; switch(k){ case 0: r=getConvert().get(); break; case 1: r=getStandardField().get(); sv_check(getStandardField()->alarm()->getNumberFields()==3,"usable"); break; case 2: r=getStandardPVField().get(); break; case 3: { StringArrayPtr s(AlarmSeverityFunc::getSeverityNames()); r=s.get(); sv_check(s->size()==5&&(*s)[4]=="UNDEFINED","the names are complete"); break; } case 4: { StringArrayPtr s(AlarmStatusFunc::getStatusNames()); r=s.get(); sv_check(s->size()==8&&(*s)[7]=="CLIENT","the names are complete"); break; } case 5: r=getFieldCreate().get(); break; case 6: r=getPVDataCreate().get(); break; default: { PVStructurePtr q(CreateRequest::create()->createRequest("field(a)")); sv_check((bool)q,"a request can be made in every thread"); q.reset(); PVStructurePtr d(getStandardPVField()->scalar(pvInt,"alarm,timeStamp")); sv_check((bool)d->getSubField("alarm.severity"),"a standard value can be made in every thread"); r=&k; } } p[i]=r; }; Fn f([&]{ body(0); }); { Thread t(f,"t",0); body(1); } sv_check(p[0]&&p[0]==p[1],"every thread gets the same object"); }
// distinct values of one type in two threads
QUICK(values){ env_preempt=sv_tier?3:2; FieldConstPtr f(mk(5)); StructureConstPtr s(std::tr1::static_pointer_cast<const Structure>(f)); unsigned how=sv_pick(3,"how"); auto body=[&](int v){ PVStructurePtr p(getPVDataCreate()->createPVStructure(s)); p->getSubFieldT<PVInt>("n.a")->put(v); env_yield(); PVStructurePtr q; if(how==0)q=getPVDataCreate()->createPVStructure(p); else if(how==1){ Out o; p->serialize(&o.buf,&o); Bytes b=o.done(); In in(b); q=getPVDataCreate()->createPVStructure(s); q->deserialize(&in.buf,&in); } else { q=getPVDataCreate()->createPVStructure(s); q->copy(*p); std::ostringstream o; o<<*q; getConvert()->fromString(q->getSubFieldT<PVInt>("z"),"5"); } env_yield(); sv_check(q->getSubFieldT<PVInt>("n.a")->get()==v,"values of one type do not share content"); }; int32 x=sv_any<int32>("x"),y=sv_any<int32>("y"); if(how==2){ x=3; y=4; } Fn r([&]{ body(x); }); { Thread t(r,"t",0); body(y); } }
