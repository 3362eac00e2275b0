//@title Property helpers write what they read and refuse wrong fields
//@bounds alarm, timeStamp, control, display and enum structures with other members around them: every stored and every new value of the numeric members (all 2^32 / 2^64 bit patterns), texts of 0..2 symbolic characters, 0..3 choices
//@bounds attach: every required member present, missing or of another type, fields that are no structures, nested in a parent with or without the members; every order of two attachments
//@bounds immutability: any single required member immutable
//@assume time stamps: stored seconds within +-2^60
//@explain oracle: the value handed in, field by field; all other members keep their values
#include "val.h"
#include <pv/alarm.h>
#include <pv/pvAlarm.h>
#include <pv/timeStamp.h>
#include <pv/pvTimeStamp.h>
#include <pv/control.h>
#include <pv/pvControl.h>
#include <pv/display.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
struct Kind{ unsigned n; const char*name[5]; unsigned type[5]; }; // type: ScalarType, +16: array of
static const Kind kinds[5]={{3,{"severity","status","message"},{pvInt,pvInt,pvString}},{3,{"secondsPastEpoch","nanoseconds","userTag"},{pvLong,pvInt,pvInt}},{3,{"limitLow","limitHigh","minStep"},{pvDouble,pvDouble,pvDouble}},{5,{"description","format","units","limitLow","limitHigh"},{pvString,pvString,pvString,pvDouble,pvDouble}},{2,{"index","choices"},{pvInt,pvString+16}}};
struct Helper{ unsigned k; PVAlarm a; PVTimeStamp t; PVControl c; PVDisplay d; PVEnumerated e; Helper(unsigned k):k(k){}
  bool attach(PVFieldPtr const&f){ switch(k){ case 0:return a.attach(f); case 1:return t.attach(f); case 2:return c.attach(f); case 3:return d.attach(f); default:return e.attach(f);} }
  void detach(){ switch(k){ case 0:a.detach();break; case 1:t.detach();break; case 2:c.detach();break; case 3:d.detach();break; default:e.detach();} }
  bool attached(){ switch(k){ case 0:return a.isAttached(); case 1:return t.isAttached(); case 2:return c.isAttached(); case 3:return d.isAttached(); default:return e.isAttached();} }
  void use(unsigned how){ switch(k){ case 0:{ Alarm x; if(how&1)a.get(x); else a.set(x); break; } case 1:{ TimeStamp x; if(how&1)t.get(x); else t.set(x); break; } case 2:{ Control x; if(how&1)c.get(x); else c.set(x); break; } case 3:{ Display x; if(how&1)d.get(x); else d.set(x); break; } default: switch(how){ case 0:e.setIndex(1);break; case 1:e.getIndex();break; case 2:e.getChoice();break; case 3:e.choicesMutable();break; case 4:e.getNumberChoices();break; default: e.setChoices(StringArray(1,"x")); } } } };
static bool refusesUse(Helper&h){ unsigned how=sv_pick(h.k==4?6:2,"use"); try{ h.use(how); }catch(std::logic_error&){ return true; } return false; }
// a structure with the members of kind k, as `how` says: 0 all there, 1+i member i missing, 1+n+i member i of another type
static PVStructurePtr make(unsigned k,unsigned how,bool inner=false){ const Kind&K=kinds[k]; FieldBuilderPtr b=FB()->add("before",pvInt); for(unsigned i=0;i<K.n;i++){ if(how==1+i)continue; if(how==1+K.n+i){ if(K.type[i]>=16)b->add(K.name[i],(ScalarType)(K.type[i]-16)); else switch(sv_pick(3,"wrong")){ case 0: b->addArray(K.name[i],(ScalarType)K.type[i]); break; case 1: b->add(K.name[i],K.type[i]==pvLong?pvInt:K.type[i]==pvString?pvInt:K.type[i]==pvInt?pvUInt:pvFloat); break; default: b->addNestedStructure(K.name[i])->add("x",(ScalarType)K.type[i])->endNested(); } } else if(K.type[i]>=16)b->addArray(K.name[i],(ScalarType)(K.type[i]-16)); else b->add(K.name[i],(ScalarType)K.type[i]); } b->add("after",pvString); if(inner)b->addNestedStructure("inner")->add("x",pvInt)->endNested(); return getPVDataCreate()->createPVStructure(b->createStructure()); }
static unsigned variants(unsigned k){ return 1+2*kinds[k].n; }
QUICK(attach){ unsigned k=sv_pick(5,"kind"),how=sv_pick(variants(k),"variant"); Helper h(k); sv_check(!h.attached(),"a new helper is detached"); PVStructurePtr s=make(k,how); bool ok=h.attach(s); sv_check(ok==(how==0),"a helper attaches exactly to a structure with the required members"); sv_check(h.attached()==ok,"a helper reports whether it is attached"); if(!ok)sv_check(refusesUse(h),"a detached helper refuses access"); else { sv_check(!refusesUse(h),"an attached helper gives access"); h.detach(); sv_check(!h.attached(),"a detached helper says so"); sv_check(refusesUse(h),"a detached helper refuses access"); } }
QUICK(attach_other){ unsigned k=sv_pick(5,"kind"); Helper h(k); PVFieldPtr f; switch(sv_pick(5,"field")){ case 0: f=getPVDataCreate()->createPVScalar(pvInt); break; case 1: f=getPVDataCreate()->createPVScalarArray(pvDouble); break; case 2: f=getPVDataCreate()->createPVUnion(FB()->add("severity",pvInt)->add("index",pvInt)->createUnion()); break; case 3: f=getPVDataCreate()->createPVStructureArray(getFieldCreate()->createStructureArray(make(k,0)->getStructure())); break; default: f=getPVDataCreate()->createPVVariantUnion(); }
  sv_check(!h.attach(f)&&!h.attached(),"a helper does not attach to something else than a structure"); sv_check(refusesUse(h),"a detached helper refuses access"); }
// attaching again: the helper works on the new field or is detached, the old one is left alone
QUICK(reattach){ unsigned k=sv_pick(5,"kind"); Helper h(k); PVStructurePtr s=make(k,0); sv_check(h.attach(s),"attached"); unsigned how=sv_pick(variants(k)+1,"second"); PVFieldPtr f=how==variants(k)?PVFieldPtr(getPVDataCreate()->createPVScalar(pvInt)):PVFieldPtr(make(k,how)); bool ok=h.attach(f); sv_check(ok==(how==0),"a helper attaches exactly to a structure with the required members"); sv_check(h.attached()==ok,"attaching again ends the earlier attachment"); Bytes b0,b1; wField(b0,*s,EPICS_ENDIAN_LITTLE); if(ok){ switch(k){ case 0:{ Alarm x; x.setMessage("m"); h.a.set(x); break; } case 1: h.t.set(TimeStamp(5,6,7)); break; case 2:{ Control x; x.setLow(1); h.c.set(x); break; } case 3:{ Display x; x.setUnits("u"); h.d.set(x); break; } default: h.e.setIndex(3); } } else sv_check(refusesUse(h),"a detached helper refuses access"); wField(b1,*s,EPICS_ENDIAN_LITTLE); sv_check(eqBytes(b0,b1),"the field attached before is left alone"); }
// a time stamp helper looks for its members in the structures around
QUICK(attach_parent){ bool p=sv_pick(2,"parent"),m=sv_pick(2,"middle"),in=sv_pick(2,"inner"); FieldBuilderPtr b=FB(); auto add=[](FieldBuilderPtr b,unsigned w){ if(w)b->add("secondsPastEpoch",pvLong); if(w==1)b->add("nanoseconds",pvInt)->add("userTag",pvInt); }; unsigned part=sv_pick(2,"partial")?2:0; add(b,p?1:part); b=b->addNestedStructure("s"); add(b,m?1:part); b=b->addNestedStructure("t"); add(b,in?1:part); b=b->add("v",pvInt)->endNested()->endNested(); PVStructurePtr top=getPVDataCreate()->createPVStructure(b->createStructure()); PVTimeStamp t; bool ok=t.attach(top->getSubFieldT("s.t")); sv_check(ok==(p||m||in)&&t.isAttached()==ok,"a time stamp attaches to the nearest structure around with the members"); if(!ok)return; t.set(TimeStamp(7,8,9)); std::string pre=in?"s.t.":m?"s.":""; sv_check(top->getSubFieldT<PVLong>(pre+"secondsPastEpoch")->get()==7&&top->getSubFieldT<PVInt>(pre+"nanoseconds")->get()==8&&top->getSubFieldT<PVInt>(pre+"userTag")->get()==9,"a time stamp attaches to the nearest structure around with the members"); }
struct Guard{ PVStructurePtr s; int32 b; std::string a; Guard(PVStructurePtr s):s(s),b(sv_any<int32>("before")),a("after"){ s->getSubFieldT<PVInt>("before")->put(b); s->getSubFieldT<PVString>("after")->put(a); } ~Guard(){} void check(){ sv_check((unsigned)(s->getSubFieldT<PVInt>("before")->get()==b)&eqv(s->getSubFieldT<PVString>("after")->get(),a),"other members are untouched"); } };
QUICK(alarm){ PVStructurePtr s=make(0,0); Guard g(s); Helper h(0); h.attach(s); int32 v0=sv_any<int32>("oldseverity"),t0=sv_any<int32>("oldstatus"); PVIntPtr pv=s->getSubFieldT<PVInt>("severity"),pt=s->getSubFieldT<PVInt>("status"); PVStringPtr pm=s->getSubFieldT<PVString>("message"); pv->put(v0); pt->put(t0); std::string m0=symString(sv_pick(2,"oldlen"),"oldmsg"); pm->put(m0);
  if(sv_pick(2,"read")){ Alarm a; bool t=false; try{ h.a.get(a); }catch(std::logic_error&){ t=true; } sv_check(t==!((unsigned)(v0>=0)&(unsigned)(v0<=4)&(unsigned)(t0>=0)&(unsigned)(t0<=7)),"a stored alarm is read exactly when it is in range"); if(!t)sv_check((unsigned)((int)a.getSeverity()==v0)&(unsigned)((int)a.getStatus()==t0)&eqv(a.getMessage(),m0),"the alarm read is the one stored"); sv_check((unsigned)(pv->get()==v0)&(unsigned)(pt->get()==t0)&eqv(pm->get(),m0),"reading changes nothing"); return; }
  int32 v=sv_any<int32>("severity"),t=sv_any<int32>("status"); sv_assume((unsigned)(v>=-1)&(unsigned)(v<=7)&(unsigned)(t>=-1)&(unsigned)(t<=15)); Alarm a; a.setSeverity((AlarmSeverity)v); a.setStatus((AlarmStatus)t); std::string m=symString(sv_pick(2,"len"),"msg"); a.setMessage(m); unsigned in=(unsigned)(v>=0)&(unsigned)(v<=4)&(unsigned)(t>=0)&(unsigned)(t<=7); bool th=false; try{ h.a.set(a); }catch(std::logic_error&){ th=true; } sv_check(th==!in,"an alarm out of range is refused, any other is stored"); if(th)sv_check((unsigned)(pv->get()==v0)&(unsigned)(pt->get()==t0)&eqv(pm->get(),m0),"a refused alarm changes nothing"); else { sv_check((unsigned)(pv->get()==v)&(unsigned)(pt->get()==t)&eqv(pm->get(),m),"the alarm stored is the one given"); Alarm b; h.a.get(b); sv_check((unsigned)((int)b.getSeverity()==v)&(unsigned)((int)b.getStatus()==t)&eqv(b.getMessage(),m),"the alarm read back is the one given"); } g.check(); }
QUICK(alarm_codes){ int v=sv_any<int32>("v"); bool t=false; int r=-1; if(sv_pick(2,"status")){ try{ r=AlarmStatusFunc::getStatus(v); }catch(std::logic_error&){ t=true; } sv_check(t==(v<0||v>7)&&(t||r==v),"status codes are 0..7"); StringArrayPtr n=AlarmStatusFunc::getStatusNames(); static const char*w[8]={"NONE","DEVICE","DRIVER","RECORD","DB","CONF","UNDEFINED","CLIENT"}; sv_check(n->size()==8,"every status has a name"); for(unsigned i=0;i<8;i++)sv_check((*n)[i]==w[i],"every status has its name"); } else { try{ r=AlarmSeverityFunc::getSeverity(v); }catch(std::logic_error&){ t=true; } sv_check(t==(v<0||v>4)&&(t||r==v),"severity codes are 0..4"); StringArrayPtr n=AlarmSeverityFunc::getSeverityNames(); static const char*w[5]={"NONE","MINOR","MAJOR","INVALID","UNDEFINED"}; sv_check(n->size()==5,"every severity has a name"); for(unsigned i=0;i<5;i++)sv_check((*n)[i]==w[i],"every severity has its name"); } }
QUICK(timestamp){ PVStructurePtr s=make(1,0); Guard g(s); Helper h(1); h.attach(s); PVLongPtr ps=s->getSubFieldT<PVLong>("secondsPastEpoch"); PVIntPtr pn=s->getSubFieldT<PVInt>("nanoseconds"),pu=s->getSubFieldT<PVInt>("userTag"); int64 B=(int64)1<<60; int64 s0=sv_range<int64>(-B,B,"oldsecs"); int32 n0=sv_any<int32>("oldnano"),u0=sv_any<int32>("oldtag"); ps->put(s0); pn->put(n0); pu->put(u0);
  if(sv_pick(2,"read")){ TimeStamp t; h.t.get(t); int64 d=t.getSecondsPastEpoch()-s0; int64 e=(int64)n0-t.getNanoseconds(); unsigned ok=0; for(int k=-3;k<=3;k++)ok|=(unsigned)(d==k)&(unsigned)(e==(int64)k*1000000000); sv_check(ok&(unsigned)(t.getUserTag()==u0)&(unsigned)(t.getNanoseconds()>=0)&(unsigned)(t.getNanoseconds()<1000000000),"the time stamp read is the instant stored"); return; }
  int64 s1=sv_range<int64>(-B,B,"secs"); int32 n1=sv_range<int32>(0,999999999,"nano"),u1=sv_any<int32>("tag"); TimeStamp t(s1,n1,u1); h.t.set(t); TimeStamp r; h.t.get(r); sv_check((unsigned)(r.getSecondsPastEpoch()==s1)&(unsigned)(r.getNanoseconds()==n1)&(unsigned)(r.getUserTag()==u1),"the time stamp read back is the one given"); g.check(); }
static unsigned deq(double a,double b){ return (unsigned)(a==b)|((unsigned)(a!=a)&(unsigned)(b!=b)); }
QUICK(control){ PVStructurePtr s=make(2,0); Guard g(s); Helper h(2); h.attach(s); double o[3],v[3]; for(int i=0;i<3;i++){ o[i]=sv_any<double>("old"); s->getSubFieldT<PVDouble>(kinds[2].name[i])->put(o[i]); v[i]=sv_any<double>("new"); } Control c; if(sv_pick(2,"read")){ h.c.get(c); sv_check(deq(c.getLow(),o[0])&deq(c.getHigh(),o[1])&deq(c.getMinStep(),o[2]),"the control limits read are those stored"); return; } c.setLow(v[0]); c.setHigh(v[1]); c.setMinStep(v[2]); h.c.set(c); for(int i=0;i<3;i++)sv_check(deq(s->getSubFieldT<PVDouble>(kinds[2].name[i])->get(),v[i]),"the control limits stored are those given"); Control d; h.c.get(d); sv_check(deq(d.getLow(),v[0])&deq(d.getHigh(),v[1])&deq(d.getMinStep(),v[2]),"the control limits read back are those given"); g.check(); }
QUICK(display){ PVStructurePtr s=make(3,0); Guard g(s); Helper h(3); h.attach(s); std::string o[3],w[3]; double p[2],q[2]; for(int i=0;i<3;i++){ o[i]=symString(1,"old"); s->getSubFieldT<PVString>(kinds[3].name[i])->put(o[i]); w[i]=symString(i==0?sv_pick(3,"len"):1,"new"); } for(int i=0;i<2;i++){ p[i]=sv_any<double>("oldlim"); s->getSubFieldT<PVDouble>(kinds[3].name[3+i])->put(p[i]); q[i]=sv_any<double>("newlim"); } Display d; if(sv_pick(2,"read")){ h.d.get(d); sv_check(eqv(d.getDescription(),o[0])&eqv(d.getFormat(),o[1])&eqv(d.getUnits(),o[2])&deq(d.getLow(),p[0])&deq(d.getHigh(),p[1]),"the display data read are those stored"); return; } d.setDescription(w[0]); d.setFormat(w[1]); d.setUnits(w[2]); d.setLow(q[0]); d.setHigh(q[1]); h.d.set(d); for(int i=0;i<3;i++)sv_check(eqv(s->getSubFieldT<PVString>(kinds[3].name[i])->get(),w[i]),"the display data stored are those given"); for(int i=0;i<2;i++)sv_check(deq(s->getSubFieldT<PVDouble>(kinds[3].name[3+i])->get(),q[i]),"the display data stored are those given"); Display e; h.d.get(e); sv_check(eqv(e.getDescription(),w[0])&eqv(e.getFormat(),w[1])&eqv(e.getUnits(),w[2])&deq(e.getLow(),q[0])&deq(e.getHigh(),q[1]),"the display data read back are those given"); g.check(); }
QUICK(enumerated){ PVStructurePtr s=make(4,0); Guard g(s); Helper h(4); h.attach(s); unsigned n=sv_pick(4,"choices"); StringArray c; for(unsigned i=0;i<n;i++)c.push_back(symString(1,"choice")); int32 i=sv_any<int32>("index"); sv_check(h.e.choicesMutable(),"mutable choices are reported mutable"); sv_check(h.e.setChoices(c)&&h.e.setIndex(i),"choices and index are stored"); sv_check((unsigned)(h.e.getIndex()==i)&(unsigned)(s->getSubFieldT<PVInt>("index")->get()==i),"the index read back is the one given"); sv_check(h.e.getNumberChoices()==(int32)n&&s->getSubFieldT<PVStringArray>("choices")->getLength()==n,"the choices read back are those given"); PVStringArray::const_svector v=h.e.getChoices(); for(unsigned k=0;k<n;k++)sv_check(eqv(v[k],c[k]),"the choices read back are those given"); std::string r=h.e.getChoice(); if(i>=0&&i<(int32)n)sv_check(eqv(r,c[sv_concrete(i)]),"the choice is the one the index selects"); else sv_check(r.empty(),"an index out of range selects the empty text"); g.check(); }
// a member that must not change
QUICK(immutable_member){ unsigned k=sv_pick(5,"kind"); PVStructurePtr s=make(k,0); Guard g(s); unsigned m=sv_pick(kinds[k].n,"member"); Helper h(k); h.attach(s); if(k==1){ s->getSubFieldT<PVLong>("secondsPastEpoch")->put(1); } s->getSubFieldT(kinds[k].name[m])->setImmutable(); Bytes b0,b1; wField(b0,*s,EPICS_ENDIAN_LITTLE); bool r=true;
  switch(k){ case 0:{ Alarm x; x.setSeverity(majorAlarm); x.setStatus(dbStatus); x.setMessage("m"); r=h.a.set(x); break; } case 1: r=h.t.set(TimeStamp(5,6,7)); break; case 2:{ Control x; x.setLow(1); x.setHigh(2); x.setMinStep(3); r=h.c.set(x); break; } case 3:{ Display x; x.setUnits("u"); x.setFormat("f"); x.setDescription("d"); x.setLow(1); x.setHigh(2); r=h.d.set(x); break; } default: r=m==0?h.e.setIndex(1):h.e.setChoices(StringArray(2,"a")); sv_check(h.e.choicesMutable()==(m==0),"immutable choices are reported immutable"); } wField(b1,*s,EPICS_ENDIAN_LITTLE); sv_check(!r,"storing into an immutable member is refused"); sv_check(eqBytes(b0,b1),"a refused store changes nothing"); g.check(); }
