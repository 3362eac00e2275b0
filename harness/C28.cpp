//@title Locks, events, threads and reference counters behave as documented
//@bounds operation sequences of up to 4 (thorough 5) steps on one or two locks and one event, every result compared with a model; two threads with up to 2 (thorough 3) preemptions at arbitrary lock, wait, signal and thread operations; every way of describing a thread; up to 3 counters with arbitrary 64-bit values
//@bounds an operation on RefMonitor by two threads at once (stop while another starts) is outside; epicsMutex, epicsEvent and epicsThread are replaced by the scheduling environment
//@explain oracle: a second thread probes whether a mutex is really free; a boolean models an event; snapshot differences are computed in exact arithmetic; accesses in critical sections are checked for data races on every schedule
#include "h.h"
#include <pv/lock.h>
#include <pv/event.h>
#include <pv/thread.h>
#include <pv/reftrack.h>
#include <pv/standardField.h>
#include <epicsGuard.h>
#include <functional>
#include <sstream>
#include "env.h"
namespace {
struct Fn:public epicsThreadRunable{ std::function<void()> f; explicit Fn(std::function<void()> f):f(f){} void run(){ f(); } };
// is the mutex free for everybody else?
bool freeFor(Mutex&m){ bool r=false; Fn f([&]{ r=m.tryLock(); if(r)m.unlock(); }); epicsThread t(f,"probe",0,0); t.start(); t.exitWait(); return r; }
}
QUICK(lock_ops){ Mutex m; unsigned n=sv_tier?6:4; { Lock l(m); bool own=true; sv_check(l.ownsLock(),"a new lock is held"); for(unsigned i=0;i<n;i++){ switch(sv_pick(3,"op")){ case 0: l.lock(); own=true; break; case 1: l.unlock(); own=false; break; default: sv_check(l.tryLock(),"an uncontended tryLock succeeds"); own=true; } sv_check(l.ownsLock()==own,"ownsLock tells whether the lock is held"); sv_check(freeFor(m)==!own,"the mutex is held exactly while the lock is"); } } sv_check(freeFor(m),"the mutex is free when the lock is gone"); }
QUICK(lock_two){ Mutex m; unsigned n=sv_tier?4:3; { Lock a(m); { Lock b(m); Lock*l[2]={&a,&b}; bool own[2]={true,true}; for(unsigned i=0;i<n;i++){ unsigned w=sv_pick(2,"which"); switch(sv_pick(3,"op")){ case 0: l[w]->lock(); own[w]=true; break; case 1: l[w]->unlock(); own[w]=false; break; default: sv_check(l[w]->tryLock(),"the holding thread can lock again"); own[w]=true; } sv_check(a.ownsLock()==own[0]&&b.ownsLock()==own[1],"each lock keeps its own state"); sv_check(freeFor(m)==!(own[0]||own[1]),"the mutex is free only when every lock of the thread is released"); } if(own[0]==false)own[0]=false; } sv_check(freeFor(m)==!a.ownsLock(),"an inner lock leaves the outer one"); } sv_check(freeFor(m),"the mutex is free when the locks are gone"); }
QUICK(lock_throw){ Mutex m; bool un=sv_pick(2,"unlocked"); try{ Lock l(m); if(un)l.unlock(); throw std::runtime_error("x"); }catch(std::runtime_error&){ } sv_check(freeFor(m),"an exception releases the lock"); }
QUICK(exclusion){ Mutex m; int counter=0,in=0,got=0; env_preempt=sv_tier?4:3; unsigned how=sv_pick(2,"how"); auto body=[&](bool t){ for(int i=0;i<2;i++){ Lock x(m); if(t){ x.unlock(); env_yield(); if(!x.tryLock()){ sv_check(!x.ownsLock(),"a failed tryLock holds nothing"); x.lock(); } sv_check(x.ownsLock(),"held"); } { EnvQuiet q; sv_check(!in,"one thread at a time"); in=1; } int v=counter; env_yield(); counter=v+1; { EnvQuiet q; in=0; } } }; Fn f([&]{ body(how!=0); }); { Thread t(f,"t",0); body(false); } sv_check(counter==4,"no update is lost"); sv_check(freeFor(m),"the mutex is free"); }
QUICK(try_contended){ Mutex m; env_preempt=2; Event held,go; Fn f([&]{ Lock l(m); held.signal(); go.wait(); }); { Thread t(f,"t",0); held.wait(); { bool first=false; Fn g([&]{ }); first=m.tryLock(); sv_check(!first,"a held mutex cannot be locked"); } go.signal(); } { Lock l(m); l.unlock(); Event h2,g2; Fn g([&]{ Lock k(m); h2.signal(); g2.wait(); }); { Thread t(g,"t",0); h2.wait(); sv_check(!l.tryLock(),"tryLock fails while another thread holds the lock"); sv_check(!l.ownsLock(),"a failed tryLock holds nothing"); l.unlock(); sv_check(!m.tryLock(),"unlock of a lock that is not held does nothing"); g2.signal(); } sv_check(l.tryLock()&&l.ownsLock(),"tryLock succeeds when the lock was released"); } sv_check(freeFor(m),"the mutex is free"); }
QUICK(event_ops){ env_time_may_pass=false; bool full=sv_pick(2,"full"); unsigned n=sv_tier?6:4; Event def; sv_check(!def.tryWait(),"an event is empty unless told otherwise"); Event e(full); for(unsigned i=0;i<n;i++){ double t=sv_clock; switch(sv_pick(4,"op")){ case 0: e.signal(); full=true; break; case 1: sv_check(e.tryWait()==full,"tryWait reports a signal"); full=false; break; case 2: { double d=(double)sv_pick(3,"timeout"); sv_check(e.wait(d)==full,"a timed wait reports whether there was a signal"); sv_check(sv_clock==(full?t:t+d),"a timed wait waits for its timeout only"); full=false; break; } default: if(!full)break; sv_check(e.wait(),"wait returns after a signal"); full=false; } } sv_check(e.tryWait()==full,"a signal is kept until waited for"); sv_check(!e.tryWait(),"and consumed by it"); }
QUICK(event_threads){ env_time_may_pass=false; env_preempt=sv_tier?4:3; Event ping,pong; int a=0,b=0; unsigned rounds=2; unsigned how=sv_pick(3,"how"); Fn f([&]{ for(unsigned i=0;i<rounds;i++){ bool ok; if(how==0)ok=ping.wait(); else if(how==1)ok=ping.wait(50.0); else { while(!(ok=ping.tryWait())){ Event e; e.wait(1); } } sv_check(ok,"a signal wakes the waiter"); a++; sv_check(a==b,"everything before the signal is seen after the wait"); pong.signal(); } }); { Thread t(f,"t",0); for(unsigned i=0;i<rounds;i++){ b++; ping.signal(); sv_check(pong.wait(),"a signal wakes the waiter"); sv_check(a==b,"everything before the signal is seen after the wait"); } } sv_check(a==(int)rounds,"one wake-up per signal"); }
QUICK(event_one){ env_time_may_pass=false; env_preempt=2; Event e; int woken=0; auto w=[&]{ if(e.wait(10)){ EnvQuiet q; woken++; } }; Fn f(w),g(w); unsigned n=1+sv_pick(2,"signals"); { Thread a(f,"a",0),b(g,"b",0); Event nap; bool late=sv_pick(2,"late"); if(late)nap.wait(1); e.signal(); if(n==2){ nap.wait(1); e.signal(); } } sv_check(woken==(int)n,"one waiter is woken per signal"); }
QUICK(coalesce){ env_time_may_pass=false; Event e(sv_pick(2,"full")); unsigned n=1+sv_pick(3,"signals"); for(unsigned i=0;i<n;i++)e.signal(); sv_check(e.wait(1),"signalled"); sv_check(!e.wait(1),"signals do not add up"); }
// threads
namespace { struct Obj{ int n; void meth(){ n++; } }; void cfn(void*p){ ++*(int*)p; }
struct Probe{ int*live; Probe(int*l):live(l){ ++*live; } Probe(const Probe&o):live(o.live){ ++*live; } Probe(Probe&&o):live(o.live){ ++*live; } ~Probe(){ --*live; } };
struct RFn:public Runnable{ int*n; RFn(int*n):n(n){} void run(){ ++*n; } }; }
QUICK(thread_config){ size_t n0=epics::atomic::get(Thread::num_instances); int n=0,live=0; Obj o={0}; RFn r(&n); unsigned how=sv_pick(4,"runner"); bool direct=sv_pick(2,"ctor"); bool autos=sv_pick(2,"autostart"); env_preempt=sv_tier?2:1; unsigned prio=sv_pick(3,"prio"); static const unsigned prios[]={(unsigned)lowestPriority,(unsigned)middlePriority,(unsigned)highestPriority}; unsigned stk=sv_pick(4,"stack"); { std::function<void()> fun; { Probe p(&live); fun=[&n,p]{ n++; (void)p; }; }
  Thread::Config*c; if(!direct)c=new Thread::Config; else switch(how){ case 0: c=new Thread::Config(&r); break; case 1: c=new Thread::Config(&cfn,(void*)&n); break; case 2: c=new Thread::Config(&o,&Obj::meth); break; default: c=new Thread::Config(std::move(fun)); }
  if(!direct)switch(how){ case 0: c->run(&r); break; case 1: c->run(&cfn,(void*)&n); break; case 2: c->run(&o,&Obj::meth); break; default: c->run(std::move(fun)); }
  c->name("na").autostart(autos); if(prio)c->prio(prios[prio]); if(stk<3)c->stack((epicsThreadStackSizeClass)stk); (*c)<<"me"<<7; int id=env_threads(); bool started=autos||sv_pick(2,"start");
  { Thread t(*c); delete c; sv_check(epics::atomic::get(Thread::num_instances)==n0+1,"a thread is counted"); EnvThread e=env_thread(id); sv_check(!strcmp(e.name,"name7"),"the thread has the name asked for"); sv_check(e.prio==prios[prio],"the thread has the priority asked for"); sv_check(e.stack==epicsThreadGetStackSize(stk<3?(epicsThreadStackSizeClass)stk:epicsThreadStackBig),"the thread has the stack asked for"); sv_check(e.started==autos,"the thread starts by itself exactly when asked"); if(!autos){ env_yield(); sv_check(n==0&&o.n==0,"nothing runs before start"); if(started)t.start(); } }
  sv_check((how==2?o.n:n)==(started?1:0),"the destructor waits until the code ran, once"); sv_check((how==2?n:o.n)==0,"nothing else runs"); } sv_check(live==0,"the code to run is released"); sv_check(epics::atomic::get(Thread::num_instances)==n0,"threads are uncounted"); }
QUICK(thread_name){ int n=0; Thread::Config c(&cfn,(void*)&n); std::string want; unsigned k=sv_tier?4:3; for(unsigned i=0;i<k;i++)switch(sv_pick(4,"op")){ case 0: c.name("abc"); want="abc"; break; case 1: c<<"x"; want+="x"; break; case 2: c<<12; want+="12"; break; default: break; } int id=env_threads(); { Thread t(c); sv_check(want==env_thread(id).name,"name sets the name and << appends to it"); } sv_check(n==1,"it ran"); }
QUICK(thread_missing){ size_t n0=epics::atomic::get(Thread::num_instances); Thread::Config c; c.name("x"); bool thrown=false; try{ Thread t(c); }catch(std::logic_error&){ thrown=true; } sv_check(thrown,"a thread needs something to run"); sv_check(epics::atomic::get(Thread::num_instances)==n0,"nothing is counted"); int n=0; Thread::Config d(&cfn,(void*)&n); RFn r(&n); Obj o={0}; d.run(&o,&Obj::meth).run(&r); { Thread t(d); } sv_check(n==1&&o.n==0,"the last description counts"); }
QUICK(thread_join){ int n=0; env_preempt=sv_tier?3:2; Event e; Fn f([&]{ n++; e.wait(); n++; }); bool big=sv_pick(2,"ctor"); int id=env_threads(); { if(big){ Thread t("nm",higherPriority,&f,epicsThreadStackMedium); e.signal(); } else { Thread t(f,"nm",12345,lowPriority); e.signal(); } EnvThread v=env_thread(id); sv_check(v.done,"the destructor waits for the thread"); sv_check(!strcmp(v.name,"nm")&&v.prio==(unsigned)(big?higherPriority:lowPriority)&&v.stack==(big?epicsThreadGetStackSize(epicsThreadStackMedium):12345),"the thread is what was asked for"); } sv_check(n==2,"everything the thread did is seen after it is gone"); }
// reference counters
namespace { const char*nm_[3]={"zz.a","zz.b","zz.c"}; size_t cnt_[4]; }
QUICK(registry){ unsigned n=sv_tier?4:3; sv_make(cnt_,sizeof cnt_,"counts"); const size_t*reg[2]={0,0}; for(unsigned i=0;i<n;i++){ unsigned w=sv_pick(2,"name"),c=sv_pick(2,"counter"); switch(sv_pick(3,"op")){ case 0: epics::registerRefCounter(nm_[w],&cnt_[c]); reg[w]=&cnt_[c]; break; case 1: epics::unregisterRefCounter(nm_[w],&cnt_[c]); if(reg[w]==&cnt_[c])reg[w]=0; break; default: cnt_[c]=cnt_[c]+1; } } for(unsigned w=0;w<2;w++){ sv_check(epics::readRefCounter(nm_[w])==(reg[w]?*reg[w]:0),"a registered counter can be read, another reads 0"); } epics::RefSnapshot s; s.update(); for(unsigned w=0;w<2;w++){ bool has=false; for(epics::RefSnapshot::iterator it=s.begin();it!=s.end();++it)if(it->first==nm_[w])has=true; sv_check(has==(reg[w]!=0),"a snapshot has exactly the registered counters"); sv_check(s[nm_[w]].current==(reg[w]?*reg[w]:0)&&s[nm_[w]].delta==0,"a snapshot has their values"); } for(unsigned w=0;w<2;w++)if(reg[w])epics::unregisterRefCounter(nm_[w],reg[w]); epics::RefSnapshot t; t.update(); sv_check(t[nm_[0]]==epics::RefSnapshot::Count()&&t.size()+(reg[0]!=0)+(reg[1]!=0)==s.size(),"unregistered counters are gone"); }
QUICK(snapdiff){ epics::RefSnapshot s[2]; size_t v[2][3]; bool in[2][3]; for(unsigned k=0;k<2;k++){ sv_make(v[k],sizeof v[k],"counts"); for(unsigned i=0;i<3;i++){ in[k][i]=sv_pick(2,"registered"); cnt_[i]=v[k][i]; if(in[k][i])epics::registerRefCounter(nm_[i],&cnt_[i]); } s[k].update(); for(unsigned i=0;i<3;i++)if(in[k][i])epics::unregisterRefCounter(nm_[i],&cnt_[i]); } epics::RefSnapshot d=s[1]-s[0]; size_t extra=0; epics::RefSnapshot all; all.update(); extra=all.size(); size_t want=extra; for(unsigned i=0;i<3;i++){ size_t a=in[1][i]?v[1][i]:0,b=in[0][i]?v[0][i]:0; if(in[0][i]||in[1][i])want++; sv_check(d[nm_[i]].current==a,"a difference has the current count"); sv_check(d[nm_[i]].delta==(long)(a-b),"a difference has the change"); } sv_check(d.size()==want,"a difference has the counters of both"); for(unsigned i=0;i<3;i++)sv_check(s[1][nm_[i]].delta==0&&s[1][nm_[i]].current==(in[1][i]?v[1][i]:0),"the snapshots do not change"); epics::RefSnapshot c(d),e; e.swap(c); sv_check(e.size()==want&&c.size()==0,"swap exchanges snapshots"); }
QUICK(snapprint){ static const size_t vals[]={0,1,7}; epics::RefSnapshot s[2]; size_t v[2][2]; std::string want; for(unsigned i=0;i<2;i++){ v[0][i]=vals[sv_pick(3,"before")]; v[1][i]=vals[sv_pick(3,"after")]; } for(unsigned k=0;k<2;k++){ for(unsigned i=0;i<2;i++){ cnt_[i]=v[k][i]; epics::registerRefCounter(nm_[i],&cnt_[i]); } s[k].update(); } std::ostringstream o; o<<(s[1]-s[0]); for(unsigned i=0;i<2;i++)if(v[0][i]!=v[1][i]){ std::ostringstream l; l<<nm_[i]<<":\t"<<v[1][i]<<" (delta "<<(long)(v[1][i]-v[0][i])<<")\n"; want+=l.str(); } sv_check(o.str()==want,"exactly the counters that changed are printed"); char*p=epicsRefSnapshotCurrent(); sv_check(p!=0,"the current counters can be printed"); std::string txt(p); free(p); for(unsigned i=0;i<2;i++){ std::ostringstream l; l<<nm_[i]<<":\t"<<v[1][i]<<" "; sv_check((txt.find(l.str())!=std::string::npos)==(v[1][i]!=0),"the current snapshot has every counter that is not zero"); epics::unregisterRefCounter(nm_[i],&cnt_[i]); } }
namespace { struct Mon:public epics::RefMonitor{ int shows,full; long delta; size_t cur; bool over; Mon():shows(0),full(0),delta(0),cur(0),over(false){} ~Mon(){ stop(); } void show(const epics::RefSnapshot&s,bool complete){ EnvQuiet q; sv_check(!over||complete,"nothing is shown after stop"); if(complete)full++; else shows++; delta=s["zz.a"].delta; cur=s["zz.a"].current; } }; }
QUICK(monitor){ env_time_may_pass=false; cnt_[0]=5; epics::registerRefCounter(nm_[0],&cnt_[0]); { Mon m; sv_check(!m.running(),"a monitor starts stopped"); m.stop(); double p=(double)(1+sv_pick(3,"period")); unsigned twice=sv_pick(2,"twice"); for(unsigned r=0;r<1+sv_tier;r++){ int s0=m.shows; m.over=false; m.start(p); sv_check(m.running(),"a started monitor runs"); if(twice)m.start(1); Event nap; nap.wait(0.5); sv_check(m.shows==s0+1,"the counters are shown at once"); if(!r)sv_check(m.delta==5&&m.cur==5,"the first show has everything"); REFTRACE_INCREMENT(cnt_[0]); REFTRACE_INCREMENT(cnt_[0]); m.current(); sv_check(m.full==1+(int)r*1&&m.delta==2,"current shows the change since the last time"); nap.wait(p); sv_check(m.shows==s0+2,"then once per period"); sv_check(m.delta==2,"each show has the change since the one before"); nap.wait(p); sv_check(m.shows==s0+3&&m.delta==0,"each show has the change since the one before"); if(sv_pick(2,"stop")){ m.stop(); m.over=true; sv_check(!m.running(),"a stopped monitor does not run"); nap.wait(10); m.stop(); } else { m.stop(); break; } } } epics::unregisterRefCounter(nm_[0],&cnt_[0]); }
QUICK(monitor_stop){ env_time_may_pass=false; env_preempt=sv_tier?3:2; Mon m; m.start(1); Event nap; unsigned k=sv_pick(3,"wait"); if(k)nap.wait(k-1); m.stop(); { EnvQuiet q; m.over=true; } sv_check(!m.running(),"a stopped monitor does not run"); sv_check(m.shows<=(int)k+1,"shown once per period"); nap.wait(5); }
QUICK(registry_threads){ env_preempt=sv_tier?4:3; sv_make(cnt_,sizeof cnt_,"counts"); epics::readRefCounter("none"); Fn f([&]{ epics::registerRefCounter(nm_[0],&cnt_[0]); epics::RefSnapshot s; s.update(); sv_check(s[nm_[0]].current==cnt_[0],"own counter is seen"); epics::unregisterRefCounter(nm_[0],&cnt_[0]); }); { Thread t(f,"t",0); epics::registerRefCounter(nm_[1],&cnt_[1]); sv_check(epics::readRefCounter(nm_[1])==cnt_[1],"own counter is seen"); size_t v=epics::readRefCounter(nm_[0]); sv_check(v==cnt_[0]||v==0,"another's counter is there or not"); epics::unregisterRefCounter(nm_[1],&cnt_[1]); } sv_check(epics::readRefCounter(nm_[0])==0&&epics::readRefCounter(nm_[1])==0,"nothing is left"); }
QUICK(registry_once){ env_preempt=3; size_t c=3; Fn f([&]{ epics::registerRefCounter("zz.t",&c); }); { Thread t(f,"t",0); epics::RefSnapshot s; s.update(); } sv_check(epics::readRefCounter("zz.t")==3,"registered"); epics::unregisterRefCounter("zz.t",&c); }
// instances of library objects
QUICK(instances){ FieldCreatePtr fc=getFieldCreate(); PVDataCreatePtr pc=getPVDataCreate(); { PVStructurePtr warm=fc->createFieldBuilder()->add("a",pvInt)->createStructure()->build(); (void)warm; } size_t f0=epics::readRefCounter("Field"),p0=epics::readRefCounter("PVField"); sv_check(f0==epics::atomic::get(Field::num_instances)&&p0==epics::atomic::get(PVField::num_instances)&&epics::readRefCounter("Thread")==epics::atomic::get(Thread::num_instances),"the library registers its counters"); unsigned how=sv_pick(6,"how"); { FieldBuilderPtr b=fc->createFieldBuilder()->add("q",pvLong)->addArray("w",pvShort); if(how>=1)b=b->addBoundedString("bs",4)->addFixedArray("fa",pvInt,3); StructureConstPtr s=b->createStructure(); size_t f1=epics::readRefCounter("Field"); sv_check(f1>f0,"types are counted"); if(how==2){ PVStructurePtr p=s->build(); sv_check(epics::readRefCounter("PVField")==p0+5,"every value is counted once"); PVStructurePtr q=pc->createPVStructure(p); sv_check(epics::readRefCounter("PVField")==p0+10,"every value is counted once"); sv_check(epics::readRefCounter("Field")==f1,"values share their types"); } if(how==3){ StructureConstPtr s2=fc->createFieldBuilder()->add("q",pvLong)->addArray("w",pvShort)->addBoundedString("bs",4)->addFixedArray("fa",pvInt,3)->createStructure(); sv_check(*s2==*s,"equal types"); } if(how==4){ UnionConstPtr u=fc->createFieldBuilder()->add("m",pvInt)->add("s",s)->createUnion(); PVUnionPtr v=pc->createPVUnion(u); v->select("s"); v->select("m"); PVUnionPtr v2=pc->createPVUnion(v); v->select(-1); sv_check(epics::readRefCounter("PVField")==p0+3,"members that are not selected are gone"); } if(how==5){ PVStructureArrayPtr a=pc->createPVStructureArray(fc->createStructureArray(s)); a->append(2); PVStructureArray::svector w(a->reuse()); w[0]=s->build(); a->replace(freeze(w)); a->setLength(0); } } sv_check(epics::readRefCounter("PVField")==p0,"values are uncounted when they are gone"); sv_check(epics::readRefCounter("Field")==f0,"types are uncounted when they are gone"); }
