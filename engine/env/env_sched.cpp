// Scheduling environment: threads are coroutines, every lock / wait / trigger may be a
// preemption point chosen by the solver-driven case split, the clock is virtual.
// Used both symbolically and in replays (a schedule is replayed exactly).
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <vector>
#include <string>
#include <ucontext.h>
#include <epicsMutex.h>
#include <epicsEvent.h>
#include <epicsThread.h>
#include <epicsTime.h>
#include "sv.h"
#include <cstdarg>
#include "env.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define FIB 1
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define FIB 1
#endif
#ifdef FIB
extern "C" void __sanitizer_start_switch_fiber(void**,const void*,size_t); extern "C" void __sanitizer_finish_switch_fiber(void*,const void**,size_t*);
#endif
namespace {
struct Ev; struct Mx; struct Th; struct Once{ void*id; Th*by; bool done; };
struct Th{ ucontext_t uc; void*stk; size_t sz; epicsThreadRunable*r; bool started,done; Mx*wm; Ev*we; bool timed; double deadline; bool timedout; Th*join; Once*wo; int id; void*fake; const char*nm; unsigned prio,stk_; };
struct Mx{ Th*own; int n; };
struct Ev{ bool full; };
std::vector<Th*>*th_=0; std::vector<Once*>*onced_=0;
#define th (*th_)
#define onced (*onced_)
Th*cur=0; Th main_; bool init=false; const void*mstk;size_t msz;
void ini(){ if(init)return; init=true; th_=new std::vector<Th*>; onced_=new std::vector<Once*>; memset((void*)&main_,0,sizeof main_); main_.started=true; th.push_back(&main_); cur=&main_; }
bool ready(Th*t){ if(!t->started||t->done)return false; if(t->wm)return t->wm->own==0; if(t->we){ if(t->we->full)return true; if(t->timed&&(sv_clock>=t->deadline||env_time_may_pass))return true; return false;} if(t->wo)return t->wo->done; if(t->join)return t->join->done||(t->timed&&(sv_clock>=t->deadline||env_time_may_pass)); return true; }
void swtch(Th*n){ if(n==cur)return; Th*o=cur; cur=n;
#ifdef FIB
  __sanitizer_start_switch_fiber(o->done?0:&o->fake,n==&main_?mstk:n->stk,n==&main_?msz:n->sz);
#endif
  int off=sv_race_off(); sv_race(1,n->id);
  swapcontext(&o->uc,&n->uc);
  sv_race(8,off);
#ifdef FIB
  const void*b;size_t s;__sanitizer_finish_switch_fiber(cur->fake,&b,&s);
#endif
}
void tramp(){
#ifdef FIB
  const void*b;size_t s;__sanitizer_finish_switch_fiber(0,&b,&s); if(!mstk){mstk=b;msz=s;}
#endif
  sv_race(8,1); Th*me=cur; epicsThreadRunable*r=me->r; sv_race(10,me->id); sv_race(8,0); r->run(); sv_race(8,1); sv_race(9,me->id); me->done=true; env_block(); }
}
double sv_clock=1000; bool env_time_may_pass=true; int env_preempt=0; bool env_deadlock_ok=false;
// choose who runs next; `must`: the current thread cannot continue
static void pick(bool must){ EnvQuiet q;
  ini(); std::vector<Th*> c; if(!must)c.push_back(cur); 
  for(Th*t:th)if(!(t==cur&&!must)&&ready(t))c.push_back(t);
  if(c.empty()&&!env_time_may_pass){ // time passes only when nobody can run: up to the earliest deadline
    Th*b=0; for(Th*t:th)if(t->started&&!t->done&&(t->we||t->join)&&t->timed&&(!b||t->deadline<b->deadline))b=t;
    if(b){ if(sv_clock<b->deadline)sv_clock=b->deadline; for(Th*t:th)if(ready(t))c.push_back(t); } }
  if(c.empty()){ if(env_deadlock_ok)sv_stop(); sv_fail("deadlock: no thread can run"); abort(); }
  unsigned k=0; if(c.size()>1){ if(must)k=sv_pick(c.size(),"sched"); else if(env_preempt>0){ k=sv_pick(c.size(),"preempt"); if(k)env_preempt--; } }
  swtch(c[k]);
}
void env_block(){ pick(true); }
void env_yield(){ EnvQuiet q; ini(); if(th.size()>1)pick(false); }
int env_thread_id(){ EnvQuiet q; ini(); return cur->id; }
int env_threads(){ EnvQuiet q; ini(); return (int)th.size(); }
EnvThread env_thread(int i){ EnvQuiet q; EnvThread t={th[i]->nm,th[i]->prio,th[i]->stk_,th[i]->started,th[i]->done}; return t; }
void env_run_others(){ ini(); env_yield(); }
// wake-up bookkeeping after being picked
static void waitEv2(Ev*e,bool timed,double to,bool&ok){
  ini(); env_yield();
  if(e->full){e->full=false;ok=true;return;}
  if(timed&&!(to>0)){ok=false;return;}
  cur->we=e;cur->timed=timed;cur->deadline=sv_clock+to; pick(true); cur->we=0;
  if(e->full){e->full=false;ok=true;} else { ok=false; if(sv_clock<cur->deadline)sv_clock=cur->deadline; }
}
static void waitEv(Ev*e,bool timed,double to,bool&ok){ EnvQuiet q; waitEv2(e,timed,to,ok); if(ok)sv_race(2,(uint64_t)e); }
static bool tryEv(Ev*e){ EnvQuiet q; env_yield(); bool r=e->full; e->full=false; if(r)sv_race(2,(uint64_t)e); return r; }
static void trig(Ev*e){ EnvQuiet q; sv_race(3,(uint64_t)e); e->full=true; env_yield(); }
epicsMutex::epicsMutex(const char*,int):id((epicsMutexParm*)new Mx{0,0}){}
#if !(!defined(__GNUC__) || __GNUC__<4 || (__GNUC__==4 && __GNUC_MINOR__<8))
#else
epicsMutex::epicsMutex():id((epicsMutexParm*)new Mx{0,0}){}
#endif
epicsMutex::~epicsMutex(){ delete (Mx*)id; }
void epicsMutex::lock(){ EnvQuiet q; ini(); Mx*m=(Mx*)id; if(m->own==cur){m->n++;return;} env_yield(); while(m->own){ cur->wm=m; pick(true); cur->wm=0; } m->own=cur; m->n=1; sv_race(2,(uint64_t)m); }
void epicsMutex::unlock(){ EnvQuiet q; ini(); Mx*m=(Mx*)id; if(m->own!=cur){ sv_fail("mutex unlocked by a thread that does not hold it"); abort(); } if(--m->n==0){ sv_race(3,(uint64_t)m); m->own=0; env_yield(); } }
bool epicsMutex::tryLock(){ EnvQuiet q; ini(); Mx*m=(Mx*)id; env_yield(); if(m->own&&m->own!=cur)return false; m->own=cur;m->n++; if(m->n==1)sv_race(2,(uint64_t)m); return true; }
void epicsMutex::show(unsigned)const{}
bool env_mutex_held(){ return false; }
epicsEvent::epicsEvent(epicsEventInitialState s):id((epicsEventId)new Ev{s==epicsEventFull}){}
epicsEvent::~epicsEvent(){ delete (Ev*)id; }
void epicsEvent::trigger(){ trig((Ev*)id); }
void epicsEvent::wait(){ bool ok; waitEv((Ev*)id,false,0,ok); }
bool epicsEvent::wait(double t){ bool ok; waitEv((Ev*)id,true,t,ok); return ok; }
bool epicsEvent::tryWait(){ return tryEv((Ev*)id); }
void epicsEvent::show(unsigned)const{}
extern "C" {
epicsEventId epicsEventCreate(epicsEventInitialState s){ return (epicsEventId)new Ev{s==epicsEventFull}; }
epicsEventId epicsEventMustCreate(epicsEventInitialState s){ return epicsEventCreate(s); }
void epicsEventDestroy(epicsEventId id){ delete (Ev*)id; }
epicsEventStatus epicsEventTrigger(epicsEventId id){ trig((Ev*)id); return epicsEventOK; }
void epicsEventMustTrigger(epicsEventId id){ epicsEventTrigger(id); }
epicsEventStatus epicsEventWait(epicsEventId id){ bool ok; waitEv((Ev*)id,false,0,ok); return epicsEventOK; }
void epicsEventMustWait(epicsEventId id){ epicsEventWait(id); }
epicsEventStatus epicsEventWaitWithTimeout(epicsEventId id,double t){ bool ok; waitEv((Ev*)id,true,t,ok); return ok?epicsEventOK:epicsEventWaitTimeout; }
epicsEventStatus epicsEventTryWait(epicsEventId id){ bool r=tryEv((Ev*)id); return r?epicsEventOK:epicsEventWaitTimeout; }
void epicsStdCall epicsThreadOnce(epicsThreadOnceId*id,void(*fn)(void*),void*arg){ bool mine=false; { EnvQuiet q; ini(); Once*o=0; for(Once*x:onced)if(x->id==(void*)id)o=x; if(!o){ o=new Once{(void*)id,cur,false}; onced.push_back(o); mine=true; } else if(!o->done&&o->by!=cur){ env_yield(); while(!o->done){ cur->wo=o; pick(true); cur->wo=0; } } }
  if(mine)fn(arg); EnvQuiet q; if(mine){ for(Once*x:onced)if(x->id==(void*)id)x->done=true; sv_race(3,(uint64_t)id); env_yield(); } else sv_race(2,(uint64_t)id); }
int epicsStdCall epicsTimeGetCurrent(epicsTimeStamp*p){ EnvQuiet q; p->secPastEpoch=(epicsUInt32)sv_clock; p->nsec=(epicsUInt32)((sv_clock-(double)p->secPastEpoch)*1e9); return 0; }
double epicsStdCall epicsTimeDiffInSeconds(const epicsTimeStamp*l,const epicsTimeStamp*r){ return (double)(epicsInt32)(l->secPastEpoch-r->secPastEpoch)+((double)l->nsec-(double)r->nsec)/1e9; }
int epicsStdCall epicsTimeLessThan(const epicsTimeStamp*l,const epicsTimeStamp*r){ return l->secPastEpoch<r->secPastEpoch||(l->secPastEpoch==r->secPastEpoch&&l->nsec<r->nsec); }
void epicsStdCall epicsTimeAddSeconds(epicsTimeStamp*p,double s){ double whole=(double)(long long)s; long long ns=(long long)p->nsec+(long long)((s-whole)*1e9+(s<0?-0.5:0.5)); long long sec=(long long)p->secPastEpoch+(long long)whole; while(ns<0){ns+=1000000000;sec--;} while(ns>=1000000000){ns-=1000000000;sec++;} p->secPastEpoch=(epicsUInt32)sec;p->nsec=(epicsUInt32)ns; }
int epicsStdCall epicsTimeToTime_t(time_t*d,const epicsTimeStamp*s){ *d=(time_t)s->secPastEpoch+631152000; return 0; }
int epicsStdCall epicsTimeFromTime_t(epicsTimeStamp*d,time_t s){ d->secPastEpoch=(epicsUInt32)(s-631152000);d->nsec=0; return 0; }
// stands for the text the real function gives: names the time stamp it was asked to print
size_t epicsStdCall epicsTimeToStrftime(char*b,size_t n,const char*,const epicsTimeStamp*t){ char x[17]; for(int i=0;i<8;i++){ x[i]=(char)('0'+((t->secPastEpoch>>(28-4*i))&15)); x[9+i]=(char)('0'+((t->nsec>>(28-4*i))&15)); } x[8]='.'; size_t k=0; for(;k<17&&k+1<n;k++)b[k]=x[k]; if(n)b[k]=0; return k; }
int epicsStdCall epicsTimeEqual(const epicsTimeStamp*l,const epicsTimeStamp*r){ return l->secPastEpoch==r->secPastEpoch&&l->nsec==r->nsec; }
int epicsStdCall epicsTimeNotEqual(const epicsTimeStamp*l,const epicsTimeStamp*r){ return !epicsTimeEqual(l,r); }
int epicsStdCall epicsTimeLessThanEqual(const epicsTimeStamp*l,const epicsTimeStamp*r){ return !epicsTimeLessThan(r,l); }
int epicsStdCall epicsTimeGreaterThan(const epicsTimeStamp*l,const epicsTimeStamp*r){ return epicsTimeLessThan(r,l); }
int epicsStdCall epicsTimeGreaterThanEqual(const epicsTimeStamp*l,const epicsTimeStamp*r){ return !epicsTimeLessThan(l,r); }
epicsInt64 epicsStdCall epicsTimeDiffInNS(const epicsTimeStamp*l,const epicsTimeStamp*r){ return ((epicsInt64)l->secPastEpoch-(epicsInt64)r->secPastEpoch)*1000000000+((epicsInt64)l->nsec-(epicsInt64)r->nsec); }
int epicsTimeGetMonotonic(epicsTimeStamp*p){ return epicsTimeGetCurrent(p); }
epicsUInt64 epicsMonotonicGet(void){ EnvQuiet q; return (epicsUInt64)(sv_clock*1e9); }
epicsUInt64 epicsMonotonicResolution(void){ return 1; }
int epicsStdCall epicsTimeToTimespec(struct timespec*d,const epicsTimeStamp*s){ d->tv_sec=(time_t)s->secPastEpoch+631152000; d->tv_nsec=s->nsec; return 0; }
int epicsStdCall epicsTimeFromTimespec(epicsTimeStamp*d,const struct timespec*s){ d->secPastEpoch=(epicsUInt32)(s->tv_sec-631152000); d->nsec=(epicsUInt32)s->tv_nsec; return 0; }
void epicsStdCall epicsThreadSleep(double s){ EnvQuiet q; sv_clock+=s; env_yield(); }
}
epicsTime::epicsTime(const epicsTimeStamp&t):ts(t){}
void epicsTime::throwError(int){}
epicsTime epicsTime::getCurrent(){ epicsTimeStamp t; epicsTimeGetCurrent(&t); return epicsTime(t); }
epicsThreadRunable::~epicsThreadRunable(){} 
void epicsThreadRunable::show(unsigned)const{} void epicsThreadRunable::run(){}
epicsThread::epicsThread(epicsThreadRunable&r,const char*name,unsigned stack,unsigned prio):runable(r),id((epicsThreadId)0){ EnvQuiet q; ini(); Th*t=new Th; memset((void*)t,0,sizeof *t); t->r=&r; t->id=th.size(); t->sz=1<<20; t->stk=aligned_alloc(4096,t->sz); t->prio=prio; t->stk_=stack; { size_t n=strlen(name); char*c=(char*)malloc(n+1); memcpy(c,name,n+1); t->nm=c; } getcontext(&t->uc); t->uc.uc_stack.ss_sp=t->stk;t->uc.uc_stack.ss_size=t->sz;t->uc.uc_link=0; makecontext(&t->uc,tramp,0); th.push_back(t); id=(epicsThreadId)t; }
epicsThread::~epicsThread() throw(){ exitWait(); }
void epicsThread::start() throw(){ EnvQuiet q; sv_race(0,0); Th*t=(Th*)id; if(t->started)return; t->started=true; sv_race(6,t->id); env_yield(); }
void epicsThread::exitWait() throw(){ EnvQuiet q; Th*t=(Th*)id; if(!t->started){return;} if(t==cur)return; cur->timed=false; while(!t->done){ cur->join=t; pick(true); cur->join=0; } sv_race(7,t->id); }

bool epicsThread::exitWait(const double delay) throw(){ EnvQuiet q; Th*t=(Th*)id; if(!t->started||t==cur)return true; env_yield(); if(!t->done){ cur->join=t; cur->timed=true; cur->deadline=sv_clock+delay; pick(true); cur->join=0; cur->timed=false; } if(!t->done){ if(sv_clock<cur->deadline)sv_clock=cur->deadline; return false; } sv_race(7,t->id); return true; }
epicsThreadId epicsThread::getId() const throw(){ return id; }
unsigned int epicsThread::getPriority() const throw(){ return ((Th*)id)->prio; }
void epicsThread::setPriority(unsigned int p) throw(){ ((Th*)id)->prio=p; }
bool epicsThread::isCurrentThread() const throw(){ EnvQuiet q; ini(); return (Th*)id==cur; }
bool epicsThread::operator==(const epicsThread&o) const throw(){ return id==o.id; }
void epicsThread::getName(char*n,size_t k) const throw(){ const char*s=((Th*)id)->nm; size_t i=0; for(;i+1<k&&s[i];i++)n[i]=s[i]; if(k)n[i]=0; }
void epicsThread::sleep(double s) throw(){ epicsThreadSleep(s); }
const char* epicsThread::getNameSelf() throw(){ return epicsThreadGetNameSelf(); }
namespace { struct Priv{ std::vector<void*>v; }; struct CRun:epicsThreadRunable{ EPICSTHREADFUNC f; void*a; void run(){ f(a); } }; }
extern "C" {
epicsThreadId epicsStdCall epicsThreadGetIdSelf(void){ EnvQuiet q; ini(); return (epicsThreadId)cur; }
const char* epicsStdCall epicsThreadGetNameSelf(void){ EnvQuiet q; ini(); return cur->nm?cur->nm:"_main_"; }
void epicsStdCall epicsThreadGetName(epicsThreadId id,char*n,size_t k){ const char*s=((Th*)id)->nm; if(!s)s="_main_"; size_t i=0; for(;i+1<k&&s[i];i++)n[i]=s[i]; if(k)n[i]=0; }
unsigned epicsStdCall epicsThreadGetPriority(epicsThreadId id){ return ((Th*)id)->prio; }
unsigned epicsStdCall epicsThreadGetPrioritySelf(void){ EnvQuiet q; ini(); return cur->prio; }
void epicsStdCall epicsThreadSetPriority(epicsThreadId id,unsigned p){ ((Th*)id)->prio=p; }
int epicsStdCall epicsThreadIsEqual(epicsThreadId a,epicsThreadId b){ return a==b; }
int epicsStdCall epicsThreadIsOkToBlock(void){ return 1; }
void epicsStdCall epicsThreadSetOkToBlock(int){}
double epicsStdCall epicsThreadSleepQuantum(void){ return 0.01; }
int epicsThreadGetCPUs(void){ return 2; }
epicsThreadPrivateId epicsStdCall epicsThreadPrivateCreate(void){ EnvQuiet q; return (epicsThreadPrivateId)new Priv; }
void epicsStdCall epicsThreadPrivateDelete(epicsThreadPrivateId id){ EnvQuiet q; delete (Priv*)id; }
void epicsStdCall epicsThreadPrivateSet(epicsThreadPrivateId id,void*p){ EnvQuiet q; ini(); Priv*v=(Priv*)id; if(v->v.size()<=(size_t)cur->id)v->v.resize(cur->id+1); v->v[cur->id]=p; }
void* epicsStdCall epicsThreadPrivateGet(epicsThreadPrivateId id){ EnvQuiet q; ini(); Priv*v=(Priv*)id; return v->v.size()<=(size_t)cur->id?0:v->v[cur->id]; }
epicsThreadId epicsStdCall epicsThreadCreate(const char*name,unsigned prio,unsigned stack,EPICSTHREADFUNC fn,void*arg){ EnvQuiet q; CRun*r=new CRun; r->f=fn; r->a=arg; epicsThread*t=new epicsThread(*r,name,stack,prio); t->start(); return t->getId(); }
epicsThreadId epicsStdCall epicsThreadMustCreate(const char*name,unsigned prio,unsigned stack,EPICSTHREADFUNC fn,void*arg){ return epicsThreadCreate(name,prio,stack,fn,arg); }
epicsThreadId epicsThreadCreateOpt(const char*name,EPICSTHREADFUNC fn,void*arg,const epicsThreadOpts*o){ return epicsThreadCreate(name,o?o->priority:50,o?o->stackSize:0,fn,arg); }
void epicsThreadMustJoin(epicsThreadId id){ EnvQuiet q; Th*t=(Th*)id; if(!t||t==cur)return; cur->timed=false; while(!t->done){ cur->join=t; pick(true); cur->join=0; } sv_race(7,t->id); }
epicsMutexId epicsStdCall epicsMutexOsiCreate(const char*,int){ EnvQuiet q; return (epicsMutexId)new epicsMutex; }
epicsMutexId epicsStdCall epicsMutexOsiMustCreate(const char*f,int l){ return epicsMutexOsiCreate(f,l); }
void epicsStdCall epicsMutexDestroy(epicsMutexId id){ EnvQuiet q; delete (epicsMutex*)id; }
epicsMutexLockStatus epicsStdCall epicsMutexLock(epicsMutexId id){ ((epicsMutex*)id)->lock(); return epicsMutexLockOK; }
epicsMutexLockStatus epicsStdCall epicsMutexTryLock(epicsMutexId id){ return ((epicsMutex*)id)->tryLock()?epicsMutexLockOK:epicsMutexLockTimeout; }
void epicsStdCall epicsMutexUnlock(epicsMutexId id){ ((epicsMutex*)id)->unlock(); }
void epicsStdCall epicsMutexShow(epicsMutexId,unsigned){}
// unit test reports are recorded
std::vector<EnvTest>*env_tests_=0; static void rep(int kind,const char*f,va_list a){ EnvQuiet q; if(!env_tests_)env_tests_=new std::vector<EnvTest>; EnvTest t; t.kind=kind; t.text=!strcmp(f,"%s")?va_arg(a,const char*):f; env_tests_->push_back(t); }
int testOk(int p,const char*f,...){ va_list a; va_start(a,f); rep(p?1:0,f,a); va_end(a); return p; }
int testOkV(int p,const char*f,va_list a){ rep(p?1:0,f,a); return p; }
void testPass(const char*f,...){ va_list a; va_start(a,f); rep(1,f,a); va_end(a); }
void testFail(const char*f,...){ va_list a; va_start(a,f); rep(0,f,a); va_end(a); }
int testDiag(const char*f,...){ va_list a; va_start(a,f); rep(2,f,a); va_end(a); return 0; }
void testAbort(const char*f,...){ va_list a; va_start(a,f); rep(3,f,a); va_end(a); abort(); }
void epicsEventShow(epicsEventId,unsigned){}
}
