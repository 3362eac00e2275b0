//@title Timer callbacks run when due, once per schedule, never after cancel
//@bounds up to 3 callbacks, up to 3 operations of a client thread beside the main thread and the timer thread, delays and periods of whole seconds 0..3 (also negative), up to 3 periods, up to 2 (thorough 3) preemptions at arbitrary lock, wait, signal and thread operations
//@bounds virtual clock: either time passes only when nobody can run (exact due times are checked) or a timed wait may end at its deadline at any moment (accounting is checked); callbacks do not throw and do not destroy their timer
//@bounds listing of 0..3 callbacks with 3 delays and 2 periods, after one was cancelled or not
//@explain oracle: every schedule of a single callback ends in exactly one of call, successful cancel, stop notification; calls are never early and, while time waits for the threads, never late; calls are in due order
#include "h.h"
#include <pv/timer.h>
#include <pv/thread.h>
#include <functional>
#include <vector>
#include "env.h"
#include <sstream>
namespace {
struct CB; std::vector<CB*> order_; // calls in order
struct CB:public TimerCallback{ int calls,stops,pend,running; double due,period; bool exact,over; std::function<void(CB&)> act;
  CB():calls(0),stops(0),pend(0),running(0),due(0),period(0),exact(false),over(false){}
  void callback(){ EnvQuiet q; sv_check(!over,"nothing is called after close returned"); sv_check(!running,"a callback is not called while it runs"); sv_check(sv_clock>=due,"a callback is not called before it is due"); if(exact)sv_check(sv_clock==due,"a callback is called when it is due"); running++; calls++; if(period>0)due+=period; else pend--; order_.push_back(this); if(act){ sv_race(5,0); act(*this); sv_race(4,0); } running--; }
  void timerStopped(){ EnvQuiet q; sv_check(!over||pend>0,"no notification for a callback that is not pending"); stops++; pend--; } };
typedef std::tr1::shared_ptr<CB> P;
void go(Timer&t,const P&c,double delay,double period=0){ c->due=sv_clock+delay; c->period=period; c->pend++; if(period>0)t.schedulePeriodic(c,delay,period); else t.scheduleAfterDelay(c,delay); }
struct Wait{ Event e; int n; Wait(int n):n(n){} void one(){ if(--n==0)e.signal(); } };
struct Client:public epicsThreadRunable{ std::function<void()> f; Event done; void run(){ f(); done.signal(); } };
}
// callbacks with arbitrary delays run at their time, in order, once
QUICK(order){ env_time_may_pass=false; order_.clear(); unsigned n=3; Wait w(n); P c[3]; Timer t("t",middlePriority); double d[3]; for(unsigned i=0;i<n;i++){ d[i]=(double)(int)sv_range<signed char>(-1,3,"delay"); c[i].reset(new CB); c[i]->exact=false; c[i]->act=[&](CB&b){ double at=b.due<1000?1000:b.due; sv_check(sv_clock==at,"a callback is called when it is due"); w.one(); }; go(t,c[i],d[i]); sv_check(t.isScheduled(c[i]),"a scheduled callback is scheduled"); }
  w.e.wait(); sv_check(order_.size()==n,"every callback is called once"); for(unsigned i=0;i<n;i++){ sv_check(c[i]->calls==1&&c[i]->pend==0,"every callback is called once"); sv_check(!t.isScheduled(c[i]),"a callback that was called is not scheduled"); } for(unsigned i=0;i+1<n;i++)sv_check(order_[i]->due<=order_[i+1]->due,"callbacks are called in due order"); t.close(); for(unsigned i=0;i<n;i++)sv_check(!c[i]->stops,"no notification for a callback that is not pending"); }
// a new callback wakes the timer thread wherever it is
QUICK(wakeup){ env_time_may_pass=false; order_.clear(); env_preempt=sv_tier?3:2; P a(new CB),b(new CB); Wait w(2); a->exact=b->exact=true; a->act=b->act=[&](CB&){ w.one(); }; Timer t("t",middlePriority); static const double ds[]={0,1,3}; double da=ds[sv_pick(3,"da")],db=ds[sv_pick(3,"db")]; go(t,a,da); go(t,b,db); w.e.wait(); env_preempt=0; t.close(); sv_check(a->calls==1&&b->calls==1&&!a->stops&&!b->stops,"each is called once"); }
// two clients and the timer thread: every schedule ends in exactly one way
static void pend(P&p,int d){ EnvQuiet q; p->pend+=d; }
static void op(Timer&t,P*c,unsigned kind){ unsigned i=sv_pick(2,"which"); P&p=c[i]; switch(kind){ case 0: pend(p,1); { EnvQuiet q; p->due=sv_clock; } try{ t.scheduleAfterDelay(p,0); }catch(std::logic_error&){ pend(p,-1); } break; case 1: if(t.cancel(p))pend(p,-1); break; default: t.isScheduled(p); } }
QUICK(account){ order_.clear(); env_time_may_pass=false; P c[2]={P(new CB),P(new CB)}; { Timer t("t",middlePriority); go(t,c[0],0); go(t,c[1],0); env_preempt=sv_tier?2:1; Client k; unsigned k1=sv_pick(3,"op"),k2=sv_pick(2,"op2"); k.f=[&]{ op(t,c,k1); if(k2)op(t,c,1); }; epicsThread th(k,"client",0,0); th.start(); unsigned m=sv_pick(3,"main"); if(m<2)op(t,c,m); bool early=sv_pick(2,"close early"); if(early)t.close(); k.done.wait(); th.exitWait(); env_preempt=0; t.close(); c[0]->over=c[1]->over=true; }
  for(int i=0;i<2;i++)sv_check(c[i]->pend==0,"every schedule ends in exactly one call, cancel or notification"); }
QUICK(cancel_race){ order_.clear(); P c(new CB); Timer t("t",middlePriority); env_preempt=sv_tier?3:2; go(t,c,0); bool r=t.cancel(c); int before=c->calls; if(r){ sv_check(!before,"a cancelled callback was not called"); c->pend--; } sv_check(!t.isScheduled(c),"a cancelled callback is not scheduled"); Event nap; nap.wait(5); if(r)sv_check(!c->calls,"a cancelled callback is not called"); env_preempt=0; Event nap2; nap2.wait(5); t.close(); sv_check(c->pend==0,"called once or cancelled"); }
QUICK(cancel_one){ env_time_may_pass=false; order_.clear(); P c[3]; Timer t("t",middlePriority); for(int i=0;i<3;i++){ c[i].reset(new CB); c[i]->exact=true; go(t,c[i],1+(double)sv_range<unsigned char>(0,2,"delay")); } unsigned k=sv_pick(3,"cancel"); sv_check(t.cancel(c[k]),"a scheduled callback can be cancelled"); sv_check(!t.cancel(c[k]),"a cancelled callback cannot be cancelled again"); sv_check(!t.isScheduled(c[k]),"a cancelled callback is not scheduled"); Event nap; nap.wait(10); for(unsigned i=0;i<3;i++)sv_check(c[i]->calls==(i==k?0:1),"only the cancelled callback is not called"); bool again=sv_pick(2,"again"); if(again){ c[k]->pend=0; go(t,c[k],1); nap.wait(2); sv_check(c[k]->calls==1,"a cancelled callback can be scheduled again"); } t.close(); for(unsigned i=0;i<3;i++)sv_check(!c[i]->stops,"no notification for a callback that is not pending"); }
// periodic callbacks keep their times until cancelled
QUICK(periodic){ env_time_may_pass=false; order_.clear(); P c(new CB); c->exact=true; Timer t("t",middlePriority); double d=(double)sv_range<unsigned char>(0,3,"delay"),p=(double)sv_range<unsigned char>(1,3,"period"); unsigned n=1+sv_pick(3,"n"); Event e; unsigned how=sv_pick(3,"how"); c->act=[&](CB&b){ if((unsigned)b.calls==n){ if(how==0)sv_check(t.cancel(c),"a periodic callback can be cancelled while it is called"); if(how==1)t.close(); e.signal(); } }; go(t,c,d,p); e.wait(); if(how==2){ sv_check(t.cancel(c),"a periodic callback can be cancelled"); sv_check(!t.isScheduled(c),"a cancelled callback is not scheduled"); } Event nap; nap.wait(20); sv_check((unsigned)c->calls==n,"a cancelled periodic callback is not called any more"); t.close(); sv_check(c->stops==(how==1?1:0),"exactly one notification when the timer closes"); sv_check(!t.cancel(c),"nothing to cancel"); }
// callbacks that take time: the period is kept, the timer is never later than its thread allows
QUICK(slow){ env_time_may_pass=false; order_.clear(); P c(new CB),b(new CB); Timer t("t",middlePriority); double p=(double)sv_range<unsigned char>(1,3,"period"),s=(double)sv_range<unsigned char>(0,3,"duration"),d=(double)sv_range<unsigned char>(0,4,"delay"); double due=sv_clock+1,end=0; Event e; c->act=[&](CB&x){ double at=due<end?end:due; sv_check(sv_clock==at,"a periodic callback is called when it is due or as soon as the thread is free"); due+=p; sv_clock+=s; end=sv_clock; if(x.calls==4){ t.cancel(c); e.signal(); } }; double bdue=sv_clock+d; b->act=[&](CB&){ double at=bdue<end?end:bdue; sv_check(sv_clock==at,"a callback is called when it is due or as soon as the thread is free"); }; bool two=sv_tier?sv_pick(2,"two"):false; go(t,c,1,p); if(two){ go(t,b,d); } e.wait(); Event nap; nap.wait(20); sv_check(c->calls==4&&b->calls==(two?1:0),"called once per period"); t.close(); }
QUICK(periodic_race){ order_.clear(); env_time_may_pass=false; P c(new CB); Timer t("t",middlePriority); env_preempt=sv_tier?3:2; int starts=0; bool off=false; int late=0; c->act=[&](CB&){ bool last; { EnvQuiet q; if(off)late++; sv_check(late<=1,"a cancelled periodic callback is not called any more, but for a call in progress"); last=++starts==3; } if(last)t.cancel(c); env_yield(); }; go(t,c,0,1); Event nap; nap.wait(1); bool by=sv_pick(2,"close"); if(by)t.close(); else { bool r=t.cancel(c); if(!r)sv_check(starts==3,"a periodic callback can be cancelled at any time"); sv_check(!t.isScheduled(c),"not scheduled after cancel"); } off=true; Event nap2; nap2.wait(3); env_preempt=0; Event nap3; nap3.wait(3); t.close(); if(by)sv_check(!late,"nothing is called after close returned"); sv_check(c->stops<=1&&(!by||c->stops==1||starts==3),"exactly one notification when the timer closes"); if(!by)sv_check(!c->stops,"a cancelled callback is not notified"); }
// callbacks schedule themselves and others
QUICK(reschedule){ env_time_may_pass=false; order_.clear(); P a(new CB),b(new CB); a->exact=b->exact=true; Timer t("t",middlePriority); double p1=(double)sv_pick(2,"p1"),p2=(double)sv_pick(2,"p2"),d=(double)sv_range<unsigned char>(0,2,"d"); bool other=sv_pick(2,"other"); Event e; a->act=[&](CB&x){ if(x.calls==1){ P&q=other?b:a; if(!other)a->pend=0; go(t,q,d,p2); } else if(x.calls==3)t.cancel(a); }; b->act=[&](CB&x){ if(x.calls==2)t.cancel(b); }; double t0=sv_clock; go(t,a,1,p1); Event nap; nap.wait(20); int ea,eb=0; if(other){ ea=p1>0?3:1; eb=p2>0?2:1; } else ea=p2>0?3:2; (void)t0; sv_check(a->calls==ea&&b->calls==eb,"every schedule leads to its calls"); t.close(); sv_check(!a->stops&&!b->stops,"nothing is pending"); }
QUICK(reschedule_race){ order_.clear(); env_time_may_pass=false; P c(new CB); Timer t("t",middlePriority); env_preempt=2; c->act=[&](CB&){ env_yield(); }; double p=(double)sv_pick(2,"p"); c->period=p; c->due=sv_clock; if(p>0)t.schedulePeriodic(c,0,p); else t.scheduleAfterDelay(c,0); c->period=0; c->due=0; int n=0; try{ t.schedulePeriodic(c,0,0); n=1; }catch(std::logic_error&){ } Event nap; nap.wait(3); env_preempt=0; if(t.cancel(c))n--; Event nap2; nap2.wait(3); t.close(); if(p==0)sv_check(c->calls==1+n,"called once per schedule"); }
// close: every pending callback is told once, nothing runs afterwards
QUICK(close_all){ order_.clear(); env_time_may_pass=sv_tier!=0; unsigned kinds=sv_pick(3,"kinds"); P c[3]; { Timer t("t",middlePriority); for(int i=0;i<3;i++){ c[i].reset(new CB); go(t,c[i],(double)i,kinds==2||(kinds==1&&i==1)?1:0); } env_preempt=sv_tier?2:1; unsigned naps=sv_pick(2,"nap"); if(naps){ Event nap; nap.wait(1); } t.close(); for(int i=0;i<3;i++){ c[i]->over=true; if(c[i]->period>0)sv_check(c[i]->stops==1,"a periodic callback is told once that the timer stopped"); else sv_check(c[i]->calls+c[i]->stops==1,"a callback is either called or told that the timer stopped"); sv_check(!t.isScheduled(c[i]),"nothing is scheduled after close"); sv_check(!t.cancel(c[i]),"nothing to cancel after close"); } int s=c[0]->stops; env_preempt=0; c[0]->period=0; c[0]->pend=1; t.scheduleAfterDelay(c[0],0); sv_check(c[0]->stops==s+1,"scheduling on a closed timer notifies"); sv_check(!t.isScheduled(c[0]),"nothing is scheduled after close"); t.close(); sv_check(c[0]->stops==s+1&&c[1]->stops<=1,"closing twice does nothing"); } for(int i=1;i<3;i++)sv_check(c[i]->stops+(c[i]->period>0?0:c[i]->calls)==1,"the destructor does not notify again"); }
QUICK(close_inside){ env_time_may_pass=false; order_.clear(); P a(new CB),b(new CB); Timer t("t",middlePriority); double p=(double)sv_pick(2,"p"); bool before=sv_pick(2,"b first"); a->act=[&](CB&){ t.close(); }; go(t,b,before?0:2,0); go(t,a,1,p); Event nap; nap.wait(5); sv_check(a->calls==1,"called once"); sv_check(a->stops==(p>0?1:0),"a periodic callback that closes the timer is told once"); sv_check(b->calls==(before?1:0)&&b->stops==(before?0:1),"a pending callback is told"); t.close(); }
// nothing is kept: a callback dies with its last owner
QUICK(release){ order_.clear(); env_time_may_pass=false; std::tr1::weak_ptr<CB> w; { Timer t("t",middlePriority); P c(new CB); w=c; go(t,c,1,sv_pick(2,"p")?1:0); unsigned how=sv_pick(3,"how"); Event nap; if(how==0){ t.cancel(c); } else if(how==1){ nap.wait(2); t.cancel(c); } else t.close(); c.reset(); if(how!=1)sv_check(w.expired(),"the timer keeps no cancelled or closed callback"); t.close(); sv_check(w.expired(),"a closed timer keeps no callback"); } }
// the listing shows what is scheduled, in due order
QUICK(listing){ sv_streams(1); env_time_may_pass=false; order_.clear(); unsigned n=sv_pick(4,"n"); P c[3]; int d[3],p[3]; Timer t("t",middlePriority); bool before=sv_pick(2,"cancel"); unsigned k=0; for(unsigned i=0;i<n;i++){ d[i]=2+(int)sv_pick(3,"delay"); p[i]=(int)sv_pick(2,"period")*7; c[i].reset(new CB); go(t,c[i],d[i],p[i]); } if(before&&n){ k=sv_pick(n,"which"); t.cancel(c[k]); } Event nap; nap.wait(1); std::ostringstream o; if(sv_pick(2,"how"))t.dump(o); else o<<t; unsigned lines=0; bool left[3]={n>0&&!(before&&k==0),n>1&&!(before&&k==1),n>2&&!(before&&k==2)}; std::string w; for(int x=2;x<5;x++)for(unsigned i=0;i<n;i++)if(left[i]&&d[i]==x){ lines++; }
  std::string s=o.str(); int last=-1; while(!s.empty()){ size_t e=s.find('\n'); sv_check(e!=std::string::npos,"every line of the listing ends"); if(e==std::string::npos)break; std::string l=s.substr(0,e); s.erase(0,e+1); bool hit=false; for(unsigned i=0;i<n&&!hit;i++)if(left[i]){ std::string m=std::string("timeToRun ")+(char)('0'+d[i]-1)+" period "+(p[i]?"7":"0"); if(l==m){ hit=true; left[i]=false; sv_check(d[i]>=last,"the listing is in due order"); last=d[i]; } } sv_check(hit,"the listing shows what is scheduled"); lines--; } sv_check(lines==0,"the listing shows everything that is scheduled"); t.close(); std::ostringstream z; z<<t; sv_check(z.str().empty(),"a closed timer lists nothing"); }
