//@title Reference-tracking pointers own as shared_ptr does and list their owners
//@bounds histories of up to 2 (thorough 3) operations, from empty and from sharing pointers, on 3 strong and 1 weak pointers and 2 objects: create, take over from unique_ptr, copy, assign, convert, cast, reset, swap, weaken, lock, scope end; two threads with up to 3 (thorough 4) preemptions at lock operations
//@bounds custom deleters and pointers made by assigning between pointers of unrelated ownership of the same address are outside; epicsMutex is replaced by the scheduling environment
//@explain oracle: the model keeps which object each pointer refers to; liveness, use_count and the listed owners of every pointer follow from it
#include "h.h"
#include <pv/debugPtr.h>
#include <pv/thread.h>
#include <pv/event.h>
#include <functional>
#include <memory>
#include <sstream>
#include <set>
#include "env.h"
namespace dbg=epics::debug;
namespace {
int alive_[8];
struct B{ int id; explicit B(int i):id(i){ alive_[i]++; } virtual ~B(){ alive_[id]--; } };
struct D:public B{ explicit D(int i):B(i){} }; struct E:public B{ explicit E(int i):B(i){} };
typedef dbg::shared_ptr<B> SP; typedef dbg::weak_ptr<B> WP; typedef dbg::ptr_base::ref_set_t Set;
struct Fn:public epicsThreadRunable{ std::function<void()> f; explicit Fn(std::function<void()> f):f(f){} void run(){ f(); } };
struct M{ SP s[3]; int o[3]; WP w; int wo; int n; M():wo(-1),n(0){ o[0]=o[1]=o[2]=-1; for(int i=0;i<8;i++)alive_[i]=0; }
  int fresh(){ return n++; }
  void check(){ for(int k=0;k<n;k++){ int c=0; for(int i=0;i<3;i++)c+=o[i]==k; sv_check(alive_[k]==(c?1:0),"an object lives exactly as long as it has owners"); }
    for(int i=0;i<3;i++){ Set refs,want; s[i].spy_refs(refs); int c=0; for(int j=0;j<3;j++)if(o[i]>=0&&o[j]==o[i]){ want.insert(&s[j]); c++; } sv_check(refs==want,"the listed owners are exactly the owners"); sv_check((bool)s[i]==(o[i]>=0)&&(s[i].get()!=0)==(o[i]>=0),"a pointer refers to what it was given"); if(o[i]>=0)sv_check(s[i]->id==o[i]&&(*s[i]).id==o[i],"a pointer refers to what it was given"); sv_check(s[i].use_count()==c&&s[i].unique()==(c==1),"use_count counts the owners"); for(int j=0;j<3;j++)sv_check((s[i]==s[j])==(o[i]==o[j])&&(s[i]!=s[j])==(o[i]!=o[j]),"pointers compare by object"); }
    { bool live=false; int c=0; for(int j=0;j<3;j++)if(wo>=0&&o[j]==wo){ live=true; c++; } sv_check(w.expired()==!live&&w.use_count()==c,"a weak pointer expires with the last owner"); Set refs; w.spy_refs(refs); sv_check((int)refs.size()==c,"a weak pointer lists the owners"); SP l(w.lock()); sv_check((bool)l==live,"lock gives the object while it lives"); Set lr; l.spy_refs(lr); sv_check(lr.size()==(live?(size_t)c+1:0)&&lr.count(&l)==(live?1u:0u),"a pointer from lock is an owner exactly when it refers to something"); bool thrown=false; try{ SP x(w); sv_check(live&&x->id==wo,"a weak pointer gives the object"); }catch(std::bad_weak_ptr&){ thrown=true; } sv_check(thrown==!live,"a strong pointer cannot be made from an expired weak one"); }
    std::ostringstream q; s[0].show_refs(q); size_t lines=0; std::string t=q.str(); for(size_t i=0;i<t.size();i++)lines+=t[i]=='\n'; int c=0; for(int j=0;j<3;j++)c+=o[0]>=0&&o[j]==o[0]; sv_check(lines==(size_t)(c?c:1),"one line is shown per owner"); }
  void step(bool few=false){ unsigned i=few?2*sv_pick(2,"i"):sv_pick(3,"i"),op=sv_pick(11,"op"); unsigned j=op==2||op==4||op==6||op==7?sv_pick(3,"j"):0; int k; switch(op){
    case 0: k=fresh(); s[i].reset(new D(k)); o[i]=k; break;
    case 1: k=fresh(); s[i]=SP(new E(k)); o[i]=k; break;
    case 2: s[i]=s[j]; o[i]=o[j]; break;
    case 3: s[i].reset(); o[i]=-1; break;
    case 4: s[i].swap(s[j]); std::swap(o[i],o[j]); break;
    case 5: w=s[i]; wo=o[i]; break;
    case 6: { dbg::shared_ptr<D> d(dbg::dynamic_pointer_cast<D>(s[j])); s[i]=d; if(o[j]<0||!dynamic_cast<D*>(s[j].get()))o[i]=i==j?(d?o[i]:-1):-1; else o[i]=o[j]; break; }
    case 7: { dbg::shared_ptr<const B> c(s[j]); SP b(dbg::const_pointer_cast<B>(c)); sv_check(b==s[j],"a cast keeps the object"); dbg::shared_ptr<void> v(b); sv_check(v.get()==(o[j]<0?0:(void*)b.get()),"a cast keeps the object"); s[i]=dbg::static_pointer_cast<B>(v); o[i]=o[j]; break; }
    case 8: s[i]=w.lock(); { bool l=false; for(int x=0;x<3;x++)if((unsigned)x!=i&&wo>=0&&o[x]==wo)l=true; o[i]=(l||(wo>=0&&o[i]==wo))?wo:-1; } break;
    case 9: w.reset(); wo=-1; break;
    default: k=fresh(); { std::unique_ptr<D> u(new D(k)); SP t(std::move(u)); sv_check(!u,"ownership is taken over"); Set r; t.spy_refs(r); sv_check(r.size()==1&&r.count(&t),"a pointer that takes over ownership is listed"); s[i]=t; } o[i]=k; } }
};
}
QUICK(history){ { M m; unsigned n=sv_tier?3:2; for(unsigned i=0;i<n;i++)m.step(); m.check(); } for(int k=0;k<8;k++)sv_check(!alive_[k],"nothing is left"); }
// start from pointers that already share
QUICK(shared){ { M m; unsigned st=sv_pick(4,"start"); int k=m.fresh(); m.s[0].reset(new D(k)); m.o[0]=k; m.s[1]=m.s[0]; m.o[1]=k; if(st==1){ int e=m.fresh(); m.s[2]=SP(new E(e)); m.o[2]=e; m.w=m.s[2]; m.wo=e; } if(st==2){ m.w=m.s[1]; m.wo=k; } if(st==3){ m.s[2]=m.s[1]; m.o[2]=k; m.w=m.s[0]; m.wo=k; } unsigned n=2; for(unsigned i=0;i<n;i++)m.step(!sv_tier); m.check(); } for(int k=0;k<8;k++)sv_check(!alive_[k],"nothing is left"); }
namespace { struct S:public dbg::enable_shared_from_this<S>{ int id; explicit S(int i):id(i){ alive_[i]++; } virtual ~S(){ alive_[id]--; } }; struct SD:public S{ explicit SD(int i):S(i){} }; }
QUICK(from_this){ for(int i=0;i<8;i++)alive_[i]=0; { dbg::shared_ptr<S> a; unsigned how=sv_pick(4,"how"); if(how==0)a=dbg::shared_ptr<S>(new S(0)); else if(how==1)a.reset(new SD(0)); else if(how==2)a=dbg::shared_ptr<SD>(new SD(0)); else { std::unique_ptr<S> u(new S(0)); a=dbg::shared_ptr<S>(std::move(u)); } sv_check(a.use_count()==1,"one owner"); { dbg::shared_ptr<S> b(a->shared_from_this()); sv_check(b==a&&a.use_count()==2,"shared_from_this gives another owner"); Set r; a.spy_refs(r); sv_check(r.size()==2&&r.count(&a)&&r.count(&b),"which is listed"); a.reset(); sv_check(alive_[0]==1&&b.use_count()==1,"which keeps the object"); a=b->shared_from_this(); } sv_check(a.use_count()==1,"owners that are gone are not counted"); S*raw=a.get(); (void)raw; dbg::weak_ptr<S> w(a); a.reset(); sv_check(w.expired()&&!alive_[0],"the object ends with its last owner"); } S lone(1); bool t=false; try{ lone.shared_from_this(); }catch(std::bad_weak_ptr&){ t=true; } sv_check(t,"an object without owner has no shared_from_this"); }
QUICK(scopes){ for(int i=0;i<8;i++)alive_[i]=0; SP*p[3]; int n=3; SP base(new D(0)); for(int i=0;i<3;i++){ unsigned h=sv_pick(3,"from"); p[i]=h==0?new SP(base):h==1&&i?new SP(*p[i-1]):new SP(dbg::static_pointer_cast<D>(base)); } bool del[3]; for(int i=0;i<3;i++)del[i]=sv_pick(2,"delete"); bool drop=sv_pick(2,"drop"); if(drop)base.reset(); for(int i=0;i<3;i++)if(del[i]){ delete p[i]; n--; } for(int i=0;i<3;i++)if(!del[i]){ Set r,w; p[i]->spy_refs(r); for(int j=0;j<3;j++)if(!del[j])w.insert(p[j]); if(!drop)w.insert(&base); sv_check(r==w,"the listed owners are exactly the owners"); std::ostringstream q; p[i]->show_refs(q,false); std::ostringstream me; me<<"ptr "<<(const void*)static_cast<dbg::shared_ptr_base*>(p[i]); sv_check(q.str().find(me.str())==std::string::npos,"a pointer can leave itself out of the list"); } sv_check(alive_[0]==(n||!drop?1:0),"an object lives exactly as long as it has owners"); for(int i=0;i<3;i++)if(!del[i])delete p[i]; }
// pointers to one object in two threads
QUICK(threads){ for(int i=0;i<8;i++)alive_[i]=0; env_preempt=sv_tier?4:3; { SP a(new D(0)); WP w(a); SP mine(a); unsigned how=sv_pick(4,"how"); Fn f([&]{ SP b(mine); if(how==0)b.reset(); else if(how==1){ SP c; c.swap(b); } else if(how==2){ SP c; c=b; b=SP(); } else { SP c(w.lock()); Set s; c.spy_refs(s); sv_check(s.count(&c),"an owner is listed"); } mine.reset(); }); { Thread t(f,"t",0); Set r; a.spy_refs(r); sv_check(r.count(&a)&&r.size()>=1&&r.size()<=4,"an owner is listed"); std::ostringstream q; a.show_refs(q); if(sv_pick(2,"drop"))a.reset(); } if(a){ Set r; a.spy_refs(r); sv_check(r.size()==1&&r.count(&a)&&a.unique(),"only the owner is left"); } else sv_check(!alive_[0]&&w.expired(),"the object ends with its last owner"); } sv_check(!alive_[0],"nothing is left"); }
QUICK(last){ for(int i=0;i<8;i++)alive_[i]=0; env_preempt=sv_tier?4:3; SP a(new D(0)); WP w(a); int got=0; Fn f([&]{ SP l(w.lock()); if(l){ sv_check(l->id==0&&alive_[0]==1,"lock gives the object while it lives"); EnvQuiet q; got=1; } }); { Thread t(f,"t",0); a.reset(); } sv_check(!alive_[0]&&w.expired(),"the object ends with its last owner"); (void)got; }
