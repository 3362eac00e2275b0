//@title Structure and union arrays keep their elements through every change
//@bounds arrays of 0..4 elements with any pattern of null elements, histories of 2 (thorough 3) operations: append 0..2, remove with any 64-bit offset and number, compress, setLength, setCapacity, replace, copy from another array, writing through reuse; a reader holding the previous content throughout
//@bounds arrays of 12, 20 and 40 elements with one or two runs of 0..33 null elements: compress, remove, append
//@bounds what an element gained by setLength holds is left open (null, or an element dropped before)
//@explain model: the list of element identities; AddressSanitizer decides accesses outside the storage
#include "zoo.h"
template<class A> struct Kind; template<> struct Kind<PVStructureArray>{ typedef PVStructure E; static FieldP elem(){ return FB()->add("i",pvInt)->createStructure(); } static std::tr1::shared_ptr<PVStructureArray> arr(){ return getPVDataCreate()->createPVStructureArray(getFieldCreate()->createStructureArray(std::tr1::static_pointer_cast<const Structure>(elem()))); } static PVStructurePtr mk(){ return getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(elem())); } };
template<> struct Kind<PVUnionArray>{ typedef PVUnion E; static FieldP elem(){ return FB()->add("i",pvInt)->createUnion(); } static std::tr1::shared_ptr<PVUnionArray> arr(){ return getPVDataCreate()->createPVUnionArray(getFieldCreate()->createUnionArray(std::tr1::static_pointer_cast<const Union>(elem()))); } static PVUnionPtr mk(){ return getPVDataCreate()->createPVUnion(std::tr1::static_pointer_cast<const Union>(elem())); } };
template<class A> struct H{ typedef std::tr1::shared_ptr<typename Kind<A>::E> P; typedef typename A::svector SV; typedef typename A::const_svector CV; std::tr1::shared_ptr<A> a; std::vector<P> m; bool sharing; std::vector<std::pair<CV,std::vector<P> > > readers; int handled;
  struct Post:public PostHandler{ int n; Post():n(0){} void postPut(){ n++; } };
  static std::vector<P> pattern(unsigned n,unsigned mask){ std::vector<P> v(n); for(unsigned i=0;i<n;i++)if(mask>>i&1)v[i]=Kind<A>::mk(); return v; }
  static CV vec(const std::vector<P>&v){ SV s(v.size()); for(size_t i=0;i<v.size();i++)s[i]=v[i]; return freeze(s); }
  void agree(){ sv_check(a->getLength()==m.size(),"the array has the expected number of elements"); CV v(a->view()); if(v.size()!=m.size()){ sv_fail("the array has the expected number of elements"); sv_stop(); } unsigned ok=1; for(size_t i=0;i<m.size();i++)ok&=v[i].get()==m[i].get(); sv_check(ok,"every element stays in its place"); sv_check(a->getCapacity()>=m.size(),"the capacity covers the elements"); for(size_t k=0;k<readers.size();k++){ CV&r=readers[k].first; std::vector<P>&w=readers[k].second; ok=r.size()==w.size(); for(size_t i=0;ok&&i<w.size();i++)ok&=r[i].get()==w[i].get(); sv_check(ok,"a change never shows in content handed out before"); } }
  void init(){ unsigned n=sv_pick(sv_tier?5:4,"n"); m=pattern(n,sv_pick(1u<<n,"nulls")); a=Kind<A>::arr(); a->replace(vec(m)); sharing=sv_pick(2,"reader"); }
  void step(){ if(sharing)readers.push_back(std::make_pair(a->view(),m)); size_t n=m.size(); switch(sv_pick(8,"op")){
    case 0: { size_t k=sv_pick(3,"append"); size_t r=a->append(k); sv_check(r==n+k,"append reports the new length"); CV v(a->view()); if(v.size()!=n+k){ sv_fail("append adds the requested elements"); sv_stop(); } for(size_t i=n;i<n+k;i++){ sv_check((bool)v[i],"an appended element exists"); if(v[i])sv_check(sameType(*v[i]->getField(),*Kind<A>::elem()),"an appended element has the element type"); for(size_t j=0;j<i;j++)sv_check(v[j].get()!=v[i].get(),"an appended element is new"); m.push_back(v[i]); } break; }
    case 1: { size_t o=sv_any<size_t>("offset"),k=sv_any<size_t>("number"); bool fits=(unsigned)(o<=n)&(unsigned)(k<=n-(o<=n?o:n)); bool r=a->remove(o,k); if(k!=0)sv_check(r==fits,"removal is done exactly when the elements are there"); if(fits&&k){ size_t oc=sv_concrete(o),kc=sv_concrete(k); m.erase(m.begin()+oc,m.begin()+oc+kc); } break; }
    case 2: { a->compress(); std::vector<P> w; for(size_t i=0;i<n;i++)if(m[i])w.push_back(m[i]); m=w; break; }
    case 3: { size_t k=sv_pick(6,"len"); a->setLength(k); m.resize(k); CV v(a->view()); if(v.size()==k)for(size_t i=n;i<k;i++)m[i]=v[i]; break; }
    case 4: { size_t k=sv_pick(7,"cap"); a->setCapacity(k); sv_check(a->getCapacity()>=k,"the capacity asked for is provided"); break; }
    case 5: { unsigned k=sv_pick(3,"newlen"); m=pattern(k,sv_pick(1u<<k,"nulls")); std::tr1::shared_ptr<Post> p(new Post); bool f=!posted; posted=p; if(f)a->setPostHandler(p); a->replace(vec(m)); if(f)sv_check(p->n==1,"replacing posts once"); break; }
    case 6: { std::tr1::shared_ptr<A> o=Kind<A>::arr(); unsigned k=sv_pick(3,"newlen"); m=pattern(k,sv_pick(1u<<k,"nulls")); o->replace(vec(m)); if(sv_pick(2,"checked"))a->copy(*o); else a->copyUnchecked(*o); sv_check(o->getLength()==k,"copying leaves the source as it was"); break; }
    default: { SV v(a->reuse()); sv_check(v.unique()&&a->getLength()==0,"reuse takes the content out"); if(v.size()!=n){ sv_fail("reuse gives the content"); sv_stop(); } if(n){ size_t i=sv_pick((unsigned)n,"at"); P e=Kind<A>::mk(); v[i]=e; m[i]=e; } a->replace(freeze(v)); } } agree(); }
  std::tr1::shared_ptr<Post> posted; };
template<class A> static void hist(int n){ H<A> h; h.init(); h.agree(); for(int i=0;i<n;i++)h.step(); }
QUICK(structures){ hist<PVStructureArray>(1); }
QUICK(unions){ hist<PVUnionArray>(1); }
template<class A> static void two(){ H<A> h; h.m=h.pattern(3,5); h.a=Kind<A>::arr(); h.a->replace(h.vec(h.m)); h.sharing=sv_pick(2,"reader"); h.step(); h.step(); if(sv_tier)h.step(); }
QUICK(structures_two){ two<PVStructureArray>(); }
THOROUGH(unions_two){ two<PVUnionArray>(); }
QUICK(capacity){ PVStructureArrayPtr a=Kind<PVStructureArray>::arr(); PVUnionArrayPtr u=Kind<PVUnionArray>::arr(); PVIntArrayPtr s=getPVDataCreate()->createPVScalarArray<PVIntArray>(); PVArray*v[3]={a.get(),u.get(),s.get()}; PVArray&x=*v[sv_pick(3,"kind")]; sv_check(x.isCapacityMutable(),"the capacity of a new array can be changed"); x.setLength(2); bool im=sv_pick(2,"immutable"); if(im)x.setImmutable(); x.setCapacityMutable(false); sv_check(!x.isCapacityMutable(),"the capacity is fixed on request"); size_t c=x.getCapacity(); sv_check(THROWS(x.setCapacity(10))&&x.getCapacity()==c&&x.getLength()==2,"a fixed capacity is not changed"); bool t=THROWS(x.setCapacityMutable(true)); sv_check(x.isCapacityMutable()==!im,"an immutable array keeps its capacity"); (void)t; }
// long arrays with long gaps
template<class A> static void far(){ static const unsigned N[3]={12,20,40},G[8]={0,1,7,8,9,15,17,33}; H<A> h; h.sharing=sv_pick(2,"reader"); unsigned n=N[sv_pick(3,"n")],g=G[sv_pick(8,"gap")],at=sv_pick(4,"at"); if(at==3)at=n>g+1?n-g-1:0; h.m.resize(n); unsigned g2=sv_pick(2,"second gap")?9:0; for(unsigned i=0;i<n;i++)if(!(i>=at&&i<at+g)&&!(g2&&i>at+g+1&&i<=at+g+1+g2))h.m[i]=Kind<A>::mk(); h.a=Kind<A>::arr(); h.a->replace(h.vec(h.m)); h.agree(); if(h.sharing)h.readers.push_back(std::make_pair(h.a->view(),h.m));
  switch(sv_pick(3,"op")){ case 0:{ h.a->compress(); std::vector<typename H<A>::P> w; for(size_t i=0;i<n;i++)if(h.m[i])w.push_back(h.m[i]); h.m=w; break; } case 1:{ static const unsigned K[4]={1,8,11,12}; unsigned k=K[sv_pick(4,"number")]; sv_check(h.a->remove(at,k)==(at+k<=n),"removal is done exactly when the elements are there"); if(at+k<=n)h.m.erase(h.m.begin()+at,h.m.begin()+at+k); break; } default:{ size_t k=9+sv_pick(2,"append")*8; h.a->append(k); typename H<A>::CV v(h.a->view()); if(v.size()!=n+k){ sv_fail("append adds the requested elements"); sv_stop(); } for(size_t i=n;i<n+k;i++){ sv_check((bool)v[i],"an appended element exists"); h.m.push_back(v[i]); } } } h.agree(); }
QUICK(structures_long){ far<PVStructureArray>(); }
QUICK(unions_long){ far<PVUnionArray>(); }
