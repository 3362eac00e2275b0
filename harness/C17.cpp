//@title Sub-array copy moves exactly the requested elements
//@bounds source and destination of 0..4 elements (symbolic), offsets 0..5 and huge, strides 0..3 and huge, counts 0..5 and huge, destination capacity as long as the content or larger, same array as source and destination; all 12 element types, structure and union arrays; through every overload
//@explain oracle: element-wise statement of the request computed by the harness on copies taken before the call
#include "val.h"
#include <pv/pvSubArrayCopy.h>
static const size_t H=(size_t)1<<63, M=(size_t)-1;
struct Req{ size_t fo,fs,to,ts,n; };
// expected: legal?  then destination content as indices: >=0 source element, -1-k: old element k, otherwise default
static bool legal(const Req&r,size_t fl){ if(r.fs<1||r.ts<1||r.fo>fl)return false; size_t av=0; for(size_t i=r.fo;i<fl;){ av++; if(r.fs>fl)break; i+=r.fs; } if(r.n>av)return false; return true; }
template<class A,class EQ,class DF> static void run(A&from,A&to,const Req&r,EQ eq,DF isDefault,unsigned route){
  typename A::const_svector f(from.view()),o(to.view()); bool imm=to.isImmutable(); bool ok=legal(r,f.size())&&!imm; bool far=false; size_t nl=o.size(); if(ok&&r.n){ unsigned over=r.to>64||(r.n>1&&r.ts>64); if(over)far=true; else { size_t e=r.to+(r.n-1)*r.ts+1; if(e>nl)nl=e; } }
  bool t; PVArray&pf=from,&pt=to; PVArray::shared_pointer sf,st; if(route==2){ sf=std::tr1::static_pointer_cast<PVArray>(from.shared_from_this()); st=std::tr1::static_pointer_cast<PVArray>(to.shared_from_this()); }
  switch(route){ case 0: if constexpr(!std::is_same<A,PVUnionArray>::value){ t=THROWS(copy(from,r.fo,r.fs,to,r.to,r.ts,r.n)); break; } /* falls through */ case 1: t=THROWS(copy(pf,r.fo,r.fs,pt,r.to,r.ts,r.n)); break; default: t=THROWS(copy(sf,r.fo,r.fs,st,r.to,r.ts,r.n)); }
  if(far)ok=false; sv_check(t==!ok,"a request is refused exactly when it is outside the source, has a zero stride or the destination is immutable");
  typename A::const_svector n(to.view()); if(!ok){ sv_check(n.size()==o.size()&&n.data()==o.data(),"a refused request leaves the destination unchanged"); return; }
  sv_check(n.size()==nl,"the destination is extended only as far as needed"); sv_check(from.view().size()==f.size()||&from==&to,"the source is unchanged"); unsigned good=1; for(size_t k=0;k<n.size()&&k<nl;k++){ size_t j=M; if(r.n&&k>=r.to&&(k-r.to)%r.ts==0&&(k-r.to)/r.ts<r.n)j=(k-r.to)/r.ts; good&= j!=M?eq(n[k],f[r.fo+j*r.fs]):k<o.size()?eq(n[k],o[k]):isDefault(n[k]); } sv_check(good,"element k of the selection is at its place and every other element is unchanged"); }
template<class T> static std::tr1::shared_ptr<PVValueArray<T> > arr(size_t n){ std::tr1::shared_ptr<PVValueArray<T> > a=getPVDataCreate()->createPVScalarArray<PVValueArray<T> >(); a->replace(symArr<T>(n)); return a; }
template<class T> static void doit(size_t fl,size_t tl,const Req&r,unsigned route,unsigned var){ symval_strlen=2; std::tr1::shared_ptr<PVValueArray<T> > a(arr<T>(fl)),b(var==2?a:arr<T>(tl)); if(var==1)b->setCapacity(7); if(var==3)b->setImmutable();
  auto eq=[](const T&x,const T&y){ return eqv(x,y); }; auto df=[](const T&x){ return eqv(x,T()); };
  run(*a,*b,r,eq,df,route); }
QUICK(source_side){ size_t fl=sv_pick(5,"from"); static const size_t O[8]={0,1,2,3,4,5,H,M},S[5]={0,1,2,3,H},N[7]={0,1,2,3,4,5,M}; Req r; r.fo=O[sv_pick(8,"off")]; r.fs=S[sv_pick(5,"stride")]; r.n=N[sv_pick(7,"count")]; r.to=1; r.ts=1; doit<int32>(fl,2,r,0,0); }
QUICK(dest_side){ size_t tl=sv_pick(4,"to"); static const size_t O[6]={0,1,2,4,H,M},S[6]={0,1,2,3,H,M}; Req r; r.fo=0; r.fs=1; r.n=sv_pick(4,"count"); r.to=O[sv_pick(6,"off")]; r.ts=S[sv_pick(6,"stride")]; doit<int32>(3,tl,r,0,sv_pick(2,"capacity")); }
QUICK(both){ Req r; r.fo=sv_pick(3,"fo"); r.fs=1+sv_pick(2,"fs"); r.to=sv_pick(3,"to"); r.ts=1+sv_pick(3,"ts"); r.n=sv_pick(4,"n"); doit<int16>(4,4,r,0,sv_pick(3,"variant")); }
QUICK(types){ unsigned t=sv_pick(12,"type"); static const Req R[4]={{1,1,0,2,2},{0,2,1,1,2},{0,1,4,1,1},{2,1,0,1,2}}; Req r=R[sv_pick(4,"request")]; unsigned route=sv_pick(3,"route"),var=sv_pick(2,"immutable")?3:0; byScalarType((ScalarType)t,[&](auto x){ doit<decltype(x)>(3,2,r,route,var); }); }
QUICK(mismatch){ unsigned a=sv_pick(14,"a"),b=sv_pick(14,"b"); PVDataCreatePtr dc=getPVDataCreate(); StructureConstPtr s=FB()->add("x",pvInt)->createStructure(); UnionConstPtr u=FB()->add("x",pvInt)->createUnion(); auto mk=[&](unsigned k)->PVArray::shared_pointer{ return k<12?PVArray::shared_pointer(dc->createPVScalarArray((ScalarType)k)):k==12?PVArray::shared_pointer(dc->createPVStructureArray(s)):PVArray::shared_pointer(dc->createPVUnionArray(u)); }; PVArray::shared_pointer x=mk(a),y=mk(b); sv_check(THROWS(copy(*x,0,1,*y,0,1,0))==(a!=b),"arrays of different element types are refused, the same type is accepted"); StructureConstPtr s2=FB()->add("y",pvInt)->createStructure(); if(a==12){ PVStructureArrayPtr z=dc->createPVStructureArray(s2); sv_check(THROWS(copy(*x,0,1,(PVArray&)*z,0,1,0)),"arrays of different structures are refused"); } }
QUICK(objects){ PVDataCreatePtr dc=getPVDataCreate(); bool un=sv_pick(2,"union"); unsigned route=sv_pick(3,"route"),imm=sv_pick(2,"immutable"); Req r; r.fo=sv_pick(4,"fo"); r.fs=sv_pick(3,"fs"); r.to=sv_pick(3,"to"); r.ts=1+sv_pick(2,"ts"); r.n=sv_pick(4,"n"); if(r.n==3)r.n=H; 
  if(!un){ StructureConstPtr s=FB()->add("x",pvInt)->createStructure(); PVStructureArrayPtr a=dc->createPVStructureArray(s),b=dc->createPVStructureArray(s); for(int k=0;k<2;k++){ PVStructureArray::svector v(k?2:3); for(size_t i=0;i<v.size();i++)v[i]=dc->createPVStructure(s); (k?b:a)->replace(freeze(v)); } if(imm)b->setImmutable(); run(*a,*b,r,[](const PVStructurePtr&x,const PVStructurePtr&y){ return (unsigned)(x==y); },[](const PVStructurePtr&x){ return (unsigned)(x&&x->getSubField<PVInt>("x")->get()==0); },route); }
  else { UnionConstPtr s=FB()->add("x",pvInt)->createUnion(); PVUnionArrayPtr a=dc->createPVUnionArray(s),b=dc->createPVUnionArray(s); for(int k=0;k<2;k++){ PVUnionArray::svector v(k?2:3); for(size_t i=0;i<v.size();i++)v[i]=dc->createPVUnion(s); (k?b:a)->replace(freeze(v)); } if(imm)b->setImmutable(); run(*a,*b,r,[](const PVUnionPtr&x,const PVUnionPtr&y){ return (unsigned)(x==y); },[](const PVUnionPtr&x){ return (unsigned)(x&&x->getSelectedIndex()==PVUnion::UNDEFINED_INDEX); },route); } }
