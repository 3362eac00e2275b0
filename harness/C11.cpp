//@title A union holds exactly the selected member
//@bounds regular unions with members of every kind (int, string, bounded string, array, structure, union, variant, arrays), variant unions, unions inside structures; histories of 2 (thorough 3) operations out of 10 from 4 start states, selectors any 32-bit number, member names any string of up to 3 characters (symbolic, no NUL), values of the declared type, of another type or none
//@bounds received selectors: any short or long selector, followed by zeros, both byte orders
//@explain model: selector and identity of the value held; an own comparison of type descriptions
#include "zoo.h"
static UnionConstPtr U(){ StructureConstPtr s=FB()->add("i",pvInt)->add("j",pvString)->createStructure(); return FB()->add("a",pvInt)->add("ab",s)->addArray("b",pvShort)->addBoundedString("abc",3)->add("c",FB()->add("x",pvInt)->add("y",pvString)->createUnion())->add("d",getFieldCreate()->createVariantUnion())->add("e",getFieldCreate()->createStructureArray(s))->add("f",pvInt)->createUnion(); }
static PVFieldPtr mk(FieldConstPtr f){ PVFieldPtr p=getPVDataCreate()->createPVField(f); Shape sh; sh.alen=1; if(f->getType()==scalar||f->getType()==scalarArray)fill(*p,sh); else if(f->getType()==structure)std::tr1::static_pointer_cast<PVStructure>(p)->getSubFieldT<PVInt>("i")->put(sv_any<int32>("v")); return p; }
static void valid(PVUnion&u){ UnionConstPtr t=u.getUnion(); int32 s=u.getSelectedIndex(); const PVUnion&c=u; sv_check(c.get().get()==u.get().get(),"both accessors give the same value");
  if(t->isVariant()){ sv_check(s==PVUnion::UNDEFINED_INDEX&&u.getSelectedFieldName().empty(),"a variant union has no selector and no member name"); return; }
  if(s==PVUnion::UNDEFINED_INDEX){ sv_check(!u.get(),"no selection means no value"); sv_check(u.getSelectedFieldName().empty(),"no selection means no member name"); }
  else { sv_check(s>=0&&(size_t)s<t->getNumberFields(),"the selector names a member"); if(s<0||(size_t)s>=t->getNumberFields())sv_stop(); sv_check((bool)u.get(),"a selected member has a value"); if(u.get())sv_check(sameType(*u.get()->getField(),*t->getField(s)),"the value has the type declared for the selector"); sv_check(u.getSelectedFieldName()==t->getFieldName(s),"the selected name is the declared one"); } }
static void op(PVUnion&u){ UnionConstPtr t=u.getUnion(); bool var=t->isVariant(); int32 n=(int32)t->getNumberFields(),s0=u.getSelectedIndex(); PVFieldPtr v0=u.get(),w; PVFieldPtr snap; if(v0){ snap=getPVDataCreate()->createPVField(v0->getField()); snap->copyUnchecked(*v0); }
  int32 want=s0; PVFieldPtr ident=v0; bool fresh=false,refused=false,threw=false; PVFieldPtr got; bool checkGot=false,copied=false; PVUnionPtr src;
  unsigned k=sv_pick(10,"op");
  switch(k){
  case 0: case 1: { int32 i=sv_any<int32>("selector"); if(k==1){ unsigned q=sv_pick(3,"near"); i=q==0?-1:q==1?n:s0; } try{ got=u.select(i); }catch(std::invalid_argument&){ threw=true; } checkGot=true; if(i==-1){ want=-1; ident.reset(); } else if(var||i<0||i>=n)refused=true; else if(i!=s0){ want=i; fresh=true; } break; }
  case 2: case 3: { size_t l=sv_pick(4,"len"); std::string q=symString(l,"name"); for(size_t i=0;i<l;i++)sv_assume(q[i]!=0); int32 at=-1; if(!var)for(int32 i=0;i<n;i++)if(q==t->getFieldName(i))at=i; if(k==2){ try{ got=u.select(q); }catch(std::invalid_argument&){ threw=true; } checkGot=true; if(at<0)refused=true; else if(at!=s0){ want=at; fresh=true; } }
      else { w=mk(sv_pick(2,"type")?(FieldConstPtr)FieldConstPtr(getFieldCreate()->createScalar(pvInt)):(FieldConstPtr)t); try{ u.set(q,w); }catch(std::invalid_argument&){ threw=true; } if(at<0||!sameType(*w->getField(),*t->getField(at)))refused=true; else { want=at; ident=w; } } break; }
  case 4: case 5: { int32 i=sv_any<int32>("selector"); int32 m=var?-1:(int32)sv_pick(n+1,"value")-1; if(var){ if(sv_pick(2,"value"))w=mk(getFieldCreate()->createScalar(pvString)); } else if(m>=0)w=mk(t->getField(m)); if(k==5)sv_assume(i==s0); try{ if(k==5)u.set(w); else u.set(i,w); }catch(std::invalid_argument&){ threw=true; }
      if(var){ if(i!=-1)refused=true; else { want=-1; ident=w; } } else if(i==-1){ if(w)refused=true; else { want=-1; ident.reset(); } } else if(i<0||i>=n||!w||!sameType(*w->getField(),*t->getField(sv_concrete(i))))refused=true; else { want=i; ident=w; } break; }
  case 6: { src=getPVDataCreate()->createPVUnion(t); if(var){ unsigned q=sv_pick(4,"from"); if(q==1)src->set(mk(getFieldCreate()->createScalar(pvInt))); if(q==2)src->set(mk(getFieldCreate()->createScalarArray(pvShort))); if(q==3)src->set(mk(getFieldCreate()->createScalar(pvString))); } else { unsigned q=sv_pick(n+1,"from"); if((int)q<n){ PVFieldPtr m=mk(t->getField(q)); src->set((int32)q,m); } } u.copy(*src); copied=true; break; }
  case 7: { PVUnionPtr o=getPVDataCreate()->createPVUnion(FB()->add("a",pvInt)->createUnion()); o->select("a"); try{ u.copy(*o); }catch(std::invalid_argument&){ threw=true; } refused=true; break; }
  case 8: { int32 q; PVIntPtr p; if(var)p=u.get<PVInt>(); else { try{ p=u.select<PVInt>(0); }catch(std::exception&){ threw=true; } sv_check((bool)p,"typed selection gives the member"); want=0; fresh=s0!=0; } (void)q; break; }
  default: u.copy(u); break; }
  valid(u); sv_check(threw==refused,"impossible selectors, unknown names and wrong values are refused, possible ones are not");
  if(copied){ sv_check(same(u,*src),"copying makes the unions equal"); if(src->get()&&u.get())sv_check(src->get().get()!=u.get().get(),"a copy does not share its value"); return; }
  if(refused)sv_check(u.getSelectedIndex()==s0&&u.get().get()==v0.get(),"a refused operation leaves the union as it was");
  else { sv_check(u.getSelectedIndex()==want,"the union holds the member selected"); if(!fresh)sv_check(u.get().get()==ident.get(),"the union holds the value set"); if(checkGot)sv_check(got.get()==u.get().get(),"selecting gives the value"); }
  if(v0&&u.get().get()==v0.get())sv_check(same(*v0,*snap),"selecting the present member again keeps its value"); }
static PVUnionPtr start(unsigned k){ PVUnionPtr u; switch(k){ case 0: return getPVDataCreate()->createPVUnion(U()); case 1: u=getPVDataCreate()->createPVUnion(U()); { PVFieldPtr p=mk(u->getUnion()->getField(0)); u->set(0,p); } return u; case 2: u=getPVDataCreate()->createPVUnion(U()); u->select("ab"); return u; case 3: return getPVDataCreate()->createPVVariantUnion(); default: u=getPVDataCreate()->createPVVariantUnion(); { PVFieldPtr p=mk(getFieldCreate()->createScalar(pvInt)); u->set(p); } return u; } }
QUICK(one_operation){ PVUnionPtr u=start(sv_pick(5,"start")); valid(*u); op(*u); }
QUICK(two_operations){ PVUnionPtr u=start(sv_pick(2,"start")?1:4); int32 n=(int32)u->getUnion()->getNumberFields(); int32 s=(int32)sv_pick(n+1,"sel"); if(s<n)u->select(s); else u->set(-1,PVFieldPtr()); op(*u); }
THOROUGH(histories){ PVUnionPtr u=start(sv_pick(5,"start")); op(*u); op(*u); }
// a union inside a structure: copies between structures
QUICK(in_structure){ StructureConstPtr t=FB()->add("u",U())->add("k",pvInt)->createStructure(); PVStructurePtr a=getPVDataCreate()->createPVStructure(t),b=getPVDataCreate()->createPVStructure(t); PVUnionPtr x=a->getSubFieldT<PVUnion>("u"),y=b->getSubFieldT<PVUnion>("u"); int32 n=8; unsigned i=sv_pick(n+1,"a"),j=sv_pick(n+1,"b"); if((int)i<n){ PVFieldPtr p=mk(t->getField<Union>("u")->getField(i)); x->set((int32)i,p); } if((int)j<n)y->select((int32)j); unsigned w=sv_pick(3,"how"); if(w==0)b->copy(*a); else if(w==1){ BitSet m; m.set(sv_pick(3,"bit")); bool sel=m.get(0)||m.get(1); b->copyUnchecked(*a,m); if(!sel){ sv_check(y->getSelectedIndex()==((int)j<n?(int32)j:-1),"an unselected union stays"); return; } } else { b=getPVDataCreate()->createPVStructure(a); y=b->getSubFieldT<PVUnion>("u"); } valid(*y); sv_check(same(*x,*y),"copying makes the unions equal"); if(x->get())sv_check(x->get().get()!=y->get().get(),"a copy does not share its value"); }
// received selectors
QUICK(received){ PVUnionPtr u=start(sv_pick(3,"start")); if(sv_pick(2,"same type")){ u->select(0); } bool lng=sv_pick(2,"long"); Bytes b=symBytes(lng?5:1); if(lng)b[0]=0xfe; b.resize(20,0); int ord=pickOrder(); In in(b,64,sv_pick(2,"step"),ord); bool t=false; int32 s0=u->getSelectedIndex(); (void)s0; try{ u->deserialize(&in.buf,&in); }catch(std::exception&){ t=true; } valid(*u); unsigned c=b[0]; if(!t&&c<254){ sv_check(u->getSelectedIndex()==(int32)c,"the received selector is taken"); } if(c==0xff)sv_check(!t&&u->getSelectedIndex()==-1,"the null selector means no selection"); if(c>=8&&c<254)sv_check(t,"an impossible selector is refused"); }
