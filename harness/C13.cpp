//@title Copying gives equal, independent values and respects immutability
//@bounds every simple type (12 scalars, bounded string, 12 element types variable, bounded and fixed, variant union and variant array) and composite types up to three levels, arrays of 0..2 elements, strings of 0..1 characters, values symbolic, destination holding another symbolic value; every pair of simple types for refusals
//@bounds masks: any 10-bit mask over a structure with nested levels, direct and inverse
//@bounds elements of structure and union arrays are shared between copies by design and are not modified in place here; floating point values are compared as numbers, NaN excluded; copyUnchecked, reception and text input do not look at immutability
//@explain oracle: an own bitwise deep comparison and an own encoder used as snapshot
#include "zoo.h"
#include <pv/convert.h>
static PVFieldPtr mk(FieldP f){ return getPVDataCreate()->createPVField(f); }
static Bytes snap(const PVField&f){ Bytes b; wField(b,f,EPICS_ENDIAN_LITTLE); return b; }
static void typedCopy(PVField&d,const PVField&s){ switch(d.getField()->getType()){ case scalar: ((PVScalar&)d).copy((const PVScalar&)s); break; case scalarArray: ((PVScalarArray&)d).copy((const PVScalarArray&)s); break; case structure: ((PVStructure&)d).copy((const PVStructure&)s); break; case structureArray: ((PVStructureArray&)d).copy((const PVStructureArray&)s); break; case union_: ((PVUnion&)d).copy((const PVUnion&)s); break; default: ((PVUnionArray&)d).copy((const PVUnionArray&)s); } }
static unsigned noNaN(const PVField&f){ unsigned r=1; switch(f.getField()->getType()){ case scalar: { const PVScalar&x=(const PVScalar&)f; if(x.getScalar()->getScalarType()==pvDouble){ double d=((const PVDouble&)f).get(); r=d==d; } else if(x.getScalar()->getScalarType()==pvFloat){ float d=((const PVFloat&)f).get(); r=d==d; } break; } case scalarArray: { const PVScalarArray&x=(const PVScalarArray&)f; ScalarType t=x.getScalarArray()->getElementType(); if(t==pvDouble){ shared_vector<const double> v(((const PVDoubleArray&)f).view()); for(size_t i=0;i<v.size();i++)r&=v[i]==v[i]; } if(t==pvFloat){ shared_vector<const float> v(((const PVFloatArray&)f).view()); for(size_t i=0;i<v.size();i++)r&=v[i]==v[i]; } break; } case structure: { const PVFieldPtrArray&x=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)r&=noNaN(*x[i]); break; } default: break; } return r; }
// change a value in place
static void change(PVField&f){ switch(f.getField()->getType()){ case scalar: byScalarType(((PVScalar&)f).getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; ((PVScalarValue<T>&)f).put(symVal<T>("later")); }); break;
  case scalarArray: byScalarType(((PVScalarArray&)f).getScalarArray()->getElementType(),[&](auto t){ typedef decltype(t) T; PVValueArray<T>&a=(PVValueArray<T>&)f; typename PVValueArray<T>::svector v(a.reuse()); for(size_t i=0;i<v.size();i++)v[i]=symVal<T>("later"); a.replace(freeze(v)); }); break;
  case structure: { const PVFieldPtrArray&x=((PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)change(*x[i]); break; }
  case structureArray: { PVStructureArray&a=(PVStructureArray&)f; a.append(1); a.remove(0,1); PVStructureArray::svector v(a.reuse()); v.resize(1); v[0]=getPVDataCreate()->createPVStructure(a.getStructureArray()->getStructure()); a.replace(freeze(v)); break; }
  case unionArray: { PVUnionArray&a=(PVUnionArray&)f; a.append(1); a.remove(0,1); PVUnionArray::svector v(a.reuse()); v.resize(1); v[0]=getPVDataCreate()->createPVUnion(a.getUnionArray()->getUnion()); a.replace(freeze(v)); break; }
  case union_: { PVUnion&u=(PVUnion&)f; if(u.get())change(*u.get()); break; } } }
static void copying(FieldP f,unsigned alen){ PVFieldPtr a=mk(f),b=mk(f); Shape sh; sh.alen=alen; fill(*a,sh); fill(*b,sh); sv_assume(noNaN(*a)); Bytes s=snap(*a); unsigned w=sv_pick(3,"how"); if(w==0)b->copy(*a); else if(w==1)b->copyUnchecked(*a); else typedCopy(*b,*a);
  sv_check(same(*a,*b),"a copy holds the same value"); sv_check(eqBytes(snap(*a),s),"copying leaves the source as it was"); sv_check(*a==*b&&*b==*a&&!(*a!=*b),"a copy compares equal"); bool d=sv_pick(2,"change"); PVField&x=d?*a:*b,&y=d?*b:*a; change(x); sv_check(eqBytes(snap(y),s),"changing one never shows in the other"); x.copy(y); sv_check(eqBytes(snap(x),s),"copying back restores the value"); x.copy(x); sv_check(eqBytes(snap(x),s),"copying a value to itself keeps it"); }
QUICK(copy_scalars){ unsigned k=sv_pick(13,"type"); copying(leaf(k,2),2); }
QUICK(copy_arrays){ unsigned k=13+sv_pick(36,"type"); copying(leaf(k,2),2); }
QUICK(copy_variants){ unsigned k=49+sv_pick(2,"type"); symval_strlen=1; copying(leaf(k,2),2); }
QUICK(copy_composites){ static const unsigned K[8]={0,1,2,3,4,5,6,8}; unsigned k=K[sv_pick(8,"type")]; symval_strlen=1; copying(tree(k),2); }
QUICK(copy_nested){ symval_strlen=1; StructureConstPtr t=FB()->add("i",pvInt)->addNestedStructure("n")->add("d",pvDouble)->addNestedUnion("u")->add("a",pvShort)->add("s",FB()->add("x",pvByte)->createStructure())->endNested()->addArray("v",pvInt)->endNested()->createStructure(); copying(t,sv_tier?2:1); }
// refusals
QUICK(incompatible){ unsigned i=sv_pick(zooLeaves,"a"),j=sv_pick(zooLeaves,"b"); sv_assume(i!=j); FieldP f=leaf(i,2),g=leaf(j,2); PVFieldPtr a=mk(f),b=mk(g); b->setPostHandler(PostHandlerPtr()); Bytes s=snap(*b); bool t=false; try{ b->copy(*a); }catch(std::invalid_argument&){ t=true; } sv_check(t,"a value of another type is refused"); sv_check(eqBytes(snap(*b),s),"a refused copy changes nothing"); }
QUICK(incompatible_composites){ unsigned i=sv_pick(zooTrees,"a"),j=sv_pick(zooTrees,"b"); FieldP f=tree(i),g=tree(j); sv_assume(!sameType(*f,*g)); PVFieldPtr a=mk(f),b=mk(g); Bytes s=snap(*b); bool t=false; try{ if(f->getType()==g->getType()&&sv_pick(2,"typed"))typedCopy(*b,*a); else b->copy(*a); }catch(std::invalid_argument&){ t=true; } sv_check(t,"a value of another type is refused"); sv_check(eqBytes(snap(*b),s),"a refused copy changes nothing"); sv_check(!(*a==*b)&&!(*b==*a)&&*a!=*b,"values of different types differ"); }
// equality
static unsigned equal(const PVField&a,const PVField&b){ if(a.getField()->getType()==scalar&&((const PVScalar&)a).getScalar()->getScalarType()==pvDouble)return ((const PVDouble&)a).get()==((const PVDouble&)b).get(); if(a.getField()->getType()==scalar&&((const PVScalar&)a).getScalar()->getScalarType()==pvFloat)return ((const PVFloat&)a).get()==((const PVFloat&)b).get(); return same(a,b); }
static void equality(FieldP f){ PVFieldPtr a=mk(f),b=mk(f); Shape sh; sh.alen=3; fill(*a,sh); fill(*b,sh); unsigned w=equal(*a,*b); bool l=*a==*b; sv_check(l==(bool)w,"values are equal exactly when every element is"); sv_check((*b==*a)==l,"equality is symmetric"); sv_check((*a!=*b)==!l&&a->equals(*b)==l,"the forms of comparison agree"); sv_check(*a==*a,"a value equals itself"); }
QUICK(equal_scalars){ unsigned k=sv_pick(13,"type"); symval_strlen=3; equality(leaf(k,2)); }
static FieldP intLeaf(unsigned k){ return leaf(k,2); }
QUICK(equal_arrays){ static const unsigned K[10]={0,1,2,3,4,5,6,7,8,11}; unsigned k=13+K[sv_pick(10,"type")]; symval_strlen=2; equality(intLeaf(k)); }
QUICK(equal_composites){ static const unsigned K[6]={0,2,3,4,5,1}; unsigned k=K[sv_pick(6,"type")]; symval_strlen=1; PVFieldPtr a=mk(tree(k)),b=mk(tree(k)); Shape sh; sh.alen=3; sh.nulls=true; fill(*a,sh); fill(*b,sh); unsigned w=same(*a,*b); bool l=*a==*b; sv_check(l==(bool)w,"values are equal exactly when every element is"); sv_check((*b==*a)==l,"equality is symmetric"); sv_check((*a!=*b)==!l,"the forms of comparison agree"); }
QUICK(equal_variants){ symval_strlen=1; PVFieldPtr a=mk(leaf(49,2)),b=mk(leaf(49,2)); fill(*a); fill(*b); unsigned w=same(*a,*b); bool l=*a==*b; sv_check(l==(bool)w,"values are equal exactly when every element is"); sv_check((*b==*a)==l,"equality is symmetric"); }
QUICK(equal_numbers_in_structure){ symval_strlen=1; FieldP t=FB()->add("a",pvULong)->add("b",pvShort)->addNestedStructure("n")->add("c",pvString)->add("d",pvBoolean)->addArray("e",pvUShort)->endNested()->createStructure(); PVFieldPtr a=mk(t),b=mk(t); fill(*a); fill(*b); unsigned w=same(*a,*b); bool l=*a==*b; sv_check(l==(bool)w,"values are equal exactly when every element is"); sv_check((*b==*a)==l,"equality is symmetric"); }
// partial copies
QUICK(masks){ symval_strlen=1; StructureConstPtr t=FB()->add("a",pvInt)->addNestedStructure("n")->add("b",pvShort)->addNestedStructure("m")->add("c",pvByte)->add("d",pvUByte)->endNested()->add("e",pvUShort)->endNested()->addNestedStructure("z")->endNested()->add("f",pvLong)->createStructure(); static const int par[10]={-1,0,0,2,2,4,4,2,0,0}; PVStructurePtr a=getPVDataCreate()->createPVStructure(t),b=getPVDataCreate()->createPVStructure(t); Shape sh; sh.alen=1; fill(*a,sh); fill(*b,sh); PVStructurePtr o=getPVDataCreate()->createPVStructure(b); bool inv=sv_pick(2,"inverse"); BitSet m; unsigned bits=0; if(sv_tier==0){ unsigned k=sv_pick(64,"mask"); static const unsigned char pos[6]={1,2,3,5,6,9}; for(int i=0;i<6;i++)if(k>>i&1)bits|=1u<<pos[i]; bits|=sv_pick(2,"others")?0x110:0; if(sv_pick(2,"top"))bits|=1; } else bits=sv_pick(32,"low")|sv_pick(32,"high")<<5; for(int i=0;i<10;i++)if(bits>>i&1)m.set(i); BitSet m0(m); b->copyUnchecked(*a,m,inv); sv_check(m==m0,"the mask is not changed");
  bool sel[10]; for(int i=0;i<10;i++){ sel[i]=((bits>>i&1)!=0)!=inv; if(i&&sel[par[i]])sel[i]=true; if(i==1||i==3||i==5||i==6||i==7||i==9){ PVFieldPtr x=b->getSubField((size_t)i); sv_check(same(*x,sel[i]?*a->getSubField((size_t)i):*o->getSubField((size_t)i)),"exactly the selected fields are copied"); } } }
// immutability
static void refuses(const char*how,PVField&f,const Bytes&s,void(*op)(PVField&,PVField&),PVField&src,const char*known){ bool t=false; try{ op(f,src); }catch(std::exception&){ t=true; } bool un=eqBytes(snap(f),s)&&f.isImmutable(); if(known&&!un){ sv_known(known); return; } sv_check(un,how); if(!known)sv_check(t,"an attempt to change an immutable field is refused"); }
static void immutable(FieldP f){ PVFieldPtr a=mk(f),b=mk(f); Shape sh; sh.alen=2; if(f->getType()==scalar||f->getType()==scalarArray){ fill(*a,sh); fill(*b,sh); sv_assume(!eqBytes(snap(*a),snap(*b))); } else change(*b); if(f->getType()==union_&&!static_cast<PVUnion&>(*b).getUnion()->isVariant())static_cast<PVUnion&>(*b).select(0); a->setImmutable(); sv_check(a->isImmutable(),"an immutable field says so"); Bytes s=snap(*a); const char*L="an immutable field keeps its value"; Type ty=f->getType();
  unsigned w=sv_pick(8,"how"); switch(w){ case 0: refuses(L,*a,s,[](PVField&d,PVField&x){ d.copy(x); },*b,0); break; case 1: refuses(L,*a,s,[](PVField&d,PVField&x){ typedCopy(d,x); },*b,0); break; case 2: refuses(L,*a,s,[](PVField&d,PVField&x){ getConvert()->copy(x.shared_from_this(),d.shared_from_this()); },*b,0); break;
  case 3: if(ty==scalar)refuses(L,*a,s,[](PVField&d,PVField&x){ ((PVScalar&)d).assign((PVScalar&)x); },*b,0); else if(ty==scalarArray)refuses(L,*a,s,[](PVField&d,PVField&x){ ((PVScalarArray&)d).assign((PVScalarArray&)x); },*b,0); break;
  case 4: if(ty==scalarArray||ty==structureArray||ty==unionArray){ size_t n=static_cast<PVArray&>(*a).getLength(); (void)n; refuses(L,*a,s,[](PVField&d,PVField&){ ((PVArray&)d).setLength(((PVArray&)d).getLength()+1); },*b,0); } break;
  case 5: if(ty==scalarArray)byScalarType(static_cast<PVScalarArray&>(*a).getScalarArray()->getElementType(),[&](auto t){ typedef decltype(t) T; if(sv_pick(2,"reuse"))refuses(L,*a,s,[](PVField&d,PVField&){ ((PVValueArray<T>&)d).reuse(); },*b,0); else refuses(L,*a,s,[](PVField&d,PVField&x){ typename PVValueArray<T>::const_svector v(((PVValueArray<T>&)x).view()); ((PVValueArray<T>&)d).swap(v); },*b,0); });
      if(ty==structureArray){ if(sv_pick(2,"reuse"))refuses(L,*a,s,[](PVField&d,PVField&){ ((PVStructureArray&)d).reuse(); },*b,0); else refuses(L,*a,s,[](PVField&d,PVField&){ ((PVStructureArray&)d).append(1); },*b,0); } if(ty==unionArray){ if(sv_pick(2,"reuse"))refuses(L,*a,s,[](PVField&d,PVField&){ ((PVUnionArray&)d).reuse(); },*b,0); else refuses(L,*a,s,[](PVField&d,PVField&){ ((PVUnionArray&)d).append(1); },*b,0); } break;
  case 6: if(ty==scalar)byScalarType(static_cast<PVScalar&>(*a).getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; refuses(L,*a,s,[](PVField&d,PVField&x){ ((PVScalarValue<T>&)d).put(((PVScalarValue<T>&)x).get()); },*b,"immutable-scalar-put"); });
      if(ty==scalarArray)byScalarType(static_cast<PVScalarArray&>(*a).getScalarArray()->getElementType(),[&](auto t){ typedef decltype(t) T; refuses(L,*a,s,[](PVField&d,PVField&x){ ((PVValueArray<T>&)d).replace(((PVValueArray<T>&)x).view()); },*b,"immutable-array-replace"); }); if(ty==structureArray)refuses(L,*a,s,[](PVField&d,PVField&x){ ((PVStructureArray&)d).replace(((PVStructureArray&)x).view()); },*b,"immutable-array-replace"); if(ty==unionArray)refuses(L,*a,s,[](PVField&d,PVField&x){ ((PVUnionArray&)d).replace(((PVUnionArray&)x).view()); },*b,"immutable-array-replace"); break;
  default: if(ty==union_){ if(static_cast<PVUnion&>(*a).getUnion()->isVariant())refuses(L,*a,s,[](PVField&d,PVField&){ ((PVUnion&)d).set(getPVDataCreate()->createPVScalar<PVInt>()); },*b,"immutable-union-select"); else refuses(L,*a,s,[](PVField&d,PVField&){ ((PVUnion&)d).select(1); },*b,"immutable-union-select"); } } }
QUICK(immutable_simple){ unsigned k=sv_pick(zooLeaves,"type"); immutable(leaf(k,2)); }
QUICK(immutable_composites){ static const unsigned K[6]={0,2,4,5,8,3}; unsigned k=K[sv_pick(6,"type")]; immutable(tree(k)); }
static void allImmutable(PVField&f){ sv_check(f.isImmutable(),"everything inside an immutable structure is immutable"); if(f.getField()->getType()==structure){ const PVFieldPtrArray&x=((PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)allImmutable(*x[i]); } }
QUICK(immutable_inside){ PVFieldPtr p=mk(tree(sv_pick(2,"t")?7:8)); sv_check(!p->isImmutable(),"a new value can be changed"); p->setImmutable(); allImmutable(*p); PVFieldPtr q=mk(tree(8)); PVStructure&s=static_cast<PVStructure&>(*q); s.getPVFields()[0]->setImmutable(); sv_check(!s.isImmutable()&&!s.getPVFields()[1]->isImmutable(),"making a field immutable leaves its neighbours alone"); }
