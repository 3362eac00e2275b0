//@title Builders make exactly the described value
//@bounds type builder: every history of 2 operations out of 12 and of 3 out of 6 (thorough 4 out of 12) (scalars, bounded strings, arrays of 3 kinds, nested structures, unions and their arrays, identifiers, end) with names out of 2, nesting to depth 3, from an empty builder or one that extends a given structure; identifiers of 0..2 symbolic characters
//@bounds value builder: every history of 4 (thorough 5) additions of scalars of all 12 types (symbolic values), arrays of 0..2 elements, structures and nested structures under 2 names; building twice; reuse after building
//@bounds fresh and cloned values: every simple type and 10 composite types up to 3 levels; standard fields of all kinds with all 32 property lists
//@explain oracle: an independent model of the described type (member lists in the order added, for values in the order of their names) turned into a type by the plain factory functions, own type comparison (val.h), the values handed in
#include "zoo.h"
#include <pv/valueBuilder.h>
#include <pv/standardField.h>
#include <pv/standardPVField.h>
static PVDataCreatePtr DC(){ return getPVDataCreate(); } static FieldCreatePtr FC(){ return getFieldCreate(); }
// ---- type builder against a model
struct Spec{ char kind; std::string id; bool idset; std::vector<std::string> names; std::vector<FieldP> fields; std::string name; Spec(char k='s'):kind(k),idset(false){}
  FieldP build()const{ FieldP f; FieldConstPtrArray fs(fields.begin(),fields.end()); StringArray ns(names.begin(),names.end()); if(kind=='s'||kind=='S'){ StructureConstPtr s=idset?FC()->createStructure(id,ns,fs):FC()->createStructure(ns,fs); if(kind=='s')return s; return FC()->createStructureArray(s); }
    UnionConstPtr u=names.empty()?FC()->createVariantUnion():idset?FC()->createUnion(id,ns,fs):FC()->createUnion(ns,fs); if(kind=='u')return u; return FC()->createUnionArray(u); }
  int find(const std::string&n)const{ for(size_t i=0;i<names.size();i++)if(names[i]==n)return (int)i; return -1; } };
static void builder(FieldBuilderPtr b,Spec top,unsigned ops,bool few=false){ static const unsigned FEW[6]={0,1,6,9,10,11}; std::vector<Spec> st(1,top); static const char*N[2]={"a","b"};
  for(unsigned i=0;i<ops;i++){ unsigned k=few?FEW[sv_pick(6,"op")]:sv_pick(12,"op"); Spec&s=st.back(); bool refused=false,threw=false; 
    if(k<6){ std::string n=N[sv_pick(2,"name")]; FieldP f; int at=s.find(n); try{ switch(k){ case 0: f=FC()->createScalar(pvInt); b->add(n,pvInt); break; case 1: f=FC()->createBoundedString(3); b->addBoundedString(n,3); break; case 2: f=FC()->createScalarArray(pvString); if(ops<3&&sv_pick(2,"elem"))b->addArray(n,FC()->createScalar(pvString)); else b->addArray(n,pvString); break; case 3: f=FC()->createFixedScalarArray(pvShort,2); b->addFixedArray(n,pvShort,2); break; case 4: f=FC()->createBoundedScalarArray(pvDouble,2); b->addBoundedArray(n,pvDouble,2); break; default: { StructureConstPtr e=FB()->add("x",pvInt)->createStructure(); f=FC()->createStructureArray(e); b->addArray(n,e); } } }catch(std::exception&){ threw=true; }
      if(at>=0)refused=!sameType(*s.fields[at],*f); else { s.names.push_back(n); s.fields.push_back(f); } }
    else if(k<10){ std::string n=N[sv_pick(2,"name")]; char kind="sSuU"[k-6]; int at=s.find(n); FieldBuilderPtr c; try{ c=k==6?b->addNestedStructure(n):k==7?b->addNestedStructureArray(n):k==8?b->addNestedUnion(n):b->addNestedUnionArray(n); }catch(std::exception&){ threw=true; } Type want=k==6?structure:k==7?structureArray:k==8?union_:unionArray;
      if(at>=0&&s.fields[at]->getType()!=want)refused=true; else { Spec t(kind); t.name=n; if(at>=0){ const Structure*p=k==6?(const Structure*)s.fields[at].get():k==7?((const StructureArray*)s.fields[at].get())->getStructure().get():0; const Union*u=k==8?(const Union*)s.fields[at].get():k==9?((const UnionArray*)s.fields[at].get())->getUnion().get():0; size_t m=p?p->getNumberFields():u->getNumberFields(); t.id=p?p->getID():u->getID(); t.idset=true; for(size_t q=0;q<m;q++){ t.names.push_back(p?p->getFieldName(q):u->getFieldName(q)); t.fields.push_back(p?p->getField(q):u->getField(q)); } } sv_check(!threw&&c,"a nested field can be added"); if(threw)sv_stop(); b=c; st.push_back(t); } }
    else if(k==10){ std::string id=symString(ops<3?1+sv_pick(2,"idlen"):1,"id"); b->setId(id); s.id=id; s.idset=true; }
    else { FieldBuilderPtr c; try{ c=b->endNested(); }catch(std::exception&){ threw=true; } if(st.size()==1)refused=true; else { sv_check(!threw,"a nested field can be ended"); if(threw)sv_stop(); FieldP f=s.build(); std::string n=s.name; st.pop_back(); Spec&p=st.back(); int at=p.find(n); if(at>=0)p.fields[at]=f; else { p.names.push_back(n); p.fields.push_back(f); } b=c; } }
    sv_check(threw==refused,"a builder refuses a second member of the same name and another type, and ending the outermost field; nothing else"); }
  if(st.size()>1){ sv_check(THROWS(b->createStructure())&&THROWS(b->createUnion()),"an unfinished nested field is not built"); return; }
  bool un=sv_pick(2,"union"); if(un)st[0].kind='u'; FieldP want=st[0].build(),got=un?FieldP(b->createUnion()):FieldP(b->createStructure()); sv_check(sameType(*want,*got),"the type built is the one described"); sv_check(*want==*got,"the type built equals the one described"); FieldP again=b->createStructure(); sv_check(sameType(*again,*FB()->createStructure()),"a builder starts anew after building"); }
QUICK(field_builder){ builder(FB(),Spec(),2); }
QUICK(field_builder_long){ builder(FB(),Spec(),sv_tier?4:3,!sv_tier); }
QUICK(field_builder_nested){ FieldBuilderPtr b=FB()->add("a",pvInt); Spec s; s.names.push_back("a"); s.fields.push_back(FC()->createScalar(pvInt)); unsigned k=sv_pick(2,"kind"); b=k?b->addNestedUnion("b"):b->addNestedStructure("b"); b=b->add("x",pvInt)->endNested(); Spec t(k?'u':'s'); t.names.push_back("x"); t.fields.push_back(FC()->createScalar(pvInt)); s.names.push_back("b"); s.fields.push_back(t.build()); builder(b,s,2); }
QUICK(extend){ unsigned k=sv_pick(4,"base"); static const unsigned K[4]={0,1,6,7}; StructureConstPtr base=std::tr1::static_pointer_cast<const Structure>(tree(K[k])); Spec s; s.id=base->getID(); s.idset=true; for(size_t i=0;i<base->getNumberFields();i++){ s.names.push_back(base->getFieldName(i)); s.fields.push_back(base->getField(i)); } Bytes b0,b1; wType(b0,base.get(),EPICS_ENDIAN_LITTLE); builder(FieldBuilder::begin(base),s,2); wType(b1,base.get(),EPICS_ENDIAN_LITTLE); sv_check(eqBytes(b0,b1),"the structure extended is left alone"); }
// ---- value builder
struct VNode{ int kind; PVFieldPtr val; std::string id; std::vector<std::string> names; std::vector<VNode> sub; VNode():kind(0){} int find(const std::string&n)const{ for(size_t i=0;i<names.size();i++)if(names[i]==n)return (int)i; return -1; }
  void set(const std::string&n,const VNode&v){ int i=find(n); if(i>=0)sub[i]=v; else { size_t p=0; while(p<names.size()&&names[p]<n)p++; names.insert(names.begin()+p,n); sub.insert(sub.begin()+p,v); } }
  FieldP type()const{ if(kind!=2)return val->getField(); FieldConstPtrArray f; StringArray n; for(size_t i=0;i<names.size();i++){ n.push_back(names[i]); f.push_back(sub[i].type()); } return id.empty()?FC()->createStructure(n,f):FC()->createStructure(id,n,f); } };
static void agree(const VNode&m,const PVField&v){ if(m.kind!=2){ sv_check(same(*m.val,v),"a member has the value given last"); return; } const PVStructure&s=(const PVStructure&)v; for(size_t i=0;i<m.names.size();i++)agree(m.sub[i],*s.getPVFields()[i]); }
static void addScalar(ValueBuilder&b,const std::string&n,ScalarType t,VNode&v){ PVScalarPtr p=DC()->createPVScalar(t); v.kind=0; v.val=p; switch(t){
#define ONE(T) case T: { typedef ScalarTypeTraits<T>::type V; V x=symVal<V>("v"); ((PVScalarValue<V>&)*p).put(x); b.add<T>(n,x); break; }
  ONE(pvBoolean) ONE(pvByte) ONE(pvShort) ONE(pvInt) ONE(pvLong) ONE(pvUByte) ONE(pvUShort) ONE(pvUInt) ONE(pvULong) ONE(pvFloat) ONE(pvDouble) ONE(pvString)
#undef ONE
  } }
template<class T> static void addArr(ValueBuilder&b,const std::string&n,VNode&v){ shared_vector<const T> a=symArr<T>(sv_pick(3,"len")); std::tr1::shared_ptr<PVValueArray<T> > p=DC()->createPVScalarArray<PVValueArray<T> >(); p->replace(a); v.kind=1; v.val=p; if(sv_pick(2,"typed"))b.add(n,a); else b.add(n,static_shared_vector_cast<const void>(a)); }
static PVStructurePtr sample(){ PVStructurePtr p=DC()->createPVStructure(FB()->setId("id")->add("z",pvInt)->addNestedStructure("n")->add("y",pvString)->add("x",pvDouble)->endNested()->createStructure()); symval_strlen=2; fill(*p); return p; }
static VNode nodeOf(const PVField&f){ VNode v; if(f.getField()->getType()==structure){ v.kind=2; const PVStructure&s=(const PVStructure&)f; v.id=s.getStructure()->getID(); for(size_t i=0;i<s.getPVFields().size();i++){ v.set(s.getStructure()->getFieldName(i),nodeOf(*s.getPVFields()[i])); } } else { v.val=DC()->createPVField(f.getField()); v.val->copyUnchecked(f); } return v; }
static void finish(const ValueBuilder&b,VNode&m){ PVStructurePtr p=b.buildPVStructure(); sv_check(sameType(*m.type(),*p->getField()),"the value built has the type described, members in the order of their names"); if(!sameType(*m.type(),*p->getField()))sv_stop(); agree(m,*p); PVStructurePtr q=b.buildPVStructure(); sv_check(p!=q&&same(*p,*q),"building again gives another, equal value"); }
static void valueOps(ValueBuilder&root,VNode&m,unsigned ops,bool nestedOnly){ std::vector<ValueBuilder*> st(1,&root); std::vector<std::vector<int> > path(1); symval_strlen=2; static const char*N[2]={"b","a"};
  for(unsigned i=0;i<ops;i++){ unsigned k=sv_pick(nestedOnly?4:6,"op"); if(k>=4)k+=0; VNode*cur=&m; for(size_t d=0;d<path.back().size();d++)cur=&cur->sub[path.back()[d]]; ValueBuilder&b=*st.back();
    if(k==1&&st.size()==1){ sv_check(THROWS(b.endNested()),"the outermost structure cannot be ended"); continue; }
    if(k==1){ ValueBuilder&p=b.endNested(); st.pop_back(); path.pop_back(); sv_check(&p==st.back(),"ending a structure returns to the one around"); continue; }
    std::string n=N[sv_pick(2,"name")]; int at=cur->find(n); bool isStruct=at>=0&&cur->sub[at].kind==2; VNode v; bool threw=false; int ex=-1;
    if(k==0){ std::string id; if(sv_pick(2,"id"))id="I"; ValueBuilder*c=0; try{ c=&b.addNested(n,structure,id); }catch(std::exception&){ threw=true; } sv_check(threw==(at>=0&&!isStruct),"a structure cannot take the place of another member, but can be taken up again"); if(threw)continue; if(at<0){ VNode s; s.kind=2; s.id=id; cur->set(n,s); } else { if(id.empty()&&!cur->sub[at].id.empty())sv_stop(); cur->sub[at].id=id; } std::vector<int> q=path.back(); q.push_back(cur->find(n)); path.push_back(q); st.push_back(c); continue; }
    try{ if(k==2)addScalar(b,n,(ScalarType)(nestedOnly?(int)pvInt:(int)sv_pick(12,"type")),v); else if(k==3){ if(nestedOnly){ shared_vector<const uint16> a=symArr<uint16>(1); PVUShortArrayPtr p=DC()->createPVScalarArray<PVUShortArray>(); p->replace(a); v.kind=1; v.val=p; b.add(n,a); } else if(sv_pick(2,"what"))addArr<std::string>(b,n,v); else addArr<uint16>(b,n,v); } else if(k==4){ addScalar(b,n,pvString,v); } else { PVStructurePtr s=sample(); v=nodeOf(*s); ex=1; b.add(n,*s); } }catch(std::exception&){ threw=true; }
    if(ex==1){ sv_check(threw==(at>=0&&!isStruct),"a structure cannot take the place of another member"); if(threw)continue; if(isStruct)sv_stop(); cur->set(n,v); }
    else { sv_check(threw==isStruct,"a member can be replaced by a scalar or array unless it is a structure"); if(!threw)cur->set(n,v); } }
  if(st.size()>1){ sv_check(THROWS(st.back()->buildPVStructure()),"an unfinished structure is not built"); }
  finish(root,m); }
QUICK(value_builder){ std::string id; if(sv_tier){ if(sv_pick(2,"id"))id="T"; } else id="T"; ValueBuilder b(id); VNode m; m.kind=2; m.id=id; valueOps(b,m,2,false); }
QUICK(value_builder_nested){ ValueBuilder b; VNode m; m.kind=2; valueOps(b,m,sv_tier?5:4,true); }
QUICK(value_builder_clone){ PVStructurePtr s=sample(); VNode m=nodeOf(*s); PVStructurePtr keep=DC()->createPVStructure(s); ValueBuilder b(*s); if(sv_pick(2,"change"))s->getSubFieldT<PVInt>("z")->put(sv_any<int32>("later")); else s->getSubFieldT<PVString>("n.y")->put("later"); unsigned k=sv_pick(3,"more"); if(k==1){ b.add<pvShort>("k",7); VNode v; v.kind=0; PVShortPtr p=DC()->createPVScalar<PVShort>(); p->put(7); v.val=p; m.set("k",v); } if(k==2){ b.add<pvShort>("z",8); VNode v; PVShortPtr p=DC()->createPVScalar<PVShort>(); p->put(8); v.val=p; m.set("z",v); } finish(b,m); PVStructurePtr r=b.buildPVStructure(); r->getSubFieldT<PVDouble>("n.x")->put(1.5); finish(b,m); if(k==0){ VNode o=nodeOf(*keep); agree(o,*b.buildPVStructure()); } }
QUICK(value_builder_refuses){ FieldP f; switch(sv_pick(5,"kind")){ case 0: f=leaf(13,2); break; case 1: f=leaf(49,2); break; case 2: f=leaf(50,2); break; case 3: f=tree(2); break; default: f=tree(4); } PVStructurePtr p=DC()->createPVStructure(FB()->add("a",f)->createStructure()); sv_check(THROWS(ValueBuilder b(*p)),"what cannot be cloned is refused"); ValueBuilder c; sv_check(THROWS(c.add("s",*p)),"what cannot be cloned is refused"); sv_check(THROWS(c.addNested("u",union_)),"only structures can be nested"); }
QUICK(value_builder_names){ std::string n=symString(sv_pick(3,"len"),"name"); for(size_t i=0;i<n.size();i++)sv_assume(n[i]!=0); ValueBuilder b; b.add<pvInt>(n,1); bool t=false; PVStructurePtr p; try{ p=b.buildPVStructure(); }catch(std::exception&){ t=true; } sv_check(t==!okName(n),"a value with an ill-formed member name is not built"); if(!t)sv_check(p->getSubFieldT<PVInt>(n)->get()==1,"the member is found by its name"); }
QUICK(value_builder_storage){ size_t n0=sv_live(); { ValueBuilder b; for(int i=0;i<3;i++)switch(sv_pick(4,"op")){ case 0: { shared_vector<int8> v(3040); b.add("x",freeze(v)); break; } case 1: b.add<pvString>("x",std::string(3041,'s')); break; case 2: b.add<pvInt>("x",1); break; default: { shared_vector<int8> v(3042); b.add("y",freeze(v)); } } PVStructurePtr p=b.buildPVStructure(); } sv_check(sv_live()==n0,"everything stored is released once"); }
// ---- fresh values have the default contents and the type
static void fresh(const PVField&f){ const Field&t=*f.getField(); switch(t.getType()){
  case scalar: byScalarType(((const Scalar&)t).getScalarType(),[&](auto x){ typedef decltype(x) T; sv_check(eqv(((const PVScalarValue<T>&)f).get(),T()),"a new scalar is zero or empty"); }); break;
  case scalarArray:{ const ScalarArray&a=(const ScalarArray&)t; size_t want=a.getArraySizeType()==Array::fixed?a.getMaximumCapacity():0; sv_check(((const PVArray&)f).getLength()==want,"a new array is empty or has its fixed length"); byScalarType(a.getElementType(),[&](auto x){ typedef decltype(x) T; shared_vector<const T> v=((const PVValueArray<T>&)f).view(); for(size_t i=0;i<v.size();i++)sv_check(eqv(v[i],T()),"the elements of a new fixed array are zero or empty"); }); break; }
  case structureArray: case unionArray: sv_check(((const PVArray&)f).getLength()==0,"a new array is empty"); break;
  case union_: sv_check(!((const PVUnion&)f).get()&&((const PVUnion&)f).getSelectedIndex()==PVUnion::UNDEFINED_INDEX,"a new union has no selection"); break;
  case structure: { const PVStructure&s=(const PVStructure&)f; const PVFieldPtrArray&v=s.getPVFields(); sv_check(v.size()==s.getStructure()->getNumberFields(),"a new structure has a value for every member"); for(size_t i=0;i<v.size();i++){ sv_check(sameType(*v[i]->getField(),*s.getStructure()->getField(i)),"a new structure has the declared types"); sv_check(v[i]->getParent()==&s&&v[i]->getFieldName()==s.getStructure()->getFieldName(i),"members know their structure and name"); fresh(*v[i]); } } }
  sv_check(!f.isImmutable(),"a new value is mutable"); }
static PVFieldPtr make(FieldP t,unsigned how){ switch(t->getType()){ case scalar: if(how)return DC()->createPVScalar(std::tr1::static_pointer_cast<const Scalar>(t)); break; case scalarArray: if(how)return DC()->createPVScalarArray(std::tr1::static_pointer_cast<const ScalarArray>(t)); break; case structure: if(how)return how==1?DC()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(t)):std::tr1::static_pointer_cast<const Structure>(t)->build(); break; case union_: if(how)return how==1?DC()->createPVUnion(std::tr1::static_pointer_cast<const Union>(t)):std::tr1::static_pointer_cast<const Union>(t)->build(); break; case structureArray: if(how)return DC()->createPVStructureArray(std::tr1::static_pointer_cast<const StructureArray>(t)); break; default: if(how)return DC()->createPVUnionArray(std::tr1::static_pointer_cast<const UnionArray>(t)); } return DC()->createPVField(t); }
QUICK(fresh_values){ unsigned k=sv_pick(zooLeaves+zooTrees,"type"); FieldP t=k<zooLeaves?leaf(k,2):tree(k-zooLeaves); if(t->getType()==scalarArray&&((const ScalarArray&)*t).getMaximumCapacity()>1000)sv_stop(); PVFieldPtr p=make(t,sv_pick(3,"how")); sv_check(sameType(*p->getField(),*t),"a new value has the type asked for"); sv_check(p->getParent()==0,"a new value has no parent"); fresh(*p); }
QUICK(fresh_by_code){ ScalarType t=(ScalarType)sv_pick(12,"type"); PVFieldPtr p; switch(sv_pick(2,"array")){ case 0: p=DC()->createPVScalar(t); sv_check(sameType(*p->getField(),*FC()->createScalar(t)),"a new value has the type asked for"); break; default: p=DC()->createPVScalarArray(t); sv_check(sameType(*p->getField(),*FC()->createScalarArray(t)),"a new value has the type asked for"); } fresh(*p); byScalarType(t,[&](auto x){ typedef decltype(x) T; std::tr1::shared_ptr<PVScalarValue<T> > s=DC()->createPVScalar<PVScalarValue<T> >(); std::tr1::shared_ptr<PVValueArray<T> > a=DC()->createPVScalarArray<PVValueArray<T> >(); sv_check(s->getScalar()->getScalarType()==t&&a->getScalarArray()->getElementType()==t,"a new value has the type asked for"); fresh(*s); fresh(*a); }); sv_check(DC()->createPVVariantUnion()->getUnion()->isVariant()&&DC()->createPVVariantUnionArray()->getUnionArray()->getUnion()->isVariant(),"a variant union is variant"); sv_check(THROWS(FC()->createScalar((ScalarType)99))&&THROWS(FC()->createScalarArray((ScalarType)99)),"there are no other scalar types"); }
// ---- clones
QUICK(clones){ unsigned k=sv_pick(zooLeaves+7,"type"); static const unsigned K[7]={0,2,3,4,5,1,8}; FieldP t=k<zooLeaves?leaf(k,2):tree(K[k-zooLeaves]); PVFieldPtr a=DC()->createPVField(t); symval_strlen=2; Shape sh; sh.alen=2; fill(*a,sh); PVFieldPtr b; unsigned how=sv_pick(2,"how"); if(how==0)b=DC()->createPVField(a); else switch(t->getType()){ case scalar: b=DC()->createPVScalar(std::tr1::static_pointer_cast<PVScalar>(a)); break; case scalarArray: b=DC()->createPVScalarArray(std::tr1::static_pointer_cast<PVScalarArray>(a)); break; case structure: b=DC()->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(a)); break; case union_: b=DC()->createPVUnion(std::tr1::static_pointer_cast<PVUnion>(a)); break; default: b=DC()->createPVField(a); }
  sv_check(sameType(*t,*b->getField()),"a clone has the type of its original"); sv_check(a!=b&&same(*a,*b),"a clone has the value of its original"); Bytes w0,w1; wField(w0,*a,EPICS_ENDIAN_LITTLE); sh.alen=2; switch(t->getType()){ case scalar: fill(*b,sh); break; case scalarArray: byScalarType(((const ScalarArray&)*t).getElementType(),[&](auto x){ typedef decltype(x) T; PVValueArray<T>&v=(PVValueArray<T>&)*b; if(v.getLength()==0)return; typename PVValueArray<T>::svector s(v.reuse()); s[0]=T(); v.replace(freeze(s)); }); break; case structure: { PVFieldPtrArray const&f=((PVStructure&)*b).getPVFields(); if(!f.empty())fill(*f[0],sh); break; } case union_: if(!((PVUnion&)*b).getUnion()->isVariant()&&((PVUnion&)*b).get()&&((PVUnion&)*b).get()->getField()->getType()==scalar)fill(*((PVUnion&)*b).get()); ((PVUnion&)*b).select(PVUnion::UNDEFINED_INDEX); break; case structureArray: ((PVStructureArray&)*b).append(1); break; default: ((PVUnionArray&)*b).append(1); } wField(w1,*a,EPICS_ENDIAN_LITTLE); sv_check(eqBytes(w0,w1),"changing a clone leaves the original alone"); }
// ---- structures of given values
QUICK(of_fields){ StringArray n; PVFieldPtrArray f; unsigned k=sv_pick(4,"count"); for(unsigned i=0;i<k;i++){ n.push_back(symString(1,"name")); switch(sv_pick(3,"kind")){ case 0: { PVIntPtr p=DC()->createPVScalar<PVInt>(); p->put(sv_any<int32>("v")); f.push_back(p); break; } case 1: { PVStringArrayPtr p=DC()->createPVScalarArray<PVStringArray>(); f.push_back(p); break; } default: f.push_back(DC()->createPVStructure(FB()->add("q",pvInt)->createStructure())); } } bool ok=true; for(unsigned i=0;i<k;i++){ ok=ok&&okName(n[i]); for(unsigned j=0;j<i;j++)ok=ok&&n[i]!=n[j]; } Bytes w0,w1; for(unsigned i=0;i<k;i++)wField(w0,*f[i],EPICS_ENDIAN_LITTLE); bool t=false; PVStructurePtr p; PVFieldPtrArray g(f); try{ p=DC()->createPVStructure(n,g); }catch(std::exception&){ t=true; } sv_check(t==!ok,"a structure of given members is made exactly when their names are well-formed and different"); if(t)return; sv_check(p->getPVFields().size()==k,"the structure has the members given"); for(unsigned i=0;i<k;i++)sv_check(p->getPVFields()[i]==f[i]&&f[i]->getParent()==p.get()&&f[i]->getFieldName()==n[i]&&f[i]->getFieldOffset()<p->getNextFieldOffset()&&sameType(*p->getStructure()->getField(i),*f[i]->getField()),"the structure has the members given, in order and under their names"); wField(w1,*p,EPICS_ENDIAN_LITTLE); sv_check(eqBytes(w0,w1),"the members keep their values"); }
// ---- standard fields
static FieldP alarmT(){ return FB()->setId("alarm_t")->add("severity",pvInt)->add("status",pvInt)->add("message",pvString)->createStructure(); }
static FieldP timeT(){ return FB()->setId("time_t")->add("secondsPastEpoch",pvLong)->add("nanoseconds",pvInt)->add("userTag",pvInt)->createStructure(); }
static FieldP displayT(){ return FB()->setId("display_t")->add("limitLow",pvDouble)->add("limitHigh",pvDouble)->add("description",pvString)->add("format",pvString)->add("units",pvString)->createStructure(); }
static FieldP controlT(){ return FB()->setId("control_t")->add("limitLow",pvDouble)->add("limitHigh",pvDouble)->add("minStep",pvDouble)->createStructure(); }
static FieldP valueAlarmT(ScalarType t){ if(t==pvBoolean)return FB()->setId("valueAlarm_t")->add("active",pvBoolean)->add("falseSeverity",pvInt)->add("trueSeverity",pvInt)->add("changeStateSeverity",pvInt)->createStructure(); return FB()->setId("valueAlarm_t")->add("active",pvBoolean)->add("lowAlarmLimit",t)->add("lowWarningLimit",t)->add("highWarningLimit",t)->add("highAlarmLimit",t)->add("lowAlarmSeverity",pvInt)->add("lowWarningSeverity",pvInt)->add("highWarningSeverity",pvInt)->add("highAlarmSeverity",pvInt)->add("hysteresis",pvByte)->createStructure(); }
static FieldP enumT(){ return FB()->setId("enum_t")->add("index",pvInt)->addArray("choices",pvString)->createStructure(); }
static FieldP enumAlarmT(){ return FB()->setId("valueAlarm_t")->add("active",pvBoolean)->add("stateSeverity",pvInt)->add("changeStateSeverity",pvInt)->createStructure(); }
QUICK(standard){ unsigned m=sv_pick(32,"properties"),k=sv_pick(8,"kind"); ScalarType t=k<2?(ScalarType)sv_pick(12,"type"):pvInt; static const char*P[5]={"alarm","timeStamp","display","control","valueAlarm"}; std::string props; for(int i=0;i<5;i++)if(m>>i&1){ if(!props.empty())props+=","; props+=P[i]; }
  FieldP v,va; const char*id; StandardFieldPtr sf=getStandardField(); StandardPVFieldPtr sp=getStandardPVField(); StructureConstPtr st=std::tr1::static_pointer_cast<const Structure>(tree(0)); UnionConstPtr un=std::tr1::static_pointer_cast<const Union>(tree(2)); StructureConstPtr got; PVStructurePtr pv; bool threw=false; StringArray ch; ch.push_back("x"); ch.push_back("y");
  switch(k){ case 0: v=FC()->createScalar(t); id="epics:nt/NTScalar:1.0"; if(t!=pvString)va=valueAlarmT(t); break; case 1: v=FC()->createScalarArray(t); id="epics:nt/NTScalarArray:1.0"; if(t!=pvString)va=valueAlarmT(t); break; case 2: v=FC()->createStructureArray(st); id="epics:nt/NTStructureArray:1.0"; break; case 3: v=FC()->createUnionArray(un); id="epics:nt/NTUnionArray:1.0"; break; case 4: v=un; id="epics:nt/NTUnion:1.0"; break; case 5: v=FC()->createVariantUnion(); id="epics:nt/NTUnion:1.0"; break; default: v=enumT(); va=enumAlarmT(); id="epics:nt/NTEnum:1.0"; }
  try{ switch(k){ case 0: got=sf->scalar(t,props); pv=sp->scalar(t,props); break; case 1: got=sf->scalarArray(t,props); pv=sp->scalarArray(t,props); break; case 2: got=sf->structureArray(st,props); pv=sp->structureArray(st,props); break; case 3: got=sf->unionArray(un,props); pv=sp->unionArray(un,props); break; case 4: got=sf->regUnion(un,props); break; case 5: got=sf->variantUnion(props); break; case 6: got=sf->enumerated(props); pv=sp->enumerated(ch,props); break; default: got=sf->enumerated(); pv=sp->enumerated(ch); } }catch(std::logic_error&){ threw=true; }
  if(k==7){ sv_check(!threw&&sameType(*got,*enumT())&&sameType(*pv->getField(),*enumT()),"an enumeration has index and choices"); PVStringArray::const_svector c=pv->getSubFieldT<PVStringArray>("choices")->view(); sv_check(c.size()==2&&c[0]=="x"&&c[1]=="y","an enumeration has the choices given"); return; }
  sv_check(threw==((m&16)&&!va),"a value alarm is refused exactly where there is none"); if(threw)return; FieldBuilderPtr b=FB()->setId(id)->add("value",v); if(m&1)b->add("alarm",alarmT()); if(m&2)b->add("timeStamp",timeT()); if(m&4)b->add("display",displayT()); if(m&8)b->add("control",controlT()); if(m&16)b->add("valueAlarm",va); FieldP want=b->createStructure(); sv_check(sameType(*want,*got),"a standard field has exactly the value and the properties asked for"); if(pv){ sv_check(sameType(*want,*pv->getField()),"a standard value has the type of the standard field"); if(k==6){ PVStringArray::const_svector c=pv->getSubFieldT<PVStringArray>("value.choices")->view(); sv_check(c.size()==2&&c[0]=="x"&&c[1]=="y","an enumeration has the choices given"); } else fresh(*pv); } }
// standard properties by name
QUICK(standard_properties){ StandardFieldPtr sf=getStandardField(); ScalarType t=(ScalarType)sv_pick(11,"type"); StructureConstPtr g; switch(t){ case pvBoolean: g=sf->booleanAlarm(); break; case pvByte: g=sf->byteAlarm(); break; case pvShort: g=sf->shortAlarm(); break; case pvInt: g=sf->intAlarm(); break; case pvLong: g=sf->longAlarm(); break; case pvUByte: g=sf->ubyteAlarm(); break; case pvUShort: g=sf->ushortAlarm(); break; case pvUInt: g=sf->uintAlarm(); break; case pvULong: g=sf->ulongAlarm(); break; case pvFloat: g=sf->floatAlarm(); break; default: g=sf->doubleAlarm(); } sv_check(sameType(*g,*valueAlarmT(t)),"the standard properties have their fields"); sv_check(sameType(*sf->alarm(),*alarmT())&&sameType(*sf->timeStamp(),*timeT())&&sameType(*sf->display(),*displayT())&&sameType(*sf->control(),*controlT())&&sameType(*sf->enumeratedAlarm(),*enumAlarmT()),"the standard properties have their fields"); }
