// Values and types for the harnesses: symbolic filling, an independent deep comparison and an
// independent encoder written from the pvData serialization protocol.
#pragma once
#include "h.h"
typedef std::tr1::shared_ptr<const Field> FieldP;
template<class F> static void byScalarType(ScalarType t,F f){ switch(t){ case pvBoolean:f(boolean());break; case pvByte:f(int8());break; case pvShort:f(int16());break; case pvInt:f(int32());break; case pvLong:f(int64());break; case pvUByte:f(uint8());break; case pvUShort:f(uint16());break; case pvUInt:f(uint32());break; case pvULong:f(uint64());break; case pvFloat:f(float());break; case pvDouble:f(double());break; case pvString:f(std::string());break; } }
template<class T> static T symVal(const char*nm){ T t; sv_make(&t,sizeof t,nm); return t; }
static unsigned symval_strlen=2; // strings have 0..symval_strlen-1 characters
template<> inline std::string symVal<std::string>(const char*nm){ return symString(sv_pick(symval_strlen,"strlen"),nm); }
template<class T> static shared_vector<const T> symArr(size_t n){ shared_vector<T> v(n); for(size_t i=0;i<n;i++)v[i]=symVal<T>("elem"); return freeze(v); }
struct Shape{ unsigned alen; bool nulls; Shape():alen(2),nulls(false){} };  // array lengths 0..alen-1 by case split, or fixed
// bitwise equality of scalars, branch free
template<class T> static unsigned eqv(const T&a,const T&b){ unsigned char x[sizeof(T)],y[sizeof(T)]; memcpy(x,&a,sizeof a); memcpy(y,&b,sizeof b); unsigned d=0; for(size_t i=0;i<sizeof a;i++)d|=x[i]^y[i]; return d==0; }
static unsigned eqv(const std::string&a,const std::string&b){ if(a.size()!=b.size())return 0; unsigned d=0; for(size_t i=0;i<a.size();i++)d|=(unsigned char)(a[i]^b[i]); return d==0; }
template<class T> static unsigned eqa(const shared_vector<const T>&a,const shared_vector<const T>&b){ if(a.size()!=b.size())return 0; unsigned r=1; for(size_t i=0;i<a.size();i++)r&=eqv(a[i],b[i]); return r; }
// independent comparison of type descriptions: kind, element type, bounds, identifier, member names, order, types
static bool sameType(const Field&a,const Field&b){
  if(a.getType()!=b.getType())return false;
  switch(a.getType()){
  case scalar:{ const Scalar&x=(const Scalar&)a,&y=(const Scalar&)b; if(x.getScalarType()!=y.getScalarType())return false; const BoundedString*p=dynamic_cast<const BoundedString*>(&a),*q=dynamic_cast<const BoundedString*>(&b); return (!p&&!q)||(p&&q&&p->getMaximumLength()==q->getMaximumLength()); }
  case scalarArray:{ const ScalarArray&x=(const ScalarArray&)a,&y=(const ScalarArray&)b; return x.getElementType()==y.getElementType()&&x.getArraySizeType()==y.getArraySizeType()&&(x.getArraySizeType()==Array::variable||x.getMaximumCapacity()==y.getMaximumCapacity()); }
  case structureArray: return sameType(*((const StructureArray&)a).getStructure(),*((const StructureArray&)b).getStructure());
  case unionArray: return sameType(*((const UnionArray&)a).getUnion(),*((const UnionArray&)b).getUnion());
  case structure:{ const Structure&x=(const Structure&)a,&y=(const Structure&)b; if(!eqv(x.getID(),y.getID())||x.getNumberFields()!=y.getNumberFields())return false; for(size_t i=0;i<x.getNumberFields();i++)if(!eqv(x.getFieldName(i),y.getFieldName(i))||!sameType(*x.getField(i),*y.getField(i)))return false; return true; }
  case union_:{ const Union&x=(const Union&)a,&y=(const Union&)b; if(x.isVariant()!=y.isVariant())return false; if(!eqv(x.getID(),y.getID())||x.getNumberFields()!=y.getNumberFields())return false; for(size_t i=0;i<x.getNumberFields();i++)if(!eqv(x.getFieldName(i),y.getFieldName(i))||!sameType(*x.getField(i),*y.getField(i)))return false; return true; } }
  return false; }
// independent deep comparison of values (bitwise)
static unsigned same(const PVField&a,const PVField&b){
  if(a.getField()->getType()!=b.getField()->getType())return 0;
  unsigned r=1;
  switch(a.getField()->getType()){
  case scalar:{ const PVScalar&x=(const PVScalar&)a,&y=(const PVScalar&)b; if(x.getScalar()->getScalarType()!=y.getScalar()->getScalarType())return 0; byScalarType(x.getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; r=eqv(((const PVScalarValue<T>&)a).get(),((const PVScalarValue<T>&)b).get()); }); return r; }
  case scalarArray:{ const PVScalarArray&x=(const PVScalarArray&)a,&y=(const PVScalarArray&)b; if(x.getScalarArray()->getElementType()!=y.getScalarArray()->getElementType())return 0; byScalarType(x.getScalarArray()->getElementType(),[&](auto t){ typedef decltype(t) T; r=eqa(((const PVValueArray<T>&)a).view(),((const PVValueArray<T>&)b).view()); }); return r; }
  case structure:{ const PVFieldPtrArray&x=((const PVStructure&)a).getPVFields(),&y=((const PVStructure&)b).getPVFields(); if(x.size()!=y.size())return 0; for(size_t i=0;i<x.size();i++)r&=same(*x[i],*y[i]); return r; }
  case structureArray:{ PVStructureArray::const_svector x(((const PVStructureArray&)a).view()),y(((const PVStructureArray&)b).view()); if(x.size()!=y.size())return 0; for(size_t i=0;i<x.size();i++){ if(!x[i]||!y[i]){ if(x[i]||y[i])return 0; } else r&=same(*x[i],*y[i]); } return r; }
  case unionArray:{ PVUnionArray::const_svector x(((const PVUnionArray&)a).view()),y(((const PVUnionArray&)b).view()); if(x.size()!=y.size())return 0; for(size_t i=0;i<x.size();i++){ if(!x[i]||!y[i]){ if(x[i]||y[i])return 0; } else r&=same(*x[i],*y[i]); } return r; }
  case union_:{ const PVUnion&x=(const PVUnion&)a,&y=(const PVUnion&)b; if(x.getSelectedIndex()!=y.getSelectedIndex())return 0; PVField::const_shared_pointer p=x.get(),q=y.get(); if(!p||!q)return !p&&!q; if(!sameType(*p->getField(),*q->getField()))return 0; return same(*p,*q); } }
  return 0; }
// fill a value with symbolic contents through the public interface
static void fill(PVField&f,const Shape&sh=Shape()){
  switch(f.getField()->getType()){
  case scalar: byScalarType(((PVScalar&)f).getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; ((PVScalarValue<T>&)f).put(symVal<T>("val")); }); break;
  case scalarArray:{ PVScalarArray&a=(PVScalarArray&)f; const ScalarArray&sa=*a.getScalarArray(); size_t n=sa.getArraySizeType()==Array::fixed?sa.getMaximumCapacity():sv_pick(sh.alen,"alen"); byScalarType(sa.getElementType(),[&](auto t){ typedef decltype(t) T; ((PVValueArray<T>&)f).replace(symArr<T>(n)); }); break; }
  case structure:{ const PVFieldPtrArray&x=((PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)fill(*x[i],sh); break; }
  case structureArray:{ PVStructureArray&a=(PVStructureArray&)f; size_t n=sv_pick(sh.alen,"slen"); PVStructureArray::svector v(n); for(size_t i=0;i<n;i++)if(!sh.nulls||sv_pick(2,"nonnull")){ v[i]=getPVDataCreate()->createPVStructure(a.getStructureArray()->getStructure()); fill(*v[i],sh); } a.replace(freeze(v)); break; }
  case unionArray:{ PVUnionArray&a=(PVUnionArray&)f; size_t n=sv_pick(sh.alen,"ulen"); PVUnionArray::svector v(n); for(size_t i=0;i<n;i++)if(!sh.nulls||sv_pick(2,"nonnull")){ v[i]=getPVDataCreate()->createPVUnion(a.getUnionArray()->getUnion()); fill(*v[i],sh); } a.replace(freeze(v)); break; }
  case union_:{ PVUnion&u=(PVUnion&)f; if(u.getUnion()->isVariant()){ switch(sv_pick(4,"variant")){ case 0: u.set(PVFieldPtr()); break; case 1:{ PVIntPtr p=getPVDataCreate()->createPVScalar<PVInt>(); p->put(symVal<int32>("any")); u.set(p); break; } case 2:{ PVStringPtr p=getPVDataCreate()->createPVScalar<PVString>(); p->put(symVal<std::string>("any")); u.set(p); break; } default:{ PVUShortArrayPtr p=getPVDataCreate()->createPVScalarArray<PVUShortArray>(); p->replace(symArr<uint16>(2)); u.set(p); } } }
    else { unsigned n=u.getUnion()->getNumberFields(),k=sv_pick(n+1,"selector"); if(k==n)u.select(PVUnion::UNDEFINED_INDEX); else fill(*u.select((int32)k),sh); } break; } } }
// ---- reference encoder
static void wSize(Bytes&o,size_t n,int ord){ if(n==(size_t)-1)o.push_back(0xff); else if(n<254)o.push_back((uint8_t)n); else { o.push_back(0xfe); for(int k=0;k<4;k++)o.push_back((uint8_t)(n>>(8*(ord==EPICS_ENDIAN_BIG?3-k:k)))); } }
template<class T> static void wVal(Bytes&o,const T&v,int ord){ unsigned char b[sizeof(T)]; memcpy(b,&v,sizeof v); for(size_t k=0;k<sizeof v;k++)o.push_back(b[ord==EPICS_ENDIAN_BIG?sizeof v-1-k:k]); }
static void wVal(Bytes&o,const std::string&s,int ord){ wSize(o,s.size(),ord); for(size_t i=0;i<s.size();i++)o.push_back((uint8_t)s[i]); }
static const uint8_t wCode[12]={0x00,0x20,0x21,0x22,0x23,0x24,0x25,0x26,0x27,0x42,0x43,0x60};
static void wType(Bytes&o,const Field*f,int ord){ if(!f){o.push_back(0xff);return;}
  switch(f->getType()){
  case scalar:{ const BoundedString*p=dynamic_cast<const BoundedString*>(f); if(p){o.push_back(0x83);wSize(o,p->getMaximumLength(),ord);} else o.push_back(wCode[((const Scalar*)f)->getScalarType()]); break; }
  case scalarArray:{ const ScalarArray*a=(const ScalarArray*)f; uint8_t c=wCode[a->getElementType()]; Array::ArraySizeType t=a->getArraySizeType(); o.push_back(c|(t==Array::variable?0x08:t==Array::bounded?0x10:0x18)); if(t!=Array::variable)wSize(o,a->getMaximumCapacity(),ord); break; }
  case structure:{ const Structure*s=(const Structure*)f; o.push_back(0x80); std::string id=s->getID(); wVal(o,id=="structure"?std::string():id,ord); wSize(o,s->getNumberFields(),ord); for(size_t i=0;i<s->getNumberFields();i++){ wVal(o,s->getFieldName(i),ord); wType(o,s->getField(i).get(),ord); } break; }
  case structureArray: o.push_back(0x88); wType(o,((const StructureArray*)f)->getStructure().get(),ord); break;
  case union_:{ const Union*s=(const Union*)f; if(!s->getNumberFields()){o.push_back(0x82);break;} o.push_back(0x81); std::string id=s->getID(); wVal(o,id=="union"?std::string():id,ord); wSize(o,s->getNumberFields(),ord); for(size_t i=0;i<s->getNumberFields();i++){ wVal(o,s->getFieldName(i),ord); wType(o,s->getField(i).get(),ord); } break; }
  case unionArray:{ const Union*u=((const UnionArray*)f)->getUnion().get(); if(!u->getNumberFields())o.push_back(0x8a); else { o.push_back(0x89); wType(o,u,ord); } break; } } }
static void wField(Bytes&o,const PVField&f,int ord){
  switch(f.getField()->getType()){
  case scalar: byScalarType(((const PVScalar&)f).getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; wVal(o,((const PVScalarValue<T>&)f).get(),ord); }); break;
  case scalarArray:{ const ScalarArray&sa=*((const PVScalarArray&)f).getScalarArray(); byScalarType(sa.getElementType(),[&](auto t){ typedef decltype(t) T; shared_vector<const T> v(((const PVValueArray<T>&)f).view()); if(sa.getArraySizeType()!=Array::fixed)wSize(o,v.size(),ord); for(size_t i=0;i<v.size();i++)wVal(o,v[i],ord); }); break; }
  case structure:{ const PVFieldPtrArray&x=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)wField(o,*x[i],ord); break; }
  case structureArray:{ PVStructureArray::const_svector v(((const PVStructureArray&)f).view()); wSize(o,v.size(),ord); for(size_t i=0;i<v.size();i++){ o.push_back(v[i]?1:0); if(v[i])wField(o,*v[i],ord); } break; }
  case unionArray:{ PVUnionArray::const_svector v(((const PVUnionArray&)f).view()); wSize(o,v.size(),ord); for(size_t i=0;i<v.size();i++){ o.push_back(v[i]?1:0); if(v[i])wField(o,*v[i],ord); } break; }
  case union_:{ const PVUnion&u=(const PVUnion&)f; PVField::const_shared_pointer p=u.get(); if(u.getUnion()->isVariant()){ wType(o,p?p->getField().get():0,ord); if(p)wField(o,*p,ord); } else { wSize(o,u.getSelectedIndex()==PVUnion::UNDEFINED_INDEX?(size_t)-1:(size_t)u.getSelectedIndex(),ord); if(u.getSelectedIndex()!=PVUnion::UNDEFINED_INDEX)wField(o,*p,ord); } break; } } }
static unsigned eqBytes(const Bytes&a,const Bytes&b){ if(a.size()!=b.size())return 0; unsigned d=0; for(size_t i=0;i<a.size();i++)d|=a[i]^b[i]; return d==0; }
// a transport: byte order, send buffer, receive fragmentation, direct transfer
struct Link{ int order; size_t cap,rcap,step,pre; bool dir; Link():pre(0){} };
static Link pickLink(){ static const size_t cap[5]={9,17,256,64,11}; static const size_t step[5]={1,0,4,3,0},pre[5]={4,12,0,61,3}; Link l; unsigned k=sv_pick(10,"link"); l.order=k&1?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; k/=2; l.cap=cap[k]; l.pre=pre[k]; l.step=step[k]; l.rcap=l.step?16:512; l.dir=k==2||k==3; return l; }
static FieldBuilderPtr FB(){ return getFieldCreate()->createFieldBuilder(); }
