//@title Value serialization round-trip
//@bounds scalars and arrays of all 12 element types (strings of 0..3 characters), array kinds variable / bounded / fixed with 0..3 elements, receiver holding 0 or 2 other elements before
//@bounds structures nested to depth 3 with every member kind, unions with 0..4 members and every selector, variant unions holding null, int, string and ushort[], arrays of structures and unions with 0..2 elements each null or not
//@bounds transport: both byte orders, send buffers of 9, 11, 17, 64 and 256 bytes, receive side delivering 1, 3 or 4 bytes at a time or everything at once, with and without direct transfer
//@assume fixed size arrays have been assigned a value of their size before they are sent
//@assume a send buffer holds at least one scalar element (9 bytes)
//@explain oracle: an independent encoder (val.h) written from the serialization protocol gives the expected bytes; an independent bitwise deep comparison compares sender and receiver
#include "val.h"
static void roundtrip(const PVField&src,PVField&dst,const Link&l){
  Bytes want; wField(want,src,l.order);
  Out o(l.cap,l.order,l.dir,l.pre); src.serialize(&o.buf,&o); Bytes r=o.done();
  sv_check(r.size()==want.size(),"the encoding has the length the protocol prescribes"); sv_check(eqBytes(r,want),"the encoding has the bytes the protocol prescribes");
  r.push_back(0x5a); In in(r,l.rcap,l.step,l.order,l.dir); dst.deserialize(&in.buf,&in);
  sv_check(in.consumed()==r.size()-1,"decoding consumes exactly the bytes that were produced"); sv_check(same(src,dst),"the decoded value is bit for bit the encoded one"); }
static void both(FieldP f,const Shape&sh=Shape(),bool dirty=true){
  PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); fill(*a,sh); if(dirty&&sv_pick(2,"dirty"))fill(*b,sh); roundtrip(*a,*b,pickLink()); }
QUICK(scalars){ symval_strlen=4; unsigned t=sv_pick(13,"type"); both(t==12?FieldP(getFieldCreate()->createBoundedString(3)):FieldP(getFieldCreate()->createScalar((ScalarType)t))); }
QUICK(arrays){ symval_strlen=1; ScalarType t=(ScalarType)sv_pick(12,"type"); unsigned k=sv_pick(3,"kind"); FieldCreatePtr fc=getFieldCreate(); FieldP f=k==0?fc->createScalarArray(t):k==1?fc->createBoundedScalarArray(t,4):fc->createFixedScalarArray(t,3);
  PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); unsigned n=k==2?3:sv_pick(4,"len"); Shape s; if(t==pvString)symval_strlen=2;
  byScalarType(t,[&](auto x){ typedef decltype(x) T; ((PVValueArray<T>&)*a).replace(symArr<T>(n)); if(sv_pick(2,"dirty")){ shared_vector<const T> old=symArr<T>(k==2?3:2); ((PVValueArray<T>&)*b).replace(old); if(sv_pick(2,"shared")){ shared_vector<const T> keep(old); shared_vector<T> cp(old.size()); std::copy(old.begin(),old.end(),cp.begin()); roundtrip(*a,*b,pickLink()); sv_check(eqa(keep,shared_vector<const T>(freeze(cp))),"decoding does not change another holder of the old array"); return; } } roundtrip(*a,*b,pickLink()); }); }
QUICK(long_array){ static const unsigned ns[4]={16,253,254,300}; PVUShortArrayPtr a=getPVDataCreate()->createPVScalarArray<PVUShortArray>(),b=getPVDataCreate()->createPVScalarArray<PVUShortArray>(); unsigned n=ns[sv_pick(4,"len")]; shared_vector<uint16> v(n); for(unsigned i=0;i<n;i++)v[i]=(uint16)(i*257+3); v[0]=symVal<uint16>("e"); v[n/2]=symVal<uint16>("e"); v[n-1]=symVal<uint16>("e"); a->replace(freeze(v)); Link l=pickLink(); l.rcap=l.step?16:1024; roundtrip(*a,*b,l); }
QUICK(structures){ FieldP f=FB()->add("a",pvInt)->addNestedStructure("s")->add("x",pvString)->addNestedStructure("t")->addArray("y",pvShort)->add("z",pvBoolean)->endNested()->add("w",pvDouble)->endNested()->addFixedArray("fx",pvUByte,2)->add("e",pvFloat)->createStructure(); Shape s; both(f,s,false); }
QUICK(unions){ FieldP f=FB()->add("i",pvInt)->add("s",pvString)->addArray("d",pvDouble)->addNestedStructure("n")->add("x",pvByte)->addNestedUnion("u")->add("p",pvLong)->add("q",pvUByte)->endNested()->endNested()->createUnion(); both(f); }
QUICK(variants){ both(getFieldCreate()->createVariantUnion()); }
QUICK(struct_arrays){ Shape s; s.alen=3; s.nulls=true; FieldP f=getFieldCreate()->createStructureArray(FB()->add("x",pvUInt)->add("s",pvString)->createStructure()); PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); symval_strlen=1; fill(*a,s); PVStructureArray::const_svector keep; PVFieldPtr k0; if(sv_pick(2,"dirty")){ fill(*b,s); if(sv_pick(2,"shared")){ keep=((PVStructureArray&)*b).view(); } } unsigned n=keep.size(); uint32 old[4]; for(unsigned i=0;i<n;i++)if(keep[i])old[i]=keep[i]->getSubFieldT<PVUInt>("x")->get(); Link l; l.order=pickOrder(); l.cap=9; l.rcap=16; l.step=1; l.dir=false; roundtrip(*a,*b,l); for(unsigned i=0;i<n;i++)if(keep[i])sv_check(keep[i]->getSubFieldT<PVUInt>("x")->get()==old[i],"decoding does not change elements somebody else holds"); }
QUICK(union_arrays){ Shape s; s.alen=3; s.nulls=true; symval_strlen=1; FieldP f=sv_pick(2,"variant")?FieldP(getFieldCreate()->createVariantUnionArray()):FieldP(getFieldCreate()->createUnionArray(FB()->add("i",pvShort)->addArray("s",pvUByte)->createUnion())); PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); s.alen=2; fill(*b,s); s.alen=3; if(f->getID()=="any[]")s.alen=2; fill(*a,s); Link l; l.order=pickOrder(); l.cap=9; l.rcap=16; l.step=1; l.dir=false; roundtrip(*a,*b,l); }
// the same structure in a second message over the first (state left by an earlier decode)
QUICK(repeated){ symval_strlen=3; FieldP f=FB()->addArray("a",pvInt)->addArray("s",pvString)->addNestedUnion("u")->add("i",pvInt)->add("t",pvString)->endNested()->createStructure(); PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); Link l; l.order=pickOrder(); l.cap=9; l.rcap=16; l.step=1; l.dir=sv_pick(2,"direct");
  PVIntArray&ia=*((PVStructure&)*a).getSubFieldT<PVIntArray>("a"); PVStringArray&sa=*((PVStructure&)*a).getSubFieldT<PVStringArray>("s"); PVUnion&u=*((PVStructure&)*a).getSubFieldT<PVUnion>("u");
  static const unsigned ls[3][2]={{2,1},{1,3},{0,2}}; unsigned k=sv_pick(3,"lens"); for(unsigned m=0;m<2;m++){ symval_strlen=1; ia.replace(symArr<int32>(ls[k][m])); sa.replace(symArr<std::string>(ls[k][m])); unsigned w=sv_pick(3,"sel"); if(w==2)u.select(PVUnion::UNDEFINED_INDEX); else if(w)u.select<PVString>(1)->put(symString(1)); else u.select<PVInt>(0)->put(symVal<int32>("v")); roundtrip(*a,*b,l); } }
// sending a part of an array or string
QUICK(partial){ ScalarType t=sv_pick(2,"type")?pvString:pvUShort; unsigned n=sv_pick(4,"len"); size_t off=sv_any<size_t>("offset"),cnt=sv_any<size_t>("count"); symval_strlen=2; Link l=pickLink(); Bytes want; size_t b=off<n?off:n,m=cnt<n-b?cnt:n-b; b=sv_concrete(b);m=sv_concrete(m);
  byScalarType(t,[&](auto x){ typedef decltype(x) T; std::tr1::shared_ptr<PVValueArray<T> > a=getPVDataCreate()->createPVScalarArray<PVValueArray<T> >(); shared_vector<const T> v=symArr<T>(n); a->replace(v); wSize(want,m,l.order); for(size_t i=0;i<m;i++)wVal(want,v[b+i],l.order); Out o(l.cap,l.order,l.dir,l.pre); a->serialize(&o.buf,&o,off,cnt); Bytes r=o.done(); sv_check(r.size()==want.size()&&eqBytes(r,want),"a part of an array is sent as the array of the clipped part"); }); }
QUICK(partial_struct){ unsigned n=sv_pick(4,"len"); PVStructureArrayPtr a=getPVDataCreate()->createPVStructureArray(getFieldCreate()->createStructureArray(FB()->add("x",pvUByte)->createStructure())); PVUnionArrayPtr ua=getPVDataCreate()->createPVUnionArray(getFieldCreate()->createUnionArray(FB()->add("x",pvUByte)->createUnion())); bool un=sv_pick(2,"union"); size_t off=sv_any<size_t>("offset"),cnt=sv_any<size_t>("count"); Bytes want; size_t b=off<n?off:n,m=cnt<n-b?cnt:n-b; b=sv_concrete(b);m=sv_concrete(m); wSize(want,m,EPICS_ENDIAN_LITTLE);
  PVStructureArray::svector v(n); PVUnionArray::svector w(n); for(unsigned i=0;i<n;i++)if(i!=1){ uint8 x=sv_any<uint8>("x"); v[i]=getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure()); v[i]->getSubFieldT<PVUByte>("x")->put(x); w[i]=getPVDataCreate()->createPVUnion(ua->getUnionArray()->getUnion()); w[i]->select<PVUByte>(0)->put(x); if(i>=b&&i<b+m){ want.push_back(1); if(un)want.push_back(0); want.push_back(x); } } else if(i>=b&&i<b+m)want.push_back(0);
  a->replace(freeze(v)); ua->replace(freeze(w)); Out o(9,EPICS_ENDIAN_LITTLE); if(un)ua->serialize(&o.buf,&o,off,cnt); else a->serialize(&o.buf,&o,off,cnt); Bytes r=o.done(); sv_check(r.size()==want.size()&&eqBytes(r,want),"a part of a structure or union array is sent as the array of the clipped part"); }
