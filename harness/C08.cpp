//@title Arbitrary input bytes
//@bounds type descriptions: every byte string of 0..3 bytes (quick) / 0..6 (thorough); every continuation of 0..2 (4) bytes after 11 prefixes that open structures, unions, arrays of them, bounded types and nested descriptions
//@bounds values: every byte string of 0..2 (quick) to 0..4 (4..7 thorough) bytes decoded into 12 kinds of value (scalar, strings, arrays of every kind, structures, unions, variant, arrays of structures / unions) that hold a previous value (also with null elements); then decoding again, printing sizes and encoding
//@bounds partial updates: every mask encoding of 0..2 bytes and every data of 0..3 (4) bytes into a nested structure
//@assume an allocation of more than 72 bytes announced by a symbolic size fails with bad_alloc (the real one may succeed and then run out of data)
//@assume nesting depth of decoded type descriptions is bounded by the input length
//@explain memory accesses are checked by AddressSanitizer shadow and by solver queries on every symbolic address; an abort is a violation
#include "zoo.h"
static void wellFormed(FieldP f){ // use the description the ordinary way
  sv_check(sameType(*f,*f),"an accepted description is well formed"); Out o(64); f->serialize(&o.buf,&o); Bytes&b=o.done(); sv_check(b.size()>0,"an accepted description can be encoded"); std::string id=f->getID(); (void)id;
  PVFieldPtr v; try{ v=getPVDataCreate()->createPVField(f); }catch(std::bad_alloc&){ sv_cover("fixed array too large to make"); return; } Out o2(64); try{ v->serialize(&o2.buf,&o2); }catch(std::length_error&){} sv_check(same(*v,*v),"a value of an accepted description can be made"); }
static void typeBytes(const Bytes&e){ int ord=EPICS_ENDIAN_BIG; In in(e,64,e.size()&1,ord); sv_symcap(72); FieldP f; try{ f=getFieldCreate()->deserialize(&in.buf,&in); }catch(std::exception&){ sv_check(in.consumed()<=e.size(),"a refused description does not consume more than there is"); return; } sv_check(in.consumed()<=e.size(),"a decoded description does not consume more than there is"); if(f){ if(f->getType()==scalarArray&&((const ScalarArray&)*f).getMaximumCapacity()>64)return; wellFormed(f); } else sv_check(e[0]==0xff,"only the null code gives no description"); }
QUICK(type_any){ typeBytes(symBytes(sv_pick(sv_tier?7:4,"len"))); }
static const char*const pre[11]={"\x88","\x89","\x80\x00\x01\x01" "a","\x81\x00\x01\x01" "a","\x80\x00\x02\x01" "a\x22\x01","\x88\x80\x00\x01\x01" "a","\x83","\x31","\x38","\x80\x01" "x","\x81\x00\x02\x01" "a\x22"};
static const unsigned char prelen[11]={1,1,5,5,7,6,1,1,1,3,6};
QUICK(type_prefixed){ unsigned k=sv_pick(11,"prefix"); static const uint8_t fix[11]={1,1,5,5,7,6,1,1,1,3,6}; Bytes e; (void)prelen; static const uint8_t P[11][8]={{0x88},{0x89},{0x80,0,1,1,'a'},{0x81,0,1,1,'a'},{0x80,0,2,1,'a',0x22,1},{0x88,0x80,0,1,1,'a'},{0x83},{0x31},{0x38},{0x80,1,'x'},{0x81,0,2,1,'a',0x22}}; (void)pre; for(unsigned i=0;i<fix[k];i++)e.push_back(P[k][i]); Bytes s=symBytes(sv_pick(sv_tier?5:3,"len")); e.insert(e.end(),s.begin(),s.end()); typeBytes(e); }
static FieldP valueType(unsigned k){ FieldCreatePtr fc=getFieldCreate(); switch(k){ case 0: return fc->createScalar(pvDouble); case 1: return fc->createScalar(pvString); case 2: return fc->createBoundedString(2); case 3: return fc->createScalarArray(pvUShort); case 4: return fc->createBoundedScalarArray(pvUByte,2); case 5: return fc->createFixedScalarArray(pvShort,2); case 6: return fc->createScalarArray(pvString); case 7: return FB()->add("a",pvUByte)->add("b",pvString)->addNestedUnion("u")->add("i",pvUByte)->add("s",pvString)->endNested()->createStructure(); case 8: return FB()->add("i",pvUShort)->addArray("s",pvString)->createUnion(); case 9: return fc->createVariantUnion(); case 10: return fc->createStructureArray(FB()->add("x",pvUByte)->createStructure()); default: return fc->createUnionArray(FB()->add("x",pvUByte)->add("y",pvString)->createUnion()); } }
static void useValue(PVField&v){ sv_check(same(v,v),"the value is well formed"); Out o(64); try{ v.serialize(&o.buf,&o); }catch(std::length_error&){ sv_cover("fixed array without elements"); return; } Bytes&b=o.done(); PVFieldPtr w=getPVDataCreate()->createPVField(v.getField()); In in(b,256,0); w->deserialize(&in.buf,&in); sv_check(same(v,*w),"the value can be sent on"); PVFieldPtr c=getPVDataCreate()->createPVField(v.getField()); c->copyUnchecked(v); sv_check(same(v,*c),"the value can be copied"); }
static void valueBytes(unsigned k,const Bytes&e){ PVFieldPtr v=getPVDataCreate()->createPVField(valueType(k)); symval_strlen=1; Shape sh; sh.alen=2; { static const uint8_t seed[12][6]={{0},{1,'q'},{1,'q'},{1,7,0},{1,7},{7,0,7,0},{1,1,'q'},{5,0,1,1,'q'},{0,7,0},{0x22,1,2,3,4},{1,1,9},{1,1,0,9}}; Bytes s(seed[k],seed[k]+6); if(k>=10&&sv_pick(2,"null before")){ s[1]=0; s[2]=1; s[3]=k==10?9:0; s[4]=9; s[0]=(uint8_t)(1+sv_pick(2,"n")); } s.resize(8); In i0(s,64,0,EPICS_ENDIAN_LITTLE); v->deserialize(&i0.buf,&i0); }
  sv_symcap(72); In in(e,64,e.size()&1,EPICS_ENDIAN_BIG); try{ v->deserialize(&in.buf,&in); }catch(std::exception&){ } sv_check(in.consumed()<=e.size(),"no more bytes are consumed than there are"); useValue(*v); }
QUICK(value_scalar){ unsigned k=sv_pick(3,"kind"); Bytes e=symBytes(sv_pick(sv_tier?8:5,"len")); valueBytes(k,e); }
QUICK(value_array){ unsigned k=3+sv_pick(4,"kind"); Bytes e=symBytes(sv_pick(sv_tier?7:5,"len")); valueBytes(k,e); }
QUICK(value_compound){ unsigned k=7+sv_pick(2,"kind"); Bytes e=symBytes(sv_pick(sv_tier?6:5,"len")); valueBytes(k,e); }
QUICK(value_variant){ valueBytes(9,symBytes(sv_pick(sv_tier?5:3,"len"))); }
QUICK(value_elements){ unsigned k=10+sv_pick(2,"kind"); valueBytes(k,symBytes(sv_pick(sv_tier?7:5,"len"))); }
// a fresh value (no earlier contents)
QUICK(value_fresh){ unsigned k=sv_pick(12,"kind"); PVFieldPtr v=getPVDataCreate()->createPVField(valueType(k)); Bytes e=symBytes(sv_pick(sv_tier?4:3,"len")); sv_symcap(72); In in(e,64,1,EPICS_ENDIAN_LITTLE); try{ v->deserialize(&in.buf,&in); }catch(std::exception&){} useValue(*v); }
QUICK(update){ FieldP f=FB()->add("a",pvUByte)->addNestedStructure("s")->add("b",pvUByte)->addNestedUnion("u")->add("i",pvUByte)->add("j",pvUShort)->endNested()->endNested()->add("c",pvString)->createStructure(); PVFieldPtr v=getPVDataCreate()->createPVField(f); Bytes mb=symBytes(sv_pick(3,"mlen")),e=symBytes(sv_pick(sv_tier?5:4,"dlen")); In im(mb,32,0); BitSet m; try{ m.deserialize(&im.buf,&im); }catch(std::exception&){ } sv_symcap(72); In in(e,64,1); try{ ((PVStructure&)*v).deserialize(&in.buf,&in,&m); }catch(std::exception&){ } sv_check(in.consumed()<=e.size(),"no more bytes are consumed than there are"); useValue(*v); }
