//@title JSON input and output match the structure
//@bounds documents of 1..2 members out of 14 field kinds, each with 24 kinds of value (null, booleans, integers, reals, texts, arrays and objects of matching and wrong nesting), in both orders, repeated members, unknown names; integers and texts symbolic; earlier contents symbolic; also values assigned to single fields of every kind
//@bounds untyped documents of 1..3 members of 17 kinds of value on 3 levels with repeated and ill-formed names
//@bounds printing: values of every kind with symbolic contents (texts printable), array lengths 0..2, every mask over a structure of 8 fields on 3 levels, on its own and inside another, both number conventions; printing and parsing back (booleans 0 or 1, floats not subnormal)
//@explain the yajl library (binary only) is replaced by its event interface in symbolic runs and is the real one in native replays; oracle: own assignment of a document model to fields, own list of events for a value
#include "zoo.h"
#include "env_json.h"
#include <pv/json.h>
#include <cmath>
static FieldCreatePtr FC(){ return getFieldCreate(); } static PVDataCreatePtr DC(){ return getPVDataCreate(); }
struct J{ char t; long long i; double d; std::string s; std::vector<std::pair<std::string,J> > m; std::vector<J> a; J(char t='n'):t(t),i(0),d(0){} };
static J jI(long long v){ J j('i'); j.i=v; return j; } static J jB(bool v){ J j('b'); j.i=v; return j; } static J jD(double v){ J j('d'); j.d=v; return j; } static J jS(const std::string&v){ J j('s'); j.s=v; return j; }
static J jA(){ return J('['); } static J jA(J x){ J j('['); j.a.push_back(x); return j; } static J jA(J x,J y){ J j=jA(x); j.a.push_back(y); return j; }
static J jM(){ return J('{'); } static J jM(const char*k,J v){ J j('{'); j.m.push_back(std::make_pair(std::string(k),v)); return j; } static J jM(const char*k,J v,const char*l,J w){ J j=jM(k,v); j.m.push_back(std::make_pair(std::string(l),w)); return j; }
static void ev(const J&j,JEvs&o){ switch(j.t){ case 'n': o.push_back(JEv('n')); break; case 'b': case 'i': o.push_back(JEv(j.t,j.i)); break; case 'd': o.push_back(JEv('d',0,j.d)); break; case 's': o.push_back(JEv('s',0,0,j.s)); break; case '[': o.push_back(JEv('[')); for(size_t i=0;i<j.a.size();i++)ev(j.a[i],o); o.push_back(JEv(']')); break; default: o.push_back(JEv('{')); for(size_t i=0;i<j.m.size();i++){ o.push_back(JEv('k',0,0,j.m[i].first)); ev(j.m[i].second,o); } o.push_back(JEv('}')); } }
static std::string text(const J&j){ JEvs e; ev(j,e); return json_text(e); }
// ---- reference assignment; false: refused
static bool putScalar(PVScalar&p,const J&j){ try{ switch(j.t){ case 'b': p.putFrom<boolean>(j.i!=0); return true; case 'i': p.putFrom<int64>(j.i); return true; case 'd': p.putFrom<double>(j.d); return true; case 's': p.putFrom<std::string>(j.s); return true; } }catch(std::exception&){} return false; }
static bool assign(PVField&f,const J&j,std::vector<unsigned>*set){ Type t=f.getField()->getType(); bool scalarJ=strchr("bids",j.t)!=0; bool ok=false;
  switch(t){ case scalar: ok=scalarJ&&putScalar((PVScalar&)f,j); break;
  case scalarArray:{ if(j.t!='[')return false; PVScalarArray&a=(PVScalarArray&)f; ScalarType st=a.getScalarArray()->getElementType(); std::vector<PVScalarPtr> e; for(size_t i=0;i<j.a.size();i++){ if(!strchr("bids",j.a[i].t))return false; PVScalarPtr p=DC()->createPVScalar(st); if(j.a[i].t=='b'&&st!=pvBoolean)sv_stop(); if(!putScalar(*p,j.a[i]))return false; e.push_back(p); } size_t n=e.size(),cap=a.getScalarArray()->getMaximumCapacity(); Array::ArraySizeType k=a.getScalarArray()->getArraySizeType(); if(k==Array::fixed&&n!=cap)return false; if(k==Array::bounded&&n>cap)return false; byScalarType(st,[&](auto x){ typedef decltype(x) T; shared_vector<T> v(n); for(size_t i=0;i<n;i++)v[i]=((PVScalarValue<T>&)*e[i]).get(); ((PVValueArray<T>&)a).replace(freeze(v)); }); ok=true; break; }
  case structure: if(j.t!='{')return false; for(size_t i=0;i<j.m.size();i++){ PVStructure&s=(PVStructure&)f; PVFieldPtr c; for(size_t k=0;k<s.getPVFields().size();k++)if(s.getStructure()->getFieldName(k)==j.m[i].first)c=s.getPVFields()[k]; if(!c||!assign(*c,j.m[i].second,set))return false; } return true;
  case structureArray:{ if(j.t!='[')return false; PVStructureArray&a=(PVStructureArray&)f; PVStructureArray::svector v; for(size_t i=0;i<j.a.size();i++){ PVStructurePtr e=DC()->createPVStructure(a.getStructureArray()->getStructure()); if(!assign(*e,j.a[i],0))return false; v.push_back(e); } a.replace(freeze(v)); ok=true; break; }
  case union_:{ if(!scalarJ)return false; PVUnion&u=(PVUnion&)f; if(u.getUnion()->isVariant()){ PVScalarPtr p=DC()->createPVScalar(j.t=='b'?pvBoolean:j.t=='i'?pvLong:j.t=='d'?pvDouble:pvString); putScalar(*p,j); u.set(p); ok=true; } else for(size_t i=0;i<u.getUnion()->getNumberFields()&&!ok;i++){ if(u.getUnion()->getField(i)->getType()!=scalar)continue; PVScalarPtr p=DC()->createPVScalar(((const Scalar&)*u.getUnion()->getField(i)).getScalarType()); if(putScalar(*p,j)){ u.set((int32)i,p); ok=true; } } break; }
  case unionArray: return false; }
  if(ok&&set)(*set)[f.getFieldOffset()]=1; return ok; }
static std::string ascii(size_t n){ std::string s=symString(n,"text"); for(size_t i=0;i<n;i++)sv_assume((unsigned)(s[i]>=32)&(unsigned)(s[i]<127)); return s; }
static void printable(const PVField&f){ switch(f.getField()->getType()){ case scalar: if(((const PVScalar&)f).getScalar()->getScalarType()==pvBoolean)sv_assume((uint8)((const PVBoolean&)f).get()<2); if(((const PVScalar&)f).getScalar()->getScalarType()==pvString){ std::string s=((const PVString&)f).get(); for(size_t i=0;i<s.size();i++)sv_assume((unsigned)(s[i]>=32)&(unsigned)(s[i]<127)); } break; case scalarArray: if(((const PVScalarArray&)f).getScalarArray()->getElementType()==pvBoolean){ PVBooleanArray::const_svector v=((const PVBooleanArray&)f).view(); for(size_t k=0;k<v.size();k++)sv_assume((uint8)v[k]<2); } if(((const PVScalarArray&)f).getScalarArray()->getElementType()==pvString){ PVStringArray::const_svector v=((const PVStringArray&)f).view(); for(size_t k=0;k<v.size();k++)for(size_t i=0;i<v[k].size();i++)sv_assume((unsigned)(v[k][i]>=32)&(unsigned)(v[k][i]<127)); } break; case structure: { const PVFieldPtrArray&c=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<c.size();i++)printable(*c[i]); break; } case structureArray: { PVStructureArray::const_svector v=((const PVStructureArray&)f).view(); for(size_t i=0;i<v.size();i++)if(v[i])printable(*v[i]); break; } case union_: { PVField::const_shared_pointer c=((const PVUnion&)f).get(); if(c)printable(*c); break; } case unionArray: { PVUnionArray::const_svector v=((const PVUnionArray&)f).view(); for(size_t i=0;i<v.size();i++)if(v[i])printable(*v[i]); break; } } }
static StructureConstPtr destT(){ return FB()->setId("T")->add("a",pvInt)->add("s",pvString)->add("d",pvDouble)->add("b",pvBoolean)->addArray("ai",pvInt)->addArray("as",pvString)->addNestedStructure("st")->add("x",pvShort)->add("y",pvString)->endNested()->addNestedStructureArray("sa")->add("k",pvInt)->addNestedStructure("n")->addArray("m",pvByte)->endNested()->endNested()->addNestedUnion("u")->addArray("no",pvInt)->add("p",pvInt)->add("q",pvString)->endNested()->add("v",FC()->createVariantUnion())->addFixedArray("fx",pvShort,2)->addBoundedArray("bx",pvLong,1)->addBoundedString("bs",2)->addNestedUnionArray("ua")->add("p",pvInt)->endNested()->createStructure(); }
static const char*NM[15]={"a","s","d","b","ai","as","st","sa","u","v","fx","bx","bs","ua","nosuch"};
static const unsigned KINDS=26;
static J value(unsigned k){ switch(k){ case 0: return J(); case 1: return jB(sv_pick(2,"bool")); case 2: return jI(sv_any<int64>("int")); case 3: return jD(sv_pick(2,"real")?2.5:-1.0); case 4: return jS("7"); case 5: { static const char*T[4]={"-3","x1","1.5","true"}; unsigned t=sv_pick(5,"text"); return jS(t<4?std::string(T[t]):ascii(1)); } case 6: return jA(); case 7: return jA(jI(sv_any<int32>("e"))); case 8: return jA(jI(3),jD(1.5)); case 9: return jA(jS(ascii(1)),jS("12")); case 10: return jA(jA(jI(1))); case 11: return jA(jI(1),jA()); case 12: return jA(jM()); case 13: return jA(jM("k",jI(sv_any<int32>("k"))),jM("n",jM("m",jA(jI(5))))); case 14: return jA(jM("k",jI(1)),jI(5)); case 15: return jM(); case 16: return jM("x",jI(sv_any<int64>("x"))); case 17: return jM("y",jS(ascii(1)),"x",jS("5")); case 18: return jM("y",jM()); case 19: return jM("k",jI(1)); case 20: return jA(jI(1),J()); case 21: return jA(jM("nosuch",jI(1))); case 22: return jA(jB(true)); case 23: return jM("x",jA(jI(1)),"y",jS("z")); case 24: return jA(jA(),jA()); default: return jA(jM("n",jM("m",jI(1)))); } }
static void leavesOf(const PVField&f,std::vector<const PVField*>&o){ if(f.getField()->getType()==structure){ const PVFieldPtrArray&c=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<c.size();i++)leavesOf(*c[i],o); } else o.push_back(&f); }
static void into(const J&doc,PVField&dest,PVField&ref,size_t nbits,const std::vector<std::string>&named){ std::vector<const PVField*> dl,rl; leavesOf(dest,dl); leavesOf(ref,rl); PVFieldPtr old=DC()->createPVField(dest.getField()); old->copyUnchecked(dest); std::vector<const PVField*> ol; leavesOf(*old,ol); std::vector<unsigned> set(nbits,0u); unsigned mask=sv_pick(2,"mask"); BitSet got((uint32)nbits); bool ok=assign(ref,doc,&set),threw=false; std::istringstream in(text(doc)); try{ parseJSON(in,dest,mask?&got:(BitSet*)0); }catch(std::exception&){ threw=true; } sv_check(threw==!ok,"a document is accepted exactly when every value fits the field it names");
  for(size_t i=0;i<dl.size();i++){ std::string fn=dl[i]->getFullName(); fn=fn.substr(0,fn.find('.')); bool nm=named.empty(); for(size_t k=0;k<named.size();k++)nm=nm||named[k]==fn; if(!nm){ sv_check(same(*dl[i],*ol[i]),"a field not named keeps its value"); if(mask)sv_check(!got.get((uint32)dl[i]->getFieldOffset()),"only fields assigned are marked"); } }
  if(threw||!ok)return; sv_check(same(dest,ref),"the fields named have the values given"); if(mask){ unsigned g=1; for(size_t i=0;i<nbits;i++)g&=(unsigned)got.get((uint32)i)==set[i]; sv_check(g,"exactly the fields assigned are marked"); } }
static void both(const J&doc,unsigned filled){ PVStructurePtr d=DC()->createPVStructure(destT()),r; if(filled){ d->getSubFieldT<PVInt>("a")->put(sv_any<int32>("old")); d->getSubFieldT<PVString>("s")->put("old"); d->getSubFieldT<PVShort>("st.x")->put(9); PVIntArray::svector v(2); v[0]=sv_any<int32>("old"); v[1]=4; d->getSubFieldT<PVIntArray>("ai")->replace(freeze(v)); d->getSubFieldT<PVUnion>("u")->select<PVString>("q")->put("w"); PVStructureArrayPtr sa=d->getSubFieldT<PVStructureArray>("sa"); sa->append(1); sa->view()[0]->getSubFieldT<PVInt>("k")->put(5); } r=DC()->createPVStructure(d->getStructure()); r->copyUnchecked(*d); std::vector<std::string> named; for(size_t i=0;i<doc.m.size();i++)named.push_back(doc.m[i].first); if(named.empty())named.push_back("-"); into(doc,*d,*r,d->getNextFieldOffset(),named); }
QUICK(one_member){ const char*n=NM[sv_pick(15,"name")]; J v=value(sv_pick(KINDS,"kind")); both(jM(n,v),sv_pick(2,"filled")); }
QUICK(two_members){ static const unsigned A[8]={0,1,4,6,7,8,9,10}; const char*n=NM[A[sv_pick(8,"name")]]; J v=value(sv_pick(KINDS,"kind")); static const char*M2[4]={"d","ai","sa","st"}; unsigned k=sv_pick(4,"second"); J w=k==0?jD(0.5):k==1?jA(jI(8)):k==2?jA(jM("k",jI(6))):jM("y",jS("e")); if(sv_pick(2,"order"))both(jM(M2[k],w,n,v),1); else both(jM(n,v,M2[k],w),1); }
QUICK(within){ J v=value(sv_pick(KINDS,"kind")); static const char*K[3]={"k","n","m"}; unsigned k=sv_pick(3,"where"); J e=k<2?jM(K[k],v):jM("n",jM("m",v)); J doc=jM("sa",sv_pick(2,"two")?jA(e,jM("k",jI(2))):jA(e),"a",jI(3)); both(doc,1); }
QUICK(bare){ unsigned k=sv_pick(14,"field"); J v=value(sv_pick(KINDS,"kind")); FieldP t=destT()->getField(k); PVFieldPtr d=DC()->createPVField(t),r=DC()->createPVField(t); into(v,*d,*r,d->getNextFieldOffset(),std::vector<std::string>()); }
QUICK(member_of){ PVStructurePtr d=DC()->createPVStructure(destT()),r=DC()->createPVStructure(destT()); J v=jM("x",jI(sv_any<int32>("x"))); std::vector<unsigned> set(64,0u); BitSet got(64); assign(*r->getSubFieldT("st"),v,&set); std::istringstream in(text(v)); parseJSON(in,*d->getSubFieldT("st"),&got); sv_check(same(*d,*r),"assigning to a member changes that member only"); unsigned g=1; for(size_t i=0;i<64;i++)g&=(unsigned)got.get((uint32)i)==set[i]; sv_check(g,"exactly the fields assigned are marked"); }
// ---- untyped
static PVFieldPtr build(const J&j); 
static bool mapType(const J&j,std::vector<std::pair<std::string,J> >&m){ for(size_t i=0;i<j.m.size();i++){ if(!okName(j.m[i].first)||!build(j.m[i].second))return false; bool st=j.m[i].second.t=='{'; size_t k=0; for(;k<m.size();k++)if(m[k].first==j.m[i].first)break; if(k<m.size()){ bool was=m[k].second.t=='{'; if(was!=st)return false; if(!st)m[k].second=j.m[i].second; else for(size_t q=0;q<j.m[i].second.m.size();q++)m[k].second.m.push_back(j.m[i].second.m[q]); } else { size_t p=0; while(p<m.size()&&m[p].first<j.m[i].first)p++; m.insert(m.begin()+p,j.m[i]); } } return true; }
static PVFieldPtr build(const J&j){ PVFieldPtr none; switch(j.t){ case 'b': { PVBooleanPtr p=DC()->createPVScalar<PVBoolean>(); p->put((boolean)j.i); return p; } case 'i': { PVLongPtr p=DC()->createPVScalar<PVLong>(); p->put(j.i); return p; } case 'd': { PVDoublePtr p=DC()->createPVScalar<PVDouble>(); p->put(j.d); return p; } case 's': { PVStringPtr p=DC()->createPVScalar<PVString>(); p->put(j.s); return p; }
  case '[': { if(j.a.empty())return none; char t=j.a[0].t; for(size_t i=0;i<j.a.size();i++)if(j.a[i].t!=t)return none; PVScalarArrayPtr a; size_t n=j.a.size(); if(t=='b'){ PVBooleanArray::svector v(n); for(size_t i=0;i<n;i++)v[i]=(boolean)j.a[i].i; PVBooleanArrayPtr p=DC()->createPVScalarArray<PVBooleanArray>(); p->replace(freeze(v)); return p; } if(t=='i'){ PVLongArray::svector v(n); for(size_t i=0;i<n;i++)v[i]=j.a[i].i; PVLongArrayPtr p=DC()->createPVScalarArray<PVLongArray>(); p->replace(freeze(v)); return p; } if(t=='d'){ PVDoubleArray::svector v(n); for(size_t i=0;i<n;i++)v[i]=j.a[i].d; PVDoubleArrayPtr p=DC()->createPVScalarArray<PVDoubleArray>(); p->replace(freeze(v)); return p; } if(t=='s'){ PVStringArray::svector v(n); for(size_t i=0;i<n;i++)v[i]=j.a[i].s; PVStringArrayPtr p=DC()->createPVScalarArray<PVStringArray>(); p->replace(freeze(v)); return p; } return none; }
  case '{': { std::vector<std::pair<std::string,J> > m; if(!mapType(j,m))return none; StringArray n; PVFieldPtrArray f; FieldConstPtrArray ft; for(size_t i=0;i<m.size();i++){ PVFieldPtr c=build(m[i].second); if(!c)return none; n.push_back(m[i].first); f.push_back(c); ft.push_back(c->getField()); } return DC()->createPVStructure(n,f); } } return none; }
static bool emptyArray(const J&j){ if(j.t=='['&&j.a.empty())return true; for(size_t i=0;i<j.a.size();i++)if(emptyArray(j.a[i]))return true; for(size_t i=0;i<j.m.size();i++)if(emptyArray(j.m[i].second))return true; return false; }
static void untyped(const J&doc){ PVFieldPtr want=doc.t=='{'?build(doc):PVFieldPtr(); PVStructurePtr got; std::istringstream in(text(doc)); bool threw=false; try{ got=parseJSON(in); }catch(std::exception&){ threw=true; } if(emptyArray(doc))return; sv_check(threw==!want,"an untyped document is accepted exactly when it has a structure"); if(threw||!want)return; sv_check(got&&sameType(*want->getField(),*got->getField()),"the structure has the members of the document"); if(got&&sameType(*want->getField(),*got->getField()))sv_check(same(*want,*got),"the members have the values given"); }
static J anyValue(unsigned depth){ switch(sv_pick(depth?17:11,"value")){ case 0: return J(); case 1: return jB(sv_pick(2,"bool")); case 2: return jI(sv_any<int64>("int")); case 3: return jD(sv_pick(2,"real")?2.5:1e300); case 4: return jS(ascii(1)); case 5: return jA(jI(sv_any<int64>("e")),jI(2)); case 6: return jA(jD(0.5)); case 7: return jA(jS("x"),jS(ascii(1))); case 8: return jA(jB(true),jB(false)); case 9: return jA(jI(1),jD(1)); case 10: return jA(); case 11: return jA(jA(jI(1))); case 12: return jA(jM("q",jI(1))); case 13: return jA(jM()); case 14: return jM(); case 15: return jM("q",anyValue(depth-1)); default: return jM("q",jM("r",jI(1)),"p",jS("t")); } }
QUICK(untyped_one){ static const char*N[4]={"a","","1","a-b"}; const char*n=N[sv_pick(4,"name")]; untyped(jM(n,anyValue(2))); }
QUICK(untyped_two){ J v=anyValue(1),w=anyValue(1); untyped(sv_pick(2,"same")?jM("a",v,"a",w):jM("b",v,"a",w)); }
QUICK(untyped_bare){ untyped(anyValue(1)); }
QUICK(untyped_after_array){ J v=anyValue(1); J w=anyValue(0); J d=jM("a",jA(v,jI(2)),"b",w); d.m.push_back(std::make_pair(std::string("c"),jI(5))); untyped(d); }
// ---- printing
static void pr(const PVField&f,JEvs&o,const std::vector<unsigned>*mask){ switch(f.getField()->getType()){
  case scalar: { const PVScalar&s=(const PVScalar&)f; switch(s.getScalar()->getScalarType()){ case pvString: o.push_back(JEv('s',0,0,((const PVString&)f).get())); break; case pvBoolean: o.push_back(JEv('b',((const PVBoolean&)f).get()?1:0)); break; case pvFloat: o.push_back(JEv('d',0,((const PVFloat&)f).get())); break; case pvDouble: o.push_back(JEv('d',0,((const PVDouble&)f).get())); break; default: o.push_back(JEv('i',s.getAs<int64>())); } break; }
  case scalarArray: { o.push_back(JEv('[')); ScalarType t=((const PVScalarArray&)f).getScalarArray()->getElementType(); byScalarType(t,[&](auto x){ typedef decltype(x) T; shared_vector<const T> v=((const PVValueArray<T>&)f).view(); for(size_t i=0;i<v.size();i++){ std::tr1::shared_ptr<PVScalarValue<T> > p=std::tr1::static_pointer_cast<PVScalarValue<T> >(DC()->createPVScalar(t)); p->put(v[i]); pr(*p,o,0); } }); o.push_back(JEv(']')); break; }
  case structure: { const PVStructure&s=(const PVStructure&)f; o.push_back(JEv('{')); for(size_t i=0;i<s.getPVFields().size();i++){ if(mask&&!(*mask)[s.getPVFields()[i]->getFieldOffset()])continue; o.push_back(JEv('k',0,0,s.getStructure()->getFieldName(i))); pr(*s.getPVFields()[i],o,mask); } o.push_back(JEv('}')); break; }
  case structureArray: { o.push_back(JEv('[')); PVStructureArray::const_svector v=((const PVStructureArray&)f).view(); for(size_t i=0;i<v.size();i++)if(v[i])pr(*v[i],o,0); else o.push_back(JEv('n')); o.push_back(JEv(']')); break; }
  case union_: { PVField::const_shared_pointer c=((const PVUnion&)f).get(); if(c)pr(*c,o,0); else o.push_back(JEv('n')); break; }
  case unionArray: { o.push_back(JEv('[')); PVUnionArray::const_svector v=((const PVUnionArray&)f).view(); for(size_t i=0;i<v.size();i++)if(v[i])pr(*v[i],o,0); else o.push_back(JEv('n')); o.push_back(JEv(']')); break; } } }
static unsigned eqEv(const JEvs&a,const JEvs&b){ if(a.size()!=b.size())return 0; unsigned r=1; for(size_t i=0;i<a.size();i++){ if(a[i].t!=b[i].t)return 0; switch(a[i].t){ case 'b': case 'i': r&=a[i].i==b[i].i; break; case 'd': r&=(unsigned)(a[i].d==b[i].d)|((unsigned)(a[i].d!=a[i].d)&(unsigned)(b[i].d!=b[i].d)); break; case 's': case 'k': r&=eqv(a[i].s,b[i].s); break; } } return r; }
static bool unprintable(const JEvs&e){ for(size_t i=0;i<e.size();i++)if(e[i].t=='d'&&(std::isnan(e[i].d)||std::isinf(e[i].d)))return true; return false; }
static JSONPrintOptions options(){ JSONPrintOptions o; o.multiLine=sv_pick(2,"lines"); o.json5=sv_pick(2,"json5"); o.indent=2; return o; }
static void print(const PVField&f){ printable(f); JSONPrintOptions o=options(); JEvs want,got; pr(f,want,0); bool threw=false,bad=!o.json5&&unprintable(want); try{ got=json_printed([&](std::ostream&s){ printJSON(s,f,o); }); }catch(std::exception&){ threw=true; } sv_check(threw==bad,"a value is printed unless it has numbers JSON cannot express"); if(!threw&&!bad)sv_check(eqEv(want,got),"exactly the contents of the value are printed"); }
QUICK(print_simple){ unsigned k=sv_pick(zooLeaves,"leaf"); PVFieldPtr p=DC()->createPVField(leaf(k,2)); Shape sh; sh.alen=3; fill(*p,sh); print(*p); }
QUICK(print_trees){ unsigned k=sv_pick(zooTrees,"tree"); if(k==7)k=8; PVFieldPtr p=DC()->createPVField(tree(k)); Shape sh; sh.alen=2; sh.nulls=true; symval_strlen=1; fill(*p,sh); print(*p); }
static void print_mask_of(bool inside){ StructureConstPtr t=FB()->add("a",pvInt)->addNestedStructure("b")->add("x",pvInt)->addNestedStructure("c")->add("d",pvString)->endNested()->add("y",pvByte)->endNested()->add("e",pvShort)->createStructure(); PVStructurePtr all=DC()->createPVStructure(inside?FB()->add("o",pvInt)->addNestedStructure("p")->add("q",pvInt)->endNested()->add("t",t)->add("z",pvInt)->createStructure():t); PVStructurePtr p=inside?all->getSubFieldT<PVStructure>("t"):all; symval_strlen=1; fill(*p); size_t b=p->getFieldOffset(),n=p->getNextFieldOffset(); BitSet m(16); std::vector<unsigned> in(n,0u),on(n,0u); for(size_t i=b;i<n;i++){ in[i]=sv_pick(2,"bit"); if(in[i])m.set((uint32)i); } if(sv_pick(2,"beyond"))m.set((uint32)n+1); if(inside&&sv_pick(2,"other"))m.set((uint32)b-1); bool any=false; std::vector<PVField*> fs(n,(PVField*)0); fs[b]=p.get(); for(size_t i=b+1;i<n;i++)fs[i]=p->getSubFieldT(i).get(); for(size_t i=b;i<n;i++){ bool up=false; for(PVField*q=fs[i];q&&q->getFieldOffset()>=b;q=q->getParent())up=up||in[q->getFieldOffset()]; if(up){ any=true; for(PVField*q=fs[i];q&&q->getFieldOffset()>=b;q=q->getParent())on[q->getFieldOffset()]=1; } } JEvs want,got; if(any)pr(*p,want,&on); BitSet m0(m); got=json_printed([&](std::ostream&s){ printJSON(s,*p,m); }); if(!any){ sv_check(got.empty()||got[0].t=='!',"nothing is printed when nothing is selected"); return; } sv_check(eqEv(want,got),"exactly the fields selected are printed"); sv_check(m==m0,"the mask is left alone"); }
QUICK(print_mask){ print_mask_of(false); }
QUICK(print_mask_inside){ print_mask_of(true); }
static bool nullIn(const JEvs&e){ for(size_t i=0;i<e.size();i++)if(e[i].t=='n')return true; return false; }
// EPICS Base rounds subnormal numbers when it makes a float of a double
static void normal(float x){ uint32 u; memcpy(&u,&x,4); sv_assume((unsigned)((u&0x7fffffffu)==0)|(unsigned)((u&0x7f800000u)!=0)); }
QUICK(round_trip){ FieldBuilderPtr b=FB()->add("s",pvString); switch(sv_pick(5,"members")){ case 0: b=b->add("i",(ScalarType)(pvByte+sv_pick(8,"integer")))->add("b",pvBoolean); break; case 1: b=b->add("d",sv_pick(2,"real")?pvDouble:pvFloat); break; case 2: b=b->addArray("al",pvULong)->addArray("as",pvString)->addNestedStructure("st")->add("x",pvUShort)->endNested(); break; case 3: b=b->addArray("ad",pvFloat)->addArray("ab",pvBoolean); break; default: b=b->addNestedStructureArray("sa")->add("k",pvInt)->addArray("ab",pvByte)->endNested(); } PVStructurePtr p=DC()->createPVStructure(b->createStructure()); Shape sh; sh.alen=2; fill(*p,sh); PVStructurePtr r=DC()->createPVStructure(p->getStructure()); r->getSubFieldT<PVString>("s")->put("before"); printable(*p); if(PVFloatPtr f=p->getSubField<PVFloat>("d"))normal(f->get()); if(PVFloatArrayPtr f=p->getSubField<PVFloatArray>("ad")){ PVFloatArray::const_svector v=f->view(); for(size_t i=0;i<v.size();i++)normal(v[i]); } JEvs e; bool threw=false; try{ e=json_printed([&](std::ostream&s){ printJSON(s,*p); }); }catch(std::exception&){ threw=true; } if(threw||nullIn(e))sv_stop(); std::istringstream in(json_text(e)); BitSet got(32); parseJSON(in,*r,&got); sv_check(same(*p,*r),"a value printed and parsed back is the same"); }
