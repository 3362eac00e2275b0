//@title Conversions between text lists and arrays are element-wise exact
//@bounds text lists of up to 5 (thorough 6) arbitrary characters into string arrays; lists of 0..4 numbers of 1..2 symbolic digits, bracketed or not, into arrays of five element types with 0..5 elements before; every offset, length and destination offset around the sizes; structures of scalars, arrays and nested structures filled from lists of 0..7 texts
//@bounds numbers in scalars of every type: one arbitrary value read back through each to* and written through each from* call
//@explain oracle: own splitting at commas, own decimal reading, own element-wise transfer
#include "zoo.h"
#include <pv/convert.h>
static ConvertPtr C(){ return getConvert(); }
static StringArray parts(const std::string&s){ StringArray r(1); for(size_t i=0;i<s.size();i++){ if(s[i]==',')r.push_back(std::string()); else r.back()+=s[i]; } return r; }
static PVStringArrayPtr strs(size_t n){ PVStringArrayPtr p=getPVDataCreate()->createPVScalarArray<PVStringArray>(); shared_vector<std::string> v(n); for(size_t i=0;i<n;i++)v[i]=symString(1,"old"); p->replace(freeze(v)); return p; }
QUICK(any_text){ size_t n=sv_pick(sv_tier?7:6,"len"); std::string s=symString(n,"list"); PVStringArrayPtr p=strs(sv_pick(3,"before")); size_t k=C()->fromString(std::tr1::static_pointer_cast<PVScalarArray>(p),s); std::string in=s; if(n>=2&&s[0]=='['&&s[n-1]==']')in=s.substr(1,n-2); StringArray w=parts(in); sv_check(k==w.size(),"the number of values in the list is reported"); shared_vector<const std::string> v(p->view()); if(v.size()!=w.size()){ sv_fail("the array has one element per value"); return; } unsigned ok=1; for(size_t i=0;i<w.size();i++)ok&=eqv(v[i],w[i]); sv_check(ok,"each element is the text between the commas"); }
template<class T> static void nums(){ size_t n=1+sv_pick(4,"count"),o=sv_pick(6,"before"); bool br=sv_pick(2,"bracket"); typedef PVValueArray<T> A; std::tr1::shared_ptr<A> p=std::tr1::static_pointer_cast<A>(getPVDataCreate()->createPVScalarArray((ScalarType)ScalarTypeID<T>::value)); p->setLength(o); std::string s; std::vector<unsigned> w; for(size_t i=0;i<n;i++){ if(i)s+=','; unsigned two=i<2?sv_pick(2,"digits"):1; unsigned v=0; for(unsigned d=0;d<=two;d++){ unsigned char c=sv_any<unsigned char>("digit"); sv_assume((unsigned)(c>='1')&(unsigned)(c<='9')); s+=(char)c; v=v*10+(c-'0'); } w.push_back(v); } if(br)s="["+s+"]";
  bool fa=sv_pick(2,"array"); size_t k; if(!fa)k=C()->fromString(std::tr1::static_pointer_cast<PVScalarArray>(p),s); else { if(br)sv_stop(); StringArray l=parts(s); size_t pre=sv_pick(2,"skip"); l.insert(l.begin(),pre,"x"); bool t=false; try{ k=C()->fromStringArray(p,0,n,l,pre); }catch(std::runtime_error&){ t=true; } if(t){ sv_check(n<o,"only a partial update is refused"); sv_check(p->getLength()==o,"a refused conversion changes nothing"); return; } }
  sv_check(k==n,"the number of values in the list is reported"); if(p->getLength()!=n){ sv_fail("the array has one element per value"); return; } unsigned ok=1; for(size_t i=0;i<n;i++)ok&=p->view()[i]==(T)w[i]; sv_check(ok,"each element is the number in the list"); }
QUICK(numbers_int){ nums<int32>(); }
QUICK(numbers_byte){ nums<uint8>(); }
THOROUGH(numbers_long){ nums<int64>(); }
THOROUGH(numbers_ushort){ nums<uint16>(); }
QUICK(bad_lists){ PVIntArrayPtr p=getPVDataCreate()->createPVScalarArray<PVIntArray>(); shared_vector<int32> o(2); o[0]=sv_any<int32>("old"); o[1]=3; int32 o0=o[0]; p->replace(freeze(o)); unsigned k=sv_pick(6,"kind"); bool t=false; try{ if(k<3){ static const char*L[3]={"1,,2","1,x","1,2]"}; C()->fromString(std::tr1::static_pointer_cast<PVScalarArray>(p),L[k]); } else { StringArray l(sv_pick(4,"n"),"5"); size_t n=sv_any<size_t>("length"),f=sv_any<size_t>("from"); sv_assume(f>l.size()||n>l.size()-f); sv_assume(n>=2); C()->fromStringArray(p,k==3?0:k==4?1:(size_t)-1,n,l,f); } }catch(std::exception&){ t=true; } sv_check(t,"a list that does not give the values is refused"); sv_check(p->getLength()==2&&p->view()[0]==o0&&p->view()[1]==3,"a refused conversion changes nothing"); }
QUICK(to_texts){ size_t n=sv_pick(4,"n"),o=sv_pick(5,"offset"),l=sv_pick(6,"length"),k=sv_pick(4,"have"),d=sv_pick(4,"dest"); if(l==5)l=(size_t)-1; PVStringArrayPtr p=strs(n); StringArray to(k); for(size_t i=0;i<k;i++)to[i]=symString(1,"to"); StringArray w(to); shared_vector<const std::string> v(p->view()); size_t a=o<n?o:n,c=l<n-a?l:n-a; size_t r=C()->toStringArray(p,o,l,to,d); sv_check(r==c,"the number of elements transferred is reported"); if(w.size()<d+c)w.resize(d+c); for(size_t i=0;i<c;i++)w[d+i]=v[a+i]; if(to.size()!=w.size()){ sv_fail("the destination grows exactly as needed"); return; } unsigned ok=1; for(size_t i=0;i<w.size();i++)ok&=eqv(to[i],w[i]); sv_check(ok,"exactly the requested elements are transferred to their places"); sv_check(eqa(p->view(),v),"the source is unchanged"); }
QUICK(int_to_texts){ PVShortArrayPtr p=getPVDataCreate()->createPVScalarArray<PVShortArray>(); shared_vector<int16> v(3); static const int16 V[4]={0,-7,42,-32768}; static const char*S[4]={"0","-7","42","-32768"}; unsigned q[3]; for(int i=0;i<3;i++){ q[i]=sv_pick(4,"v"); v[i]=V[q[i]]; } p->replace(freeze(v)); size_t o=sv_pick(4,"offset"); StringArray to; size_t r=C()->toStringArray(p,o,2,to,1); size_t c=o>=3?0:o==2?1:2; sv_check(r==c&&to.size()==1+c,"the number of elements transferred is reported"); for(size_t i=0;i<c;i++)sv_check(to[1+i]==S[q[o+i]],"exactly the requested elements are transferred to their places"); }
QUICK(whole_structure){ PVStructurePtr s=getPVDataCreate()->createPVStructure(FB()->add("a",pvInt)->addArray("b",pvString)->addNestedStructure("c")->add("d",pvString)->addArray("e",pvInt)->endNested()->add("f",pvUByte)->createStructure()); static const char*T[5]={"17","x,y,z","hello","[1,2]","200"}; size_t st=sv_pick(3,"start"),n=sv_pick(8,"n"); StringArray l; for(size_t i=0;i<n;i++)l.push_back(i<st?"skip":i-st<5?T[i-st]:"more"); std::string d=symString(3,"text"); if(n>st+2)l[st+2]=d; size_t r=0; bool t=false; try{ r=C()->fromString(s,l,st); }catch(std::logic_error&){ t=true; } sv_check(t==(n<st+5),"a list too short is refused"); if(t)return; sv_check(r==5,"the number of fields filled is reported"); sv_check(s->getSubFieldT<PVInt>("a")->get()==17&&s->getSubFieldT<PVStringArray>("b")->getLength()==3&&eqv(s->getSubFieldT<PVString>("c.d")->get(),d)&&s->getSubFieldT<PVIntArray>("c.e")->getLength()==2&&s->getSubFieldT<PVUByte>("f")->get()==200,"each field gets its text in order"); sv_check(s->getSubFieldT<PVStringArray>("b")->view()[2]=="z"&&s->getSubFieldT<PVIntArray>("c.e")->view()[1]==2,"each field gets its text in order"); }
QUICK(unsupported){ PVStructurePtr s=getPVDataCreate()->createPVStructure(FB()->add("a",pvInt)->addNestedUnion("u")->add("x",pvInt)->endNested()->createStructure()); StringArray l(3,"1"); sv_check(THROWS(C()->fromString(s,l,0)),"a field without text form is refused"); }
// scalar access: exact for integers of every type
QUICK(scalars){ static const ScalarType I[8]={pvByte,pvShort,pvInt,pvLong,pvUByte,pvUShort,pvUInt,pvULong}; ScalarType st=I[sv_pick(8,"type")]; PVScalarPtr p=getPVDataCreate()->createPVScalar(st); byScalarType(st,[&](auto t){ typedef decltype(t) T; if constexpr(std::is_integral<T>::value){ T v=sv_any<T>("v"); std::tr1::static_pointer_cast<PVScalarValue<T> >(p)->put(v); ConvertPtr c=C(); sv_check(c->toByte(p)==(int8)v&&c->toShort(p)==(int16)v&&c->toInt(p)==(int32)v&&c->toLong(p)==(int64)v,"reading a number converts it to the type asked for"); sv_check(c->toUByte(p)==(uint8)v&&c->toUShort(p)==(uint16)v&&c->toUInt(p)==(uint32)v&&c->toULong(p)==(uint64)v,"reading a number converts it to the type asked for");
    int64 w=sv_any<int64>("w"); std::tr1::shared_ptr<PVScalarValue<T> > q=std::tr1::static_pointer_cast<PVScalarValue<T> >(p); switch(sv_pick(8,"from")){ case 0: c->fromByte(p,(int8)w); sv_check(q->get()==(T)(int8)w,"writing a number converts it to the field's type"); break; case 1: c->fromShort(p,(int16)w); sv_check(q->get()==(T)(int16)w,"writing a number converts it to the field's type"); break; case 2: c->fromInt(p,(int32)w); sv_check(q->get()==(T)(int32)w,"writing a number converts it to the field's type"); break; case 3: c->fromLong(p,w); sv_check(q->get()==(T)w,"writing a number converts it to the field's type"); break; case 4: c->fromUByte(p,(uint8)w); sv_check(q->get()==(T)(uint8)w,"writing a number converts it to the field's type"); break; case 5: c->fromUShort(p,(uint16)w); sv_check(q->get()==(T)(uint16)w,"writing a number converts it to the field's type"); break; case 6: c->fromUInt(p,(uint32)w); sv_check(q->get()==(T)(uint32)w,"writing a number converts it to the field's type"); break; default: c->fromULong(p,(uint64)w); sv_check(q->get()==(T)(uint64)w,"writing a number converts it to the field's type"); } } }); }
