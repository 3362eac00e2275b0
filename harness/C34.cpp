//@title Whole values in byte vectors
//@bounds values of 10 structured types and all 51 simple types with symbolic contents, arrays of 0..2 elements with null elements, texts of 0..1 arbitrary character; type descriptions, statuses and bit sets of up to 130 bits; both byte orders; 0..2 arbitrary bytes already in the vector
//@bounds long values: texts of 16370..16400 and 40000 characters and arrays of 8180..8200 and 20000 numbers with arbitrary contents around the 16 KiB boundary of the internal buffer
//@bounds damage: every proper prefix of the encoding of 8 values; every buffer of up to 3 (thorough 5) arbitrary bytes for 4 types, the length bytes of an array being 0..5 or 253..255
//@explain oracle: an independent encoder (val.h) gives the expected bytes, an independent deep comparison compares the values
#include "zoo.h"
#include <pv/status.h>
static int ord_; static bool plain=false; static void enc(const Serializable&s,const Bytes&want){ Bytes pre=symBytes(plain?1:sv_pick(3,"already"),"pre"); std::vector<epicsUInt8> out(pre.begin(),pre.end()); serializeToVector(&s,ord_,out); sv_check(out.size()==pre.size()+want.size(),"the encoding is appended, with the length the protocol prescribes"); if(out.size()!=pre.size()+want.size())return; unsigned d=0; for(size_t i=0;i<pre.size();i++)d|=out[i]^pre[i]; sv_check(d==0,"what was in the vector stays"); d=0; for(size_t i=0;i<want.size();i++)d|=out[pre.size()+i]^want[i]; sv_check(d==0,"the encoding has the bytes the protocol prescribes"); }
// an exactly sized heap block, so that reading past it is seen
static void decVector(Serializable&s,const Bytes&b){ std::vector<epicsUInt8> v(b.begin(),b.end()); v.shrink_to_fit(); deserializeFromVector(&s,ord_,v); }
static size_t decBuffer(Serializable&s,const Bytes&b,size_t before,size_t after){ std::vector<char> m(before+b.size()+after,(char)0x5b); for(size_t i=0;i<b.size();i++)m[before+i]=(char)b[i]; ByteBuffer buf(&m[0],m.size(),ord_); buf.setLimit(before+b.size()+(after?1:0)); buf.setPosition(before); deserializeFromBuffer(&s,buf); return buf.getPosition()-before; }
static void value(FieldP f,const Shape&sh){ PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); fill(*a,sh); ord_=pickOrder(); Bytes w; wField(w,*a,ord_); enc(*a,w); if((plain||sv_pick(2,"how"))&&w.size()){ size_t n=decBuffer(*b,w,3,2); sv_check(n==w.size(),"decoding consumes exactly the bytes of the value"); } else if(w.size())decVector(*b,w); sv_check(!w.size()||same(*a,*b),"the decoded value is bit for bit the encoded one"); }
QUICK(simple_values){ Shape s; s.alen=3; FieldP f=leaf(sv_pick(zooLeaves,"leaf"),2); value(f,s); }
QUICK(tree_values){ plain=!sv_tier; Shape s; s.nulls=sv_tier; symval_strlen=sv_tier?2:1; value(tree(sv_pick(zooTrees,"tree")),s); }
QUICK(types){ unsigned k=sv_pick(zooLeaves+zooTrees,"type"); FieldP f=k<zooLeaves?leaf(k,zooSizes[sv_pick(6,"bound")]):tree(k-zooLeaves); ord_=pickOrder(); Bytes w; wType(w,f.get(),ord_); enc(*f,w); }
QUICK(statuses){ Status::StatusType t=(Status::StatusType)sv_pick(4,"type"); std::string m=symString(sv_pick(3,"len")),d=symString(sv_pick(3,"len2")); Status s=t==Status::STATUSTYPE_OK?Status():Status(t,m,d),r(Status::STATUSTYPE_FATAL,"old","old"); ord_=pickOrder(); Bytes w; if(t==Status::STATUSTYPE_OK)w.push_back(0xff); else { w.push_back((uint8_t)t); wVal(w,m,ord_); wVal(w,d,ord_); } enc(s,w); decVector(r,w); sv_check(r.getType()==s.getType()&&eqv(r.getMessage(),s.getMessage())&&eqv(r.getStackDump(),s.getStackDump()),"the decoded status is the encoded one"); }
QUICK(bit_sets){ static const uint32 B[7]={0,7,8,63,64,100,129}; BitSet s,r; unsigned top=0; for(int i=0;i<7;i++)if(sv_pick(2,"bit")){ s.set(B[i]); top=B[i]+1; } r.set(5).set(200); ord_=pickOrder(); Bytes w; unsigned nb=(top+7)/8; w.push_back((uint8_t)nb); std::vector<uint8_t> raw(nb); for(uint32 i=0;i<top;i++)if(s.get(i))raw[i/8]|=1<<(i%8); for(unsigned i=0;i<nb;i++){ unsigned word=i/8; bool full=word*8+8<=nb; w.push_back(full&&ord_==EPICS_ENDIAN_BIG?raw[word*8+7-i%8]:raw[i]); } enc(s,w); decVector(r,w); sv_check(r==s,"the decoded set is the encoded one"); }
// more than the internal buffer holds
QUICK(long_text){ static const unsigned N[5]={16370,16383,16384,16400,40000}; unsigned n=N[sv_pick(5,"len")]; std::string s(n,'x'); for(unsigned i=0;i<n;i++)s[i]=(char)('a'+i%23); for(unsigned i=16368;i<16392;i++)if(i<n)s[i]=(char)sv_any<unsigned char>("char"); s[n-1]=(char)sv_any<unsigned char>("last"); PVStringPtr a=getPVDataCreate()->createPVScalar<PVString>(),b=getPVDataCreate()->createPVScalar<PVString>(); a->put(s); ord_=pickOrder(); Bytes w; wField(w,*a,ord_); enc(*a,w); decVector(*b,w); sv_check(same(*a,*b),"the decoded value is bit for bit the encoded one"); }
QUICK(long_array){ static const unsigned N[4]={8180,8190,8200,20000}; unsigned n=N[sv_pick(4,"len")]; unsigned t=sv_pick(3,"type"); ord_=pickOrder(); PVFieldPtr a,b; FieldP f=getFieldCreate()->createScalarArray(t==0?pvUShort:t==1?pvDouble:pvString); a=getPVDataCreate()->createPVField(f); b=getPVDataCreate()->createPVField(f);
  if(t==0){ shared_vector<uint16> v(n); for(unsigned i=0;i<n;i++)v[i]=(uint16)(i*7); for(unsigned i=8184;i<8196;i++)if(i<n)v[i]=sv_any<uint16>("elem"); ((PVUShortArray&)*a).replace(freeze(v)); } else if(t==1){ n/=4; shared_vector<double> v(n); for(unsigned i=0;i<n;i++)v[i]=i; for(unsigned i=2044;i<2052;i++)if(i<n)v[i]=sv_any<double>("elem"); ((PVDoubleArray&)*a).replace(freeze(v)); } else { n/=8; shared_vector<std::string> v(n); for(unsigned i=0;i<n;i++)v[i]=std::string(7+i%19,'t'); v[n/2]=symString(3); ((PVStringArray&)*a).replace(freeze(v)); }
  Bytes w; wField(w,*a,ord_); enc(*a,w); if(sv_pick(2,"how"))sv_check(decBuffer(*b,w,3,2)==w.size(),"decoding consumes exactly the bytes of the value"); else decVector(*b,w); sv_check(same(*a,*b),"the decoded value is bit for bit the encoded one"); }
QUICK(long_bits){ BitSet s,r; static const uint32 N[3]={1000,131008,131072}; uint32 n=N[sv_pick(3,"top")]; s.set(n-1); for(int i=0;i<2;i++)if(sv_pick(2,"low"))s.set(70*i+1); ord_=pickOrder(); std::vector<epicsUInt8> out; serializeToVector(&s,ord_,out); sv_check(out.size()==(n+7)/8+(n<254*8?1:5),"a long bit set is written completely"); Bytes w(out.begin(),out.end()); decVector(r,w); sv_check(r==s,"the decoded set is the encoded one"); }
// damaged input
QUICK(truncated){ Shape s; s.alen=3; s.nulls=true; symval_strlen=2; static const unsigned K[8]={0,2,3,4,5,7,8,9}; unsigned k=sv_pick(4,"kind"); FieldP f=k==0?leaf(sv_pick(sv_tier?zooLeaves:13,"leaf"),3):k==1?leaf(13+5,0):k==2?FieldP(FB()->add("i",pvInt)->addArray("s",pvString)->addNestedUnion("u")->add("b",pvByte)->add("l",pvLong)->endNested()->createStructure()):FieldP(getFieldCreate()->createVariantUnion()); (void)K; PVFieldPtr a=getPVDataCreate()->createPVField(f),b=getPVDataCreate()->createPVField(f); fill(*a,s); ord_=pickOrder(); Bytes w; wField(w,*a,ord_); if(w.empty())return; size_t cut=sv_pick((unsigned)w.size(),"cut"); Bytes p(w.begin(),w.begin()+cut); bool threw=false; try{ if(cut&&sv_pick(2,"how"))decVector(*b,p); else decBuffer(*b,p,2,0); }catch(std::logic_error&){ threw=true; } sv_check(threw,"an incomplete encoding is refused"); }
QUICK(arbitrary){ static const unsigned K=4; unsigned k=sv_pick(K,"type"); FieldCreatePtr fc=getFieldCreate(); FieldP f=k==0?FieldP(fc->createScalarArray(pvUByte)):k==1?FieldP(fc->createScalarArray(pvString)):k==2?tree(4):FieldP(fc->createBoundedScalarArray(pvShort,3)); PVFieldPtr a=getPVDataCreate()->createPVField(f); ord_=pickOrder(); Bytes w=symBytes(1+sv_pick(sv_tier?5:3,"len")); if(k<2||k==3)for(size_t i=0;i<w.size()&&i<(k==1?9u:1u);i++)sv_assume((unsigned)(w[i]<6)|(unsigned)(w[i]>252)); sv_symcap(1<<20); std::vector<char> m(w.size()); for(size_t i=0;i<w.size();i++)m[i]=(char)w[i]; ByteBuffer buf(&m[0],m.size(),ord_); try{ deserializeFromBuffer(a.get(),buf); sv_check(buf.getPosition()<=w.size(),"no more than the given bytes are consumed"); Bytes r; wField(r,*a,ord_); sv_check(r.size()<=w.size(),"a value decoded from n bytes needs at most n bytes"); sv_cover("decoded"); }catch(std::bad_alloc&){}catch(std::exception&){ sv_cover("refused"); } sv_check(buf.getPosition()<=w.size(),"the position stays inside the buffer"); }
