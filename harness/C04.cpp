//@title ByteBuffer typed access
//@bounds buffers of 24 bytes with arbitrary content; arbitrary position; every value of every scalar type; both byte orders; arrays of 0..3 elements, and of 260 elements that follow from one value; arbitrary 64-bit index for the indexed access
//@assume an access that does not fit is stopped by an assertion (process abort), which counts as refused
//@explain after each access: only the addressed bytes changed, they spell the value in the chosen byte order, reading gives the value back, position advances by its size, limits hold
#include "h.h"
template<class T> static uint64_t bitsOf(T v){ uint64_t r=0; memcpy(&r,&v,sizeof v); return r; }
static bool spells(const uint8_t*p,uint64_t v,unsigned n,int order){ uint64_t x=0; for(unsigned i=0;i<n;i++)x|=(uint64_t)p[order==EPICS_ENDIAN_BIG?n-1-i:i]<<(8*i); return x==v; }
template<class T> static void seq(){ int order=pickOrder(); uint8_t mem[40],old[40]; sv_make(mem,40,"mem"); memcpy(old,mem,40); ByteBuffer b((char*)mem+8,24,order); size_t pos=sv_range<size_t>(0,24-sizeof(T),"pos"); pos=sv_concrete(pos); T v=sv_any<T>("v"); b.setPosition(pos); b.put<T>(v);
  sv_check(b.getPosition()==pos+sizeof(T),"put advances by the size of the type"); sv_check(spells(mem+8+pos,bitsOf(v),sizeof(T),order),"put stores the value in the buffer's byte order");
  uint8_t d=0; for(size_t i=0;i<40;i++)if(i<8+pos||i>=8+pos+sizeof(T))d|=mem[i]^old[i]; sv_check(d==0,"put changes no other byte");
  b.setPosition(pos); T r=b.template get<T>(); sv_check(bitsOf(r)==bitsOf(v),"get returns what put stored"); sv_check(b.getPosition()==pos+sizeof(T),"get advances by the size of the type");
  b.setEndianess(order==EPICS_ENDIAN_BIG?EPICS_ENDIAN_LITTLE:EPICS_ENDIAN_BIG); b.setPosition(pos); r=b.template get<T>(); sv_check(spells(mem+8+pos,bitsOf(r),sizeof(T),order==EPICS_ENDIAN_BIG?EPICS_ENDIAN_LITTLE:EPICS_ENDIAN_BIG),"setEndianess selects the other byte order"); }
template<class T> static void idx(){ int order=pickOrder(); uint8_t mem[24],old[24]; sv_make(mem,24,"mem"); memcpy(old,mem,24); ByteBuffer b((char*)mem,24,order); size_t lim=sv_pick(2,"lim")?24:13; b.setLimit(lim); size_t i=sv_any<size_t>("index"); T v=sv_any<T>("v"); sv_abort_ok(1); 
  bool fits=i<=lim&&sizeof(T)<=lim-i; if(sv_any<bool>("isput")){ b.put<T>(i,v); sv_abort_ok(0); sv_check(fits,"an indexed put beyond the limit is refused"); i=sv_concrete(i); sv_check(spells(mem+i,bitsOf(v),sizeof(T),order),"indexed put stores at the index"); uint8_t d=0; for(size_t k=0;k<24;k++)if(k<i||k>=i+sizeof(T))d|=mem[k]^old[k]; sv_check(d==0,"indexed put changes no other byte"); }
  else { T r=b.template get<T>(i); sv_abort_ok(0); sv_check(fits,"an indexed get beyond the limit is refused"); i=sv_concrete(i); sv_check(spells(mem+i,bitsOf(r),sizeof(T),order),"indexed get reads at the index"); }
  sv_check(b.getPosition()==0,"indexed access does not move the position"); }
template<class T> static void arr(){ int order=pickOrder(); uint8_t mem[40]; sv_make(mem,40,"mem"); uint8_t old[40]; memcpy(old,mem,40); ByteBuffer b((char*)mem,40,order); unsigned n=sv_pick(4,"count"),pos=sv_pick(3,"pos"); T a[3],c[3]; for(unsigned i=0;i<3;i++)a[i]=sv_any<T>("a"); b.setPosition(pos); b.putArray(a,n); sv_check(b.getPosition()==pos+n*sizeof(T),"putArray advances by the whole array");
  for(unsigned i=0;i<n;i++)sv_check(spells(mem+pos+i*sizeof(T),bitsOf(a[i]),sizeof(T),order),"putArray stores every element in order"); uint8_t d=0; for(size_t k=0;k<40;k++)if(k<pos||k>=pos+n*sizeof(T))d|=mem[k]^old[k]; sv_check(d==0,"putArray changes no other byte");
  b.setPosition(pos); b.getArray(c,n); for(unsigned i=0;i<n;i++)sv_check(bitsOf(c[i])==bitsOf(a[i]),"getArray returns what putArray stored"); }
template<class T> static void overrun(){ uint8_t mem[24]; sv_make(mem,24,"mem"); ByteBuffer b((char*)mem,24,pickOrder()); size_t lim=sv_range<size_t>(0,24,"lim"),pos=sv_range<size_t>(0,24,"pos"); sv_assume(pos<=lim); b.setLimit(lim); b.setPosition(pos); sv_check(b.getRemaining()==lim-pos,"remaining is limit minus position"); size_t n=sv_range<size_t>(0,4,"n"); T a[4]={0}; sv_abort_ok(1); size_t need=sizeof(T);
  switch(sv_pick(4,"op")){ case 0:b.put<T>(T());break; case 1:b.template get<T>();break; case 2:need*=n;b.putArray(a,n);break; case 3:need*=n;b.getArray(a,n);break; } sv_abort_ok(0); sv_check(need<=lim-pos,"an access that does not fit is refused"); sv_check(b.getPosition()==pos+need&&b.getLimit()==lim,"position and limit after an access that fits"); }
#define ALL(f) switch(sv_pick(9,"type")){ case 0:f<int8>();break; case 1:f<uint8>();break; case 2:f<int16>();break; case 3:f<uint16>();break; case 4:f<int32>();break; case 5:f<uint32>();break; case 6:f<int64>();break; case 7:f<float>();break; case 8:f<double>();break; }
// long arrays: the elements follow from one symbolic value
template<class T> static void big(){ int order=pickOrder(); const unsigned n=260; T x=sv_any<T>("x"); std::vector<T> a(n),c(n+1); for(unsigned i=0;i<n;i++)a[i]=(T)(x+(T)i); c[n]=(T)1; std::vector<uint8_t> m(n*sizeof(T)+8,(uint8_t)0x5a); ByteBuffer b((char*)&m[0],m.size(),order); b.setPosition(3); b.putArray(&a[0],n); sv_check(b.getPosition()==3+n*sizeof(T),"putArray advances by the whole array"); unsigned ok=1; for(unsigned i=0;i<n;i++)ok&=(unsigned)spells(&m[3+i*sizeof(T)],bitsOf(a[i]),sizeof(T),order); sv_check(ok,"putArray stores every element in order"); ok=1; for(unsigned k=0;k<m.size();k++)if(k<3||k>=3+n*sizeof(T))ok&=m[k]==0x5a; sv_check(ok,"putArray changes no other byte"); b.setPosition(3); b.getArray(&c[0],n); ok=1; for(unsigned i=0;i<n;i++)ok&=c[i]==a[i]; sv_check(ok&&c[n]==(T)1,"getArray returns what putArray stored"); }
QUICK(long_arrays){ switch(sv_pick(4,"type")){ case 0: big<uint8>(); break; case 1: big<uint16>(); break; case 2: big<int32>(); break; default: big<uint64>(); } }
QUICK(sequential){ ALL(seq) }
QUICK(indexed){ ALL(idx) }
QUICK(arrays){ ALL(arr) }
QUICK(bounds){ ALL(overrun) }
// named accessors agree with the typed ones, boolean is one byte
QUICK(named){ int order=pickOrder(); ByteBuffer b(64,order); bool t=sv_any<bool>("t"); int8 i8=sv_any<int8>("i8"); int16 i16=sv_any<int16>("i16"); int32 i32=sv_any<int32>("i32"); int64 i64=sv_any<int64>("i64"); float f=sv_any<float>("f"); double d=sv_any<double>("d"); char raw[5]; sv_make(raw,5,"raw");
  b.putBoolean(t);b.putByte(i8);b.putShort(i16);b.putInt(i32);b.putLong(i64);b.putFloat(f);b.putDouble(d);b.put(raw,1,3); sv_check(b.getPosition()==31,"packed without padding"); b.flip(); sv_check(b.getRemaining()==31&&b.getPosition()==0,"flip exposes what was written");
  sv_check(b.getBoolean()==t&&b.getByte()==i8&&b.getShort()==i16&&b.getInt()==i32&&b.getLong()==i64&&bitsOf(b.getFloat())==bitsOf(f)&&bitsOf(b.getDouble())==bitsOf(d),"every scalar reads back in sequence"); char out[5]={9,9,9,9,9}; b.get(out,2,3); sv_check(out[0]==9&&out[1]==9&&out[2]==raw[1]&&out[3]==raw[2]&&out[4]==raw[3],"raw bytes with offsets");
  sv_check(b.getBoolean(0)==t&&b.getByte(1)==i8&&b.getShort(2)==i16&&b.getInt(4)==i32&&b.getLong(8)==i64&&bitsOf(b.getFloat(16))==bitsOf(f)&&bitsOf(b.getDouble(20))==bitsOf(d),"indexed readers see the same values"); b.clear(); sv_check(b.getRemaining()==64&&b.getPosition()==0&&b.getLimit()==64&&b.getSize()==64,"clear exposes the whole buffer"); }
