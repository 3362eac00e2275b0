//@title Size and string encoding
//@bounds sizes: every value 0..2^31-1 and the null marker; both byte orders; arbitrary 5-byte inputs
//@bounds strings: lengths 0..6, 252..257 and 300 with every byte symbolic up to 6 and 3 symbolic bytes at the seams for the long ones; send buffers of 9..512 bytes with 0..16 bytes waiting, receive buffers delivering 1 or 3 bytes at a time
//@bounds substrings: string of 6 symbolic bytes, every 64-bit offset and count
//@explain oracle: size < 254 is one byte, larger sizes are 0xfe plus a 32-bit integer in stream order, 0xff is null; a string is its size followed by its bytes
#include "h.h"
QUICK(size_roundtrip){ uint32_t s=sv_any<uint32_t>("size"); sv_assume(s<=0x7fffffffu); bool nul=sv_any<bool>("null"); size_t v=nul?(size_t)-1:s; int order=pickOrder(); Out o(16,order,false,sv_pick(17,"waiting")); SerializeHelper::writeSize(v,&o.buf,&o); Bytes r=o.done();
  size_t want=nul?1:s<254?1:5; sv_check(r.size()==want,"a size takes the shortest form");
  if(nul)sv_check(r[0]==0xff,"null size marker"); else if(r.size()==1)sv_check(r[0]==(uint8_t)s,"short size is its value"); else { uint32_t x=order==EPICS_ENDIAN_BIG?(r[1]<<24|r[2]<<16|r[3]<<8|r[4]):(r[4]<<24|r[3]<<16|r[2]<<8|r[1]); sv_check(r[0]==0xfe&&x==s,"long size is 0xfe and 32 bits in stream order"); }
  In in(r,16,sv_pick(2,"step"),order); sv_check(SerializeHelper::readSize(&in.buf,&in)==v,"readSize(writeSize(n))==n"); sv_check(in.consumed()==r.size(),"readSize consumes what writeSize produced"); }
QUICK(size_arbitrary){ unsigned n=sv_pick(7,"len"); Bytes e=symBytes(n); int order=pickOrder(); In in(e,16,sv_pick(2,"step"),order); 
  size_t v; try{ v=SerializeHelper::readSize(&in.buf,&in); }catch(std::exception&){ sv_check(n<1||(e[0]==0xfe&&(n<5||((order==EPICS_ENDIAN_BIG?e[1]:e[4])&0x80))),"only truncated or negative sizes are refused"); return; }
  uint32_t x=n>=5?(order==EPICS_ENDIAN_BIG?(e[1]<<24|e[2]<<16|e[3]<<8|e[4]):(e[4]<<24|e[3]<<16|e[2]<<8|e[1])):0;
  if(e[0]==0xff)sv_check(v==(size_t)-1,"0xff reads as null"); else if(e[0]==0xfe)sv_check(v==x&&x<=0x7fffffffu,"0xfe reads 32 bits"); else sv_check(v==e[0],"one-byte size"); }
static std::string mk(unsigned n){ if(n<=6)return symString(n); std::string s(n,'a'); for(unsigned i=0;i<n;i++)s[i]=(char)(1+i%251); char a=sv_any<char>("first"),b=sv_any<char>("seam"),c=sv_any<char>("last"); s[0]=a;s[n/2]=b;s[n-1]=c; return s; }
QUICK(string_roundtrip){ static const unsigned ls[12]={0,1,2,3,6,252,253,254,255,256,257,300}; static const size_t caps[4]={9,10,64,512}; unsigned n=ls[sv_pick(12,"len")]; std::string s=mk(n); int order=pickOrder(); size_t cap=caps[sv_pick(4,"cap")]; unsigned pre=sv_pick(n<=3?3:sv_tier?12:5,"waiting"); Out o(cap,order,false,pre<cap?pre*3%cap:cap); SerializeHelper::serializeString(s,&o.buf,&o); Bytes r=o.done(); r.push_back(0x77);
  sv_check(r.size()==n+(n<254?1:5)+1,"a string is its size and its bytes"); uint8_t d=0; for(unsigned i=0;i<n;i++)d|=(uint8_t)(r[r.size()-1-n+i]^(uint8_t)s[i]); sv_check(d==0,"the bytes of the string follow the size unchanged");
  static const size_t steps[3]={0,1,3}; size_t st=steps[sv_pick(3,"step")]; In in(r,st?16:512,st,order); std::string t=SerializeHelper::deserializeString(&in.buf,&in); sv_check(t.size()==n,"string length survives"); d=0; for(unsigned i=0;i<n;i++)d|=(uint8_t)(t[i]^s[i]); sv_check(d==0,"string bytes survive"); sv_check(in.consumed()==r.size()-1,"a string decode consumes exactly its encoding"); }
QUICK(string_truncated){ unsigned n=sv_pick(6,"len"); Bytes e=symBytes(n); int order=pickOrder(); In in(e,16,sv_pick(2,"step"),order); sv_symcap(64);
  std::string t; try{ t=SerializeHelper::deserializeString(&in.buf,&in); }catch(std::exception&){ return; }
  sv_check(t.size()<=n,"no string is longer than the bytes it was made from"); sv_check(in.consumed()<=n,"never consumes more than there is"); }
QUICK(substring){ std::string s=symString(6); size_t off=sv_any<size_t>("offset"),cnt=sv_any<size_t>("count"); int order=pickOrder(); Out o(sv_pick(2,"cap")?10:32,order); for(unsigned k=sv_pick(2,"pre")*4;k--;)o.buf.putByte('p'); size_t pre=o.buf.getPosition(); SerializeHelper::serializeSubstring(s,off,cnt,&o.buf,&o); Bytes r=o.done();
  size_t b=off<6?off:6,m=cnt<6-b?cnt:6-b; b=sv_concrete(b);m=sv_concrete(m); sv_check(r.size()==pre+1+m&&r[pre]==m,"a substring is written as the string of its clipped length"); uint8_t d=0; if(r.size()==pre+1+m)for(size_t i=0;i<m;i++)d|=(uint8_t)(r[pre+1+i]^s[b+i]); sv_check(d==0,"the bytes written are those of the substring"); }
