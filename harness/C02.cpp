//@title BitSet wire encoding
//@bounds sets: every subset of 0..191 (quick) / 0..255 (thorough); both byte orders; receive buffers that deliver the bytes one, two or nine at a time; send buffers of 33 and 256 bytes
//@bounds arbitrary input: every byte string of length 0..11 (quick) / 0..19 (thorough) as the encoding
//@assume the send buffer holds one encoded set (BitSet::serialize asks for the whole payload at once)
//@explain oracle: an independent encoder written from the protocol (size byte, full 64-bit words in stream byte order, then the remaining bytes lowest first)
#include "h.h"
// set made by the public bit operations from arbitrary words (no wire format involved): word w is or-ed in through two sets
static void put(BitSet&b,const uint64_t*w,unsigned nw){ for(unsigned i=0;i<nw;i++)for(unsigned k=0;k<64;k++)if((w[i]>>k)&1)b.set(64*i+k); }
static void rec(Bytes&o,const uint64_t*w,unsigned nw,int order){
  unsigned n=nw; while(n&&!w[n-1])n--; unsigned len=0; if(n){ len=8*(n-1); for(uint64_t x=w[n-1];x;x>>=8)len++; }
  o.push_back((uint8_t)len); for(unsigned i=0;i<len/8;i++)for(int k=0;k<8;k++)o.push_back((uint8_t)(w[i]>>(8*(order==EPICS_ENDIAN_BIG?7-k:k))));
  for(unsigned j=0;j<len%8;j++)o.push_back((uint8_t)(w[len/8]>>(8*j))); }
static size_t pickStep(){ static const size_t s[4]={0,1,2,9}; return s[sv_pick(4,"step")]; }
// decode(oracle encoding) is the set, for every set; re-encoding it gives the oracle bytes
QUICK(canonical){ unsigned nw=sv_pick(sv_tier?5:4,"words"); uint64_t w[5]={0,0,0,0,0}; for(unsigned i=0;i<nw;i++)w[i]=sv_any<uint64_t>("w"); int order=pickOrder();
  Bytes e; rec(e,w,nw,order); size_t n=e.size(); e.push_back(0x5a); In in(e,64,pickStep(),order); BitSet b; b.deserialize(&in.buf,&in);
  sv_check(in.consumed()==n,"decoding consumes exactly the encoding"); uint32_t j=sv_range<uint32_t>(0,330,"probe"); sv_check(b.get(j)==(j<256&&((w[j>>6]>>(j&63))&1)),"the decoded set has exactly the encoded members");
  unsigned cp=sv_pick(3,"cap"); Out o(cp?42:256,order,false,cp==2?32:0); b.serialize(&o.buf,&o); Bytes&r=o.done(); sv_check(r.size()==n,"the encoding has the canonical (shortest) length"); for(size_t i=0;i<n;i++)sv_check(r[i]==e[i],"the encoding has the bytes of the protocol"); }
// round trip of sets built by bit operations
QUICK(built){ static const uint32_t ks[4]={0,63,64,137}; uint32_t i=sv_range<uint32_t>(0,140,"i"),k=ks[sv_pick(4,"k")]; BitSet b; b.set(i).set(k); if(sv_any<bool>("clr"))b.clear(i); int order=pickOrder(); Out o(64,order); b.serialize(&o.buf,&o); Bytes&r=o.done(); In in(r,64,sv_pick(2,"step"),order); BitSet c; c.set(138); c.deserialize(&in.buf,&in); sv_check(c==b&&in.consumed()==r.size(),"decode(encode(s))==s whatever the target held before"); }
// arbitrary bytes: accepted exactly when complete; the result is the set the bytes spell, also with redundant trailing zero bytes; a truncated message leaves a well-formed set
QUICK(arbitrary){ unsigned n=sv_pick(sv_tier?20:12,"len"); Bytes e=symBytes(n); int order=pickOrder(); In in(e,64,pickStep(),order); BitSet b; b.set(3); b.set(70);
  try{ b.deserialize(&in.buf,&in); }
  catch(std::exception&){ BitSet c; uint32_t any=0; for(unsigned i=0;i<200;i++)if(b.get(i)){c.set(i);any=1;} sv_check(b==c&&b.isEmpty()==!any,"a failed decode leaves a well-formed set"); return; }
  size_t len=e[0]==0xff?0:e[0]; sv_check(e[0]<0xfe||e[0]==0xff||n>=5,"size prefix"); if(e[0]==0xfe){ sv_cover("long size form"); sv_stop(); }
  sv_check(len+1<=n&&in.consumed()==len+1,"accepted only when the announced bytes are there"); len=sv_concrete(len);
  uint32_t j=sv_range<uint32_t>(0,200,"probe"); unsigned m=0,z=1; for(size_t k=0;k<len;k++){ size_t pos=(order==EPICS_ENDIAN_BIG&&k<len/8*8)?(k/8*8+7-k%8):k; m|=(unsigned)(j/8==k)&(e[1+pos]>>(j%8))&1u; z&=(unsigned)(e[1+k]==0); }
  sv_check(b.get(j)==(m!=0),"the decoded set has exactly the members the bytes spell"); sv_check(b.isEmpty()==(z!=0),"isEmpty after decoding redundant zero bytes"); }
