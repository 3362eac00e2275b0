//@title BitSet is a finite set of bit numbers
//@bounds every set is an arbitrary subset of 0..191 (up to 3 words of 64 bits, any length 0..3 words) in the algebra harnesses; bit arguments 0..255 and, for lookups, the full 32-bit range
//@bounds one arbitrary operation from two arbitrary reachable sets (inductive step), plus histories of 3 single-bit operations from the empty set
//@assume sets are built by the documented operations only; the receive path (deserialize) is used to install an arbitrary word pattern
//@explain model: three 64-bit words; every observer must agree with the model for a symbolic probe bit
#include "h.h"
struct M { uint64_t w[4]; M(){w[0]=w[1]=w[2]=w[3]=0;} bool get(uint32_t i)const{ return i<256&&((w[i>>6]>>(i&63))&1); } };
static unsigned pop(uint64_t x){ unsigned n=0; for(unsigned i=0;i<64;i++)n+=(x>>i)&1; return n; }
// arbitrary subset of 0..64*nw-1, installed through the wire format
static void any(BitSet&b,M&m,unsigned nw,const char*n){
  Bytes w; w.push_back((uint8_t)(8*nw)); 
  for(unsigned i=0;i<nw;i++){ m.w[i]=sv_any<uint64_t>(n); for(int k=0;k<8;k++)w.push_back((uint8_t)(m.w[i]>>(8*k))); }
  In in(w,256,0,EPICS_ENDIAN_LITTLE); b.deserialize(&in.buf,&in); }
static void agree(const BitSet&b,const M&m,const char*what){
  uint32_t j=sv_range<uint32_t>(0,300,"probe");
  sv_check(b.get(j)==m.get(j),"membership agrees with the set model after the operation");
  sv_check(b.isEmpty()==!(m.w[0]|m.w[1]|m.w[2]|m.w[3]),"isEmpty agrees with the set model");
  (void)what; }
static unsigned words(){ return sv_pick(sv_tier?4:3,"words"); }
QUICK(observers){ BitSet b; M m; any(b,m,words(),"s"); agree(b,m,"install"); }
// cardinality: 12 arbitrary bits at every 4-bit aligned place of every word, the rest a fixed background
QUICK(cardinality){ static const uint64_t bg[3]={0,~0ull,0x8000000000000001ull}; Bytes w; unsigned nw=1+sv_pick(3,"words"),at=sv_pick(nw,"at"),sh=4*sv_pick(14,"shift"); uint64_t g=bg[sv_pick(3,"background")]; unsigned n=0; w.push_back((uint8_t)(8*nw));
  for(unsigned i=0;i<nw;i++){ uint64_t v=g; if(i==at){ uint16_t f=sv_range<uint16_t>(0,0xfff,"bits"); uint64_t m=0xfffull<<sh; v=(g&~m)|((uint64_t)f<<sh); n+=pop(g&~m); for(int k=0;k<12;k++)n+=(f>>k)&1; } else n+=pop(g); for(int k=0;k<8;k++)w.push_back((uint8_t)(v>>(8*k))); }
  In in(w,256,0,EPICS_ENDIAN_LITTLE); BitSet b; b.deserialize(&in.buf,&in); sv_check(b.cardinality()==n,"cardinality counts the members"); }
QUICK(next_set){ BitSet b; M m; any(b,m,words(),"s"); uint32_t from=sv_range<uint32_t>(0,250,"from"); int32 r=b.nextSetBit(from);
  uint32_t j=sv_range<uint32_t>(0,300,"probe");
  if(r<0){ sv_check(r==-1,"nextSetBit returns -1 when there is none"); sv_check(!(j>=from&&m.get(j)),"nextSetBit misses no member"); }
  else { sv_check((uint32_t)r>=from&&m.get(r),"nextSetBit returns a member at or after the start"); sv_check(!(j>=from&&j<(uint32_t)r&&m.get(j)),"nextSetBit skips no member"); } }
QUICK(next_clear){ BitSet b; M m; any(b,m,words(),"s"); uint32_t from=sv_range<uint32_t>(0,250,"from"); int32 r=b.nextClearBit(from);
  uint32_t j=sv_range<uint32_t>(0,300,"probe");
  sv_check(r>=0&&(uint32_t)r>=from&&!m.get(r),"nextClearBit returns a non-member at or after the start"); sv_check(!(j>=from&&j<(uint32_t)r&&!m.get(j)),"nextClearBit skips no non-member"); }
QUICK(single_bit){ BitSet b; M m; any(b,m,words(),"s"); uint32_t i=sv_range<uint32_t>(0,255,"i"); uint64_t bit=1ull<<(i&63); unsigned w=i>>6;
  switch(sv_pick(5,"op")){ case 0:b.set(i); for(unsigned k=0;k<4;k++)if(k==w)m.w[k]|=bit; break; case 1:b.clear(i); for(unsigned k=0;k<4;k++)if(k==w)m.w[k]&=~bit; break;
   case 2:b.flip(i); for(unsigned k=0;k<4;k++)if(k==w)m.w[k]^=bit; break; case 3:{ bool v=sv_any<bool>("v"); b.set(i,v); for(unsigned k=0;k<4;k++)if(k==w)m.w[k]=v?m.w[k]|bit:m.w[k]&~bit; break; } case 4: b.clear(); m=M(); break; }
  agree(b,m,"single"); }
QUICK(binary){ BitSet a,b; M m,n; any(a,m,words(),"a"); any(b,n,words(),"b"); BitSet b0(b);
  switch(sv_pick(4,"op")){ case 0:a&=b; for(int k=0;k<4;k++)m.w[k]&=n.w[k]; break; case 1:a|=b; for(int k=0;k<4;k++)m.w[k]|=n.w[k]; break; case 2:a^=b; for(int k=0;k<4;k++)m.w[k]^=n.w[k]; break;
   case 3:a=b; m=n; break; }
  agree(a,m,"binary"); uint32_t j=sv_range<uint32_t>(0,300,"probe2"); sv_check(b.get(j)==n.get(j),"the right operand is not changed"); }
QUICK(or_and){ BitSet a,b,c; M m,n,o; unsigned wa=sv_pick(3,"wa"),wb=sv_pick(3,"wb"),wc=sv_pick(3,"wc"); any(a,m,wa,"a"); any(b,n,wb,"b"); any(c,o,wc,"c"); a.or_and(b,c); for(int k=0;k<4;k++)m.w[k]|=n.w[k]&o.w[k]; agree(a,m,"or_and"); }
QUICK(alias){ BitSet a; M m; any(a,m,words(),"a"); switch(sv_pick(4,"op")){ case 0:a&=a;break; case 1:a|=a;break; case 2:a^=a;m=M();break; case 3:a=a;break; } agree(a,m,"alias"); }
QUICK(relations){ BitSet a,b; M m,n; any(a,m,words(),"a"); any(b,n,words(),"b"); bool eq=true,inter=false,uni=false; for(int k=0;k<4;k++){ eq&=m.w[k]==n.w[k]; inter|=(m.w[k]&n.w[k])!=0; uni|=(m.w[k]|n.w[k])!=0; }
  sv_check((a==b)==eq,"equality is set equality"); sv_check((a!=b)==!eq,"inequality is set inequality"); sv_check(a.logical_and(b)==inter,"logical_and tells whether the sets intersect"); sv_check(a.logical_or(b)==uni,"logical_or tells whether the union is non-empty");
  a.swap(b); uint32_t j=sv_range<uint32_t>(0,300,"probe"); sv_check(a.get(j)==n.get(j)&&b.get(j)==m.get(j),"swap exchanges the sets"); }
// equality must not depend on history: two different operation sequences that reach the same set
QUICK(history){ BitSet a,b; M m; 
  for(int s=0;s<(sv_tier?3:2);s++){ uint32_t i=sv_range<uint32_t>(0,130,"i"); unsigned w=i>>6; uint64_t bit=1ull<<(i&63); unsigned op=sv_pick(3,"op");
    if(op==0){a.set(i);for(unsigned k=0;k<4;k++)if(k==w)m.w[k]|=bit;} else if(op==1){a.clear(i);for(unsigned k=0;k<4;k++)if(k==w)m.w[k]&=~bit;} else {a.flip(i);for(unsigned k=0;k<4;k++)if(k==w)m.w[k]^=bit;} }
  M n; any(b,n,3,"b"); bool eq=true; for(int k=0;k<4;k++)eq&=m.w[k]==n.w[k];
  sv_check((a==b)==eq,"equality depends on the members only, not on the history"); 
  BitSet c(a); c^=b; sv_check(c.isEmpty()==eq,"the symmetric difference of equal sets is empty"); }
QUICK(grow){ BitSet b; uint32_t i=sv_range<uint32_t>(0,100,"i"),k=sv_range<uint32_t>(0,400,"k"); b.set(i).set(k); uint32_t j=sv_any<uint32_t>("probe"); sv_check(b.get(j)==(j==i||j==k),"exactly the bits that were set are members"); sv_check(b.cardinality()==(i==k?1u:2u),"cardinality after two sets"); b.clear(k); b.clear(i); sv_check(b.isEmpty()&&b.size()==0,"empty again after clearing both"); }
