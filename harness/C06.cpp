//@title Partial structure updates
//@bounds a structure of 10 fields over 3 levels (scalars, string, scalar array, structure array, union, empty structure): every one of the 2^10 masks, each also with bits set behind the structure, applied to the whole structure or to a nested one; values symbolic
//@bounds a structure of 74 fields (masks over more than one word): every first bit 0..80 with second bits 1, 63, 64, 70, 71, 73
//@bounds transport: both byte orders, receive side delivering 1 byte at a time or everything
//@explain oracle: the expected bytes are the selected fields in depth-first order encoded by an independent encoder; a field is selected when its own bit or that of a structure around it is set
#include "val.h"
static void want(Bytes&o,const PVField&f,const BitSet&m,int ord){ if(m.get((uint32)f.getFieldOffset())){ wField(o,f,ord); return; } if(f.getField()->getType()==structure){ const PVFieldPtrArray&x=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)want(o,*x[i],m,ord); } }
// dst leaf equals src when selected, old otherwise
static void verify(const PVField&s,const PVField&d,const PVField&old,const BitSet&m,bool sel){ sel=sel||m.get((uint32)s.getFieldOffset()); if(s.getField()->getType()==structure){ const PVFieldPtrArray&x=((const PVStructure&)s).getPVFields(),&y=((const PVStructure&)d).getPVFields(),&z=((const PVStructure&)old).getPVFields(); for(size_t i=0;i<x.size();i++)verify(*x[i],*y[i],*z[i],m,sel); return; }
  if(sel)sv_check(same(s,d),"a selected field becomes equal to the sender's"); else sv_check(same(d,old),"a field that is not selected keeps its value"); }
static PVFieldPtr field(PVStructurePtr top,unsigned k){ return k?PVFieldPtr(top->getSubFieldT<PVStructure>(k==1?"s":"s.t")):PVFieldPtr(top); }
static void run(StructureConstPtr T,unsigned nbits,const char*const*roots,unsigned nroots){
  PVDataCreatePtr dc=getPVDataCreate(); PVStructurePtr a=dc->createPVStructure(T),b=dc->createPVStructure(T),c=dc->createPVStructure(T); Shape sh; sh.alen=1; fill(*a,sh); fill(*b,sh); Out o0(256); b->serialize(&o0.buf,&o0); Bytes st=o0.done(); In i0(st,256,0); c->deserialize(&i0.buf,&i0); // c: the receiver's old contents
  BitSet m; for(unsigned i=0;i<nbits;i++)if(sv_pick(2,"bit"))m.set(i); unsigned beh=sv_pick(3,"behind"); if(beh==1)m.set(nbits); else if(beh==2){ m.set(nbits+1); m.set(200); }
  unsigned r=sv_pick(nroots,"root"); PVStructurePtr ra=r?a->getSubFieldT<PVStructure>(roots[r]):a,rb=r?b->getSubFieldT<PVStructure>(roots[r]):b,rc=r?c->getSubFieldT<PVStructure>(roots[r]):c;
  int ord=sv_pick(2,"order")?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; Bytes w; want(w,*ra,m,ord); BitSet m0(m);
  Out o(16,ord); ra->serialize(&o.buf,&o,&m); Bytes g=o.done(); sv_check(g.size()==w.size()&&eqBytes(g,w),"exactly the selected fields are sent, in order"); sv_check(m==m0,"sending does not change the mask");
  g.push_back(0x5a); bool one=ord==EPICS_ENDIAN_BIG; In in(g,one?16:256,one?1:0,ord); rb->deserialize(&in.buf,&in,&m); sv_check(in.consumed()==g.size()-1,"exactly the bytes that were sent are consumed"); sv_check(m==m0,"receiving does not change the mask");
  verify(*ra,*rb,*rc,m,false); if(r){ const PVFieldPtrArray&x=b->getPVFields(),&z=c->getPVFields(); for(size_t i=0;i<x.size();i++)if(x[i]->getField()->getType()!=structure)sv_check(same(*x[i],*z[i]),"fields outside the structure keep their value"); } }
// offsets: 0 top,1 a,2 s{3 x,4 t{5 y,6 z},7 w},8 e{}? ,9 arr
QUICK(nested){ static const char*const r[3]={"","s","s.t"}; symval_strlen=1; run(FB()->add("a",pvUByte)->addNestedStructure("s")->add("x",pvUShort)->addNestedStructure("t")->add("y",pvUByte)->add("z",pvString)->endNested()->add("w",pvUByte)->endNested()->addArray("v",pvUByte)->createStructure(),9,r,3); }
QUICK(kinds){ static const char*const r[2]={"","s"}; symval_strlen=1; run(FB()->addNestedStructure("s")->addNestedUnion("u")->add("i",pvInt)->endNested()->addNestedStructure("e")->endNested()->endNested()->addNestedStructureArray("n")->add("q",pvUByte)->endNested()->add("b",pvDouble)->createStructure(),6,r,2); }
QUICK(wide){ static const char*const r[1]={""}; FieldBuilderPtr fb=FB(); char nm[8]; for(int i=0;i<70;i++){ nm[0]='f';nm[1]='0'+i/10;nm[2]='0'+i%10;nm[3]=0; fb->add(nm,pvUByte); } fb->addNestedStructure("s")->add("x",pvUByte)->add("y",pvUByte)->endNested(); StructureConstPtr T=fb->createStructure(); PVDataCreatePtr dc=getPVDataCreate(); PVStructurePtr a=dc->createPVStructure(T),b=dc->createPVStructure(T),c=dc->createPVStructure(T); for(int i=0;i<70;i++)a->getSubFieldT<PVUByte>(i+1)->put((uint8)(i+1)); uint8 x=sv_any<uint8>("x"),y=sv_any<uint8>("y"); a->getSubFieldT<PVUByte>("s.x")->put(x); a->getSubFieldT<PVUByte>("s.y")->put(y); uint32 i=(uint32)sv_pick(81,"i"); static const uint32 js[6]={1,63,64,70,71,73}; uint32 j=js[sv_pick(6,"j")]; BitSet m; m.set(i); m.set(j); (void)r;
  Bytes w; want(w,*a,m,EPICS_BYTE_ORDER); Out o(128); a->serialize(&o.buf,&o,&m); Bytes g=o.done(); sv_check(g.size()==w.size()&&eqBytes(g,w),"exactly the selected fields are sent, in order"); In in(g,128,0); b->deserialize(&in.buf,&in,&m); sv_check(in.consumed()==g.size(),"exactly the bytes that were sent are consumed"); verify(*a,*b,*c,m,false); }
