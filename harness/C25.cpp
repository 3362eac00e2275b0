//@title Mask compression keeps the meaning of the mask
//@bounds structures of 1..13 fields over 4 levels (empty structures, nested structures whose only member is a structure, last / first position), every mask over their bits, with and without bits behind the structure
//@explain oracle: selected leaves before and after, computed from parents; minimality: a structure's bit replaces its members' bits exactly when everything below is selected
#include "val.h"
#include <pv/bitSetUtil.h>
static StructureConstPtr shape(unsigned k){ switch(k){
  case 0: return FB()->createStructure(); case 1: return FB()->add("a",pvInt)->createStructure();
  case 2: return FB()->add("a",pvInt)->addNestedStructure("s")->add("b",pvInt)->add("c",pvString)->endNested()->add("d",pvInt)->createStructure();
  case 3: return FB()->addNestedStructure("s")->addNestedStructure("t")->addNestedStructure("u")->add("b",pvInt)->endNested()->endNested()->endNested()->createStructure();
  case 4: return FB()->addNestedStructure("s")->addNestedStructure("t")->add("b",pvInt)->add("c",pvInt)->endNested()->add("d",pvInt)->endNested()->addNestedStructure("w")->add("e",pvInt)->endNested()->createStructure();
  case 5: return FB()->addNestedStructure("e")->endNested()->addNestedStructure("s")->addNestedStructure("f")->endNested()->addNestedUnion("u")->add("x",pvInt)->endNested()->endNested()->addNestedStructure("g")->endNested()->createStructure();
  case 6: return FB()->addNestedStructure("s")->add("a",pvInt)->addNestedStructure("t")->add("b",pvInt)->addNestedStructureArray("c")->add("q",pvInt)->endNested()->endNested()->addNestedStructure("v")->addArray("d",pvInt)->endNested()->endNested()->createStructure();
  default: return FB()->add("a",pvInt)->addNestedStructure("s")->add("b",pvInt)->addNestedStructure("t")->add("c",pvInt)->add("d",pvInt)->endNested()->addNestedStructure("u")->add("e",pvInt)->add("f",pvInt)->endNested()->endNested()->add("g",pvInt)->createStructure(); } }
// leaf: a field without members
static bool selected(const PVField*f,const BitSet&m){ for(;f;f=f->getParent())if(m.get((uint32)f->getFieldOffset()))return true; return false; }
static void leaves(PVField*f,std::vector<PVField*>&v,std::vector<PVField*>&all){ all.push_back(f); if(f->getNumberFields()==1){ v.push_back(f); return; } const PVFieldPtrArray&c=((PVStructure*)f)->getPVFields(); for(size_t i=0;i<c.size();i++)leaves(c[i].get(),v,all); }
static void run(unsigned k,bool behind){ PVStructurePtr s=getPVDataCreate()->createPVStructure(shape(k)); std::vector<PVField*> lv,all; leaves(s.get(),lv,all); BitSetPtr m(new BitSet()); for(size_t i=0;i<all.size();i++)if(sv_pick(2,"bit"))m->set((uint32)i); uint32 nb=(uint32)all.size(); if(behind){ m->set(nb); m->set(nb+70); } BitSet m0(*m); bool r=BitSetUtil::compress(m,s); bool some=false,every=true;
  for(size_t i=0;i<lv.size();i++){ bool a=selected(lv[i],m0),b=selected(lv[i],*m); sv_check(a==b,"compression selects exactly the same leaf fields"); some=some||a; every=every&&a; }
  sv_check(r==some,"the result tells whether anything is selected"); if(every&&some)sv_check(m->get(0),"when everything is selected the top bit is set");
  for(size_t i=0;i<all.size();i++){ PVField*f=all[i]; if(f->getNumberFields()==1)continue; bool full=true; for(size_t j=0;j<lv.size();j++){ bool in=lv[j]->getFieldOffset()>=f->getFieldOffset()&&lv[j]->getFieldOffset()<f->getNextFieldOffset(); if(in&&!selected(lv[j],m0))full=false; }
    bool up=false; for(PVField*p=f->getParent();p;p=p->getParent())if(m->get((uint32)p->getFieldOffset()))up=true; if(full&&!up)sv_check(m->get((uint32)f->getFieldOffset()),"a structure that is selected as a whole is selected by its own bit"); if(m->get((uint32)f->getFieldOffset()))for(size_t j=f->getFieldOffset()+1;j<f->getNextFieldOffset();j++)sv_check(!m->get((uint32)j),"below a set structure bit no bit is left"); }
  sv_check(m->get(nb)==m0.get(nb)&&m->get(nb+70)==m0.get(nb+70),"bits behind the structure are not touched"); BitSet m1(*m); bool r2=BitSetUtil::compress(m,s); sv_check(*m==m1&&r2==r,"compressing twice changes nothing more"); }
QUICK(small){ unsigned k=sv_pick(5,"shape"); run(k,sv_pick(2,"behind")); }
QUICK(medium){ run(5+sv_pick(2,"shape"),false); }
QUICK(large){ run(7,false); }
