//@title Type descriptions on the wire
//@bounds every leaf type (12 scalars, bounded string, 12 element types x variable/bounded/fixed arrays with bounds 1, 2, 253, 254, 300, 65536, variant union and its array), 10 trees up to depth 4 (structures, unions, their arrays, default and own identifiers, empty structure)
//@bounds member names of 1..2 symbolic characters, identifiers of 1, 2, 3, 5, 9, 10 and 12 symbolic characters (any byte but 0; the default identifiers have 5 and 9), structures, unions and their arrays of 1..2 members
//@bounds transport: both byte orders, send buffers of 9..256 bytes, receive side delivering 1, 3 or 4 bytes at a time or everything; two messages through one connection-less (uncached) control
//@assume the hash that finds a cached description is computed on one representative of the symbolic names of a path (string streams are outside the symbolic encoding); hash collisions are covered by concrete colliding pairs
//@explain oracle: an independent encoder of type descriptions (val.h) and an independent structural comparison
#include "zoo.h"
static void roundtrip(FieldP f,const Link&l){ Bytes w; wType(w,f.get(),l.order); Out o(l.cap,l.order,l.dir,l.pre); f->serialize(&o.buf,&o); Bytes g=o.done(); sv_check(g.size()==w.size()&&eqBytes(g,w),"a type is encoded as the protocol prescribes"); g.push_back(0x5a); In in(g,l.step?16:512,l.step,l.order,l.dir); FieldP d=getFieldCreate()->deserialize(&in.buf,&in); sv_check(in.consumed()==g.size()-1,"decoding a type consumes exactly its encoding"); sv_check(d&&sameType(*f,*d),"a decoded type is the encoded type"); sv_check(d&&d==f,"a decoded type is the same (shared) description as an equal local one"); }
QUICK(leaves){ unsigned k=sv_pick(zooLeaves,"leaf"); size_t b=(k<12||(k>=13&&k<25)||k>=49)?1:zooSizes[sv_pick(6,"bound")]; Link l=pickLink(); roundtrip(leaf(k,b),l); }
QUICK(trees){ roundtrip(tree(sv_pick(zooTrees,"tree")),pickLink()); }
QUICK(null_type){ Bytes e(1,0xff); In in(e,16,1); sv_check(!getFieldCreate()->deserialize(&in.buf,&in)&&in.consumed()==1,"the null type decodes to no description"); }
static const unsigned lk[6]={0,11,12,13,25,48};
QUICK(names){ unsigned k=sv_pick(4,"kind"),n=1+sv_pick(2,"members"); StringArray nm; FieldConstPtrArray fs; for(unsigned i=0;i<n;i++){ nm.push_back(symName(1+(i+n)%2)); fs.push_back(leaf(lk[sv_pick(n==1?6:2,"leaf")],2)); } if(n==2)sv_assume(nm[0].size()!=nm[1].size()||nm[0]!=nm[1]); Link l; l.order=pickOrder(); l.cap=9; l.step=1; l.dir=false; FieldCreatePtr fc=getFieldCreate(); FieldP f; if(k==0)f=fc->createStructure(nm,fs); else if(k==1)f=fc->createUnion(nm,fs); else if(k==2)f=fc->createStructureArray(fc->createStructure(nm,fs)); else f=fc->createUnionArray(fc->createUnion(nm,fs)); roundtrip(f,l); }
QUICK(ids){ static const unsigned idl[7]={1,2,3,5,9,10,12}; unsigned n=idl[sv_pick(7,"idlen")]; std::string id=symString(n,"id"); for(unsigned i=0;i<n;i++)sv_assume(id[i]!=0); StringArray nm(1,"a"); FieldConstPtrArray fs(1,leaf(sv_pick(2,"leaf"),1)); Link l; l.order=pickOrder(); l.cap=9; l.step=1; l.dir=false; FieldCreatePtr fc=getFieldCreate(); FieldP f; switch(sv_pick(4,"kind")){ case 0: f=fc->createStructure(id,nm,fs); break; case 1: f=fc->createUnion(id,nm,fs); break; case 2: f=fc->createStructureArray(fc->createStructure(id,nm,fs)); break; default: f=fc->createUnionArray(fc->createUnion(id,nm,fs)); } roundtrip(f,l); }
QUICK(default_ids){ static const char*const ids[5]={"structure","union","any","","x"}; FieldCreatePtr fc=getFieldCreate(); StringArray nm(1,"a"); FieldConstPtrArray fs(1,leaf(3,1)); const char*id=ids[sv_pick(5,"id")]; bool un=sv_pick(2,"union"); Link l=pickLink(); FieldP f; try{ f=un?FieldP(fc->createUnion(id,nm,fs)):FieldP(fc->createStructure(id,nm,fs)); }catch(std::exception&){ sv_check(!*id,"only an empty identifier is refused"); return; } sv_check(*id!=0,"an empty identifier is refused"); roundtrip(f,l); }
// descriptions whose hashes collide stay distinct
static const char*const cn[9][2]={{"evHt","Fsaaa"},{"JExe","muaaa"},{"oCvx","WUaaa"},{"JKxC","ehaaa"},{"E5PC","hqaaa"},{"sBRr","wuaaa"}};
static const size_t cb[16][2]={{31438,230326},{30468,231116},{33498,232746},{83154,290410},{45836,141816},{18602,184657},{19432,185607},{57182,517131},{11212,170647},{10022,171617},{41521,268014},{40711,269044},{54089,109222},{87311,144640},{86341,145470},{17406,146825}};
QUICK(collisions){ FieldCreatePtr fc=getFieldCreate(); FieldP a,b; unsigned k=sv_pick(22,"pair"); if(k<6){ FieldP i=leaf(pvInt,0); StringArray na(1,cn[k][0]),nb(1,cn[k][1]); FieldConstPtrArray fs(1,i); if(k<3){ a=fc->createStructure(na,fs); b=fc->createStructure(nb,fs); } else { a=fc->createUnion(na,fs); b=fc->createUnion(nb,fs); } } else { k-=6; size_t x=cb[k][0],y=cb[k][1]; if(k<4){ a=fc->createBoundedString(x); b=fc->createBoundedString(y); } else if(k<8){ a=fc->createFixedScalarArray(pvInt,x); b=fc->createFixedScalarArray(pvInt,y); } else if(k<12){ a=fc->createBoundedScalarArray(pvInt,x); b=fc->createBoundedScalarArray(pvInt,y); } else { a=fc->createBoundedScalarArray(pvString,x); b=fc->createBoundedScalarArray(pvString,y); } }
  sv_check(a!=b&&!sameType(*a,*b),"two different types are different descriptions"); Link l; l.order=pickOrder(); l.cap=64; l.step=0; l.dir=false; roundtrip(b,l); roundtrip(a,l); Bytes w; wType(w,b.get(),l.order); const Field*bp=b.get(); (void)bp; b.reset(); In in(w,512,0,l.order); FieldP d=fc->deserialize(&in.buf,&in); Bytes w2; wType(w2,d.get(),l.order); sv_check(d!=a&&w2.size()==w.size()&&eqBytes(w,w2),"decoding a type never yields a different type that is in use"); }
