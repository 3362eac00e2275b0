//@title A request mapper selects, copies and maps exactly the requested fields
//@bounds a base structure of 11 fields of every kind on 3 levels; every selection of its members on every level (whole, part, missing member, below a simple field, with options, ill-formed), in two orders, with and without keepIDs, in both modes; every single mask bit and the empty mask
//@bounds every mask over base and requested structure for 8 selections, with symbolic values and symbolic earlier mask contents, in both directions; repeated, failed and copied computations; selections of 4..7 levels
//@explain oracle: own selection walk over the two trees that yields the expected type, mask and offset pairs; closure of a mask over the members of selected structures; own deep comparison (val.h)
#include "zoo.h"
#include <pv/createRequest.h>
static FieldCreatePtr FC(){ return getFieldCreate(); } static PVDataCreatePtr DC(){ return getPVDataCreate(); }
typedef PVRequestMapper M;
static StructureConstPtr baseT(){ return FB()->setId("T")->add("a",pvInt)->addNestedStructure("b")->setId("B")->add("x",pvInt)->addNestedStructure("c")->add("d",pvString)->add("e",pvDouble)->endNested()->endNested()->addNestedUnion("u")->add("p",pvInt)->endNested()->addArray("v",pvShort)->addNestedStructure("z")->endNested()->addNestedStructureArray("w")->add("k",pvInt)->endNested()->createStructure(); }
struct Sel{ std::string name; std::vector<Sel> kids; bool opts,bad; Sel(const std::string&n):name(n),opts(false),bad(false){} };
typedef std::vector<Sel> Sels;
static FieldP reqType(const Sels&s,bool opts){ StringArray n; FieldConstPtrArray f; if(opts){ n.push_back("_options"); f.push_back(FB()->add("o",pvString)->createStructure()); } for(size_t i=0;i<s.size();i++){ n.push_back(s[i].name); f.push_back(s[i].bad?FieldP(FC()->createScalar(pvInt)):reqType(s[i].kids,s[i].opts)); } return FC()->createStructure(n,f); }
struct Ref{ std::vector<unsigned> mask; bool warn,bad; Ref(size_t n):mask(n,0),warn(false),bad(false){} };
static FieldP walk(const PVStructure&b,const Sels&s,bool ids,Ref&r,unsigned depth){ StringArray n; FieldConstPtrArray f; for(size_t i=0;i<s.size();i++){ PVFieldPtr m; const StringArray&bn=b.getStructure()->getFieldNames(); for(size_t k=0;k<bn.size();k++)if(bn[k]==s[i].name)m=b.getPVFields()[k]; if(s[i].bad){ r.bad=true; continue; } if(!m){ r.warn=true; continue; } n.push_back(s[i].name); bool st=m->getField()->getType()==structure; if(!st||s[i].kids.empty()||depth>=5){ f.push_back(m->getField()); if(depth>=5||!s[i].kids.empty())r.warn=true; for(size_t o=m->getFieldOffset();o<m->getNextFieldOffset();o++)r.mask[o]=1; } else { r.mask[m->getFieldOffset()]=1; f.push_back(walk((PVStructure&)*m,s[i].kids,ids,r,depth+1)); } } return ids?FC()->createStructure(b.getStructure()->getID(),n,f):FC()->createStructure(n,f); }
struct Pair{ size_t b,r; bool st; std::vector<size_t> sub; };
static void pairs(const PVStructure&b,const PVStructure&q,std::vector<Pair>&o,std::vector<size_t> up,const Ref&ref){ for(size_t i=0;i<q.getPVFields().size();i++){ const std::string&n=q.getStructure()->getFieldName(i); PVFieldPtr m; const StringArray&bn=b.getStructure()->getFieldNames(); for(size_t k=0;k<bn.size();k++)if(bn[k]==n)m=b.getPVFields()[k]; size_t B=m->getFieldOffset(),R=q.getPVFields()[i]->getFieldOffset(); std::vector<size_t> u=up; bool st=m->getField()->getType()==structure; if(ref.mask[B]){ Pair p; p.b=B; p.r=R; p.st=st; size_t at=o.size(); for(size_t k=0;k<up.size();k++)o[up[k]].sub.push_back(at); o.push_back(p); u.push_back(at); } if(st)pairs((PVStructure&)*m,(PVStructure&)*q.getPVFields()[i],o,u,ref); } }
struct Model{ Ref ref; FieldP type; std::vector<Pair> ps; Model(size_t n):ref(n){} };
// the expected mapping; false when the request has to be refused
static bool expect(Model&m,const PVStructure&base,const Sels&s,bool none,bool ids,M::mode_t mode){ size_t n=base.getNextFieldOffset(); if(none||s.empty()){ for(size_t i=0;i<n;i++)m.ref.mask[i]=1; m.type=base.getField(); } else m.type=walk(base,s,ids,m.ref,0); bool any=false; for(size_t i=1;i<n;i++)any=any||m.ref.mask[i]; m.ref.mask[0]=1; if(m.ref.bad||!any)return false; if(mode==M::Mask)m.type=base.getField(); return true; }
static void expectPairs(Model&m,const PVStructure&base,const PVStructure&req){ Pair top; top.b=top.r=0; top.st=true; m.ps.assign(1,top); pairs(base,req,m.ps,std::vector<size_t>(1,0),m.ref); }
static PVStructurePtr request(const Sels&s,bool none,int ids){ FieldBuilderPtr b=FB(); if(ids)b=b->addNestedStructure("record")->addNestedStructure("_options")->add("keepIDs",pvString)->endNested()->endNested(); if(!none)b=b->add("field",reqType(s,false)); PVStructurePtr p=DC()->createPVStructure(b->createStructure()); if(ids)p->getSubFieldT<PVString>("record._options.keepIDs")->put(ids==1?"true":ids==2?"false":"maybe"); return p; }
static std::vector<unsigned> bitsOf(const BitSet&b,size_t n){ std::vector<unsigned> r(n); for(size_t i=0;i<n;i++)r[i]=b.get((uint32)i); return r; }
// expected destination mask for a source mask
static std::vector<unsigned> closure(const Model&m,const std::vector<unsigned>&src,bool toReq,size_t n){ std::vector<unsigned> d(n,0u),on(m.ps.size()); for(size_t i=0;i<m.ps.size();i++)on[i]=src[toReq?m.ps[i].b:m.ps[i].r]; for(size_t i=0;i<m.ps.size();i++)for(size_t k=0;k<m.ps[i].sub.size();k++)on[m.ps[i].sub[k]]|=on[i]; for(size_t i=0;i<m.ps.size();i++)d[toReq?m.ps[i].r:m.ps[i].b]|=on[i]; return d; }
static void checkMask(const BitSet&got,const std::vector<unsigned>&want,const std::vector<unsigned>&before,const char*what){ unsigned ok=1; for(size_t i=0;i<want.size();i++)ok&=(unsigned)got.get((uint32)i)==(want[i]|before[i]); sv_check(ok,what); }
static void checkCopy(const M&mp,const Model&m,const PVStructure&base,const PVStructure&req,const std::vector<unsigned>&src,bool toReq,const std::vector<unsigned>&before){ size_t ns=(toReq?base:req).getNextFieldOffset(),nd=(toReq?req:base).getNextFieldOffset(); BitSet s((uint32)ns),d((uint32)nd),d2((uint32)nd); for(size_t i=0;i<ns;i++)if(src[i])s.set((uint32)i); for(size_t i=0;i<nd;i++)if(before[i]){ d.set((uint32)i); d2.set((uint32)i); }
  PVStructurePtr from=DC()->createPVStructure((toReq?base:req).getStructure()),to=DC()->createPVStructure((toReq?req:base).getStructure()),old=DC()->createPVStructure(to->getStructure()); from->copyUnchecked(toReq?base:req); to->copyUnchecked(toReq?req:base); old->copyUnchecked(*to); BitSet s0(s); if(toReq)mp.copyBaseToRequested(*from,s,*to,d); else mp.copyBaseFromRequested(*to,d,*from,s); if(toReq)mp.maskBaseToRequested(s,d2); else mp.maskBaseFromRequested(d2,s);
  std::vector<unsigned> want=closure(m,src,toReq,nd); checkMask(d,want,before,"copying adds exactly the bits of the fields copied to the mask"); checkMask(d2,want,before,"translating a mask adds exactly the bits of the fields it selects"); sv_check(s==s0,"the mask given is left alone"); std::vector<int> fromOf(nd,-1); for(size_t i=0;i<m.ps.size();i++)if(!m.ps[i].st)fromOf[toReq?m.ps[i].r:m.ps[i].b]=(int)(toReq?m.ps[i].b:m.ps[i].r);
  for(size_t i=1;i<nd;i++){ PVFieldPtr f=to->getSubFieldT(i); if(f->getField()->getType()==structure)continue; unsigned moved=fromOf[i]>=0&&want[i]; sv_check(same(*f,moved?*from->getSubFieldT((size_t)fromOf[i]):*old->getSubFieldT(i)),moved?"a selected field is copied":"a field not selected keeps its value"); }
  sv_check(same(*from,toReq?base:req),"the source of a copy is left alone"); }
static void checkMapper(const M&mp,const Model&m,const PVStructure&base){ sv_check(mp.base()&&sameType(*mp.base(),*base.getField()),"the base type is the one given"); sv_check(mp.requested()&&sameType(*mp.requested(),*m.type),"the requested type has exactly the fields selected"); unsigned ok=1; for(size_t i=0;i<m.ref.mask.size();i++)ok&=(unsigned)mp.requestedMask().get((uint32)i)==m.ref.mask[i]; ok&=mp.requestedMask().cardinality()<=m.ref.mask.size(); sv_check(ok,"the requested mask has exactly the fields selected and the structures around them"); sv_check(mp.warnings().empty()==!m.ref.warn,"there is a warning exactly when part of the request was not granted"); }
static void compute(const Sels&s,bool none,int ids,M::mode_t mode,bool copies){ PVStructurePtr base=DC()->createPVStructure(baseT()),rq=request(s,none,ids); Model m(base->getNextFieldOffset()); bool ok=expect(m,*base,s,none,ids==1,mode); if(ids==3)m.ref.warn=true; M mp; bool threw=false; try{ mp.compute(*base,*rq,mode); }catch(std::runtime_error&){ threw=true; } sv_check(threw==!ok,"a request is refused exactly when it is ill-formed or selects nothing"); if(threw||!ok){ sv_check(threw&&!mp.base()&&!mp.requested()&&mp.requestedMask().isEmpty(),"a refused request leaves the mapper as it was"); return; }
  checkMapper(mp,m,*base); if(!sameType(*mp.requested(),*m.type))return; PVStructurePtr q=mp.buildRequested(); sv_check(sameType(*q->getField(),*m.type)&&sameType(*mp.buildBase()->getField(),*base->getField()),"built values have the types of the mapper"); expectPairs(m,*base,*q); if(!copies)return; Shape sh; sh.alen=1; symval_strlen=1; fill(*base,sh); fill(*q,sh);
  size_t nb=base->getNextFieldOffset(),nr=q->getNextFieldOffset(); unsigned dir=sv_pick(2,"dir"); size_t n=dir?nr:nb; std::vector<unsigned> src(n,0u),before(dir?nb:nr,0u); unsigned bit=sv_pick((unsigned)n+1,"bit"); if(bit<n)src[bit]=1; checkCopy(mp,m,*base,*q,src,!dir,before); }
static Sel one(const char*n){ return Sel(n); } static Sel with(const char*n,Sels k){ Sel s(n); s.kids=k; return s; }
static void flip(Sels&s){ std::reverse(s.begin(),s.end()); for(size_t i=0;i<s.size();i++)flip(s[i].kids); }
static Sels pickSub(){ Sels k; switch(sv_pick(3,"x")){ case 1: k.push_back(one("x")); break; case 2: k.push_back(with("x",Sels(1,one("no")))); break; default:; } switch(sv_pick(5,"c")){ case 1: k.push_back(one("c")); break; case 2: k.push_back(with("c",Sels(1,one("e")))); break; case 3: { Sels e; e.push_back(one("d")); e.push_back(one("no")); k.push_back(with("c",e)); break; } case 4: { Sel b("d"); b.bad=true; k.push_back(with("c",Sels(1,b))); break; } default:; } return k; }
static Sels pickSels(){ Sels s; if(sv_pick(2,"a"))s.push_back(one("a")); switch(sv_pick(4,"b")){ case 1: s.push_back(one("b")); break; case 2: { Sels k=pickSub(); s.push_back(with("b",k)); if(sv_pick(2,"opts"))s.back().opts=true; break; } case 3: { Sel b("b"); b.opts=true; s.push_back(b); break; } default:; } switch(sv_pick(6,"more")){ case 1: s.push_back(one("u")); break; case 2: s.push_back(one("v")); s.push_back(one("z")); break; case 3: { s.push_back(one("no")); break; } case 4: { Sel w("w"); w.bad=true; s.push_back(w); break; } case 5: { Sel w("w"); w.opts=true; s.push_back(w); break; } default:; } return s; }
static bool partEmpty(const Sels&s,const Structure&t){ for(size_t i=0;i<s.size();i++){ FieldP f=t.getField(s[i].name); if(!f||f->getType()!=structure||s[i].kids.empty())continue; bool any=false; const Structure&u=(const Structure&)*f; for(size_t k=0;k<s[i].kids.size();k++)any=any||u.getField(s[i].kids[k].name); if(!any||partEmpty(s[i].kids,u))return true; } return false; }
QUICK(selections){ Sels s=pickSels(); if(sv_pick(2,"order"))flip(s); unsigned ids=sv_pick(2,"ids"); compute(s,false,(int)ids,sv_pick(2,"slice")?M::Slice:M::Mask,false); }
QUICK(single_bits){ Sels s; switch(sv_pick(4,"selection")){ case 0: s.push_back(one("w")); s.push_back(one("b")); break; case 1: s.push_back(with("b",Sels(1,with("c",Sels(1,one("e")))))); s.push_back(one("u")); break; case 2: s.push_back(one("v")); s.push_back(with("b",Sels(1,one("x")))); s.push_back(one("z")); break; default:; } compute(s,s.empty(),0,sv_pick(2,"slice")?M::Slice:M::Mask,true); }
QUICK(no_selection){ unsigned none=sv_pick(2,"none"),ids=sv_pick(4,"ids"); compute(Sels(),none,(int)ids,sv_pick(2,"slice")?M::Slice:M::Mask,false); }
// ---- every mask
static void masks(unsigned which,M::mode_t mode){ StructureConstPtr t=FB()->add("a",pvInt)->addNestedStructure("b")->add("x",pvInt)->addNestedStructure("c")->add("d",pvString)->add("e",pvDouble)->endNested()->endNested()->add("f",pvLong)->createStructure(); PVStructurePtr base=DC()->createPVStructure(t); Sels s; switch(which){ case 0: break; case 1: s.push_back(one("f")); s.push_back(one("a")); break; case 2: s.push_back(one("b")); break; case 3: s.push_back(with("b",Sels(1,one("c")))); break; case 4: { Sels k; k.push_back(with("c",Sels(1,one("e")))); k.push_back(one("x")); s.push_back(with("b",k)); s.push_back(one("a")); break; } case 5: s.push_back(with("b",Sels(1,one("x")))); s.push_back(one("f")); break; case 6: s.push_back(with("b",Sels(1,with("c",Sels(1,one("d")))))); break; default: { Sels k; k.push_back(one("e")); k.push_back(one("d")); s.push_back(one("f")); s.push_back(with("b",Sels(1,with("c",k)))); } }
  M mp(*base,*request(s,s.empty(),0),mode); Model m(base->getNextFieldOffset()); if(!expect(m,*base,s,s.empty(),false,mode))sv_fail("harness"); if(!sameType(*mp.requested(),*m.type)){ sv_fail("the requested type has exactly the fields selected"); return; } PVStructurePtr q=mp.buildRequested(); expectPairs(m,*base,*q); symval_strlen=1; fill(*base); fill(*q); unsigned toReq=sv_pick(2,"dir"); size_t ns=(toReq?base:q)->getNextFieldOffset(),nd=(toReq?q:base)->getNextFieldOffset(); std::vector<unsigned> src(ns),before(nd,0u); for(size_t i=0;i<ns;i++)src[i]=sv_pick(2,"bit"); if(nd>2)before[nd-2]=sv_pick(2,"before"); checkCopy(mp,m,*base,*q,src,toReq,before); }
QUICK(masks_slice){ masks(sv_tier?sv_pick(8,"selection"):3+sv_pick(5,"selection"),M::Slice); }
QUICK(masks_mask){ static const unsigned W[3]={0,4,6}; masks(sv_tier?sv_pick(8,"selection"):W[sv_pick(3,"selection")],M::Mask); }
QUICK(text_requests){ static const char*R[6]={"a,b.c.d","field(b{c[o=1],x})","record[keepIDs=true]field(b.x)","b[o=1]","field()","u,v,b{x,c{e}}"}; unsigned k=sv_pick(6,"request"); Sels s; switch(k){ case 0: s.push_back(one("a")); s.push_back(with("b",Sels(1,with("c",Sels(1,one("d")))))); break; case 1: { Sels c; c.push_back(one("c")); c.push_back(one("x")); s.push_back(with("b",c)); break; } case 2: s.push_back(with("b",Sels(1,one("x")))); break; case 3: s.push_back(one("b")); break; case 5: { Sels c; c.push_back(one("x")); c.push_back(with("c",Sels(1,one("e")))); s.push_back(one("u")); s.push_back(one("v")); s.push_back(with("b",c)); break; } default:; }
  PVStructurePtr base=DC()->createPVStructure(baseT()); M::mode_t mode=sv_pick(2,"slice")?M::Slice:M::Mask; Model m(base->getNextFieldOffset()); expect(m,*base,s,s.empty(),k==2,mode); M mp(*base,*createRequest(R[k]),mode); checkMapper(mp,m,*base); }
QUICK(deep){ unsigned n=4+sv_pick(4,"levels"); FieldP t=FB()->add("v",pvInt)->add("o",pvShort)->createStructure(); Sels s(1,one("v")); for(unsigned i=0;i<n;i++){ t=FB()->setId("L")->add("n",t)->add("k",pvByte)->createStructure(); s=Sels(1,with("n",s)); } PVStructurePtr base=DC()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(t)); M::mode_t mode=sv_pick(2,"slice")?M::Slice:M::Mask; Model m(base->getNextFieldOffset()); expect(m,*base,s,false,false,mode); M mp(*base,*request(s,false,0),mode); checkMapper(mp,m,*base); }
QUICK(history){ PVStructurePtr base=DC()->createPVStructure(baseT()); M mp; Sels cur; bool has=false; M::mode_t md=M::Slice; for(int i=0;i<3;i++){ switch(sv_pick(5,"op")){ case 0: { Sels s(1,one("a")); md=M::Slice; mp.compute(*base,*request(s,false,0),md); cur=s; has=true; break; } case 1: { Sels s(1,with("b",Sels(1,one("x")))); md=M::Mask; mp.compute(*base,*request(s,false,0),md); cur=s; has=true; break; } case 2: { Sels s(1,one("no")); sv_check(THROWS(mp.compute(*base,*request(s,false,0),M::Mask)),"a request is refused exactly when it is ill-formed or selects nothing"); sv_check(THROWS(mp.compute((PVStructure&)*base->getSubFieldT("b"),*request(Sels(),true,0),M::Mask)),"only a whole structure can be mapped"); break; } case 3: mp.reset(); has=false; break; default: { M o(mp),p; p.swap(o); sv_check(!o.base()&&!o.requested()&&o.requestedMask().isEmpty(),"swapping exchanges everything"); mp=p; } }
    if(!has){ sv_check(!mp.base()&&!mp.requested()&&mp.requestedMask().isEmpty()&&THROWS(mp.buildRequested())&&THROWS(mp.buildBase()),"an empty mapper maps nothing"); continue; }
    Model m(base->getNextFieldOffset()); expect(m,*base,cur,false,false,md); checkMapper(mp,m,*base); PVStructurePtr q=mp.buildRequested(); expectPairs(m,*base,*q); std::vector<unsigned> src(base->getNextFieldOffset(),0u),before(q->getNextFieldOffset(),0u); src[0]=1; base->getSubFieldT<PVInt>("a")->put(sv_any<int32>("a")); base->getSubFieldT<PVInt>("b.x")->put(sv_any<int32>("x")); checkCopy(mp,m,*base,*q,src,true,before); } }
