//@title Field offsets of a structure are consistent and lookups are exact
//@bounds structure shapes: every tree with up to 5 fields (thorough 7; lookups by offset 4, thorough 6) below the top, empty structures included, leaf kinds rotating over scalar, string, scalar array, structure array, union, variant union, union array; built from the type, from parts whose offsets were already used, as union member, as array element, by cloning; offsets asked first at any field
//@bounds lookups: every offset (64 bit, symbolic) from every structure; every dotted name; every string of up to 5 characters (symbolic, no NUL) against three shapes with names that are prefixes of each other
//@explain oracle: an own depth-first numbering of the shape and an own resolution of dotted names
#include "zoo.h"
struct Node{ int kind; std::string name; std::vector<Node> ch; size_t off,next; Node():kind(0),off(0),next(0){} };   // kind -1: structure
static const char*names[4]={"a","ab","b","a_"};
static int rot;
static FieldP kindField(int k){ FieldCreatePtr fc=getFieldCreate(); StructureConstPtr s=FB()->add("i",pvInt)->add("j",pvString)->createStructure(); switch(k%7){ case 0: return fc->createScalar(pvInt); case 1: return fc->createStructureArray(s); case 2: return FB()->add("i",pvInt)->add("s",s)->createUnion(); case 3: return fc->createScalar(pvString); case 4: return fc->createScalarArray(pvDouble); case 5: return fc->createVariantUnion(); default: return fc->createUnionArray(FB()->add("i",pvInt)->createUnion()); } }
static void shape(Node&n,unsigned&budget,int depth){ n.kind=-1; unsigned w=sv_pick((budget<4?budget:4)+1,"width"); budget-=w; for(unsigned i=0;i<w;i++){ Node c; c.name=names[i]; c.kind=rot++; n.ch.push_back(c); } if(depth<4)for(unsigned i=0;i<w;i++)if(sv_pick(2,"sub"))shape(n.ch[i],budget,depth+1); }
static size_t number(Node&n,size_t o){ n.off=o++; for(size_t i=0;i<n.ch.size();i++)o=number(n.ch[i],o); return n.next=o; }
static FieldP typeOf(const Node&n){ if(n.kind>=0)return kindField(n.kind); FieldConstPtrArray f; StringArray s; for(size_t i=0;i<n.ch.size();i++){ s.push_back(n.ch[i].name); f.push_back(typeOf(n.ch[i])); } return getFieldCreate()->createStructure(s,f); }
static PVFieldPtr parts(const Node&n){ if(n.kind>=0){ PVFieldPtr p=getPVDataCreate()->createPVField(kindField(n.kind)); p->getFieldOffset(); return p; } PVFieldPtrArray f; StringArray s; for(size_t i=0;i<n.ch.size();i++){ s.push_back(n.ch[i].name); f.push_back(parts(n.ch[i])); } PVStructurePtr p=getPVDataCreate()->createPVStructure(s,f); p->getNextFieldOffset(); return p; }
typedef std::vector<std::pair<const Node*,PVField*> > Flat;
static void flat(const Node&n,PVField*f,Flat&o,PVStructure*parent,const std::string&full,bool top){ o.push_back(std::make_pair(&n,f));
  sv_check(f->getParent()==parent,"the parent is the enclosing structure"); if(!top)sv_check(f->getFieldName()==n.name,"a field carries its member name"); sv_check(f->getFullName()==full,"the full name is the path from the top"); sv_check(sameType(*f->getField(),*typeOf(n)),"a field has the declared type");
  if(n.kind<0){ PVStructure*s=static_cast<PVStructure*>(f); const PVFieldPtrArray&v=s->getPVFields(); if(v.size()!=n.ch.size()){ sv_fail("a structure has exactly the declared members"); sv_stop(); } for(size_t i=0;i<v.size();i++)flat(n.ch[i],v[i].get(),o,s,full.empty()?n.ch[i].name:full+"."+n.ch[i].name,false); } }
static void offsets(const Flat&v){ for(size_t i=0;i<v.size();i++){ sv_check(v[i].second->getFieldOffset()==v[i].first->off,"the offset is the position in the depth-first walk"); sv_check(v[i].second->getNextFieldOffset()==v[i].first->next,"the next offset is the one after the last field inside"); sv_check(v[i].second->getNumberFields()==v[i].first->next-v[i].first->off,"the number of fields counts the field and all inside"); } }
template<class A> static void lookup(PVStructure&s,A a,PVField*want){ const PVStructure&c=s; PVFieldPtr p=s.getSubField(a); sv_check(p.get()==want,"a lookup gives exactly the field asked for, or none"); sv_check(c.getSubField(a).get()==want,"a lookup gives exactly the field asked for, or none");
  PVFieldPtr q; bool t=false; try{ q=s.getSubFieldT(a); }catch(std::runtime_error&){ t=true; } sv_check(t==!want&&q.get()==want,"the throwing lookup throws exactly when there is no such field");
  PVScalar*sc=dynamic_cast<PVScalar*>(want); PVStructure*st=dynamic_cast<PVStructure*>(want); PVInt*in=dynamic_cast<PVInt*>(want);
  sv_check(s.template getSubField<PVScalar>(a).get()==sc&&s.template getSubField<PVStructure>(a).get()==st&&s.template getSubField<PVInt>(a).get()==in&&c.template getSubField<PVInt>(a).get()==in,"a typed lookup gives the field only if it has the type");
  bool u=false; PVIntPtr r; try{ r=s.template getSubFieldT<PVInt>(a); }catch(std::runtime_error&){ u=true; } sv_check(u==!in&&r.get()==in,"the throwing typed lookup throws exactly when there is no such field of that type"); }
static PVField*byOffset(const Flat&v,const Node*s,size_t o){ for(size_t i=0;i<v.size();i++)if(v[i].first->off==o&&o>s->off&&o<s->next)return v[i].second; return 0; }
static void byAllNames(PVStructure&s,const Node&n,PVStructure&cur,const std::string&pre){ for(size_t i=0;i<n.ch.size();i++){ std::string q=pre+n.ch[i].name; PVField*f=cur.getPVFields()[i].get(); lookup(s,q,f); lookup(s,q.c_str(),f); sv_check(!s.getSubField(q+"."),"a trailing dot names nothing"); if(n.ch[i].kind<0)byAllNames(s,n.ch[i],static_cast<PVStructure&>(*f),q+"."); else sv_check(!s.getSubField(q+".i"),"nothing is found below a field that is no structure"); } }
static PVStructurePtr build(const Node&n,unsigned how,PVFieldPtr&keep){ StructureConstPtr t=std::tr1::static_pointer_cast<const Structure>(typeOf(n)); switch(how){ case 0: return getPVDataCreate()->createPVStructure(t); case 1: return std::tr1::static_pointer_cast<PVStructure>(parts(n));
  case 2: { PVUnionPtr u=getPVDataCreate()->createPVUnion(FB()->add("q",pvInt)->add("s",t)->createUnion()); keep=u; return u->select<PVStructure>("s"); }
  case 3: { PVStructureArrayPtr a=getPVDataCreate()->createPVStructureArray(getFieldCreate()->createStructureArray(t)); a->append(2); keep=a; return a->view()[1]; }
  default: { PVStructurePtr o=getPVDataCreate()->createPVStructure(t); o->getFieldOffset(); return std::tr1::static_pointer_cast<PVStructure>(getPVDataCreate()->createPVField(PVFieldPtr(o))); } } }
QUICK(offsets_and_parents){ rot=0; Node n; unsigned b=sv_tier?7:5; shape(n,b,0); number(n,0); PVFieldPtr keep; unsigned how=sv_pick(5,"built"); PVStructurePtr p=build(n,how,keep); Flat v; flat(n,p.get(),v,0,"",true); if(v.size()>1&&sv_pick(2,"first"))v.back().second->getNumberFields(); offsets(v); }
QUICK(by_offset){ rot=0; Node n; unsigned b=sv_tier?6:4; shape(n,b,0); number(n,0); PVFieldPtr keep; PVStructurePtr p=build(n,0,keep); Flat v; flat(n,p.get(),v,0,"",true); size_t k=0,c=0; for(size_t i=0;i<v.size();i++)c+=v[i].first->kind<0; k=sv_pick(c,"from"); size_t o=sv_any<size_t>("offset"); for(size_t i=0;i<v.size();i++)if(v[i].first->kind<0&&k--==0){ PVField*w=byOffset(v,v[i].first,o); lookup(*static_cast<PVStructure*>(v[i].second),o,w); return; } }
QUICK(by_name){ rot=0; Node n; unsigned b=sv_tier?6:5; shape(n,b,0); number(n,0); PVFieldPtr keep; PVStructurePtr p=build(n,0,keep); byAllNames(*p,n,*p,""); for(size_t i=0;i<n.ch.size();i++)if(n.ch[i].kind<0){ PVStructure&s=static_cast<PVStructure&>(*p->getPVFields()[i]); byAllNames(s,n.ch[i],s,""); } }
static PVField*resolve(PVStructure&s,const Node&n,const std::string&q){ size_t k=0; while(k<q.size()&&q[k]!='.')k++; std::string c=q.substr(0,k); for(size_t i=0;i<n.ch.size();i++)if(c==n.ch[i].name){ PVField*f=s.getPVFields()[i].get(); if(k==q.size())return f; return n.ch[i].kind<0?resolve(static_cast<PVStructure&>(*f),n.ch[i],q.substr(k+1)):0; } return 0; }
static Node mk(const char*name,int kind){ Node n; n.name=name; n.kind=kind; return n; }
QUICK(arbitrary_names){ Node n=mk("",-1); switch(sv_pick(3,"shape")){ case 0: n.ch.push_back(mk("a",0)); n.ch.push_back(mk("ab",-1)); n.ch[1].ch.push_back(mk("a",3)); n.ch[1].ch.push_back(mk("ab",0)); n.ch.push_back(mk("abc",4)); break; case 1: n.ch.push_back(mk("ab",2)); n.ch.push_back(mk("a",-1)); n.ch[1].ch.push_back(mk("b",-1)); n.ch[1].ch[0].ch.push_back(mk("c",0)); n.ch[1].ch.push_back(mk("bc",1)); break; default: n.ch.push_back(mk("a",-1)); n.ch.push_back(mk("b",5)); } number(n,0);
  PVFieldPtr keep; PVStructurePtr p=build(n,0,keep); size_t len=sv_pick(6,"len"); std::string q=symString(len,"name"); for(size_t i=0;i<len;i++)sv_assume(q[i]!=0); PVField*w=resolve(*p,n,q); sv_check(p->getSubField(q).get()==w,"a lookup gives exactly the field asked for, or none"); PVFieldPtr r; bool t=false; try{ r=p->getSubFieldT(q); }catch(std::runtime_error&){ t=true; } sv_check(t==!w&&r.get()==w,"the throwing lookup throws exactly when there is no such field"); }
QUICK(null_name){ PVStructurePtr p=getPVDataCreate()->createPVStructure(FB()->add("a",pvInt)->createStructure()); const char*z=0; sv_check(!p->getSubField(z),"no name names nothing"); sv_check(THROWS(p->getSubFieldT(z)),"the throwing lookup throws exactly when there is no such field"); }
// type level: index and name of members agree
QUICK(members_of_types){ Node n=mk("",-1); size_t k=sv_pick(4,"k"); for(size_t i=0;i<k;i++)n.ch.push_back(mk(names[i],(int)i)); StructureConstPtr t=std::tr1::static_pointer_cast<const Structure>(typeOf(n)); size_t len=sv_pick(4,"len"); std::string q=symString(len,"name"); int at=-1; for(size_t i=0;i<k;i++)if(q==names[i])at=(int)i; FieldConstPtr f=t->getField(q); sv_check(at<0?!f:f==t->getField((size_t)at),"a type gives the member of exactly the name asked for"); size_t x=(size_t)-2; bool th=THROWS(x=t->getFieldIndex(q)); sv_check(th?at<0:(at<0?x==(size_t)-1:x==(size_t)at),"the index of a member is its position"); sv_check(THROWS(t->getFieldT(q))==(at<0),"the throwing lookup throws exactly when there is no such member"); size_t o=sv_any<size_t>("index"); bool bad=false; std::string nm; try{ nm=t->getFieldName(o); }catch(std::exception&){ bad=true; } if(o<k){ sv_check(!bad&&nm==names[o],"members are found by index"); } else sv_check(bad,"an index outside is refused"); }
