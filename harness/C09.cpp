//@title Type construction and equality
//@bounds member names: every string of 0..2 characters (every byte) in every position of structures and unions of 1..3 members, through createStructure / createUnion / appendField(s) / decoding and with and without identifier
//@bounds long names: 4 members with names of 8 or 17 characters that differ in one place, one of them with an arbitrary character at the front, middle or end, looked up by names with an arbitrary last character
//@bounds equality: all pairs of 51 leaf types with two bounds and of 10 trees built independently; pairs of structures whose members, order, names or identifiers differ in one place; pairs with colliding hashes (C07)
//@assume the hash that finds a cached description is computed on one representative of the symbolic names of a path
#include "zoo.h"
QUICK(validation){ unsigned n=1+sv_pick(2,"members"),pos=sv_pick(n,"pos"); std::string s=symString(sv_pick(3,"len"),"name"); StringArray nm; FieldConstPtrArray fs; for(unsigned i=0;i<n;i++){ nm.push_back(i==pos?s:std::string(1,(char)('a'+i))); fs.push_back(leaf(i,1)); }
  bool ok=okName(s); for(unsigned i=0;i<n;i++)if(i!=pos&&eqv(s,nm[i]))ok=false; FieldCreatePtr fc=getFieldCreate(); unsigned how=sv_pick(6,"how"); FieldP f; bool refused=false;
  try{ switch(how){ case 0: f=fc->createStructure(nm,fs); break; case 1: f=fc->createStructure("id",nm,fs); break; case 2: f=fc->createUnion(nm,fs); break; case 3: f=fc->createUnion("id",nm,fs); break; case 4:{ sv_assume(pos==n-1); StructureConstPtr b=fc->createStructure(StringArray(nm.begin(),nm.end()-1),FieldConstPtrArray(fs.begin(),fs.end()-1)); f=fc->appendField(b,s,fs[n-1]); break; } case 5:{ sv_assume(pos==n-1); StructureConstPtr b=fc->createStructure(); f=fc->appendFields(b,nm,fs); } } }catch(std::exception&){ refused=true; }
  sv_check(refused==!ok,"a type is built exactly when its member names are well formed and distinct"); if(refused)return;
  if(f->getType()==structure){ const Structure&t=(const Structure&)*f; sv_check(t.getNumberFields()==n,"all members are there"); for(unsigned i=0;i<n;i++){ sv_check(eqv(t.getFieldName(i),nm[i])&&t.getField(i)==fs[i],"members are listed in order"); sv_check(t.getFieldIndex(nm[i])==i&&t.getField(nm[i])==fs[i],"members are found by name"); } sv_check(t.getFieldIndex("zz")==(size_t)-1||eqv(s,std::string("zz")),"a name that is not there is not found"); }
  else { const Union&t=(const Union&)*f; sv_check(t.getNumberFields()==n,"all members are there"); for(unsigned i=0;i<n;i++){ sv_check(eqv(t.getFieldName(i),nm[i])&&t.getField(i)==fs[i],"members are listed in order"); sv_check(t.getFieldIndex(nm[i])==i&&t.getField(nm[i])==fs[i],"members are found by name"); } } }
QUICK(long_names){ // long names that differ in one place from the others, bad or repeated anywhere in a long list
  unsigned len=sv_pick(2,"length")?17:8,n=4,pos=sv_pick(n,"pos"); std::string base(len,'n'); StringArray nm; FieldConstPtrArray fs; for(unsigned i=0;i<n;i++){ std::string t(base); t[i==0?0:i==1?len/2:len-1]=(char)('a'+i); nm.push_back(t); fs.push_back(leaf(i,1)); }
  std::string s(base); unsigned at=sv_pick(3,"at"); s[at==0?0:at==1?len/2:len-1]=(char)sv_any<unsigned char>("char"); nm[pos]=s; bool ok=okName(s); for(unsigned i=0;i<n;i++)if(i!=pos&&eqv(s,nm[i]))ok=false; FieldCreatePtr fc=getFieldCreate(); bool un=sv_pick(2,"union"); FieldP f; bool refused=false; try{ f=un?FieldP(fc->createUnion(nm,fs)):FieldP(fc->createStructure(nm,fs)); }catch(std::exception&){ refused=true; }
  sv_check(refused==!ok,"a type with long names is built exactly when they are well formed and distinct"); if(refused)return; for(unsigned i=0;i<n;i++)sv_check((un?((const Union&)*f).getFieldIndex(nm[i]):((const Structure&)*f).getFieldIndex(nm[i]))==i,"members with long names are found by name"); std::string q(base); q[len-1]=(char)sv_any<unsigned char>("query"); int w=-1; for(unsigned i=0;i<n;i++)if(eqv(q,nm[i]))w=i; sv_check((un?((const Union&)*f).getFieldIndex(q):((const Structure&)*f).getFieldIndex(q))==(size_t)w,"a similar name finds only the member it spells"); }
QUICK(lookup){ FieldCreatePtr fc=getFieldCreate(); StringArray nm; FieldConstPtrArray fs; static const char*const ns[4]={"ab","a","abc","b"}; for(unsigned i=0;i<4;i++){ nm.push_back(ns[i]); fs.push_back(leaf(i,1)); } std::string q=symString(sv_pick(4,"len"),"query"); int at=-1; for(unsigned i=0;i<4;i++)if(eqv(q,nm[i]))at=i; bool un=sv_pick(2,"union"); StructureConstPtr s=fc->createStructure(nm,fs); UnionConstPtr u=fc->createUnion(nm,fs);
  sv_check((un?u->getFieldIndex(q):s->getFieldIndex(q))==(size_t)at,"the index found for a name is that member's"); FieldConstPtr f=un?u->getField(q):s->getField(q); sv_check(at<0?!f:f==fs[at],"the member found for a name is that member"); ScalarConstPtr sc=un?u->getField<Scalar>(q):s->getField<Scalar>(q); sv_check(at<0?!sc:sc==fs[at],"typed lookup gives the member"); sv_check(!(un?u->getField<Structure>(q):s->getField<Structure>(q)),"typed lookup never gives a member of another kind"); bool th=THROWS(un?(void)u->getFieldT(q):(void)s->getFieldT(q)); sv_check(th==(at<0),"throwing lookup throws exactly when there is no such member"); }
QUICK(mismatch){ FieldCreatePtr fc=getFieldCreate(); unsigned a=sv_pick(3,"names"),b=sv_pick(3,"fields"); StringArray nm; FieldConstPtrArray fs; for(unsigned i=0;i<a;i++)nm.push_back(std::string(1,'a'+i)); int nul=sv_pick(3,"null"); bool hasnull=false; for(unsigned i=0;i<b;i++){ if((int)i==nul-1){ fs.push_back(FieldConstPtr()); hasnull=true; } else fs.push_back(leaf(0,1)); } sv_abort_ok(0); bool t=THROWS(fc->createStructure(nm,fs)); sv_check(t==(a!=b||hasnull),"names and members must agree in number and be present"); bool tu=THROWS(fc->createUnion("id",nm,fs)); sv_check(tu==(a!=b||hasnull||a==0),"a union has at least one member unless it is the variant union"); }
QUICK(leaf_pairs){ unsigned i=sv_pick(zooLeaves,"i"),j=sv_pick(zooLeaves,"j"); size_t bi=2,bj=sv_pick(2,"bound")?2:3; FieldP a=leaf(i,bi),b=leaf(j,bj); sv_check((*a==*b)==sameType(*a,*b)&&compare(*a,*b)==sameType(*a,*b)&&(*a!=*b)==!sameType(*a,*b),"two leaf types are equal exactly when they describe the same type"); }
QUICK(tree_pairs){ unsigned i=sv_pick(zooTrees,"i"),j=sv_pick(zooTrees,"j"); FieldP a=tree(i),b=tree(j); bool s=sameType(*a,*b); sv_check(s==(i==j),"trees differ"); sv_check((*a==*b)==s&&compare(*a,*b)==s,"two types are equal exactly when they describe the same type"); }
static FieldP variantOf(unsigned v,bool un){ FieldCreatePtr fc=getFieldCreate(); StringArray nm; FieldConstPtrArray fs; nm.push_back(v==1?"b":"a"); nm.push_back(v==1?"a":v==2?"c":"b"); fs.push_back(v==3?leaf(pvUInt,1):leaf(pvInt,1)); fs.push_back(v==4?FieldP(fc->createBoundedScalarArray(pvInt,5)):v==5?FieldP(fc->createFixedScalarArray(pvInt,5)):v==6?FieldP(fc->createBoundedString(5)):v==7?FieldP(fc->createBoundedString(6)):v==8?FieldP(leaf(pvString,0)):v==9?FieldP(fc->createBoundedScalarArray(pvInt,6)):FieldP(fc->createScalarArray(pvInt))); if(v==10){ nm.push_back("d"); fs.push_back(leaf(pvInt,1)); } if(v==11)return un?FieldP(fc->createUnion("other",nm,fs)):FieldP(fc->createStructure("other",nm,fs)); return un?FieldP(fc->createUnion(nm,fs)):FieldP(fc->createStructure(nm,fs)); }
QUICK(variations){ unsigned i=sv_pick(12,"i"),j=sv_pick(12,"j"); bool un=sv_pick(2,"union"); unsigned wrap=sv_pick(3,"wrap"); FieldP a=variantOf(i,un),b=variantOf(j,un); FieldCreatePtr fc=getFieldCreate(); if(wrap==1){ a=FB()->add("m",a)->createStructure(); b=FB()->add("m",b)->createStructure(); } else if(wrap==2){ if(un){ a=fc->createUnionArray(std::tr1::static_pointer_cast<const Union>(a)); b=fc->createUnionArray(std::tr1::static_pointer_cast<const Union>(b)); } else { a=fc->createStructureArray(std::tr1::static_pointer_cast<const Structure>(a)); b=fc->createStructureArray(std::tr1::static_pointer_cast<const Structure>(b)); } } sv_check((*a==*b)==(i==j)&&compare(*a,*b)==(i==j),"types that differ in one place are not equal, equal ones are"); }
QUICK(symbolic_compare){ FieldCreatePtr fc=getFieldCreate(); StringArray n1(1,symName(1+sv_pick(2,"l1"))),n2(1,symName(1+sv_pick(2,"l2"))); FieldConstPtrArray fs(1,leaf(3,1)); bool un=sv_pick(2,"union"); FieldP a=un?FieldP(fc->createUnion(n1,fs)):FieldP(fc->createStructure(n1,fs)),b=un?FieldP(fc->createUnion(n2,fs)):FieldP(fc->createStructure(n2,fs)); sv_check(compare(*a,*b)==(eqv(n1[0],n2[0])!=0),"compare tells member names apart, whatever they are"); }
QUICK(builder){ // the builder's nested forms, extension of nested members and duplicates
  FieldBuilderPtr b=FB(); unsigned k=sv_pick(8,"case"); StructureConstPtr t;
  switch(k){ case 0: t=b->add("a",pvInt)->add("a",pvInt)->createStructure(); sv_check(t->getNumberFields()==1,"an exact duplicate is ignored"); break;
  case 1: sv_check(THROWS(b->add("a",pvInt)->add("a",pvDouble)),"a duplicate with another type is refused"); break;
  case 2: sv_check(THROWS(b->add("a",pvInt)->addArray("a",pvInt)),"a duplicate of another kind is refused"); break;
  case 3: t=b->addNestedStructure("s")->add("x",pvInt)->endNested()->addNestedStructure("s")->add("y",pvString)->endNested()->createStructure(); sv_check(sameType(*t,*FB()->add("s",FB()->add("x",pvInt)->add("y",pvString)->createStructure())->createStructure()),"re-opening a nested structure extends it"); break;
  case 4: t=b->addNestedUnionArray("s")->add("x",pvInt)->endNested()->addNestedUnionArray("s")->add("y",pvString)->endNested()->createStructure(); sv_check(sameType(*t,*FB()->add("s",getFieldCreate()->createUnionArray(FB()->add("x",pvInt)->add("y",pvString)->createUnion()))->createStructure()),"re-opening a nested union array extends it"); break;
  case 5: sv_check(THROWS(b->addNestedStructure("s")->createStructure()),"a nested builder cannot build the top"); break;
  case 6: sv_check(THROWS(b->endNested()),"the top builder is not nested"); break;
  case 7:{ StructureConstPtr b0=FB()->setId("i")->add("x",pvInt)->createStructure(); t=getFieldCreate()->createFieldBuilder(b0)->add("y",pvInt)->createStructure(); sv_check(sameType(*t,*FB()->setId("i")->add("x",pvInt)->add("y",pvInt)->createStructure()),"a builder started from a type extends it"); break; } } }
