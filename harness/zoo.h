// types of every kind for the harnesses
#pragma once
#include "val.h"
static const size_t zooSizes[6]={1,2,253,254,300,65536};
static bool okName(const std::string&n){ unsigned r=n.size()>0; for(size_t i=0;i<n.size();i++){ unsigned char c=(unsigned char)n[i]; unsigned al=((unsigned)(c>='a')&(unsigned)(c<='z'))|((unsigned)(c>='A')&(unsigned)(c<='Z'))|(unsigned)(c=='_'),dg=(unsigned)(c>='0')&(unsigned)(c<='9'); r&=al|(i?dg:0u); } return r; }
static std::string symName(unsigned n){ std::string s=symString(n,"name"); sv_assume(okName(s)); return s; }
// simple leaf types: 12 scalars, bounded strings, 12x3 arrays, variant, variant array
static const unsigned zooLeaves=12+1+36+2;
static FieldP leaf(unsigned k,size_t bound){ FieldCreatePtr fc=getFieldCreate(); if(k<12)return fc->createScalar((ScalarType)k); if(k==12)return fc->createBoundedString(bound); k-=13; if(k<12)return fc->createScalarArray((ScalarType)k); if(k<24)return fc->createBoundedScalarArray((ScalarType)(k-12),bound); if(k<36)return fc->createFixedScalarArray((ScalarType)(k-24),bound); return k==36?FieldP(fc->createVariantUnion()):FieldP(fc->createVariantUnionArray()); }
static const unsigned zooTrees=10;
static FieldP tree(unsigned k){ FieldCreatePtr fc=getFieldCreate(); StructureConstPtr s1=FB()->add("x",pvInt)->add("y",pvString)->createStructure(), s2=FB()->setId("epics:nt/X:1.0")->add("x",pvInt)->add("y",pvString)->createStructure(); UnionConstPtr u1=FB()->add("x",pvInt)->add("y",pvString)->createUnion(),u2=FB()->setId("U")->add("y",pvString)->add("x",pvInt)->createUnion();
  switch(k){ case 0: return s1; case 1: return s2; case 2: return u1; case 3: return u2; case 4: return fc->createStructureArray(s2); case 5: return fc->createUnionArray(u1);
  case 6: return FB()->createStructure(); case 7: return FB()->addNestedStructure("a")->addNestedUnion("b")->addBoundedString("c",7)->addBoundedArray("d",pvByte,300)->endNested()->addNestedStructureArray("e")->setId("q")->addFixedArray("f",pvDouble,254)->endNested()->endNested()->addNestedUnionArray("g")->add("h",pvULong)->endNested()->add("v",fc->createVariantUnion())->add("w",fc->createVariantUnionArray())->createStructure();
  case 8: return FB()->add("s",s1)->add("t",s2)->add("u",u1)->createStructure(); default: return fc->createStructureArray(FB()->add("n",fc->createUnionArray(u2))->createStructure()); } }
