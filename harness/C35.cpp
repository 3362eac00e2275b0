//@title Type names, classes and defaults
//@bounds every value of the scalar type code (32 bits) and 11 codes of kinds, every text of 0..6 arbitrary characters as a type name and every one-character change of a real name
//@bounds unions of 1..3 members out of 5 kinds and every type asked for; arrays of 0..3 elements of all 12 types
//@explain oracle: the order and meaning of the type codes in the published documentation
#include "zoo.h"
#include <pv/pvdVersion.h>
static const char*N[12]={"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string"};
static const size_t S[12]={1,1,2,4,8,1,2,4,8,4,8,sizeof(std::string)};
QUICK(classes){ int v=sv_any<int>("code"); ScalarType t=(ScalarType)v; bool in=(unsigned)(v>=1)&(unsigned)(v<=8),un=(unsigned)(v>=5)&(unsigned)(v<=8),nu=(unsigned)(v>=1)&(unsigned)(v<=10),pr=(unsigned)(v>=0)&(unsigned)(v<=10); sv_check(ScalarTypeFunc::isInteger(t)==in,"exactly byte to ulong are integers"); sv_check(ScalarTypeFunc::isUInteger(t)==un,"exactly ubyte to ulong are unsigned integers"); sv_check(ScalarTypeFunc::isNumeric(t)==nu,"exactly byte to double are numeric"); sv_check(ScalarTypeFunc::isPrimitive(t)==pr,"everything but string is primitive"); }
QUICK(names_of_types){ int v=sv_any<int>("code"); ScalarType t=(ScalarType)v; bool known=v>=0&&v<=11,threw=false; std::string n; size_t sz=0; try{ n=ScalarTypeFunc::name(t); }catch(std::invalid_argument&){ threw=true; } sv_check(threw==!known,"exactly the known scalar types have a name"); threw=false; try{ sz=ScalarTypeFunc::elementSize(t); }catch(std::invalid_argument&){ threw=true; } sv_check(threw==!known,"exactly the known scalar types have a size"); if(!known)return; unsigned k=(unsigned)sv_concrete((unsigned)v); sv_check(n==N[k]&&sz==S[k],"a scalar type has its name and size"); sv_check(ScalarTypeFunc::getScalarType(n)==t,"the name of a scalar type names it"); }
QUICK(kinds){ static const char*K[6]={"scalar","scalarArray","structure","structureArray","union","unionArray"}; static const int V[11]={0,1,2,3,4,5,6,7,-1,2147483647,-2147483647}; int v=V[sv_pick(11,"code")]; bool known=v>=0&&v<=5,threw=false; std::string n; try{ n=TypeFunc::name((Type)v); }catch(std::invalid_argument&){ threw=true; } sv_check(threw==!known,"exactly the known kinds have a name"); if(!known)return; unsigned k=(unsigned)sv_concrete((unsigned)v); sv_check(n==K[k],"a kind has its name"); }
QUICK(names){ unsigned how=sv_pick(2,"how"); std::string s; if(how==0)s=symString(sv_pick(7,"len")); else { s=N[sv_pick(12,"name")]; unsigned m=sv_pick(3,"change"); if(m==0)s[sv_pick((unsigned)s.size(),"at")]=(char)sv_any<unsigned char>("char"); else if(m==1)s+=(char)sv_any<unsigned char>("char"); else s.erase(s.size()-1); } int want=-1; for(int i=0;i<12;i++)if(eqv(s,std::string(N[i])))want=i; int got=-1; try{ got=(int)ScalarTypeFunc::getScalarType(s); }catch(std::invalid_argument&){} sv_check(got==want,"exactly the names of scalar types are known, each for its type"); }
QUICK(alloc){ unsigned k=sv_pick(12,"type"),n=sv_pick(4,"len"); shared_vector<void> v=ScalarTypeFunc::allocArray((ScalarType)k,n); sv_check(v.size()==n*S[k],"an array of the asked number of elements is made"); byScalarType((ScalarType)k,[&](auto t){ typedef decltype(t) T; shared_vector<T> a(static_shared_vector_cast<T>(v)); sv_check(a.size()==n,"an array of the asked number of elements is made"); for(size_t i=0;i<n;i++)a[i]=symVal<T>("elem"); sv_check((ScalarType)ScalarTypeID<T>::value==(ScalarType)k,"element types and type codes correspond"); }); }
QUICK(guess){ static const unsigned M=5; unsigned n=1+sv_pick(3,"members"); FieldBuilderPtr b=FB(); unsigned kind[3]; FieldCreatePtr fc=getFieldCreate(); for(unsigned i=0;i<n;i++){ kind[i]=sv_pick(M,"kind"); std::string nm(1,(char)('a'+i)); switch(kind[i]){ case 0: b->add(nm,pvInt); break; case 1: b->add(nm,pvString); break; case 2: b->addArray(nm,pvInt); break; case 3: b->addArray(nm,pvDouble); break; default: b->addNestedStructure(nm)->add("x",pvInt)->endNested(); } } UnionConstPtr u=b->createUnion(); Type t=(Type)sv_pick(6,"want"); ScalarType s=(ScalarType)sv_range<int>(0,11,"scalar"); int32 r=0; bool threw=false; try{ r=u->guess(t,s); }catch(std::logic_error&){ threw=true; } sv_check(threw==(t!=scalar&&t!=scalarArray),"a member is guessed for scalars and arrays of scalars only"); if(threw)return;
  static const ScalarType E[4]={pvInt,pvString,pvInt,pvDouble}; bool any=false,exact=false; for(unsigned i=0;i<n;i++)if(kind[i]<4&&(kind[i]<2?scalar:scalarArray)==t){ any=true; if(E[kind[i]]==s)exact=true; } sv_check(r>=-1&&r<(int32)n,"a guess is a member or none"); int i=(int)sv_concrete((unsigned)(r+1))-1; if(i<0){ sv_check(!any,"a member of the asked kind is found whenever there is one"); return; } sv_check(kind[i]<4&&(kind[i]<2?scalar:scalarArray)==t,"the member guessed is of the asked kind"); sv_check(!exact||E[kind[i]]==s,"a member of exactly the asked type is preferred"); }
QUICK(fresh_values){ unsigned k=sv_pick(zooLeaves+zooTrees,"type"); FieldP f=k<zooLeaves?leaf(k,3):tree(k-zooLeaves); PVFieldPtr p=getPVDataCreate()->createPVField(f); sv_check(p->getField()==f,"a value has the type it was made for"); sv_check(!p->isImmutable()&&!p->getParent()&&p->getFieldName().empty(),"a new value is changeable and stands alone"); sv_check(TypeFunc::name(f->getType())==std::string(f->getType()==scalar?"scalar":f->getType()==scalarArray?"scalarArray":f->getType()==structure?"structure":f->getType()==structureArray?"structureArray":f->getType()==union_?"union":"unionArray"),"a kind has its name");
  if(f->getType()==scalar)byScalarType(((const Scalar&)*f).getScalarType(),[&](auto t){ typedef decltype(t) T; sv_check(eqv(((PVScalarValue<T>&)*p).get(),T()),"a new scalar is zero or empty"); }); else if(f->getType()==scalarArray&&((const ScalarArray&)*f).getArraySizeType()!=Array::fixed)sv_check(((PVArray&)*p).getLength()==0,"a new array is empty"); else if(f->getType()==union_)sv_check(!((PVUnion&)*p).get()&&((PVUnion&)*p).getSelectedIndex()==PVUnion::UNDEFINED_INDEX,"a new union has no value"); }
QUICK(version){ PVDataVersion v; memset((void*)&v,0x5a,sizeof v); getVersion(&v); sv_check(v.major==EPICS_PVD_MAJOR_VERSION&&v.minor==EPICS_PVD_MINOR_VERSION&&v.maint==EPICS_PVD_MAINTENANCE_VERSION&&v.devel==EPICS_PVD_DEVELOPMENT_FLAG,"the version reported is the version built"); }
