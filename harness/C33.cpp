//@title Printed text shows exactly the stored values
//@bounds escaping and quoting: every text of up to 2 (thorough 3) arbitrary characters, both styles
//@bounds values: every simple type and composite types up to 3 levels with arrays of 0..2 elements, null elements and empty unions, texts of 0..1 arbitrary character, numbers out of 3..6 per type, any starting indentation 0..2; one element of an array at every index 0..3 of 0..2
//@bounds selected printing: every selection and highlighting (out of 2^8 and 3 each way) of a structure of 8 fields on 3 levels, and of a structure inside another; both modes
//@bounds usual layouts: alarms of 7 severities and 10 statuses with messages of 0..1 arbitrary character, choices of 0..2 with every index, tables of 1..2 columns of 0..2 rows with cells of 0..1 arbitrary character and 0..3 labels
//@bounds types: every simple type and 10 composite types; numbers, texts and bit sets
//@bounds time stamps: every number of seconds 0..2^32-1 and nanoseconds 0..999999999, 5 user tags, missing fields, seconds as a long or an unsigned int
//@bounds outside: the calendar (formatted by EPICS Base; here its stand-in prints the seconds and nanoseconds it is given), layout of numbers (formatted by the C++ library)
//@explain oracle: own printer of the documented layout, and own decoder of the escapes which must give the text back
#include "zoo.h"
#include <sstream>
#include <cstdio>
#include <limits>
#include <pv/typeCast.h>
#include <pv/anyscalar.h>
#include <pv/status.h>
#include <pv/bitSet.h>
static int streams_=(sv_streams(1),0);
static PVDataCreatePtr DC(){ return getPVDataCreate(); }
static bool special(unsigned char c){ return c==7||c==8||c==12||c==10||c==13||c==9||c==11||c=='\\'||c=='\''||c=='"'; }
static bool plain(unsigned char c){ return (unsigned)(c>=32)&(unsigned)(c<=126); }
static std::string esc(const std::string&s,bool csv=false){ std::string r; static const char H[]="0123456789ABCDEF"; for(size_t i=0;i<s.size();i++){ unsigned char c=(unsigned char)s[i]; switch(c){ case 7: r+="\\a"; break; case 8: r+="\\b"; break; case 12: r+="\\f"; break; case 10: r+="\\n"; break; case 13: r+="\\r"; break; case 9: r+="\\t"; break; case 11: r+="\\v"; break; case '\\': r+="\\\\"; break; case '\'': r+="\\'"; break; case '"': r+=csv?"\"\"":"\\\""; break; default: if(plain(c))r+=(char)c; else { r+="\\x"; r+=H[c>>4]; r+=H[c&15]; } } } return r; }
static std::string quo(const std::string&s){ bool q=false; for(size_t i=0;i<s.size();i++)q=q||special((unsigned char)s[i])||s[i]==' '||!plain((unsigned char)s[i]); return q?"\""+esc(s)+"\"":s; }
static std::string unesc(const std::string&t,bool csv,bool&ok){ std::string r; ok=true; for(size_t i=0;i<t.size();i++){ unsigned char c=t[i]; if(!plain(c)){ ok=false; return r; } if(csv&&c=='"'){ if(++i>=t.size()||t[i]!='"'){ ok=false; return r; } r+='"'; continue; } if(c!='\\'){ r+=(char)c; continue; } if(++i>=t.size()){ ok=false; return r; } c=t[i]; switch(c){ case 'a': r+=(char)7; break; case 'b': r+=(char)8; break; case 'f': r+=(char)12; break; case 'n': r+=(char)10; break; case 'r': r+=(char)13; break; case 't': r+=(char)9; break; case 'v': r+=(char)11; break; case '\\': case '\'': case '"': r+=(char)c; break;
  case 'x':{ unsigned v=0; for(int k=0;k<2;k++){ if(++i>=t.size()){ ok=false; return r; } unsigned char h=t[i]; if(h>='0'&&h<='9')h-='0'; else if(h>='A'&&h<='F')h=h-'A'+10; else if(h>='a'&&h<='f')h=h-'a'+10; else { ok=false; return r; } v=v*16+h; } r+=(char)v; break; } default: ok=false; return r; } } return r; }
static void same_text(const std::string&a,const std::string&b,const char*l){ sv_check(eqv(a,b),l); }
QUICK(escape_text){ std::string s=symString(sv_pick(sv_tier?4:3,"len")); bool csv=sv_pick(2,"csv"); std::ostringstream o; if(csv)o<<escape(s).style(escape::CSV); else o<<escape(s); std::string t=o.str(); bool ok; std::string u=unesc(t,csv,ok); sv_check(ok,"escaped text is printable and well formed"); same_text(u,s,"escaped text gives the text back"); same_text(t,esc(s,csv),"only characters that need it are escaped"); same_text(escape(s).style(csv?escape::CSV:escape::C).str(),t,"the text of an escape is what it prints"); }
QUICK(quote_text){ std::string s=symString(sv_pick(sv_tier?4:3,"len")); std::ostringstream o; o<<maybeQuote(s); std::string t=o.str(); same_text(t,quo(s),"a text is quoted when it needs to be and only then"); bool ok=true; std::string u=t; if(t.size()&&t[0]=='"'){ sv_check(t.size()>=2&&t[t.size()-1]=='"',"quotes are closed"); u=unesc(t.substr(1,t.size()-2),false,ok); } sv_check(ok,"quoted text is well formed"); same_text(u,s,"quoted text gives the text back"); }
// ---- numbers: concrete values out of a few per type
static bool few=false;
template<class T> struct Pick{ static T get(){ typedef std::numeric_limits<T> L; if(std::is_floating_point<T>::value){ static const double D[6]={0,1.5,-2,1e9,0.125,-3e-7}; return (T)D[few?2:sv_pick(6,"number")]; } unsigned k=sv_pick(few?2:4,"number"); if(few)k+=2; return k==0?(T)0:k==1?L::max():k==2?L::min():(T)65; } };
template<> struct Pick<boolean>{ static boolean get(){ return sv_pick(2,"boolean"); } };
template<> struct Pick<std::string>{ static std::string get(){ if(few)return sv_pick(2,"text")?"a b":""; return symString(sv_pick(2,"strlen")); } };
static std::string num(boolean v){ return v?"true":"false"; }
static std::string dec(unsigned long v,bool neg){ std::string r; do{ r.insert(r.begin(),(char)('0'+v%10)); v/=10; }while(v); if(neg)r.insert(r.begin(),'-'); return r; }
template<class T> static std::string numI(T v){ return v<0?dec(0-(unsigned long)v,true):dec((unsigned long)v,false); }
static std::string num(int8 v){ return numI(v); } static std::string num(int16 v){ return numI(v); } static std::string num(int32 v){ return numI(v); } static std::string num(int64 v){ return numI(v); } static std::string num(uint8 v){ return numI(v); } static std::string num(uint16 v){ return numI(v); } static std::string num(uint32 v){ return numI(v); } static std::string num(uint64 v){ return numI(v); }
static std::string num(double v){ static const double D[6]={0,1.5,-2,1e9,0.125,-3e-7}; static const char*S[6]={"0","1.5","-2","1e+09","0.125","-3e-07"}; for(int i=0;i<6;i++)if(v==D[i]||(float)v==(float)D[i])return S[i]; return "?"; } static std::string num(float v){ return num((double)v); }
static std::string num(const std::string&s){ return quo(s); }
// fill with values out of a few
static void put(PVField&f,unsigned alen){ switch(f.getField()->getType()){
  case scalar: byScalarType(((PVScalar&)f).getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; ((PVScalarValue<T>&)f).put(Pick<T>::get()); }); break;
  case scalarArray:{ const ScalarArray&sa=*((PVScalarArray&)f).getScalarArray(); size_t n=sa.getArraySizeType()==Array::fixed?sa.getMaximumCapacity():sv_pick(alen,"alen"); byScalarType(sa.getElementType(),[&](auto t){ typedef decltype(t) T; shared_vector<T> v(n); for(size_t i=0;i<n;i++)v[i]=Pick<T>::get(); ((PVValueArray<T>&)f).replace(freeze(v)); }); break; }
  case structure:{ const PVFieldPtrArray&x=((PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)put(*x[i],alen); break; }
  case structureArray:{ PVStructureArray&a=(PVStructureArray&)f; size_t n=sv_pick(alen,"slen"); PVStructureArray::svector v(n); for(size_t i=0;i<n;i++)if(sv_pick(2,"nonnull")){ v[i]=DC()->createPVStructure(a.getStructureArray()->getStructure()); put(*v[i],alen); } a.replace(freeze(v)); break; }
  case unionArray:{ PVUnionArray&a=(PVUnionArray&)f; size_t n=sv_pick(alen,"ulen"); PVUnionArray::svector v(n); for(size_t i=0;i<n;i++)if(sv_pick(2,"nonnull")){ v[i]=DC()->createPVUnion(a.getUnionArray()->getUnion()); put(*v[i],alen); } a.replace(freeze(v)); break; }
  case union_:{ PVUnion&u=(PVUnion&)f; if(u.getUnion()->isVariant()){ if(sv_pick(2,"variant")){ PVIntPtr p=DC()->createPVScalar<PVInt>(); p->put(-7); u.set(p); } } else { unsigned n=u.getUnion()->getNumberFields(),k=sv_pick(n+1,"selector"); if(k<n)put(*u.select((int32)k),alen); } break; } } }
// ---- own printer
static std::string ind(long n){ return std::string(4*n,' '); }
static std::string val(const PVField&f){ std::string r; if(f.getField()->getType()==scalar){ byScalarType(((const PVScalar&)f).getScalar()->getScalarType(),[&](auto t){ typedef decltype(t) T; r=num(((const PVScalarValue<T>&)f).get()); }); return r; }
  byScalarType(((const PVScalarArray&)f).getScalarArray()->getElementType(),[&](auto t){ typedef decltype(t) T; shared_vector<const T> v(((const PVValueArray<T>&)f).view()); r="["; for(size_t i=0;i<v.size();i++){ if(i)r+=std::is_same<T,std::string>::value?", ":","; r+=num(v[i]); } r+="]"; }); return r; }
static bool simple(const PVField&f){ Type t=f.getField()->getType(); return t==scalar||t==scalarArray; }
static std::string member(const PVField&f,long n);
static std::string block(const PVField&f,long n){ std::string r=ind(n)+f.getField()->getID()+" "+f.getFieldName()+"\n"; switch(f.getField()->getType()){
  case structure:{ const PVFieldPtrArray&x=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)r+=member(*x[i],n+1); break; }
  case structureArray:{ PVStructureArray::const_svector v(((const PVStructureArray&)f).view()); for(size_t i=0;i<v.size();i++)r+=v[i]?block(*v[i],n+1):ind(n+1)+"(none)\n"; break; }
  case unionArray:{ PVUnionArray::const_svector v(((const PVUnionArray&)f).view()); for(size_t i=0;i<v.size();i++)r+=v[i]?block(*v[i],n+1):ind(n+1)+"(none)\n"; break; }
  case union_:{ PVField::const_shared_pointer p=((const PVUnion&)f).get(); r+=p?member(*p,n+1):ind(n+1)+"(none)\n"; break; } default:; } return r; }
static std::string member(const PVField&f,long n){ return simple(f)?ind(n)+f.getField()->getID()+" "+f.getFieldName()+" "+val(f)+"\n":block(f,n); }
static std::string whole(const PVField&f,long n){ return simple(f)?val(f):block(f,n); }
static void shown(const PVField&f){ long n=sv_pick(3,"indent"); std::ostringstream o; format::indent_value(o)=n; o<<f; same_text(o.str(),whole(f,n),"a value is printed with all its parts, in order"); sv_check(format::indent_value(o)==n,"printing leaves the indentation as it was"); }
QUICK(simple_values){ PVFieldPtr p=DC()->createPVField(leaf(sv_pick(zooLeaves,"leaf"),2)); put(*p,3); PVFieldPtr q=DC()->createPVField(p->getField()); q->copyUnchecked(*p); shown(*p); sv_check(same(*p,*q),"printing does not change the value"); }
QUICK(tree_values){ few=!sv_tier; static const unsigned K[8]={0,1,2,3,4,5,8,9}; PVFieldPtr p=DC()->createPVField(tree(K[sv_pick(8,"tree")])); put(*p,2); shown(*p); }
QUICK(array_element){ unsigned k=sv_pick(14,"kind"); PVFieldPtr p=DC()->createPVField(k<12?FieldP(getFieldCreate()->createScalarArray((ScalarType)k)):tree(k==12?4:5)); put(*p,3); size_t i=sv_pick(4,"index"); std::ostringstream o; PVArray&a=(PVArray&)*p; bool threw=false; try{ o<<format::array_at(i)<<a; }catch(std::out_of_range&){ threw=true; } std::string w; if(i<a.getLength()){ sv_check(!threw,"an element of an array can be printed"); if(k<12)byScalarType((ScalarType)k,[&](auto t){ typedef decltype(t) T; w=num(((PVValueArray<T>&)*p).view()[i]); }); else if(k==12){ PVStructurePtr e=((PVStructureArray&)*p).view()[i]; w=e?block(*e,0):"(none)\n"; } else { PVUnionPtr e=((PVUnionArray&)*p).view()[i]; w=e?block(*e,0):"(none)\n"; } } same_text(o.str(),w,"exactly the element asked for is printed"); }
// ---- selections
struct Top{ PVStructurePtr all,p; }; // p is printed: the top, or a structure inside it
static Top top8(){ StructureConstPtr t=FB()->add("a",pvInt)->addNestedStructure("b")->add("x",pvUByte)->addNestedStructure("c")->add("d",pvString)->endNested()->addArray("y",pvBoolean)->endNested()->addNestedUnion("e")->add("i",pvInt)->endNested()->createStructure(); Top r; r.all=sv_pick(2,"inside")?DC()->createPVStructure(FB()->add("before",pvInt)->addNestedStructure("in")->add("z",pvInt)->endNested()->add("t",t)->add("after",pvInt)->createStructure()):DC()->createPVStructure(t); r.p=r.all->getStructure()->getField("t")?r.all->getSubFieldT<PVStructure>("t"):r.all; PVStructure&s=*r.p; s.getSubFieldT<PVInt>("a")->put(-5); s.getSubFieldT<PVUByte>("b.x")->put(200); s.getSubFieldT<PVString>("b.c.d")->put("a b"); shared_vector<boolean> v(2); v[0]=1; v[1]=0; s.getSubFieldT<PVBooleanArray>("b.y")->replace(freeze(v)); s.getSubFieldT<PVUnion>("e")->select<PVInt>("i")->put(9); return r; }
static bool under(const PVField*f,const BitSet&m,size_t base){ for(;f;f=f->getParent()){ if(f->getFieldOffset()<base)break; if(m.get((uint32)f->getFieldOffset()))return true; } return m.get(0); }
static bool over(const PVField&f,const BitSet&m){ for(size_t i=f.getFieldOffset();i<f.getNextFieldOffset();i++)if(m.get((uint32)i))return true; return false; }
static std::string sel(const PVField&f,long n,const BitSet*show,const BitSet*hi,size_t base){ bool all=!show||under(&f,*show,base); if(!all&&!over(f,*show))return ""; bool h=hi&&under(&f,*hi,base); std::string r=h?"\x1b[1m":""; if(f.getField()->getType()==structure)r+=ind(n)+f.getField()->getID()+" "+f.getFieldName()+"\n"; else r+=member(f,n); if(h)r+="\x1b[0m"; if(f.getField()->getType()==structure){ const PVFieldPtrArray&x=((const PVStructure&)f).getPVFields(); for(size_t i=0;i<x.size();i++)r+=sel(*x[i],n+1,show,hi,base); } return r; }
static void selection(bool ansi){ Top t=top8(); PVStructure&p=*t.p; size_t b=p.getFieldOffset(),e=p.getNextFieldOffset(); BitSet m,h,m0,h0; bool sm=!ansi||sv_pick(2,"some"); bool wild=false; if(!ansi){ for(size_t i=b;i<e;i++)if(sv_pick(2,"show"))m.set((uint32)i); } else { static const unsigned S[3]={1,3,5}; for(unsigned k=0;k<3;k++){ if(sm&&sv_pick(2,"show"))m.set((uint32)(b+S[k])); if(sv_pick(2,"high"))h.set((uint32)(b+S[k]+(k==1?1:0))); } } if(b&&sv_pick(2,"other"))m.set((uint32)(b-1)); if(sv_pick(2,"beyond"))m.set((uint32)e+3); (void)wild; m0=m; h0=h; long n=sv_pick(2,"indent"); std::ostringstream o; format::indent_value(o)=n; PVStructure::Formatter f(p); if(sm)f.show(m); f.highlight(h).mode(ansi?PVStructure::Formatter::ANSI:PVStructure::Formatter::Plain).format(PVStructure::Formatter::Raw); o<<f; same_text(o.str(),sel(p,n,sm?&m0:0,ansi?&h0:0,b),"exactly the fields selected and what holds them are printed, in order, and exactly those highlighted are marked"); sv_check(m==m0&&h==h0,"the selection is left alone"); sv_check(format::indent_value(o)==n,"printing leaves the indentation as it was"); }
QUICK(select_plain){ selection(false); }
QUICK(select_highlight){ selection(true); }
QUICK(stream_all){ Top t=top8(); std::ostringstream o; o<<t.p->stream(); same_text(o.str(),block(*t.p,0),"a structure is printed with all its parts, in order"); }
// ---- usual layouts
static std::string alarmText(int sev,int st,const std::string&msg){ static const char*V[5]={"","MINOR ","MAJOR ","INVALID ","UNDEFINED "},*S[8]={"","DEVICE ","DRIVER ","RECORD ","DB ","CONF ","UNDEFINED ","CLIENT "}; if(sev==0)return ""; std::string r=sev>0&&sev<5?V[sev]:num((int32)sev)+" "; r+=st>=0&&st<8?S[st]:num((int32)st)+" "; if(!msg.empty())r+=msg+" "; return r; }
static FieldBuilderPtr nt(const char*id){ return FB()->setId(id); }
static FieldBuilderPtr withAlarm(FieldBuilderPtr b){ return b->addNestedStructure("alarm")->setId("alarm_t")->add("severity",pvInt)->add("status",pvInt)->add("message",pvString)->endNested(); }
static std::string setAlarm(PVStructure&p){ int sev=(int)sv_pick(7,"severity")-1,st=(int)sv_pick(10,"status")-1; std::string m=symString(sv_pick(2,"msglen")); p.getSubFieldT<PVInt>("alarm.severity")->put(sev); p.getSubFieldT<PVInt>("alarm.status")->put(st); p.getSubFieldT<PVString>("alarm.message")->put(m); return alarmText(sev,st,m); }
static FieldBuilderPtr withTime(FieldBuilderPtr b,unsigned k){ b=b->addNestedStructure("timeStamp")->setId("time_t"); if(k!=1)b=b->add("secondsPastEpoch",k==4?pvUInt:pvLong); if(k!=2)b=b->add("nanoseconds",pvInt); if(k!=3)b=b->add("userTag",pvInt); return b->endNested(); }
// the stand-in for the calendar prints seconds since 1990 and nanoseconds, four bits per character
static std::string setTime(PVStructure&p,unsigned k){ int64 s=0; int32 n=0,g=0; if(k!=1){ s=sv_range<int64>(0,4294967295LL,"seconds"); if(k==4)p.getSubFieldT<PVUInt>("timeStamp.secondsPastEpoch")->put((uint32)s); else p.getSubFieldT<PVLong>("timeStamp.secondsPastEpoch")->put(s); } if(k!=2){ n=sv_range<int32>(0,999999999,"nanoseconds"); p.getSubFieldT<PVInt>("timeStamp.nanoseconds")->put(n); } if(k!=3){ static const int32 G[5]={0,1,-7,2147483647,42}; g=G[sv_pick(5,"tag")]; p.getSubFieldT<PVInt>("timeStamp.userTag")->put(g); } uint32 e=s>631152000?(uint32)(s-631152000):0; char x[25]; for(int i=0;i<8;i++){ x[i]=(char)('0'+((e>>(28-4*i))&15)); x[9+i]=(char)('0'+(((uint32)n>>(28-4*i))&15)); } x[8]='.'; for(int i=17;i<24;i++)x[i]=' '; std::string r(x,24); r+=' '; if(g)r+=num(g)+" "; return r; }
QUICK(nt_time){ unsigned k=sv_pick(5,"fields"),kind=sv_pick(4,"kind"); bool al=sv_pick(2,"alarm"); static const char*N[4]={"epics:nt/NTScalar:1.0","epics:nt/NTScalarArray:1.0","epics:nt/NTEnum:1.0","epics:nt/NTTable:1.0"}; FieldBuilderPtr b=nt(N[kind]); switch(kind){ case 0: b=b->add("value",pvInt); break; case 1: b=b->addArray("value",pvInt); break; case 2: b=b->addNestedStructure("value")->setId("enum_t")->add("index",pvInt)->addArray("choices",pvString)->endNested(); break; default: b=b->addNestedStructure("value")->addArray("one",pvString)->endNested(); } if(al)b=withAlarm(b); b=withTime(b,k); PVStructurePtr p=DC()->createPVStructure(b->createStructure()); std::string t=setTime(*p,k),a; if(al){ p->getSubFieldT<PVInt>("alarm.severity")->put(2); p->getSubFieldT<PVString>("alarm.message")->put("m"); a=alarmText(2,0,"m"); } std::string w; if(kind==0)w=ind(1)+t+"0 "+a+"\n"; else if(kind==1)w=ind(1)+t+a+"[]\n"; else if(kind==2)w=ind(1)+t+a+"(0) <undefined>\n"; else w=ind(1)+t+" "+(al?a+" ":std::string())+"\n"+ind(1)+"one\n"; std::ostringstream o; format::indent_value(o)=1; o<<p->stream(); same_text(o.str(),w,"value, time and alarm are printed"); }
QUICK(raw_time){ unsigned k=sv_pick(5,"fields"); PVStructurePtr p=DC()->createPVStructure(withTime(FB()->add("a",pvInt),k)->createStructure()); p->getSubFieldT<PVStructure>("timeStamp"); std::string t=setTime(*p,k); BitSet sel; sel.set(p->getSubFieldT<PVStructure>("timeStamp")->getFieldOffset()); std::ostringstream o; o<<p->stream().format(PVStructure::Formatter::Raw).show(sel); std::string s=o.str(),w="structure \n    time_t timeStamp "+t+"\n"; sv_check(s.size()>=w.size(),"a time is printed with its meaning"); if(s.size()>=w.size())same_text(s.substr(0,w.size()),w,"a time is printed with its meaning"); }
QUICK(nt_alarm){ bool al=sv_pick(2,"alarm"); bool arr=sv_pick(2,"array"); FieldBuilderPtr b=nt(arr?"epics:nt/NTScalarArray:1.0":"epics:nt/NTScalar:1.0"); if(arr)b=b->addArray("value",pvInt); else b=b->add("value",pvString); if(al)b=withAlarm(b); PVStructurePtr p=DC()->createPVStructure(b->createStructure()); std::string v; if(arr){ shared_vector<int32> x(2); x[0]=-3; x[1]=7; p->getSubFieldT<PVIntArray>("value")->replace(freeze(x)); v="[-3,7]"; } else { std::string s=al?std::string("x y"):symString(sv_pick(2,"len")); p->getSubFieldT<PVString>("value")->put(s); v=quo(s); } std::string a=al?setAlarm(*p):std::string(); std::ostringstream o; format::indent_value(o)=1; o<<p->stream(); same_text(o.str(),arr?ind(1)+a+v+"\n":ind(1)+v+" "+a+"\n","value and alarm are printed"); }
QUICK(raw_alarm){ PVStructurePtr p=DC()->createPVStructure(withAlarm(FB()->add("a",pvInt))->createStructure()); std::string a=setAlarm(*p); PVStructurePtr q=p->getSubFieldT<PVStructure>("alarm"); std::ostringstream o; o<<p->stream().format(PVStructure::Formatter::Raw); std::string w="structure \n    int a 0\n    alarm_t alarm "+a+"\n"; const PVFieldPtrArray&x=q->getPVFields(); for(size_t i=0;i<x.size();i++)w+=member(*x[i],2); same_text(o.str(),w,"an alarm is printed with its meaning"); }
QUICK(enumerated){ unsigned where=sv_pick(2,"where"); PVStructurePtr p=DC()->createPVStructure(FB()->setId(where?"any":"epics:nt/NTEnum:1.0")->addNestedStructure(where?"e":"value")->setId("enum_t")->add("index",pvInt)->addArray("choices",pvString)->endNested()->createStructure()); PVStructurePtr v=p->getSubFieldT<PVStructure>(where?"e":"value"); int32 i=(int32)sv_pick(5,"index")-1; size_t n=sv_pick(3,"choices"); shared_vector<std::string> c(n); for(size_t k=0;k<n;k++)c[k]=symString(1); shared_vector<const std::string> cc(freeze(c)); v->getSubFieldT<PVInt>("index")->put(i); v->getSubFieldT<PVStringArray>("choices")->replace(cc); std::string t="("+num((uint32)i)+") "+((uint32)i<n?quo(cc[i]):std::string("<undefined>")); std::ostringstream o; o<<p->stream(); std::string w; if(where){ w="any \n    enum_t e "+t+"\n"; const PVFieldPtrArray&x=v->getPVFields(); for(size_t k=0;k<x.size();k++)w+=member(*x[k],2); } else w=t+"\n"; same_text(o.str(),w,"an enumerated value is printed with the choice its index names"); }
static std::string csv(const std::string&s){ bool q=false; for(size_t i=0;i<s.size();i++){ unsigned char c=s[i]; q=q||c=='"'||c==' '||c==','||c=='\\'; } std::string e=esc(s,true); return q?"\""+e+"\"":e; }
QUICK(table){ unsigned nc=1+sv_pick(2,"columns"),nl=sv_pick(4,"labels"); bool meta=sv_pick(2,"alarm"); FieldBuilderPtr b=nt("epics:nt/NTTable:1.0"); bool haslab=nl>0||sv_pick(2,"label"); if(haslab)b=b->addArray("labels",pvString); b=b->addNestedStructure("value")->addArray("one",pvString); if(nc==2)b=b->addArray("second",pvByte); b=b->endNested(); if(meta)b=withAlarm(b); PVStructurePtr p=DC()->createPVStructure(b->createStructure()); std::string w; if(meta){ p->getSubFieldT<PVInt>("alarm.severity")->put(2); w=alarmText(2,0,"")+" "; } w+="\n"; 
  std::vector<std::vector<std::string> > col(nc); std::vector<std::string> head; if(haslab){ static const char*L[3]={"l","long","x,y"}; shared_vector<std::string> l(nl); for(size_t i=0;i<nl;i++)l[i]=L[i]; if(nl==3&&!meta&&nc==1)l[0]=symString(1); for(size_t i=0;i<nl;i++)head.push_back(csv(l[i])); p->getSubFieldT<PVStringArray>("labels")->replace(freeze(l)); } if(head.size()<1)head.push_back("one"); if(head.size()<2)head.push_back("second"); head.resize(nc);
  size_t r0=sv_pick(3,"rows"); shared_vector<std::string> s(r0); for(size_t i=0;i<r0;i++){ s[i]=i==0&&nl==0&&!meta&&nc==1?symString(sv_pick(2,"cell")):std::string("b\"c"); col[0].push_back(csv(s[i])); } p->getSubFieldT<PVStringArray>("value.one")->replace(freeze(s)); size_t rows=r0; if(nc==2){ size_t r1=sv_pick(3,"rows"); shared_vector<int8> v(r1); for(size_t i=0;i<r1;i++){ v[i]=i?-100:65; col[1].push_back(num(v[i])); } p->getSubFieldT<PVByteArray>("value.second")->replace(freeze(v)); if(r1<rows)rows=r1; }
  std::vector<size_t> wd(nc); for(unsigned c=0;c<nc;c++){ wd[c]=head[c].size(); for(size_t i=0;i<col[c].size();i++)if(col[c][i].size()>wd[c])wd[c]=col[c][i].size(); } for(size_t r=0;r<=rows;r++){ for(unsigned c=0;c<nc;c++){ const std::string&x=r?col[c][r-1]:head[c]; if(c)w+=" "; w+=std::string(wd[c]-x.size(),' ')+x; } w+="\n"; } { std::ostringstream o; o<<p->stream(); same_text(o.str(),w,"a table is printed row by row under its labels, as long as its shortest column"); } }
// ---- types and small values
static std::string typeBody(const Field&f,long n); static std::string typeText(const Field&f,long n){ std::string r=ind(n)+f.getID(); if(f.getType()==scalar||f.getType()==scalarArray)return r; return r+"\n"+typeBody(f,n+1); }
static std::string typeBody(const Field&f,long n){ std::string r; switch(f.getType()){ case structureArray: return typeText(*((const StructureArray&)f).getStructure(),n); case unionArray: return typeText(*((const UnionArray&)f).getUnion(),n); default:; } size_t k=f.getType()==structure?((const Structure&)f).getNumberFields():((const Union&)f).getNumberFields(); for(size_t i=0;i<k;i++){ FieldConstPtr m=f.getType()==structure?((const Structure&)f).getField(i):((const Union&)f).getField(i); std::string nm=f.getType()==structure?((const Structure&)f).getFieldName(i):((const Union&)f).getFieldName(i); r+=ind(n)+m->getID()+" "+nm+"\n"; Type t=m->getType(); if(t==structure||t==union_)r+=typeBody(*m,n+1); else if(t==structureArray||t==unionArray)r+=f.getType()==structure?typeBody(*m,n+1):typeText(*m,n+1); } return r; }
QUICK(types){ FieldP f; unsigned k=sv_pick(zooLeaves+zooTrees+1,"type"); f=k<zooLeaves?leaf(k,300):k<zooLeaves+zooTrees?tree(k-zooLeaves):FieldP(FB()->addNestedUnion("u")->addNestedStructureArray("x")->add("q",pvInt)->endNested()->addNestedUnionArray("y")->add("r",pvInt)->endNested()->endNested()->createStructure()); long n=sv_pick(2,"indent"); std::ostringstream o; format::indent_value(o)=n; o<<*f; same_text(o.str(),typeText(*f,n),"a type is printed with all its members, in order"); sv_check(format::indent_value(o)==n,"printing leaves the indentation as it was"); }
QUICK(type_names){ static const char*N[12]={"boolean","byte","short","int","long","ubyte","ushort","uint","ulong","float","double","string"}; unsigned k=sv_pick(12,"type"); ScalarType t=(ScalarType)k; size_t b=sv_pick(2,"bound")?7:(size_t)-1; FieldCreatePtr fc=getFieldCreate(); std::string n=N[k],s=b==7?"7":"18446744073709551615"; sv_check(fc->createScalar(t)->getID()==n&&fc->createScalarArray(t)->getID()==n+"[]"&&fc->createBoundedScalarArray(t,b)->getID()==n+"<"+s+">"&&fc->createFixedScalarArray(t,b)->getID()==n+"["+s+"]","the name of a type tells its element type and bound"); if(k==pvString)sv_check(fc->createBoundedString(b)->getID()=="string("+s+")","the name of a type tells its element type and bound"); std::ostringstream o; o<<t; sv_check(o.str()==n&&ScalarTypeFunc::getScalarType(n)==t,"the name of a scalar type names that type"); }
QUICK(any_scalar){ unsigned k=sv_pick(13,"type"); std::ostringstream o; if(k==12){ o<<AnyScalar(); sv_check(o.str()=="(nil)","an empty scalar is printed as such"); return; } byScalarType((ScalarType)k,[&](auto t){ typedef decltype(t) T; T v=Pick<T>::get(); AnyScalar a(v); o<<a; std::string w; if constexpr(std::is_same<T,std::string>::value)w=v; else w=num(v); same_text(o.str(),w,"a dynamically typed scalar is printed as its value"); }); }
QUICK(status_text){ static const char*N[4]={"OK","WARNING","ERROR","FATAL"}; unsigned k=sv_pick(4,"type"); std::string m,d; Status s; if(k){ m=symString(sv_pick(2,"len")); d=symString(sv_pick(2,"len2")); s=Status((Status::StatusType)k,m,d); } std::ostringstream o; o<<s; std::string w=std::string("Status [type=")+N[k]; if(m.size())w+=", message="+m; if(d.size())w+=", stackDump=\n"+d; same_text(o.str(),w+"]","a status is printed with its type and message"); }
QUICK(bit_sets){ static const uint32 B[9]={0,1,2,5,62,63,64,127,128}; BitSet b; std::string w="{"; bool first=true; for(int i=0;i<9;i++)if(sv_pick(2,"bit")){ b.set(B[i]); if(!first)w+=", "; w+=num(B[i]); first=false; } std::ostringstream o; o<<b; same_text(o.str(),w+"}","a bit set is printed as the list of its members"); }
