//@title Request parsing accepts exactly the request grammar
//@bounds texts derived from the grammar: up to 2 items of up to 3 levels with dots, braces, several members and options on any level; up to 3 record options; up to 3 sections in any order; option values of 0..2 arbitrary characters; 2 blanks anywhere
//@bounds arbitrary texts over a . , { } [ ] = b 1: 5 (thorough 6) characters as field list, 4 (5) as record options, 3 after the start of an option; any text of 1..3 arbitrary bytes
//@explain oracle: an independent recursive descent parser written from the grammar above; texts the grammar leaves open (repeated sections, text after a section, brackets inside option values) only have to be handled without error

// C21: request parsing. An independent recursive-descent parser of the request grammar gives the
// expected structure; texts come from grammar derivations and from symbolic characters.
//  request  := '' | section (','? section)* | items        (blanks removed first)
//  section  := 'record[' opts? ']' | ('field'|'getField'|'putField') '(' items? ')'
//  items    := item (',' item)*      item := name ('[' opts ']')? ( '.' item | '{' items '}' )?
//  opts     := name '=' value (',' name '=' value)*
#include "val.h"
#include "zoo.h"
#include <pv/createRequest.h>
static FieldCreatePtr FC(){ return getFieldCreate(); }
struct N{ std::string name; std::vector<N> kids; std::vector<std::pair<std::string,std::string> > opts; bool hasOpts; N():hasOpts(false){} };
static bool nameChar(char c){ return ((unsigned)(c>='a')&(unsigned)(c<='z'))|((unsigned)(c>='A')&(unsigned)(c<='Z'))|((unsigned)(c>='0')&(unsigned)(c<='9'))|(unsigned)(c=='_'); }
static bool valChar(char c){ return !((unsigned)(c==',')|(unsigned)(c=='[')|(unsigned)(c==']')|(unsigned)(c=='(')|(unsigned)(c==')')|(unsigned)(c=='{')|(unsigned)(c=='}')); }
struct Parser{ const std::string&t; size_t p; Parser(const std::string&t):t(t),p(0),loose(false){}
  bool at(char c){ return p<t.size()&&t[p]==c; }
  bool loose; // text the grammar leaves open
  bool name(std::string&o){ size_t q=p; while(p<t.size()&&nameChar(t[p]))p++; o=t.substr(q,p-q); return okName(o); }
  bool opts(N&n,char end){ n.hasOpts=true; for(;;){ std::string a,v; if(!name(a)||!at('='))return false; p++; while(p<t.size()&&valChar(t[p]))v+=t[p++]; if(at('{')||at('}')||at('(')||at(')')||at('[')){ loose=true; return false; } for(size_t i=0;i<n.opts.size();i++)if(n.opts[i].first==a)return false; n.opts.push_back(std::make_pair(a,v)); if(at(',')){ p++; continue; } if(at(end)){ p++; return true; } return false; } }
  bool item(std::vector<N>&out){ N n; if(!name(n.name))return false; if(n.name=="_options")return false; if(at('[')){ p++; if(!opts(n,']'))return false; } if(at('.')){ p++; if(!item(n.kids))return false; } else if(at('{')){ p++; if(!items(n.kids))return false; if(!at('}'))return false; p++; } for(size_t i=0;i<out.size();i++)if(out[i].name==n.name)return false; out.push_back(n); return true; }
  bool items(std::vector<N>&out){ for(;;){ if(!item(out))return false; if(at(',')){ p++; continue; } return true; } }
  bool lit(const char*s){ size_t n=strlen(s); if(t.compare(p,n,s)==0){ p+=n; return true; } return false; }
  // 1: well-formed, 0: not
  bool request(N*sec[4]){ static N store[4]; static const char*H[4]={"record[","field(","getField(","putField("},*Nm[4]={"record","field","getField","putField"}; for(int i=0;i<4;i++){ sec[i]=0; store[i]=N(); store[i].name=Nm[i]; }
    if(t.empty())return true; bool any=false;
    while(p<t.size()){ if(any&&at(','))p++; int k=-1; for(int i=0;i<4;i++)if(lit(H[i])){ k=i; break; } if(k<0){ if(any){ loose=true; return false; } p=0; if(!items(store[1].kids)||p!=t.size())return false; sec[1]=&store[1]; return true; } any=true; if(sec[k]){ loose=true; return false; } sec[k]=&store[k]; if(k==0){ if(at(']')){ p++; sec[k]=0; } else if(!opts(store[0],']'))return false; } else { if(!at(')')&&!items(store[k].kids))return false; if(!at(')'))return false; p++; } }
    return true; } };
static FieldP typeOf(const N&n){ StringArray nm; FieldConstPtrArray f; if(n.hasOpts){ StringArray on; FieldConstPtrArray of; for(size_t i=0;i<n.opts.size();i++){ on.push_back(n.opts[i].first); of.push_back(FC()->createScalar(pvString)); } nm.push_back("_options"); f.push_back(FC()->createStructure(on,of)); } for(size_t i=0;i<n.kids.size();i++){ nm.push_back(n.kids[i].name); f.push_back(typeOf(n.kids[i])); } return FC()->createStructure(nm,f); }
static void put(const N&n,PVStructure&s){ if(n.hasOpts){ PVStructurePtr o=s.getSubFieldT<PVStructure>("_options"); for(size_t i=0;i<n.opts.size();i++)o->getSubFieldT<PVString>(n.opts[i].first)->put(n.opts[i].second); } for(size_t i=0;i<n.kids.size();i++)put(n.kids[i],*s.getSubFieldT<PVStructure>(n.kids[i].name)); }
static std::string noBlanks(const std::string&t){ std::string r; for(size_t i=0;i<t.size();i++)if(t[i]!=' ')r+=t[i]; return r; }
static CreateRequest::shared_pointer CR;
// mustParse: the text was derived from the grammar
static void decide(const std::string&text,int mustParse){ std::string t=noBlanks(text); Parser P(t); N*sec[4]; bool ok=P.request(sec); if(P.loose)sv_stop(); if(mustParse>=0)sv_check(ok==!!mustParse,"harness: the reference parser agrees with the derivation");
  PVStructurePtr r,r2; bool threw=false; try{ r=createRequest(text); }catch(std::exception&){ threw=true; } CreateRequest::shared_pointer C=CreateRequest::create(); if(sv_pick(2,"earlier error"))sv_check(!C->createRequest("field(")&&!C->getMessage().empty(),"an ill-formed request is refused with a message"); r2=C->createRequest(text);
  sv_check(!r2==threw&&(threw?!C->getMessage().empty():C->getMessage().empty()),"a refused request gives no structure but a message, an accepted one no message"); if(!threw)sv_check(r&&sameType(*r->getField(),*r2->getField())&&same(*r,*r2),"both interfaces give the same request structure");
  if(ok){ sv_check(!threw,"a well-formed request is accepted"); if(threw)return; N top; StringArray nm; for(int i=0;i<4;i++)if(sec[i])top.kids.push_back(*sec[i]); PVStructurePtr want=getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(typeOf(top))); put(top,*want); sv_check(sameType(*want->getField(),*r->getField()),"the request structure has the fields and options spelled, in order"); if(sameType(*want->getField(),*r->getField()))sv_check(same(*want,*r),"options have the values spelled"); }
  else sv_check(threw,"an ill-formed request is refused"); }
// ---- derivations
static char symValue(){ char c=sv_any<char>("value"); sv_assume(((unsigned)valChar(c)&(unsigned)(c!=' ')&(unsigned)(c!=0))); return c; }
static std::string B(){ return sv_tier&&sv_pick(2,"blank")?" ":""; }
static std::string gOpts(unsigned n){ static const char*K[3]={"x","yy","z3"}; std::string s; for(unsigned i=0;i<n;i++){ if(i)s+=","; s+=K[i]; s+="="; unsigned l=n>2?(i==0?sv_pick(3,"vlen"):i==2):sv_pick(n>1?2:3,"vlen"); for(unsigned j=0;j<l;j++)s+=symValue(); } return s; }
static std::string gItem(const char*name,unsigned depth,bool opts){ std::string s=name; if(opts)switch(sv_pick(3,"opts")){ case 1: s+="[x="+std::string(1,symValue())+"]"; break; case 2: s+="[yy=v,q=]"; break; default:; } if(depth)switch(sv_pick(4,"below")){ case 0: break; case 1: s+="."+gItem("b",depth-1,!opts); break; case 2: s+="{"+gItem("c",depth-1,!opts)+"}"; break; default: s+="{"+gItem("c",depth-1,false)+","+gItem("d",depth-1,!opts)+"}"; } return s; }
static std::string gItems(unsigned n,unsigned depth,bool opts){ static const char*K[3]={"aa","b","c_1"}; std::string s; for(unsigned i=0;i<n;i++){ if(i)s+=","; s+=gItem(K[i],i?(depth?depth-1:0):depth,opts); } return s; }
QUICK(fields){ unsigned n=1+sv_pick(2,"items"); std::string s=gItems(n,n==1||sv_tier?2:1,true); unsigned k=sv_pick(3,"where"); decide(k==0?s:k==1?"field("+s+")":"putField("+s+")",1); }
QUICK(record_options){ std::string s="record["; unsigned n=sv_pick(4,"options"); if(n)s+=gOpts(n); s+="]"; switch(sv_pick(3,"more")){ case 1: s+="field(a)"; break; case 2: s="field(a)"+s; break; default:; } decide(s,1); }
QUICK(sections){ static const char*S[6]={"record[x=1]","field(a,b.c)","getField(d[y=2])","putField(e{f,g})","field()","record[]"}; std::string s; unsigned used=0; for(unsigned i=0;i<3;i++){ unsigned k=sv_pick(7,"section"); if(k==6)break; unsigned u=1u<<(k==4?1:k==5?0:k); if(used&u)sv_stop(); used|=u; if(i&&sv_pick(2,"comma"))s+=","; s+=S[k]; } decide(s,1); }
QUICK(section_names){ static const char*F[5]={"record","field","getField","putField","myrecord"}; std::string n=F[sv_pick(5,"name")]; switch(sv_pick(4,"form")){ case 0: decide("field("+n+")",1); break; case 1: decide("field("+n+"[x=1])",1); break; case 2: decide("field(a."+n+"[x=1]{b},c)",1); break; default: decide("putField(b{"+n+"[x=1]})record[y=2]",1); } }
QUICK(plain_names){ static const char*F[4]={"field","myrecord[x=1]","recorda","a.getField"}; decide(F[sv_pick(4,"name")],1); }
QUICK(blanks){ std::string t="record[x=1]field(a.b[y=2],c{d})"; for(unsigned i=0;i<2;i++)t.insert(sv_pick((unsigned)t.size()+1,"at")," "); decide(t,1); }
// ---- symbolic texts
static std::string symText(size_t n){ std::string s(n,'a'); for(size_t i=0;i<n;i++){ char c=sv_any<char>("c"); sv_assume((unsigned)(c=='a')|(unsigned)(c=='b')|(unsigned)(c=='.')|(unsigned)(c==',')|(unsigned)(c=='{')|(unsigned)(c=='}')|(unsigned)(c=='[')|(unsigned)(c==']')|(unsigned)(c=='=')|(unsigned)(c=='1')); s[i]=c; } return s; }
QUICK(any_fields){ decide("field("+symText(sv_tier?6:5)+")",-1); }
QUICK(any_fields_options){ decide("a[b=1"+symText(3),-1); }
QUICK(any_record){ decide("record["+symText(sv_tier?5:4)+"]",-1); }
QUICK(any_text){ std::string t=symString(1+sv_pick(3,"len"),"text"); PVStructurePtr r; bool threw=false; CreateRequest::shared_pointer C=CreateRequest::create(); r=C->createRequest(t); sv_check(!r==!C->getMessage().empty(),"a refused request gives no structure but a message, an accepted one no message"); }
