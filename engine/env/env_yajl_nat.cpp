#include <yajl_parse.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include "env_json.h"
static std::string q(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c<32||c=='"'||c=='\\'||c==127){char b[8];snprintf(b,8,"\\u%04x",c);r+=b;} else r+=(char)c; } return r+"\""; }
std::string json_text(const JEvs&e){ std::string r; std::vector<char> st; bool first=true;
  for(size_t i=0;i<e.size();i++){ const JEv&v=e[i]; if(v.t=='}'||v.t==']'){ r+=v.t; first=false; continue; }
    bool afterkey=i&&e[i-1].t=='k'; if(!first&&!afterkey)r+=","; first=false; char b[64];
    switch(v.t){ case 'n':r+="null";break; case 'b':r+=v.i?"true":"false";break; case 'i':snprintf(b,64,"%lld",v.i);r+=b;break;
      case 'd':snprintf(b,64,"%.17g",v.d);r+=b; if(!strpbrk(b,".e"))r+=".0"; break; case 's':r+=q(v.s);break; case 'k':r+=q(v.s)+":";break; case '{':case '[':r+=v.t;first=true;break; } }
  return r; }
#define L(x) ((JEvs*)(x))
static int cn(void*x){L(x)->push_back(JEv('n'));return 1;} static int cb(void*x,int b){L(x)->push_back(JEv('b',b?1:0));return 1;} static int ci(void*x,long long v){L(x)->push_back(JEv('i',v));return 1;}
static int cd(void*x,double v){L(x)->push_back(JEv('d',0,v));return 1;} static int cs(void*x,const unsigned char*s,size_t n){L(x)->push_back(JEv('s',0,0,std::string((const char*)s,n)));return 1;}
static int ck(void*x,const unsigned char*s,size_t n){L(x)->push_back(JEv('k',0,0,std::string((const char*)s,n)));return 1;}
static int o1(void*x){L(x)->push_back(JEv('{'));return 1;} static int o2(void*x){L(x)->push_back(JEv('}'));return 1;} static int o3(void*x){L(x)->push_back(JEv('['));return 1;} static int o4(void*x){L(x)->push_back(JEv(']'));return 1;}
JEvs json_printed(const std::function<void(std::ostream&)>&f){ std::ostringstream s; f(s); std::string t=s.str(); JEvs out; yajl_callbacks c={cn,cb,ci,cd,0,cs,o1,ck,o2,o3,o4};
  yajl_handle h=yajl_alloc(&c,0,&out); yajl_config(h,yajl_allow_json5,1); yajl_status a=yajl_parse(h,(const unsigned char*)t.data(),t.size()); if(a==yajl_status_ok)a=yajl_complete_parse(h); yajl_free(h); if(a!=yajl_status_ok)out.push_back(JEv('!')); return out; }
