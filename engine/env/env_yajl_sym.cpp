#include <cstdarg>
#include <yajl_parse.h>
#include <yajl_gen.h>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include "sv.h"
#include "env_json.h"
static JEvs*pending; static JEvs*printed;
std::string json_text(const JEvs&e){ delete pending; pending=new JEvs(e); return std::string("{}"); }
JEvs json_printed(const std::function<void(std::ostream&)>&f){ delete printed; printed=new JEvs; std::ostringstream s; f(s); return *printed; }
struct yajl_handle_t{ yajl_callbacks cb; void*ctx; bool fed,failed; };
extern "C" {
yajl_handle yajl_alloc(const yajl_callbacks*cb,yajl_alloc_funcs*,void*ctx){ yajl_handle h=new yajl_handle_t; h->cb=*cb;h->ctx=ctx;h->fed=h->failed=false; return h; }
int yajl_config(yajl_handle,int,...){return 1;}
void yajl_free(yajl_handle h){ delete h; }
static int fire(yajl_handle h,const JEv&e){ yajl_callbacks&c=h->cb; void*x=h->ctx; const unsigned char*s=(const unsigned char*)e.s.data();
  switch(e.t){ case 'n':return c.yajl_null?c.yajl_null(x):1; case 'b':return c.yajl_boolean?c.yajl_boolean(x,(int)e.i):1;
   case 'i':return c.yajl_integer?c.yajl_integer(x,e.i):1; case 'd':return c.yajl_double?c.yajl_double(x,e.d):1;
   case 's':return c.yajl_string?c.yajl_string(x,s,e.s.size()):1; case 'k':return c.yajl_map_key?c.yajl_map_key(x,s,e.s.size()):1;
   case '{':return c.yajl_start_map?c.yajl_start_map(x):1; case '}':return c.yajl_end_map?c.yajl_end_map(x):1;
   case '[':return c.yajl_start_array?c.yajl_start_array(x):1; case ']':return c.yajl_end_array?c.yajl_end_array(x):1; } return 1; }
yajl_status yajl_parse(yajl_handle h,const unsigned char*,size_t){ if(h->failed)return yajl_status_error; if(h->fed||!pending)return yajl_status_ok; h->fed=true; JEvs ev(*pending);
  for(size_t i=0;i<ev.size();i++) if(!fire(h,ev[i])){ h->failed=true; return yajl_status_client_canceled; } return yajl_status_ok; }
yajl_status yajl_complete_parse(yajl_handle h){ return h->failed?yajl_status_client_canceled:yajl_status_ok; }
size_t yajl_get_bytes_consumed(yajl_handle){ return 1u<<30; }
unsigned char* yajl_get_error(yajl_handle,int,const unsigned char*,size_t){ return (unsigned char*)strdup("error"); }
void yajl_free_error(yajl_handle,unsigned char*p){ free(p); }
// generator: state stack as in yajl_gen.c
struct yajl_gen_t{ std::vector<char> st; bool json5,err,done; };
yajl_gen yajl_gen_alloc(const yajl_alloc_funcs*){ yajl_gen g=new yajl_gen_t; g->st.push_back('S'); g->json5=g->err=g->done=false; return g; }
int yajl_gen_config(yajl_gen g,int o,...){ va_list a; va_start(a,o); if(o==yajl_gen_json5)g->json5=va_arg(a,int)!=0; va_end(a); return 1; }
void yajl_gen_free(yajl_gen g){ delete g; }
// S start, a array, k expects key, v expects map value, C complete
static yajl_gen_status pre(yajl_gen g,bool isstr){ char&s=g->st.back(); if(g->err)return yajl_gen_in_error_state; if(s=='C')return yajl_gen_generation_complete; if(s=='k'&&!isstr)return yajl_gen_keys_must_be_strings; return yajl_gen_status_ok; }
static void post(yajl_gen g){ char&s=g->st.back(); if(s=='S')s='C'; else if(s=='k')s='v'; else if(s=='v')s='k'; }
#define PRE(str) { yajl_gen_status r=pre(g,str); if(r!=yajl_gen_status_ok)return r; }
static void rec(const JEv&e){ if(!printed)printed=new JEvs; printed->push_back(e); }
yajl_gen_status yajl_gen_null(yajl_gen g){ PRE(false); rec(JEv('n')); post(g); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_bool(yajl_gen g,int b){ PRE(false); rec(JEv('b',b?1:0)); post(g); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_integer(yajl_gen g,long long v){ PRE(false); rec(JEv('i',v)); post(g); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_double(yajl_gen g,double v){ PRE(false); if((std::isnan(v)||std::isinf(v))&&!g->json5)return yajl_gen_invalid_number; rec(JEv('d',0,v)); post(g); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_string(yajl_gen g,const unsigned char*s,size_t n){ bool key=g->st.back()=='k'; PRE(true); rec(JEv(key?'k':'s',0,0,std::string((const char*)s,n))); post(g); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_map_open(yajl_gen g){ PRE(false); rec(JEv('{')); g->st.push_back('k'); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_map_close(yajl_gen g){ if(g->st.back()!='k')return yajl_gen_in_error_state; rec(JEv('}')); g->st.pop_back(); post(g); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_array_open(yajl_gen g){ PRE(false); rec(JEv('[')); g->st.push_back('a'); return yajl_gen_status_ok; }
yajl_gen_status yajl_gen_array_close(yajl_gen g){ if(g->st.back()!='a')return yajl_gen_in_error_state; rec(JEv(']')); g->st.pop_back(); post(g); return yajl_gen_status_ok; }
}
