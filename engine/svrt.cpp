// svrt - runtime of the symbolic executor: shadow memory, path constraints, Z3 queries,
// exploration driver (parent schedules, one forked child per path).
#include "svexpr.h"
#include <z3.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <map>
#include <set>
#include <unordered_set>
#include <algorithm>
#include <deque>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <link.h>
#include <errno.h>
#include <signal.h>
#include <time.h>
#include <ctype.h>
#include <strings.h>
#include <malloc.h>
#include <new>
#include <stdexcept>
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <execinfo.h>
#include "sv_internal.h"

extern "C" const char *__asan_locate_address(void*,char*,size_t,void**,size_t*);
extern "C" int __asan_address_is_poisoned(void const volatile*);

extern "C" { Expr* __sv_args[64]; uint64_t __sv_argv[64]; Expr* __sv_rets[16]; void* __sv_callee; void* __sv_retfn; }
static Expr* zeros[64];
static EB B;
static bool active=false;          // inside a harness run
static int outfd=-1;

// ---------------------------------------------------------------- statistics
struct Stats{ uint64_t queries,sat,unsat,unknown,branches,checks,symchecks,cached,concr,steps,checkunsat,loads; double ztime; uint64_t exprs,leaks,shdrop,maxpc; };
static Stats st;
static double now(){timespec t;clock_gettime(CLOCK_MONOTONIC,&t);return t.tv_sec+t.tv_nsec*1e-9;}

// ---------------------------------------------------------------- run configuration
struct Item{ std::vector<uint8_t> in; uint32_t bound; uint64_t hash; std::vector<uint64_t> excl; uint64_t parentv; std::string trail; };
static Item cur;
static std::vector<uint8_t> curin; static std::vector<Expr*> invars; static uint32_t inpos=0;
static double qtimeout_ms=10000;
static uint64_t steplimit=200000000; 

// ---------------------------------------------------------------- messages
static void wr(const void*p,size_t n){const char*c=(const char*)p;while(n){ssize_t r=write(outfd,c,n);if(r<0){if(errno==EINTR)continue;_exit(97);}c+=r;n-=r;}}
static void msg(char t,const std::string&s){ uint32_t n=s.size();std::string b;b.push_back(t);b.append((char*)&n,4);b+=s;wr(b.data(),b.size()); }
static std::string ser(const std::vector<uint8_t>&in){std::string s;uint32_t n=in.size();s.append((char*)&n,4);s.append((const char*)in.data(),n);return s;}
static void note(const char*k,const std::string&s){ static std::set<std::string> seen; std::string m=std::string(k)+"\x01"+s; if(seen.insert(m).second)msg('N',m);}
static void incomplete(const std::string&s){note("INCOMPLETE",s);}

// ---------------------------------------------------------------- Z3
static Z3_context z; static Z3_solver zs_bv,zs_fp; 
static void zerr(Z3_context c,Z3_error_code e){ fprintf(stderr,"Z3 error: %s\n",Z3_get_error_msg(c,e)); msg('N',std::string("INCOMPLETE\x01z3 error ")+Z3_get_error_msg(c,e)); _exit(98); }
static Z3_ast tz(Expr*e); static Z3_ast tb(Expr*e);
static bool usesFP;
static Z3_sort bvs(unsigned w){return Z3_mk_bv_sort(z,w);}
static Z3_ast num(u128 v,unsigned w){ if(w<=64)return Z3_mk_unsigned_int64(z,(uint64_t)v,bvs(w)); Z3_ast h=Z3_mk_unsigned_int64(z,(uint64_t)(v>>64),bvs(w-64)),l=Z3_mk_unsigned_int64(z,(uint64_t)v,bvs(64));return Z3_mk_concat(z,h,l);}
static Z3_ast b2v(Z3_ast b){return Z3_mk_ite(z,b,num(1,1),num(0,1));}
static Z3_sort fps(unsigned w){return w==64?Z3_mk_fpa_sort_double(z):Z3_mk_fpa_sort_single(z);}
static Z3_ast fp(Expr*e){return Z3_mk_fpa_to_fp_bv(z,tz(e),fps(e->w));}
static Z3_ast rne(){return Z3_mk_fpa_rne(z);}
static Z3_ast tb(Expr*e){
  if(e->zb)return (Z3_ast)e->zb; Z3_ast r;
  switch(e->k){
  case CONST:r=e->cv?Z3_mk_true(z):Z3_mk_false(z);break;
  case EQ:{Expr*x=e->a[0],*y=e->a[1]; r= x->w==1?Z3_mk_eq(z,tb(x),tb(y)):Z3_mk_eq(z,tz(x),tz(y));break;}
  case ULT:r=Z3_mk_bvult(z,tz(e->a[0]),tz(e->a[1]));break; case ULE:r=Z3_mk_bvule(z,tz(e->a[0]),tz(e->a[1]));break;
  case SLT:r=Z3_mk_bvslt(z,tz(e->a[0]),tz(e->a[1]));break; case SLE:r=Z3_mk_bvsle(z,tz(e->a[0]),tz(e->a[1]));break;
  case AND:{Z3_ast v[2]={tb(e->a[0]),tb(e->a[1])};r=Z3_mk_and(z,2,v);break;} case OR:{Z3_ast v[2]={tb(e->a[0]),tb(e->a[1])};r=Z3_mk_or(z,2,v);break;}
  case XOR:r=Z3_mk_xor(z,tb(e->a[0]),tb(e->a[1]));break; case NOT:r=Z3_mk_not(z,tb(e->a[0]));break;
  case ITE:r=Z3_mk_ite(z,tb(e->a[0]),tb(e->a[1]),tb(e->a[2]));break;
  case FEQ:r=Z3_mk_fpa_eq(z,fp(e->a[0]),fp(e->a[1]));break; case FLT:r=Z3_mk_fpa_lt(z,fp(e->a[0]),fp(e->a[1]));break; case FLE:r=Z3_mk_fpa_leq(z,fp(e->a[0]),fp(e->a[1]));break;
  case FISNAN:r=Z3_mk_fpa_is_nan(z,fp(e->a[0]));break;
  case FF2IOK:{ Expr*x=e->a[0]; unsigned w=e->aux&0xff; bool sg=e->aux&0x100; double lo=sg?-std::ldexp(1.0,w-1):0,hi=sg?std::ldexp(1.0,w-1):std::ldexp(1.0,w); bool strict=!sg||w<(x->w==64?53u:24u); // trunc(x)>=lo
     Z3_ast L=Z3_mk_fpa_numeral_double(z,strict?lo-1:lo,fps(x->w)),H=Z3_mk_fpa_numeral_double(z,hi,fps(x->w)),f=fp(x); Z3_ast v[2]={strict?Z3_mk_fpa_lt(z,L,f):Z3_mk_fpa_leq(z,L,f),Z3_mk_fpa_lt(z,f,H)}; r=Z3_mk_and(z,2,v);break;}
  default: r=Z3_mk_eq(z,tz(e),num(1,1));
  }
  Z3_inc_ref(z,r);e->zb=r;return r;
}
static Z3_ast tz(Expr*e){
  if(e->z)return (Z3_ast)e->z; Z3_ast r; Expr*a=e->a[0],*b=e->a[1]; unsigned w=e->w;
  switch(e->k){
  case CONST:r=num(e->cv,w);break;
  case VAR:{char n[32];snprintf(n,32,"i%u",e->aux);r=Z3_mk_const(z,Z3_mk_string_symbol(z,n),bvs(w));break;}
  case CONCAT:r=Z3_mk_concat(z,tz(a),tz(b));break; case EXTRACT:r=Z3_mk_extract(z,e->aux+w-1,e->aux,tz(a));break;
  case ZEXT:r=Z3_mk_zero_ext(z,w-a->w,tz(a));break; case SEXT:r=Z3_mk_sign_ext(z,w-a->w,tz(a));break;
  case ADD:r=Z3_mk_bvadd(z,tz(a),tz(b));break; case SUB:r=Z3_mk_bvsub(z,tz(a),tz(b));break; case MUL:r=Z3_mk_bvmul(z,tz(a),tz(b));break;
  case UDIV:r=Z3_mk_bvudiv(z,tz(a),tz(b));break; case SDIV:r=Z3_mk_bvsdiv(z,tz(a),tz(b));break; case UREM:r=Z3_mk_bvurem(z,tz(a),tz(b));break; case SREM:r=Z3_mk_bvsrem(z,tz(a),tz(b));break;
  case AND:if(w==1){r=b2v(tb(e));break;}r=Z3_mk_bvand(z,tz(a),tz(b));break; case OR:if(w==1){r=b2v(tb(e));break;}r=Z3_mk_bvor(z,tz(a),tz(b));break; case XOR:if(w==1){r=b2v(tb(e));break;}r=Z3_mk_bvxor(z,tz(a),tz(b));break;
  case NOT:if(w==1){r=b2v(tb(e));break;}r=Z3_mk_bvnot(z,tz(a));break;
  case SHL:r=Z3_mk_bvshl(z,tz(a),tz(b));break; case LSHR:r=Z3_mk_bvlshr(z,tz(a),tz(b));break; case ASHR:r=Z3_mk_bvashr(z,tz(a),tz(b));break;
  case ITE:r=Z3_mk_ite(z,tb(a),tz(b),tz(e->a[2]));break;
  case FADD:case FSUB:case FMUL:case FDIV:{
    Z3_ast fa=fp(a),fb=fp(b); Z3_ast x= e->k==FADD?Z3_mk_fpa_add(z,rne(),fa,fb):e->k==FSUB?Z3_mk_fpa_sub(z,rne(),fa,fb):e->k==FMUL?Z3_mk_fpa_mul(z,rne(),fa,fb):Z3_mk_fpa_div(z,rne(),fa,fb);
    Z3_ast q=num(w==64?(u128)1<<51:(u128)1<<22,w), ind=num(w==64?(u128)0xFFF8000000000000ull:(u128)0xFFC00000u,w);
    r=Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,fa),Z3_mk_bvor(z,tz(a),q),Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,fb),Z3_mk_bvor(z,tz(b),q),Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,x),ind,Z3_mk_fpa_to_ieee_bv(z,x))));break;}
  case FCVT:{ if(a->w==w){r=tz(a);break;} Z3_ast fa=fp(a); Z3_ast x=Z3_mk_fpa_to_fp_float(z,rne(),fa,fps(w)); Z3_ast nb;
    if(a->w==32) nb=Z3_mk_concat(z,Z3_mk_concat(z,Z3_mk_extract(z,31,31,tz(a)),num(0xfff,12)),Z3_mk_concat(z,Z3_mk_extract(z,21,0,tz(a)),num(0,29)));
    else nb=Z3_mk_concat(z,Z3_mk_concat(z,Z3_mk_extract(z,63,63,tz(a)),num(0x1ff,9)),Z3_mk_extract(z,50,29,tz(a)));
    r=Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,fa),nb,Z3_mk_fpa_to_ieee_bv(z,x));break;}
  case F2U:r=Z3_mk_fpa_to_ubv(z,Z3_mk_fpa_rtz(z),fp(a),w);break; case F2S:r=Z3_mk_fpa_to_sbv(z,Z3_mk_fpa_rtz(z),fp(a),w);break;
  case U2F:r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_unsigned(z,rne(),tz(a),fps(w)));break; case S2F:r=Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_to_fp_signed(z,rne(),tz(a),fps(w)));break;
  case FRND:{Z3_ast rm=e->aux==7?Z3_mk_fpa_rtn(z):e->aux==8?Z3_mk_fpa_rtp(z):e->aux==9?Z3_mk_fpa_rtz(z):rne(); Z3_ast fa=fp(a);Z3_ast q=num(w==64?(u128)1<<51:(u128)1<<22,w);
    r=Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,fa),Z3_mk_bvor(z,tz(a),q),Z3_mk_fpa_to_ieee_bv(z,Z3_mk_fpa_round_to_integral(z,rm,fa)));break;}
  case FSQRT:{Z3_ast fa=fp(a);Z3_ast x=Z3_mk_fpa_sqrt(z,rne(),fa);Z3_ast q=num(w==64?(u128)1<<51:(u128)1<<22,w),ind=num(w==64?(u128)0xFFF8000000000000ull:(u128)0xFFC00000u,w);
    r=Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,fa),Z3_mk_bvor(z,tz(a),q),Z3_mk_ite(z,Z3_mk_fpa_is_nan(z,x),ind,Z3_mk_fpa_to_ieee_bv(z,x)));break;}
  default: r=b2v(tb(e));
  }
  Z3_inc_ref(z,r);e->z=r;return r;
}

// ---------------------------------------------------------------- path constraints with independence slicing
static std::vector<Expr*> pc; static std::unordered_set<Expr*> pcset;
static std::vector<int> uf; static std::vector<std::vector<Expr*>> grp; // by var root
static uint32_t epoch=0;
static int fnd(int x){while(uf[x]!=x){uf[x]=uf[uf[x]];x=uf[x];}return x;}
static void vars(Expr*e,std::vector<int>&out,bool&fpf){
  ++epoch; std::vector<Expr*> s{e};
  while(!s.empty()){Expr*x=s.back();s.pop_back(); if(x->epoch==epoch||x->k==CONST)continue;x->epoch=epoch; if(x->k==VAR){out.push_back(x->aux);continue;}
    if(x->k>=FADD)fpf=true; for(Expr*c:x->a)if(c)s.push_back(c);}
}
static void addPC(Expr*c){
  if(EB::isC(c))return; if(!pcset.insert(c).second)return;
  if(c->k==AND){ pcset.insert(c->a[0]);pcset.insert(c->a[1]); }
  pc.push_back(c); if(pc.size()>st.maxpc)st.maxpc=pc.size();
  std::vector<int> v;bool f=false;vars(c,v,f); if(v.empty())return;
  int r=fnd(v[0]); for(size_t i=1;i<v.size();i++){int q=fnd(v[i]);if(q!=r){ if(grp[q].size()>grp[r].size())std::swap(q,r); grp[r].insert(grp[r].end(),grp[q].begin(),grp[q].end());grp[q].clear();uf[q]=r;}}
  grp[r].push_back(c);
}
struct Cache{ uint64_t h1,h2; };
static Cache*cache; static const size_t NC=1<<22; // shared UNSAT cache
// 1 sat (model in out), 0 unsat, -1 unknown
static int query(Expr*c,std::vector<uint8_t>&out){
  if(EB::isC(c)){out=curin;return c->cv?1:0;}
  if(pcset.count(B.not_(c)))return 0;
  std::vector<int> v;bool fpf=false;vars(c,v,fpf);
  std::vector<Expr*> cs; std::set<int> roots; for(int x:v)roots.insert(fnd(x));
  for(int r:roots)for(Expr*e:grp[r])cs.push_back(e);
  uint64_t h1=c->h1,h2=c->h2; { uint64_t s1=0,s2=0; for(Expr*e:cs){s1+=e->h1*0x9E3779B97F4A7C15ull;s2^=EB::mix(e->h2,7);} h1=EB::mix(h1,s1);h2=EB::mix(h2,s2);} if(!h1)h1=1;
  size_t slot=h1%NC; for(int k=0;k<4;k++){Cache&q=cache[(slot+k)%NC]; if(q.h1==h1&&q.h2==h2){st.cached++;return 0;}}
  std::vector<int> dummy; for(Expr*e:cs)if(!fpf)vars(e,dummy,fpf);
  double t0=now(); st.queries++;
  Z3_solver s=fpf?zs_fp:zs_bv;
  Z3_solver_push(z,s);
  for(Expr*e:cs)Z3_solver_assert(z,s,tb(e)); Z3_solver_assert(z,s,tb(c));
  Z3_lbool r=Z3_solver_check(z,s); int res=-1;
  if(r==Z3_L_TRUE){ res=1; st.sat++; out=curin;
    Z3_model m=Z3_solver_get_model(z,s);Z3_model_inc_ref(z,m);
    std::set<int> mv(v.begin(),v.end()); for(Expr*e:cs){std::vector<int> vv;bool f;vars(e,vv,f);mv.insert(vv.begin(),vv.end());}
    for(int x:mv){ Z3_ast val; if(Z3_model_eval(z,m,tz(invars[x]),1,&val)){uint64_t u=0;Z3_get_numeral_uint64(z,val,&u); if((size_t)x>=out.size())out.resize(x+1); out[x]=(uint8_t)u;} }
    Z3_model_dec_ref(z,m);
  } else if(r==Z3_L_FALSE){ res=0;st.unsat++; Cache&q=cache[slot]; for(int k=0;k<4;k++){Cache&y=cache[(slot+k)%NC]; if(!y.h1){y.h2=h2;__sync_synchronize();y.h1=h1;goto done;}} q.h1=0;q.h2=h2;__sync_synchronize();q.h1=h1; done:; }
  else { st.unknown++; incomplete(std::string("solver unknown: ")+Z3_solver_get_reason_unknown(z,s)); }
  Z3_solver_pop(z,s,1);
  st.ztime+=now()-t0;
  return res;
}

// ---------------------------------------------------------------- branches
static uint32_t nb=0; static uint64_t phash=0; static bool checkedPrefix=false;
static bool frozen=false; // replay diverged: run on concretely, only reporting what this input does
static int abortok=0; static void flushStats(); [[noreturn]] static void endRun(const char*why);
static bool dbgTrail=getenv("SV_TRAIL")!=0; static std::string trail;
static void tr(char k,void*site,Expr*e){ if(!dbgTrail)return; char b[80]; Dl_info di; uint64_t o=(uint64_t)site; const char*fn=""; if(dladdr(site,&di)){o-=(uint64_t)di.dli_fbase;fn=di.dli_fname;fn=strrchr(fn,47)?strrchr(fn,47)+1:fn;} snprintf(b,80,"%c %lx %d/%d:%llx %.20s\n",k,o,e?(int)e->k:-1,e?(int)e->w:0,(unsigned long long)(e&&e->a[0]?(uint64_t)e->a[0]->cv:0),fn); trail+=b; }
static void stepPrefix(){
  if(nb==cur.bound&&!checkedPrefix){checkedPrefix=true; if(phash!=cur.hash){if(dbgTrail){FILE*f=fopen("/tmp/trail.txt","a");fprintf(f,"==== parent\n%s==== me\n%s==== input %s\n",cur.trail.c_str(),trail.c_str(),ser(curin).c_str());fclose(f);} incomplete("nondeterministic replay (path prefix diverged)");frozen=true;}}
}
static void sendItem(const std::vector<uint8_t>&in,uint32_t bound,uint64_t hash,void*site,const std::vector<uint64_t>&ex){
  std::string s; s.append((char*)&bound,4);s.append((char*)&hash,8);uint64_t si=(uint64_t)site;s.append((char*)&si,8);uint32_t n=ex.size();s.append((char*)&n,4);s.append((const char*)ex.data(),8*n);s+=ser(in);if(dbgTrail)s+=trail;msg('I',s);
}
static void branchOn(Expr*c,bool taken,void*site){ // c: symbolic condition whose concrete value is `taken`
  if(!active||frozen||EB::isC(c))return;
  if((bool)c->cv!=taken){ incomplete("shadow/concrete mismatch at branch"); return; }
  Expr*t=taken?c:B.not_(c); if(pcset.count(t))return;
  stepPrefix(); if(frozen)return;
  st.branches++;
  Expr*n=B.not_(t);
  uint64_t tagT=EB::mix((uint64_t)site,taken),tagN=EB::mix((uint64_t)site,!taken);
  if(nb>=cur.bound){ std::vector<uint8_t> in; int r=query(n,in); if(r==1)sendItem(in,nb+1,EB::mix(phash,tagN),site,{}); }
  tr('b',site,t); addPC(t); phash=EB::mix(phash,tagT); nb++; 
}
static bool locate(uint64_t a,uint64_t&base,uint64_t&size); static bool locate2(uint64_t a,uint64_t&base,uint64_t&size);
static void concretize(Expr*e,void*site,bool enumerate=true){
  if(!active||frozen||EB::isC(e))return;
  if(e->w==64&&(uint64_t)e->cv>=0x10000000000ull&&(uint64_t)e->cv<0x800000000000ull){ uint64_t b,z; if(locate2((uint64_t)e->cv,b,z))e=B.sub(e,B.K_(b,64)); if(EB::isC(e))return; } // pointers: enumerate offsets, heap layouts differ between paths
  Expr*t=B.eq(e,B.K_(e->cv,e->w)); if(EB::isC(t)||pcset.count(t))return;
  stepPrefix(); if(frozen)return; st.concr++;
  if(nb>=cur.bound&&enumerate){
    std::vector<uint64_t> ex; if(nb==cur.bound)ex=cur.excl; ex.push_back((uint64_t)e->cv);
    Expr*c=B.T(); for(uint64_t v:ex)c=B.and_(c,B.not_(B.eq(e,B.K_(v,e->w))));
    std::vector<uint8_t> in; int r=query(c,in); if(r==1)sendItem(in,nb,phash,site,ex);
  }
  tr('c',site,t); addPC(t); phash=EB::mix(phash,EB::mix((uint64_t)site,5)); nb++;
}

// ---------------------------------------------------------------- shadow memory
struct Page{Expr*e[4096];};
static std::unordered_map<uint64_t,Page*> pages; static uint64_t lastpg=~0ull;static Page*lastp=0;
static inline Page* page(uint64_t a,bool mk){ uint64_t p=a>>12; if(p==lastpg&&(lastp||!mk))return lastp; auto it=pages.find(p); Page*r=it==pages.end()?0:it->second; if(!r&&mk){r=(Page*)calloc(1,sizeof(Page));pages[p]=r;} lastpg=p;lastp=r;return r;}
static inline Expr* gb(uint64_t a){Page*p=page(a,false);return p?p->e[a&4095]:0;}
static inline void sb(uint64_t a,Expr*e){Page*p=page(a,e!=0);if(p)p->e[a&4095]=e;}
static void clearR(uint64_t a,uint64_t n){ if(pages.empty())return; while(n){uint64_t o=a&4095,k=std::min<uint64_t>(n,4096-o);Page*p=page(a,false);if(p)memset(&p->e[o],0,k*sizeof(Expr*));a+=k;n-=k;} }
static bool anySh(uint64_t a,uint64_t n){ if(pages.empty())return false; while(n){uint64_t o=a&4095,k=std::min<uint64_t>(n,4096-o);Page*p=page(a,false);if(p)for(uint64_t i=0;i<k;i++)if(p->e[o+i])return true;a+=k;n-=k;} return false;}
static void copySh(uint64_t d,uint64_t s,uint64_t n){
  if(pages.empty()||!n||d==s)return; if(!anySh(s,n)){clearR(d,n);return;}
  if(d<s)for(uint64_t i=0;i<n;i++)sb(d+i,gb(s+i)); else for(uint64_t i=n;i-->0;)sb(d+i,gb(s+i)); }
__attribute__((no_sanitize("address"))) static uint8_t rawbyte(uint64_t a){return *(volatile uint8_t*)a;}
static Expr* byteAt(uint64_t a){ Expr*e=gb(a); if(e){ if((uint8_t)e->cv!=rawbyte(a)){sb(a,0);st.shdrop++;e=0; note("NOTE","shadow dropped: memory changed by uninstrumented code");} } return e; }
static Expr* byteOrC(uint64_t a){Expr*e=byteAt(a);return e?e:B.K_(rawbyte(a),8);}
static Expr* loadE(uint64_t a,unsigned n){
  bool any=false; for(unsigned i=0;i<n;i++)if(byteAt(a+i)){any=true;break;} if(!any)return 0;
  Expr*r=byteOrC(a); for(unsigned i=1;i<n;i++)r=B.concat(byteOrC(a+i),r); return EB::isC(r)?0:r; }
static void storeE(uint64_t a,unsigned n,Expr*e){
  if(!e||EB::isC(e)){clearR(a,n);return;} for(unsigned i=0;i<n;i++){Expr*x=B.extract(e,8*i,8);sb(a+i,EB::isC(x)?0:x);} }

static bool locate(uint64_t a,uint64_t&base,uint64_t&size){
  char nm[64];void*ra=0;size_t rs=0; const char*k=__asan_locate_address((void*)a,nm,sizeof nm,&ra,&rs);
  if(!k||!ra||!rs)return false; base=(uint64_t)ra;size=rs;
  if((a<base||a>=base+size)&&!strcmp(k,"global")){ // ASAN names a neighbouring global: find the extent from the shadow
    if(__asan_address_is_poisoned((void*)a))return true;
    uint64_t lo=a,hi=a+1; while(a-lo<65536&&!__asan_address_is_poisoned((void*)(lo-1)))lo--; while(hi-a<65536&&!__asan_address_is_poisoned((void*)hi))hi++;
    if(a-lo>=65536||hi-a>=65536)return false; base=lo;size=hi-lo; }
  return true; }

// object containing a, or ending exactly at a
static bool locate2(uint64_t a,uint64_t&base,uint64_t&size){ if(locate(a,base,size)&&a>=base&&a<base+size)return true; if(locate(a-1,base,size)&&a>base&&a<=base+size)return true; return false; }

// symbolic address: decide in-bounds / out-of-bounds; returns true when address is handled through an ITE (res)
static bool symAddr(uint64_t a,unsigned n,Expr*ea,bool write,Expr**res,void*site){
  if(!active||frozen)return false;
  uint64_t base,size;
  if((uint64_t)ea->cv!=a){incomplete("symbolic address shadow mismatch");return false;}
  if(!locate(a,base,size)){ concretize(ea,site); return false; }
  bool inb=a>=base&&a+n<=base+size;
  if(dbgTrail){char b[200];snprintf(b,200,"L site %lx a %lx base %lx size %ld n %d w %d\n",(long)site,(long)a,(long)base,(long)size,n,write);trail+=b;}
  Expr*off=B.sub(ea,B.K_(base,64)); if(size<n){concretize(off,site);return false;}
  Expr*c=B.ule(off,B.K_(size-n,64));
  branchOn(c,inb,site); if(!inb){concretize(ea,site,false);return false;}
  // single value?
  if(!write&&size<=1024&&(n==1||n==2||n==4||n==8)){
    concretize(B.and_(off,B.K_(n-1,64)),site);
    unsigned st0=(a-base)&(n-1); std::map<Expr*,Expr*> m; std::vector<Expr*> ord;
    for(uint64_t o=st0;o+n<=size;o+=n){ bool pois=false; for(unsigned i=0;i<n;i++)if(__asan_address_is_poisoned((void*)(base+o+i)))pois=true; if(pois)continue;
      Expr*v=loadE(base+o,n); if(!v){u128 x=0;for(unsigned i=n;i-->0;)x=(x<<8)|rawbyte(base+o+i);v=B.K_(x,8*n);} 
      Expr*eqo=B.eq(off,B.K_(o,64)); auto it=m.find(v); if(it==m.end()){m[v]=eqo;ord.push_back(v);}else it->second=B.or_(it->second,eqo); }
    if(ord.empty())return false;
    if(n==8)for(Expr*v:ord)if(EB::isC(v)&&(uint64_t)v->cv>=0x10000000000ull&&(uint64_t)v->cv<0x800000000000ull){ concretize(off,site); return false; } // a table of pointers: enumerate the entries
    Expr*r=ord.back(); for(size_t i=ord.size()-1;i-->0;)r=B.ite(m[ord[i]],ord[i],r);
    *res=EB::isC(r)?0:r; return true;
  }
  concretize(off,site); return false;
}
#define SITE __builtin_return_address(0)
static uint64_t stepc=0; static void step(){ if(++stepc>steplimit&&active){active=false;msg('V',std::string("hang\x01step limit exceeded\x01")+ser(curin));flushStats();_exit(0);} }

extern "C" {
Expr* __sv_bin(uint32_t op,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb);
#define OPND(e,v) (e?e:B.K_(v,w))
static Expr* nn(Expr*e){return e&&!EB::isC(e)?e:0;}
static Expr* binop(uint32_t op,uint32_t w,Expr*a,Expr*b,void*site){
  // LLVM Instruction opcodes (18)
  switch(op){
  case 13:return B.add(a,b); case 15:return B.sub(a,b); case 17:return B.mul(a,b);
  case 19: case 20: case 22: case 23:{ Expr*zc=B.eq(b,B.K_(0,w)); branchOn(zc,b->cv==0,site);
    if(op==20||op==23){Expr*o=B.and_(B.eq(a,B.K_((u128)1<<(w-1),w)),B.eq(b,B.K_(~(u128)0,w)));branchOn(o,o->cv,site);} 
    if(b->cv==0)return 0; return op==19?B.udiv(a,b):op==20?B.sdiv(a,b):op==22?B.urem(a,b):B.srem(a,b);} 
  case 25:return B.shl(a,b); case 26:return B.lshr(a,b); case 27:return B.ashr(a,b);
  case 28:return B.and_(a,b); case 29:return B.or_(a,b); case 30:return B.xor_(a,b);
  } incomplete("unknown binop"); return 0; }
Expr* __sv_bin(uint32_t op,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){ if(!ea&&!eb)return 0; step(); return nn(binop(op,w,OPND(ea,va),OPND(eb,vb),SITE)); }
Expr* __sv_binw(uint32_t op,uint32_t w,Expr*ea,u128 va,Expr*eb,u128 vb){ if(!ea&&!eb)return 0; return nn(binop(op,w,OPND(ea,va),OPND(eb,vb),SITE)); }
static Expr* cmp(uint32_t p,Expr*a,Expr*b){ switch(p){case 32:return B.eq(a,b);case 33:return B.not_(B.eq(a,b));case 34:return B.ult(b,a);case 35:return B.ule(b,a);case 36:return B.ult(a,b);case 37:return B.ule(a,b);
  case 38:return B.slt(b,a);case 39:return B.sle(b,a);case 40:return B.slt(a,b);case 41:return B.sle(a,b);} return 0; }
Expr* __sv_cmp(uint32_t p,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){ if(!ea&&!eb)return 0; step(); return nn(cmp(p,OPND(ea,va),OPND(eb,vb))); }
Expr* __sv_cmpw(uint32_t p,uint32_t w,Expr*ea,u128 va,Expr*eb,u128 vb){ if(!ea&&!eb)return 0; return nn(cmp(p,OPND(ea,va),OPND(eb,vb))); }
Expr* __sv_cast(uint32_t op,uint32_t fw,uint32_t tw,Expr*e){ if(!e)return 0; return nn(op==0?B.extract(e,0,tw):op==1?B.zext(e,tw):B.sext(e,tw)); }
Expr* __sv_fbin(uint32_t op,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){ if(!ea&&!eb)return 0; Expr*a=OPND(ea,va),*b=OPND(eb,vb);
  switch(op){case 14:return nn(B.fop(FADD,w,a,b));case 16:return nn(B.fop(FSUB,w,a,b));case 18:return nn(B.fop(FMUL,w,a,b));case 21:return nn(B.fop(FDIV,w,a,b));}
  concretize(a,SITE);concretize(b,SITE);return 0; }
Expr* __sv_fcmp(uint32_t p,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){ if(!ea&&!eb)return 0; Expr*a=OPND(ea,va),*b=OPND(eb,vb);
  Expr*eq=B.fop(FEQ,1,a,b),*lt=B.fop(FLT,1,a,b),*gt=B.fop(FLT,1,b,a); Expr*un=B.or_(B.fop(FISNAN,1,a,0),B.fop(FISNAN,1,b,0)); Expr*le=B.fop(FLE,1,a,b),*ge=B.fop(FLE,1,b,a);
  Expr*r=0; switch(p){case 0:r=B.F();break;case 1:r=eq;break;case 2:r=gt;break;case 3:r=ge;break;case 4:r=lt;break;case 5:r=le;break;case 6:r=B.or_(lt,gt);break;case 7:r=B.not_(un);break;
   case 8:r=un;break;case 9:r=B.or_(un,eq);break;case 10:r=B.not_(le);break;case 11:r=B.not_(lt);break;case 12:r=B.not_(ge);break;case 13:r=B.not_(gt);break;case 14:r=B.not_(eq);break;case 15:r=B.T();break;} return nn(r); }
Expr* __sv_fcast(uint32_t k,uint32_t fw,uint32_t tw,Expr*e){ if(!e)return 0;
  switch(k){
  case 0:case 1:{ Expr*ok=B.fopx(FF2IOK,1,tw|(k==1?0x100:0),e); branchOn(ok,ok->cv,SITE); if(!ok->cv){ note("NOTE","float->integer conversion out of range (undefined behaviour in C++): result kept concrete on that path"); concretize(e,SITE,false); return 0;} return nn(B.fopx(k?F2S:F2U,tw,0,e)); }
  case 2:return nn(B.fopx(U2F,tw,0,B.zext(e,64)));
  case 3:return nn(B.fopx(S2F,tw,0,B.sext(e,64)));
  case 4:return nn(B.fopx(FCVT,tw,0,e)); } return 0; }
Expr* __sv_select(uint32_t w,Expr*ec,uint32_t c,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){
  if(!ec)return c?ea:eb; if((bool)ec->cv!=(bool)(c&1)){incomplete("shadow/concrete mismatch at select");return c?ea:eb;} return nn(B.ite(ec,OPND(ea,va),OPND(eb,vb))); }
Expr* __sv_selptr(Expr*,uint32_t,Expr*,Expr*){return 0;}
Expr* __sv_gepidx(Expr*eb,uint64_t vb,Expr*ei,uint64_t vi,uint32_t iw,uint64_t sc){ if(!eb&&!ei)return 0; Expr*b=eb?eb:B.K_(vb,64);Expr*i=ei?B.sext(ei,64):B.K_(vi,64); if(ei&&iw>64)i=B.extract(ei,0,64); return nn(B.add(b,B.mul(i,B.K_(sc,64)))); }
Expr* __sv_addk(Expr*e,uint64_t k){ if(!e)return 0; return nn(B.add(e,B.K_(k,64))); }
void __sv_branch(Expr*e,uint32_t c){ if(!e||!active)return; step(); branchOn(e,c&1,SITE); }
void __sv_switch(Expr*e,uint32_t w,uint64_t v,uint32_t n,const uint64_t*vals,const uint32_t*tg){
  if(!e||!active||frozen||EB::isC(e))return; step();
  uint64_t ev=(uint64_t)e->cv; if(ev!=v){incomplete("shadow/concrete mismatch at switch");return;}
  int me=-1; unsigned mx=0; for(unsigned i=0;i<n;i++){if(vals[i]==v)me=tg[i]; if(tg[i]+1>mx)mx=tg[i]+1;}
  std::vector<Expr*> g(mx,B.F()); Expr*def=B.T();
  for(unsigned i=0;i<n;i++){Expr*q=B.eq(e,B.K_(vals[i],w));g[tg[i]]=B.or_(g[tg[i]],q);def=B.and_(def,B.not_(q));}
  Expr*t=me>=0?g[me]:def; if(EB::isC(t)||pcset.count(t))return;
  stepPrefix(); if(frozen)return; st.branches++;
  uint64_t swsite=(uint64_t)SITE; auto tag=[&](int k){return EB::mix(EB::mix(swsite,0x77),(uint64_t)(k+1));};
  if(nb>=cur.bound){
    for(int k=-1;k<(int)mx;k++){ if(k==me)continue; Expr*c=k>=0?g[k]:def; if(EB::isC(c)&&!c->cv)continue; std::vector<uint8_t> in; if(query(c,in)==1)sendItem(in,nb+1,EB::mix(phash,tag(k)),SITE,{}); }
  }
  tr('s',SITE,t); addPC(t);phash=EB::mix(phash,tag(me));nb++;
}
// ---------------------------------------------------------------- data races (happens-before, on the explored interleavings)
extern char __libc_single_threaded;
static int race_on=0,race_off=0; static unsigned rtid=0; struct VC{ uint32_t c[16]; };
struct RAcc{ uint32_t clk; uint8_t tid,mask,wr,used; }; struct RCell{ RAcc r[6]; };
static std::unordered_map<uint64_t,RCell>*rcells; static std::unordered_map<uint64_t,VC>*rsync; static VC rvc[16]; static std::set<void*>*rsites;
static void raceReport(void*site,void*addr);
static void raceAcc(uint64_t a,uint64_t n,bool wr,void*site){
  if(race_off||!active)return;
  for(uint64_t e=a+n;a<e;){ uint64_t g=a>>3; unsigned o=a&7,k=(unsigned)std::min<uint64_t>(8-o,e-a); uint8_t m=(uint8_t)(((1u<<k)-1)<<o); a+=k;
    RCell&c=(*rcells)[g]; int slot=-1,old=-1;
    for(int i=0;i<6;i++){ RAcc&r=c.r[i]; if(!r.used){if(slot<0)slot=i;continue;} if(r.tid==rtid){ if(r.wr==wr&&(r.clk==rvc[rtid].c[rtid]||(r.mask&~m)==0))slot=i; else if(old<0)old=i; continue; }
      if(r.clk<=rvc[rtid].c[r.tid]){ old=i; continue; }
      if((r.mask&m)&&(wr||r.wr)){ raceReport(site,(void*)(g<<3)); return; } }
    if(slot<0)slot=old<0?0:old; RAcc&r=c.r[slot]; bool same=r.used&&r.tid==rtid&&r.wr==wr&&r.clk==rvc[rtid].c[rtid]; r.mask=same?(uint8_t)(r.mask|m):m; r.tid=(uint8_t)rtid;r.wr=wr;r.clk=rvc[rtid].c[rtid];r.used=1; } }
static void raceJoin(VC&a,const VC&b){ for(int i=0;i<16;i++)a.c[i]=std::max(a.c[i],b.c[i]); }
#define RACE(p,n,w) do{ if(__builtin_expect(race_on,0))raceAcc((uint64_t)(p),n,w,SITE); }while(0)
void sv_race(int op,uint64_t x){ if(op==4){race_off++;return;} if(op==5){race_off--;return;} if(op==8){race_off=(int)x;return;} if(!race_on&&op!=0)return;
  switch(op){
  case 0: if(race_on)return; race_on=1; rcells=new std::unordered_map<uint64_t,RCell>; rsync=new std::unordered_map<uint64_t,VC>; rsites=new std::set<void*>; memset(rvc,0,sizeof rvc); for(int i=0;i<16;i++)rvc[i].c[i]=1; break;
  case 1: rtid=(unsigned)x&15; break;
  case 2: { auto i=rsync->find(x); if(i!=rsync->end())raceJoin(rvc[rtid],i->second); break; }
  case 3: { auto i=rsync->emplace(x,VC()); if(i.second)memset(&i.first->second,0,sizeof(VC)); raceJoin(i.first->second,rvc[rtid]); rvc[rtid].c[rtid]++; break; }

  case 6: raceJoin(rvc[x&15],rvc[rtid]); rvc[rtid].c[rtid]++; break;
  case 7: raceJoin(rvc[rtid],rvc[x&15]); break;
  } }
int sv_race_off(void){ __sv_retfn=0; return race_off; }
Expr* __sv_load(void*p,uint32_t n,Expr*ea){
  RACE(p,n,false);
  if(ea&&!EB::isC(ea)){Expr*r=0; if(symAddr((uint64_t)p,n,ea,false,&r,SITE))return r;}
  if(pages.empty())return 0; st.loads++; step();
  uint64_t a=(uint64_t)p; Page*pg=page(a,false); if(!pg&&(a>>12)==((a+n-1)>>12))return 0;
  return loadE(a,n); }
static bool vptrsame=false; // a destructor storing the table pointer that is there already changes nothing (as in ThreadSanitizer)
void __sv_vptr(void**p,void*v){ if(__builtin_expect(race_on,0))vptrsame=*p==v; }
void __sv_store(void*p,uint32_t n,Expr*e,Expr*ea){
  if(__builtin_expect(vptrsame,0))vptrsame=false; else RACE(p,n,true);
  if(ea&&!EB::isC(ea)){Expr*r;symAddr((uint64_t)p,n,ea,true,&r,SITE);}
  if(!e&&pages.empty())return; storeE((uint64_t)p,n,e); }
void __sv_clear(void*p,uint64_t n){clearR((uint64_t)p,n);}
void __sv_byval(void*d,void*s,uint64_t n){ if(s)copySh((uint64_t)d,(uint64_t)s,n); else clearR((uint64_t)d,n); }
static void symPtr(uint64_t p,Expr*ep,void*site){ // pointer operand of a block operation: leave the object at most by one past its end
  if(!ep||EB::isC(ep)||!active)return; uint64_t b,sz; if(locate2(p,b,sz)){ branchOn(B.ule(B.sub(ep,B.K_(b,64)),B.K_(sz,64)),true,site); concretize(ep,site); } else concretize(ep,site,false); }
void __sv_memcpy(void*d,void*s,uint64_t n,Expr*ed,Expr*es,Expr*en){ 
  symPtr((uint64_t)d,ed,SITE); symPtr((uint64_t)s,es,(char*)SITE+1);
  if(en&&!EB::isC(en)){ // out-of-bounds feasibility of the symbolic length, then enumerate
    uint64_t b,sz; for(void*q:{d,s}) if(active&&locate2((uint64_t)q,b,sz)){ uint64_t room=b+sz-(uint64_t)q; Expr*c=B.ule(en,B.K_(room,64)); branchOn(c,n<=room,SITE);} 
    concretize(en,SITE);} 
  RACE(s,n,false); RACE(d,n,true);
  step(); copySh((uint64_t)d,(uint64_t)s,n); }
void __sv_memset(void*d,uint32_t v,uint64_t n,Expr*ed,Expr*ev,Expr*en){ RACE(d,n,true); if(en)concretize(en,SITE); if(ed)concretize(ed,SITE);
  if(ev){Expr*b=B.extract(ev,0,8);for(uint64_t i=0;i<n;i++)sb((uint64_t)d+i,b);} else clearR((uint64_t)d,n); }
void __sv_conc(Expr*e,uint32_t w,uint64_t v){ if(!e||EB::isC(e))return; if((uint64_t)(e->cv)!=v&&w<=64){incomplete("shadow mismatch at concretisation");return;} concretize(e,SITE); }
void __sv_atomic(void*p,uint32_t n,Expr*ep,Expr*ev){ if(race_on){sv_race(2,(uint64_t)p);sv_race(3,(uint64_t)p);} if(ep)concretize(ep,SITE); Expr*e=loadE((uint64_t)p,n); if(e)concretize(e,SITE); if(ev)concretize(ev,SITE); clearR((uint64_t)p,n); }
static void* fnseen[8192]; static std::vector<void*> fnlist; 
Expr** __sv_enter(void*f){ if(active){ size_t h=((uint64_t)f>>4)*0x9E3779B97F4A7C15ull>>51; for(unsigned k=0;k<8;k++){ void*&x=fnseen[(h+k)&8191]; if(x==f)break; if(!x){x=f;fnlist.push_back(f);break;} } }
  if(__sv_callee==f){__sv_callee=0;return __sv_args;} return zeros; }
Expr** __sv_retval(void*f){ if(__sv_retfn==f){__sv_retfn=0;return __sv_rets;} return zeros; }

static uint64_t txtlo=~0ull,txthi=0; static std::unordered_map<void*,int> policy; static std::unordered_map<void*,std::string> pname;
static const char*Harmless[]={"_ZSt18_Rb_tree","_ZNSt8__detail15_List_node_base","_ZSt","__cxa","_Unwind","_ZNSt6locale","_ZNSt8ios_base","_ZNSt9exception","_ZNSt13runtime_error","_ZNSt11logic_error","_ZNSt12length_error","_ZNSt12out_of_range","_ZNSt16invalid_argument","_ZNSt11range_error","_ZNSt15underflow","_ZNSt14overflow","_ZNSt12domain_error","_ZNSt9bad_alloc","_ZNSt8bad_cast","_ZNSt10bad_typeid","_ZNSt9type_info","_ZNSt13bad_exception","_ZNKSt","_ZNSt7__cxx1118basic_stringstream","_ZNSt7__cxx1119basic_ostringstream","_ZNSt7__cxx1119basic_istringstream","_ZNSt7__cxx1115basic_stringbuf","_ZNSo","_ZNSi","_ZNSt15basic_streambuf","_ZNSt9basic_ios","_ZN9__gnu_cxx","_ZTv","_ZThn","__dynamic_cast","backtrace","abort","exit","snprintf","printf","fprintf","vsnprintf","puts","fputs","fflush","pthread_","epics","errlog","_ZN9epicsTime","_ZN10epicsMutex","_ZN10epicsEvent","sv_","__asan_","__sanitizer_","swapcontext","makecontext","getcontext",0};
static int classify(void*f){ auto it=policy.find(f); if(it!=policy.end())return it->second; Dl_info di; int r=2; std::string n="?"; if(dladdr(f,&di)&&di.dli_sname){n=di.dli_sname; for(const char**h=Harmless;*h;h++)if(n.compare(0,strlen(*h),*h)==0)r=1;} 
  policy[f]=r;pname[f]=n;return r; }
static int streamsym=0; // keep symbolic characters in text streams (else they end there: SINK)
void __sv_precall(void*f,uint32_t n){
  __sv_callee=f;__sv_retfn=0;
  if(!active)return; if((uint64_t)f>=txtlo&&(uint64_t)f<txthi)return;
  bool any=false; for(uint32_t i=0;i<n;i++)if(__sv_args[i]&&!EB::isC(__sv_args[i]))any=true;
  int c=classify(f);
  if(c==1){ if(any){st.leaks++;note("SINK",pname[f]);} return; }
  for(uint32_t i=0;i<n;i++){ if(__sv_args[i]&&!EB::isC(__sv_args[i])){ note("EXTERN-CONCRETISED",pname[f]); concretize(__sv_args[i],SITE);} 
    uint64_t v=__sv_argv[i],b,s; if(v>4096&&!pages.empty()){ if(page(v,false)){ uint64_t len=64; if(locate(v,b,s)&&v>=b&&v<=b+s)len=std::min<uint64_t>(256,b+s-v); if(anySh(v,len))incomplete("symbolic memory passed to unmodelled external function "+pname[f]); } } }
}
// intrinsics
Expr* __sv_intr1(uint32_t k,uint32_t w,Expr*e,uint64_t v){ if(!e)return 0; Expr*r=0;
  switch(k){
  case 0:{r=B.K_(0,w);for(unsigned i=0;i<w;i++)r=B.add(r,B.zext(B.extract(e,i,1),w));break;}
  case 1:{r=B.K_(w,w);for(unsigned i=0;i<w;i++)r=B.ite(B.extract(e,i,1),B.K_(w-1-i,w),r);break;}
  case 2:{r=B.K_(w,w);for(unsigned i=w;i-->0;)r=B.ite(B.extract(e,i,1),B.K_(i,w),r);break;}
  case 3:{r=B.extract(e,0,8);for(unsigned i=8;i<w;i+=8)r=B.concat(r,B.extract(e,i,8));break;}
  case 4:{r=B.ite(B.slt(e,B.K_(0,w)),B.neg(e),e);break;}
  case 5:{r=B.and_(e,B.K_(maskw(w)>>1,w));break;}
  case 6:{r=B.extract(e,0,1);for(unsigned i=1;i<w;i++)r=B.concat(r,B.extract(e,i,1));break;}
  case 7:case 8:case 9:case 10:r=B.fopx(FRND,w,k,e);break;
  case 11:r=B.fopx(FSQRT,w,0,e);break;
  } return nn(r); }
Expr* __sv_intr2(uint32_t k,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){ if(!ea&&!eb)return 0; Expr*a=OPND(ea,va),*b=OPND(eb,vb),*r=0;
  switch(k){case 0:r=B.ite(B.ult(a,b),a,b);break;case 1:r=B.ite(B.ult(a,b),b,a);break;case 2:r=B.ite(B.slt(a,b),a,b);break;case 3:r=B.ite(B.slt(a,b),b,a);break;
   case 4:{Expr*s=B.add(a,b);r=B.ite(B.ult(s,a),B.K_(maskw(w),w),s);break;} case 5:r=B.ite(B.ult(a,b),B.K_(0,w),B.sub(a,b));break;
   case 6:r=B.or_(B.and_(a,B.K_(maskw(w)>>1,w)),B.and_(b,B.K_((u128)1<<(w-1),w)));break;} return nn(r); }
Expr* __sv_fsh(uint32_t k,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb,Expr*ec,uint64_t vc){ if(!ea&&!eb&&!ec)return 0; Expr*a=OPND(ea,va),*b=OPND(eb,vb),*c=OPND(ec,vc);
  Expr*s=(w&(w-1))?B.urem(c,B.K_(w,w)):B.and_(c,B.K_(w-1,w)); Expr*inv=B.sub(B.K_(w,w),s); Expr*z0=B.eq(s,B.K_(0,w)); 
  if(k==0)return nn(B.ite(z0,a,B.or_(B.shl(a,s),B.lshr(b,inv)))); return nn(B.ite(z0,b,B.or_(B.shl(a,inv),B.lshr(b,s)))); }
Expr* __sv_ovf(uint32_t k,uint32_t w,Expr*ea,uint64_t va,Expr*eb,uint64_t vb){ if(!ea&&!eb)return 0; Expr*a=OPND(ea,va),*b=OPND(eb,vb),*r=0; unsigned W2=w*2>128?128:w*2;
  switch(k){case 0:r=B.ult(B.add(a,b),a);break; case 2:r=B.ult(a,b);break;
   case 1:r=B.not_(B.eq(B.add(B.sext(a,w+1),B.sext(b,w+1)),B.sext(B.add(a,b),w+1)));break; case 3:r=B.not_(B.eq(B.sub(B.sext(a,w+1),B.sext(b,w+1)),B.sext(B.sub(a,b),w+1)));break;
   case 4:{ if(EB::isC(b)&&b->cv){r=B.ult(B.K_(maskw(w)/b->cv,w),a);break;} if(EB::isC(a)&&a->cv){r=B.ult(B.K_(maskw(w)/a->cv,w),b);break;} r=B.not_(B.eq(B.extract(B.mul(B.zext(a,W2),B.zext(b,W2)),w,W2-w),B.K_(0,W2-w)));break;}
   case 5:r=B.not_(B.eq(B.mul(B.sext(a,W2),B.sext(b,W2)),B.sext(B.mul(a,b),W2)));break;} return nn(r); }

// ------------------------------------------------------------ models of libc functions (called instead of the real ones)
#define ENTER(f) Expr**A=__sv_enter((void*)f); Expr*a0=A[0],*a1=A[1],*a2=A[2];(void)a0;(void)a1;(void)a2
static void retE(void*f,Expr*e){ if(e&&!EB::isC(e)){__sv_rets[0]=e;__sv_retfn=f;} else __sv_retfn=0; }
static void cz(Expr*e,void*s){if(e)concretize(e,s);}
void* __svm_memcpy(void*d,const void*s,size_t n){ENTER(__svm_memcpy);__sv_memcpy(d,(void*)s,n,a0,a1,a2);void*r=memcpy(d,s,n);__sv_retfn=0;return r;}
void* __svm_memmove(void*d,const void*s,size_t n){ENTER(__svm_memmove);__sv_memcpy(d,(void*)s,n,a0,a1,a2);void*r=memmove(d,s,n);__sv_retfn=0;return r;}
void* __svm_memset(void*d,int v,size_t n){ENTER(__svm_memset);__sv_memset(d,v,n,a0,a1,a2);void*r=memset(d,v,n);__sv_retfn=0;return r;}
static Expr* memcmpE(const void*a,const void*b,size_t n){ if(!active||(!anySh((uint64_t)a,n)&&!anySh((uint64_t)b,n)))return 0;
  Expr*r=B.K_(0,32); for(size_t i=n;i-->0;){Expr*x=byteOrC((uint64_t)a+i),*y=byteOrC((uint64_t)b+i); r=B.ite(B.eq(x,y),r,B.sub(B.zext(x,32),B.zext(y,32)));} return r;}
int __svm_memcmp(const void*a,const void*b,size_t n){ENTER(__svm_memcmp);cz(a0,SITE);cz(a1,SITE);cz(a2,SITE);
  volatile int chk=memcmp(a,b,n);(void)chk; int r=0;const uint8_t*x=(const uint8_t*)a,*y=(const uint8_t*)b;for(size_t i=0;i<n;i++)if(x[i]!=y[i]){r=(int)x[i]-(int)y[i];break;}
  retE((void*)__svm_memcmp,memcmpE(a,b,n));return r;}
int __svm_bcmp(const void*a,const void*b,size_t n){ENTER(__svm_bcmp);cz(a0,SITE);cz(a1,SITE);cz(a2,SITE);
  volatile int chk=memcmp(a,b,n);int r=chk!=0; Expr*e=0; if(active&&(anySh((uint64_t)a,n)||anySh((uint64_t)b,n))){Expr*q=B.T();for(size_t i=0;i<n;i++)q=B.and_(q,B.eq(byteOrC((uint64_t)a+i),byteOrC((uint64_t)b+i)));e=B.zext(B.not_(q),32);} retE((void*)__svm_bcmp,e);return r;}
size_t __svm_strlen(const char*s){ENTER(__svm_strlen);cz(a0,SITE);size_t n=strlen(s); if(active&&!pages.empty())for(size_t i=0;i<=n;i++){Expr*e=byteAt((uint64_t)s+i);if(e)branchOn(B.eq(e,B.K_(0,8)),i==n,SITE);} __sv_retfn=0;return n;}
static int strcmpE(const char*a,const char*b,size_t lim,bool ci,void*site){ for(size_t i=0;i<lim;i++){ Expr*x=active?byteAt((uint64_t)a+i):0,*y=active?byteAt((uint64_t)b+i):0; uint8_t ca=a[i],cb=b[i]; 
   if(x||y){ Expr*X=x?x:B.K_(ca,8),*Y=y?y:B.K_(cb,8); if(ci){ auto low=[&](Expr*e){return B.ite(B.and_(B.ule(B.K_('A',8),e),B.ule(e,B.K_('Z',8))),B.add(e,B.K_(32,8)),e);}; X=low(X);Y=low(Y); ca=(uint8_t)X->cv;cb=(uint8_t)Y->cv; }
      branchOn(B.eq(X,Y),ca==cb,site); if(ca!=cb){branchOn(B.ult(X,Y),ca<cb,site);return ca<cb?-1:1;} branchOn(B.eq(X,B.K_(0,8)),ca==0,site); }
   else if(ci){ca=tolower(ca);cb=tolower(cb);}
   if(ca!=cb)return ca<cb?-1:1; if(!ca)return 0; } return 0;}
int __svm_strcmp(const char*a,const char*b){ENTER(__svm_strcmp);cz(a0,SITE);cz(a1,SITE);int r=strcmpE(a,b,~0ull,false,SITE);__sv_retfn=0;return r;}
int __svm_strncmp(const char*a,const char*b,size_t n){ENTER(__svm_strncmp);cz(a0,SITE);cz(a1,SITE);cz(a2,SITE);int r=strcmpE(a,b,n,false,SITE);__sv_retfn=0;return r;}
int __svm_strcasecmp(const char*a,const char*b){ENTER(__svm_strcasecmp);cz(a0,SITE);cz(a1,SITE);int r=strcmpE(a,b,~0ull,true,SITE);__sv_retfn=0;return r;}
int __svm_strncasecmp(const char*a,const char*b,size_t n){ENTER(__svm_strncasecmp);cz(a0,SITE);cz(a1,SITE);cz(a2,SITE);int r=strcmpE(a,b,n,true,SITE);__sv_retfn=0;return r;}
void* __svm_memchr(const void*s,int c,size_t n){ENTER(__svm_memchr);cz(a0,SITE);cz(a1,SITE);cz(a2,SITE);const char*p=(const char*)s;void*r=0;
  for(size_t i=0;i<n;i++){Expr*e=active?byteAt((uint64_t)p+i):0;bool m=(uint8_t)p[i]==(uint8_t)c;if(e)branchOn(B.eq(e,B.K_((uint8_t)c,8)),m,SITE);if(m){r=(void*)(p+i);break;}} __sv_retfn=0;return r;}
char* __svm_strchr(const char*s,int c){ENTER(__svm_strchr);cz(a0,SITE);cz(a1,SITE);char*r=0;
  for(size_t i=0;;i++){Expr*e=active?byteAt((uint64_t)s+i):0;bool m=s[i]==(char)c;if(e)branchOn(B.eq(e,B.K_((uint8_t)c,8)),m,SITE);if(m){r=(char*)s+i;break;} if(e)branchOn(B.eq(e,B.K_(0,8)),s[i]==0,SITE); if(!s[i])break;} __sv_retfn=0;return r;}
char* __svm_strrchr(const char*s,int c){ENTER(__svm_strrchr);cz(a0,SITE);cz(a1,SITE);char*r=0;
  for(size_t i=0;;i++){Expr*e=active?byteAt((uint64_t)s+i):0;bool m=s[i]==(char)c;if(e)branchOn(B.eq(e,B.K_((uint8_t)c,8)),m,SITE);if(m)r=(char*)s+i; if(e)branchOn(B.eq(e,B.K_(0,8)),s[i]==0,SITE); if(!s[i])break;} __sv_retfn=0;return r;}
static size_t slen(const char*s,size_t lim,void*site){size_t i=0;for(;i<lim;i++){Expr*e=active?byteAt((uint64_t)s+i):0;if(e)branchOn(B.eq(e,B.K_(0,8)),s[i]==0,site);if(!s[i])break;}return i;}
char* __svm_strcpy(char*d,const char*s){ENTER(__svm_strcpy);cz(a0,SITE);cz(a1,SITE);size_t n=slen(s,~0ull,SITE);memmove(d,s,n+1);copySh((uint64_t)d,(uint64_t)s,n+1);__sv_retfn=0;return d;}
char* __svm_strncpy(char*d,const char*s,size_t n){ENTER(__svm_strncpy);cz(a0,SITE);cz(a1,SITE);cz(a2,SITE);size_t k=slen(s,n,SITE);memmove(d,s,k);memset(d+k,0,n-k);copySh((uint64_t)d,(uint64_t)s,k);clearR((uint64_t)d+k,n-k);__sv_retfn=0;return d;}
char* __svm_strcat(char*d,const char*s){ENTER(__svm_strcat);cz(a0,SITE);cz(a1,SITE);size_t o=slen(d,~0ull,SITE),n=slen(s,~0ull,SITE);memmove(d+o,s,n+1);copySh((uint64_t)d+o,(uint64_t)s,n+1);__sv_retfn=0;return d;}
// allocation: sizes above the cap fail with std::bad_alloc (NULL for malloc); symbolic sizes are enumerated up to the cap
static uint64_t symcap=4096; static const uint64_t hardcap=64ull<<20;
static bool allocOK(size_t n,Expr*e,void*site){ if(!active)return true; if(e&&!EB::isC(e)){ Expr*c=B.ule(e,B.K_(symcap,64)); branchOn(c,n<=symcap,site); if(n>symcap){note("NOTE","symbolic allocation above cap fails with bad_alloc");return false;} concretize(e,site);} return n<=hardcap; }
static void* alloc1(size_t n){void*p=::malloc(n?n:1);if(p)clearR((uint64_t)p,n);return p;}
void* __svm_malloc(size_t n){ENTER(__svm_malloc);if(!allocOK(n,a0,SITE)){__sv_retfn=0;return 0;}void*p=alloc1(n);__sv_retfn=0;return p;}
void* __svm_calloc(size_t n,size_t m){ENTER(__svm_calloc);cz(a0,SITE);cz(a1,SITE);void*p=::calloc(n,m);if(p)clearR((uint64_t)p,n*m);__sv_retfn=0;return p;}
void* __svm_realloc(void*q,size_t n){ENTER(__svm_realloc);cz(a0,SITE);if(!allocOK(n,a1,SITE)){__sv_retfn=0;return 0;}void*p=::malloc(n?n:1);if(p){clearR((uint64_t)p,n); if(q){size_t o=malloc_usable_size(q);size_t k=std::min(o,n);memcpy(p,q,k);copySh((uint64_t)p,(uint64_t)q,k);::free(q);}}__sv_retfn=0;return p;}
void __svm_free(void*p){ENTER(__svm_free);cz(a0,SITE);::free(p);}
char* __svm_strdup(const char*s){ENTER(__svm_strdup);cz(a0,SITE);size_t n=slen(s,~0ull,SITE);char*p=(char*)::malloc(n+1);memcpy(p,s,n+1);copySh((uint64_t)p,(uint64_t)s,n+1);__sv_retfn=0;return p;}
}
static void* newX(size_t n,Expr*a0,void*site){ if(!allocOK(n,a0,site)){__sv_retfn=0;throw std::bad_alloc();} void*p=::operator new(n);clearR((uint64_t)p,n);__sv_retfn=0;return p;}
static void* newA(size_t n,Expr*a0,void*site){ if(!allocOK(n,a0,site)){__sv_retfn=0;throw std::bad_alloc();} void*p=::operator new[](n);clearR((uint64_t)p,n);__sv_retfn=0;return p;}
extern "C" {
void* __svm__Znwm(size_t n){ENTER(__svm__Znwm);return newX(n,a0,SITE);}
void* __svm__Znam(size_t n){ENTER(__svm__Znam);return newA(n,a0,SITE);}
void* __svm__ZnwmRKSt9nothrow_t(size_t n,const std::nothrow_t&){ENTER(__svm__ZnwmRKSt9nothrow_t);if(!allocOK(n,a0,SITE))return 0;void*p=::operator new(n,std::nothrow);if(p)clearR((uint64_t)p,n);__sv_retfn=0;return p;}
void* __svm__ZnamRKSt9nothrow_t(size_t n,const std::nothrow_t&){ENTER(__svm__ZnamRKSt9nothrow_t);if(!allocOK(n,a0,SITE))return 0;void*p=::operator new[](n,std::nothrow);if(p)clearR((uint64_t)p,n);__sv_retfn=0;return p;}
void __svm__ZdlPv(void*p){ENTER(__svm__ZdlPv);cz(a0,SITE);::operator delete(p);}
void __svm__ZdaPv(void*p){ENTER(__svm__ZdaPv);cz(a0,SITE);::operator delete[](p);}
void __svm__ZdlPvm(void*p,size_t){ENTER(__svm__ZdlPvm);cz(a0,SITE);::operator delete(p);}
void __svm__ZdaPvm(void*p,size_t){ENTER(__svm__ZdaPvm);cz(a0,SITE);::operator delete[](p);}
// character classification ("C" locale) as expressions
static Expr* rng(Expr*e,int lo,int hi){return B.and_(B.sle(B.K_(lo,32),e),B.sle(e,B.K_(hi,32)));}
static Expr* is1(Expr*e,int c){return B.eq(e,B.K_(c,32));}
#define CT(name,expr) int __svm_##name(int c){ENTER(__svm_##name); int r=name(c)!=0; Expr*e=a0; Expr*q=0; if(e&&!EB::isC(e)){q=B.zext(expr,32); if((int)q->cv!=r){incomplete("ctype model mismatch " #name);q=0;}} retE((void*)__svm_##name,q);return r;}
CT(isdigit,rng(e,'0','9')) CT(isspace,B.or_(is1(e,' '),rng(e,9,13))) CT(isalpha,B.or_(rng(e,'a','z'),rng(e,'A','Z'))) CT(isalnum,B.or_(rng(e,'0','9'),B.or_(rng(e,'a','z'),rng(e,'A','Z'))))
CT(isprint,rng(e,32,126)) CT(isxdigit,B.or_(rng(e,'0','9'),B.or_(rng(e,'a','f'),rng(e,'A','F')))) CT(isupper,rng(e,'A','Z')) CT(islower,rng(e,'a','z'))
int __svm_tolower(int c){ENTER(__svm_tolower);int r=tolower(c);Expr*e=a0;retE((void*)__svm_tolower,e?B.ite(rng(e,'A','Z'),B.add(e,B.K_(32,32)),e):0);return r;}
int __svm_toupper(int c){ENTER(__svm_toupper);int r=toupper(c);Expr*e=a0;retE((void*)__svm_toupper,e?B.ite(rng(e,'a','z'),B.sub(e,B.K_(32,32)),e):0);return r;}
int __svm_abs(int c){ENTER(__svm_abs);Expr*e=a0;retE((void*)__svm_abs,e?B.ite(B.slt(e,B.K_(0,32)),B.neg(e),e):0);return abs(c);}
long __svm_labs(long c){ENTER(__svm_labs);Expr*e=a0;retE((void*)__svm_labs,e?B.ite(B.slt(e,B.K_(0,64)),B.neg(e),e):0);return labs(c);}

static long live; extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*)); extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static void livehook(const volatile void*p,size_t n){ if(n>3000&&n<3100)live++; }
static void freehook(const volatile void*p){ if(!p)return; size_t n=__sanitizer_get_allocated_size(p); if(n>3000&&n<3100)live--; }
// ------------------------------------------------------------ harness API (called from instrumented harness code)
static std::string bt(){ void*b[40];int n=backtrace(b,40);std::string s;char t[32];for(int i=0;i<n;i++){snprintf(t,32,"%lx ",(long)b[i]);s+=t;}return s;}
void sv_make(void*p,size_t n,const char*name){ ENTER(sv_make); if(!active){memset(p,0,n);return;}
  for(size_t i=0;i<n;i++){ uint32_t k=inpos++; if(k>=curin.size())curin.resize(k+1); while(invars.size()<=k){invars.push_back(B.raw(VAR,8,invars.size(),0,0,0,invars.size()<curin.size()?curin[invars.size()]:0)); uf.push_back(uf.size());grp.emplace_back();}
    ((uint8_t*)p)[i]=curin[k]; sb((uint64_t)p+i,invars[k]); } }
void sv_assume_(int c){ ENTER(sv_assume_); if(!active)return; 
  if(frozen||!a0||EB::isC(a0)){ if(!(c&1))endRun("assume"); return; }
  Expr*b=B.extract(a0,0,1); if((b->cv!=0)!=(c!=0)){incomplete("assume shadow mismatch");} 
  if(c){ if(pcset.count(b))return; stepPrefix(); if(frozen)return; tr('a',SITE,b); addPC(b);phash=EB::mix(phash,EB::mix((uint64_t)SITE,3));nb++; return; }
  stepPrefix(); if(frozen)endRun("assume");
  if(nb>=cur.bound){ std::vector<uint8_t> in; if(query(b,in)==1)sendItem(in,nb,phash,SITE,{}); }
  else incomplete("assume violated inside replayed prefix");
  endRun("assume"); }
void sv_check_(int c,const char*label){ ENTER(sv_check_); if(!active)return; st.checks++; note("REACH",label);
  if(frozen||!a0||EB::isC(a0)){ if(!c){ msg('V',std::string("check\x01")+label+"\x01"+ser(curin)); endRun("violated"); } return; }
  st.symchecks++; Expr*b=B.extract(a0,0,1); if(a0->w>1)b=B.not_(B.eq(a0,B.K_(0,a0->w)));
  if((b->cv!=0)!=(c!=0))incomplete("check shadow mismatch");
  if(!c){ msg('V',std::string("check\x01")+label+"\x01"+ser(curin)); endRun("violated"); }
  if(nb<cur.bound){addPC(b);return;} // already decided on the parent path
  std::vector<uint8_t> in; int r=query(B.not_(b),in); if(r==1){ msg('V',std::string("check\x01")+label+"\x01"+ser(in)); } else if(r==0){ st.checkunsat++; } 
  addPC(b); // continue under the assumption that it holds
}
static void raceReport(void*site,void*addr){ if(!rsites->insert(site).second)return; Dl_info di; uint64_t o=(uint64_t)site; if(dladdr(site,&di))o-=(uint64_t)di.dli_fbase; char b[80]; snprintf(b,80,"data race at %llx",(unsigned long long)o); msg('V',std::string("race\x01")+b+"\x01"+ser(curin)); }
void sv_fail(const char*label){ if(!active)return; msg('V',std::string("check\x01")+label+"\x01"+ser(curin)); endRun("violated"); }
void sv_stop(void){ if(active)endRun("stop"); }
uint64_t sv_concrete(uint64_t v){ ENTER(sv_concrete); if(a0)concretize(a0,SITE); __sv_retfn=0; return v; }
int sv_is_symbolic(uint64_t v){ ENTER(sv_is_symbolic); __sv_retfn=0; return a0&&!EB::isC(a0); }
void sv_note(const char*s){ note("NOTE",s); }
size_t sv_live(void){ static bool on=false; if(!on){ on=true; live=0; __sanitizer_install_malloc_and_free_hooks(livehook,freehook); } __sv_retfn=0; return live; }
void sv_cover(const char*s){ if(active)note("COVER",s); }
void sv_symcap(size_t n){symcap=n;}
void sv_streams(int c){streamsym=c;}
int sv_stream_sink(void*p,size_t n){ __sv_retfn=0; if(streamsym||!active)return 0; if(anySh((uint64_t)p,n)){ st.leaks++; note("SINK","text stream"); } return 1; }
void sv_stream_clear(void*p,size_t n){ __sv_retfn=0; clearR((uint64_t)p,n); }
void sv_abort_ok(int c){abortok=c;}
void sv_known(const char*id){ if(!active)return; note("KNOWN",id); endRun("known"); }
}
static void flushStats(){ if(!fnlist.empty())msg('F',std::string((char*)fnlist.data(),8*fnlist.size())); st.exprs=B.nid; st.steps=stepc; std::string s((char*)&st,sizeof st);msg('S',s); }
static void endRun(const char*why){ active=false; if(frozen)why="diverged"; else if(nb<cur.bound)note("INCOMPLETE","run ended inside replayed prefix"); flushStats(); msg('E',why); _exit(0); }

static void onsig(int);
static const char*asanopts="detect_leaks=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_segv=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:handle_sigbus=0:detect_container_overflow=0";
extern "C" void __asan_on_error(){ if(active){active=false; msg('V',std::string("memory\x01")+"AddressSanitizer error\x01"+ser(curin)); flushStats(); } }
static void onsig(int s){ signal(s,SIG_DFL); if(active&&s==SIGABRT&&abortok)endRun("abort-allowed"); if(active){active=false; const char*k=s==SIGALRM?"hang":"crash"; msg('V',std::string(k)+"\x01signal "+std::to_string(s)+"\x01"+ser(curin)); flushStats(); } _exit(96); }

// ------------------------------------------------------------ driver
SvHarness*sv_harnesses=0; int sv_tier=0;
#define main_ main
static int phdr(struct dl_phdr_info*i,size_t,void*){ static bool first=true; if(!first)return 0; first=false; for(int k=0;k<i->dlpi_phnum;k++){auto&p=i->dlpi_phdr[k]; if(p.p_type==PT_LOAD&&(p.p_flags&PF_X)){uint64_t a=i->dlpi_addr+p.p_vaddr;txtlo=std::min<uint64_t>(txtlo,a);txthi=std::max<uint64_t>(txthi,a+p.p_memsz);}} return 0; }
struct Child{pid_t pid;int fd;std::string buf;Item it;double t0;bool done;};
static std::string jesc(const std::string&s){std::string r;for(unsigned char c:s){if(c=='"'||c=='\\'){r+='\\';r+=c;}else if(c<32||c>126){char t[8];snprintf(t,8,"\\u%04x",c);r+=t;}else r+=c;}return r;}
static void runChild(const SvHarness*h,const Item&it,int fd){
  outfd=fd; cur=it; curin=it.in; 
  for(int s:{SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM})signal(s,onsig);
  int dn=open("/dev/null",O_WRONLY); if(!getenv("SV_VERBOSE"))dup2(dn,2); dup2(dn,1);
  alarm(h->alarm_s?h->alarm_s:60);
  active=true; 
  __libc_single_threaded=0; // reference counts use atomic operations, as in a program with threads
  try{ h->fn(); }
  catch(std::exception&e){ if(active){ active=false; std::string t=typeid(e).name(); msg('V',"exception\x01uncaught "+t+": "+e.what()+"\x01"+ser(curin)); } flushStats(); _exit(0); }
  catch(...){ if(active){active=false; msg('V',"exception\x01uncaught non-std exception\x01"+ser(curin));} flushStats(); _exit(0); }
  endRun("ok");
}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*));
static void onAlloc(const volatile void*p,size_t n){ if(active&&!pages.empty())clearR((uint64_t)p,n); } // memory handed out by binary code carries no old symbolic values
static void onFree(const volatile void*){}
int main_(int argc,char**argv){
  std::string hn; double budget=1e9; int jobs=8; std::string out; unsigned long maxpaths=0; bool list=false; unsigned seed=1;
  for(int i=1;i<argc;i++){std::string a=argv[i]; if(a=="-h")hn=argv[++i]; else if(a=="-t")budget=atof(argv[++i]); else if(a=="-j")jobs=atoi(argv[++i]); else if(a=="-o")out=argv[++i]; else if(a=="-n")maxpaths=atol(argv[++i]); else if(a=="-l")list=true; else if(a=="-s")seed=atoi(argv[++i]); else if(a=="-T")sv_tier=atoi(argv[++i]); else if(a=="-q")qtimeout_ms=atof(argv[++i]);}
  if(!list){ const char*o=getenv("ASAN_OPTIONS"); if(!o||strcmp(o,asanopts)){ setenv("ASAN_OPTIONS",asanopts,1); execv("/proc/self/exe",argv); } }
  if(list){for(SvHarness*h=sv_harnesses;h;h=h->next)printf("%s %d\n",h->name,h->tier);return 0;}
  SvHarness*h=sv_harnesses;while(h&&hn!=h->name)h=h->next; if(!h){fprintf(stderr,"no harness %s\n",hn.c_str());return 2;}
  dl_iterate_phdr(phdr,0); __sanitizer_install_malloc_and_free_hooks(onAlloc,onFree);
  cache=(Cache*)mmap(0,NC*sizeof(Cache),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  Z3_config cfg=Z3_mk_config(); z=Z3_mk_context(cfg); Z3_set_error_handler(z,zerr);
  auto params=[&](Z3_solver s){Z3_params p=Z3_mk_params(z);Z3_params_inc_ref(z,p);Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"timeout"),(unsigned)qtimeout_ms);Z3_params_set_uint(z,p,Z3_mk_string_symbol(z,"random_seed"),seed);Z3_solver_set_params(z,s,p);};
  zs_bv=Z3_mk_solver_for_logic(z,Z3_mk_string_symbol(z,"QF_BV"));Z3_solver_inc_ref(z,zs_bv);params(zs_bv);
  zs_fp=Z3_mk_solver_for_logic(z,Z3_mk_string_symbol(z,"QF_BVFP"));Z3_solver_inc_ref(z,zs_fp);params(zs_fp);
  signal(SIGPIPE,SIG_IGN);
  std::deque<Item> q; q.push_back(Item{{},0,0,{},0});
  std::vector<Child*> run; Stats tot{}; unsigned long paths=0,okp=0,assumed=0,maxq=0; std::map<std::string,unsigned long> notes,viol; std::map<std::string,std::vector<uint8_t>> vin; std::map<uint64_t,unsigned long> sites; std::set<uint64_t> fns; std::map<std::string,unsigned long> ends; std::vector<std::vector<uint8_t>> samples;
  double t0=now(); bool trunc=false; 
  while(!q.empty()||!run.empty()){
    while(!q.empty()&&(int)run.size()<jobs){
      if((maxpaths&&paths>=maxpaths)||now()-t0>budget){trunc=true;q.clear();break;}
      Item it=q.back();q.pop_back(); int pp[2]; if(pipe(pp)){perror("pipe");return 2;}
      fflush(0); pid_t p=fork(); if(p<0){perror("fork");return 2;} if(!p){ close(pp[0]); for(auto*c:run)close(c->fd); runChild(h,it,pp[1]); }
      close(pp[1]); fcntl(pp[0],F_SETFL,O_NONBLOCK); run.push_back(new Child{p,pp[0],"",it,now(),false}); paths++;
    }
    if(run.empty())break;
    std::vector<pollfd> pf; for(auto*c:run)pf.push_back({c->fd,POLLIN,0}); poll(pf.data(),pf.size(),1000);
    for(size_t i=0;i<run.size();){
      Child*c=run[i]; bool eof=false; char b[65536]; for(;;){ssize_t r=read(c->fd,b,sizeof b); if(r>0)c->buf.append(b,r); else if(r==0){eof=true;break;} else if(errno==EINTR)continue; else break;}
      size_t pos=0; while(c->buf.size()-pos>=5){ char t=c->buf[pos];uint32_t n;memcpy(&n,&c->buf[pos+1],4); if(c->buf.size()-pos<5+n)break; std::string m=c->buf.substr(pos+5,n);pos+=5+n;
        if(t=='I'){ Item it;memcpy(&it.bound,&m[0],4);memcpy(&it.hash,&m[4],8);uint64_t si;memcpy(&si,&m[12],8);uint32_t ne;memcpy(&ne,&m[20],4);it.excl.resize(ne);if(ne)memcpy(it.excl.data(),&m[24],8*ne);uint32_t k;memcpy(&k,&m[24+8*ne],4);it.in.assign(m.begin()+28+8*ne,m.begin()+28+8*ne+k); it.trail=m.substr(28+8*ne+k); sites[si]++; if(!trunc)q.push_back(it); if(q.size()>maxq)maxq=q.size(); }
        else if(t=='S'){ Stats s;memcpy(&s,m.data(),sizeof s); uint64_t*a=(uint64_t*)&tot;(void)a; tot.queries+=s.queries;tot.sat+=s.sat;tot.unsat+=s.unsat;tot.unknown+=s.unknown;tot.branches+=s.branches;tot.checks+=s.checks;tot.symchecks+=s.symchecks;tot.cached+=s.cached;tot.concr+=s.concr;tot.steps+=s.steps;tot.checkunsat+=s.checkunsat;tot.ztime+=s.ztime;tot.leaks+=s.leaks;tot.shdrop+=s.shdrop;if(s.exprs>tot.exprs)tot.exprs=s.exprs;if(s.maxpc>tot.maxpc)tot.maxpc=s.maxpc; }
        else if(t=='N'){ notes[m]++; }
        else if(t=='F'){ for(size_t i=0;i+8<=m.size();i+=8){uint64_t a;memcpy(&a,&m[i],8);fns.insert(a);} }
        else if(t=='V'){ size_t x=m.find('\x01'),y=m.find('\x01',x+1); std::string key=m.substr(0,y); viol[key]++; uint32_t k;memcpy(&k,&m[y+1],4); std::vector<uint8_t> in(m.begin()+y+5,m.begin()+y+5+k); if(!vin.count(key)||vin[key].size()>in.size())vin[key]=in; c->done=true; ends["violation"]++; }
        else if(t=='E'){ ends[m]++; c->done=true; if(m=="ok"&&samples.size()<4)samples.push_back(c->it.in); }
      }
      c->buf.erase(0,pos);
      if(eof){ close(c->fd); int stt; waitpid(c->pid,&stt,0); if(!c->done){ std::string w=WIFSIGNALED(stt)?"killed by signal "+std::to_string(WTERMSIG(stt)):"exit "+std::to_string(WEXITSTATUS(stt)); std::string key="crash\x01process died: "+w; viol[key]++; if(!vin.count(key))vin[key]=c->it.in; } delete c; run.erase(run.begin()+i); }
      else { if(now()-c->t0>(h->alarm_s?h->alarm_s:60)*2.0){kill(c->pid,SIGKILL);} i++; }
    }
  }
  double wall=now()-t0;
  std::string j="{\"harness\":\""+hn+"\",\"complete\":"; bool inc=trunc||tot.unknown; for(auto&n:notes)if(n.first.compare(0,10,"INCOMPLETE")==0)inc=true;
  j+=inc?"false":"true"; char t[1024]; snprintf(t,sizeof t,",\"truncated\":%s,\"paths\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"cached\":%lu,\"branches\":%lu,\"concretised\":%lu,\"checks\":%lu,\"symchecks\":%lu,\"checks_unsat\":%lu,\"ztime\":%.3f,\"wall\":%.3f,\"max_exprs\":%lu,\"max_pc\":%lu,\"sinks\":%lu,\"shadow_drops\":%lu,\"max_queue\":%lu",trunc?"true":"false",paths,tot.queries,tot.sat,tot.unsat,tot.unknown,tot.cached,tot.branches,tot.concr,tot.checks,tot.symchecks,tot.checkunsat,tot.ztime,wall,tot.exprs,tot.maxpc,tot.leaks,tot.shdrop,maxq); j+=t;
  auto hex=[](const std::vector<uint8_t>&v){std::string s;char b[4];for(uint8_t x:v){snprintf(b,4,"%02x",x);s+=b;}return s;};
  j+=",\"ends\":{";bool f=true;for(auto&e:ends){if(!f)j+=",";f=false;j+="\""+jesc(e.first)+"\":"+std::to_string(e.second);}
  j+="},\"notes\":[";f=true;for(auto&e:notes){if(!f)j+=",";f=false;size_t x=e.first.find('\x01');j+="[\""+jesc(e.first.substr(0,x))+"\",\""+jesc(e.first.substr(x+1))+"\","+std::to_string(e.second)+"]";}
  j+="],\"violations\":[";f=true;for(auto&e:viol){if(!f)j+=",";f=false;size_t x=e.first.find('\x01');j+="{\"kind\":\""+jesc(e.first.substr(0,x))+"\",\"label\":\""+jesc(e.first.substr(x+1))+"\",\"count\":"+std::to_string(e.second)+",\"input\":\""+hex(vin[e.first])+"\"}";}
  j+="],\"samples\":[";f=true;for(auto&s:samples){if(!f)j+=",";f=false;j+="\""+hex(s)+"\"";}
  std::vector<std::pair<unsigned long,uint64_t>> sv;for(auto&s:sites)sv.push_back({s.second,s.first});std::sort(sv.rbegin(),sv.rend()); j+="],\"sites\":[";f=true;int k=0;
  Dl_info di; for(auto&s:sv){ if(k++>=400)break; if(!f)j+=",";f=false; uint64_t off=s.second; if(dladdr((void*)s.second,&di))off=s.second-(uint64_t)di.dli_fbase; snprintf(t,sizeof t,"[%lu,\"0x%lx\"]",s.first,off-1);j+=t;}
  j+="],\"functions\":[";f=true; for(uint64_t a:fns){ if(!f)j+=",";f=false; uint64_t off=a; if(dladdr((void*)a,&di))off=a-(uint64_t)di.dli_fbase; snprintf(t,sizeof t,"\"0x%lx\"",off); j+=t; }
  j+="]}"; if(out.empty())puts(j.c_str());else{FILE*fo=fopen(out.c_str(),"w");fputs(j.c_str(),fo);fputc('\n',fo);fclose(fo);}
  return viol.empty()?0:1;
}
