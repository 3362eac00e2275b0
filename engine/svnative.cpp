// Native replay: the same harnesses, linked with the un-instrumented code under test
// (and the real libCom), fed with the input bytes the solver found.
//   native -h harness [-T tier] -i hexinput
// exit 0 passed, 3 check failed, 4 uncaught exception, 5 assumption not met, 6 stopped;
// ASan / abort / signals otherwise.
#include "sv_internal.h"
#include "sv.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <typeinfo>
#include <unistd.h>
#include <signal.h>
SvHarness*sv_harnesses=0; int sv_tier=0;
static std::vector<unsigned char> in; static size_t pos=0;
static long live; extern "C" int __sanitizer_install_malloc_and_free_hooks(void(*)(const volatile void*,size_t),void(*)(const volatile void*)); extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
static void livehook(const volatile void*p,size_t n){ if(n>3000&&n<3100)live++; }
static void freehook(const volatile void*p){ if(!p)return; size_t n=__sanitizer_get_allocated_size(p); if(n>3000&&n<3100)live--; }
extern "C" {
void sv_make(void*p,size_t n,const char*){ for(size_t i=0;i<n;i++,pos++)((unsigned char*)p)[i]=pos<in.size()?in[pos]:0; }
void sv_assume_(int c){ if(!c){printf("ASSUME\n");fflush(stdout);_exit(5);} }
void sv_check_(int c,const char*l){ if(!c){printf("CHECK %s\n",l);fflush(stdout);_exit(3);} }
void sv_fail(const char*l){ sv_check_(0,l); }
void sv_stop(void){ printf("STOP\n");fflush(stdout);_exit(6); }
uint64_t sv_concrete(uint64_t v){return v;}
int sv_is_symbolic(uint64_t){return 0;}
size_t sv_live(void){ static bool on=false; if(!on){ on=true; live=0; __sanitizer_install_malloc_and_free_hooks(livehook,freehook); } return live; }
void sv_note(const char*){} void sv_cover(const char*){} void sv_symcap(size_t){} void sv_streams(int){}
int sv_race_off(void){return 0;}
#ifndef SV_TSAN
void sv_race(int,uint64_t){}
#else
// counterexample of a data race: the schedule is replayed under ThreadSanitizer, one fiber per thread
void* __tsan_get_current_fiber(void); void* __tsan_create_fiber(unsigned); void __tsan_switch_to_fiber(void*,unsigned); void __tsan_acquire(void*); void __tsan_release(void*);
void AnnotateIgnoreReadsBegin(const char*,int); void AnnotateIgnoreReadsEnd(const char*,int); void AnnotateIgnoreWritesBegin(const char*,int); void AnnotateIgnoreWritesEnd(const char*,int);
void sv_race(int op,uint64_t x){ static void*fib[16]; static int on=0; static char jn[16];
  if(op==0&&!on){ on=1; fib[0]=__tsan_get_current_fiber(); }
  switch(op){ case 1: __tsan_switch_to_fiber(fib[x&15],1); break; case 2: __tsan_acquire((void*)x); break; case 3: __tsan_release((void*)x); break;
  case 4: AnnotateIgnoreReadsBegin("",0);AnnotateIgnoreWritesBegin("",0); break; case 5: AnnotateIgnoreWritesEnd("",0);AnnotateIgnoreReadsEnd("",0); break;
  case 6: fib[x&15]=__tsan_create_fiber(1); __tsan_release(&jn[x&15]); break; case 7: __tsan_acquire(&jn[x&15]); break; case 9: __tsan_release(&jn[x&15]); break; case 10: __tsan_acquire(&jn[x&15]); break; } }
#endif
static void onabrt(int){ _exit(0); }
void sv_abort_ok(int c){ signal(SIGABRT,c?onabrt:SIG_DFL); }
void sv_known(const char*id){ printf("KNOWN %s\n",id);fflush(stdout);_exit(7); }
}
// the library's version suspends the calling thread
extern "C" void epicsAssert(const char*f,const unsigned l,const char*c,const char*){ fprintf(stderr,"assertion failed: %s %s:%u\n",c,f,l); fflush(stderr); abort(); }
int main(int argc,char**argv){
  std::string h,hex; for(int i=1;i<argc;i++){std::string a=argv[i]; if(a=="-h")h=argv[++i]; else if(a=="-i")hex=argv[++i]; else if(a=="-T")sv_tier=atoi(argv[++i]);}
  for(size_t i=0;i+1<hex.size();i+=2)in.push_back((unsigned char)strtoul(hex.substr(i,2).c_str(),0,16));
  for(SvHarness*x=sv_harnesses;x;x=x->next)if(h==x->name){ alarm(x->alarm_s?x->alarm_s:60);
    try{ x->fn(); }catch(std::exception&e){ printf("EXCEPTION %s: %s\n",typeid(e).name(),e.what());fflush(stdout);_exit(4);}catch(...){printf("EXCEPTION\n");fflush(stdout);_exit(4);}
    printf("PASSED\n");fflush(stdout);_exit(0); }
  fprintf(stderr,"no such harness\n"); return 2; }
// allocation failure is an exception, also under AddressSanitizer
#include <new>
static void* svnew(size_t n){ void*p=n>(size_t)1<<30?0:malloc(n?n:1); if(!p)throw std::bad_alloc(); return p; }
void* operator new(size_t n){return svnew(n);} void* operator new[](size_t n){return svnew(n);}
void* operator new(size_t n,const std::nothrow_t&)noexcept{return n>(size_t)1<<30?0:malloc(n?n:1);} void* operator new[](size_t n,const std::nothrow_t&)noexcept{return n>(size_t)1<<30?0:malloc(n?n:1);}
void operator delete(void*p)noexcept{free(p);} void operator delete[](void*p)noexcept{free(p);} void operator delete(void*p,size_t)noexcept{free(p);} void operator delete[](void*p,size_t)noexcept{free(p);}
