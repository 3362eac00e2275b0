// Harness API of the symbolic executor.
#pragma once
#include <cstddef>
#include <cstdint>
#include "sv_internal.h"
extern "C" {
void sv_make(void*p,size_t n,const char*name);   // fill with fresh symbolic bytes
void sv_assume_(int c);                          // restrict the inputs
void sv_check_(int c,const char*label);          // assertion: solver decides it for all inputs of the path
void sv_fail(const char*label);                  // unconditional failure when reached
void sv_stop(void);                              // end this path (outside the claim)
uint64_t sv_concrete(uint64_t v);                // enumerate all values (solver-driven case split)
int sv_is_symbolic(uint64_t v);
void sv_note(const char*); void sv_cover(const char*); void sv_symcap(size_t n); void sv_streams(int symbolic); /* text written to streams stays symbolic (default: it is of no further interest) */ void sv_abort_ok(int allowed); void sv_known(const char*id);
void sv_race(int op,uint64_t arg); int sv_race_off(void); // race detection: see env_sched.cpp
size_t sv_live(void);                            // heap blocks of 3001..3099 bytes allocated since the first call and not freed (leak checks)
}
#define sv_assume(c) sv_assume_((c)?1:0)
#define sv_check(c,label) sv_check_((c)?1:0,label)
template<class T> static inline T sv_any(const char*name){ T t; sv_make(&t,sizeof t,name); return t; }
template<> inline bool sv_any<bool>(const char*name){ unsigned char c; sv_make(&c,1,name); return c&1; }
// case split 0..n-1
static inline unsigned sv_pick(unsigned n,const char*name){ unsigned char c=sv_any<unsigned char>(name); sv_assume(c<n); return (unsigned)sv_concrete(c); }
// symbolic value in [lo,hi], kept symbolic
template<class T> static inline T sv_range(T lo,T hi,const char*name){ T v=sv_any<T>(name); sv_assume(v>=lo&&v<=hi); return v; }
#define SV_HARNESS_(nm,tr,al) static void nm(); static struct nm##_reg{ SvHarness h_; nm##_reg(){ h_.name=#nm;h_.fn=nm;h_.tier=tr;h_.alarm_s=al;h_.next=sv_harnesses;sv_harnesses=&h_; } } nm##_reg_; static void nm()
#define QUICK(name) SV_HARNESS_(name,0,0)
#define THOROUGH(name) SV_HARNESS_(name,1,0)
// expect an exception of any std type; returns true when thrown
#define THROWS(stmt) ([&]()->bool{ try{ stmt; return false; }catch(std::exception&){ return true; } }())
