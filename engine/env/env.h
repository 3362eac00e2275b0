#pragma once
extern double sv_clock;          // virtual time in seconds
extern bool env_time_may_pass;   // a timed wait may time out whenever nothing else ...
extern int env_preempt;          // how many preemptions the scheduler may still insert
extern bool env_deadlock_ok;
void env_block(); void env_yield(); int env_thread_id();
#include "sv.h"
// accesses made while one lives are bookkeeping of the harness or environment, not the code under test
struct EnvQuiet{ EnvQuiet(){ sv_race(4,0); } ~EnvQuiet(){ sv_race(5,0); } };
struct EnvThread{ const char*name; unsigned prio,stack; bool started,done; };
EnvThread env_thread(int id); int env_threads();   // what was asked of the thread environment (thread 0 is main)
#include <vector>
#include <string>
struct EnvTest{ int kind; std::string text; }; // 0 failed, 1 passed, 2 diagnostic, 3 abort
extern "C" { extern std::vector<EnvTest>*env_tests_; }
static inline std::vector<EnvTest>& env_tests(){ if(!env_tests_)env_tests_=new std::vector<EnvTest>; return *env_tests_; }
