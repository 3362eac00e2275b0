#pragma once
struct SvHarness{ const char*name; void(*fn)(); int tier; int alarm_s; SvHarness*next; };
extern SvHarness*sv_harnesses;
extern int sv_tier; // 0 quick, 1 thorough: harness bounds may depend on it
