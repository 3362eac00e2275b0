// JSON environment.  Symbolic runs: yajl (binary only) is replaced by a model - the parser
// delivers a given event sequence to the callbacks, the generator records the events it is
// given and enforces yajl's grammar states.  Replays: the events are rendered to text for the
// real yajl, and printed text is parsed back by the real yajl.
#pragma once
#include <string>
#include <vector>
#include <sstream>
#include <functional>
#include <ostream>
struct JEv{ char t; long long i; double d; std::string s; JEv(char t,long long i=0,double d=0,const std::string&s=std::string()):t(t),i(i),d(d),s(s){} };
typedef std::vector<JEv> JEvs;
std::string json_text(const JEvs&);                       // text to give to parseJSON()
JEvs json_printed(const std::function<void(std::ostream&)>&); // events printed
