//@title Status values survive the wire and stay valid
//@bounds every type, messages and stack dumps of 0..2 (thorough 3) arbitrary characters and of 253..255 characters, previous contents of the receiver arbitrary; arbitrary byte strings of 0..4 (thorough 5) bytes; pairs of statuses in maximize
//@bounds transport: both byte orders, receive side delivering 1 byte at a time or everything
//@explain oracle: expected bytes written from the protocol: ff for OK, else type byte and two strings
#include "val.h"
#include <pv/status.h>
static Status any(unsigned maxl,int k=-1){ unsigned t=k>=0?(unsigned)k:sv_pick(4,"type"); if(t==0)return Status(); std::string m=symString(sv_pick(maxl+1,"mlen"),"msg"),d=symString(sv_pick(maxl+1,"dlen"),"dump"); return sv_pick(2,"ctor")||d.size()?Status((Status::StatusType)t,m,d):Status((Status::StatusType)t,m); }
static void same2(const Status&a,const Status&b,const char*l){ (void)l; sv_check(a.getType()==b.getType(),"the type is the same"); sv_check(eqv(a.getMessage(),b.getMessage())&&eqv(a.getStackDump(),b.getStackDump()),"message and stack are the same"); }
static void consistent(const Status&s){ sv_check(s.isOK()==(s.getType()==Status::STATUSTYPE_OK),"isOK means type OK"); sv_check(s.isSuccess()==(s.getType()==Status::STATUSTYPE_OK||s.getType()==Status::STATUSTYPE_WARNING),"success means OK or warning"); sv_check((bool)s==s.isSuccess(),"a status converts to its success"); }
static void trip(const Status&a,Status&b){ int ord=pickOrder(); Bytes w; if(a.getType()==Status::STATUSTYPE_OK)w.push_back(0xff); else { w.push_back((uint8_t)a.getType()); wVal(w,a.getMessage(),ord); wVal(w,a.getStackDump(),ord); } Out o(16,ord); a.serialize(&o.buf,&o); Bytes r=o.done(); sv_check(r.size()==w.size()&&eqBytes(r,w),"the encoding is the one the protocol prescribes"); r.push_back(0x5a); bool one=sv_pick(2,"one"); In in(r,one?16:1024,one?1:0,ord); b.deserialize(&in.buf,&in); sv_check(in.consumed()==r.size()-1,"exactly the encoding is consumed"); same2(a,b,""); consistent(b); }
QUICK(roundtrip){ Status a=any(sv_tier?3:2); consistent(a); Status b=any(sv_tier?1:0); trip(a,b); }
QUICK(long_messages){ std::string m(253+sv_pick(3,"len"),'m'); m[0]=(char)sv_any<char>("c"); m[252]=(char)sv_any<char>("c"); Status a((Status::StatusType)(1+sv_pick(3,"type")),m,m),b; trip(a,b); }
QUICK(arbitrary){ Bytes e=symBytes(sv_pick(sv_tier?6:5,"len")); Status s=sv_pick(2,"old")?Status(Status::STATUSTYPE_ERROR,"m","d"):Status(); In in(e,64,1,EPICS_ENDIAN_BIG); sv_symcap(72); bool threw=THROWS(s.deserialize(&in.buf,&in)); sv_check(in.consumed()<=e.size(),"no more bytes are consumed than there are"); sv_check((unsigned)s.getType()<=(unsigned)Status::STATUSTYPE_FATAL,"no decoded status has an unknown type"); consistent(s); if(!threw&&!s.isOK()){ sv_cover("decoded"); Status b; Out o(64); s.serialize(&o.buf,&o); Bytes r=o.done(); In i2(r,256,0); b.deserialize(&i2.buf,&i2); same2(s,b,""); } }
QUICK(maximum){ Status a=any(sv_tier?2:1),b=any(1),a0=a,b0=b; bool or_=sv_pick(2,"operator"); if(or_)a|=b; else a.maximize(b); same2(b,b0,"other untouched"); bool take=a0.getType()<b0.getType(); same2(a,take?b0:a0,""); consistent(a); }
QUICK(self_max){ Status a=any(2),a0=a; a.maximize(a); same2(a,a0,""); }
QUICK(construct){ std::string m=symString(2,"m"); unsigned k=sv_pick(3,"k"); if(k==0){ sv_check(THROWS(Status(Status::STATUSTYPE_OK,m)),"an OK status has no message"); sv_check(THROWS(Status(Status::STATUSTYPE_OK,m,m)),"an OK status has no message and no stack"); } else if(k==1){ Status s; sv_check(s.isOK()&&s.getMessage().empty()&&s.getStackDump().empty(),"a default status is OK"); sv_check(Status::Ok.isOK(),"the constant is OK"); } else { Status w=Status::warn(m),e=Status::error(m),f=Status::fatal(m); sv_check(w.getType()==Status::STATUSTYPE_WARNING&&e.getType()==Status::STATUSTYPE_ERROR&&f.getType()==Status::STATUSTYPE_FATAL,"factories give their type"); sv_check(eqv(w.getMessage(),m)&&eqv(e.getMessage(),m)&&eqv(f.getMessage(),m)&&w.getStackDump().empty(),"factories keep the message"); consistent(w); consistent(e); consistent(f); } }
