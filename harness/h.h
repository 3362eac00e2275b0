// Shared helpers for the harnesses: transport models that fragment the byte stream
#pragma once
#include "sv.h"
#include <vector>
#include <string>
#include <stdexcept>
#include <algorithm>
#include <cstring>
#include <pv/serialize.h>
#include <pv/serializeHelper.h>
#include <pv/byteBuffer.h>
#include <pv/pvIntrospect.h>
#include <pv/pvData.h>
#include <pv/bitSet.h>
using namespace epics::pvData;
typedef std::vector<uint8_t> Bytes;

// sender side of a transport with a send buffer of `cap` bytes
struct Out : public SerializableControl {
  Bytes bytes; std::vector<char> store; ByteBuffer buf; bool direct; unsigned nflush;
  size_t pre; // bytes that were already waiting in the send buffer; done() drops them again
  explicit Out(size_t cap=256,int order=EPICS_BYTE_ORDER,bool direct=false,size_t pre=0):store(cap),buf(&store[0],cap,order),direct(direct),nflush(0),pre(pre){ for(size_t i=0;i<pre;i++)buf.putByte(0x33); }
  virtual void flushSerializeBuffer(){ nflush++; for(size_t i=0;i<buf.getPosition();i++)bytes.push_back((uint8_t)store[i]); buf.clear(); }
  virtual void ensureBuffer(std::size_t n){ if(buf.getRemaining()<n){ flushSerializeBuffer(); if(buf.getRemaining()<n)throw std::length_error("send buffer too small"); } }
  virtual bool directSerialize(ByteBuffer*,const char*p,std::size_t n,std::size_t es){ if(!direct)return false; flushSerializeBuffer(); for(size_t i=0;i<n*es;i++)bytes.push_back((uint8_t)p[i]); return true; }
  virtual void cachedSerialize(std::tr1::shared_ptr<const Field> const&f,ByteBuffer*b){ f->serialize(b,this); }
  Bytes& done(){ flushSerializeBuffer(); bytes.erase(bytes.begin(),bytes.begin()+pre); pre=0; return bytes; }
};
// receiver side: the stream arrives in pieces; `step`==0: whole buffer at once, else every refill
// brings only what was asked for plus step-1 bytes.  Running out of data throws.
struct In : public DeserializableControl {
  const Bytes&src; size_t pos; std::vector<char> store; ByteBuffer buf; size_t step; bool direct;
  explicit In(const Bytes&s,size_t cap=256,size_t step=0,int order=EPICS_BYTE_ORDER,bool direct=false):src(s),pos(0),store(cap),buf(&store[0],cap,order),step(step),direct(direct){ buf.setLimit(0); if(step==0)refill(0); }
  void refill(size_t need){
    size_t have=buf.getRemaining(),p=buf.getPosition(); for(size_t i=0;i<have;i++)store[i]=store[p+i];
    size_t want=step?need+step-1:store.size(); if(want>store.size())want=store.size();
    while(have<want&&pos<src.size())store[have++]=(char)src[pos++];
    buf.setPosition(0); buf.setLimit(have); buf.setPosition(0);
    if(have<need)throw std::underflow_error("out of data"); }
  virtual void ensureData(std::size_t n){ if(buf.getRemaining()<n){ if(n>store.size())throw std::length_error("message too large for the receive buffer"); refill(n); } }
  virtual bool directDeserialize(ByteBuffer*,char*p,std::size_t n,std::size_t es){ if(!direct)return false; size_t k=0; while(k<n*es&&buf.getRemaining())p[k++]=buf.getByte(); while(k<n*es){ if(pos>=src.size())throw std::underflow_error("out of data"); p[k++]=(char)src[pos++]; } return true; }
  virtual std::tr1::shared_ptr<const Field> cachedDeserialize(ByteBuffer*b){ return getFieldCreate()->deserialize(b,this); }
  size_t consumed()const{ return pos-buf.getRemaining(); }
};
static inline int pickOrder(){ return sv_pick(2,"byteorder")?EPICS_ENDIAN_BIG:EPICS_ENDIAN_LITTLE; }
static inline Bytes symBytes(size_t n,const char*nm="wire"){ Bytes b(n); if(n)sv_make(&b[0],n,nm); return b; }
static inline std::string symString(size_t n,const char*nm="str"){ std::string s(n,'x'); if(n)sv_make(&s[0],n,nm); return s; }
