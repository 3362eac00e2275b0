// Symbolic expressions: hash-consed bit-vector/FP DAG with local simplification.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <vector>
#include <unordered_map>
typedef unsigned __int128 u128;
typedef __int128 s128;
enum K:uint8_t{CONST,VAR,CONCAT,EXTRACT,ZEXT,SEXT,ADD,SUB,MUL,UDIV,SDIV,UREM,SREM,AND,OR,XOR,NOT,SHL,LSHR,ASHR,
  EQ,ULT,ULE,SLT,SLE,ITE,
  FADD,FSUB,FMUL,FDIV,FEQ,FLT,FLE,FISNAN,FCVT,F2U,F2S,U2F,S2F,FRND,FSQRT,FF2IOK};
struct Expr{ K k; uint8_t mark; uint16_t w; uint32_t aux; Expr*a[3]; u128 cv; uint64_t h1,h2; uint32_t epoch; uint32_t id; void*z; void*zb; };
inline u128 maskw(unsigned w){return w>=128?~(u128)0:(((u128)1<<w)-1);}
inline s128 sx(u128 v,unsigned w){ if(w>=128)return (s128)v; u128 m=(u128)1<<(w-1); v&=maskw(w); return (s128)((v^m)-m);}
inline double asD(u128 v){uint64_t x=(uint64_t)v;double d;memcpy(&d,&x,8);return d;}
inline float asF(u128 v){uint32_t x=(uint32_t)v;float d;memcpy(&d,&x,4);return d;}
inline u128 fromD(double d){uint64_t x;memcpy(&x,&d,8);return x;}
inline u128 fromF(float d){uint32_t x;memcpy(&x,&d,4);return x;}

struct EKey{K k;uint16_t w;uint32_t aux;Expr*a,*b,*c;u128 v;
  bool operator==(const EKey&o)const{return k==o.k&&w==o.w&&aux==o.aux&&a==o.a&&b==o.b&&c==o.c&&v==o.v;}};
struct EHash{size_t operator()(const EKey&x)const{
  uint64_t h=x.k*0x9E3779B97F4A7C15ull+x.w*0xC2B2AE3D27D4EB4Full+x.aux*0x165667B19E3779F9ull;
  auto m=[&](uint64_t v){h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;h^=h>>33;};
  m((uint64_t)x.a);m((uint64_t)x.b);m((uint64_t)x.c);m((uint64_t)x.v);m((uint64_t)(x.v>>64));return h;}};

struct EB{
  std::unordered_map<EKey,Expr*,EHash> tab; uint32_t nid=0;
  static uint64_t mix(uint64_t h,uint64_t v){h^=v+0x9E3779B97F4A7C15ull+(h<<6)+(h>>2);h*=0xff51afd7ed558ccdull;h^=h>>33;return h;}
  u128 evalNode(K k,unsigned w,uint32_t aux,Expr*a,Expr*b,Expr*c);
  Expr* raw(K k,unsigned w,uint32_t aux=0,Expr*a=0,Expr*b=0,Expr*c=0,u128 v=0){
    EKey key{k,(uint16_t)w,aux,a,b,c,k==CONST?v:0};
    auto it=tab.find(key); if(it!=tab.end())return it->second;
    Expr*e=(Expr*)calloc(1,sizeof(Expr)); e->k=k;e->w=w;e->aux=aux;e->a[0]=a;e->a[1]=b;e->a[2]=c;e->id=nid++;
    if(k==CONST||k==VAR)e->cv=v&maskw(w); else e->cv=evalNode(k,w,aux,a,b,c)&maskw(w);
    uint64_t h1=mix(0x1234567,k*1000003ull+w),h2=mix(0x89abcdef,aux+w*77ull+k);
    if(k==CONST){h1=mix(mix(h1,(uint64_t)v),(uint64_t)(v>>64));h2=mix(mix(h2,(uint64_t)(v>>64)),(uint64_t)v);}
    h1=mix(h1,aux);
    for(Expr*x:{a,b,c})if(x){h1=mix(h1,x->h1);h2=mix(h2,x->h2^0x5555);}
    e->h1=h1;e->h2=h2; tab.emplace(key,e);return e;
  }
  Expr* K_(u128 v,unsigned w){return raw(CONST,w,0,0,0,0,v&maskw(w));}
  static bool isC(Expr*e){return e->k==CONST;}
  Expr* T(){return K_(1,1);} Expr*F(){return K_(0,1);}
  Expr* fold(K k,unsigned w,uint32_t aux,Expr*a,Expr*b=0,Expr*c=0){ return K_(evalNode(k,w,aux,a,b,c),w); }

  Expr* extract(Expr*e,unsigned lo,unsigned n){
    if(lo==0&&n==e->w)return e;
    switch(e->k){
    case CONST:return K_(e->cv>>lo,n);
    case EXTRACT:return extract(e->a[0],lo+e->aux,n);
    case CONCAT:{ unsigned wl=e->a[1]->w; if(lo+n<=wl)return extract(e->a[1],lo,n); if(lo>=wl)return extract(e->a[0],lo-wl,n);
      return concat(extract(e->a[0],0,lo+n-wl),extract(e->a[1],lo,wl-lo)); }
    case ZEXT:{unsigned wi=e->a[0]->w; if(lo+n<=wi)return extract(e->a[0],lo,n); if(lo>=wi)return K_(0,n);
      return zext(extract(e->a[0],lo,wi-lo),n);}
    case SEXT:{unsigned wi=e->a[0]->w; if(lo+n<=wi)return extract(e->a[0],lo,n); if(lo==0)return sext(e->a[0],n); break;}
    case AND:case OR:case XOR: if(isC(e->a[1])||n<=8||e->a[0]->k==CONCAT||e->a[1]->k==CONCAT||e->a[0]->k==ZEXT||e->a[1]->k==ZEXT){Expr*x=extract(e->a[0],lo,n),*y=extract(e->a[1],lo,n);return e->k==AND?and_(x,y):e->k==OR?or_(x,y):xor_(x,y);}break;
    case NOT:return not_(extract(e->a[0],lo,n));
    case ITE: if(isC(e->a[1])||isC(e->a[2]))return ite(e->a[0],extract(e->a[1],lo,n),extract(e->a[2],lo,n));break;
    case ADD:case SUB:case MUL: if(lo==0){Expr*x=extract(e->a[0],0,n),*y=extract(e->a[1],0,n);return e->k==ADD?add(x,y):e->k==SUB?sub(x,y):mul(x,y);}break;
    default:break;
    }
    return raw(EXTRACT,n,lo,e);
  }
  Expr* concat(Expr*h,Expr*l){
    if(isC(h)&&isC(l))return K_((h->cv<<l->w)|l->cv,h->w+l->w);
    if(h->k==EXTRACT&&l->k==EXTRACT&&h->a[0]==l->a[0]&&h->aux==l->aux+l->w)return extract(h->a[0],l->aux,h->w+l->w);
    if(h->k==EXTRACT&&h->a[0]==l&&h->aux==l->w)return extract(l,0,h->w+l->w); // cannot happen (widths) but harmless
    if(h->k==EXTRACT&&h->aux==l->w&&extract(h->a[0],0,l->w)==l)return extract(h->a[0],0,h->w+l->w);
    if(l->k==CONCAT){ Expr*x=concat_try(h,l->a[0]); if(x)return concat(x,l->a[1]); }
    if(h->k==CONCAT){ Expr*x=concat_try(h->a[1],l); if(x)return concat(h->a[0],x); }
    if(isC(h)&&h->cv==0)return zext(l,h->w+l->w);
    if(l->k==ZEXT&&isC(h)){ return concat(K_(h->cv<<(l->w-l->a[0]->w),h->w+l->w-l->a[0]->w),l->a[0]); }
    return raw(CONCAT,h->w+l->w,0,h,l);
  }
  Expr* concat_try(Expr*h,Expr*l){
    if(isC(h)&&isC(l))return K_((h->cv<<l->w)|l->cv,h->w+l->w);
    if(h->k==EXTRACT&&l->k==EXTRACT&&h->a[0]==l->a[0]&&h->aux==l->aux+l->w)return extract(h->a[0],l->aux,h->w+l->w);
    if(h->k==EXTRACT&&h->aux==l->w&&extract(h->a[0],0,l->w)==l)return extract(h->a[0],0,h->w+l->w);
    return 0;
  }
  Expr* zext(Expr*e,unsigned w){ if(w==e->w)return e; if(w<e->w)return extract(e,0,w); if(isC(e))return K_(e->cv,w); if(e->k==ZEXT)return zext(e->a[0],w); return raw(ZEXT,w,0,e);}
  Expr* sext(Expr*e,unsigned w){ if(w==e->w)return e; if(w<e->w)return extract(e,0,w); if(isC(e))return K_((u128)sx(e->cv,e->w),w); if(e->k==ZEXT)return zext(e->a[0],w); if(e->k==SEXT)return sext(e->a[0],w); return raw(SEXT,w,0,e);}
  Expr* add(Expr*a,Expr*b){
    if(isC(a)&&isC(b))return K_(a->cv+b->cv,a->w); if(isC(a))std::swap(a,b);
    if(isC(b)){ if(!b->cv)return a; if(a->k==ADD&&isC(a->a[1]))return add(a->a[0],K_(a->a[1]->cv+b->cv,a->w)); 
      if(a->k==ITE&&isC(a->a[1])&&isC(a->a[2]))return ite(a->a[0],add(a->a[1],b),add(a->a[2],b)); }
    if(a->k==ADD&&isC(a->a[1])&&!isC(b)) return add(add(a->a[0],b),a->a[1]);
    if(b->k==ADD&&isC(b->a[1])) return add(add(a,b->a[0]),b->a[1]);
    if(a->k==SUB&&a->a[1]==b)return a->a[0]; if(b->k==SUB&&b->a[1]==a)return b->a[0];
    if(a->w==1)return xor_(a,b);
    if(!isC(b)&&a->id>b->id)std::swap(a,b);
    return raw(ADD,a->w,0,a,b);
  }
  Expr* neg(Expr*a){return sub(K_(0,a->w),a);}
  Expr* sub(Expr*a,Expr*b){
    if(a==b)return K_(0,a->w); if(isC(b))return add(a,K_(-b->cv,a->w));
    if(a->k==ADD&&a->a[0]==b)return a->a[1]; if(a->k==ADD&&a->a[1]==b)return a->a[0];
    if(a->k==ADD&&isC(a->a[1])){ return add(sub(a->a[0],b),a->a[1]); }
    if(b->k==ADD&&isC(b->a[1])) return add(sub(a,b->a[0]),K_(-b->a[1]->cv,a->w));
    if(a->w==1)return xor_(a,b);
    return raw(SUB,a->w,0,a,b);
  }
  static int log2c(u128 v){ if(!v||(v&(v-1)))return -1; int n=0; while(v>>=1)n++; return n;}
  Expr* mul(Expr*a,Expr*b){
    if(isC(a)&&isC(b))return K_(a->cv*b->cv,a->w); if(isC(a))std::swap(a,b);
    if(isC(b)){ if(!b->cv)return b; if(b->cv==1)return a; int l=log2c(b->cv); if(l>0)return shl(a,K_(l,a->w)); if(b->cv==maskw(a->w))return neg(a);}
    if(!isC(b)&&a->id>b->id)std::swap(a,b);
    return raw(MUL,a->w,0,a,b);
  }
  Expr* udiv(Expr*a,Expr*b){ if(isC(a)&&isC(b)&&b->cv)return fold(UDIV,a->w,0,a,b); if(isC(b)){int l=log2c(b->cv);if(l==0)return a; if(l>0)return lshr(a,K_(l,a->w));} 
    if(a->k==ZEXT&&isC(b)&&b->cv<=maskw(a->a[0]->w))return zext(udiv(a->a[0],K_(b->cv,a->a[0]->w)),a->w);
    return raw(UDIV,a->w,0,a,b);}
  Expr* urem(Expr*a,Expr*b){ if(isC(a)&&isC(b)&&b->cv)return fold(UREM,a->w,0,a,b); if(isC(b)){int l=log2c(b->cv);if(l>=0)return and_(a,K_(b->cv-1,a->w));} 
    if(a->k==ZEXT&&isC(b)&&b->cv<=maskw(a->a[0]->w))return zext(urem(a->a[0],K_(b->cv,a->a[0]->w)),a->w);
    return raw(UREM,a->w,0,a,b);}
  bool posTop(Expr*e){ return (e->k==ZEXT)||(isC(e)&&!((e->cv>>(e->w-1))&1))||(e->k==CONCAT&&posTop(e->a[0])); }
  Expr* sdiv(Expr*a,Expr*b){ if(isC(a)&&isC(b)&&b->cv)return fold(SDIV,a->w,0,a,b); if(posTop(a)&&posTop(b))return udiv(a,b); return raw(SDIV,a->w,0,a,b);}
  Expr* srem(Expr*a,Expr*b){ if(isC(a)&&isC(b)&&b->cv)return fold(SREM,a->w,0,a,b); if(posTop(a)&&posTop(b))return urem(a,b); return raw(SREM,a->w,0,a,b);}
  Expr* not_(Expr*a){ if(isC(a))return K_(~a->cv,a->w); if(a->k==NOT)return a->a[0];
    if(a->w==1){ // push into comparisons
      if(a->k==ULT)return ule(a->a[1],a->a[0]); if(a->k==ULE)return ult(a->a[1],a->a[0]);
      if(a->k==SLT)return sle(a->a[1],a->a[0]); if(a->k==SLE)return slt(a->a[1],a->a[0]); }
    return raw(NOT,a->w,0,a);}
  Expr* and_(Expr*a,Expr*b){
    if(a==b)return a; if(isC(a)&&isC(b))return K_(a->cv&b->cv,a->w); if(isC(a))std::swap(a,b);
    if(isC(b)){ u128 v=b->cv; if(!v)return b; if(v==maskw(a->w))return a;
      if(a->k==AND&&isC(a->a[1]))return and_(a->a[0],K_(v&a->a[1]->cv,a->w));
      int l=log2c(v+1); if(l>0)return zext(extract(a,0,l),a->w);
      // mask with zero low bits / contiguous run
      unsigned lo=0; while(!((v>>lo)&1))lo++; u128 r=v>>lo; int n=log2c(r+1);
      if(n>0&&a->w>1){ Expr*mid=extract(a,lo,n); Expr*x= lo?concat(mid,K_(0,lo)):mid; return zext(x,a->w); }
      if(a->k==ITE&&isC(a->a[1])&&isC(a->a[2]))return ite(a->a[0],and_(a->a[1],b),and_(a->a[2],b));
      if(a->k==ZEXT) return zext(and_(a->a[0],K_(v,a->a[0]->w)),a->w);
    }
    if(a->k==ZEXT&&b->k==ZEXT&&a->a[0]->w==b->a[0]->w)return zext(and_(a->a[0],b->a[0]),a->w);
    if(a->w==1){ if((a->k==NOT&&a->a[0]==b)||(b->k==NOT&&b->a[0]==a))return F(); 
       if(a->k==AND&&(a->a[0]==b||a->a[1]==b))return a; if(b->k==AND&&(b->a[0]==a||b->a[1]==a))return b; }
    if(!isC(b)&&a->id>b->id)std::swap(a,b);
    return raw(AND,a->w,0,a,b);
  }
  // bits of e known to be zero?
  u128 nz(Expr*e,int d=0){ // possibly-nonzero mask
    switch(e->k){case CONST:return e->cv; case ZEXT:return d>12?maskw(e->a[0]->w):nz(e->a[0],d+1); case CONCAT:return d>12?maskw(e->w):(nz(e->a[0],d+1)<<e->a[1]->w)|nz(e->a[1],d+1);
      case AND:return d>12?maskw(e->w):nz(e->a[0],d+1)&nz(e->a[1],d+1); case OR:case XOR:return d>12?maskw(e->w):nz(e->a[0],d+1)|nz(e->a[1],d+1); case ITE:return d>12?maskw(e->w):nz(e->a[1],d+1)|nz(e->a[2],d+1); default:return maskw(e->w);} }
  // disjoint or -> concat pieces
  Expr* orDisj(Expr*a,Expr*b){
    unsigned w=a->w; u128 ma=nz(a),mb=nz(b); if(ma&mb)return 0; if(!ma||!mb)return 0;
    // only when the masks are separable at one cut
    auto top=[&](u128 m){unsigned n=0;while(m){n++;m>>=1;}return n;};
    auto lowz=[&](u128 m){unsigned n=0;while(n<w&&!((m>>n)&1))n++;return n;};
    if(top(mb)<=lowz(ma)) {unsigned cut=top(mb); return concat(extract(a,cut,w-cut),extract(b,0,cut));}
    if(top(ma)<=lowz(mb)) {unsigned cut=top(ma); return concat(extract(b,cut,w-cut),extract(a,0,cut));}
    // b fills a hole in a (e.g. big-endian assembly)
    return 0;
  }
  Expr* or_(Expr*a,Expr*b){
    if(a==b)return a; if(isC(a)&&isC(b))return K_(a->cv|b->cv,a->w); if(isC(a))std::swap(a,b);
    if(isC(b)){ if(!b->cv)return a; if(b->cv==maskw(a->w))return b; }
    if(a->w==1){ if((a->k==NOT&&a->a[0]==b)||(b->k==NOT&&b->a[0]==a))return T(); 
      if(a->k==OR&&(a->a[0]==b||a->a[1]==b))return a; if(b->k==OR&&(b->a[0]==a||b->a[1]==a))return b; }
    else { if(Expr*x=orDisj(a,b))return x; if(a->k==ZEXT&&b->k==ZEXT&&a->a[0]->w==b->a[0]->w)return zext(or_(a->a[0],b->a[0]),a->w); 
      if(isC(b)&&a->k==ITE&&isC(a->a[1])&&isC(a->a[2]))return ite(a->a[0],or_(a->a[1],b),or_(a->a[2],b)); }
    if(!isC(b)&&a->id>b->id)std::swap(a,b);
    return raw(OR,a->w,0,a,b);
  }
  Expr* xor_(Expr*a,Expr*b){
    if(a==b)return K_(0,a->w); if(isC(a)&&isC(b))return K_(a->cv^b->cv,a->w); if(isC(a))std::swap(a,b);
    if(isC(b)){ if(!b->cv)return a; if(b->cv==maskw(a->w))return not_(a); if(a->k==XOR&&isC(a->a[1]))return xor_(a->a[0],K_(a->a[1]->cv^b->cv,a->w)); }
    if(a->k==NOT)return not_(xor_(a->a[0],b)); 
    if(a->w>1) if(Expr*x=orDisj(a,b))return x;
    if(!isC(b)&&a->id>b->id)std::swap(a,b);
    return raw(XOR,a->w,0,a,b);
  }
  Expr* shl(Expr*a,Expr*b){
    if(isC(a)&&isC(b))return fold(SHL,a->w,0,a,b);
    if(isC(b)){ if(b->cv==0)return a; if(b->cv>=a->w)return K_(0,a->w); unsigned k=(unsigned)b->cv; return concat(extract(a,0,a->w-k),K_(0,k)); }
    return raw(SHL,a->w,0,a,b);
  }
  Expr* lshr(Expr*a,Expr*b){
    if(isC(a)&&isC(b))return fold(LSHR,a->w,0,a,b);
    if(isC(b)){ if(b->cv==0)return a; if(b->cv>=a->w)return K_(0,a->w); unsigned k=(unsigned)b->cv; return zext(extract(a,k,a->w-k),a->w); }
    return raw(LSHR,a->w,0,a,b);
  }
  Expr* ashr(Expr*a,Expr*b){
    if(isC(a)&&isC(b))return fold(ASHR,a->w,0,a,b);
    if(isC(b)){ if(b->cv==0)return a; if(b->cv>=a->w)return sext(extract(a,a->w-1,1),a->w); unsigned k=(unsigned)b->cv; return sext(extract(a,k,a->w-k),a->w); }
    return raw(ASHR,a->w,0,a,b);
  }
  Expr* eq(Expr*a,Expr*b){
    if(a==b)return T(); if(isC(a)&&isC(b))return K_(a->cv==b->cv,1); if(isC(a))std::swap(a,b);
    if(a->w==1){ if(isC(b))return b->cv?a:not_(a); if(a->k==NOT&&b->k==NOT)return eq(a->a[0],b->a[0]); return not_(xor_(a,b)); }
    if(isC(b)){
      if(a->k==ZEXT){ if(b->cv>>a->a[0]->w)return F(); return eq(a->a[0],K_(b->cv,a->a[0]->w)); }
      if(a->k==SEXT){ Expr*n=K_(b->cv,a->a[0]->w); if((u128)(sx(n->cv,n->w)&maskw(a->w))!=b->cv)return F(); return eq(a->a[0],n); }
      if(a->k==CONCAT){ unsigned wl=a->a[1]->w; Expr*x=eq(a->a[0],K_(b->cv>>wl,a->a[0]->w)); if(isC(x)&&!x->cv)return x; return and_(x,eq(a->a[1],K_(b->cv,wl))); }
      if(a->k==ADD&&isC(a->a[1]))return eq(a->a[0],K_(b->cv-a->a[1]->cv,a->w));
      if(a->k==SUB&&isC(a->a[0]))return eq(a->a[1],K_(a->a[0]->cv-b->cv,a->w));
      if(a->k==SUB&&!b->cv)return eq(a->a[0],a->a[1]);
      if(a->k==XOR&&isC(a->a[1]))return eq(a->a[0],K_(b->cv^a->a[1]->cv,a->w));
      if(a->k==XOR&&!b->cv)return eq(a->a[0],a->a[1]);
      if(a->k==NOT)return eq(a->a[0],K_(~b->cv,a->w));
      if(a->k==OR&&!b->cv)return and_(eq(a->a[0],b),eq(a->a[1],b));
      if(a->k==ITE){ if(isC(a->a[1])&&isC(a->a[2])){ bool p=a->a[1]->cv==b->cv,q=a->a[2]->cv==b->cv; if(p&&q)return T(); if(p)return a->a[0]; if(q)return not_(a->a[0]); return F(); }
        if(isC(a->a[1])||isC(a->a[2]))return ite(a->a[0],eq(a->a[1],b),eq(a->a[2],b)); }
    } else {
      if(a->k==ZEXT&&b->k==ZEXT){ unsigned w=a->a[0]->w>b->a[0]->w?a->a[0]->w:b->a[0]->w; return eq(zext(a->a[0],w),zext(b->a[0],w)); }
      if(a->k==SEXT&&b->k==SEXT&&a->a[0]->w==b->a[0]->w)return eq(a->a[0],b->a[0]);
      if(a->k==CONCAT&&b->k==CONCAT&&a->a[1]->w==b->a[1]->w)return and_(eq(a->a[0],b->a[0]),eq(a->a[1],b->a[1]));
      if(a->k==ADD&&b->k==ADD&&isC(a->a[1])&&a->a[1]==b->a[1])return eq(a->a[0],b->a[0]);
      if(a->k==ADD&&(a->a[0]==b||a->a[1]==b))return eq(a->a[0]==b?a->a[1]:a->a[0],K_(0,a->w));
      if(b->k==ADD&&(b->a[0]==a||b->a[1]==a))return eq(b->a[0]==a?b->a[1]:b->a[0],K_(0,a->w));
    }
    if(!isC(b)&&a->id>b->id)std::swap(a,b);
    return raw(EQ,1,0,a,b);
  }
  Expr* ult(Expr*a,Expr*b){
    if(a==b)return F(); if(isC(a)&&isC(b))return K_(a->cv<b->cv,1);
    if(isC(b)){ if(!b->cv)return F(); if(b->cv==1)return eq(a,K_(0,a->w));
      if(a->k==ZEXT){ if(b->cv>maskw(a->a[0]->w))return T(); return ult(a->a[0],K_(b->cv,a->a[0]->w)); } 
      if(a->k==CONCAT&&isC(a->a[0])){u128 hi=b->cv>>a->a[1]->w; if(a->a[0]->cv<hi)return T(); if(a->a[0]->cv>hi)return F(); return ult(a->a[1],K_(b->cv,a->a[1]->w));} }
    if(isC(a)){ if(a->cv==maskw(a->w))return F(); if(a->cv==0)return not_(eq(b,a));
      if(b->k==ZEXT){ if(a->cv>=maskw(b->a[0]->w))return F(); return ult(K_(a->cv,b->a[0]->w),b->a[0]); } }
    if(a->k==ZEXT&&b->k==ZEXT){ unsigned w=a->a[0]->w>b->a[0]->w?a->a[0]->w:b->a[0]->w; return ult(zext(a->a[0],w),zext(b->a[0],w)); }
    if(a->w==1)return and_(not_(a),b);
    return raw(ULT,1,0,a,b);
  }
  Expr* ule(Expr*a,Expr*b){
    if(a==b)return T(); if(isC(a)&&isC(b))return K_(a->cv<=b->cv,1);
    if(isC(b)){ if(b->cv==maskw(a->w))return T(); return ult(a,K_(b->cv+1,a->w)); }
    if(isC(a)){ if(!a->cv)return T(); return ult(K_(a->cv-1,a->w),b); }
    if(a->k==ZEXT&&b->k==ZEXT){ unsigned w=a->a[0]->w>b->a[0]->w?a->a[0]->w:b->a[0]->w; return ule(zext(a->a[0],w),zext(b->a[0],w)); }
    if(a->w==1)return or_(not_(a),b);
    return raw(ULE,1,0,a,b);
  }
  Expr* slt(Expr*a,Expr*b){
    if(a==b)return F(); if(isC(a)&&isC(b))return K_(sx(a->cv,a->w)<sx(b->cv,b->w),1);
    if(posTop(a)&&posTop(b))return ult(a,b);
    if(isC(b)&&!b->cv){ if(posTop(a))return F(); return extract(a,a->w-1,1); }
    if(a->k==SEXT&&b->k==SEXT&&a->a[0]->w==b->a[0]->w)return slt(a->a[0],b->a[0]);
    if(a->k==SEXT&&isC(b)){ unsigned w=a->a[0]->w; s128 v=sx(b->cv,b->w); if(v>(s128)(maskw(w)>>1))return T(); if(v<=-(s128)((u128)1<<(w-1)))return F(); return slt(a->a[0],K_(b->cv,w)); }
    if(b->k==SEXT&&isC(a)){ unsigned w=b->a[0]->w; s128 v=sx(a->cv,a->w); if(v>=(s128)(maskw(w)>>1))return F(); if(v<-(s128)((u128)1<<(w-1)))return T(); return slt(K_(a->cv,w),b->a[0]); }
    if(posTop(a)&&isC(b))return F(); // b negative
    if(isC(a)&&posTop(b))return T();
    return raw(SLT,1,0,a,b);
  }
  Expr* sle(Expr*a,Expr*b){
    if(a==b)return T(); if(isC(a)&&isC(b))return K_(sx(a->cv,a->w)<=sx(b->cv,b->w),1);
    if(isC(b)){ if(sx(b->cv,b->w)==(s128)(maskw(a->w)>>1))return T(); return slt(a,K_(b->cv+1,a->w)); }
    if(isC(a)){ if(sx(a->cv,a->w)==-(s128)((u128)1<<(a->w-1)))return T(); return slt(K_(a->cv-1,a->w),b); }
    if(posTop(a)&&posTop(b))return ule(a,b);
    if(a->k==SEXT&&b->k==SEXT&&a->a[0]->w==b->a[0]->w)return sle(a->a[0],b->a[0]);
    return raw(SLE,1,0,a,b);
  }
  Expr* ite(Expr*c,Expr*a,Expr*b){
    if(isC(c))return c->cv?a:b; if(a==b)return a;
    if(c->k==NOT)return ite(c->a[0],b,a);
    if(a->w==1){ if(isC(a)&&isC(b))return a->cv?c:not_(c); if(isC(a))return a->cv?or_(c,b):and_(not_(c),b); if(isC(b))return b->cv?or_(not_(c),a):and_(c,a); }
    if(isC(a)&&isC(b)&&a->cv==1&&b->cv==0)return zext(c,a->w);
    if(a->k==ITE&&a->a[0]==c)a=a->a[1]; if(b->k==ITE&&b->a[0]==c)b=b->a[2];
    if(a==b)return a;
    return raw(ITE,a->w,0,c,a,b);
  }
  // doubles that are integers: conversions, sums and comparisons stay in integer arithmetic (exact below 2^52)
  static void rng(Expr*e,s128&lo,s128&hi,int d=0){
    unsigned w=e->w; lo=-((s128)1<<(w-1)); hi=-(lo+1); if(w>100){lo=-((s128)1<<100);hi=-lo;} if(d>10)return; s128 l1,h1,l2,h2;
    switch(e->k){
    case CONST:lo=hi=sx(e->cv,w);return;
    case ZEXT:{ unsigned k=e->a[0]->w; if(k>=w||k>99)return; lo=0;hi=((s128)1<<k)-1; rng(e->a[0],l1,h1,d+1); if(l1>=0)hi=h1<hi?h1:hi; return; }
    case SEXT:rng(e->a[0],lo,hi,d+1);return;
    case ADD:case SUB:rng(e->a[0],l1,h1,d+1);rng(e->a[1],l2,h2,d+1); if(e->k==SUB){s128 t=-l2;l2=-h2;h2=t;} if(l1+l2>=lo&&h1+h2<=hi){lo=l1+l2;hi=h1+h2;} return;
    case MUL:if(w>64)return; rng(e->a[0],l1,h1,d+1);rng(e->a[1],l2,h2,d+1); { s128 M=(s128)1<<50; if(l1<-M||h1>M||l2<-M||h2>M)return; s128 p[4]={l1*l2,l1*h2,h1*l2,h1*h2},a=p[0],b=p[0]; for(int i=1;i<4;i++){if(p[i]<a)a=p[i];if(p[i]>b)b=p[i];} if(a>=lo&&b<=hi){lo=a;hi=b;} } return;
    case ITE:rng(e->a[1],l1,h1,d+1);rng(e->a[2],l2,h2,d+1);lo=l1<l2?l1:l2;hi=h1>h2?h1:h2;return;
    default:return; } }
  static bool small(Expr*e){ s128 l,h; rng(e,l,h); return l>=-((s128)1<<52)&&h<=((s128)1<<52); }
  // zext(x+y) is x+y of the wide operands when the sum does not wrap and is not negative
  Expr* widen(Expr*e){ if(e->k==ZEXT&&e->w==64&&e->a[0]->k==ADD){ Expr*a=e->a[0]; s128 l,h,l1,h1,l2,h2; rng(a,l,h); rng(a->a[0],l1,h1); rng(a->a[1],l2,h2); s128 M=((s128)1<<(a->w-1))-1; if(l>=0&&l1+l2==l&&h1+h2==h&&h<=M)return add(sext(a->a[0],64),sext(a->a[1],64)); } return e; }
  Expr* widenS(Expr*e){ Expr*a=e->a[0]; s128 l,h,l1,h1,l2,h2; rng(a,l,h); rng(a->a[0],l1,h1); rng(a->a[1],l2,h2); if(l1+l2==l&&h1+h2==h)return add(sext(a->a[0],64),sext(a->a[1],64)); return sext(e,64); }
  Expr* asInt(Expr*e,int d=0){
    if(e->w!=64||d>8)return 0;
    if(isC(e)){ double x=asD(e->cv); if(!(x>=-4503599627370496.0&&x<=4503599627370496.0)||x!=std::trunc(x)||(x==0&&std::signbit(x)))return 0; return K_((u128)(s128)(int64_t)x,64); }
    if(e->k==S2F){ Expr*i=e->a[0]->k==SEXT&&e->a[0]->a[0]->k==ADD?widenS(e->a[0]):sext(e->a[0],64); return small(i)?i:0; }
    if(e->k==U2F){ Expr*i=widen(e->a[0]); if(i->w!=64)return 0; s128 l,h; rng(i,l,h); return l>=0&&h<=((s128)1<<52)?i:0; }
    if(e->k==ITE){ Expr*x=asInt(e->a[1],d+1); if(!x)return 0; Expr*y=asInt(e->a[2],d+1); return y?ite(e->a[0],x,y):0; }
    return 0; }
  bool iteC(Expr*e){ return e->k==ITE&&isC(e->a[1])&&isC(e->a[2]); }
  Expr* fop(K k,unsigned w,Expr*a,Expr*b){ if(isC(a)&&(!b||isC(b)))return fold(k,w,0,a,b);
    if(iteC(a)&&(!b||isC(b)))return ite(a->a[0],fold(k,w,0,a->a[1],b),fold(k,w,0,a->a[2],b));
    if(b&&iteC(b)&&isC(a))return ite(b->a[0],fold(k,w,0,a,b->a[1]),fold(k,w,0,a,b->a[2]));
    if(a->w==64&&(k==FADD||k==FSUB||k==FMUL||k==FEQ||k==FLT||k==FLE||k==FISNAN)){
      Expr*x=asInt(a),*y=x&&b?asInt(b):0;
      if(x&&!b)return F();
      if(x&&y)switch(k){
        case FEQ:return eq(x,y); case FLT:return slt(x,y); case FLE:return sle(x,y);
        case FADD:case FSUB:{ Expr*r=k==FADD?add(x,y):sub(x,y); if(small(r))return fopx(S2F,64,0,r); break; }
        case FMUL:{ if(!((isC(x)&&sx(x->cv,64)>0)||(isC(y)&&sx(y->cv,64)>0)))break; Expr*r=mul(x,y); if(small(r))return fopx(S2F,64,0,r); break; }
        default:break; } }
    return raw(k,w,0,a,b);}
  Expr* fopx(K k,unsigned w,uint32_t aux,Expr*a){ if(isC(a))return fold(k,w,aux,a);
    if(iteC(a))return ite(a->a[0],fold(k,w,aux,a->a[1]),fold(k,w,aux,a->a[2]));
    if(k==F2S||k==F2U||k==FF2IOK||k==FRND)if(Expr*x=asInt(a)){
      if(k==FRND)return a;
      if(k==FF2IOK){ unsigned t=aux&0xff; bool sg=aux&0x100; if(t>=54&&sg)return T(); Expr*lo=K_(sg?(u128)-((s128)1<<(t-1)):0,64); Expr*up=sg?K_(((u128)1<<(t-1))-1,64):t>=54?K_((u128)1<<60,64):K_(((u128)1<<t)-1,64); return and_(sle(lo,x),sle(x,up)); }
      return w<=64?extract(x,0,w):sext(x,w); }
    return raw(k,w,aux,a);}
};
inline bool isnanw(u128 v,unsigned w){return w==64?std::isnan(asD(v)):std::isnan(asF(v));}
// x86 SSE semantics of NaN results
inline u128 quiet(u128 v,unsigned w){return w==64?v|(1ull<<51):v|(1u<<22);}
inline u128 EB::evalNode(K k,unsigned w,uint32_t aux,Expr*A,Expr*B,Expr*C){
  u128 a=A?A->cv:0,b=B?B->cv:0,c=C?C->cv:0; unsigned aw=A?A->w:0;
  switch(k){
  case CONCAT:return (a<<B->w)|b; case EXTRACT:return a>>aux; case ZEXT:return a; case SEXT:return (u128)sx(a,aw);
  case ADD:return a+b; case SUB:return a-b; case MUL:return a*b;
  case UDIV:return b?a/b:maskw(w); case UREM:return b?a%b:a;
  case SDIV:{s128 x=sx(a,w),y=sx(b,w);return y==0?(x<0?1:maskw(w)):(u128)(x/y);} case SREM:{s128 x=sx(a,w),y=sx(b,w);return y==0?a:(u128)(x%y);}
  case AND:return a&b; case OR:return a|b; case XOR:return a^b; case NOT:return ~a;
  case SHL:return b>=w?0:a<<b; case LSHR:return b>=w?0:a>>b; case ASHR:{s128 x=sx(a,w);return b>=w?(x<0?maskw(w):0):(u128)(x>>(unsigned)b);}
  case EQ:return a==b; case ULT:return a<b; case ULE:return a<=b; case SLT:return sx(a,aw)<sx(b,aw); case SLE:return sx(a,aw)<=sx(b,aw);
  case ITE:return a?b:c;
  case FADD:case FSUB:case FMUL:case FDIV:{
    if(isnanw(a,w))return quiet(a,w); if(isnanw(b,w))return quiet(b,w); u128 r;
    if(w==64){double x=asD(a),y=asD(b);volatile double z=k==FADD?x+y:k==FSUB?x-y:k==FMUL?x*y:x/y;r=fromD(z);}
    else{float x=asF(a),y=asF(b);volatile float z=k==FADD?x+y:k==FSUB?x-y:k==FMUL?x*y:x/y;r=fromF(z);}
    if(isnanw(r,w))return w==64?(u128)0xFFF8000000000000ull:(u128)0xFFC00000u; return r;}
  case FEQ:return aw==64?asD(a)==asD(b):asF(a)==asF(b); case FLT:return aw==64?asD(a)<asD(b):asF(a)<asF(b); case FLE:return aw==64?asD(a)<=asD(b):asF(a)<=asF(b);
  case FISNAN:return isnanw(a,aw);
  case FCVT: if(aw==w)return a; if(aw==32){ if(isnanw(a,32)){uint64_t s=(uint64_t)(a>>31)<<63;return s|0x7ff8000000000000ull|((uint64_t)(a&0x7fffff)<<29);} return fromD((double)asF(a)); }
    if(isnanw(a,64)){uint32_t s=(uint32_t)(a>>63)<<31;return (u128)(s|0x7fc00000u|(uint32_t)((a&0xfffffffffffffull)>>29));} return fromF((float)asD(a));
  case F2U:{double d=aw==64?asD(a):(double)asF(a); if(!(d>-1.0&&d<std::ldexp(1.0,w)))return 0; return (u128)d;}
  case F2S:{double d=aw==64?asD(a):(double)asF(a); if(!(d<std::ldexp(1.0,w-1)&&d>=-std::ldexp(1.0,w-1)-(w<53?0.9999999999:0)))return 0; return (u128)(s128)d;}
  case FF2IOK:{double d=aw==64?asD(a):(double)asF(a); unsigned t=aux&0xff; double tr=std::trunc(d); if(std::isnan(d))return 0; if(aux&0x100)return tr>=-std::ldexp(1.0,t-1)&&tr<std::ldexp(1.0,t-1); return tr>=0&&tr<std::ldexp(1.0,t);}
  case U2F:{ if(w==64){return fromD((double)(uint64_t)a);} return fromF((float)(uint64_t)a);}
  case S2F:{ int64_t x=(int64_t)sx(a,aw); if(w==64)return fromD((double)x); return fromF((float)x);}
  case FRND:{ if(isnanw(a,w))return quiet(a,w); double d=w==64?asD(a):(double)asF(a); double r=aux==7?std::floor(d):aux==8?std::ceil(d):aux==9?std::trunc(d):std::nearbyint(d); return w==64?fromD(r):fromF((float)r);}
  case FSQRT:{ if(isnanw(a,w))return quiet(a,w); if(w==64){double r=std::sqrt(asD(a));return std::isnan(r)?(u128)0xFFF8000000000000ull:fromD(r);} float r=sqrtf(asF(a));return std::isnan(r)?(u128)0xFFC00000u:fromF(r);}
  default:return 0;
  }
}
