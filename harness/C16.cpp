//@title Shared arrays keep their contents, bounds and ownership
//@bounds two mutable arrays (independent, shared, slices of each other, built on foreign storage with offset) of 0..4 elements and two frozen ones, histories of 2 (thorough 3) operations out of 15 with every parameter combination near the sizes; element type byte (symbolic values), int64 and std::string
//@bounds slices with offset and length 0..5, SIZE_MAX; casts to and from untyped arrays and conversions int16<->int32<->double<->text of 0..3 elements
//@explain model: storage objects shared by reference, offset and length kept by the harness; AddressSanitizer decides accesses outside the storage
#include "val.h"
template<class T> struct Model{ std::tr1::shared_ptr<std::vector<T> > s; size_t off,n; Model():off(0),n(0){} T&operator[](size_t i){ return (*s)[off+i]; }
  void own(){ std::tr1::shared_ptr<std::vector<T> > q(new std::vector<T>(n)); if(s)for(size_t i=0;i<n;i++)(*q)[i]=(*this)[i]; s=q; off=0; } };
template<class T> static T val(){ return symVal<T>("elem"); } template<> std::string val<std::string>(){ std::string s(1,'x'); sv_make(&s[0],1,"elem"); return s; }
template<class T,class V> static void agree(const shared_vector<V>&v,Model<T>&m){
  sv_check(v.size()==m.n&&v.empty()==(m.n==0)&&v.dataCount()==m.n,"the array has the expected number of elements"); sv_check(v.capacity()>=v.size(),"the capacity covers the elements");
  unsigned ok=1; for(size_t i=0;i<m.n&&i<v.size();i++)ok&=eqv((const T&)v[i],m[i]); sv_check(ok,"the array shows exactly the elements put in it");
  size_t k=0; ok=1; for(typename shared_vector<V>::const_iterator i=v.begin();i!=v.end();++i,++k){ if(k>=m.n){ok=0;break;} ok&=eqv((const T&)*i,m[k]); } sv_check(ok&&k==m.n,"iteration visits exactly the elements");
  for(size_t i=0;i<m.n;i++)sv_check(&v.at(i)==&v[i],"at gives the element"); sv_check(THROWS(v.at(m.n))&&THROWS(v.at(m.n+1)),"at refuses an index outside"); if(m.n)sv_check(&v.front()==&v[0]&&&v.back()==&v[m.n-1]&&v.data()==&v[0],"front, back and data address the elements"); }
template<class T> struct W{ shared_vector<T> a,b; Model<T> ma,mb; shared_vector<const T> c,d; Model<T> mc,md; int live;
  void all(){ agree(a,ma); agree(b,mb); agree(c,mc); agree(d,md); }
  static void mk(shared_vector<T>&v,Model<T>&m,size_t n){ shared_vector<T> x(n); v=x; m=Model<T>(); m.n=n; m.own(); for(size_t i=0;i<n;i++){ T t=val<T>(); v[i]=t; m[i]=t; } }
  void init(){ switch(sv_pick(5,"init")){ case 0: break; case 1: mk(a,ma,3); break; case 2: { T*p=new T[5]; for(int i=0;i<5;i++)p[i]=val<T>(); ma.n=5; ma.own(); for(int i=0;i<5;i++)ma[i]=p[i]; ma.off=1; ma.n=3; a=shared_vector<T>(p,1,3); break; } case 3: { mk(a,ma,2); c=freeze(a); mc=ma; ma=Model<T>(); d=c; md=mc; break; } default: mk(a,ma,4); a.slice(1,2); ma.off=1; ma.n=2; }
    switch(sv_pick(3,"init2")){ case 0: break; case 1: b=a; mb=ma; break; default: b=a; mb=ma; b.slice(1,1); { size_t o=mb.n<1?mb.n:1; mb.off+=o; mb.n=mb.n-o<1?mb.n-o:1; } } all(); }
  void step(){ bool w=sv_pick(2,"which"); shared_vector<T>&x=w?b:a,&y=w?a:b; Model<T>&mx=w?mb:ma,&my=w?ma:mb; static const size_t N=(size_t)-1;
    switch(sv_pick(16,"op")){
    case 0: { static const size_t P[6]={0,1,2,3,5,N}; size_t o=P[sv_pick(6,"off")],l=P[sv_pick(6,"len")]; x.slice(o,l); if(o>mx.n)o=mx.n; mx.off+=o; mx.n-=o; if(l<mx.n)mx.n=l; break; }
    case 1: case 2: { bool f=sv_pick(2,"fill"); size_t n=sv_pick(6,"size"),o=mx.n; T t=val<T>(); bool sh=!x.unique(); if(f)x.resize(n,t); else x.resize(n); sv_check(x.unique(),"resize leaves the array the sole owner"); Model<T> q; q.n=n; q.own(); for(size_t i=0;i<n;i++)q[i]=i<o?mx[i]:t; mx=q; if(x.size()!=n){ sv_fail("resize gives the requested size"); return; } if(!f)for(size_t i=o;i<n;i++)x[i]=t; (void)sh; break; }
    case 3: { static const size_t P[4]={0,1,4,9}; size_t n=P[sv_pick(4,"cap")]; x.reserve(n); sv_check(x.capacity()>=n&&x.unique(),"reserve provides the capacity and sole ownership"); mx.own(); break; }
    case 4: { T t=val<T>(); x.push_back(t); Model<T> q; q.n=mx.n+1; q.own(); for(size_t i=0;i<mx.n;i++)q[i]=mx[i]; q[mx.n]=t; mx=q; break; }
    case 5: x.pop_back(); if(mx.n)mx.n--; break;
    case 6: x.make_unique(); sv_check(x.unique(),"make_unique leaves the array the sole owner"); mx.own(); break;
    case 7: x=y; mx=my; break;
    case 8: x.swap(y); std::swap(mx,my); break;
    case 9: { sv_assume(mx.n>0); size_t i=sv_pick(mx.n,"at"); T t=val<T>(); x[i]=t; mx[i]=t; break; }
    case 10: x.clear(); mx=Model<T>(); break;
    case 11: { bool u=x.unique(); shared_vector<const T> f; bool t=THROWS(f=freeze(x)); sv_check(t==!u,"freezing is refused exactly when the array is shared"); if(!t){ sv_check(x.size()==0&&!x.dataPtr(),"freezing gives up the mutable reference"); d=c; md=mc; c=f; mc=mx; mc.own(); mx=Model<T>(); } break; }
    case 12: { shared_vector<T> t(thaw(c)); sv_check(c.empty()&&!c.dataPtr(),"thawing gives up the read-only reference"); sv_check(t.unique(),"thawing gives a sole owner"); x=t; mx=mc; mx.own(); mc=Model<T>(); break; }
    case 13: d=c; md=mc; break;
    case 14: { x=std::move(y); mx=my; my=Model<T>(); break; }
    default: { size_t o=sv_pick(3,"off"),l=sv_pick(3,"len"); c.slice(o,l); if(o>mc.n)o=mc.n; mc.off+=o; mc.n-=o; if(l<mc.n)mc.n=l; } } all(); } };
template<class T> static void hist(int n){ W<T> w; w.init(); for(int i=0;i<n;i++)w.step(); }
QUICK(bytes){ hist<uint8>(sv_tier?2:1); }
QUICK(two_steps){ W<uint8> w; w.init(); sv_assume(w.a.size()>0); bool f=sv_pick(2,"first"); if(f){ static const size_t P[3]={0,2,5}; size_t n=P[sv_pick(3,"n")],o=w.ma.n; uint8 t=val<uint8>(); w.a.resize(n,t); Model<uint8> q; q.n=n; q.own(); for(size_t i=0;i<n;i++)q[i]=i<o?w.ma[i]:t; w.ma=q; } else { w.a.slice(1,1); size_t o=w.ma.n<1?w.ma.n:1; w.ma.off+=o; w.ma.n=w.ma.n-o<1?w.ma.n-o:1; } w.step(); }
THOROUGH(longs){ hist<int64>(1); }
QUICK(texts){ hist<std::string>(1); }
QUICK(growth){ shared_vector<uint8> v,old; uint8 first=sv_any<uint8>("e"); static const size_t N[3]={5,40,1100}; size_t n=N[sv_pick(3,"n")]; for(size_t i=0;i<n;i++){ v.push_back((uint8)(first+i)); if(i==n/2)old=v; } sv_check(v.size()==n,"every element is appended"); unsigned ok=1; for(size_t i=0;i<n;i++)ok&=v[i]==(uint8)(first+i); sv_check(ok,"appending keeps the elements"); sv_check(old.size()==n/2+1,"appending never affects a sharing array"); v.resize(n/2+1); v[0]=(uint8)(first+1); sv_check(old[0]==first,"writing after growth never affects a sharing array"); }
// untyped views and conversions
QUICK(casts){ size_t n=sv_pick(sv_tier?4:3,"n"),o=sv_pick(3,"off"),l=sv_pick(3,"len"); shared_vector<int32> v(n); for(size_t i=0;i<n;i++)v[i]=symVal<int32>("e"); shared_vector<int32> w(v); w.slice(o,l); size_t k=w.size(); shared_vector<void> u(static_shared_vector_cast<void>(w)); sv_check(u.size()==k*4&&u.original_type()==pvInt,"the untyped view counts bytes and remembers the type"); sv_check((void*)u.data()==(void*)w.data(),"the untyped view shows the same storage"); shared_vector<int32> x(static_shared_vector_cast<int32>(u)); sv_check(x.size()==k&&x.data()==w.data()&&x.dataOffset()==w.dataOffset(),"the typed view of an untyped array is the original");
  shared_vector<int16> y(shared_vector_convert<int16>(u)); sv_check(y.size()==k,"conversion keeps the number of elements"); unsigned ok=1; for(size_t i=0;i<k;i++)ok&=y[i]==(int16)w[i]; sv_check(ok,"conversion converts each element"); shared_vector<double> z(shared_vector_convert<double>(u)); ok=z.size()==k; for(size_t i=0;i<k;i++)ok&=z[i]==(double)w[i]; sv_check(ok,"conversion converts each element"); shared_vector<int32> s(shared_vector_convert<int32>(w)); sv_check(s.data()==w.data()&&s.size()==k,"conversion to the same type is the array itself");
  { shared_vector<void> u2(u); u2.clear(); shared_vector<void> u3; u3.swap(u); sv_check(u3.original_type()==pvInt&&u3.size()==k*4&&u.empty(),"untyped arrays swap"); } }
QUICK(compare){ size_t n=sv_pick(4,"n"),m=sv_pick(4,"m"); shared_vector<int16> a(n),b(m); unsigned eq=n==m; for(size_t i=0;i<n;i++)a[i]=symVal<int16>("e"); for(size_t i=0;i<m;i++)b[i]=symVal<int16>("e"); if(n==m)for(size_t i=0;i<n;i++)eq&=a[i]==b[i]; sv_check((a==b)==(bool)eq,"arrays are equal exactly when all elements are"); sv_check((a!=b)==!(bool)eq,"!= is the negation of =="); shared_vector<int16> c(a); sv_check(c==a,"an array equals itself"); c.slice(0,n?n-1:0); if(n)sv_check(!(c==a)&&!(a==c),"a shorter view differs"); if(n>1){ shared_vector<int16> d(a),e(a); d.slice(1); e.slice(0,n-1); unsigned q=1; for(size_t i=0;i+1<n;i++)q&=a[i]==a[i+1]; sv_check((d==e)==(bool)q,"views of one storage compare by elements"); } }
