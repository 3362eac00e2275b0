//@title Time stamps stay normalized, add and compare correctly
//@bounds seconds -2^60..2^60 (every value), nanoseconds of the constructor and put: every 32-bit value; stamps in comparisons: every pair of seconds (full 64-bit range) and nanoseconds
//@bounds fractional increments: every multiple of 1/32 s (thorough 1/128 s) from -1 s to 1 s, multiples of 2^21 s with quarters (exact oracle), and 14 other fractions to the nanosecond; milliseconds: 123 case-split values within 2 s of 8 instants from -285 million years to +285 million years
//@bounds toSeconds and diff: seconds and nanoseconds case-split over 6 x 6 values each, signs included
//@assume time_t conversions: seconds within the EPICS epoch's 32 bit range (1990..2126)
//@explain oracle: exact integer arithmetic on total nanoseconds
#include "h.h"
#include <pv/timeStamp.h>
// the instant s seconds + n nanoseconds (|n| < 2^62), normalized
static void is(const TimeStamp&t,int64 s,int64 n,const char*){ int64 r=t.getSecondsPastEpoch()-s; int64 d=n-t.getNanoseconds(); sv_check((unsigned)(t.getNanoseconds()>=0)&(unsigned)(t.getNanoseconds()<1000000000),"nanoseconds stay within a second"); unsigned ok=0; for(int k=-4;k<=4;k++)ok|=(unsigned)(r==k)&(unsigned)(d==(int64)k*1000000000); sv_check(ok,"the exact instant is represented"); }
static void norm(const TimeStamp&t){ sv_check((unsigned)(t.getNanoseconds()>=0)&(unsigned)(t.getNanoseconds()<1000000000),"nanoseconds stay within a second"); }
static int64 secs(){ return sv_range<int64>(-((int64)1<<60),(int64)1<<60,"secs"); }
static TimeStamp any(){ int64 s=secs(); int32 n=sv_range<int32>(0,999999999,"ns"); return TimeStamp(s,n,sv_any<int32>("tag")); }
QUICK(construct){ int64 s=secs(); int32 n=sv_any<int32>("ns"),g=sv_any<int32>("tag"); TimeStamp t(s,n,g); is(t,s,n,""); sv_check(t.getUserTag()==g,"the user tag is kept"); }
QUICK(put){ TimeStamp t=any(); int32 g=t.getUserTag(); int64 s=secs(); int32 n=sv_any<int32>("ns"); t.put(s,n); is(t,s,n,""); sv_check(t.getUserTag()==g,"the user tag is kept"); sv_check(t.getEpicsSecondsPastEpoch()==s+(t.getSecondsPastEpoch()-s)-631152000,"EPICS seconds count from 1990"); int32 h=sv_any<int32>("tag"); t.setUserTag(h); sv_check(t.getUserTag()==h,"the tag is set"); is(t,s,n,""); }
QUICK(millis){ static const int64 B[8]={0,1,-1,1000000,-62135596800ll,1700000000,9000000000000000ll,-9000000000000000ll}; int64 m=B[sv_pick(8,"base")]*1000+((int)sv_pick(41,"step")-20)*99+(int)sv_pick(3,"ms")-1; TimeStamp t; void(TimeStamp::*f)(int64)=&TimeStamp::put; (t.*f)(m); norm(t); int64 s=t.getSecondsPastEpoch(); sv_check(s*1000+t.getNanoseconds()/1000000==m&&t.getNanoseconds()%1000000==0,"putting milliseconds represents that instant"); sv_check(t.getMilliseconds()==m,"milliseconds are given back"); }
QUICK(get_millis){ TimeStamp t; int64 s=sv_range<int64>(-((int64)1<<50),(int64)1<<50,"secs"); int32 n=sv_range<int32>(0,999999999,"ns"); t.put(s,n); int64 ms=t.getMilliseconds(); int64 r=ms-s*1000; sv_check((unsigned)(r*1000000<=n)&(unsigned)(n<r*1000000+1000000),"getMilliseconds rounds the instant down"); }
QUICK(add_int){ TimeStamp t=any(); int64 s=t.getSecondsPastEpoch(); int32 n=t.getNanoseconds(); int64 d=secs(); bool sub=sv_pick(2,"sub"); TimeStamp&r=sub?(t-=d):(t+=d); sv_check(&r==&t,"the operator returns its object"); sv_check(t.getSecondsPastEpoch()==(sub?s-d:s+d)&&t.getNanoseconds()==n,"whole seconds are added exactly"); }
static void plus(double x,int64 ds,int64 dn,bool sub){ TimeStamp t=any(); int64 s=t.getSecondsPastEpoch(); int32 n=t.getNanoseconds(); if(sub)t-=x; else t+=x; is(t,sub?s-ds:s+ds,sub?n-dn:n+dn,""); }
QUICK(add_fraction){ int n=((int)sv_pick(sv_tier?257:65,"n")-(sv_tier?128:32))*(sv_tier?1:4); bool sub=sv_pick(2,"sub"); plus(n/128.0,n/128,(int64)(n%128)*7812500,sub); }
QUICK(add_large){ int n=(int)sv_pick(sv_tier?129:17,"n")-(sv_tier?64:8); bool sub=sv_pick(2,"sub"); unsigned q=sv_pick(4,"frac"); double x=n*2097152.0+0.25*q; plus(x,(int64)n*2097152,(int64)q*250000000,sub); }
QUICK(add_samples){ static const double xs[14]={1e-9,2e-9,1e-3,0.1,0.7,0.999999999,1.000000001,59.999,3600.123456789,1e6+0.5,0.3333333333,2.5e-7,1e9+0.123,12345.678}; double x=xs[sv_pick(14,"x")]; if(sv_pick(2,"neg"))x=-x; bool sub=sv_pick(2,"sub"); TimeStamp t=any(); int64 s=t.getSecondsPastEpoch(); int32 n=t.getNanoseconds(); if(sub){ t-=x; x=-x; } else t+=x; norm(t); int64 ds=(int64)x,dn=(int64)((x-ds)*1e9),r=t.getSecondsPastEpoch()-s-ds,e=t.getNanoseconds()-n-dn; int64 tol=2+(int64)((x<0?-x:x)*1e9*3e-16); unsigned ok=0; for(int k=-1;k<=1;k++)ok|=(unsigned)(r==k)&(unsigned)(e+k*1000000000<=tol)&(unsigned)(e+k*1000000000>=-tol); sv_check(ok,"any fraction is added to the nanosecond"); }
QUICK(order){ int64 s1=sv_any<int64>("s"),s2=sv_any<int64>("s"); int32 n1=sv_range<int32>(0,999999999,"n"),n2=sv_range<int32>(0,999999999,"n"); TimeStamp a(s1,n1,sv_any<int32>("tag")),b(s2,n2,sv_any<int32>("tag")); int x=s1<s2||(s1==s2&&n1<n2)?-1:s1==s2&&n1==n2?0:1,y=0;
  switch(sv_pick(6,"op")){ case 0: sv_check((a==b)==(x==y),"== agrees with the instants"); break; case 1: sv_check((a!=b)==(x!=y),"!= agrees with the instants"); break; case 2: sv_check((a<b)==(x<y),"< agrees with the instants"); break; case 3: sv_check((a<=b)==(x<=y),"<= agrees with the instants"); break; case 4: sv_check((a>b)==(x>y),"> agrees with the instants"); break; default: sv_check((a>=b)==(x>=y),">= agrees with the instants"); } }
QUICK(time_t_conv){ time_t tt=(time_t)sv_range<int64>(631152000,(int64)631152000+0xffffffffll,"t"); TimeStamp t=any(); int32 g=t.getUserTag(); t.fromTime_t(tt); norm(t); sv_check(t.getSecondsPastEpoch()==(int64)tt&&t.getNanoseconds()==0&&t.getUserTag()==g,"time_t gives the same whole second"); time_t b=0; t.toTime_t(b); sv_check(b==tt,"time_t survives the round trip"); int32 n=sv_range<int32>(0,999999999,"ns"); t.put((int64)tt,n); time_t c=0; t.toTime_t(c); sv_check(c==tt,"conversion to time_t drops the fraction"); }
static const int64 S[6]={0,1,-1,631152000,1700000000,-62135596800ll}; static const int32 N[6]={0,1,500000000,999999999,123456789,250000000};
static bool nearTo(double a,double x,double tol){ double e=a-x; return e<=tol&&e>=-tol; }
QUICK(doubles){ unsigned i=sv_pick(6,"i"),j=sv_pick(6,"j"),k=sv_pick(6,"k"),l=sv_pick(6,"l"); TimeStamp a(S[i],N[j]),b(S[k],N[l]); double d=TimeStamp::diff(a,b); sv_check(nearTo(d,(double)(S[i]-S[k])+(N[j]-N[l])/1e9,1e-9+1e-15*(double)(S[i]>S[k]?S[i]-S[k]:S[k]-S[i])),"diff is the difference of the instants in seconds"); sv_check(TimeStamp::diff(b,a)==-d,"diff is antisymmetric"); sv_check(nearTo(a.toSeconds(),(double)S[i]+N[j]/1e9,1e-9+1e-15*(double)(S[i]<0?-S[i]:S[i])),"toSeconds is the instant in seconds"); }
QUICK(current){ TimeStamp t=any(); t.getCurrent(); norm(t); sv_check(t.getSecondsPastEpoch()>=631152000,"the current time is after 1990"); }
