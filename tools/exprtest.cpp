#include <cstdlib>
#include <cstdio>
#include <algorithm>
#include "svexpr.h"
EB B; long bad=0,n=0,simp=0; unsigned R(unsigned n){return rand()%n;}
Expr* var(unsigned w){ static uint32_t id=1; u128 v=0; unsigned m=R(4); if(m==0)v=R(4); else if(m==1)v=-(u128)R(4); else for(int i=0;i<8;i++)v=(v<<16)^(u128)(unsigned)rand(); Expr*e=B.raw(VAR,w,id++,0,0,0,v&maskw(w)); return e; }
Expr* ie(int d,unsigned w){ if(d<=0||!R(4)){ if(R(3)==0)return B.K_((u128)(s128)(int)(R(9)-4),w); unsigned k=R(2)?8:16; if(k>=w)return var(w); Expr*v=var(k); return R(2)?B.sext(v,w):B.zext(v,w);} if(w>8&&!R(4)){Expr*e=ie(d-1,w); unsigned c=8*(1+R(w/8-1)); Expr*r=B.concat(B.extract(e,c,w-c),B.extract(e,0,c)); if(r->cv!=e->cv){bad++;} n++; simp+=r==e; return r;} switch(R(4)){case 0:return B.add(ie(d-1,w),ie(d-1,w));case 1:return B.sub(ie(d-1,w),ie(d-1,w));case 2:return B.mul(ie(d-1,w),B.K_(R(2000),w));default:return B.ite(var(1),ie(d-1,w),ie(d-1,w));} }
void cmp(Expr*r,u128 want,const char*what){ n++; if(r->cv!=(want&maskw(r->w))){ if(bad++<20)printf("BAD %s got %llx want %llx k=%d\n",what,(unsigned long long)r->cv,(unsigned long long)want,r->k);} }
Expr* fe(int d){ if(d<=0||!R(5)){ unsigned c=R(8); if(c<2){ double t[]={0.0,-0.0,1.0,-1.0,0.5,-0.5,1e9,1000.0,3.0,4503599627370496.0,1e300}; return B.K_(fromD(t[R(11)]),64);} if(c==2)return var(64); return R(2)?B.fopx(S2F,64,0,B.sext(ie(2,R(2)?32:64),64)):B.fopx(U2F,64,0,B.zext(ie(2,R(2)?32:64),64)); }
  if(R(5)==0){ Expr*c=var(1),*x=fe(d-1),*y=fe(d-1); return B.ite(c,x,y);} K ks[]={FADD,FSUB,FMUL}; K k=ks[R(3)]; Expr*a=fe(d-1),*b=fe(d-1); Expr*r=B.fop(k,64,a,b); u128 w=B.evalNode(k,64,0,a,b,0); cmp(r,w,"arith"); if(r->k!=k)simp++; return r; }
int main(){ for(int i=0;i<400000;i++){ if(i%20000==0){ B.tab.clear(); } Expr*a=fe(3),*b=fe(3); K ks[]={FEQ,FLT,FLE}; for(K k:ks)cmp(B.fop(k,1,a,b),B.evalNode(k,1,0,a,b,0),"cmp"); cmp(B.fop(FISNAN,1,a,0),B.evalNode(FISNAN,1,0,a,0,0),"nan"); unsigned ts[]={8,16,32,64}; unsigned t=ts[R(4)]; bool sg=R(2); Expr*ok=B.fopx(FF2IOK,1,t|(sg?0x100:0),a); u128 w=B.evalNode(FF2IOK,1,t|(sg?0x100:0),a,0,0); cmp(ok,w,"ok"); if(w)cmp(B.fopx(sg?F2S:F2U,t,0,a),B.evalNode(sg?F2S:F2U,t,0,a,0,0),"f2i"); for(int r=7;r<=10;r++)cmp(B.fopx(FRND,64,r,a),B.evalNode(FRND,64,r,a,0,0),"rnd"); } printf("n %ld bad %ld simp %ld\n",n,bad,simp); return bad!=0; }
