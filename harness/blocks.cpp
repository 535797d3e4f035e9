// Control blocks of dynamic models: every short history of predictor and corrector steps, queries
// and new starts, and every input of the static blocks, against the equations they stand for.
// USES: parallel timer environment configuration
// FLAGS: -D_GLIBCXX_ASSERTIONS -I$REPO/src/applications/modules/dynamic_simulation_full_y -I$REPO/src/applications/modules/dynamic_simulation_full_y/model_classes
// REPO_SRC: applications/modules/dynamic_simulation_full_y/cblock.cpp applications/modules/dynamic_simulation_full_y/dblock.cpp applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp applications/modules/dynamic_simulation_full_y/model_classes/DelayBlock.cpp applications/modules/dynamic_simulation_full_y/model_classes/DelayBlockwithLimit.cpp applications/modules/dynamic_simulation_full_y/model_classes/LeadLagBlock.cpp applications/modules/dynamic_simulation_full_y/model_classes/PIBlockwithLimit.cpp
#include <mpi.h>
#include <cmath>
#include <cstdio>
#include <new>
#include "vm.hpp"
#include "util.hpp"
#include "cblock.hpp"
#include "dblock.hpp"
#include "BackLashClass.hpp"
#include "DBIntClass.hpp"
#include "DelayBlock.hpp"
#include "DelayBlockwithLimit.hpp"
#include "LeadLagBlock.hpp"
#include "PIBlockwithLimit.hpp"
using namespace vm; using namespace hu; using namespace gridpack::dynamic_simulation;
typedef long double D; typedef std::string S; typedef std::vector<double> V;
static D clamp(D v,D a,D b) { return v>b?(b<a?a:b):v<a?a:v; }
static bool near(D a,D b) { return std::fabs(a-b)<=1e-11L*(1+std::fabs(a)+std::fabs(b)); }
// objects start in memory that is not zero
template <class T> struct Fresh { alignas(T) unsigned char m[sizeof(T)]; T *p; Fresh() { memset(m,0x5a,sizeof(T)); p=new(m) T; } ~Fresh() { p->~T(); } T *operator->() { return p; } };
struct Any : Cblock {};
// (b0 s+b1)/(a0 s+a1) with limits on state, its rate and the output
struct TF { D a0,a1,b0,b1,xl,xh,dl,dh,yl,yh; D x,xp,d0; int last;
  D A() const { return -a1/a0; } D B() const { return b1/a0-a1*b0/(a0*a0); } D C() const { return b0/a0; }
  D out(D u,int st) const { return clamp((st?xp:x)+C()*u,yl,yh); }
  void step(D u,D dt,int st) { if (!st) { d0=clamp(A()*x+B()*u,dl,dh); xp=clamp(x+dt*d0,xl,xh); } else x=clamp(x+dt*clamp((d0+A()*xp+B()*u)/2,dl,dh),xl,xh); last=st; } };
struct BL : Harness {
  long n; S tag;
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](const char *f,int k) { Case c; c.np=1; c.set("f",f).set("k",k).set("depth",th?4:3).set("th",th); c.set("vmonly",k>0); emit(c); };
    for (int k=0;k<NB;k++) add("lin",k); for (int k=0;k<4;k++) add("delay",k); for (int k=0;k<4;k++) add("delaylim",k); for (int k=0;k<4;k++) add("leadlag",k); for (int k=0;k<6;k++) add("pi",k);
    add("gain",0); add("slope",0); for (int k=0;k<3;k++) add("piece",k); add("dead",0); add("gates",0); add("backlash",0); add("dbint",0); }
  static const int NB=14;
  void same(double got,D want,const char *what) { n++; if (!(std::isfinite(got)&&near(got,want))) { std::ostringstream o; o.precision(15); o<<tag<<": "<<what<<" is "<<got<<", expected "<<(double)want; fail(o.str()); } }
  // blocks: 0-2 PI, 3-5 filter, 6-8 lead lag, 9-10 integrator, 11-13 given by coefficients (washout, gain 0, general)
  template <class T> void lin(int k,T &b,int lim,TF &t,int how) { D big=1000; t.xl=t.dl=t.yl=-big; t.xh=t.dh=t.yh=big; static const D L[4][6]={{-1000,1000,-1000,1000,-1000,1000},{-0.4,0.5,-1000,1000,-0.6,0.7},{-0.4,0.5,-1.5,2,-0.6,0.7},{-1000,1000,-0.5,0.75,-1000,1000}}; t.xl=L[lim][0]; t.xh=L[lim][1]; t.dl=L[lim][2]; t.dh=L[lim][3]; t.yl=L[lim][4]; t.yh=L[lim][5]; t.last=0; }
  void linear(int k,int depth) { static const D P[NB][4]={{1,0,2,5},{1,0,0,3},{1,0,1.5,0.25},{0.5,1,0,1},{0.05,1,0,2.5},{2,1,0,-1},{0.5,1,1.5,1},{1,1,0.25,1},{0.4,1,0.4,1},{2,0,0,1},{0.25,0,0,1},{0.5,1,2,0},{1,2,0,0},{2,3,-1,4}}; // a0 a1 b0 b1
    static const double U[]={-1,0.25,1.5}; 
    for (int lim=0;lim<4;lim++) for (int how=0;how<3;how++) for (int start=0;start<5;start++) { // how the limits are given: with the parameters, afterwards, with every call
      if (k>=9&&k<11&&how==0&&lim>1) continue;
      if (how==2&&lim==0) continue;
      std::vector<int> d(2*depth+1,0); while (true) { // d[0]: queries between the steps, then inputs of predictor and corrector
        std::ostringstream o; o<<"block "<<k<<" limits "<<lim<<" given "<<how<<" start "<<start<<" inputs"; for (size_t i=1;i<d.size();i++) o<<" "<<U[d[i]]; o<<" queries "<<d[0]; tag=o.str(); run(k,lim,how,start,d,U,P[k]); int i=d.size()-1; while (i>=0&&++d[i]==3) d[i--]=0; if (i<0) break; } } }
  void run(int k,int lim,int how,int start,const std::vector<int> &d,const double *U,const D *p) {
    Fresh<PIControl> pi; Fresh<Filter> fi; Fresh<LeadLag> ll; Fresh<Integrator> in; Fresh<Any> an; Cblock *b=k<3?(Cblock*)pi.p:k<6?(Cblock*)fi.p:k<9?(Cblock*)ll.p:k<11?(Cblock*)in.p:an.p; TF t; t.a0=p[0]; t.a1=p[1]; t.b0=p[2]; t.b1=p[3]; lin(k,*b,lim,t,how); 
    double q1=k<3?(double)p[2]:k<6?(double)p[3]:k<9?(double)p[2]:(double)p[0],q2=k<3?(double)p[3]:(double)p[0]; double xl=t.xl,xh=t.xh,dl=t.dl,dh=t.dh,yl=t.yl,yh=t.yh; bool rate=lim>1;
    if (how==0&&lim) { if (k<3) rate?pi->setparams(q1,q2,xl,xh,dl,dh,yl,yh):pi->setparams(q1,q2,xl,xh,yl,yh); else if (k<6) rate?fi->setparams(q1,q2,xl,xh,dl,dh,yl,yh):fi->setparams(q1,q2,xl,xh,yl,yh); else if (k<9) rate?ll->setparams(q1,q2,xl,xh,dl,dh,yl,yh):ll->setparams(q1,q2,xl,xh,yl,yh); else if (k<11) { in->setparams(q1,xl,xh); t.yl=-1000; t.yh=1000; } else { double a[2]={(double)p[0],(double)p[1]},bb[2]={(double)p[2],(double)p[3]}; an->setcoeffs(a,bb); an->setxlimits(xl,xh); an->setdxlimits(dl,dh); an->setylimits(yl,yh); } }
    else { if (k<3) pi->setparams(q1,q2); else if (k<6) fi->setparams(q1,q2); else if (k<9) ll->setparams(q1,q2); else if (k<11) in->setparams(q1); else { double a[2]={(double)p[0],(double)p[1]},bb[2]={(double)p[2],(double)p[3]}; an->setcoeffs(a,bb); } if (how==1) { b->setxlimits(xl,xh); b->setdxlimits(dl,dh); b->setylimits(yl,yh); } }
    auto begin=[&](int s) { D u0=s==1?0.125:s==2?-0.25:0.3; bool integ=p[1]==0; D gain=integ?0:t.b1/t.a1; bool washout=!integ&&gain==0;
      if (s<3) { D u=integ?0:u0; double y=b->init_given_u(u); t.x=integ?0:-t.B()/t.A()*u; same(y,t.x+t.C()*u,"output at the start for its input"); }
      else { D y=washout?0:s==3?0.2:-0.3; if (s==4||washout) { D u=integ?0:washout?0.3:y/gain; b->init(u,y); t.x=y-t.C()*u; } else { double u=b->init_given_y(y); t.x=integ?y:-t.B()/t.A()*(y/gain); same(u,integ?0:y/gain,"input at the start for its output"); if (!how||!lim) same(b->getoutput(integ?0:(double)(y/gain)),clamp(y,t.yl,t.yh),"output after the start"); } }
      t.last=0; t.xp=t.x; same(b->x[0],t.x,"state at the start"); }; 
    auto step=[&](double u,int st,bool upd) { IntegrationStage g=st?CORRECTOR:PREDICTOR; double y=how<2?b->getoutput(u,0.1,g,upd):rate?b->getoutput(u,0.1,xl,xh,dl,dh,yl,yh,g,upd):b->getoutput(u,0.1,xl,xh,yl,yh,g,upd); same(y,t.out(u,st),st?"output of a corrector step":"output of a predictor step"); if (upd) { t.step(u,0.1L,st); same(b->getstate(g),st?t.x:t.xp,st?"state after a corrector step":"state after a predictor step"); } };
    begin(start); int N=(d.size()-1)/2; for (int s=0;s<N;s++) for (int st=0;st<2;st++) { double u=U[d[1+2*s+st]]; if (d[0]) step(u+0.7,st,false); if (d[0]==2&&how<2) same(b->getoutput(u-0.3),t.out(u-0.3,t.last),"output between steps"); step(u,st,true); if (d[0]==2&&how<2) same(b->getoutput(0.1),t.out(0.1L,t.last),"output after a step"); }
    begin((start+2)%5); if (how<2) same(b->getoutput(0.2),t.out(0.2L,0),"output after a new start"); step(U[d[1]],0,true); step(U[d[2]],1,true); }
  // blocks of the older models: predictor (also repeated) and corrector of each step
  template <class F> void seqs(int depth,int base,F f) { std::vector<int> d(depth,0); while (true) { f(d); int i=depth-1; while (i>=0&&++d[i]==base) d[i--]=0; if (i<0) return; } }
  void delay(int k,int depth,bool lim) { static const double U[]={-1.0137,0.2519,1.5071}; double T[]={0.5,0.1,0.04,0.0}; D dt=0.02; for (int st=0;st<3;st++) for (int rep=0;rep<2;rep++) seqs(2*depth,3,[&](const std::vector<int> &d) {
      std::ostringstream o; o<<"delay T="<<T[k]<<" start "<<st<<" repeated "<<rep<<" inputs"; for (int i:d) o<<" "<<U[i]; tag=o.str(); D Tt=T[k]; bool direct=T[k]<4.0*0.02; D y0=st==0?0.2:st==1?-0.9:1.1,hi=lim?0.6031:1e9,lo=lim?-0.5043:-1e9; Fresh<DelayBlock> b; Fresh<DelayBlockwithLimit> l; double in=lim?l->init(y0,T[k],hi,lo):b->init(y0,T[k]); same(in,y0,"input at the start"); if (y0>hi) hi=(double)y0+0.1; if (y0<lo) lo=(double)y0-0.1;
      D x=y0; for (int s=0;s<depth;s++) { D x0,f0; auto pred=[&](D u,bool again) { double y=lim?l->predictor(u,dt,again):b->predictor(u,dt,again); x0=clamp(direct?u:x,lo,hi); f0=direct?0:(u-x0)/Tt; if ((f0>0&&x0>=hi)||(f0<0&&x0<=lo)) f0=0; same(y,x0,"output of a predictor step"); }; D u=U[d[2*s]]; if (rep) { pred(0.4,false); pred(u,true); } else pred(u,false);
        D v=U[d[2*s+1]]; double y=lim?l->corrector(v,dt,false):b->corrector(v,dt,false); D x1=clamp(direct?v:x0+f0*dt,lo,hi),f1=direct?0:(v-x1)/Tt; if ((f1>0&&x1>=hi)||(f1<0&&x1<=lo)) f1=0; same(y,x1,"output of a corrector step"); x=x0+(f0+f1)/2*dt; } }); }
  void leadlag(int k,int depth) { static const double U[]={-1.0137,0.2519,1.5071}; double T1[]={0.5,0.2,0.04,1},T2[]={0.1,0.8,0.3,0}; D dt=0.02; bool direct=T1[k]<0.08; for (int st=0;st<2;st++) for (int rep=0;rep<2;rep++) seqs(2*depth,3,[&](const std::vector<int> &d) {
      std::ostringstream o; o<<"lead lag "<<T2[k]<<"/"<<T1[k]<<" start "<<st<<" repeated "<<rep<<" inputs"; for (int i:d) o<<" "<<U[i]; tag=o.str(); Fresh<LeadLagBlock> b; D y0=st?-0.9:0.3,r=(D)T2[k]/T1[k]; same(b->init(y0,T1[k],T2[k],dt),y0,"input at the start"); D x=y0*(1-r);
      for (int s=0;s<depth;s++) { D f0,x0=x; auto pred=[&](D u,bool again) { double y=b->predictor(u,dt,again); f0=(u*(1-r)-x0)/T1[k]; same(y,direct?u:u*r+x0,"output of a predictor step"); }; D u=U[d[2*s]]; if (rep) { pred(0.4,false); pred(u,true); } else pred(u,false); D v=U[d[2*s+1]],x1=x0+f0*dt; double y=b->corrector(v,dt,false); same(y,direct?v:v*r+x1,"output of a corrector step"); x=x0+(f0+(v*(1-r)-x1)/T1[k])/2*dt; } 
      Fresh<LeadLagBlock> e; e->init(y0,T1[k],T2[k],dt); for (int s=0;s<3;s++) { same(e->predictor(y0,dt,false),y0,"output at rest"); same(e->corrector(y0,dt,false),y0,"output at rest"); } }); }
  void pi(int k,int depth) { static const double U[]={-1.0137,0.2519,1.5071}; double KP[]={2,0.5,0,1,4,0.3},KI[]={5,20,10,0,0.5,0.000001}; D dt=0.02; for (int st=0;st<2;st++) for (int rep=0;rep<2;rep++) for (int lim=0;lim<2;lim++) seqs(2*depth,3,[&](const std::vector<int> &d) {
      std::ostringstream o; o<<"PI "<<KP[k]<<" "<<KI[k]<<" start "<<st<<" limits "<<lim<<" repeated "<<rep<<" inputs"; for (int i:d) o<<" "<<U[i]; tag=o.str(); D hi=lim?0.6031:50,lo=lim?-0.4043:-50; Fresh<PIBlockwithLimit> b; D y0=st?-0.35:0.3,Kp=KP[k],Ki=KI[k]; bool prop=KI[k]<1e-5; double in=b->init(y0,Kp,Ki,hi,lo); same(in,prop?y0/Kp:0,"input at the start"); D x=prop?0:y0;
      for (int s=0;s<depth;s++) { D f0,x0=x; auto rate=[&](D u,D &z) -> D { if (prop) return 0; D a=lo-Kp*u,c=hi-Kp*u; z=clamp(z,a,c); D f=Ki*u; return (f>0&&z>=c)||(f<0&&z<=a)?0:f; }; auto pred=[&](D u,bool again) { double y=b->predictor(u,dt,again); f0=rate(u,x0); same(y,clamp(Kp*u+x0,lo,hi),"output of a predictor step"); }; D u=U[d[2*s]]; if (rep) { pred(0.1,false); pred(u,true); } else pred(u,false); D v=U[d[2*s+1]],x1=x0+f0*dt; double y=b->corrector(v,dt,false); D f1=rate(v,x1); same(y,clamp(Kp*v+x1,lo,hi),"output of a corrector step"); x=x0+(f0+f1)/2*dt; } }); }
  void gain() { for (double K:{1.0,-2.0,0.5}) for (int lim=0;lim<3;lim++) { D lo=lim==0?-1e4:lim==1?-0.5:0.2,hi=lim==0?1e4:lim==1?0.75:0.9; std::ostringstream o; o<<"gain "<<K<<" limits "<<lim; tag=o.str(); V us; for (int i=-12;i<=12;i++) us.push_back(i/8.0); Fresh<GainLimiter> g; g->setparams(K,lo,hi); for (double u:us) same(g->getoutput(u),clamp(K*(D)u,lo,hi),"output"); for (double u:us) same(g->getoutput(u,-0.3,0.4),clamp(K*(D)u,-0.3L,0.4L),"output with limits");
      for (double dl:{-0.5,0.5,0.0}) for (double dh:{0.25,2.0}) for (int st=0;st<2;st++) { Fresh<GainLimiter> f; seqs(4,5,[&](const std::vector<int> &d) { f->setparams(K,lo,hi,dl,dh); D prev=0; bool first=true; for (size_t i=0;i<d.size();i++) { D u=-1+d[i]*0.5,y=clamp(K*u,lo,hi); if (first) prev=y; first=false; D w=clamp(y,prev-std::fabs((D)dl)*0.1L,prev+(D)dh*0.1L); bool up=!(st&&i%2); same(f->getoutput(u,0.1,up),w,"output with limited rate"); if (up) prev=w; } }); } } }
  static D table(const V &u,const V &y,D v) { int m=u.size(); bool inc=u[1]>u[0]; if (inc?v<=u[0]:v>=u[0]) return y[0]; if (inc?v>=u[m-1]:v<=u[m-1]) return y[m-1]; for (int i=0;i+1<m;i++) if (inc?v<=u[i+1]:v>=u[i+1]) return y[i]+((D)y[i+1]-y[i])*(v-u[i])/((D)u[i+1]-u[i]); return y[m-1]; }
  // at the ends of a slope the value there is taken within 1e-5
  void value(double got,const V &u,const V &y,double v) { n++; D w=table(u,y,v); if (!(std::fabs(got-w)<1e-4)) { std::ostringstream o; o<<tag<<": output for "<<v<<" is "<<got<<", expected "<<(double)w; fail(o.str()); } }
  void slope() { for (double u0:{-0.5,0.0,0.4}) for (double w:{0.25,1.0}) for (double y0:{0.0,1.0,-0.5}) for (double y1:{0.0,0.3,1.2}) for (int e=0;e<2;e++) { double u[2]={u0,u0+w},y[2]={y0,y1},ya=e?-3:y0,yb=e?1000:y1; Fresh<Slope> s; std::ostringstream o; o<<"slope "<<u0<<","<<y0<<" to "<<u[1]<<","<<y1; tag=o.str(); s->setparams(u,y,ya,yb); for (int i=-16;i<=16;i++) { double v=i*0.1+0.01; same(s->getoutput(v),v<=u[0]?(D)ya:v>=u[1]?(D)yb:y0+((D)y1-y0)*(v-u[0])/((D)u[1]-u[0]),"output"); } same(s->getoutput(u[0]),ya,"output at the first point"); same(s->getoutput(u[1]),yb,"output at the second point"); } }
  void piece(int k,bool th) { static const double X[]={0,0.2,0.5,0.9,1.3,1.4},Y[]={0,0.3,1}; int ny=3; Fresh<PiecewiseSlope> old; for (int m=2;m<=(th?5:4);m++) for (int mask=0;mask<64;mask++) if (__builtin_popcount(mask)==m) seqs(m,ny,[&](const std::vector<int> &d) { V u,y; for (int i=0;i<6;i++) if (mask>>i&1) u.push_back(X[i]); for (int i:d) y.push_back(Y[i]); if (k==1) std::reverse(u.begin(),u.end()); int cnt=m; V pu=u,py=y; if (k==2) while (cnt<5) { pu.push_back(0); py.push_back(0); cnt++; } // unused points at the end
      std::ostringstream o; o<<"points"; for (int i=0;i<cnt;i++) o<<" "<<pu[i]<<","<<py[i]; tag=o.str(); Fresh<PiecewiseSlope> s; s->setparams(cnt,&pu[0],&py[0]); old->setparams(cnt,&pu[0],&py[0]); for (int i=-2;i<=32;i++) { double v=i*0.05; value(s->getoutput(v),u,y,v); } for (double x:u) value(old->getoutput(x+0.03),u,y,x+0.03);
      bool up=true,dn=true; for (int i=0;i+1<m;i++) { if (y[i+1]<y[i]) up=false; if (y[i+1]>y[i]) dn=false; } if (up||dn) for (double w:{-0.1,0.0,0.15,0.3,0.7,1.0,1.1}) { double lo=*std::min_element(y.begin(),y.end()),hi=*std::max_element(y.begin(),y.end()); double v=s->init_given_y(w); n++; D g=std::isfinite(v)?table(u,y,v):1e9; if (!(std::fabs(g-clamp(w,lo,hi))<1e-9)) { std::ostringstream q; q<<tag<<": input for the output "<<w<<" is "<<v<<", which gives "<<(double)g; fail(q.str()); } } }); }
  void dead() { for (double a:{-0.5,0.0,-0.1}) for (double b:{0.0,0.3,0.5}) { Fresh<Deadband> s; std::ostringstream o; o<<"deadband "<<a<<" "<<b; tag=o.str(); s->setparams(a,b); for (int i=-20;i<=20;i++) { double u=i*0.05; if (std::fabs(u-a)<1e-9) u=a; if (std::fabs(u-b)<1e-9) u=b; same(s->getoutput(u),u>a&&u<b?0:(D)u,"output"); } } { Fresh<Deadband> s; tag="deadband of default"; for (double u:{-1.0,0.0,0.5}) same(s->getoutput(u),u,"output"); } }
  void gates() { for (double a:{-0.5,0.0,0.7}) for (double u:{-1.0,-0.5,0.0,0.3,0.7,2.0}) { Fresh<LVGate> l; Fresh<HVGate> h; tag="gates"; l->setparams(a); h->setparams(a); same(l->getoutput(u),std::min(a,u),"output of a low value gate"); same(h->getoutput(u),std::max(a,u),"output of a high value gate"); } }
  void backlash(int depth) { for (double db:{0.0,0.25,0.6}) for (double i0:{0.0,0.5,-1.0}) seqs(depth+1,6,[&](const std::vector<int> &d) { std::ostringstream o; o<<"backlash "<<db<<" from "<<i0<<" inputs"; for (int i:d) o<<" "<<-1.2+0.5*i; tag=o.str(); Fresh<BackLashClass> b; b->Initialize(db,i0); D y=i0; for (int i:d) { D u=-1.2+0.5*i; if (u-(D)db>y) y=u-db; else if (u+(D)db<y) y=u+db; same(b->Output((double)u),y,"output"); } }); }
  // deadband: step back to 0 inside; eps=0: shifted outside; eps=db: the input itself once it was outside, until it changes sign; else: shifted by db-eps, until |input| falls to db-eps
  void dbint(int depth) { for (double db:{0.5,-0.5,0.0,1.25}) for (double eps:{0.0,0.2,0.5,-0.2,2.0}) for (double i0:{0.0,0.3}) seqs(depth+1,8,[&](const std::vector<int> &d) { std::ostringstream o; o<<"deadband "<<db<<" hysteresis "<<eps<<" from "<<i0<<" inputs"; for (int i:d) o<<" "<<-1.4+0.4*i; tag=o.str(); Fresh<DBIntClass> b; b->Initialize(db,eps,i0); D B=std::fabs((D)db),E=std::min<D>(std::fabs((D)eps),B); int side=0; if (B==0&&E==0) ; for (int i:d) { double in=-1.4+0.4*i; D u=(D)in-i0,y,a=std::fabs(u); int s=u>0?1:-1; if (E==0) y=a>B?u-s*B:0; else { if (a>=B) { if (a>B||side) side=s; } else if (side&&(a<=B-E||side!=s)) side=0; y=side?u-s*(B-E):0; } same(b->Output(in),y+i0,"output"); } }); }
  void rank_main(const Case &c,int,int) override { par_begin(); n=0; S f=c.gets("f"); int k=c.geti("k",0),dp=c.geti("depth",2); bool th=c.geti("th",0);
    if (f=="lin") linear(k,dp); if (f=="delay") delay(k,dp,false); if (f=="delaylim") delay(k,dp,true); if (f=="leadlag") leadlag(k,dp); if (f=="pi") pi(k,dp); if (f=="gain") gain(); if (f=="slope") slope(); if (f=="piece") piece(k,th); if (f=="dead") dead(); if (f=="gates") gates(); if (f=="backlash") backlash(dp); if (f=="dbint") dbint(dp);
    count_sub(n); record("ok"); par_end(); }
};
Harness *vm::make_harness() { return new BL; }
