// Data collections: every history of additions, changes, copies and transfers.
// USES: parallel timer environment configuration component
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include <boost/serialization/shared_ptr.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/component/data_collection.hpp"
#include "util.hpp"
#include <complex>
#include <memory>
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator;
typedef gridpack::component::DataCollection DC; typedef gridpack::ComplexType CT;
static const int IDX[]={-999,0,1,12,9999999,-1,123456789,-2147483647}; // the first stands for no index
static const char *NAMES[]={"BUS_A","BUS_","A:1"};
// reference: type -> tag -> text of value
struct Ref { std::map<std::string,int> m[7]; };
static std::string tag(int n,int i) { return std::string(NAMES[n])+(i?":"+std::to_string(IDX[i]):""); }
static int vi(int k) { return k*1000003-5; } static long vl(int k) { return 3000000000L*k+7; } static bool vb(int k) { return k%2; } static std::string vs(int k) { return std::string(k*9%23,'x')+std::to_string(k); } static float vf(int k) { return k*0.1f-1; } static double vd(int k) { return k/3.0-1e10; } static CT vc(int k) { return CT(k/7.0,-k*1e-3); }
template<class F> static auto app(int n,int i,F f) { return f(NAMES[n],IDX[i]); }
static void add(DC &d,int t,int n,int i,int k) { const char *s=NAMES[n]; int x=IDX[i]; std::string v=vs(k); if (i==0) switch (t) { case 0: d.addValue(s,vi(k)); break; case 1: d.addValue(s,vl(k)); break; case 2: d.addValue(s,vb(k)); break; case 3: d.addValue(s,v.c_str()); break; case 4: d.addValue(s,vf(k)); break; case 5: d.addValue(s,vd(k)); break; case 6: d.addValue(s,vc(k)); } else switch (t) { case 0: d.addValue(s,vi(k),x); break; case 1: d.addValue(s,vl(k),x); break; case 2: d.addValue(s,vb(k),x); break; case 3: d.addValue(s,v.c_str(),x); break; case 4: d.addValue(s,vf(k),x); break; case 5: d.addValue(s,vd(k),x); break; case 6: d.addValue(s,vc(k),x); } }
static bool set(DC &d,int t,int n,int i,int k) { const char *s=NAMES[n]; int x=IDX[i]; std::string v=vs(k); if (i==0) switch (t) { case 0: return d.setValue(s,vi(k)); case 1: return d.setValue(s,vl(k)); case 2: return d.setValue(s,vb(k)); case 3: return d.setValue(s,v.c_str()); case 4: return d.setValue(s,vf(k)); case 5: return d.setValue(s,vd(k)); default: return d.setValue(s,vc(k)); } switch (t) { case 0: return d.setValue(s,vi(k),x); case 1: return d.setValue(s,vl(k),x); case 2: return d.setValue(s,vb(k),x); case 3: return d.setValue(s,v.c_str(),x); case 4: return d.setValue(s,vf(k),x); case 5: return d.setValue(s,vd(k),x); default: return d.setValue(s,vc(k),x); } }
template<class T,class W> static bool got(DC &d,const char *s,int i,T before,W want,bool in,std::string &why) { T v=before; bool r=i?d.getValue(s,&v,IDX[i]):d.getValue(s,&v); if (r!=in) { why=r?"is found":"is not found"; return false; } if (in?!(v==T(want)):!(v==before)) { std::ostringstream o; o<<"has value "<<v; why=o.str(); return false; } return true; }
static void look(DC &d,const Ref &r,int ni,const char *what) {
  for (int n=0;n<3;n++) for (int i=0;i<ni;i++) { std::string t=tag(n,i),why; bool ok=true; int ty=0; for (;ty<7&&ok;ty++) { auto it=r.m[ty].find(t); bool in=it!=r.m[ty].end(); int k=in?it->second:0; const char *s=NAMES[n]; switch (ty) { case 0: ok=got<int>(d,s,i,-77,vi(k),in,why); break; case 1: ok=got<long>(d,s,i,-77L,vl(k),in,why); break; case 2: ok=got<bool>(d,s,i,true,vb(k),in,why)&&got<bool>(d,s,i,false,vb(k),in,why); break; case 3: ok=got<std::string>(d,s,i,"old",vs(k),in,why); break; case 4: ok=got<float>(d,s,i,-77.f,vf(k),in,why); break; case 5: ok=got<double>(d,s,i,-77.,vd(k),in,why); break; case 6: ok=got<CT>(d,s,i,CT(-7,7),vc(k),in,why); } }
    static const char *TN[]={"int","long","bool","string","float","double","complex"}; VM_CHECK(ok,what<<": "<<TN[ty-1]<<" "<<t<<" "<<why); } }
struct DCH : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough"; 
    // every pair / triple of operations, split by the first
    for (int f=0;f<2*7*3;f++) { Case c; c.np=1; c.set("w","ops").set("f",f).set("n",th?3:2); emit(c); }
    // histories of copies and transfers
    for (int np=1;np<=3;np++) for (int f=0;f<8;f++) { Case c; c.np=np; c.set("w","copy").set("f",f).set("n",th?6:4); emit(c); }
  }
  void ops(int f,int len) { int ni=len==2?8:4; // f: add/set, type and name of the first operation
    Odo a({ni}); do { std::vector<int> b(len-1,2*7*3*ni); Odo o(b); do { DC d; Ref r; std::ostringstream l; for (int q=0;q<len;q++) { int x=q==0?f+42*a.d[0]:o.d[q-1]; bool ad=x%2==0; int t=x/2%7,n=x/14%3,i=x/42; std::string tg=tag(n,i); int k=q+1+t+i*3; if (len==3&&q>0&&i>2&&t!=f/2%7) { } 
        l<<(ad?"add":"set")<<t<<" "<<tg<<"; "; if (ad) { add(d,t,n,i,k); r.m[t].insert(std::make_pair(tg,k)); } else { bool ok=set(d,t,n,i,k); bool in=r.m[t].count(tg); if (ok!=in) { label(l.str()); fail(ok?"setting an element that is absent succeeds":"setting an element fails"); } if (in) r.m[t][tg]=k; } }
        label(l.str()); look(d,r,ni,"after the operations"); count_sub(1,true); } while (o.next()); } while (a.next()); }
  // three collections X Y Z; operations: 0 X=Y 1 Y=copy of X 2 change X 3 change Y 4 Y goes round the processes 5 shared pointer broadcast from last 6 X=X 7 add to both
  void copy(Communicator &cm,int f,int len) { boost::mpi::communicator c=cm.getCommunicator(); int me=cm.rank(),np=cm.size(); Odo o(std::vector<int>(len-1,8)); do { std::ostringstream l; l<<f<<" "<<o.str(); label(l.str()); std::unique_ptr<DC> x(new DC),y(new DC); std::vector<Ref> rx(np),ry(np); for (int p=0;p<np;p++) for (int t=0;t<7;t++) { for (int q=0;q<2;q++) { int n=(t+q)%3,i=(t+q+p)%5,k=t+q+3*p+1; std::string tg=tag(n,i); if (me==p) add(*x,t,n,i,k); rx[p].m[t].insert(std::make_pair(tg,k)); } }
      for (int q=0;q<len;q++) { int op=q?o.d[q-1]:f; switch (op) { case 0: *x=*y; rx=ry; break; case 1: y.reset(new DC(*x)); ry=rx; break;
          case 2: case 3: { for (int p=0;p<np;p++) { Ref &r=(op==2?rx:ry)[p]; DC &d=op==2?*x:*y; for (int t=0;t<7;t++) { int i=(t+q)%5,n=q%3,k=q*7+t+p+20; std::string tg=tag(n,i); bool in=r.m[t].count(tg); if (me==p) { bool ok=set(d,t,n,i,k); VM_CHECK(ok==in,"set"); } if (in) r.m[t][tg]=k; else { if (me==p) add(d,t,n,i,k); r.m[t][tg]=k; } } } } break;
          case 4: { boost::mpi::request rq=c.isend((me+1)%np,5,*y); DC z; add(z,3,0,0,99); c.recv((me+np-1)%np,5,z); rq.wait(); *y=z; std::vector<Ref> t(ry); for (int p=0;p<np;p++) ry[(p+1)%np]=t[p]; } break;
          case 5: { boost::shared_ptr<DC> s; if (me==np-1) s.reset(new DC(*x)); boost::mpi::broadcast(c,s,np-1); x.reset(new DC(*s)); for (int p=0;p<np;p++) rx[p]=rx[np-1]; } break;
          case 6: *x=*x; break; case 7: add(*x,0,1,3,40+q); add(*y,0,1,3,41+q); for (int p=0;p<np;p++) { rx[p].m[0].insert(std::make_pair(tag(1,3),40+q)); ry[p].m[0].insert(std::make_pair(tag(1,3),41+q)); } break; }
        look(*x,rx[me],5,"first collection"); look(*y,ry[me],5,"second collection"); }
      if (me==0) count_sub(1,np>1); } while (o.next()); }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); { Communicator world; if (c.gets("w")=="ops") ops(c.geti("f"),c.geti("n")); else copy(world,c.geti("f"),c.geti("n")); record("ok"); } par_end(); }
};
Harness *vm::make_harness() { return new DCH; }
