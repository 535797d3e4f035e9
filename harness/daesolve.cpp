// Time integration with events against an exact piecewise linear simulation:
// every combination of events on the components, every distribution of them.
// USES: parallel timer environment configuration math
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/math/dae_solver.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator;
using gridpack::utility::Configuration;
using namespace gridpack::math;
typedef gridpack::ComplexType CT;
static double re(const CT &x) { return x.real(); } static double re(double x) { return x; }

// the components move with constant speed; the last one is the sum of the others
static const char *KINDS="nturb2x"; // none, terminate, turn when rising through, reset when either, bounce between two, two values of which the second terminates, both trigger at once
static double start(int i) { return 0.1+0.05*i; } static double speed(int i,int sp) { return sp==0?1.0+0.37*i:sp==1?1.0:(i%2?-1.0:1.0)*(0.8+0.3*i); }
struct Comp { char kind; double x,c,x0; int nv; std::vector<double> thr; std::vector<int> dir; std::vector<bool> term;
  void init(char k,int i,int sp) { kind=k; x=x0=start(i); c=speed(i,sp); double s=c>0?1:-1; nv=0; auto v=[&](double d,int di,bool t) { nv++; thr.push_back(x0+s*d); dir.push_back(di); term.push_back(t); };
    switch (k) { case 't': v(0.6317+0.1*i,0,true); break; case 'u': v(0.4123+0.13*i,s>0?1:-1,false); break; case 'r': v(0.3719+0.11*i,0,false); break; case 'b': v(0.4571,0,false); v(-0.3129,0,false); break; case 'w': v(0.5137,s>0?-1:1,true); break; case '2': v(0.4733+0.03*i,0,false); v(0.8311+0.07*i,0,true); break; case 'x': v(0.5279+0.09*i,0,false); v(0.5279+0.09*i,0,true); break; } }
  // what the handler does
  void act(const bool *t) { if (kind=='u'||kind=='b') c=-c; if (kind=='r') x-=(thr[0]-x0)*0.9; (void)t; } };
struct Log { double t; int comp,trig; };
struct Ideal { std::vector<Comp> k; double t; bool ended; std::vector<Log> log; 
  // next crossing of component i, value v
  void run(double T) { while (!ended) { double best=1e30; for (auto &q:k) for (int v=0;v<q.nv;v++) { double g=q.x-q.thr[v]; if (fabs(g)<1e-6) continue; double dt=-g/q.c; if (dt<=0) continue; int dr=q.c>0?1:-1; if (q.dir[v]&&q.dir[v]!=dr) continue; best=std::min(best,dt); }
      if (t+best>T+1e-9) { for (auto &q:k) q.x+=q.c*(T-t); t=T; return; }
      t+=best; std::vector<int> trig(k.size(),0); for (size_t i=0;i<k.size();i++) { Comp &q=k[i]; for (int v=0;v<q.nv;v++) { double g=q.x-q.thr[v]; int dr=q.c>0?1:-1; if (fabs(g)>1e-6&&fabs(-g/q.c-best)<1e-7&&(!q.dir[v]||q.dir[v]==dr)) { trig[i]|=1<<v; if (q.term[v]) ended=true; } } }
      for (auto &q:k) q.x+=q.c*best; for (size_t i=0;i<k.size();i++) if (trig[i]) { bool b[2]={bool(trig[i]&1),bool(trig[i]&2)}; k[i].act(b); Log l={t,(int)i,trig[i]}; log.push_back(l); } } } };
template<class T> struct Prob { int n; std::vector<Comp> k; std::vector<Log> log; int lo,hi; std::string bad;
  void operator()(const double &t,const VectorT<T> &X,const VectorT<T> &Xd,const double &shift,MatrixT<T> &J) { for (int i=lo;i<hi;i++) if (i<n-1) J.setElement(i,i,T(shift)); else for (int j=0;j<n;j++) J.setElement(i,j,T(j==i?1.0:-1.0)); J.ready(); }
  void operator()(const double &t,const VectorT<T> &X,const VectorT<T> &Xd,VectorT<T> &F) { std::vector<T> x(n),xd(n); X.getAllElements(&x[0]); Xd.getAllElements(&xd[0]); for (int i=lo;i<hi;i++) if (i<n-1) F.setElement(i,xd[i]-T(k[i].c)); else { T s=x[i]; for (int j=0;j<n-1;j++) s-=x[j]; F.setElement(i,s); } F.ready(); } };
template<class T> struct Ev : DAEEventT<T> { Prob<T> &p; int i; 
  Ev(Prob<T> &p_,int i_) : DAEEventT<T>(p_.k[i_].nv),p(p_),i(i_) { Comp &q=p.k[i]; this->p_stateIndex=i-p.lo; for (int v=0;v<q.nv;v++) { this->p_dir[v]=q.dir[v]<0?CrossZeroNegative:q.dir[v]>0?CrossZeroPositive:CrossZeroEither; this->p_term[v]=q.term[v]; } }
  void p_update(const double &t,T *s) { for (int v=0;v<p.k[i].nv;v++) this->p_current[v]=s[0]-T(p.k[i].thr[v]); }
  void p_handle(const bool *tr,const double &t,T *s) { Comp &q=p.k[i]; Log l={t,i,0}; for (int v=0;v<q.nv;v++) if (tr[v]) l.trig|=1<<v; p.log.push_back(l); double b=q.x=re(s[0]); q.act(tr); if (q.x!=b) s[0]=T(q.x); } };
static const char *TS[]={"-ts_type beuler","-ts_type bdf","-ts_type rosw","-ts_type cn"};

struct DS : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough"; 
    auto add=[&](int np,const char *what,const std::string &d,int ts,int ad,int sp,int out,int comm=0) { for (int ty=0;ty<2;ty++) { Case c; c.np=np; c.set("w",what).set("d",d).set("ty",ty).set("ts",ts).set("ad",ad).set("sp",sp).set("out",out).set("comm",comm); emit(c); } };
    for (int ts=0;ts<3;ts++) for (int ad=0;ad<2;ad++) for (int sp=0;sp<3;sp++) for (int out=0;out<2;out++) { if (!th&&(out?(ts+ad+sp)%2!=0:ts!=ad)) continue;
      for (const char *d:{"2","3"}) add(1,"ev",d,ts,ad,sp,out);
      for (const char *d:{"2,1","0,3","3,0","1,2"}) if (th||ts==0) add(2,"ev",d,ts,ad,sp,out);
      for (const char *d:{"1,0,2","1,1,1"}) if (th||(ts+ad+sp)%3==0) add(3,"ev",d,ts,ad,sp,out);
      if (th||(ts+sp)%3==0) add(3,"ev","2,1",ts,ad,sp,out,2); }
    for (int ts=0;ts<4;ts++) for (const char *d:{"2","1,1","0,2","1,0,1"}) { add(ints(d).size(),"steps",d,ts,0,th?3:2,0); add(ints(d).size(),"steps",d,ts,0,th?3:2,1); }
  }
  int serial=0;
  Configuration::CursorPtr config(Communicator &cm,const std::string &body) { Configuration *c=Configuration::configuration(); { int m; MPI_Allreduce(&serial,&m,1,MPI_INT,MPI_MAX,static_cast<MPI_Comm>(cm)); serial=m+1; } std::ostringstream k; k<<"T"<<serial; std::vector<std::string> s(1,"<"+k.str()+">"+body+"</"+k.str()+">"); c->openStringFile(s,cm); return c->getCursor(k.str()); }
  static std::string body(int ts,int ad) { return std::string("<DAESolver><Adaptive>")+(ad?"true":"false")+"</Adaptive><PETScOptions>"+TS[ts]+" -snes_rtol 1e-10 -snes_atol 1e-9 -snes_linesearch_type basic -ksp_rtol 1e-13 -ksp_atol 1e-13 -pc_type none -ts_adapt_dt_max 0.3</PETScOptions></DAESolver>"; }
  double pre=-1,post=-1; int npre=0,npost=0; std::string order;
  void onpre(const double &t) { if (npre!=npost) order="a step starts before the one before it has ended"; npre++; pre=t; } void onpost(const double &t) { npost++; if (npre!=npost) order="a step ends that has not started"; post=t; }
  template<class T> void ev(Communicator &cm,const std::vector<int> &d,const std::string &kinds,int ts,int ad,int sp,int out,int rev) {
    int me=cm.rank(),np=cm.size(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo;
    Prob<T> p; p.n=n; p.lo=lo; p.hi=hi; p.k.resize(n-1); Ideal id; id.t=0; id.ended=false; for (int i=0;i<n-1;i++) p.k[i].init(kinds[i],i,sp); id.k=p.k;
    typedef DAESolverT<T> S; typename S::JacobianBuilder jb=boost::ref(p); typename S::FunctionBuilder fb=boost::ref(p); typename S::EventManagerPtr em(new typename S::EventManager());
    int ne=0; for (int j=lo;j<std::min(hi,n-1);j++) { int i=rev?std::min(hi,n-1)-1-(j-lo):j; if (p.k[i].nv) { em->add(typename S::EventPtr(new Ev<T>(p,i))); ne+=p.k[i].nv; } } VM_CHECK(em->size()==ne,"the manager has "<<em->size()<<" events instead of "<<ne);
    { int e=0; for (int j=lo;j<std::min(hi,n-1);j++) { Comp &q=p.k[rev?std::min(hi,n-1)-1-(j-lo):j]; for (int v=0;v<q.nv;v++,e++) VM_CHECK((int)em->directions()[e]==q.dir[v]&&em->terminateFlags()[e]==q.term[v],"direction or termination flag of event value "<<e<<" is not the declared one"); } }
    S s(cm,m,jb,fb,em); s.configure(config(cm,body(ts,ad))); npre=npost=0; order=""; typename S::StepFunction f1=[this](const double&t){onpre(t);},f2=[this](const double&t){onpost(t);}; s.preStep(f1); s.postStep(f2);
    VectorT<T> x(cm,m); double sum=0; for (int i=0;i<n-1;i++) sum+=start(i); for (int i=lo;i<hi;i++) x.setElement(i,T(i<n-1?start(i):sum)); x.ready(); s.initialize(0.0,0.05,x);
    size_t nl=0; int total=0; bool over=false;
    for (double t:outs(out)) for (int again=0;again<2;again++) { if (again&&!over) break;
      over=false; id.ended=false; id.run(t); double tt=t; int ms=2000; s.solve(tt,ms); over=id.ended; std::ostringstream w; w<<"until "<<t<<": ";
      VM_CHECK(fabs(tt-id.t)<1e-5,w.str()<<"ends at "<<tt<<" instead of "<<id.t); int term=s.terminated(),mt=0; MPI_Allreduce(&term,&mt,1,MPI_INT,MPI_SUM,static_cast<MPI_Comm>(cm)); VM_CHECK(mt==(id.ended?np:0),w.str()<<mt<<" of "<<np<<" processes see the termination; expected "<<(id.ended?"all":"none"));
      VM_CHECK(order.empty(),w.str()<<order); total+=ms; VM_CHECK(npost==npre,w.str()<<npre<<" calls before, "<<npost<<" calls after a step");
      // the handlers called so far
      std::vector<double> mine; for (auto &l:p.log) { mine.push_back(l.t); mine.push_back(l.comp); mine.push_back(l.trig); } size_t e=0; for (auto &l:id.log) if (l.comp>=lo&&l.comp<hi) { VM_CHECK(e*3<mine.size(),w.str()<<"event of component "<<l.comp<<" at "<<l.t<<" is not handled"); VM_CHECK(fabs(mine[3*e]-l.t)<1e-5&&mine[3*e+1]==l.comp&&mine[3*e+2]==l.trig,w.str()<<"event "<<mine[3*e+2]<<" of component "<<mine[3*e+1]<<" handled at "<<mine[3*e]<<" instead of event "<<l.trig<<" of component "<<l.comp<<" at "<<l.t); e++; } VM_CHECK(e*3==mine.size(),w.str()<<"event "<<mine[3*e+2]<<" of component "<<mine[3*e+1]<<" handled at "<<mine[3*e]<<" did not happen"); nl=e;
      bool emt=false; for (auto &l:p.log) { Comp &q=p.k[l.comp]; for (int v=0;v<q.nv;v++) if ((l.trig>>v&1)&&q.term[v]&&id.ended&&fabs(l.t-id.t)<1e-5) emt=true; } VM_CHECK(em->terminated()==emt,w.str()<<"the manager "<<(emt?"does not say":"says")<<" that an event has ended the run");
      for (int i=lo;i<hi;i++) if (i<n-1) { T y; x.getElement(i,y); VM_CHECK(fabs(re(y)-id.k[i].x)<1e-4,w.str()<<"component "<<i<<" is "<<re(y)<<" instead of "<<id.k[i].x); }
      bool quiet=ts!=3&&(id.log.empty()||id.t-id.log.back().t>1e-6); if (quiet&&hi==n&&m>0) { double q=0; for (auto &k:id.k) q+=k.x; T y; x.getElement(n-1,y); VM_CHECK(fabs(re(y)-q)<1e-4,w.str()<<"the sum is "<<re(y)<<" instead of "<<q); }
      if (over) { s.terminated(false); VM_CHECK(!s.terminated()&&!em->terminated(),"termination cannot be reset"); } }
    (void)nl;
  }
  template<class T> void steps(Communicator &cm,const std::vector<int> &d,int ts,int withev,int dep) {
    int me=cm.rank(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo; static const int TT[]={1,4,7},MM[]={1,2,3,50};
    Odo o(std::vector<int>(dep,12)); do { label("solves "+o.str()); Prob<T> p; p.n=n; p.lo=lo; p.hi=hi; p.k.resize(n-1); for (int i=0;i<n-1;i++) p.k[i].init('n',i,1);
      typedef DAESolverT<T> S; typename S::JacobianBuilder jb=boost::ref(p); typename S::FunctionBuilder fb=boost::ref(p); std::unique_ptr<MatrixT<T> > J; std::unique_ptr<S> s; if (withev) { J.reset(new MatrixT<T>(cm,m,m,Sparse)); s.reset(new S(cm,m,J.get(),jb,fb,typename S::EventManagerPtr())); } else s.reset(new S(cm,m,jb,fb)); s->configure(config(cm,body(ts,0)));
      npre=npost=0; order=""; typename S::StepFunction f1=[this](const double&t){onpre(t);},f2=[this](const double&t){onpost(t);}; s->preStep(f1); s->postStep(f2);
      VectorT<T> x(cm,m); double sum=0; for (int i=0;i<n-1;i++) sum+=start(i); for (int i=lo;i<hi;i++) x.setElement(i,T(i<n-1?start(i):sum)); x.ready(); double t0=withev?3.0:0.0; s->initialize(t0,0.25,x); int at=0;
      for (int k=0;k<dep;k++) { int q=o.d[k],to=at+TT[q%3],mx=MM[q/3],st=std::min(mx,to-at); double tt=t0+0.25*to; int ms=mx; int before=npre; s->solve(tt,ms); at+=st; VM_CHECK(fabs(tt-t0-0.25*at)<1e-9,"solve "<<k<<" until "<<t0+0.25*to<<" with at most "<<mx<<" steps ends at "<<tt<<" instead of "<<t0+0.25*at); VM_CHECK(ms==st,"solve "<<k<<" until "<<t0+0.25*to<<" with at most "<<mx<<" steps reports "<<ms<<" steps instead of "<<st); VM_CHECK(npre-before==st&&npost==npre&&order.empty(),"calls before and after steps: "<<npre<<" "<<npost<<" "<<order); VM_CHECK(fabs(post-tt)<1e-9,"last call after a step has time "<<post);
        double q2=0; for (int i=0;i<n-1;i++) q2+=start(i)+speed(i,1)*0.25*at; for (int i=lo;i<hi;i++) { T y; x.getElement(i,y); double want=i<n-1?start(i)+speed(i,1)*0.25*at:q2; VM_CHECK(fabs(re(y)-want)<1e-6,"component "<<i<<" is "<<re(y)<<" instead of "<<want); } }
      if (me==0) count_sub(1,cm.size()>1); } while (o.next());
  }
  static std::vector<double> outs(int out) { return out?std::vector<double>{2.0}:std::vector<double>{0.3,0.71,0.95,1.4,2.0}; }
  // PETSc does not locate events that are very close to each other or to an output time
  static bool clear(const std::string &kinds,int sp,int out) { if (!out&&kinds.find_first_of("rbu")!=std::string::npos) return false; Ideal id; id.t=0; id.ended=false; id.k.resize(kinds.size()); for (size_t i=0;i<kinds.size();i++) id.k[i].init(kinds[i],i,sp); std::vector<double> ts(1,0.0); for (double t:outs(out)) for (int again=0;again<2;again++) { id.run(t); if (!id.ended) { ts.push_back(t); break; } id.ended=false; } for (auto &l:id.log) ts.push_back(l.t); for (size_t i=0;i<ts.size();i++) for (size_t j=0;j<i;j++) { double d=fabs(ts[i]-ts[j]); if (d>1e-7&&d<0.02) return false; if (d<=1e-7&&j<ts.size()-id.log.size()) return false; } return true; }
  template<class T> void all(Communicator &cm,const Case &c) {
    std::vector<int> d=ints(c.gets("d")); int ts=c.geti("ts"),ad=c.geti("ad"),sp=c.geti("sp"),out=c.geti("out"); if (c.gets("w")=="steps") { steps<T>(cm,d,ts,out,c.geti("sp")); return; }
    int n=0; for (int i:d) n+=i; int L=strlen(KINDS); Odo o(std::vector<int>(n-1,L)); do { std::string k; for (int i=0;i<n-1;i++) k+=KINDS[o.d[i]]; if (!clear(k,sp,out)) continue; for (int rev=0;rev<(n>2?2:1);rev++) { label("events "+k+(rev?" reversed":"")); ev<T>(cm,d,k,ts,ad,sp,out,rev); if (cm.rank()==0) count_sub(1,cm.size()>1); } } while (o.next());
  }
  bool capture_stdout() const override { return true; }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); {
      { Communicator world; gridpack::math::Initialize(0,0); int cc=c.geti("comm"); Communicator cm=cc?world.split(rank>=cc-1):world;
        if (!cc||rank>=cc-1) { try { if (c.geti("ty")==0) all<CT>(cm,c); else all<double>(cm,c); } catch (std::exception &e) { fail(std::string("exception: ")+e.what()); } } 
        gridpack::math::Finalize(); }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new DS; }
