// Nonlinear solvers (PETSc and Newton-Raphson) against systems with a known
// solution, for every short sequence of uses and every distribution.
// USES: parallel timer environment configuration math
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/math/math.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator;
using gridpack::utility::Configuration;
using namespace gridpack::math;
typedef gridpack::ComplexType CT;

template<class T> T val(int s,int i); 
template<> CT val<CT>(int s,int i) { return CT(1.0+0.125*((s*7+i*3)%11),-0.5+0.125*((s*5+i*11)%7)); }
template<> double val<double>(int s,int i) { return 0.75+0.125*((s*7+i*3)%11); }
// F_i = 6 x_i + x_i^2/2 + x_{i+1}^2/4 + x_i x_{i+2}/4 - c_i, c such that x=r is a solution
template<class T> struct Sys { int n,s; std::vector<T> r,c; int nf,nj; 
  void set(int n_,int s_) { n=n_; s=s_; nf=nj=0; r.resize(n); c.assign(n,T(0)); for (int i=0;i<n;i++) r[i]=val<T>(s,i); std::vector<T> f(n); for (int i=0;i<n;i++) f[i]=F(r,i); c=f; }
  T F(const std::vector<T> &x,int i) const { T a=x[i],b=x[(i+1)%n],d=x[(i+2)%n]; return 6.0*a+0.5*a*a+0.25*b*b+0.25*a*d-c[i]; }
  T J(const std::vector<T> &x,int i,int j) const { T a=x[i],b=x[(i+1)%n],d=x[(i+2)%n],v(0); if (j==i) v+=6.0+a+0.25*d; if (j==(i+1)%n) v+=0.5*b; if (j==(i+2)%n) v+=0.25*a; return v; }
  void operator()(const VectorT<T> &X,MatrixT<T> &M) { nj++; std::vector<T> x(n); X.getAllElements(&x[0]); int lo,hi; M.localRowRange(lo,hi); for (int i=lo;i<hi;i++) for (int j=0;j<n;j++) M.setElement(i,j,J(x,i,j)); M.ready(); }
  void operator()(const VectorT<T> &X,VectorT<T> &f) { nf++; std::vector<T> x(n); X.getAllElements(&x[0]); int lo,hi; f.localIndexRange(lo,hi); for (int i=lo;i<hi;i++) f.setElement(i,F(x,i)); f.ready(); }
};
static const char *SN[]={"","-snes_linesearch_type basic","-snes_linesearch_type l2","-snes_linesearch_type cp","-snes_type newtontr","-snes_lag_jacobian 2","-ksp_type bcgs -pc_type jacobi","-snes_type nrichardson -npc_snes_type newtonls","-snes_type ksponly -snes_max_it 1"};
static const char *OPS="szkcvnJt";
struct NS : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const char *what,const std::string &d,int depth,int nr,int fs,int part,int parts,int comm=0,int opt=0) { for (int ty=0;ty<2;ty++) { Case c; c.np=np; c.set("w",what).set("d",d).set("ty",ty).set("n",depth).set("nr",nr).set("fs",fs).set("part",part).set("of",parts).set("comm",comm).set("opt",opt); emit(c); } };
    for (int o=1;o<8;o++) for (const char *d:{"3","2,1","0,3","2,0,1"}) add(ints(d).size(),"seq",d,th?4:3,0,0,0,1,0,o);
    for (int nr=0;nr<2;nr++) for (int fs=0;fs<=nr;fs++) {
      for (const char *d:{"3","1"}) add(1,"seq",d,3,nr,fs,0,1);
      for (const char *d:{"2,1","0,3","3,0"}) add(2,"seq",d,th?4:3,nr,fs,0,1);
      for (const char *d:{"1,0,2","0,0,3","1,1,1"}) add(3,"seq",d,th?4:3,nr,fs,0,1);
      add(4,"seq","0,2,0,1",3,nr,fs,0,1); add(3,"seq","2,1",3,nr,fs,0,1,2); add(2,"seq","2,2",3,nr,fs,0,1); 
      for (int p=0;p<16;p++)  { add(1,"seq","2",4,nr,fs,p,16); if (th) add(2,"seq","1,2",4,nr,fs,p,16); }
      for (const char *d:{"1","3","2,1","0,3","1,1,1"}) { add(ints(d).size(),"few",d,0,nr,fs,0,1); add(ints(d).size(),"set",d,0,nr,fs,0,1); add(ints(d).size(),"nan",d,0,nr,fs,0,1); }
      for (int ty=0;ty<2;ty++) { Case c; c.np=2; c.explore=PREEMPT_BOUND; c.bound=1; c.set("w","seq").set("d","1,1").set("ty",ty).set("n",0).set("nr",nr).set("fs",fs).set("o","s").set("vmonly",1); if (th) emit(c); }
    }
  }
  int serial=0;
  Configuration::CursorPtr config(Communicator &cm,const std::string &body) { Configuration *c=Configuration::configuration(); { int m; MPI_Allreduce(&serial,&m,1,MPI_INT,MPI_MAX,static_cast<MPI_Comm>(cm)); serial=m+1; } std::ostringstream k; k<<"T"<<serial; std::vector<std::string> s(1,"<"+k.str()+">"+body+"</"+k.str()+">"); c->openStringFile(s,cm); return c->getCursor(k.str()); }
  static std::string body(int nr,int fs,double stol,double ftol,int its,int opt=0) { std::ostringstream o; const char *k=nr?"NewtonRaphsonSolver":"NonlinearSolver"; o<<"<"<<k<<"><SolutionTolerance>"<<stol<<"</SolutionTolerance><FunctionTolerance>"<<ftol<<"</FunctionTolerance><MaxIterations>"<<its<<"</MaxIterations>"; if (nr) o<<"<LinearSolver><SolutionTolerance>1e-13</SolutionTolerance><RelativeTolerance>1e-11</RelativeTolerance><MaxIterations>100</MaxIterations>"<<(fs?"<ForceSerial>true</ForceSerial>":"")<<"</LinearSolver>"; else o<<"<PETScOptions>-ksp_rtol 1e-11 -ksp_atol 1e-13 "<<SN[opt]<<"</PETScOptions>"; o<<"</"<<k<<">"; return o.str(); }
  template<class T> NonlinearSolverT<T> *mk(int nr,Communicator &cm,int m,Sys<T> &y,MatrixT<T> *J) { typename NonlinearSolverT<T>::JacobianBuilder j=boost::ref(y); typename NonlinearSolverT<T>::FunctionBuilder f=boost::ref(y); if (nr) return J?new NewtonRaphsonSolverT<T>(*J,j,f):new NewtonRaphsonSolverT<T>(cm,m,j,f); return J?new NonlinearSolverT<T>(*J,j,f):new NonlinearSolverT<T>(cm,m,j,f); }
  // solve; the outcome has to be the same everywhere; -1: exception, else the error
  template<class T> double attempt(NonlinearSolverT<T> &S,VectorT<T> &x,Sys<T> &y,int lo,int hi,Communicator &cm,const std::string &w) {
    int ok=1,t=0,np=cm.size(); try { S.solve(x); } catch (gridpack::Exception &) { ok=0; } MPI_Allreduce(&ok,&t,1,MPI_INT,MPI_SUM,static_cast<MPI_Comm>(cm)); VM_CHECK(t==0||t==np,w<<": "<<t<<" of "<<np<<" processes got a solution, the others an exception"); if (!ok) return -1;
    std::vector<T> r(y.n); x.getAllElements(&r[0]); double e=0; for (int i=0;i<y.n;i++) { double d=std::abs(r[i]-y.r[i]); if (!(d<=e)) e=d; } (void)lo; (void)hi; return e; }
  template<class T> void guess(VectorT<T> &x,const Sys<T> &y,int k,int lo,int hi) { for (int i=lo;i<hi;i++) x.setElement(i,y.r[i]+val<T>(k+3,i)*(k%2?0.25:-0.5)); x.ready(); }
  static void where(const std::vector<int> &d,int me,int &n,int &lo,int &hi) { n=lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } hi=lo+d[me]; }
  template<class T> void seq(Communicator &cm,const std::vector<int> &d,const std::string &ops,int nr,int fs,int opt) {
    int n,lo,hi; where(d,cm.rank(),n,lo,hi); int m=hi-lo,s=1; Sys<T> y; y.set(n,s); Configuration::CursorPtr cp=config(cm,body(nr,fs,1e-10,1e-10,50,opt)); std::unique_ptr<MatrixT<T> > J; std::unique_ptr<NonlinearSolverT<T> > S(mk<T>(nr,cm,m,y,0)); S->configure(cp); std::unique_ptr<VectorT<T> > x(new VectorT<T>(cm,m)); guess(*x,y,0,lo,hi); int k=0;
    for (char o:ops) { k++; bool solve=true; switch (o) {
        case 's': guess(*x,y,k,lo,hi); break;
        case 'z': x->zero(); x->ready(); break;
        case 'k': break; // from where the last one ended
        case 'c': y.set(n,++s); solve=false; break;
        case 'v': x.reset(new VectorT<T>(cm,m)); guess(*x,y,k,lo,hi); solve=false; break;
        case 'n': S.reset(mk<T>(nr,cm,m,y,0)); S->configure(cp); solve=false; break;
        case 'J': S.reset(); J.reset(new MatrixT<T>(cm,m,m,Sparse)); S.reset(mk<T>(nr,cm,m,y,J.get())); S->configure(cp); solve=false; break;
        case 't': S->tolerance(1e-12); S->maximumIterations(60); VM_CHECK(S->tolerance()==1e-12&&S->maximumIterations()==60,"tolerance and iterations just set are not reported"); solve=false; break; }
      if (!solve) continue; y.nf=y.nj=0; double e=attempt<T>(*S,*x,y,lo,hi,cm,"solving"); VM_CHECK(e>=0,"no solution found"); VM_CHECK(e<=1e-7,"solution is off by "<<e); VM_CHECK(o=='k'||(y.nf>0&&y.nj>0),"solved without evaluating the system"); }
  }
  template<class T> void few(Communicator &cm,const std::vector<int> &d,int nr,int fs) {
    int n,lo,hi; where(d,cm.rank(),n,lo,hi); int m=hi-lo; Sys<T> y; y.set(n,1); bool fine=false; VectorT<T> x(cm,m);
    for (int its=1;its<=12;its++) { std::ostringstream w; w<<its<<" iterations"; label(w.str()); std::unique_ptr<NonlinearSolverT<T> > S(mk<T>(nr,cm,m,y,0)); S->configure(config(cm,body(nr,fs,1e-9,1e-9,its))); VM_CHECK(S->maximumIterations()==its&&S->tolerance()==1e-9,"configured iterations are "<<S->maximumIterations()<<", tolerance "<<S->tolerance()); for (int k=0;k<2;k++) { guess(x,y,2*k,lo,hi); double e=attempt<T>(*S,x,y,lo,hi,cm,w.str()); VM_CHECK(e<=1e-6,w.str()<<": the solution returned is off by "<<e); fine=e>=0; if (its<=1) VM_CHECK(!fine,w.str()<<" cannot be enough"); } if (cm.rank()==0) count_sub(1,cm.size()>1); }
    VM_CHECK(fine,"no solution in 12 iterations");
  }
  template<class T> void setters(Communicator &cm,const std::vector<int> &d,int nr,int fs) {
    int n,lo,hi; where(d,cm.rank(),n,lo,hi); int m=hi-lo; Sys<T> y; y.set(n,1); VectorT<T> x(cm,m);
    for (int k=0;k<16;k++) { int i1=k&1?50:1,i2=k&2?50:1; double t1=k&4?1e-9:1e6,t2=k&8?1e-9:1e6; std::ostringstream w; w<<"set to "<<i1<<","<<t1<<" then "<<i2<<","<<t2; label(w.str()); std::unique_ptr<NonlinearSolverT<T> > S(mk<T>(nr,cm,m,y,0)); S->configure(config(cm,body(nr,fs,t1,1e-12,i1)));
      for (int r=0;r<2;r++) { int it=r?i2:i1; double t=r?t2:t1; if (r) { S->tolerance(t); S->maximumIterations(it); } guess(x,y,0,lo,hi); double e=attempt<T>(*S,x,y,lo,hi,cm,w.str()); bool ok=t>1||it>1; VM_CHECK((e>=0)==ok,w.str()<<": solving "<<(r?"after the change ":"")<<(ok?"fails":"succeeds")); if (ok&&t<1) VM_CHECK(e<1e-6,w.str()<<": solution is off by "<<e); if (t>1) VM_CHECK(e>1e-6,w.str()<<": more done than asked for"); }
      if (cm.rank()==0) count_sub(1,cm.size()>1); }
  }
  // a system that becomes undefined has no solution
  template<class T> void nans(Communicator &cm,const std::vector<int> &d,int nr,int fs) {
    int n,lo,hi; where(d,cm.rank(),n,lo,hi); int m=hi-lo; VectorT<T> x(cm,m);
    for (int at=0;at<n;at++) { Sys<T> y; y.set(n,1); y.c[at]=T(std::numeric_limits<double>::infinity()); std::unique_ptr<NonlinearSolverT<T> > S(mk<T>(nr,cm,m,y,0)); S->configure(config(cm,body(nr,fs,1e-9,1e-9,20))); guess(x,y,0,lo,hi); std::ostringstream w; w<<"equation "<<at<<" without a finite value"; label(w.str()); double e=attempt<T>(*S,x,y,lo,hi,cm,w.str()); VM_CHECK(e<0,w.str()<<": a solution is returned"); if (cm.rank()==0) count_sub(1,cm.size()>1); }
  }
  template<class T> void all(Communicator &cm,const Case &c) {
    std::string w=c.gets("w"); int n=c.geti("n"),part=c.geti("part"),of=c.geti("of",1),fs=c.geti("fs"),nr=c.geti("nr"); std::vector<int> d=ints(c.gets("d"));
    if (w=="few") { few<T>(cm,d,nr,fs); return; } if (w=="set") { setters<T>(cm,d,nr,fs); return; } if (w=="nan") { nans<T>(cm,d,nr,fs); return; }
    if (c.gets("o").size()) { seq<T>(cm,d,c.gets("o"),nr,fs,0); return; } int L=strlen(OPS); long tot=1; for (int i=0;i<n;i++) tot*=L;
    for (long k=part;k<tot;k+=of) { std::string o; long q=k; for (int i=0;i<n;i++,q/=L) o+=OPS[q%L]; if (std::string("szk").find(o.back())==std::string::npos) continue; label("operations "+o); seq<T>(cm,d,o,nr,fs,c.geti("opt")); if (cm.rank()==0) count_sub(1,cm.size()>1); }
  }
  bool capture_stdout() const override { return true; }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); {
      { Communicator world; gridpack::math::Initialize(0,0); int cc=c.geti("comm"); Communicator cm=cc?world.split(rank>=cc-1):world;
        if (!cc||rank>=cc-1) { try { if (c.geti("ty")==0) all<CT>(cm,c); else all<double>(cm,c); } catch (std::exception &e) { fail(std::string("exception: ")+e.what()); } } 
        gridpack::math::Finalize(); }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new NS; }
