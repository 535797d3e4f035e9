// Linear solvers against a dense solution, for every short sequence of uses,
// every distribution of the rows and every way of configuring them.
// USES: parallel timer environment configuration math
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/math/vector.hpp"
#include "gridpack/math/matrix.hpp"
#include "gridpack/math/linear_solver.hpp"
#include "gridpack/math/linear_matrix_solver.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator;
using gridpack::utility::Configuration;
using namespace gridpack::math;
typedef gridpack::ComplexType CT;

template<class T> T val(int s,int i,int j=0); 
template<> CT val<CT>(int s,int i,int j) { return CT(1.0+0.25*((s*7+i*3+j*5)%11),-0.5+0.125*((s*5+i*11+j*7)%13)); }
template<> double val<double>(int s,int i,int j) { return (((s+i+j)%3==1)?-1:1)*(0.75+0.25*((s*7+i*3+j*5)%11)); }
template<class T> struct D { int m,n; std::vector<T> a; D(int m_=0,int n_=0):m(m_),n(n_),a(m_*n_,T(0)) {} T &operator()(int i,int j) { return a[i*n+j]; } T operator()(int i,int j) const { return a[i*n+j]; } };
template<class T> std::vector<T> dense(D<T> a,std::vector<T> b) { int n=a.m; for (int k=0;k<n;k++) { int p=k; for (int i=k;i<n;i++) if (std::abs(a(i,k))>std::abs(a(p,k))) p=i; for (int j=0;j<n;j++) std::swap(a(k,j),a(p,j)); std::swap(b[k],b[p]); for (int i=k+1;i<n;i++) { T f=a(i,k)/a(k,k); for (int j=k;j<n;j++) a(i,j)-=f*a(k,j); b[i]-=f*b[k]; } } for (int i=n-1;i>=0;i--) { for (int j=i+1;j<n;j++) b[i]-=a(i,j)*b[j]; b[i]/=a(i,i); } return b; }
static const char *OPS="sgkremMnxb";
static const char *OPTS[]={"","-ksp_type gmres -pc_type none","-ksp_type bcgs -pc_type jacobi","-ksp_type preonly -pc_type lu","-ksp_type fgmres -pc_type redundant"};

// what is left on the stack is arbitrary
__attribute__((noinline)) static void dirty(int k) { volatile double a[4096]; for (int i=0;i<4096;i++) a[i]=k==0?0.0:k==1?3.0:k==2?1e300:-7.5; asm volatile(""::"r"(a):"memory"); }
struct LS : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const char *what,const std::string &d,int depth,int fs,int part,int parts,int opt=0,int comm=0) { for (int ty=0;ty<2;ty++) { Case c; c.np=np; c.set("w",what).set("d",d).set("ty",ty).set("n",depth).set("fs",fs).set("part",part).set("of",parts).set("opt",opt).set("comm",comm); if (std::string(what)=="lmd") c.set("vmonly",1); emit(c); } };
    // fs: bit 0 collect the system on every process, bit 1 the matrix does not change, bit 2 start from zero
    for (int fs=0;fs<8;fs++) {
      for (const char *d:{"3","1"}) add(1,"seq",d,2,fs,0,1);
      for (const char *d:{"2,1","0,3","3,0"}) add(2,"seq",d,2,fs,0,1);
      for (const char *d:{"1,0,2","0,0,3","1,1,1"}) add(3,"seq",d,2,fs,0,1);
      add(4,"seq","0,2,0,1",th?2:1,fs,0,1); add(3,"seq","2,1",2,fs,0,1,0,2);
      for (int p=0;p<8;p++) { add(2,"seq","2,1",3,fs,p,8); add(3,"seq","2,0,1",3,fs,p,8); }
      for (int p=0;p<64;p++) if (th||p%16==fs) add(2,"seq","1,2",4,fs,p,64); if (th) for (int p=0;p<64;p++) { add(3,"seq","1,0,2",4,fs,p,64); add(1,"seq","3",4,fs,p,64); }
      for (int o=1;o<5;o++) { if (o==3&&(fs&5)!=5) continue; add(2,"seq","2,2",th?3:2,fs,0,1,o); add(3,"seq","1,0,2",2,fs,0,1,o); }
      for (const char *d:{"4","2,2","0,4","1,0,3"}) add(ints(d).size(),"hard",d,0,fs,0,1);
    }
    for (const char *d:{"3","2,1","0,3","1,1,1"}) { add(ints(d).size(),"set",d,0,0,0,1); if (ints(d).size()>1) add(ints(d).size(),"set",d,0,1,0,1); add(ints(d).size(),"two",d,0,0,0,1); }
    for (const char *d:{"1","4","6"}) for (int o=0;o<6;o++) for (int p=0;p<2;p++) add(1,"lms",d,p,0,0,1,o);
    for (const char *d:{"1","4","2,2","1,3","4,0","0,3","1,1,2","2,0,2","0,0,3"}) for (int o=0;o<6;o++) { add(ints(d).size(),"lmd",d,0,0,0,1,o); if (ints(d).size()==2) add(3,"lmd",d,0,0,0,1,o,2); }
    for (int fs=0;fs<8;fs++) for (int ty=0;ty<2;ty++) for (const char *o:{"s","ge","sms","M"}) { Case c; c.np=2; c.explore=PREEMPT_BOUND; c.bound=th?2:1; c.set("w","seq").set("d","1,1").set("ty",ty).set("n",0).set("o",o).set("fs",fs).set("vmonly",1); emit(c); }
  }
  std::shared_ptr<Configuration> cfg; int serial=0;
  Configuration::CursorPtr config(Communicator &cm,const std::string &key,const std::string &body) { Configuration *c=Configuration::configuration(); { int m; MPI_Allreduce(&serial,&m,1,MPI_INT,MPI_MAX,static_cast<MPI_Comm>(cm)); serial=m+1; } std::ostringstream k; k<<"T"<<serial; std::vector<std::string> s(1,"<"+k.str()+"><"+key+">"+body+"</"+key+"></"+k.str()+">"); c->openStringFile(s,cm); return c->getCursor(k.str()); }
  static std::string body(int fs,double tol,int its,const std::string &opts) { std::ostringstream o; o<<"<SolutionTolerance>"<<tol*1e-3<<"</SolutionTolerance><RelativeTolerance>"<<tol<<"</RelativeTolerance><MaxIterations>"<<its<<"</MaxIterations>"; if (fs&1) o<<"<ForceSerial>true</ForceSerial>"; if (fs&2) o<<"<SerialMatrixConstant>true</SerialMatrixConstant>"; if (fs&4) o<<"<InitialGuessZero>true</InitialGuessZero>"; if (opts.size()) o<<"<PETScOptions>\n  "<<opts<<"\n</PETScOptions>"; return o.str(); }
  template<class T> D<T> coeff(int s,int n,bool hard=false) { D<T> a(n,n); for (int i=0;i<n;i++) { double r=0; for (int j=0;j<n;j++) if (i!=j&&(hard||(s+i*5+j*7)%3)) { a(i,j)=val<T>(s,i,j)*(hard?1.0:0.3); r+=std::abs(a(i,j)); } a(i,i)=val<T>(s+1,i)*(hard?0.1:1.0)+T(hard?0:r); if (!hard&&s%2) a(i,i)*=T(-1); } return a; }
  template<class T> void put(MatrixT<T> &A,const D<T> &a,int lo,int hi) { for (int i=lo;i<hi;i++) for (int j=0;j<a.n;j++) A.setElement(i,j,a(i,j)); A.ready(); }
  template<class T> void putv(VectorT<T> &v,const std::vector<T> &r,int lo,int hi) { for (int i=lo;i<hi;i++) v.setElement(i,r[i]); v.ready(); }
  template<class T> void same(VectorT<T> &v,const std::vector<T> &r,int lo,int hi,double tol,const char *what) { double mx=0; for (auto &x:r) mx=std::max(mx,std::abs(x)); VM_CHECK(v.size()==(int)r.size(),"size of "<<what); for (int i=lo;i<hi;i++) { T x; v.getElement(i,x); VM_CHECK(std::abs(x-r[i])<=tol*(mx+1e-30),what<<": element "<<i<<" is "<<x<<" instead of "<<r[i]); } }
  template<class T> void seq(Communicator &cm,const std::vector<int> &d,const std::string &ops,int fs,const std::string &opts) {
    int me=cm.rank(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo,s=1;
    D<T> a=coeff<T>(s,n); MatrixT<T> A(cm,m,m,Sparse); put(A,a,lo,hi); Configuration::CursorPtr cp=config(cm,"LinearSolver",body(fs,1e-11,200,opts));
    std::unique_ptr<LinearSolverT<T> > S; auto make=[&]() { S.reset(); S.reset(new LinearSolverT<T>(A)); S->configure(cp); }; make();
    std::unique_ptr<VectorT<T> > x(new VectorT<T>(cm,m)),b(new VectorT<T>(cm,m)); x->zero(); x->ready(); bool solved=false,stale=false; int step=1; std::vector<T> rb(n),z(n),ref(n);
    for (char o:ops) { step++; std::vector<T> g(n); for (int i=0;i<n;i++) { rb[i]=val<T>(step,i); g[i]=val<T>(step+50,i)*100.0; }
      if (stale&&o!='n') return; // a constant matrix has changed
      switch (o) {
        case 'm': s++; a=coeff<T>(s,n); put(A,a,lo,hi); solved=false; if (fs&2) stale=true; continue;
        case 'n': make(); solved=false; stale=false; continue;
        case 'x': x.reset(new VectorT<T>(cm,m)); x->zero(); x->ready(); continue;
        case 'b': b.reset(b->clone()); x.reset(x->clone()); continue;
        case 'M': { int k=me+1,nk=cm.size()*(cm.size()+1)/2,c0=me*(me+1)/2; (void)c0; std::unique_ptr<MatrixT<T> > B(new MatrixT<T>(cm,m,k,step%2?Dense:Sparse)); D<T> rB(n,nk); for (int i=0;i<n;i++) for (int j=0;j<nk;j++) { rB(i,j)=val<T>(step,i,j); if (i>=lo&&i<hi) B->setElement(i,j,rB(i,j)); } B->ready(); std::unique_ptr<MatrixT<T> > X(S->solve(*B)); VM_CHECK(X->rows()==n&&X->cols()==nk&&X->localRows()==m,"solution matrix is "<<X->rows()<<"x"<<X->cols()); VM_CHECK(X->storageType()==Dense,"solution matrix is not dense");
          for (int j=0;j<nk;j++) { std::vector<T> q(n); for (int i=0;i<n;i++) q[i]=rB(i,j); q=dense(a,q); double mx=0; for (auto &y:q) mx=std::max(mx,std::abs(y)); for (int i=lo;i<hi;i++) { T y; X->getElement(i,j,y); VM_CHECK(std::abs(y-q[i])<=1e-7*mx,"solution of column "<<j<<": element "<<i<<" is "<<y<<" instead of "<<q[i]); B->getElement(i,j,y); VM_CHECK(y==rB(i,j),"right hand side "<<j<<" changed"); } } solved=true; } continue;
        case 'r': case 'e': if (!solved) return; break; }
      putv(*b,rb,lo,hi); if (o=='s'||o=='r') { x->zero(); x->ready(); } if (o=='g'||o=='e') putv(*x,g,lo,hi);
      if (o=='r'||o=='e') S->resolve(*b,*x); else S->solve(*b,*x);
      solved=true; ref=dense(a,rb); same(*x,ref,lo,hi,1e-7,"solution"); same(*b,rb,lo,hi,0,"right hand side after solving");
      for (int i=lo;i<hi;i++) for (int j=0;j<n;j++) { T y; A.getElement(i,j,y); VM_CHECK(y==a(i,j),"solving changed the coefficient matrix"); } }
  }
  // too few iterations, or no solution at all: no wrong answer, and the same outcome on every process
  template<class T> int attempt(LinearSolverT<T> &S,VectorT<T> &b,VectorT<T> &x,const D<T> &a,const std::vector<T> &rb,int lo,int hi,const std::string &what,double rtol) {
    Communicator cm=b.communicator(); int ok=1; try { S.solve(b,x); } catch (gridpack::Exception &) { ok=0; }
    int np=cm.size(); std::vector<int> oks; { int t=0; MPI_Allreduce(&ok,&t,1,MPI_INT,MPI_SUM,static_cast<MPI_Comm>(cm)); VM_CHECK(t==0||t==np,what<<": "<<t<<" of "<<np<<" processes got a solution, the others an exception"); }
    if (ok) { std::vector<T> r(rb.size()); x.getAllElements(&r[0]); double nb=0,nr=0; for (int i=0;i<a.m;i++) { T y=rb[i]; nb+=std::norm(y); for (int j=0;j<a.n;j++) y-=a(i,j)*r[j]; nr+=std::norm(y); } VM_CHECK(sqrt(nr)<=rtol*sqrt(nb),what<<": returned with a residual of "<<sqrt(nr)<<" for a right hand side of "<<sqrt(nb)); }
    return ok;
  }
  template<class T> void hard(Communicator &cm,const std::vector<int> &d,int fs) {
    int me=cm.rank(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo; D<T> a=coeff<T>(3,n,true); MatrixT<T> A(cm,m,m,Sparse); put(A,a,lo,hi); VectorT<T> b(cm,m),x(cm,m); std::vector<T> rb(n); for (int i=0;i<n;i++) rb[i]=val<T>(2,i); putv(b,rb,lo,hi);
    int good=0; for (int its=1;its<=n+2;its++) for (int g=0;g<2;g++) { std::ostringstream w; w<<its<<" iterations"; label(w.str()); LinearSolverT<T> S(A); S.configure(config(cm,"LinearSolver",body(fs,1e-9,its,"-ksp_type gmres -pc_type none"))); for (int k=0;k<2;k++) { if (g) x.fill(T(3)); else x.zero(); x.ready(); int ok=attempt<T>(S,b,x,a,rb,lo,hi,w.str(),1e-6); if (its>=n+1) VM_CHECK(ok,"GMRES finds no solution for "<<n<<" unknowns in "<<its<<" iterations"); good+=ok; } if (me==0) count_sub(1,cm.size()>1); }
    // singular
    label("singular matrix"); for (int j=0;j<n;j++) a(n-1,j)=T(0); put(A,a,lo,hi); { LinearSolverT<T> S(A); S.configure(config(cm,"LinearSolver",body(fs,1e-9,20,"-ksp_type gmres -pc_type none"))); x.zero(); x.ready(); int ok=attempt<T>(S,b,x,a,rb,lo,hi,"singular matrix",1e-6); VM_CHECK(!ok,"solution of an unsolvable system"); }
    if (me==0) count_sub(1,cm.size()>1);
  }
  // what is set after configuring has to count
  template<class T> void setters(Communicator &cm,const std::vector<int> &d,int fs) {
    int me=cm.rank(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo; D<T> a=coeff<T>(3,n,true); MatrixT<T> A(cm,m,m,Sparse); put(A,a,lo,hi); VectorT<T> b(cm,m),x(cm,m); std::vector<T> rb(n); for (int i=0;i<n;i++) rb[i]=val<T>(2,i); putv(b,rb,lo,hi);
    for (int k=0;k<16;k++) { int its=k&1?100:1,its2=k&2?100:1; double tol=k&4?1e-10:1e3,tol2=k&8?1e-10:1e3; std::ostringstream w; w<<"set to "<<its<<","<<tol<<" then "<<its2<<","<<tol2; label(w.str());
      LinearSolverT<T> S(A); std::ostringstream o; o<<"<RelativeTolerance>1e-12</RelativeTolerance><SolutionTolerance>"<<tol<<"</SolutionTolerance><MaxIterations>"<<its<<"</MaxIterations>"<<(fs&1?"<ForceSerial>true</ForceSerial>":"")<<"<PETScOptions>-ksp_type gmres -pc_type none</PETScOptions>"; S.configure(config(cm,"LinearSolver",o.str()));
      VM_CHECK(S.tolerance()==tol&&S.maximumIterations()==its,"configured tolerance is "<<S.tolerance()<<", iterations "<<S.maximumIterations());
      for (int r=0;r<2;r++) { double t=r?tol2:tol; int it=r?its2:its; if (r) { S.tolerance(t); S.maximumIterations(it); VM_CHECK(S.tolerance()==t&&S.maximumIterations()==it,"tolerance and iterations just set are not reported"); } x.zero(); x.ready(); int ok=attempt<T>(S,b,x,a,rb,lo,hi,w.str(),t>1?1e3:1e-7); VM_CHECK(ok==(t>1||it>1),w.str()<<": solving "<<(r?"after the change ":"")<<(ok?"succeeds":"fails")); if (t>1) { T y; bool zero=true; for (int i=lo;i<hi;i++) { x.getElement(i,y); zero=zero&&y==T(0); } VM_CHECK(zero,"more done than asked for"); } }
      if (me==0) count_sub(1,cm.size()>1); }
    { LinearSolverT<T> S(A); } // never configured
  }
  // two solvers, each with its own options
  template<class T> void two(Communicator &cm,const std::vector<int> &d) {
    int me=cm.rank(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo; D<T> a=coeff<T>(3,n,true); MatrixT<T> A(cm,m,m,Sparse); put(A,a,lo,hi); VectorT<T> b(cm,m),x(cm,m); std::vector<T> rb(n); for (int i=0;i<n;i++) rb[i]=val<T>(2,i); putv(b,rb,lo,hi);
    for (int ord=0;ord<4;ord++) for (int pf=0;pf<2;pf++) { std::string p1=pf?"<PETScPrefix>one</PETScPrefix>":"",p2=pf?"<PETScPrefix>two_</PETScPrefix>":""; std::ostringstream w; w<<"order "<<ord; label(w.str());
      auto c1=config(cm,"LinearSolver",p1+body(0,1e-10,100,"-ksp_type gmres -pc_type none -ksp_max_it 1")),c2=config(cm,"LinearSolver",p2+body(0,1e-10,100,"-ksp_type gmres -pc_type none")),c3=config(cm,"LinearSolver",body(0,1e-10,100,"-ksp_type gmres -ksp_max_it 1 -ksp_rtol 1e6 -pc_type none"));
      std::unique_ptr<LinearSolverT<T> > S1(new LinearSolverT<T>(A)),S2(new LinearSolverT<T>(A)),S3; if (ord&1) { S2->configure(c2); S1->configure(c1); } else { S1->configure(c1); S2->configure(c2); }
      auto t1=[&](LinearSolverT<T>&S,int want,double tol) { x.zero(); x.ready(); int ok=attempt<T>(S,b,x,a,rb,lo,hi,w.str(),tol); VM_CHECK(ok==want,w.str()<<": the options of one solver reach another: solving "<<(ok?"succeeds":"fails")); };
      t1(*S1,0,1e-7); t1(*S2,1,1e-7); if (ord&2) { S1.reset(); S3.reset(new LinearSolverT<T>(A)); S3->configure(c3); t1(*S3,1,1e7); t1(*S2,1,1e-7); S3.reset(); S1.reset(new LinearSolverT<T>(A)); S1->configure(c2); t1(*S1,1,1e-7); } else { t1(*S1,0,1e-7); t1(*S2,1,1e-7); S2.reset(); t1(*S1,0,1e-7); }
      if (me==0) count_sub(1,cm.size()>1); }
  }
  template<class T> void lms(Communicator &cm,int n,int ord,int piv) {
    static const char *O[]={"natural","nd","1wd","rcm","qmd","rowlength"}; 
    for (int fill=1;fill<=5;fill+=2) for (int st=0;st<2;st++) { D<T> a=coeff<T>(fill,n); MatrixT<T> A(cm,n,n,Sparse); put(A,a,0,n); LinearMatrixSolverT<T> S(A); std::ostringstream o; o<<"<Package>petsc</Package><Ordering>"<<O[ord]<<"</Ordering><Fill>"<<fill<<"</Fill>"<<(piv?"<Pivot>true</Pivot>":""); label(o.str()); S.configure(config(cm,"LinearMatrixSolver",o.str()));
      for (int k=1;k<=3;k++) { MatrixT<T> B(cm,n,k,Dense); D<T> rB(n,k); for (int i=0;i<n;i++) for (int j=0;j<k;j++) { rB(i,j)=val<T>(k,i,j); B.setElement(i,j,rB(i,j)); } B.ready(); dirty(fill/2+st); std::unique_ptr<MatrixT<T> > X(S.solve(B)); VM_CHECK(X->rows()==n&&X->cols()==k,"solution is "<<X->rows()<<"x"<<X->cols());
        for (int j=0;j<k;j++) { std::vector<T> q(n); for (int i=0;i<n;i++) q[i]=rB(i,j); q=dense(a,q); double mx=0; for (auto &y:q) mx=std::max(mx,std::abs(y)); for (int i=0;i<n;i++) { T y; X->getElement(i,j,y); VM_CHECK(std::abs(y-q[i])<=1e-9*mx,"solution of column "<<j<<": element "<<i<<" is "<<y<<" instead of "<<q[i]); B.getElement(i,j,y); VM_CHECK(y==rB(i,j),"right hand side changed"); } }
        X->scale(T(3)); D<T> other=coeff<T>(8,n); put(A,other,0,n); } // the solver has its own copy of the matrix
      count_sub(1,false); }
  }
  // the default package, in parallel
  template<class T> void lmd(Communicator &cm,const std::vector<int> &d,int ord) {
    static const char *O[]={"natural","nd","1wd","rcm","qmd","rowlength"}; int me=cm.rank(),np=cm.size(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo;
    for (int s=1;s<=3;s++) for (int kk=0;kk<3;kk++) { D<T> a=coeff<T>(s,n); MatrixT<T> A(cm,m,m,Sparse); put(A,a,lo,hi); LinearMatrixSolverT<T> S(A); std::ostringstream o; o<<"<Ordering>"<<O[ord]<<"</Ordering>"; label(o.str()); S.configure(config(cm,"LinearMatrixSolver",o.str()));
      for (int k=0;k<3;k++) { int lc=kk==0?m:kk==1?1+me:(me==0?3:0),nc=kk==0?n:kk==1?np*(np+1)/2:3; MatrixT<T> B(cm,m,lc,Dense); D<T> b(n,nc); for (int i=0;i<n;i++) for (int j=0;j<nc;j++) b(i,j)=val<T>(k,i,j); put(B,b,lo,hi); std::unique_ptr<MatrixT<T> > X(S.solve(B)); VM_CHECK(X->rows()==n&&X->cols()==nc&&X->localRows()==m,"solution is "<<X->rows()<<"x"<<X->cols()<<" with "<<X->localRows()<<" local rows");
        for (int j=0;j<nc;j++) { std::vector<T> q(n); for (int i=0;i<n;i++) q[i]=b(i,j); q=dense(a,q); double mx=0; for (auto &y:q) mx=std::max(mx,std::abs(y)); for (int i=lo;i<hi;i++) { T y; X->getElement(i,j,y); VM_CHECK(std::abs(y-q[i])<=1e-9*mx,"solution of column "<<j<<": element "<<i<<" is "<<y<<" instead of "<<q[i]); B.getElement(i,j,y); VM_CHECK(y==b(i,j),"right hand side changed"); } }
        X->scale(T(3)); put(A,coeff<T>(8,n),lo,hi); }
      if (me==0) count_sub(1,np>1); }
  }
  template<class T> void all(Communicator &cm,const Case &c) {
    std::string w=c.gets("w"); int n=c.geti("n"),part=c.geti("part"),of=c.geti("of",1),fs=c.geti("fs"); std::vector<int> d=ints(c.gets("d"));
    if (w=="hard") { hard<T>(cm,d,fs); return; } if (w=="set") { setters<T>(cm,d,fs); return; } if (w=="two") { two<T>(cm,d); return; } if (w=="lmd") { lmd<T>(cm,d,c.geti("opt")); return; } if (w=="lms") { lms<T>(cm,d[0],c.geti("opt"),n); return; }
    if (c.gets("o").size()) { seq<T>(cm,d,c.gets("o"),fs,""); return; } int L=strlen(OPS); long tot=1; for (int i=0;i<n;i++) tot*=L;
    for (long k=part;k<tot;k+=of) { std::string o; long q=k; for (int i=0;i<n;i++,q/=L) o+=OPS[q%L]; if (o.find_first_of("sgkM")==std::string::npos) continue; label("operations "+o); seq<T>(cm,d,o,fs,OPTS[c.geti("opt")]); if (cm.rank()==0) count_sub(1,cm.size()>1); }
  }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); {
      { Communicator world; gridpack::math::Initialize(0,0); int cc=c.geti("comm"); Communicator cm=cc?world.split(rank>=cc-1):world;
        if (!cc||rank>=cc-1) { try { if (c.geti("ty")==0) all<CT>(cm,c); else all<double>(cm,c); } catch (std::exception &e) { fail(std::string("exception: ")+e.what()); } } 
        gridpack::math::Finalize(); }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new LS; }
