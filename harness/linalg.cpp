// Distributed vectors and matrices against a dense reference, for every short
// sequence of operations and every distribution of the rows.
// USES: parallel timer environment configuration math
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include <unistd.h>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/math/vector.hpp"
#include "gridpack/math/matrix.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator;
using namespace gridpack::math;
typedef gridpack::ComplexType CT;

template<class T> struct Tr; 
template<> struct Tr<CT> { static CT mk(int s,int i,int j=0) { return CT(1.0+0.25*((s*7+i*3+j*5)%11),-0.5+0.125*((s*5+i*11+j*7)%13)); } static CT conj(CT x) { return std::conj(x); } static CT re(CT x) { return x.real(); } static CT im(CT x) { return x.imag(); } static const char*name() { return "complex"; } };
template<> struct Tr<double> { static double mk(int s,int i,int j=0) { return (((s+i+j)%3==1)?-1:1)*(0.75+0.25*((s*7+i*3+j*5)%11)); } static double conj(double x) { return x; } static double re(double x) { return x; } static double im(double x) { return 0; } static const char*name() { return "real"; } };
template<class T> bool near(T a,T b,double sc) { return std::abs(a-b)<=1e-9*(sc+std::abs(b)+1e-12); }

static const char *VOPS="sSraAzfkbnijepxuqmdcgwRoL";
static const char *MOPS="sSaAzikDrjneEpPVTMtCwL";

struct LA : Harness {
  std::string dir;
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const char *what,const std::string &dist,int depth,int part,int parts,int comm=0) { for (int ty=0;ty<2;ty++) { Case c; c.np=np; c.set("w",what).set("d",dist).set("ty",ty).set("n",depth).set("part",part).set("of",parts).set("comm",comm); emit(c); } };
    for (const char *d:{"3","1"}) add(1,"vec",d,2,0,1);
    for (const char *d:{"2,1","0,3","3,0"}) add(2,"vec",d,2,0,1);
    for (const char *d:{"1,0,2","0,0,3","1,1,1"}) add(3,"vec",d,2,0,1);
    add(4,"vec","0,2,0,1",th?2:1,0,1); add(3,"vec","2,1",2,0,1,2);
    for (int p=0;p<16;p++) { add(1,"vec","2",3,p,16); add(2,"vec","1,2",3,p,16); if (th) add(3,"vec","2,0,1",3,p,16); }
    for (int st=0;st<2;st++) {
      const char *w=st?"dense":"sparse"; 
      add(1,w,"3",2,0,1); for (const char *d:{"2,1","0,3","3,0"}) add(2,w,d,2,0,1); for (const char *d:{"1,0,2","0,0,3","1,1,1"}) add(3,w,d,th?2:1,0,1); add(4,w,"0,2,0,1",1,0,1); add(3,w,"2,1",2,0,1,2);
      for (int p=0;p<32;p++) if (th||p%16==0) { add(1,w,"2",3,p,32); add(2,w,"1,1",3,p,32); }
      // rectangular: local columns differ from local rows
      const char *r=st?"rdense":"rsparse"; add(1,r,"3/2",1,0,1); for (const char *d:{"2,1/1,1","1,2/0,4","3,0/1,1","0,2/3,0"}) add(2,r,d,1,0,1); for (const char *d:{"1,0,2/1,1,0","0,1,1/2,2,1"}) add(3,r,d,1,0,1);
    }
    for (int np=1;np<=3;np++) for (int k=0;k<2;k++) add(np,"make",k?"2":"4",1,0,1);
  }
  // ---- vectors
  template<class T> struct V { VectorT<T> *v; std::vector<T> r; int lo,hi; };
  template<class T> void checkv(VectorT<T> &v,const std::vector<T> &r,int lo,int hi) {
    int n=r.size(); double mx=0,s1=0,s2=0; for (auto &x:r) { mx=std::max(mx,std::abs(x)); s1+=std::abs(x); s2+=std::norm(x); }
    VM_CHECK(v.size()==n&&v.localSize()==hi-lo,"size of the vector is "<<v.size()<<", local "<<v.localSize()); int a,b; v.localIndexRange(a,b); VM_CHECK(a==lo&&b==hi,"local range of the vector is "<<a<<".."<<b<<" instead of "<<lo<<".."<<hi);
    for (int i=lo;i<hi;i++) { T x(77); v.getElement(i,x); VM_CHECK(near(x,r[i],mx),"element "<<i<<" is "<<x<<" instead of "<<r[i]); }
    std::vector<int> ix; std::vector<T> xs(hi-lo+1,T(77)); for (int i=hi-1;i>=lo;i--) ix.push_back(i); if (hi>lo) v.getElements(hi-lo,&ix[0],&xs[0]); for (int i=0;i<hi-lo;i++) VM_CHECK(near(xs[i],r[ix[i]],mx),"getElements gives "<<xs[i]<<" instead of "<<r[ix[i]]); VM_CHECK(xs[hi-lo]==T(77),"getElements writes too much");
    if (hi>lo) { std::vector<T> y(hi-lo+1,T(55)); v.getElementRange(lo,hi,&y[0]); for (int i=lo;i<hi;i++) VM_CHECK(near(y[i-lo],r[i],mx),"getElementRange gives "<<y[i-lo]<<" instead of "<<r[i]); VM_CHECK(y[hi-lo]==T(55),"getElementRange writes too much"); }
    std::vector<T> all(n+1,T(33)); v.getAllElements(&all[0]); for (int i=0;i<n;i++) VM_CHECK(near(all[i],r[i],mx),"getAllElements gives "<<all[i]<<" for element "<<i<<" instead of "<<r[i]); VM_CHECK(all[n]==T(33),"getAllElements writes too much");
    double n1=v.norm1(),n2=v.norm2(),ni=v.normInfinity(); VM_CHECK(near(n1,s1,s1),"norm1 is "<<n1<<" instead of "<<s1); VM_CHECK(near(n2,sqrt(s2),s1),"norm2 is "<<n2<<" instead of "<<sqrt(s2)); VM_CHECK(near(ni,mx,mx),"normInfinity is "<<ni<<" instead of "<<mx);
  }
  template<class T> void vec(Communicator &cm,const std::vector<int> &d,const std::string &ops) {
    int me=cm.rank(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo;
    std::unique_ptr<VectorT<T> > v(new VectorT<T>(cm,m)), w(new VectorT<T>(cm,m)); std::vector<T> r(n),rw(n); typedef Tr<T> X;
    for (int i=0;i<n;i++) { r[i]=X::mk(1,i); rw[i]=X::mk(2,i); } for (int i=lo;i<hi;i++) { v->setElement(i,r[i]); w->setElement(i,rw[i]); } v->ready(); w->ready(); int step=2;
    for (char o:ops) { step++; std::vector<int> ix; std::vector<T> xs; for (int i=hi-1;i>=lo;i--) { ix.push_back(i); xs.push_back(X::mk(step,i)); } std::vector<T> asc(xs.rbegin(),xs.rend()); ix.push_back(-7); xs.push_back(T(9)); asc.push_back(T(9)); T a=X::mk(step,99); std::vector<T> t(n); for (int i=0;i<n;i++) t[i]=X::mk(step,i);
      switch (o) {
        case 's': for (int i=lo;i<hi;i++) if (i%2==step%2) v->setElement(i,t[i]); v->ready(); for (int i=0;i<n;i++) if (i%2==step%2) r[i]=t[i]; break;
        case 'S': v->setElements(m,&ix[0],&xs[0]); v->ready(); r=t; break;
        case 'r': if (m) v->setElementRange(lo,hi,&asc[0]); v->ready(); r=t; break;
        case 'a': for (int i=lo;i<hi;i++) if (i%2!=step%2) { v->addElement(i,t[i]); v->addElement(i,a); } v->ready(); for (int i=0;i<n;i++) if (i%2!=step%2) r[i]+=t[i]+a; break;
        case 'A': v->addElements(m,&ix[0],&xs[0]); v->ready(); for (int i=0;i<n;i++) r[i]+=t[i]; break;
        case 'R': if (m) v->addElementRange(lo,hi,&asc[0]); v->ready(); for (int i=0;i<n;i++) r[i]+=t[i]; break;
        case 'z': v->zero(); for (auto &x:r) x=0; break;
        case 'f': v->fill(a); for (auto &x:r) x=a; break;
        case 'k': v->scale(a); for (auto &x:r) x*=a; break;
        case 'b': v->abs(); for (auto &x:r) x=std::abs(x); break;
        case 'n': v->conjugate(); for (auto &x:r) x=X::conj(x); break;
        case 'i': v->imaginary(); for (auto &x:r) x=X::im(x); break;
        case 'j': v->real(); for (auto &x:r) x=X::re(x); break;
        case 'e': v->exp(); for (auto &x:r) x=std::exp(x); break;
        case 'p': v->reciprocal(); for (auto &x:r) if (x!=T(0)) x=T(1)/x; break;
        case 'x': v->add(*w,a); for (int i=0;i<n;i++) r[i]+=a*rw[i]; break;
        case 'u': v->add(a); for (auto &x:r) x+=a; break;
        case 'q': v->equate(*w); r=rw; break;
        case 'm': v->elementMultiply(*w); for (int i=0;i<n;i++) r[i]*=rw[i]; break;
        case 'd': v->elementDivide(*w); for (int i=0;i<n;i++) r[i]/=rw[i]; break;
        case 'c': { std::unique_ptr<VectorT<T> > c(v->clone()); v->fill(T(5)); v.swap(c); } break;
        case 'g': { T *p=v->getLocalElements(); for (int i=0;i<m;i++) { VM_CHECK(near(p[i],r[lo+i],1+std::abs(r[lo+i])),"local array holds "<<p[i]<<" instead of "<<r[lo+i]); p[i]=t[lo+i]; } v->releaseLocalElements(p); r=t; } break;
        case 'w': { std::string f=dir+"/v"; v->saveBinary(f.c_str()); cm.barrier(); v->fill(T(3)); v->loadBinary(f.c_str()); cm.barrier(); } break;
        case 'o': { std::unique_ptr<VectorT<T> > c(add(*v,*w)), c2(abs(*v)), c3(conjugate(*v)); std::vector<T> q(r),q2(r),q3(r); for (int i=0;i<n;i++) { q[i]+=rw[i]; q2[i]=std::abs(r[i]); q3[i]=X::conj(r[i]); } checkv<T>(*c,q,lo,hi); checkv<T>(*c2,q2,lo,hi); checkv<T>(*c3,q3,lo,hi); add(*v,*w,*c2); checkv<T>(*c2,q,lo,hi); } break;
        case 'L': { std::unique_ptr<VectorT<T> > c(v->localClone()); checkv<T>(*c,r,0,n); c->fill(T(8)); } break;
      }
      double mx=0; for (auto &x:r) mx=std::max(mx,std::abs(x)); if (!(mx<1e60)) return; }
    checkv<T>(*v,r,lo,hi); checkv<T>(*w,rw,lo,hi);
  }
  // ---- matrices
  template<class T> struct D { int m,n; std::vector<T> a; D(int m_=0,int n_=0):m(m_),n(n_),a(m_*n_,T(0)) {} T &operator()(int i,int j) { return a[i*n+j]; } T operator()(int i,int j) const { return a[i*n+j]; } };
  static bool has(int s,int i,int j) { return i==j||((s*3+i*5+j*7)%3)!=0; }
  template<class T> void checkm(MatrixT<T> &A,const D<T> &r,int lo,int hi,bool dense,bool full=true) {
    double mx=0,s2=0; for (auto &x:r.a) { mx=std::max(mx,std::abs(x)); s2+=std::norm(x); }
    VM_CHECK(A.rows()==r.m&&A.cols()==r.n,"matrix is "<<A.rows()<<"x"<<A.cols()<<" instead of "<<r.m<<"x"<<r.n); VM_CHECK(A.localRows()==hi-lo,"matrix has "<<A.localRows()<<" local rows"); int a,b; A.localRowRange(a,b); VM_CHECK(a==lo&&b==hi,"local rows of the matrix are "<<a<<".."<<b<<" instead of "<<lo<<".."<<hi);
    for (int i=lo;i<hi;i++) for (int j=0;j<r.n;j++) { T x(77); A.getElement(i,j,x); VM_CHECK(near(x,r(i,j),mx),"element "<<i<<","<<j<<" is "<<x<<" instead of "<<r(i,j)); }
    double nn=A.norm2(); VM_CHECK(near(nn,sqrt(s2),mx),"norm2 is "<<nn<<" instead of "<<sqrt(s2)); VM_CHECK(A.storageType()==(dense?Dense:Sparse),"storage type");
    if (!full) return;
    if (hi>lo) { std::vector<int> ii,jj; std::vector<T> xs; for (int i=hi-1;i>=lo;i--) for (int j=0;j<r.n;j++) { ii.push_back(i); jj.push_back(j); } xs.assign(ii.size()+1,T(77)); A.getElements(ii.size(),&ii[0],&jj[0],&xs[0]); for (size_t k=0;k<ii.size();k++) VM_CHECK(near(xs[k],r(ii[k],jj[k]),mx),"getElements gives "<<xs[k]); VM_CHECK(xs[ii.size()]==T(77),"getElements writes too much"); }
  }
  // products with the parts a matrix is made of
  template<class T> void checkops(Communicator &cm,MatrixT<T> &A,const D<T> &r,int lo,int hi,int clo,int chi) {
    typedef Tr<T> X; double mx=0; for (auto &x:r.a) mx=std::max(mx,std::abs(x)); double sc=mx*5*r.n;
    VectorT<T> x(cm,chi-clo),y(cm,hi-lo); for (int i=clo;i<chi;i++) x.setElement(i,X::mk(31,i)); for (int i=lo;i<hi;i++) y.setElement(i,X::mk(32,i)); x.ready(); y.ready();
    auto cmp=[&](VectorT<T> *v,std::vector<T> q,int l,int h,const char *what) { std::unique_ptr<VectorT<T> > o(v); int a,b; v->localIndexRange(a,b); VM_CHECK(v->size()==(int)q.size()&&a==l&&b==h,what<<": result has size "<<v->size()<<" and local range "<<a<<".."<<b<<" instead of "<<q.size()<<", "<<l<<".."<<h); for (int i=l;i<h;i++) { T z; v->getElement(i,z); VM_CHECK(near(z,q[i],sc),what<<": element "<<i<<" is "<<z<<" instead of "<<q[i]); } };
    { std::vector<T> q(r.m,T(0)); for (int i=0;i<r.m;i++) for (int j=0;j<r.n;j++) q[i]+=r(i,j)*X::mk(31,j); cmp(multiply(A,x),q,lo,hi,"matrix times vector"); VectorT<T> *o=new VectorT<T>(cm,hi-lo); o->fill(T(4)); multiply(A,x,*o); cmp(o,q,lo,hi,"matrix times vector"); }
    { std::vector<T> q(r.n,T(0)); for (int i=0;i<r.m;i++) for (int j=0;j<r.n;j++) q[j]+=r(i,j)*X::mk(32,i); VectorT<T> *o=new VectorT<T>(cm,chi-clo); o->fill(T(4)); transposeMultiply(A,y,*o); cmp(o,q,clo,chi,"transposed matrix times vector"); cmp(transposeMultiply(A,y),q,clo,chi,"transposed matrix times vector (new)"); }
    for (int j=0;j<r.n;j++) { std::vector<T> q(r.m); for (int i=0;i<r.m;i++) q[i]=r(i,j); cmp(column(A,j),q,lo,hi,"column"); }
    if (r.m==r.n) { std::vector<T> q(r.m); for (int i=0;i<r.m;i++) q[i]=r(i,i); cmp(diagonal(A),q,lo,hi,"diagonal"); }
    { // rows: every process asks for other rows, in no order
      int me=cm.rank(); std::vector<int> rows; for (int i=0;i<r.m;i++) if (me%2==0||i!=me%r.m) rows.push_back((i*2+me+1)%(r.m%2?r.m:1)==0&&r.m%2==0?r.m-1-i:(r.m%2?(i*2+me+1)%r.m:r.m-1-i)); std::vector<T> b(rows.size()*r.n+1,T(66)); A.getRowBlock(rows.size(),rows.empty()?0:&rows[0],&b[0]); for (size_t k=0;k<rows.size();k++) for (int j=0;j<r.n;j++) VM_CHECK(near(b[k*r.n+j],r(rows[k],j),mx),"row block: row "<<rows[k]<<" column "<<j<<" is "<<b[k*r.n+j]<<" instead of "<<r(rows[k],j)); VM_CHECK(b.back()==T(66),"row block writes too much");
      std::vector<T> row(r.n+1,T(66)); int k=(me+1)%r.m; A.getRow(k,&row[0]); for (int j=0;j<r.n;j++) VM_CHECK(near(row[j],r(k,j),mx),"row "<<k<<" column "<<j<<" is "<<row[j]<<" instead of "<<r(k,j)); VM_CHECK(row[r.n]==T(66),"row writes too much"); }
  }
  template<class T> MatrixT<T> *newm(Communicator &cm,int m,int n,int nn,bool dense,int how) { if (dense) return new MatrixT<T>(cm,m,n,Dense); if (how%3==1) return new MatrixT<T>(cm,m,n,nn); if (how%3==2) { std::vector<int> z(m+1,nn); return new MatrixT<T>(cm,m,n,&z[0]); } return new MatrixT<T>(cm,m,n,Sparse); }
  template<class T> void fill(MatrixT<T> &A,D<T> &r,int s,int lo,int hi,int clo,int chi) { for (int i=0;i<r.m;i++) for (int j=0;j<r.n;j++) if (has(s,i,j)) { r(i,j)=Tr<T>::mk(s,i,j); if (i>=lo&&i<hi) A.setElement(i,j,r(i,j)); } A.ready(); }
  template<class T> void mat(Communicator &cm,const std::vector<int> &d,bool dense,const std::string &ops,int how) {
    int me=cm.rank(),np=cm.size(),n=0,lo=0; for (int i=0;i<(int)d.size();i++) { if (i<me) lo+=d[i]; n+=d[i]; } int hi=lo+d[me],m=hi-lo; typedef Tr<T> X;
    std::unique_ptr<MatrixT<T> > A(newm<T>(cm,m,m,n,dense,how)),B(newm<T>(cm,m,m,n,dense,how+1)); D<T> r(n,n),rb(n,n); fill(*A,r,1,lo,hi,lo,hi); fill(*B,rb,2,lo,hi,lo,hi);
    VectorT<T> w(cm,m); std::vector<T> rw(n); for (int i=0;i<n;i++) rw[i]=X::mk(5,i); for (int i=lo;i<hi;i++) w.setElement(i,rw[i]); w.ready();
    int step=6; bool de=dense,other=false;
    for (char o:ops) { step++; T a=X::mk(step,99); D<T> t(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) t(i,j)=X::mk(step,i,j);
      // B, the other operand, has to have the same storage
      if (de!=(B->storageType()==Dense)) B.reset(storageType(*B,de?Dense:Sparse));
      switch (o) {
        case 's': for (int i=lo;i<hi;i++) for (int j=0;j<n;j++) if ((i+j)%2==step%2) A->setElement(i,j,t(i,j)); A->ready(); for (int i=0;i<n;i++) for (int j=0;j<n;j++) if ((i+j)%2==step%2) r(i,j)=t(i,j); break;
        case 'S': { // set by another process
          std::vector<int> ii,jj; std::vector<T> xs; int k=(me+1)%np,l=0; for (int q=0;q<k;q++) l+=d[q]; for (int i=l;i<l+d[k];i++) for (int j=n-1;j>=0;j--) { ii.push_back(i); jj.push_back(j); xs.push_back(t(i,j)); } if (ii.size()) A->setElements(ii.size(),&ii[0],&jj[0],&xs[0]); A->ready(); r=t; } break;
        case 'a': for (int i=lo;i<hi;i++) for (int j=0;j<n;j++) if ((i+j)%2!=step%2) { A->addElement(i,j,t(i,j)); A->addElement(i,j,a); } A->ready(); for (int i=0;i<n;i++) for (int j=0;j<n;j++) if ((i+j)%2!=step%2) r(i,j)+=t(i,j)+a; break;
        case 'A': { // every process adds to every element
          std::vector<int> ii,jj; std::vector<T> xs; for (int i=0;i<n;i++) for (int j=0;j<n;j++) { ii.push_back(i); jj.push_back(j); xs.push_back(t(i,j)); r(i,j)+=t(i,j)*T(np); } A->addElements(ii.size(),&ii[0],&jj[0],&xs[0]); A->ready(); } break;
        case 'z': A->zero(); for (auto &x:r.a) x=0; break;
        case 'i': A->identity(); for (int i=0;i<n;i++) for (int j=0;j<n;j++) r(i,j)=i==j?1:0; break;
        case 'k': A->scale(a); for (auto &x:r.a) x*=a; break;
        case 'D': A->addDiagonal(a); for (int i=0;i<n;i++) r(i,i)+=a; break;
        case 'r': A->real(); for (auto &x:r.a) x=X::re(x); break;
        case 'j': A->imaginary(); for (auto &x:r.a) x=X::im(x); break;
        case 'n': A->conjugate(); for (auto &x:r.a) x=X::conj(x); break;
        case 'e': A->equate(*B); r=rb; break;
        case 'E': { std::unique_ptr<MatrixT<T> > c(identity(*A)); D<T> q(n,n); for (int i=0;i<n;i++) q(i,i)=1; checkm<T>(*c,q,lo,hi,de,false); c.reset(conjugate(*A)); q=r; for (auto &x:q.a) x=X::conj(x); checkm<T>(*c,q,lo,hi,de,false); c.reset(real(*A)); q=r; for (auto &x:q.a) x=X::re(x); checkm<T>(*c,q,lo,hi,de,false); c.reset(imaginary(*A)); q=r; for (auto &x:q.a) x=X::im(x); checkm<T>(*c,q,lo,hi,de,false);
          c.reset(diagonal(w,de?Dense:Sparse)); D<T> g(n,n); for (int i=0;i<n;i++) g(i,i)=rw[i]; checkm<T>(*c,g,lo,hi,de,false); } break;
        case 'p': A->add(*B); for (int i=0;i<n*n;i++) r.a[i]+=rb.a[i]; break;
        case 'P': { std::unique_ptr<MatrixT<T> > c(add(*A,*B)); for (int i=0;i<n*n;i++) r.a[i]+=rb.a[i]; A.swap(c); } break;
        case 'V': A->addDiagonalVector(w); for (int i=0;i<n;i++) r(i,i)+=rw[i]; break;
        case 'T': A->multiplyDiagonal(w); for (int i=0;i<n;i++) r(i,i)*=rw[i]; break;
        case 'M': { D<T> q(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) for (int k=0;k<n;k++) q(i,j)+=r(i,k)*rb(k,j); std::unique_ptr<MatrixT<T> > c; if (step&1) c.reset(multiply(*A,*B)); else { c.reset(A->clone()); multiply(*A,*B,*c); } A.swap(c); r=q; } break;
        case 't': { std::unique_ptr<MatrixT<T> > c(transpose(*A)); A.swap(c); D<T> q(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) q(i,j)=r(j,i); r=q; } break;
        case 'C': { de=!de; std::unique_ptr<MatrixT<T> > c(storageType(*A,de?Dense:Sparse)); c.swap(A); c->zero(); std::unique_ptr<MatrixT<T> > c2(storageType(*A,de?Dense:Sparse)); c2.swap(A); c2->zero(); } break;
        case 'w': { std::string f=dir+"/m"; A->saveBinary(f.c_str()); cm.barrier(); if (de||(step&1)) { A->zero(); A->loadBinary(f.c_str()); } else { std::unique_ptr<MatrixT<T> > c(matrixLoadBinary<T,int>(cm,f.c_str())); D<T> q(r); int l,h; c->localRowRange(l,h); checkm<T>(*c,q,l,h,false,false); } cm.barrier(); } break;
        case 'L': { std::unique_ptr<MatrixT<T> > c(A->clone()); checkm<T>(*c,r,lo,hi,de); c->zero(); c.reset(A->localClone()); VM_CHECK(c->processor_size()==1||np==1,"local clone lives on "<<c->processor_size()<<" processes"); checkm<T>(*c,r,0,n,de); c->zero(); } break;
      }
      double mx=0; for (auto &x:r.a) mx=std::max(mx,std::abs(x)); if (!(mx<1e60)) return; }
    checkm<T>(*A,r,lo,hi,de); checkm<T>(*B,rb,lo,hi,B->storageType()==Dense,false); if (ops.size()<3) checkops<T>(cm,*A,r,lo,hi,lo,hi);
  }
  template<class T> void rect(Communicator &cm,const std::vector<int> &d,const std::vector<int> &e,bool dense,const std::string &ops,int how) {
    int me=cm.rank(),np=cm.size(),n=0,lo=0,k=0,cl=0; for (int i=0;i<np;i++) { if (i<me) lo+=d[i],cl+=e[i]; n+=d[i]; k+=e[i]; } int hi=lo+d[me],ch=cl+e[me]; typedef Tr<T> X;
    std::unique_ptr<MatrixT<T> > A(newm<T>(cm,hi-lo,ch-cl,k,dense,how)); D<T> r(n,k); fill(*A,r,1,lo,hi,cl,ch); VM_CHECK(A->localCols()==ch-cl,"local columns"); checkm<T>(*A,r,lo,hi,dense); checkops<T>(cm,*A,r,lo,hi,cl,ch);
    std::unique_ptr<MatrixT<T> > t(transpose(*A)); D<T> q(k,n); for (int i=0;i<n;i++) for (int j=0;j<k;j++) q(j,i)=r(i,j); checkm<T>(*t,q,cl,ch,dense); checkops<T>(cm,*t,q,cl,ch,lo,hi);
    std::unique_ptr<MatrixT<T> > p(multiply(*A,*t)); D<T> s(n,n); for (int i=0;i<n;i++) for (int j=0;j<n;j++) for (int l=0;l<k;l++) s(i,j)+=r(i,l)*q(l,j); checkm<T>(*p,s,lo,hi,dense);
    std::unique_ptr<MatrixT<T> > c(A->localClone()); checkm<T>(*c,r,0,n,dense); c.reset(A->clone()); c->scale(T(2)); D<T> r2(r); for (auto &x:r2.a) x*=T(2); checkm<T>(*c,r2,lo,hi,dense); A->equate(*c); checkm<T>(*A,r2,lo,hi,dense); c.reset(storageType(*A,dense?Sparse:Dense)); checkm<T>(*c,r2,lo,hi,!dense);
  }
  template<class T> void make(Communicator &cm,int n) { int me=cm.rank(),np=cm.size();
    auto split=[&](int N,int r) { return N/np+(N%np>r?1:0); };
    { std::unique_ptr<MatrixT<T> > A(MatrixT<T>::createDense(cm,n,n+1,0,0)); int lo=0; for (int i=0;i<me;i++) lo+=split(n,i); D<T> r(n,n+1); fill(*A,r,3,lo,lo+split(n,me),0,0); checkm<T>(*A,r,lo,lo+split(n,me),true); }
    { std::unique_ptr<MatrixT<T> > A(MatrixT<T>::createDense(cm,0,0,me+1,2)); int lo=me*(me+1)/2,m=np*(np+1)/2; D<T> r(m,2*np); fill(*A,r,3,lo,lo+me+1,0,0); checkm<T>(*A,r,lo,lo+me+1,true); }
    { MatrixT<T> A(cm,n,n,Sparse); A.identity(); D<T> r(n*np,n*np); for (int i=0;i<n*np;i++) r(i,i)=1; checkm<T>(A,r,me*n,me*n+n,false); }
    { std::vector<int> nz; for (int i=0;i<n;i++) nz.push_back(1+i); MatrixT<T> A(cm,n,n,&nz[0]); D<T> r(n*np,n*np); for (int i=0;i<n*np;i++) for (int j=0;j<=i%n;j++) { int c=(i+j*(n*np/2+1))%(n*np); r(i,c)=Tr<T>::mk(4,i,c); if (i/n==me) A.setElement(i,c,r(i,c)); } A.ready(); checkm<T>(A,r,me*n,me*n+n,false); }
    { VectorT<T> a(cm,n),b(cm,n+1); int bad=0; try { a.add(b); bad=1; } catch (gridpack::Exception &) {} try { a.equate(b); bad=2; } catch (gridpack::Exception &) {} try { a.elementMultiply(b); bad=3; } catch (gridpack::Exception &) {} try { a.elementDivide(b); bad=4; } catch (gridpack::Exception &) {} VM_CHECK(!bad,"operation "<<bad<<" on vectors of different sizes is not refused");
      MatrixT<T> A(cm,n,n,Dense),B(cm,n,n+1,Dense); A.identity(); B.zero(); B.ready(); try { A.add(B); bad=5; } catch (gridpack::Exception &) {} try { A.equate(B); bad=6; } catch (gridpack::Exception &) {} VM_CHECK(!bad,"operation "<<bad<<" on matrices of different sizes is not refused"); try { VectorT<T> dd(cm,n); diagonal(B,dd); bad=7; } catch (gridpack::Exception &) {} try { diagonal(A,b); bad=8; } catch (gridpack::Exception &) {} try { column(A,0,b); bad=9; } catch (gridpack::Exception &) {} VM_CHECK(!bad,"operation "<<bad<<" on operands that do not fit is not refused"); }
  }
  template<class T> void all(Communicator &cm,const Case &c) {
    std::string w=c.gets("w"),ds=c.gets("d"); int n=c.geti("n"),part=c.geti("part"),of=c.geti("of",1);
    if (w=="make") { make<T>(cm,c.geti("d")); if (cm.rank()==0) count_sub(1,cm.size()>1); return; }
    std::vector<int> d=ints(ds.substr(0,ds.find('/'))); const char *al=w=="vec"?VOPS:MOPS; int L=strlen(al);
    if (w[0]=='r') { rect<T>(cm,d,ints(ds.substr(ds.find('/')+1)),w=="rdense","",0); rect<T>(cm,d,ints(ds.substr(ds.find('/')+1)),w=="rdense","",1); if (cm.rank()==0) count_sub(2,cm.size()>1); return; }
    long tot=1; for (int i=0;i<n;i++) tot*=L;
    for (long k=part;k<tot;k+=of) { std::string o; long q=k; for (int i=0;i<n;i++,q/=L) o+=al[q%L]; label(std::string(Tr<T>::name())+" operations "+o); if (w=="vec") vec<T>(cm,d,o); else mat<T>(cm,d,w=="dense",o,k); if (cm.rank()==0) count_sub(1,cm.size()>1); }
  }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); {
      char t[64]="/tmp/vmlaXXXXXX"; std::string mine; if (rank==0) { VM_CHECK(mkdtemp(t),"scratch folder"); mine=t; } dir=hgather(mine)[0];
      { Communicator world; gridpack::math::Initialize(0,0); int cc=c.geti("comm"); Communicator cm=cc?world.split(rank>=cc-1):world;
        if (!cc||rank>=cc-1) { try { if (c.geti("ty")==0) all<CT>(cm,c); else all<double>(cm,c); } catch (std::exception &e) { fail(std::string("exception: ")+e.what()); } } 
        gridpack::math::Finalize(); }
      hbarrier(); if (rank==0) { std::string r="rm -rf "+dir; if (dir.compare(0,9,"/tmp/vmla")==0) if (system(r.c_str())) {} }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new LA; }
