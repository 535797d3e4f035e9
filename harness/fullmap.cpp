// Block matrices and vectors assembled from a distributed network: FullMatrixMap
// and BusVectorMap against dense references, for every distribution.
// USES: parallel timer environment configuration component factory stream partition math
#include <complex>
#include <set>
namespace fm {
typedef std::complex<double> C;
// what component (kind,id) puts at (i,j) of its block in a round
inline C val(int kind,int id,int i,int j,int round) { if ((id+i+j+round)%3==0) return 0; return C(((kind*13+id*5+i*3+j*7+round*11)%37)*0.25-3, ((kind*3+id*11+i*5+j*2+round*7)%29)*0.5-5); }
// whether it gives values in a round (pat: every component / some of them)
inline bool gives(int kind,int id,int round,int pat) { return pat==0||(kind+id+round)%2==0; }
template<class T> T as(C x);
template<> inline C as<C>(C x) { return x; }
template<> inline double as<double>(C x) { return x.real(); }
}
#define NK_BUS \
  int gi=-1,mi=0,mj=0,vs=0,round=0,pat=0; bool diag=true; std::vector<std::complex<double> > got; int ngot=0; \
  bool matrixDiagSize(int *i,int *j) const { *i=diag?mi:0; *j=diag?mj:0; return diag&&mi*mj>0; } \
  template<class T> bool dv(T *v) { if (!fm::gives(0,gi,round,pat)) return false; int k=0; for (int j=0;j<mj;j++) for (int i=0;i<mi;i++) v[k++]=fm::as<T>(fm::val(0,gi,i,j,round)); return true; } \
  bool matrixDiagValues(gridpack::ComplexType *v) { return dv(v); } bool matrixDiagValues(gridpack::RealType *v) { return dv(v); } \
  bool vectorSize(int *n) const { *n=vs>0?vs:0; return vs>0; } \
  template<class T> bool vv(T *v) { for (int i=0;i<vs;i++) v[i]=fm::as<T>(fm::val(3,gi,i,0,round)); return true; } \
  bool vectorValues(gridpack::ComplexType *v) { return vv(v); } bool vectorValues(gridpack::RealType *v) { return vv(v); } \
  template<class T> void sv(T *v) { got.assign(v,v+vs); ngot++; } \
  void setValues(gridpack::ComplexType *v) { sv(v); } void setValues(gridpack::RealType *v) { sv(v); }
#define NK_BRANCH \
  int ki=-1,fi=0,fj=0,ri=0,rj=0,round=0,pat=0; \
  bool matrixForwardSize(int *i,int *j) const { *i=fi; *j=fj; return fi*fj>0; } bool matrixReverseSize(int *i,int *j) const { *i=ri; *j=rj; return ri*rj>0; } \
  template<class T> bool mv(T *v,int kind,int ni,int nj) { if (!fm::gives(kind,ki,round,pat)) return false; int k=0; for (int j=0;j<nj;j++) for (int i=0;i<ni;i++) v[k++]=fm::as<T>(fm::val(kind,ki,i,j,round)); return true; } \
  bool matrixForwardValues(gridpack::ComplexType *v) { return mv(v,1,fi,fj); } bool matrixForwardValues(gridpack::RealType *v) { return mv(v,1,fi,fj); } \
  bool matrixReverseValues(gridpack::ComplexType *v) { return mv(v,2,ri,rj); } bool matrixReverseValues(gridpack::RealType *v) { return mv(v,2,ri,rj); }
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/mapper/full_map.hpp"
#include "gridpack/mapper/bus_vector_map.hpp"
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;
using namespace gridpack::math;
typedef gridpack::factory::BaseFactory<TNet> TFac;
typedef gridpack::mapper::FullMatrixMap<TNet> FMap;
typedef gridpack::mapper::BusVectorMap<TNet> VMap;
typedef fm::C C;

struct FM : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough"; std::set<std::string> seen;
    auto add=[&](int np,const std::string &g,const std::string &as,const std::string &si,const std::string &sj,int nd,int br,const std::string &ops,int pm,int comm=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.put_mode=pm; c.explore=ex; c.bound=b; c.set("g",g).set("as",as).set("si",si).set("sj",sj).set("nd",nd).set("br",br).set("comm",comm);
      for (int w=0;w<2;w++) { std::string o; for (char x:ops) if (strchr(w?"VvQXx2":"MRDdEeOIP2",x)) o+=x; if (o.find_first_of(w?"VvxQ":"MRDdP")==std::string::npos) continue; c.set("ops",o).set("w",w?"vec":"mat"); if (seen.insert(c.str()).second) emit(c); } };
    std::vector<std::string> g3=connected_graphs(3), g4=connected_graphs(4);
    // M/R new complex/real matrix  D/d the same, dense   E/e all values again  O/o I/i overwrite, increment by some components
    // P plain pointer  V/v new vector, back to the buses  X/x values again into the same vector  2 a second mapper
    // every block size 0..2 on a triangle and a star, every distribution
    for (int np=1;np<=3;np++) for (int k=0;k<27;k++) { std::string s={char('0'+k%3),char('0'+k/3%3),char('0'+k/9)}; if (s=="000") continue; add(np,k%2?"3:0-1,1-2,2-0":"3:1-0,1-2","all",s,s,0,255,"MEOIVXQ",k&1); if (th||k%3==0) add(np,"3:0-1,2-0","all",s,s,0,255,"RevxD",k&1); }
    // blocks that are not square, buses without a diagonal block, branches with one direction
    for (int np=1;np<=3;np++) for (int k=0;k<8;k++) { add(np,"3:0-1,1-2,2-0","all",k%2?"121":"212",k%3?"312":"131",0,255,"MEPRI",k&1); add(np,"3:0-1,1-2,2-0","all","121","121",k,255,"MEI2",1); add(np,"3:0-1,1-2,2-0","all","212","212",0,(k*9+5)&63,"MIEO",0); add(np,"3:1-0,1-2","all","212","122",k,k*7+2,"MI",0); }
    for (int np=2;np<=3;np++) for (size_t k=0;k<g4.size();k+=th?1:np==2?4:9) { add(np,g4[k],"all","1212","1212",0,255,"MOVQX",1); }
    if (th) for (size_t k=0;k<g4.size();k+=2) add(4,g4[k],"all","2101","2101",0,255,"MIVX",1); else add(4,g4[3],"all","2101","2101",0,255,"MV",1);
    for (const char *g:{"2:0-1","4:0-1,2-3"}) for (int np=1;np<=std::min(3,g[0]-'0');np++) add(np,g,"all",std::string("2121").substr(0,g[0]-'0'),std::string("2121").substr(0,g[0]-'0'),0,255,"MERIVXx",0);
    // sequences of operations
    const char *A="MRDEOIVXx2Q"; int n=th?4:3,tot=1; for (int i=0;i<n;i++) tot*=11; for (int k=0;k<tot;k++) { std::string o; for (int q=k,i=0;i<n;i++,q/=11) o+=A[q%11]; add(2,"3:0-1,1-2,2-0",k%4==0?"0,1,0":k%4==1?"1,1,0":k%4==2?"1,1,1":"0,0,0",k%3?"121":"201",k%3?"121":"201",0,255,o,k&1); if (th||k%7==0) add(3,"4:0-1,1-2,2-0,2-3",k%3==0?"0,1,2,2":k%3==1?"2,2,0,0":"1,2,1,2","1211","1211",0,255,o,1); }
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) add(np,"3:0-1,2-1","all","121","121",0,255,"MRV",1,col+1);
    // schedules of the set-up
    for (int pm=0;pm<2;pm++) for (const char *as:{"0,1,0","1,0,0"}) { add(2,"3:0-1,1-2,2-0",as,"121","121",0,255,"M",pm,0,PREEMPT_BOUND,th?2:1); add(2,"3:0-1,1-2,2-0",as,"101","101",0,255,"V",pm,0,PREEMPT_BOUND,th?3:2); }
  }
  struct Blk { int r,c,i,j,kind,id; }; // rows of bus r, columns of bus c
  struct Mdl { std::vector<int> ord,ei,ej,oi,oj; int ni,nj; std::vector<Blk> b; };
  Graph g;
  template<class T> void cmp(MatrixT<T> &A,const Mdl &m,const std::vector<C> &want,int lo,int hi,const char *what) {
    VM_CHECK(A.rows()==m.ni&&A.cols()==m.nj,what<<": matrix is "<<A.rows()<<"x"<<A.cols()<<" instead of "<<m.ni<<"x"<<m.nj);
    int a,b; A.localRowRange(a,b); VM_CHECK(a==lo&&b==hi,what<<": local rows "<<a<<".."<<b<<" instead of "<<lo<<".."<<hi);
    for (int i=lo;i<hi;i++) for (int j=0;j<m.nj;j++) { T x(99); A.getElement(i,j,x); T w=fm::as<T>(want[i*m.nj+j]); VM_CHECK(x==w,what<<": element "<<i<<","<<j<<" is "<<x<<" instead of "<<w); }
    // and nothing else (whole matrix)
    double s=0; for (auto &x:want) s+=std::norm(fm::as<T>(x)); double n2=A.norm2(); VM_CHECK(fabs(n2-sqrt(s))<=1e-9*(1+sqrt(s)),what<<": norm "<<n2<<" instead of "<<sqrt(s)); }
  void put(std::vector<C> &d,const Mdl &m,int round,int pat,bool inc,bool real) { for (auto &b:m.b) if (fm::gives(b.kind,b.id,round,pat)) for (int i=0;i<b.i;i++) for (int j=0;j<b.j;j++) { C &x=d[(m.oi[b.r]+i)*m.nj+m.oj[b.c]+j]; C v=fm::val(b.kind,b.id,i,j,round); x=inc?x+v:v; } }
  void one(Communicator &cm,const std::vector<int> &as,const std::string &si,const std::string &sj,int nd,int br,const std::string &ops) noexcept {
    boost::shared_ptr<TNet> p(new TNet(cm)); TNet &net=*p; int me=cm.rank(),np=cm.size(); build(net,g,1,2); g_assign=vertex_order(net,as); net.partition(); TFac f(p); f.setComponents();
    auto bi=[&](int q){ return si[q]-'0'; }; auto bj=[&](int q){ return sj[q]-'0'; };
    std::map<int,int> o2g; for (int i=0;i<g.n;i++) o2g[orig(i)]=i;
    for (int i=0;i<net.numBuses();i++) { TBus *b=net.getBus(i).get(); b->gi=o2g[net.getOriginalBusIndex(i)]; b->mi=bi(b->gi); b->mj=bj(b->gi); b->vs=b->mi; b->diag=!(nd>>b->gi&1); }
    for (int i=0;i<net.numBranches();i++) { TBranch *b=net.getBranch(i).get(); int k; net.getBranchData(i)->getValue("L_ID",&k); b->ki=k; int a=g.e[k].first,c=g.e[k].second; if (br>>(2*k)&1) { b->fi=bi(a); b->fj=bj(c); } if (br>>(2*k+1)&1) { b->ri=bi(c); b->rj=bj(a); } }
    // the dense model; buses in the order of their matrix index
    Mdl m; { std::vector<int> idx(g.n,-1); for (int i=0;i<net.numBuses();i++) if (net.getActiveBus(i)) net.getBus(i)->getMatVecIndex(&idx[o2g[net.getOriginalBusIndex(i)]]); cm.max(&idx[0],g.n); m.ord.assign(g.n,-1); for (int i=0;i<g.n;i++) m.ord[idx[i]]=i; }
    for (int q=0;q<g.n;q++) if (!(nd>>q&1)) m.b.push_back(Blk{q,q,bi(q),bj(q),0,q});
    for (size_t k=0;k<g.e.size();k++) { int a=g.e[k].first,c=g.e[k].second; if (br>>(2*k)&1) m.b.push_back(Blk{a,c,bi(a),bj(c),1,(int)k}); if (br>>(2*k+1)&1) m.b.push_back(Blk{c,a,bi(c),bj(a),2,(int)k}); }
    { std::vector<Blk> q; for (auto &b:m.b) if (b.i*b.j>0) q.push_back(b); m.b=q; } m.ei.assign(g.n,0); m.ej=m.ei; m.oi=m.ei; m.oj=m.ei; for (auto &b:m.b) { m.ei[b.r]=b.i; m.ej[b.c]=b.j; }
    m.ni=m.nj=0; int lo=0,hi=0,vn=0,vlo=0,vhi=0; std::vector<int> vo(g.n); for (int q:m.ord) { m.oi[q]=m.ni; m.oj[q]=m.nj; vo[q]=vn; if (as[q]<me) { lo+=m.ei[q]; vlo+=bi(q); } if (as[q]<=me) { hi+=m.ei[q]; vhi+=bi(q); } m.ni+=m.ei[q]; m.nj+=m.ej[q]; vn+=bi(q); }
    if (m.ni==0||m.nj==0) return;
    int round=0; auto set=[&](int pat){ round++; for (int i=0;i<net.numBuses();i++) { net.getBus(i)->round=round; net.getBus(i)->pat=pat; } for (int i=0;i<net.numBranches();i++) { net.getBranch(i)->round=round; net.getBranch(i)->pat=pat; } };
    boost::shared_ptr<FMap> fmp(new FMap(p)), second; boost::shared_ptr<VMap> vmp(new VMap(p)); std::vector<C> dc(m.ni*m.nj),dr(m.ni*m.nj); boost::shared_ptr<Matrix> A; boost::shared_ptr<RealMatrix> R; boost::shared_ptr<Vector> v; boost::shared_ptr<RealVector> w;
    auto vcmp=[&](auto &V,const char *what) { typedef typename std::remove_reference<decltype(V)>::type VT; typedef typename VT::TheType T; VM_CHECK(V.size()==vn,what<<": vector has "<<V.size()<<" elements instead of "<<vn); int a,b; V.localIndexRange(a,b); VM_CHECK(a==vlo&&b==vhi,what<<": local elements "<<a<<".."<<b<<" instead of "<<vlo<<".."<<vhi); for (int q=0;q<g.n;q++) if (as[q]==me) for (int i=0;i<bi(q);i++) { T x(99); V.getElement(vo[q]+i,x); T e=fm::as<T>(fm::val(3,q,i,0,round)); VM_CHECK(x==e,what<<": element "<<i<<" of bus "<<orig(q)<<" is "<<x<<" instead of "<<e); } };
    auto back=[&](auto &V,const char *what) { typedef typename std::remove_reference<decltype(V)>::type VT; typedef typename VT::TheType T; // new values in the vector, then back to the buses
      for (int i=vlo;i<vhi;i++) V.setElement(i,fm::as<T>(fm::val(4,i,1,2,round))); V.ready(); for (int i=0;i<net.numBuses();i++) { net.getBus(i)->got.clear(); net.getBus(i)->ngot=0; } vmp->mapToBus(V);
      for (int i=0;i<net.numBuses();i++) { TBus *b=net.getBus(i).get(); bool act=net.getActiveBus(i)&&b->vs>0; VM_CHECK(b->ngot==act,what<<": bus "<<orig(b->gi)<<" got values "<<b->ngot<<" times"); if (act) for (int k=0;k<b->vs;k++) { C e=C(fm::as<T>(fm::val(4,vo[b->gi]+k,1,2,round))); VM_CHECK(b->got[k]==e,what<<": bus "<<orig(b->gi)<<" got "<<b->got[k]<<" instead of "<<e); }
        int o=-7,s=-7; vmp->getLocalOffset(i,&o,&s); VM_CHECK(act?(o==vo[b->gi]-vlo&&s==b->vs):(o==-1&&s==0),what<<": local offset of bus "<<orig(b->gi)<<" is "<<o<<", size "<<s); } };
    // a new matrix has room for the values it is made with: partial values only if it is not filled again
    for (size_t q=0;q<ops.size();q++) { char o=ops[q]; int pt=o=='M'?round%2:0; for (size_t r=q+1;r<ops.size()&&!strchr("MDP",ops[r]);r++) if (strchr("EOI",ops[r])) pt=0; switch (o) {
      case 'M': case 'D': case 'P': set(pt); if (o=='P') A.reset(fmp->intMapToMatrix()); else A=fmp->mapToMatrix(o=='D'); dc.assign(dc.size(),0); put(dc,m,round,pt,false,false); cmp(*A,m,dc,lo,hi,"new matrix"); VM_CHECK(A->storageType()==(o=='D'?Dense:Sparse),"storage of the new matrix"); break;
      case 'R': case 'd': set(0); R=fmp->mapToRealMatrix(o=='d'); dr.assign(dr.size(),0); put(dr,m,round,0,false,true); cmp(*R,m,dr,lo,hi,"new real matrix"); break;
      case 'E': if (!A) break; set(round%2); fmp->mapToMatrix(A); dc.assign(dc.size(),0); put(dc,m,round,(round-1)%2,false,false); cmp(*A,m,dc,lo,hi,"matrix mapped again"); break;
      case 'e': if (!R) break; set(1); fmp->mapToRealMatrix(R); dr.assign(dr.size(),0); put(dr,m,round,1,false,true); cmp(*R,m,dr,lo,hi,"real matrix mapped again"); break;
      case 'O': if (!A) break; set(1); fmp->overwriteMatrix(A); put(dc,m,round,1,false,false); cmp(*A,m,dc,lo,hi,"matrix partly overwritten"); break;
      case 'I': if (!A) break; set(1); fmp->incrementMatrix(A); put(dc,m,round,1,true,false); cmp(*A,m,dc,lo,hi,"matrix partly incremented"); break;
      case 'V': set(0); v=vmp->mapToVector(); vcmp(*v,"new vector"); back(*v,"new vector"); break;
      case 'Q': set(0); v.reset(vmp->intMapToVector()); vcmp(*v,"new vector (pointer)"); back(*v,"new vector (pointer)"); break;
      case 'v': set(0); w=vmp->mapToRealVector(); vcmp(*w,"new real vector"); back(*w,"new real vector"); break;
      case 'X': if (!v) break; set(0); vmp->mapToVector(v); vcmp(*v,"vector mapped again"); back(*v,"vector mapped again"); break;
      case 'x': if (!w) { set(0); w=vmp->mapToRealVector(); } set(0); vmp->mapToRealVector(w); vcmp(*w,"real vector mapped again"); back(*w,"real vector mapped again"); break;
      case '2': second=fmp; fmp.reset(new FMap(p)); vmp.reset(new VMap(p)); second.reset(); break;
    } }
    if (si==sj&&!nd) { VM_CHECK(fmp->check(),"consistency check of a consistent matrix fails"); for (int i=0;i<net.numBranches();i++) { TBranch *b=net.getBranch(i).get(); int x,y; net.getBranchEndpoints(i,&x,&y); bool f=b->fi*b->fj>0; if (!f&&b->ri*b->rj==0) continue; int &d=f?b->fi:b->ri; d++; VM_CHECK(fmp->check()!=net.getActiveBus(f?x:y),"consistency check does not see a branch block that does not fit"); d--; } }
    fmp.reset();
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); gridpack::math::Initialize(0,NULL); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
      g=graph(c.gets("g")); std::string as=c.gets("as"); auto run=[&](const std::vector<int> &a){ try { one(cm,a,c.gets("si"),c.gets("sj"),c.geti("nd"),c.geti("br"),c.gets("ops")); } catch (std::exception &e) { fail(std::string("exception: ")+e.what()); } };
      if (as!="all") run(ints(as)); else { Odo o(std::vector<int>(g.n,cm.size())); do { label("partition "+o.str()); run(o.d); if (rank==0) count_sub(1,cm.size()>1); } while (o.next()); }
      record("ok");
    } gridpack::math::Finalize(); par_end();
  }
};
Harness *vm::make_harness() { return new FM; }
