// Matrices, vectors and slabs whose rows belong to buses and branches: GenMatrixMap,
// GenVectorMap and GenSlabMap against dense references, for every distribution.
// USES: parallel timer environment configuration component factory stream partition math
#include <complex>
#include <set>
#include <vector>
namespace gm {
typedef std::complex<double> C;
struct Gen { int kind=0,id=0,nr=0,nc=0,ve=0,sr=0,sc=0,mode=0,round=0,pat=0; std::vector<int> ri,ci,vi,si; std::vector<Gen*> nb; std::vector<C> got; int ngot=0;
  static void put(std::vector<int> &v,int k,int x) { if ((int)v.size()<=k) v.resize(k+1,-1); v[k]=x; }
  bool gives() const { return !pat||(kind+id+round)%2==0; }
  static C val(const Gen *a,int r,const Gen *b,int c,int round) { int k=a->kind*7+a->id*3+r*5+b->kind*11+b->id*13+c*2+round*3; if (k%5==0) return 0; return C((k*17)%41*0.25-4,(k*23)%31*0.5-6); }
  static C vval(const Gen *a,int r,int c,int round) { int k=a->kind*5+a->id*7+r*3+c*11+round*2; if (k%4==0) return 0; return C((k*13)%43*0.25-4,(k*19)%37*0.5-6); }
  // the elements a component gives: a bus in its own rows, a branch in its own rows and those of its ends
  template<class F> void ent(F f) const {
    auto blk=[&](const Gen *a,const Gen *b) { for (int r=0;r<a->nr;r++) for (int c=0;c<b->nc;c++) f(a,r,b,c); };
    if (kind==0) { blk(this,this); if (mode&1) for (Gen *n:nb) blk(this,n); }
    else { if (mode&8) blk(this,this); for (Gen *n:nb) blk(this,n); if ((mode&3)==2) for (Gen *n:nb) blk(n,this); if (mode&4) { blk(nb[0],nb[1]); blk(nb[1],nb[0]); } } }
  int num() const { if (!gives()) return 0; int k=0; ent([&](const Gen*,int,const Gen*,int){ k++; }); return k; }
  void values(C *v,int *r,int *c) const { if (!gives()) return; int k=0; ent([&](const Gen *a,int i,const Gen *b,int j){ v[k]=val(a,i,b,j,round); r[k]=a->ri.at(i); c[k]=b->ci.at(j); k++; }); }
};
}
#define GM \
  gm::Gen q; int matrixNumRows() const { return q.nr; } int matrixNumCols() const { return q.nc; } \
  void matrixSetRowIndex(int k,int i) { gm::Gen::put(q.ri,k,i); } void matrixSetColIndex(int k,int i) { gm::Gen::put(q.ci,k,i); } \
  int matrixGetRowIndex(int k) { return q.ri.at(k); } int matrixGetColIndex(int k) { return q.ci.at(k); } \
  int matrixNumValues() const { return q.num(); } void matrixGetValues(gridpack::ComplexType *v,int *r,int *c) { q.values(v,r,c); } \
  int vectorNumElements() const { return q.ve; } void vectorSetElementIndex(int k,int i) { gm::Gen::put(q.vi,k,i); } \
  void vectorGetElementIndices(int *i) { for (int k=0;k<q.ve;k++) i[k]=q.vi.at(k); } \
  void vectorGetElementValues(gridpack::ComplexType *v,int *i) { vectorGetElementIndices(i); for (int k=0;k<q.ve;k++) v[k]=gm::Gen::vval(&q,k,0,q.round); } \
  void vectorSetElementValues(gridpack::ComplexType *v) { q.got.assign(v,v+q.ve); q.ngot++; } \
  void slabSize(int *i,int *j) const { *i=q.sr; *j=q.sr||q.id%2?q.sc:0; } void slabSetRowIndex(int k,int i) { gm::Gen::put(q.si,k,i); } \
  void slabGetRowIndices(int *i) { for (int k=0;k<q.sr;k++) i[k]=q.si.at(k); } \
  void slabGetValues(std::vector<gridpack::ComplexType*> &v,int *i) { slabGetRowIndices(i); for (int k=0;k<q.sr;k++) for (int j=0;j<q.sc;j++) v[k][j]=gm::Gen::vval(&q,k,j,q.round); } \
  void slabSetValues(gridpack::ComplexType **v) { q.got.clear(); for (int k=0;k<q.sr;k++) q.got.insert(q.got.end(),v[k],v[k]+q.sc); q.ngot++; }
#define NK_BUS GM
#define NK_BRANCH GM
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/math/math.hpp"
#include "gridpack/mapper/gen_matrix_map.hpp"
#include "gridpack/mapper/gen_vector_map.hpp"
#include "gridpack/mapper/gen_slab_map.hpp"
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;
using namespace gridpack::math;
using gm::Gen;
typedef gridpack::factory::BaseFactory<TNet> TFac;
typedef gridpack::mapper::GenMatrixMap<TNet> MMap;
typedef gridpack::mapper::GenVectorMap<TNet> VMap;
typedef gridpack::mapper::GenSlabMap<TNet> SMap;
typedef gm::C C;

struct GMap : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough"; std::set<std::string> seen;
    // sb,cb / sl,cl: rows and columns of buses / branches (digit k%length for item k)
    auto add=[&](int np,const std::string &g,const std::string &as,const std::string &sb,const std::string &cb,const std::string &sl,const std::string &cl,int mode,const std::string &ops,int pm,int comm=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.put_mode=pm; c.explore=ex; c.bound=b; c.set("g",g).set("as",as).set("sb",sb).set("sl",sl).set("comm",comm);
      for (int w=0;w<3;w++) { const char *K[]={"MPEOI2","VQX2","SNTU2"}; std::string o; for (char x:ops) if (strchr(K[w],x)) o+=x; if (o.find_first_of(w==0?"MP":w==1?"VQ":"SNU")==std::string::npos) continue; Case d=c; d.set("ops",o).set("w",w==0?"mat":w==1?"vec":"slab"); if (w==0) d.set("cb",cb).set("cl",cl).set("mode",mode); if (w==2) d.set("mode",mode%3+1); if (seen.insert(d.str()).second) emit(d); } };
    std::vector<std::string> g3=connected_graphs(3), g4=connected_graphs(4);
    const char *A="MPEOI2VQXSTUN"; const char *all="MEOIVXSTQUPNT";
    // who gives what, every distribution
    for (int np=1;np<=3;np++) for (int m=0;m<16;m++) { add(np,"3:0-1,1-2,2-0","all","121","121","11","11",m,all,m&1); add(np,"3:1-0,1-2","all","102","120","12","01",m,all,m&1); add(np,"3:0-1,0-2","all","0","12","12","1",m,all,m&1); add(np,"3:1-0,2-0","all","12","21","0","0",m,all,m&1); if (th||m%3==0) { add(np,"3:0-1,1-2,2-0","all","001","111","010","111",m,all,m&1); add(np,"3:0-1,1-2","all","210","021","01","30",m,all,m&1); } }
    for (int np=2;np<=3;np++) for (size_t k=0;k<g4.size();k+=th?1:np==2?4:9) add(np,g4[k],"all","1210","121","102","21",k%16,"MEVXST",1);
    for (int np=1;np<=2;np++) for (int m=0;m<8;m++) { add(np,"2:0-1","all","12","21","2","1",m,all,0); if (np<2) continue; add(np,"4:0-1,2-3","all","2101","12","1","2",m,"MEIVXST",1); }
    if (th) for (size_t k=0;k<g4.size();k+=2) add(4,g4[k],"all","2101","1","12","1",k%16,"MIVXS",1); else add(4,g4[3],"all","2101","1","12","1",7,"MVS",1);
    // sequences of operations
    int n=th?4:3,tot=1; for (int i=0;i<n;i++) tot*=13; for (int k=0;k<tot;k++) { std::string o; for (int q=k,i=0;i<n;i++,q/=13) o+=A[q%13]; add(2,"3:0-1,1-2,2-0",k%4==0?"0,1,0":k%4==1?"1,1,0":k%4==2?"1,1,1":"0,0,0","120","121","11","12",14,o,k&1); if (th||k%7==0) add(3,"4:0-1,1-2,2-0,2-3",k%3==0?"0,1,2,2":k%3==1?"2,2,0,0":"1,2,1,2","1","121","21","1",5,o,1); }
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) add(np,"3:0-1,2-1","all","121","1","12","1",13,"MVS",1,col+1);
    for (int pm=0;pm<2;pm++) for (const char *as:{"0,1,0","1,0,0"}) { add(2,"3:0-1,1-2,2-0",as,"121","1","12","1",6,"M",pm,0,PREEMPT_BOUND,th?2:1); add(2,"3:0-1,1-2,2-0",as,"101","1","1","1",0,"VS",pm,0,PREEMPT_BOUND,th?3:2); }
  }
  Graph g;
  static int dig(const std::string &s,int k) { return s[k%s.size()]-'0'; }
  void cmp(Matrix &A,int R,int M,const std::vector<C> &want,int lo,int hi,const char *what) {
    VM_CHECK(A.rows()==R&&A.cols()==M,what<<": matrix is "<<A.rows()<<"x"<<A.cols()<<" instead of "<<R<<"x"<<M);
    int a,b; A.localRowRange(a,b); VM_CHECK(a==lo&&b==hi,what<<": local rows "<<a<<".."<<b<<" instead of "<<lo<<".."<<hi);
    for (int i=lo;i<hi;i++) for (int j=0;j<M;j++) { C x(99); A.getElement(i,j,x); VM_CHECK(x==want[i*M+j],what<<": element "<<i<<","<<j<<" is "<<x<<" instead of "<<want[i*M+j]); } }
  void one(Communicator &cm,const std::vector<int> &as,const std::string &w,const Case &cs) noexcept {
    boost::shared_ptr<TNet> p(new TNet(cm)); TNet &net=*p; int me=cm.rank(),np=cm.size(); build(net,g,1,2); g_assign=vertex_order(net,as); net.partition(); TFac f(p); f.setComponents();
    std::string sb=cs.gets("sb"),sl=cs.gets("sl"),cb=w=="mat"?cs.gets("cb"):sb,cl=w=="mat"?cs.gets("cl"):sl; int mode=cs.geti("mode",0); int K=g.n+g.e.size();
    std::map<int,int> o2g; for (int i=0;i<g.n;i++) o2g[orig(i)]=i;
    auto init=[&](Gen &q,int kind,int id) { q.kind=kind; q.id=id; q.nr=kind?dig(sl,id):dig(sb,id); q.nc=kind?dig(cl,id):dig(cb,id); q.ve=q.sr=q.nr; q.sc=mode; q.mode=mode; };
    // the whole thing, known to everybody: buses, then branches
    std::vector<Gen> G(K); for (int i=0;i<K;i++) init(G[i],i>=g.n,i>=g.n?i-g.n:i); for (size_t k=0;k<g.e.size();k++) for (int q:{g.e[k].first,g.e[k].second}) { G[g.n+k].nb.push_back(&G[q]); G[q].nb.push_back(&G[g.n+k]); }
    std::vector<int> own(K,-1); std::vector<Gen*> mine; // all local copies
    for (int i=0;i<net.numBuses();i++) { TBus *b=net.getBus(i).get(); init(b->q,0,o2g[net.getOriginalBusIndex(i)]); mine.push_back(&b->q); if (net.getActiveBus(i)) own[b->q.id]=me; }
    for (int i=0;i<net.numBranches();i++) { TBranch *b=net.getBranch(i).get(); int k; net.getBranchData(i)->getValue("L_ID",&k); init(b->q,1,k); mine.push_back(&b->q); if (net.getActiveBranch(i)) own[g.n+k]=me; int x,y; net.getBranchEndpoints(i,&x,&y); for (int q:{x,y}) { b->q.nb.push_back(&net.getBus(q)->q); net.getBus(q)->q.nb.push_back(&b->q); } }
    std::vector<bool> act; for (int i=0;i<net.numBuses();i++) act.push_back(net.getActiveBus(i)); for (int i=0;i<net.numBranches();i++) act.push_back(net.getActiveBranch(i));
    cm.max(&own[0],K); int lo=0,hi=0,R=0,M=0; for (int i=0;i<K;i++) { R+=G[i].nr; M+=G[i].nc; if (own[i]<me) lo+=G[i].nr; if (own[i]<=me) hi+=G[i].nr; } if (R==0||M==0) return;
    auto gi=[&](const Gen *q){ return q->kind*g.n+q->id; };
    // indices: consecutive for a component, those of a process together, the same on every copy
    auto idx=[&](std::vector<int> Gen::*v,int Gen::*n,bool row,const char *what) { std::vector<int> a(K*3,-1); for (size_t l=0;l<mine.size();l++) { Gen *q=mine[l]; VM_CHECK((int)(q->*v).size()==q->*n,what<<": "<<(q->*v).size()<<" indices set instead of "<<q->*n); if (act[l]) for (int k=0;k<q->*n;k++) a[gi(q)*3+k]=(q->*v)[k]; }
      cm.max(&a[0],a.size()); std::vector<int> at(K,0); int tot=0; for (int i=0;i<K;i++) { at[i]=G[i].*n; tot+=at[i]; } std::vector<int> seen(tot,0); 
      for (int i=0;i<K;i++) { int l=0,h=0; for (int j=0;j<K;j++) { if (own[j]<own[i]) l+=at[j]; if (own[j]<=own[i]) h+=at[j]; } (G[i].*v).assign(at[i],0); for (int k=0;k<at[i];k++) { int x=a[i*3+k]; (G[i].*v)[k]=x; VM_CHECK(x>=l&&x<h,what<<": index "<<x<<" outside the range "<<l<<".."<<h<<" of its process"); VM_CHECK(!seen[x]++,what<<": index "<<x<<" given twice"); VM_CHECK(k==0||x==a[i*3+k-1]+1,what<<": indices of a component are not consecutive"); } }
      for (Gen *q:mine) VM_CHECK(q->*v==G[gi(q)].*v,what<<": copy of a component has other indices than its owner"); };
    int round=0; auto set=[&](int pat){ round++; for (auto *q:mine) q->round=round,q->pat=pat; for (auto &q:G) q.round=round,q.pat=pat; };
    auto clear=[&]{ for (auto *q:mine) q->got.clear(),q->ngot=0; };
    const std::string ops=cs.gets("ops");
    if (w=="mat") { boost::shared_ptr<MMap> m(new MMap(p)); boost::shared_ptr<Matrix> A; idx(&Gen::ri,&Gen::nr,true,"rows"); idx(&Gen::ci,&Gen::nc,false,"columns"); std::vector<C> d(R*M);
      auto put=[&](bool inc){ for (auto &q:G) if (q.gives()) q.ent([&](const Gen *a,int i,const Gen *b,int j){ C &x=d[a->ri[i]*M+b->ci[j]],v=Gen::val(a,i,b,j,round); x=inc?x+v:v; }); };
      for (char o:ops) switch (o) {
        case 'M': set(0); A=m->mapToMatrix(); d.assign(d.size(),0); put(false); cmp(*A,R,M,d,lo,hi,"new matrix"); break;
        case 'P': set(0); A.reset(m->intMapToMatrix()); d.assign(d.size(),0); put(false); cmp(*A,R,M,d,lo,hi,"new matrix (pointer)"); break;
        case 'E': if (!A) break; set(1); m->mapToMatrix(A); d.assign(d.size(),0); put(false); cmp(*A,R,M,d,lo,hi,"matrix mapped again"); break;
        case 'O': if (!A) break; set(1); m->overwriteMatrix(A); put(false); cmp(*A,R,M,d,lo,hi,"matrix partly overwritten"); break;
        case 'I': if (!A) break; set(1); m->incrementMatrix(A); put(true); cmp(*A,R,M,d,lo,hi,"matrix partly incremented"); break;
        case '2': set(0); for (auto *q:mine) q->ri.clear(),q->ci.clear(); m.reset(); m.reset(new MMap(p)); idx(&Gen::ri,&Gen::nr,true,"rows again"); idx(&Gen::ci,&Gen::nc,false,"columns again"); A.reset(); break;
      } }
    if (w=="vec") { boost::shared_ptr<VMap> m(new VMap(p)); boost::shared_ptr<Vector> v; idx(&Gen::vi,&Gen::ve,true,"elements");
      auto vcmp=[&](const char *what) { VM_CHECK(v->size()==R,what<<": vector has "<<v->size()<<" elements instead of "<<R); int a,b; v->localIndexRange(a,b); VM_CHECK(a==lo&&b==hi,what<<": local elements "<<a<<".."<<b<<" instead of "<<lo<<".."<<hi);
        for (auto &q:G) if (own[gi(&q)]==me) for (int k=0;k<q.ve;k++) { C x(99); v->getElement(q.vi[k],x); C e=Gen::vval(&q,k,0,round); VM_CHECK(x==e,what<<": element "<<q.vi[k]<<" is "<<x<<" instead of "<<e); }
        for (int i=lo;i<hi;i++) v->setElement(i,C(i+0.5,round)); v->ready(); clear(); m->mapToNetwork(v);
        for (size_t l=0;l<mine.size();l++) { Gen *q=mine[l]; if (!act[l]) { VM_CHECK(q->ngot==0,what<<": values given to a ghost"); continue; } VM_CHECK(q->ve==0||q->ngot==1,what<<": component got values "<<q->ngot<<" times"); for (int k=0;k<q->ve;k++) VM_CHECK(q->got[k]==C(q->vi[k]+0.5,round),what<<": component got "<<q->got[k]<<" for element "<<q->vi[k]); } };
      for (char o:ops) switch (o) {
        case 'V': set(0); v=m->mapToVector(); vcmp("new vector"); break;
        case 'Q': set(0); v.reset(m->intMapToVector()); vcmp("new vector (pointer)"); break;
        case 'X': if (!v) break; set(0); m->mapToVector(v); vcmp("vector mapped again"); break;
        case '2': for (auto *q:mine) q->vi.clear(); m.reset(); m.reset(new VMap(p)); idx(&Gen::vi,&Gen::ve,true,"elements again"); v.reset(); break;
      } }
    if (w=="slab") { boost::shared_ptr<SMap> m(new SMap(p)); boost::shared_ptr<Matrix> A; idx(&Gen::si,&Gen::sr,true,"slab rows"); int W=mode; std::vector<C> d(R*W);
      auto scmp=[&](const char *what) { for (auto &q:G) for (int k=0;k<q.sr;k++) for (int j=0;j<W;j++) d[q.si[k]*W+j]=Gen::vval(&q,k,j,round); cmp(*A,R,W,d,lo,hi,what); VM_CHECK(A->storageType()==Dense,what<<": slab is not dense");
        for (int i=lo;i<hi;i++) for (int j=0;j<W;j++) A->setElement(i,j,C(i*10+j,round)); A->ready(); clear(); m->mapToNetwork(A);
        for (size_t l=0;l<mine.size();l++) { Gen *q=mine[l]; if (!act[l]) { VM_CHECK(q->ngot==0,what<<": values given to a ghost"); continue; } VM_CHECK(q->sr==0||q->ngot==1,what<<": component got values "<<q->ngot<<" times"); for (int k=0;k<q->sr;k++) for (int j=0;j<W;j++) VM_CHECK(q->got[k*W+j]==C(q->si[k]*10+j,round),what<<": component got "<<q->got[k*W+j]<<" for row "<<q->si[k]); } };
      for (char o:ops) switch (o) {
        case 'S': set(0); A=m->mapToMatrix(); scmp("new slab"); break;
        case 'N': set(0); A.reset(m->intMapToMatrix()); scmp("new slab (pointer)"); break;
        case 'T': if (!A) break; set(0); m->mapToMatrix(A); scmp("slab mapped again"); break;
        case 'U': { // one component with another number of columns: refused by everybody
          int cnt=0,t=-1; for (int i=0;i<K;i++) if (G[i].sr) { cnt++; t=i; } if (cnt<2) break; for (auto *q:mine) if (gi(q)==t) q->sc=W+1; bool ok=false; try { SMap bad(p); } catch (gridpack::Exception &) { ok=true; } VM_CHECK(ok,"slab with different numbers of columns is accepted"); for (auto *q:mine) q->sc=W; break; }
        case '2': for (auto *q:mine) q->si.clear(); m.reset(); m.reset(new SMap(p)); idx(&Gen::si,&Gen::sr,true,"slab rows again"); A.reset(); break;
      } }
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); gridpack::math::Initialize(0,NULL); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
      g=graph(c.gets("g")); std::string as=c.gets("as"),w=c.gets("w");
      if (as!="all") one(cm,ints(as),w,c); else { Odo o(std::vector<int>(g.n,cm.size())); do { label("partition "+o.str()); one(cm,o.d,w,c); if (rank==0) count_sub(1,cm.size()>1); } while (o.next()); }
      record("ok");
    } gridpack::math::Finalize(); par_end();
  }
};
Harness *vm::make_harness() { return new GMap; }
