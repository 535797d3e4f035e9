// Network queries: totals, values and topology asked of a distributed network must be those of
// the complete network, on every process, for every small network and distribution.
// USES: parallel timer environment configuration component factory partition
#include "vm.hpp"
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/analysis/network_analytics.hpp"
using namespace vm; using namespace hu; using namespace nk;
using gridpack::parallel::Communicator;
typedef gridpack::analysis::NetworkAnalytics<TNet> NA;
// devices: a list of statuses, -1 if there is no entry
static std::vector<int> devs(int kind,int d,int i) { std::vector<int> v; int n=(i*(kind+1)+d+kind)%4; for (int k=0;k<n;k++) v.push_back((i+k+d*k+kind)%3==0?0:(i+k+kind)%4==3?-1:1); return v; }
static int live(const std::vector<int> &v) { int n=0; for (int x:v) n+=x!=0; return n; }
struct Q : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](int np,const std::string &g,const std::string &as,int d,int bs,int ls,int sub=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.explore=ex; c.bound=b; c.set("g",g).set("as",as).set("d",d).set("bs",bs).set("ls",ls).set("sub",sub); emit(c); };
    std::vector<std::string> G; for (int n=2;n<=4;n++) for (auto &g:connected_graphs(n)) G.push_back(g);
    for (auto t:{"5:0-1,2-1,2-3,3-4,4-0,1-3","5:1-0,2-0,3-0,0-4","6:0-1,2-1,2-3,4-3,4-5,5-0"}) G.push_back(t);
    int k=0; for (auto &g:G) { int n=atoi(g.c_str()); for (int np=1;np<=std::min(n,th?4:3);np++) { double parts=pow(np,n); if (parts>(th?1100:260)) continue; for (int d=0;d<(th?6:2);d++) { add(np,g,"all",d+(th?0:k%3*2),(k+d)%6,(k+np)%6); k++; } } }
    for (auto as:{"0,1,1","1,0,1","1,1,0"}) for (auto g:{"3:0-1,2-1","3:1-0,2-0,1-2"}) add(2,g,as,1,1,1,0,PREEMPT_BOUND,th?2:1);
    for (auto as:{"0,1,1","1,0,1","1,1,1"}) for (auto g:{"3:0-1,2-1","3:1-0,2-0,1-2"}) for (int np=3;np<=4;np++) add(np,g,as,2,1,0,1); }
  Graph g; int dd; Communicator *cm;
  void data(TNet &net) { for (int l=0;l<net.numBuses();l++) { int i=net.getGlobalBusIndex(l); boost::shared_ptr<DC> d=net.getBusData(l); auto put=[&](const char *n,const char *s,const std::vector<int> &v) { if (v.empty()&&i%2) return; d->addValue(n,(int)v.size()); for (size_t k=0;k<v.size();k++) if (v[k]>=0) d->addValue(s,v[k],(int)k); };
      put(GENERATOR_NUMBER,GENERATOR_STAT,devs(0,dd,i)); put(LOAD_NUMBER,LOAD_STATUS,devs(1,dd,i)); if (i%2==0) d->addValue("X_ONLY",100+i); if (i%3==1) d->addValue("X_NAME",std::string("bus"+std::to_string(i)).c_str(),2); d->addValue("X_NO",i==1); }
    for (int l=0;l<net.numBranches();l++) { int i=net.getGlobalBranchIndex(l); boost::shared_ptr<DC> d=net.getBranchData(l); std::vector<int> v=devs(2,dd,i); if (v.empty()&&i%2) continue; d->addValue(BRANCH_NUM_ELEMENTS,(int)v.size()); for (size_t k=0;k<v.size();k++) { if (v[k]>=0) d->addValue(BRANCH_STATUS,v[k],k); if (k%2==0) d->addValue("X_R",i+0.5*k,k); d->addValue("X_CK",std::string("c"+std::to_string(10*i+k)).c_str(),k); } } }
  template<class T> void askb(NA &a,int i,const char *f,int k,bool ok,T want,T none) { T v=none; bool r=a.getBusInfo(i,f,v,k); VM_CHECK(r==ok,"value "<<f<<" ["<<k<<"] of bus "<<i<<(r?" is found":" is not found")); VM_CHECK(v==(ok?want:none),"value "<<f<<" ["<<k<<"] of bus "<<i<<" is "<<v<<" instead of "<<(ok?want:none)); }
  template<class T> void askl(NA &a,int i,const char *f,int k,bool ok,T want,T none) { T v=none; bool r=a.getBranchInfo(i,f,v,k); VM_CHECK(r==ok,"value "<<f<<" ["<<k<<"] of branch "<<i<<(r?" is found":" is not found")); VM_CHECK(v==(ok?want:none),"value "<<f<<" ["<<k<<"] of branch "<<i<<" is "<<v<<" instead of "<<(ok?want:none)); }
  void ask(NA &a,int changed) { int n=g.n,m=g.e.size(),tg=0,tl=0,tb=0; auto gen=[&](int i) { std::vector<int> v=devs(0,dd,i); if (i==changed) for (auto &x:v) if (x>=0) x=!x; return live(v); };
    VM_CHECK(a.totalBuses()==n,"the network has "<<a.totalBuses()<<" buses"); VM_CHECK(a.totalBranches()==m,"the network has "<<a.totalBranches()<<" branches");
    for (int i=-1;i<=n;i++) { bool in=i>=0&&i<n; int wg=in?gen(i):0,wl=in?live(devs(1,dd,i)):0; tg+=wg; tl+=wl; int q=a.numGenerators(i); VM_CHECK(q==wg,"bus "<<i<<" has "<<q<<" generators instead of "<<wg); q=a.numLoads(i); VM_CHECK(q==wl,"bus "<<i<<" has "<<q<<" loads instead of "<<wl); VM_CHECK(a.numStorage(i)==0,"storage");
      std::vector<int> w,c=a.getConnectedBranches(i); for (int k=0;k<m;k++) if (g.e[k].first==i||g.e[k].second==i) w.push_back(k); std::sort(c.begin(),c.end()); VM_CHECK(c==w,"branches "<<show(c)<<" are connected to bus "<<i<<" instead of "<<show(w));
      askb<int>(a,i,"B_NUM",-1,in,in?orig(i):0,-5); askb<int>(a,i,"X_ONLY",-1,in&&i%2==0,100+i,-5); askb<std::string>(a,i,"B_NAME",-1,in,in?bname(i):"","none"); for (int k=0;k<4;k++) { askb<std::string>(a,i,"X_NAME",k,in&&i%3==1&&k==2,"bus"+std::to_string(i),"none"); askb<double>(a,i,"B_X",k,in&&k<i%3,1.5*i+k,-7.5); } askb<bool>(a,i,"X_NO",-1,in,i==1,true); askb<int>(a,i,"NOTHING",-1,false,0,-5); }
    for (int k=-1;k<=m;k++) { bool in=k>=0&&k<m; std::vector<int> v; if (in) v=devs(2,dd,k); tb+=live(v); int q=a.numLines(k); VM_CHECK(q==live(v),"branch "<<k<<" has "<<q<<" lines instead of "<<live(v));
      if (in) { int f=-3,t=-3; a.getBranchEndpoints(k,&f,&t); VM_CHECK(f==g.e[k].first&&t==g.e[k].second,"branch "<<k<<" runs from "<<f<<" to "<<t<<" instead of from "<<g.e[k].first<<" to "<<g.e[k].second); }
      for (int j=0;j<4;j++) { askl<double>(a,k,"X_R",j,j<(int)v.size()&&j%2==0,k+0.5*j,-7.5); askl<std::string>(a,k,"X_CK",j,j<(int)v.size(),"c"+std::to_string(10*k+j),"none"); } askl<int>(a,k,"L_ID",-1,in,k,-5); askl<bool>(a,k,"L_OK",-1,in,k%2==0,true); }
    int q=a.numGenerators(); VM_CHECK(q==tg,"there are "<<q<<" generators instead of "<<tg); q=a.numLoads(); VM_CHECK(q==tl,"there are "<<q<<" loads instead of "<<tl); q=a.numLines(); VM_CHECK(q==tb,"there are "<<q<<" lines instead of "<<tb); VM_CHECK(a.numStorage()==0,"storage"); }
  void one(const std::vector<int> &as,const Case &c) { boost::shared_ptr<TNet> net(new TNet(*cm)); build(*net,g,c.geti("bs"),c.geti("ls")); data(*net); g_assign=vertex_order(*net,as); net->partition(); gridpack::factory::BaseFactory<TNet> f(net); f.setComponents(); NA a(net); ask(a,-1);
    // answers follow the data
    int ch=c.geti("d")%g.n; for (int l=0;l<net->numBuses();l++) if (net->getGlobalBusIndex(l)==ch) { boost::shared_ptr<DC> d=net->getBusData(l); std::vector<int> v=devs(0,dd,ch); for (size_t k=0;k<v.size();k++) if (v[k]>=0) d->setValue(GENERATOR_STAT,v[k]?0:1,(int)k); } ask(a,ch); NA b(net); ask(b,ch); }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); g=graph(c.gets("g")); dd=c.geti("d"); { Communicator world; Communicator sub=c.geti("sub")?world.split(rank<np-2?0:1):world; cm=&sub;
      if (c.geti("sub")&&rank<np-2) record("idle"); else { if (c.gets("as")!="all") one(ints(c.gets("as")),c); else { Odo o(std::vector<int>(g.n,np)); do { label("partition "+o.str()); one(o.d,c); if (rank==0) count_sub(1,np>1); } while (o.next()); } record("ok"); } world.sync(); } par_end(); }
};
Harness *vm::make_harness() { return new Q; }
