// Factory: component set-up, numbering for matrices, load/mode/save, votes.
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;
typedef gridpack::factory::BaseFactory<TNet> TFac;

struct FA : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const std::string &g,const std::string &as,int ref,int pm,int comm=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.put_mode=pm; c.explore=ex; c.bound=b; c.set("g",g).set("as",as).set("ref",ref).set("comm",comm); emit(c); };
    std::vector<std::string> g3=connected_graphs(3), g4=connected_graphs(4);
    for (int np=1;np<=3;np++) for (auto &g:g3) for (int ref=-1;ref<3;ref++) add(np,g,"all",ref,ref&1);
    for (int np=2;np<=(th?4:3);np++) for (size_t k=0;k<g4.size();k+=(np==2||th)?1:2) add(np,g4[k],"all",k%5-1,k&1);
    for (int np=2;np<=3;np++) for (const char *g:{"4:0-1,0-1,1-2,2-3","5:4-0,0-3,3-1,1-2","5:2-0,2-1,2-3,2-4"}) add(np,g,"all",2,1);
    if (!th) for (size_t k=0;k<g4.size();k+=12) add(4,g4[k],"all",1,1);
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) add(np,col%4?"4:0-1,1-2,2-0,2-3":"3:0-1,2-1","all",1,1,col+1);
    for (int pm=0;pm<2;pm++) for (const char *as:{"0,1,0","1,0,0","1,1,0"}) add(2,"3:0-1,1-2,2-0",as,1,pm,0,PREEMPT_BOUND,th?3:2);
  }
  void one(Communicator &cm,const Graph &g,const std::vector<int> &as,int ref)
  {
    boost::shared_ptr<TNet> p(new TNet(cm)); TNet &net=*p; int me=cm.rank(),np=cm.size(); build(net,g,1,2);
    for (int i=0;i<net.numBuses();i++) if (ref>=0&&net.getOriginalBusIndex(i)==orig(ref)) net.getBusData(i)->addValue("B_REF",true);
    if (me==np-1) p->getNetworkData()->addValue("BASE",42.5); p->broadcastNetworkData(np-1); double x; VM_CHECK(p->getNetworkData()->getValue("BASE",&x)&&x==42.5,"network data is not broadcast");
    g_assign=vertex_order(net,as); net.partition();
    TFac f(p); f.load(); f.setComponents(); f.setMode(7);
    for (int i=0;i<net.numBuses();i++) { TBus *b=net.getBus(i).get(); int o=net.getOriginalBusIndex(i); VM_CHECK(b->loads==1&&b->seen==o,"bus "<<o<<" was loaded "<<b->loads<<" times, with the data of "<<b->seen); VM_CHECK(b->getRank()==me,"rank of component"); VM_CHECK(b->mode==7&&b->nmode==1,"mode of bus component");
      VM_CHECK(b->getReferenceBus()==(ref>=0&&o==orig(ref)),"reference flag of bus "<<o<<" is "<<b->getReferenceBus()); VM_CHECK(b->getOriginalIndex()==o&&b->getGlobalIndex()==net.getGlobalBusIndex(i),"indices of bus component "<<o<<": "<<b->getOriginalIndex()<<","<<b->getGlobalIndex()); }
    int r=net.getReferenceBus(); if (r>=0) VM_CHECK(ref>=0&&net.getOriginalBusIndex(r)==orig(ref),"reference bus of the network is "<<r); else for (int i=0;i<net.numBuses();i++) VM_CHECK(ref<0||net.getOriginalBusIndex(i)!=orig(ref),"reference bus lost");
    for (int i=0;i<net.numBranches();i++) { TBranch *b=net.getBranch(i).get(); int k; net.getBranchData(i)->getValue("L_ID",&k); VM_CHECK(b->loads==1&&b->seen==k,"branch "<<k<<" was loaded "<<b->loads<<" times, with the data of "<<b->seen); VM_CHECK(b->mode==7&&b->nmode==1,"mode of branch component"); VM_CHECK(b->getRank()==me,"rank of component");
      VM_CHECK(b->getGlobalIndex()==net.getGlobalBranchIndex(i)&&b->getBus1OriginalIndex()==orig(g.e[k].first)&&b->getBus2OriginalIndex()==orig(g.e[k].second)&&b->getBus1GlobalIndex()==g.e[k].first&&b->getBus2GlobalIndex()==g.e[k].second,"indices of branch component "<<k);
      int x,y; net.getBranchEndpoints(i,&x,&y); VM_CHECK(b->getBus1().get()==net.getBus(x).get()&&b->getBus2().get()==net.getBus(y).get(),"ends of branch component "<<k);
      int m1,m2,c1,c2; b->getMatVecIndices(&m1,&m2); net.getBus(x)->getMatVecIndex(&c1); net.getBus(y)->getMatVecIndex(&c2); VM_CHECK(m1==c1&&m2==c2,"matrix indices of branch "<<k<<" are "<<m1<<","<<m2<<", its buses have "<<c1<<","<<c2); }
    verify_components(net,"set-up"); verify(net,g,1,std::vector<int>(),"set-up");
    // numbering: consecutive per process in process order, copies agree
    std::vector<int> w(np,0); for (int a:as) w[a]++; int k=0; for (int i=0;i<me;i++) k+=w[i];
    std::vector<int> idx(g.n,-1); for (int i=0;i<net.numBuses();i++) if (net.getActiveBus(i)) { int m; net.getBus(i)->getMatVecIndex(&m); VM_CHECK(m==k,"matrix index of bus "<<net.getOriginalBusIndex(i)<<" is "<<m<<" instead of "<<k); idx[net.getGlobalBusIndex(i)]=m; k++; }
    cm.max(&idx[0],g.n); for (int i=0;i<net.numBuses();i++) { int m; net.getBus(i)->getMatVecIndex(&m); VM_CHECK(m==idx[net.getGlobalBusIndex(i)],"matrix index of the copy of bus "<<net.getOriginalBusIndex(i)<<" is "<<m<<", the owner has "<<idx[net.getGlobalBusIndex(i)]); }
    f.setBusMode(3); f.setBranchMode(4); for (int i=0;i<net.numBuses();i++) VM_CHECK(net.getBus(i)->mode==3,"bus mode"); for (int i=0;i<net.numBranches();i++) VM_CHECK(net.getBranch(i)->mode==4,"branch mode");
    f.saveData(); for (int i=0;i<net.numBuses();i++) { int t; VM_CHECK(net.getBus(i)->saves==1&&net.getBusData(i)->getValue("SAVED",&t)&&t==net.getBus(i)->tag,"data of bus not saved"); } for (int i=0;i<net.numBranches();i++) { int t; VM_CHECK(net.getBranch(i)->saves==1&&net.getBranchData(i)->getValue("SAVED",&t)&&t==net.getBranch(i)->tag,"data of branch not saved"); }
    gridpack::component::BaseBusComponent **bp; gridpack::component::BaseBranchComponent **lp; int nb,nl; f.getBusPointers(&bp,&nb); f.getBranchPointers(&lp,&nl); VM_CHECK(nb==net.numBuses()&&nl==net.numBranches(),"component lists"); for (int i=0;i<nb;i++) VM_CHECK(bp[i]==net.getBus(i).get(),"component list of buses"); for (int i=0;i<nl;i++) VM_CHECK(lp[i]==net.getBranch(i).get(),"component list of branches");
    // votes: every pattern
    for (int pat=0;pat<(1<<np);pat++) { bool all=pat==(1<<np)-1, some=pat!=0; bool a=f.checkTrue(pat>>me&1), s=f.checkTrueSomewhere(pat>>me&1); VM_CHECK(a==all,"checkTrue is "<<a<<" for votes "<<pat); VM_CHECK(s==some,"checkTrueSomewhere is "<<s<<" for votes "<<pat); }
    // a second factory on the same network changes nothing
    TFac f2(p); f2.setComponents(); verify_components(net,"second set-up"); for (int i=0;i<net.numBuses();i++) { int m; net.getBus(i)->getMatVecIndex(&m); VM_CHECK(m==idx[net.getGlobalBusIndex(i)],"second set-up changes the matrix index"); }
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
      Graph g=graph(c.gets("g")); int p=cm.size(); std::string as=c.gets("as"); int ref=c.geti("ref"); if (ref>=g.n) ref=-1;
      if (as!="all") one(cm,g,ints(as),ref);
      else { Odo o(std::vector<int>(g.n,p)); do { label("partition "+o.str()); one(cm,g,o.d,ref); if (rank==0) count_sub(1,p>1); } while (o.next()); }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new FA; }
