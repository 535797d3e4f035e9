// Ghost exchange: after an update every copy holds what its owner holds.
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;
typedef gridpack::factory::BaseFactory<TNet> TFac;

struct EX : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const std::string &g,const std::string &as,const std::string &ops,int ext,int pm,int comm=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.put_mode=pm; c.explore=ex; c.bound=b; c.set("g",g).set("as",as).set("ops",ops).set("ext",ext).set("comm",comm); emit(c); };
    std::vector<std::string> g3=connected_graphs(3), g4=connected_graphs(4);
    // every assignment, buses then branches twice
    for (int np=1;np<=3;np++) for (auto &g:g3) for (int ext=0;ext<2;ext++) for (int pm=0;pm<2;pm++) add(np,g,"all","ul",ext,pm);
    for (int np=2;np<=3;np++) for (size_t k=0;k<g4.size();k+=(np==3&&!th)?3:1) add(np,g4[k],"all","ul",k&1,(k>>1)&1);
    for (size_t k=0;k<g4.size();k+=th?1:9) add(4,g4[k],"all","ul",k&1,1);
    for (const char *g:{"4:0-1,0-1,1-2,2-3","5:4-0,0-3,3-1,1-2"}) for (int np=2;np<=(th?4:3);np++) add(np,g,"all","lu",np&1,1);
    // every history of up to n operations
    //  u/l update buses/branches  U/L the same without new values, copies scribbled over
    //  i/j initialise again  e/n exchange buffers of the components/network, other size  c clean+partition+all again
    const char *A="ulULijenc"; int n=th?4:3; int tot=1; for (int i=0;i<n;i++) tot*=9;
    for (int k=0;k<tot;k++) { std::string o; for (int q=k,i=0;i<n;i++,q/=9) o+=A[q%9]; add(2,"3:0-1,1-2,2-0",k%3==0?"0,1,0":k%3==1?"1,1,0":"1,1,1",o,k&1,(k>>2)&1); if (th||k%5==0) add(3,"4:0-1,1-2,2-0,2-3",k%4==0?"0,1,2,2":k%4==1?"2,2,0,0":k%4==2?"1,0,1,0":"2,1,0,1",o,(k>>1)&1,1); }
    // part of the processes
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) add(np,"3:0-1,2-1","all","ul",col%4==0,1,col+1);
    // schedules
    for (int pm=0;pm<2;pm++) for (const char *as:{"0,1,0","1,0,0","0,1,1"}) { add(2,"3:0-1,1-2,2-0",as,"uu",pm,pm,0,PREEMPT_BOUND,th?3:2); add(2,"3:0-1,1-2,2-0",as,"ll",!pm,pm,0,PREEMPT_BOUND,th?3:2); add(2,"3:0-1,1-2,2-0",as,"ulu",pm,pm,0,PREEMPT_BOUND,th?2:1); }
    if (th) for (int pm=0;pm<2;pm++) add(3,"3:0-1,1-2,2-0","0,1,2","u",pm,pm,0,PREEMPT_BOUND,1);
  }
  static unsigned char val(int kind,int g,int round,int byte) { return (unsigned char)(kind*97+g*31+round*7+byte*3+1); }
  struct State { int rb,rl; };
  unsigned char *bus(TNet &n,int i) { return (unsigned char*)(n.getBus(i)->xp); }
  unsigned char *br(TNet &n,int i) { return (unsigned char*)(n.getBranch(i)->xp); }
  void exch(TNet &net,boost::shared_ptr<TNet> p,int ext,int sb,int sl) {
    TBus::xcsize()=sb; TBranch::xcsize()=sl; TFac f(p);
    for (int i=0;i<net.numBuses();i++) memset(&net.getBus(i)->own,0xEE,sizeof(XBuf)); for (int i=0;i<net.numBranches();i++) memset(&net.getBranch(i)->own,0xEE,sizeof(XBuf));
    f.setExchange(!ext); }
  void one(Communicator &cm,const Graph &g,const std::vector<int> &as,const std::string &ops,int ext)
  {
    boost::shared_ptr<TNet> p(new TNet(cm)); TNet &net=*p; build(net,g,1,2); g_assign=as; net.partition();
    std::map<int,int> o2g; for (int i=0;i<g.n;i++) o2g[orig(i)]=i;
    int sb=sizeof(XBuf),sl=sizeof(XBuf),round=0,rb=0,rl=0; 
    auto fill=[&](bool owners,bool ghosts,int which,int r){ 
      if (which==0) for (int i=0;i<net.numBuses();i++) { bool a=net.getActiveBus(i); if (a?owners:ghosts) for (int k=0;k<sb;k++) bus(net,i)[k]= a?val(1,o2g[net.getOriginalBusIndex(i)],r,k):0xAB; }
      else for (int i=0;i<net.numBranches();i++) { bool a=net.getActiveBranch(i); if (a?owners:ghosts) for (int k=0;k<sl;k++) br(net,i)[k]= a?val(2,net.getGlobalBranchIndex(i),r,k):0xAB; } };
    auto look=[&](int which,const char *what){ 
      if (which==0) for (int i=0;i<net.numBuses();i++) { int gi=o2g[net.getOriginalBusIndex(i)]; for (int k=0;k<sb;k++) VM_CHECK(bus(net,i)[k]==val(1,gi,rb,k),what<<": byte "<<k<<" of the "<<(net.getActiveBus(i)?"owner's":"ghost")<<" buffer of bus "<<orig(gi)<<" is "<<(int)bus(net,i)[k]<<", the owner wrote "<<(int)val(1,gi,rb,k));
        if (ext) for (size_t k=sb;k<sizeof(XBuf);k++) VM_CHECK(bus(net,i)[k]==0xEE,"bytes behind the exchange buffer of a bus changed"); }
      else for (int i=0;i<net.numBranches();i++) { int gi=net.getGlobalBranchIndex(i); for (int k=0;k<sl;k++) VM_CHECK(br(net,i)[k]==val(2,gi,rl,k),what<<": byte "<<k<<" of the "<<(net.getActiveBranch(i)?"owner's":"ghost")<<" buffer of branch "<<gi<<" is "<<(int)br(net,i)[k]<<", the owner wrote "<<(int)val(2,gi,rl,k));
        if (ext) for (size_t k=sl;k<sizeof(XBuf);k++) VM_CHECK(br(net,i)[k]==0xEE,"bytes behind the exchange buffer of a branch changed"); } };
    auto start=[&]{ exch(net,p,ext,sb,sl); net.initBusUpdate(); net.initBranchUpdate(); round++; rb=rl=round; fill(true,true,0,round); fill(true,true,1,round); net.updateBuses(); look(0,"first bus update"); net.updateBranches(); look(1,"first branch update"); };
    start();
    for (char o:ops) { round++;
      switch (o) {
        case 'u': rb=round; fill(true,true,0,round); net.updateBuses(); look(0,"bus update"); look(1,"branches after bus update"); break;
        case 'l': rl=round; fill(true,true,1,round); net.updateBranches(); look(1,"branch update"); look(0,"buses after branch update"); break;
        case 'U': fill(false,true,0,round); net.updateBuses(); look(0,"bus update again"); break;
        case 'L': fill(false,true,1,round); net.updateBranches(); look(1,"branch update again"); break;
        case 'i': net.initBusUpdate(); look(0,"init"); fill(false,true,0,round); net.updateBuses(); look(0,"bus update after init"); break;
        case 'j': net.initBranchUpdate(); look(1,"init"); fill(false,true,1,round); net.updateBranches(); look(1,"branch update after init"); break;
        case 'e': ext=1; sb=1+(round*5)%sizeof(XBuf); sl=1+(round*11)%sizeof(XBuf); start(); break;
        case 'n': ext=0; sb=1+(round*3)%sizeof(XBuf); sl=1+(round*7)%sizeof(XBuf); start(); break;
        case 'c': net.clean(); { std::vector<int> a; for (int x:as) a.push_back((x+round)%cm.size()); g_assign=a; } net.partition(); start(); break;
      } }
    VM_CHECK(net.numBuses()>=0,"");
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
      Graph g=graph(c.gets("g")); int p=cm.size(); std::string as=c.gets("as"),ops=c.gets("ops"); int ext=c.geti("ext");
      if (as!="all") one(cm,g,ints(as),ops,ext);
      else { Odo o(std::vector<int>(g.n,p)); do { label("partition "+o.str()); one(cm,g,o.d,ops,ext); if (rank==0) count_sub(1,p>1); } while (o.next()); }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new EX; }
