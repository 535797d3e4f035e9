// Partitioning: every possible answer of the graph partitioner.
#include "netkit.hpp"
#include "parstub.hpp"
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;

struct NP : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const std::string &g,int bs,int ls,int pm,int comm,const std::string &as="all",Explore ex=DEFAULT_SCHED,int b=0,int sm=0) { Case c; c.np=np; c.put_mode=pm; c.send_mode=sm; c.explore=ex; c.bound=b; c.set("g",g).set("bs",bs).set("ls",ls).set("comm",comm).set("as",as); emit(c); };
    std::vector<std::string> g3=connected_graphs(3), g4=connected_graphs(4);
    std::vector<std::string> extra={"4:0-1,1-2","3:2-0","4:0-1,0-1,1-2,2-3","5:4-0,0-3,3-1,1-2","5:2-0,2-1,2-3,2-4","5:0-1,1-2,2-3,3-4,4-0,1-3"};
    for (int np=1;np<=3;np++) for (auto &g:g3) for (int bs=0;bs<5;bs++) for (int pm=0;pm<2;pm++) add(np,g,bs,(bs+pm)%5,pm,0);
    for (int np=1;np<=2;np++) for (size_t k=0;k<g4.size();k++) for (int bs=0;bs<5;bs++) add(np,g4[k],bs,(bs*3+k)%5,(k+bs)%2,0);
    for (size_t k=0;k<g4.size();k++) for (int bs=0;bs<(th?5:1);bs++) add(3,g4[k],(k+bs)%5,(k*3+bs)%5,(k+bs)%2,0);
    for (int np=1;np<=3;np++) for (size_t k=0;k<extra.size();k++) for (int bs=0;bs<(np==3&&!th?1:3);bs++) { if (np==3&&k==1) continue; add(np,extra[k],bs*2,bs,1,0); }
    for (size_t k=0;k<g4.size();k+=th?1:6) add(4,g4[k],k%5,(k+1)%5,k%2,0);
    if (th) for (size_t k=3;k<extra.size();k++) add(4,extra[k],k%5,1,1,0);
    // the network lives on part of the processes
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) add(np,col%4?"4:0-1,1-2,2-0,2-3":"3:0-1,2-1",0,1,1,col+1);
    // schedules
    if (!th) { add(2,"2:0-1",1,1,1,0,"1,0",PREEMPT_BOUND,1); add(2,"2:1-0",0,1,0,0,"0,1",PREEMPT_BOUND,1); for (auto a:{"0,1,0","1,0,0"}) for (int pm=0;pm<2;pm++) for (const char *g:{"3:0-1,1-2","3:1-0,2-0,1-2"}) add(2,g,a[0]==49?1:0,1,pm,0,a,PREEMPT_BOUND,1); return; }
    for (auto a:{"0,1,0","1,0,0"}) for (int pm=0;pm<2;pm++) for (const char *g:{"3:0-1,1-2","3:1-0,2-0,1-2"}) add(2,g,a[0]=='1'?1:0,1,pm,0,a,PREEMPT_BOUND,2);
    for (auto a:{"0,1,2","2,1,1"}) add(3,"3:0-1,1-2",1,2,1,0,a,PREEMPT_BOUND,1);
  }
  void one(Communicator &cm,const Graph &g,int bs,int ls,const std::vector<int> &as)
  {
    TNet net(cm); build(net,g,bs,ls); g_assign=as; g_calls=0; net.partition();
    std::vector<int> want; 
    if (g_calls) { want.assign(cm.size(),0); for (int a:as) want[a]++;
      std::vector<int> deg(g.n,0); for (auto &e:g.e) { deg[e.first]++; deg[e.second]++; } std::sort(deg.begin(),deg.end()); VM_CHECK(g_degrees==deg,"the partitioner saw a graph with degrees "<<show(g_degrees)<<" instead of "<<show(deg)); }
    verify(net,g,true,want,"after partition"); verify_components(net,"after partition");
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
      Graph g=graph(c.gets("g")); int p=cm.size(); int bs=c.geti("bs"),ls=c.geti("ls"); std::string as=c.gets("as");
      if (g.n>=p) {
        if (as!="all") one(cm,g,bs,ls,ints(as));
        else { Odo o(std::vector<int>(g.n,p)); do { label("partition "+o.str()); one(cm,g,bs,ls,o.d); if (rank==0) count_sub(1,p>1); } while (o.next()); }
      }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new NP; }
