// Histories of a network: clean, partition again, renumber, clone, clear, set-up.
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;

struct NH : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const std::string &g,const std::string &as,const std::string &ops,int ref,int pm,int comm=0) { Case c; c.np=np; c.put_mode=pm; c.set("g",g).set("as",as).set("ops",ops).set("ref",ref).set("comm",comm); emit(c); };
    //  P clean+partition with another answer   R/r renumber everything/by hand + ghosts
    //  K clone, check and drop   k clone there and back and go on   C clear and read again
    //  S choose the reference bus   F factory set-up
    const char *A="PRrKkCSF"; int n=th?5:3; int tot=1; for (int i=0;i<n;i++) tot*=8;
    static const char *G[]={"3:0-1,1-2,2-0","4:0-1,1-2,2-0,2-3","4:3-1,1-0,2-1","5:4-0,0-3,3-1,1-2,2-4"};
    for (int k=0;k<tot;k++) { std::string o; for (int q=k,i=0;i<n;i++,q/=8) o+=A[q%8]; std::string g=G[k%4]; int nb=g[0]-'0';
      for (int np=1;np<=(th?2:3);np++) { std::vector<int> a; for (int i=0;i<nb;i++) a.push_back((k/7+i*(k%3)+i*i)%np); std::string as; for (int i=0;i<nb;i++) as+=(i?",":"")+std::to_string(a[i]); add(np,g,as,o,k%nb,k&1); } }
    // every assignment for short histories
    for (const char *o:{"SP","SF","SK","Sk","PF","RF","rK","PRk","CPF","SPSF"}) for (int np=2;np<=3;np++) for (int r=0;r<3;r++) for (int pm=0;pm<2;pm++) { add(np,"3:0-1,2-0",  "all",o,r,pm); add(np,"4:0-1,1-2,2-0,2-3","all",o,r,pm); }
    if (th) for (const char *o:{"SP","SKF","rRP"}) for (int r=0;r<4;r++) add(4,"4:0-1,1-2,2-0,2-3","all",o,r,1);
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) add(np,"4:0-1,1-2,2-0,2-3","all",col%4?"SPRK":"rPkF",1,1,col+1);
  }
  // the reference bus, wherever it is known, is the bus that was chosen
  template<class N> void refcheck(N &net,int ref,const char *when) {
    int r=net.getReferenceBus(); VM_CHECK(r>=-1&&r<net.numBuses(),when<<": reference bus index "<<r<<" with "<<net.numBuses()<<" buses");
    if (ref<0) { VM_CHECK(r==-1,when<<": there is a reference bus although none was chosen"); return; }
    if (r>=0) VM_CHECK(net.getOriginalBusIndex(r)==orig(ref),when<<": the reference bus is "<<net.getOriginalBusIndex(r)<<" instead of "<<orig(ref));
    for (int i=0;i<net.numBuses();i++) if (net.getOriginalBusIndex(i)==orig(ref)&&net.getActiveBus(i)) VM_CHECK(r==i,when<<": the owner does not know the reference bus any more"); }
  void cleaned(TNet &net,const Graph &g,const std::vector<int> &as) {
    int me=net.processor_rank(); VM_CHECK(net.totalBuses()==g.n&&net.totalBranches()==(int)g.e.size(),"after clean: buses or branches lost");
    std::map<int,int> o2g; for (int i=0;i<g.n;i++) o2g[orig(i)]=i; std::map<int,int> l;
    for (int i=0;i<net.numBuses();i++) { VM_CHECK(net.getActiveBus(i),"after clean: ghost bus left"); int gi=o2g[net.getOriginalBusIndex(i)]; VM_CHECK(as[gi]==me,"after clean: wrong bus"); l[gi]=i;
      std::vector<int> li=net.getLocalBusIndices(orig(gi)); VM_CHECK(li.size()==1&&li[0]==i,"after clean: look up of bus "<<orig(gi)<<" gives "<<show(li)<<" instead of "<<i); }
    for (int i=0;i<g.n;i++) if (!l.count(i)) VM_CHECK(net.getLocalBusIndices(orig(i)).empty(),"after clean: removed bus "<<orig(i)<<" is still found");
    for (int i=0;i<net.numBranches();i++) { VM_CHECK(net.getActiveBranch(i),"after clean: ghost branch left"); int a,b,x,y; net.getOriginalBranchEndpoints(i,&a,&b); net.getBranchEndpoints(i,&x,&y); a=o2g[a]; b=o2g[b];
      VM_CHECK(x==(l.count(a)?l[a]:-1)&&y==(l.count(b)?l[b]:-1),"after clean: branch "<<orig(a)<<"-"<<orig(b)<<" has local ends "<<x<<","<<y);
      if (x>=0) { std::vector<int> nb=net.getConnectedBranches(x); VM_CHECK(std::count(nb.begin(),nb.end(),i)==1,"after clean: bus lost a branch"); } if (y>=0) { std::vector<int> nb=net.getConnectedBranches(y); VM_CHECK(std::count(nb.begin(),nb.end(),i)==1,"after clean: bus lost a branch"); } }
    for (int i=0;i<net.numBuses();i++) for (int b:net.getConnectedBranches(i)) { VM_CHECK(b>=0&&b<net.numBranches(),"after clean: bus has branch "<<b); int x,y; net.getBranchEndpoints(b,&x,&y); VM_CHECK(x==i||y==i,"after clean: bus lists a foreign branch"); }
    payload(net,g,2);
  }
  void one(Communicator &cm,const Graph &g,std::vector<int> as,const std::string &ops,int ref0)
  {
    typedef boost::shared_ptr<TNet> P; P p(new TNet(cm)); int np=cm.size(),me=cm.rank(); int ref=-1,mode=1,round=0;
    auto want=[&]{ std::vector<int> w(np,0); for (int a:as) w[a]++; return w; };
    p->getNetworkData()->addValue("NET",ops.c_str());
    build(*p,g,1,2); g_assign=vertex_order(*p,as); p->partition(); verify(*p,g,mode,want(),"first partition");
    for (char o:ops) { round++; TNet &net=*p;
      switch (o) {
        case 'P': net.clean(); refcheck(net,ref,"after clean"); cleaned(net,g,as); for (int &a:as) a=(a+1+round%2)%np; g_assign=vertex_order(net,as);
          net.partition(); verify(net,g,mode,want(),"second partition"); verify_components(net,"second partition"); refcheck(net,ref,"after the second partition"); break;
        case 'R': net.resetGlobalIndices(true); mode=2; verify(net,g,2,want(),"reset of global indices"); { int first=0; std::vector<int> w=want(); for (int i=0;i<me;i++) first+=w[i]; int k=first; for (int i=0;i<net.numBuses();i++) if (net.getActiveBus(i)) { VM_CHECK(net.getGlobalBusIndex(i)==k,"reset of global indices: not consecutive on a process"); k++; } } break;
        case 'r': mode=2; for (int i=0;i<net.numBuses();i++) if (net.getActiveBus(i)) { int q=0; while (orig(q)!=net.getOriginalBusIndex(i)) q++; net.setGlobalBusIndex(i,(g.n*7-1-q+round)%g.n); } else net.setGlobalBusIndex(i,-5);
          for (int i=0;i<net.numBranches();i++) { int k=-1; net.getBranchData(i)->getValue("L_ID",&k); int m=g.e.size(); net.setGlobalBranchIndex(i,net.getActiveBranch(i)?(m-1-k+round)%m:-7); }
          net.resetGlobalIndices(false); verify(net,g,2,want(),"ghost indices"); for (int i=0;i<net.numBuses();i++) { int q=0; while (orig(q)!=net.getOriginalBusIndex(i)) q++; VM_CHECK(net.getGlobalBusIndex(i)==(g.n*7-1-q+round)%g.n,"ghost indices: a given global index changed"); } break;
        case 'K': case 'k': { boost::shared_ptr<UNet> u(new UNet(cm)); if (round%2) build_junk(*u); net.clone<UBus,UBranch>(u); verify(*u,g,mode==1?3:3,want(),"clone"); refcheck(*u,ref,"clone"); std::string s; VM_CHECK(u->getNetworkData()->getValue("NET",&s)&&s==ops,"clone lost the network data");
          for (int i=0;i<net.numBuses();i++) { VM_CHECK(u->getGlobalBusIndex(i)==net.getGlobalBusIndex(i)&&u->getActiveBus(i)==net.getActiveBus(i),"clone: bus "<<i<<" differs"); u->getBusData(i)->addValue(("ONLY_CLONE"+std::to_string(round)).c_str(),1); int x; VM_CHECK(!net.getBusData(i)->getValue(("ONLY_CLONE"+std::to_string(round)).c_str(),&x),"clone shares bus data with the original"); }
          for (int i=0;i<net.numBranches();i++) { VM_CHECK(u->getGlobalBranchIndex(i)==net.getGlobalBranchIndex(i)&&u->getActiveBranch(i)==net.getActiveBranch(i),"clone: branch "<<i<<" differs"); u->getBranchData(i)->setValue("L_R",-1.0); double r; VM_CHECK(net.getBranchData(i)->getValue("L_R",&r)&&r>=0,"clone shares branch data with the original"); int k; u->getBranchData(i)->getValue("L_ID",&k); u->getBranchData(i)->setValue("L_R",0.25*k); }
          gridpack::factory::BaseFactory<UNet> f(u); f.setComponents(); verify_components(*u,"clone");
          if (o=='k') { P q(new TNet(cm)); p.reset(); u->clone<TBus,TBranch>(q); p=q; for (int i=0;i<q->numBuses();i++) { int z=0; while (orig(z)!=q->getOriginalBusIndex(i)) z++; TBus *b=q->getBus(i).get(); b->tag=500+z; b->name=bname(z); for (int j=0;j<z%3;j++) b->v.push_back(z+0.5*j); } for (int i=0;i<q->numBranches();i++) { int k=-1; q->getBranchData(i)->getValue("L_ID",&k); q->getBranch(i)->tag=700+k; q->getBranch(i)->name="br"+bname(k); }
            gridpack::factory::BaseFactory<TNet> f2(q); f2.setComponents(); verify(*q,g,mode,want(),"clone of the clone"); verify_components(*q,"clone of the clone"); refcheck(*q,ref,"clone of the clone"); }
          break; }
        case 'C': net.clear(); VM_CHECK(net.numBuses()==0&&net.numBranches()==0&&net.totalBuses()==0&&net.totalBranches()==0,"clear leaves something behind"); ref=-1; refcheck(net,ref,"after clear"); mode=1; build(net,g,(1+round)%5,round%5); for (int &a:as) a=(a+round)%np; g_assign=vertex_order(net,as);
          net.partition(); verify(net,g,1,want(),"partition after clear"); verify_components(net,"partition after clear"); break;
        case 'S': if (ref<0) { ref=ref0%g.n; for (int i=0;i<net.numBuses();i++) if (net.getOriginalBusIndex(i)==orig(ref)) net.setReferenceBus(i); } refcheck(net,ref,"after choosing it"); break;
        case 'F': { gridpack::factory::BaseFactory<TNet> f(p); f.setComponents(); verify_components(net,"set-up"); verify(net,g,mode,want(),"set-up"); refcheck(net,ref,"set-up"); for (int i=0;i<net.numBuses();i++) if (ref>=0&&net.getReferenceBus()>=0) VM_CHECK(net.getBus(i)->getReferenceBus()==(net.getOriginalBusIndex(i)==orig(ref)),"set-up: reference flag of bus component "<<net.getOriginalBusIndex(i)<<" is "<<net.getBus(i)->getReferenceBus()); } break;
      } }
  }
  void build_junk(UNet &u) { u.addBus(3); u.addBus(4); u.addBranch(3,4); u.setGlobalBusIndex(0,0); u.setReferenceBus(1); u.setMap(); }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
      Graph g=graph(c.gets("g")); int p=cm.size(); std::string as=c.gets("as"),ops=c.gets("ops"); int ref=c.geti("ref");
      // the vertices are numbered in process order; place() style 1 spreads them
      auto order=[&](const std::vector<int> &a){ return a; };
      if (as!="all") one(cm,g,order(ints(as)),ops,ref);
      else { Odo o(std::vector<int>(g.n,p)); do { label("partition "+o.str()); one(cm,g,order(o.d),ops,ref); if (rank==0) count_sub(1,p>1); } while (o.next()); }
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new NH; }
