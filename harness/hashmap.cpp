// USES: parallel timer
// Distributed index hash map: a query answered by any process returns exactly
// the values stored under the key by all processes, for int and pair keys.
#include <mpi.h>
#include <ga.h>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/index_hash.hpp"
#include "util.hpp"
using namespace vm;
using namespace hu;
typedef gridpack::hash_map::GlobalIndexHashMap Map;
typedef std::pair<int,int> PI;

// universe of pairs that may be stored: key sets force collisions of keys and of owners
static const int UK[5]={0,0,1,4,7};
static const int UV[5]={10,11,12,-5,0};
static PI pk(int k) { static const int A[]={0,2,1,1,3,0,5,4,6}; return PI(k, A[k]); }

static std::vector<std::vector<int> > patterns()
{
  std::vector<std::vector<int> > p;
  p.push_back({}); p.push_back({0}); p.push_back({0,1,0}); p.push_back({8}); p.push_back({7,4,1,0,8,3}); p.push_back({4,4,4,7}); 
  return p;
}
struct HM : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,Explore ex,int bound,int pm,const std::string &kind,int comm,int all,const std::string &loads) {
      Case c; c.np=np; c.explore=ex; c.bound=bound; c.put_mode=pm;
      c.set("kind",kind).set("comm",comm).set("all",all).set("loads",loads); emit(c); };
    // all placements of the pairs over the processes, default schedule
    for (int np=1; np<=4; np++) for (int pm=0; pm<2; pm++) for (const char *k:{"int","pair"})
      add(np,DEFAULT_SCHED,0,pm,k,0,1,"-");
    // sub-communicators work independently
    for (int np=2; np<=4; np++) for (int color=0; color<(1<<np); color+=2) for (const char *k:{"int","pair"})
      add(np,DEFAULT_SCHED,0,1,k,color+1,0,"0,1,2,1,3;3,2,1,0,1");
    // every schedule of chosen histories (placements of the five pairs; a
    // digit is 0 for absent, r+1 for rank r, np+1 for every rank)
    const char *L2[]={"1,2,1,0,2","3,3,0,1,0","2,2,2,2,2","0,0,0,0,1;1,2,0,0,0","1,2,1,2,3;2,0,0,0,0"};
    const char *L3[]={"1,2,3,0,0","4,0,1,0,2","0,0,0,0,3;1,1,2,0,0"};
    for (auto l:L2) for (int pm=0;pm<2;pm++) for (const char *k:{"int","pair"}) add(2,PREEMPT_BOUND,th?3:2,pm,k,0,0,l);
    for (auto l:L3) for (int pm=0;pm<2;pm++) for (const char *k:{"int","pair"}) add(3,PREEMPT_BOUND,1,pm,k,0,0,l);
    if (th) for (auto l:L3) for (const char *k:{"int","pair"}) add(3,PREEMPT_BOUND,2,1,k,0,0,l);
  }
  // one load + queries on one map
  template<class K> void round(Map &m, const gridpack::parallel::Communicator &cm, const std::vector<int> &place, std::function<K(int)> mk,
                               int qshift, bool rec)
  {
    int np=cm.size(), me=cm.rank();
    std::vector<std::pair<K,int> > mine; std::multimap<int,int> ref; 
    for (int u=0;u<5;u++) for (int r=0;r<np;r++)
      if (place[u]==r+1 || place[u]==np+1) { if (r==me) mine.push_back(std::make_pair(mk(UK[u]),UV[u]+100*r)); ref.insert(std::make_pair(UK[u],UV[u]+100*r)); }
    m.addPairs(mine);
    std::vector<std::vector<int> > pats=patterns();
    std::vector<int> q=pats[(me+qshift)%pats.size()];
    std::vector<K> keys; std::vector<int> vals(3,-99); for (int k:q) keys.push_back(mk(k));
    m.getValues(keys,vals);
    VM_CHECK(keys.size()==vals.size(),"keys and values differ in length: "<<keys.size()<<" "<<vals.size());
    std::vector<std::pair<K,int> > got, want;
    for (size_t i=0;i<keys.size();i++) got.push_back(std::make_pair(keys[i],vals[i]));
    for (int k:q) for (auto it=ref.lower_bound(k); it!=ref.upper_bound(k); ++it) want.push_back(std::make_pair(mk(k),it->second));
    std::sort(got.begin(),got.end()); std::sort(want.begin(),want.end());
    if (got!=want) { std::ostringstream o; o<<"query "<<show(q)<<" returned "; for (auto &g:got) o<<" "<<g.first<<"->"<<g.second; o<<" expected"; for (auto &g:want) o<<" "<<g.first<<"->"<<g.second; fail(o.str()); }
    if (rec) { std::ostringstream o; for (auto &g:got) o<<g.first<<"->"<<g.second<<" "; record(o.str()); }
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin();
    {
      gridpack::parallel::Communicator world; int cc=c.geti("comm");
      gridpack::parallel::Communicator cm = cc ? world.split(((cc-1)>>rank)&1) : world;
      int n=cm.size();
      bool isint=c.gets("kind")=="int";
      auto go=[&](Map &m,const std::vector<int> &pl,int sh,bool rec) {
        if (isint) round<int>(m,cm,pl,[](int k){ return k; },sh,rec);
        else round<PI>(m,cm,pl,[](int k){ return pk(k); },sh,rec); };
      if (c.geti("all")) {
        Map m(cm); Odo o(std::vector<int>(5, n<=2?n+2:n==3?4:3)); long k=0;
        bool prev=false;
        do {
          // every second sub case re-uses one map object
          bool empty=true; for (int x:o.d) if (x) empty=false;
          label("place="+o.str());
          if (k%2 && !empty) go(m,o.d,k,k%37==0); else { Map f(cm); go(f,o.d,k,false); }
          if (rank==0) count_sub(1,!empty); k++;
        } while (o.next());
        (void)prev;
      } else {
        std::istringstream is(c.gets("loads")); std::string t; Map m(cm); int k=0;
        while (std::getline(is,t,';')) { std::vector<int> pl=ints(t); for (int &x:pl) if (x>n+1) x=n+1; go(m,pl,k,true); k+=3; }
      }
    }
    par_end();
  }
};
Harness *vm::make_harness() { return new HM; }
