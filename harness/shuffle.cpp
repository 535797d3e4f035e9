// USES: parallel timer
// Shuffler / gaShuffler: every thing ends up exactly once on its destination.
#include <mpi.h>
#include <ga.h>
#include <cstring>
#include <boost/mpi.hpp>
#include <boost/serialization/string.hpp>
#include <boost/scoped_ptr.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/shuffler.hpp"
#include "gridpack/parallel/ga_shuffler.hpp"
#include "util.hpp"
using namespace vm;
using namespace hu;
using namespace gridpack::parallel;

struct Thing { int id; std::string text; std::vector<double> v; Thing():id(-1){}
  template<class A> void serialize(A &ar,const unsigned) { ar & id & text & v; } };
template<class T> T mk(int id);
template<> int mk<int>(int id) { return id; }
template<> std::string mk<std::string>(int id) { return id%3==0?std::string():std::string((id%5)*7,'a'+id%26)+std::string(1,0)+std::to_string(id); }
template<> Thing mk<Thing>(int id) { Thing t; t.id=id; t.text=mk<std::string>(id+1); for (int i=0;i<id%4;i++) t.v.push_back(i*0.25+id); return t; }
static std::string sh(int v) { return std::to_string(v); }
static std::string sh(const std::string &s) { std::ostringstream o; for (unsigned char c:s) o<<(c<32?'.':(char)c); return o.str(); }
static std::string sh(const Thing &t) { return std::to_string(t.id)+":"+sh(t.text)+":"+show(t.v); }

struct SH : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,Explore ex,int b,int sm,int pm,const char *w,const char *ty,int comm,int cnt,const std::string &pl) {
      Case c; c.np=np; c.explore=ex; c.bound=b; c.send_mode=sm; c.put_mode=pm; c.set("w",w).set("ty",ty).set("comm",comm).set("cnt",cnt).set("place",pl); emit(c); };
    // every assignment of up to cnt things per process
    for (int sm=0;sm<2;sm++) for (const char *ty:{"int","str","thing"}) {
      add(1,DEFAULT_SCHED,0,sm,0,"mpi",ty,0,3,"all"); add(2,DEFAULT_SCHED,0,sm,0,"mpi",ty,0,th?5:4,"all");
      add(3,DEFAULT_SCHED,0,sm,0,"mpi",ty,0,2,"all"); add(4,DEFAULT_SCHED,0,sm,0,"mpi",ty,0,1,"all");
    }
    for (int pm=0;pm<2;pm++) for (const char *ty:{"int","thing"}) {
      add(2,DEFAULT_SCHED,0,0,pm,"ga",ty,0,th?4:3,"all"); add(3,DEFAULT_SCHED,0,0,pm,"ga",ty,0,th?2:1,"all"); add(4,DEFAULT_SCHED,0,0,pm,"ga",ty,0,1,"all"); }
    // all splits into two groups
    for (int np=2;np<=4;np++) for (int col=0;col<(1<<np);col+=2) for (const char *w:{"mpi","ga"}) add(np,DEFAULT_SCHED,0,1,1,w,"thing",col+1,np==4?1:2,"all");
    // every schedule for some assignments
    for (const char *p:{"10,1","1,00","-,0","101,01"}) for (int pm=0;pm<2;pm++) add(2,PREEMPT_BOUND,th?4:3,0,pm,"ga","thing",0,0,p);
    for (const char *p:{"1,2,0","21,-,0","12,02,10"}) for (int pm=0;pm<2;pm++) add(3,PREEMPT_BOUND,th?2:1,0,pm,"ga","thing",0,0,p);
  }
  // dest[r] lists the destinations of the things of rank r (group ranks)
  template<class T,class S> void once(S &s,Communicator &cm,const std::vector<std::vector<int> > &dest,bool rec)
  {
    int me=cm.rank(),np=cm.size(); std::vector<T> t; std::vector<int> d; std::vector<std::string> want,got;
    for (int r=0;r<np;r++) for (size_t k=0;k<dest[r].size();k++) { int id=r*16+k+1; if (r==me) { t.push_back(mk<T>(id)); d.push_back(dest[r][k]); } if (dest[r][k]==me) want.push_back(sh(mk<T>(id))); }
    std::vector<int> d0=d;
    s(t,d); VM_CHECK(d==d0,"destination list changed");
    for (auto &x:t) got.push_back(sh(x));
    if (rec) record(show(got));
    std::sort(want.begin(),want.end()); std::sort(got.begin(),got.end());
    VM_CHECK(got==want,"process "<<me<<" holds "<<show(got)<<" instead of "<<show(want));
  }
  template<class T,class S> void all(Communicator &cm,int cnt,int rank,const std::string &place)
  {
    S s(cm); int np=cm.size();
    if (place!="all") { std::vector<std::vector<int> > d; std::istringstream is(place); std::string t; while (std::getline(is,t,',')) { d.push_back(std::vector<int>()); for (char ch:t) if (ch!='-') d.back().push_back(ch-'0'); }
      once<T>(s,cm,d,true); once<T>(s,cm,d,true); return; }
    std::vector<std::vector<int> > lists(1);            // all lists of length <= cnt
    for (size_t i=0;i<lists.size();i++) if ((int)lists[i].size()<cnt) for (int d=0;d<np;d++) { std::vector<int> l=lists[i]; l.push_back(d); lists.push_back(l); }
    Odo o(std::vector<int>(np,lists.size())); long n=0;
    do { std::vector<std::vector<int> > d(np); bool any=false; std::string lb; for (int r=0;r<np;r++) { d[r]=lists[o.d[r]]; if (d[r].size()) any=true; lb+=show(d[r]); }
      label("destinations "+lb); once<T>(s,cm,d,n%101==7); if (rank==0) count_sub(1,any); n++; } while (o.next());
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin(); { Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world;
    std::string ty=c.gets("ty"),w=c.gets("w"),pl=c.gets("place"); int n=c.geti("cnt");
    if (w=="mpi") { if (ty=="int") all<int,Shuffler<int> >(cm,n,rank,pl); else if (ty=="str") all<std::string,Shuffler<std::string> >(cm,n,rank,pl); else all<Thing,Shuffler<Thing> >(cm,n,rank,pl); }
    else { if (ty=="int") all<int,gaShuffler<int> >(cm,n,rank,pl); else all<Thing,gaShuffler<Thing> >(cm,n,rank,pl); }
    } par_end();
  }
};
Harness *vm::make_harness() { return new SH; }
