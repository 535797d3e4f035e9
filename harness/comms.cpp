// USES: parallel timer
// Communicators: grouping, isolation, reductions.
#include <mpi.h>
#include <ga.h>
#include <cmath>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/distributed.hpp"
#include "util.hpp"
using namespace vm;
using namespace hu;
using namespace gridpack::parallel;
typedef gridpack::ComplexType CT;

struct CM : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const char *w,long a,long b,int sm=0,Explore ex=DEFAULT_SCHED,int bd=0) { Case c; c.np=np; c.send_mode=sm; c.explore=ex; c.bound=bd; c.set("w",w).set("a",a).set("b",b); emit(c); };
    for (int np=1;np<=8;np++) for (int ns=1;ns<=9;ns++) add(np,"divide",ns,0);
    for (int np=2;np<=8;np++) for (int ns=2;ns<=4;ns++) add(np,"divide2",ns,th?2:1);
    // every colouring with three colours, twice nested with every two-colouring
    for (int np=2;np<=4;np++) { int n3=1; for (int i=0;i<np;i++) n3*=3; for (int x=0;x<n3;x++) add(np,"split",x,-1,x&1); }
    for (int np=2;np<=4;np++) for (int x=0;x<(1<<np);x++) for (int y=0;y<(1<<np);y++) add(np,"split2",x,y);
    // what only some of the groups do does not involve the others
    for (int np=2;np<=4;np++) for (int x=1;x<(1<<np);x++) for (int y=0;y<(1<<np);y++) add(np,"partial",x,y);
    // reductions: all value patterns
    for (int np=1;np<=4;np++) for (int g=0;g<(1<<np);g+=2) for (int sm=0;sm<2;sm++) add(np,"reduce",g,0,sm);
    for (int np=1;np<=4;np++) for (int g=0;g<(1<<np);g+=2) add(np,"logic",g,0);
    // life time: every sequence of create / copy / assign / drop operations
    for (int np=1;np<=3;np++) { int n=th?5:4; int m=1; for (int i=0;i<n;i++) m*=6; for (int i=0;i<m;i+=36) add(np,"life",i,n); }
    // many communicators one after the other (nothing leaks until exhaustion)
    for (int np=1;np<=3;np++) add(np,"many",th?600:300,0);
  }
  // the members of my group among the members of cm, in order, by harness rank
  void verify(const Communicator &g,const std::vector<int> &members,const char *what)
  {
    int me=-1; for (size_t i=0;i<members.size();i++) if (members[i]==world_rank()) me=i;
    VM_CHECK(g.size()==(int)members.size(),what<<": size "<<g.size()<<" instead of "<<members.size());
    VM_CHECK(g.rank()==me,what<<": rank "<<g.rank()<<" instead of "<<me);
    VM_CHECK(g.worldRank()==world_rank(),what<<": world rank "<<g.worldRank());
    VM_CHECK(GA_Pgroup_nnodes(g.getGroup())==(int)members.size(),what<<": the global array group has "<<GA_Pgroup_nnodes(g.getGroup())<<" members");
    VM_CHECK(GA_Pgroup_nodeid(g.getGroup())==me,what<<": rank in the global array group is "<<GA_Pgroup_nodeid(g.getGroup()));
    // isolation: reductions see exactly the members
    int s=1<<world_rank(), e=0; for (int m:members) e|=1<<m;
    g.sum(&s,1); VM_CHECK(s==e,what<<": sum over the group saw members "<<s<<" instead of "<<e);
    int mx=world_rank(); g.max(&mx,1); VM_CHECK(mx==members.back(),what<<": max saw "<<mx);
    int mn=world_rank(); g.min(&mn,1); VM_CHECK(mn==members.front(),what<<": min saw "<<mn);
    // point to point traffic stays inside: a ring with the same tag in every group
    if (g.size()>1) { int v=-1; boost::mpi::request r=g.getCommunicator().irecv((me+g.size()-1)%g.size(),5,v); int w=100+world_rank(); g.getCommunicator().send((me+1)%g.size(),5,w); r.wait();
      VM_CHECK(v==100+members[(me+members.size()-1)%members.size()],what<<": received "<<v<<" from outside of the group"); }
    record(std::string(what)+" "+std::to_string(g.size())+" "+std::to_string(g.rank()));
  }
  template<class T> void red(const Communicator &g,const std::vector<int> &mem,bool order)
  {
    // columns hold every assignment of {-2,0,3} to the members (up to 4 of them)
    static const double V[3]={-2.5,0,3}; int n=1; for (size_t i=0;i<mem.size();i++) n*=3;
    int me=g.rank(); std::vector<T> x(n);
    auto val=[&](int col,int r){ for (int i=0;i<r;i++) col/=3; return T(V[col%3]); };
    for (int len:{0,1,n}) {
      for (int c=0;c<n;c++) x[c]=val(c,me);
      g.sum(len?&x[0]:(T*)0+0,len);
      for (int c=0;c<n;c++) { T e=T(0); if (c<len) for (size_t r=0;r<mem.size();r++) e+=val(c,r); else e=val(c,me); VM_CHECK(x[c]==e,"sum of "<<len<<" values: component "<<c<<" is "<<x[c]<<" instead of "<<e); }
    }
    (void)order;
  }
  template<class T> void minmax(const Communicator &g,const std::vector<int> &mem)
  {
    static const double V[3]={-2.5,0,3}; int n=1; for (size_t i=0;i<mem.size();i++) n*=3; int me=g.rank(); std::vector<T> x(n);
    auto val=[&](int col,int r){ for (int i=0;i<r;i++) col/=3; return T(V[col%3]); };
    for (int len:{1,n}) for (int mx=0;mx<2;mx++) {
      for (int c=0;c<n;c++) x[c]=val(c,me);
      if (mx) g.max(&x[0],len); else g.min(&x[0],len);
      for (int c=0;c<n;c++) { T e=val(c,me); if (c<len) for (size_t r=0;r<mem.size();r++) e= mx?std::max(e,val(c,r)):std::min(e,val(c,r)); VM_CHECK(x[c]==e,(mx?"max":"min")<<" of "<<len<<" values: component "<<c<<" is "<<x[c]<<" instead of "<<e); } }
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin();
    {
      std::string w=c.gets("w"); long a=c.geti("a"),b=c.geti("b"); Communicator world;
      std::vector<int> everyone; for (int i=0;i<np;i++) everyone.push_back(i);
      if (w=="divide"||w=="divide2") {
        Communicator d=world.divide(a);
        // groups: contiguous ranks, at most a members, as few groups as possible
        std::vector<std::string> ids=hgather(std::to_string(rank-d.rank())+" "+std::to_string(d.size()));
        std::vector<int> mem; int ng=0;
        for (int r=0;r<np;r++) { int first,sz; sscanf(ids[r].c_str(),"%d %d",&first,&sz); if (r==first) ng++; VM_CHECK(sz<=a&&sz>=1,"rank "<<r<<" is in a group of "<<sz<<", more than "<<a); VM_CHECK(first>=0&&r-first<sz,"rank "<<r<<" is not in a contiguous group"); if (first==rank-d.rank()) mem.push_back(r); }
        VM_CHECK(ng==(np+a-1)/a,"divide("<<a<<") of "<<np<<" processes gives "<<ng<<" groups");
        verify(d,mem,"divide");
        if (w=="divide2" && b) { int k=std::max(1L,a/2); Communicator dd=d.divide(k); int first=rank-dd.rank(); std::vector<int> m2; for (int i=0;i<dd.size();i++) m2.push_back(first+i); VM_CHECK(dd.size()<=k,"nested divide too large"); verify(dd,m2,"divide twice"); }
        Communicator self=d.self(); verify(self,std::vector<int>(1,rank),"self"); verify(d,mem,"divide after self"); verify(world,everyone,"world after divide");
      } else if (w=="split") {
        int col=a; std::vector<int> cl; for (int i=0;i<np;i++) { cl.push_back(col%3); col/=3; }
        std::vector<int> mem; for (int r=0;r<np;r++) if (cl[r]==cl[rank]) mem.push_back(r);
        Communicator g=world.split(cl[rank]*7-3>0?cl[rank]*7:cl[rank]); verify(g,mem,"split");
        // groups may synchronise a different number of times
        for (int i=0;i<=cl[rank];i++) { g.sync(); g.barrier(); }
        verify(g,mem,"split again"); verify(world,everyone,"world after split"); 
        Communicator h(g.getCommunicator()); verify(h,mem,"from boost communicator"); Communicator k(static_cast<MPI_Comm>(g)); verify(k,mem,"from MPI communicator");
        Distributed dist(g); VM_CHECK(dist.processor_size()==g.size()&&dist.processor_rank()==g.rank(),"Distributed reports other size or rank");
      } else if (w=="split2") {
        std::vector<int> m1,m2; for (int r=0;r<np;r++) if (((a>>r)&1)==((a>>rank)&1)) { m1.push_back(r); if (((b>>r)&1)==((b>>rank)&1)) m2.push_back(r); }
        Communicator g=world.split((a>>rank)&1); Communicator h=g.split((b>>rank)&1); verify(h,m2,"split twice"); verify(g,m1,"first split");
        { Communicator t=h; g=t; } verify(g,m2,"assigned"); verify(world,everyone,"world");
      } else if (w=="partial") {
        std::vector<int> m1,m2; for (int r=0;r<np;r++) if (((a>>r)&1)==((a>>rank)&1)) { m1.push_back(r); if (((b>>r)&1)==((b>>rank)&1)) m2.push_back(r); }
        Communicator g=world.split((a>>rank)&1);
        if ((a>>rank)&1) { { Communicator h=g.split((b>>rank)&1); verify(h,m2,"split by some"); Communicator i=h.self(); verify(i,std::vector<int>(1,rank),"self by some"); if (m2.size()>1 && ((b>>rank)&1)) { Communicator j=h.divide(1); verify(j,std::vector<int>(1,rank),"divide by some"); } } Communicator h=g.divide(2); int s=1; h.sum(&s,1); VM_CHECK(s==h.size(),"divide by some"); }
        verify(g,m1,"first split"); verify(world,everyone,"world");
      } else if (w=="reduce") {
        std::vector<int> mem; for (int r=0;r<np;r++) if (((a>>r)&1)==((a>>rank)&1)) mem.push_back(r);
        Communicator g=world.split((a>>rank)&1);
        red<int>(g,mem,true); red<long>(g,mem,true); red<float>(g,mem,true); red<double>(g,mem,true); red<CT>(g,mem,false);
        minmax<int>(g,mem); minmax<long>(g,mem); minmax<float>(g,mem); minmax<double>(g,mem);
        int n=1; for (size_t i=0;i<mem.size();i++) n*=3; if (g.rank()==0) count_sub(9*n,true);
        { // imaginary parts and large integers
          CT z(rank+1,-rank-2),e(0,0); for (int m:mem) e+=CT(m+1,-m-2); g.sum(&z,1); VM_CHECK(z==e,"complex sum "<<z<<" instead of "<<e);
          long l=(1L<<40)+rank,le=0; for (int m:mem) le+=(1L<<40)+m; g.sum(&l,1); VM_CHECK(l==le,"long sum loses digits"); l=(1L<<40)+rank; g.max(&l,1); VM_CHECK(l==(1L<<40)+mem.back(),"long max loses digits"); l=-(1L<<40)-rank; g.min(&l,1); VM_CHECK(l==-(1L<<40)-mem.back(),"long min loses digits");
          double d=1.0+1e-12*rank; g.max(&d,1); VM_CHECK(d==1.0+1e-12*mem.back(),"double max loses digits"); d=1.0-1e-12*rank; g.min(&d,1); VM_CHECK(d==1.0-1e-12*mem.back(),"double min loses digits"); }
        record("reduced");
      } else if (w=="logic") {
        Communicator g=world.split((a>>rank)&1); std::string rs;
        for (int p=0;p<(1<<np);p++) { bool any=false,all=true; for (int r=0;r<np;r++) if (((a>>r)&1)==((a>>rank)&1)) { if (p>>r&1) any=true; else all=false; }
          bool f=p>>rank&1; bool ra=g.any(f), rl=g.all(f); VM_CHECK(ra==any,"any() is "<<ra<<" for pattern "<<p); VM_CHECK(rl==all,"all() is "<<rl<<" for pattern "<<p); rs+=ra?"1":"0"; rs+=rl?"1":"0"; }
        record(rs);
      } else if (w=="life") {
        for (long s=a;s<a+36;s++) {
          label("history "+std::to_string(s)); long q=s; std::vector<Communicator> st; std::vector<std::vector<int> > ms; st.push_back(world); ms.push_back(everyone);
          for (int k=0;k<b;k++) { int op=q%6; q/=6;
            int t=st.size()-1; std::vector<int> m;
            if (op==0) { st.push_back(Communicator(st[t])); ms.push_back(std::vector<int>(ms[t])); }
            else if (op==1) { for (int r:ms[t]) if (r%2==rank%2) m.push_back(r); Communicator x=st[t].split(rank%2); st.push_back(x); ms.push_back(m); }
            else if (op==2) { Communicator x=st[t].self(); st.push_back(x); ms.push_back(std::vector<int>(1,rank)); }
            else if (op==3) { if (st.size()>1) { st.pop_back(); ms.pop_back(); } }
            else if (op==4) { st[0]=Communicator(st[t]); ms[0]=std::vector<int>(ms[t]); }
            else { st.erase(st.begin()); ms.erase(ms.begin()); if (st.empty()) { st.push_back(world); ms.push_back(everyone); } }
            verify(st.back(),ms.back(),"after a step"); verify(st[0],ms[0],"oldest"); }
          if (rank==0) count_sub(1,true); }
      } else if (w=="many") {
        for (int i=0;i<a;i++) { Communicator g=world.split((rank+i)%2); Communicator h; int s=1; g.sum(&s,1); int e=0; for (int r=0;r<np;r++) if ((r+i)%2==(rank+i)%2) e++; VM_CHECK(s==e,"communicator number "<<i<<" sums "<<s); }
        record("many");
      }
    }
    par_end();
  }
};
Harness *vm::make_harness() { return new CM; }
