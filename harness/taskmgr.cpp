// USES: parallel timer
// Task manager: every task index is handed out exactly once to exactly one
// caller (or one sub-communicator), every caller sees the end, nobody blocks.
#include <mpi.h>
#include <ga.h>
#include <macdecls.h>
#include <boost/mpi.hpp>
#include <algorithm>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/task_manager.hpp"
#include "vm.hpp"
using namespace vm;

struct TaskHarness : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th = tier=="thorough";
    // mode 0: every process of the group asks on its own
    // mode 1: groups of `sub` processes ask together
    // rounds: the same manager is reused; r: number of rounds
    // (np, tasks in the first round, rounds); round r has t+r tasks
    static const int Q[][3]={{1,0,3},{1,6,3},{2,0,3},{2,1,3},{2,2,2},{2,3,2},{2,4,1},{2,5,1},{2,6,1},{2,7,1},{3,0,2},{3,1,2},{3,2,1},{3,3,1},{3,4,1}};
    static const int X[][3]={{2,2,3},{2,4,2},{2,8,1},{2,9,1},{3,2,2},{3,5,1},{3,6,1},{4,0,1},{4,1,1},{4,2,1},{4,3,1}};
    auto solo=[&](const int *q) { Case c; c.np=q[0]; c.explore=FULL_DFS; c.set("m","solo").set("t",q[1]).set("rounds",q[2]); emit(c); };
    for (auto &q:Q) solo(q);
    if (th) for (auto &q:X) solo(q);
    // user supplied communicator: the world split into groups, one manager each
    for (int np=2; np<=(th?4:3); np++) for (int color=0; color<(1<<np); color+=2)
      for (int t=0; t<=(np==4?1:2); t++) {
        Case c; c.np=np; c.explore=FULL_DFS; c.set("m","split").set("color",color).set("t",t).set("rounds",1);
        emit(c);
      }
    // the same, but one group works through more rounds than the other and tasks
    // are taken together by the group (coll 1) or by single-process groups (coll 2)
    for (int np=2; np<=3; np++) for (int color=2; color<(1<<np); color+=2) for (int coll=0; coll<=2; coll++)
      for (int t=0; t<=(np==3?1:2); t++) for (int extra=-1; extra<=1; extra+=2) {
        Case c; c.np=np; c.explore=FULL_DFS; c.set("m","split").set("color",color).set("t",t).set("rounds",extra<0?2:1).set("extra",extra).set("coll",coll);
        emit(c);
      }
    if (th) for (int color=2; color<16; color+=2) for (int coll=0; coll<=2; coll++) for (int extra=-1; extra<=1; extra+=2) {
        Case c; c.np=4; c.explore=PREEMPT_BOUND; c.bound=2; c.set("m","split").set("color",color).set("t",1).set("rounds",extra<0?2:1).set("extra",extra).set("coll",coll);
        emit(c);
      }
    // world manager, sub-communicators take tasks collectively
    for (int np=2; np<=4; np++) for (int sub=1; sub<=np; sub++)
      for (int t=0; t<=(np==4&&sub==1?(th?2:1):4); t++) for (int rounds=1; rounds<=2; rounds++) {
        if (sub==1 && rounds==2 && (np==4 || (np==3 && t>1) || (np==2 && t>3))) continue;
        Case c; c.np=np; c.explore=FULL_DFS; c.set("m","sub").set("sub",sub).set("t",t).set("rounds",rounds);
        emit(c);
      }
    // cancellation by one caller after it received k tasks, then reuse
    for (int np=1; np<=3; np++) for (int t=0; t<=(np==3?2:4); t++) for (int k=0; k<=std::min(t,2); k++)
      for (int who=0; who<np; who++) {
        Case c; c.np=np; c.explore=FULL_DFS; c.set("m","cancel").set("t",t).set("k",k).set("who",who).set("rounds",np==3?1:2);
        emit(c);
      }
  }
  // ledger in shared words: [round*64 + task] = number of times handed out
  void rank_main(const Case &c, int rank, int np) override {
    par_begin();
    {
      std::string m=c.gets("m");
      int T=c.geti("t"), R=c.geti("rounds");
      gridpack::parallel::Communicator world;
      gridpack::parallel::Communicator split = m=="split" ? world.split((c.geti("color")>>rank)&1) : world;
      gridpack::parallel::Communicator sub = m=="sub" ? world.divide(c.geti("sub")) : world;
      int color = m=="split" ? (c.geti("color")>>rank)&1 : 0;
      int coll = m=="sub" ? 1 : c.geti("coll",0);
      if (m=="split") { sub = split; if (coll==2) sub = split.split(split.rank()); R += color*c.geti("extra",0); }
      gridpack::parallel::TaskManager *tm = (m=="split") ?
          new gridpack::parallel::TaskManager(split) :
          (m=="solo" && T%2) ? new gridpack::parallel::TaskManager() : new gridpack::parallel::TaskManager(world);
      int64_t *W=shared_words();
      for (int r=0; r<R; r++) {
        int TT = T + r;           // a different task count in every round
        tm->set(TT);
        int next=-7; int got=0; bool cancelled=false;
        for (;;) {
          bool more = coll ? tm->nextTask(sub,&next) : tm->nextTask(&next);
          if (!more) { VM_CHECK(next==-1,"end of tasks must return -1, got "<<next); break; }
          VM_CHECK(next>=0 && next<TT,"task index "<<next<<" out of range 0.."<<TT-1);
          int base=(color*8+r)*32;
          if (!coll || sub.rank()==0) {
            W[base+next]++;
            VM_CHECK(W[base+next]==1,"task "<<next<<" handed out "<<W[base+next]<<" times in round "<<r);
          }
          std::ostringstream o; o<<"r"<<r<<" c"<<color<<" t"<<next; 
          if (coll) record(o.str());
          got++;
          if (m=="cancel" && rank==c.geti("who") && got==c.geti("k") && !cancelled) { cancelled=true; tm->cancel(); W[3000+r]=1; }
          VM_CHECK(got<=TT,"more tasks than exist");
        }
        // everybody reached the end: all tasks were handed out
        int base=(color*8+r)*32;
        if (m!="cancel" || !W[3000+r])
          for (int k=0;k<TT;k++) VM_CHECK(W[base+k]==1,"task "<<k<<" of "<<TT<<" handed out "<<W[base+k]<<" times when nextTask reported the end in round "<<r);
        for (int k=TT;k<32;k++) VM_CHECK(W[base+k]==0,"task "<<k<<" does not exist");
        if (m=="cancel" && c.geti("k")==0 && rank==c.geti("who") ) {}
      }
      delete tm;
    }
    par_end();
  }
  void check(const Case &c) override {
    if (c.gets("m")!="sub") return;
    // all members of a sub-communicator received the same sequence
    std::map<int,std::vector<std::string> > seq; int sub=c.geti("sub");
    for (int r=0;r<c.np;r++) {
      int g=r/sub; auto v=records(r);
      if (seq.count(g)) { if (seq[g]!=v) fail("members of one sub-communicator received different task sequences"); }
      else seq[g]=v;
    }
  }
};
Harness *vm::make_harness() { return new TaskHarness; }
