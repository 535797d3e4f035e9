// vmpi: a controlled multi-process MPI + Global Arrays machine used to model
// check the real GridPACK code.  See DESIGN.md ("The vmpi machine").
#ifndef VM_HPP
#define VM_HPP
#include <string>
#include <vector>
#include <functional>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <sstream>

namespace vm {

// ---- scheduling / exploration policy of one case --------------------------
enum Explore { DEFAULT_SCHED, FULL_DFS, PREEMPT_BOUND };

struct Case {
  std::string id;          // human readable, "k=v k=v"
  int np = 1;              // number of ranks
  Explore explore = DEFAULT_SCHED;
  int bound = 0;           // preemption bound for PREEMPT_BOUND
  int send_mode = 0;       // 0 eager, 1 rendezvous
  int put_mode = 0;        // 0 puts complete at once, 1 only at a fence
  long max_execs = 0;      // 0: unlimited
  std::map<std::string,std::string> kv;
  Case() {}
  Case& set(const std::string &k, const std::string &v) { kv[k]=v; return *this; }
  Case& set(const std::string &k, long v) { kv[k]=std::to_string(v); return *this; }
  long geti(const std::string &k, long d=0) const {
    auto it=kv.find(k); return it==kv.end()?d:strtol(it->second.c_str(),0,10); }
  std::string gets(const std::string &k, const std::string &d="") const {
    auto it=kv.find(k); return it==kv.end()?d:it->second; }
  std::string str() const;         // canonical text (used as case id)
  static Case parse(const std::string &s);
};

// ---- the harness (one per executable) --------------------------------------
struct Harness {
  virtual ~Harness() {}
  // emit every case of the bounded space for this tier ("quick"/"thorough")
  virtual void enumerate(const std::string &tier,
                         std::function<void(const Case&)> emit) = 0;
  // runs in every rank process
  virtual void rank_main(const Case &c, int rank, int np) = 0;
  // runs in the explorer after all ranks finished normally; use fail() there
  virtual void check(const Case &c) {}
  virtual bool capture_stdout() const { return false; }
};
Harness *make_harness();   // defined by the harness

// ---- services for rank code --------------------------------------------------
int world_rank();
int world_size();
bool active();
// report a property violation (first one wins) and stop this execution
[[noreturn]] void fail(const std::string &msg);
// end this execution as successful now (an expected abort on one rank)
[[noreturn]] void accept();
// append a record visible to check(); not a scheduling point
void record(const std::string &s);
std::vector<std::string> records(int rank);     // usable in check()
// fixed shared scratch words for harness bookkeeping (not scheduling points)
int64_t *shared_words();                        // 4096 words, zeroed per execution
// label of the current sub case (shown in a violation)
void label(const std::string &s);
// count sub cases explored inside an execution (input enumeration)
void count_sub(long n=1, bool nontrivial=true);
// bring the parallel environment up / down (MPI_Init, GA_Initialize, ...)
void par_begin();
void par_end();
// a pure barrier for harness use (never a choice point, no GA fence)
void hbarrier();
// all-gather strings among all world ranks for harness oracles
std::vector<std::string> hgather(const std::string &mine);

std::string outcome_hash(const std::vector<std::vector<std::string> > &recs);

#define VM_CHECK(cond, msg) do { if (!(cond)) { std::ostringstream vm_o_; \
  vm_o_ << msg << "   [" #cond "]"; ::vm::fail(vm_o_.str()); } } while(0)

} // namespace vm
#endif
