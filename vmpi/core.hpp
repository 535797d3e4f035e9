// Internal: shared arena, controlled scheduler, ranks.
#ifndef VM_CORE_HPP
#define VM_CORE_HPP
#include "vm.hpp"
#include <cstring>

namespace vm {

const int MAXR = 8;
const int MAXCH = 60000;      // choice points per execution
const size_t ARENA_SIZE = (size_t)3 << 30;

// footprint of a visible operation
struct Op {
  int kind;                   // 0 none, 1 GA access, 2 dependent with everything
  int write;
  uint32_t array;             // shared array id
  int64_t lo, hi;             // element range (inclusive)
  int usebits;
  uint64_t bits[4];           // exact element set when usebits (elements < 256)
  char name[20];
};
inline bool op_independent(const Op &a, const Op &b)
{
  if (a.kind==2 || b.kind==2) return false;
  if (a.array!=b.array) return true;
  if (!a.write && !b.write) return true;
  if (a.usebits && b.usebits) {
    for (int i=0;i<4;i++) if (a.bits[i]&b.bits[i]) return false;
    return true;
  }
  return a.hi<b.lo || b.hi<a.lo;
}

enum St { ST_START=0, ST_RUN, ST_WAIT, ST_VIS, ST_POLL, ST_DONE };

struct RankS {
  volatile int go;
  int pid;
  int state;
  int nw;                       // number of awaited words (any-of)
  volatile uint64_t *wp[256];
  uint64_t wneed[256];
  Op op;
  uint64_t poll_seen; int npoll;
  char what[48];
  char label[400];
};

struct ChoiceRec {
  uint8_t n, chosen, last;
  uint8_t ranks[MAXR];
  uint32_t sleep;
  Op ops[MAXR];
};

enum Outcome { OC_RUNNING=0, OC_OK, OC_FAIL, OC_PRUNED };

struct Rec { Rec *next; size_t len; char data[1]; };

struct Shared {
  int np, explore, send_mode, put_mode;
  volatile int outcome;
  char msg[4096];
  RankS r[MAXR];
  uint64_t progress;
  int last;                     // rank that executed the last visible op
  uint32_t cur_sleep;
  long nvis;                    // visible operations executed
  long nswitch;
  long nsub, nsub_nt;
  // prefix to replay
  int prefix_len;
  uint8_t prefix[MAXCH];
  uint32_t prefix_sleep[MAXCH];
  int trace_len;
  ChoiceRec trace[MAXCH];
  // allocator
  size_t bump;
  void *freelist[48];
  // records
  Rec *rec_head[MAXR], *rec_tail[MAXR];
  int64_t words[4096];
  // collective slots
  void *slots[4096];
  uint32_t next_ctx, next_array, next_tag;
  void *unexp_head[MAXR], *unexp_tail[MAXR];
  void *post_head[MAXR], *post_tail[MAXR];
  uint64_t grpreg[1];
};

extern Shared *S;
extern int me;                  // world rank of this process (-1 explorer)

void *salloc(size_t n);         // zeroed shared memory
void sfree(void *p, size_t n);

// scheduling primitives
void wait_word(volatile uint64_t *p, uint64_t need, const char *what);
int  wait_any(int n, volatile uint64_t **p, const uint64_t *need, const char *what);
void visible(const Op &op);     // returns when this rank may execute op
void poll_yield(const char *what);
inline bool cond(volatile uint64_t *p, uint64_t need) { return (*p & need)==need; }
[[noreturn]] void die_fail(const char *fmt, ...);

} // namespace vm
#endif
