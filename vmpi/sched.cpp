// vmpi scheduler + explorer + driver main().
#include "core.hpp"
#include <malloc.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/resource.h>
#include <linux/futex.h>
#include <unistd.h>
#include <signal.h>
#include <sched.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
#include <time.h>
#include <algorithm>
#include <exception>
#include <typeinfo>
#include <fstream>
#include <iostream>
#include <set>

namespace vm {

Shared *S = 0;
int me = -1;
static Harness *H = 0;
static int errfd[MAXR], outfd[MAXR];
static int devnull = -1;
static int exec_timeout = 300;

// ------------------------------------------------------------------ allocator
static const size_t HDR = (sizeof(Shared)+4095)&~(size_t)4095;
static int cls(size_t n) { int c=4; while (((size_t)1<<c)<n) c++; return c; }
void *salloc(size_t n)
{
  if (n==0) n=1;
  int c=cls(n); size_t sz=(size_t)1<<c;
  void *p=S->freelist[c];
  if (p) { S->freelist[c]=*(void**)p; }
  else {
    if (S->bump+sz>ARENA_SIZE) die_fail("vm: arena exhausted");
    p=(char*)S+S->bump; S->bump+=sz;
  }
  memset(p,0,n);
  return p;
}
void sfree(void *p, size_t n)
{
  if (!p) return;
  if (n==0) n=1;
  int c=cls(n);
  *(void**)p=S->freelist[c]; S->freelist[c]=p;
}

// ------------------------------------------------------------------ baton
static void fwait(volatile int *a, int v)
{ syscall(SYS_futex,a,FUTEX_WAIT,v,NULL,NULL,0); }
static void fwake(volatile int *a)
{ syscall(SYS_futex,a,FUTEX_WAKE,1,NULL,NULL,0); }

[[noreturn]] static void finish_exec(int oc)
{
  if (S->outcome==OC_RUNNING) S->outcome=oc;
  fflush(stdout); fflush(stderr);
  _exit(66);
}
[[noreturn]] void die_fail(const char *fmt, ...)
{
  if (S->outcome==OC_RUNNING) {
    va_list ap; va_start(ap,fmt);
    vsnprintf(S->msg,sizeof(S->msg),fmt,ap);
    va_end(ap);
    size_t l=strlen(S->msg);
    if (me>=0 && S->r[me].label[0])
      snprintf(S->msg+l,sizeof(S->msg)-l," {at: %s}",S->r[me].label);
  }
  finish_exec(OC_FAIL);
}

static void wait_go()
{
  volatile int *g=&S->r[me].go;
  while (*g==0) fwait(g,0);
  *g=0;
  S->r[me].state=ST_RUN;
}
static bool enabled_wait(int r)
{
  RankS &k=S->r[r];
  for (int i=0;i<k.nw;i++) if (cond(k.wp[i],k.wneed[i])) return true;
  return false;
}

static const char *stname(int s)
{ static const char*n[]={"not started","running","waiting in","at","polling in","finished"}; return n[s]; }

static void report_deadlock(const char *kind)
{
  char b[3000]; size_t l=0;
  l+=snprintf(b+l,sizeof(b)-l,"%s:",kind);
  for (int r=0;r<S->np;r++) {
    RankS &k=S->r[r];
    if (l<sizeof(b)-600) l+=snprintf(b+l,sizeof(b)-l," rank %d %s %s%s%s;",r,stname(k.state),
       k.state==ST_DONE||k.state==ST_START?"":k.what, k.label[0]?" @":"", k.label);
  }
  if (S->outcome==OC_RUNNING) snprintf(S->msg,sizeof(S->msg),"%s",b);
  finish_exec(OC_FAIL);
}

// choose the rank that continues; called by the baton holder
static int pick()
{
  int np=S->np;
  // invisible continuations first (deterministic)
  if (me>=0 && S->r[me].state==ST_WAIT && enabled_wait(me)) return me;
  for (int r=0;r<np;r++) {
    int st=S->r[r].state;
    if (st==ST_START) return r;
    if (st==ST_WAIT && enabled_wait(r)) return r;
  }
  int v[MAXR], n=0; uint32_t vm=0;
  for (int r=0;r<np;r++) if (S->r[r].state==ST_VIS) { v[n++]=r; vm|=1u<<r; }
  if (n==0) {
    // pollers: round robin while something progresses
    int alive=0, best=-1;
    for (int d=1; d<=np; d++) {
      int r=(me+d+np)%np;
      if (S->r[r].state==ST_POLL) {
        alive++;
        if (best<0 && S->r[r].poll_seen!=S->progress) best=r;
      } else if (S->r[r].state!=ST_DONE) alive++;
    }
    if (best>=0) { S->r[best].poll_seen=S->progress; S->r[best].npoll=0; return best; }
    // a bounded number of polls without any progress is tolerated
    for (int d=1; d<=np; d++) {
      int r=(me+d+np)%np;
      if (S->r[r].state==ST_POLL && S->r[r].npoll<2000 &&
          (best<0 || S->r[r].npoll<S->r[best].npoll)) best=r;
    }
    if (best>=0) { S->r[best].npoll++; return best; }
    if (alive==0) return -1;
    report_deadlock("deadlock");
  }
  int ch=-1;
  uint32_t sleep=S->cur_sleep;
  if (n==1) {
    ch=v[0];
    if (S->explore==FULL_DFS && (sleep>>ch&1)) finish_exec(OC_PRUNED);
  } else if (S->explore==DEFAULT_SCHED) {
    ch=v[0];
  } else {
    int k=S->trace_len;
    if (k>=MAXCH) die_fail("vm: too many choice points in one execution");
    if (k<S->prefix_len) {
      ch=S->prefix[k];
      if (!(vm>>ch&1)) die_fail("vm: replay diverged at choice %d (rank %d not enabled)",k,ch);
      if (S->explore==FULL_DFS) sleep=S->prefix_sleep[k];
    } else {
      uint32_t ok=vm;
      if (S->explore==FULL_DFS) ok&=~sleep;
      if (!ok) finish_exec(OC_PRUNED);
      if (S->last>=0 && (ok>>S->last&1)) ch=S->last;
      else for (int i=0;i<n;i++) if (ok>>v[i]&1) { ch=v[i]; break; }
    }
    ChoiceRec &c=S->trace[k];
    c.n=n; c.chosen=ch; c.last=S->last<0?255:S->last; c.sleep=sleep;
    for (int i=0;i<n;i++) { c.ranks[i]=v[i]; c.ops[i]=S->r[v[i]].op; }
    S->trace_len=k+1;
  }
  if (S->explore==FULL_DFS) {
    uint32_t ns=0;
    for (int r=0;r<np;r++) if ((sleep>>r&1) && r!=ch && S->r[r].state==ST_VIS &&
        op_independent(S->r[r].op,S->r[ch].op)) ns|=1u<<r;
    S->cur_sleep=ns;
  }
  S->last=ch; S->nvis++; S->progress++;
  if (S->nvis>2000000) die_fail("livelock: more than 2000000 visible operations");
  return ch;
}

static void reschedule()
{
  int n=pick();
  if (n==me) { S->r[me].state=ST_RUN; return; }
  S->nswitch++;
  S->r[n].go=1; fwake(&S->r[n].go);
  wait_go();
}

void wait_word(volatile uint64_t *p, uint64_t need, const char *what)
{
  if (cond(p,need)) return;
  RankS &k=S->r[me];
  k.nw=1; k.wp[0]=p; k.wneed[0]=need; k.state=ST_WAIT;
  snprintf(k.what,sizeof(k.what),"%s",what);
  reschedule();
  k.what[0]=0;
}
int wait_any(int n, volatile uint64_t **p, const uint64_t *need, const char *what)
{
  for (int i=0;i<n;i++) if (cond(p[i],need[i])) return i;
  if (n>256) die_fail("vm: wait_any too wide");
  RankS &k=S->r[me];
  k.nw=n; for (int i=0;i<n;i++) { k.wp[i]=p[i]; k.wneed[i]=need[i]; }
  k.state=ST_WAIT; snprintf(k.what,sizeof(k.what),"%s",what);
  reschedule();
  k.what[0]=0;
  for (int i=0;i<n;i++) if (cond(p[i],need[i])) return i;
  die_fail("vm: wait_any woke up without a reason");
}
void visible(const Op &op)
{
  RankS &k=S->r[me];
  k.op=op; k.state=ST_VIS; snprintf(k.what,sizeof(k.what),"%s",op.name);
  reschedule();
  k.what[0]=0;
}
void poll_yield(const char *what)
{
  RankS &k=S->r[me];
  k.state=ST_POLL; k.poll_seen=S->progress; snprintf(k.what,sizeof(k.what),"%s",what);
  reschedule();
  k.what[0]=0;
}

// ------------------------------------------------------------------ services
int world_rank() { return me; }
int world_size() { return S->np; }
bool active() { return me>=0; }
void fail(const std::string &msg)
{
  if (me>=0) die_fail("rank %d: %s",me,msg.c_str());
  throw std::runtime_error(msg);
}
void accept() { finish_exec(OC_OK); }
void record(const std::string &s)
{
  Rec *r=(Rec*)salloc(sizeof(Rec)+s.size());
  r->len=s.size(); memcpy(r->data,s.data(),s.size());
  if (S->rec_tail[me]) S->rec_tail[me]->next=r; else S->rec_head[me]=r;
  S->rec_tail[me]=r;
}
std::vector<std::string> records(int rank)
{
  std::vector<std::string> v;
  for (Rec *r=S->rec_head[rank]; r; r=r->next) v.push_back(std::string(r->data,r->len));
  return v;
}
int64_t *shared_words() { return S->words; }
void label(const std::string &s)
{ if (me>=0) snprintf(S->r[me].label,sizeof(S->r[me].label),"%s",s.c_str()); alarm(exec_timeout); }
void count_sub(long n, bool nt) { S->nsub+=n; if (nt) S->nsub_nt+=n; }

struct HSlot { volatile uint64_t arrived; uint64_t left; char *data[MAXR]; size_t len[MAXR]; };
static std::vector<std::string> hcoll(const std::string &mine)
{
  static long seq=0;
  // harness slots use a private table keyed by sequence number
  struct Node { Node *next; long seq; HSlot s; };
  Node **head=(Node**)&S->grpreg[0];
  Node *n=*head; while (n && n->seq!=seq) n=n->next;
  if (!n) { n=(Node*)salloc(sizeof(Node)); n->seq=seq; n->next=*head; *head=n; }
  seq++;
  n->s.data[me]=(char*)salloc(mine.size()+1); n->s.len[me]=mine.size();
  memcpy(n->s.data[me],mine.data(),mine.size());
  n->s.arrived|=(uint64_t)1<<me; S->progress++;
  uint64_t need=((uint64_t)1<<S->np)-1;
  wait_word(&n->s.arrived,need,"harness barrier");
  std::vector<std::string> v;
  for (int r=0;r<S->np;r++) v.push_back(std::string(n->s.data[r],n->s.len[r]));
  n->s.left|=(uint64_t)1<<me;
  if (n->s.left==need) {
    for (int r=0;r<S->np;r++) sfree(n->s.data[r],n->s.len[r]+1);
    Node **pp=head; while (*pp!=n) pp=&(*pp)->next; *pp=n->next;
    sfree(n,sizeof(Node));
  }
  return v;
}
void hbarrier() { hcoll(""); }
std::vector<std::string> hgather(const std::string &m) { return hcoll(m); }

// ------------------------------------------------------------------ execution
static void on_alarm(int)
{
  if (S->outcome==OC_RUNNING) {
    snprintf(S->msg,sizeof(S->msg),"no progress for %d s: rank %d %s {at: %s}",
             exec_timeout,me,stname(S->r[me].state),S->r[me].label);
    S->outcome=OC_FAIL;
  }
  _exit(66);
}

static bool g_verbose=false;

void rank_init_hook();   // mpi layer

static std::string demangle_what()
{
  try { throw; }
  catch (const std::exception &e) { return std::string(typeid(e).name())+": "+e.what(); }
  catch (...) { return "unknown exception type"; }
}

[[noreturn]] static void child_main(int rank, const Case &c)
{
  me=rank; mallopt(M_PERTURB,0xA5);   // memory not written before it is read must not pass for zero
  prctl(PR_SET_PDEATHSIG,SIGKILL);
  signal(SIGALRM,on_alarm);
  alarm(exec_timeout);
  if (!g_verbose) {
    dup2(H->capture_stdout()?outfd[rank]:devnull,1);
    dup2(errfd[rank],2);
  }
  wait_go();
  rank_init_hook();
  try { H->rank_main(c,rank,S->np); }
  catch (...) { die_fail("rank %d: uncaught exception %s",rank,demangle_what().c_str()); }
  std::cout.flush(); fflush(stdout);
  S->r[me].state=ST_DONE; S->progress++;
  int n=pick();
  if (n>=0) { S->r[n].go=1; fwake(&S->r[n].go); }
  else if (S->outcome==OC_RUNNING) S->outcome=OC_OK;
  _exit(0);
}

struct ExecResult { int oc; std::string msg; long nvis; int depth; long nsub,nsub_nt; };

static std::string tail_fd(int fd, size_t n)
{
  off_t sz=lseek(fd,0,SEEK_END); if (sz<=0) return "";
  off_t st=sz>(off_t)n?sz-n:0; std::string s(sz-st,0);
  ssize_t g=pread(fd,&s[0],s.size(),st); s.resize(g>0?g:0);
  for (auto &ch:s) if (ch=='\n'||ch=='\r'||(unsigned char)ch<32) ch=' ';
  return s;
}

static ExecResult run_once(const Case &c, const std::vector<uint8_t> &pre, const std::vector<uint32_t> &psl)
{
  // reset
  size_t keep_lo=offsetof(Shared,prefix_len);
  memset((char*)S,0,keep_lo);
  S->prefix_len=pre.size();
  if (!pre.empty()) { memcpy(S->prefix,&pre[0],pre.size()); memcpy(S->prefix_sleep,&psl[0],4*psl.size()); }
  S->trace_len=0;
  memset((char*)S+offsetof(Shared,bump),0,sizeof(Shared)-offsetof(Shared,bump));
  S->bump=HDR;
  S->np=c.np; S->explore=c.explore; S->send_mode=c.send_mode; S->put_mode=c.put_mode;
  S->last=-1; S->next_ctx=100; S->next_array=1;
  fflush(stdout); fflush(stderr);
  int pids[MAXR];
  for (int r=0;r<c.np;r++) {
    if (ftruncate(errfd[r],0)) {} lseek(errfd[r],0,SEEK_SET);
    if (H->capture_stdout()) { if (ftruncate(outfd[r],0)) {} lseek(outfd[r],0,SEEK_SET); }
  }
  for (int r=0;r<c.np;r++) {
    pid_t p=fork();
    if (p==0) child_main(r,c);
    if (p<0) { perror("fork"); exit(3); }
    pids[r]=p; S->r[r].pid=p;
  }
  S->r[0].go=1; fwake(&S->r[0].go);
  int left=c.np; bool killed=false;
  while (left>0) {
    int st; pid_t p=waitpid(-1,&st,0);
    if (p<0) { if (errno==EINTR) continue; break; }
    int r=-1; for (int i=0;i<c.np;i++) if (pids[i]==p) r=i;
    if (r<0) continue;
    left--; pids[r]=0;
    bool bad=false;
    if (WIFSIGNALED(st)) {
      if (!killed) {
        if (S->outcome==OC_RUNNING) {
          S->outcome=OC_FAIL;
          snprintf(S->msg,sizeof(S->msg),"rank %d died with signal %d (%s) {at: %s} stderr: %s",r,WTERMSIG(st),
                   strsignal(WTERMSIG(st)),S->r[r].label,tail_fd(errfd[r],300).c_str());
        }
        bad=true;
      }
    } else if (S->r[r].state!=ST_DONE) {
      if (S->outcome==OC_RUNNING) {
        S->outcome=OC_FAIL;
        snprintf(S->msg,sizeof(S->msg),"rank %d exited early with code %d {at: %s} stderr: %s",r,WEXITSTATUS(st),
                 S->r[r].label,tail_fd(errfd[r],300).c_str());
      }
      bad=true;
    }
    if (bad && !killed) { killed=true; for (int i=0;i<c.np;i++) if (pids[i]) kill(pids[i],SIGKILL); }
  }
  ExecResult e; e.oc=S->outcome; e.msg=S->msg; e.nvis=S->nvis; e.depth=S->trace_len;
  e.nsub=S->nsub; e.nsub_nt=S->nsub_nt;
  if (e.oc==OC_OK) {
    try { H->check(c); }
    catch (const std::exception &x) { e.oc=OC_FAIL; e.msg=std::string("check: ")+x.what(); }
  }
  return e;
}

struct Node { ChoiceRec rec; uint32_t explored; int used; char dev; };

struct Stats {
  long cases=0, execs=0, pruned=0, vis=0, choices=0, maxdepth=0, sub=0, sub_nt=0, capped=0, nontrivial=0;
};

static std::string jesc(const std::string &s)
{
  std::string o; for (unsigned char ch:s) {
    if (ch=='"'||ch=='\\') { o+='\\'; o+=ch; }
    else if (ch<32||ch>126) { char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b; }
    else o+=ch; }
  return o;
}

struct Violation { std::string cs, msg; std::vector<int> sched; };
static std::set<std::string> g_outcomes; static bool g_want_out=false;
struct Known { std::string cs, msg, id; };
static std::vector<Known> g_known;
static const Known *known_match(const Violation &v)
{ for (auto &k:g_known) if ((k.cs=="*" || v.cs.find(k.cs)!=std::string::npos) && v.msg.find(k.msg)!=std::string::npos) return &k; return 0; }

// piece of npiece: only the subtrees whose first deviation from the default
// schedule is at a choice index congruent to piece (together: all of them)
static bool explore_case(const Case &c, Stats &st, Violation &v, double deadline, bool &timed_out, int piece, int npiece)
{
  std::vector<Node> stack; std::vector<uint8_t> pre; std::vector<uint32_t> psl;
  if (piece==0) st.cases++;
  long ex=0, ex0=st.execs;
  for (;;) {
    ExecResult e=run_once(c,pre,psl);
    ex++;
    bool mine=piece==0; for (auto &n:stack) if (n.dev==2) mine=true;
    if (mine) { st.execs++; st.vis+=e.nvis; st.sub+=e.nsub; st.sub_nt+=e.nsub_nt;
      if (e.oc==OC_PRUNED) st.pruned++; }
    if (e.depth>st.maxdepth) st.maxdepth=e.depth;
    if (g_want_out && e.oc==OC_OK) {
      std::vector<std::vector<std::string> > rr; for (int r=0;r<c.np;r++) rr.push_back(records(r));
      g_outcomes.insert(c.str()+"\t"+outcome_hash(rr));
    }
    if (e.oc==OC_FAIL || e.oc==OC_RUNNING) {
      v.cs=c.str(); v.msg=e.msg.empty()?"execution ended without an outcome":e.msg;
      for (int i=0;i<S->trace_len;i++) v.sched.push_back(S->trace[i].chosen);
      return false;
    }
    // extend the stack with the choice points found beyond the prefix
    for (int i=stack.size(); i<S->trace_len; i++) {
      Node n; n.rec=S->trace[i]; n.explored=0; n.used=0; n.dev=0;
      if (c.explore==PREEMPT_BOUND) {
        int used= i>0? stack[i-1].used : 0;
        if (i>0) { const ChoiceRec &p=stack[i-1].rec; bool lastin=false;
          for (int k=0;k<p.n;k++) if (p.ranks[k]==p.last) lastin=true;
          if (lastin && p.chosen!=p.last) used++; }
        n.used=used;
      }
      stack.push_back(n); if (mine) st.choices++;
    }
    if (c.max_execs && ex>=c.max_execs) { st.capped++; break; }
    if (deadline>0) { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t);
      if (t.tv_sec+1e-9*t.tv_nsec>deadline) { timed_out=true; st.capped++; break; } }
    // backtrack
    bool found=false;
    while (!stack.empty()) {
      Node &n=stack.back();
      n.explored|=1u<<n.rec.chosen;
      // a schedule belongs to the piece named by the position of its first
      // preemption; schedules without one are run by all, counted by piece 0
      bool lastin0=c.explore==FULL_DFS;
      for (int k=0;k<n.rec.n;k++) if (n.rec.ranks[k]==n.rec.last) lastin0=true;
      if (npiece>1 && lastin0 && (int)((stack.size()-1)%npiece)!=piece) {
        bool root=true; for (size_t i=0;i+1<stack.size();i++) if (stack[i].dev==2) { root=false; break; }
        if (root) { stack.pop_back(); continue; }
      }
      int next=-1;
      if (c.explore==FULL_DFS) {
        for (int k=0;k<n.rec.n;k++) { int r=n.rec.ranks[k];
          if (!(n.explored>>r&1) && !(n.rec.sleep>>r&1)) { next=r; break; } }
      } else if (c.explore==PREEMPT_BOUND) {
        bool lastin=false;
        for (int k=0;k<n.rec.n;k++) if (n.rec.ranks[k]==n.rec.last) lastin=true;
        for (int k=0;k<n.rec.n;k++) { int r=n.rec.ranks[k];
          if (n.explored>>r&1) continue;
          int cost=n.used+((lastin && r!=n.rec.last)?1:0);
          if (cost<=c.bound) { next=r; break; } }
      }
      if (next>=0) { n.rec.chosen=next; n.dev= lastin0?2:1; found=true; break; }
      stack.pop_back();
    }
    if (!found) break;
    pre.clear(); psl.clear();
    for (auto &n:stack) { pre.push_back(n.rec.chosen); psl.push_back(n.rec.sleep|n.explored); }
    // nodes after this one were popped; trace beyond is regenerated
  }
  if (st.execs-ex0>1 && piece==0) st.nontrivial++;
  return true;
}

} // namespace vm

using namespace vm;

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }

int main(int argc, char **argv)
{
  std::string tier="quick", out, replay_case, replay_sched, outcomes, only; int shard=0, nshard=1; double budget=0; bool list=false;
  bool replay=false; int maxviol=1, jobs=0;
  for (int i=1;i<argc;i++) {
    std::string a=argv[i];
    auto nxt=[&]{ return std::string(i+1<argc?argv[++i]:""); };
    if (a=="--tier") tier=nxt(); else if (a=="--shard") { std::string s=nxt(); sscanf(s.c_str(),"%d/%d",&shard,&nshard); }
    else if (a=="--out") out=nxt(); else if (a=="--budget") budget=atof(nxt().c_str());
    else if (a=="--replay") { replay=true; replay_case=nxt(); } else if (a=="--sched") replay_sched=nxt();
    else if (a=="--list") list=true; else if (a=="-v") g_verbose=true;
    else if (a=="--timeout") exec_timeout=atoi(nxt().c_str());
    else if (a=="--maxviol") maxviol=atoi(nxt().c_str());
    else if (a=="--jobs") jobs=atoi(nxt().c_str());
    else if (a=="--outcomes") outcomes=nxt(); else if (a=="--only") only=nxt();
    else if (a=="--known") { std::ifstream f(nxt()); std::string l; while (std::getline(f,l)) { size_t t1=l.find('\t'), t2=l.find('\t',t1+1); if (t2!=std::string::npos) g_known.push_back(Known{l.substr(0,t1),l.substr(t1+1,t2-t1-1),l.substr(t2+1)}); } }
  }
  // workers claim cases from a shared counter
  struct Share { volatile long next; volatile int stop; };
  Share *sh=(Share*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if (jobs>0 && !list && !replay) {
    std::vector<pid_t> kids; bool isworker=false;
    for (int k=0;k<jobs;k++) { pid_t p=fork(); if (p==0) { shard=k; nshard=jobs; out+="."+std::to_string(k); if (!outcomes.empty()) outcomes+="."+std::to_string(k); prctl(PR_SET_PDEATHSIG,SIGKILL); kids.clear(); isworker=true; break; } kids.push_back(p); }
    if (!isworker) { int bad=0; for (size_t k=0;k<kids.size();k++) { int st; if (waitpid(kids[k],&st,0)<0 || !WIFEXITED(st) || WEXITSTATUS(st)) bad=1; }
    return bad?3:0; }
  }
  // a fixed address keeps shared pointers valid in every rank
  void *want=(void*)0x200000000000ull;
  void *m=mmap(want,ARENA_SIZE,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0);
  if (m!=want) { perror("mmap arena"); return 3; }
  S=(Shared*)m;
  devnull=open("/dev/null",O_WRONLY);
  for (int r=0;r<MAXR;r++) { errfd[r]=memfd_create("err",0); outfd[r]=memfd_create("out",0); }
  H=make_harness();
  if (replay) {
    Case c=Case::parse(replay_case);
    std::vector<uint8_t> pre; std::vector<uint32_t> psl;
    std::istringstream is(replay_sched); std::string t;
    while (std::getline(is,t,',')) if (!t.empty()) { pre.push_back(atoi(t.c_str())); psl.push_back(0); }
    if (c.explore==DEFAULT_SCHED && !pre.empty()) c.explore=PREEMPT_BOUND;
    if (c.explore==FULL_DFS) c.explore=PREEMPT_BOUND;
    ExecResult e=run_once(c,pre,psl);
    printf("outcome=%s steps=%ld choices=%d\n%s\n",e.oc==OC_OK?"ok":e.oc==OC_PRUNED?"pruned":"FAIL",e.nvis,e.depth,e.msg.c_str());
    if (H->capture_stdout()) for (int r=0;r<c.np;r++) printf("stdout[%d]: %s\n",r,tail_fd(outfd[r],20000).c_str());
    return e.oc==OC_OK?0:1;
  }
  Stats st; std::vector<Violation> viol; double t0=now(); double dl=budget>0?t0+budget:0; bool to=false;
  std::set<std::string> knownhit; g_want_out=!outcomes.empty(); long idx=0, skipped=0, total=0; std::vector<std::string> samples;
  // one CPU per shard keeps baton passing cheap
  { cpu_set_t s; CPU_ZERO(&s); sched_getaffinity(0,sizeof(s),&s); int n=CPU_COUNT(&s), k=shard%std::max(n,1), q=0;
    for (int i=0;i<CPU_SETSIZE;i++) if (CPU_ISSET(i,&s)) { if (q++==k) { cpu_set_t o; CPU_ZERO(&o); CPU_SET(i,&o); sched_setaffinity(0,sizeof(o),&o); break; } } }
  long claim= jobs>0 ? __sync_fetch_and_add(&sh->next,1) : 0;
  H->enumerate(tier,[&](const Case &c0) {
    if (!only.empty() && c0.gets("w")!=only && (","+only+",").find(","+c0.gets("w")+",")==std::string::npos) return;
    total++;
    if (list) { if (idx++%nshard==shard) printf("%s\n",c0.str().c_str()); return; }
    int np= (c0.explore==DEFAULT_SCHED || c0.max_execs || jobs<=1) ? 1 : jobs;
    for (int piece=0; piece<np; piece++) {
    if (jobs>0) { if (idx++!=claim) continue; claim=__sync_fetch_and_add(&sh->next,1); }
    else if (idx++%nshard!=shard) continue;
    if ((int)viol.size()>=maxviol || sh->stop) { if (piece==0) skipped++; continue; }
    if (to) { if (piece==0) skipped++; continue; }
    Violation v;
    long before=st.execs; double tc=now();
    if (!explore_case(c0,st,v,dl,to,piece,np)) {
      if (const Known *k=known_match(v)) { knownhit.insert(k->id); continue; }
      viol.push_back(v); if ((int)viol.size()>=maxviol) sh->stop=1; }
    else if (samples.size()<6) samples.push_back(c0.str()+" -> "+std::to_string(st.execs-before)+" execution(s)"+(np>1?" in piece "+std::to_string(piece):""));
    if (getenv("VM_TIMES") && now()-tc>0.5) fprintf(stderr,"%.2fs %ld execs %s\n",now()-tc,st.execs-before,c0.str().c_str());
    }
    if (dl>0 && now()>dl) to=true;
  });
  if (list) return 0;
  std::ostringstream o;
  o<<"{\"cases_total\":"<<total<<",\"cases\":"<<st.cases<<",\"skipped\":"<<skipped<<",\"execs\":"<<st.execs<<",\"pruned\":"<<st.pruned
   <<",\"visible_ops\":"<<st.vis<<",\"choice_points\":"<<st.choices<<",\"max_depth\":"<<st.maxdepth<<",\"sub\":"<<st.sub<<",\"sub_nontrivial\":"<<st.sub_nt
   <<",\"multi_schedule_cases\":"<<st.nontrivial<<",\"capped\":"<<st.capped<<",\"wall\":"<<now()-t0<<",\"samples\":[";
  for (size_t i=0;i<samples.size();i++) o<<(i?",":"")<<"\""<<jesc(samples[i])<<"\"";
  o<<"],\"violations\":[";
  for (size_t i=0;i<viol.size();i++) {
    o<<(i?",":"")<<"{\"case\":\""<<jesc(viol[i].cs)<<"\",\"msg\":\""<<jesc(viol[i].msg)<<"\",\"sched\":\"";
    for (size_t k=0;k<viol[i].sched.size();k++) o<<(k?",":"")<<viol[i].sched[k];
    o<<"\"}";
  }
  o<<"],\"known\":["; { bool f=true; for (auto &k:knownhit) { o<<(f?"":",")<<"\""<<jesc(k)<<"\""; f=false; } }
  o<<"]}\n";
  if (g_want_out) { std::ofstream f(outcomes); for (auto &l:g_outcomes) f<<l<<"\n"; }
  if (out.empty()) std::cout<<o.str(); else { std::ofstream f(out); f<<o.str(); }
  return 0;
}
