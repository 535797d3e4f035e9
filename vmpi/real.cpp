// Runs the cases of a harness under the real MPI and Global Arrays libraries
// (one mpiexec job, all cases whose np equals the job size) and prints the
// outcome hash of every case, so that outcomes seen under the vmpi machine can
// be compared with outcomes of the real libraries.
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <ga.h>
#include <macdecls.h>
#include "vm.hpp"
#include <unistd.h>
#include <fcntl.h>
#include <string.h>
#include <time.h>
#include <fstream>
#include <set>
namespace vm {
static int me,np; static MPI_Comm hc; static std::vector<std::string> mine; static std::vector<std::vector<std::string> > all_;
static int64_t *words; static std::string lab, cur;
int world_rank() { return me; } int world_size() { return np; } bool active() { return true; }
static FILE *ofp;
void fail(const std::string &m)
{ fprintf(ofp?ofp:stderr,"REALFAIL\t%s\t%s {at: %s}\n",cur.c_str(),m.c_str(),lab.c_str()); fflush(ofp); MPI_Abort(MPI_COMM_WORLD,7); _exit(7); }
static void done();
void accept() { done(); MPI_Abort(MPI_COMM_WORLD,8); _exit(8); }
void record(const std::string &s) { mine.push_back(s); }
std::vector<std::string> records(int r) { return all_[r]; }
int64_t *shared_words() { return words; }
static int cfd=-1; static void progress() { if (cfd<0) return; char b[1200]; snprintf(b,sizeof b,"%s\t%s",cur.c_str(),lab.c_str()); if (ftruncate(cfd,0)==0&&pwrite(cfd,b,strlen(b),0)<0) cfd=-1; }
void label(const std::string &s) { lab=s; progress(); }
static void done() { cur="done"; label(""); }
void count_sub(long,bool) {}
void par_begin() {} void par_end() {}
void hbarrier() { MPI_Barrier(hc); }
std::vector<std::string> hgather(const std::string &m)
{
  int n=m.size(); std::vector<int> c(np),d(np); MPI_Allgather(&n,1,MPI_INT,&c[0],1,MPI_INT,hc); int t=0; for (int i=0;i<np;i++) { d[i]=t; t+=c[i]; }
  std::string b(t+1,0); MPI_Allgatherv((void*)m.data(),n,MPI_CHAR,&b[0],&c[0],&d[0],MPI_CHAR,hc);
  std::vector<std::string> v; for (int i=0;i<np;i++) v.push_back(b.substr(d[i],c[i])); return v;
}
}
using namespace vm;
int main(int argc,char **argv)
{
  MPI_Init(&argc,&argv); MPI_Comm_rank(MPI_COMM_WORLD,&me); MPI_Comm_size(MPI_COMM_WORLD,&np); MPI_Comm_dup(MPI_COMM_WORLD,&hc);
  GA_Initialize(); MA_init(C_DBL,200000,200000);
  std::string tier="quick",outf,only,match; double budget=10; long stride=1;
  for (int i=1;i+1<argc;i++) { std::string a=argv[i]; if (a=="--tier") tier=argv[i+1]; if (a=="--budget") budget=atof(argv[i+1]); if (a=="--stride") stride=atol(argv[i+1]); if (a=="--out") outf=argv[i+1]; if (a=="--match") match=argv[i+1]; if (a=="--only") only=argv[i+1]; }
  ofp=fopen((outf+"."+std::to_string(me)).c_str(),"w");
  // where we are, in case the libraries abort
  cfd=open((outf+"_cur."+std::to_string(me)).c_str(),O_WRONLY|O_CREAT|O_TRUNC,0600);
  int dn=open("/dev/null",O_WRONLY); dup2(dn,1);
  // the ledger words live in one shared file-backed page when ranks share a host
  MPI_Win w; void *base; MPI_Comm sc; MPI_Comm_split_type(MPI_COMM_WORLD,MPI_COMM_TYPE_SHARED,0,MPI_INFO_NULL,&sc);
  MPI_Win_allocate_shared(me==0?4096*8:0,8,MPI_INFO_NULL,sc,&base,&w); MPI_Aint sz; int du; MPI_Win_shared_query(w,0,&sz,&du,&base); words=(int64_t*)base;
  Harness *h=make_harness(); double t0=MPI_Wtime(); long k=0; std::set<std::string> seen; bool over=false;
  h->enumerate(tier,[&](const Case &c) {
    if (over || c.np!=np) return;
    if (!only.empty() && (","+only+",").find(","+c.gets("w")+",")==std::string::npos) return;
    if (c.kv.count("vmonly")) return;
    if (!match.empty() && c.str().find(match)==std::string::npos) return;
    Case q=c; q.send_mode=0; q.put_mode=0; q.explore=DEFAULT_SCHED; if (!seen.insert(q.str()).second) return;
    if (k++%stride) return;
    int stop= MPI_Wtime()-t0>budget; MPI_Bcast(&stop,1,MPI_INT,0,hc); if (stop) { over=true; return; }
    mine.clear(); cur=c.str(); label(""); MPI_Barrier(hc); if (me==0) for (int i=0;i<4096;i++) words[i]=0; MPI_Barrier(hc);
    try { h->rank_main(c,me,np); } catch (const std::exception &e) { fail(std::string("uncaught exception ")+e.what()); }
    all_.clear(); std::string s; for (auto &x:mine) { s+=std::to_string(x.size())+":"+x; }
    std::vector<std::string> g=hgather(s);
    for (auto &x:g) { std::vector<std::string> v; size_t p=0; while (p<x.size()) { size_t e=x.find(':',p); size_t n=atol(x.substr(p,e-p).c_str()); v.push_back(x.substr(e+1,n)); p=e+1+n; } all_.push_back(v); }
    if (me==0) { try { h->check(c); } catch (const std::exception &e) { fail(e.what()); } fprintf(ofp,"%s\t%s\n",c.str().c_str(),outcome_hash(all_).c_str()); fflush(ofp); }
  });
  cur="done"; label(""); fclose(ofp); GA_Terminate(); MPI_Finalize(); return 0;
}
