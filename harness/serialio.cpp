// Serial IO: what the head node writes or gathers, for every network, partition, choice
// of writing components and history of calls.
// USES: parallel timer environment configuration component factory stream partition
#include <set>
#include <vector>
#include <string>
#include <cstring>
namespace sio {
static int size=32, pat=0;
// which components write, and what
inline bool writes(int kind,int g,const char *sig) { int s=sig?sig[0]-'a'+1:0; switch (pat) { case 0: return true; case 1: return (g+s+kind)%2==0; case 2: return s==2||g==0; case 3: return (g*3+s)%4==1; case 4: return s!=1; default: return false; } }
inline std::string text(int kind,int g,const char *sig) { std::string s=std::string(kind?"L":"B")+std::to_string(g)+(sig?sig:"-"); int n=(g*5+kind*3)%size; switch ((g+kind)%5) { case 0: n=size-1; break; case 1: return g%2?"":s+"\n"; } while ((int)s.size()<n-1) s+="abcdefgh"[s.size()%8]; if ((int)s.size()>n-1) s.resize(n>0?n-1:0); return n>0?s+"\n":s; }
struct Item { int kind; double x; int g; char c[5]; char s; };
inline bool give(int kind,int g,void *d,const char *sig) { if (!writes(kind,g,sig)) return false; Item i; memset(&i,0,sizeof i); i.kind=kind; i.g=g; i.x=g*1.25+kind; i.s=sig?sig[0]:'-'; for (int k=0;k<5;k++) i.c[k]='A'+g+k; memcpy(d,&i,sizeof i); return true; }
inline bool put(int kind,int g,char *s,int n,const char *sig) { if (!writes(kind,g,sig)) { if (n>0) s[0]='#'; return false; } std::string t=text(kind,g,sig); memset(s,'~',n); memcpy(s,t.c_str(),t.size()+1); return true; }
}
#define SIO(K,OFF) bool serialWrite(char *s,const int n,const char *sig=NULL) { return sio::put(K,tag-OFF,s,n,sig); } bool getDataItem(void *d,const char *sig=NULL) { return sio::give(K,tag-OFF,d,sig); }
#define NK_BUS SIO(0,500)
#define NK_BRANCH SIO(1,700)
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/factory/base_factory.hpp"
#include "gridpack/serial_io/serial_io.hpp"
#include <fstream>
#include <unistd.h>
using namespace nk;
NETKIT_EXPORT
using gridpack::parallel::Communicator;
using gridpack::serial_io::SerialBusIO; using gridpack::serial_io::SerialBranchIO;
typedef SerialBusIO<TNet> BIO; typedef SerialBranchIO<TNet> LIO;

struct SI : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const std::string &g,const std::string &as,const std::string &ops,int sz,int pat,int pm,int comm=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.put_mode=pm; c.explore=ex; c.bound=b; c.set("g",g).set("as",as).set("ops",ops).set("sz",sz).set("pat",pat).set("comm",comm); emit(c); };
    std::vector<std::string> g3=connected_graphs(3),g4=connected_graphs(4);
    // every assignment of the buses, every choice of writing components
    for (int np=1;np<=3;np++) for (auto &g:g3) for (int pat=0;pat<6;pat++) for (int pm=0;pm<(th?2:1);pm++) add(np,g,"all","xblBLsSgGvw",pat%2?32:53,pat,(pat+np+pm)%2);
    for (int np=2;np<=4;np++) for (size_t k=0;k<g4.size();k+=(th?np==4?4:1:np==2?3:np==3?7:19)) add(np,g4[k],"all","bsxLGlgSvtBw",32+k%9,k%5,k&1);
    for (int np=2;np<=(th?3:2);np++) add(np,"5:4-0,0-3,3-1,1-2,2-4,0-1","all","xbLsGlBgS",40,1,1);
    // histories: b/B/v bus output with signal none/a/b  l/L/w branch output  h/H headers  s/S strings  g/G data
    //  o/q bus output to a new file 1/2  p branch output to a new file  t branches share the bus file  c/C close  n/m new IO objects
    const char *A="bBvlLwhHsSgGoqptcCnm"; int nA=strlen(A);
    for (int np=1;np<=2;np++) for (int first=0;first<nA;first++) for (int k=0;k<nA;k++) add(np,"3:0-1,1-2,2-0",np==1?"0,0,0":(k&1)?"0,1,0":"1,1,0",std::string(th&&np==2?"**":"*")+A[first]+A[k],32,1+k%4,k&1);
    // part of the processes
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) if (th||np<4||col%4==2) add(np,"3:0-1,2-1","all","xblBgGsS",32,1,1,col+1);
    // schedules
    for (int pm=0;pm<2;pm++) for (const char *o:{"bB","lL","sv","SG","gs"}) add(2,"3:0-1,1-2,2-0",pm?"0,1,0":"1,0,0",o,32,1,pm,0,PREEMPT_BOUND,th?3:2);
  }
  static const char *sig(char o) { switch (o) { case 'B': case 'L': return "a"; case 'v': case 'w': return "b"; } return NULL; }
  std::string dir;
  static std::string slurp(const std::string &f) { std::ifstream i(f.c_str()); std::ostringstream o; o<<i.rdbuf(); return o.str(); }
  void one(Communicator &cm,const Graph &g,const std::vector<int> &as,const std::string &ops) {
    boost::shared_ptr<TNet> p(new TNet(cm)); TNet &net=*p; build(net,g,1,2); g_assign=as; net.partition(); bool head=cm.rank()==0;
    // the order is that of the global indices
    std::vector<std::vector<int> > own(2); std::vector<int> tags[2]; for (int k=0;k<2;k++) { int n=k?g.e.size():g.n; tags[k].assign(n,-1); if (k==0) { for (int i=0;i<net.numBuses();i++) if (net.getActiveBus(i)) tags[0][net.getGlobalBusIndex(i)]=net.getBus(i)->tag-500; } else for (int i=0;i<net.numBranches();i++) if (net.getActiveBranch(i)) tags[1][net.getGlobalBranchIndex(i)]=net.getBranch(i)->tag-700; cm.max(&tags[k][0],n); for (int t:tags[k]) VM_CHECK(t>=0,"network is not complete"); }
    auto all=[&](int k,const char *s) { std::string r; for (int t:tags[k]) if (sio::writes(k,t,s)) r+=sio::text(k,t,s); return r; };
    std::ostringstream screen; std::streambuf *old=std::cout.rdbuf(screen.rdbuf()); std::string want; // expected on the screen of the head node
    std::map<int,std::string> files; int bf=-1,lf=-1,nf=0; bool shared=false; // current file of each
    std::unique_ptr<BIO> bio(new BIO(sio::size,p)); std::unique_ptr<LIO> lio(new LIO(sio::size,p));
    auto emit=[&](int k,const std::string &t) { int f=k?lf:bf; if (f<0) want+=t; else files[f]+=t; };
    auto name=[&](int f) { return dir+"/f"+std::to_string(f); };
    int step=0; for (char o:ops) { step++; std::ostringstream w; w<<"step "<<step<<" ("<<o<<")"; switch (o) {
        case 'x': break;
        case 'b': bio->write(); emit(0,all(0,NULL)); break; case 'B': case 'v': bio->write(sig(o)); emit(0,all(0,sig(o))); break;
        case 'l': lio->write(); emit(1,all(1,NULL)); break; case 'L': case 'w': lio->write(sig(o)); emit(1,all(1,sig(o))); break;
        case 'h': bio->header("\n  header %d of buses\n"); emit(0,"\n  header %d of buses\n"); break; case 'H': lio->header("branches:\n"); emit(1,"branches:\n"); break;
        case 's': case 'S': { int k=o=='S'; const char *s=step%2?"a":NULL; std::vector<std::string> r=k?lio->writeStrings(s):bio->writeStrings(s),e; if (head) for (int t:tags[k]) if (sio::writes(k,t,s)) e.push_back(sio::text(k,t,s)); VM_CHECK(r==e,w.str()<<": "<<r.size()<<" strings instead of "<<e.size()<<" or other contents: "<<show(r)<<" expected "<<show(e)); } break;
        case 'g': case 'G': { int k=o=='G'; const char *s=step%2?"b":NULL; std::vector<sio::Item> r(3),e; if (k) lio->gatherData(r,s); else bio->gatherData(r,s); if (head) for (int t:tags[k]) { sio::Item i; memset(&i,0,sizeof i); if (sio::give(k,t,&i,s)) e.push_back(i); }
            VM_CHECK(r.size()==e.size(),w.str()<<": "<<r.size()<<" items instead of "<<e.size()); for (size_t i=0;i<e.size();i++) VM_CHECK(!memcmp(&r[i],&e[i],sizeof e[i]),w.str()<<": item "<<i<<" is that of component "<<r[i].g<<", expected "<<e[i].g); } break;
        case 'o': case 'q': bio->open(name(nf).c_str()); if (shared) { lio->setStream(bio->getStream()); lf=nf; } bf=nf++; files[bf]; break;
        case 'p': if (shared) lio->setStream(boost::shared_ptr<std::ofstream>()); shared=false; lio->open(name(nf).c_str()); lf=nf++; files[lf]; break;
        case 't': if (bf<0) break; if (lf>=0&&!shared) lio->close(); lio->setStream(bio->getStream()); lf=bf; shared=true; break;
        case 'c': bio->close(); bf=-1; if (shared) { lio->setStream(bio->getStream()); lf=-1; shared=false; } break;
        case 'C': if (shared) break; lio->close(); lf=-1; break;
        case 'n': if (shared) break; bio.reset(new BIO(sio::size+8,p)); bf=-1; break;
        case 'm': if (shared) break; lio.reset(new LIO(sio::size+8,p)); lf=-1; break;
      } }
    bool too=false; try { std::vector<char[999]> dummy; struct Huge { char c[999]; }; std::vector<Huge> v; bio->gatherData(v); } catch (gridpack::Exception &) { too=true; } VM_CHECK(too,"data items larger than the space for them are accepted");
    bio.reset(); lio.reset(); std::cout.rdbuf(old); cm.barrier();
    if (head) { VM_CHECK(screen.str()==want,"written to the screen: \""<<screen.str()<<"\" instead of \""<<want<<"\""); for (auto &f:files) { std::string s=slurp(name(f.first)); VM_CHECK(s==f.second,"file "<<f.first<<" holds \""<<s<<"\" instead of \""<<f.second<<"\""); unlink(name(f.first).c_str()); } }
    else VM_CHECK(screen.str().empty(),"process "<<cm.rank()<<" writes \""<<screen.str()<<"\"");
    cm.barrier();
  }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); {
      Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world; 
      char t[]="/tmp/vmsioXXXXXX"; if (cm.rank()==0) { VM_CHECK(mkdtemp(t),"no scratch directory"); dir=t; }
      Graph g=graph(c.gets("g")); std::string as=c.gets("as"),ops=c.gets("ops"); sio::size=c.geti("sz"); sio::pat=c.geti("pat");
      if (ops[0]=='*') { const char *A="bBvlLwhHsSgGoqptcCnm"; for (const char *a=A;*a;a++) for (const char *b=ops[1]==(char)42?A:"x";*b;b++) { std::string o=ops.substr(ops[1]==(char)42?2:1)+*a; if (*b!='x') o+=*b; o+="bwl"; label("calls "+o); one(cm,g,ints(as),o); if (rank==0) count_sub(1,np>1); } }
      else if (as!="all") one(cm,g,ints(as),ops);
      else { Odo o(std::vector<int>(g.n,cm.size())); do { label("partition "+o.str()); one(cm,g,o.d,ops); if (rank==0) count_sub(1,cm.size()>1); } while (o.next()); }
      if (!dir.empty()) rmdir(dir.c_str());
      record("ok");
    } par_end();
  }
};
Harness *vm::make_harness() { return new SI; }
