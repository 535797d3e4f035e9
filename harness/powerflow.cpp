// Power flow application: what the solution, the contingencies, the limits and the
// totals must be, for every small network, distribution and history of calls.
// USES: parallel timer environment configuration component factory stream partition parser math
// REPO_SRC: applications/modules/powerflow/pf_app_module.cpp applications/modules/powerflow/pf_factory_module.cpp applications/components/pf_matrix/pf_components.cpp applications/components/y_matrix/ymatrix_components.cpp
#include <mpi.h>
#include <ga++.h>
#include <complex>
#include <fstream>
#include <set>
#include <unistd.h>
#include <cmath>
#include "vm.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
#include "parstub.hpp"
#include "gridpack/include/gridpack.hpp"
#include "gridpack/applications/modules/powerflow/pf_app_module.hpp"
#include "gridpack/utilities/string_utils.hpp"
using gridpack::parallel::Communicator; using gridpack::utility::Configuration;
using namespace gridpack::powerflow; using nk::g_assign;
#include "pfsolve.hpp"

struct PF : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const std::string &net,const std::string &as,const std::string &ops,int q=0,int nr=0,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.explore=ex; c.bound=b; c.set("net",net).set("as",as).set("ops",ops).set("q",q); if (nr) c.set("nr",1); emit(c); };
    const char *H[]={"srst","sC","sD","sE","sv","sd","sy","sRs","ksds","js","zsE","xsCv","asAsbspst","Bstprs","n","nrn"};
    const char *F[]={"","T","P","R","t","U","O","L","G","X","g","S","W","Z","N","5","w","V","LGT5","RUPtOVZ","SWLgN"};
    std::vector<std::string> T={"31;0-1;","321;0-1,1-2;","3214;0-1,1-2,0-2,2-3;","3122;0-1,1-2,2-3,0-3;"};
    if (th) { T.clear(); for (int n=2;n<=4;n++) { std::vector<std::pair<int,int> > P; for (int i=0;i<n;i++) for (int j=i+1;j<n;j++) P.push_back(std::make_pair(i,j));
      for (int m=1;m<(1<<P.size());m++) { std::vector<int> c(n); for (int i=0;i<n;i++) c[i]=i; std::string e; for (size_t k=0;k<P.size();k++) if (m>>k&1) { int x=c[P[k].first],y=c[P[k].second]; for (int i=0;i<n;i++) if (c[i]==x) c[i]=y; if (e.size()) e+=","; e+=std::to_string(P[k].first)+"-"+std::to_string(P[k].second); } bool conn=true; for (int i=0;i<n;i++) if (c[i]!=c[0]) conn=false; if (!conn||(n==4&&__builtin_popcount(m)>5)) continue;
        for (int sl=0;sl<n;sl++) for (int ty=0;ty<(1<<(n-1));ty++) { if (n==4&&(sl+ty+m)%6) continue; std::string t; int b=0; for (int i=0;i<n;i++) t+=i==sl?'3':(ty>>b++&1)?'2':'1'; T.push_back(t+";"+e+";"); } } } }
    auto ty=[](const std::string &t) { return t.substr(0,t.find(';')); };
    for (auto &t:T) for (auto f:F) { int n=ty(t).size(); if (strchr(f,'X')&&ty(t).find('2')==std::string::npos) continue; for (auto h:H) for (int np=1;np<=(th?std::min(n,3):2);np++) { if (th&&n==4&&np==1&&strlen(f)==1) continue; add(np,t+f,"all",h); } }
    if (th) T.resize(std::min<size_t>(T.size(),60)); else T={"321;0-1,1-2;","322;0-1,1-2,0-2;","2132;0-1,1-2,0-2,2-3;","3122;0-1,1-2,2-3,0-3;"};
    for (auto &t:T) for (auto f:{"Q","QG","QGLT","QN","QX"}) { int n=ty(t).size(); if (ty(t).find('2')==std::string::npos) continue; for (int np=1;np<=std::min(n,n==4&&!th?2:3);np++) { for (auto h:{"srst","sQrs","sCQrs","sEs","sdQs","sQzsQ","sQasQrps","sRs","sv","sQsQsQ"}) add(np,t+f,"all",h,1); for (auto h:{"sqs","sqsqsqsQrs","sqsdQrsC"}) add(np,t+f,"all",h,0); } }
    for (auto t:{"31;0-1;","321;0-1,1-2;","3214;0-1,1-2,0-2,2-3;","3122;0-1,1-2,2-3,0-3;"}) for (auto f:{"","TG"}) for (int np=1;np<=3;np++) if (strlen(t)>7||np<3) for (auto h:{"n","nrnRn","nCd"}) add(np,std::string(t)+f,"all",h,0,1);
    for (auto h:{"s","svtE","sd"}) for (auto as:{"0,1,1","1,0,1"}) { add(2,"321;0-1,1-2;TG",as,h,0,0,PREEMPT_BOUND,th?2:1); add(2,"321;0-1,1-2;QG",as,h,1,0,PREEMPT_BOUND,th?2:1); }
  }
  std::string dir; PFAppModule *app; boost::shared_ptr<PFNetwork> net; Net N; St S0,S; Communicator *cm; int qlim; boost::shared_ptr<Configuration> conf; std::vector<double> vmeasured;
  int busof(int id) { for (int i=0;i<N.n();i++) if (N.b[i].id==id) return i; fail("unknown bus"); return -1; }
  // what the history so far must lead to, with the limits applied
  Sol expect() { Sol r=::solve(N,S); return r; }
  void values(std::vector<double> &v,std::vector<double> &a,const std::string &what) { // of every bus, from its owner; the copies must agree
    int n=N.n(); v.assign(n,0); a.assign(n,0); std::vector<int> own(n,0); for (int i=0;i<net->numBuses();i++) if (net->getActiveBus(i)) { int b=busof(net->getOriginalBusIndex(i)); own[b]=1; v[b]=net->getBus(i)->getVoltage(); a[b]=net->getBus(i)->getPhase(); }
    cm->sum(&v[0],n); cm->sum(&a[0],n); cm->sum(&own[0],n); for (int i=0;i<n;i++) VM_CHECK(own[i]==1,"bus is not owned once");
    for (int i=0;i<net->numBuses();i++) { int b=busof(net->getOriginalBusIndex(i)); double x=net->getBus(i)->getVoltage(),y=net->getBus(i)->getPhase(); VM_CHECK((x==v[b]&&y==a[b])||x!=x||v[b]!=v[b],what<<": copy of bus "<<N.b[b].id<<" has "<<x<<" "<<y<<", the owner "<<v[b]<<" "<<a[b]); }
  }
  void check(bool ret,const Sol &r,const std::string &what,bool flows=true) {
    int n=N.n(),rr=ret; cm->sum(&rr,1); VM_CHECK(rr==0||rr==cm->size(),what<<": solved on some processes only"); std::vector<double> v,a; if (!r.ok) return; values(v,a,what);
    VM_CHECK(ret,what<<": not solved");
    for (int i=0;i<n;i++) if (!r.iso[i]) VM_CHECK(std::fabs(v[i]-r.v[i])<2e-6&&std::fabs(std::remainder(a[i]-r.a[i],2*PI))<2e-6,what<<": voltage at bus "<<N.b[i].id<<" is "<<v[i]<<" at "<<a[i]*180/PI<<" degrees, expected "<<r.v[i]<<" at "<<r.a[i]*180/PI);
    if (!flows) return;
    // flows in the elements
    for (int i=0;i<net->numBranches();i++) if (net->getActiveBranch(i)) { PFBranch *br=net->getBranch(i).get(); int f=busof(br->getBus1OriginalIndex()),t=busof(br->getBus2OriginalIndex()); std::vector<std::string> tags=br->getLineTags(); 
      for (auto &tg:tags) { const Elem *e=0; size_t k; for (k=0;k<N.e.size();k++) if (two(N.e[k].ck)==tg&&((N.e[k].i==f&&N.e[k].j==t)||(N.e[k].i==t&&N.e[k].j==f))) { e=&N.e[k]; break; } VM_CHECK(e,"no element \""<<tg<<"\" between "<<N.b[f].id<<" and "<<N.b[t].id); VM_CHECK(br->getBranchStatus(tg)==(bool)S.es[k],what<<": status of element "<<tg<<" is "<<br->getBranchStatus(tg)); C s=br->getComplexPower(tg),x=!S.es[k]||r.iso[f]||r.iso[t]?C(0):flow(N,r,*e,e->i!=f); VM_CHECK(std::abs(s-x)<2e-3,what<<": flow in "<<N.b[f].id<<"-"<<N.b[t].id<<" "<<tg<<" is "<<s<<", expected "<<x); } }
    // the output of the generators
    std::vector<std::string> out=app->writeBusString("gen_str"); if (cm->rank()==0) { std::vector<C> g(n,C(0)); std::vector<int> cnt(n,0); for (auto &o:out) { std::istringstream s(o); std::string l; while (std::getline(s,l)) { int id; char tg[9]; double p,q; VM_CHECK(sscanf(l.c_str(),"%d %8s %lf %lf",&id,tg,&p,&q)==4,"unreadable generator line "<<l); int b=busof(id); g[b]+=C(p,q); cnt[b]++; } }
      for (int i=0;i<n;i++) { int ng=0,on=0; C l(0); for (size_t k=0;k<N.g.size();k++) if (N.g[k].b==i) { ng++; on+=S.gs[k]; } for (size_t k=0;k<N.l.size();k++) if (N.l[k].b==i&&N.l[k].st) l+=C(S.pl[k],S.ql[k]); VM_CHECK(cnt[i]==ng,what<<": "<<cnt[i]<<" generators written at bus "<<N.b[i].id); if (r.iso[i]) continue; C x=r.s[i]*N.sbase+l; if (!on) x=0; VM_CHECK(std::abs(g[i]-x)<5e-3,what<<": the generators at bus "<<N.b[i].id<<" give "<<g[i]<<", expected "<<x); } }
    std::vector<std::string> vs=app->writeBusString("vr_str"); if (cm->rank()==0) { VM_CHECK((int)vs.size()==n,what<<": "<<vs.size()<<" bus lines"); for (auto &o:vs) { int id; double an,vm; sscanf(o.c_str(),"%d %lf %lf",&id,&an,&vm); int b=busof(id); if (!r.iso[b]) VM_CHECK(std::fabs(vm-r.v[b])<2e-6&&std::fabs(std::remainder(an*PI/180-r.a[b],2*PI))<2e-6,what<<": output of bus "<<id<<" is "<<vm<<" at "<<an); } }
  }
  // with reactive limits: those beyond are held at the limit, all at once, until none is left
  Sol limited(St &s) { for (int it=0;it<10;it++) { Sol r=::solve(N,s); if (!r.ok) return r; bool ch=over(s,r); if (!ch) return r; } return ::solve(N,s); }
  bool over(St &s,const Sol &r) { return ::over(N,s,r); }
  void init() { S0=start(N); S=S0; }
  void run(const std::string &what) { bool r=app->solve(); Sol x=qlim?limited(S) : ::solve(N,S); check(r,x,what); }
  Contingency event(const std::vector<int> &el,const std::vector<int> &gn) { Contingency c; c.p_name="c"; c.p_type=gn.size()?Generator:Branch; for (int k:el) { auto &e=N.e[k]; c.p_from.push_back(N.b[e.i].id); c.p_to.push_back(N.b[e.j].id); c.p_ckt.push_back(two(e.ck)); c.p_saveLineStatus.push_back(true); } for (int k:gn) { c.p_busid.push_back(N.b[N.g[k].b].id); c.p_genid.push_back(two(N.g[k].id)); c.p_saveGenStatus.push_back(true); } return c; }
  void outage(const std::vector<int> &el,const std::vector<int> &gn,const std::string &what) {
    app->resetVoltages(); app->clearQlimViolations(); S.pq=S0.pq; St keep=S; Contingency c=event(el,gn); VM_CHECK(app->setContingency(c),what<<": contingency not found"); for (int k:el) S.es[k]=0; for (int k:gn) S.gs[k]=0; S.lone=true; run(what+" out"); if (qlim) app->clearQlimViolations(); VM_CHECK(app->unSetContingency(c),what<<": contingency not found when it is cleared"); S=keep; }
  void one(const std::vector<int> &as,const std::string &ops,const std::string &file) {
    init(); g_assign=as; net.reset(new PFNetwork(*cm)); PFAppModule A; app=&A; A.suppressOutput(true); A.readNetwork(net,conf.get()); A.initialize(); int step=0;
    for (char o:ops) { std::ostringstream w; w<<"step "<<++step<<" ("<<o<<")"; std::string W=w.str(); switch (o) {
      case 's': run(W); break;
      case 'n': { bool r=app->nl_solve(); check(r,::solve(N,S),W); } break;
      case 'r': { app->resetVoltages(); std::vector<double> v,a; values(v,a,W); } break;
      case 'C': for (size_t k=0;k<N.e.size();k++) { outage({(int)k},{},W+" element "+std::to_string(k)); } app->resetVoltages(); run(W+" afterwards"); break;
      case 'D': for (size_t k=0;k<N.e.size();k++) for (size_t m=0;m<k;m++) outage({(int)k,(int)m},{},W+" elements "+std::to_string(k)+","+std::to_string(m)); app->resetVoltages(); run(W+" afterwards"); break;
      case 'E': for (size_t k=0;k<N.g.size();k++) if (N.b[N.g[k].b].type!=3) { outage({},{(int)k},W+" generator "+std::to_string(k)); app->resetVoltages(); run(W+" back"); if (qlim) { app->clearQlimViolations(); S.pq=S0.pq; } } break;
      case 'q': { // the caller checks the limits
        Sol x=::solve(N,S); if (!x.ok) break; St t=S; bool any=over(t,x); VM_CHECK(app->checkQlimViolations()==!any,W<<": reactive limits "<<(any?"violated but not reported":"reported but not violated")); S=t; } break;
      case 'Q': app->clearQlimViolations(); S.pq=S0.pq; break;
      case 'R': app->reload(); S=S0; break;
      case 'k': for (size_t k=0;k<N.g.size();k++) { S0.pg[k]+=3+k; int ok=app->modifyDataCollectionGenParam(N.b[N.g[k].b].id,N.g[k].id,GENERATOR_PG,S0.pg[k]); cm->sum(&ok,1); VM_CHECK(ok>0,"generator not found"); } app->reload(); S=S0; break;
      case 'j': for (size_t k=0;k<N.l.size();k++) { S0.pl[k]*=0.8; int ok=app->modifyDataCollectionLoadParam(N.b[N.l[k].b].id,N.l[k].id,LOAD_PL,S0.pl[k]); cm->sum(&ok,1); VM_CHECK(ok>0,"load not found"); } app->reload(); S=S0; break;
      case 'z': { size_t k=N.g.size()-1; S0.gs[k]=!S0.gs[k]; app->modifyDataCollectionGenParam(N.b[N.g[k].b].id,N.g[k].id,GENERATOR_STAT,S0.gs[k]); app->reload(); S=S0; } break;
      case 'x': { size_t k=N.e.size()-1; S0.es[k]=!S0.es[k]; auto &e=N.e[k]; bool rev=true; for (auto &f:N.e) if ((f.i==e.i&&f.j==e.j)||(f.i==e.j&&f.j==e.i)) { rev=f.i!=e.i; break; } int ok=rev?app->modifyDataCollectionBranchParam(N.b[e.j].id,N.b[e.i].id,two(e.ck),BRANCH_STATUS,S0.es[k]):app->modifyDataCollectionBranchParam(N.b[e.i].id,N.b[e.j].id,two(e.ck),BRANCH_STATUS,S0.es[k]); cm->sum(&ok,1); VM_CHECK(ok>0,"branch not found"); app->reload(); S=S0; } break;
      case 'a': app->scaleLoadPower(1.1,1,0); for (size_t k=0;k<N.l.size();k++) if (N.b[N.l[k].b].area==1&&N.l[k].st) { S.pl[k]*=1.1; S.ql[k]*=1.1; } break;
      case 'A': app->scaleLoadPower(0.7,2,1); for (size_t k=0;k<N.l.size();k++) if (N.b[N.l[k].b].area==2&&N.b[N.l[k].b].zone==1&&N.l[k].st) { S.pl[k]*=0.7; S.ql[k]*=0.7; } break;
      case 'b': case 'B': { double f=o=='b'?0.2:-0.3; int ar=o=='b'?2:1; app->scaleGeneratorRealPower(f,ar,0); for (size_t k=0;k<N.g.size();k++) if (N.b[N.g[k].b].area==ar&&S.gs[k]) S.pg[k]+=f>0?f*(N.g[k].pt-S.pg[k]):f*(S.pg[k]-N.g[k].pb); } break;
      case 'p': app->resetPower(); S.pg=S0.pg; S.pl=S0.pl; S.ql=S0.ql; break;
      case 't': for (int ar=1;ar<=2;ar++) for (int z=0;z<=2;z++) { double pl=0,tot=0,mn=0,mx=0,t,m,M; for (size_t k=0;k<N.l.size();k++) { auto &b=N.b[N.l[k].b]; if (N.l[k].st&&b.area==ar&&(z==0||b.zone==z)) pl+=S0.pl[k]; } for (size_t k=0;k<N.g.size();k++) { auto &b=N.b[N.g[k].b]; if (S.gs[k]&&b.area==ar&&(z==0||b.zone==z)) { tot+=S0.pg[k]; mn+=N.g[k].pb; mx+=N.g[k].pt; } }
          double l=app->getTotalLoadRealPower(ar,z); app->getGeneratorMargins(ar,z,&t,&m,&M); VM_CHECK(std::fabs(l-pl)<1e-9,W<<": load of area "<<ar<<" zone "<<z<<" is "<<l<<", expected "<<pl); VM_CHECK(std::fabs(t-tot)<1e-9&&std::fabs(m-mn)<1e-9&&std::fabs(M-mx)<1e-9,W<<": generation of area "<<ar<<" zone "<<z<<" is "<<t<<" within "<<m<<" and "<<M<<", expected "<<tot<<" within "<<mn<<" and "<<mx); } break;
      case 'd': { Sol r=::solve(N,S); if (!r.ok) break; app->saveData(); for (int i=0;i<net->numBuses();i++) if (net->getActiveBus(i)) { int b=busof(net->getOriginalBusIndex(i)); if (r.iso[b]) continue; boost::shared_ptr<gridpack::component::DataCollection> d=net->getBusData(i); double v,a; VM_CHECK(d->getValue("BUS_PF_VMAG",&v)&&d->getValue("BUS_PF_VANG",&a)&&std::fabs(v-r.v[b])<2e-6&&std::fabs(std::remainder(a*PI/180-r.a[b],2*PI))<2e-6,W<<": saved voltage of bus "<<N.b[b].id<<" is "<<v<<" at "<<a);
            int ng=0,on=0; C g(0),l(0); for (size_t k=0;k<N.g.size();k++) if (N.g[k].b==b) { double p,q; VM_CHECK(d->getValue("GENERATOR_PF_PGEN",&p,ng)&&d->getValue("GENERATOR_PF_QGEN",&q,ng),"no saved generator"); ng++; on+=S.gs[k]; if (S.gs[k]) g+=C(p,q); else VM_CHECK(std::abs(C(p,q))<1e-12,W<<": a generator out of service gives "<<C(p,q)); } for (size_t k=0;k<N.l.size();k++) if (N.l[k].b==b&&N.l[k].st) l+=C(S.pl[k],S.ql[k]); if (on) VM_CHECK(std::abs(g*N.sbase-(r.s[b]*N.sbase+l))<5e-3,W<<": saved generation of bus "<<N.b[b].id<<" is "<<g*N.sbase<<", expected "<<r.s[b]*N.sbase+l); } } break;
      case 'y': { Sol r=::solve(N,S); if (!r.ok) break; app->saveDataAlsotoOrg(); app->reload(); bool ok=app->solve(); check(ok,r,W); } break;
      case 'v': violations(W); break;
    } }
    net.reset(); app=0;
  }
  void violations(const std::string &W) {
    Sol r=::solve(N,S); if (!r.ok) return; for (int i=0;i<N.n();i++) if (r.iso[i]) return; double lo=0.985,hi=1.015; app->setVoltageLimits(lo,hi);
    for (int ar=0;ar<=2;ar++) { bool bad=false; for (int i=0;i<N.n();i++) if ((ar==0||N.b[i].area==ar)&&(r.v[i]>hi||r.v[i]<lo)) bad=true; bool g=ar?app->checkVoltageViolations(ar):app->checkVoltageViolations(); VM_CHECK(g==!bad,W<<": voltages in area "<<ar<<(bad?" violate the limits but this is not reported":" do not violate the limits but this is reported")); }
    // the elements
    auto load=[&](size_t k,int fr) { const Elem *first=0; for (auto &f:N.e) if ((f.i==N.e[k].i&&f.j==N.e[k].j)||(f.i==N.e[k].j&&f.j==N.e[k].i)) { if (!first||(first->tap!=0&&f.tap==0)) first=&f; } return std::abs(flow(N,r,N.e[k],first->i!=N.e[k].i)); };
    std::vector<int> ov(N.e.size(),0); for (size_t k=0;k<N.e.size();k++) if (S.es[k]) { double x=load(k,0); ov[k]=x>N.e[k].rate; if (std::fabs(x-N.e[k].rate)<0.01) return; }
    for (int ar=0;ar<=2;ar++) { bool bad=false; for (size_t k=0;k<N.e.size();k++) if (ov[k]&&(ar==0||N.b[N.e[k].i].area==ar||N.b[N.e[k].j].area==ar)) bad=true; bool g=ar?app->checkLineOverloadViolations(ar):app->checkLineOverloadViolations(); VM_CHECK(g==!bad,W<<": elements in area "<<ar<<(bad?" are overloaded but this is not reported":" are not overloaded but this is reported")); }
    std::vector<int> f,t; std::vector<std::string> tg; std::vector<bool> vi; bool bad=false; for (size_t k=0;k<N.e.size();k++) { bool sw=false; auto &e=N.e[k]; for (auto &x:N.e) if ((x.i==e.i&&x.j==e.j)||(x.i==e.j&&x.j==e.i)) { sw=x.i!=e.i; if (x.tap==0) break; } f.push_back(N.b[sw?e.j:e.i].id); t.push_back(N.b[sw?e.i:e.j].id); tg.push_back(two(e.ck)); bad|=ov[k]; }
    bool g=app->checkLineOverloadViolations(f,t,tg,vi); VM_CHECK(g==!bad,W<<": named elements: "<<g); VM_CHECK(vi.size()==N.e.size(),"number of results"); for (size_t k=0;k<N.e.size();k++) VM_CHECK(vi[k]==!ov[k],W<<": element "<<k<<(ov[k]?" is overloaded but not reported":" is not overloaded but reported"));
    // list of what was found: one line for each bus found in its area and each overloaded element
    std::vector<std::string> fl=app->getContingencyFailures(); std::multiset<std::string> got(fl.begin(),fl.end()); std::set<std::string> gotset(fl.begin(),fl.end()); std::set<std::string> want; for (int i=0;i<N.n();i++) if (r.v[i]>hi||r.v[i]<lo) { std::ostringstream o; o<<"     Bus voltage violation on bus "<<N.b[i].id; want.insert(o.str()); } for (size_t k=0;k<N.e.size();k++) if (ov[k]) { std::ostringstream o; o<<"     Branch overload violation on branch ["<<f[k]<<","<<t[k]<<"] for line "<<tg[k]; want.insert(o.str()); }
    VM_CHECK(gotset==want,W<<": failures listed: "<<show(fl)<<", expected "<<show(std::vector<std::string>(want.begin(),want.end())));
    app->ignoreVoltageViolations(); VM_CHECK(app->checkVoltageViolations(),W<<": voltage violations to be ignored are reported"); app->clearVoltageViolations(); bool vb=false; for (int i=0;i<N.n();i++) if (r.v[i]>hi||r.v[i]<lo) vb=true; VM_CHECK(app->checkVoltageViolations()==!vb,W<<": voltage violations after clearing the ones to ignore");
  }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); gridpack::math::Initialize(0,0); {
      Communicator world; cm=&world; qlim=c.geti("q"); N=make(c.gets("net")); std::string as=c.gets("as"),ops=c.gets("ops");
      char t[]="/tmp/vmpfXXXXXX"; std::string file; if (rank==0) { VM_CHECK(mkdtemp(t),"no scratch directory"); dir=t; file=dir+"/n.raw"; std::ofstream o(file.c_str()); o<<N.raw(); }
      std::ostringstream x; x<<"<Configuration><Powerflow><networkConfiguration_v33>"<<file<<"</networkConfiguration_v33><maxIteration>30</maxIteration><tolerance>1.0e-8</tolerance><qlim>"<<qlim<<"</qlim>"<<(c.geti("nr")?"<UseNewton>true</UseNewton>":"")<<"<LinearSolver><PETScOptions>-ksp_type gmres -pc_type jacobi -ksp_rtol 1.0e-12 -ksp_atol 1.0e-14 -ksp_max_it 400</PETScOptions></LinearSolver></Powerflow></Configuration>";
      std::vector<std::string> cfg(1,x.str()); conf.reset(new Configuration); VM_CHECK(conf->openStringFile(cfg,world),"configuration not read");
      if (as!="all") one(ints(as),ops,file); else { Odo o(std::vector<int>(N.n(),np)); do { label("partition "+o.str()); one(o.d,ops,file); if (rank==0) count_sub(1,np>1); } while (o.next()); }
      if (rank==0) { unlink(file.c_str()); rmdir(dir.c_str()); }
      record("ok");
    } gridpack::math::Finalize(); par_end();
  }
};
Harness *vm::make_harness() { return new PF; }
