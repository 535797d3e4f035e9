// Dynamic simulation: generator swings and network voltages must be the ones of the machine and
// network equations, step by step, for every small system, script of events and distribution.
// USES: parallel timer environment configuration component factory stream partition parser math analysis
// FLAGS: -I$REPO/src/applications/modules/dynamic_simulation_full_y -I$REPO/src/applications/modules/dynamic_simulation_full_y/base_classes -I$REPO/src/applications/modules/dynamic_simulation_full_y/model_classes
// REPO_SRC: applications/modules/dynamic_simulation_full_y/*.cpp applications/modules/dynamic_simulation_full_y/base_classes/*.cpp applications/modules/dynamic_simulation_full_y/model_classes/[!c]*.cpp applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp applications/modules/powerflow/pf_app_module.cpp applications/modules/powerflow/pf_factory_module.cpp applications/components/pf_matrix/pf_components.cpp applications/components/y_matrix/ymatrix_components.cpp
#include <mpi.h>
#include <ga++.h>
#include <fstream>
#include <map>
#include <unistd.h>
#include "vm.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
#include "parstub.hpp"
#include "gridpack/include/gridpack.hpp"
#include "gridpack/applications/modules/powerflow/pf_app_module.hpp"
#include "gridpack/applications/modules/dynamic_simulation_full_y/dsf_app_module.hpp"
#include "pfnet.hpp"
using gridpack::parallel::Communicator; using gridpack::utility::Configuration; using namespace gridpack::dynamic_simulation; using nk::g_assign;
typedef std::string Str; typedef std::vector<double> V; typedef gridpack::powerflow::PFNetwork PFNet;
struct Ev { char t; int a,b,c; double x; }; // F: bus a from step b to c, susceptance x; L: element a gets status c at step b; G: generator a gets status c at step b
struct Mach { int g; double H,D; bool dyn; double E,pm; double d0,w0,d1,w1,dd,dw; double p,q; C v; };
struct DS : Harness {
  void enumerate(const Str &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](int np,const Str &net,const Str &as,const Str &ev,const Str &opt="",Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.explore=ex; c.bound=b; c.set("net",net).set("as",as).set("ev",ev).set("w",opt); emit(c); };
    std::vector<Str> T={"32;0-1;","321;0-1,1-2;","312;0-1,1-2,0-2;","1323;0-1,1-2,2-3,0-3;"}; const char *F[]={"","T","P","R","G","L","O","V","S","W","GL5","UtP","TU","RZG"};
    auto evs=[&](const Str &t,const char *f,bool old) { std::vector<Str> r; int n=t.find(';'); Str last(1,'0'+n-1); r.push_back("");
      if (old) { for (auto &x:{"B0:2:4","B1:3:4","E0:1:5"}) r.push_back(x); r.push_back("B"+last+":1:2"); return r; }
      r.push_back("F0:2:4:99999"); r.push_back("F"+last+":1:3:50"); r.push_back("L0:2:0"); r.push_back("L0:1:0,L0:4:1"); r.push_back("F1:1:3:9999,L0:3:0"); r.push_back("G0:2:0"); r.push_back("G1:1:0,G1:4:1"); r.push_back("G0:1:1,G1:2:1,L0:2:1"); r.push_back("L0:2:0,G1:2:0,F0:3:5:99999");
      if (Str(f).find_first_of("PRVtUO")!=Str::npos) { r.push_back("L9:2:0"); r.push_back("L9:1:0,L0:1:0,L9:4:1"); r.push_back("L0:1:0,L9:2:0,L0:4:1"); } if (Str(f).find('O')!=Str::npos) r.push_back("L9:2:1"); if (Str(f).find('G')!=Str::npos) { r.push_back("G2:1:0"); r.push_back("G2:1:0,G0:2:0,G2:4:1"); r.push_back("G4:1:0,G3:2:0"); } 
      if (n>2) { r.push_back("L1:1:0,L0:2:0,L1:3:1"); r.push_back("L1:2:0,L0:2:0,L0:4:1"); } return r; };
    for (auto &t:T) for (auto f:F) { int n=t.find(';'); if (Str(f)=="O"&&n==2) {} for (int old=0;old<2;old++) for (auto &e:evs(t,f,old)) { if (!th&&n==4&&*f&&(Str(f)+e).size()%3) continue; add(1,t+f,"all",e,old?"o":""); for (int np=2;np<=std::min(n,3);np++) if (np==2?(n<4||th||!*f):(n==3&&(th||!*f||f[1]))) add(np,t+f,"all",e,old?"o":""); } }
    const char *O[]={"n0","n1","b","m","r","rn1","i","wr","f","ri"}; for (auto o:O) for (auto t:{"32;0-1;G","312;0-1,1-2,0-2;GL","321;0-1,1-2;PS"}) for (auto e:{"","L0:1:0,L0:4:1","F0:1:3:99999","G1:2:0","G0:1:0,L0:2:0"}) { add(1,t,"all",e,o); add(2,t,"all",e,o); }
    for (int np=1;np<=2;np++) for (auto e:{"G-1:2:0","G-1:1:0,G0:3:0,G-1:4:1"}) add(np,"312;0-1,1-2,0-2;G","all",e,"b");
    for (auto o:{"","x","rx","ox"}) for (auto e:{"","L0:1:0","F1:1:3:9999"}) { Str ee=*o=='o'?(*e?"B1:2:4":""):e; add(1,"3214;0-1,1-2,0-2,2-3;",
"all",ee,o); add(2,"3214;0-1,1-2,0-2,2-3;GL","all",ee,o); }
    for (auto as:{"0,1,1","1,0,1"}) for (auto e:{"L0:1:0,L1:2:0","F1:1:2:9999,G1:1:0"}) add(2,"321;0-1,1-2;T",as,e,"s",PREEMPT_BOUND,th?2:1);
  }
  bool capture_stdout() const override { return true; }
  Net N; V tv,ta; std::vector<Mach> M; std::vector<Ev> E; Str opt; Str dir; Communicator *cm; boost::shared_ptr<Configuration> conf; double dt; int steps; V sp,sq; // power each generator delivers, pu
  std::vector<std::vector<double> > xd,xw,xp,xq; std::vector<std::vector<C> > xv; std::vector<int> watched;
  bool has(char x) { return opt.find(x)!=Str::npos; }
  int busof(int id) { for (int i=0;i<N.n();i++) if (N.b[i].id==id) return i; fail("unknown bus"); return -1; }
  bool iso(int i) { return N.b[i].type==4; }
  static void lin(std::vector<C> A,std::vector<C> b,std::vector<C> &x) { int n=b.size(); for (int k=0;k<n;k++) { int p=k; for (int i=k;i<n;i++) if (std::abs(A[i*n+k])>std::abs(A[p*n+k])) p=i; for (int j=0;j<n;j++) std::swap(A[k*n+j],A[p*n+j]); std::swap(b[k],b[p]); for (int i=k+1;i<n;i++) { C c=A[i*n+k]/A[k*n+k]; for (int j=k;j<n;j++) A[i*n+j]-=c*A[k*n+j]; b[i]-=c*b[k]; } }
    x.assign(n,C(0)); for (int k=n-1;k>=0;k--) { C s=b[k]; for (int j=k+1;j<n;j++) s-=A[k*n+j]*x[j]; x[k]=s/A[k*n+k]; } }
  void setup(const Case &c) { N=make(c.gets("net")); opt=c.gets("w"); int n=N.n(); dt=1.0/128; steps=has('s')?3:7; int k=0;
    for (auto &g:N.g) { g.mb=100+25*(k%3); g.zx=0.2+0.07*k; g.qg=3+2*k; g.pg=has('m')&&k==1?-12:20+4*k; k++; }
    // any voltages: the loads are what balances them
    tv.resize(n); ta.resize(n); for (int i=0;i<n;i++) { tv[i]=1.0+0.015*((i*2+1)%4-1.5); ta[i]=0.03*((i*3+2)%5)-0.04; }
    std::vector<int> es; for (auto &e:N.e) es.push_back(e.st); St S; S.es=es; std::vector<C> Y; yb(N,S,Y);
    if (has('b')) { Gen g=N.g[0]; g.id="Z"; g.st=1; g.pg=-9; g.qg=2; N.g.insert(N.g.begin(),g); } // consumes, and comes before the machines
    for (int i=0;i<n;i++) { if (iso(i)) continue; C I(0); for (int j=0;j<n;j++) if (!iso(j)) I+=Y[i*n+j]*std::polar(tv[j],ta[j]); C s=std::polar(tv[i],ta[i])*std::conj(I)*N.sbase; for (auto &g:N.g) if (g.b==i&&g.st) s-=C(g.pg,g.qg); C rest=-s; int f=-1; for (size_t j=0;j<N.l.size();j++) if (N.l[j].b==i&&N.l[j].st) { if (f<0) f=j; else rest-=C(N.l[j].pl,N.l[j].ql); } if (f<0) { N.l.push_back(Load{i,"1",1,0,0}); f=N.l.size()-1; } N.l[f].pl=rest.real(); N.l[f].ql=rest.imag(); if (has('f')) N.l[f].pl*=1.1; }
    for (auto &g:N.g) { sp.resize(0); } sp.clear(); sq.clear(); for (auto &g:N.g) { sp.push_back(g.st?g.pg/N.sbase:0); sq.push_back(g.st?g.qg/N.sbase:0); }
    M.clear(); for (size_t g=0;g<N.g.size();g++) { Mach m; m.g=g; m.H=2.5+0.8*g; m.D=g%2?1.5:0; m.dyn=N.g[g].pg>=0&&!(has('n')&&(opt[opt.find('n')+1]-'0')==(int)g); M.push_back(m); }
    E.clear(); std::istringstream es2(c.gets("ev")); Str t; while (std::getline(es2,t,',')) { Ev e; char ty; double p[4]={0,0,0,0}; sscanf(t.c_str(),"%c%lf:%lf:%lf:%lf",&ty,p,p+1,p+2,p+3); e.t=ty; e.a=(int)p[0]; e.b=(int)p[1]; e.c=(int)p[2]; e.x=p[3]; if (ty=='L'&&e.a==9) e.a=N.e.size()-1; if (has('b')&&ty=='G') e.a++; E.push_back(e); } std::stable_sort(E.begin(),E.end(),[](const Ev &a,const Ev &b) { return false; });
    watched.clear(); for (auto &m:M) if (m.dyn&&N.g[m.g].st&&!iso(N.g[m.g].b)) watched.push_back(m.g); if (has('w')) std::reverse(watched.begin(),watched.end());
  }
  // what should happen, from the equations
  virtual void expect() { int n=N.n(); xd.clear(); xw.clear(); xp.clear(); xq.clear(); xv.clear(); std::vector<int> es,gs; for (auto &e:N.e) es.push_back(e.st); for (auto &g:N.g) gs.push_back(g.st); std::vector<C> fault(n,C(0)); bool old=has('o');
    auto on=[&](const Mach &m) { return m.dyn&&gs[m.g]&&!iso(N.g[m.g].b); }; auto mb=[&](const Mach &m) { return N.g[m.g].mb/N.sbase; };
    for (auto &m:M) if (on(m)) { C v=std::polar(tv[N.g[m.g].b],ta[N.g[m.g].b]); C I=std::conj(C(sp[m.g],sq[m.g])/mb(m)/v); C e=v+C(0,N.g[m.g].zx)*I; m.E=std::abs(e); m.pm=sp[m.g]/mb(m); m.d1=std::arg(e); m.w1=1; m.d0=m.d1; m.w0=1; }
    std::vector<C> vv;
    auto net=[&](bool start) { St S; S.es=es; std::vector<C> Y,b(n,C(0)); yb(N,S,Y); for (int i=0;i<n;i++) { double v2=tv[i]*tv[i]; if (iso(i)) { for (int j=0;j<n;j++) Y[i*n+j]=Y[j*n+i]=0; Y[i*n+i]=1; continue; } for (auto &l:N.l) if (l.b==i&&l.st) Y[i*n+i]+=C(l.pl,-l.ql)/N.sbase/v2; for (auto &m:M) if (N.g[m.g].b==i&&!m.dyn&&gs[m.g]) Y[i*n+i]-=C(sp[m.g],-sq[m.g])/v2; Y[i*n+i]+=fault[i]; }
      for (auto &m:M) if (on(m)) { int i=N.g[m.g].b; C y=mb(m)/C(0,N.g[m.g].zx); Y[i*n+i]+=y; b[i]+=std::polar(m.E,start?m.d0:m.d1)*y; } lin(Y,b,vv); };
    auto pe=[&](Mach &m,bool start,double w) { C e=std::polar(m.E,start?m.d0:m.d1); C v=vv[N.g[m.g].b]; C I=(e-v)/C(0,N.g[m.g].zx); double P=(e*std::conj(I)).real(); C s=v*std::conj(I)*mb(m); m.p=s.real(); m.q=s.imag(); return ((m.pm-m.D*(w-1))/w-P)/(2*m.H); };
    const double wb=2*PI*60; for (int k=0;k<steps;k++) { for (auto &e:E) { if (old) { int b=e.t=='B'?e.a:N.e[e.a].i; fault[b]=(k>=e.b&&k<e.c)?C(0,-1e9):C(0); } else if (e.t=='F') { if (k==e.b) fault[e.a]-=C(0,e.x); else if (k==e.c) fault[e.a]+=C(0,e.x); } else if (k==e.b) (e.t=='L'?es:gs)[e.a]=e.c; }
      for (auto &m:M) if (on(m)) { m.d0=m.d1; m.w0=m.w1; } net(true); for (auto &m:M) if (on(m)) { m.dd=(m.w0-1)*wb; m.dw=pe(m,true,m.w0); m.d1=m.d0+m.dd*dt; m.w1=m.w0+m.dw*dt; } net(false);
      for (auto &m:M) if (on(m)) { double a=(m.w1-1)*wb,w=pe(m,false,m.w1); m.d1=m.d0+(m.dd+a)/2*dt; m.w1=m.w0+(m.dw+w)/2*dt; }
      V d,w,p,q; for (int g:watched) { d.push_back(M[g].d1); w.push_back(M[g].w1); p.push_back(M[g].p); q.push_back(M[g].q); } xd.push_back(d); xw.push_back(w); xp.push_back(p); xq.push_back(q); xv.push_back(vv); }
    if (E.empty()&&!has('f')) for (auto &m:M) if (on(m)) VM_CHECK(std::fabs(m.w1-1)<1e-9,"the starting point of the example is no equilibrium"); }
  virtual void compare(DSFullApp &A,boost::shared_ptr<DSFullNetwork> &net,const Str &W) { int n=N.n(),w=watched.size(); std::vector<int> map=A.getTimeSeriesMap(); std::vector<std::vector<double> > ts=A.getGeneratorTimeSeries(); VM_CHECK(map.size()==ts.size(),W<<"map of the time series has "<<map.size()<<" entries for "<<ts.size()<<" series");
    std::vector<double> all(4*w*steps+1,0); std::vector<int> cnt(4*w+1,0); for (size_t i=0;i<ts.size();i++) { VM_CHECK(map[i]>=0&&map[i]<4*w,W<<"time series mapped to "<<map[i]); VM_CHECK((int)ts[i].size()==steps,W<<"time series has "<<ts[i].size()<<" values for "<<steps<<" steps"); cnt[map[i]]++; for (int k=0;k<steps;k++) all[map[i]*steps+k]=ts[i][k]; }
    cm->sum(&all[0],4*w*steps+1); cm->sum(&cnt[0],4*w+1);
    for (int j=0;j<w;j++) for (int q=0;q<4;q++) VM_CHECK(cnt[4*j+q]==1,W<<"generator "<<N.g[watched[j]].id<<" at bus "<<N.b[N.g[watched[j]].b].id<<" has "<<cnt[4*j+q]<<" time series");
    for (int k=0;k<steps;k++) for (int j=0;j<w;j++) { double *a=&all[0]; double got[4]={a[4*j*steps+k],a[(4*j+1)*steps+k],a[(4*j+2)*steps+k],a[(4*j+3)*steps+k]},want[4]={xd[k][j],xw[k][j],xp[k][j],xq[k][j]}; const char *nm[]={"angle","speed","real power","reactive power"}; for (int q=0;q<4;q++) VM_CHECK(std::fabs(got[q]-want[q])<2e-7,W<<nm[q]<<" of generator "<<N.g[watched[j]].id<<" at bus "<<N.b[N.g[watched[j]].b].id<<" after step "<<k+1<<" is "<<got[q]<<" instead of "<<want[q]); }
    V re(n,0),im(n,0); for (int i=0;i<net->numBuses();i++) if (net->getActiveBus(i)) { int b=busof(net->getOriginalBusIndex(i)); C v=net->getBus(i)->getComplexVoltage(); re[b]=v.real(); im[b]=v.imag(); } cm->sum(&re[0],n); cm->sum(&im[0],n);
    for (int i=0;i<n;i++) if (!iso(i)) VM_CHECK(std::abs(C(re[i],im[i])-xv[steps-1][i])<2e-7,W<<"voltage of bus "<<N.b[i].id<<" in the end is "<<C(re[i],im[i])<<" instead of "<<xv[steps-1][i]); }
  virtual void models(std::ostream &q) { for (auto &m:M) if (m.dyn) q<<N.b[N.g[m.g].b].id<<" 'GENCLS' "<<N.g[m.g].id<<" "<<m.H<<" "<<m.D<<" /\n"; }
  virtual void one(const std::vector<int> &as) { g_assign=as; boost::shared_ptr<PFNet> pn(new PFNet(*cm)); { gridpack::powerflow::PFAppModule P; P.readNetwork(pn,conf.get());
      for (int i=0;i<pn->numBuses();i++) { int b=busof(pn->getOriginalBusIndex(i)); boost::shared_ptr<gridpack::component::DataCollection> d=pn->getBusData(i); d->addValue("BUS_PF_VMAG",tv[b]); d->addValue("BUS_PF_VANG",ta[b]*180/PI); int ng=0; d->getValue(GENERATOR_NUMBER,&ng); for (int j=0;j<ng;j++) { Str id; d->getValue(GENERATOR_ID,&id,j); bool f=false; for (size_t g=0;g<N.g.size();g++) if (N.g[g].b==b&&two(N.g[g].id)==id) { d->addValue("GENERATOR_PF_PGEN",sp[g],j); d->addValue("GENERATOR_PF_QGEN",sq[g],j); f=true; } VM_CHECK(f,"generator "<<id); } } }
    boost::shared_ptr<DSFullNetwork> dn(new DSFullNetwork(*cm)); pn->clone<DSFullBus,DSFullBranch>(dn); DSFullApp A; A.transferPFtoDS(pn,dn); A.setNetwork(dn,conf.get()); A.readGenerators(); A.initialize(); A.saveTimeSeries(true); std::vector<int> wb; std::vector<Str> wt; for (int g:watched) { wb.push_back(N.b[N.g[g].b].id); wt.push_back(two(N.g[g].id)); } 
    if (has('r')) { A.setup(); A.run(); A.reset(); } A.setGeneratorWatch(wb,wt,false);
    if (has('o')) { Event e; e.isGenerator=e.isBus=e.isLine=e.isBusFault=e.isLineStatus=e.isGenStatus=false; e.start=1*dt; e.end=2*dt; e.from_idx=e.to_idx=e.bus_idx=-1; if (E.size()) { e.start=E[0].b*dt; e.end=E[0].c*dt; if (E[0].t=='B') { e.isBus=true; e.bus_idx=N.b[E[0].a].id; } else { e.isLine=true; const Elem &x=N.e[E[0].a]; e.from_idx=N.b[x.i].id; e.to_idx=N.b[x.j].id; } } A.solvePreInitialize(e); int k=0; while (!A.isDynSimuDone()&&k<3*steps) { A.executeOneSimuStep(); k++; } VM_CHECK(k==steps,"simulation takes "<<k<<" steps instead of "<<steps); }
    else { A.setup(); A.run(); VM_CHECK(std::fabs(A.getCurrentTime()-steps*dt)<1e-9,"simulation ends at "<<A.getCurrentTime()<<" instead of "<<steps*dt); }
    compare(A,dn,has('r')?"run again after reset: ":""); }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); gridpack::math::Initialize(0,0); { Communicator world; cm=&world; setup(c); expect(); char t[]="/tmp/vmdsXXXXXX"; Str file,dyr; if (rank==0) { VM_CHECK(mkdtemp(t),"no scratch directory"); dir=t; } char buf[64]; memset(buf,0,64); if (rank==0) strcpy(buf,dir.c_str()); boost::mpi::broadcast(world.getCommunicator(),buf,64,0); dir=buf; file=dir+"/n.raw"; dyr=dir+"/n.dyr";
      if (rank==0) { std::ofstream f(file.c_str()); f<<N.raw(); f.close(); std::ofstream q(dyr.c_str()); q.precision(12); models(q); }
      std::ostringstream x; x.precision(12); const char *ls="<LinearSolver><PETScOptions>-ksp_type gmres -pc_type jacobi -ksp_rtol 1.0e-13 -ksp_atol 1.0e-14 -ksp_divtol 1.0e30 -ksp_max_it 400</PETScOptions></LinearSolver>"; x<<"<Configuration><Powerflow><networkConfiguration_v33>"<<file<<"</networkConfiguration_v33>"<<ls<<"</Powerflow><Dynamic_simulation><generatorParameters>"<<dyr<<"</generatorParameters><simulationTime>"<<steps*dt<<"</simulationTime><timeStep>"<<dt<<"</timeStep>"<<(has('i')?"<iterativeNetworkInterface>true</iterativeNetworkInterface>":"");
      if (!has('o')) { x<<"<Events>"; for (auto &e:E) { if (e.t=='F') x<<"<BusFault><begin>"<<e.b*dt<<"</begin><end>"<<e.c*dt<<"</end><bus>"<<N.b[e.a].id<<"</bus><yfault>0 "<<e.x<<"</yfault></BusFault>"; else if (e.t=='L') x<<"<LineStatus><time>"<<e.b*dt<<"</time><line>"<<N.b[N.e[e.a].i].id<<" "<<N.b[N.e[e.a].j].id<<"</line><id>"<<N.e[e.a].ck<<"</id><status>"<<e.c<<"</status></LineStatus>"; else x<<"<GenStatus><time>"<<e.b*dt<<"</time><bus>"<<N.b[N.g[e.a].b].id<<"</bus><id>"<<N.g[e.a].id<<"</id><status>"<<e.c<<"</status></GenStatus>"; } x<<"</Events>"; }
      x<<ls<<"</Dynamic_simulation></Configuration>"; std::vector<Str> cfg(1,x.str()); Str as=c.gets("as");
      auto go=[&](const std::vector<int> &a) { conf.reset(new Configuration); VM_CHECK(conf->openStringFile(cfg,world),"configuration not read"); one(a); };
      if (as!="all") go(ints(as)); else { Odo o(std::vector<int>(N.n(),np)); do { label("partition "+o.str()); go(o.d); if (rank==0) count_sub(1,np>1); } while (o.next()); }
      world.sync(); if (rank==0) { unlink(file.c_str()); unlink(dyr.c_str()); rmdir(dir.c_str()); } record("ok"); } gridpack::math::Finalize(); par_end(); }
};
#ifndef DYNSIM_BASE
Harness *vm::make_harness() { return new DS; }
#endif
