// State estimation: the estimate must be the weighted least squares state of exactly the
// measurements given, for every small network, set of measurements and distribution.
// USES: parallel timer environment configuration component factory stream partition parser math
// REPO_SRC: applications/modules/state_estimation/se_app_module.cpp applications/modules/state_estimation/se_factory_module.cpp applications/components/se_matrix/se_components.cpp applications/components/y_matrix/ymatrix_components.cpp
#include <mpi.h>
#include <ga++.h>
#include <fstream>
#include <set>
#include <unistd.h>
#include "vm.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
#include "parstub.hpp"
#include "gridpack/include/gridpack.hpp"
#include "gridpack/applications/modules/state_estimation/se_app_module.hpp"
#include "pfnet.hpp"
using gridpack::parallel::Communicator; using gridpack::utility::Configuration;
using namespace gridpack::state_estimation; using nk::g_assign; typedef std::string Str; typedef std::vector<double> V;
enum { VM,VA,PI_,QI,PIJ,PJI,QIJ,QJI,IIJ,IJI }; static const char *TN[]={"VM","VA","PI","QI","PIJ","PJI","QIJ","QJI","IIJ","IJI"};
struct Ms { int t,b,e; double z,dev; bool rev; }; // rev: the buses are named in the opposite order (the quantity follows)
struct SE : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    // g: groups of measurements present; one: the single one of the full set left out (or -1), k: pattern of errors, o: order and wording of the list
    auto add=[&](int np,const Str &net,const Str &as,int g,int k,int o,int drop=-1,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.explore=ex; c.bound=b; c.set("net",net).set("as",as).set("g",g).set("k",k).set("o",o).set("drop",drop); emit(c); };
    std::vector<Str> T={"31;0-1;","321;0-1,1-2;","321;0-1,1-2,0-2;","1321;0-1,1-2,2-3,0-3;"}; const char *F[]={"","T","P","R","t","U","O","V","Z","S","W","5","RUtP","TU5","RZ","RS"};
    for (auto &t:T) for (auto f:F) { int n=t.find(';'); for (int g=1;g<64;g++) { if (!th&&n==4&&g%4!=3) continue; add(1,t+f,"all",g,g%4,g%3); } for (int np=2;np<=std::min(n,3);np++) for (int g:{7,15,27,63,36,44}) if (n<4||np<3||th) add(np,t+f,"all",g,(g+np)%4,np%3); }
    for (auto t:{"31;0-1;TP","321;0-1,1-2;UO","321;0-1,1-2,0-2;RZ"}) for (int d=0;d<60;d++) add(1+d%2,t,"all",63,1+d%3,d%3,d);
    for (auto t:{"3214;0-1,1-2,0-2,2-3;","3214;0-1,1-2,0-2,2-3;TP","31241;0-1,1-2,2-3,3-4,0-4;"}) for (int g:{7,27,63}) for (int np=1;np<=2;np++) add(np,t,"all",g,1,g%3);
    for (auto as:{"0,1,1","1,0,1"}) for (int g:{7,28}) { add(2,"321;0-1,1-2;TR",as,g,1,0,-1,PREEMPT_BOUND,th?2:1); }
    for (auto as:{"0,1,0","0,0,1"}) for (int g:{7,28}) { Case c; c.np=3; c.set("net","321;0-1,1-2;TR").set("as",as).set("g",g).set("k",1).set("o",1).set("drop",-1).set("sub",1); emit(c); } }
  FILE *cf; int keep; void capture_begin() { fflush(stdout); std::cout.flush(); cf=tmpfile(); keep=dup(1); dup2(fileno(cf),1); }
  Str capture_end() { fflush(stdout); std::cout.flush(); dup2(keep,1); close(keep); Str r; char b[4096]; rewind(cf); size_t k; while ((k=fread(b,1,sizeof b,cf))>0) r.append(b,k); fclose(cf); return r; }
  Net N; std::vector<Ms> M; std::vector<int> iso,est; std::vector<C> Y; Str dir; boost::shared_ptr<Configuration> conf; boost::shared_ptr<SENetwork> net; int slack; V x0v,x0a,xv,xa; bool good; Communicator *cm;
  int busof(int id) { for (int i=0;i<N.n();i++) if (N.b[i].id==id) return i; fail("unknown bus"); return -1; }
  // the quantity measured, in a given state
  double h(const Ms &m,const V &v,const V &a) { int n=N.n(); if (m.t==VM) return v[m.b]; if (m.t==VA) return a[m.b]; auto U=[&](int i) { return iso[i]?C(0):std::polar(v[i],a[i]); };
    if (m.t==PI_||m.t==QI) { C I(0); for (int j=0;j<n;j++) I+=Y[m.b*n+j]*U(j); C s=U(m.b)*std::conj(I); return m.t==PI_?s.real():s.imag(); }
    const Elem &e=N.e[m.e]; if (!e.st||iso[e.i]||iso[e.j]) return 0; C y=1.0/C(e.r,e.x),hh(0,e.b/2),t=e.tap==0?C(1):std::polar(e.tap,e.ang*PI/180); C vi=U(e.i),vj=U(e.j); bool far=(m.t==PJI||m.t==QJI||m.t==IJI)!=m.rev; C I=far?(y+hh+C(e.gj,e.bj))*vj-y/t*vi:((y+hh)/std::norm(t)+C(e.gi,e.bi))*vi-y/std::conj(t)*vj; C s=(far?vj:vi)*std::conj(I); return m.t==PIJ||m.t==PJI?s.real():m.t==QIJ||m.t==QJI?s.imag():std::abs(I); }
  bool counts(const Ms &m) { if (m.dev==0) return false; if (m.t<=QI) return !iso[m.b]; return !iso[N.e[m.e].i]&&!iso[N.e[m.e].j]; }
  // Gauss-Newton on our own functions
  bool solve(V &v,V &a) { int n=N.n(); std::vector<std::pair<int,int> > u; for (int i=0;i<n;i++) if (!iso[i]) { if (i!=slack) u.push_back(std::make_pair(i,0)); u.push_back(std::make_pair(i,1)); } int q=u.size();
    for (int it=0;it<25;it++) { V G(q*q,0),r(q,0); for (auto &m:M) if (counts(m)) { V d(q); for (int k=0;k<q;k++) { double &w=u[k].second?v[u[k].first]:a[u[k].first],w0=w,e=1e-5; w=w0+e; double p=h(m,v,a); w=w0-e; double l=h(m,v,a); w=w0; d[k]=(p-l)/(2*e); } double f=m.z-h(m,v,a),w=1/(m.dev*m.dev); for (int i=0;i<q;i++) { r[i]+=w*d[i]*f; for (int j=0;j<q;j++) G[i*q+j]+=w*d[i]*d[j]; } }
      double mx=0; V piv; for (int k=0;k<q;k++) { int p=k; for (int i=k;i<q;i++) if (std::fabs(G[i*q+k])>std::fabs(G[p*q+k])) p=i; for (int j=0;j<q;j++) std::swap(G[k*q+j],G[p*q+j]); std::swap(r[k],r[p]); if (std::fabs(G[k*q+k])<(it<8?1e-9:3.0)) return false; for (int i=k+1;i<q;i++) { double c=G[i*q+k]/G[k*q+k]; for (int j=k;j<q;j++) G[i*q+j]-=c*G[k*q+j]; r[i]-=c*r[k]; } }
      for (int k=q-1;k>=0;k--) { for (int j=k+1;j<q;j++) r[k]-=G[k*q+j]*r[j]; r[k]/=G[k*q+k]; } for (int k=0;k<q;k++) { (u[k].second?v:a)[u[k].first]+=r[k]; mx=std::max(mx,std::fabs(r[k])); } if (!(mx<10)) return false; if (mx<1e-11&&it>8) { for (int i=0;i<n;i++) if (!iso[i]&&v[i]<0.5) return false; return true; } if (it<=8&&mx<1e-11) it=8; }
    return false; }
  void setup(const Case &c) { good=false; N=make(c.gets("net")); int n=N.n(),g=c.geti("g"),k=c.geti("k"),o=c.geti("o"),drop=c.geti("drop",-1); slack=-1; iso.assign(n,1); std::vector<int> st; for (auto &e:N.e) { st.push_back(e.st); if (e.st&&N.b[e.i].type!=4&&N.b[e.j].type!=4) iso[e.i]=iso[e.j]=0; } for (int i=0;i<n;i++) { if (N.b[i].type==4) iso[i]=1; if (N.b[i].type==3) slack=i; }
    St S; S.es=st; yb(N,S,Y); M.clear(); V tv(n),ta(n); for (int i=0;i<n;i++) { tv[i]=1.0+0.015*((i*2+1)%4-1.5); ta[i]=N.b[slack].va*PI/180-(i==slack?0:0.03*((i*3+2)%5)+0.02); }
    for (int i=0;i<n;i++) { if (g&1) M.push_back(Ms{VM,i,-1,0,0.02,false}); if (g&2) M.push_back(Ms{VA,i,-1,0,0.03,false}); if (g&4) { M.push_back(Ms{PI_,i,-1,0,0.05,false}); M.push_back(Ms{QI,i,-1,0,0.04,false}); } }
    for (int e=0;e<(int)N.e.size();e++) { bool rv=o==1?e%2==1:o==2; int t0=M.size(); if (g&8) { M.push_back(Ms{PIJ,-1,e,0,0.02,rv}); M.push_back(Ms{QIJ,-1,e,0,0.03,rv}); } if (g&16) { M.push_back(Ms{PJI,-1,e,0,0.05,rv}); M.push_back(Ms{QJI,-1,e,0,0.02,rv}); } if (g&32) { M.push_back(Ms{IIJ,-1,e,0,0.04,rv}); M.push_back(Ms{IJI,-1,e,0,0.05,rv}); } (void)t0; }
    if (drop>=0) { if (drop>=(int)M.size()) { M.clear(); return; } M.erase(M.begin()+drop); }
    for (size_t i=0;i<M.size();i++) { Ms &m=M[i]; m.z=h(m,tv,ta); static const double E[4][5]={{0,0,0,0,0},{1,-1,0.5,0,-0.7},{0.3,0,0,-1.2,1},{-1,-1,0.9,0.6,0}}; m.z+=m.dev*E[k][i%5]; if (k==3&&i%4==1) m.dev*=2; if (k==2&&i==2) m.dev=0; }
    if (k==3&&M.size()>2) { Ms m=M[1]; m.z+=0.01; M.push_back(m); m.z+=0.013; m.dev*=1.5; M.push_back(m); m.dev*=0.5; M.push_back(m); /* the same reading from a better instrument */ }
    if (o==2) std::reverse(M.begin(),M.end());
    for (auto &m:M) { m.z=std::round(m.z*1e6)/1e6; if ((m.t==IIJ||m.t==IJI)&&counts(m)&&m.z<0.05) { M.clear(); return; } }
    x0v.resize(n); x0a.resize(n); for (int i=0;i<n;i++) { x0v[i]=N.b[i].vm; x0a[i]=N.b[i].va*PI/180; } for (auto &q:N.g) if (q.st) x0v[q.b]=q.vs; xv=x0v; xa=x0a; good=M.size()&&solve(xv,xa); }
  Str tag(const Ms &m) { return N.e[m.e].ck; }
  void one(const std::vector<int> &as,int o) { g_assign=as; int n=N.n(); net.reset(new SENetwork(*cm)); SEAppModule A; A.readNetwork(net,conf.get()); A.initialize(); A.readMeasurements(); A.solve(); if (o) A.solve();
    V v(n,0),a(n,0); std::vector<int> own(n,0); for (int i=0;i<net->numBuses();i++) if (net->getActiveBus(i)) { int b=busof(net->getOriginalBusIndex(i)); own[b]++; v[b]=net->getBus(i)->getVoltage(); a[b]=net->getBus(i)->getPhase(); } cm->sum(&v[0],n); cm->sum(&a[0],n); cm->sum(&own[0],n);
    for (int i=0;i<n;i++) { VM_CHECK(own[i]==1,"owners"); if (!iso[i]) VM_CHECK(std::fabs(v[i]-xv[i])<3e-6&&std::fabs(a[i]-xa[i])<3e-6,"estimate at bus "<<N.b[i].id<<" is "<<v[i]<<" at "<<a[i]*180/PI<<" degrees instead of "<<xv[i]<<" at "<<xa[i]*180/PI); }
    for (int i=0;i<net->numBuses();i++) { int b=busof(net->getOriginalBusIndex(i)); if (!iso[b]) VM_CHECK(net->getBus(i)->getVoltage()==v[b]&&net->getBus(i)->getPhase()==a[b],"copy of bus "<<N.b[b].id<<" has another state than its owner"); }
    A.saveData(); for (int i=0;i<net->numBuses();i++) if (net->getActiveBus(i)) { int b=busof(net->getOriginalBusIndex(i)); double q=-1,w=-1; if (iso[b]) continue; boost::shared_ptr<gridpack::component::DataCollection> d=net->getBusData(i); VM_CHECK(d->getValue("BUS_SE_VMAG",&q)&&d->getValue("BUS_SE_VANG",&w)&&std::fabs(q-xv[b])<3e-6&&std::fabs(w*PI/180-xa[b])<3e-6,"saved estimate of bus "<<N.b[b].id<<" is "<<q<<" at "<<w); }
    capture_begin(); A.write(); Str out=capture_end(); if (cm->rank()==0) { std::istringstream s(out); Str l; std::multiset<Str> got; int sec=0; std::vector<int> seen(n,0); std::vector<std::pair<Str,V> > rows;
      while (std::getline(s,l)) { if (l.find("State Estimation Outputs")!=Str::npos) sec=1; else if (l.find("Branch Power Flow")!=Str::npos) sec=2; else if (l.find("Comparison of Bus")!=Str::npos) sec=3; else if (l.find("Comparison of Branch")!=Str::npos) sec=4; std::istringstream t(l); std::vector<Str> w; Str x; while (t>>x) w.push_back(x);
        if (sec==1&&w.size()==3&&isdigit(w[0][0])) { int b=busof(atoi(w[0].c_str())); seen[b]++; VM_CHECK(iso[b]||(std::fabs(atof(w[1].c_str())*PI/180-xa[b])<3e-6&&std::fabs(atof(w[2].c_str())-xv[b])<3e-6),"state written for bus "<<w[0]<<": "<<l); }
        if (sec==3&&w.size()==6&&isdigit(w[1][0])) { V q; for (int i=2;i<6;i++) q.push_back(atof(w[i].c_str())); rows.push_back(std::make_pair(w[0]+" "+w[1],q)); }
        if (sec==4&&w.size()==8&&isdigit(w[1][0])) { V q; for (int i=4;i<8;i++) q.push_back(atof(w[i].c_str())); rows.push_back(std::make_pair(w[0]+" "+w[1]+" "+w[2]+" "+w[3],q)); } }
      for (int i=0;i<n;i++) VM_CHECK(seen[i]==!iso[i],"state of bus "<<N.b[i].id<<" is written "<<seen[i]<<" times");
      std::vector<int> used(rows.size(),0); int want=0; for (auto &m:M) { if (m.t<=QI?iso[m.b]:(iso[N.e[m.e].i]||iso[N.e[m.e].j])) continue; want++; std::ostringstream k; k<<TN[m.t]<<" "; if (m.t<=QI) k<<N.b[m.b].id; else { const Elem &e=N.e[m.e]; k<<N.b[m.rev?e.j:e.i].id<<" "<<N.b[m.rev?e.i:e.j].id<<" "<<e.ck; } double hx=h(m,xv,xa); bool ok=false; for (size_t i=0;i<rows.size()&&!ok;i++) if (!used[i]&&rows[i].first==k.str()) { V &q=rows[i].second; if (std::fabs(q[0]-m.z)<1.1e-5&&std::fabs(q[1]-hx)<4e-5&&std::fabs(q[2]-(hx-m.z))<4e-5&&std::fabs(q[3]-m.dev)<6e-5) { ok=true; used[i]=1; } } VM_CHECK(ok,"measurement "<<k.str()<<" of "<<m.z<<" with estimate "<<hx<<" is missing in what is written: "<<out.substr(out.find("Comparison of Bus")==Str::npos?0:out.find("Comparison of Bus"))); }
      VM_CHECK((int)rows.size()==want,rows.size()<<" measurements are written instead of "<<want); }
    net.reset(); }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); gridpack::math::Initialize(0,0); { Communicator world; Communicator sub=world; int color=0; if (c.geti("sub",0)) { color=rank==0?0:1; sub=world.split(color); } cm=&sub; setup(c);
      if (!good) { record("skipped"); if (rank==0&&getenv("SE_SHOW")) fprintf(stderr,"skipped\n"); } else if (c.geti("sub",0)&&color==0) { SEAppModule A; // takes part in making it
        record("idle"); } else { int r0=sub.rank(); char t[]="/tmp/vmseXXXXXX"; Str file,mf; if (r0==0) { VM_CHECK(mkdtemp(t),"no scratch directory"); dir=t; }
        // all processes need the name
        char buf[64]; memset(buf,0,64); if (r0==0) strcpy(buf,dir.c_str()); boost::mpi::broadcast(sub.getCommunicator(),buf,64,0); dir=buf; file=dir+"/n.raw"; mf=dir+"/m.xml";
        if (r0==0) { std::ofstream f(file.c_str()); f<<N.raw(); f.close(); std::ofstream q(mf.c_str()); q.precision(12); q<<"<Measurements>\n"; for (auto &m:M) { q<<"<Measurement><Type>"<<TN[m.t]<<"</Type>"; if (m.t<=QI) q<<"<Bus>"<<N.b[m.b].id<<"</Bus>"; else { const Elem &e=N.e[m.e]; q<<"<FromBus>"<<N.b[m.rev?e.j:e.i].id<<"</FromBus><ToBus>"<<N.b[m.rev?e.i:e.j].id<<"</ToBus><CKT>"<<e.ck<<"</CKT>"; } q<<"<Value>"<<m.z<<"</Value><Deviation>"<<m.dev<<"</Deviation></Measurement>\n"; } q<<"</Measurements>\n"; }
        std::ostringstream x; x<<"<Configuration><State_estimation><networkConfiguration_v33>"<<file<<"</networkConfiguration_v33><measurementList>"<<mf<<"</measurementList><maxIteration>60</maxIteration><tolerance>1.0e-9</tolerance><LinearSolver><PETScOptions>-ksp_type gmres -pc_type jacobi -ksp_rtol 1.0e-13 -ksp_atol 1.0e-14 -ksp_max_it 400</PETScOptions></LinearSolver></State_estimation></Configuration>"; std::vector<Str> cfg(1,x.str());
        if (c.gets("as")!="all") { conf.reset(new Configuration); VM_CHECK(conf->openStringFile(cfg,sub),"configuration not read"); one(ints(c.gets("as")),c.geti("o")==1); } else { int np2=sub.size(); Odo o(std::vector<int>(N.n(),np2)); do { label("partition "+o.str()); conf.reset(new Configuration); VM_CHECK(conf->openStringFile(cfg,sub),"configuration not read"); one(o.d,c.geti("o")==1); if (r0==0) count_sub(1,np2>1); } while (o.next()); }
        sub.sync(); if (r0==0) { unlink(file.c_str()); unlink(mf.c_str()); rmdir(dir.c_str()); } record("ok"); } } gridpack::math::Finalize(); par_end(); }
};
Harness *vm::make_harness() { return new SE; }
