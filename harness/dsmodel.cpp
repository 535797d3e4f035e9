// Dynamic models of all kinds: simulations in equilibrium stay there, and the results do not depend
// on the distribution, on the order of the records or on an earlier run, for every combination.
// USES: parallel timer environment configuration component factory stream partition parser math analysis
// FLAGS: -I$REPO/src/applications/modules/dynamic_simulation_full_y -I$REPO/src/applications/modules/dynamic_simulation_full_y/base_classes -I$REPO/src/applications/modules/dynamic_simulation_full_y/model_classes
// REPO_SRC: applications/modules/dynamic_simulation_full_y/*.cpp applications/modules/dynamic_simulation_full_y/base_classes/*.cpp applications/modules/dynamic_simulation_full_y/model_classes/[!c]*.cpp applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp applications/modules/powerflow/pf_app_module.cpp applications/modules/powerflow/pf_factory_module.cpp applications/components/pf_matrix/pf_components.cpp applications/components/y_matrix/ymatrix_components.cpp
#define DYNSIM_BASE
#include "dynsim.cpp"
struct DM : DS {
  struct Result { std::vector<V> s; std::vector<C> v; }; Result ref; bool have; Str set; int pass;
  static std::vector<Str> sets() { std::vector<Str> r; for (auto g:{"GENROU","GENSAL","GENROU#0"}) { r.push_back(g); for (auto e:{"EXDC1","EXDC1#0","IEEET1","IEEET1#0","SEXS","ESST1A","ESST1A#0","ESST1A#1","ESST4B"}) r.push_back(Str(g)+"+"+e); for (auto v:{"WSIEG1","WSIEG1#1","TGOV1","GAST","HYGOV"}) { r.push_back(Str(g)+"+"+v); r.push_back(Str(g)+"+SEXS+"+v); } } for (auto x:{"REGCA1","REGCA1+REECA1+REPCA1","REGCB1","REGCB1+REECA1+REPCA1","REGCC1","REGCC1+REECA1+REPCA1"}) r.push_back(x); return r; }
  static const char *par(const Str &m) { static const std::map<Str,const char*> P={{"GENROU","6.0 0.5 1.0 0.05 2.41 0.0 1.4 1.35 0.3 0.6 0.2 0.1 0.03 0.4"},{"GENSAL","5.0 0.05 0.06 4.0 0.5 1.5 0.9 0.3 0.2 0.12 0.03 0.25"},{"GDFORM",""},{"EXDC1","0.02 40.0 0.05 0.0 0.0 7.45 -7.45 1.0 0.6 0.1 1.0 0.0 3.4 0.07 4.6 0.2"},{"IEEET1","0.02 40.0 0.05 7.45 -7.45 1.0 0.6 0.1 1.0 0.0 3.4 0.07 4.6 0.2"},{"SEXS","0.1 10.0 100.0 0.1 0.0 6.0"},
    {"ESST1A","1 1 0.05 9 -9 1.0 10.0 0.5 0.4 200 0.05 9 -9 6 -6 0.05 0.02 1 0 3"},{"ESST1A#0","1 1 0 999 -999 0.51 2.01 0 0 178.9 0.029 999 -999 24.48 -21.79 0.11 0 1 0 2.8"},{"ESST1A#1","1 1 0.05 999 -999 0 0 0.1 2 100 0 999 -999 24.48 -21.79 0.11 0 0 0 2.8"},{"ESST4B","0.05 10.75 10.75 1.0 -0.87 0.02 1.0 0.05 99.0 -99.0 0.0 9.3 0.05 11.63 0.113 0.124 0.0"},{"WSIEG1","0 0 25.0 0.0 3.3 0.3 0.25 -3.3 51.0 0.0 0.3 1.0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0"},{"TGOV1","0.08 2.0 1.0 0.0 3.0 15.0 0.4"},{"GAST","0.05 0.4 0.1 3.0 1.0 2.0 1.0 0.0 0.1"},{"EXDC1#0","0.0 40.0 0.0 0.0 0.0 7.45 -7.45 1.0 0.6 0.1 1.0 0.0 0.0 0.0 0.0 0.0"},{"IEEET1#0","0.0 40.0 0.0 7.45 -7.45 1.0 0.6 0.1 1.0 0.0 0.0 0.0 0.0 0.0"},{"WSIEG1#1","0 0 20.0 0.2 0.1 0.3 0.25 -0.3 2.0 0.0 0.3 0.3 0 7.0 0.4 0 0.4 0.3 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0 0"},{"GENROU#0","6.0 0.5 1.0 0.05 2.41 2.0 1.4 1.35 0.3 0.6 0.2 0.1 0.0 0.0"},{"HYGOV","0.06 0.6 8.0 0.05 0.2 0.2 1.0 0.0 1.0 1.1 0.0 0.05"},{"GGOV1",""},{"WSHYGP",""},{"PSSSIM",""},
    {"REGCA1","1 0.02 10.0 0.9 0.4 1.22 1.2 0.9 0.5 -1.3 0.02 0.0 100.0 -100.0 0.7"},{"REGCB1","0 0 0.02 0.02 100.0 -100.0 0.4 0.02 1.2"},{"REGCC1","0 0 0.02 0.02 100.0 -100.0 0.4 0.02 1.2 5.0 70.0 20.0 1500 12.0 -12.0"},
    {"REECA1","0 0 1 0 0 0 -99 99 0.02 0.0 0.0 0.0 1.1 -1.0 0.0 0.0 0.0 0.0 0.05 0.44 -0.44 1.05 0.9 0.0 0.01 10 60 0 0.02 99 -99 1 0 1.11 0.02 -1 1 2 1 0 0 0 0 -1 1 2 1 0 0 0"},{"REPCA1","0 0 0 '0 ' 0 0 1 0.02 18.0 5.0 0.0 0.05 0.0 0.0 0.0 0.02 0.1 -0.1 -1.0 1.0 0.43 -0.43 1.0 0.05 0.25 -1.0 1.0 99.0 -99.0 1.0 0.0 0.1 0.0 0.0"}}; auto it=P.find(m); return it==P.end()?"":it->second; }
  void enumerate(const Str &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough"; 
    auto add=[&](int np,const Str &net,const Str &ev,const Str &s,const Str &opt="") { Case c; c.np=np; c.set("net",net).set("as","all").set("ev",ev).set("set",s).set("w",opt); emit(c); };
    for (auto &s:sets()) for (auto t:{"32;0-1;G","312;0-1,1-2,0-2;GL"}) for (auto e:{"","F0:1:3:20","L0:1:0,L0:4:1","G1:2:0"}) for (auto o:{"","A"}) { if (t[1]=='2'&&*e=='L') continue; if (*o&&s[0]=='R') continue; add(1,t,e,s,o); if (th||t[1]=='2'||*o) add(2,t,e,s,o); } }
  void expect() override {} 
  void models(std::ostream &q) override { std::vector<Str> lines; bool first=true; std::vector<Str> part; { std::istringstream i(set); Str t; while (std::getline(i,t,'+')) part.push_back(t); }
    for (auto &m:M) if (m.dyn) { Str b=std::to_string(N.b[N.g[m.g].b].id),id=N.g[m.g].id; if (first||has('A')) for (auto &p:part) lines.push_back(b+" '"+p.substr(0,p.find('#'))+"' "+id+" "+par(p)+" /"); else { std::ostringstream o; o<<b<<" 'GENCLS' "<<id<<" "<<m.H<<" "<<m.D<<" /"; lines.push_back(o.str()); } first=false; }
    if (pass==2) std::reverse(lines.begin(),lines.end()); for (auto &l:lines) q<<l<<"\n"; }
  void one(const std::vector<int> &as) override { Str keep=opt; for (pass=0;pass<3;pass++) { opt=keep+(pass==1?"r":""); if (pass!=1) { if (cm->rank()==0) { std::ofstream q((dir+"/n.dyr").c_str()); q.precision(12); models(q); } cm->sync(); } DS::one(as); } opt=keep; }
  void compare(DSFullApp &A,boost::shared_ptr<DSFullNetwork> &net,const Str &W) override { int n=N.n(),w=watched.size(); std::vector<int> map=A.getTimeSeriesMap(); std::vector<V> ts=A.getGeneratorTimeSeries(); std::vector<double> all(4*w*steps+1,0); for (size_t i=0;i<ts.size();i++) { VM_CHECK(map[i]>=0&&map[i]<4*w&&(int)ts[i].size()==steps,W<<"time series"); for (int k=0;k<steps;k++) all[map[i]*steps+k]=ts[i][k]; } cm->sum(&all[0],4*w*steps+1);
    V re(n,0),im(n,0); for (int i=0;i<net->numBuses();i++) if (net->getActiveBus(i)) { int b=busof(net->getOriginalBusIndex(i)); C v=net->getBus(i)->getComplexVoltage(); re[b]=v.real(); im[b]=v.imag(); } cm->sum(&re[0],n); cm->sum(&im[0],n);
    Result r; for (int j=0;j<4*w;j++) r.s.push_back(V(&all[j*steps],&all[j*steps]+steps)); for (int i=0;i<n;i++) r.v.push_back(C(re[i],im[i]));
    auto name=[&](int j) { std::ostringstream o; const char *nm[]={"first value","second value","real power","reactive power"}; o<<nm[j%4]<<" of generator "<<N.g[watched[j/4]].id<<" at bus "<<N.b[N.g[watched[j/4]].b].id; return o.str(); };
    for (int j=0;j<4*w;j++) for (double x:r.s[j]) VM_CHECK(std::isfinite(x),W<<name(j)<<" is "<<x);
    if (E.empty()) { for (int i=0;i<n;i++) VM_CHECK(std::abs(r.v[i]-std::polar(tv[i],ta[i]))<1e-5,W<<"in equilibrium the voltage of bus "<<N.b[i].id<<" becomes "<<r.v[i]<<", it was "<<std::polar(tv[i],ta[i])); for (int j=0;j<4*w;j++) for (int k=0;k<steps;k++) VM_CHECK(std::fabs(r.s[j][k]-r.s[j][0])<1e-5,W<<"in equilibrium "<<name(j)<<" goes from "<<r.s[j][0]<<" to "<<r.s[j][k]<<" in step "<<k+1);
      for (int j=0;j<w;j++) { int g=watched[j]; double b=N.g[g].mb/N.sbase; for (int q=0;q<2;q++) { double want=(q?sq:sp)[g]; double x=r.s[4*j+2+q][0]; VM_CHECK(std::fabs(x-want)<1e-5||std::fabs(x-want/b)<1e-5,W<<name(4*j+2+q)<<" starts at "<<x<<" instead of "<<want); } } }
    if (!have) { ref=r; have=true; return; } 
    for (int i=0;i<n;i++) VM_CHECK(std::abs(r.v[i]-ref.v[i])<1e-6,W<<"voltage of bus "<<N.b[i].id<<" in the end is "<<r.v[i]<<", in the first run "<<ref.v[i]); for (int j=0;j<4*w;j++) for (int k=0;k<steps;k++) VM_CHECK(std::fabs(r.s[j][k]-ref.s[j][k])<1e-6,W<<name(j)<<" after step "<<k+1<<" is "<<r.s[j][k]<<", in the first run "<<ref.s[j][k]); }
  void rank_main(const Case &c,int rank,int np) override { have=false; pass=0; set=c.gets("set"); DS::rank_main(c,rank,np); }
};
Harness *vm::make_harness() { return new DM; }
