// Contingency analysis: the files written must be those of analysing the contingencies one
// by one, for every distribution of the contingencies and of the network over the processes.
// USES: parallel timer environment configuration component factory stream partition parser math analysis
// REPO_SRC: applications/contingency_analysis/ca_driver.cpp applications/modules/powerflow/pf_app_module.cpp applications/modules/powerflow/pf_factory_module.cpp applications/components/pf_matrix/pf_components.cpp applications/components/y_matrix/ymatrix_components.cpp
#include <mpi.h>
#include <ga++.h>
#include <complex>
#include <fstream>
#include <set>
#include <new>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <cmath>
#include "vm.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
#include "parstub.hpp"
#include "gridpack/include/gridpack.hpp"
#include "gridpack/applications/contingency_analysis/ca_driver.hpp"
#include "gridpack/utilities/string_utils.hpp"
using gridpack::parallel::Communicator; using gridpack::utility::Configuration; using nk::g_assign;
#include "pfsolve.hpp"
typedef std::string S; typedef std::vector<S> L;
struct Ev { S name; std::vector<int> el,gn; };
struct Row { std::vector<int> id; S tag; int loc; std::vector<double> v; std::vector<int> m; std::vector<int> skip; double lo,hi; };

struct CA : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](int np,const S &net,const S &ev,int grp,const S &as,int q=0,int lim=0,double load=1,Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.explore=ex; c.bound=b; c.set("net",net).set("ev",ev).set("grp",grp).set("as",as).set("q",q).set("lim",lim).set("load",(int)(load*100)); emit(c); };
    std::vector<S> T={"31;0-1;P","3122;0-1,1-2,2-3,0-3;TO","3214;0-1,1-2,0-2,2-3;X","321;0-1,1-2,0-2;LPR","2131;0-1,1-2,0-2,2-3;VSZ5","31122;0-1,1-2,2-3,3-4,0-4;tW"}; if (th) for (auto x:{"321;0-1,1-2;Ug","1322;0-1,1-2,0-2,1-3,2-3;TSL","21131;0-1,0-2,1-2,2-3,3-4,2-4;ON","3311;0-2,1-3,2-3,0-1;P"}) if (S(x)!="3311;0-2,1-3,2-3,0-1;P") T.push_back(x);
    for (auto &t:T) { int n=t.find(';'); for (S ev:{"L","G","LG","PK","0","R"}) for (int lim=0;lim<3;lim++) { if (lim&&ev!="LG"&&ev!="PK") continue; for (int np=1;np<=(th?4:3);np++) for (int grp=1;grp<=np;grp++) { int sz=np%grp?grp:grp; if (sz>n) continue; if (!th&&((int)t.size()+lim+np+grp+(int)ev.size())%2&&np>1&&ev!="LG") continue; add(np,t,ev,grp,np==1||grp==1?"0":th||(ev=="LG"&&lim==1)?"all":"alt",0,lim); } } }
    for (auto t:{"3122;0-1,1-2,2-3,0-3;Q","322;0-1,1-2,0-2;QL","2132;0-1,1-2,0-2,2-3;Q","31222;0-1,1-2,2-3,3-4,0-4;QT"}) for (S ev:{"L","LG","PK"}) for (int np=1;np<=3;np++) for (int grp=1;grp<=np;grp++) for (int lim=0;lim<(th?3:2);lim++) add(np,t,ev,grp,grp>1?"alt":"0",1,lim);
    // loads that can be supplied only while nothing is out
    for (auto t:{"31;0-1;P","311;0-1,1-2,0-2;P","3112;0-1,1-2,0-2,2-3,1-3;P"}) for (double f:{6.0,8.0,10.0,12.0,14.0,17.0,20.0}) for (S ev:{"LG","R"}) for (int np=1;np<=3;np++) for (int grp=1;grp<=np&&grp<=2;grp++) add(np,t,ev,grp,grp>1?"alt":"0",0,0,f);
    for (auto ev:{"L2","G2"}) for (int q=0;q<2;q++) { S t=q?"322;0-1,1-2,0-2;Q":"322;0-1,1-2,0-2;"; add(2,t,ev,1,"0",q,1,1,PREEMPT_BOUND,th?2:1); } add(2,"31;0-1;P","R2",1,"0",0,0,14,PREEMPT_BOUND,th?2:1);
  }
  S dir; Net N; int q,lim; long runs;
  static S elid(const Net &N,int k,bool sp) { std::ostringstream o; o<<N.b[N.e[k].i].id<<" "<<N.b[N.e[k].j].id; return o.str(); }
  bool connected(const St &s) { int n=N.n(); std::vector<int> on(n,0),seen(n,0),st; for (size_t k=0;k<N.e.size();k++) if (s.es[k]&&N.b[N.e[k].i].type!=4&&N.b[N.e[k].j].type!=4) on[N.e[k].i]=on[N.e[k].j]=1; for (int i=0;i<n;i++) if (N.b[i].type==3) { if (!on[i]) return false; seen[i]=1; st.push_back(i); } while (st.size()) { int i=st.back(); st.pop_back(); for (size_t k=0;k<N.e.size();k++) if (s.es[k]) { auto &e=N.e[k]; int j=e.i==i?e.j:e.j==i?e.i:-1; if (j>=0&&!seen[j]&&on[j]) { seen[j]=1; st.push_back(j); } } } for (int i=0;i<n;i++) if (on[i]&&!seen[i]) return false; return true; }
  void apply(const Ev &e,St &s) { for (int k:e.el) s.es[k]=0; for (int k:e.gn) s.gs[k]=0; s.lone=true; }
  std::vector<Ev> events(const S &what) { std::vector<Ev> r; auto ok=[&](const Ev &e) { St s=start(N); apply(e,s); return connected(s); }; auto put=[&](Ev e) { e.name="c"+std::to_string(r.size()+1); if (ok(e)) r.push_back(e); };
    int ne=N.e.size(),ng=N.g.size(); size_t mx=what.size()>1&&what[1]>='0'&&what[1]<='9'?what[1]-'0':999; std::vector<int> gens; for (int k=0;k<ng;k++) if (N.b[N.g[k].b].type!=3) gens.push_back(k);
    for (char c:what) switch (c) { case 'L': for (int k=0;k<ne;k++) put(Ev{"",{k},{}}); break; case 'R': for (int z=0;z<2;z++) for (int k=ne;k-->0;) put(Ev{"",{k},{}}); break; case 'P': for (int k=0;k<ne;k++) for (int m=0;m<k;m++) put(Ev{"",{m,k},{}}); break; case 'G': for (int k:gens) put(Ev{"",{},{k}}); break; case 'K': for (size_t k=0;k<gens.size();k++) for (size_t m=0;m<k;m++) put(Ev{"",{},{gens[m],gens[k]}}); break; }
    if (r.size()>mx) r.resize(mx); return r; }
  double vmin() const { return lim==0?0.9:lim==1?0.985:0.993; } double vmax() const { return lim==0?1.1:lim==1?1.025:1.035; }
  // the table of results, one column for the base case and each contingency
  struct Tab { std::vector<Row> v,a,p,qg,pf,qf,pi; std::vector<S> success; std::vector<Sol> sol; std::vector<St> st; std::vector<int> ok; };
  bool table(const std::vector<Ev> &ev,Tab &t) { int n=N.n(),nc=ev.size()+1; std::vector<int> ignore(n,0);
    for (int j=0;j<nc;j++) { St s=start(N); if (j) apply(ev[j-1],s); Sol r=solve(N,s); int ok=r.ok; if (!j&&!ok) return false; if (ok&&q) { St s2=s; if (over(N,s2,r)) { Sol r2=solve(N,s2); if (!r2.ok) return false; r=r2; s=s2; } } t.sol.push_back(r); t.st.push_back(s); t.ok.push_back(ok);
      bool bv=false,lv=false; S amb; for (int i=0;i<n&&ok;i++) { double x=r.v[i]; if (std::fabs(x-vmin())<1e-4||std::fabs(x-vmax())<1e-4) amb="?"; bool bad=x<vmin()||x>vmax(); if (!j) ignore[i]=bad; else if (bad&&r.iso[i]) amb="?"; else if (bad&&!ignore[i]) bv=true; }
      for (size_t k=0;k<N.e.size()&&ok;k++) if (s.es[k]&&!r.iso[N.e[k].i]&&!r.iso[N.e[k].j]) { bool rv=rev(k); double x=std::abs(flow(N,r,N.e[k],rv)); if (std::fabs(x-N.e[k].rate)<0.01) amb="?"; if (x>N.e[k].rate) lv=true; }
      if (j) t.success.push_back(amb.size()?amb:"contingency: "+std::to_string(j)+(!ok?" success: false":S(" success: true violation: ")+(bv&&lv?"bus and branch":bv?"bus":lv?"branch":"none"))); }
    auto cell=[&](Row &r,double x,int m,bool skip) { r.v.push_back(x); r.m.push_back(m); r.skip.push_back(skip); };
    for (int i=0;i<n;i++) { Row v={{N.b[i].id},"",i},a=v; for (int j=0;j<nc;j++) { bool ok=t.ok[j],sk=ok&&t.sol[j].iso[i]; cell(v,ok?t.sol[j].v[i]:0,ok?1:0,sk); bool pv=N.b[i].type==2; bool ch=false; if (ok&&pv) { bool had=false,has=false; for (size_t k=0;k<N.g.size();k++) if (N.g[k].b==i) { had|=N.g[k].st; has|=t.st[j].gs[k]; } ch=had&&(t.st[j].pq[i]||!has); } cell(a,ok?t.sol[j].a[i]*180/PI:0,ok?(ch?2:1):0,sk); } t.a.push_back(a); t.v.push_back(v); }
    for (size_t k=0;k<N.g.size();k++) { auto &g=N.g[k]; int b=g.b,ng=0; for (auto &x:N.g) ng+=x.b==b; Row p={{N.b[b].id},g.id,b},qg=p; for (int j=0;j<nc;j++) { C x(0); if (t.ok[j]) { if (t.st[j].gs[k]) { C l(0); for (size_t m=0;m<N.l.size();m++) if (N.l[m].b==b&&N.l[m].st) l+=C(t.st[j].pl[m],t.st[j].ql[m]); x=t.sol[j].s[b]*N.sbase+l; } } bool sk=ng>1||(t.ok[j]&&t.sol[j].iso[b]); cell(p,x.real(),t.ok[j],sk); cell(qg,x.imag(),t.ok[j],sk); } t.p.push_back(p); t.qg.push_back(qg); }
    for (size_t k=0;k<N.e.size();k++) { auto &e=N.e[k]; bool rv=rev(k); Row p={{N.b[rv?e.j:e.i].id,N.b[rv?e.i:e.j].id},e.ck,(int)k}; p.lo=-e.rate; p.hi=e.rate; Row qf=p,pi=p; for (int j=0;j<nc;j++) { C x(0); bool ok=t.ok[j]; if (ok&&t.st[j].es[k]&&!t.sol[j].iso[e.i]&&!t.sol[j].iso[e.j]) x=flow(N,t.sol[j],e,rv); double f=std::abs(x)/e.rate; int m=!ok?0:f>1?2:1; cell(p,x.real(),m,false); cell(qf,x.imag(),m,false); cell(pi,f*f,m,false); } t.pf.push_back(p); t.qf.push_back(qf); t.pi.push_back(pi); }
    return true; }
  // does the branch of this element run the other way round? its direction is that of the first element named
  bool rev(size_t k) { auto &e=N.e[k]; const Elem *f=0; for (auto &x:N.e) if ((x.i==e.i&&x.j==e.j)||(x.i==e.j&&x.j==e.i)) if (!f||(f->tap!=0&&x.tap==0)) f=&x; return f->i!=e.i; }
  std::vector<L> readf(const S &f) { std::ifstream i((dir+"/"+f).c_str()); VM_CHECK(i.good(),"file "<<f<<" is not written"); std::vector<L> r; S l; while (std::getline(i,l)) { std::istringstream s(l); L t; S w; while (s>>w) t.push_back(w); r.push_back(t); } runs++; return r; }
  static double num(const S &a) { char *e; double x=strtod(a.c_str(),&e); VM_CHECK(*e==0&&a.size(),"\""<<a<<"\" is not a number"); return x; }
  // find the line of each row by its labels
  std::vector<const L*> rows(const std::vector<L> &f,const std::vector<Row> &t,bool tag,const S &name,size_t extra) { VM_CHECK(f.size()==t.size(),name<<" has "<<f.size()<<" rows instead of "<<t.size()); std::vector<const L*> r; std::set<int> used; for (auto &x:t) { const L *hit=0; for (size_t i=0;i<f.size();i++) { const L &l=f[i]; size_t p=1+x.id.size()+(tag?1:0); VM_CHECK(l.size()==p+extra,name<<": line "<<show(l)<<" has the wrong number of columns"); VM_CHECK(l[0]==std::to_string(i+1),name<<": row number "<<l[0]<<" in line "<<i+1); bool m=true; for (size_t k=0;k<x.id.size();k++) if (l[1+k]!=std::to_string(x.id[k])) m=false; if (tag&&l[p-1]!=x.tag) m=false; if (m&&!used.count(i)) { hit=&l; used.insert(i); break; } } VM_CHECK(hit,name<<": no row for "<<show(x.id)<<" "<<x.tag); r.push_back(hit); } return r; }
  void mean(const S &name,const std::vector<Row> &t,bool tag,double tol) { std::vector<L> f=readf(name); std::vector<const L*> h=rows(f,t,tag,name,3); for (size_t i=0;i<t.size();i++) { auto &x=t[i]; bool sk=false; for (int s:x.skip) sk|=s; if (sk) continue; int n=0; double s=0,d=0,b=0; for (size_t j=0;j<x.v.size();j++) if (x.m[j]>=1) { n++; s+=x.v[j]; } if (n) s/=n; for (size_t j=0;j<x.v.size();j++) if (x.m[j]>=1) { d+=(x.v[j]-s)*(x.v[j]-s); if (j) b+=(x.v[j]-x.v[0])*(x.v[j]-x.v[0]); } double w[3]={s,n>1?std::sqrt(d/(n-1)):0,n>1?std::sqrt(b/(n-1)):0}; for (int k=0;k<3;k++) { double g=num((*h[i])[h[i]->size()-3+k]); VM_CHECK(std::fabs(g-w[k])<tol,name<<": "<<(k==0?"average":k==1?"deviation":"deviation from the base case")<<" for "<<show(x.id)<<" "<<x.tag<<" is "<<g<<", expected "<<w[k]<<" from "<<show(x.v)<<" masks "<<show(x.m)); } } }
  void minmax(const S &name,const std::vector<Row> &t,bool tag,bool lim,double tol) { std::vector<L> f=readf(name); size_t nx=7+(lim?2:0); std::vector<const L*> h=rows(f,t,tag,name,nx); for (size_t i=0;i<t.size();i++) { auto &x=t[i]; bool sk=false; for (int s:x.skip) sk|=s; if (sk) continue; double mn=x.v[0],mx=mn; for (size_t j=0;j<x.v.size();j++) if (x.m[j]>=1) { mn=std::min(mn,x.v[j]); mx=std::max(mx,x.v[j]); } std::vector<double> w={x.v[0],mn,mx,mn-x.v[0],mx-x.v[0]}; if (lim) { w.push_back(x.lo); w.push_back(x.hi); } const L &l=*h[i]; size_t p=l.size()-nx; for (size_t k=0;k<w.size();k++) { double g=num(l[p+k]); VM_CHECK(std::fabs(g-w[k])<tol,name<<": column "<<k<<" for "<<show(x.id)<<" "<<x.tag<<" is "<<g<<", expected "<<w[k]<<" from "<<show(x.v)<<" masks "<<show(x.m)); } for (int k=0;k<2;k++) { int j=atoi(l[p+w.size()+k].c_str()); VM_CHECK(j>=0&&j<(int)x.v.size()&&x.m[j]>=1&&std::fabs(x.v[j]-(k?mx:mn))<tol,name<<": the "<<(k?"maximum":"minimum")<<" for "<<show(x.id)<<" "<<x.tag<<" is said to be in contingency "<<j<<", values "<<show(x.v)<<" masks "<<show(x.m)); } } }
  void count(const S &name,const std::vector<Row> &t,bool tag) { std::vector<L> f=readf(name); std::vector<const L*> h=rows(f,t,tag,name,1); for (size_t i=0;i<t.size();i++) { auto &x=t[i]; bool sk=false; int n=0,near=0; for (int s:x.skip) sk|=s; for (int m:x.m) n+=m==2; if (sk) continue; VM_CHECK(std::abs(atoi(h[i]->back().c_str())-n)<=near,name<<": count for "<<show(x.id)<<" "<<x.tag<<" is "<<h[i]->back()<<", expected "<<n<<" from "<<show(x.m)); } }
  void files(const Case &c,const std::vector<Ev> &ev,const Tab &t,bool print) {
    std::vector<L> su=readf("success.txt"); VM_CHECK(su.size()==ev.size(),"success.txt has "<<su.size()<<" lines for "<<ev.size()<<" contingencies"); { std::ifstream i((dir+"/success.txt").c_str()); S l; for (size_t j=0;j<ev.size();j++) { std::getline(i,l); if (t.success[j]!="?") VM_CHECK(l==t.success[j],"success.txt says \""<<l<<"\", expected \""<<t.success[j]<<"\""); } }
    std::vector<Row> v; for (auto &r:t.v) { int ty=N.b[r.loc].type; if (ty==1||ty==3) v.push_back(r); else if (ty==2) { bool pv=false; for (auto &g:N.g) if (g.b==r.loc&&g.st) pv=true; if (!pv) v.push_back(r); } }
    std::vector<Row> a; for (auto r:t.a) { if (N.b[r.loc].type==4) for (auto &s:r.skip) s=1; a.push_back(r); }
    mean("vmag.txt",v,false,3e-6); minmax("vmag_mm.txt",v,false,false,3e-6); mean("vang.txt",a,false,1e-4); minmax("vang_mm.txt",a,false,false,1e-4);
    if (q) { count("pq_change_cnt.txt",a,false); }
    mean("pgen.txt",t.p,true,5e-3); minmax("pgen_mm.txt",t.p,true,false,5e-3); mean("qgen.txt",t.qg,true,5e-3); minmax("qgen_mm.txt",t.qg,true,false,5e-3);
    mean("pflow.txt",t.pf,true,3e-3); minmax("pflow_mm.txt",t.pf,true,true,3e-3); mean("qflow.txt",t.qf,true,3e-3); minmax("qflow_mm.txt",t.qf,true,true,3e-3); minmax("perf_mm.txt",t.pi,true,false,2e-3); count("line_flt_cnt.txt",t.pf,true);
    { std::vector<L> f=readf("perf_sum.txt"); VM_CHECK(f.size()==ev.size()+1,"perf_sum.txt has "<<f.size()<<" lines"); for (size_t j=0;j<f.size();j++) { double s=0; for (auto &r:t.pi) if (r.m[j]) s+=r.v[j]; VM_CHECK(f[j].size()==3&&f[j][0]==std::to_string(j)&&std::fabs(num(f[j][1])-s)<5e-3&&std::fabs(num(f[j][2])-s/t.pi.size())<5e-3,"perf_sum.txt: line "<<show(f[j])<<", expected "<<s<<" "<<s/t.pi.size()); } }
    for (size_t j=0;j<ev.size();j++) { S name=dir+"/"+ev[j].name+".out"; std::ifstream i(name.c_str()); VM_CHECK(i.good()==print,ev[j].name<<".out is "<<(print?"not ":"")<<"written"); if (!print) continue; runs++; L l; S s; while (std::getline(i,s)) l.push_back(s); auto has=[&](const S &x) { int n=0; for (auto &y:l) if (y==x) n++; return n; };
      const S &nm=ev[j].name; int last=0; for (auto &x:l) { std::istringstream o(x); S w; while (o>>w) if (w.size()>1&&w[0]=='c'&&w!=nm&&isdigit(w[1])) last=1; } VM_CHECK(!last,nm<<".out contains results of another contingency");
      if (!t.ok[j+1]) { VM_CHECK(has("Divergent for contingency "+nm)==1,nm<<".out does not say that the calculation failed"); continue; }
      VM_CHECK(has("Divergent for contingency "+nm)==0,nm<<".out says that the calculation failed"); const S &su=t.success[j]; if (su!="?") { bool b=su.find("bus")!=S::npos,br=su.find("branch")!=S::npos; VM_CHECK((has("Bus Violation for contingency "+nm)>0)==b,nm<<".out: bus violation"); VM_CHECK((has("Branch Violation for contingency "+nm)>0)==br,nm<<".out: branch violation"); VM_CHECK((has("No violation for contingency "+nm)>0)==(!b&&!br),nm<<".out: no violation"); }
      size_t p=0; while (p<l.size()&&l[p].find("Bus Voltages and Phase Angles")==S::npos) p++; VM_CHECK(p<l.size(),nm<<".out has no voltages"); std::set<int> seen; for (p+=3;p<l.size();p++) { int id; double an,vm; char x; if (l[p].size()&&sscanf(l[p].c_str(),"%d %lf %lf %c",&id,&an,&vm,&x)!=3) break; if (l[p].empty()) break; int b=-1; for (int k=0;k<N.n();k++) if (N.b[k].id==id) b=k; VM_CHECK(b>=0&&seen.insert(b).second,nm<<".out: line "<<l[p]); if (t.sol[j+1].iso[b]) continue; VM_CHECK(std::fabs(vm-t.sol[j+1].v[b])<4e-6&&std::fabs(std::remainder(an-t.sol[j+1].a[b]*180/PI,360))<1e-4,nm<<".out: bus "<<id<<" has "<<vm<<" at "<<an<<", expected "<<t.sol[j+1].v[b]<<" at "<<t.sol[j+1].a[b]*180/PI); } for (int k=0;k<N.n();k++) VM_CHECK(t.sol[j+1].iso[k]||seen.count(k),nm<<".out: bus "<<N.b[k].id<<" is missing"); } }
  void cleanup() { if (dir.compare(0,9,"/tmp/vmca")) return; DIR *d=opendir(dir.c_str()); if (!d) return; while (struct dirent *e=readdir(d)) { S s=e->d_name; if (s!="."&&s!="..") unlink((dir+"/"+s).c_str()); } closedir(d); rmdir(dir.c_str()); }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); gridpack::math::Initialize(0,0); runs=0; {
      Communicator world; N=make(c.gets("net")); q=c.geti("q"); lim=c.geti("lim"); double f=c.geti("load")/100.0; if (f!=1) { for (auto &l:N.l) { l.pl*=f; l.ql*=f*0.5; } for (auto &g:N.g) if (N.b[g.b].type==2) { g.pg*=f*0.5; } } for (auto &e:N.e) e.rate*=f!=1?f:lim==2?0.6:1.3;
      S evs=c.gets("ev"),as=c.gets("as"); int grp=c.geti("grp"); std::vector<Ev> ev=events(evs); Tab t; bool can=table(ev,t); bool print=(c.gets("net").size()+ev.size()+np)%3!=0;
      char tm[]="/tmp/vmcaXXXXXX"; S d; if (rank==0) { VM_CHECK(mkdtemp(tm),"no scratch directory"); d=tm; } L all=hgather(d); dir=all[0];
      char cwd[4096]; VM_CHECK(getcwd(cwd,sizeof cwd)&&chdir(dir.c_str())==0,"no scratch directory");
      if (rank==0) { std::ofstream("n.raw")<<N.raw(); std::ofstream x("ca.xml"); x<<"<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Configuration><Contingency_analysis><contingencyList>list.xml</contingencyList>"; if (grp!=1||lim) x<<"<groupSize>"<<grp<<"</groupSize>"; if (lim) x<<"<minVoltage>"<<vmin()<<"</minVoltage><maxVoltage>"<<vmax()<<"</maxVoltage>"; if (!print) x<<"<printCalcFiles>False</printCalcFiles>"; if (q) x<<"<checkQLimit>true</checkQLimit>";
        x<<"</Contingency_analysis><Powerflow><networkConfiguration_v33>n.raw</networkConfiguration_v33><maxIteration>30</maxIteration><tolerance>1.0e-8</tolerance><LinearSolver><PETScOptions>-ksp_type gmres -pc_type jacobi -ksp_rtol 1.0e-12 -ksp_atol 1.0e-14 -ksp_max_it 400</PETScOptions></LinearSolver></Powerflow></Configuration>\n";
        std::ofstream y("list.xml"); y<<"<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<ContingencyList><Contingency_analysis><Contingencies>"; for (auto &e:ev) { y<<"<Contingency><contingencyType>"<<(e.gn.size()?"Generator":"Line")<<"</contingencyType><contingencyName>"<<e.name<<"</contingencyName>"; if (e.gn.size()) { y<<"<contingencyBuses>"; for (int k:e.gn) y<<" "<<N.b[N.g[k].b].id; y<<"</contingencyBuses><contingencyGenerators>"; for (int k:e.gn) y<<" "<<N.g[k].id; y<<"</contingencyGenerators>"; } else { y<<"<contingencyLineBuses>"; for (int k:e.el) y<<" "<<N.b[N.e[k].i].id<<" "<<N.b[N.e[k].j].id; y<<"</contingencyLineBuses><contingencyLineNames>"; for (int k:e.el) y<<" "<<N.e[k].ck; y<<"</contingencyLineNames>"; } y<<"</Contingency>"; } y<<"</Contingencies></Contingency_analysis></ContingencyList>\n"; }
      hbarrier(); int lo=rank/grp*grp,sz=std::min(grp,np-lo),n=N.n();
      auto one=[&](const std::vector<int> &a) { g_assign=a; for (auto &x:g_assign) x%=sz; Configuration *cf=Configuration::configuration(); cf->~Configuration(); new (cf) Configuration();
        if (rank==0) for (auto &e:ev) unlink((e.name+".out").c_str()); hbarrier();
        S arg="ca.xml"; char *argv[]={(char*)"ca.x",(char*)arg.c_str(),0}; fflush(stdout); int o=dup(1),nul=open("/dev/null",O_WRONLY); dup2(nul,1); { gridpack::contingency_analysis::CADriver D; D.execute(2,argv); } fflush(stdout); std::cout.flush(); dup2(o,1); close(o); close(nul); world.sync(); if (rank==0) files(c,ev,t,print); world.sync(); };
      if (can) { if (as=="0") one(std::vector<int>(n,0)); else if (as=="alt") { std::vector<int> a(n); for (int s=0;s<2;s++) { for (int i=0;i<n;i++) a[i]=s?(i*2/n):(i+1)%grp; label("partition "+show(a)); one(a); } } else { Odo o(std::vector<int>(n,grp)); do { label("partition "+o.str()); one(o.d); } while (o.next()); } }
      hbarrier(); if (chdir(cwd)) {} if (rank==0) { cleanup(); count_sub(runs,np>1); } { S su; for (auto &x:t.success) su+=x.find("false")!=S::npos?"f":x=="?"?"?":x.find("and")!=S::npos?"4":x.find("bus")!=S::npos?"2":x.find("branch")!=S::npos?"3":"1"; record(can?"ok "+su:"not solvable"); }
    } gridpack::math::Finalize(); par_end();
  }
};
Harness *vm::make_harness() { return new CA; }
