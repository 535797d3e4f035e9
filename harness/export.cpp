// Exported RAW files: reading one back must give the network and the data that were exported, for
// every short sequence of records, every missing field, every distribution of the network.
// USES: parallel timer environment configuration component factory stream partition
// REPO_SRC: parser/*.cpp parser/block_parsers/*.cpp
#define RAWPARSE_PARTS
#include "rawparse.cpp"
#include "parstub.hpp"
#include "gridpack/export/PSSE33Export.hpp"
#include "gridpack/export/PSSE34Export.hpp"
using nk::g_assign;
struct El { S from,to; M m; };
struct EX : RP {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](const char *w,int v,int np,int k,int x=0,int n=0) { Case c; c.np=np; c.set("w",w).set("v",v).set("k",k).set("x",x).set("n",n?n:th?3:2); emit(c); };
    for (int v=33;v<=34;v++) { for (int b:{BLOAD,BSHUNT,BGEN,BSW}) if (!(b==BSW&&v==34)) for (int f=0;f<9;f++) add("data",v,1,b,f);
      for (int f=0;f<14;f++) add("elem",v,1,f); for (int k=0;k<8;k++) { add("cut",v,1,k); add("blank",v,1,k); } for (int k=0;k<2;k++) add("xf",v,1,k); add("area",v,1,0); add("zero",v,1,0); add("gap",v,2,0);
      for (int np=1;np<=3;np++) for (int k=0;k<4;k++) add("par",v,np,k); add("two",v,2,0); add("two",v,3,0); for (int k=0;k<2;k++) { add("grp",v,2,k); add("grp",v,3,k); }
      for (int k=0;k<2;k++) { Case c; c.np=2; c.explore=PREEMPT_BOUND; c.bound=th?2:1; c.set("w","one").set("v",v).set("k",k).set("x",0).set("n",2); emit(c); } } }
  bool parts=false; int grp=0; std::vector<int> as;
  template<class P> void parsetext(boost::shared_ptr<Net> &n,const L &t) { P p(n); try { p.parse(t,true); } catch (std::exception &e) { fail(S("exception: ")+e.what()); } }
  template<class P> void parsefile(boost::shared_ptr<Net> &n,const S &f) { P p(n); try { p.parse(f); } catch (std::exception &e) { fail(S("exception while reading the exported file: ")+e.what()); } }
  static double rd(const S &s) { return dv(s); }
  static S cmp(const M &want,const M &got,const std::set<S> &skip) { for (auto &p:want) { S name=p.first.substr(2); if (size_t c=name.find(':')) name=name.substr(0,c); if (skip.count(name)) continue; auto it=got.find(p.first); if (it==got.end()) return p.first+" is missing, should be "+p.second; if (it->second==p.second) continue; bool ok=false; if (p.first[0]=='d') ok=std::fabs(dv(it->second)-dv(p.second))<=1e-6+2e-6*std::fabs(dv(p.second)); if (p.first[0]=='c') { std::istringstream a(it->second),b(p.second); double x,y; ok=true; for (int k=0;k<2;k++) { a>>x; b>>y; ok=ok&&std::fabs(x-y)<=1e-6+2e-6*std::fabs(y); } } if (!ok) return p.first+" is "+it->second+", should be "+p.second; } return ""; }
  static std::vector<El> elements(std::vector<M> R) { std::vector<El> r; for (auto &m:R) { int n=iv(m["i BRANCH_NUM_ELEMENTS"]); for (int e=0;e<n;e++) { El x; x.from=m["i BRANCH_FROMBUS"]; x.to=m["i BRANCH_TOBUS"]; S sfx=":"+std::to_string(e); if (m["b BRANCH_SWITCHED"+sfx]=="1") std::swap(x.from,x.to); for (auto &p:m) { size_t c=p.first.find(':'); if (c!=S::npos&&p.first.substr(c)==sfx) x.m[p.first.substr(0,c)]=p.second; } r.push_back(x); } } return r; }
  void one(const File &F0,const Style &st,int src,const S &what,const File *written=0) override { label(what); File F=F0; if (written) F=*written; F.r[BIMP].clear(); F.r[BMS].clear(); { int q=0; for (auto &r:F.r[BXF]) if (iv(r.f[0][2])==0&&r.f[0][2][0]!='\''&&q++%2) r.f[0][6]="2"; }
    L txt=render(F,st); Want w=oracle(F); int nb=w.bus.size(); for (auto &m:w.bus) for (int q=1;q<=8;q++) if (!m.count("d SHUNT_B"+std::to_string(q))) m.erase("i SHUNT_N"+std::to_string(q)); runs++; std::vector<std::vector<int> > A; if (parts) { Odo o(std::vector<int>(nb,cm->size())); do { A.push_back(o.d); } while (o.next()); } else A.push_back(as); bool solved=runs%3==0;
    if (solved) for (auto &m:w.bus) { m["d BUS_VOLTAGE_MAG"]=num(1.01+iv(m["i BUS_NUMBER"])%7/100.); m["d BUS_VOLTAGE_ANG"]=num(iv(m["i BUS_NUMBER"])%11-5.5); int ng=m.count("i GENERATOR_NUMBER")?iv(m["i GENERATOR_NUMBER"]):0; for (int j=0;j<ng;j++) { m["d GENERATOR_PG:"+std::to_string(j)]=num(F.sbase*(0.25+j)); m["d GENERATOR_QG:"+std::to_string(j)]=num(F.sbase*(0.125-j)); } }
    for (auto &a:A) { if (a.size()) label(what+" distribution "+show(a)); boost::shared_ptr<Net> net(new Net(*cm)),back(new Net(*cm)); if (F.v==33) parsetext<gridpack::parser::PTI33_parser<Net> >(net,txt); else parsetext<gridpack::parser::PTI34_parser<Net> >(net,txt);
      if (a.size()) { g_assign=a; g_assign.resize(nb,0); net->partition(); }
      if (solved) for (int i=0;i<net->numBuses();i++) { DC &d=*net->getBusData(i); int b=net->getOriginalBusIndex(i),ng=0; d.addValue("BUS_PF_VMAG",1.01+b%7/100.); d.addValue("BUS_PF_VANG",b%11-5.5); d.getValue("GENERATOR_NUMBER",&ng); for (int j=0;j<ng;j++) { d.addValue("GENERATOR_PF_PGEN",0.25+j,j); d.addValue("GENERATOR_PF_QGEN",0.125-j,j); } }
      S f=dir+"/x"+std::to_string(grp)+".raw"; if (F.v==33) { gridpack::expnet::PSSE33Export<Net> e(net); e.writeFile(f); } else { gridpack::expnet::PSSE34Export<Net> e(net); e.writeFile(f); }
      if (F.v==33) parsefile<gridpack::parser::PTI33_parser<Net> >(back,f); else parsefile<gridpack::parser::PTI34_parser<Net> >(back,f);
      compare(F,w,back); if (cm->rank()==0) count_sub(1,cm->size()>1); } }
  void compare(const File &F,Want &w,boost::shared_ptr<Net> &net) { S d; int me=cm->rank(); int nb=net->numBuses(); VM_CHECK(nb==(me?0:(int)w.bus.size()),nb<<" buses read back, should be "<<w.bus.size()); if (me) return; std::set<S> none;
    for (int i=0;i<nb;i++) { d=cmp(w.bus[i],observe(*net->getBusData(i)),none); VM_CHECK(d.empty(),"bus "<<w.bus[i]["i BUS_NUMBER"]<<" read back: "<<d); }
    std::vector<M> R; for (int i=0;i<net->numBranches();i++) R.push_back(observe(*net->getBranchData(i))); std::vector<El> a=elements(w.branch),b=elements(R); VM_CHECK(a.size()==b.size(),b.size()<<" lines and transformers read back, should be "<<a.size()); VM_CHECK(w.branch.size()==R.size(),R.size()<<" branches read back, should be "<<w.branch.size());
    std::vector<bool> used(b.size()); for (auto &x:a) { for (int q=1;q<=4;q++) if (!x.m.count("d BRANCH_F"+std::to_string(q))) x.m.erase("i BRANCH_O"+std::to_string(q)); S best; bool ok=false; bool leg=!x.m.count("d TRANSFORMER_WINDV1")&&!x.m.count("d BRANCH_LENGTH")&&std::max(iv(x.from),iv(x.to))>20500; std::set<S> skip={"BRANCH_SWITCHED","TRANSFORMER_CW"}; if (leg) for (auto q:{"BRANCH_SHUNT_ADMTTNC_G1","BRANCH_SHUNT_ADMTTNC_B1","BRANCH_SHUNT_ADMTTNC_G2","BRANCH_SHUNT_ADMTTNC_B2","BRANCH_B"}) skip.insert(q); S nm="element "+x.from+" "+x.to+" "+x.m["s BRANCH_CKT"]; if (leg&&rd(x.m["d BRANCH_TAP"])==1&&rd(x.m["d BRANCH_SHIFT"])==0) skip.insert("BRANCH_TAP");
      for (size_t k=0;k<b.size()&&!ok;k++) if (!used[k]&&b[k].from==x.from&&b[k].to==x.to&&b[k].m["s BRANCH_CKT"]==x.m["s BRANCH_CKT"]) { d=cmp(x.m,b[k].m,skip); if (d.empty()&&!x.m.count("d BRANCH_RATING_A")&&b[k].m.count("d BRANCH_RATING_A")&&rd(b[k].m["d BRANCH_RATING_A"])!=0) d="rating of "+b[k].m["d BRANCH_RATING_A"]+" where none is given"; if (d.empty()) ok=used[k]=true; else if (best.empty()||b[k].m["d BRANCH_X"]==x.m["d BRANCH_X"]) best=d; } VM_CHECK(ok,nm<<" read back: "<<(best.size()?best:S("missing"))); }
    M g; DC &n=*net->getNetworkData(); int q; double x; S s; for (int i=-1;i<5;i++) for (auto &c:AREA) { if (c.t=='i'&&(i<0?n.getValue(c.n,&q):n.getValue(c.n,&q,i))) put(g,'i',c.n,i,std::to_string(q)); if (c.t=='d'&&(i<0?n.getValue(c.n,&x):n.getValue(c.n,&x,i))) put(g,'d',c.n,i,num(x)); if (c.t=='q'&&(i<0?n.getValue(c.n,&s):n.getValue(c.n,&s,i))) put(g,'s',c.n,i,unq(s)); }
    if (n.getValue("AREA_TOTAL",&q)) put(g,'i',"AREA_TOTAL",-1,std::to_string(q)); if (n.getValue("CASE_ID",&q)) put(g,'i',"CASE_ID",-1,std::to_string(q)); if (n.getValue("CASE_SBASE",&x)) put(g,'d',"CASE_SBASE",-1,num(x)); d=cmp(w.net,g,none); VM_CHECK(d.empty(),"network data read back: "<<d); }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); { voc(); runs=0; as.clear(); grp=0; cm.reset(new Communicator); char t[]="/tmp/vmexpXXXXXX"; if (rank==0) { if (!mkdtemp(t)) fail("no scratch directory"); dir=t; } dir=hgather(dir)[0]; hbarrier(); int v=c.geti("v"),k=c.geti("k"),x=c.geti("x"),n=c.geti("n"); S w=c.gets("w"); parts=w=="par"||w=="two"||w=="gap";
      if (w=="data") data(v,k,x,n); else if (w=="elem") elems(v,k,n); else if (w=="cut") cut(v,k); else if (w=="blank") blank(v,k); else if (w=="xf") xf(v,k); else if (w=="area") area(v);
      else if (w=="zero"||w=="gap") { Odo o(std::vector<int>(3,w=="gap"?2:4)); do { File F=base(v); addelem(F,0,5); addelem(F,2,9); for (int q=0;q<3;q++) { Rec r=busdata(v,BLOAD,q/2,q,0,50+20*q); if (o.d[q]&1) r.f[0][5]=r.f[0][6]="0.0"; if (o.d[q]&2) for (int z=7;z<11;z++) r.f[0][z]="0.0"; F.r[BLOAD].push_back(r); } if (w=="gap") { File G=F; addelem(G,6,40); addelem(G,1,60); one(G,Style(),1,"zero loads "+o.str()); } else one(F,Style(),1,"zero loads "+o.str()); } while (o.next()); }
      else if (w=="two") { for (int m=0;m<4;m++) { File F=base(v); addelem(F,m,5); addelem(F,7-m,13); addelem(F,m*2,30); F.r[BGEN].push_back(busdata(v,BGEN,m,1,0,33)); F.r[BSHUNT].push_back(busdata(v,BSHUNT,3-m,0,0,21)); one(F,Style(),1,"networks "+std::to_string(m)); } }
      else if (w=="grp") { Communicator world; cm.reset(new Communicator(world.split(k?rank==0:rank==np-1))); grp=k?rank==0:rank==np-1; for (int q=0;q<4;q++) { as.clear(); if (cm->size()>1) for (int i=0;i<6;i++) as.push_back((i*(q+1)+q)%cm->size()); one(rich(v,(q+grp)%4),Style(),1,"groups"); } }
      else if (w=="one") { File F=base(v,3); addelem(F,0,5); addelem(F,8,13); F.r[BLOAD].push_back(busdata(v,BLOAD,0,1,0,33)); as=k?std::vector<int>({1,0,1}):std::vector<int>({0,1,1}); one(F,Style(),1,"schedule"); }
      else one(rich(v,k),Style(),1,"rich"); record("ok"); hbarrier(); if (rank==0) { for (int g=0;g<2;g++) unlink((dir+"/x"+std::to_string(g)+".raw").c_str()); rmdir(dir.c_str()); } cm.reset(); } par_end(); }
};
Harness *vm::make_harness() { return new EX; }
