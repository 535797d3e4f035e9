// Files with dynamic models (.dyr): every record reaches exactly the device it names with exactly
// its values, on every process that has a copy, whichever of the three ways the file is read.
// USES: parallel timer environment configuration component factory stream partition
// REPO_SRC: parser/*.cpp parser/block_parsers/*.cpp
// FLAGS: -fno-access-control -D_GLIBCXX_ASSERTIONS
#include "netkit.hpp"
#include "parstub.hpp"
#include "pfnet.hpp"
#include "gridpack/parser/dictionary.hpp"
#include "gridpack/parser/PTI33_parser.hpp"
#include "dyrmap.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
using namespace nk; using hu::show; using hu::Odo;
typedef std::string S; typedef std::vector<S> L; typedef std::map<S,S> M;
typedef gridpack::network::BaseNetwork<UBus,UBranch> GN;
using gridpack::parallel::Communicator;
static S num(double x) { std::ostringstream o; o.precision(10); o<<x; return o.str(); }
struct Mod { S name,sub,kind; };           // kind: g generator, l load, u load named by USRLOD, b bus relay, f frequency relay, d distance relay
struct Group { const char *key,*has; };
static std::vector<Mod> mods() { std::vector<Mod> r; for (const char *m:{"GENCLS","GENSAL","GENROU","GDFORM","REGCA1","REGCB1","REGCC1","REECA1","REPCA1","REPCTA1","WSIEG1","EXDC1","EXDC2","IEEET1","SEXS","GAST","HYGOV","ESST1A","ESST4B","GGOV1","WSHYGP","TGOV1","PSSSIM","WTDTA1","WTARA1","WTPTA1","WTTQA1"}) r.push_back({m,m,"g"});
  r.push_back({"CIM6BL","CIM6BL","l"}); r.push_back({"IEELBL","IEELBL","l"}); r.push_back({"USRLOD","ACMTBLU1","u"}); r.push_back({"USRLOD","CMLDBLU1","u"}); r.push_back({"LVSHBL","LVSHBL","b"}); r.push_back({"FRQTPAT","FRQTPAT","f"}); r.push_back({"DISTR1","DISTR1","d"}); return r; }
static S table(const S &m) { return m=="REPCTA1"?"REPCA1":m=="EXDC2"?"EXDC1":m; }
static Group group(const S &m) { for (const char *x:{"GENCLS","GENSAL","GENROU","GDFORM","REGCA1","REGCB1","REGCC1"}) if (m==x) return {"GENERATOR_MODEL",0}; for (const char *x:{"ESST1A","ESST4B","EXDC1","EXDC2","IEEET1","SEXS","REECA1"}) if (m==x) return {"EXCITER_MODEL","HAS_EXCITER"}; for (const char *x:{"WSIEG1","GGOV1","TGOV1","GAST","HYGOV","WSHYGP"}) if (m==x) return {"GOVERNOR_MODEL","HAS_GOVERNOR"};
  if (m=="REPCA1"||m=="REPCTA1") return {"PLANT_CONTROLLER_MODEL","HAS_PLANT_CONTROLLER"}; if (m=="PSSSIM") return {"PSS_MODEL","HAS_PSS"}; if (m=="WTDTA1") return {"WIND_DRIVETRAIN","HAS_WIND_DRIVETRAIN"}; if (m=="WTARA1") return {"WIND_AERODYNAMIC","HAS_WIND_AERODYNAMIC"}; if (m=="WTPTA1") return {"WIND_PITCHCONTROL","HAS_WIND_PITCHCONTROL"}; if (m=="WTTQA1") return {"WIND_TORQUECONTROL","HAS_WIND_TORQUECONTROL"}; return {0,0}; }
// a record: its model, the bus (or both buses) and the tag it names, the seed of its values, how many of its entries are there
struct Rec { int m; int bus,bus2; S tag; int seed,cut; S raw; };
struct State { std::map<int,M> bus; std::map<std::pair<int,int>,M> br; };
struct DY : Harness {
  std::vector<Mod> md; S dir; std::map<S,State> bases; long runs; boost::shared_ptr<Communicator> cm; std::vector<int> as; 
  bool capture_stdout() const override { return true; }
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough"; int K=mods().size();
    auto add=[&](const char *w,int np,int k,int path,const S &a="",Explore ex=DEFAULT_SCHED,int b=0) { Case c; c.np=np; c.explore=ex; c.bound=b; c.set("w",w).set("k",k).set("path",path).set("as",a).set("n",th?3:2); emit(c); };
    for (int path=0;path<3;path++) for (int k=0;k<K;k++) { add("each",1,k,path); add("pairs",1,k,path); add("cut",1,k,path); add("twice",1,k,path); }
    for (int path=0;path<3;path++) for (int k=0;k<14;k++) add("seq",1,k,path);
    for (int path=0;path<3;path++) for (int k=0;k<4;k++) { add("all",2,k,path); add("all",3,k,path); add("seqp",2,k,path,"1,0,1,0"); add("seqp",3,k,path,"2,0,1,1"); }
    for (int k=0;k<3;k++) for (int path=0;path<3;path+=2) { add("grp",2,k,path); add("grp",3,k,path); }
    for (int path=0;path<3;path++) for (int k=0;k<2;k++) add("one",2,k,path,k?"1,0,0,1":"0,1,0,1",PREEMPT_BOUND,th?2:1); }
  // buses 7 3 12 5; generators 7/1 7/H2 3/1 3/2 3/3; loads 3/1 3/2 12/1 12/A 12/B 12/C 5/...; branches 7-3 3-12 12-5 5-7 and a parallel one
  static ::Net grid() { return make("3211;0-1,1-2,2-3,3-0;GLP"); }
  double val(int seed,int p) const { if (p==5+seed%40&&seed%3==0) return 0; double v=(p+seed*1000)+0.25; if (p%7==3) v=-v/8; if (p%11==6) v*=1e-3; return v; }
  int ival(int seed,int p) const { if (p==5+seed%40&&seed%3==0) return 0; return (p%7==3?-1:1)*(p+seed*200); }
  static S stag(int seed,int p) { static const char *T[]={"1","A1","'2 '","7","ZZ"}; return T[(seed+p)%5]; }
  int length(const Mod &m) const { int n=0; for (auto &d:DYR) if (table(m.sub)==d.model) n=std::max(n,d.pos+1); return n; }
  // entries of a record; seed%3==0: one of them is zero (left out between commas)
  L entries(const Rec &r) const { const Mod &m=md[r.m]; int n=length(m); L t(n); for (int p=0;p<n;p++) t[p]=num(p+0.5); for (auto &d:DYR) if (table(m.sub)==d.model) { if (d.type=='i') t[d.pos]=std::to_string(ival(r.seed,d.pos)); else { double v=val(r.seed,d.pos); char b[40]; if (v!=0&&d.pos%5==2) { snprintf(b,40,"%.9E",v); t[d.pos]=b; } else t[d.pos]=num(v); } }
    t[1]="'"+m.name+"'"; if (m.kind=="f") { t[3]=std::to_string(r.bus); t[4]=r.tag; } else { t[0]=std::to_string(r.bus); t[2]=m.kind=="d"?std::to_string(r.bus2):r.tag; if (m.kind=="u") t[3]="'"+m.sub+"'"; if (m.kind=="d") { t[3]=r.tag; for (int p:{9,12,15}) t[p]=stag(r.seed,p); } if (table(m.sub)=="REPCA1") t[6]=stag(r.seed,6); }
    if (r.cut) t.resize(std::min<int>(r.cut,t.size())); return t; }
  static void put(M &m,char t,const S &k,int i,const S &v) { m[S(1,t)+" "+k+(i<0?"":":"+std::to_string(i))]=v; }
  static int dev(const M &m,const char *count,const char *id,const S &tag) { auto it=m.find(S("i ")+count); int n=it==m.end()?0:atoi(it->second.c_str()); for (int i=0;i<n;i++) { auto q=m.find(S("s ")+id+":"+std::to_string(i)); if (q!=m.end()&&q->second==two(tag)) return i; } return -1; }
  // what the record means; lax: entries which are not there may be given as zeros
  void apply(State &s,const Rec &r,bool lax) const { if (r.raw.size()) return; const Mod &m=md[r.m]; L t=entries(r); int n=t.size(); M *d; int i=-1; if (n<3||((m.kind=="u"||m.kind=="f")&&n<4)) return;
    if (m.kind=="d") { auto it=s.br.find(std::make_pair(r.bus,r.bus2)); if (it==s.br.end()) return; d=&it->second; } else { auto it=s.bus.find(r.bus); if (it==s.bus.end()) return; d=&it->second; }
    if (m.kind=="g") i=dev(*d,"GENERATOR_NUMBER","GENERATOR_ID",r.tag); else if (m.kind=="l"||m.kind=="u") i=dev(*d,"LOAD_NUMBER","LOAD_ID",r.tag); else { auto it=d->find("i RELAY_NUMBER"); i=it==d->end()?0:atoi(it->second.c_str()); put(*d,'i',"RELAY_NUMBER",-1,std::to_string(i+1)); } if (i<0) return;
    auto sput=[&](const char *k,int p) { if (p<n) put(*d,'s',k,i,two(t[p])); else if (lax) put(*d,'?',S("s ")+k,i,""); };
    Group g=group(m.sub); if (m.kind=="g") { put(*d,'s',g.key,i,m.sub); if (g.has) put(*d,'b',g.has,i,"1"); if (m.name[0]=='W'&&m.name[1]=='T') put(*d,'s',"WIND_ID",i,two(r.tag)); if (table(m.sub)=="REPCA1") sput("GENERATOR_REPCA_BRCH_CKT",6); } else if (m.kind=="l"||m.kind=="u") put(*d,'s',"LOAD_MODEL",i,m.sub); else { put(*d,'s',"RELAY_MODEL",i,m.sub); if (m.kind=="b") sput("RELAY_LID",2); if (m.kind=="f") sput("RELAY_GENID",4); if (m.kind=="d") { sput("RELAY_ID",3); sput("RELAY_ID1",9); sput("RELAY_ID2",12); sput("RELAY_ID3",15); } }
    for (auto &x:DYR) if (table(m.sub)==x.model) { if (x.pos<n) put(*d,x.type,x.key,i,x.type=='i'?std::to_string(atoi(t[x.pos].c_str())):num(atof(t[x.pos].c_str()))); else if (lax) put(*d,'?',S(1,x.type)+" "+x.key,i,"0"); } }
  S render(const std::vector<Rec> &R,int style) const { S o,nl=style==5?"\r\n":"\n"; if (style==6) o+="// GENROU records 7 'GENROU' 1 /\n\n   \n/ remark\n//\n"; for (size_t q=0;q<R.size();q++) { if (R[q].raw.size()) { o+=R[q].raw+nl; continue; } L t=entries(R[q]); const Mod &m=md[R[q].m]; if (style==2) { t[1]="\""+m.name+"\""; for (auto &c:t[1]) c=tolower(c); if (m.kind=="u"&&t.size()>3) for (auto &c:t[3]) c=tolower(c); }
      if (m.kind!="d"&&(style==2||style==8)) { int p=m.kind=="f"?4:2; if ((int)t.size()>p&&t[p][0]!='\'') t[p]=style==2?"'"+t[p]+(t[p].size()<2?" '":"'"):"\""+t[p]+"\""; }
      S sep=style==1?", ":style==8?",":style==0?"  ":" "; if (style==6) o+="   "; for (size_t p=0;p<t.size();p++) { S v=t[p]; if (style==8&&v=="0"&&p>3) v=""; if (p) { bool br=(style==3&&p==t.size()/2)||style==4||(style==5&&p%4==3); o+=br?nl:sep; } o+=v; } if (style==4) o+=nl; if (style==7&&q+1==R.size()) { o+="\n"; break; } o+=style==8?"/":" /"; if (style==6) o+=" end of "+m.name+" // 7"; o+=nl; if (style==6) o+=" \n// more\n"; } return o; }
  static M snap(const gridpack::component::DataCollection &d) { M m; for (auto &p:d.p_ints) m["i "+p.first]=std::to_string(p.second); for (auto &p:d.p_longs) m["l "+p.first]=std::to_string(p.second); for (auto &p:d.p_bools) m["b "+p.first]=p.second?"1":"0"; for (auto &p:d.p_strings) m["s "+p.first]=p.second; for (auto &p:d.p_floats) m["f "+p.first]=num(p.second); for (auto &p:d.p_doubles) m["d "+p.first]=num(p.second); return m; }
  static State snap(GN &n) { State s; for (int i=0;i<n.numBuses();i++) s.bus[n.getOriginalBusIndex(i)]=snap(*n.getBusData(i)); for (int i=0;i<n.numBranches();i++) { std::pair<int,int> e; n.getOriginalBranchEndpoints(i,&e.first,&e.second); s.br[e]=snap(*n.getBranchData(i)); } return s; }
  template<class P> void load(P &p,boost::shared_ptr<GN> net,const S *dyr) { L raw; { std::istringstream i(grid().raw()); S l; while (std::getline(i,l)) raw.push_back(l); } auto part=[&]() { if (as.size()||path==2) { g_assign=vertex(*net); net->partition(); } };
    try { p.parse(raw,true); if (!dyr) { part(); return; } S f=dir+"/x.dyr"; if (path!=1) { if (cm->rank()==0) { std::ofstream o(f.c_str(),std::ios::binary); o<<*dyr; } cm->sync(); }
      if (path==0) { p.parse(f); part(); } else if (path==1) { L v; std::istringstream i(*dyr); S l; while (std::getline(i,l)) v.push_back(l); p.parse(v,false); part(); } else { part(); if (composite) p.getDSExternal(f); else p.externalParse(f); } cm->sync(); } catch (std::exception &e) { fail(S("exception: ")+e.what()); } }
  std::vector<int> vertex(GN &net) { std::vector<int> r(as); r.resize(4,0); return r; }
  int path; bool composite=false; // composite loads are replaced by further buses afterwards: not part of this
  void open(boost::shared_ptr<GN> net,const S *dyr) { { gridpack::parser::PTI33_parser<GN> p(net); load(p,net,dyr); } }
  static S diff(M want,const M &got) { for (auto it=want.begin();it!=want.end();) if (it->first[0]=='?') { S k=it->first.substr(2),z=it->second; auto g=got.find(k); if (g!=got.end()&&g->second==z) want[k]=z; it=want.erase(it); } else ++it;
    for (auto &p:want) { auto it=got.find(p.first); if (it==got.end()) return p.first+" is missing, should be "+p.second; if (it->second!=p.second) { if (p.first[0]=='d'&&std::fabs(atof(it->second.c_str())-atof(p.second.c_str()))<=1e-9*std::fabs(atof(p.second.c_str()))) continue; return p.first+" is "+it->second+", should be "+p.second; } } for (auto &p:got) if (!want.count(p.first)) return p.first+" = "+p.second+" should not be there"; return ""; }
  void check1(const std::vector<Rec> &R,int style,const S &what) { runs++; label(what); S key=show(as)+std::to_string(cm->size()); if (!bases.count(key)) { boost::shared_ptr<GN> n(new GN(*cm)); open(n,0); bases[key]=snap(*n); VM_CHECK(as.size()==0||n->numBuses()>0||true,""); if (cm->size()==1) { VM_CHECK(n->numBuses()==4&&n->numBranches()==4,"network not read"); } }
    State w=bases[key]; for (auto &r:R) apply(w,r,path==2); S text=render(R,style); composite=false; for (auto &r:R) if (r.raw.empty()&&md[r.m].sub=="CMLDBLU1") composite=true; boost::shared_ptr<GN> net(new GN(*cm)); open(net,&text); State g=snap(*net);
    VM_CHECK(g.bus.size()==w.bus.size()&&g.br.size()==w.br.size(),"network changed by:\n"<<text); for (auto &p:w.bus) { S d=diff(p.second,g.bus[p.first]); VM_CHECK(d.empty(),what<<": bus "<<p.first<<" on process "<<cm->rank()<<": "<<d<<"\n"<<text.substr(0,1500)); } for (auto &p:w.br) { S d=diff(p.second,g.br[p.first]); VM_CHECK(d.empty(),what<<": branch "<<p.first.first<<"-"<<p.first.second<<" on process "<<cm->rank()<<": "<<d<<"\n"<<text.substr(0,1500)); } if (cm->rank()==0) count_sub(1,cm->size()>1); }
  // device number t for model m
  Rec rec(int m,int t,int seed,int cut=0) const { static const int GB[]={7,7,3,3,3,3,12,99},LB[]={3,3,12,12,12,5,7,99}; static const char *GT[]={"1","H2","2","3","1","9","1","1"},*LT[]={"2","1","A","C","B","1","1","1"}; static const int DF[]={7,12,3,5,7,3,99,7},DT[]={3,5,12,7,5,7,3,99}; const S &k=md[m].kind; t%=8; if (k=="g") return {m,GB[t],0,GT[t],seed,cut,""}; if (k=="l"||k=="u") return {m,LB[t],0,LT[t],seed,cut,""}; if (k=="d") return {m,DF[t],DT[t],t%2?"1":"A",seed,cut,""}; static const int RB[]={7,3,12,5,3,7,99,-3}; return {m,RB[t],0,t%3?"*":"1",seed,cut,""}; }
  int find(const char *n) const { for (size_t i=0;i<md.size();i++) if (md[i].sub==n) return i; return -1; }
  Rec sym(int k,int q) const { switch (k) { case 0: return rec(find("GENROU"),0,q+1); case 1: return rec(find("GENCLS"),0,q+2); case 2: return rec(find("GENROU"),2,q+3); case 3: return rec(find("ESST4B"),0,q+4); case 4: return rec(find("CIM6BL"),3,q+5); case 5: return rec(find("ACMTBLU1"),3,q+6); case 6: return rec(find("LVSHBL"),0,q+7); case 7: return rec(find("FRQTPAT"),0,q+8); case 8: return rec(find("DISTR1"),0,q+9); case 9: return rec(find("WTTQA1"),6,q+10); case 10: return rec(find("GAST"),7,q+11); case 11: return {0,0,0,"",0,0,"7 'NOSUCH' 1 2 3 /"}; case 12: return {0,0,0,"",0,0,q%2?"7 'GENCLS' /":"/"}; default: return {0,0,0,"",0,0,q%2?"12 'USRLOD' 1 'NOSUCH' 1 2 3 /":"3 'FRQTPAT' 7 /"}; } }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); { md=mods(); runs=0; bases.clear(); cm.reset(new Communicator); char t[]="/tmp/vmdyXXXXXX"; if (rank==0) { if (!mkdtemp(t)) fail("no scratch directory"); dir=t; } dir=hgather(dir)[0]; hbarrier(); int k=c.geti("k"),n=c.geti("n"); path=c.geti("path"); S w=c.gets("w"); as=hu::ints(c.gets("as")); static const char *P[]={"file","lines","external"}; S pre=S(P[path])+" "; int K=md.size();
      if (w=="each") { for (int tt=0;tt<8;tt++) for (int st=0;st<9;st++) check1({rec(k,tt,st+tt*9)},st,pre+md[k].sub+" device "+std::to_string(tt)+" style "+std::to_string(st)); }
      else if (w=="pairs") { for (int m=0;m<K;m++) for (int tt=0;tt<4;tt++) check1({rec(k,0,2),rec(m,tt,5)},(m+tt)%9,pre+md[k].sub+" then "+md[m].sub+" device "+std::to_string(tt)); if (n>2) for (int m=0;m<K;m++) for (int m2=0;m2<K;m2++) check1({rec(m,0,2),rec(k,0,3),rec(m2,0,5)},(m+m2)%9,pre+md[m].sub+" then "+md[k].sub+" then "+md[m2].sub); }
      else if (w=="cut") { int len=length(md[k]); for (int q=1;q<=len;q++) for (int st=0;st<3;st++) { Rec r=rec(k,0,q,q); if (q<2) { if (st) continue; r.raw="7 /"; } else if (q<3&&st==2) continue; check1({r,rec((k+1)%K,2,3)},st,pre+md[k].sub+" with "+std::to_string(q)+" entries"); } }
      else if (w=="twice") { for (int tt=0;tt<4;tt++) for (int st=0;st<9;st++) { check1({rec(k,tt,st+1),rec(k,tt,st+2)},st,pre+"twice "+md[k].sub); check1({rec(k,tt,st+1),rec(k,tt+1,st+2),rec(k,tt,st+4)},st,pre+"again "+md[k].sub); } }
      else if (w=="seq"||w=="seqp") { int st=0; for (int len=1;len<=(w=="seq"?n+1:2);len++) { std::vector<int> b(len,14); if (w=="seq") b[0]=1; Odo o(b); do { if (w=="seqp"&&o.d[0]%4!=k) continue; std::vector<Rec> R; for (int q=0;q<len;q++) R.push_back(sym(q||w=="seqp"?o.d[q]:k,q)); check1(R,st%7==6?8:st%7,pre+"sequence "+std::to_string(k)+" "+o.str()); st++; } while (o.next()); } }
      else if (w=="all") { Odo o(std::vector<int>(4,np)); int q=0; do { if (q++%4!=k&&np==3) continue; as=o.d; std::vector<Rec> R; for (int tt=0;tt<4;tt++) for (int m=0;m<K;m++) if (np==2||(m+tt+q)%3==0) R.push_back(rec(m,tt,m+tt*40+k)); check1(R,(q+k)%9,pre+"all models, distribution "+o.str()); } while (o.next()); }
      else if (w=="grp") { Communicator world; cm.reset(new Communicator(world.split(k==0?rank==0:k==1?rank==np-1:rank))); dir+="/"+std::to_string(k==0?rank==0:k==1?rank==np-1:rank); if (cm->rank()==0) mkdir(dir.c_str(),0700); cm->sync(); for (int q=0;q<6;q++) { as.clear(); if (cm->size()>1) for (int i=0;i<4;i++) as.push_back((i*(q+1)+q)%cm->size()); std::vector<Rec> R; for (int m=0;m<K;m++) R.push_back(rec(m,q+m,m+q+rank*0)); check1(R,q,pre+"groups"); } }
      else { std::vector<Rec> R; for (int q=0;q<5;q++) R.push_back(sym(q*2,q)); check1(R,0,pre+"schedule"); }
      record("ok"); hbarrier(); unlink((dir+"/x.dyr").c_str()); if (w=="grp") rmdir(dir.c_str()); hbarrier(); if (rank==0) { S d=w=="grp"?dir.substr(0,dir.rfind('/')):dir; rmdir(d.c_str()); } cm.reset(); label(std::to_string(runs)); } par_end(); }
};
Harness *vm::make_harness() { return new DY; }
