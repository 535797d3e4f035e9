// PSS/E RAW files: what is in the network after a file was parsed, for every short
// sequence of records, every place of a comment, every blank or missing field, and
// every number of processes.
// USES: parallel timer environment configuration component factory stream partition
// REPO_SRC: parser/*.cpp parser/block_parsers/*.cpp
// FLAGS: -D_GLIBCXX_ASSERTIONS
#include <mpi.h>
#include <ga++.h>
#include <complex>
#include <cmath>
#include <fstream>
#include <unistd.h>
#include "vm.hpp"
#include "gridpack/include/gridpack.hpp"
#include "util.hpp"
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator;
typedef gridpack::component::DataCollection DC; typedef gridpack::ComplexType CT; typedef std::string S;
struct PBus : gridpack::component::BaseBusComponent { template<class A> void serialize(A &a,const unsigned int) { a & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this); } };
struct PBranch : gridpack::component::BaseBranchComponent { template<class A> void serialize(A &a,const unsigned int) { a & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this); } };
BOOST_CLASS_EXPORT(PBus) BOOST_CLASS_EXPORT(PBranch)
typedef gridpack::network::BaseNetwork<PBus,PBranch> Net;
#include "gridpack/parser/PTI33_parser.hpp"
#include "gridpack/parser/PTI34_parser.hpp"
#include "gridpack/parser/PTI35_parser.hpp"
typedef std::vector<S> L;
// ---- columns: type (i int, d double, s string, t two character tag, - not stored), name.
// D is stored without index for the first one of a bus too; c takes two columns; o integer,
// f fraction
struct Col { char t; const char *n; };
static const std::vector<Col> BUS={{'i',"BUS_NUMBER"},{'s',"BUS_NAME"},{'d',"BUS_BASEKV"},{'i',"BUS_TYPE"},{'i',"BUS_AREA"},{'i',"BUS_ZONE"},{'i',"BUS_OWNER"},{'d',"BUS_VOLTAGE_MAG"},{'d',"BUS_VOLTAGE_ANG"},{'d',"BUS_VOLTAGE_MAX"},{'d',"BUS_VOLTAGE_MIN"},{'-',"EVHI"},{'-',"EVLO"}};
static const std::vector<Col> LOAD={{'b',"LOAD_BUSNUMBER"},{'t',"LOAD_ID"},{'i',"LOAD_STATUS"},{'i',"LOAD_AREA"},{'i',"LOAD_ZONE"},{'D',"LOAD_PL"},{'D',"LOAD_QL"},{'d',"LOAD_IP"},{'d',"LOAD_IQ"},{'d',"LOAD_YP"},{'d',"LOAD_YQ"},{'-',"OWNER"}};
static const std::vector<Col> SHUNT={{'b',"SHUNT_BUSNUMBER"},{'t',"SHUNT_ID"},{'i',"SHUNT_STATUS"},{'D',"BUS_SHUNT_GL"},{'D',"BUS_SHUNT_BL"}};
static const std::vector<Col> GEN33={{'b',"GENERATOR_BUSNUMBER"},{'t',"GENERATOR_ID"},{'d',"GENERATOR_PG"},{'d',"GENERATOR_QG"},{'d',"GENERATOR_QMAX"},{'d',"GENERATOR_QMIN"},{'d',"GENERATOR_VS"},{'i',"GENERATOR_IREG"},{'d',"GENERATOR_MBASE"},{'-',"ZR"},{'c',"GENERATOR_ZSOURCE"},{'-',"RT"},{'c',"GENERATOR_XTRAN"},{'d',"GENERATOR_GTAP"},{'i',"GENERATOR_STAT"},{'d',"GENERATOR_RMPCT"},{'d',"GENERATOR_PMAX"},{'d',"GENERATOR_PMIN"},{'o',"GENERATOR_OWNER1"},{'f',"GENERATOR_OFRAC1"},{'o',"GENERATOR_OWNER2"},{'f',"GENERATOR_OFRAC2"},{'o',"GENERATOR_OWNER3"},{'f',"GENERATOR_OFRAC3"},{'o',"GENERATOR_OWNER4"},{'f',"GENERATOR_OFRAC4"},{'i',"GENERATOR_WMOD"},{'d',"GENERATOR_WPF"}};
static std::vector<Col> gencols(int v) { std::vector<Col> c=GEN33; if (v==34) c.push_back({'i',"GENERATOR_NREG"}); if (v==35) { c.insert(c.begin()+8,{'i',"GENERATOR_NREG"}); c.insert(c.begin()+19,{'n',"GENERATOR_BASLOD"}); } return c; }
static const char *RATE[]={"BRANCH_RATE1","BRANCH_RATE2","BRANCH_RATE3","BRANCH_RATE4","BRANCH_RATE5","BRANCH_RATE6","BRANCH_RATE7","BRANCH_RATE8","BRANCH_RATE9","BRANCH_RATE10","BRANCH_RATE11","BRANCH_RATE12"};
static const char *RABC[]={"BRANCH_RATING_A","BRANCH_RATING_B","BRANCH_RATING_C"};
static std::vector<Col> brcols(int v) { std::vector<Col> c={{'-',"I"},{'-',"J"},{'t',"BRANCH_CKT"},{'d',"BRANCH_R"},{'d',"BRANCH_X"},{'d',"BRANCH_B"}};
  if (v==33) for (auto r:RABC) c.push_back({'d',r}); else { c.push_back({'s',"BRANCH_NAME"}); for (auto r:RATE) c.push_back({'d',r}); }
  for (auto r:{"BRANCH_SHUNT_ADMTTNC_G1","BRANCH_SHUNT_ADMTTNC_B1","BRANCH_SHUNT_ADMTTNC_G2","BRANCH_SHUNT_ADMTTNC_B2"}) c.push_back({'d',r}); c.push_back({'i',"BRANCH_STATUS"}); c.push_back({'i',"BRANCH_METER"}); c.push_back({'d',"BRANCH_LENGTH"});
  static const char *of[]={"BRANCH_O1","BRANCH_F1","BRANCH_O2","BRANCH_F2","BRANCH_O3","BRANCH_F3","BRANCH_O4","BRANCH_F4"}; for (int k=0;k<8;k++) c.push_back({k%2?'d':'i',of[k]}); return c; }
static const std::vector<Col> AREA={{'i',"AREAINTG_NUMBER"},{'i',"AREAINTG_ISW"},{'d',"AREAINTG_PDES"},{'d',"AREAINTG_PTOL"},{'q',"AREAINTG_NAME"}};
static const char *NS[]={"SHUNT_N1","SHUNT_N2","SHUNT_N3","SHUNT_N4","SHUNT_N5","SHUNT_N6","SHUNT_N7","SHUNT_N8"},*BS[]={"SHUNT_B1","SHUNT_B2","SHUNT_B3","SHUNT_B4","SHUNT_B5","SHUNT_B6","SHUNT_B7","SHUNT_B8"},*SS[]={"SHUNT_S1","SHUNT_S2","SHUNT_S3","SHUNT_S4","SHUNT_S5","SHUNT_S6","SHUNT_S7","SHUNT_S8"};
static std::vector<Col> swcols(int v) { std::vector<Col> c={{'b',"SWSHUNT_BUSNUMBER"}}; if (v==35) c.push_back({'-',"ID"}); for (auto p:{Col{'i',"SHUNT_MODSW"},Col{'i',"SHUNT_ADJM"},Col{'i',"SHUNT_SWCH_STAT"},Col{'d',"SHUNT_VSWHI"},Col{'d',"SHUNT_VSWLO"}}) c.push_back(p); c.push_back({'i',v==33?"SHUNT_SWREM":"SHUNT_SWREG"}); if (v==35) c.push_back({'i',"SHUNT_NREG"}); c.push_back({'d',"SHUNT_RMPCT"}); c.push_back({'q',"SHUNT_RMIDNT"}); c.push_back({'d',"SHUNT_BINIT"}); for (int k=0;k<8;k++) { if (v==35) c.push_back({'i',SS[k]}); c.push_back({'i',NS[k]}); c.push_back({'d',BS[k]}); } return c; }
// ---- observed and expected contents
typedef std::map<S,S> M;
static S num(double x) { char b[40]; snprintf(b,40,"%.9g",x); return b; }
static S ix(const S &n,int i) { return i<0?n:n+":"+std::to_string(i); }
static S unq(S s) { size_t a=s.find_first_not_of(" '\""); if (a==S::npos) return ""; size_t b=s.find_last_not_of(" '\""); return s.substr(a,b-a+1); }
static std::vector<std::pair<char,S> > VOC; // every name that may be stored
static void voc() { if (VOC.size()) return; auto add=[&](char t,const S &n) { for (auto &p:VOC) if (p.first==t&&p.second==n) return; VOC.push_back({t,n}); };
  auto cols=[&](const std::vector<Col> &c) { for (auto &k:c) switch (k.t) { case 'i': case 'o': case 'b': add('i',k.n); break; case 'd': case 'D': case 'f': add('d',k.n); break; case 'n': add('d',k.n); break; case 's': case 't': case 'q': add('s',k.n); break; case 'c': add('c',k.n); } };
  cols(BUS); cols(LOAD); cols(SHUNT); for (int v=33;v<=35;v++) { cols(gencols(v)); cols(brcols(v)); cols(swcols(v)); } for (auto n:{"LOAD_NUMBER","SHUNT_NUMBER","GENERATOR_NUMBER","BRANCH_NUM_ELEMENTS","BRANCH_INDEX","BRANCH_FROMBUS","BRANCH_TOBUS","CASE_ID","TRANSFORMER_CW","TRANSFORMER_CZ","TRANSFORMER_CM","TRANSFORMER_NMETR","TRANSFORMER_CODE1","TRANSFORMER_NTP","TRANSFORMER_TAB","MULTI_SEC_LINE_MET","MULTI_SEC_LINE_DUM1","MULTI_SEC_LINE_DUM2"}) add('i',n);
  for (auto n:{"CASE_SBASE","BRANCH_TAP","BRANCH_SHIFT","TRANSFORMER_MAG1","TRANSFORMER_MAG2","TRANSFORMER_SBASE1_2","TRANSFORMER_WINDV1","TRANSFORMER_WINDV2","TRANSFORMER_R1_2","TRANSFORMER_X1_2","TRANSFORMER_ANG1","TRANSFORMER_RMA","TRANSFORMER_RMI","TRANSFORMER_VMA","TRANSFORMER_VMI","TRANSFORMER_CR","TRANSFORMER_CX","TRANSFORMER_CNXA"}) add('d',n); add('b',"BRANCH_SWITCHED"); add('s',"MULTI_SEC_LINE_ID"); for (auto r:RABC) add('d',r); }
static M observe(DC &d) { M m; for (auto &p:VOC) for (int i=-1;i<8;i++) { const char *n=p.second.c_str(); S key=S(1,p.first)+" "+ix(p.second,i),s; int a; double x; bool b; CT z;
    switch (p.first) { case 'i': if (i<0?d.getValue(n,&a):d.getValue(n,&a,i)) m[key]=std::to_string(a); break; case 'd': if (i<0?d.getValue(n,&x):d.getValue(n,&x,i)) m[key]=num(x); break; case 's': if (i<0?d.getValue(n,&s):d.getValue(n,&s,i)) m[key]=p.second=="AREAINTG_NAME"||p.second=="SHUNT_RMIDNT"?unq(s):s; break; case 'b': if (i<0?d.getValue(n,&b):d.getValue(n,&b,i)) m[key]=b?"1":"0"; break; case 'c': if (i<0?d.getValue(n,&z):d.getValue(n,&z,i)) m[key]=num(z.real())+" "+num(z.imag()); } } return m; }
static void put(M &m,char t,const S &n,int i,const S &v) { m[S(1,t)+" "+ix(n,i)]=v; }
static double dv(const S &s) { return atof(s.c_str()); } static int iv(const S &s) { return atoi(s.c_str()); }
static S tag(const S &f) { S s=unq(f); if (s.size()==1) s+=" "; return s; }
// stores the columns of one record; n fields are present
static void store(M &m,const std::vector<Col> &c,const L &f,int i,int skip=0) { for (int k=skip;k<(int)c.size();k++) { bool in=k<(int)f.size(); S v=in?f[k]:""; const char *n=c[k].n; switch (c[k].t) { case 'i': if (in) put(m,'i',n,i,std::to_string(iv(v))); break; case 'd': case 'n': if (in) put(m,'d',n,i,num(dv(v))); break; case 'D': if (in) { put(m,'d',n,i,num(dv(v))); if (i==0) put(m,'d',n,-1,num(dv(v))); } break; case 's': case 'q': if (in) put(m,'s',n,i,unq(v)); break; case 't': if (in) put(m,'s',n,i,tag(v)); break; case 'c': if (in) put(m,'c',n,i,num(dv(f[k-1]))+" "+num(dv(v))); break; case 'o': if (in) put(m,'i',n,i,std::to_string(iv(v))); break; case 'f': if ((int)f.size()>=k) put(m,'d',n,i,in?num(dv(v)):S(n).back()=='1'?"1":"0"); } } }
// ---- files
enum B { BBUS,BLOAD,BSHUNT,BGEN,BBR,BXF,BAREA,BIMP,BMS,BSW,NB };
struct Rec { int b; std::vector<L> f; };
struct Style { int comment=-1, ckind=0, term=0, trail=-1, sep=0, crlf=0; }; // place of a comment line, its kind; style of terminators; line with a trailing comment
struct File { int v=33; double sbase=100; std::vector<Rec> r[NB]; };
static const char *TERM[]={"0 / END OF DATA","0","0 /END","  0 / END OF DATA","0/ END"," 0/ END OF DATA, BEGIN OTHER DATA","0 / END OF 'DATA'"};
static const char *CMT[]={"// a comment, 1, 2","@! I, 'NAME', BASKV","   // 'quoted / comment","//","@!"};
static L render(const File &F,const Style &st,int *places=0) { L o; o.push_back(F.v==33?"0,  "+num(F.sbase)+", 33, 0, 1, 60.00 / MODEL CASE":"0,  "+num(F.sbase)+", "+std::to_string(F.v)+", 0, 1, 60.00 / MODEL CASE"); o.push_back("A TITLE, 0 / WITH WORDS"); o.push_back("0 / SECOND TITLE"); int p=0; // p counts the places
  auto line=[&](const S &s,bool data) { if (st.comment==p) o.push_back(CMT[st.ckind]); p++; o.push_back(s+(data&&st.trail==p-1?" / trailing, 'comment' / 7":"")); };
  auto rec=[&](const L &f) { S s; for (size_t k=0;k<f.size();k++) { if (k) s+=st.sep==1?" , ":st.sep==2?",  \t":","; s+=f[k]; } if (st.sep==1) s="  "+s+"   "; line(s,true); };
  auto end=[&]() { line(TERM[st.term],false); };
  auto block=[&](int b) { for (auto &r:F.r[b]) for (auto &f:r.f) rec(f); end(); };
  if (F.v>33) { line("GENERAL, THRSHZ=0.0001",false); end(); }
  block(BBUS); block(BLOAD); block(BSHUNT); block(BGEN); block(BBR); if (F.v>33) end(); block(BXF); block(BAREA); end(); end(); block(BIMP); end(); block(BMS); line("1,'ZONE'",false); end(); end(); line("1,'OWNER 1'",false); end(); end(); block(BSW); end(); o.push_back("Q"); if (places) *places=p; if (st.crlf) for (auto &s:o) s+="\r"; return o; }
struct Want { std::vector<M> bus,branch; M net; std::map<int,std::vector<std::pair<double,double> > > imp; };
static double pick(double w,const S &nomv,double kv,int cw) { if (cw!=2) return w; double n=dv(nomv); return w/(n!=0?n:kv); }
static Want oracle(const File &F) { Want w; std::map<int,int> bi; std::map<S,int> bn; double sb=F.sbase; int maxb=0; std::vector<double> kv; std::vector<M> &B=w.bus; std::vector<M> &R=w.branch;
  auto cs=[&](M &m) { put(m,'d',"CASE_SBASE",-1,num(sb)); put(m,'i',"CASE_ID",-1,"0"); };
  for (auto &r:F.r[BBUS]) { M m; store(m,BUS,r.f[0],-1); cs(m); int n=iv(r.f[0][0]); maxb=std::max(maxb,n); if (!bi.count(n)) bi[n]=B.size(); S nm=unq(r.f[0][1]); if (!bn.count(nm)) bn[nm]=n; kv.push_back(r.f[0].size()>2?dv(r.f[0][2]):0); B.push_back(m); }
  auto busno=[&](S s)->int { size_t a=s.find_first_not_of(' '); if (a!=S::npos&&s[a]=='\'') { S n=unq(s); if (n.size()>12) n=unq(n.substr(0,12)); auto it=bn.find(n); return it==bn.end()?-1:it->second; } return std::abs(iv(s)); };
  auto many=[&](int b,const std::vector<Col> &c,const char *cnt) { std::map<int,int> k; for (auto &r:F.r[b]) { int n=busno(r.f[0][0]); if (!bi.count(n)) continue; int x=bi[n]; put(B[x],'i',c[0].n,k[x],std::to_string(n)); store(B[x],c,r.f[0],k[x],1); k[x]++; put(B[x],'i',cnt,-1,std::to_string(k[x])); } };
  many(BLOAD,LOAD,"LOAD_NUMBER"); many(BSHUNT,SHUNT,"SHUNT_NUMBER"); many(BGEN,gencols(F.v),"GENERATOR_NUMBER");
  std::map<std::pair<int,int>,int> bm,cnt; std::vector<int> ne; // pair -> branch
  auto elem=[&](int a,int b,int &k,int &e) { bool sw=false; std::pair<int,int> p(a,b),q(b,a); if (bm.count(p)) k=bm[p]; else if (bm.count(q)) { k=bm[q]; sw=true; } else { k=R.size(); bm[p]=k; R.push_back(M()); ne.push_back(0); cs(R[k]); put(R[k],'i',"BRANCH_INDEX",-1,std::to_string(k)); put(R[k],'i',"BRANCH_FROMBUS",-1,std::to_string(a)); put(R[k],'i',"BRANCH_TOBUS",-1,std::to_string(b)); } e=ne[k]++; put(R[k],'i',"BRANCH_NUM_ELEMENTS",-1,std::to_string(ne[k])); put(R[k],'b',"BRANCH_SWITCHED",e,sw?"1":"0"); };
  std::vector<Col> bc=brcols(F.v);
  auto rates=[&](M &m,const L &f,int from,int e) { int n=F.v==33?3:12; for (int k=0;k<n;k++) { S v=num(dv(from+k<(int)f.size()?f[from+k]:"0")); if (F.v>33) put(m,'d',RATE[k],e,v); if (k<3) put(m,'d',RABC[k],e,v); } };
  for (auto &r:F.r[BBR]) { const L &f=r.f[0]; int k,e; elem(busno(f[0]),busno(f[1]),k,e); store(R[k],bc,f,e); if (F.v>33) for (int q=0;q<3;q++) if (7+q<(int)f.size()) put(R[k],'d',RABC[q],e,num(dv(f[7+q]))); put(R[k],'d',"BRANCH_TAP",e,"0"); put(R[k],'d',"BRANCH_SHIFT",e,"0"); }
  for (auto &r:F.r[BXF]) { const L &a=r.f[0],&b=r.f[1],&c=r.f[2],&d=r.f[3]; int n1=busno(a[0]),n2=busno(a[1]),n3=busno(a[2]),cw=iv(a[4]),cz=iv(a[5]); S ck=tag(a[3]); int st=iv(a[11]);
    if (n3==0) { int k,e; elem(n1,n2,k,e); M &m=R[k]; put(m,'s',"BRANCH_CKT",e,ck); put(m,'i',"TRANSFORMER_CW",e,std::to_string(cw)); put(m,'i',"TRANSFORMER_CZ",e,std::to_string(cz)); put(m,'i',"TRANSFORMER_CM",e,std::to_string(iv(a[6]))); put(m,'d',"TRANSFORMER_MAG1",e,num(dv(a[7]))); put(m,'d',"TRANSFORMER_MAG2",e,num(dv(a[8]))); put(m,'d',"BRANCH_B",e,num(dv(a[8]))); put(m,'i',"BRANCH_STATUS",e,std::to_string(st)); put(m,'i',"TRANSFORMER_NMETR",e,std::to_string(iv(a[9])));
      static const char *of[]={"BRANCH_O1","BRANCH_F1","BRANCH_O2","BRANCH_F2","BRANCH_O3","BRANCH_F3","BRANCH_O4","BRANCH_F4"}; for (int q=0;q<8;q++) if (12+q<(int)a.size()) { if (q%2) put(m,'d',of[q],e,num(dv(a[12+q]))); else put(m,'i',of[q],e,std::to_string(iv(a[12+q]))); }
      double s2=dv(b[2]),w1=pick(dv(c[0]),c[1],kv[bi[n1]],cw),w2=pick(dv(d[0]),d[1],kv[bi[n2]],cw),sc=cz==1||s2==0?1:sb/s2; put(m,'d',"TRANSFORMER_SBASE1_2",e,num(s2)); put(m,'d',"BRANCH_TAP",e,num(w1/w2)); put(m,'d',"TRANSFORMER_WINDV1",e,num(w1)); put(m,'d',"TRANSFORMER_WINDV2",e,num(w2)); put(m,'d',"TRANSFORMER_R1_2",e,num(dv(b[0]))); put(m,'d',"TRANSFORMER_X1_2",e,num(dv(b[1]))); put(m,'d',"BRANCH_R",e,num(dv(b[0])*w2*w2*sc)); put(m,'d',"BRANCH_X",e,num(dv(b[1])*w2*w2*sc));
      put(m,'d',"BRANCH_SHIFT",e,num(dv(c[2]))); put(m,'d',"TRANSFORMER_ANG1",e,num(dv(c[2]))); rates(m,c,3,e); int o=F.v==33?6:15; put(m,'i',"TRANSFORMER_CODE1",e,std::to_string(iv(c[o]))); int g=o+(F.v==35?3:2); static const char *t[]={"TRANSFORMER_RMA","TRANSFORMER_RMI","TRANSFORMER_VMA","TRANSFORMER_VMI","TRANSFORMER_NTP","TRANSFORMER_TAB","TRANSFORMER_CR","TRANSFORMER_CX","TRANSFORMER_CNXA"}; for (int q=0;q<(F.v==34?4:9);q++) if (g+q<(int)c.size()) { if (q==4||q==5) put(m,'i',t[q],e,std::to_string(iv(c[g+q]))); else put(m,'d',t[q],e,num(dv(c[g+q]))); }
    } else { if (st==0) continue; double z[3][2]; for (int q=0;q<3;q++) for (int h=0;h<2;h++) { double s=dv(b[3*q+2]); z[q][h]=dv(b[3*q+h])*(cz==1||s==0?1:sb/s); } maxb++; M nb; cs(nb); int x1=bi[n1]; put(nb,'i',"BUS_NUMBER",-1,std::to_string(maxb)); put(nb,'s',"BUS_NAME",-1,"DUMMY_BUS-"+std::to_string(n1)+"-"+std::to_string(n2)+"-"+std::to_string(n3)); put(nb,'d',"BUS_BASEKV",-1,"0"); put(nb,'i',"BUS_TYPE",-1,"1"); for (auto q:{"i BUS_AREA","i BUS_OWNER"}) nb[q]=B[x1][q]; put(nb,'d',"BUS_VOLTAGE_MAG",-1,"1"); put(nb,'d',"BUS_VOLTAGE_ANG",-1,"0"); B.push_back(nb);
      int nn[]={n1,n2,n3}; for (int q=0;q<3;q++) { M m; cs(m); const L &l=r.f[2+q]; put(m,'i',"BRANCH_INDEX",-1,std::to_string(R.size())); put(m,'i',"BRANCH_FROMBUS",-1,std::to_string(nn[q])); put(m,'i',"BRANCH_TOBUS",-1,std::to_string(maxb)); put(m,'i',"BRANCH_NUM_ELEMENTS",-1,"1"); put(m,'s',"BRANCH_CKT",0,ck); // pairs are 12, 23, 31
        double zz[2]; for (int h=0;h<2;h++) zz[h]=0.5*(z[q][h]+z[(q+2)%3][h]-z[(q+1)%3][h]); put(m,'d',"BRANCH_R",0,num(zz[0])); put(m,'d',"BRANCH_X",0,num(zz[1])); put(m,'d',"BRANCH_B",0,"0"); rates(m,l,3,0); put(m,'d',"BRANCH_TAP",0,num(pick(dv(l[0]),l[1],kv[bi[nn[q]]],cw))); put(m,'d',"BRANCH_SHIFT",0,num(dv(l[2]))); put(m,'b',"BRANCH_SWITCHED",0,"0"); put(m,'d',"BRANCH_SHUNT_ADMTTNC_G1",0,q==0?num(dv(a[7])):"0"); put(m,'d',"BRANCH_SHUNT_ADMTTNC_B1",0,q==0?num(dv(a[8])):"0"); put(m,'d',"BRANCH_SHUNT_ADMTTNC_G2",0,"0"); put(m,'d',"BRANCH_SHUNT_ADMTTNC_B2",0,"0"); int out=st==2?1:st==3?2:st==4?0:-1; put(m,'i',"BRANCH_STATUS",0,out==q?"0":"1"); R.push_back(m); ne.push_back(1); } } }
  int na=0; for (auto &r:F.r[BAREA]) { store(w.net,AREA,r.f[0],na++); } put(w.net,'i',"AREA_TOTAL",-1,std::to_string(na)); cs(w.net);
  for (auto &r:F.r[BIMP]) { std::vector<std::pair<double,double> > t; const L &f=r.f[0]; for (size_t k=1;k+1<f.size();k+=2) t.push_back({dv(f[k]),dv(f[k+1])}); int id=iv(f[0]); if (t.size()&&!w.imp.count(id)) w.imp[id]=t; }
  for (auto &r:F.r[BMS]) { const L &f=r.f[0]; std::pair<int,int> p(busno(f[0]),busno(f[1])); if (!bm.count(p)) std::swap(p.first,p.second); if (!bm.count(p)) continue; M &m=R[bm[p]]; S t=tag(f[2]); if (m.count("s MULTI_SEC_LINE_ID")) continue; put(m,'s',"MULTI_SEC_LINE_ID",-1,t); put(m,'i',"MULTI_SEC_LINE_MET",-1,std::to_string(iv(f[3]))); for (int k=0;k<2;k++) if (4+k<(int)f.size()) put(m,'i',"MULTI_SEC_LINE_DUM"+std::to_string(k+1),-1,std::to_string(iv(f[4+k]))); }
  std::map<int,int> sws; for (auto &r:F.r[BSW]) { int n=busno(r.f[0][0]); if (!bi.count(n)) continue; M &m=B[bi[n]]; put(m,'i',"SWSHUNT_BUSNUMBER",-1,std::to_string(n)); store(m,swcols(F.v),r.f[0],-1,1); }
  return w; }
static S diff(const M &want,const M &got,const M &prev={}) { for (auto &p:want) { auto it=got.find(p.first); if (it==got.end()) return p.first+" is missing, should be "+p.second; if (it->second!=p.second&&!(p.first[0]=='d'&&std::fabs(dv(it->second)-dv(p.second))<=1e-11+1e-8*std::fabs(dv(p.second)))) return p.first+" is "+it->second+", should be "+p.second; } for (auto &p:got) if (!want.count(p.first)) return p.first+" should not be there ("+p.second+")"; return ""; }
// ---- records
static S fieldval(char t,int u) { switch (t) { case 'i': case 'o': return std::to_string(u%97+1); case 'n': return std::to_string(u%3); case 's': return "'N"+std::to_string(u)+"'"; case 'q': return "'AREA "+std::to_string(u%10)+"'"; default: return num(u+0.25); } }
static L fields(const std::vector<Col> &c,int u,int from=0) { L f; for (size_t k=from;k<c.size();k++) f.push_back(fieldval(c[k].t=='-'?'d':c[k].t,u+3*k+1)); return f; }
static const char *BN[]={"'ALPHA       '","'BETA/2      '","'C           '","'DELTA 4'"};
static int BNO[]={101,7,20500,33};
static Rec busrec(int k,int len=13) { Rec r; r.b=BBUS; L f=fields(BUS,100*(k+1)); f[0]=std::to_string(BNO[k]); f[1]=BN[k]; f[2]=num(k%2?138.5:13.8); f[3]=std::to_string(k%3+1); f.resize(len); r.f={f}; return r; }
static File base(int v,int nbus=4) { File F; F.v=v; for (int k=0;k<nbus;k++) F.r[BBUS].push_back(busrec(k)); return F; }
// kinds of bus records: which bus (0..3 by number, 4 unknown, 5 by name, 6 by long name, 7 unknown name), tag, length
static S ref(int b) { switch (b) { case 4: return "999"; case 5: return "'ALPHA'"; case 6: return "'BETA/2         138.50'"; case 7: return "'NOBODY'"; case 8: return "-101"; default: return std::to_string(BNO[b]); } }
static const char *TG[]={"'1 '","2","'AB'","\"Z\"","' 7'"};
static Rec busdata(int v,int b,int bus,int tg,int cut,int u) { std::vector<Col> c=b==BLOAD?LOAD:b==BSHUNT?SHUNT:b==BGEN?gencols(v):swcols(v); Rec r; r.b=b; L f=fields(c,u); f[0]=ref(bus); if (b!=BSW) f[1]=TG[tg]; if (cut) f.resize(std::max(cut,1)); r.f={f}; return r; }
static Rec branch(int v,const S &a,const S &b,int tg,int cut,int u) { Rec r; r.b=BBR; L f=fields(brcols(v),u); f[0]=a; f[1]=b; f[2]=TG[tg]; if (v>33) f[6]="'LINE "+std::to_string(u)+"/"+std::to_string(v)+" '"; if (cut) f.resize(cut); r.f={f}; return r; }
static const char *W2[]={"1.05","138.0","13.8","1.0"};
static L winding(int v,int u,int w,int full) { L f={w==2?num(130+u%7):num(0.9+u%9/100.),w==2?(u%2?"0.0":"138.5"):(u%2?"0.0":"138.5"),num(u%60-30.5)}; int n=v==33?3:12; for (int k=0;k<n;k++) f.push_back(num(u+k+0.5)); f.push_back(std::to_string(u%5)); f.push_back(std::to_string(u%7)); if (v==35) f.push_back("0"); for (int k=0;k<4;k++) f.push_back(num(u/100.+k)); f.push_back(std::to_string(u%33)); f.push_back(std::to_string(u%4)); f.push_back("0.5"); f.push_back("0.75"); f.push_back(num(u+0.125)); if (full<0) f.resize(f.size()+full); return f; }
// two winding transformer; cw 1/2; cz 1/2; sb: base
static Rec xf2(int v,const S &a,const S &b,int tg,int cw,int cz,const S &sb,int u,int own=8,int cut=0) { Rec r; r.b=BXF; L f={a,b,"0",TG[tg],std::to_string(cw),std::to_string(cz),"1",num(u/1e4+.001),num(-u/1e4-.002),std::to_string(u%2+1),"'XF "+std::to_string(u)+" '",std::to_string(u%3?1:0)}; for (int k=0;k<own;k++) f.push_back(k%2?"0.25":std::to_string(k+u%5)); r.f.push_back(f); r.f.push_back({num(u/1000.+.01),num(u/500.+.02),sb}); r.f.push_back(winding(v,u,cw,cut)); r.f.push_back({cw==2?"13.2":"0.975",u%3?"0.0":"13.5"}); return r; }
static Rec xf3(int v,const S &a,const S &b,const S &c,int st,int cw,int cz,const L &sb,int u) { Rec r; r.b=BXF; r.f.push_back({a,b,c,TG[u%2],std::to_string(cw),std::to_string(cz),"1",num(u/1e4+.003),num(-u/1e4-.004),"2","'X3          '",std::to_string(st),"1","1.0"}); L z; for (int q=0;q<3;q++) { z.push_back(num(0.01*(q+1)+u/1e4)); z.push_back(num(0.1*(q*q+1)+u/1e4)); z.push_back(sb[q]); } z.push_back("1.0"); z.push_back("0.0"); r.f.push_back(z); for (int q=0;q<3;q++) r.f.push_back(winding(v,u+q,cw,0)); return r; }
struct RP : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](const char *w,int v,int np,int k,int x=0) { Case c; c.np=np; c.set("w",w).set("v",v).set("k",k).set("x",x).set("n",th?3:2); emit(c); };
    for (int v=33;v<=35;v++) { for (int b:{BLOAD,BSHUNT,BGEN,BSW}) if (!(b==BSW&&v==34)) for (int f=0;f<9;f++) add("data",v,1,b,f);
      for (int f=0;f<14;f++) add("elem",v,1,f); for (int k=0;k<7;k++) add("lines",v,1,k); for (int k=0;k<8;k++) add("blank",v,1,k); for (int k=0;k<8;k++) add("cut",v,1,k); for (int k=0;k<2;k++) add("xf",v,1,k); add("area",v,1,0); if (v==33) add("imp",v,1,0); add("msec",v,1,0);
      for (int np=1;np<=3;np++) for (int k=0;k<(th?12:4);k++) add("par",v,np,k);
      for (int k=0;k<2;k++) { Case c; c.np=2; c.explore=PREEMPT_BOUND; c.bound=th?3:2; c.set("w","par").set("v",v).set("k",k).set("x",0).set("n",2); emit(c); } }
    for (int k=0;k<5;k++) add("name",33,1,k); }
  boost::scoped_ptr<Communicator> cm; S dir; int runs; 
  virtual void one(const File &F,const Style &st,int src,const S &what,const File *written=0) { label(what); L txt=render(written?*written:F,st); Want w=oracle(F); boost::shared_ptr<Net> net(new Net(*cm)); int me=cm->rank(); runs++;
    if (!src&&me==0) { std::ofstream o((dir+"/f0.raw").c_str()); for (auto &s:txt) o<<s<<"\n"; }
    auto go=[&](auto &p) { try { if (src) p.parse(txt,true); else p.parse(dir+"/f0.raw"); } catch (std::exception &e) { fail(S("exception: ")+e.what()); }
      for (int id=0;id<12;id++) { std::vector<double> t,s; p.getImpedenceTable(id,t,s); auto it=w.imp.find(id); size_t n=it==w.imp.end()?0:it->second.size(); bool ok=t.size()==n&&s.size()==n; for (size_t k=0;ok&&k<n;k++) ok=std::fabs(t[k]-it->second[k].first)<1e-9&&std::fabs(s[k]-it->second[k].second)<1e-9; VM_CHECK(ok,"impedance table "<<id<<" has "<<t.size()<<" entries, should have "<<n<<" "<<show(t)); } };
    if (!src) hbarrier();
    if (F.v==33) { gridpack::parser::PTI33_parser<Net> p(net); go(p); } else if (F.v==34) { gridpack::parser::PTI34_parser<Net> p(net); go(p); } else { gridpack::parser::PTI35_parser<Net> p(net); go(p); }
    if (!src) hbarrier();
    std::string d; int nb=net->numBuses(),nl=net->numBranches(); VM_CHECK(nb==(me?0:(int)w.bus.size()),nb<<" buses, should be "<<w.bus.size()); VM_CHECK(nl==(me?0:(int)w.branch.size()),nl<<" branches, should be "<<w.branch.size());
    for (int i=0;i<nb;i++) { d=diff(w.bus[i],observe(*net->getBusData(i))); VM_CHECK(d.empty(),"bus "<<i<<": "<<d); VM_CHECK(net->getGlobalBusIndex(i)==i,"global bus index"); VM_CHECK(std::to_string(net->getOriginalBusIndex(i))==w.bus[i]["i BUS_NUMBER"],"original bus index"); }
    for (int i=0;i<nl;i++) { d=diff(w.branch[i],observe(*net->getBranchData(i))); VM_CHECK(d.empty(),"branch "<<i<<": "<<d); VM_CHECK(net->getGlobalBranchIndex(i)==i,"global branch index"); int a,b; net->getOriginalBranchEndpoints(i,&a,&b); VM_CHECK(std::to_string(a)==w.branch[i]["i BRANCH_FROMBUS"]&&std::to_string(b)==w.branch[i]["i BRANCH_TOBUS"],"branch end points "<<a<<" "<<b); }
    M g; DC &n=*net->getNetworkData(); int a; double x; S s; for (int i=-1;i<5;i++) for (auto &c:AREA) { if (c.t=='i'&&(i<0?n.getValue(c.n,&a):n.getValue(c.n,&a,i))) put(g,'i',c.n,i,std::to_string(a)); if (c.t=='d'&&(i<0?n.getValue(c.n,&x):n.getValue(c.n,&x,i))) put(g,'d',c.n,i,num(x)); if (c.t=='q'&&(i<0?n.getValue(c.n,&s):n.getValue(c.n,&s,i))) put(g,'s',c.n,i,unq(s)); }
    if (n.getValue("AREA_TOTAL",&a)) put(g,'i',"AREA_TOTAL",-1,std::to_string(a)); if (n.getValue("CASE_ID",&a)) put(g,'i',"CASE_ID",-1,std::to_string(a)); if (n.getValue("CASE_SBASE",&x)) put(g,'d',"CASE_SBASE",-1,num(x)); d=diff(w.net,g); VM_CHECK(d.empty(),"network data: "<<d);
    if (me==0) count_sub(1,cm->size()>1); }
  static S pos(const std::vector<int> &d) { std::ostringstream o; o<<show(d); return o.str(); }
  // element kinds for sequences
  static void addelem(File &F,int k,int u) { int v=F.v; auto B=[&](int i) { return std::to_string(BNO[i]); }; switch (k) { case 0: F.r[BBR].push_back(branch(v,B(0),B(1),0,0,u)); break; case 1: F.r[BBR].push_back(branch(v,B(1),B(0),1,0,u)); break; case 2: F.r[BBR].push_back(branch(v,B(2),B(3),2,0,u)); break; case 3: F.r[BBR].push_back(branch(v,B(0),"-"+B(1),3,0,u)); break; case 4: F.r[BBR].push_back(branch(v,"'ALPHA'","'BETA/2         138.50'",0,0,u)); break;
    case 5: F.r[BXF].push_back(xf2(v,B(0),B(1),0,1,1,"100.0",u)); break; case 6: F.r[BXF].push_back(xf2(v,B(1),B(0),2,1,2,"50.0",u)); break; case 7: F.r[BXF].push_back(xf2(v,B(3),B(2),1,2,1,"0.0",u)); break; case 8: F.r[BXF].push_back(xf2(v,B(1),B(2),0,1,1,"100.0",u,2)); break; case 9: F.r[BXF].push_back(xf3(v,B(0),B(1),B(2),1,1,1,{"100.0","100.0","100.0"},u)); break; case 10: F.r[BXF].push_back(xf3(v,B(2),B(0),B(3),u%5,1,1,{"100","100","100"},u)); break; case 11: F.r[BXF].push_back(xf3(v,B(2),B(3),B(1),0,1,1,{"100","100","100"},u)); break; case 12: F.r[BXF].push_back(xf2(v,"'C'","'DELTA 4'",3,1,1,"100.0",u)); break; case 13: F.r[BXF].push_back(xf3(v,"'ALPHA'","'C'",B(3),2,2,2,{"50","200","100"},u)); break; } }
  static File rich(int v,int k) { File F=base(v); for (int q=0;q<3;q++) { F.r[BLOAD].push_back(busdata(v,BLOAD,(k+q*q)%4,q,0,200+20*q)); F.r[BSHUNT].push_back(busdata(v,BSHUNT,(k*2+q/2)%4,q,0,300+20*q)); F.r[BGEN].push_back(busdata(v,BGEN,q%2*5,q+1,0,400+40*q)); } int es[]={0,1,2,4,5,6,7,9,8,10}; for (int e:es) addelem(F,e,30+7*e+k); if (v!=34) F.r[BSW].push_back(busdata(v,BSW,1,0,0,700)); F.r[BAREA].push_back({BAREA,{fields(AREA,10+k)}}); F.r[BAREA].push_back({BAREA,{fields(AREA,60+k)}}); if (v==33) { F.r[BIMP].push_back({BIMP,{{"3","-30.0","1.1","0.0","1.0","30.0","1.15"}}}); F.r[BIMP].push_back({BIMP,{{"1","0.6","1.06","0.7","1.05"}}}); } F.r[BMS].push_back({BMS,{{"33","20500","'&1'","1","7"}}}); return F; }
  void data(int v,int b,int first,int n) { // sequences of records of one block: bus x tag, then short ones
    int K=9*5; int cuts[]={0,0,1,2,4}; for (int len=1;len<=n;len++) { std::vector<int> bs(len,K); bs[0]=5; Odo o(bs); do { bool ok=true; if (len==3) { int m=0; for (int q=1;q<3;q++) { if (o.d[q]%5>2) ok=false; if (o.d[q]/5==3||o.d[q]/5>7) ok=false; m+=o.d[q]%5; } if (m>2) ok=false; } if (!ok) continue; File F=base(v); for (int q=0;q<len;q++) { int x=q?o.d[q]:first*5+o.d[0]; int cut=cuts[x%5]; if (b==BGEN&&cut==1) cut=2; F.r[b].push_back(busdata(v,b,x/5,(x+q)%5,cut,100*(q+1)+x)); }
      if (b==BSW) { std::set<S> seen; bool dup=false; for (auto &r:F.r[b]) { S s=r.f[0][0]; if (s=="'ALPHA'"||s=="-101") s="101"; if (s[1]=='B') s="7"; if (!seen.insert(s).second) dup=true; } if (dup) continue; }
      one(F,Style(),runs%2,"records "+pos(o.d)); } while (o.next()); } }
  void elems(int v,int first,int n) { for (int len=1;len<=n+1;len++) { std::vector<int> bs(len,14); bs[0]=1; Odo o(bs); do { bool ok=true; if (len==n+1) for (int q=1;q<len;q++) if (len>3?(o.d[q]==3||o.d[q]==11||o.d[q]==12):false) ok=false; if (!ok) continue; for (int rep=0;rep<1;rep++) { File F=base(v); for (int q=0;q<len;q++) addelem(F,q?o.d[q]:first,40*q+5+(q?o.d[q]:first)); one(F,Style(),runs%2,"elements "+std::to_string(first)+" "+pos(o.d)); } } while (o.next()); } }
  void lines(int v,int k) { File F=rich(v,k); int n; render(F,Style(),&n); Style s; if (k<5) for (int p=0;p<n;p++) { s=Style(); s.comment=p; s.ckind=k; one(F,s,p%2,"comment at line "+std::to_string(p)); } for (int p=0;p<n&&k==5;p++) { s=Style(); s.trail=p; one(F,s,p%2,"text after a slash in line "+std::to_string(p)); } if (k==6) for (int t=0;t<7;t++) for (int sep=0;sep<3;sep++) for (int cr=0;cr<2;cr++) { s=Style(); s.term=t; s.sep=sep; s.crlf=cr; one(F,s,t%2,"terminator "+std::to_string(t)+" separator "+std::to_string(sep)+" "+std::to_string(cr)); } }
  // every field of the record left blank
  template<class G> void eachrec(int v,int k,G g) { File F=rich(v,0); static const int bl[]={BBUS,BLOAD,BSHUNT,BGEN,BBR,BXF,BAREA,BSW}; int b=bl[k]; if (F.r[b].empty()) return; for (size_t r=0;r<F.r[b].size();r++) for (size_t l=0;l<F.r[b][r].f.size();l++) g(F,b,r,l); }
  static bool isnum(const S &s) { return s.find_first_not_of("0123456789.-+e")==S::npos; }
  void blank(int v,int k) { eachrec(v,k,[&](const File &F0,int b,int r,int l) { const L &f0=F0.r[b][r].f[l]; int keys=b==BXF?(l==0?6:0):b==BBR?2:b==BBUS?1:1; for (int c=keys;c<(int)f0.size();c++) for (int z=0;z<2;z++) { if (!isnum(f0[c])) continue; if ((b==BXF&&((l>=2&&c<2)||(l==0&&c==11)))||(b==BBUS&&c==2)) continue; if (b==BGEN) { std::vector<Col> g=gencols(v); if (g[c].t=='o'||g[c].t=='f') continue; } if (b==BLOAD||b==BSHUNT||b==BGEN) if (c==1) continue; if (b==BBR&&c==2) continue; File F=F0; S was=f0[c]; F.r[b][r].f[l][c]="0"; File G=F; G.r[b][r].f[l][c]=z?"   ":""; one(F,Style(),runs%2,"blank column "+std::to_string(c)+" of record "+std::to_string(r)+" line "+std::to_string(l),&G); } }); }
  void cut(int v,int k) { eachrec(v,k,[&](const File &F0,int b,int r,int l) { const L &f0=F0.r[b][r].f[l]; int min=b==BBUS?7:b==BGEN?2:b==BBR?3:b==BXF?(l==0?12:l==1?(F0.r[b][r].f.size()==5?9:3):l==2?(v==33?16:21):2):b==BAREA?1:b==BSW?1:1; if (b==BXF&&F0.r[b][r].f.size()==5&&l>=2) min=v==33?6:15; for (int c=min;c<(int)f0.size();c++) { File F=F0; F.r[b][r].f[l].resize(c); one(F,Style(),c%2,"record "+std::to_string(r)+" line "+std::to_string(l)+" has only "+std::to_string(c)+" fields"); } }); }
  void xf(int v,int k) { static const char *sb[]={"100.0","50.0","250","0.0"}; auto B=[&](int i) { return std::to_string(BNO[i]); };
    if (k==0) { for (int cw=1;cw<=2;cw++) for (int cz=1;cz<=2;cz++) for (auto s:sb) for (int u=1;u<=6;u++) for (double base_:{100.,10.}) { File F=base(v); F.sbase=base_; F.r[BXF].push_back(xf2(v,B(0),B(1),0,cw,cz,s,u)); one(F,Style(),u%2,"two windings cw "+std::to_string(cw)+" cz "+std::to_string(cz)+" base "+s+" "+std::to_string(u)); } return; }
    for (int cw=1;cw<=2;cw++) for (int cz=1;cz<=2;cz++) for (int st=0;st<=4;st++) for (int a=0;a<4;a++) for (int b=0;b<4;b++) for (int c=0;c<4;c++) { if ((a+b+c+st)%2) continue; File F=base(v); F.r[BXF].push_back(xf3(v,B(2),B(0),B(1),st,cw,cz,{sb[a],sb[b],sb[c]},a+b+7)); F.r[BXF].push_back(xf2(v,B(0),B(3),0,1,1,"100.0",9)); one(F,Style(),st%2,"three windings cw "+std::to_string(cw)+" cz "+std::to_string(cz)+" status "+std::to_string(st)+" bases "+sb[a]+" "+sb[b]+" "+sb[c]); } }
  void area(int v) { for (int n=0;n<=4;n++) { File F=base(v); for (int k=0;k<n;k++) F.r[BAREA].push_back({BAREA,{fields(AREA,20*k+3)}}); one(F,Style(),n%2,std::to_string(n)+" areas"); } }
  void imp() { Odo o({4,4,4}); do { File F=base(33); for (int k=0;k<3;k++) if (o.d[k]) { L f={std::to_string(k==2?o.d[1]+5:7-k)}; for (int q=0;q<(o.d[k]==3?11:o.d[k]-1);q++) { f.push_back(num(q+k*.1-3)); f.push_back(num(1+q*.01)); } F.r[BIMP].push_back({BIMP,{f}}); } one(F,Style(),runs%2,"tables "+o.str()); } while (o.next()); }
  void msec(int v) { Odo o({5,5}); do { File F=base(v); addelem(F,0,3); addelem(F,2,60); static const char *p[][2]={{"101","7"},{"7","-101"},{"33","20500"},{"101","33"},{"'C'","'DELTA 4'"}}; bool same=false; if ((o.d[0]<2&&o.d[1]<2)||((o.d[0]==2||o.d[0]==4)&&(o.d[1]==2||o.d[1]==4))) same=true; for (int k=0;k<(same?1:2);k++) { L f={p[o.d[k]][0],p[o.d[k]][1],k?"'&2'":"&1","1"}; for (int q=0;q<(k?9:o.d[1]);q++) f.push_back(std::to_string(50+q)); F.r[BMS].push_back({BMS,{f}}); } one(F,Style(),runs%2,"sections "+o.str()); } while (o.next()); }
  void names(int k) { static const char *nm[]={"'            '","'A'","'A           '","''","\"DOUBLE Q\"","PLAIN","'A,B'","'X/Y 12345678'","'1'","'TWELVE CHARS'","'0/1'","'it is, no. 2'","'// slashes'"}; for (int i=0;i<13;i++) for (int j=0;j<3;j++) { File F=base(33); F.r[BBUS][k%4].f[0][1]=nm[i]; if (j) F.r[BLOAD].push_back(busdata(33,BLOAD,k%4,j,0,50)); F.r[BLOAD].push_back(busdata(33,BLOAD,(k+1)%4,0,0,90)); if (j==2&&i!=0&&i!=3&&nm[i][0]=='\'') { Rec r=busdata(33,BGEN,0,0,0,60); r.f[0][0]=nm[i]; F.r[BGEN].push_back(r); } one(F,Style(),j%2,S("name ")+nm[i]); } }
  void rank_main(const Case &c,int rank,int np) override { par_begin(); { voc(); runs=0; cm.reset(new Communicator); char t[]="/tmp/vmrawXXXXXX"; if (rank==0) { if (!mkdtemp(t)) fail("no scratch directory"); dir=t; } dir=hgather(dir)[0]; hbarrier(); int v=c.geti("v"),k=c.geti("k"),x=c.geti("x"),n=c.geti("n"); S w=c.gets("w");
      if (w=="data") data(v,k,x,n); else if (w=="elem") elems(v,k,n); else if (w=="lines") lines(v,k); else if (w=="blank") blank(v,k); else if (w=="cut") cut(v,k); else if (w=="xf") xf(v,k); else if (w=="area") area(v); else if (w=="imp") imp(); else if (w=="msec") msec(v); else if (w=="name") names(k);
      else for (int s=0;s<2;s++) one(rich(v,k),Style(),s,s?"lines":"file"); record("ok"); hbarrier(); if (rank==0) { unlink((dir+"/f0.raw").c_str()); rmdir(dir.c_str()); } cm.reset(); } par_end(); }
};
#ifndef RAWPARSE_PARTS
Harness *vm::make_harness() { return new RP; }
#endif
