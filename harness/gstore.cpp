// USES: parallel timer
// Global store / global vector: what any process reads is what was uploaded.
#include <mpi.h>
#include <ga.h>
#include <cstring>
#include <cstdio>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/parallel/global_store.hpp"
#include "gridpack/parallel/global_vector.hpp"
#include "util.hpp"
using namespace vm;
using namespace hu;
using namespace gridpack::parallel;

struct Rec3 { int a; double b; char c[5]; };
template<class T> T mkv(int i,int k);
template<> int mkv<int>(int i,int k) { return 1000*i+k+1; }
template<> double mkv<double>(int i,int k) { return 0.5*(i+1)+100.0*k; }
template<> Rec3 mkv<Rec3>(int i,int k) { Rec3 r; memset(&r,0,sizeof(r)); r.a=i*7+k; r.b=-1.25*i+k; snprintf(r.c,5,"%d%d",i%10,k%10); return r; }
template<class T> std::string sh(const T &v) { std::ostringstream o; o<<v; return o.str(); }
template<> std::string sh<Rec3>(const Rec3 &v) { std::ostringstream o; o<<v.a<<"/"<<v.b<<"/"<<std::string(v.c,strnlen(v.c,5)); return o.str(); }
template<class T> T zero() { T t; memset((void*)&t,0,sizeof(T)); return t; }

static const int SIDX[3]={0,1,3};           // store indices; 2 is a hole
static const int SLEN[3]={0,1,3};
static const int VIDX[4]={0,1,2,4};         // vector indices; 3 is a hole

struct GS : Harness {
  void enumerate(const std::string &tier, std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,Explore ex,int b,int pm,const char *what,const char *ty,int comm,const std::string &place,bool vmonly=false) {
      Case c; c.np=np; c.explore=ex; c.bound=b; c.put_mode=pm; c.set("w",what).set("ty",ty).set("comm",comm).set("place",place); if (vmonly) c.set("vmonly",1); emit(c); };
    for (int np=1;np<=3;np++) for (int pm=0;pm<2;pm++) for (const char *ty:{"int","rec","dbl"}) {
      if (np==3 && ty[0]=='d') continue;
      add(np,DEFAULT_SCHED,0,pm,"store",ty,0,"all"); add(np,DEFAULT_SCHED,0,pm,"vector",ty,0,"all"); }
    add(4,DEFAULT_SCHED,0,1,"vector","rec",0,"all");
    // every schedule (up to the bound): place lists the owner (0 absent) of each index
    for (const char *p:{"1,2,0,2","2,1,1,1","2,2,2,2","0,0,0,1","1,2,1,2"}) for (int pm=0;pm<2;pm++) {
      add(2,PREEMPT_BOUND,th?4:(p[0]=='2'&&p[2]=='1'?3:2),pm,"vector","int",0,p); }
    for (const char *p:{"1,2,3,0","3,3,1,2","0,0,0,2"}) for (int pm=0;pm<2;pm++) add(3,PREEMPT_BOUND,th?3:(pm&&p[0]!='0'?2:1),pm,"vector","dbl",0,p);
    for (const char *p:{"1,2,5","6,0,4","2,3,2"}) for (int pm=0;pm<2;pm++) add(2,PREEMPT_BOUND,th?4:2,pm,"store","rec",0,p);
    for (const char *p:{"4,5,6","7,9,2"}) for (int pm=0;pm<2;pm++) add(3,PREEMPT_BOUND,th?3:2,pm,"store","int",0,p);
    // a duplicated index is rejected under every schedule
    for (int np=2;np<=3;np++) for (int pm=0;pm<2;pm++) for (int d=0;d<4;d++) {
      add(np,PREEMPT_BOUND,2,pm,"vdup","int",0,std::to_string(d),true);
    }
    for (int np=1;np<=3;np++) for (int d=0;d<3;d++) add(np,DEFAULT_SCHED,0,0,"sdup","int",0,std::to_string(d));
    // sub-communicators
    for (int np=2;np<=4;np++) for (int col=0;col<(1<<np);col+=2) { add(np,DEFAULT_SCHED,0,1,"vector","rec",col+1,"1,1,2,1"); add(np,DEFAULT_SCHED,0,1,"store","int",col+1,"2,5,1"); }
  }
  template<class T> void store(Communicator &cm,const std::vector<int> &place,bool rec)
  {
    int me=cm.rank(), np=cm.size();
    // place[i]: 0 absent, else 1 + r + np*len
    std::map<int,std::vector<T> > ref; int maxi=0;
    {
      GlobalStore<T> st(cm);
      for (int order=0;order<3;order++) { int i=(me%2)?2-order:order;     // upload order differs between processes
        if (place[i]==0) continue; int r=(place[i]-1)%np, l=SLEN[(place[i]-1)/np];
        std::vector<T> v; for (int k=0;k<l;k++) v.push_back(mkv<T>(SIDX[i],k));
        if (r==me) st.addVector(SIDX[i],v); ref[SIDX[i]]=v; maxi=std::max(maxi,SIDX[i]); }
      st.upload();
      for (int pass=0;pass<2;pass++) for (int q=-1;q<=maxi+1;q++) {
        std::vector<T> got(2,mkv<T>(9,9)); bool thrown=false;
        try { st.getVector(q,got); } catch (const gridpack::Exception&) { thrown=true; }
        bool oor= q<0||q>maxi;
        VM_CHECK(thrown==oor,"request for index "<<q<<" of 0.."<<maxi<<(thrown?" was rejected":" was accepted"));
        if (oor) continue;
        std::string a,b; for (auto &x:got) a+=sh(x)+" "; for (auto &x:ref[q]) b+=sh(x)+" ";
        VM_CHECK(got.size()==ref[q].size() && a==b,"vector "<<q<<" read as ["<<a<<"] but was stored as ["<<b<<"]");
        if (rec) record(a);
      }
    }
  }
  template<class T> void vec(Communicator &cm,const std::vector<int> &place,bool rec)
  {
    int me=cm.rank(), np=cm.size();
    GlobalVector<T> gv(cm); std::vector<int> ix; std::vector<T> v; std::map<int,T> ref; int maxi=-1;
    for (int i=0;i<4;i++) { if (!place[i]) continue; int r=(place[i]-1)%np; T x=mkv<T>(VIDX[i],0); if (r==me) { ix.push_back(VIDX[i]); v.push_back(x); } ref[VIDX[i]]=x; maxi=std::max(maxi,VIDX[i]); }
    if (me%2) { std::reverse(ix.begin(),ix.end()); std::reverse(v.begin(),v.end()); }
    // two calls of addElements append
    if (ix.size()>1) { std::vector<int> i1(ix.begin(),ix.begin()+1),i2(ix.begin()+1,ix.end()); std::vector<T> v1(v.begin(),v.begin()+1),v2(v.begin()+1,v.end()); gv.addElements(i1,v1); gv.addElements(i2,v2); }
    else gv.addElements(ix,v);
    if (maxi<0) { bool t=false; try { gv.upload(); } catch (const gridpack::Exception&) { t=true; } VM_CHECK(t,"an empty vector was accepted"); return; }
    gv.upload();
    for (int round=0;round<2;round++) {
      auto val=[&](int i){ return ref.count(i)?ref[i]:zero<T>(); };
      std::vector<T> all; gv.getAllData(all);
      VM_CHECK((int)all.size()==maxi+1,"vector length "<<all.size()<<" instead of "<<maxi+1);
      for (int i=0;i<=maxi;i++) VM_CHECK(sh(all[i])==sh(val(i)),"round "<<round<<": element "<<i<<" of the whole vector is "<<sh(all[i])<<" instead of "<<sh(val(i)));
      static const int QS[4][4]={{0,0,0,0},{4,0,2,0},{1,1,3,4},{2,3,1,0}};
      std::vector<int> q; for (int k=0;k<4;k++) if (QS[(me+round)%4][k]<=maxi) q.push_back(QS[(me+round)%4][k]);
      std::vector<T> g(1,mkv<T>(8,8)); gv.getData(q,g); VM_CHECK(g.size()==q.size(),"getData returned "<<g.size()<<" values for "<<q.size()<<" indices");
      std::string rs; for (size_t k=0;k<q.size();k++) { VM_CHECK(sh(g[k])==sh(val(q[k])),"round "<<round<<": getData("<<q[k]<<") is "<<sh(g[k])<<" instead of "<<sh(val(q[k]))); rs+=sh(g[k])+" "; }
      if (rec) record(rs);
      bool thrown=false; std::vector<int> bad(1,me%2?-1:maxi+1); try { gv.getData(bad,g); } catch (const gridpack::Exception&) { thrown=true; }
      VM_CHECK(thrown,"index "<<bad[0]<<" outside of 0.."<<maxi<<" was accepted");
      if (round==1) break;
      // everybody has read the old values before new ones are written
      cm.sync();
      std::vector<int> rix; std::vector<T> rv;
      for (int i=0;i<=maxi;i++) { if (i%3==2) continue; T x=mkv<T>(i,5); if ((i+1)%np==me) { rix.push_back(i); rv.push_back(x); } ref[i]=x; }
      rix.push_back(maxi+1+me); rv.push_back(mkv<T>(7,7));     // beyond the end: ignored
      gv.resetElements(rix,rv); gv.reload();
    }
    cm.sync();
  }
  template<class T> void all(Communicator &cm,bool st,int rank)
  {
    int np=cm.size(); long n=0;
    Odo o(st?std::vector<int>(3,1+3*np):std::vector<int>(4,np+1));
    do { label("place="+o.str()); bool any=false; for (int x:o.d) if (x) any=true;
      if (st) store<T>(cm,o.d,n%97==3); else vec<T>(cm,o.d,n%97==3);
      if (rank==0) count_sub(1,any); n++; } while (o.next());
  }
  void rank_main(const Case &c, int rank, int np) override {
    par_begin();
    {
      Communicator world; int cc=c.geti("comm"); Communicator cm = cc ? world.split(((cc-1)>>rank)&1) : world;
      std::string w=c.gets("w"), ty=c.gets("ty"), pl=c.gets("place");
      if (w=="sdup") {
        GlobalStore<int> st(cm); std::vector<int> v(2,5); int d=atoi(pl.c_str());
        if (rank==0) { st.addVector(SIDX[d],v); st.addVector(SIDX[(d+1)%3],v); }
        if (rank==cm.size()-1) st.addVector(SIDX[d],std::vector<int>());
        bool thrown=false; try { st.upload(); } catch (const gridpack::Exception&) { thrown=true; }
        VM_CHECK(thrown,"two vectors for one index were accepted"); record("rejected");
      } else if (w=="vdup") {
        GlobalVector<int> gv(cm); int d=VIDX[atoi(pl.c_str())]; std::vector<int> ix,v; ix.push_back(d); v.push_back(rank);
        ix.push_back(5+rank); v.push_back(1); if (rank==1) { ix.push_back(8); v.push_back(3); }
        gv.addElements(ix,v);
        try { gv.upload(); } catch (const gridpack::Exception&) { accept(); }
        fail("two values for one index were accepted");
      } else if (pl=="all") {
        bool st=w=="store";
        if (ty=="int") all<int>(cm,st,rank); else if (ty=="dbl") all<double>(cm,st,rank); else all<Rec3>(cm,st,rank);
      } else {
        std::vector<int> p=ints(pl);
        if (w=="store") { if (cc) for (int &x:p) { if (x>3*cm.size()) x=1; } if (ty=="int") store<int>(cm,p,true); else store<Rec3>(cm,p,true); }
        else if (ty=="int") vec<int>(cm,p,true); else if (ty=="dbl") vec<double>(cm,p,true); else vec<Rec3>(cm,p,true);
      }
    }
    par_end();
  }
};
Harness *vm::make_harness() { return new GS; }
