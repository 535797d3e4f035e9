// Values addressed to buses and branches by original index, and tables of bus values
// from files: every process gets exactly the values of the copies it holds.
#include "netkit.hpp"
#include "parstub.hpp"
#include "gridpack/parser/bus_table.hpp"
#include <fstream>
#include <unistd.h>
using namespace nk; using hu::show;
NETKIT_EXPORT
using gridpack::parallel::Communicator;
typedef std::string S; typedef std::vector<S> L;
struct BV { int id; double x; char c[5]; };
struct LV { char t[3]; double y; int id; };
static BV bv(int id,int j=0) { BV b; memset(&b,0,sizeof(b)); b.id=id*100+j; b.x=0.5*id+j; snprintf(b.c,5,"%d",id+7*j); return b; }
static LV lv(int id,int j=0) { LV b; memset(&b,0,sizeof(b)); b.id=id*100+j; b.y=-1.5*id-j; snprintf(b.t,3,"%d",(id+3*j)%100); return b; }
static S show(const std::multiset<S> &m) { S s="{"; for (auto &x:m) s+=x+"; "; return s+"}"; }
static S sh(const BV &b) { std::ostringstream o; o<<b.id<<"/"<<b.x<<"/"<<b.c; return o.str(); }
static S sh(const LV &b) { std::ostringstream o; o<<b.id<<"/"<<b.y<<"/"<<b.t; return o.str(); }
struct HD : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](const char *w,int np,const char *g,const S &as,int n,int comm=0,Explore ex=DEFAULT_SCHED,int b=0,int pm=1) { Case c; c.np=np; c.explore=ex; c.bound=b; c.put_mode=pm; c.set("w",w).set("g",g).set("as",as).set("n",n).set("comm",comm); emit(c); };
    for (const char *w:{"bus","busv","br","brv"}) { add(w,1,"3:0-1,1-2,2-0","0,0,0",3);
      for (const char *g:{"3:0-1,1-2,2-0","3:0-1,1-0,0-1,1-2"}) { for (int m=0;m<8;m++) { S as=std::to_string(m&1)+","+std::to_string(m>>1&1)+","+std::to_string(m>>2&1); add(w,2,g,as,th?3:2,0,DEFAULT_SCHED,0,m&1); }
        for (const char *as:{"0,1,2","2,0,1","0,2,2","1,1,1"}) add(w,3,g,as,2); if (th) add(w,4,"5:0-1,1-2,2-3,3-4,4-0","0,1,2,3,0",2); }
      for (int comm=1;comm<=3;comm++) add(w,3,"3:0-1,1-2,2-0",comm==3?"0,0,0":"all",2,comm);
      for (int pm=0;pm<2;pm++) for (const char *as:{"0,1,0","1,0,0"}) add(w,2,"3:0-1,1-2,2-0",as,-1,0,PREEMPT_BOUND,th?3:2,pm); }
    for (int np=1;np<=3;np++) for (int k=0;k<4;k++) add("tab",np,"4:0-1,1-2,2-0,2-3",np==1?"0,0,0,0":np==2?"0,1,1,0":"2,0,1,0",k);
    for (int k=0;k<4;k++) add("hist",1+k%3,"3:0-1,1-2,2-0",k%3==0?"0,0,0":k%3==1?"0,1,1":"2,0,1",th?3:2);
    add("tab",2,"3:0-1,1-2,2-0","0,1,0",9,0,PREEMPT_BOUND,1,0); }
  typedef gridpack::hash_distr::HashDistribution<TNet,BV,LV> HDist; typedef gridpack::bus_table::BusTable<TNet> BT;
  S dir; long runs;
  // ---- distribution: item i has a key (an index of keys) and a source process
  void busrun(HDist &h,TNet &net,const Graph &g,int me,bool vec,const std::vector<int> &key,const std::vector<int> &src,int nv) { runs++; int K=g.n;
    auto okey=[&](int k) { return k<K?orig(k):k==K?555:-3; }; std::vector<int> keys; std::vector<BV> v; std::vector<BV*> vp;
    for (size_t i=0;i<key.size();i++) if (src[i]==me) { keys.push_back(okey(key[i])); if (vec) { BV *p=new BV[nv]; for (int j=0;j<nv;j++) p[j]=bv(i,j); vp.push_back(p); } else v.push_back(bv(i)); }
    std::multiset<S> want,got; for (size_t i=0;i<key.size();i++) for (int l=0;l<net.numBuses();l++) if (net.getOriginalBusIndex(l)==okey(key[i])) for (int j=0;j<nv;j++) want.insert(std::to_string(l)+":"+std::to_string(j)+":"+sh(bv(i,vec?j:0)));
    if (vec) h.distributeBusValues(keys,vp,nv); else h.distributeBusValues(keys,v);
    size_t n=vec?vp.size():v.size(); VM_CHECK(keys.size()==n,"keys "<<key.size()<<" and values "<<n<<" differ in length");
    for (size_t i=0;i<n;i++) { for (int j=0;j<nv;j++) got.insert(std::to_string(keys[i])+":"+std::to_string(j)+":"+sh(vec?vp[i][j]:v[i])); if (vec) delete [] vp[i]; }
    if (got!=want) fail((std::ostringstream()<<"bus values "<<show(key)<<" sent by "<<show(src)<<": process "<<me<<" received "<<show(got)<<" instead of "<<show(want)).str()); }
  void brrun(HDist &h,TNet &net,const Graph &g,int me,bool vec,const std::vector<int> &key,const std::vector<int> &src,int nv) { runs++; int K=g.e.size();
    auto okey=[&](int k) { if (k<K) return std::make_pair(orig(g.e[k].first),orig(g.e[k].second)); if (k==K) return std::make_pair(orig(g.e[K-1].second),orig(g.e[K-1].first)); return std::make_pair(orig(0),555); };
    std::vector<std::pair<int,int> > keys; std::vector<int> ids(me,3); std::vector<LV> v; std::vector<LV*> vp;
    for (size_t i=0;i<key.size();i++) if (src[i]==me) { keys.push_back(okey(key[i])); if (vec) { LV *p=new LV[nv]; for (int j=0;j<nv;j++) p[j]=lv(i,j); vp.push_back(p); } else v.push_back(lv(i)); }
    std::multiset<S> want,got; for (size_t i=0;i<key.size();i++) for (int l=0;l<net.numBranches();l++) { std::pair<int,int> e; net.getOriginalBranchEndpoints(l,&e.first,&e.second); if (e==okey(key[i])) for (int j=0;j<nv;j++) want.insert(std::to_string(l)+":"+std::to_string(j)+":"+sh(lv(i,vec?j:0))); }
    if (vec) h.distributeBranchValues(keys,ids,vp,nv); else h.distributeBranchValues(keys,ids,v);
    size_t n=vec?vp.size():v.size(); VM_CHECK(ids.size()==n,ids.size()<<" branch indices for "<<n<<" values; "<<key.size()<<" values were sent");
    for (size_t i=0;i<n;i++) { for (int j=0;j<nv;j++) got.insert(std::to_string(ids[i])+":"+std::to_string(j)+":"+sh(vec?vp[i][j]:v[i])); if (vec) delete [] vp[i]; }
    if (got!=want) fail((std::ostringstream()<<"branch values "<<show(key)<<" sent by "<<show(src)<<": process "<<me<<" received "<<show(got)<<" instead of "<<show(want)).str()); }
  void distribute(const Case &c,const S &w,boost::shared_ptr<TNet> p,const Graph &g,Communicator &cm) { TNet &net=*p; int me=cm.rank(),np=cm.size(),n=c.geti("n"); bool vec=w.back()=='v',bus=w[1]=='u'; HDist h(p);
    int K=(bus?g.n:g.e.size())+2; auto go=[&](HDist &q,const std::vector<int> &k,const std::vector<int> &s,int nv) { if (bus) busrun(q,net,g,me,vec,k,s,vec?nv:1); else brrun(q,net,g,me,vec,k,s,vec?nv:1); };
    if (n<0) { go(h,{0,1,2,1},{0,1,1,0},2); go(h,{2,0},{1,1},1); return; }
    for (int len=0;len<=n;len++) { std::vector<int> lim(2*len); for (int i=0;i<len;i++) { lim[i]=K; lim[len+i]=np; } Odo o(lim); int q=0; do { std::vector<int> k(o.d.begin(),o.d.begin()+len),s(o.d.begin()+len,o.d.end()); go(h,k,s,1+q++%3); } while (o.next()); }
    // many values, also from an object of its own each time
    for (int m:{4,5,7,11}) for (int st=0;st<4;st++) { std::vector<int> k,s; for (int i=0;i<m;i++) { k.push_back((i*(st+1))%K); s.push_back(st==0?0:st==1?np-1:st==2?i%np:(i*i)%np); } HDist h2(p); go(h2,k,s,2); go(h,k,s,3); } }
  // ---- tables
  struct Row { int bus; S tag; std::vector<double> v; };
  struct Tab { S text; L hdr; std::vector<Row> rows; int nv; };
  static S num(double x) { std::ostringstream o; o<<x; return o.str(); }
  Tab table(int nh,int nr,int nv,int style,int g) { Tab t; t.nv=nv; S nl=style==5?"\r\n":"\n",sep=style==1?"   ":style==2?"\t":style==6?" \t ":" "; static const char *TAG[]={"BL","1","'2 '","x1","\" 3\""}; static const char *CLEAN[]={"BL","1 ","2 ","x1","3 "};
    for (int i=0;i<nh;i++) { S h=i%3==0?"names of columns":i%3==1?"x":"0.5 1 #"; t.hdr.push_back(h); t.text+=(i%2?"#":"#  ")+h+(i==1?"  ":"")+nl; }
    for (int i=0;i<nr;i++) { Row r; int b=(i*3+nr)%(g+1); r.bus=b<g?orig(b):777; int tg=i%5; if (style==3&&tg!=2&&tg!=4) tg=2; if (style!=3&&style!=4&&(tg==2||tg==4)) tg=3; r.tag=CLEAN[tg]; t.text+=(style==1?"   ":style==2?"\t":"")+std::to_string(r.bus)+sep+TAG[tg];
      for (int j=0;j<nv;j++) { double x=i*1.25+j*100-(i==1?1e5:0); r.v.push_back(x); t.text+=sep+num(x); } t.rows.push_back(r); if (style==1||style==6) t.text+="  "; if (!(style==7&&i==nr-1)) t.text+=nl; if (style==8&&i%2==0) t.text+=nl; if (style==9&&i%2==0) t.text+="# remark"+nl; if (style==10&&i==nr-1) t.text+=nl+"  "+nl; }
    return t; }
  void put(const S &f,const S &text,int me,Communicator &cm) { if (me==0) { std::ofstream o(f.c_str(),std::ios::binary); o<<text; } cm.sync(); }
  void look(BT &b,TNet &net,const Tab &t,const S &what) { int me=net.processor_rank(); std::vector<int> idx; L tags,hd; b.getLocalIndices(idx); b.getTags(tags); b.getHeaders(hd); VM_CHECK(b.getNumColumns()==t.nv,what<<": "<<b.getNumColumns()<<" columns instead of "<<t.nv); VM_CHECK(hd==t.hdr,what<<": headers on process "<<me<<" are "<<show(hd)<<" instead of "<<show(t.hdr));
    VM_CHECK(idx.size()==tags.size(),what<<": lists differ in length"); std::multiset<S> want,got; for (auto &r:t.rows) for (int l=0;l<net.numBuses();l++) if (net.getOriginalBusIndex(l)==r.bus) { S s=std::to_string(l)+" "+r.tag; for (double x:r.v) s+=" "+num(x); want.insert(s); }
    L rows(idx.size()); for (size_t i=0;i<idx.size();i++) rows[i]=std::to_string(idx[i])+" "+tags[i]; for (int j=0;j<t.nv;j++) { std::vector<double> v(1,99); b.getValues(j,v); VM_CHECK(v.size()==idx.size(),what<<": column "<<j<<" has "<<v.size()<<" values for "<<idx.size()<<" rows"); for (size_t i=0;i<v.size();i++) rows[i]+=" "+num(v[i]); }
    for (auto &r:rows) got.insert(r); if (got!=want) fail((std::ostringstream()<<what<<": process "<<me<<" has "<<show(got)<<" instead of "<<show(want)).str()); runs++; }
  bool read(BT &b,const Tab &t,Communicator &cm,int me) { S f=dir+"/t.dat"; put(f,t.text,me,cm); bool r=b.readTable(f); cm.sync(); return r; }
  void tables(const Case &c,boost::shared_ptr<TNet> p,const Graph &g,Communicator &cm) { int me=cm.rank(),k=c.geti("n"); if (k==9) { BT b(p); Tab t=table(1,3,2,0,g.n); VM_CHECK(read(b,t,cm,me),"table not read"); look(b,*p,t,t.text); return; }
    for (int nr=1;nr<=22;nr+=(nr==3?5:nr==12?6:1)) for (int nh=0;nh<4;nh++) for (int style=0;style<=10;style++) { int nv=1+k%3; if ((nr+nh+style)%4!=k&&nr>3) continue; BT b(p); Tab t=table(nh,nr,nv,style,g.n); bool r=read(b,t,cm,me); VM_CHECK(r,"table not read: "<<t.text); look(b,*p,t,t.text); } }
  // sequences of reading files with one table object
  void history(int n,boost::shared_ptr<TNet> p,const Graph &g,Communicator &cm) { int me=cm.rank(); std::vector<int> lim(n,7); Odo o(lim); do { BT b(p); for (size_t i=0;i<o.d.size();i++) { int k=o.d[i]; S what="files "+show(std::vector<int>(o.d.begin(),o.d.begin()+i+1));
        if (k==0) { S f=dir+"/none.dat"; VM_CHECK(!b.readTable(f),what<<": a missing file was read"); runs++; }
        else if (k==1) { Tab t; t.text=""; t.nv=0; VM_CHECK(!read(b,t,cm,me),what<<": an empty file was read"); runs++; }
        else if (k==2) { Tab t; t.text="# only a header\n"; t.nv=0; VM_CHECK(!read(b,t,cm,me),what<<": a file without rows was read"); runs++; }
        else if (k==3) { Tab t; t.text="17 BL\n4 1\n"; t.nv=0; VM_CHECK(!read(b,t,cm,me),what<<": a file without values was read"); runs++; }
        else { Tab t=table(k-4,k==4?2:k==5?11:1,k==6?3:2,0,g.n); VM_CHECK(read(b,t,cm,me),what<<": file not read"); look(b,*p,t,what); } } } while (o.next()); }
  void rank_main(const Case &c,int rank,int np) override { (void)np; par_begin(); runs=0; { Communicator world; int cc=c.geti("comm"); Communicator cm=cc==1?world.split(rank==1):cc==2?world.split(rank>0):cc==3?world.split(rank):world; Graph g=graph(c.gets("g")); S w=c.gets("w");
      char t[]="/tmp/vmhdXXXXXX"; if (cm.rank()==0) { if (!mkdtemp(t)) fail("no scratch directory"); dir=t; } L all=hgather(std::to_string(cm.rank()==0)+dir); (void)all; { std::vector<S> v; boost::mpi::all_gather(cm.getCommunicator(),dir,v); dir=v[0]; }
      std::vector<int> as; if (c.gets("as")=="all") for (int i=0;i<g.n;i++) as.push_back(i%cm.size()); else as=ints(c.gets("as"));
      { boost::shared_ptr<TNet> p(new TNet(cm)); build(*p,g,1,2); g_assign=vertex_order(*p,as); p->partition(); if (w=="tab") tables(c,p,g,cm); else if (w=="hist") history(c.geti("n"),p,g,cm); else distribute(c,w,p,g,cm); }
      if (cm.rank()==0&&dir.compare(0,9,"/tmp/vmhd")==0) { for (const char *f:{"/t.dat"}) unlink((dir+f).c_str()); rmdir(dir.c_str()); } }
    count_sub(runs); label(std::to_string(runs)); par_end(); }
};
Harness *vm::make_harness() { return new HD; }
