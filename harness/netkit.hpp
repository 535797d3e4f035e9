// A small distributed network for the network / factory / mapper harnesses.
#ifndef NETKIT_HPP
#define NETKIT_HPP
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/component/base_component.hpp"
#include "gridpack/component/data_collection.hpp"
#include "gridpack/network/base_network.hpp"
#include "util.hpp"
#include <cstring>
namespace nk {
using namespace vm;
using namespace hu;
typedef gridpack::component::DataCollection DC;
typedef gridpack::ComplexType CT;

struct XBuf { int id; int round; double x; char c[3]; };

struct TBus : public gridpack::component::BaseBusComponent {
  int tag; std::string name; std::vector<double> v; XBuf own; XBuf *xp; int loads,mode,nmode,saves; bool ref;
  TBus() : tag(-1), xp(0), loads(0), mode(-1), nmode(0), saves(0), ref(false) { memset(&own,0,sizeof(own)); }
  int getXCBufSize() { return xcsize(); }
  static int &xcsize() { static int s=sizeof(XBuf); return s; }
  void setXCBuf(void *b) { xp=static_cast<XBuf*>(b); }
  void getXCBuf(void **b) { xp=&own; *b=&own; }
  void load(const boost::shared_ptr<DC> &d) { loads++; int n=-1; if (d->getValue("B_NUM",&n)) seen=n; bool r=false; if (d->getValue("B_REF",&r)&&r) setReferenceBus(true); }
  void setMode(int m) { mode=m; nmode++; }
  void saveData(boost::shared_ptr<DC> d) { saves++; d->addValue("SAVED",tag); }
  int seen=-1;
#ifdef NK_BUS
  NK_BUS
#endif
  template<class A> void serialize(A &ar,const unsigned) { ar & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this) & tag & name & v; }
};
struct TBranch : public gridpack::component::BaseBranchComponent {
  int tag; std::string name; XBuf own; XBuf *xp; int loads,mode,nmode,saves;
  TBranch() : tag(-1), xp(0), loads(0), mode(-1), nmode(0), saves(0) { memset(&own,0,sizeof(own)); }
  static int &xcsize() { static int s=sizeof(XBuf); return s; }
  int getXCBufSize() { return xcsize(); }
  void setXCBuf(void *b) { xp=static_cast<XBuf*>(b); }
  void getXCBuf(void **b) { xp=&own; *b=&own; }
  void load(const boost::shared_ptr<DC> &d) { loads++; int n=-1; if (d->getValue("L_ID",&n)) seen=n;  }
  void setMode(int m) { mode=m; nmode++; }
  void saveData(boost::shared_ptr<DC> d) { saves++; d->addValue("SAVED",tag); }
  int seen=-1;
#ifdef NK_BRANCH
  NK_BRANCH
#endif
  template<class A> void serialize(A &ar,const unsigned) { ar & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this) & tag & name; }
};
typedef gridpack::network::BaseNetwork<TBus,TBranch> TNet;
// another application's components
struct UBus : public gridpack::component::BaseBusComponent { int tag,loads,seen; std::string name; std::vector<double> v; double big[9]; UBus():tag(-9),loads(0),seen(-1) {} 
  void load(const boost::shared_ptr<DC> &d) { loads++; int n=-1; if (d->getValue("B_NUM",&n)) seen=n; }
  template<class A> void serialize(A &ar,const unsigned) { ar & boost::serialization::base_object<gridpack::component::BaseBusComponent>(*this) & tag & loads & seen; } };
struct UBranch : public gridpack::component::BaseBranchComponent { int tag; std::string name; UBranch():tag(-9) {}
  template<class A> void serialize(A &ar,const unsigned) { ar & boost::serialization::base_object<gridpack::component::BaseBranchComponent>(*this) & tag; } };
typedef gridpack::network::BaseNetwork<UBus,UBranch> UNet;

struct Graph { int n; std::vector<std::pair<int,int> > e;
  std::string str() const { std::ostringstream o; o<<n<<":"; for (auto &x:e) o<<x.first<<"-"<<x.second<<" "; return o.str(); } };
// "n:a-b,c-d"
inline Graph graph(const std::string &s) { Graph g; g.n=atoi(s.c_str()); size_t p=s.find(':'); std::istringstream i(s.substr(p+1)); std::string t; while (std::getline(i,t,',')) { int a,b; if (sscanf(t.c_str(),"%d-%d",&a,&b)==2) g.e.push_back(std::make_pair(a,b)); } return g; }
inline bool connected(int n,const std::vector<std::pair<int,int> > &e) { std::vector<int> c(n); for (int i=0;i<n;i++) c[i]=i; for (size_t k=0;k<e.size();k++) for (auto &x:e) { int m=std::min(c[x.first],c[x.second]); c[x.first]=c[x.second]=m; } for (int i=0;i<n;i++) if (c[i]!=0) return false; return true; }
// every labelled connected graph on n nodes; branch directions alternate
inline std::vector<std::string> connected_graphs(int n) {
  std::vector<std::pair<int,int> > all; for (int i=0;i<n;i++) for (int j=i+1;j<n;j++) all.push_back(std::make_pair(i,j));
  std::vector<std::string> r; for (int m=1;m<(1<<all.size());m++) { std::vector<std::pair<int,int> > e; std::ostringstream o; o<<n<<":"; bool f=true; for (size_t k=0;k<all.size();k++) if (m>>k&1) { e.push_back(all[k]); int a=all[k].first,b=all[k].second; if ((k+m)%3==1) std::swap(a,b); o<<(f?"":",")<<a<<"-"<<b; f=false; } if (connected(n,e)) r.push_back(o.str()); }
  return r; }

inline int orig(int g) { static const int O[]={17,4,1001,30,5,999,2,88,64,23}; return g<10?O[g]:2000+7*g; }
inline std::string bname(int g) { return std::string(g%4,'n')+std::to_string(g); }
// placement styles of n items over p processes
inline int place(int style,int i,int n,int p) { switch (style) { case 0: return 0; case 1: return i%p; case 2: return p-1-(i*p)/n; case 3: return p-1; case 4: return (i*7+3)%p; default: return i*p/n; } }

inline void add_bus(TNet &net,int g) {
  int l=net.numBuses(); net.addBus(orig(g)); net.setGlobalBusIndex(l,g); net.setActiveBus(l,true);
  TBus *b=net.getBus(l).get(); b->tag=500+g; b->name=bname(g); for (int i=0;i<g%3;i++) b->v.push_back(g+0.5*i);
  boost::shared_ptr<DC> d=net.getBusData(l); d->addValue("B_NUM",orig(g)); d->addValue("B_NAME",bname(g).c_str()); for (int i=0;i<g%3;i++) d->addValue("B_X",1.5*g+i,i); d->addValue("B_Z",CT(g,-g));
}
inline void add_branch(TNet &net,const Graph &g,int k) {
  int l=net.numBranches(); net.addBranch(orig(g.e[k].first),orig(g.e[k].second)); net.setGlobalBranchIndex(l,k); net.setActiveBranch(l,true);
  net.setGlobalBusIndex1(l,g.e[k].first); net.setGlobalBusIndex2(l,g.e[k].second);
  TBranch *b=net.getBranch(l).get(); b->tag=700+k; b->name="br"+bname(k);
  boost::shared_ptr<DC> d=net.getBranchData(l); d->addValue("L_ID",k); d->addValue("L_R",0.25*k); d->addValue("L_OK",k%2==0);
}
inline void build(TNet &net,const Graph &g,int bstyle,int lstyle) {
  int me=net.processor_rank(),np=net.processor_size();
  for (int i=0;i<g.n;i++) if (place(bstyle,i,g.n,np)==me) add_bus(net,i);
  for (size_t k=0;k<g.e.size();k++) if (place(lstyle,k,g.e.size(),np)==me) add_branch(net,g,k);
}
// mode 1: everything incl. original global indices, 2: indices may have changed,
// 3: component classes differ, only data and topology
template<class N> inline void payload(N &net,const Graph &g,int mode=1)
{ bool keep=mode==1;
  std::map<int,int> o2g; for (int i=0;i<g.n;i++) o2g[orig(i)]=i;
  for (int i=0;i<net.numBuses();i++) { int gi=keep?net.getGlobalBusIndex(i):o2g[net.getOriginalBusIndex(i)]; auto *b=net.getBus(i).get();
    VM_CHECK(gi>=0&&gi<g.n&&net.getOriginalBusIndex(i)==orig(gi),"bus with global index "<<gi<<" has original index "<<net.getOriginalBusIndex(i));
    std::vector<double> v; for (int k=0;k<gi%3;k++) v.push_back(gi+0.5*k);
    VM_CHECK(mode==3||b->tag==500+gi&&b->name==bname(gi)&&b->v==v,"component of bus "<<orig(gi)<<" lost its contents");
    boost::shared_ptr<DC> d=net.getBusData(i); int n; std::string s; double x; CT z; VM_CHECK(d->getValue("B_NUM",&n)&&n==orig(gi),"data of bus "<<orig(gi)<<" lost its number"); VM_CHECK(d->getValue("B_NAME",&s)&&s==bname(gi),"data of bus lost its name"); VM_CHECK(d->getValue("B_Z",&z)&&z==CT(gi,-gi),"data of bus lost its complex value");
    for (int k=0;k<gi%3;k++) VM_CHECK(d->getValue("B_X",&x,k)&&x==1.5*gi+k,"data of bus lost indexed value"); VM_CHECK(!d->getValue("B_X",&x,gi%3),"data of bus has a value that was never added"); }
  for (int i=0;i<net.numBranches();i++) { auto *b=net.getBranch(i).get(); int k=-1; if (keep) k=net.getGlobalBranchIndex(i); else net.getBranchData(i)->getValue("L_ID",&k); int a,c; net.getOriginalBranchEndpoints(i,&a,&c);
    VM_CHECK(k>=0&&k<(int)g.e.size()&&a==orig(g.e[k].first)&&c==orig(g.e[k].second),"branch with global index "<<k<<" runs from "<<a<<" to "<<c);
    VM_CHECK(mode==3||b->tag==700+k&&b->name=="br"+bname(k),"component of branch "<<k<<" lost its contents");
    boost::shared_ptr<DC> d=net.getBranchData(i); int n; double r; bool ok; VM_CHECK(d->getValue("L_ID",&n)&&n==k&&d->getValue("L_R",&r)&&r==0.25*k&&d->getValue("L_OK",&ok)&&ok==(k%2==0),"data of branch "<<k<<" lost values"); }
}
// the partitioner numbers vertices in process order: as[] is by bus of the graph
inline std::vector<int> vertex_order(TNet &net,const std::vector<int> &as) {
  std::vector<int> mine,r; for (int i=0;i<net.numBuses();i++) for (size_t q=0;q<as.size();q++) if (orig(q)==net.getOriginalBusIndex(i)) mine.push_back(as[q]);
  std::vector<std::vector<int> > all; boost::mpi::all_gather(net.communicator().getCommunicator(),mine,all); for (auto &v:all) r.insert(r.end(),v.begin(),v.end()); return r; }
// full set of structural guarantees after a partition; with_data also compares payloads.
// active counts per process are compared with want (if not empty)
template<class N> inline void verify(N &net,const Graph &g,int with_data,const std::vector<int> &want,const char *when)
{
  if (with_data) payload(net,g,with_data);
  int me=net.processor_rank(), np=net.processor_size();
  VM_CHECK(net.totalBuses()==g.n,when<<": total number of buses is "<<net.totalBuses()<<" instead of "<<g.n);
  VM_CHECK(net.totalBranches()==(int)g.e.size(),when<<": total number of branches is "<<net.totalBranches()<<" instead of "<<g.e.size());
  // what is where
  std::vector<int> bl(g.n,-1),ll(g.e.size(),-1),own(g.n,0),lown(g.e.size(),0); int act=0;
  std::map<int,int> o2g; for (int i=0;i<g.n;i++) o2g[orig(i)]=i;
  for (int i=0;i<net.numBuses();i++) { int gi=o2g[net.getOriginalBusIndex(i)]; VM_CHECK(bl[gi]<0,when<<": bus "<<orig(gi)<<" exists twice on process "<<me); bl[gi]=i; if (net.getActiveBus(i)) { own[gi]=1; act++; } }
  for (int i=0;i<net.numBranches();i++) { int a,b; net.getOriginalBranchEndpoints(i,&a,&b); int k=-1; if (with_data==1) k=net.getGlobalBranchIndex(i); else net.getBranchData(i)->getValue("L_ID",&k);
    if (k<0) for (size_t q=0;q<g.e.size();q++) if (orig(g.e[q].first)==a&&orig(g.e[q].second)==b&&ll[q]<0) { k=q; break; }
    VM_CHECK(k>=0&&k<(int)g.e.size()&&orig(g.e[k].first)==a&&orig(g.e[k].second)==b,when<<": unknown branch "<<a<<" "<<b); VM_CHECK(ll[k]<0,when<<": branch "<<a<<"-"<<b<<" exists twice on process "<<me); ll[k]=i; if (net.getActiveBranch(i)) lown[k]=1; }
  // global consistency: owner counts and indices
  std::vector<int> cnt(own),lc(lown); net.communicator().sum(&cnt[0],g.n); if (!lc.empty()) net.communicator().sum(&lc[0],lc.size());
  for (int i=0;i<g.n;i++) VM_CHECK(cnt[i]==1,when<<": bus "<<orig(i)<<" is active on "<<cnt[i]<<" processes");
  for (size_t k=0;k<g.e.size();k++) VM_CHECK(lc[k]==1,when<<": branch "<<orig(g.e[k].first)<<"-"<<orig(g.e[k].second)<<" is active on "<<lc[k]<<" processes");
  std::vector<int> gb(g.n,-1),gl(g.e.size()+1,-1); for (int i=0;i<g.n;i++) if (own[i]) gb[i]=net.getGlobalBusIndex(bl[i]); for (size_t k=0;k<g.e.size();k++) if (lown[k]) gl[k]=net.getGlobalBranchIndex(ll[k]);
  net.communicator().max(&gb[0],g.n); net.communicator().max(&gl[0],gl.size());
  { std::vector<int> s(gb); std::sort(s.begin(),s.end()); for (int i=0;i<g.n;i++) VM_CHECK(s[i]==i,when<<": global bus indices are not 0.."<<g.n-1<<": "<<show(s)); }
  { std::vector<int> s(gl.begin(),gl.end()-1); std::sort(s.begin(),s.end()); for (size_t i=0;i<s.size();i++) VM_CHECK(s[i]==(int)i,when<<": global branch indices are not 0.."<<s.size()-1<<": "<<show(s)); }
  for (int i=0;i<g.n;i++) if (bl[i]>=0) VM_CHECK(net.getGlobalBusIndex(bl[i])==gb[i],when<<": copy of bus "<<orig(i)<<" has global index "<<net.getGlobalBusIndex(bl[i])<<", the owner has "<<gb[i]);
  for (size_t k=0;k<g.e.size();k++) if (ll[k]>=0) VM_CHECK(net.getGlobalBranchIndex(ll[k])==gl[k],when<<": copy of branch "<<k<<" has global index "<<net.getGlobalBranchIndex(ll[k])<<", the owner has "<<gl[k]);
  if (!want.empty()) { std::vector<int> c(np,0); c[me]=act; net.communicator().sum(&c[0],np); VM_CHECK(c==want,when<<": active buses per process "<<show(c)<<", the partitioner decided "<<show(want)); }
  // self-contained: a process has exactly the branches that touch its buses, and their ends
  std::vector<int> need(g.n,0); for (int i=0;i<g.n;i++) if (own[i]) need[i]=1;
  for (size_t k=0;k<g.e.size();k++) { int a=g.e[k].first,b=g.e[k].second; bool touch=own[a]||own[b];
    VM_CHECK((ll[k]>=0)==touch,when<<": process "<<me<<(touch?" misses":" should not have")<<" branch "<<orig(a)<<"-"<<orig(b)); if (lown[k]) VM_CHECK(touch,when<<": branch owned away from both ends");
    if (touch) need[a]=need[b]=1; }
  for (int i=0;i<g.n;i++) VM_CHECK((bl[i]>=0)==(need[i]==1),when<<": process "<<me<<(need[i]?" misses":" should not have")<<" bus "<<orig(i));
  // local topology
  for (size_t k=0;k<g.e.size();k++) if (ll[k]>=0) { int x,y; net.getBranchEndpoints(ll[k],&x,&y); VM_CHECK(x==bl[g.e[k].first]&&y==bl[g.e[k].second],when<<": branch "<<orig(g.e[k].first)<<"-"<<orig(g.e[k].second)<<" has local ends "<<x<<","<<y);
    if (with_data!=3) VM_CHECK(net.getBranch(ll[k])->getBus1().get()==net.getBus(x).get()&&net.getBranch(ll[k])->getBus2().get()==net.getBus(y).get(),when<<": branch component is attached to other bus components");
    std::vector<int> li=net.getLocalBranchIndices(orig(g.e[k].first),orig(g.e[k].second)),lj=net.getLocalBranchIndices(orig(g.e[k].second),orig(g.e[k].first)); VM_CHECK(std::count(li.begin(),li.end(),ll[k])==1,when<<": look up of branch by original indices fails"); VM_CHECK(!lj.empty(),when<<": look up of reversed branch fails"); }
  for (int i=0;i<g.n;i++) { std::vector<int> lb=net.getLocalBusIndices(orig(i)); if (bl[i]<0) { VM_CHECK(lb.empty(),when<<": absent bus is found"); continue; }
    VM_CHECK(lb.size()==1&&lb[0]==bl[i],when<<": look up of bus "<<orig(i)<<" gives "<<show(lb));
    std::vector<int> e1,e2,n1=net.getConnectedBranches(bl[i]),n2=net.getConnectedBuses(bl[i]); for (size_t k=0;k<g.e.size();k++) if (ll[k]>=0) { if (g.e[k].first==i) { e1.push_back(ll[k]); e2.push_back(bl[g.e[k].second]); } else if (g.e[k].second==i) { e1.push_back(ll[k]); e2.push_back(bl[g.e[k].first]); } }
    std::sort(e1.begin(),e1.end()); std::sort(e2.begin(),e2.end()); std::sort(n1.begin(),n1.end()); std::sort(n2.begin(),n2.end());
    VM_CHECK(n1==e1,when<<": branches at bus "<<orig(i)<<": "<<show(n1)<<" instead of "<<show(e1)); VM_CHECK(n2==e2,when<<": neighbours of bus "<<orig(i)<<": "<<show(n2)<<" instead of "<<show(e2)); }
}
// component neighbour lists (after setComponents or one partition)
template<class N> inline void verify_components(N &net,const char *when)
{
  for (int i=0;i<net.numBuses();i++) { std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > nb,nl; net.getBus(i)->getNeighborBuses(nb); net.getBus(i)->getNeighborBranches(nl);
    std::multiset<void*> a,b,c,d; for (auto &x:nb) a.insert(x.get()); for (auto &x:nl) c.insert(x.get()); for (int j:net.getConnectedBuses(i)) b.insert((gridpack::component::BaseComponent*)net.getBus(j).get()); for (int j:net.getConnectedBranches(i)) d.insert((gridpack::component::BaseComponent*)net.getBranch(j).get());
    VM_CHECK(a==b,when<<": component neighbour buses of bus "<<net.getOriginalBusIndex(i)<<": "<<a.size()<<" entries, the network has "<<b.size()); VM_CHECK(c==d,when<<": component neighbour branches differ from the network"); }
}
}
BOOST_CLASS_EXPORT_KEY(nk::TBus)
BOOST_CLASS_EXPORT_KEY(nk::UBus)
BOOST_CLASS_EXPORT_KEY(nk::UBranch)
BOOST_CLASS_EXPORT_KEY(nk::TBranch)
#define NETKIT_EXPORT BOOST_CLASS_EXPORT_IMPLEMENT(nk::TBus) BOOST_CLASS_EXPORT_IMPLEMENT(nk::TBranch) BOOST_CLASS_EXPORT_IMPLEMENT(nk::UBus) BOOST_CLASS_EXPORT_IMPLEMENT(nk::UBranch)
#endif
