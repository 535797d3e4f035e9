// Configuration: what every process reads from the database after any sequence of
// files, any damage to a file and on any group of processes.
// USES: parallel timer environment configuration
#include <mpi.h>
#include <ga++.h>
#include <boost/mpi.hpp>
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/configuration/configuration.hpp"
#include "util.hpp"
#include <fstream>
#include <cmath>
#include <unistd.h>
using namespace vm; using namespace hu;
using gridpack::parallel::Communicator; using gridpack::utility::Configuration;

// values with what they mean as bool / int / double (flag, value) and as text
struct Val { const char *raw; int hb; bool b; int hi; int i; int hd; double d; const char *s; };
static const Val V[]={
  {"5",0,true,1,5,1,5.0,"5"},{"",0,false,0,0,0,0,""},{" -7 ",0,true,1,-7,1,-7.0,"-7"},{"2.5e3",0,false,0,0,1,2500.0,"2.5e3"},{"true",1,true,0,0,0,0,"true"},{"false",1,false,0,0,0,0,"false"},
  {"1",1,true,1,1,1,1.0,"1"},{"0",1,false,1,0,1,0.0,"0"},{"  two words   ",0,false,0,0,0,0,"two words"},{"   ",0,false,0,0,0,0,""},{"12abc",0,false,0,0,0,0,"12abc"},{" lead",0,false,0,0,0,0,"lead"},{"-0.125",0,false,0,0,1,-0.125,"-0.125"},{"2147483647",0,false,1,2147483647,1,2147483647.0,"2147483647"},{"99999999999",0,false,0,0,1,99999999999.0,"99999999999"},{"a &amp; b &lt;c&gt;",0,false,0,0,0,0,"a & b <c>"} };
static const int NV=sizeof(V)/sizeof(V[0]);
struct Tree { std::string name; int v; std::vector<Tree> kid; Tree() : v(1) {}
  std::string xml(int style) const { std::string s="<"+name+">"; if (kid.empty()) s+=V[v].raw; for (auto &k:kid) { if (style==1) s+="\n  "; if (style==2) s+="<!-- n <A>9</A> -->"; s+=k.xml(style); } if (style==1&&!kid.empty()) s+="\n"; return s+"</"+name+">"; } };
// all forests of n nodes over the names, as (name, depth) sequences in preorder
static void shapes(int n,std::vector<std::vector<std::pair<int,int> > > &out,std::vector<std::pair<int,int> > cur=std::vector<std::pair<int,int> >()) {
  if ((int)cur.size()==n) { out.push_back(cur); return; } int maxd=cur.empty()?0:cur.back().second+1; for (int d=cur.empty()?0:1;d<=maxd;d++) for (int k=0;k<2;k++) { cur.push_back(std::make_pair(k,d)); shapes(n,out,cur); cur.pop_back(); } }
static const char *NM[]={"A","Bb","Cursor"};
static Tree mk(const std::vector<std::pair<int,int> > &p,size_t &i,int &leaf,int v0,int step) { Tree t; t.name=NM[p[i].first]; int d=p[i].second; i++; while (i<p.size()&&p[i].second==d+1) t.kid.push_back(mk(p,i,leaf,v0,step)); if (t.kid.empty()) { t.v=(v0+step*leaf)%NV; leaf++; } return t; }
static const Tree *find(const std::vector<Tree> &f,const std::vector<std::string> &k,size_t i=0) { for (auto &t:f) if (t.name==k[i]) return i+1==k.size()?&t:find(t.kid,k,i+1); return 0; }

struct CF : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override {
    bool th=tier=="thorough";
    auto add=[&](int np,const char *w,int a,int b,int comm=0,Explore ex=DEFAULT_SCHED,int bd=0) { Case c; c.np=np; c.explore=ex; c.bound=bd; c.set("w",w).set("a",a).set("b",b).set("comm",comm); emit(c); };
    for (int np=1;np<=3;np++) for (int n=1;n<=(th?5:4);n++) for (int how=0;how<4;how++) add(np,"tree",n,how);
    for (int np=1;np<=3;np++) for (int f=0;f<2;f++) for (int d=0;d<6;d++) add(np,"cut",d,f); 
    for (int np=1;np<=3;np++) for (int n=0;n<6;n++) add(np,"hist",n,th?4:3);
    for (int np=2;np<=4;np++) for (int col=2;col<(1<<np);col+=2) { add(np,"tree",2,col%4,col+1); add(np,"hist",col%6,2,col+1); }
    for (int b=0;b<2;b++) for (int np=2;np<=3;np++) add(np,"one",b,0,0,PREEMPT_BOUND,th?3:2);
  }
  std::string dir; int nfile=0;
  // form 0 file, 1 one string, 2 one string per character, 3 a few pieces
  bool load(Configuration *c,Communicator &cm,const std::string &doc,int form) {
    if (form==0) { std::string f; if (cm.rank()==0) { f=dir+"/c"+std::to_string(nfile++); std::ofstream o(f.c_str(),std::ios::binary); o<<doc; } bool r=c->open(f,cm); if (cm.rank()==0) unlink(f.c_str()); return r; }
    std::vector<std::string> s; if (cm.rank()==0) { if (form==1) s.push_back(doc); else if (form==2) for (char ch:doc) s.push_back(std::string(1,ch)); else for (size_t i=0;i<doc.size();i+=7) s.push_back(doc.substr(i,7)); } else s.push_back("<Wrong>1</Wrong>");
    return c->openStringFile(s,cm); }
  void look(Configuration *c,const std::vector<Tree> &f,const std::string &pre,const std::string &w,int style) {
    std::vector<std::string> keys; std::vector<std::vector<std::string> > parts; for (int a=0;a<3;a++) { parts.push_back({NM[a]}); for (int b=0;b<3;b++) { parts.push_back({NM[a],NM[b]}); if (a+b<3) for (int d=0;d<3;d++) parts.push_back({NM[a],NM[b],NM[d]}); } } for (auto &p:parts) { std::string k; for (auto &x:p) k+=(k.empty()?"":".")+x; keys.push_back(k); }
    for (size_t q=0;q<keys.size();q++) { const Tree *t=find(f,parts[q]); std::string k=keys[q],ww=w+": "+pre+k; bool in=t!=0; 
      Configuration::CursorPtr cp=c->getCursor(k); VM_CHECK((cp.get()!=0)==in,ww<<(in?" is not found":" is found"));
      if (in&&!t->kid.empty()&&style) continue; // text between elements
      const Val *v=in?&V[t->kid.empty()?t->v:1]:&V[1]; 
      int i=-99; bool ok=c->get(k,&i); VM_CHECK(ok==bool(v->hi)&&i==(v->hi?v->i:-99),ww<<" as an integer gives "<<ok<<" "<<i); i=c->get(k,-33); VM_CHECK(i==(v->hi?v->i:-33),ww<<" as an integer with default gives "<<i);
      double d=-9.5; ok=c->get(k,&d); VM_CHECK(ok==bool(v->hd)&&d==(v->hd?v->d:-9.5),ww<<" as a number gives "<<ok<<" "<<d); d=c->get(k,3.25); VM_CHECK(d==(v->hd?v->d:3.25),ww<<" as a number with default gives "<<d);
      bool isb=v->hb; for (int def=0;def<2;def++) { bool b=def; ok=c->get(k,&b); if (isb||!v->hi) VM_CHECK(ok==isb&&b==(isb?v->b:bool(def)),ww<<" as a flag gives "<<ok<<" "<<b); b=c->get(k,bool(def)); if (isb||!v->hi) VM_CHECK(b==(isb?v->b:bool(def)),ww<<" as a flag with default "<<def<<" gives "<<b); }
      std::string s="  keep this  "; ok=c->get(k,&s); VM_CHECK(ok==in,ww<<" as text gives "<<ok); VM_CHECK(s==(in?v->s:"  keep this  "),ww<<" as text gives \""<<s<<"\""); s=c->get(k,"default"); VM_CHECK(s==(in?v->s:"default"),ww<<" as text with default gives \""<<s<<"\""); s=c->get(k,std::string("d2")); VM_CHECK(s==(in?v->s:"d2"),ww<<" as text with default gives \""<<s<<"\"");
      std::vector<double> xs; ok=c->get(k,&xs); VM_CHECK(ok==in&&xs.size()==(in?3u:0u),ww<<" as a vector gives "<<ok<<" "<<show(xs)); xs=c->get(k,std::vector<double>(2,4.5)); VM_CHECK(xs==(in?std::vector<double>(3,0.0):std::vector<double>(2,4.5)),ww<<" as a vector with default gives "<<show(xs)); } }
  void deep(Configuration *c,const std::vector<Tree> &f,const std::string &pre,const std::string &w,int style) {
    look(c,f,pre,w,style); Configuration::ChildElements es; c->children(es); Configuration::ChildCursors cs; c->children(cs); VM_CHECK(es.size()==cs.size(),w<<": children differ");
    size_t n=0; for (size_t q=0;q<es.size();q++) { if (es[q].name=="<xmlcomment>") continue; VM_CHECK(n<f.size()&&es[q].name==f[n].name,w<<": child "<<n<<" of "<<pre<<" is "<<es[q].name); if (style<2||!f[n].kid.empty()) { deep(es[q].cursor.get(),f[n].kid,pre+f[n].name+".",w,style); look(cs[q].get(),f[n].kid,pre+f[n].name+".",w,style); } n++; } VM_CHECK(n==f.size(),w<<": "<<pre<<" has "<<n<<" children instead of "<<f.size());
    for (auto &nm:{"A","Bb"}) { const Tree *t=find(f,{nm}); Configuration::CursorPtr p=c->getCursor(nm); if (t&&p) look(p.get(),t->kid,pre+nm+".",w,style); } }
  bool same(Communicator &cm,bool r,const std::string &w) { int a=r,s=0; MPI_Allreduce(&a,&s,1,MPI_INT,MPI_SUM,static_cast<MPI_Comm>(cm)); VM_CHECK(s==0||s==cm.size(),w<<": "<<s<<" of "<<cm.size()<<" processes report success"); return r; }
  void go(Communicator &cm,const Case &c) {
    std::string w=c.gets("w"); int a=c.geti("a"),b=c.geti("b");
    if (w=="tree") { std::vector<std::vector<std::pair<int,int> > > sh; shapes(a,sh); int k=0; for (auto &p:sh) for (int v0=0;v0<NV;v0+=a>3?5:1) { size_t i=0; int leaf=0; Tree t=mk(p,i,leaf,v0,3+k%5); int style=k++%3; std::string doc=t.xml(style); label(doc); Configuration cf; bool r=same(cm,load(&cf,cm,doc,b),"reading"); VM_CHECK(r,"well formed document is refused"); deep(&cf,std::vector<Tree>(1,t),"","tree",style); if (cm.rank()==0) count_sub(1,cm.size()>1); } }
    else if (w=="cut") { static const char *D[]={"<A><Bb>5</Bb><Bb>true</Bb></A>","<?xml version=\"1.0\"?>\n<A>\n <!-- c --><Bb>x</Bb>\n</A>\n","<A/>","<A><Bb>1</Bb></A>   \n","<A>a &amp; b</A>","<A><Bb><Cursor>2</Cursor></Bb></A>"};
      static const char *R[]={"<A><Bb>5</Bb><Bb>true</Bb></A>","","","","",""}; (void)R; std::string doc=D[a]; size_t full=doc.rfind('>')+1; Configuration cf; 
      for (size_t cut=0;cut<=doc.size();cut++) for (int form=b?1:0;form<(b?4:1);form++) for (int junk=0;junk<3;junk++) { std::string s=doc.substr(0,cut); if (junk==1) s+="<"; if (junk==2) { if (cut>=doc.size()) continue; s+=doc.substr(cut+1); if (doc[cut]!='<'&&doc[cut]!='/'&&doc[cut]!='>'&&doc[cut]!='&') continue; if (doc.find("<!--")<=cut&&cut<doc.find("-->")) continue; if (doc[0]=='<'&&doc[1]=='?'&&cut<doc.find('\n')) continue; if (doc.find("<!--")!=std::string::npos&&cut<doc.find("<Bb")&&cut>=doc.find("<!--")) continue; if (doc=="<A/>"&&doc[cut]=='/') {} }
          bool good=junk==0&&cut>=full; std::ostringstream l; l<<"text \""<<s<<"\""; label(l.str()); if (junk==2&&doc[cut]=='&') good=true; if (junk==2&&doc[cut]=='>'&&false) good=true;
          Configuration c1; bool r=same(cm,load(&c1,cm,s,form),"reading"); VM_CHECK(r==good||s.find("<A")==std::string::npos,(good?"well formed document is refused":"damaged document is accepted")); if (!good) { VM_CHECK(!c1.getCursor("A"),"a damaged document leaves something in the database"); Tree t; t.name="Bb"; t.v=0; bool again=load(&c1,cm,t.xml(0),form); VM_CHECK(same(cm,again,"reading"),"a good document after a damaged one is refused"); deep(&c1,std::vector<Tree>(1,t),"","after a damaged document",0); } if (cm.rank()==0) count_sub(1,cm.size()>1); }
      // no file, no text
      { label("missing file"); Configuration c1; VM_CHECK(!same(cm,c1.open(dir+"/none",cm),"reading"),"a missing file is read"); std::vector<std::string> e; label("no strings"); VM_CHECK(!same(cm,c1.openStringFile(e,cm),"reading"),"nothing is read"); e.push_back(""); label("empty string"); VM_CHECK(!same(cm,c1.openStringFile(e,cm),"reading"),"nothing is read"); } }
    else if (w=="hist"||w=="one") { // several documents one after the other: 0-3 good ones, 4 damaged, 5 missing file
      static const std::vector<std::pair<int,int> > S[]={{{0,0},{1,1},{0,1}},{{1,0},{0,1},{1,2}},{{0,0}},{{0,0},{1,1},{1,1}}}; int len=w=="one"?2:b; Odo o(std::vector<int>(len,6)); do { if (w=="hist"&&o.d[0]!=a) continue; if (w=="one"&&!(o.d[0]==a&&o.d[1]==1)) continue; label("documents "+o.str()); Configuration cf; std::vector<Tree> f; for (int q=0;q<len;q++) { int k=o.d[q]; bool r; if (k<4) { size_t i=0; int leaf=0; Tree t=mk(S[k],i,leaf,k*3+q,1+q); r=load(&cf,cm,t.xml(0),(q+k)%4); f.push_back(t); } else if (k==4) r=load(&cf,cm,"<A><Bb>77</A>",q%4); else r=cf.open(dir+"/none",cm); VM_CHECK(same(cm,r,"reading")==(k<4),"document "<<q<<(k<4?" is refused":" is accepted")); deep(&cf,f,"","after document "+std::to_string(q),0); } if (cm.rank()==0) count_sub(1,cm.size()>1); } while (o.next()); 
      Configuration *g=Configuration::configuration(); VM_CHECK(g==Configuration::configuration(),"two common instances"); }
  }
  bool capture_stdout() const override { return true; }
  void rank_main(const Case &c,int rank,int np) override {
    par_begin(); { Communicator world; int cc=c.geti("comm"); Communicator cm=cc?world.split(((cc-1)>>rank)&1):world; char t[]="/tmp/vmcfgXXXXXX"; if (cm.rank()==0) { VM_CHECK(mkdtemp(t),"no scratch directory"); dir=t; }
      go(cm,c); if (!dir.empty()) rmdir(dir.c_str()); record("ok"); } par_end();
  }
};
Harness *vm::make_harness() { return new CF; }
