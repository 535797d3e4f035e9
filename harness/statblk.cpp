// Statistics of distributed tables: every mask pattern, who adds what, blocks of rows
// handed out to processes by a shared counter, contents of the files written.
// USES: parallel timer environment configuration analysis
#include <mpi.h>
#include <ga++.h>
#include <cmath>
#include <fstream>
#include <unistd.h>
#include "vm.hpp"
#include "util.hpp"
#include "gridpack/parallel/communicator.hpp"
#include "gridpack/analysis/stat_block.hpp"
using namespace vm; using namespace hu; using gridpack::parallel::Communicator;
typedef std::string S; typedef std::vector<S> L; typedef std::vector<double> V;
struct SB : Harness {
  void enumerate(const std::string &tier,std::function<void(const Case&)> emit) override { bool th=tier=="thorough";
    auto add=[&](const char *w,int np,int nc,int rows,int val,int who,int comm=0,Explore ex=DEFAULT_SCHED,int b=0,int pm=1) { Case c; c.np=np; c.explore=ex; c.bound=b; c.put_mode=pm; c.set("w",w).set("nc",nc).set("rows",rows).set("val",val).set("who",who).set("comm",comm); emit(c); };
    // rows==0: one row for each mask pattern
    for (int np=1;np<=(th?4:3);np++) for (int nc=1;nc<=(th?6:5);nc++) for (int val=0;val<(th?12:6);val++) add("mask",np,nc,0,val,val,0,DEFAULT_SCHED,0,val&1);
    for (int np=1;np<=3;np++) for (int rows:{1,2,99,100,101,199,200,201,305}) for (int who=0;who<(th?6:3);who++) add("rows",np,3,rows,1+who,who);
    for (int np=1;np<=2;np++) for (int nc:{99,100,101,200,203}) add("rows",np,nc,5,2,1);
    for (int who=0;who<3;who++) for (int comm=1;comm<=3;comm++) add("mask",3,3,0,1,who,comm);
    for (int pm=0;pm<2;pm++) for (int who=0;who<3;who++) { add("pb",2,2,101,1,who,0,PREEMPT_BOUND,th?3:2,pm); add("pb",2,3,4,2,who,0,PREEMPT_BOUND,th?3:2,pm); add("pb",2,101,2,2,who,0,PREEMPT_BOUND,th?2:1,pm); } }
  struct T { int nr,nc; std::vector<V> v; std::vector<std::vector<int> > m; V lo,hi; std::vector<int> i1,i2; L tag,ctag; };
  static double value(int style,int i,int j,int nc) { switch (style) { case 0: return 1.5; case 1: return (i*7+j*13)%11-5+0.25*j; case 2: return j-(nc-1)*0.5; case 3: return (j*5+i)%3; case 4: return -100.0-j*j+(i%4)*50; case 5: return 1e-3*((i+1)*(j+2)%17); default: return (((i+3)*(style+1)*(j+1))%(7+style))*0.75-2; } }
  T table(int nc,int rows,int style) { T t; t.nc=nc; t.nr=rows; bool masks=rows==0; if (masks) { t.nr=1; for (int i=0;i<nc;i++) t.nr*=3; }
    static const char *TAG[]={"1","BL","'2 '","a"}; static const char *CT[]={"1","BL","2","a"};
    for (int i=0;i<t.nr;i++) { V v; std::vector<int> m; int q=i; for (int j=0;j<nc;j++) { v.push_back(value(style,i,j,nc)); m.push_back(masks?q%3:((i*5+j*3+(j>2?i*j:0))%4)); q/=3; } t.v.push_back(v); t.m.push_back(m); t.lo.push_back(-i-0.5); t.hi.push_back(1000.0+i*3); t.i1.push_back((i*37)%101+1); t.i2.push_back((i*11)%1001+2); t.tag.push_back(TAG[i%4]); t.ctag.push_back(CT[i%4]); } return t; }
  S dir; long runs;
  static std::vector<L> readf(const S &f) { std::vector<L> r; std::ifstream i(f.c_str()); S l; while (std::getline(i,l)) { std::istringstream s(l); L t; S w; while (s>>w) t.push_back(w); r.push_back(t); } return r; }
  static bool close(const S &a,double b,double tol) { char *e; double x=strtod(a.c_str(),&e); return *e==0&&std::fabs(x-b)<=tol*(1+std::fabs(b)); }
  void rowcheck(const L &l,const T &t,int i,bool br,bool flag,size_t &p,const S &w) { auto want=[&](const S &x,const char *n) { VM_CHECK(p<l.size()&&l[p]==x,w<<": "<<n<<" of row "<<i<<" is "<<(p<l.size()?l[p]:"missing")<<" instead of "<<x); p++; }; want(std::to_string(i+1),"number"); want(std::to_string(t.i1[i]),"first index"); if (br) want(std::to_string(t.i2[i]),"second index"); if (flag) want(t.ctag[i],"tag"); }
  void checkfiles(const T &t,int mval,bool br,bool flag,int bnd,int sel) { std::ostringstream ww; ww<<"mask "<<mval<<" bounds "<<bnd; S w=ww.str();
    if (sel&1) { std::vector<L> f=readf(dir+"/mean"); VM_CHECK((int)f.size()==t.nr,"mean file has "<<f.size()<<" rows"); for (int i=0;i<t.nr;i++) { size_t p=0; rowcheck(f[i],t,i,br,flag,p,w+" mean"); int n=0; long double s=0,d=0,b=0; for (int j=0;j<t.nc;j++) if (t.m[i][j]>=mval) { n++; s+=t.v[i][j]; } if (n) s/=n; for (int j=0;j<t.nc;j++) if (t.m[i][j]>=mval) { d+=(t.v[i][j]-s)*(t.v[i][j]-s); if (j) b+=(t.v[i][j]-t.v[i][0])*(t.v[i][j]-t.v[i][0]); } double x[3]={(double)s,n>1?(double)std::sqrt(d/(n-1)):0,n>1?(double)std::sqrt(b/(n-1)):0}; VM_CHECK(f[i].size()==p+3,w<<": row "<<i<<" of the mean file is "<<show(f[i])); for (int k=0;k<3;k++) VM_CHECK(close(f[i][p+k],x[k],k==1?1e-6:1e-8),w<<": row "<<i<<" values "<<show(t.v[i])<<" masks "<<show(t.m[i])<<": "<<(k==0?"mean":k==1?"deviation":"deviation from base")<<" is "<<f[i][p+k]<<" instead of "<<x[k]); runs++; } }
    if (sel&2) { std::vector<L> f=readf(dir+"/minmax"); VM_CHECK((int)f.size()==t.nr,"min/max file has "<<f.size()<<" rows"); for (int i=0;i<t.nr;i++) { size_t p=0; rowcheck(f[i],t,i,br,flag,p,w+" min/max"); double base=t.v[i][0],mn=base,mx=base; bool any=false; for (int j=0;j<t.nc;j++) if (t.m[i][j]>=mval) { if (!any||t.v[i][j]<mn) mn=t.v[i][j]; if (!any||t.v[i][j]>mx) mx=t.v[i][j]; any=true; } V x={base,mn,mx,mn-base,mx-base}; if (bnd&1) x.push_back(t.lo[i]); if (bnd&2) x.push_back(t.hi[i]); VM_CHECK(f[i].size()==p+x.size()+2,w<<": row "<<i<<" of the min/max file is "<<show(f[i])); for (size_t k=0;k<x.size();k++) VM_CHECK(close(f[i][p+k],x[k],1e-8),w<<": row "<<i<<" values "<<show(t.v[i])<<" masks "<<show(t.m[i])<<": column "<<k<<" of min/max is "<<f[i][p+k]<<" instead of "<<x[k]);
      if (any) for (int k=0;k<2;k++) { int j=atoi(f[i][p+x.size()+k].c_str()); VM_CHECK(j>=0&&j<t.nc&&t.m[i][j]>=mval&&t.v[i][j]==(k?mx:mn),w<<": row "<<i<<" values "<<show(t.v[i])<<" masks "<<show(t.m[i])<<": "<<(k?"maximum":"minimum")<<" is at "<<j); } runs++; } }
    if (sel&4) { std::vector<L> f=readf(dir+"/count"); VM_CHECK((int)f.size()==t.nr,"count file has "<<f.size()<<" rows"); for (int i=0;i<t.nr;i++) { size_t p=0; rowcheck(f[i],t,i,br,flag,p,w+" count"); int n=0; for (int j=0;j<t.nc;j++) n+=t.m[i][j]==mval; VM_CHECK(f[i].size()==p+1&&f[i][p]==std::to_string(n),w<<": row "<<i<<" masks "<<show(t.m[i])<<": count is "<<show(f[i])<<" instead of "<<n); runs++; } }
    if (sel&8) { std::vector<L> f=readf(dir+"/sum"); VM_CHECK((int)f.size()==t.nc,"sum file has "<<f.size()<<" lines"); for (int j=0;j<t.nc;j++) { double s=0; for (int i=0;i<t.nr;i++) if (t.m[i][j]>=mval) s+=t.v[i][j]; VM_CHECK(f[j].size()==3&&f[j][0]==std::to_string(j)&&close(f[j][1],s,1e-7)&&close(f[j][2],s/t.nr,1e-7),w<<": sums of column "<<j<<" are "<<show(f[j])<<" instead of "<<s<<" "<<s/t.nr); runs++; } } }
  static int owner(int who,int j,int np) { switch (who%6) { case 0: return 0; case 1: return j%np; case 2: return np-1; case 3: return (j*j)%np; case 4: return -1; default: return np-1-j%np; } }
  void rank_main(const Case &c,int,int) override { par_begin(); runs=0; { Communicator world; int cc=c.geti("comm"); int r0=world.rank(); Communicator cm=cc==1?world.split(r0==1):cc==2?world.split(r0>0):cc==3?world.split(r0):world; int me=cm.rank(),np=cm.size(); S w=c.gets("w"); int who=c.geti("who");
      char t0[]="/tmp/vmsbXXXXXX"; S d; if (me==0) { if (!mkdtemp(t0)) fail("no scratch directory"); d=t0; } L all=hgather(d); dir=d; if (me!=0) { dir=""; } (void)all;
      T t=table(c.geti("nc"),c.geti("rows"),c.geti("val"));
      for (int bnd=0;bnd<4;bnd++) { if (w=="pb"&&bnd!=3) continue; bool br=(bnd+who)&1; gridpack::analysis::StatBlock sb(cm,t.nr,t.nc);
        for (int j=t.nc-1;j>=0;j--) { int o=owner(who,j,np); if (o==me||o<0) { V v; std::vector<int> m; for (int i=0;i<t.nr;i++) { v.push_back(t.v[i][j]); m.push_back(t.m[i][j]); } sb.addColumnValues(j,v,m); } }
        bool lab=who%3==0?me==0:who%3==1?me==np-1:true; if (lab) { if (br) sb.addRowLabels(t.i1,t.i2,t.tag); else sb.addRowLabels(t.i1,t.tag); }
        if (me==np-1||who%3==2) { if (bnd&1) sb.addRowMinValue(t.lo); if (bnd&2) sb.addRowMaxValue(t.hi); }
        if (w=="pb") { sb.writeMeanAndRMS(dir+"/mean",1,true); sb.writeMinAndMax(dir+"/minmax",1,true); sb.writeMaskValueCount(dir+"/count",1,true); sb.sumColumnValues(dir+"/sum",1); if (me==0) checkfiles(t,1,br,true,bnd,15); }
        else for (int mval=0;mval<=3;mval++) { bool flag=(mval+bnd)&1; sb.writeMinAndMax(dir+"/minmax",mval,flag); sb.writeMeanAndRMS(dir+"/mean",mval,flag); sb.sumColumnValues(dir+"/sum",mval); sb.writeMaskValueCount(dir+"/count",mval,flag); if (me==0) checkfiles(t,mval,br,flag,bnd,15); cm.sync(); } }
      if (me==0&&dir.compare(0,9,"/tmp/vmsb")==0) { for (const char *f:{"/mean","/minmax","/count","/sum"}) unlink((dir+f).c_str()); rmdir(dir.c_str()); } }
    count_sub(runs); label(std::to_string(runs)); par_end(); }
};
Harness *vm::make_harness() { return new SB; }
