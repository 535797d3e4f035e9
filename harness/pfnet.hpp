// Small networks for the applications: their RAW file and, worked out independently, their admittance matrix.
#pragma once
#include <complex>
#include <sstream>
#include <vector>
#include <cmath>
#include "gridpack/utilities/string_utils.hpp"
typedef std::complex<double> C;
static const double PI=3.14159265358979323846;
struct Bus { int id,type; double vm,va; int area,zone; };
struct Gen { int b; std::string id; double pg,qg,qt,qb,vs; int st; double pt,pb; double mb=100,zx=1.0; };
struct Load { int b; std::string id; int st; double pl,ql; };
struct Shunt { int b; std::string id; int st; double g,bl; };
struct Elem { int i,j; std::string ck; double r,x,b,tap,ang,rate; int st; double gi,bi,gj,bj; };
static std::string two(const std::string &s) { gridpack::utility::StringUtils u; std::string t=s; return u.clean2Char(t); }
struct Net {
  double sbase; std::vector<Bus> b; std::vector<Gen> g; std::vector<Load> l; std::vector<Shunt> s; std::vector<std::pair<int,double> > ss; int swst; std::vector<Elem> e;
  int n() const { return b.size(); }
  std::string raw() const {
    std::ostringstream o; o.precision(12); o<<" 0, "<<sbase<<", 33, 0, 0, 60.00 / case\ncomment 1\ncomment 2\n";
    for (auto &x:b) o<<x.id<<",'BUS-"<<x.id<<"   ',100.0,"<<x.type<<","<<x.area<<","<<x.zone<<",1,"<<x.vm<<","<<x.va<<"\n"; o<<"0 / END OF BUS DATA\n";
    for (auto &x:l) o<<b[x.b].id<<",'"<<x.id<<"',"<<x.st<<",1,1,"<<x.pl<<","<<x.ql<<",0.0,0.0,0.0,0.0,1,1\n"; o<<"0 / END OF LOAD DATA\n";
    for (auto &x:s) o<<b[x.b].id<<",'"<<x.id<<"',"<<x.st<<","<<x.g<<","<<x.bl<<"\n"; o<<"0 / END OF FIXED SHUNT DATA\n";
    for (auto &x:g) o<<b[x.b].id<<",'"<<x.id<<"',"<<x.pg<<","<<x.qg<<","<<x.qt<<","<<x.qb<<","<<x.vs<<",0,"<<x.mb<<",0.0,"<<x.zx<<",0.0,0.0,1.0,"<<x.st<<",100.0,"<<x.pt<<","<<x.pb<<",1,1.0\n"; o<<"0 / END OF GENERATOR DATA\n";
    for (auto &x:e) if (x.tap==0) o<<b[x.i].id<<","<<b[x.j].id<<",'"<<x.ck<<"',"<<x.r<<","<<x.x<<","<<x.b<<","<<x.rate<<","<<x.rate*0.5<<","<<x.rate*2<<","<<x.gi<<","<<x.bi<<","<<x.gj<<","<<x.bj<<","<<x.st<<",1,0.0,1,1.0\n"; o<<"0 / END OF BRANCH DATA\n";
    for (auto &x:e) if (x.tap!=0) o<<b[x.i].id<<","<<b[x.j].id<<",0,'"<<x.ck<<"',1,1,1,0.0,0.0,2,'T',"<<x.st<<",1,1.0\n"<<x.r<<","<<x.x<<","<<sbase<<"\n"<<x.tap<<",100.0,"<<x.ang<<","<<x.rate<<","<<x.rate*0.5<<","<<x.rate*2<<",0,0,1.5,0.5,1.5,0.5,159,0,0.0,0.0\n1.0,100.0\n"; o<<"0 / END OF TRANSFORMER DATA\n";
    for (const char *t:{"AREA","TWO-TERMINAL","VSC","IMPEDANCE","MULTI-TERMINAL","MULTI-SECTION","ZONE","INTER-AREA","OWNER","FACTS"}) o<<"0 / END OF "<<t<<" DATA\n";
    for (auto &x:ss) o<<b[x.first].id<<",1,0,"<<swst<<",1.1,0.9,0,100.0,'    ',"<<x.second<<",1,"<<x.second<<"\n"; o<<"0 / END OF SWITCHED SHUNT DATA\n0 / END OF GNE DATA\nQ\n"; return o.str();
  }
};
static const int IDS[]={7,3,12,5,20};
// "types;edges;features"
static Net make(const std::string &spec) {
  size_t a=spec.find(';'),z=spec.find(';',a+1); std::string ty=spec.substr(0,a),ed=spec.substr(a+1,z-a-1),f=spec.substr(z+1); auto has=[&](char c) { return f.find(c)!=std::string::npos; };
  Net N; N.sbase=has('5')?50:100; int n=ty.size();
  for (int i=0;i<n;i++) { Bus b={IDS[i],ty[i]-'0',1.0-0.01*i,i==0?5.0:3.0-i,1+i%2,1+i/2%2}; if (b.type==3) b.vm=1.0; N.b.push_back(b); }
  bool off=has('X');
  for (int i=0;i<n;i++) { int t=ty[i]-'0'; double q=has('Q')?4.0+i:60; 
    if (t==3) { N.g.push_back(Gen{i,"1",50,10,90,-90,1.03,1,200,20}); if (has('G')) N.g.push_back(Gen{i,"H2",30,5,50,-50,1.03,1,120,10}); }
    if (t==2) { N.g.push_back(Gen{i,"1",20.0+5*i,8,q,-q,1.02-0.02*i,off?0:1,80,5}); if (!off&&has('G')) { N.g.push_back(Gen{i,"2",11,2,q/2,-q/3,1.02-0.02*i,1,40,0}); N.g.push_back(Gen{i,"3",33,7,q,-q,1.02-0.02*i,0,60,0}); } off=false; if (!has('N')) { N.l.push_back(Load{i,"1",1,12,4}); if (has('L')) N.l.push_back(Load{i,"2",1,5,3}); } }
    if (t==1||t==4) { N.l.push_back(Load{i,"1",1,28.0+5*i,9.0+2*i}); if (has('L')) { N.l.push_back(Load{i,"A",1,6,-3}); N.l.push_back(Load{i,"B",0,17,11}); N.l.push_back(Load{i,"C",1,0,4}); } if (has('g')) N.g.push_back(Gen{i,"1",15,6,20,-20,1.0,1,40,5}); } }
  std::vector<std::pair<int,int> > E; { std::istringstream s(ed); std::string t; while (std::getline(s,t,',')) E.push_back(std::make_pair(t[0]-'0',t[2]-'0')); }
  int k=0; for (auto &e:E) { Elem x={e.first,e.second,"1",0.01+0.003*k,0.08+0.02*k,0.04+0.01*k,0,0,40.0-6*k,1,0,0,0,0}; if (k==0&&has('Z')) { x.gi=0.02; x.bi=0.03; x.gj=0.01; x.bj=-0.02; } if (k==0&&has('T')) { x.tap=0.95; x.ang=6; x.b=0; } N.e.push_back(x); k++; }
  Elem z0=N.e[0],zl=N.e.back(); z0.gi=z0.bi=z0.gj=z0.bj=0; 
  if (has('P')) { Elem x=z0; x.ck="2"; x.x=0.11; x.tap=0; x.ang=0; x.b=0.02; N.e.push_back(x); }
  if (has('R')) { Elem x=z0; x.ck="3"; x.x=0.13; x.tap=0; x.ang=0; x.b=0.03; std::swap(x.i,x.j); N.e.push_back(x); }
  if (has('V')) { Elem x=z0; x.ck="V"; x.x=0.12; x.tap=0; x.ang=0; x.b=0.01; x.gi=0.03; x.bi=0.05; x.gj=0.015; x.bj=-0.04; std::swap(x.i,x.j); N.e.push_back(x); }
  if (has('t')) { Elem x=z0; x.ck="T"; x.x=0.15; x.tap=1.03; x.ang=-4; x.b=0; N.e.push_back(x); }
  if (has('U')) { Elem x=z0; x.ck="U1"; x.x=0.14; x.tap=1.04; x.ang=-7; x.b=0; std::swap(x.i,x.j); N.e.push_back(x); }
  if (has('O')) { Elem x=zl; x.ck="9"; x.st=0; x.x=0.06; x.tap=0; x.ang=0; N.e.push_back(x); }
  if (has('S')) { N.s.push_back(Shunt{n-1,"1",1,2,14}); N.s.push_back(Shunt{n-1,"2",1,1,-6}); N.s.push_back(Shunt{n-2,"1",0,3,25}); N.s.push_back(Shunt{0,"1",1,0,5}); }
  N.swst=!has('w'); if (has('W')||has('w')) N.ss.push_back(std::make_pair(n-1,12.0));
  return N;
}
// the state of the analysis: what is in service and how much
struct St { std::vector<int> es,gs; std::vector<double> pg,pl,ql; std::vector<int> pq; std::vector<double> qfix; bool lone; }; // lone: buses without anything in service have been looked for
struct Sol { bool ok; std::vector<double> v,a; std::vector<int> iso; std::vector<C> s; }; // s: injected by the network equations
static void yb(const Net &N,const St &S,std::vector<C> &Y,const std::vector<int> *only=0) {
  int n=N.n(); Y.assign(n*n,C(0)); 
  for (size_t k=0;k<N.e.size();k++) { auto &e=N.e[k]; if (!S.es[k]||N.b[e.i].type==4||N.b[e.j].type==4) continue; C y=1.0/C(e.r,e.x),h(0,e.b/2),t=e.tap==0?C(1):std::polar(e.tap,e.ang*PI/180); Y[e.i*n+e.i]+=(y+h)/std::norm(t)+C(e.gi,e.bi); Y[e.j*n+e.j]+=y+h+C(e.gj,e.bj); Y[e.i*n+e.j]-=y/std::conj(t); Y[e.j*n+e.i]-=y/t; }
  for (auto &x:N.s) if (x.st) Y[x.b*n+x.b]+=C(x.g,x.bl)/N.sbase; if (N.swst) for (auto &x:N.ss) Y[x.first*n+x.first]+=C(0,x.second/N.sbase);
}
