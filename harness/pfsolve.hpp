// Newton solution of the network equations of pfnet.hpp, flows in its elements and reactive limits.
#pragma once
#include "pfnet.hpp"
static Sol solve(const Net &N,const St &S) {
  int n=N.n(); std::vector<C> Y; yb(N,S,Y); Sol r; r.ok=true; r.v.resize(n); r.a.resize(n); r.iso.assign(n,1); std::vector<double> P(n,0),Q(n,0); std::vector<int> pv(n,0);
  for (size_t k=0;k<N.e.size();k++) if (S.es[k]&&N.b[N.e[k].i].type!=4&&N.b[N.e[k].j].type!=4) r.iso[N.e[k].i]=r.iso[N.e[k].j]=0; for (int i=0;i<n;i++) { r.v[i]=N.b[i].vm; r.a[i]=N.b[i].va*PI/180; if (N.b[i].type==4) r.iso[i]=1; else if (r.iso[i]) { bool any=false; for (size_t k=0;k<N.e.size();k++) if (S.es[k]&&(N.e[k].i==i||N.e[k].j==i)) any=true; if (!S.lone||any) r.ok=false; } }
  for (size_t k=0;k<N.g.size();k++) if (S.gs[k]) { auto &g=N.g[k]; P[g.b]+=S.pg[k]/N.sbase; Q[g.b]+=g.qg/N.sbase; if (N.b[g.b].type!=1) r.v[g.b]=g.vs; if (N.b[g.b].type==2) pv[g.b]=1; }
  for (int i=0;i<n;i++) if (S.pq[i]) { pv[i]=0; Q[i]=S.qfix[i]/N.sbase; }
  for (size_t k=0;k<N.l.size();k++) if (N.l[k].st) { P[N.l[k].b]-=S.pl[k]/N.sbase; Q[N.l[k].b]-=S.ql[k]/N.sbase; }
  // everything in service must hang together with the reference
  std::vector<int> seen(n,0); int slack=-1; for (int i=0;i<n;i++) if (N.b[i].type==3) slack=i; if (slack<0||r.iso[slack]) r.ok=false; else { std::vector<int> q(1,slack); seen[slack]=1; while (q.size()) { int i=q.back(); q.pop_back(); for (size_t k=0;k<N.e.size();k++) if (S.es[k]&&!r.iso[N.e[k].i]&&!r.iso[N.e[k].j]) { int j=N.e[k].i==i?N.e[k].j:N.e[k].j==i?N.e[k].i:-1; if (j>=0&&!seen[j]) { seen[j]=1; q.push_back(j); } } } for (int i=0;i<n;i++) if (!seen[i]&&!r.iso[i]) r.ok=false; }
  r.s.assign(n,C(0)); if (!r.ok) return r;
  std::vector<int> ia(n,-1),iv(n,-1); int m=0; for (int i=0;i<n;i++) if (!r.iso[i]&&i!=slack) { ia[i]=m++; if (!pv[i]) iv[i]=m++; }
  for (int it=0;it<40;it++) {
    std::vector<C> V(n); for (int i=0;i<n;i++) V[i]=r.iso[i]?C(0):std::polar(r.v[i],r.a[i]); std::vector<double> f(m),J(m*m,0); double mx=0;
    for (int i=0;i<n;i++) { C I(0); for (int j=0;j<n;j++) I+=Y[i*n+j]*V[j]; r.s[i]=V[i]*std::conj(I); if (r.iso[i]) r.s[i]=0; if (ia[i]>=0) { f[ia[i]]=r.s[i].real()-P[i]; mx=std::max(mx,std::fabs(f[ia[i]])); } if (iv[i]>=0) { f[iv[i]]=r.s[i].imag()-Q[i]; mx=std::max(mx,std::fabs(f[iv[i]])); } }
    if (mx<1e-12) break; if (it==39) { r.ok=false; break; }
    for (int i=0;i<n;i++) if (ia[i]>=0) for (int j=0;j<n;j++) { C y=Y[i*n+j]; C da,dv; // derivatives of the injection at i with respect to the angle and magnitude at j
      if (i==j) { C I(0); for (int k=0;k<n;k++) I+=Y[i*n+k]*V[k]; da=C(0,1)*V[i]*std::conj(I)+V[i]*std::conj(y*C(0,1)*V[i]); dv=V[i]/r.v[i]*std::conj(I)+V[i]*std::conj(y*V[i]/r.v[i]); } else { if (r.iso[j]) continue; da=V[i]*std::conj(y*C(0,1)*V[j]); dv=V[i]*std::conj(y*V[j]/r.v[j]); }
      if (ia[j]>=0) { J[ia[i]*m+ia[j]]=da.real(); if (iv[i]>=0) J[iv[i]*m+ia[j]]=da.imag(); } if (iv[j]>=0) { J[ia[i]*m+iv[j]]=dv.real(); if (iv[i]>=0) J[iv[i]*m+iv[j]]=dv.imag(); } }
    for (int k=0;k<m;k++) { int p=k; for (int i=k;i<m;i++) if (std::fabs(J[i*m+k])>std::fabs(J[p*m+k])) p=i; for (int j=0;j<m;j++) std::swap(J[k*m+j],J[p*m+j]); std::swap(f[k],f[p]); for (int i=k+1;i<m;i++) { double c=J[i*m+k]/J[k*m+k]; for (int j=k;j<m;j++) J[i*m+j]-=c*J[k*m+j]; f[i]-=c*f[k]; } }
    for (int k=m-1;k>=0;k--) { for (int j=k+1;j<m;j++) f[k]-=J[k*m+j]*f[j]; f[k]/=J[k*m+k]; }
    for (int i=0;i<n;i++) { if (ia[i]>=0) r.a[i]-=f[ia[i]]; if (iv[i]>=0) r.v[i]-=f[iv[i]]; }
  }
  return r;
}
static C flow(const Net &N,const Sol &r,const Elem &e,bool rev) { C y=1.0/C(e.r,e.x),h(0,e.b/2),t=e.tap==0?C(1):std::polar(e.tap,e.ang*PI/180),vi=std::polar(r.v[e.i],r.a[e.i]),vj=std::polar(r.v[e.j],r.a[e.j]); C I=rev?(y+h+C(e.gj,e.bj))*vj-y/t*vi:((y+h)/std::norm(t)+C(e.gi,e.bi))*vi-y/std::conj(t)*vj; return (rev?vj:vi)*std::conj(I)*N.sbase; }
// buses whose reactive limits are exceeded are held at the limit
static bool over(const Net &N,St &s,const Sol &r) { bool ch=false; for (int i=0;i<N.n();i++) if (N.b[i].type==2&&!s.pq[i]&&!r.iso[i]) { double hi=0,lo=0; int on=0; for (size_t k=0;k<N.g.size();k++) if (N.g[k].b==i&&s.gs[k]) { on++; hi+=N.g[k].qt; lo+=N.g[k].qb; } if (!on) continue; double q=r.s[i].imag()*N.sbase; for (size_t k=0;k<N.l.size();k++) if (N.l[k].b==i&&N.l[k].st) q+=s.ql[k]; if (q>hi||q<lo) { s.pq[i]=1; s.qfix[i]=q>hi?hi:lo; ch=true; } } return ch; }
static St start(const Net &N) { St S; int n=N.n(); for (auto &e:N.e) S.es.push_back(e.st); for (auto &g:N.g) { S.gs.push_back(g.st); S.pg.push_back(g.pg); } for (auto &l:N.l) { S.pl.push_back(l.pl); S.ql.push_back(l.ql); } S.pq.assign(n,0); S.qfix.assign(n,0); S.lone=false; return S; }
