// vmpi: Global Arrays layer (C and the part of the C++ API GridPACK uses).
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include <ga++.h>
#include "core.hpp"
#include "mpi_int.hpp"
#include <algorithm>
#include <complex>
#include <map>

namespace vm {
struct Arr {                 // shared
  uint32_t id; int ndim, esize, type; int64_t dims[2], total; int nblk; int64_t lo[MAXR][2], hi[MAXR][2]; // per group rank
  uint64_t destroyed; char *data;
};
struct Pend { Arr *a; std::vector<int64_t> idx; std::vector<char> val; bool acc; };
struct Handle { bool used, alloc; int ndim; int64_t dims[2]; int type, grp; bool irreg; std::vector<int> map, blk; std::vector<int> chunk; Arr *a; };
static std::vector<Handle> H;
static std::vector<Comm*> P;           // process groups, P[k] is handle k (world is -1)
static std::vector<int> TY;            // registered type sizes
static int g_def=-1; static bool g_init=false; static std::vector<Pend> pend;
static std::map<std::vector<int>,int> pgcount;
static const int TYBASE=1017;

void ga_reset() { H.clear(); P.assign(1,(Comm*)0); TY.clear(); g_def=-1; g_init=false; pend.clear(); pgcount.clear(); }

static Comm *grp(int g)
{
  if (g==-1) return world_comm();
  if (g<0 || g>=(int)P.size() || !P[g]) die_fail("GA call on an invalid process group %d",g);
  return P[g];
}
static Handle &hd(int g)
{
  int k=g+1000;
  if (k<0 || k>=(int)H.size() || !H[k].used) die_fail("GA call on an invalid array handle %d",g);
  return H[k];
}
static Arr *arr(int g,const char *w)
{
  Handle &h=hd(g); if (!h.alloc) die_fail("%s on an array that is not allocated (handle %d)",w,g);
  if (h.a->destroyed) {}
  return h.a;
}
static int tysize(int t)
{
  switch(t) { case MT_C_CHAR: return 1; case MT_C_INT: return 4; case MT_C_LONGINT: return 8; case MT_C_FLOAT: return 4; case MT_C_DBL: return 8;
   case MT_C_SCPL: return 8; case MT_C_DCPL: return 16; case MT_C_LONGLONG: return 8; case MT_F_INT: return 8; case MT_F_DBL: return 8; case MT_F_DCPL: return 16; }
  int k=t-TYBASE; if (k>=0 && k<(int)TY.size() && TY[k]>0) return TY[k];
  die_fail("GA: invalid data type %d",t);
}
static void op_on(Arr *a,const std::vector<int64_t> &ix,bool write,const char *nm)
{
  Op o; memset(&o,0,sizeof(o)); o.kind=1; o.write=write; o.array=a->id; o.lo=INT64_MAX; o.hi=-1;
  for (auto i:ix) { o.lo=std::min(o.lo,i); o.hi=std::max(o.hi,i); }
  if (a->total<=256) { o.usebits=1; for (auto i:ix) o.bits[i>>6]|=(uint64_t)1<<(i&63); }
  snprintf(o.name,sizeof(o.name),"%s",nm); visible(o);
}
static void accum(int type,const char *in,char *io)
{
  switch(type) { case MT_C_INT: *(int*)io+=*(int*)in; break; case MT_C_LONGINT: *(long*)io+=*(long*)in; break; case MT_C_FLOAT: *(float*)io+=*(float*)in; break;
   case MT_C_DBL: *(double*)io+=*(double*)in; break; case MT_C_DCPL: *(std::complex<double>*)io+=*(std::complex<double>*)in; break; default: die_fail("GA accumulate on type %d",type); }
}
static void store(Arr *a,const std::vector<int64_t> &ix,const char *v,bool acc)
{ for (size_t k=0;k<ix.size();k++) { if (acc) accum(a->type,v+k*a->esize,a->data+ix[k]*a->esize); else memcpy(a->data+ix[k]*a->esize,v+k*a->esize,a->esize); } }
static void flush_pend(Arr *only)
{
  if (pend.empty()) return;
  std::vector<Pend> keep, go;
  for (auto &p:pend) { if (!only || p.a==only) go.push_back(p); else keep.push_back(p); }
  pend.swap(keep);
  for (auto &p:go) { op_on(p.a,p.idx,true,"delayed put"); store(p.a,p.idx,&p.val[0],p.acc); }
}
static void do_write(Arr *a,const std::vector<int64_t> &ix,const char *v,bool acc,const char *nm)
{
  if (ix.empty()) return;
  if (S->put_mode==1) { Pend p; p.a=a; p.idx=ix; p.val.assign(v,v+ix.size()*a->esize); p.acc=acc; pend.push_back(p); return; }
  op_on(a,ix,true,nm); store(a,ix,v,acc);
}
static void do_read(Arr *a,const std::vector<int64_t> &ix,char *v,const char *nm)
{
  if (ix.empty()) return;
  flush_pend(a);
  op_on(a,ix,false,nm);
  for (size_t k=0;k<ix.size();k++) memcpy(v+k*a->esize,a->data+ix[k]*a->esize,a->esize);
}
static void region(Arr *a,const int *lo,const int *hi,const int *ld,const char *nm,std::vector<int64_t> &ix,std::vector<int64_t> &off)
{
  for (int d=0;d<a->ndim;d++) if (lo[d]<0||hi[d]>=a->dims[d]||lo[d]>hi[d])
    die_fail("%s: region [%d:%d] outside of dimension %d of size %ld",nm,lo[d],hi[d],d,(long)a->dims[d]);
  if (a->ndim==1) { for (int i=lo[0];i<=hi[0];i++) { ix.push_back(i); off.push_back(i-lo[0]); } }
  else { int l=ld?ld[0]:hi[1]-lo[1]+1; for (int i=lo[0];i<=hi[0];i++) for (int j=lo[1];j<=hi[1];j++) { ix.push_back(i*a->dims[1]+j); off.push_back((int64_t)(i-lo[0])*l+(j-lo[1])); } }
}
static std::vector<int64_t> subs(Arr *a,int **s,int n,const char *nm)
{
  std::vector<int64_t> ix;
  for (int k=0;k<n;k++) { int64_t x=0; for (int d=0;d<a->ndim;d++) { if (s[k][d]<0||s[k][d]>=a->dims[d]) die_fail("%s: subscript %d outside of dimension %d of size %ld",nm,s[k][d],d,(long)a->dims[d]); x=x*a->dims[d]+s[k][d]; } ix.push_back(x); }
  return ix;
}
static void fence_sync(int g,int kind)
{ flush_pend(0); ga_collective(grp(g),kind); }

static int create_handle()
{ size_t k=0; while (k<H.size() && H[k].used) k++; if (k==H.size()) H.push_back(Handle()); H[k]=Handle(); H[k].used=true; H[k].alloc=false; H[k].grp=g_def; H[k].irreg=false; H[k].ndim=0; H[k].a=0; return (int)k-1000; }
static int allocate(int g)
{
  Handle &h=hd(g); if (h.alloc) die_fail("GA_Allocate: array already allocated");
  if (h.ndim==0) die_fail("GA_Allocate: data not set");
  for (int d=0;d<h.ndim;d++) if (h.dims[d]<1) die_fail("GA_Allocate: wrong dimension specified (%ld)",(long)h.dims[d]);
  flush_pend(0);
  Comm *c=grp(h.grp); int np=c->members.size();
  std::vector<int64_t> d; d.push_back(h.ndim); for (int i=0;i<h.ndim;i++) d.push_back(h.dims[i]); d.push_back(tysize(h.type)); d.push_back(h.irreg);
  if (h.irreg) { for (int x:h.blk) d.push_back(x); for (int x:h.map) d.push_back(x); }
  Slot *s=coll_enter(c,C_GAALLOC,0,&d[0],d.size()*8,d.size()*8);
  if (!s->aux[0]) {
    Arr *a=(Arr*)salloc(sizeof(Arr)); a->id=S->next_array++; a->ndim=h.ndim; a->esize=tysize(h.type); a->type=h.type; a->total=1;
    for (int i=0;i<h.ndim;i++) { a->dims[i]=h.dims[i]; a->total*=h.dims[i]; }
    for (int p=0;p<np;p++) for (int q=0;q<2;q++) { a->lo[p][q]=-1; a->hi[p][q]=-2; }
    if (h.ndim==1 && h.irreg) {
      int nb=h.blk[0]; if (nb>np) die_fail("GA_Set_irreg_distr: %d blocks on %d processes",nb,np);
      int last=0;
      for (int b=0;b<nb;b++) { int64_t lo=h.map[b], hi=(b+1<nb?h.map[b+1]:h.dims[0])-1; if (lo<last||lo>=h.dims[0]) die_fail("GA_Set_irreg_distr: map entry %ld outside of the dimension or not monotonic",(long)lo); last=lo; a->lo[b][0]=lo; a->hi[b][0]=hi; }
      if (nb>0 && h.map[0]!=0) die_fail("GA_Set_irreg_distr: map does not start at 0");
    } else if (h.irreg) die_fail("vm: irregular 2-D distributions are not modelled");
    else {
      int64_t n=h.dims[0]; int pe=(int)std::min<int64_t>(n,np);
      for (int p=0;p<pe;p++) { int64_t lo=(p*n+pe-1)/pe, hi=((p+1)*n+pe-1)/pe-1; a->lo[p][0]=lo; a->hi[p][0]=hi; if (h.ndim==2) { a->lo[p][1]=0; a->hi[p][1]=h.dims[1]-1; } }
    }
    a->data=(char*)salloc(a->total*a->esize); memset(a->data,0xCB,a->total*a->esize);
    s->aux[0]=(uint64_t)a;
  } else {
    for (size_t i=0;i<c->members.size();i++) if ((s->arrived>>i&1) && (int)i!=c->me && (s->len[i]!=d.size()*8 || memcmp(s->data[i],&d[0],d.size()*8)))
      die_fail("GA_Allocate: rank %d and rank %d describe different arrays",me,c->members[i]);
  }
  coll_wait(c,s,((uint64_t)1<<np)-1); h.a=(Arr*)s->aux[0]; h.alloc=true; coll_leave(c,s); return 1;
}
static void destroy(int g)
{
  Handle &h=hd(g);
  if (h.alloc) {
    flush_pend(0); Comm *c=grp(h.grp); Arr *a=h.a;
    Slot *s=coll_enter(c,C_GADESTROY,a->id,"",0,-1); coll_wait(c,s,((uint64_t)1<<c->members.size())-1);
    if (s->left==0) a->destroyed=1;
    coll_leave(c,s);
    // the shared block is not recycled: a stale access reads poison below
  }
  h.used=false;
}
static void gfill(int g,const void *v)
{
  Arr *a=arr(g,"GA_Fill/Zero"); Handle &h=hd(g);
  // the library looks up its own block first: an empty block of an irregular distribution aborts it
  if (!v && h.ndim==1 && h.irreg) { int me=grp(h.grp)->me, nb=h.blk[0]; if (me<nb) { int64_t lo=h.map[me], hi=(me+1<nb?h.map[me+1]:h.dims[0])-1; if (hi<lo) die_fail("GA_Zero: cannot access top of the patch (the block of process %d is empty)",me); } }
  fence_sync(h.grp,C_GAZERO);
  Comm *c=grp(h.grp);
  if (c->me==0) for (int64_t i=0;i<a->total;i++) { if (v) memcpy(a->data+i*a->esize,v,a->esize); else memset(a->data+i*a->esize,0,a->esize); }
  ga_collective(c,C_GAZERO);
}
static void gget(int g,int *lo,int *hi,void *buf,int *ld)
{
  Arr *a=arr(g,"NGA_Get"); std::vector<int64_t> ix,off; region(a,lo,hi,ld,"NGA_Get",ix,off);
  std::vector<char> t(ix.size()*a->esize); do_read(a,ix,&t[0],"NGA_Get");
  for (size_t k=0;k<ix.size();k++) memcpy((char*)buf+off[k]*a->esize,&t[k*a->esize],a->esize);
}
static void gput(int g,int *lo,int *hi,void *buf,int *ld)
{
  Arr *a=arr(g,"NGA_Put"); std::vector<int64_t> ix,off; region(a,lo,hi,ld,"NGA_Put",ix,off);
  std::vector<char> t(ix.size()*a->esize); for (size_t k=0;k<ix.size();k++) memcpy(&t[k*a->esize],(char*)buf+off[k]*a->esize,a->esize);
  do_write(a,ix,&t[0],false,"NGA_Put");
}
static void ggather(int g,void *v,int **s,int n) { if (n<1) return; Arr *a=arr(g,"NGA_Gather"); do_read(a,subs(a,s,n,"NGA_Gather"),(char*)v,"NGA_Gather"); }
static void gscatter(int g,void *v,int **s,int n) { if (n<1) return; Arr *a=arr(g,"NGA_Scatter"); do_write(a,subs(a,s,n,"NGA_Scatter"),(char*)v,false,"NGA_Scatter"); }
static void ggop(int g,void *x,int n,const char *op,MPI_Datatype t)
{
  MPI_Op o; std::string s=op;
  if (s=="+") o=MPI_SUM; else if (s=="*") o=MPI_PROD; else if (s=="max") o=MPI_MAX; else if (s=="min") o=MPI_MIN; else if (s=="&&") o=MPI_LAND; else if (s=="||") o=MPI_LOR;
  else { o=MPI_SUM; die_fail("vm: GA gop operation '%s'",op); }
  if (n<=0) return;                      // real GA returns immediately
  ga_reduce(grp(g),x,n,t,o);
}
} // namespace vm
using namespace vm;

extern "C" {
void GA_Initialize(void) { g_init=true; ga_collective(world_comm(),C_GASYNC); }
void NGA_Initialize(void) { GA_Initialize(); }
int GA_Initialized(void) { return g_init; }
void GA_Terminate(void) { if (g_init) { fence_sync(-1,C_GATERM); g_init=false; } }
Boolean MA_init(Integer,Integer,Integer) { return 1; }
Boolean MA_initialized() { return 1; }
Integer MA_sizeof(Integer t1,Integer n,Integer t2) { int a=tysize(t1),b=tysize(t2); return (a*n+b-1)/b; }
int GA_Nodeid(void) { return grp(g_def)->me; }
int NGA_Nodeid(void) { return GA_Nodeid(); }
int GA_Nnodes(void) { return grp(g_def)->members.size(); }
void GA_Sync(void) { fence_sync(g_def,C_GASYNC); }
void NGA_Sync(void) { GA_Sync(); }
void GA_Pgroup_sync(int g) { fence_sync(g,C_GASYNC); }
void NGA_Pgroup_sync(int g) { GA_Pgroup_sync(g); }
int GA_Pgroup_get_default(void) { return g_def; }
int GA_Pgroup_get_world(void) { return -1; }
void GA_Pgroup_set_default(int g) { grp(g); g_def=g; }
int GA_Pgroup_nnodes(int g) { return grp(g)->members.size(); }
int GA_Pgroup_nodeid(int g) { return grp(g)->me; }
int GA_Pgroup_create(int *list,int n)
{
  std::vector<int> m; Comm *d=grp(g_def); ga_collective(d,C_GAPGROUP);   // ARMCI makes the group with MPI_Comm_create on the default group
  for (int i=0;i<n;i++) { if (list[i]<0||list[i]>=(int)d->members.size()) die_fail("GA_Pgroup_create: invalid process %d",list[i]); m.push_back(d->members[list[i]]); }
  std::vector<int> srt=m; std::sort(srt.begin(),srt.end()); m=srt;   // GA sorts the list
  for (size_t i=1;i<m.size();i++) if (m[i]==m[i-1]) die_fail("GA_Pgroup_create: duplicate process %d",m[i]);
  int k=pgcount[m]++; uint32_t h=0x80000000u; for (int x:m) h=h*131+x+1; h|=0x80000000u;
  Slot *s=find_slot(h,k,m.size()); if (!s->aux[0]) { s->aux[0]=S->next_ctx; S->next_ctx+=2; }
  Comm *c=make_comm(s->aux[0],m);
  if (c->me<0) die_fail("GA_Pgroup_create by a process outside of the group");
  size_t q=1; while (q<P.size() && P[q]) q++; if (q==P.size()) P.push_back(0); P[q]=c; return q;
}
int GA_Pgroup_destroy(int g)
{ if (g<0) return 0; grp(g); for (auto &h:H) if (h.used && h.alloc && h.grp==g) die_fail("GA_Pgroup_destroy: attempt to destroy a process group with attached GAs"); P[g]=0; return 1; }
void GA_Pgroup_igop(int g,int x[],int n,char *op) { ggop(g,x,n,op,MPI_INT); }
void GA_Pgroup_lgop(int g,long x[],int n,char *op) { ggop(g,x,n,op,MPI_LONG); }
void GA_Pgroup_fgop(int g,float x[],int n,char *op) { ggop(g,x,n,op,MPI_FLOAT); }
void GA_Pgroup_dgop(int g,double x[],int n,char *op) { ggop(g,x,n,op,MPI_DOUBLE); }
void GA_Igop(int x[],int n,char *op) { ggop(g_def,x,n,op,MPI_INT); }
void GA_Dgop(double x[],int n,char *op) { ggop(g_def,x,n,op,MPI_DOUBLE); }
MPI_Comm GA_MPI_Comm() { return comm_handle(world_comm()); }
MPI_Comm GA_MPI_Comm_pgroup(int g) { return comm_handle(grp(g)); }
int GA_Create_handle(void) { return create_handle(); }
int NGA_Create_handle(void) { return create_handle(); }
void GA_Set_data(int g,int nd,int d[],int t) { Handle &h=hd(g); if (nd<1||nd>2) die_fail("vm: %d-dimensional GA not modelled",nd); if (h.alloc) die_fail("GA_Set_data on an allocated array"); tysize(t); h.ndim=nd; for (int i=0;i<nd;i++) h.dims[i]=d[i]; h.type=t; }
void NGA_Set_data(int g,int nd,int d[],int t) { GA_Set_data(g,nd,d,t); }
void GA_Set_pgroup(int g,int p) { Handle &h=hd(g); if (h.alloc) die_fail("GA_Set_pgroup on an allocated array"); grp(p); h.grp=p; }
void NGA_Set_pgroup(int g,int p) { GA_Set_pgroup(g,p); }
void GA_Set_chunk(int g,int c[]) { Handle &h=hd(g); if (h.alloc) die_fail("GA_Set_chunk: Cannot set chunk on array that has been allocated"); h.chunk.assign(c,c+h.ndim); }
void GA_Set_irreg_distr(int g,int map[],int blk[]) { Handle &h=hd(g); if (h.ndim==0) die_fail("GA_Set_irreg_distr: dimensions must be set first"); if (h.alloc) die_fail("GA_Set_irreg_distr on an allocated array"); h.irreg=true; h.blk.assign(blk,blk+h.ndim); long n=0; for (int x:h.blk) n+=x; h.map.assign(map,map+n);
  for (int d=0;d<h.ndim;d++) if (h.blk[d]>h.dims[d]) die_fail("GA_Set_irreg_distr: number of blocks (%d) must be <= corresponding dimension (%ld)",h.blk[d],(long)h.dims[d]); }
void NGA_Set_irreg_distr(int g,int map[],int blk[]) { GA_Set_irreg_distr(g,map,blk); }
int GA_Allocate(int g) { return allocate(g); }
int NGA_Allocate(int g) { return allocate(g); }
void GA_Destroy(int g) { destroy(g); }
void NGA_Destroy(int g) { destroy(g); }
void GA_Zero(int g) { gfill(g,0); }
void NGA_Zero(int g) { gfill(g,0); }
void NGA_Distribution(int g,int p,int lo[],int hi[]) { Arr *a=arr(g,"NGA_Distribution"); int n=grp(hd(g).grp)->members.size(); if (p<0||p>=n) die_fail("NGA_Distribution: invalid process %d",p); for (int d=0;d<a->ndim;d++) { lo[d]=a->lo[p][d]; hi[d]=a->hi[p][d]; } }
void NGA_Get(int g,int lo[],int hi[],void *b,int ld[]) { gget(g,lo,hi,b,ld); }
void NGA_Put(int g,int lo[],int hi[],void *b,int ld[]) { gput(g,lo,hi,b,ld); }
void NGA_Gather(int g,void *v,int **s,int n) { ggather(g,v,s,n); }
void NGA_Scatter(int g,void *v,int **s,int n) { gscatter(g,v,s,n); }
void NGA_Scatter_acc(int g,void *v,int **s,int n,void *alpha)
{ if (n<1) return; Arr *a=arr(g,"NGA_Scatter_acc"); std::vector<int64_t> ix=subs(a,s,n,"NGA_Scatter_acc"); std::vector<char> t((char*)v,(char*)v+(size_t)n*a->esize);
  if (a->type==MT_C_DBL) { for (int i=0;i<n;i++) ((double*)&t[0])[i]*=*(double*)alpha; } else if (a->type==MT_C_INT) { for (int i=0;i<n;i++) ((int*)&t[0])[i]*=*(int*)alpha; } else if (a->type==MT_C_LONGINT) { for (int i=0;i<n;i++) ((long*)&t[0])[i]*=*(long*)alpha; } else if (a->type==MT_C_DCPL) { for (int i=0;i<n;i++) ((std::complex<double>*)&t[0])[i]*=*(std::complex<double>*)alpha; } else die_fail("vm: scatter_acc type %d",a->type);
  do_write(a,ix,&t[0],true,"NGA_Scatter_acc"); }
long NGA_Read_inc(int g,int s[],long inc)
{ Arr *a=arr(g,"NGA_Read_inc"); int *p=s; std::vector<int64_t> ix=subs(a,&p,1,"NGA_Read_inc"); flush_pend(a); op_on(a,ix,true,"NGA_Read_inc");
  char *q=a->data+ix[0]*a->esize; long r; if (a->type==MT_C_INT) { r=*(int*)q; *(int*)q+=inc; } else if (a->type==MT_C_LONGINT||a->type==MT_C_LONGLONG) { r=*(long*)q; *(long*)q+=inc; } else die_fail("NGA_Read_inc on type %d",a->type); return r; }
static void access(int g,int lo[],int hi[],void *ptr,int ld[],bool rel)
{
  Arr *a=arr(g,"NGA_Access"); Comm *c=grp(hd(g).grp); std::vector<int64_t> ix,off; region(a,lo,hi,0,rel?"NGA_Release":"NGA_Access",ix,off);
  for (int d=0;d<a->ndim;d++) if (lo[d]<a->lo[c->me][d]||hi[d]>a->hi[c->me][d]) die_fail("NGA_Access: region [%d:%d] is not local (%ld:%ld)",lo[d],hi[d],(long)a->lo[c->me][d],(long)a->hi[c->me][d]);
  flush_pend(a); op_on(a,ix,true,rel?"NGA_Release":"NGA_Access");
  if (!rel) { *(char**)ptr=a->data+ix[0]*a->esize; if (a->ndim==2) ld[0]=a->dims[1]; }
}
void NGA_Access(int g,int lo[],int hi[],void *ptr,int ld[]) { access(g,lo,hi,ptr,ld,false); }
void NGA_Release(int g,int lo[],int hi[]) { arr(g,"NGA_Release"); if (0) access(g,lo,hi,0,0,true); }
void NGA_Release_update(int g,int lo[],int hi[]) { NGA_Release(g,lo,hi); }
int NGA_Register_type(size_t n) { size_t k=0; while (k<TY.size()&&TY[k]>0) k++; if (k>=239) return -1; /* GA's limit */ if (k==TY.size()) TY.push_back(0); TY[k]=(int)n; return TYBASE+k; }
int NGA_Deregister_type(int t) { int k=t-TYBASE; if (k<0||k>=(int)TY.size()||TY[k]<=0) die_fail("NGA_Deregister_type: type %d is not registered",t); TY[k]=0; return 1; }
void GA_Error(char *m,int c) { die_fail("GA_Error: %s %d",m,c); }
} // extern "C"

namespace GA {
GlobalArray::GlobalArray(int type,int ndim,int dims[],char *,int chunk[])
{ mHandle=create_handle(); GA_Set_data(mHandle,ndim,dims,type); if (chunk) GA_Set_chunk(mHandle,chunk); vm::allocate(mHandle); }
GlobalArray::~GlobalArray() { vm::destroy(mHandle); }
void GlobalArray::fill(void *v) const { gfill(mHandle,v); }
void GlobalArray::zero() const { gfill(mHandle,0); }
void GlobalArray::get(int lo[],int hi[],void *b,int ld[]) const { gget(mHandle,lo,hi,b,ld); }
void GlobalArray::put(int lo[],int hi[],void *b,int ld[]) const { gput(mHandle,lo,hi,b,ld); }
void GlobalArray::gather(void *v,int *s[],int n) const { ggather(mHandle,v,s,n); }
void GlobalArray::scatter(void *v,int *s[],int n) const { gscatter(mHandle,v,s,n); }
int GAServices::nodeid() { return GA_Nodeid(); }
GAServices::GAServices() {}
GAServices::~GAServices() {}
GAServices SERVICES;
}

namespace vm {
void par_begin() { int a=0; MPI_Init(&a,0); GA_Initialize(); MA_init(MT_C_DBL,100000,100000); }
void par_end() { GA_Terminate(); MPI_Finalize(); }
}
