// vmpi: MPI layer (C bindings, ABI of the installed Open MPI headers).
#define OMPI_SKIP_MPICXX 1
#include <mpi.h>
#include "core.hpp"
#include "mpi_int.hpp"
#include <unordered_map>
#include <algorithm>
#include <complex>
#include <unistd.h>
#include <time.h>
#include <sys/time.h>

namespace vm {

// ------------------------------------------------------------- datatypes
static std::unordered_map<const void*,DT*> g_pre;
static DT *mk(int size, int kind, int extent=0)
{
  DT *d=new DT; d->magic=DT_MAGIC; d->size=size; d->extent=extent?extent:size; d->lb=0; d->kind=kind;
  d->segs.push_back(Seg{0,size}); d->combiner=MPI_COMBINER_NAMED; return d;
}
static void init_types()
{
  if (!g_pre.empty()) return;
#define T(x,s,k) g_pre[(const void*)(x)]=mk(s,k)
  T(MPI_CHAR,1,K_I8); T(MPI_SIGNED_CHAR,1,K_I8); T(MPI_UNSIGNED_CHAR,1,K_U8); T(MPI_BYTE,1,K_U8);
  T(MPI_PACKED,1,K_U8); T(MPI_SHORT,2,K_I16); T(MPI_UNSIGNED_SHORT,2,K_U16); T(MPI_INT,4,K_I32);
  T(MPI_UNSIGNED,4,K_U32); T(MPI_LONG,8,K_I64); T(MPI_UNSIGNED_LONG,8,K_U64); T(MPI_LONG_LONG_INT,8,K_I64);
  T(MPI_UNSIGNED_LONG_LONG,8,K_U64); T(MPI_FLOAT,4,K_F32); T(MPI_DOUBLE,8,K_F64);
  T(MPI_LONG_DOUBLE,16,K_F80); T(MPI_WCHAR,4,K_I32); T(MPI_C_BOOL,1,K_BOOL); T(MPI_INT8_T,1,K_I8);
  T(MPI_UINT8_T,1,K_U8); T(MPI_INT16_T,2,K_I16); T(MPI_UINT16_T,2,K_U16); T(MPI_INT32_T,4,K_I32);
  T(MPI_UINT32_T,4,K_U32); T(MPI_INT64_T,8,K_I64); T(MPI_UINT64_T,8,K_U64); T(MPI_AINT,8,K_I64);
  T(MPI_C_COMPLEX,8,K_C64); T(MPI_C_DOUBLE_COMPLEX,16,K_C128); T(MPI_2INT,8,K_2INT);
  T(MPI_INTEGER,4,K_I32); T(MPI_INTEGER8,8,K_I64); T(MPI_DOUBLE_PRECISION,8,K_F64); T(MPI_DOUBLE_COMPLEX,16,K_C128);
  T(MPI_2DOUBLE_PRECISION,16,K_2DBL); T(MPI_REAL,4,K_F32); T(MPI_COMPLEX,8,K_C64); T(MPI_CXX_BOOL,1,K_BOOL);
  T(MPI_CXX_DOUBLE_COMPLEX,16,K_C128); T(MPI_CXX_FLOAT_COMPLEX,8,K_C64); T(MPI_OFFSET,8,K_I64); T(MPI_COUNT,8,K_I64);
#undef T
  DT *d=mk(12,K_DBLINT,16); d->segs.clear(); d->segs.push_back(Seg{0,12}); g_pre[(const void*)MPI_DOUBLE_INT]=d;
  d=mk(12,K_LNGINT,16); g_pre[(const void*)MPI_LONG_INT]=d;
  d=mk(8,K_FLTINT); g_pre[(const void*)MPI_FLOAT_INT]=d;
}
DT *dt(MPI_Datatype t)
{
  init_types();
  auto it=g_pre.find((const void*)t); if (it!=g_pre.end()) return it->second;
  DT *d=(DT*)t;
  if (!d || t==MPI_DATATYPE_NULL) die_fail("MPI call with a null datatype");
  if (d->magic!=DT_MAGIC) die_fail("vm: unknown MPI datatype %p",(void*)t);
  return d;
}
static bool contig(DT *d) { return d->segs.size()==1 && d->segs[0].off==0 && d->segs[0].len==d->extent; }
void pack(const void *buf, long count, DT *d, char *out)
{
  if (contig(d)) { if (count) memcpy(out,buf,count*d->extent); return; }
  const char *b=(const char*)buf;
  for (long i=0;i<count;i++) for (auto &s:d->segs) { memcpy(out,b+i*d->extent+s.off,s.len); out+=s.len; }
}
void unpack(const char *in, long bytes, void *buf, DT *d)
{
  if (contig(d)) { if (bytes) memcpy(buf,in,bytes); return; }
  char *b=(char*)buf; long i=0;
  while (bytes>0) { for (auto &s:d->segs) { long l=std::min<long>(s.len,bytes); memcpy(b+i*d->extent+s.off,in,l); in+=l; bytes-=l; if (bytes<=0) break; } i++; }
}
static void finish_type(DT *d)
{ d->size=0; for (auto &s:d->segs) d->size+=s.len;
  std::vector<Seg> m; for (auto &s:d->segs) { if (!m.empty() && m.back().off+m.back().len==s.off) m.back().len+=s.len; else if (s.len) m.push_back(s); }
  if (m.empty()) m.push_back(Seg{0,0}); d->segs=m; }
static void addblocks(DT *d, DT *b, long disp, long n)
{ for (long i=0;i<n;i++) for (auto &s:b->segs) d->segs.push_back(Seg{disp+i*b->extent+s.off,s.len}); }
static DT *newdt(DT *b, int comb) { DT *d=new DT; d->magic=DT_MAGIC; d->kind=b?b->kind:K_NONE; d->lb=0; d->combiner=comb; return d; }

// ------------------------------------------------------------- reductions
template<class T> static void red(int op, const T *in, T *io, long n)
{
  for (long i=0;i<n;i++) switch(op) {
    case O_SUM: io[i]=(T)(io[i]+in[i]); break; case O_PROD: io[i]=(T)(io[i]*in[i]); break;
    case O_MAX: if (in[i]>io[i]) io[i]=in[i]; break; case O_MIN: if (in[i]<io[i]) io[i]=in[i]; break;
    case O_LAND: io[i]=(T)(io[i]&&in[i]); break; case O_LOR: io[i]=(T)(io[i]||in[i]); break;
    case O_LXOR: io[i]=(T)(!io[i]!=!in[i]); break; case O_REPLACE: io[i]=in[i]; break;
    default: die_fail("vm: reduction op %d not valid for type",op); }
}
template<class T> static void redi(int op, const T *in, T *io, long n)
{
  for (long i=0;i<n;i++) switch(op) {
    case O_BAND: io[i]&=in[i]; break; case O_BOR: io[i]|=in[i]; break; case O_BXOR: io[i]^=in[i]; break;
    default: red(op,in+i,io+i,1); }
}
template<class T> static void redc(int op, const T *in, T *io, long n)
{
  for (long i=0;i<n;i++) switch(op) {
    case O_SUM: io[i]+=in[i]; break; case O_PROD: io[i]*=in[i]; break; case O_REPLACE: io[i]=in[i]; break;
    default: die_fail("vm: reduction op %d not valid for complex",op); }
}
template<class P> static void redloc(int op, const P *in, P *io, long n)
{
  for (long i=0;i<n;i++) {
    bool take = op==O_MAXLOC ? (in[i].v>io[i].v || (in[i].v==io[i].v && in[i].i<io[i].i))
              : op==O_MINLOC ? (in[i].v<io[i].v || (in[i].v==io[i].v && in[i].i<io[i].i)) : (die_fail("vm: bad pair op"),false);
    if (take) io[i]=in[i];
  }
}
struct DI { double v; int i; }; struct LI { long v; int i; }; struct FI { float v; int i; }; struct II { int v; int i; }; struct DD { double v,i; };

int opcode(MPI_Op op)
{
  if (op==MPI_SUM) return O_SUM; if (op==MPI_PROD) return O_PROD; if (op==MPI_MAX) return O_MAX; if (op==MPI_MIN) return O_MIN;
  if (op==MPI_LAND) return O_LAND; if (op==MPI_LOR) return O_LOR; if (op==MPI_LXOR) return O_LXOR; if (op==MPI_BAND) return O_BAND;
  if (op==MPI_BOR) return O_BOR; if (op==MPI_BXOR) return O_BXOR; if (op==MPI_MAXLOC) return O_MAXLOC; if (op==MPI_MINLOC) return O_MINLOC;
  if (op==MPI_REPLACE) return O_REPLACE;
  return O_USER;
}
struct UserOp { uint64_t magic; MPI_User_function *f; int commute; };

// io = io OP in   (in is the lower rank operand: result = in OP io in MPI order)
static void reduce_native(int op, const void *in, void *io, long n, int kind)
{
  switch(kind) {
    case K_I8: redi(op,(const int8_t*)in,(int8_t*)io,n); break; case K_U8: redi(op,(const uint8_t*)in,(uint8_t*)io,n); break;
    case K_I16: redi(op,(const int16_t*)in,(int16_t*)io,n); break; case K_U16: redi(op,(const uint16_t*)in,(uint16_t*)io,n); break;
    case K_I32: redi(op,(const int32_t*)in,(int32_t*)io,n); break; case K_U32: redi(op,(const uint32_t*)in,(uint32_t*)io,n); break;
    case K_I64: redi(op,(const int64_t*)in,(int64_t*)io,n); break; case K_U64: redi(op,(const uint64_t*)in,(uint64_t*)io,n); break;
    case K_F32: red(op,(const float*)in,(float*)io,n); break; case K_F64: red(op,(const double*)in,(double*)io,n); break;
    case K_BOOL: red(op,(const bool*)in,(bool*)io,n); break;
    case K_C64: redc(op,(const std::complex<float>*)in,(std::complex<float>*)io,n); break;
    case K_C128: redc(op,(const std::complex<double>*)in,(std::complex<double>*)io,n); break;
    case K_2INT: redloc(op,(const II*)in,(II*)io,n); break; case K_DBLINT: redloc(op,(const DI*)in,(DI*)io,n); break;
    case K_LNGINT: redloc(op,(const LI*)in,(LI*)io,n); break; case K_FLTINT: redloc(op,(const FI*)in,(FI*)io,n); break;
    case K_2DBL: redloc(op,(const DD*)in,(DD*)io,n); break;
    default: die_fail("vm: reduction on unsupported datatype kind %d",kind);
  }
}
static void reduce_into(MPI_Op op, MPI_Datatype t, const char *in, char *io, long count)
{
  DT *d=dt(t);
  int oc=opcode(op);
  if (oc!=O_USER) {
    if (d->kind==K_NONE) die_fail("vm: predefined op on a derived datatype");
    long per=1;
    if (d->combiner!=MPI_COMBINER_NAMED) per=d->size/ kind_size(d->kind);
    reduce_native(oc,in,io,count*per,d->kind);
  } else {
    UserOp *u=(UserOp*)op;
    int n=(int)count; MPI_Datatype tt=t;
    // user function: inoutvec = invec op inoutvec
    u->f((void*)in,(void*)io,&n,&tt);
  }
}

// ------------------------------------------------------------- communicators
static Comm *g_world=0, *g_self=0;
Comm *comm(MPI_Comm c)
{
  if (c==MPI_COMM_WORLD) return g_world;
  if (c==MPI_COMM_SELF) return g_self;
  if (c==MPI_COMM_NULL || !c) die_fail("MPI call on MPI_COMM_NULL");
  Comm *x=(Comm*)c;
  if (x->magic!=COMM_MAGIC) die_fail("MPI call on an invalid (freed?) communicator");
  return x;
}
static MPI_Comm handle(Comm *c)
{ if (c==g_world) return MPI_COMM_WORLD; if (c==g_self) return MPI_COMM_SELF; return (MPI_Comm)c; }
Comm *make_comm(int ctx, const std::vector<int> &members)
{
  Comm *c=new Comm; c->magic=COMM_MAGIC; c->ctx=ctx; c->members=members; c->seq=0; c->me=-1;
  for (size_t i=0;i<members.size();i++) if (members[i]==me) c->me=i;
  return c;
}

// ------------------------------------------------------------- collectives
Slot *find_slot(uint32_t ctx, uint32_t seq, int size)
{
  uint32_t h=(ctx*2654435761u ^ seq*40503u)&4095;
  Slot **pp=(Slot**)&S->slots[h];
  for (Slot *s=*pp; s; s=s->next) if (s->ctx==ctx && s->seq==seq) return s;
  Slot *s=(Slot*)salloc(sizeof(Slot));
  s->ctx=ctx; s->seq=seq; s->size=size; s->kind=-1; s->next=*pp; *pp=s; return s;
}
Slot *coll_enter(Comm *c, int kind, int root, const void *data, size_t len, long sig)
{
  Slot *s=find_slot(c->ctx,c->seq++,c->members.size());
  if (s->kind<0) { s->kind=kind; s->root=root; s->first=me; }
  else {
    if (s->kind!=kind)
      die_fail("collective mismatch: rank %d calls %s while rank %d calls %s on the same group (call %u)",
        me,coll_name(kind),s->first,coll_name(s->kind),s->seq);
    if (s->root!=root) die_fail("collective mismatch: %s with root %d on rank %d and %d on rank %d",coll_name(kind),root,me,s->root,s->first);
  }
  s->sig[c->me]=sig;
  if (sig>=0) for (size_t i=0;i<c->members.size();i++) if ((s->arrived>>i&1) && s->sig[i]>=0 && s->sig[i]!=sig)
    die_fail("collective mismatch: %s with %ld bytes on rank %d and %ld bytes on rank %d",coll_name(kind),sig,me,s->sig[i],c->members[i]);
  s->data[c->me]=(char*)salloc(len); s->len[c->me]=len;
  if (len) memcpy(s->data[c->me],data,len);
  s->arrived|=(uint64_t)1<<c->me; S->progress++;
  return s;
}
static uint64_t full(Comm *c) { return ((uint64_t)1<<c->members.size())-1; }
void coll_wait(Comm *c, Slot *s, uint64_t need) { wait_word(&s->arrived,need,coll_name(s->kind)); }
void coll_leave(Comm *c, Slot *s)
{
  s->left|=(uint64_t)1<<c->me;
  if (s->left==full(c)) {
    for (size_t i=0;i<c->members.size();i++) sfree(s->data[i],s->len[i]);
    uint32_t h=(s->ctx*2654435761u ^ s->seq*40503u)&4095;
    Slot **pp=(Slot**)&S->slots[h]; while (*pp!=s) pp=&(*pp)->next; *pp=s->next;
    sfree(s,sizeof(Slot));
  }
}
const char *coll_name(int k)
{
  static const char *n[]={"MPI_Barrier","MPI_Bcast","MPI_Reduce","MPI_Allreduce","MPI_Gather","MPI_Scatter","MPI_Allgather",
   "MPI_Alltoall","MPI_Scan","MPI_Exscan","MPI_Reduce_scatter","comm creation","GA_Sync","GA_Allocate","GA_Destroy","GA_Zero/Fill","GA_gop","GA_Terminate","GA_Pgroup_create"};
  return k>=0&&k<(int)(sizeof(n)/sizeof(*n))?n[k]:"collective";
}

struct Req {
  uint64_t magic; int type;               // 1 send, 2 recv, 3 coll, 4 persistent send, 5 persistent recv
  bool active, persistent;
  volatile uint64_t *wp; uint64_t need;   // completion condition
  PostS *post; SendS *snd;
  void *buf; long count; DT *d; int peer, tag; Comm *c; bool sync;
  std::function<void()> fin; MPI_Status st; bool cancelled;
};
static const uint64_t REQ_MAGIC=0x52455153ull;
static Req *newreq(int type) { Req *r=new Req; r->magic=REQ_MAGIC; r->type=type; r->active=true; r->persistent=false; r->wp=0; r->need=1; r->post=0; r->snd=0; r->c=0; r->sync=false; r->cancelled=false;
  memset(&r->st,0,sizeof(r->st)); r->st.MPI_SOURCE=MPI_ANY_SOURCE; r->st.MPI_TAG=MPI_ANY_TAG; return r; }
static Req *rq(MPI_Request r) { Req *x=(Req*)r; if (x->magic!=REQ_MAGIC) die_fail("MPI call on an invalid request"); return x; }

// ------------------------------------------------------------- point to point
static bool match(int ctx, int src, int tag, int mctx, int msrc, int mtag)
{ return ctx==mctx && (src==MPI_ANY_SOURCE||src==msrc) && (tag==MPI_ANY_TAG||tag==mtag); }
static void complete_match(PostS *p, SendS *m)
{
  p->src=m->src; p->tag=m->tag; p->len=m->len; p->data=m->data; p->done=1;
  m->matched=1; S->progress++;
}
static SendS *do_send(const void *buf, long count, DT *d, int dest, int tag, Comm *c)
{
  if (dest<0 || dest>=(int)c->members.size()) die_fail("MPI send to invalid rank %d in a communicator of size %d",dest,(int)c->members.size());
  int w=c->members[dest];
  SendS *m=(SendS*)salloc(sizeof(SendS));
  m->ctx=c->ctx; m->src=c->me; m->tag=tag; m->len=count*d->size; m->data=(char*)salloc(m->len);
  pack(buf,count,d,m->data);
  // a posted receive?
  PostS *prev=0;
  for (PostS *p=(PostS*)S->post_head[w]; p; prev=p,p=p->next)
    if (match(p->ctx,p->rsrc,p->rtag,m->ctx,m->src,m->tag)) {
      if (prev) prev->next=p->next; else S->post_head[w]=p->next;
      if (S->post_tail[w]==p) S->post_tail[w]=prev;
      complete_match(p,m); return m;
    }
  m->next=0;
  if (S->unexp_tail[w]) ((SendS*)S->unexp_tail[w])->next=m; else S->unexp_head[w]=m;
  S->unexp_tail[w]=m; S->progress++;
  return m;
}
static void unlink_unexp(int w, SendS *prev, SendS *m)
{ if (prev) prev->next=m->next; else S->unexp_head[w]=m->next; if (S->unexp_tail[w]==m) S->unexp_tail[w]=prev; }
static PostS *do_post(int src, int tag, Comm *c)
{
  PostS *p=(PostS*)salloc(sizeof(PostS));
  p->ctx=c->ctx; p->rsrc=src; p->rtag=tag;
  SendS *prev=0;
  for (SendS *m=(SendS*)S->unexp_head[me]; m; prev=m,m=m->next)
    if (match(c->ctx,src,tag,m->ctx,m->src,m->tag)) { unlink_unexp(me,prev,m); complete_match(p,m); return p; }
  p->next=0;
  if (S->post_tail[me]) ((PostS*)S->post_tail[me])->next=p; else S->post_head[me]=p;
  S->post_tail[me]=p; return p;
}
static void cancel_post(PostS *q)
{
  PostS *prev=0;
  for (PostS *p=(PostS*)S->post_head[me]; p; prev=p,p=p->next) if (p==q) {
    if (prev) prev->next=p->next; else S->post_head[me]=p->next; if (S->post_tail[me]==p) S->post_tail[me]=prev; return; }
}
static void finish_recv(PostS *p, void *buf, long count, DT *d, MPI_Status *st)
{
  if (p->len > count*d->size) die_fail("MPI receive truncated: message of %ld bytes into a buffer of %ld",(long)p->len,count*d->size);
  unpack(p->data,p->len,buf,d);
  if (st && st!=MPI_STATUS_IGNORE) { st->MPI_SOURCE=p->src; st->MPI_TAG=p->tag; st->MPI_ERROR=MPI_SUCCESS; st->_ucount=p->len; st->_cancelled=0; }
  sfree(p->data,p->len); sfree(p,sizeof(PostS));
}
// wildcard receives are decided only when nothing else can run (POE order):
// the visible() call makes the choice of *when*; matching is then first-come.
static void wildcard_point(int src, const char *what)
{
  if (src!=MPI_ANY_SOURCE) return;
  Op o; memset(&o,0,sizeof(o)); o.kind=2; snprintf(o.name,sizeof(o.name),"%s",what);
  visible(o);
}

// start/finish
static void send_blocking(const void *buf,long n,DT *d,int dest,int tag,Comm *c,bool sync)
{
  if (dest==MPI_PROC_NULL) return;
  SendS *m=do_send(buf,n,d,dest,tag,c);
  if (sync||S->send_mode==1) { char w[40]; snprintf(w,40,"MPI_Send(dest=%d,tag=%d)",dest,tag); wait_word(&m->matched,1,w); }
}
static Req *isend(const void *buf,long n,DT *d,int dest,int tag,Comm *c,bool sync)
{
  Req *r=newreq(1);
  static uint64_t one=1;
  if (dest==MPI_PROC_NULL) { r->wp=&one; r->need=1; return r; }
  r->snd=do_send(buf,n,d,dest,tag,c);
  if (sync||S->send_mode==1) { r->wp=&r->snd->matched; r->need=1; } else { r->wp=&one; r->need=1; }
  return r;
}
static Req *irecv(void *buf,long n,DT *d,int src,int tag,Comm *c)
{
  Req *r=newreq(2); r->buf=buf; r->count=n; r->d=d; r->c=c; r->peer=src; r->tag=tag;
  static uint64_t one=1;
  if (src==MPI_PROC_NULL) { r->wp=&one; return r; }
  if (src!=MPI_ANY_SOURCE && (src<0||src>=(int)c->members.size())) die_fail("MPI receive from invalid rank %d",src);
  r->post=do_post(src,tag,c); r->wp=&r->post->done; r->need=1; return r;
}
static bool req_ready(Req *r) { return !r->active || cond(r->wp,r->need); }
static void req_finish(MPI_Request *h, MPI_Status *st)
{
  Req *r=rq(*h);
  if (r->active) {
    if (r->type==2||r->type==5) {
      if (r->post && !r->cancelled) { finish_recv(r->post,r->buf,r->count,r->d,&r->st); r->post=0; }
      else { r->st.MPI_SOURCE=MPI_PROC_NULL; r->st._ucount=0; r->st._cancelled=r->cancelled; }
    }
    if (r->fin) r->fin();
    r->active=false;
  }
  if (st && st!=MPI_STATUS_IGNORE) { int e=st->MPI_ERROR; *st=r->st; (void)e; st->MPI_ERROR=MPI_SUCCESS; }
  if (!r->persistent) { r->magic=0; delete r; *h=MPI_REQUEST_NULL; }
}
static void empty_status(MPI_Status *st)
{ if (st && st!=MPI_STATUS_IGNORE) { memset(st,0,sizeof(*st)); st->MPI_SOURCE=MPI_ANY_SOURCE; st->MPI_TAG=MPI_ANY_TAG; } }
static const char *rname(Req *r, char *b)
{ if (r->type==2||r->type==5) snprintf(b,40,"wait recv(src=%d,tag=%d)",r->peer,r->tag); else if (r->type==3) snprintf(b,40,"wait collective"); else snprintf(b,40,"wait send"); return b; }

static bool g_inited=false, g_fin=false;
static std::unordered_map<int,std::pair<MPI_Comm_copy_attr_function*,std::pair<MPI_Comm_delete_attr_function*,void*>>> g_keys;
static int g_nextkey=1000;

void ga_reset();

void rank_init_hook()
{
  std::vector<int> all; for (int i=0;i<S->np;i++) all.push_back(i);
  g_world=make_comm(1,all);
  g_self=make_comm(10+me,std::vector<int>(1,me));
  ga_reset();
}
Comm *world_comm() { return g_world; }

} // namespace vm
using namespace vm;

#define UNIMPL(n) die_fail("vm: " n " is not implemented")
struct GroupS { uint64_t magic; std::vector<int> m; };
static GroupS *grp(MPI_Group g) { static GroupS e; if (g==MPI_GROUP_EMPTY) { e.m.clear(); return &e; } return (GroupS*)g; }
static MPI_Group mkgrp(const std::vector<int> &m) { GroupS *g=new GroupS; g->magic=1; g->m=m; return (MPI_Group)g; }

struct CommHandleTab { std::vector<MPI_Comm> v; };
static std::vector<void*> g_ftab;

extern "C" {

int MPI_Init(int*,char***) { g_inited=true; return 0; }
int MPI_Init_thread(int*,char***,int req,int *prov) { g_inited=true; if (prov) *prov=req; return 0; }
int MPI_Initialized(int *f) { *f=g_inited; return 0; }
int MPI_Finalize(void) { g_fin=true; return 0; }
int MPI_Finalized(int *f) { *f=g_fin; return 0; }
int MPI_Query_thread(int *p) { *p=MPI_THREAD_SINGLE; return 0; }
int MPI_Is_thread_main(int *f) { *f=1; return 0; }
int MPI_Abort(MPI_Comm, int code) { die_fail("rank %d: MPI_Abort(%d)",me,code); }
double MPI_Wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
double MPI_Wtick(void) { return 1e-9; }
int MPI_Get_processor_name(char *n,int *l) { strcpy(n,"vm"); *l=2; return 0; }
int MPI_Get_version(int *a,int *b) { *a=3; *b=1; return 0; }
int MPI_Get_library_version(char *s,int *l) { strcpy(s,"Open MPI v4.1.6 (vmpi)"); *l=strlen(s); return 0; }
int MPI_Error_string(int c,char *s,int *l) { *l=sprintf(s,"MPI error %d",c); return 0; }
int MPI_Error_class(int c,int *k) { *k=c; return 0; }
int MPI_Add_error_class(int *c) { *c=1000; return 0; }
int MPI_Add_error_code(int,int *c) { *c=1001; return 0; }
int MPI_Alloc_mem(MPI_Aint n,MPI_Info,void *p) { *(void**)p=malloc(n?n:1); return 0; }
int MPI_Free_mem(void *p) { free(p); return 0; }
int MPI_Pcontrol(const int,...) { return 0; }

int MPI_Comm_rank(MPI_Comm c,int *r) { *r=comm(c)->me; return 0; }
int MPI_Comm_size(MPI_Comm c,int *r) { *r=comm(c)->members.size(); return 0; }
int MPI_Comm_test_inter(MPI_Comm,int *f) { *f=0; return 0; }
int MPI_Comm_remote_size(MPI_Comm,int*) { UNIMPL("MPI_Comm_remote_size"); }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int *r)
{
  if (a==b) { *r=MPI_IDENT; return 0; }
  Comm *x=comm(a),*y=comm(b);
  if (x->members==y->members) *r=MPI_CONGRUENT;
  else { auto p=x->members,q=y->members; std::sort(p.begin(),p.end()); std::sort(q.begin(),q.end()); *r=p==q?MPI_SIMILAR:MPI_UNEQUAL; }
  return 0;
}
static void copy_attrs(MPI_Comm oc, Comm *o, Comm *n)
{
  for (auto &p:o->attrs) {
    auto it=g_keys.find(p.first); if (it==g_keys.end()||!it->second.first) continue;
    void *out=0; int flag=0;
    if (it->second.first==MPI_COMM_DUP_FN) { out=p.second; flag=1; }
    else if (it->second.first==MPI_COMM_NULL_COPY_FN) flag=0;
    else it->second.first(oc,p.first,it->second.second.second,p.second,&out,&flag);
    if (flag) n->attrs[p.first]=out;
  }
}
int MPI_Comm_split(MPI_Comm oc,int color,int key,MPI_Comm *out)
{
  Comm *c=comm(oc); int v[2]={color,key};
  Slot *s=coll_enter(c,C_COMM,0,v,sizeof(v),-1);
  if (s->aux[0]==0) { s->aux[0]=S->next_ctx; S->next_ctx+=c->members.size(); }
  coll_wait(c,s,((uint64_t)1<<c->members.size())-1);
  std::vector<std::pair<int,int>> mem; std::vector<int> colors;
  for (size_t i=0;i<c->members.size();i++) {
    int *q=(int*)s->data[i];
    if (q[0]==MPI_UNDEFINED) continue;
    if (std::find(colors.begin(),colors.end(),q[0])==colors.end()) colors.push_back(q[0]);
    if (q[0]==color) mem.push_back(std::make_pair(q[1],(int)i));
  }
  uint32_t base=s->aux[0];
  coll_leave(c,s);
  if (color==MPI_UNDEFINED) { *out=MPI_COMM_NULL; return 0; }
  std::stable_sort(mem.begin(),mem.end());
  std::vector<int> m; for (auto &p:mem) m.push_back(c->members[p.second]);
  int ci=std::find(colors.begin(),colors.end(),color)-colors.begin();
  *out=(MPI_Comm)make_comm(base+ci,m);
  return 0;
}
int MPI_Comm_split_type(MPI_Comm c,int type,int key,MPI_Info,MPI_Comm *out) { return MPI_Comm_split(c,type==MPI_UNDEFINED?MPI_UNDEFINED:0,key,out); }
int MPI_Comm_dup(MPI_Comm oc,MPI_Comm *out)
{
  Comm *c=comm(oc);
  MPI_Comm_split(oc,0,c->me,out);
  copy_attrs(oc,c,comm(*out)); return 0;
}
int MPI_Comm_create(MPI_Comm oc,MPI_Group g,MPI_Comm *out)
{
  Comm *c=comm(oc); GroupS *q=grp(g); int pos=-1;
  for (size_t i=0;i<q->m.size();i++) if (q->m[i]==c->members[c->me]) pos=i;
  return MPI_Comm_split(oc,pos<0?MPI_UNDEFINED:q->m[0],pos<0?0:pos,out);
}
int MPI_Comm_free(MPI_Comm *c)
{
  Comm *x=comm(*c);
  auto at=x->attrs;
  for (auto &p:at) { auto it=g_keys.find(p.first); if (it!=g_keys.end() && it->second.second.first && it->second.second.first!=MPI_COMM_NULL_DELETE_FN) it->second.second.first(*c,p.first,p.second,it->second.second.second); }
  if (x!=g_world && x!=g_self) { x->magic=0xdead; /* keep memory: catches use after free */ }
  *c=MPI_COMM_NULL; return 0;
}
int MPI_Comm_disconnect(MPI_Comm *c) { return MPI_Comm_free(c); }
int MPI_Comm_set_name(MPI_Comm,const char*) { return 0; }
int MPI_Comm_get_name(MPI_Comm,char *n,int *l) { *n=0; *l=0; return 0; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler) { return 0; }
int MPI_Comm_get_errhandler(MPI_Comm,MPI_Errhandler *e) { *e=MPI_ERRORS_ARE_FATAL; return 0; }
int MPI_Comm_create_errhandler(MPI_Comm_errhandler_function*,MPI_Errhandler *e) { *e=MPI_ERRORS_RETURN; return 0; }
int MPI_Errhandler_free(MPI_Errhandler *e) { *e=MPI_ERRHANDLER_NULL; return 0; }
int MPI_Comm_create_keyval(MPI_Comm_copy_attr_function *cf,MPI_Comm_delete_attr_function *df,int *k,void *ex)
{ *k=g_nextkey++; g_keys[*k]=std::make_pair(cf,std::make_pair(df,ex)); return 0; }
int MPI_Comm_free_keyval(int *k) { *k=MPI_KEYVAL_INVALID; return 0; }
int MPI_Comm_set_attr(MPI_Comm c,int k,void *v)
{ Comm *x=comm(c); auto p=x->attrs.find(k); if (p!=x->attrs.end()) { auto it=g_keys.find(k); if (it!=g_keys.end() && it->second.second.first && it->second.second.first!=MPI_COMM_NULL_DELETE_FN) it->second.second.first(c,k,p->second,it->second.second.second); }
  x->attrs[k]=v; return 0; }
int MPI_Comm_get_attr(MPI_Comm c,int k,void *v,int *flag)
{
  static int tagub=0x7fffffff; static int yes=1;
  if (k==MPI_TAG_UB) { *(void**)v=&tagub; *flag=1; return 0; }
  if (k==MPI_WTIME_IS_GLOBAL) { *(void**)v=&yes; *flag=1; return 0; }
  Comm *x=comm(c); auto it=x->attrs.find(k);
  if (it==x->attrs.end()) { *flag=0; return 0; }
  *(void**)v=it->second; *flag=1; return 0;
}
int MPI_Comm_delete_attr(MPI_Comm c,int k)
{ Comm *x=comm(c); auto it=x->attrs.find(k); if (it!=x->attrs.end()) { void *v=it->second; x->attrs.erase(it); auto q=g_keys.find(k); if (q!=g_keys.end() && q->second.second.first && q->second.second.first!=MPI_COMM_NULL_DELETE_FN) q->second.second.first(c,k,v,q->second.second.second); } return 0; }
MPI_Fint MPI_Comm_c2f(MPI_Comm c) { for (size_t i=0;i<g_ftab.size();i++) if (g_ftab[i]==(void*)c) return i+1; g_ftab.push_back((void*)c); return g_ftab.size(); }
MPI_Comm MPI_Comm_f2c(MPI_Fint f) { return f>0&&f<=(int)g_ftab.size()?(MPI_Comm)g_ftab[f-1]:MPI_COMM_NULL; }
int MPI_Comm_group(MPI_Comm c,MPI_Group *g) { *g=mkgrp(comm(c)->members); return 0; }
int MPI_Group_size(MPI_Group g,int *n) { *n=grp(g)->m.size(); return 0; }
int MPI_Group_rank(MPI_Group g,int *r) { *r=MPI_UNDEFINED; auto &m=grp(g)->m; for (size_t i=0;i<m.size();i++) if (m[i]==me) *r=i; return 0; }
int MPI_Group_free(MPI_Group *g) { if (*g!=MPI_GROUP_EMPTY&&*g!=MPI_GROUP_NULL) delete grp(*g); *g=MPI_GROUP_NULL; return 0; }
int MPI_Group_incl(MPI_Group g,int n,const int *r,MPI_Group *o) { std::vector<int> m; for (int i=0;i<n;i++) m.push_back(grp(g)->m.at(r[i])); *o=mkgrp(m); return 0; }
int MPI_Group_excl(MPI_Group g,int n,const int *r,MPI_Group *o) { std::vector<int> m; auto &v=grp(g)->m; for (size_t i=0;i<v.size();i++) if (std::find(r,r+n,(int)i)==r+n) m.push_back(v[i]); *o=mkgrp(m); return 0; }
int MPI_Group_union(MPI_Group a,MPI_Group b,MPI_Group *o) { auto m=grp(a)->m; for (int x:grp(b)->m) if (std::find(m.begin(),m.end(),x)==m.end()) m.push_back(x); *o=mkgrp(m); return 0; }
int MPI_Group_intersection(MPI_Group a,MPI_Group b,MPI_Group *o) { std::vector<int> m; auto &q=grp(b)->m; for (int x:grp(a)->m) if (std::find(q.begin(),q.end(),x)!=q.end()) m.push_back(x); *o=mkgrp(m); return 0; }
int MPI_Group_difference(MPI_Group a,MPI_Group b,MPI_Group *o) { std::vector<int> m; auto &q=grp(b)->m; for (int x:grp(a)->m) if (std::find(q.begin(),q.end(),x)==q.end()) m.push_back(x); *o=mkgrp(m); return 0; }
int MPI_Group_compare(MPI_Group a,MPI_Group b,int *r) { auto x=grp(a)->m,y=grp(b)->m; if (x==y) *r=MPI_IDENT; else { std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); *r=x==y?MPI_SIMILAR:MPI_UNEQUAL; } return 0; }
int MPI_Group_translate_ranks(MPI_Group a,int n,const int *r,MPI_Group b,int *o)
{ auto &x=grp(a)->m; auto &y=grp(b)->m; for (int i=0;i<n;i++) { o[i]=MPI_UNDEFINED; if (r[i]==MPI_PROC_NULL) { o[i]=MPI_PROC_NULL; continue; } for (size_t j=0;j<y.size();j++) if (y[j]==x.at(r[i])) o[i]=j; } return 0; }
int MPI_Topo_test(MPI_Comm,int *s) { *s=MPI_UNDEFINED; return 0; }

// ---- datatypes
int MPI_Type_size(MPI_Datatype t,int *s) { *s=dt(t)->size; return 0; }
int MPI_Type_get_extent(MPI_Datatype t,MPI_Aint *lb,MPI_Aint *ex) { *lb=dt(t)->lb; *ex=dt(t)->extent; return 0; }
int MPI_Type_get_true_extent(MPI_Datatype t,MPI_Aint *lb,MPI_Aint *ex)
{ DT *d=dt(t); long lo=d->segs[0].off,hi=lo; for (auto &s:d->segs) { lo=std::min(lo,s.off); hi=std::max(hi,s.off+s.len); } *lb=lo; *ex=hi-lo; return 0; }
int MPI_Type_commit(MPI_Datatype*) { return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t=MPI_DATATYPE_NULL; return 0; }
int MPI_Type_contiguous(int n,MPI_Datatype b,MPI_Datatype *o)
{ DT *x=dt(b),*d=newdt(x,MPI_COMBINER_CONTIGUOUS); addblocks(d,x,0,n); finish_type(d); d->extent=n*x->extent; d->ints.push_back(n); d->types.push_back((void*)b); *o=(MPI_Datatype)d; return 0; }
int MPI_Type_dup(MPI_Datatype b,MPI_Datatype *o) { DT *d=new DT(*dt(b)); d->combiner=MPI_COMBINER_DUP; d->ints.clear(); d->types.assign(1,(void*)b); *o=(MPI_Datatype)d; return 0; }
int MPI_Type_create_resized(MPI_Datatype b,MPI_Aint lb,MPI_Aint ex,MPI_Datatype *o) { DT *d=new DT(*dt(b)); d->lb=lb; d->extent=ex; d->combiner=MPI_COMBINER_RESIZED; d->types.assign(1,(void*)b); *o=(MPI_Datatype)d; return 0; }
int MPI_Type_create_struct(int n,const int *bl,const MPI_Aint *di,const MPI_Datatype *ty,MPI_Datatype *o)
{ DT *d=newdt(0,MPI_COMBINER_STRUCT); long hi=0; int al=1; for (int i=0;i<n;i++) { DT *x=dt(ty[i]); addblocks(d,x,di[i],bl[i]); hi=std::max<long>(hi,di[i]+bl[i]*x->extent); int a=std::min(x->size?x->size:1,8); if (a>al) al=a; }
  finish_type(d); d->extent=(hi+al-1)/al*al; *o=(MPI_Datatype)d; return 0; }
int MPI_Type_create_indexed_block(int n,int bl,const int *di,MPI_Datatype b,MPI_Datatype *o)
{ DT *x=dt(b),*d=newdt(x,MPI_COMBINER_INDEXED_BLOCK); long hi=0; for (int i=0;i<n;i++) { addblocks(d,x,(long)di[i]*x->extent,bl); hi=std::max<long>(hi,((long)di[i]+bl)*x->extent); } finish_type(d); d->extent=hi; *o=(MPI_Datatype)d; return 0; }
int MPI_Type_vector(int n,int bl,int st,MPI_Datatype b,MPI_Datatype *o)
{ DT *x=dt(b),*d=newdt(x,MPI_COMBINER_VECTOR); for (int i=0;i<n;i++) addblocks(d,x,(long)i*st*x->extent,bl); finish_type(d); d->extent=n?((long)(n-1)*st+bl)*x->extent:0; *o=(MPI_Datatype)d; return 0; }
int MPI_Type_indexed(int n,const int *bl,const int *di,MPI_Datatype b,MPI_Datatype *o)
{ DT *x=dt(b),*d=newdt(x,MPI_COMBINER_INDEXED); long hi=0; for (int i=0;i<n;i++) { addblocks(d,x,(long)di[i]*x->extent,bl[i]); hi=std::max<long>(hi,((long)di[i]+bl[i])*x->extent); } finish_type(d); d->extent=hi; *o=(MPI_Datatype)d; return 0; }
int MPI_Type_create_hindexed(int n,const int *bl,const MPI_Aint *di,MPI_Datatype b,MPI_Datatype *o)
{ DT *x=dt(b),*d=newdt(x,MPI_COMBINER_HINDEXED); long hi=0; for (int i=0;i<n;i++) { addblocks(d,x,di[i],bl[i]); hi=std::max<long>(hi,di[i]+bl[i]*x->extent); } finish_type(d); d->extent=hi; *o=(MPI_Datatype)d; return 0; }
int MPI_Type_get_envelope(MPI_Datatype t,int *ni,int *na,int *nt,int *comb)
{ DT *d=dt(t); *comb=d->combiner; *ni=d->ints.size(); *na=0; *nt=d->types.size(); return 0; }
int MPI_Type_get_contents(MPI_Datatype t,int,int,int,int *ia,MPI_Aint*,MPI_Datatype *ta)
{ DT *d=dt(t); for (size_t i=0;i<d->ints.size();i++) ia[i]=d->ints[i]; for (size_t i=0;i<d->types.size();i++) ta[i]=(MPI_Datatype)d->types[i]; return 0; }
int MPI_Get_address(const void *p,MPI_Aint *a) { *a=(MPI_Aint)p; return 0; }
int MPI_Get_count(const MPI_Status *st,MPI_Datatype t,int *n) { int sz=dt(t)->size; *n=sz?(st->_ucount%sz?MPI_UNDEFINED:(int)(st->_ucount/sz)):0; return 0; }
int MPI_Get_elements(const MPI_Status *st,MPI_Datatype t,int *n) { return MPI_Get_count(st,t,n); }
int MPI_Pack(const void *in,int n,MPI_Datatype t,void *out,int sz,int *pos,MPI_Comm)
{ DT *d=dt(t); long l=(long)n*d->size; if (*pos+l>sz) die_fail("MPI_Pack: buffer overflow"); pack(in,n,d,(char*)out+*pos); *pos+=l; return 0; }
int MPI_Unpack(const void *in,int sz,int *pos,void *out,int n,MPI_Datatype t,MPI_Comm)
{ DT *d=dt(t); long l=(long)n*d->size; if (*pos+l>sz) die_fail("MPI_Unpack: read past the end of the message"); unpack((const char*)in+*pos,l,out,d); *pos+=l; return 0; }
int MPI_Pack_size(int n,MPI_Datatype t,MPI_Comm,int *s) { *s=n*dt(t)->size; return 0; }

// ---- ops
int MPI_Op_create(MPI_User_function *f,int commute,MPI_Op *op) { UserOp *u=new UserOp; u->magic=1; u->f=f; u->commute=commute; *op=(MPI_Op)u; return 0; }
int MPI_Op_free(MPI_Op *op) { *op=MPI_OP_NULL; return 0; }
MPI_Fint MPI_Op_c2f(MPI_Op) { return 0; }
int MPI_Reduce_local(const void *in,void *io,int n,MPI_Datatype t,MPI_Op op) { reduce_into(op,t,(const char*)in,(char*)io,n); return 0; }

// ---- point to point
int MPI_Send(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { send_blocking(b,n,dt(t),d,tag,comm(c),false); return 0; }
int MPI_Ssend(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { send_blocking(b,n,dt(t),d,tag,comm(c),true); return 0; }
int MPI_Rsend(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { return MPI_Send(b,n,t,d,tag,c); }
int MPI_Bsend(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c) { do_send(b,n,dt(t),d,tag,comm(c)); return 0; }
int MPI_Isend(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request *r) { *r=(MPI_Request)isend(b,n,dt(t),d,tag,comm(c),false); return 0; }
int MPI_Issend(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request *r) { *r=(MPI_Request)isend(b,n,dt(t),d,tag,comm(c),true); return 0; }
int MPI_Irecv(void *b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request *r) { *r=(MPI_Request)irecv(b,n,dt(t),s,tag,comm(c)); return 0; }
int MPI_Recv(void *b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Status *st)
{
  if (s==MPI_PROC_NULL) { empty_status(st); return 0; }
  Comm *x=comm(c); wildcard_point(s,"MPI_Recv(ANY)");
  if (s!=MPI_ANY_SOURCE && (s<0||s>=(int)x->members.size())) die_fail("MPI receive from invalid rank %d",s);
  PostS *p=do_post(s,tag,x); char w[48]; snprintf(w,48,"MPI_Recv(src=%d,tag=%d)",s,tag);
  wait_word(&p->done,1,w); finish_recv(p,b,n,dt(t),st); return 0;
}
int MPI_Sendrecv(const void *sb,int sn,MPI_Datatype st,int d,int stag,void *rb,int rn,MPI_Datatype rt,int s,int rtag,MPI_Comm c,MPI_Status *stat)
{
  Comm *x=comm(c); Req *q=irecv(rb,rn,dt(rt),s,rtag,x); MPI_Request h=(MPI_Request)q;
  send_blocking(sb,sn,dt(st),d,stag,x,false);
  wait_word(q->wp,q->need,"MPI_Sendrecv"); req_finish(&h,stat); return 0;
}
int MPI_Sendrecv_replace(void *b,int n,MPI_Datatype t,int d,int stag,int s,int rtag,MPI_Comm c,MPI_Status *stat)
{ DT *x=dt(t); std::vector<char> tmp((size_t)n*x->size+1); pack(b,n,x,&tmp[0]); Comm *cc=comm(c); Req *q=irecv(b,n,x,s,rtag,cc); MPI_Request h=(MPI_Request)q;
  send_blocking(&tmp[0],(long)n*x->size,dt(MPI_BYTE),d,stag,cc,false); wait_word(q->wp,q->need,"MPI_Sendrecv_replace"); req_finish(&h,stat); return 0; }
int MPI_Send_init(const void *b,int n,MPI_Datatype t,int d,int tag,MPI_Comm c,MPI_Request *r)
{ Req *q=newreq(4); q->active=false; q->persistent=true; q->buf=(void*)b; q->count=n; q->d=dt(t); q->peer=d; q->tag=tag; q->c=comm(c); *r=(MPI_Request)q; return 0; }
int MPI_Recv_init(void *b,int n,MPI_Datatype t,int s,int tag,MPI_Comm c,MPI_Request *r)
{ Req *q=newreq(5); q->active=false; q->persistent=true; q->buf=b; q->count=n; q->d=dt(t); q->peer=s; q->tag=tag; q->c=comm(c); *r=(MPI_Request)q; return 0; }
int MPI_Start(MPI_Request *r)
{
  Req *q=rq(*r); static uint64_t one=1; q->active=true; q->cancelled=false;
  if (q->type==4) { if (q->peer==MPI_PROC_NULL) { q->wp=&one; q->need=1; } else { SendS *m=do_send(q->buf,q->count,q->d,q->peer,q->tag,q->c); if (S->send_mode==1) q->wp=&m->matched; else q->wp=&one; q->need=1; } }
  else { if (q->peer==MPI_PROC_NULL) { q->wp=&one; q->need=1; q->post=0; } else { q->post=do_post(q->peer,q->tag,q->c); q->wp=&q->post->done; q->need=1; } }
  return 0;
}
int MPI_Startall(int n,MPI_Request *r) { for (int i=0;i<n;i++) MPI_Start(r+i); return 0; }
int MPI_Request_free(MPI_Request *r) { Req *q=rq(*r); if (!q->active) { q->magic=0; delete q; } *r=MPI_REQUEST_NULL; return 0; }
int MPI_Wait(MPI_Request *r,MPI_Status *st)
{
  if (*r==MPI_REQUEST_NULL) { empty_status(st); return 0; }
  Req *q=rq(*r); if (!q->active) { empty_status(st); return 0; }
  char b[48]; wait_word(q->wp,q->need,rname(q,b)); req_finish(r,st); return 0;
}
int MPI_Waitall(int n,MPI_Request *r,MPI_Status *st)
{ for (int i=0;i<n;i++) MPI_Wait(r+i,st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:st+i); return 0; }
int MPI_Waitany(int n,MPI_Request *r,int *idx,MPI_Status *st)
{
  std::vector<volatile uint64_t*> p; std::vector<uint64_t> nd; std::vector<int> ix;
  for (int i=0;i<n;i++) if (r[i]!=MPI_REQUEST_NULL && rq(r[i])->active) { p.push_back(rq(r[i])->wp); nd.push_back(rq(r[i])->need); ix.push_back(i); }
  if (p.empty()) { *idx=MPI_UNDEFINED; empty_status(st); return 0; }
  int k=wait_any(p.size(),&p[0],&nd[0],"MPI_Waitany"); *idx=ix[k]; req_finish(r+ix[k],st); return 0;
}
int MPI_Waitsome(int n,MPI_Request *r,int *nout,int *idx,MPI_Status *st)
{
  std::vector<volatile uint64_t*> p; std::vector<uint64_t> nd; std::vector<int> ix;
  for (int i=0;i<n;i++) if (r[i]!=MPI_REQUEST_NULL && rq(r[i])->active) { p.push_back(rq(r[i])->wp); nd.push_back(rq(r[i])->need); ix.push_back(i); }
  if (p.empty()) { *nout=MPI_UNDEFINED; return 0; }
  wait_any(p.size(),&p[0],&nd[0],"MPI_Waitsome"); *nout=0;
  for (size_t k=0;k<ix.size();k++) if (req_ready(rq(r[ix[k]]))) { req_finish(r+ix[k],st==MPI_STATUSES_IGNORE?MPI_STATUS_IGNORE:st+*nout); idx[(*nout)++]=ix[k]; }
  return 0;
}
int MPI_Test(MPI_Request *r,int *f,MPI_Status *st)
{
  if (*r==MPI_REQUEST_NULL) { *f=1; empty_status(st); return 0; }
  Req *q=rq(*r); if (!req_ready(q)) { poll_yield("MPI_Test"); }
  if (req_ready(q)) { *f=1; if (q->active) req_finish(r,st); else empty_status(st); } else *f=0; return 0;
}
int MPI_Testall(int n,MPI_Request *r,int *f,MPI_Status *st)
{
  auto all=[&]{ for (int i=0;i<n;i++) if (r[i]!=MPI_REQUEST_NULL && !req_ready(rq(r[i]))) return false; return true; };
  if (!all()) poll_yield("MPI_Testall");
  *f=all(); if (*f) MPI_Waitall(n,r,st); return 0;
}
int MPI_Testany(int n,MPI_Request *r,int *idx,int *f,MPI_Status *st)
{
  for (int pass=0;pass<2;pass++) { int act=0;
    for (int i=0;i<n;i++) if (r[i]!=MPI_REQUEST_NULL && rq(r[i])->active) { act++; if (req_ready(rq(r[i]))) { *idx=i; *f=1; req_finish(r+i,st); return 0; } }
    if (!act) { *idx=MPI_UNDEFINED; *f=1; empty_status(st); return 0; }
    if (pass==0) poll_yield("MPI_Testany"); }
  *f=0; *idx=MPI_UNDEFINED; return 0;
}
int MPI_Cancel(MPI_Request *r) { Req *q=rq(*r); static uint64_t one=1; if ((q->type==2||q->type==5) && q->active && q->post && !q->post->done) { cancel_post(q->post); q->cancelled=true; q->wp=&one; q->need=1; } return 0; }
int MPI_Test_cancelled(const MPI_Status *st,int *f) { *f=st->_cancelled; return 0; }
int MPI_Request_get_status(MPI_Request r,int *f,MPI_Status*) { *f= r==MPI_REQUEST_NULL || req_ready(rq(r)); return 0; }

static SendS *peek(int s,int tag,Comm *c,SendS **pv) { SendS *prev=0; for (SendS *m=(SendS*)S->unexp_head[me]; m; prev=m,m=m->next) if (match(c->ctx,s,tag,m->ctx,m->src,m->tag)) { if (pv) *pv=prev; return m; } return 0; }
static void pst(SendS *m,MPI_Status *st) { if (st && st!=MPI_STATUS_IGNORE) { st->MPI_SOURCE=m->src; st->MPI_TAG=m->tag; st->MPI_ERROR=0; st->_ucount=m->len; st->_cancelled=0; } }
int MPI_Iprobe(int s,int tag,MPI_Comm c,int *f,MPI_Status *st)
{ Comm *x=comm(c); SendS *m=peek(s,tag,x,0); if (!m) { poll_yield("MPI_Iprobe"); m=peek(s,tag,x,0); } *f=m!=0; if (m) pst(m,st); return 0; }
int MPI_Probe(int s,int tag,MPI_Comm c,MPI_Status *st)
{ Comm *x=comm(c); SendS *m; while (!(m=peek(s,tag,x,0))) poll_yield("MPI_Probe"); pst(m,st); return 0; }
int MPI_Improbe(int s,int tag,MPI_Comm c,int *f,MPI_Message *msg,MPI_Status *st)
{ Comm *x=comm(c); SendS *pv=0,*m=peek(s,tag,x,&pv); if (!m) { poll_yield("MPI_Improbe"); m=peek(s,tag,x,&pv); } *f=m!=0; if (m) { pst(m,st); unlink_unexp(me,pv,m); *msg=(MPI_Message)m; } return 0; }
int MPI_Mprobe(int s,int tag,MPI_Comm c,MPI_Message *msg,MPI_Status *st)
{ Comm *x=comm(c); SendS *pv=0,*m; while (!(m=peek(s,tag,x,&pv))) poll_yield("MPI_Mprobe"); pst(m,st); unlink_unexp(me,pv,m); *msg=(MPI_Message)m; return 0; }
int MPI_Mrecv(void *b,int n,MPI_Datatype t,MPI_Message *msg,MPI_Status *st)
{ SendS *m=(SendS*)*msg; PostS *p=(PostS*)salloc(sizeof(PostS)); complete_match(p,m); finish_recv(p,b,n,dt(t),st); *msg=MPI_MESSAGE_NULL; return 0; }

// ---- collectives
#define FULL(c) (((uint64_t)1<<(c)->members.size())-1)
static std::vector<char> packv(const void *b,long n,MPI_Datatype t) { DT *d=dt(t); std::vector<char> v((size_t)n*d->size+1); v.resize((size_t)n*d->size+1); pack(b,n,d,&v[0]); return v; }

int MPI_Barrier(MPI_Comm c) { Comm *x=comm(c); Slot *s=coll_enter(x,C_BARRIER,0,"",0,-1); coll_wait(x,s,FULL(x)); coll_leave(x,s); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request *r)
{ Comm *x=comm(c); Slot *s=coll_enter(x,C_BARRIER,0,"",0,-1); Req *q=newreq(3); q->wp=&s->arrived; q->need=FULL(x); q->fin=[x,s]{ coll_leave(x,s); }; *r=(MPI_Request)q; return 0; }
int MPI_Bcast(void *b,int n,MPI_Datatype t,int root,MPI_Comm c)
{
  Comm *x=comm(c); DT *d=dt(t); if (root<0||root>=(int)x->members.size()) die_fail("MPI_Bcast: invalid root %d",root);
  long len=(long)n*d->size; bool r=x->me==root; std::vector<char> v; if (r) v=packv(b,n,t);
  Slot *s=coll_enter(x,C_BCAST,root,r?&v[0]:"",r?len:0,len);
  if (!r) { coll_wait(x,s,(uint64_t)1<<root); unpack(s->data[root],len,b,d); }
  coll_leave(x,s); return 0;
}
static void red_all(Comm *x,Slot *s,int lo,int hi,long n,MPI_Datatype t,MPI_Op op,std::vector<char> &acc)
{ // combine contributions lo..hi-1 in rank order (kept in native layout)
  DT *d=dt(t); size_t bytes=(size_t)n*d->extent; 
  acc.assign(bytes+1,0); std::vector<char> tmp(bytes+1);
  unpack(s->data[hi-1],s->len[hi-1],&acc[0],d);
  for (int i=hi-2;i>=lo;i--) { unpack(s->data[i],s->len[i],&tmp[0],d); reduce_into(op,t,&tmp[0],&acc[0],n); }
}
int MPI_Reduce(const void *sb,void *rb,int n,MPI_Datatype t,MPI_Op op,int root,MPI_Comm c)
{
  Comm *x=comm(c); DT *d=dt(t); long len=(long)n*d->size; std::vector<char> v=packv(sb==MPI_IN_PLACE?rb:sb,n,t);
  Slot *s=coll_enter(x,C_REDUCE,root,&v[0],len,len);
  if (x->me==root) { coll_wait(x,s,FULL(x)); std::vector<char> a; red_all(x,s,0,x->members.size(),n,t,op,a); memcpy(rb,&a[0],(size_t)n*d->extent); }
  coll_leave(x,s); return 0;
}
int MPI_Allreduce(const void *sb,void *rb,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{
  Comm *x=comm(c); DT *d=dt(t); long len=(long)n*d->size; std::vector<char> v=packv(sb==MPI_IN_PLACE?rb:sb,n,t);
  Slot *s=coll_enter(x,C_ALLREDUCE,0,&v[0],len,len);
  coll_wait(x,s,FULL(x)); std::vector<char> a; red_all(x,s,0,x->members.size(),n,t,op,a); if (n) memcpy(rb,&a[0],(size_t)n*d->extent);
  coll_leave(x,s); return 0;
}
int MPI_Iallreduce(const void *sb,void *rb,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c,MPI_Request *r)
{
  Comm *x=comm(c); DT *d=dt(t); long len=(long)n*d->size; std::vector<char> v=packv(sb==MPI_IN_PLACE?rb:sb,n,t);
  Slot *s=coll_enter(x,C_ALLREDUCE,0,&v[0],len,len); Req *q=newreq(3); q->wp=&s->arrived; q->need=FULL(x);
  q->fin=[=]{ std::vector<char> a; red_all(x,s,0,x->members.size(),n,t,op,a); if (n) memcpy(rb,&a[0],(size_t)n*d->extent); coll_leave(x,s); };
  *r=(MPI_Request)q; return 0;
}
int MPI_Scan(const void *sb,void *rb,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{
  Comm *x=comm(c); DT *d=dt(t); long len=(long)n*d->size; std::vector<char> v=packv(sb==MPI_IN_PLACE?rb:sb,n,t);
  Slot *s=coll_enter(x,C_SCAN,0,&v[0],len,len); coll_wait(x,s,((uint64_t)2<<x->me)-1);
  std::vector<char> a; red_all(x,s,0,x->me+1,n,t,op,a); if (n) memcpy(rb,&a[0],(size_t)n*d->extent); coll_leave(x,s); return 0;
}
int MPI_Exscan(const void *sb,void *rb,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{
  Comm *x=comm(c); DT *d=dt(t); long len=(long)n*d->size; std::vector<char> v=packv(sb==MPI_IN_PLACE?rb:sb,n,t);
  Slot *s=coll_enter(x,C_EXSCAN,0,&v[0],len,len); coll_wait(x,s,((uint64_t)1<<x->me)-1);
  if (x->me>0) { std::vector<char> a; red_all(x,s,0,x->me,n,t,op,a); if (n) memcpy(rb,&a[0],(size_t)n*d->extent); } coll_leave(x,s); return 0;
}
int MPI_Reduce_scatter(const void *sb,void *rb,const int *cnt,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{
  Comm *x=comm(c); DT *d=dt(t); long n=0,off=0; for (size_t i=0;i<x->members.size();i++) { if ((int)i<x->me) off+=cnt[i]; n+=cnt[i]; }
  std::vector<char> v=packv(sb==MPI_IN_PLACE?rb:sb,n,t); Slot *s=coll_enter(x,C_REDSCAT,0,&v[0],n*d->size,n*d->size);
  coll_wait(x,s,FULL(x)); std::vector<char> a; red_all(x,s,0,x->members.size(),n,t,op,a); if (cnt[x->me]) memcpy(rb,&a[off*d->extent],(size_t)cnt[x->me]*d->extent); coll_leave(x,s); return 0;
}
int MPI_Reduce_scatter_block(const void *sb,void *rb,int n,MPI_Datatype t,MPI_Op op,MPI_Comm c)
{ std::vector<int> k(comm(c)->members.size(),n); return MPI_Reduce_scatter(sb,rb,&k[0],t,op,c); }

int MPI_Gather(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,int root,MPI_Comm c)
{
  Comm *x=comm(c); bool r=x->me==root; std::vector<char> v; long len=0;
  if (r && sb==MPI_IN_PLACE) { sb=(char*)rb+(long)x->me*rn*dt(rt)->extent; sn=rn; st=rt; }
  v=packv(sb,sn,st); len=(long)sn*dt(st)->size;
  Slot *s=coll_enter(x,C_GATHER,root,&v[0],len,len);
  if (r) { coll_wait(x,s,FULL(x)); DT *d=dt(rt); for (size_t i=0;i<x->members.size();i++) unpack(s->data[i],s->len[i],(char*)rb+(long)i*rn*d->extent,d); }
  coll_leave(x,s); return 0;
}
int MPI_Gatherv(const void *sb,int sn,MPI_Datatype st,void *rb,const int *rn,const int *dp,MPI_Datatype rt,int root,MPI_Comm c)
{
  Comm *x=comm(c); bool r=x->me==root;
  if (r && sb==MPI_IN_PLACE) { sb=(char*)rb+(long)dp[x->me]*dt(rt)->extent; sn=rn[x->me]; st=rt; }
  std::vector<char> v=packv(sb,sn,st); long len=(long)sn*dt(st)->size;
  Slot *s=coll_enter(x,C_GATHER,root,&v[0],len,-1);
  if (r) { coll_wait(x,s,FULL(x)); DT *d=dt(rt); for (size_t i=0;i<x->members.size();i++) { if ((long)s->len[i]>(long)rn[i]*d->size) die_fail("MPI_Gatherv: truncation from rank %d",(int)i); unpack(s->data[i],s->len[i],(char*)rb+(long)dp[i]*d->extent,d); } }
  coll_leave(x,s); return 0;
}
int MPI_Scatter(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,int root,MPI_Comm c)
{
  Comm *x=comm(c); bool r=x->me==root; std::vector<char> v; long n=x->members.size();
  if (r) v=packv(sb,(long)sn*n,st);
  Slot *s=coll_enter(x,C_SCATTER,root,r?&v[0]:"",r?(long)sn*n*dt(st)->size:0,-1);
  if (!r) coll_wait(x,s,(uint64_t)1<<root);
  if (!(r && rb==MPI_IN_PLACE)) { DT *d=dt(rt); long per=s->len[root]/n; if (per>(long)rn*d->size) die_fail("MPI_Scatter: truncation"); unpack(s->data[root]+per*x->me,per,rb,d); }
  coll_leave(x,s); return 0;
}
int MPI_Scatterv(const void *sb,const int *sn,const int *dp,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,int root,MPI_Comm c)
{
  Comm *x=comm(c); bool r=x->me==root; std::vector<char> v; size_t n=x->members.size();
  if (r) { DT *d=dt(st); std::vector<long> L(n); long tot=n*sizeof(long); for (size_t i=0;i<n;i++) { L[i]=(long)sn[i]*d->size; tot+=L[i]; }
    v.resize(tot+1); memcpy(&v[0],&L[0],n*sizeof(long)); long o=n*sizeof(long); for (size_t i=0;i<n;i++) { pack((const char*)sb+(long)dp[i]*d->extent,sn[i],d,&v[o]); o+=L[i]; } v.resize(tot); }
  Slot *s=coll_enter(x,C_SCATTER,root,r?&v[0]:"",r?v.size():0,-1);
  if (!r) coll_wait(x,s,(uint64_t)1<<root);
  if (!(r && rb==MPI_IN_PLACE)) { long *L=(long*)s->data[root]; long o=n*sizeof(long); for (int i=0;i<x->me;i++) o+=L[i]; DT *d=dt(rt); if (L[x->me]>(long)rn*d->size) die_fail("MPI_Scatterv: truncation"); unpack(s->data[root]+o,L[x->me],rb,d); }
  coll_leave(x,s); return 0;
}
int MPI_Allgather(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,MPI_Comm c)
{
  Comm *x=comm(c); if (sb==MPI_IN_PLACE) { sb=(char*)rb+(long)x->me*rn*dt(rt)->extent; sn=rn; st=rt; }
  std::vector<char> v=packv(sb,sn,st); long len=(long)sn*dt(st)->size; Slot *s=coll_enter(x,C_ALLGATHER,0,&v[0],len,len);
  coll_wait(x,s,FULL(x)); DT *d=dt(rt); for (size_t i=0;i<x->members.size();i++) unpack(s->data[i],s->len[i],(char*)rb+(long)i*rn*d->extent,d); coll_leave(x,s); return 0;
}
int MPI_Allgatherv(const void *sb,int sn,MPI_Datatype st,void *rb,const int *rn,const int *dp,MPI_Datatype rt,MPI_Comm c)
{
  Comm *x=comm(c); if (sb==MPI_IN_PLACE) { sb=(char*)rb+(long)dp[x->me]*dt(rt)->extent; sn=rn[x->me]; st=rt; }
  std::vector<char> v=packv(sb,sn,st); long len=(long)sn*dt(st)->size; Slot *s=coll_enter(x,C_ALLGATHER,0,&v[0],len,-1);
  coll_wait(x,s,FULL(x)); DT *d=dt(rt); for (size_t i=0;i<x->members.size();i++) { if ((long)s->len[i]>(long)rn[i]*d->size) die_fail("MPI_Allgatherv: truncation from rank %d",(int)i); unpack(s->data[i],s->len[i],(char*)rb+(long)dp[i]*d->extent,d); } coll_leave(x,s); return 0;
}
static int a2av(const void *sb,const int *sn,const MPI_Aint *sd,const MPI_Datatype *st,void *rb,const int *rn,const MPI_Aint *rd,const MPI_Datatype *rt,Comm *x)
{
  size_t n=x->members.size(); std::vector<long> L(n); long tot=n*sizeof(long);
  for (size_t i=0;i<n;i++) { if (sn[i]<0) die_fail("MPI_Alltoallv: negative count"); L[i]=(long)sn[i]*dt(st[i])->size; tot+=L[i]; }
  std::vector<char> v(tot+1); memcpy(&v[0],&L[0],n*sizeof(long)); long o=n*sizeof(long);
  for (size_t i=0;i<n;i++) { pack((const char*)sb+sd[i],sn[i],dt(st[i]),&v[o]); o+=L[i]; }
  Slot *s=coll_enter(x,C_ALLTOALL,0,&v[0],tot,-1); coll_wait(x,s,FULL(x));
  for (size_t i=0;i<n;i++) { long *M=(long*)s->data[i]; long q=n*sizeof(long); for (int k=0;k<x->me;k++) q+=M[k];
    if (M[x->me]!=(long)rn[i]*dt(rt[i])->size) die_fail("MPI_Alltoallv: rank %d sends %ld bytes to rank %d which expects %ld",(int)i,M[x->me],x->me,(long)rn[i]*dt(rt[i])->size);
    unpack(s->data[i]+q,M[x->me],(char*)rb+rd[i],dt(rt[i])); }
  coll_leave(x,s); return 0;
}
int MPI_Alltoall(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,MPI_Comm c)
{ Comm *x=comm(c); size_t n=x->members.size(); if (sb==MPI_IN_PLACE) UNIMPL("MPI_Alltoall in place");
  std::vector<int> a(n,sn),b(n,rn); std::vector<MPI_Aint> p(n),q(n); std::vector<MPI_Datatype> s(n,st),r(n,rt); for (size_t i=0;i<n;i++) { p[i]=(MPI_Aint)i*sn*dt(st)->extent; q[i]=(MPI_Aint)i*rn*dt(rt)->extent; }
  return a2av(sb,&a[0],&p[0],&s[0],rb,&b[0],&q[0],&r[0],x); }
int MPI_Alltoallv(const void *sb,const int *sn,const int *sd,MPI_Datatype st,void *rb,const int *rn,const int *rd,MPI_Datatype rt,MPI_Comm c)
{ Comm *x=comm(c); size_t n=x->members.size(); std::vector<MPI_Aint> p(n),q(n); std::vector<MPI_Datatype> s(n,st),r(n,rt); for (size_t i=0;i<n;i++) { p[i]=(MPI_Aint)sd[i]*dt(st)->extent; q[i]=(MPI_Aint)rd[i]*dt(rt)->extent; }
  return a2av(sb,sn,&p[0],&s[0],rb,rn,&q[0],&r[0],x); }
int MPI_Alltoallw(const void *sb,const int *sn,const int *sd,const MPI_Datatype *st,void *rb,const int *rn,const int *rd,const MPI_Datatype *rt,MPI_Comm c)
{ Comm *x=comm(c); size_t n=x->members.size(); std::vector<MPI_Aint> p(n),q(n); for (size_t i=0;i<n;i++) { p[i]=sd[i]; q[i]=rd[i]; } return a2av(sb,sn,&p[0],st,rb,rn,&q[0],rt,x); }

// ---- nonblocking collectives: data deposited at the call, delivered when they complete
int MPI_Ibcast(void *b,int n,MPI_Datatype t,int root,MPI_Comm c,MPI_Request *rq_)
{
  Comm *x=comm(c); DT *d=dt(t); if (root<0||root>=(int)x->members.size()) die_fail("MPI_Ibcast: invalid root %d",root);
  long len=(long)n*d->size; bool r=x->me==root; std::vector<char> v; if (r) v=packv(b,n,t);
  Slot *s=coll_enter(x,C_BCAST,root,r?&v[0]:"",r?len:0,len); Req *q=newreq(3); q->wp=&s->arrived; q->need=(uint64_t)1<<root;
  q->fin=[=]{ if (!r) unpack(s->data[root],len,b,d); coll_leave(x,s); }; *rq_=(MPI_Request)q; return 0;
}
int MPI_Iallgatherv(const void *sb,int sn,MPI_Datatype st,void *rb,const int *rn,const int *dp,MPI_Datatype rt,MPI_Comm c,MPI_Request *rq_)
{
  Comm *x=comm(c); if (sb==MPI_IN_PLACE) { sb=(char*)rb+(long)dp[x->me]*dt(rt)->extent; sn=rn[x->me]; st=rt; }
  std::vector<char> v=packv(sb,sn,st); long len=(long)sn*dt(st)->size; Slot *s=coll_enter(x,C_ALLGATHER,0,&v[0],len,-1); DT *d=dt(rt);
  std::vector<int> R(rn,rn+x->members.size()),P(dp,dp+x->members.size()); Req *q=newreq(3); q->wp=&s->arrived; q->need=FULL(x);
  q->fin=[=]{ for (size_t i=0;i<x->members.size();i++) { if ((long)s->len[i]>(long)R[i]*d->size) die_fail("MPI_Iallgatherv: truncation from rank %d",(int)i); unpack(s->data[i],s->len[i],(char*)rb+(long)P[i]*d->extent,d); } coll_leave(x,s); };
  *rq_=(MPI_Request)q; return 0;
}
int MPI_Iallgather(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,MPI_Comm c,MPI_Request *q)
{ size_t n=comm(c)->members.size(); std::vector<int> R(n,rn),P(n); for (size_t i=0;i<n;i++) P[i]=i*rn; return MPI_Iallgatherv(sb,sn,st,rb,&R[0],&P[0],rt,c,q); }
int MPI_Igatherv(const void *sb,int sn,MPI_Datatype st,void *rb,const int *rn,const int *dp,MPI_Datatype rt,int root,MPI_Comm c,MPI_Request *rq_)
{
  Comm *x=comm(c); bool r=x->me==root; size_t n=x->members.size();
  if (r && sb==MPI_IN_PLACE) { sb=(char*)rb+(long)dp[x->me]*dt(rt)->extent; sn=rn[x->me]; st=rt; }
  std::vector<char> v=packv(sb,sn,st); long len=(long)sn*dt(st)->size; Slot *s=coll_enter(x,C_GATHER,root,&v[0],len,-1); DT *d=dt(rt);
  std::vector<int> R,P; if (r) { R.assign(rn,rn+n); P.assign(dp,dp+n); } Req *q=newreq(3); q->wp=&s->arrived; q->need=r?FULL(x):(uint64_t)1<<x->me;
  q->fin=[=]{ if (r) for (size_t i=0;i<n;i++) { if ((long)s->len[i]>(long)R[i]*d->size) die_fail("MPI_Igatherv: truncation from rank %d",(int)i); unpack(s->data[i],s->len[i],(char*)rb+(long)P[i]*d->extent,d); } coll_leave(x,s); };
  *rq_=(MPI_Request)q; return 0;
}
int MPI_Igather(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,int root,MPI_Comm c,MPI_Request *q)
{ size_t n=comm(c)->members.size(); std::vector<int> R(n,rn),P(n); for (size_t i=0;i<n;i++) P[i]=i*rn; return MPI_Igatherv(sb,sn,st,rb,&R[0],&P[0],rt,root,c,q); }
int MPI_Iscatterv(const void *sb,const int *sn,const int *dp,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,int root,MPI_Comm c,MPI_Request *rq_)
{
  Comm *x=comm(c); bool r=x->me==root; std::vector<char> v; size_t n=x->members.size();
  if (r) { DT *d=dt(st); std::vector<long> L(n); long tot=n*sizeof(long); for (size_t i=0;i<n;i++) { L[i]=(long)sn[i]*d->size; tot+=L[i]; }
    v.resize(tot+1); memcpy(&v[0],&L[0],n*sizeof(long)); long o=n*sizeof(long); for (size_t i=0;i<n;i++) { pack((const char*)sb+(long)dp[i]*d->extent,sn[i],d,&v[o]); o+=L[i]; } v.resize(tot); }
  Slot *s=coll_enter(x,C_SCATTER,root,r?&v[0]:"",r?v.size():0,-1); bool skip=r&&rb==MPI_IN_PLACE; DT *d=dt(rt);
  Req *q=newreq(3); q->wp=&s->arrived; q->need=(uint64_t)1<<root;
  q->fin=[=]{ if (!skip) { long *L=(long*)s->data[root]; long o=n*sizeof(long); for (int i=0;i<x->me;i++) o+=L[i]; if (L[x->me]>(long)rn*d->size) die_fail("MPI_Iscatterv: truncation"); unpack(s->data[root]+o,L[x->me],rb,d); } coll_leave(x,s); };
  *rq_=(MPI_Request)q; return 0;
}
int MPI_Iscatter(const void *sb,int sn,MPI_Datatype st,void *rb,int rn,MPI_Datatype rt,int root,MPI_Comm c,MPI_Request *q)
{ size_t n=comm(c)->members.size(); std::vector<int> S(n,sn),P(n); for (size_t i=0;i<n;i++) P[i]=i*sn; return MPI_Iscatterv(sb,&S[0],&P[0],st,rb,rn,rt,root,c,q); }

int MPI_Info_create(MPI_Info *i) { *i=MPI_INFO_NULL; return 0; }
int MPI_Info_free(MPI_Info *i) { *i=MPI_INFO_NULL; return 0; }
int MPI_Info_set(MPI_Info,const char*,const char*) { return 0; }

} // extern "C"

namespace vm {
int ga_collective(Comm *c,int kind) { Slot *s=coll_enter(c,kind,0,"",0,-1); coll_wait(c,s,FULL(c)); coll_leave(c,s); return 0; }
void ga_reduce(Comm *c,void *x,long n,MPI_Datatype t,MPI_Op op)
{ long len=n*dt(t)->size; std::vector<char> v=packv(x,n,t); Slot *s=coll_enter(c,C_GAGOP,0,&v[0],len,len); coll_wait(c,s,FULL(c)); std::vector<char> a; red_all(c,s,0,c->members.size(),n,t,op,a); if (n) memcpy(x,&a[0],len); coll_leave(c,s); }
MPI_Comm comm_handle(Comm *c) { return handle(c); }
}
