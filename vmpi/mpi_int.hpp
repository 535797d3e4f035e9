#ifndef VM_MPI_INT_HPP
#define VM_MPI_INT_HPP
#include <mpi.h>
#include "core.hpp"
#include <map>
namespace vm {
enum { K_NONE,K_I8,K_U8,K_I16,K_U16,K_I32,K_U32,K_I64,K_U64,K_F32,K_F64,K_F80,K_BOOL,K_C64,K_C128,K_2INT,K_DBLINT,K_LNGINT,K_FLTINT,K_2DBL };
inline int kind_size(int k) { static int z[]={1,1,1,2,2,4,4,8,8,4,8,16,1,8,16,8,16,16,8,16}; return z[k]; }
enum { O_SUM,O_PROD,O_MAX,O_MIN,O_LAND,O_LOR,O_LXOR,O_BAND,O_BOR,O_BXOR,O_MAXLOC,O_MINLOC,O_REPLACE,O_USER };
enum { C_BARRIER,C_BCAST,C_REDUCE,C_ALLREDUCE,C_GATHER,C_SCATTER,C_ALLGATHER,C_ALLTOALL,C_SCAN,C_EXSCAN,C_REDSCAT,C_COMM,C_GASYNC,C_GAALLOC,C_GADESTROY,C_GAZERO,C_GAGOP,C_GATERM,C_GAPGROUP };
const uint64_t DT_MAGIC=0x4454595045ull, COMM_MAGIC=0x434f4d4dull;
struct Seg { long off, len; };
struct DT { uint64_t magic; int size; long extent, lb; int kind; std::vector<Seg> segs; int combiner; std::vector<int> ints; std::vector<void*> types; };
struct Comm { uint64_t magic; uint32_t ctx, seq; std::vector<int> members; int me; std::map<int,void*> attrs; };
struct Slot { Slot *next; uint32_t ctx, seq; int size, kind, root, first; volatile uint64_t arrived; uint64_t left; char *data[MAXR]; size_t len[MAXR]; long sig[MAXR]; uint64_t aux[4]; };
struct SendS { SendS *next; uint32_t ctx; int src, tag; long len; char *data; volatile uint64_t matched; };
struct PostS { PostS *next; uint32_t ctx; int rsrc, rtag; int src, tag; long len; char *data; volatile uint64_t done; };
DT *dt(MPI_Datatype t);
Comm *comm(MPI_Comm c);
Comm *make_comm(int ctx,const std::vector<int> &m);
Comm *world_comm();
Slot *find_slot(uint32_t ctx,uint32_t seq,int size);
Slot *coll_enter(Comm *c,int kind,int root,const void *data,size_t len,long sig);
void coll_wait(Comm *c,Slot *s,uint64_t need);
void coll_leave(Comm *c,Slot *s);
const char *coll_name(int k);
int ga_collective(Comm *c,int kind);
void ga_reduce(Comm *c,void *x,long n,MPI_Datatype t,MPI_Op op);
MPI_Comm comm_handle(Comm *c);
}
#endif
