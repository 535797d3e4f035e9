// The partitioner's answer is environment nondeterminism: this replaces the
// library routine and hands out the assignment chosen by the enumeration.
#ifndef PARSTUB_HPP
#define PARSTUB_HPP
#include <parmetis.h>
#include <vector>
namespace nk { static std::vector<int> g_assign; static int g_calls=0; static std::vector<int> g_degrees; }
extern "C" int ParMETIS_V3_PartKway(idx_t *vtxdist, idx_t *xadj, idx_t *adjncy, idx_t *, idx_t *, idx_t *, idx_t *numflag,
    idx_t *ncon, idx_t *nparts, real_t *, real_t *, idx_t *, idx_t *edgecut, idx_t *part, MPI_Comm *comm)
{
  int me,np; MPI_Comm_rank(*comm,&me); MPI_Comm_size(*comm,&np);
  VM_CHECK(*nparts==np&&*numflag==0&&*ncon==1,"partitioner called with wrong sizes");
  int n=vtxdist[np]; VM_CHECK(vtxdist[0]==0&&n==(int)nk::g_assign.size(),"partitioner got "<<n<<" vertices instead of "<<nk::g_assign.size());
  int lo=vtxdist[me],hi=vtxdist[me+1]; VM_CHECK(xadj[0]==0,"adjacency index does not start at 0");
  // the graph must be the network's: gather it and check symmetry
  std::vector<int> m(n*n,0); for (int v=lo;v<hi;v++) for (int k=xadj[v-lo];k<xadj[v-lo+1];k++) { VM_CHECK(adjncy[k]>=0&&adjncy[k]<n,"vertex "<<v<<" has neighbour "<<adjncy[k]); m[v*n+adjncy[k]]++; }
  std::vector<int> s(n*n,0); MPI_Allreduce(&m[0],&s[0],n*n,MPI_INT,MPI_SUM,*comm);
  nk::g_degrees.assign(n,0); for (int i=0;i<n;i++) for (int j=0;j<n;j++) { VM_CHECK(s[i*n+j]==s[j*n+i],"the graph given to the partitioner is not symmetric"); nk::g_degrees[i]+=s[i*n+j]; }
  std::sort(nk::g_degrees.begin(),nk::g_degrees.end()); nk::g_calls++;
  for (int v=lo;v<hi;v++) part[v-lo]=nk::g_assign[v]; *edgecut=0; return METIS_OK;
}
#endif
