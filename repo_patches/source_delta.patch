From 2da6f67fba82c4cd4885d2bec7917d687c3d6ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 001/138] fix: hash map aborts in GA when there are fewer items
 than processes

---
 src/parallel/index_hash.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index bf3ca94..1459f26 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -18,6 +18,7 @@
 
 // -------------------------------------------------------------
 
+#include <algorithm>
 #include <ga.h>
 #include "index_hash.hpp"
 
@@ -179,7 +180,8 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<int,int> > &pairs)
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<int,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  // GA does not allow more blocks than elements in a dimension
+  dims = std::max(totalVals+1, p_nprocs);
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -366,7 +368,8 @@ void GlobalIndexHashMap::addPairs(std::vector<std::pair<std::pair<int,int>,int>
   // Create a global array that can hold all values
   int dtype = NGA_Register_type(sizeof(std::pair<std::pair<int,int>,int>));
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  // GA does not allow more blocks than elements in a dimension
+  dims = std::max(totalVals+1, p_nprocs);
   GA_Set_data(g_data,one,&dims,dtype);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -611,7 +614,8 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  // GA does not allow more blocks than elements in a dimension
+  dims = std::max(totalVals+1, p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -727,7 +731,8 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  // GA does not allow more blocks than elements in a dimension
+  dims = std::max(totalVals+1, p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
@@ -983,7 +988,8 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-  dims = totalVals+1;
+  // GA does not allow more blocks than elements in a dimension
+  dims = std::max(totalVals+1, p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   std::vector<int> mapc(p_nprocs);
@@ -1104,7 +1110,8 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
 
   // Create a global array that can hold all key-value pairs
   g_data = GA_Create_handle();
-  dims = totalVals+1;
+  // GA does not allow more blocks than elements in a dimension
+  dims = std::max(totalVals+1, p_nprocs);
   GA_Set_data(g_data,one,&dims,C_INT);
   GA_Set_pgroup(g_data,p_GAgrp);
   mapc[0] = 0;
-- 
2.43.0


From 968b015ecd992607ca3fc2de549aca0db31587b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 002/138] fix: hash map query without keys leaks a global array
 and stale values

---
 src/parallel/index_hash.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/parallel/index_hash.cpp b/src/parallel/index_hash.cpp
index 1459f26..ba5e4b1 100644
--- a/src/parallel/index_hash.cpp
+++ b/src/parallel/index_hash.cpp
@@ -610,7 +610,11 @@ void GlobalIndexHashMap::getValues(std::vector<int> &keys, std::vector<int> &val
     r_offset[i] += totalVals;
     totalVals += 2*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
@@ -984,7 +988,11 @@ void GlobalIndexHashMap::getValues(std::vector<std::pair<int,int> > &keys,
     r_offset[i] += totalVals;
     totalVals += 3*numValues[i];
   }
-  if (totalVals == 0) return;
+  if (totalVals == 0) {
+    GA_Destroy(g_offset);
+    values.clear();
+    return;
+  }
 
   // Create a global array that can hold all key values
   int g_data = GA_Create_handle();
-- 
2.43.0


From 0472fdf350bcf30f2fb4e53506cc67c8c9d2340a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:37 +0000
Subject: [PATCH 003/138] fix: global store fails on empty vectors and on
 indices without data

---
 src/parallel/global_store.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index 0857f49..c34bcef 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -162,7 +162,7 @@ public:
       int idx = p_index[i];
       int lo = p_begin[idx];
       int hi = p_end[idx]-1;
-      NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
+      if (lo <= hi) NGA_Put(p_GA,&lo,&hi,&((p_data[i])[0]),&one);
       p_data[i].clear();
     }
     p_data.clear();
@@ -189,6 +189,11 @@ public:
     int lo = p_begin[idx];
     int hi = p_end[idx]-1;
     int size = p_end[idx]-p_begin[idx];
+    if (size < 1) {
+      // no data for this index
+      vec.clear();
+      return;
+    }
     _data_type *dbuf = new _data_type[size];
     NGA_Get(p_GA,&lo,&hi,dbuf,&ld);
     // Copy results to vector
-- 
2.43.0


From 01180db2a8124b43a79810a40d0ba7bd71b7543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:51 +0000
Subject: [PATCH 004/138] fix: global store never releases its GA data type

---
 src/parallel/global_store.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parallel/global_store.hpp b/src/parallel/global_store.hpp
index c34bcef..39e5009 100644
--- a/src/parallel/global_store.hpp
+++ b/src/parallel/global_store.hpp
@@ -60,6 +60,7 @@ public:
   {
     // Assume that if p_begin is allocated, other data objects are allocated
     if (p_uploaded) {
+      NGA_Deregister_type(p_GA_Type);
       GA_Destroy(p_GA);
     }
     if (p_begin != NULL) delete [] p_begin;
@@ -150,9 +151,9 @@ public:
 
     // Create a GA to hold data
     int one = 1;
-    int GA_type = NGA_Register_type(p_datasize);
+    p_GA_Type = NGA_Register_type(p_datasize);
     p_GA = GA_Create_handle();
-    GA_Set_data(p_GA, one, &ndata, GA_type);
+    GA_Set_data(p_GA, one, &ndata, p_GA_Type);
     int GAgrp = p_comm.getGroup();
     GA_Set_pgroup(p_GA, GAgrp);
     GA_Allocate(p_GA);
@@ -216,6 +217,9 @@ private:
   // global array handle for storing distributed data
   int p_GA;
 
+  // GA type used for the stored data
+  int p_GA_Type;
+
   // size of data type in bytes, processor configuration information,
   // total number stored vectors
   int p_datasize;
-- 
2.43.0


From 666fd57f380b1e055a397002033c8d3523ad48a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:25 +0000
Subject: [PATCH 005/138] fix: global vector upload loses data and misses
 duplicates when processes run at different speeds

The duplicate check looked at the local part of the reference counts before the
contributions of the other processes had arrived, and a process could clear its
local data after another process had already written values into it.
---
 src/parallel/global_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parallel/global_vector.hpp b/src/parallel/global_vector.hpp
index b0a6ba5..24376d9 100644
--- a/src/parallel/global_vector.hpp
+++ b/src/parallel/global_vector.hpp
@@ -171,6 +171,8 @@ public:
     if (p_index.size() > 0) {
       NGA_Scatter_acc(g_idx,ival,iptr,p_index.size(),&one);
     }
+    // all contributions must have arrived before they are inspected
+    GA_Pgroup_sync(GAgrp);
     if (p_index.size() > 0) {
       delete [] ival;
     }
@@ -209,6 +211,8 @@ public:
       memset(dptr,'\0',ld*p_datasize);
       NGA_Release(p_GA,&ilo,&ihi);
     }
+    // all processes must have cleared their data before values are written
+    GA_Pgroup_sync(GAgrp);
 
     // Copy data to GA
     _data_type *data;
-- 
2.43.0


From ad920a3c5e3de33bd17f4b13aa7d5a332d16f1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:37 +0000
Subject: [PATCH 006/138] fix: send each ghost bus to a process only once when
 partitioning

The duplicates that std::unique moved to the end of the list of
destinations were never erased, so a bus with several branches into the
same process was ghosted there more than once.
---
 src/partition/graph_partitioner_implementation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/partition/graph_partitioner_implementation.cpp b/src/partition/graph_partitioner_implementation.cpp
index 5c212e6..882de07 100644
--- a/src/partition/graph_partitioner_implementation.cpp
+++ b/src/partition/graph_partitioner_implementation.cpp
@@ -475,7 +475,8 @@ GraphPartitionerImplementation::partition(void)
       // there may be duplicates, so get rid of them
       if (tmpdest.size() > 1) {
         std::stable_sort(tmpdest.begin(), tmpdest.end());
-        std::unique(tmpdest.begin(), tmpdest.end());
+        tmpdest.erase(std::unique(tmpdest.begin(), tmpdest.end()),
+                      tmpdest.end());
       }
 
       p_ghost_node_destinations[n].reserve(tmpdest.size());
-- 
2.43.0


From d05c7acd8d465a3c1867c915b06813f5a791e78f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:25 +0000
Subject: [PATCH 007/138] fix: partition networks with fewer branches than
 processes or isolated buses

Some blocks of the distributed edge list are empty when there are few
edges, and a process may hold only vertices without neighbors; an empty
region was then read from a global array, which aborts the program.
---
 src/partition/adjacency_list.cpp                  | 5 +++++
 src/partition/parmetis/parmetis_graph_wrapper.cpp | 9 ++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/partition/adjacency_list.cpp b/src/partition/adjacency_list.cpp
index 9ba2652..3472b25 100644
--- a/src/partition/adjacency_list.cpp
+++ b/src/partition/adjacency_list.cpp
@@ -214,6 +214,8 @@ AdjacencyList::ready(void)
   }
   int g_edges = GA_Create_handle();
   dims = 2*total_edges;
+  // there must be at least one element for each block of the distribution
+  if (dims < nprocs) dims = nprocs;
   NGA_Set_data(g_edges,1,&dims,C_INT);
   NGA_Set_irreg_distr(g_edges,&dist[0],&nprocs);
   NGA_Set_pgroup(g_edges, grp);
@@ -265,7 +267,10 @@ AdjacencyList::ready(void)
   for (p=0; p<nprocs; p++) {
     int iproc = (me+p)%nprocs;
     NGA_Distribution(g_edges,iproc,&lo,&hi);
+    // skip padding and processes that hold no edges
+    if (hi >= 2*total_edges) hi = 2*total_edges - 1;
     int size = hi - lo + 1;
+    if (size <= 0) continue;
     int *buf = new int[size];
     int ld = 1;
     NGA_Get(g_edges,&lo,&hi,buf,&ld);
diff --git a/src/partition/parmetis/parmetis_graph_wrapper.cpp b/src/partition/parmetis/parmetis_graph_wrapper.cpp
index 84ea9ae..2a25616 100644
--- a/src/partition/parmetis/parmetis_graph_wrapper.cpp
+++ b/src/partition/parmetis/parmetis_graph_wrapper.cpp
@@ -298,9 +298,11 @@ ParMETISGraphWrapper::get_csr_local(std::vector<idx_t>& vtxdist,
   hi[0] = tmp.back() - 1;
   int nidxsize(hi[0] - lo[0] + 1);
   std::vector<int> nidx(nidxsize);
-  p_adjncy_gbl->get(&lo[0], &hi[0], &nidx[0], &ld[0]);
 
-  {  
+                                // local nodes may not have any neighbors
+  if (nidxsize > 0) {  
+    p_adjncy_gbl->get(&lo[0], &hi[0], &nidx[0], &ld[0]);
+
     std::vector<int*> junkidx(nidx.size());
     std::vector<int>::iterator i(nidx.begin());
     std::vector<int*>::iterator ip(junkidx.begin());
@@ -310,9 +312,10 @@ ParMETISGraphWrapper::get_csr_local(std::vector<idx_t>& vtxdist,
     }
     tmp.resize(nidx.size());
     p_local_node_id->gather(&tmp[0], &junkidx[0], tmp.size());
+  } else {
+    tmp.clear();
   }
 
-
   adjncy.clear();
   adjncy.reserve(tmp.size());
   std::copy(tmp.begin(), tmp.end(), std::back_inserter(adjncy));
-- 
2.43.0


From d8bb97adf760fd8fa96d756e21aec34adc236c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 008/138] fix: ghost exchange on processors without buses or
 branches

A processor without buses (branches) did not know the size of the exchange
buffers and skipped the collective set up of the update, which hangs or
aborts the program. The global array was also too small if the last
processors have no active buses or there are more processors than buses.
---
 src/factory/base_factory.hpp |  3 +++
 src/network/base_network.hpp | 22 ++++++++++++++++------
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/factory/base_factory.hpp b/src/factory/base_factory.hpp
index 57b029f..4b2961e 100644
--- a/src/factory/base_factory.hpp
+++ b/src/factory/base_factory.hpp
@@ -309,6 +309,8 @@ class BaseFactory {
       } else {
         busXCSize = 0;
       }
+      // The size must be known on processors without buses as well
+      p_network->communicator().max(&busXCSize,1);
       if (flag) {
         p_network->allocXCBus(busXCSize);
       } else {
@@ -320,6 +322,7 @@ class BaseFactory {
       } else {
         branchXCSize = 0;
       }
+      p_network->communicator().max(&branchXCSize,1);
       if (flag) {
         p_network->allocXCBranch(branchXCSize);
       } else {
diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a878820..0d66498 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1740,8 +1740,9 @@ void allocXCBus(int size)
     delete [] p_busXCBuffers;
     p_busXCBufSize = 0;
   }
-  // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  // Allocate new buffers if size is greater than zero (the size is also needed
+  // on processors that do not have any buses)
+  if (size > 0) {
     p_busXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_busXCBuffers[i] = static_cast<void*>(new char[size]);
@@ -1880,8 +1881,9 @@ void allocXCBranch(int size)
     p_branchXCBufSize = 0;
     p_external_branch = true;
   }
-  // Allocate new buffers if size is greater than zero
-  if (size > 0 && nsize > 0) {
+  // Allocate new buffers if size is greater than zero (the size is also needed
+  // on processors that do not have any branches)
+  if (size > 0) {
     p_branchXCBuffers = new void*[nsize];
     for (i=0; i<nsize; i++) {
       p_branchXCBuffers[i] = static_cast<void*>(new char[size]);
@@ -2062,7 +2064,11 @@ void initBusUpdate(void)
     p_busGA = GA_Create_handle();
     int one = 1;
     p_busXCBufType = NGA_Register_type(p_busXCBufSize);
-    GA_Set_data(p_busGA, one, &p_busTotal, p_busXCBufType);
+    // blocks must start inside of the array, even if they are empty, and there
+    // must be at least one element for each block of the distribution
+    int dims = p_busTotal + 1;
+    if (dims < nprocs) dims = nprocs;
+    GA_Set_data(p_busGA, one, &dims, p_busXCBufType);
     GA_Set_irreg_distr(p_busGA, distr, &nprocs);
     GA_Set_pgroup(p_busGA, grp);
     GA_Allocate(p_busGA);
@@ -2251,7 +2257,11 @@ void initBranchUpdate(void)
     p_branchGA = GA_Create_handle();
     int one = 1;
     p_branchXCBufType = NGA_Register_type(p_branchXCBufSize);
-    GA_Set_data(p_branchGA, one, &p_branchTotal, p_branchXCBufType);
+    // blocks must start inside of the array, even if they are empty, and there
+    // must be at least one element for each block of the distribution
+    int dims = p_branchTotal + 1;
+    if (dims < nprocs) dims = nprocs;
+    GA_Set_data(p_branchGA, one, &dims, p_branchXCBufType);
     GA_Set_irreg_distr(p_branchGA, distr, &nprocs);
     GA_Set_pgroup(p_branchGA, grp);
     GA_Allocate(p_branchGA);
-- 
2.43.0


From 530ad2538fe423e9f55046cf57a8c82488d21b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:00 +0000
Subject: [PATCH 009/138] fix: initBranchUpdate allocates single integers
 instead of arrays

new int(nprocs) overruns the heap if there is more than one processor.
---
 src/network/base_network.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index 0d66498..ec76ea4 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -2236,8 +2236,8 @@ void initBranchUpdate(void)
     // Construct GA that can hold exchange data for all active branches
     int nprocs = GA_Pgroup_nnodes(grp);
     int me = GA_Pgroup_nodeid(grp);
-    int *totBranches = new int(nprocs);
-    int *distr = new int(nprocs);
+    int *totBranches = new int[nprocs];
+    int *distr = new int[nprocs];
     for (i=0; i<nprocs; i++) {
       if (me == i) {
         totBranches[i] = numBranches;
@@ -2312,8 +2312,8 @@ void initBranchUpdate(void)
         icnt++;
       }
     }
-    delete totBranches;
-    delete distr;
+    delete [] totBranches;
+    delete [] distr;
   }
   GA_Pgroup_sync(grp);
 }
-- 
2.43.0


From 9a8bafd5ed604e046d0f66bbafef7535ad071701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:42 +0000
Subject: [PATCH 010/138] fix: partitioning again duplicates the neighbor lists
 of bus components

---
 src/network/base_network.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index ec76ea4..a89cf1e 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -1189,6 +1189,9 @@ void partition(void)
     int lidx(0);
     for (BusIterator b = p_buses.begin(); b != p_buses.end(); ++b, ++lidx) {
       clearBranchNeighbors(lidx);
+      // neighbors from an earlier partition are no longer valid
+      b->p_bus->clearBranches();
+      b->p_bus->clearBuses();
       busindexes[b->p_globalBusIndex] = lidx;
       if (b->p_activeBus) active_buses += 1;
     }
-- 
2.43.0


From ad2329f3d41fbeb6795aeddf97db2e100ed41459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 011/138] fix: reference bus and local indices after cleaning
 and repartitioning a network

clean() made bus 0 the reference bus if the reference bus was a ghost and
left the maps of local indices unchanged, and partition() did not follow
the reference bus to its new local index.
---
 src/network/base_network.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/network/base_network.hpp b/src/network/base_network.hpp
index a89cf1e..dd795b9 100644
--- a/src/network/base_network.hpp
+++ b/src/network/base_network.hpp
@@ -484,6 +484,9 @@ int totalBranches(void)
  */
 void setReferenceBus(int idx)
 {
+  if (p_refBus >= 0 && p_refBus < p_buses.size()) {
+    p_buses[p_refBus].p_refFlag = false;
+  }
   p_refBus = idx;
   if (idx >= 0 && idx < p_buses.size()) {
     p_buses[idx].p_refFlag = true;
@@ -1187,6 +1190,7 @@ void partition(void)
   {
     std::map<int, int> busindexes;
     int lidx(0);
+    p_refBus = -1;
     for (BusIterator b = p_buses.begin(); b != p_buses.end(); ++b, ++lidx) {
       clearBranchNeighbors(lidx);
       // neighbors from an earlier partition are no longer valid
@@ -1194,6 +1198,8 @@ void partition(void)
       b->p_bus->clearBuses();
       busindexes[b->p_globalBusIndex] = lidx;
       if (b->p_activeBus) active_buses += 1;
+      // keep track of reference bus, if it has already been set
+      if (b->p_refFlag) p_refBus = lidx;
     }
 
     // go through the branches and set the local bus indexes and pointers
@@ -1382,9 +1388,17 @@ void clean(void)
       }
     }
   }
+  // the reference bus may have been a ghost bus
   if (p_refBus != -1) {
-    p_refBus = buses[p_refBus];
+    p = buses.find(p_refBus);
+    if (p != buses.end()) {
+      p_refBus = p->second;
+    } else {
+      p_refBus = -1;
+    }
   }
+  // removed buses and branches should not be found by the local index functions
+  setMap();
 }
 
 /**
-- 
2.43.0


From aa88295a27d2ce16c827d13897c5844fc185d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 012/138] fix: result of transposeMultiply has the wrong size
 for matrices that are not square

---
 src/math/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/matrix.hpp b/src/math/matrix.hpp
index 3b4c58b..df10ae8 100644
--- a/src/math/matrix.hpp
+++ b/src/math/matrix.hpp
@@ -683,7 +683,7 @@ VectorT<T, I> *multiply(const MatrixT<T, I>& A, const VectorT<T, I>& x)
 template <typename T, typename I>
 VectorT<T, I> *transposeMultiply(const MatrixT<T, I>& A, const VectorT<T, I>& x)
 {
-  VectorT<T, I> *result(new VectorT<T, I>(x.communicator(), x.localSize()));
+  VectorT<T, I> *result(new VectorT<T, I>(x.communicator(), A.localCols()));
   transposeMultiply<T, I>(A, x, *result);
   return result;
 }
-- 
2.43.0


From c66f01dcefaeeaf81f190516f2056a248646612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 013/138] fix: splitting a communicator waits for processes
 that are not part of it

---
 src/parallel/communicator.cpp | 24 ++++++++++++++++++------
 src/parallel/communicator.hpp |  8 +++++++-
 2 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/parallel/communicator.cpp b/src/parallel/communicator.cpp
index bd3d2ae..a86a6db 100644
--- a/src/parallel/communicator.cpp
+++ b/src/parallel/communicator.cpp
@@ -45,14 +45,20 @@ public:
   {
   }
 
-  /// Construct on the processes in the specified communicators
-  CommunicatorPrivate(const boost::mpi::communicator& comm)
+  /// Construct on the processes in the specified communicator
+  /** 
+   * GA makes a process group from an existing one, collectively on the
+   * latter, so all processes in @c parent need to call this.
+   * 
+   * @param comm processes in the group
+   * @param parent GA process group that contains those processes
+   */
+  CommunicatorPrivate(const boost::mpi::communicator& comm, const int& parent)
     : p_handle(), p_created(true)
   {
     int me(comm.rank()), nprocs(comm.size());
-    int gaWrld = GA_Pgroup_get_world();
     int defGrp = GA_Pgroup_get_default();
-    GA_Pgroup_set_default(gaWrld);
+    GA_Pgroup_set_default(parent);
     std::vector<int> gaSrc(nprocs, 0), gaDest(nprocs, 0);
     gaSrc[me] = GA_Nodeid();
     boost::mpi::all_reduce(comm, &gaSrc[0], nprocs, &gaDest[0], std::plus<int>());
@@ -123,17 +129,23 @@ Communicator::Communicator(const Communicator& old)
 }
 
 Communicator::Communicator(const boost::mpi::communicator& comm)
-  : p_comm(comm), p_private(new CommunicatorPrivate(p_comm))
+  : p_comm(comm), p_private(new CommunicatorPrivate(p_comm, GA_Pgroup_get_world()))
 {
 }
 
 
 Communicator::Communicator(const MPI_Comm& comm)
   : p_comm(comm, boost::mpi::comm_duplicate),
-    p_private(new CommunicatorPrivate(p_comm))
+    p_private(new CommunicatorPrivate(p_comm, GA_Pgroup_get_world()))
 {
 }
 
+Communicator::Communicator(const boost::mpi::communicator& comm, 
+                           const Communicator& parent)
+  : p_comm(comm), 
+    p_private(new CommunicatorPrivate(p_comm, parent.getGroup()))
+{
+}
 
 Communicator::~Communicator(void)
 {
diff --git a/src/parallel/communicator.hpp b/src/parallel/communicator.hpp
index 4f03bc8..1752010 100644
--- a/src/parallel/communicator.hpp
+++ b/src/parallel/communicator.hpp
@@ -101,7 +101,7 @@ public:
   /// Split this instance into several communicators
   Communicator split(int color) const
   {
-    return Communicator(p_comm.split(color));
+    return Communicator(p_comm.split(color), *this);
   }
 
   /// Get a sub-communicator that is only for this process
@@ -185,6 +185,12 @@ protected:
 
   /// The private (GA process group) stuff
   boost::shared_ptr<CommunicatorPrivate> p_private;
+
+  /// Construct with part of the processes in another instance
+  /** 
+   * @e Collective on @c parent.
+   */
+  Communicator(const boost::mpi::communicator& comm, const Communicator& parent);
 };
 
 
-- 
2.43.0


From a435ea3ae956329206675fa7b83a2ec9788e7325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 014/138] fix: matrices and wrapped PETSc objects on some of
 the processes wait for all of them

---
 .../petsc/petsc_dae_solver_implementation.hpp | 14 ++++----
 .../petsc/petsc_linear_matrix_solver_impl.hpp |  2 +-
 .../petsc/petsc_matrix_implementation.hpp     | 13 ++++----
 src/math/petsc/petsc_matrix_operations.cpp    |  8 ++---
 src/math/petsc/petsc_matrix_wrapper.cpp       | 32 ++++++++-----------
 src/math/petsc/petsc_matrix_wrapper.hpp       |  4 +--
 .../petsc_nonlinear_solver_implementation.hpp |  4 +--
 .../petsc/petsc_vector_implementation.hpp     |  5 +--
 src/math/petsc/petsc_vector_wrapper.cpp       | 13 --------
 src/math/petsc/petsc_vector_wrapper.hpp       |  3 --
 10 files changed, 40 insertions(+), 58 deletions(-)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index aa1334a..f092f5c 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -284,8 +284,8 @@ protected:
     BOOST_ASSERT(B == *(solver->p_petsc_J));
 
     boost::scoped_ptr<VectorType> 
-      xtmp(new VectorType(new PETScVectorImplementation<T, I>(x, false))),
-      xdottmp(new VectorType(new PETScVectorImplementation<T, I>(xdot, false)));
+      xtmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), x, false))),
+      xdottmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), xdot, false)));
 
     // Call the user-specified function (object) to form the Jacobian
     (solver->p_Jbuilder)(t, *xtmp, *xdottmp, a, *(solver->p_J));
@@ -305,9 +305,9 @@ protected:
       (PETScDAESolverImplementation *)dummy;
 
     boost::scoped_ptr<VectorType> 
-      xtmp(new VectorType(new PETScVectorImplementation<T, I>(x, false))),
-      xdottmp(new VectorType(new PETScVectorImplementation<T, I>(xdot, false))),
-      ftmp(new VectorType(new PETScVectorImplementation<T, I>(F, false)));
+      xtmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), x, false))),
+      xdottmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), xdot, false))),
+      ftmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), F, false)));
 
     (solver->p_Fbuilder)(t, *xtmp, *xdottmp, *ftmp);
     return ierr;
@@ -369,7 +369,7 @@ protected:
     
 
     boost::scoped_ptr<VectorType>
-      state(new VectorType(new PETScVectorImplementation<T, I>(U, false)));
+      state(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), U, false)));
 
     // This gets a little tricky.  If PETSc is built w/ complex,
     // fvalue will be complex, and evalues, whether real or complex,
@@ -402,7 +402,7 @@ protected:
       (PETScDAESolverImplementation *)dummy;
 
     boost::scoped_ptr<VectorType>
-      state(new VectorType(new PETScVectorImplementation<T, I>(U, false)));
+      state(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), U, false)));
 
     solver->p_eventManager->handle(nevents_zero, events_zero, t, *state);
     return ierr;
diff --git a/src/math/petsc/petsc_linear_matrix_solver_impl.hpp b/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
index ae57717..12701cf 100644
--- a/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
+++ b/src/math/petsc/petsc_linear_matrix_solver_impl.hpp
@@ -265,7 +265,7 @@ protected:
     }
 
     PETScMatrixImplementation<T, I> *ximpl = 
-      new PETScMatrixImplementation<T, I>(X, true);
+      new PETScMatrixImplementation<T, I>(B.communicator(), X, true);
     MatrixT<T, I> *result = new MatrixT<T, I>(ximpl);
 
     try {
diff --git a/src/math/petsc/petsc_matrix_implementation.hpp b/src/math/petsc/petsc_matrix_implementation.hpp
index 91314e8..3f539b0 100644
--- a/src/math/petsc/petsc_matrix_implementation.hpp
+++ b/src/math/petsc/petsc_matrix_implementation.hpp
@@ -111,8 +111,9 @@ public:
   }
 
   /// Make a new instance from an existing PETSc matrix
-  PETScMatrixImplementation(Mat& m, const bool& copyMat = true, const bool& destroyMat = false)
-    : MatrixImplementation<T, I>(PetscMatrixWrapper::getCommunicator(m)),
+  PETScMatrixImplementation(const parallel::Communicator& comm, Mat& m, 
+                            const bool& copyMat = true, const bool& destroyMat = false)
+    : MatrixImplementation<T, I>(comm),
       p_mwrap(new PetscMatrixWrapper(m, copyMat, destroyMat))
   {
   }
@@ -157,7 +158,7 @@ public:
         ierr = MatSetType(mtmp, MATDENSE); CHKERRXX(ierr);
         ierr = MatMPIDenseSetPreallocation(mtmp, PETSC_NULL); CHKERRXX(ierr);
       }
-      result = new PETScMatrixImplementation(mtmp, false);
+      result = new PETScMatrixImplementation(comm, mtmp, false);
     } catch (const PETSC_EXCEPTION_TYPE& e) {
       throw PETScException(ierr, e);
     }
@@ -191,7 +192,7 @@ protected:
     ierr = MatGetOwnershipRange(*A, &lo, &hi); CHKERRXX(ierr);
 
     boost::scoped_ptr< PETScMatrixImplementation<T, I> > 
-      tmp(new PETScMatrixImplementation<T, I>(*A, true));
+      tmp(new PETScMatrixImplementation<T, I>(this->communicator(), *A, true));
 
     std::vector<TheType> rvals;
     for (PetscInt i = lo; i < hi; i += 2) {
@@ -669,7 +670,7 @@ protected:
   MatrixImplementation<T, I> *p_clone(void) const
   {
     PETScMatrixImplementation<T, I> *result =
-      new PETScMatrixImplementation<T, I>(*(const_cast<Mat*>(p_mwrap->getMatrix())), true);
+      new PETScMatrixImplementation<T, I>(this->communicator(), *(const_cast<Mat*>(p_mwrap->getMatrix())), true);
     return result;
   }
 
@@ -693,7 +694,7 @@ protected:
     // std::cout << "Extracted matrix type: " << mt << std::endl;
 
     PETScMatrixImplementation<T, I> *result =
-      new PETScMatrixImplementation<T, I>(*Aloc, true);
+      new PETScMatrixImplementation<T, I>(this->communicator().self(), *Aloc, true);
     
     ierr = ISDestroy(&irow); CHKERRXX(ierr);
     ierr = ISDestroy(&icol); CHKERRXX(ierr);
diff --git a/src/math/petsc/petsc_matrix_operations.cpp b/src/math/petsc/petsc_matrix_operations.cpp
index 5236714..95dd378 100644
--- a/src/math/petsc/petsc_matrix_operations.cpp
+++ b/src/math/petsc/petsc_matrix_operations.cpp
@@ -127,7 +127,7 @@ transpose(const MatrixT<T, I>& A)
       ierr = MatTranspose(*pA, MAT_INITIAL_MATRIX, &pAtrans); CHKERRXX(ierr);
       
       PETScMatrixImplementation<T, I> *result_impl = 
-        new PETScMatrixImplementation<T, I>(pAtrans, false, true);
+        new PETScMatrixImplementation<T, I>(A.communicator(), pAtrans, false, true);
       result = new MatrixT<T, I>(result_impl);
     // }
   
@@ -414,7 +414,7 @@ multiply(const MatrixT<T, I>& A, const MatrixT<T, I>& B)
     }
 
     PETScMatrixImplementation<T, I> *result_impl = 
-      new PETScMatrixImplementation<T, I>(Cmat, false, true);
+      new PETScMatrixImplementation<T, I>(A.communicator(), Cmat, false, true);
     result = new MatrixT<T, I>(result_impl);
 
   return result;
@@ -514,7 +514,7 @@ storageType(const MatrixT<T, I>& A, const MatrixStorageType& new_type)
     }
 
     PETScMatrixImplementation<T, I> *result_impl = 
-      new PETScMatrixImplementation<T, I>(B, true, true);
+      new PETScMatrixImplementation<T, I>(A.communicator(), B, true, true);
     result = new MatrixT<T, I>(result_impl);
     ierr = MatDestroy(&B); CHKERRXX(ierr);
     
@@ -566,7 +566,7 @@ matrixLoadBinary(const parallel::Communicator& comm, const char* filename)
     ierr = PetscViewerDestroy(&viewer); CHKERRXX(ierr);
 
     PETScMatrixImplementation<T, I> *result_impl = 
-      new PETScMatrixImplementation<T, I>(mat, true);
+      new PETScMatrixImplementation<T, I>(comm, mat, true);
     result = new MatrixT<T, I>(result_impl);
     ierr = MatDestroy(&mat); CHKERRXX(ierr);
   } catch (const PETSC_EXCEPTION_TYPE& e) {
diff --git a/src/math/petsc/petsc_matrix_wrapper.cpp b/src/math/petsc/petsc_matrix_wrapper.cpp
index d87fbee..c9d364a 100644
--- a/src/math/petsc/petsc_matrix_wrapper.cpp
+++ b/src/math/petsc/petsc_matrix_wrapper.cpp
@@ -34,14 +34,13 @@ namespace math {
 // -------------------------------------------------------------
 
 // -------------------------------------------------------------
-// PETScMatrixImplementation::p_getCommunicator
+// PetscMatrixWrapper::communicatorSize
 // -------------------------------------------------------------
-parallel::Communicator
-PetscMatrixWrapper::getCommunicator(const Mat& m)
+int
+PetscMatrixWrapper::communicatorSize(const Mat& m)
 {
-  MPI_Comm comm;
-  PetscObjectGetComm((PetscObject)m, &comm);
-  parallel::Communicator result(comm);
+  int result;
+  MPI_Comm_size(PetscObjectComm((PetscObject)m), &result);
   return result;
 }
 
@@ -163,8 +162,7 @@ PetscMatrixWrapper::p_set_dense_matrix(void)
 {
   PetscErrorCode ierr(0);
   try {
-    parallel::Communicator comm(getCommunicator(p_matrix));
-    if (comm.size() == 1) {
+    if (communicatorSize(p_matrix) == 1) {
       ierr = MatSetType(p_matrix, MATSEQDENSE); CHKERRXX(ierr);
       ierr = MatSeqDenseSetPreallocation(p_matrix, PETSC_NULL); CHKERRXX(ierr);
     } else {
@@ -184,8 +182,7 @@ PetscMatrixWrapper::p_set_sparse_matrix(void)
 {
   PetscErrorCode ierr(0);
   try {
-    parallel::Communicator comm(getCommunicator(p_matrix));
-    if (comm.size() == 1) {
+    if (communicatorSize(p_matrix) == 1) {
       ierr = MatSetType(p_matrix, MATSEQAIJ); CHKERRXX(ierr);
     } else {
       ierr = MatSetType(p_matrix, MATMPIAIJ); CHKERRXX(ierr);
@@ -206,8 +203,7 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt& max_nz_per_row)
   offdiagonal_non_zero_guess = std::max(offdiagonal_non_zero_guess, 10);
 
   try {
-    parallel::Communicator comm(getCommunicator(p_matrix));
-    if (comm.size() == 1) {
+    if (communicatorSize(p_matrix) == 1) {
       ierr = MatSetType(p_matrix, MATSEQAIJ); CHKERRXX(ierr);
       ierr = MatSeqAIJSetPreallocation(p_matrix, 
                                        diagonal_non_zero_guess + offdiagonal_non_zero_guess,
@@ -238,8 +234,7 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
 
   PetscErrorCode ierr(0);
   try {
-    parallel::Communicator comm(getCommunicator(p_matrix));
-    if (comm.size() == 1) {
+    if (communicatorSize(p_matrix) == 1) {
       ierr = MatSetType(p_matrix, MATSEQAIJ); CHKERRXX(ierr);
       ierr = MatSeqAIJSetPreallocation(p_matrix, 
                                        PETSC_DECIDE,
@@ -440,8 +435,9 @@ PetscMatrixWrapper::ready(void)
     if (false) {
       MatInfo info;
       ierr = MatGetInfo(p_matrix,MAT_LOCAL,&info);
-      parallel::Communicator comm(getCommunicator(p_matrix));
-      std::cerr << comm.rank() << ": Matrix::ready(): "
+      PetscMPIInt me;
+      ierr = MPI_Comm_rank(PetscObjectComm((PetscObject)p_matrix), &me);
+      std::cerr << me << ": Matrix::ready(): "
                 << "size = (" << this->rows() << "x" << this->cols() << "), "
                 << "#assembled = " << info.assemblies << ", "
                 << "#mallocs = " << info.mallocs << ", "
@@ -540,7 +536,7 @@ PetscMatrixWrapper::loadBinary(const char* filename)
   PetscErrorCode ierr;
   try {
     PetscViewer viewer;
-    parallel::Communicator comm(getCommunicator(p_matrix));
+    MPI_Comm comm(PetscObjectComm((PetscObject)p_matrix));
     ierr = PetscViewerBinaryOpen(comm,
                                  filename,
                                  FILE_MODE_READ,
@@ -564,7 +560,7 @@ PetscMatrixWrapper::saveBinary(const char* filename) const
   PetscErrorCode ierr;
   try {
     PetscViewer viewer;
-    parallel::Communicator comm(getCommunicator(p_matrix));
+    MPI_Comm comm(PetscObjectComm((PetscObject)p_matrix));
     ierr = PetscViewerBinaryOpen(comm,
                                  filename,
                                  FILE_MODE_WRITE,
diff --git a/src/math/petsc/petsc_matrix_wrapper.hpp b/src/math/petsc/petsc_matrix_wrapper.hpp
index 56de2ca..8576c13 100644
--- a/src/math/petsc/petsc_matrix_wrapper.hpp
+++ b/src/math/petsc/petsc_matrix_wrapper.hpp
@@ -34,8 +34,8 @@ class PetscMatrixWrapper
 {
 public:
 
-  /// Extract a Communicator from a PETSc vector
-  static parallel::Communicator getCommunicator(const Mat& m);
+  /// Get the number of processes a PETSc matrix lives on
+  static int communicatorSize(const Mat& m);
 
   /// Default constructor.
   PetscMatrixWrapper(const parallel::Communicator& comm,
diff --git a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
index f7eb3b2..43492ca 100644
--- a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
+++ b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
@@ -231,10 +231,10 @@ protected:
     // user function
 
     boost::scoped_ptr< VectorType > 
-      xtmp(new VectorType(new PETScVectorImplementation<T, I>(x, false)));
+      xtmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), x, false)));
 
     boost::scoped_ptr< VectorType > 
-      ftmp(new VectorType(new PETScVectorImplementation<T, I>(f, false)));
+      ftmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), f, false)));
 
     // Call the user-specified function (object) to form the RHS
     (solver->p_function)(*xtmp, *ftmp);
diff --git a/src/math/petsc/petsc_vector_implementation.hpp b/src/math/petsc/petsc_vector_implementation.hpp
index 28c786a..f8d9681 100644
--- a/src/math/petsc/petsc_vector_implementation.hpp
+++ b/src/math/petsc/petsc_vector_implementation.hpp
@@ -73,8 +73,9 @@ public:
   { }
 
   /// Construct from an existing PETSc vector
-  PETScVectorImplementation(Vec& pvec, const bool& copyvec = true)
-    : VectorImplementation<T>(PetscVectorWrapper::getCommunicator(pvec)), 
+  PETScVectorImplementation(const parallel::Communicator& comm, Vec& pvec, 
+                            const bool& copyvec = true)
+    : VectorImplementation<T>(comm), 
       p_vwrap(pvec, copyvec)
   { }
 
diff --git a/src/math/petsc/petsc_vector_wrapper.cpp b/src/math/petsc/petsc_vector_wrapper.cpp
index 15e5bd8..8c1bc94 100644
--- a/src/math/petsc/petsc_vector_wrapper.cpp
+++ b/src/math/petsc/petsc_vector_wrapper.cpp
@@ -30,19 +30,6 @@ namespace math {
 //  class PetscVectorWrapper
 // -------------------------------------------------------------
 
-// -------------------------------------------------------------
-// static PetscVectorWrapper::getCommunicator
-// -------------------------------------------------------------
-parallel::Communicator
-PetscVectorWrapper::getCommunicator(const Vec& v)
-{
-  MPI_Comm comm(PetscObjectComm((PetscObject)v));
-  parallel::Communicator result(comm);
-  return result;
-}
-
-
-
 // -------------------------------------------------------------
 // PetscVectorWrapper:: constructors / destructor
 // -------------------------------------------------------------
diff --git a/src/math/petsc/petsc_vector_wrapper.hpp b/src/math/petsc/petsc_vector_wrapper.hpp
index 1de4d2a..ece7dae 100644
--- a/src/math/petsc/petsc_vector_wrapper.hpp
+++ b/src/math/petsc/petsc_vector_wrapper.hpp
@@ -47,9 +47,6 @@ public:
   /// Destructor
   ~PetscVectorWrapper(void);
 
-  /// Build a parallel::Communicator from the Vec instance
-  static parallel::Communicator getCommunicator(const Vec& v);
-
   /// Get (a pointer to) the PETSc implementation
   const Vec *getVector(void) const
   {
-- 
2.43.0


From 0e7adec2571a81a78d5591ae8a9e3a619e8331d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 015/138] fix: matrix with given numbers of nonzeros hangs if a
 process has no rows

---
 src/math/petsc/petsc_matrix_wrapper.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_wrapper.cpp b/src/math/petsc/petsc_matrix_wrapper.cpp
index c9d364a..d67e96d 100644
--- a/src/math/petsc/petsc_matrix_wrapper.cpp
+++ b/src/math/petsc/petsc_matrix_wrapper.cpp
@@ -228,10 +228,15 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
 {
   std::vector<PetscInt> diagnz;
   PetscInt lrows(this->localRows());
-  diagnz.reserve(lrows);
+  diagnz.reserve(lrows+1);
   std::copy(nz_by_row, nz_by_row+lrows, 
             std::back_inserter(diagnz));
 
+  // a process without rows still needs to pass an array to PETSc, or
+  // it would set up its part differently from the others, with which it
+  // later disagrees about what to communicate
+  diagnz.push_back(0);
+
   PetscErrorCode ierr(0);
   try {
     if (communicatorSize(p_matrix) == 1) {
@@ -241,9 +246,10 @@ PetscMatrixWrapper::p_set_sparse_matrix(const PetscInt *nz_by_row)
                                        &diagnz[0]); CHKERRXX(ierr);
     } else {
       std::vector<PetscInt> offdiagnz;
-      offdiagnz.reserve(lrows);
+      offdiagnz.reserve(lrows+1);
       std::copy(nz_by_row, nz_by_row+lrows, 
                 std::back_inserter(offdiagnz));
+      offdiagnz.push_back(0);
       ierr = MatSetType(p_matrix, MATMPIAIJ); CHKERRXX(ierr);
       ierr = MatMPIAIJSetPreallocation(p_matrix, 
                                        PETSC_DECIDE,
-- 
2.43.0


From 686ffbd06480195c7510d91753ce43be03d07ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 016/138] fix: elements from other processes are lost after
 changing the storage of a matrix

---
 src/math/petsc/petsc_matrix_operations.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/math/petsc/petsc_matrix_operations.cpp b/src/math/petsc/petsc_matrix_operations.cpp
index 95dd378..843ee8b 100644
--- a/src/math/petsc/petsc_matrix_operations.cpp
+++ b/src/math/petsc/petsc_matrix_operations.cpp
@@ -509,6 +509,10 @@ storageType(const MatrixT<T, I>& A, const MatrixStorageType& new_type)
     PetscErrorCode ierr(0);
     try {
       ierr = MatConvert(*Amat, new_mat_type, MAT_INITIAL_MATRIX, &B); CHKERRXX(ierr);
+
+      // PETSc leaves this option on in a converted matrix, which would
+      // then ignore, or refuse, elements set by other processes
+      ierr = MatSetOption(B, MAT_NO_OFF_PROC_ENTRIES, PETSC_FALSE); CHKERRXX(ierr);
     } catch (const PETSC_EXCEPTION_TYPE& e) {
       throw PETScException(ierr, e);
     }
-- 
2.43.0


From 72a1ae9a0c28f733867a2e3049f2f735be961d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 017/138] fix: consistency check of the matrix mapper returns
 the result of the last block only

---
 src/mapper/full_map.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index f05b463..cf38a97 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -358,6 +358,7 @@ bool check(void)
   gridpack::component::BaseBusComponent *bus1;
   gridpack::component::BaseBusComponent *bus2;
   bool ok;
+  bool ret = true;
   for (i=0; i<p_nBranches; i++) {
     bus1 = dynamic_cast<gridpack::component::BaseBusComponent*>
       (p_network->getBranch(i)->getBus1().get());
@@ -378,6 +379,7 @@ bool check(void)
         bus2->matrixDiagSize(&msize, &nsize);
         if (msize != jsize) ok = false;
         if (!ok) {
+          ret = false;
           printf("Forward mismatch for branch between %d and %d\n",
               bus1->getOriginalIndex(), bus2->getOriginalIndex());
         }
@@ -398,13 +400,14 @@ bool check(void)
         bus2->matrixDiagSize(&msize, &nsize);
         if (nsize != isize) ok = false;
         if (!ok) {
+          ret = false;
           printf("Reverse mismatch for branch between %d and %d\n",
               bus1->getOriginalIndex(), bus2->getOriginalIndex());
         }
       }
     }
   }
-  return ok;
+  return ret;
 }
 
 private:
-- 
2.43.0


From c2ee3fe1e5bf3cc4bb03c90eeaf0f4e162ede064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 018/138] fix: consistency check of the matrix mapper compares
 rows of branch blocks with columns of buses

---
 src/mapper/full_map.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index cf38a97..a52f1e0 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -373,11 +373,11 @@ bool check(void)
         msize = 0;
         nsize = 0;
         bus1->matrixDiagSize(&msize, &nsize);
-        if (nsize != isize) ok = false;
+        if (msize != isize) ok = false;
         msize = 0;
         nsize = 0;
         bus2->matrixDiagSize(&msize, &nsize);
-        if (msize != jsize) ok = false;
+        if (nsize != jsize) ok = false;
         if (!ok) {
           ret = false;
           printf("Forward mismatch for branch between %d and %d\n",
@@ -394,11 +394,11 @@ bool check(void)
         msize = 0;
         nsize = 0;
         bus1->matrixDiagSize(&msize, &nsize);
-        if (msize != jsize) ok = false;
+        if (nsize != jsize) ok = false;
         msize = 0;
         nsize = 0;
         bus2->matrixDiagSize(&msize, &nsize);
-        if (nsize != isize) ok = false;
+        if (msize != isize) ok = false;
         if (!ok) {
           ret = false;
           printf("Reverse mismatch for branch between %d and %d\n",
-- 
2.43.0


From 8314c53920ac0ab9c332f682f85407be2b72817b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:19 +0000
Subject: [PATCH 019/138] fix: matrix mapper aborts if there are no buses on a
 process

---
 src/mapper/full_map.hpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index a52f1e0..318f8c5 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -19,6 +19,7 @@
 
 //#define NZ_PER_ROW
 
+#include <algorithm>
 #include <boost/smart_ptr/shared_ptr.hpp>
 #include <ga.h>
 #include "gridpack/parallel/parallel.hpp"
@@ -454,6 +455,8 @@ void createIndexGA(int * handle, int size)
 {
   int one = 1;
   *handle = GA_Create_handle();
+  // Global arrays cannot be empty
+  if (size < 1) size = 1;
   GA_Set_data(*handle, one, &size, C_INT);
   GA_Set_pgroup(*handle,p_GAgrp);
   if (!GA_Allocate(*handle)) {
@@ -761,11 +764,15 @@ void setupOffsetArrays()
 //  printf("p[%d] (FullMatrixMap) minRow: %d maxRow: %d\n",p_me,p_minRowIndex,p_maxRowIndex);
   // Create array to hold information about desired rows
   int nRows = p_maxRowIndex-p_minRowIndex+1;
+  // There are no rows if there are no active buses on this processor
+  if (nRows < 0) nRows = 0;
   int *iSizes = new int[nRows]; 
   int *jSizes = new int[nRows]; 
   GA_Pgroup_sync(p_GAgrp);
-  NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
-  NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  if (nRows > 0) {
+    NGA_Get(gaMatBlksI,&p_minRowIndex,&p_maxRowIndex,iSizes,&one);
+    NGA_Get(gaMatBlksJ,&p_minRowIndex,&p_maxRowIndex,jSizes,&one);
+  }
 
   // Calculate total number of elements associated with row block and column
   // block associated with this processor
@@ -829,9 +836,11 @@ void setupOffsetArrays()
   delete [] itmp;
   delete [] jtmp;
 
-  // Create arrays that will hold final offsets
+  // Create arrays that will hold final offsets. The dimension must be larger
+  // than all block offsets, also if there are no buses on the last processors
+  int arrayDim = std::max(p_totalBuses+1,p_nNodes);
   gaOffsetI = GA_Create_handle();
-  GA_Set_data(gaOffsetI, one, &p_totalBuses, C_INT);
+  GA_Set_data(gaOffsetI, one, &arrayDim, C_INT);
   GA_Set_irreg_distr(gaOffsetI, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetI,p_GAgrp);
   if (!GA_Allocate(gaOffsetI)) {
@@ -843,7 +852,7 @@ void setupOffsetArrays()
   GA_Zero(gaOffsetI);
 
   gaOffsetJ = GA_Create_handle();
-  GA_Set_data(gaOffsetJ, one, &p_totalBuses, C_INT);
+  GA_Set_data(gaOffsetJ, one, &arrayDim, C_INT);
   GA_Set_irreg_distr(gaOffsetJ, mapc, &p_nNodes);
   GA_Set_pgroup(gaOffsetJ,p_GAgrp);
   if (!GA_Allocate(gaOffsetJ)) {
@@ -857,8 +866,10 @@ void setupOffsetArrays()
   // Evaluate offsets for this processor
   int *iOffsets = new int[nRows]; 
   int *jOffsets = new int[nRows]; 
-  iOffsets[0] = offsetArrayISize;
-  jOffsets[0] = offsetArrayJSize;
+  if (nRows > 0) {
+    iOffsets[0] = offsetArrayISize;
+    jOffsets[0] = offsetArrayJSize;
+  }
   for (i=1; i<nRows; i++) {
     iOffsets[i] = iOffsets[i-1] + iSizes[i-1];
     jOffsets[i] = jOffsets[i-1] + jSizes[i-1];
-- 
2.43.0


From 757cb107b67598b0b8a9a290bc4c72b5c856587b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:24 +0000
Subject: [PATCH 020/138] fix: matrix mapper does not reserve space for rows
 that only branches contribute to

---
 src/mapper/full_map.hpp | 48 ++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 27 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index 318f8c5..53318db 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -572,9 +572,9 @@ void loadBusArrays(int * iSizeArray, int * jSizeArray,
 //    jSize = 0;
     status = p_network->getBus(i)->matrixDiagSize(&iSize, &jSize);
     int isave = iSize;
+    maxcol = 0;
+    p_network->getBus(i)->getMatVecIndex(&index);
     if (status) {
-      maxcol = 0;
-      p_network->getBus(i)->getMatVecIndex(&index);
       if (iSize > 0) {
         iSizeArray[*icount]     = iSize;
         *(iIndexArray[*icount])  = index;
@@ -586,35 +586,29 @@ void loadBusArrays(int * iSizeArray, int * jSizeArray,
         (*jcount)++;
       }
       maxcol += jSize;
-      branches.clear();
-      p_network->getBus(i)->getNeighborBranches(branches);
-#ifdef NZ_PER_ROW
-//      bool addrow = false;
-#endif
-      // Since status is true, something is being added to matrix. Check to find
-      // extra contributions from branches
-      for(j = 0; j<branches.size(); j++) {
-        branches[j]->getMatVecIndices(&idx, &jdx);
-        if (index == idx) {
-          chk = branches[j]->matrixForwardSize(&iSize, &jSize);
-        } else {
-          chk = branches[j]->matrixReverseSize(&iSize, &jSize);
-        }
-        if (chk) maxcol += jSize;
-#ifdef NZ_PER_ROW
-//        addrow = addrow || chk;
-#endif
+    }
+    // Find contributions from branches. These can be there even if the bus
+    // itself does not contribute to the matrix
+    branches.clear();
+    p_network->getBus(i)->getNeighborBranches(branches);
+    for(j = 0; j<branches.size(); j++) {
+      branches[j]->getMatVecIndices(&idx, &jdx);
+      if (index == idx) {
+        chk = branches[j]->matrixForwardSize(&iSize, &jSize);
+      } else {
+        chk = branches[j]->matrixReverseSize(&iSize, &jSize);
       }
-      if (p_maxcol < maxcol) p_maxcol = maxcol;
+      if (chk) maxcol += jSize;
+    }
+    if (p_maxcol < maxcol) p_maxcol = maxcol;
 #ifdef NZ_PER_ROW
+    if (status) {
       // Add maxcol entry for each row in block
-//      if (addrow) {
-        for (j=0; j<isave; j++) {
-          nz_per_row.push_back(maxcol);
-        }
-//      }
-#endif
+      for (j=0; j<isave; j++) {
+        nz_per_row.push_back(maxcol);
+      }
     }
+#endif
   }
 
 #ifdef NZ_PER_ROW
-- 
2.43.0


From 6bfe5bd52a885690b3bcb80a2d3f5104e8d7c4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 021/138] fix: partitioning a network without branches fails
 with a formatting error

---
 src/partition/graph_partitioner_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/partition/graph_partitioner_implementation.cpp b/src/partition/graph_partitioner_implementation.cpp
index 882de07..b06cb6b 100644
--- a/src/partition/graph_partitioner_implementation.cpp
+++ b/src/partition/graph_partitioner_implementation.cpp
@@ -164,7 +164,7 @@ GraphPartitionerImplementation::partition(void)
                          locedges, alledges, std::plus<int>());
 
   if (allnodes <= 0 || alledges <= 0) {
-    boost::format fmt("%d: GraphPartitioner::partition(): called without nodes (%d) or edges (%)");
+    boost::format fmt("%d: GraphPartitioner::partition(): called without nodes (%d) or edges (%d)");
     
     std::string msg = boost::str(fmt % communicator().worldRank() % allnodes % alledges);
     throw Exception(msg);
-- 
2.43.0


From 0a01fbf397705bce9ac59f2b94993cf0d4150495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 022/138] fix: partitioner prints although printing is off

---
 src/partition/graph_partitioner_implementation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/partition/graph_partitioner_implementation.cpp b/src/partition/graph_partitioner_implementation.cpp
index b06cb6b..6429344 100644
--- a/src/partition/graph_partitioner_implementation.cpp
+++ b/src/partition/graph_partitioner_implementation.cpp
@@ -62,6 +62,8 @@ GraphPartitionerImplementation::GraphPartitionerImplementation(const parallel::C
     p_node_destinations(local_nodes),
     p_edge_destinations(local_edges)
 {
+    gridpack::NoPrint *noprint = gridpack::NoPrint::instance();
+    p_no_print = noprint->status();
   // empty
 }
 
-- 
2.43.0


From 2a4dbdd11f83d21ee7824cbf773d95933e7c07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:11 +0000
Subject: [PATCH 023/138] fix: general matrix mapper drops branch elements in
 columns that match row indices of the branch

---
 src/mapper/gen_matrix_map.hpp | 45 +++++------------------------------
 1 file changed, 6 insertions(+), 39 deletions(-)

diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index dd2c41b..f485e8d 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -603,28 +603,13 @@ void numberNonZeros(void)
     nvals = p_network->getBranch(i)->matrixNumValues();
     if (nvals > p_maxValues) p_maxValues = nvals;
     if (nvals > 0) {
-      int ncols = p_network->getBranch(i)->matrixNumCols();
-      int rmin, rmax;
-      bool isActive = p_network->getActiveBranch(i);
-      if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
-      }
       gridpack::ComplexType *values = new gridpack::ComplexType[nvals];
       int *rows = new int[nvals];
       int *cols = new int[nvals];
       p_network->getBranch(i)->matrixGetValues(values, rows, cols);
       for (j=0; j<nvals; j++) {
         if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
-          if (ncols > 0) {
-            if (cols[j] >= rmin && cols[j] <= rmax) {
-              if (isActive) p_nz_per_row[rows[j]-p_minRowIndex]++;
-            } else {
-              p_nz_per_row[rows[j]-p_minRowIndex]++;
-            }
-          } else {
-            p_nz_per_row[rows[j]-p_minRowIndex]++;
-          }
+          p_nz_per_row[rows[j]-p_minRowIndex]++;
         }
       }
       delete [] rows;
@@ -677,33 +662,15 @@ void loadBranchData(gridpack::math::Matrix &matrix, bool flag)
   for (i=0; i<p_nBranches; i++) {
     nvals = p_network->getBranch(i)->matrixNumValues();
     if (nvals > 0) {
-      int ncols = p_network->getBranch(i)->matrixNumCols();
-      int rmin, rmax;
-      bool isActive = p_network->getActiveBranch(i);
-      if (ncols > 0) {
-        rmin = p_network->getBranch(i)->matrixGetRowIndex(0);
-        rmax = p_network->getBranch(i)->matrixGetRowIndex(ncols-1);
-      }
       p_network->getBranch(i)->matrixGetValues(values,rows,cols);
-      bool addElem;
+      // Each row belongs to one process, so every element is added only once,
+      // also if there are copies of the branch on other processes
       for (j=0; j<nvals; j++) {
         if (rows[j] >= p_minRowIndex && rows[j] <= p_maxRowIndex) {
-          addElem = false;
-          if (ncols > 0) {
-            if (cols[j] >= rmin && cols[j] <= rmax) {
-              if (isActive) addElem = true;
-            } else {
-              addElem = true;
-            }
+          if (flag) {
+            matrix.addElement(rows[j],cols[j],values[j]);
           } else {
-            addElem = true;
-          }
-          if (addElem) {
-            if (flag) {
-              matrix.addElement(rows[j],cols[j],values[j]);
-            } else {
-              matrix.setElement(rows[j],cols[j],values[j]);
-            }
+            matrix.setElement(rows[j],cols[j],values[j]);
           }
         }
       }
-- 
2.43.0


From 518fe79160e7d3a6072fc12ce8591291a6b91edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 024/138] fix: general mappers abort if there are no buses or
 branches on some processes

---
 src/mapper/gen_matrix_map.hpp | 12 ++++++++----
 src/mapper/gen_slab_map.hpp   |  8 ++++++--
 src/mapper/gen_vector_map.hpp |  8 ++++++--
 3 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index f485e8d..000ade3 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -394,10 +394,14 @@ void setOffsets(void)
   }
   delete [] t_busMap;
   delete [] t_branchMap;
+  // The dimensions must be larger than all block offsets, also if there are no
+  // buses or branches on the last processors
+  int bus_dim = std::max(total_buses+1,p_nNodes);
+  int branch_dim = std::max(total_branches+1,p_nNodes);
 
   int one = 1;
   g_bus_row_offsets = GA_Create_handle();
-  GA_Set_data(g_bus_row_offsets, one, &total_buses, C_INT);
+  GA_Set_data(g_bus_row_offsets, one, &bus_dim, C_INT);
   GA_Set_irreg_distr(g_bus_row_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_row_offsets)) {
@@ -409,7 +413,7 @@ void setOffsets(void)
   GA_Zero(g_bus_row_offsets);
 
   g_bus_column_offsets = GA_Create_handle();
-  GA_Set_data(g_bus_column_offsets, one, &total_buses, C_INT);
+  GA_Set_data(g_bus_column_offsets, one, &bus_dim, C_INT);
   GA_Set_irreg_distr(g_bus_column_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_column_offsets)) {
@@ -421,7 +425,7 @@ void setOffsets(void)
   GA_Zero(g_bus_column_offsets);
 
   g_branch_row_offsets = GA_Create_handle();
-  GA_Set_data(g_branch_row_offsets, one, &total_branches, C_INT);
+  GA_Set_data(g_branch_row_offsets, one, &branch_dim, C_INT);
   GA_Set_irreg_distr(g_branch_row_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_row_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_row_offsets)) {
@@ -433,7 +437,7 @@ void setOffsets(void)
   GA_Zero(g_branch_row_offsets);
 
   g_branch_column_offsets = GA_Create_handle();
-  GA_Set_data(g_branch_column_offsets, one, &total_branches, C_INT);
+  GA_Set_data(g_branch_column_offsets, one, &branch_dim, C_INT);
   GA_Set_irreg_distr(g_branch_column_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_column_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_column_offsets)) {
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index d6b5837..aec193f 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -472,10 +472,14 @@ void setOffsets(void)
   }
   delete [] t_busMap;
   delete [] t_branchMap;
+  // The dimensions must be larger than all block offsets, also if there are no
+  // buses or branches on the last processors
+  int bus_dim = std::max(total_buses+1,p_nNodes);
+  int branch_dim = std::max(total_branches+1,p_nNodes);
 
   int one = 1;
   g_bus_offsets = GA_Create_handle();
-  GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
+  GA_Set_data(g_bus_offsets, one, &bus_dim, C_INT);
   GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
@@ -487,7 +491,7 @@ void setOffsets(void)
   GA_Zero(g_bus_offsets);
 
   g_branch_offsets = GA_Create_handle();
-  GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
+  GA_Set_data(g_branch_offsets, one, &branch_dim, C_INT);
   GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index 2eabdfc..a9e5e33 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -350,10 +350,14 @@ void setOffsets(void)
   }
   delete [] t_busMap;
   delete [] t_branchMap;
+  // The dimensions must be larger than all block offsets, also if there are no
+  // buses or branches on the last processors
+  int bus_dim = std::max(total_buses+1,p_nNodes);
+  int branch_dim = std::max(total_branches+1,p_nNodes);
 
   int one = 1;
   g_bus_offsets = GA_Create_handle();
-  GA_Set_data(g_bus_offsets, one, &total_buses, C_INT);
+  GA_Set_data(g_bus_offsets, one, &bus_dim, C_INT);
   GA_Set_irreg_distr(g_bus_offsets, busMap, &p_nNodes);
   GA_Set_pgroup(g_bus_offsets, p_GAgrp);
   if (!GA_Allocate(g_bus_offsets)) {
@@ -365,7 +369,7 @@ void setOffsets(void)
   GA_Zero(g_bus_offsets);
 
   g_branch_offsets = GA_Create_handle();
-  GA_Set_data(g_branch_offsets, one, &total_branches, C_INT);
+  GA_Set_data(g_branch_offsets, one, &branch_dim, C_INT);
   GA_Set_irreg_distr(g_branch_offsets, branchMap, &p_nNodes);
   GA_Set_pgroup(g_branch_offsets, p_GAgrp);
   if (!GA_Allocate(g_branch_offsets)) {
-- 
2.43.0


From 7ec3a37aa734811edf20d047b2e5f8294417b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:19 +0000
Subject: [PATCH 025/138] fix: slab mapper refuses networks with processes that
 do not contribute, and fails on one process only

---
 src/mapper/gen_slab_map.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index aec193f..eba4951 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -328,27 +328,29 @@ void getDimensions(void)
   strcpy(plus,"+");
   GA_Pgroup_igop(p_GAgrp, sizebuf, p_nNodes, plus);
   int maxCols, minCols;
+  char cmax[4];
+  strcpy(cmax,"max");
+  maxCols = nCols;
+  GA_Pgroup_igop(p_GAgrp, &maxCols, 1, cmax);
+  // Processors without any rows have no say in the number of columns
   if (!okCols) {
     minCols = -1;
-  } else {
+  } else if (nRows > 0) {
     minCols = nCols;
+  } else {
+    minCols = maxCols;
   }
   char cmin[4];
   strcpy(cmin,"min");
   GA_Pgroup_igop(p_GAgrp, &minCols, 1, cmin);
-  maxCols = nCols;
-  char cmax[4];
-  strcpy(cmax,"max");
-  GA_Pgroup_igop(p_GAgrp, &maxCols, 1, cmax);
-  if (maxCols != minCols) okCols = false;
-  if (!okCols && p_me == 0) {
+  if (maxCols != minCols) {
     char buf[512];
     sprintf(buf,"(GenSlabMap) Number of columns not uniform across all processors\n");
     throw gridpack::Exception(buf);
   }
   // Get total row dimension and evaluate offsets for processor
   p_Dim = sizebuf[0];
-  p_nColumns = nCols;
+  p_nColumns = maxCols;
   p_Offsets[0] = 0;
   for (i=1; i<p_nNodes; i++) {
     p_Dim += sizebuf[i];
-- 
2.43.0


From 75b4b86fba1aa69f1a676accec127731ff531ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:44 +0000
Subject: [PATCH 026/138] fix: dense matrix cannot be made with processes
 without rows

---
 src/math/petsc/petsc_matrix_implementation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_matrix_implementation.hpp b/src/math/petsc/petsc_matrix_implementation.hpp
index 3f539b0..37e8bd0 100644
--- a/src/math/petsc/petsc_matrix_implementation.hpp
+++ b/src/math/petsc/petsc_matrix_implementation.hpp
@@ -138,8 +138,10 @@ public:
     try {
       PetscInt grow(global_rows > 0 ? global_rows : PETSC_DETERMINE);
       PetscInt gcol(global_cols > 0 ? global_cols : PETSC_DETERMINE);
-      PetscInt lrow(local_rows > 0 ? local_rows : PETSC_DECIDE);
-      PetscInt lcol(local_cols > 0 ? local_cols : PETSC_DECIDE);
+
+      // without a global size, zero is the actual local size
+      PetscInt lrow(local_rows > 0 || global_rows <= 0 ? local_rows : PETSC_DECIDE);
+      PetscInt lcol(local_cols > 0 || global_cols <= 0 ? local_cols : PETSC_DECIDE);
 
       ierr = PetscSplitOwnership(comm, &lrow, &grow); CHKERRXX(ierr);
       ierr = PetscSplitOwnership(comm, &lcol, &gcol); CHKERRXX(ierr);
-- 
2.43.0


From 23637d3037d7ff06fdb0e0459c1eefec5d7cd33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 027/138] fix: slab made for the Fortran interface has the
 columns once for each process

---
 src/mapper/gen_slab_map.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index eba4951..7bfa9b8 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -102,15 +102,9 @@ gridpack::math::Matrix* intMapToMatrix(void)
 {
   gridpack::parallel::Communicator comm = p_network->communicator();
   int blockSize = p_maxIndex-p_minIndex+1;
-#if 1
   gridpack::math::Matrix*
-    Ret(new gridpack::math::Matrix(comm, blockSize,p_nColumns,
-                                   gridpack::math::Dense));
-#else
-  boost::shared_ptr<gridpack::math::Matrix>
     Ret(gridpack::math::Matrix::createDense(comm,
           0,p_nColumns,blockSize,0));
-#endif
 
   loadBusData(*Ret,false);
   loadBranchData(*Ret,false);
-- 
2.43.0


From 8cdf4d5284a1872934f43e3004e94afc451eef19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 028/138] fix: serial linear solve uses stale last element of
 right hand side and guess on reuse

---
 src/math/linear_solver_implementation.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/linear_solver_implementation.hpp b/src/math/linear_solver_implementation.hpp
index 1514e7d..89e3b80 100644
--- a/src/math/linear_solver_implementation.hpp
+++ b/src/math/linear_solver_implementation.hpp
@@ -199,7 +199,8 @@ protected:
       p_serialRHS.reset(b.localClone());
     } else {
       b.getAllElements(&p_valueBuffer[0]);
-      p_serialRHS->setElementRange(0, b.size() - 1, &p_valueBuffer[0]);
+      p_serialRHS->setElementRange(0, b.size(), &p_valueBuffer[0]);
+      p_serialRHS->ready();
     }
 
     // Collect the initial guess, if it's not zero
@@ -212,7 +213,8 @@ protected:
     } else {
       if (!p_guessZero) {
         x.getAllElements(&p_valueBuffer[0]);
-        p_serialSolution->setElementRange(0, x.size() - 1, &p_valueBuffer[0]);
+        p_serialSolution->setElementRange(0, x.size(), &p_valueBuffer[0]);
+        p_serialSolution->ready();
       }
     }
   }
-- 
2.43.0


From cbfad3fec54c0efa984aec7dc938b075ee48016d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 029/138] fix: tolerance and iteration limit set on a PETSc
 linear solver after configuration are ignored

---
 .../petsc_linear_solver_implementation.hpp    | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/math/petsc/petsc_linear_solver_implementation.hpp b/src/math/petsc/petsc_linear_solver_implementation.hpp
index 33569c4..91b0cd8 100644
--- a/src/math/petsc/petsc_linear_solver_implementation.hpp
+++ b/src/math/petsc/petsc_linear_solver_implementation.hpp
@@ -50,6 +50,7 @@ public:
   PETScLinearSolverImplementation(MatrixType& A)
     : LinearSolverImplementation<T, I>(A),
       PETScConfigurable(this->communicator()),
+      p_KSP(NULL),
       p_matrixSet(false)
   {
     p_no_print = gridpack::NoPrint::instance()->status();
@@ -82,6 +83,41 @@ protected:
   // Turn off printing
   bool p_no_print;
 
+  using LinearSolverImplementation<T, I>::p_tolerance;
+
+  /// Set the solver tolerance (specialized)
+  void p_tolerance(const double& tol)
+  {
+    LinearSolverImplementation<T, I>::p_tolerance(tol);
+    if (p_KSP == NULL) return;
+    PetscErrorCode ierr(0);
+    try {
+      PetscReal rtol, dtol;
+      PetscInt maxits;
+      ierr = KSPGetTolerances(p_KSP, &rtol, NULL, &dtol, &maxits); CHKERRXX(ierr);
+      ierr = KSPSetTolerances(p_KSP, rtol, tol, dtol, maxits); CHKERRXX(ierr);
+    } catch (const PETSC_EXCEPTION_TYPE& e) {
+      throw PETScException(ierr, e);
+    }
+  }
+
+  using LinearSolverImplementation<T, I>::p_maximumIterations;
+
+  /// Set the maximum solution iterations (specialized)
+  void p_maximumIterations(const int& n)
+  {
+    LinearSolverImplementation<T, I>::p_maximumIterations(n);
+    if (p_KSP == NULL) return;
+    PetscErrorCode ierr(0);
+    try {
+      PetscReal rtol, atol, dtol;
+      ierr = KSPGetTolerances(p_KSP, &rtol, &atol, &dtol, NULL); CHKERRXX(ierr);
+      ierr = KSPSetTolerances(p_KSP, rtol, atol, dtol, n); CHKERRXX(ierr);
+    } catch (const PETSC_EXCEPTION_TYPE& e) {
+      throw PETScException(ierr, e);
+    }
+  }
+
   /// Do what is necessary to build this instance
   void p_build(const std::string& option_prefix)
   {
-- 
2.43.0


From 9612285bbd23e2a1c02bace2ca465780507faa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 030/138] fix: tolerance and iteration limit set on a PETSc
 nonlinear solver after configuration are ignored

---
 .../petsc_nonlinear_solver_implementation.hpp | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
index 43492ca..4c4efc4 100644
--- a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
+++ b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
@@ -104,6 +104,42 @@ protected:
   /// A pointer to the PETSc vector part of ::p_X
   Vec *p_petsc_X;
 
+  using NonlinearSolverImplementation<T, I>::p_tolerance;
+
+  /// Set the solver tolerance (specialized)
+  void p_tolerance(const double& tol)
+  {
+    NonlinearSolverImplementation<T, I>::p_tolerance(tol);
+    if (p_snes == NULL) return;
+    PetscErrorCode ierr(0);
+    try {
+      PetscReal atol, rtol;
+      PetscInt maxit, maxf;
+      ierr = SNESGetTolerances(p_snes, &atol, &rtol, NULL, &maxit, &maxf); CHKERRXX(ierr);
+      ierr = SNESSetTolerances(p_snes, atol, rtol, tol, maxit, maxf); CHKERRXX(ierr);
+    } catch (const PETSC_EXCEPTION_TYPE& e) {
+      throw PETScException(ierr, e);
+    }
+  }
+
+  using NonlinearSolverImplementation<T, I>::p_maximumIterations;
+
+  /// Set the maximum solution iterations (specialized)
+  void p_maximumIterations(const int& n)
+  {
+    NonlinearSolverImplementation<T, I>::p_maximumIterations(n);
+    if (p_snes == NULL) return;
+    PetscErrorCode ierr(0);
+    try {
+      PetscReal atol, rtol, stol;
+      PetscInt maxf;
+      ierr = SNESGetTolerances(p_snes, &atol, &rtol, &stol, NULL, &maxf); CHKERRXX(ierr);
+      ierr = SNESSetTolerances(p_snes, atol, rtol, stol, n, maxf); CHKERRXX(ierr);
+    } catch (const PETSC_EXCEPTION_TYPE& e) {
+      throw PETScException(ierr, e);
+    }
+  }
+
   /// Do what is necessary to build this instance
   void p_build(const std::string& option_prefix)
   {
-- 
2.43.0


From 68f765928c5beba26006a5a142998a82d7bcfc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 031/138] fix: Jacobian of a PETSc nonlinear solver is
 evaluated at PETSc's current estimate

---
 .../petsc/petsc_nonlinear_solver_implementation.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
index 4c4efc4..73dbfdc 100644
--- a/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
+++ b/src/math/petsc/petsc_nonlinear_solver_implementation.hpp
@@ -234,20 +234,19 @@ protected:
     PetscNonlinearSolverImplementation *solver =
       (PetscNonlinearSolverImplementation *)dummy;
 
-    // Copy PETSc's current estimate into 
-
     // Should be the case, but just make sure
     BOOST_ASSERT(jac == *(solver->p_petsc_J));
     BOOST_ASSERT(B == *(solver->p_petsc_J));
 
-    // Not sure about this
-    BOOST_ASSERT(x == *(solver->p_petsc_X));
+    // As in FormFunction(), x is not necessarily the vector passed to
+    // SNESSolve(), so PETSc's current estimate is wrapped temporarily
+    // for the user function
 
-    // May need to do this, which seems slow.
-    // ierr = VecCopy(x, *(solver->p_petsc_X)); CHKERRQ(ierr);
+    boost::scoped_ptr< VectorType > 
+      xtmp(new VectorType(new PETScVectorImplementation<T, I>(solver->communicator(), x, false)));
 
     // Call the user-specified function (object) to form the Jacobian
-    (solver->p_jacobian)(*(solver->p_X), *(solver->p_J));
+    (solver->p_jacobian)(*xtmp, *(solver->p_J));
 
     return ierr;
   }
-- 
2.43.0


From c2f4803aef00471a063cc2fd80d2f6e9ecaccee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 032/138] fix: nonlinear solver monitor on a subcommunicator
 waits for all processes

---
 src/math/petsc/petsc_nonlinear_solver_implementation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/petsc/petsc_nonlinear_solver_implementation.cpp b/src/math/petsc/petsc_nonlinear_solver_implementation.cpp
index b17e745..45b28ee 100644
--- a/src/math/petsc/petsc_nonlinear_solver_implementation.cpp
+++ b/src/math/petsc/petsc_nonlinear_solver_implementation.cpp
@@ -26,7 +26,7 @@ namespace math {
 PetscErrorCode  
 MonitorNorms(SNES snes, PetscInt its, PetscReal fgnorm, void *dummy)
 {
-  PetscViewer    viewer = PETSC_VIEWER_STDOUT_WORLD;
+  PetscViewer    viewer = PETSC_VIEWER_STDOUT_(PetscObjectComm((PetscObject)snes));
 
   Vec dx;
   SNESGetSolutionUpdate(snes, &dx);
-- 
2.43.0


From 7a833fd02166202cf60f47050316eed0a44875e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 033/138] fix: Newton-Raphson solver reports failure to
 converge instead of returning the last estimate

---
 src/math/newton_raphson_solver_implementation.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/math/newton_raphson_solver_implementation.hpp b/src/math/newton_raphson_solver_implementation.hpp
index eefcb32..9b8f598 100644
--- a/src/math/newton_raphson_solver_implementation.hpp
+++ b/src/math/newton_raphson_solver_implementation.hpp
@@ -21,7 +21,9 @@
 #define _newton_raphson_solver_implementation_hpp_
 
 #include <iostream>
+#include <boost/format.hpp>
 #include <boost/scoped_ptr.hpp>
+#include "gridpack/utilities/exception.hpp"
 #include "nonlinear_solver_functions.hpp"
 #include "nonlinear_solver_implementation.hpp"
 #include "linear_solver.hpp"
@@ -163,6 +165,13 @@ protected:
                   << std::endl;
       }
     }
+    if (!(stol <= this->p_solutionTolerance)) {
+      std::string msg = 
+        boost::str(boost::format("%d: Newton-Raphson did not converge after %d iterations, "
+                                 "solution residual norm = %g") % 
+                   this->processor_rank() % iter % stol);
+      throw Exception(msg);
+    }
   }
 
 };
-- 
2.43.0


From a37c5955696919ac8e05a19919a8b7e110b6ea69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 034/138] fix: DAE solver's maximum number of steps applies to
 each solve, not to all solves together

---
 src/math/petsc/petsc_dae_solver_implementation.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/petsc/petsc_dae_solver_implementation.hpp b/src/math/petsc/petsc_dae_solver_implementation.hpp
index f092f5c..6399d73 100644
--- a/src/math/petsc/petsc_dae_solver_implementation.hpp
+++ b/src/math/petsc/petsc_dae_solver_implementation.hpp
@@ -211,7 +211,10 @@ protected:
   {
     PetscErrorCode ierr(0);
     try {
-      ierr = TSSetMaxSteps(p_ts, maxsteps); CHKERRXX(ierr);
+      // PETSc counts the steps of all previous calls
+      PetscInt nstep0;
+      ierr = TSGetStepNumber(p_ts, &nstep0); CHKERRXX(ierr);
+      ierr = TSSetMaxSteps(p_ts, nstep0 + maxsteps); CHKERRXX(ierr);
       ierr = TSSetMaxTime(p_ts, maxtime); CHKERRXX(ierr);
       ierr = TSSetExactFinalTime(p_ts, TS_EXACTFINALTIME_MATCHSTEP); CHKERRXX(ierr); 
       ierr = TSSolve(p_ts, PETSC_NULL);
@@ -225,7 +228,7 @@ protected:
 
       PetscInt nstep;
       ierr = TSGetStepNumber(p_ts,&nstep);CHKERRXX(ierr);
-      maxsteps = nstep;
+      maxsteps = nstep - nstep0;
 
       if (reason >= 0) {
 
-- 
2.43.0


From ac02bdd0ca4d674c1152e72a2a44e7ebc1b2242a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 035/138] fix: DAE event manager ignores termination flags of
 all but the first triggered value

---
 src/math/dae_event.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/math/dae_event.hpp b/src/math/dae_event.hpp
index 4d21a9c..07ed286 100644
--- a/src/math/dae_event.hpp
+++ b/src/math/dae_event.hpp
@@ -367,12 +367,15 @@ protected:
     T *lstate = state.getLocalElements();
 
     BOOST_FOREACH(p_EventInfo rec, p_events) {
+      bool handled(false);
       for (int i = 0; i < rec.nval; ++i) {
         int idx(rec.evidx + i);
         if (p_trigger[idx]) {
-          rec.event->handle(&p_trigger[rec.evidx], t, &lstate[rec.solidx]);
+          if (!handled) {
+            rec.event->handle(&p_trigger[rec.evidx], t, &lstate[rec.solidx]);
+            handled = true;
+          }
           if (term[idx]) { p_terminated = true; }
-          break;
         }
       }
     }
-- 
2.43.0


From 7c7f26ceebc45c02b4ca82bf29054e97d43ab586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 036/138] fix: serial IO fails when there are fewer buses or
 branches than processes

---
 src/serial_io/serial_io.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/serial_io/serial_io.hpp b/src/serial_io/serial_io.hpp
index 49f203c..63e4a71 100755
--- a/src/serial_io/serial_io.hpp
+++ b/src/serial_io/serial_io.hpp
@@ -331,6 +331,7 @@ class SerialBusIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        if (hi < lo) continue; // nothing on process i
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -457,6 +458,7 @@ class SerialBusIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        if (hi < lo) continue; // nothing on process i
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -572,6 +574,7 @@ class SerialBusIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        if (hi < lo) continue; // nothing on process i
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -887,6 +890,7 @@ class SerialBranchIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        if (hi < lo) continue; // nothing on process i
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -997,6 +1001,7 @@ class SerialBranchIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        if (hi < lo) continue; // nothing on process i
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
@@ -1108,6 +1113,7 @@ class SerialBranchIO {
       int lo, hi;
       for (i=0; i<nprocs; i++) {
         NGA_Distribution(p_maskGA, i, &lo, &hi);
+        if (hi < lo) continue; // nothing on process i
         int ld = hi - lo + 1;
         // Figure out how many strings are coming from process i
         std::vector<int> imask(ld);
-- 
2.43.0


From 85bb43bfe9bff413500e2ac1a92affa75c9b25b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 037/138] fix: opening a missing or empty configuration aborts

---
 src/configuration/configuration.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/configuration/configuration.cpp b/src/configuration/configuration.cpp
index 59a28b9..16014c2 100644
--- a/src/configuration/configuration.cpp
+++ b/src/configuration/configuration.cpp
@@ -116,7 +116,7 @@ bool Configuration::open(const std::string & file) {
      std::cout<<"(Configuration::open) Could not open file "<<file<<std::endl;
    }
    int n = -1;
-	if(!input.bad()) {
+	if(input.is_open() && !input.bad()) {
 		input.seekg(0, std::ios::end);   
 		str.reserve((unsigned) input.tellg());
 		input.seekg(0, std::ios::beg);
@@ -240,7 +240,7 @@ bool Configuration::initialize_internal(MPI_Comm comm) {
 	MPI_Comm_rank(comm,&rank);
 	int n ;
 	MPI_Bcast(&n, 1, MPI_INT, 0, comm);
-   if (n == 0) return false;
+   if (n <= 0) return false;
 	assert(n > 0 && n < (1<<30)); // sanity check that n is not too large (1<<n = 2^n)
 	char * buffer = new char[n+1];
 	MPI_Bcast(buffer, n, MPI_CHAR, 0, comm);
-- 
2.43.0


From de482b5905c2d6183949da567173e276c8882105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 038/138] fix: Configuration::get changes the caller's string
 when the key is missing

---
 src/configuration/configuration.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/configuration/configuration.cpp b/src/configuration/configuration.cpp
index 16014c2..274a016 100644
--- a/src/configuration/configuration.cpp
+++ b/src/configuration/configuration.cpp
@@ -288,6 +288,7 @@ std::string Configuration::get(Configuration::KeyType key, const std::string & d
 }
 bool Configuration::get(Configuration::KeyType key, std::string * output) {
   bool ret = get0_bool(pimpl->pt,key, output);
+  if (!ret) return ret;
 
   // remove leading and trailing white space from string
   output->replace(0,output->find_first_not_of(" "), "");
-- 
2.43.0


From 38d3ee9c5bf37be5b3b8fa26710ad0cdec44c2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:07 +0000
Subject: [PATCH 039/138] fix: buffer overflow for large indices in
 DataCollection

---
 src/component/data_collection.cpp | 42 +++++++++++++++----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/component/data_collection.cpp b/src/component/data_collection.cpp
index 63969d3..f347689 100644
--- a/src/component/data_collection.cpp
+++ b/src/component/data_collection.cpp
@@ -99,7 +99,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_ints.insert(std::pair<std::string, int>(str,value));
@@ -110,7 +110,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_longs.insert(std::pair<std::string, long>(str,value));
@@ -121,7 +121,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_bools.insert(std::pair<std::string, bool>(str,value));
@@ -132,7 +132,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -144,7 +144,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_floats.insert(std::pair<std::string, float>(str,value));
@@ -155,7 +155,7 @@ void gridpack::component::DataCollection::addValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_doubles.insert(std::pair<std::string, double>(str,value));
@@ -166,7 +166,7 @@ void gridpack::component::DataCollection::addValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   p_complexType.insert(std::pair<std::string, gridpack::ComplexType>(str,value));
@@ -315,7 +315,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const int v
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -337,7 +337,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const long
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -359,7 +359,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const bool
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -381,7 +381,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const char
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
   std::string val = value;
@@ -404,7 +404,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const float
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -426,7 +426,7 @@ bool gridpack::component::DataCollection::setValue(const char *name, const doubl
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -448,7 +448,7 @@ bool gridpack::component::DataCollection::setValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -607,7 +607,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, int *value,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -629,7 +629,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, long *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -651,7 +651,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, bool *value
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -673,7 +673,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, std::string
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -695,7 +695,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, float *valu
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -717,7 +717,7 @@ bool gridpack::component::DataCollection::getValue(const char *name, double *val
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
@@ -739,7 +739,7 @@ bool gridpack::component::DataCollection::getValue(const char *name,
 {
   std::string str = name;
   str.append(":");
-  char buf[8];
+  char buf[16];
   sprintf(buf,"%d",idx);
   str.append(buf);
 #ifdef OLD_MAP
-- 
2.43.0


From cf9f8a46c953101cbfad334f07fe1c08c5ca8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 040/138] fix: violations of process 0 are lost when violations
 are collected

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 38d9a29..a20f187 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -912,7 +912,7 @@ gridpack::powerflow::PFFactoryModule::getViolations()
 
   p_network->communicator().sum(&sizes[0],nproc);
   int offset = 0;
-  for (i=1; i<me; i++) offset += sizes[i];
+  for (i=0; i<me; i++) offset += sizes[i];
   int total = 0;
   for (i=0; i<nproc; i++) total += sizes[i];
   if (total == 0) return ret;
-- 
2.43.0


From e18e53ecef3ea7898056c1eb562ac1b3cfef7a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 041/138] fix: area load and generation totals count ghost
 buses or only local buses

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index a20f187..88cc14e 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -770,6 +770,7 @@ double gridpack::powerflow::PFFactoryModule::getTotalLoadRealPower(int area, int
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -812,6 +813,7 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
   int nbus = p_network->numBuses();
   int i, j, izone;
   for (i=0; i<nbus; i++) {
+    if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus = p_network->getBus(i).get();
     if (zone > 0) {
       izone = bus->getZone();
@@ -834,6 +836,9 @@ void gridpack::powerflow::PFFactoryModule::getGeneratorMargins(int area, int zon
       }
     }
   }
+  p_network->communicator().sum(total,1);
+  p_network->communicator().sum(pmin,1);
+  p_network->communicator().sum(pmax,1);
 }
 
 /**
-- 
2.43.0


From 3be3b52b09987315bdc324ba38b2b63dd6d3ecd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 042/138] fix: ignoreVoltageViolations ignores the buses
 without violations

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 88cc14e..a345074 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -315,7 +315,7 @@ void gridpack::powerflow::PFFactoryModule::ignoreVoltageViolations()
       gridpack::powerflow::PFBus *bus =
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
-      if (bus->checkVoltageViolation()) bus->setIgnore(true);
+      if (!bus->checkVoltageViolation()) bus->setIgnore(true);
     }
   }
 }
-- 
2.43.0


From 03375ad386fe18b788905c21f23057f9cf4f7c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 043/138] fix: reactive power limit handling changes loads and
 generator status

---
 .../components/pf_matrix/pf_components.cpp    | 83 +++++--------------
 .../components/pf_matrix/pf_components.hpp    |  5 +-
 .../modules/powerflow/pf_factory_module.cpp   |  2 +-
 3 files changed, 24 insertions(+), 66 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index e251986..bf3639a 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -58,6 +58,7 @@ gridpack::powerflow::PFBus::PFBus(void)
   p_ngen = 0;
   p_data = NULL;
   p_ignore = false;
+  p_qlim_hit = false;
   p_vMag_ptr = NULL;
   p_vAng_ptr = NULL;
   p_PV_ptr = NULL;
@@ -233,86 +234,43 @@ bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 bool gridpack::powerflow::PFBus::chkQlim(void)
 {
   if (p_isPV) {
-    double qmax, qmin, ppl;
+    double qmax, qmin;
     qmax = 0.0;
     qmin = 0.0;
-    ppl = 0.0;
     for (int i=0; i<p_gstatus.size(); i++) {
       if (p_gstatus[i] == 1) {
         qmax += p_qmax[i];
         qmin += p_qmin[i];
-        ppl  += p_pg[i];
       }
     }
-    std::vector<boost::shared_ptr<BaseComponent> > branches;
-    getNeighborBranches(branches);
-    int size = branches.size();
-    double P, Q, p, q;
-    int ngen=p_pFac.size();
-    double pl =0.0;
     double ql =0.0;
     for (int i=0; i<p_lstatus.size(); i++) {
       if (p_lstatus[i] == 1) {
-        pl += p_pl[i];
         ql += p_ql[i];
       }
     }
-    p_save2isPV = p_isPV;
-    double pval = p_Pinj*p_sbase+pl;
     double qval = p_Qinj*p_sbase+ql;
 
 //  If qval exceeds the total generator Q capacity, perform PV->PQ
 //
-    if (qval > qmax ) {
-      printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);  
-      ql = ql-qmax;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      *p_PV_ptr = false;
-      pl -= ppl;
-    //p_gstatus.clear();
-      for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmax[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+    bool over = (qval > qmax);
+    if (over || qval < qmin) {
+      if (over) {
+        printf("\nWarning: Gen(s) at bus %d exceeds the QMAX %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmax);
+      } else {
+        printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);
       }
-      if (p_PV_ptr) *p_PV_ptr = p_isPV;
-      return true;
-    } else if (qval < qmin) {
-      printf("\nWarning: Gen(s) at bus %d exceeds the QMIN %8.3f vs %8.3f, converted to PQ bus\n", getOriginalIndex(),qval, qmin);  
-      ql = ql-qmin;
-      p_save2isPV = p_isPV;
-      p_isPV = false;
-      pl -= ppl;
-    //  p_gstatus.clear();
+      // Generators are held at their limits
+      p_qg_save = p_qg;
       for (int i=0; i<p_gstatus.size(); i++) {
-        p_gstatus_save.push_back(p_gstatus[i]);
-        p_gstatus[i] = 0;
-        p_qg[i] = p_qmin[i];
-      }
-      for (int i=0; i<p_lstatus.size(); i++) {
-        if (p_lstatus[i] == 1) {
-          p_pl[i] = pl;
-          p_ql[i] = ql;
-        }
+        if (p_gstatus[i] == 1) p_qg[i] = over ? p_qmax[i] : p_qmin[i];
       }
-
+      p_qlim_hit = true;
+      p_isPV = false;
       if (p_PV_ptr) *p_PV_ptr = p_isPV;
       return true;
-    } else {
-       if (p_PV_ptr) *p_PV_ptr = p_isPV;
-       return false;
     }
-  } else {
-    if (p_PV_ptr) *p_PV_ptr = p_isPV;
-    return false;
-  } 
+  }
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
   return false;
 }
@@ -323,13 +281,11 @@ bool gridpack::powerflow::PFBus::chkQlim(void)
  */
 void gridpack::powerflow::PFBus::clearQlim()
 {
-  int size = p_gstatus_save.size();
-  p_gstatus.clear();
-  int i;
-  for (i=0; i<size; i++) {
-    p_gstatus.push_back(p_gstatus_save[i]);
+  if (p_qlim_hit) {
+    p_qg = p_qg_save;
+    p_qlim_hit = false;
+    p_isPV = true;
   }
-  p_isPV = p_save2isPV;
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
 
@@ -434,7 +390,8 @@ void gridpack::powerflow::PFBus::load(
   p_pFac.clear();
   p_pFac_orig.clear();
   p_gstatus.clear();
-  p_gstatus_save.clear();
+  p_qg_save.clear();
+  p_qlim_hit = false;
   p_qmin.clear();
   p_qmax.clear();
   p_qmin_orig.clear();
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 993171f..e94d397 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -457,7 +457,8 @@ class PFBus
     std::vector<double> p_pg, p_qg, p_pFac;
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
-    std::vector<int> p_gstatus_save;
+    std::vector<double> p_qg_save; // generator Q before Q limits were applied
+    bool p_qlim_hit; // bus was converted to PQ bus because of Q limits
     std::vector<double> p_qmax,p_qmin;
     std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
     std::vector<double> p_vs;
@@ -472,7 +473,7 @@ class PFBus
     double p_sbase;
     double p_Pinj, p_Qinj;
     double p_vmin, p_vmax;
-    bool p_isPV, p_saveisPV, p_save2isPV;
+    bool p_isPV, p_saveisPV;
     bool *p_PV_ptr;
     int p_ngen;
     int p_nload;
diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index a345074..bdf7f0a 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -638,7 +638,7 @@ bool gridpack::powerflow::PFFactoryModule::checkQlimViolations(int area)
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (bus->getArea() == area) {
-        if (!bus->chkQlim()) bus_ok = false;
+        if (bus->chkQlim()) bus_ok = false;
       }
     }
   }
-- 
2.43.0


From b803b3071387c75826bad63f18dc5b0dc803d415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 044/138] fix: generator participation does not follow
 generator status

---
 .../components/pf_matrix/pf_components.cpp    | 50 +++++++++++--------
 .../components/pf_matrix/pf_components.hpp    |  6 ++-
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index bf3639a..01d6812 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -388,7 +388,6 @@ void gridpack::powerflow::PFBus::load(
   p_pg.clear();
   p_qg.clear();
   p_pFac.clear();
-  p_pFac_orig.clear();
   p_gstatus.clear();
   p_qg_save.clear();
   p_qlim_hit = false;
@@ -436,7 +435,6 @@ void gridpack::powerflow::PFBus::load(
   int ngen = 0;
   p_ngen = 0;
   if (data->getValue(GENERATOR_NUMBER, &ngen)) {
-    double pcaptot = 0.0;
     for (i=0; i<ngen; i++) {
       lgen = true;
       lgen = lgen && data->getValue(GENERATOR_PG, &pg,i);
@@ -466,13 +464,7 @@ void gridpack::powerflow::PFBus::load(
         p_qmin_orig.push_back(qmin);
         p_pt.push_back(pt);
         p_pb.push_back(pb);
-	if(gstatus) {
-	  p_pFac.push_back(pt - pb);
-	  pcaptot += pt - pb;
-	} else {
-	  p_pFac.push_back(0.0);
-	}
-	p_pFac_orig.push_back(pt - pb);
+	p_pFac.push_back(0.0);
 
         if (gstatus == 1) {
           p_v = vs; //reset initial PV voltage to set voltage
@@ -484,15 +476,7 @@ void gridpack::powerflow::PFBus::load(
         p_ngen++;
       }
     }
-    if (pcaptot != 0.0 && p_ngen > 1) {
-      for (i=0; i<p_ngen; i++) {
-        p_pFac[i] = p_pFac[i]/pcaptot;
-        p_pFac_orig[i] = p_pFac[i];
-      }
-    } else {
-      p_pFac[0] = 1.0;
-      p_pFac_orig[0] = p_pFac[0];
-    }
+    setParticipation();
   }
   p_saveisPV = p_isPV;
 
@@ -698,19 +682,44 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
     if (gen_id == p_gid[i]) {
       p_gstatus[i] = status;
       if (status == 0) {
-        p_pFac[i] = 0.0;
         p_qmax[i] = 0.0;
         p_qmin[i] = 0.0;
       } else {
-        p_pFac[i] = p_pFac_orig[i];
         p_qmax[i] = p_qmax_orig[i];
         p_qmin[i] = p_qmin_orig[i];
       }
+      setParticipation();
       return;
     }
   }
 }
 
+/**
+ * Divide the power supplied at the bus between the generators that are in
+ * service
+ */
+void gridpack::powerflow::PFBus::setParticipation()
+{
+  int i;
+  int non = 0;
+  double pcaptot = 0.0;
+  for (i=0; i<p_ngen; i++) {
+    if (p_gstatus[i]) {
+      non++;
+      pcaptot += p_pt[i]-p_pb[i];
+    }
+  }
+  for (i=0; i<p_ngen; i++) {
+    if (!p_gstatus[i]) {
+      p_pFac[i] = 0.0;
+    } else if (pcaptot != 0.0) {
+      p_pFac[i] = (p_pt[i]-p_pb[i])/pcaptot;
+    } else {
+      p_pFac[i] = 1.0/static_cast<double>(non);
+    }
+  }
+}
+
 /**
  * Set isPV status
  * @param status isPV status
@@ -1617,6 +1626,7 @@ void gridpack::powerflow::PFBus::setGeneratorStatus(
     if (!data->setValue(GENERATOR_STAT,status,idx)) {
       data->addValue(GENERATOR_STAT,status,idx);
     }
+    setParticipation();
     if(!status) {
       p_pg[idx] = 0.0;
       p_qg[idx] = 0.0;
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index e94d397..88e4be9 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -455,12 +455,14 @@ class PFBus
     double p_voltage; // initial bus voltage read from parser
     // newly added priavate variables:
     std::vector<double> p_pg, p_qg, p_pFac;
+    // set p_pFac from the capacities of generators that are in service
+    void setParticipation();
     std::vector<double> p_savePg;
     std::vector<int> p_gstatus;
     std::vector<double> p_qg_save; // generator Q before Q limits were applied
     bool p_qlim_hit; // bus was converted to PQ bus because of Q limits
     std::vector<double> p_qmax,p_qmin;
-    std::vector<double> p_qmax_orig, p_qmin_orig, p_pFac_orig;
+    std::vector<double> p_qmax_orig, p_qmin_orig;
     std::vector<double> p_vs;
     std::vector<std::string> p_gid;
     std::vector<double> p_pt;
@@ -516,7 +518,7 @@ private:
       & p_P0 & p_Q0
       & p_angle & p_voltage
       & p_pg & p_qg & p_pFac & p_qmin & p_qmax
-      & p_qmin_orig & p_qmax_orig & p_pFac_orig
+      & p_qmin_orig & p_qmax_orig
       & p_gstatus
       & p_vs & p_gid
       & p_pt & p_pb
-- 
2.43.0


From 4f25f7374d9ca0ee2fe482df773ddf2cba243f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 045/138] fix: power of generators that are out of service is
 reported

---
 .../components/pf_matrix/pf_components.cpp          | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 01d6812..c0b8001 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -994,11 +994,11 @@ bool gridpack::powerflow::PFBus::serialWrite(char *string, const int bufsize,
       if(getReferenceBus()) {
 	pval = p_pFac[i]*(p_Pinj*p_sbase+pl);
 	qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
+      } else if (!p_gstatus[i]) {
+        // generator does not contribute
       } else if (p_isPV) {
 	pval = p_pg[i];
-	if(p_gstatus[i]) {
-	  qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
-	}
+	qval = p_pFac[i]*(p_Qinj*p_sbase+ql);
       } else {
 	pval = p_pg[i];
 	qval = p_qg[i];
@@ -1187,6 +1187,13 @@ void gridpack::powerflow::PFBus::saveData(
       if (!data->setValue("GENERATOR_PF_QGEN",rval,i)) {
 	data->addValue("GENERATOR_PF_QGEN",rval,i);
       }
+    } else if (!p_gstatus[i]) {
+      if (!data->setValue("GENERATOR_PF_PGEN",0.0,i)) {
+	data->addValue("GENERATOR_PF_PGEN",0.0,i);
+      }
+      if (!data->setValue("GENERATOR_PF_QGEN",0.0,i)) {
+	data->addValue("GENERATOR_PF_QGEN",0.0,i);
+      }
     } else if (p_isPV) {
       if (!data->setValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i)) {
 	data->addValue("GENERATOR_PF_PGEN",p_pg[i]/p_sbase,i);
-- 
2.43.0


From eeb8ec9f806ceab96692f86017ae079f49890cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 046/138] fix: resetting voltages loses the generator voltage
 set points

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++++
 src/applications/components/pf_matrix/pf_components.hpp | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index c0b8001..9a51f5f 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -285,6 +285,8 @@ void gridpack::powerflow::PFBus::clearQlim()
     p_qg = p_qg_save;
     p_qlim_hit = false;
     p_isPV = true;
+    p_v = p_voltage;
+    if (p_vMag_ptr) *p_vMag_ptr = p_v;
   }
   if (p_PV_ptr) *p_PV_ptr = p_isPV;
 }
@@ -479,6 +481,7 @@ void gridpack::powerflow::PFBus::load(
     setParticipation();
   }
   p_saveisPV = p_isPV;
+  p_voltage = p_v; // keep generator set point as initial value
 
 // Add load
   int lstatus;
@@ -730,6 +733,7 @@ void gridpack::powerflow::PFBus::setIsPV(int status)
   p_isPV = status;
   if (p_PV_ptr) *p_PV_ptr = status;
   p_v = p_voltage;
+  if (p_vMag_ptr) *p_vMag_ptr = p_v;
 }
 
 /**
diff --git a/src/applications/components/pf_matrix/pf_components.hpp b/src/applications/components/pf_matrix/pf_components.hpp
index 88e4be9..1191dbd 100644
--- a/src/applications/components/pf_matrix/pf_components.hpp
+++ b/src/applications/components/pf_matrix/pf_components.hpp
@@ -452,7 +452,7 @@ class PFBus
     double p_ybusr, p_ybusi;
     double p_P0, p_Q0; //double p_sbusr, p_sbusi;
     double p_angle;   // initial bus angle read from parser
-    double p_voltage; // initial bus voltage read from parser
+    double p_voltage; // initial bus voltage (generator set point or parser value)
     // newly added priavate variables:
     std::vector<double> p_pg, p_qg, p_pFac;
     // set p_pFac from the capacities of generators that are in service
-- 
2.43.0


From 9750782a9632d4a15662c5309d9f15017f88c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 047/138] fix: PV buses hold their voltage after losing all
 generators

---
 .../components/pf_matrix/pf_components.cpp    | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 9a51f5f..82cbf6f 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -692,6 +692,17 @@ void gridpack::powerflow::PFBus::setGenStatus(std::string gen_id, bool status)
         p_qmin[i] = p_qmin_orig[i];
       }
       setParticipation();
+      // Bus can only hold its voltage if a generator is in service
+      if (p_type == 2 && !p_qlim_hit) {
+        bool on = false;
+        for (int j=0; j<gsize; j++) on = on || p_gstatus[j];
+        if (on != p_isPV) {
+          p_isPV = on;
+          if (p_PV_ptr) *p_PV_ptr = p_isPV;
+          p_v = p_voltage;
+          if (p_vMag_ptr) *p_vMag_ptr = p_v;
+        }
+      }
       return;
     }
   }
@@ -1645,11 +1656,13 @@ void gridpack::powerflow::PFBus::setGeneratorStatus(
       data->setValue(GENERATOR_QG,0.0,idx);
     }
     // Check PV status and change it if all generators are off
-    p_isPV = p_gstatus[0];
-    for (i=1; i<p_ngen; i++) {
-      p_isPV = p_isPV || p_gstatus[i];
+    if (p_type == 2) {
+      bool on = false;
+      for (i=0; i<p_ngen; i++) {
+        on = on || p_gstatus[i];
+      }
+      setIsPV(on);
     }
-    setIsPV(p_isPV);
   } else {
     printf("setGenertorStatus: No generator found on bus %d with id: (%s)\n",getOriginalIndex(),tag.c_str());
   }
-- 
2.43.0


From d8f05d69a07dab1c33e5e2d87b4b6a6b7d4d56cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:18 +0000
Subject: [PATCH 048/138] fix: reloading bus data keeps old generator and load
 values and status

---
 src/applications/components/pf_matrix/pf_components.cpp    | 4 ++++
 .../components/y_matrix/ymatrix_components.cpp             | 7 ++-----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 82cbf6f..9720374 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -388,6 +388,7 @@ void gridpack::powerflow::PFBus::load(
 
   // This routine may be called more than once, so clear all vectors
   p_pg.clear();
+  p_savePg.clear();
   p_qg.clear();
   p_pFac.clear();
   p_gstatus.clear();
@@ -401,7 +402,9 @@ void gridpack::powerflow::PFBus::load(
   p_pt.clear();
   p_pb.clear();
   p_pl.clear();
+  p_savePl.clear();
   p_ql.clear();
+  p_saveQl.clear();
   p_lstatus.clear();
   p_lid.clear();
 
@@ -523,6 +526,7 @@ void gridpack::powerflow::PFBus::load(
     }
   }
   // If this is being called a second time, then update pointers
+  if (p_PV_ptr) *p_PV_ptr = p_isPV;
   if (p_vMag_ptr) *p_vMag_ptr = p_v;
   if (p_vAng_ptr) {
     double pi = 4.0*atan(1.0);
diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index be851a3..49f8323 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -162,11 +162,8 @@ void gridpack::ymatrix::YMBus::load(
   // Check to see if bus is reference bus
   int itype;
   data->getValue(BUS_TYPE, &itype);
-  if (itype == 3) {
-    setReferenceBus(true);
-  } else if (itype == 4) {
-    p_isolated = true;
-  }
+  setReferenceBus(itype == 3);
+  p_isolated = (itype == 4);
 }
 
 
-- 
2.43.0


From f8a8e44d1b17b6f779813490c8f405c2f02b433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 049/138] fix: additional, switched and out of service shunts
 at a bus are not added up

---
 .../y_matrix/ymatrix_components.cpp           | 35 +++++++++++++------
 1 file changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 49f8323..3558429 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -145,20 +145,33 @@ void gridpack::ymatrix::YMBus::load(
 {
   double sbase;
   data->getValue(CASE_SBASE, &sbase);
-  p_shunt = true;
+  p_shunt = false;
+  p_shunt_gs = 0.0;
+  p_shunt_bs = 0.0;
+  // Add up all fixed shunts that are in service
+  int nshunt = 0;
+  data->getValue(SHUNT_NUMBER, &nshunt);
+  for (int i=0; i<nshunt; i++) {
+    int status = 1;
+    data->getValue(SHUNT_STATUS, &status, i);
+    double gl, bl;
+    if (status != 0 && data->getValue(BUS_SHUNT_GL, &gl, i) &&
+        data->getValue(BUS_SHUNT_BL, &bl, i)) {
+      p_shunt = true;
+      p_shunt_gs += gl;
+      p_shunt_bs += bl;
+    }
+  }
+  // Add contribution from switched shunt
   double shunt_binit;
-  p_shunt = p_shunt && data->getValue(BUS_SHUNT_GL, &p_shunt_gs,0);
-  p_shunt = p_shunt && data->getValue(BUS_SHUNT_BL, &p_shunt_bs,0);
-  bool binit = data->getValue(SHUNT_BINIT, &shunt_binit);
-  if (binit) p_shunt = true;
-
+  int sw_status = 1;
+  data->getValue(SHUNT_SWCH_STAT, &sw_status);
+  if (sw_status != 0 && data->getValue(SHUNT_BINIT, &shunt_binit)) {
+    p_shunt = true;
+    p_shunt_bs += shunt_binit;
+  }
   p_shunt_gs /= sbase;
   p_shunt_bs /= sbase;
-  // update shunt based on shunt table 
-  if (binit) {
-    shunt_binit /= sbase; 
-    p_shunt_bs = shunt_binit;
-  }
   // Check to see if bus is reference bus
   int itype;
   data->getValue(BUS_TYPE, &itype);
-- 
2.43.0


From 96ca7fa8fb01cbf3fc471b7755a40007ec217f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 050/138] fix: branches to an isolated bus are treated as
 grounded

---
 .../components/y_matrix/ymatrix_components.cpp         | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 3558429..1929015 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -100,6 +100,11 @@ void gridpack::ymatrix::YMBus::setYBus(void)
   for (i=0; i<size; i++) {
     gridpack::ymatrix::YMBranch *branch
       = dynamic_cast<gridpack::ymatrix::YMBranch*>(branches[i].get());
+    // Branches that end at an isolated bus do not carry any current
+    if (dynamic_cast<gridpack::ymatrix::YMBus*>
+        (branch->getBus1().get())->isIsolated() ||
+        dynamic_cast<gridpack::ymatrix::YMBus*>
+        (branch->getBus2().get())->isIsolated()) continue;
     ret -= branch->getAdmittance();
     ret -= branch->getTransformer(this);
     ret += branch->getShunt(this);
@@ -391,6 +396,11 @@ void gridpack::ymatrix::YMBranch::setYBus(void)
   p_ytfr.clear();
   p_ytfi.clear();
 #endif
+  // Branches that end at an isolated bus do not carry any current
+  if (dynamic_cast<gridpack::ymatrix::YMBus*>(getBus1().get())->isIsolated() ||
+      dynamic_cast<gridpack::ymatrix::YMBus*>(getBus2().get())->isIsolated()) {
+    return;
+  }
   for (i=0; i<p_elems; i++) {
     gridpack::ComplexType ret(p_resistance[i],p_reactance[i]);
     ret = -1.0/ret;
-- 
2.43.0


From 7046311ff182ed3b9856cde88547fed10e986960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 051/138] fix: line shunts of reversed parallel elements are
 put at the wrong bus

---
 src/applications/components/y_matrix/ymatrix_components.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 1929015..6a30681 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -623,10 +623,11 @@ gridpack::ymatrix::YMBranch::getShunt(gridpack::ymatrix::YMBus *bus)
         tmpr = 0.0;
       }
       // HACK: pointer comparison, maybe could handle this better
-      if (bus == getBus1().get()) {
+      if ((!p_switched[i] && bus == getBus1().get()) ||
+          (p_switched[i] && bus == getBus2().get())) {
         tmpr += p_shunt_admt_g1[i];
         tmpi += p_shunt_admt_b1[i];
-      } else if (bus == getBus2().get()) {
+      } else if (bus == getBus1().get() || bus == getBus2().get()) {
         tmpr += p_shunt_admt_g2[i];
         tmpi += p_shunt_admt_b2[i];
       } else {
-- 
2.43.0


From 8fdf1e200cce7d8f13f738ba9ca0b4edbe4d7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 052/138] fix: some of the violation checks do not record the
 violations

---
 .../modules/powerflow/pf_factory_module.cpp   | 22 +++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index bdf7f0a..ac5a76c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -262,7 +262,15 @@ bool gridpack::powerflow::PFFactoryModule::checkVoltageViolations()
         dynamic_cast<gridpack::powerflow::PFBus*>
         (p_network->getBus(i).get());
       if (!bus->getIgnore()) {
-        if (!bus->checkVoltageViolation()) bus_ok = false;
+        if (!bus->checkVoltageViolation()) {
+          bus_ok = false;
+          gridpack::powerflow::PFFactoryModule::Violation violation;
+          violation.bus_violation = true;
+          violation.line_violation = false;
+          violation.bus1 = bus->getOriginalIndex();
+          violation.bus2 = -1;
+          p_violations.push_back(violation);
+        }
       }
     }
   }
@@ -447,7 +455,17 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(int area)
               if (rate > 0.0) {
                 gridpack::ComplexType s = branch->getComplexPower(tags[k]);
                 double pq = abs(s);
-                if (pq > rate) branch_ok = false;
+                if (pq > rate) {
+                  branch_ok = false;
+                  gridpack::powerflow::PFFactoryModule::Violation violation;
+                  violation.bus_violation = false;
+                  violation.line_violation = true;
+                  violation.bus1 = branch->getBus1OriginalIndex();
+                  violation.bus2 = branch->getBus2OriginalIndex();
+                  strncpy(violation.tag,tags[k].c_str(),2);
+                  violation.tag[2] = '\0';
+                  p_violations.push_back(violation);
+                }
               }
             }
           }
-- 
2.43.0


From 911ba802da727a5f8053402f469a00f8144989df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 053/138] fix: overload check of named lines looks at the wrong
 line and rating

---
 src/applications/modules/powerflow/pf_factory_module.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index ac5a76c..c9ceb70 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -512,7 +512,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
       std::vector<std::string> alltags = branch->getLineTags();
       double rate;
       for (int k = 0; k<nlines; k++) {
-        if (tags[i] == alltags[k] && !branch->getIgnore(tags[k])) {
+        if (tags[i] == alltags[k] && !branch->getIgnore(tags[i])) {
           bool foundRating=false;
           if (p_rateB) {
             if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_B,
@@ -530,10 +530,9 @@ bool gridpack::powerflow::PFFactoryModule::checkLineOverloadViolations(
               foundRating = true;
             }
           }
-          if (p_network->getBranchData(indices[j])->getValue(BRANCH_RATING_A,
-                &rate,k)) {
+          if (foundRating) {
             if (rate > 0.0) {
-              gridpack::ComplexType s = branch->getComplexPower(tags[k]);
+              gridpack::ComplexType s = branch->getComplexPower(tags[i]);
               double pq = abs(s);
               if (pq > rate) {
                 failure[i] = 1;
-- 
2.43.0


From 57cd24373a6971a9ea9c02fb7e9c91c9e34a4107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:27 +0000
Subject: [PATCH 054/138] fix: lone buses are not isolated on all processes
 that hold a copy

---
 .../modules/powerflow/pf_factory_module.cpp   | 98 +++++++++----------
 .../modules/powerflow/pf_factory_module.hpp   |  3 +-
 2 files changed, 49 insertions(+), 52 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index c9ceb70..51afc8c 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -16,6 +16,7 @@
 // -------------------------------------------------------------
 
 #include <vector>
+#include <set>
 #include "boost/smart_ptr/shared_ptr.hpp"
 #include "gridpack/parser/dictionary.hpp"
 #include "gridpack/parallel/global_vector.hpp"
@@ -143,6 +144,7 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
   bool bus_ok = true;
   char buf[128];
   p_saveIsolatedStatus.clear();
+  std::vector<int> lone;
   for (i=0; i<numBus; i++) {
     if (!p_network->getActiveBus(i)) continue;
     gridpack::powerflow::PFBus *bus =
@@ -151,35 +153,53 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
     std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > branches;
     bus->getNeighborBranches(branches);
     int size = branches.size();
-    bool ok = true;
-    if (size == 0) {
-      ok = false;
-    }
-    if (ok) {
-      ok = false;
-      for (j=0; j<size; j++) {
-        bool branch_ok = false;
-        std::vector<bool> status =
-          dynamic_cast<gridpack::powerflow::PFBranch*>
-          (branches[j].get())->getLineStatus();
-        int nlines = status.size();
-        for (k=0; k<nlines; k++) {
-          if (status[k]) branch_ok = true;
-        }
-        if (branch_ok) ok = true;
+    bool ok = false;
+    for (j=0; j<size; j++) {
+      std::vector<bool> status =
+        dynamic_cast<gridpack::powerflow::PFBranch*>
+        (branches[j].get())->getLineStatus();
+      int nlines = status.size();
+      for (k=0; k<nlines; k++) {
+        if (status[k]) ok = true;
       }
     }
     if (!ok) {
       sprintf(buf,"\nLone bus %d found\n",bus->getOriginalIndex());
-      p_saveIsolatedStatus.push_back(bus->isIsolated());
-      bus->setIsolated(true);
+      lone.push_back(p_network->getGlobalBusIndex(i));
       printf("%s",buf);
       if (stream != NULL) *stream << buf;
+      bus_ok = false;
+    }
+  }
+  // Lone buses may also be represented by ghost buses on other processors, so
+  // find out about all of them
+  int nproc = p_network->communicator().size();
+  int me = p_network->communicator().rank();
+  std::vector<int> sizes(nproc,0);
+  sizes[me] = lone.size();
+  p_network->communicator().sum(&sizes[0],nproc);
+  int offset = 0;
+  int total = 0;
+  for (i=0; i<nproc; i++) {
+    if (i < me) offset += sizes[i];
+    total += sizes[i];
+  }
+  if (total > 0) {
+    std::vector<int> all(total,0);
+    for (i=0; i<sizes[me]; i++) all[offset+i] = lone[i];
+    p_network->communicator().sum(&all[0],total);
+    std::set<int> loneSet(all.begin(),all.end());
+    for (i=0; i<numBus; i++) {
+      if (loneSet.find(p_network->getGlobalBusIndex(i)) == loneSet.end()) continue;
+      gridpack::powerflow::PFBus *bus =
+        dynamic_cast<gridpack::powerflow::PFBus*>
+        (p_network->getBus(i).get());
+      p_saveIsolatedStatus.push_back(std::pair<int,bool>(i,bus->isIsolated()));
+      bus->setIsolated(true);
     }
-    if (!ok) bus_ok = false;
   }
   // Check whether bus_ok is true on all processors
-  return checkTrue(!bus_ok);
+  return checkTrue(bus_ok);
 }
 
 /**
@@ -187,42 +207,18 @@ bool gridpack::powerflow::PFFactoryModule::checkLoneBus(std::ofstream *stream)
  */
 void gridpack::powerflow::PFFactoryModule::clearLoneBus()
 {
-  if (p_saveIsolatedStatus.size() == 0) return;
-  int numBus = p_network->numBuses();
-  int i, j, k;
-  int ncount = 0;
-  for (i=0; i<numBus; i++) {
-    if (!p_network->getActiveBus(i)) continue;
+  int size = p_saveIsolatedStatus.size();
+  int i;
+  for (i=0; i<size; i++) {
     gridpack::powerflow::PFBus *bus =
       dynamic_cast<gridpack::powerflow::PFBus*>
-      (p_network->getBus(i).get());
-    std::vector<boost::shared_ptr<gridpack::component::BaseComponent> > branches;
-    bus->getNeighborBranches(branches);
-    int size = branches.size();
-    bool ok = true;
-    if (size == 0) {
-      ok = false;
-    }
-    if (ok) {
-      ok = false;
-      for (j=0; j<size; j++) {
-        bool branch_ok = false;
-        std::vector<bool> status =
-          dynamic_cast<gridpack::powerflow::PFBranch*>
-          (branches[j].get())->getLineStatus();
-        int nlines = status.size();
-        for (k=0; k<nlines; k++) {
-          if (status[k]) branch_ok = true;
-        }
-        if (branch_ok) ok = true;
-      }
-    }
-    if (!ok) {
+      (p_network->getBus(p_saveIsolatedStatus[i].first).get());
+    if (p_network->getActiveBus(p_saveIsolatedStatus[i].first)) {
       printf("\nLone bus %d reset\n",bus->getOriginalIndex());
-      bus->setIsolated(p_saveIsolatedStatus[ncount]);
-      ncount++;
     }
+    bus->setIsolated(p_saveIsolatedStatus[i].second);
   }
+  p_saveIsolatedStatus.clear();
 }
 
 /**
diff --git a/src/applications/modules/powerflow/pf_factory_module.hpp b/src/applications/modules/powerflow/pf_factory_module.hpp
index f35bafd..e05c02b 100644
--- a/src/applications/modules/powerflow/pf_factory_module.hpp
+++ b/src/applications/modules/powerflow/pf_factory_module.hpp
@@ -246,7 +246,8 @@ class PFFactoryModule
   private:
 
     NetworkPtr p_network;
-    std::vector<bool> p_saveIsolatedStatus;
+    // local index and original status of buses marked as isolated
+    std::vector<std::pair<int,bool> > p_saveIsolatedStatus;
 
     std::vector<Violation> p_violations;
 
-- 
2.43.0


From de20567b0209f00384935e775b584e802f77a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 055/138] fix: contingencies are reported as not found on
 processes without the element

---
 .../modules/powerflow/pf_app_module.cpp          | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index be03a61..b97db85 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -877,7 +877,9 @@ bool gridpack::powerflow::PFAppModule::setContingency(
       idx = event.p_busid[i];
       std::string tag = event.p_genid[i];
       std::vector<int> lids = p_network->getLocalBusIndices(idx);
-      if (lids.size() == 0) ret = false;
+      int found = lids.size();
+      p_network->communicator().sum(&found,1);
+      if (found == 0) ret = false;
       gridpack::powerflow::PFBus *bus;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
@@ -896,7 +898,9 @@ bool gridpack::powerflow::PFAppModule::setContingency(
       from = event.p_from[i];
       std::string tag = event.p_ckt[i];
       std::vector<int> lids = p_network->getLocalBranchIndices(from,to);
-      if (lids.size() == 0) ret = false;
+      int found = lids.size();
+      p_network->communicator().sum(&found,1);
+      if (found == 0) ret = false;
       gridpack::powerflow::PFBranch *branch;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
@@ -935,7 +939,9 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
       idx = event.p_busid[i];
       std::string tag = event.p_genid[i];
       std::vector<int> lids = p_network->getLocalBusIndices(idx);
-      if (lids.size() == 0) ret = false;
+      int found = lids.size();
+      p_network->communicator().sum(&found,1);
+      if (found == 0) ret = false;
       gridpack::powerflow::PFBus *bus;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
@@ -953,7 +959,9 @@ bool gridpack::powerflow::PFAppModule::unSetContingency(
       from = event.p_from[i];
       std::string tag = event.p_ckt[i];
       std::vector<int> lids = p_network->getLocalBranchIndices(from,to);
-      if (lids.size() == 0) ret = false;
+      int found = lids.size();
+      p_network->communicator().sum(&found,1);
+      if (found == 0) ret = false;
       gridpack::powerflow::PFBranch *branch;
       for (j=0; j<lids.size(); j++) {
         jdx = lids[j];
-- 
2.43.0


From 753b4593586761cda75995f31e5024d5adb59de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:50 +0000
Subject: [PATCH 056/138] fix: generation is written back with a fixed base of
 100 MVA

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 9720374..148e279 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -1301,13 +1301,13 @@ void gridpack::powerflow::PFBus::saveDataAlsotoOrg(
     if (!data->setValue("GENERATOR_PF_PGEN",rval,i)) {
       data->addValue("GENERATOR_PF_PGEN",rval,i);
     }
-	data->setValue(GENERATOR_PG,rval*100.0,i); //also modify the original GENERATOR_PG 
+	data->setValue(GENERATOR_PG,rval*p_sbase,i); //also modify the original GENERATOR_PG 
 	
     rval = p_pFac[i]*(p_Qinj+ql/p_sbase);
     if (!data->setValue("GENERATOR_PF_QGEN",rval,i)) {
       data->addValue("GENERATOR_PF_QGEN",rval,i);
     }
-	data->setValue(GENERATOR_QG,rval*100.0,i); //also modify the original GENERATOR_QG 
+	data->setValue(GENERATOR_QG,rval*p_sbase,i); //also modify the original GENERATOR_QG 
 	
   }
 }
-- 
2.43.0


From 16e23866cf9a4685e8e8d2308ed5f215286a845d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:11 +0000
Subject: [PATCH 057/138] fix: power flow applies reactive limits to a
 mismatched update and accepts unconverged results

---
 .../modules/powerflow/pf_app_module.cpp        | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_app_module.cpp b/src/applications/modules/powerflow/pf_app_module.cpp
index b97db85..e0f8b73 100644
--- a/src/applications/modules/powerflow/pf_app_module.cpp
+++ b/src/applications/modules/powerflow/pf_app_module.cpp
@@ -530,8 +530,16 @@ bool gridpack::powerflow::PFAppModule::solve()
       }
     }
 
-    if (iter >= p_max_iteration) ret = false;
-    if (p_qlim == 0) {
+    // Solution must meet tolerance (this also excludes values that are not
+    // numbers)
+    if (!(real(tol) <= p_tolerance)) ret = false;
+    // Push final result back onto buses
+    timer->start(t_bmap);
+    p_factory->setMode(RHS);
+    vMap.mapToBus(X);
+    timer->stop(t_bmap);
+
+    if (p_qlim == 0 || !ret) {
       repeat = false;
     } else {
       if (p_factory->checkQlimViolations()) {
@@ -543,12 +551,6 @@ bool gridpack::powerflow::PFAppModule::solve()
         }
       }
     }
-    // Push final result back onto buses
-    timer->start(t_bmap);
-    p_factory->setMode(RHS);
-    vMap.mapToBus(X);
-    timer->stop(t_bmap);
-
     // Make sure that ghost buses have up-to-date values before printing out
     // results
     timer->start(t_updt);
-- 
2.43.0


From dfe2e7189cf2e0244dd99abb97da43fb745038ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:44 +0000
Subject: [PATCH 058/138] fix: transformers in parallel with a reversed branch
 are connected backwards

---
 src/parser/block_parsers/transformer_parser33.cpp | 2 ++
 src/parser/block_parsers/transformer_parser34.cpp | 2 ++
 src/parser/block_parsers/transformer_parser35.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index aa84a90..cf08ad3 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -414,6 +414,8 @@ void gridpack::parser::TransformerParser33::parse(
       std::string tag = util.clean2Char(split_line[3]);
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
 
       // Add remaining parameters from line 1
       /*
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 8669214..028d4bc 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -451,6 +451,8 @@ void gridpack::parser::TransformerParser34::parse(
       std::string tag = util.clean2Char(split_line[3]);
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
 
       // Add remaining parameters from line 1
       /*
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index db42c33..8f291d1 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -450,6 +450,8 @@ void gridpack::parser::TransformerParser35::parse(
       std::string tag = util.clean2Char(split_line[3]);
       // BRANCH_CKT          "CKT"                 character
       p_branchData[l_idx]->addValue(BRANCH_CKT, tag.c_str(), nelems);
+      // BRANCH_SWITCHED
+      p_branchData[l_idx]->addValue(BRANCH_SWITCHED, switched, nelems);
 
       // Add remaining parameters from line 1
       /*
-- 
2.43.0


From 42745d9d8399d06691ee162ccc9081b85fa12517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 059/138] fix: transmission elements that are out of service
 are reported as overloaded

---
 src/applications/components/pf_matrix/pf_components.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 148e279..0fb7b8e 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -2240,6 +2240,10 @@ gridpack::ComplexType gridpack::powerflow::PFBranch::getComplexPower(
   gridpack::powerflow::PFBus *bus2 =
     dynamic_cast<gridpack::powerflow::PFBus*>(getBus2().get());
   vj = bus2->getComplexVoltage();
+  // No flow through elements that are out of service
+  if (!getBranchStatus(tag) || bus1->isIsolated() || bus2->isIsolated()) {
+    return s;
+  }
   getLineElements(tag,&Yii,&Yij);
   s = vi*conj(Yii*vi+Yij*vj)*p_sbase;
   return s;
-- 
2.43.0


From 2542a17ed6e92ffd618cb42996bdcc1aa6a8776f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 060/138] fix: resetting voltages leaves ghost buses at their
 old voltage

---
 .../modules/powerflow/pf_factory_module.cpp            | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/applications/modules/powerflow/pf_factory_module.cpp b/src/applications/modules/powerflow/pf_factory_module.cpp
index 51afc8c..5c0d976 100644
--- a/src/applications/modules/powerflow/pf_factory_module.cpp
+++ b/src/applications/modules/powerflow/pf_factory_module.cpp
@@ -703,12 +703,10 @@ void gridpack::powerflow::PFFactoryModule::resetVoltages()
   int numBus = p_network->numBuses();
   int i;
   for (i=0; i<numBus; i++) {
-    if (p_network->getActiveBus(i)) {
-      gridpack::powerflow::PFBus *bus =
-        dynamic_cast<gridpack::powerflow::PFBus*>
-        (p_network->getBus(i).get());
-      bus->resetVoltage();
-    }
+    gridpack::powerflow::PFBus *bus =
+      dynamic_cast<gridpack::powerflow::PFBus*>
+      (p_network->getBus(i).get());
+    bus->resetVoltage();
   }
 }
 
-- 
2.43.0


From 54b52e3566c82784df2160f3225e02d8112b6478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:51 +0000
Subject: [PATCH 061/138] fix: state vector writes too many values for PV and
 reference buses

---
 src/applications/components/pf_matrix/pf_components.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/applications/components/pf_matrix/pf_components.cpp b/src/applications/components/pf_matrix/pf_components.cpp
index 0fb7b8e..19f66fd 100755
--- a/src/applications/components/pf_matrix/pf_components.cpp
+++ b/src/applications/components/pf_matrix/pf_components.cpp
@@ -191,8 +191,10 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
     values[0] = ret;
     return true;
   } else if (p_mode == State) {
+    int nvals;
+    if (!vectorSize(&nvals)) return false;
     values[0] = p_v;
-    values[1] = p_a;
+    if (nvals > 1) values[1] = p_a;
     return true;
   } else if (p_mode == RHS) {
     double rvals[2];
@@ -210,8 +212,10 @@ bool gridpack::powerflow::PFBus::vectorValues(ComplexType *values)
 bool gridpack::powerflow::PFBus::vectorValues(RealType *values)
 {
   if (p_mode == State) {
+    int nvals;
+    if (!vectorSize(&nvals)) return false;
     values[0] = p_v;
-    values[1] = p_a;
+    if (nvals > 1) values[1] = p_a;
     return true;
   }
   if (p_mode == RHS) {
-- 
2.43.0


From 9ce66ed9d6f1460fafc9d518f58870506d65691b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:06 +0000
Subject: [PATCH 062/138] fix: RAW and DYR files can not be parsed from a
 vector of strings

---
 src/parser/PTI33_parser.hpp    |  7 +++----
 src/parser/PTI34_parser.hpp    |  7 +++----
 src/parser/PTI35_parser.hpp    |  7 +++----
 src/parser/base_pti_parser.hpp | 21 ++++++++++++++++++++-
 src/stream/input_stream.cpp    |  1 +
 5 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/parser/PTI33_parser.hpp b/src/parser/PTI33_parser.hpp
index 59116e6..283eba1 100644
--- a/src/parser/PTI33_parser.hpp
+++ b/src/parser/PTI33_parser.hpp
@@ -116,8 +116,8 @@ class PTI33_parser : public BasePTIParser<_network>
       p_timer->configTimer(false);
       int t_total = p_timer->createCategory("Parser:Total Elapsed Time");
       p_timer->start(t_total);
-      openStream(fileVec);
       if (isRAW) {
+        openStream(fileVec);
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else {
@@ -181,9 +181,8 @@ class PTI33_parser : public BasePTIParser<_network>
     {
       p_istream.openStringVector(fileVec);
       if (!p_istream.isOpen()) {
-        char buf[512];
-        sprintf(buf,"Failed to open network configuration stream: %s\n\n");
-        throw gridpack::Exception(buf);
+        throw gridpack::Exception(
+            "Failed to open network configuration stream\n\n");
       }
     }
 
diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index b74e3e4..955c6f5 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -118,8 +118,8 @@ class PTI34_parser : public BasePTIParser<_network>
       p_timer->configTimer(false);
       int t_total = p_timer->createCategory("Parser:Total Elapsed Time");
       p_timer->start(t_total);
-      openStream(fileVec);
       if (isRAW) {
+        openStream(fileVec);
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else {
@@ -183,9 +183,8 @@ class PTI34_parser : public BasePTIParser<_network>
     {
       p_istream.openStringVector(fileVec);
       if (!p_istream.isOpen()) {
-        char buf[512];
-        sprintf(buf,"Failed to open network configuration stream: %s\n\n");
-        throw gridpack::Exception(buf);
+        throw gridpack::Exception(
+            "Failed to open network configuration stream\n\n");
       }
     }
 
diff --git a/src/parser/PTI35_parser.hpp b/src/parser/PTI35_parser.hpp
index d14dbc8..6421221 100644
--- a/src/parser/PTI35_parser.hpp
+++ b/src/parser/PTI35_parser.hpp
@@ -118,8 +118,8 @@ class PTI35_parser : public BasePTIParser<_network>
       p_timer->configTimer(false);
       int t_total = p_timer->createCategory("Parser:Total Elapsed Time");
       p_timer->start(t_total);
-      openStream(fileVec);
       if (isRAW) {
+        openStream(fileVec);
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else {
@@ -183,9 +183,8 @@ class PTI35_parser : public BasePTIParser<_network>
     {
       p_istream.openStringVector(fileVec);
       if (!p_istream.isOpen()) {
-        char buf[512];
-        sprintf(buf,"Failed to open network configuration stream: %s\n\n");
-        throw gridpack::Exception(buf);
+        throw gridpack::Exception(
+            "Failed to open network configuration stream\n\n");
       }
     }
 
diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index d3f5532..e7f134a 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -22,6 +22,7 @@
 
 #include <iostream>
 #include <string>
+#include <sstream>
 #include <vector>
 #include <map>
 #ifndef OLD_MAP
@@ -394,6 +395,24 @@ class BasePTIParser : public BaseParser<_network>
 #endif
     }
 
+    /**
+     * Read device parameters from a vector of strings
+     * @param fileVec vector of strings containing the lines of a DYR file
+     */
+    void getDS(const std::vector<std::string> & fileVec)
+    {
+      int t_ds = p_timer->createCategory("Parser:getDS");
+      p_timer->start(t_ds);
+      if (p_network->communicator().rank() == 0) {
+        std::stringstream input;
+        int i;
+        int nlines = fileVec.size();
+        for (i=0; i<nlines; i++) input << fileVec[i] << std::endl;
+        find_ds_par(input);
+      }
+      p_timer->stop(t_ds);
+    }
+
     // Data structure to hold generator params
     struct gen_params{
       // Generator parameters
@@ -1517,7 +1536,7 @@ class BasePTIParser : public BaseParser<_network>
       return ret;
     }
 
-    void find_ds_par(std::ifstream & input)
+    void find_ds_par(std::istream & input)
     {
       std::string          line;
       gridpack::component::DataCollection *data;
diff --git a/src/stream/input_stream.cpp b/src/stream/input_stream.cpp
index 12f1f87..a8aae60 100644
--- a/src/stream/input_stream.cpp
+++ b/src/stream/input_stream.cpp
@@ -52,6 +52,7 @@ bool gridpack::stream::InputStream::openStringVector(const std::vector<std::stri
 {
   if (fileVec.size() == 0) return false;
   p_fileVector = fileVec;
+  p_fileIterator = p_fileVector.begin();
   p_srcVector = true;
   p_isOpen = true;
   return true;
-- 
2.43.0


From c2375b0d3007d98cb9bc39830376630ed88b3f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 063/138] fix: end of RAW file block is missed or seen where
 there is none

---
 src/parser/block_parsers/base_block_parser.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 7c159e6..ff34094 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -70,10 +70,11 @@ void gridpack::parser::BaseBlockParser::remove_blanks(std::string &str)
  */
 bool gridpack::parser::BaseBlockParser::test_end(std::string &str) const
 {
+  int len = str.length();
   if (str[0] == TERM_CHAR) {
-    return false;
+    // a number that only starts with a zero is not the end of the block
+    return len > 1 && (str[1] == '.' || (str[1] >= '0' && str[1] <= '9'));
   }
-  int len = str.length();
   int i=0;
   while (i<len && str[i] == ' ') {
     i++;
@@ -84,7 +85,8 @@ bool gridpack::parser::BaseBlockParser::test_end(std::string &str) const
     return true;
   } else if (str[i] == TERM_CHAR) {
     i++;
-    if (i>=len || str[i] == ' ' || str[i] == '\\') {
+    if (i>=len || str[i] == ' ' || str[i] == '\\' || str[i] == '/' ||
+        str[i] == '\t' || str[i] == '\r') {
       return false;
     } else { 
       return true;
-- 
2.43.0


From e9d0b3fbbf5b5115be363fb8b46c9de85dbad4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 064/138] fix: blank bus names abort the parser and names of
 one character are lost

---
 src/parser/block_parsers/base_block_parser.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index ff34094..7c47b55 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -58,6 +58,10 @@ bool gridpack::parser::BaseBlockParser::check_comment(std::string &str) const
 void gridpack::parser::BaseBlockParser::remove_blanks(std::string &str)
 {
   int ntok1 = str.find_first_not_of(' ',0);
+  if (ntok1 == std::string::npos) {
+    str.clear();
+    return;
+  }
   int ntok2 = str.length()-1;
   while (str[ntok2] == ' ') {ntok2--;}
   str = str.substr(ntok1, ntok2-ntok1+1);
@@ -105,13 +109,15 @@ bool gridpack::parser::BaseBlockParser::test_end(std::string &str) const
 bool gridpack::parser::BaseBlockParser::check_string(std::string &str)
 {
   int ntok1 = str.find_first_not_of(' ',0);
-  if (ntok1 != std::string::npos && str[ntok1] == '\'') {
+  if (ntok1 != std::string::npos &&
+      (str[ntok1] == '\'' || str[ntok1] == '\"')) {
+    char quote = str[ntok1];
     ntok1++;
-    int ntok2 = str.find_first_of('\'',ntok1);
-    if (ntok2-ntok1 > 1 && ntok2 != std::string::npos) {
+    int ntok2 = str.find_first_of(quote,ntok1);
+    if (ntok2-ntok1 > 0 && ntok2 != std::string::npos) {
       ntok2--;
       str = str.substr(ntok1, ntok2-ntok1+1);
-    } else if (ntok2 == std::string::npos && str.length()-1 - ntok1 > 1) {
+    } else if (ntok2 == std::string::npos && static_cast<int>(str.length()) > ntok1) {
       ntok2 = str.length()-1;
       str = str.substr(ntok1, ntok2-ntok1+1);
     } else {
-- 
2.43.0


From b3a39b8350922ef76adfa553b9192fa8f7f62fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 065/138] fix: slashes and commas in quoted strings of RAW
 files split the record

---
 .../block_parsers/base_block_parser.cpp       | 50 ++++++++++---------
 1 file changed, 27 insertions(+), 23 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index 7c47b55..d87ba90 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -171,28 +171,19 @@ void gridpack::parser::BaseBlockParser::parseBusName(
  */
 void gridpack::parser::BaseBlockParser::cleanComment(std::string &string)
 {
-  int idx = string.find_first_of('/',0);
-  if (idx != std::string::npos) {
-    // check to see if '/' character is between two quotes
-    bool squote = true;
-    int d1 = string.find_first_of('\'',0);
-    if (d1 == std::string::npos) {
-      d1 = string.find_first_of('\"',0);
-      if (d1 != std::string::npos) squote = false;
-    }
-    int d2 = d1;
-    if (d1 != std::string::npos) {
-      if (squote) {
-        if (string.length() > d1+1) d2 = string.find_first_of('\'',d1+1);
-      } else {
-        if (string.length() > d1+1) d2 = string.find_first_of('\"',d1+1);
-      }
+  int i;
+  int len = string.length();
+  char quote = '\0';
+  for (i=0; i<len; i++) {
+    if (quote != '\0') {
+      if (string[i] == quote) quote = '\0';
+    } else if ((string[i] == '\'' || string[i] == '\"') && (i == 0 ||
+          string[i-1] == ' ' || string[i-1] == ',' || string[i-1] == '\t')) {
+      quote = string[i];
+    } else if (string[i] == '/') {
+      string.erase(i,len-i);
+      return;
     }
-    // if '/' is between two quotes, return
-    if (d1 != std::string::npos && d2 != std::string::npos
-        && d1 < idx && idx < d2) return;
-    int len = string.length()-idx;
-    string.erase(idx,len);
   }
 }
 
@@ -209,8 +200,21 @@ std::vector<std::string> gridpack::parser::BaseBlockParser::splitPSSELine (
   int i, j;
   std::vector<std::string>  split_line;
   // split line into tokens based on comma delimiters
-  boost::algorithm::split(split_line, line, boost::algorithm::is_any_of(","),
-      boost::token_compress_off);
+  // that are not part of a quoted string
+  char quote = '\0';
+  split_line.push_back("");
+  for (i=0; i<line.length(); i++) {
+    if (quote != '\0') {
+      if (line[i] == quote) quote = '\0';
+    } else if ((line[i] == '\'' || line[i] == '\"') && (i == 0 ||
+          line[i-1] == ' ' || line[i-1] == ',' || line[i-1] == '\t')) {
+      quote = line[i];
+    } else if (line[i] == ',') {
+      split_line.push_back("");
+      continue;
+    }
+    split_line.back().push_back(line[i]);
+  }
   int slen = split_line.size();
   gridpack::utility::StringUtils p_util;
   // parse each token based on blank spaces
-- 
2.43.0


From cccc0d020852f5ea6684c2405b32e021bb1d7bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 066/138] fix: owner fractions of branches are truncated to
 integers

---
 src/parser/block_parsers/branch_parser33.cpp      | 8 ++++----
 src/parser/block_parsers/branch_parser34.cpp      | 8 ++++----
 src/parser/block_parsers/transformer_parser33.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser34.cpp | 8 ++++----
 src/parser/block_parsers/transformer_parser35.cpp | 8 ++++----
 5 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/src/parser/block_parsers/branch_parser33.cpp b/src/parser/block_parsers/branch_parser33.cpp
index 47fffd5..b07dc6d 100644
--- a/src/parser/block_parsers/branch_parser33.cpp
+++ b/src/parser/block_parsers/branch_parser33.cpp
@@ -180,7 +180,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 17) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[17].c_str()), nelems);
+        atof(split_line[17].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 18) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -188,7 +188,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 19) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[19].c_str()), nelems);
+        atof(split_line[19].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 20) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -196,7 +196,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 21) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[21].c_str()), nelems);
+        atof(split_line[21].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 22) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -204,7 +204,7 @@ void gridpack::parser::BranchParser33::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 23) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[23].c_str()), nelems);
+        atof(split_line[23].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/branch_parser34.cpp b/src/parser/block_parsers/branch_parser34.cpp
index bd824d4..b3ce173 100644
--- a/src/parser/block_parsers/branch_parser34.cpp
+++ b/src/parser/block_parsers/branch_parser34.cpp
@@ -216,7 +216,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F1        "F1"                             float
     if (nstr > 27) p_branchData[l_idx]->addValue(BRANCH_F1,
-        atoi(split_line[27].c_str()), nelems);
+        atof(split_line[27].c_str()), nelems);
 
     // BRANCH_O2        "O2"                       integer
     if (nstr > 28) p_branchData[l_idx]->addValue(BRANCH_O2,
@@ -224,7 +224,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F2        "F2"                             float
     if (nstr > 29) p_branchData[l_idx]->addValue(BRANCH_F2,
-        atoi(split_line[29].c_str()), nelems);
+        atof(split_line[29].c_str()), nelems);
 
     // BRANCH_O3        "O3"                       integer
     if (nstr > 30) p_branchData[l_idx]->addValue(BRANCH_O3,
@@ -232,7 +232,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F3        "F3"                             float
     if (nstr > 31) p_branchData[l_idx]->addValue(BRANCH_F3,
-        atoi(split_line[31].c_str()), nelems);
+        atof(split_line[31].c_str()), nelems);
 
     // BRANCH_O4        "O4"                       integer
     if (nstr > 32) p_branchData[l_idx]->addValue(BRANCH_O4,
@@ -240,7 +240,7 @@ void gridpack::parser::BranchParser34::parse(
 
     // BRANCH_F4        "F4"                             float
     if (nstr > 33) p_branchData[l_idx]->addValue(BRANCH_F4,
-        atoi(split_line[33].c_str()), nelems);
+        atof(split_line[33].c_str()), nelems);
 
     // TODO: add variables MET, LEN, Oi, Fi
 
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index cf08ad3..6baeffa 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -483,7 +483,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -497,7 +497,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -511,7 +511,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -525,7 +525,7 @@ void gridpack::parser::TransformerParser33::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 028d4bc..aeb6cf8 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -520,7 +520,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -534,7 +534,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -548,7 +548,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -562,7 +562,7 @@ void gridpack::parser::TransformerParser34::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 8f291d1..e7cc6ab 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -519,7 +519,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F1
        */
       if (ntoken > 13) p_branchData[l_idx]->addValue(BRANCH_F1,
-          atoi(split_line[13].c_str()), nelems);
+          atof(split_line[13].c_str()), nelems);
 
       /*
        * type: integer
@@ -533,7 +533,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F2
        */
       if (ntoken > 15) p_branchData[l_idx]->addValue(BRANCH_F2,
-          atoi(split_line[15].c_str()), nelems);
+          atof(split_line[15].c_str()), nelems);
 
       /*
        * type: integer
@@ -547,7 +547,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F3
        */
       if (ntoken > 17) p_branchData[l_idx]->addValue(BRANCH_F3,
-          atoi(split_line[17].c_str()), nelems);
+          atof(split_line[17].c_str()), nelems);
 
       /*
        * type: integer
@@ -561,7 +561,7 @@ void gridpack::parser::TransformerParser35::parse(
        * BRANCH_F4
        */
       if (ntoken > 19) p_branchData[l_idx]->addValue(BRANCH_F4,
-          atoi(split_line[19].c_str()), nelems);
+          atof(split_line[19].c_str()), nelems);
 
 
       // Add parameters from line 2
-- 
2.43.0


From bfe90b933c2a88dbb2471482a54b38ea10814dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:21 +0000
Subject: [PATCH 067/138] fix: comment lines inside of transformer records
 corrupt the record

---
 .../block_parsers/transformer_parser33.cpp    | 43 ++++++-------------
 .../block_parsers/transformer_parser34.cpp    | 43 ++++++-------------
 .../block_parsers/transformer_parser35.cpp    | 43 ++++++-------------
 3 files changed, 36 insertions(+), 93 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 6baeffa..5ed37e6 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -82,19 +82,18 @@ void gridpack::parser::TransformerParser33::parse(
         int o_idx3 = k;
         stream.nextLine(line);
         std::vector<std::string>  split_line2;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line2 = this->splitPSSELine(line);
         // Check to see if transformer is active
         int stat;
         stat = atoi(split_line[11].c_str());
         if (split_line2.size() < 4 || stat == 0) {
-          stream.nextLine(line);
-          stream.nextLine(line);
-          stream.nextLine(line);
+          int iskip;
+          for (iskip=0; iskip<3; iskip++) {
+            stream.nextLine(line);
+            while (check_comment(line)) stream.nextLine(line);
+          }
           stream.nextLine(line);
           continue;
         }
@@ -212,10 +211,7 @@ void gridpack::parser::TransformerParser33::parse(
         p_branchData.push_back(data1);
         stream.nextLine(line);
         std::vector<std::string> split_line3;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line3 = this->splitPSSELine(line);
         double windv, ang, ratea, rateb, ratec;
@@ -251,10 +247,7 @@ void gridpack::parser::TransformerParser33::parse(
         p_branchData.push_back(data2);
         stream.nextLine(line);
         std::vector<std::string> split_line4;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, &ratea, &rateb, &ratec);
@@ -289,10 +282,7 @@ void gridpack::parser::TransformerParser33::parse(
         p_branchData.push_back(data3);
         stream.nextLine(line);
         std::vector<std::string> split_line5;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, &ratea, &rateb, &ratec);
@@ -331,28 +321,19 @@ void gridpack::parser::TransformerParser33::parse(
       int ntoken = split_line.size();
       stream.nextLine(line);
       std::vector<std::string>  split_line2;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line2 = this->splitPSSELine(line);
 
       stream.nextLine(line);
       std::vector<std::string>  split_line3;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line3 = this->splitPSSELine(line);
 
       stream.nextLine(line);
       std::vector<std::string>  split_line4;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line4 = this->splitPSSELine(line);
       // find branch corresponding to this transformer line. If it doesn't
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index aeb6cf8..1eff28a 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -83,19 +83,18 @@ void gridpack::parser::TransformerParser34::parse(
         int o_idx3 = k;
         stream.nextLine(line);
         std::vector<std::string>  split_line2;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line2 = this->splitPSSELine(line);
         // Check to see if transformer is active
         int stat;
         stat = atoi(split_line[11].c_str());
         if (split_line2.size() < 4 || stat == 0) {
-          stream.nextLine(line);
-          stream.nextLine(line);
-          stream.nextLine(line);
+          int iskip;
+          for (iskip=0; iskip<3; iskip++) {
+            stream.nextLine(line);
+            while (check_comment(line)) stream.nextLine(line);
+          }
           stream.nextLine(line);
           continue;
         }
@@ -213,10 +212,7 @@ void gridpack::parser::TransformerParser34::parse(
         p_branchData.push_back(data1);
         stream.nextLine(line);
         std::vector<std::string> split_line3;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
@@ -264,10 +260,7 @@ void gridpack::parser::TransformerParser34::parse(
         p_branchData.push_back(data2);
         stream.nextLine(line);
         std::vector<std::string> split_line4;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
@@ -314,10 +307,7 @@ void gridpack::parser::TransformerParser34::parse(
         p_branchData.push_back(data3);
         stream.nextLine(line);
         std::vector<std::string> split_line5;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
@@ -368,28 +358,19 @@ void gridpack::parser::TransformerParser34::parse(
       int ntoken = split_line.size();
       stream.nextLine(line);
       std::vector<std::string>  split_line2;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line2 = this->splitPSSELine(line);
 
       stream.nextLine(line);
       std::vector<std::string>  split_line3;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line3 = this->splitPSSELine(line);
 
       stream.nextLine(line);
       std::vector<std::string>  split_line4;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line4 = this->splitPSSELine(line);
       // find branch corresponding to this transformer line. If it doesn't
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index e7cc6ab..3b4be73 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -82,19 +82,18 @@ void gridpack::parser::TransformerParser35::parse(
         int o_idx3 = k;
         stream.nextLine(line);
         std::vector<std::string>  split_line2;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line2 = this->splitPSSELine(line);
         // Check to see if transformer is active
         int stat;
         stat = atoi(split_line[11].c_str());
         if (split_line2.size() < 4 || stat == 0) {
-          stream.nextLine(line);
-          stream.nextLine(line);
-          stream.nextLine(line);
+          int iskip;
+          for (iskip=0; iskip<3; iskip++) {
+            stream.nextLine(line);
+            while (check_comment(line)) stream.nextLine(line);
+          }
           stream.nextLine(line);
           continue;
         }
@@ -212,10 +211,7 @@ void gridpack::parser::TransformerParser35::parse(
         p_branchData.push_back(data1);
         stream.nextLine(line);
         std::vector<std::string> split_line3;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
@@ -263,10 +259,7 @@ void gridpack::parser::TransformerParser35::parse(
         p_branchData.push_back(data2);
         stream.nextLine(line);
         std::vector<std::string> split_line4;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
@@ -313,10 +306,7 @@ void gridpack::parser::TransformerParser35::parse(
         p_branchData.push_back(data3);
         stream.nextLine(line);
         std::vector<std::string> split_line5;
-        if (check_comment(line)) {
-          stream.nextLine(line);
-          continue;
-        }
+        while (check_comment(line)) stream.nextLine(line);
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
@@ -367,28 +357,19 @@ void gridpack::parser::TransformerParser35::parse(
       int ntoken = split_line.size();
       stream.nextLine(line);
       std::vector<std::string>  split_line2;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line2 = this->splitPSSELine(line);
 
       stream.nextLine(line);
       std::vector<std::string>  split_line3;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line3 = this->splitPSSELine(line);
 
       stream.nextLine(line);
       std::vector<std::string>  split_line4;
-      if (check_comment(line)) {
-        stream.nextLine(line);
-        continue;
-      }
+      while (check_comment(line)) stream.nextLine(line);
       this->cleanComment(line);
       split_line4 = this->splitPSSELine(line);
       // find branch corresponding to this transformer line. If it doesn't
-- 
2.43.0


From 53f4f5da5aff2256483196dd942f952fae80bcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 068/138] fix: branch indices are used twice after a three
 winding transformer

---
 src/parser/block_parsers/transformer_parser33.cpp | 3 ++-
 src/parser/block_parsers/transformer_parser34.cpp | 3 ++-
 src/parser/block_parsers/transformer_parser35.cpp | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index 5ed37e6..a76bbfe 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -205,7 +205,7 @@ void gridpack::parser::TransformerParser33::parse(
         }
 
         // create branch between new bus and bus I
-        int index = p_branchData.size();
+        index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
           data1(new gridpack::component::DataCollection);
         p_branchData.push_back(data1);
@@ -309,6 +309,7 @@ void gridpack::parser::TransformerParser33::parse(
         } else {
           data3->addValue(BRANCH_STATUS,0,0);
         }
+        index++;
       } else {
         // Skip 3-winding transformers (for now)
         stream.nextLine(line);
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 1eff28a..0e90945 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -206,7 +206,7 @@ void gridpack::parser::TransformerParser34::parse(
         }
 
         // create branch between new bus and bus I
-        int index = p_branchData.size();
+        index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
           data1(new gridpack::component::DataCollection);
         p_branchData.push_back(data1);
@@ -346,6 +346,7 @@ void gridpack::parser::TransformerParser34::parse(
         } else {
           data3->addValue(BRANCH_STATUS,0,0);
         }
+        index++;
       } else {
         // Skip 3-winding transformers (for now)
         stream.nextLine(line);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 3b4be73..3d301d5 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -205,7 +205,7 @@ void gridpack::parser::TransformerParser35::parse(
         }
 
         // create branch between new bus and bus I
-        int index = p_branchData.size();
+        index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
           data1(new gridpack::component::DataCollection);
         p_branchData.push_back(data1);
@@ -345,6 +345,7 @@ void gridpack::parser::TransformerParser35::parse(
         } else {
           data3->addValue(BRANCH_STATUS,0,0);
         }
+        index++;
       } else {
         // Skip 3-winding transformers (for now)
         stream.nextLine(line);
-- 
2.43.0


From 92f60b72d8afc5ab73bcd9befb09c322849f1940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:47 +0000
Subject: [PATCH 069/138] fix: transformer ratings of version 34 and 35 files
 are lost or wrong

---
 .../block_parsers/transformer_parser34.cpp    | 66 ++++++++++--------
 .../block_parsers/transformer_parser35.cpp    | 68 ++++++++++---------
 2 files changed, 73 insertions(+), 61 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 0e90945..68b82a8 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -272,21 +272,21 @@ void gridpack::parser::TransformerParser34::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -319,21 +319,21 @@ void gridpack::parser::TransformerParser34::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
@@ -623,10 +623,16 @@ void gridpack::parser::TransformerParser34::parse(
        */
       p_branchData[l_idx]->addValue(BRANCH_RATE1,
           atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE2,
           atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE3,
           atof(split_line3[5].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE4,
           atof(split_line3[6].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE5,
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 3d301d5..80917dd 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -271,21 +271,21 @@ void gridpack::parser::TransformerParser35::parse(
         data2->addValue(BRANCH_R,r2,0);
         data2->addValue(BRANCH_X,x2,0);
         data2->addValue(BRANCH_B,b2,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data2->addValue(BRANCH_RATING_A,rate[0],0);
+        data2->addValue(BRANCH_RATING_B,rate[1],0);
+        data2->addValue(BRANCH_RATING_C,rate[2],0);
+        data2->addValue(BRANCH_RATE1,rate[0],0);
+        data2->addValue(BRANCH_RATE2,rate[1],0);
+        data2->addValue(BRANCH_RATE3,rate[2],0);
+        data2->addValue(BRANCH_RATE4,rate[3],0);
+        data2->addValue(BRANCH_RATE5,rate[4],0);
+        data2->addValue(BRANCH_RATE6,rate[5],0);
+        data2->addValue(BRANCH_RATE7,rate[6],0);
+        data2->addValue(BRANCH_RATE8,rate[7],0);
+        data2->addValue(BRANCH_RATE9,rate[8],0);
+        data2->addValue(BRANCH_RATE10,rate[9],0);
+        data2->addValue(BRANCH_RATE11,rate[10],0);
+        data2->addValue(BRANCH_RATE12,rate[11],0);
         data2->addValue(BRANCH_TAP,windv,0);
         data2->addValue(BRANCH_SHIFT,ang,0);
         data2->addValue(BRANCH_SWITCHED,false,0);
@@ -318,21 +318,21 @@ void gridpack::parser::TransformerParser35::parse(
         data3->addValue(BRANCH_R,r3,0);
         data3->addValue(BRANCH_X,x3,0);
         data3->addValue(BRANCH_B,b3,0);
-        data1->addValue(BRANCH_RATING_A,rate[0],0);
-        data1->addValue(BRANCH_RATING_B,rate[1],0);
-        data1->addValue(BRANCH_RATING_C,rate[2],0);
-        data1->addValue(BRANCH_RATE1,rate[0],0);
-        data1->addValue(BRANCH_RATE2,rate[1],0);
-        data1->addValue(BRANCH_RATE3,rate[2],0);
-        data1->addValue(BRANCH_RATE4,rate[3],0);
-        data1->addValue(BRANCH_RATE5,rate[4],0);
-        data1->addValue(BRANCH_RATE6,rate[5],0);
-        data1->addValue(BRANCH_RATE7,rate[6],0);
-        data1->addValue(BRANCH_RATE8,rate[7],0);
-        data1->addValue(BRANCH_RATE9,rate[8],0);
-        data1->addValue(BRANCH_RATE10,rate[9],0);
-        data1->addValue(BRANCH_RATE11,rate[10],0);
-        data1->addValue(BRANCH_RATE12,rate[11],0);
+        data3->addValue(BRANCH_RATING_A,rate[0],0);
+        data3->addValue(BRANCH_RATING_B,rate[1],0);
+        data3->addValue(BRANCH_RATING_C,rate[2],0);
+        data3->addValue(BRANCH_RATE1,rate[0],0);
+        data3->addValue(BRANCH_RATE2,rate[1],0);
+        data3->addValue(BRANCH_RATE3,rate[2],0);
+        data3->addValue(BRANCH_RATE4,rate[3],0);
+        data3->addValue(BRANCH_RATE5,rate[4],0);
+        data3->addValue(BRANCH_RATE6,rate[5],0);
+        data3->addValue(BRANCH_RATE7,rate[6],0);
+        data3->addValue(BRANCH_RATE8,rate[7],0);
+        data3->addValue(BRANCH_RATE9,rate[8],0);
+        data3->addValue(BRANCH_RATE10,rate[9],0);
+        data3->addValue(BRANCH_RATE11,rate[10],0);
+        data3->addValue(BRANCH_RATE12,rate[11],0);
         data3->addValue(BRANCH_TAP,windv,0);
         data3->addValue(BRANCH_SHIFT,ang,0);
         data3->addValue(BRANCH_SWITCHED,false,0);
@@ -622,10 +622,16 @@ void gridpack::parser::TransformerParser35::parse(
        */
       p_branchData[l_idx]->addValue(BRANCH_RATE1,
           atof(split_line3[3].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_A,
+          atof(split_line3[3].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE2,
           atof(split_line3[4].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_B,
+          atof(split_line3[4].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE3,
           atof(split_line3[5].c_str()),nelems);
+      p_branchData[l_idx]->addValue(BRANCH_RATING_C,
+          atof(split_line3[5].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE4,
           atof(split_line3[6].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE5,
@@ -642,7 +648,7 @@ void gridpack::parser::TransformerParser35::parse(
           atof(split_line3[12].c_str()),nelems);
       p_branchData[l_idx]->addValue(BRANCH_RATE11,
           atof(split_line3[13].c_str()),nelems);
-      p_branchData[l_idx]->addValue(BRANCH_RATE11,
+      p_branchData[l_idx]->addValue(BRANCH_RATE12,
           atof(split_line3[14].c_str()),nelems);
 
       /*
-- 
2.43.0


From 052cbf34687e400e8ef1dfc9fc318608de307901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:01 +0000
Subject: [PATCH 070/138] fix: transformer impedances are not converted to the
 system base correctly

---
 .../block_parsers/transformer_parser33.cpp    | 36 ++++++++++---------
 .../block_parsers/transformer_parser34.cpp    | 36 ++++++++++---------
 .../block_parsers/transformer_parser35.cpp    | 36 ++++++++++---------
 3 files changed, 57 insertions(+), 51 deletions(-)

diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index a76bbfe..add8c8f 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -181,6 +181,21 @@ void gridpack::parser::TransformerParser33::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // correct R and X values, if necessary. Values are already on the system
+        // base if CZ is 1
+        int cz = atoi(split_line[5].c_str());
+        if (cz != 1 && sb12 != p_case_sbase && sb12 != 0.0) {
+          r12 = r12*p_case_sbase/sb12;
+          x12 = x12*p_case_sbase/sb12;
+        }
+        if (cz != 1 && sb23 != p_case_sbase && sb23 != 0.0) {
+          r23 = r23*p_case_sbase/sb23;
+          x23 = x23*p_case_sbase/sb23;
+        }
+        if (cz != 1 && sb31 != p_case_sbase && sb31 != 0.0) {
+          r31 = r31*p_case_sbase/sb31;
+          x31 = x31*p_case_sbase/sb31;
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -190,20 +205,6 @@ void gridpack::parser::TransformerParser33::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
@@ -412,8 +413,9 @@ void gridpack::parser::TransformerParser33::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -549,7 +551,7 @@ void gridpack::parser::TransformerParser33::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -564,7 +566,7 @@ void gridpack::parser::TransformerParser33::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 68b82a8..59d1e96 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -182,6 +182,21 @@ void gridpack::parser::TransformerParser34::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // correct R and X values, if necessary. Values are already on the system
+        // base if CZ is 1
+        int cz = atoi(split_line[5].c_str());
+        if (cz != 1 && sb12 != p_case_sbase && sb12 != 0.0) {
+          r12 = r12*p_case_sbase/sb12;
+          x12 = x12*p_case_sbase/sb12;
+        }
+        if (cz != 1 && sb23 != p_case_sbase && sb23 != 0.0) {
+          r23 = r23*p_case_sbase/sb23;
+          x23 = x23*p_case_sbase/sb23;
+        }
+        if (cz != 1 && sb31 != p_case_sbase && sb31 != 0.0) {
+          r31 = r31*p_case_sbase/sb31;
+          x31 = x31*p_case_sbase/sb31;
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -191,20 +206,6 @@ void gridpack::parser::TransformerParser34::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
@@ -449,8 +450,9 @@ void gridpack::parser::TransformerParser34::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -584,7 +586,7 @@ void gridpack::parser::TransformerParser34::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -599,7 +601,7 @@ void gridpack::parser::TransformerParser34::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 80917dd..3fbbdc0 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -181,6 +181,21 @@ void gridpack::parser::TransformerParser35::parse(
         r31 = atof(split_line2[6].c_str());
         x31 = atof(split_line2[7].c_str());
         sb31 = atof(split_line2[8].c_str());
+        // correct R and X values, if necessary. Values are already on the system
+        // base if CZ is 1
+        int cz = atoi(split_line[5].c_str());
+        if (cz != 1 && sb12 != p_case_sbase && sb12 != 0.0) {
+          r12 = r12*p_case_sbase/sb12;
+          x12 = x12*p_case_sbase/sb12;
+        }
+        if (cz != 1 && sb23 != p_case_sbase && sb23 != 0.0) {
+          r23 = r23*p_case_sbase/sb23;
+          x23 = x23*p_case_sbase/sb23;
+        }
+        if (cz != 1 && sb31 != p_case_sbase && sb31 != 0.0) {
+          r31 = r31*p_case_sbase/sb31;
+          x31 = x31*p_case_sbase/sb31;
+        }
         r1 = 0.5*(r12+r31-r23);
         x1 = 0.5*(x12+x31-x23);
         b1 = 0.0;
@@ -190,20 +205,6 @@ void gridpack::parser::TransformerParser35::parse(
         r3 = 0.5*(r23+r31-r12);
         x3 = 0.5*(x23+x31-x12);
         b3 = 0.0;
-        // correct R and X values, if necessary
-        if (sb12 != p_case_sbase && sb12 == 0.0) {
-          r1 = r1*p_case_sbase/sb12;
-          x1 = x1*p_case_sbase/sb12;
-        }
-        if (sb23 != p_case_sbase && sb23 == 0.0) {
-          r2 = r2*p_case_sbase/sb23;
-          x2 = x2*p_case_sbase/sb23;
-        }
-        if (sb31 != p_case_sbase && sb31 == 0.0) {
-          r3 = r3*p_case_sbase/sb31;
-          x3 = x3*p_case_sbase/sb31;
-        }
-
         // create branch between new bus and bus I
         index = p_branchData.size();
         boost::shared_ptr<gridpack::component::DataCollection>
@@ -448,8 +449,9 @@ void gridpack::parser::TransformerParser35::parse(
        * type: integer
        * TRANSFORMER_CZ
        */
+      int cz = atoi(split_line[5].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_CZ,
-          atoi(split_line[5].c_str()),nelems);
+          cz,nelems);
 
       /*
        * type: integer
@@ -583,7 +585,7 @@ void gridpack::parser::TransformerParser35::parse(
       double rval = atof(split_line2[0].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_R1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the req of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_R,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
@@ -598,7 +600,7 @@ void gridpack::parser::TransformerParser35::parse(
       rval = atof(split_line2[1].c_str());
       p_branchData[l_idx]->addValue(TRANSFORMER_X1_2,rval,nelems);
       rval  = rval * windv2 * windv2; // need to consider the wnd2 ratio to the xeq of the transformer
-      if (sbase2 == p_case_sbase || sbase2 == 0.0) {
+      if (cz == 1 || sbase2 == p_case_sbase || sbase2 == 0.0) {
         p_branchData[l_idx]->addValue(BRANCH_X,rval,nelems);
       } else {
         rval = rval*p_case_sbase/sbase2;
-- 
2.43.0


From 9576ca976c49ad44057f30dfe61e444aa60ec6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 071/138] fix: winding voltages in kV are not converted to per
 unit

---
 .../block_parsers/base_block_parser.cpp       | 24 +++++++++++++++++++
 .../block_parsers/base_block_parser.hpp       | 13 ++++++++++
 .../block_parsers/transformer_parser33.cpp    | 16 +++++++++++--
 .../block_parsers/transformer_parser34.cpp    | 16 +++++++++++--
 .../block_parsers/transformer_parser35.cpp    | 16 +++++++++++--
 5 files changed, 79 insertions(+), 6 deletions(-)

diff --git a/src/parser/block_parsers/base_block_parser.cpp b/src/parser/block_parsers/base_block_parser.cpp
index d87ba90..9451491 100644
--- a/src/parser/block_parsers/base_block_parser.cpp
+++ b/src/parser/block_parsers/base_block_parser.cpp
@@ -268,3 +268,27 @@ int gridpack::parser::BaseBlockParser::getBusIndex(std::string str)
     return abs(atoi(str.c_str()));
   }
 }
+
+/**
+ * Get winding voltage in units of the nominal winding voltage. A nominal
+ * voltage of zero stands for the base voltage of the bus
+ * @param windv winding voltage in kV
+ * @param nomv nominal winding voltage in kV
+ * @param bus original index of bus
+ * @param busData data collections of buses
+ * @return per unit winding voltage
+ */
+double gridpack::parser::BaseBlockParser::scaleWindingVoltage(
+    double windv, double nomv, int bus,
+    std::vector<boost::shared_ptr<gridpack::component::DataCollection> >
+    &busData)
+{
+  if (nomv == 0.0) {
+    std::map<int,int>::iterator it = p_busMap->find(bus);
+    if (it != p_busMap->end()) {
+      busData[it->second]->getValue(BUS_BASEKV,&nomv);
+    }
+  }
+  if (nomv == 0.0) return windv;
+  return windv/nomv;
+}
diff --git a/src/parser/block_parsers/base_block_parser.hpp b/src/parser/block_parsers/base_block_parser.hpp
index d1cea2d..1bcd42f 100644
--- a/src/parser/block_parsers/base_block_parser.hpp
+++ b/src/parser/block_parsers/base_block_parser.hpp
@@ -114,6 +114,19 @@ class BaseBlockParser{
    * quotes, find the corresponding index in the p_nameMap data structure
    */
   int getBusIndex(std::string str);
+
+  /**
+   * Get winding voltage in units of the nominal winding voltage. A nominal
+   * voltage of zero stands for the base voltage of the bus
+   * @param windv winding voltage in kV
+   * @param nomv nominal winding voltage in kV
+   * @param bus original index of bus
+   * @param busData data collections of buses
+   * @return per unit winding voltage
+   */
+  double scaleWindingVoltage(double windv, double nomv, int bus,
+      std::vector<boost::shared_ptr<gridpack::component::DataCollection> >
+      &busData);
   
 protected:
   std::map<int,int> *p_busMap;
diff --git a/src/parser/block_parsers/transformer_parser33.cpp b/src/parser/block_parsers/transformer_parser33.cpp
index add8c8f..d3cd427 100644
--- a/src/parser/block_parsers/transformer_parser33.cpp
+++ b/src/parser/block_parsers/transformer_parser33.cpp
@@ -217,6 +217,10 @@ void gridpack::parser::TransformerParser33::parse(
         split_line3 = this->splitPSSELine(line);
         double windv, ang, ratea, rateb, ratec;
         parse3WindXForm(split_line3, &windv, &ang, &ratea, &rateb, &ratec);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line3[1].c_str()),
+              o_idx1,p_busData);
+        }
         data1->addValue(BRANCH_INDEX,index);
         data1->addValue(BRANCH_FROMBUS,o_idx1);
         data1->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -252,6 +256,10 @@ void gridpack::parser::TransformerParser33::parse(
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, &ratea, &rateb, &ratec);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line4[1].c_str()),
+              o_idx2,p_busData);
+        }
         data2->addValue(BRANCH_INDEX,index);
         data2->addValue(BRANCH_FROMBUS,o_idx2);
         data2->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -287,6 +295,10 @@ void gridpack::parser::TransformerParser33::parse(
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, &ratea, &rateb, &ratec);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line5[1].c_str()),
+              o_idx3,p_busData);
+        }
         data3->addValue(BRANCH_INDEX,index);
         data3->addValue(BRANCH_FROMBUS,o_idx3);
         data3->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -534,8 +546,8 @@ void gridpack::parser::TransformerParser33::parse(
       if(cw == 2) {
         double nomv1 = atof(split_line3[1].c_str());
         double nomv2 = atof(split_line4[1].c_str());
-        windv1 = windv1/nomv1;
-        windv2 = windv2/nomv2;
+        windv1 = scaleWindingVoltage(windv1,nomv1,o_idx1,p_busData);
+        windv2 = scaleWindingVoltage(windv2,nomv2,o_idx2,p_busData);
       }
       double tap = windv1/windv2;
       
diff --git a/src/parser/block_parsers/transformer_parser34.cpp b/src/parser/block_parsers/transformer_parser34.cpp
index 59d1e96..830145e 100644
--- a/src/parser/block_parsers/transformer_parser34.cpp
+++ b/src/parser/block_parsers/transformer_parser34.cpp
@@ -218,6 +218,10 @@ void gridpack::parser::TransformerParser34::parse(
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
         parse3WindXForm(split_line3, &windv, &ang, rate);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line3[1].c_str()),
+              o_idx1,p_busData);
+        }
         data1->addValue(BRANCH_INDEX,index);
         data1->addValue(BRANCH_FROMBUS,o_idx1);
         data1->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -265,6 +269,10 @@ void gridpack::parser::TransformerParser34::parse(
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line4[1].c_str()),
+              o_idx2,p_busData);
+        }
         data2->addValue(BRANCH_INDEX,index);
         data2->addValue(BRANCH_FROMBUS,o_idx2);
         data2->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -312,6 +320,10 @@ void gridpack::parser::TransformerParser34::parse(
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line5[1].c_str()),
+              o_idx3,p_busData);
+        }
         data3->addValue(BRANCH_INDEX,index);
         data3->addValue(BRANCH_FROMBUS,o_idx3);
         data3->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -570,8 +582,8 @@ void gridpack::parser::TransformerParser34::parse(
       if(cw == 2) {
         double nomv1 = atof(split_line3[1].c_str());
         double nomv2 = atof(split_line4[1].c_str());
-        windv1 = windv1/nomv1;
-        windv2 = windv2/nomv2;
+        windv1 = scaleWindingVoltage(windv1,nomv1,o_idx1,p_busData);
+        windv2 = scaleWindingVoltage(windv2,nomv2,o_idx2,p_busData);
       }
       double tap = windv1/windv2;
       p_branchData[l_idx]->addValue(BRANCH_TAP,tap,nelems);
diff --git a/src/parser/block_parsers/transformer_parser35.cpp b/src/parser/block_parsers/transformer_parser35.cpp
index 3fbbdc0..01d6a12 100644
--- a/src/parser/block_parsers/transformer_parser35.cpp
+++ b/src/parser/block_parsers/transformer_parser35.cpp
@@ -217,6 +217,10 @@ void gridpack::parser::TransformerParser35::parse(
         split_line3 = this->splitPSSELine(line);
         double windv, ang, rate[12];
         parse3WindXForm(split_line3, &windv, &ang, rate);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line3[1].c_str()),
+              o_idx1,p_busData);
+        }
         data1->addValue(BRANCH_INDEX,index);
         data1->addValue(BRANCH_FROMBUS,o_idx1);
         data1->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -264,6 +268,10 @@ void gridpack::parser::TransformerParser35::parse(
         this->cleanComment(line);
         split_line4 = this->splitPSSELine(line);
         parse3WindXForm(split_line4, &windv, &ang, rate);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line4[1].c_str()),
+              o_idx2,p_busData);
+        }
         data2->addValue(BRANCH_INDEX,index);
         data2->addValue(BRANCH_FROMBUS,o_idx2);
         data2->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -311,6 +319,10 @@ void gridpack::parser::TransformerParser35::parse(
         this->cleanComment(line);
         split_line5 = this->splitPSSELine(line);
         parse3WindXForm(split_line5, &windv, &ang, rate);
+        if (atoi(split_line[4].c_str()) == 2) {
+          windv = scaleWindingVoltage(windv,atof(split_line5[1].c_str()),
+              o_idx3,p_busData);
+        }
         data3->addValue(BRANCH_INDEX,index);
         data3->addValue(BRANCH_FROMBUS,o_idx3);
         data3->addValue(BRANCH_TOBUS,p_maxBusIndex);
@@ -569,8 +581,8 @@ void gridpack::parser::TransformerParser35::parse(
       if(cw == 2) {
 	double nomv1 = atof(split_line3[1].c_str());
 	double nomv2 = atof(split_line4[1].c_str());
-	windv1 = windv1/nomv1;
-	windv2 = windv2/nomv2;
+        windv1 = scaleWindingVoltage(windv1,nomv1,o_idx1,p_busData);
+        windv2 = scaleWindingVoltage(windv2,nomv2,o_idx2,p_busData);
       }
       double tap = windv1/windv2;
       p_branchData[l_idx]->addValue(BRANCH_TAP,tap,nelems);
-- 
2.43.0


From 16c5424ca9f6a4f20eaf328bb6b321dad54fc3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 072/138] fix: short area, switched shunt and multi-section
 records read past their end

---
 src/parser/block_parsers/area_parser33.cpp    |  9 +++---
 .../block_parsers/multi_section_parser33.cpp  |  7 +++--
 .../block_parsers/switched_shunt_parser33.cpp | 31 ++++++++++++-------
 .../block_parsers/switched_shunt_parser35.cpp | 29 +++++++++--------
 4 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/src/parser/block_parsers/area_parser33.cpp b/src/parser/block_parsers/area_parser33.cpp
index 4857841..8971a19 100644
--- a/src/parser/block_parsers/area_parser33.cpp
+++ b/src/parser/block_parsers/area_parser33.cpp
@@ -55,21 +55,22 @@ void gridpack::parser::AreaParser33::parse(
     }
     this->cleanComment(line);
     split_line = this->splitPSSELine(line);
+    int nstr = split_line.size();
 
     // AREAINTG_ISW             "I"                    integer
-    p_network_data->addValue(AREAINTG_ISW, atoi(split_line[1].c_str()),ncnt);
+    if (nstr > 1) p_network_data->addValue(AREAINTG_ISW, atoi(split_line[1].c_str()),ncnt);
 
     // AREAINTG_NUMBER             "I"                    integer
     p_network_data->addValue(AREAINTG_NUMBER, atoi(split_line[0].c_str()),ncnt);
 
     // AREAINTG_PDES          "PDES"                 float
-    p_network_data->addValue(AREAINTG_PDES, atof(split_line[2].c_str()),ncnt);
+    if (nstr > 2) p_network_data->addValue(AREAINTG_PDES, atof(split_line[2].c_str()),ncnt);
 
     // AREAINTG_PTOL          "PTOL"                 float
-    p_network_data->addValue(AREAINTG_PTOL, atof(split_line[3].c_str()),ncnt);
+    if (nstr > 3) p_network_data->addValue(AREAINTG_PTOL, atof(split_line[3].c_str()),ncnt);
 
     // AREAINTG_NAME         "ARNAM"                string
-    p_network_data->addValue(AREAINTG_NAME, split_line[4].c_str(),ncnt);
+    if (nstr > 4) p_network_data->addValue(AREAINTG_NAME, split_line[4].c_str(),ncnt);
     ncnt++;
 
     stream.nextLine(line);
diff --git a/src/parser/block_parsers/multi_section_parser33.cpp b/src/parser/block_parsers/multi_section_parser33.cpp
index dfff3ab..bc04c8a 100644
--- a/src/parser/block_parsers/multi_section_parser33.cpp
+++ b/src/parser/block_parsers/multi_section_parser33.cpp
@@ -82,7 +82,10 @@ void gridpack::parser::MultiSectParser33::parse(
     }
     nelems = split_line.size() - 3;
 
-    if (!found || nelems <= 0) continue;
+    if (!found || nelems <= 0) {
+      stream.nextLine(line);
+      continue;
+    }
 
     // Clean up 2 character tag
     gridpack::utility::StringUtils util;
@@ -106,7 +109,7 @@ void gridpack::parser::MultiSectParser33::parse(
 
     int i;
     char buf[32];
-    for (i=0; i<9; i++) {
+    for (i=0; i<9 && i<nelems-1; i++) {
       sprintf(buf,"MULTI_SEC_LINE_DUM%d",i+1);
       p_branchData[l_idx]->addValue(buf,atoi(split_line[i+4].c_str()));
     }
diff --git a/src/parser/block_parsers/switched_shunt_parser33.cpp b/src/parser/block_parsers/switched_shunt_parser33.cpp
index ecb7655..25c124a 100644
--- a/src/parser/block_parsers/switched_shunt_parser33.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser33.cpp
@@ -61,7 +61,7 @@ void gridpack::parser::SwitchedShuntParser33::parse(
      * #define SWSHUNT_BUSNUMBER "SWSHUNT_BUSNUMBER"
      */
     int l_idx, o_idx;
-    l_idx = atoi(split_line[0].c_str());
+    l_idx = getBusIndex(split_line[0]);
     std::map<int, int>::iterator it;
     it = p_busMap->find(l_idx);
     if (it != p_busMap->end()) {
@@ -72,61 +72,70 @@ void gridpack::parser::SwitchedShuntParser33::parse(
     }
     int nval = split_line.size();
 
-    p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, atoi(split_line[0].c_str()));
+    p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, l_idx);
 
     /*
      * type: integer
      * #define SHUNT_MODSW "SHUNT_MODSW"
      */
-    p_busData[o_idx]->addValue(SHUNT_MODSW, atoi(split_line[1].c_str()));
+    if (nval > 1)
+      p_busData[o_idx]->addValue(SHUNT_MODSW, atoi(split_line[1].c_str()));
 
     /*
      * type: integer
      * #define SHUNT_ADJM "SHUNT_ADJM"
      */
-    p_busData[o_idx]->addValue(SHUNT_ADJM, atoi(split_line[2].c_str()));
+    if (nval > 2)
+      p_busData[o_idx]->addValue(SHUNT_ADJM, atoi(split_line[2].c_str()));
 
     /*
      * type: integer
      * #define SHUNT_SWCH_STAT "SHUNT_SWCH_STAT"
      */
-    p_busData[o_idx]->addValue(SHUNT_SWCH_STAT, atoi(split_line[3].c_str()));
+    if (nval > 3)
+      p_busData[o_idx]->addValue(SHUNT_SWCH_STAT, atoi(split_line[3].c_str()));
 
     /*
      * type: real float
      * #define SHUNT_VSWHI "SHUNT_VSWHI"
      */
-    p_busData[o_idx]->addValue(SHUNT_VSWHI, atof(split_line[4].c_str()));
+    if (nval > 4)
+      p_busData[o_idx]->addValue(SHUNT_VSWHI, atof(split_line[4].c_str()));
 
     /*
      * type: real float
      * #define SHUNT_VSWLO "SHUNT_VSWLO"
      */
-    p_busData[o_idx]->addValue(SHUNT_VSWLO, atof(split_line[5].c_str()));
+    if (nval > 5)
+      p_busData[o_idx]->addValue(SHUNT_VSWLO, atof(split_line[5].c_str()));
 
     /*
      * type: integer
      * #define SHUNT_SWREM "SHUNT_SWREM"
      */
-    p_busData[o_idx]->addValue(SHUNT_SWREM, atoi(split_line[6].c_str()));
+    if (nval > 6)
+      p_busData[o_idx]->addValue(SHUNT_SWREM, atoi(split_line[6].c_str()));
 
     /*
      * type: real float
      * #define SHUNT_RMPCT "SHUNT_RMPCT"
      */
-    p_busData[o_idx]->addValue(SHUNT_RMPCT, atof(split_line[7].c_str()));
+    if (nval > 7)
+      p_busData[o_idx]->addValue(SHUNT_RMPCT, atof(split_line[7].c_str()));
 
     /*
      * type: string
      * #define SHUNT_RMIDNT "SHUNT_RMIDNT"
      */
-    p_busData[o_idx]->addValue(SHUNT_RMIDNT, split_line[8].c_str());
+    if (nval > 8)
+      p_busData[o_idx]->addValue(SHUNT_RMIDNT, split_line[8].c_str());
 
     /*
      * type: real float
      * #define SHUNT_BINIT "SHUNT_BINIT"
      */
-    p_busData[o_idx]->addValue(SHUNT_BINIT, atof(split_line[9].c_str()));
+    if (nval > 9)
+      p_busData[o_idx]->addValue(SHUNT_BINIT, atof(split_line[9].c_str()));
 
     if (nval > 10)
       p_busData[o_idx]->addValue(SHUNT_N1, atoi(split_line[10].c_str()));
diff --git a/src/parser/block_parsers/switched_shunt_parser35.cpp b/src/parser/block_parsers/switched_shunt_parser35.cpp
index 286c0bc..9a18f23 100644
--- a/src/parser/block_parsers/switched_shunt_parser35.cpp
+++ b/src/parser/block_parsers/switched_shunt_parser35.cpp
@@ -61,7 +61,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * #define SWSHUNT_BUSNUMBER "SWSHUNT_BUSNUMBER"
      */
     int l_idx, o_idx;
-    l_idx = atoi(split_line[0].c_str());
+    l_idx = getBusIndex(split_line[0]);
     std::map<int, int>::iterator it;
     it = p_busMap->find(l_idx);
     if (it != p_busMap->end()) {
@@ -72,9 +72,8 @@ void gridpack::parser::SwitchedShuntParser35::parse(
     }
     int nval = split_line.size();
 
-    if (!p_busData[o_idx]->setValue(SWSHUNT_BUSNUMBER,
-          atoi(split_line[0].c_str()))) {
-      p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, atoi(split_line[0].c_str()));
+    if (!p_busData[o_idx]->setValue(SWSHUNT_BUSNUMBER,l_idx)) {
+      p_busData[o_idx]->addValue(SWSHUNT_BUSNUMBER, l_idx);
     }
 
     // Currently ignoring the shunt ID. Assume one switched shunt per bus
@@ -82,7 +81,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: integer
      * #define SHUNT_MODSW "SHUNT_MODSW"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_MODSW,
+    if (nval > 2 && !p_busData[o_idx]->setValue(SHUNT_MODSW,
           atoi(split_line[2].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_MODSW, atoi(split_line[2].c_str()));
     }
@@ -91,7 +90,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: integer
      * #define SHUNT_ADJM "SHUNT_ADJM"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_ADJM,
+    if (nval > 3 && !p_busData[o_idx]->setValue(SHUNT_ADJM,
           atoi(split_line[3].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_ADJM, atoi(split_line[3].c_str()));
     }
@@ -100,7 +99,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: integer
      * #define SHUNT_SWCH_STAT "SHUNT_SWCH_STAT"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_SWCH_STAT,
+    if (nval > 4 && !p_busData[o_idx]->setValue(SHUNT_SWCH_STAT,
           atoi(split_line[4].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_SWCH_STAT, atoi(split_line[4].c_str()));
     }
@@ -109,7 +108,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: real float
      * #define SHUNT_VSWHI "SHUNT_VSWHI"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_VSWHI,
+    if (nval > 5 && !p_busData[o_idx]->setValue(SHUNT_VSWHI,
           atof(split_line[5].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_VSWHI, atof(split_line[5].c_str()));
     }
@@ -118,7 +117,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: real float
      * #define SHUNT_VSWLO "SHUNT_VSWLO"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_VSWLO,
+    if (nval > 6 && !p_busData[o_idx]->setValue(SHUNT_VSWLO,
           atof(split_line[6].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_VSWLO, atof(split_line[6].c_str()));
     }
@@ -127,7 +126,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: integer
      * #define SHUNT_SWREG "SHUNT_SWREG"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_SWREG,
+    if (nval > 7 && !p_busData[o_idx]->setValue(SHUNT_SWREG,
           atoi(split_line[7].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_SWREG, atoi(split_line[7].c_str()));
     }
@@ -136,16 +135,16 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: integer
      * #define SHUNT_NREG "SHUNT_NREG"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_NREG,
+    if (nval > 8 && !p_busData[o_idx]->setValue(SHUNT_NREG,
           atoi(split_line[8].c_str()))) {
-      p_busData[o_idx]->addValue(SHUNT_SWREG, atoi(split_line[8].c_str()));
+      p_busData[o_idx]->addValue(SHUNT_NREG, atoi(split_line[8].c_str()));
     }
 
     /*
      * type: real float
      * #define SHUNT_RMPCT "SHUNT_RMPCT"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_RMPCT,
+    if (nval > 9 && !p_busData[o_idx]->setValue(SHUNT_RMPCT,
           atof(split_line[9].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_RMPCT, atof(split_line[9].c_str()));
     }
@@ -154,7 +153,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: string
      * #define SHUNT_RMIDNT "SHUNT_RMIDNT"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_RMIDNT,
+    if (nval > 10 && !p_busData[o_idx]->setValue(SHUNT_RMIDNT,
           split_line[10].c_str())) {
       p_busData[o_idx]->addValue(SHUNT_RMIDNT, split_line[10].c_str());
     }
@@ -163,7 +162,7 @@ void gridpack::parser::SwitchedShuntParser35::parse(
      * type: real float
      * #define SHUNT_BINIT "SHUNT_BINIT"
      */
-    if (!p_busData[o_idx]->setValue(SHUNT_BINIT,
+    if (nval > 11 && !p_busData[o_idx]->setValue(SHUNT_BINIT,
           atof(split_line[11].c_str()))) {
       p_busData[o_idx]->addValue(SHUNT_BINIT, atof(split_line[11].c_str()));
     }
-- 
2.43.0


From 901b3a98d32ee9ded241b01486eae8ab70837efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:39 +0000
Subject: [PATCH 073/138] fix: impedance correction tables are misread or never
 end

---
 .../block_parsers/imped_corr_parser33.cpp      |  5 ++++-
 .../block_parsers/imped_corr_parser34.cpp      | 18 +++++++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/parser/block_parsers/imped_corr_parser33.cpp b/src/parser/block_parsers/imped_corr_parser33.cpp
index 0baaec0..8971fbf 100644
--- a/src/parser/block_parsers/imped_corr_parser33.cpp
+++ b/src/parser/block_parsers/imped_corr_parser33.cpp
@@ -60,7 +60,10 @@ void gridpack::parser::ImpedCorrParser33::parse(
     int entries = nval-1;
     entries =  entries - entries%2;
     entries = entries/2;
-    if (entries == 0) continue;
+    if (entries == 0) {
+      stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
diff --git a/src/parser/block_parsers/imped_corr_parser34.cpp b/src/parser/block_parsers/imped_corr_parser34.cpp
index d2861c2..91f7fb6 100644
--- a/src/parser/block_parsers/imped_corr_parser34.cpp
+++ b/src/parser/block_parsers/imped_corr_parser34.cpp
@@ -58,6 +58,11 @@ void gridpack::parser::ImpedCorrParser34::parse(
     // accumulate lines for table into one line
     bool end_table = false;
     while (!end_table && test_end(line)) {
+      if (check_comment(line)) {
+        stream.nextLine(line);
+        continue;
+      }
+      this->cleanComment(line);
       std::vector<std::string>  tmp_list;
       tmp_list = this->splitPSSELine(line);
       if (tmp_list.size() >= 3 && atof(tmp_list[0].c_str()) == 0.0 &&
@@ -75,11 +80,14 @@ void gridpack::parser::ImpedCorrParser34::parse(
     int nval = split_line.size();
     int entries = nval-1;
     entries =  entries - entries%3;
-    entries = entries/2;
+    entries = entries/3;
     // Limit number of entries to version 33 format
     if (entries > 11) entries = 11;
 
-    if (entries == 0) continue;
+    if (entries == 0) {
+      if (end_table) stream.nextLine(line);
+      continue;
+    }
     boost::shared_ptr<gridpack::component::DataCollection>
       data(new gridpack::component::DataCollection);
 
@@ -98,18 +106,18 @@ void gridpack::parser::ImpedCorrParser34::parse(
        * #define XFMR_CORR_TABLE_Ti "XFMR_CORR_TABLE_Ti"
        */
       sprintf(buf,"XFMR_CORR_TABLE_T%d",i+1);
-      data->addValue(buf, atof(split_line[1+2*i].c_str()));
+      data->addValue(buf, atof(split_line[1+3*i].c_str()));
 
       /*
        * type: real float
        * #define XFMR_CORR_TABLE_Fi "XFMR_CORR_TABLE_Fi"
        */
       sprintf(buf,"XFMR_CORR_TABLE_F%d",i+1);
-      data->addValue(buf, atof(split_line[2+2*i].c_str()));
+      data->addValue(buf, atof(split_line[2+3*i].c_str()));
     }
 
     p_imp_corr_table.insert(std::pair<int,
         boost::shared_ptr<gridpack::component::DataCollection> >(tableid,data));
-    stream.nextLine(line);
+    if (end_table) stream.nextLine(line);
   }
 }
-- 
2.43.0


From a546dbe09a7ef40f1debd300d958a0babbf7a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:57 +0000
Subject: [PATCH 074/138] fix: impedance correction tables are only available
 on process 0

---
 src/parser/PTI33_parser.hpp | 25 ++++++++++++++++---------
 src/parser/PTI34_parser.hpp | 25 ++++++++++++++++---------
 src/parser/PTI35_parser.hpp | 25 ++++++++++++++++---------
 3 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/src/parser/PTI33_parser.hpp b/src/parser/PTI33_parser.hpp
index 283eba1..80bd232 100644
--- a/src/parser/PTI33_parser.hpp
+++ b/src/parser/PTI33_parser.hpp
@@ -309,22 +309,29 @@ class PTI33_parser : public BasePTIParser<_network>
         stables =  p_imp_corr_table.size();
       }
       ierr = MPI_Allreduce(&stables, &ntables, 1, MPI_INT, MPI_SUM, comm);
-#if 0
       if (ntables > 0) {
         // distribute tables
+        boost::mpi::communicator bcomm
+          = p_network->communicator().getCommunicator();
+        std::vector<int> ids;
+        std::map<int, boost::shared_ptr<gridpack::component::DataCollection>
+          >::iterator it;
         if (me == 0) {
-          int idx;
-          for (idx=1; idx<nprocs; idx++) {
-            static_cast<boost::mpi::communicator>(
-                p_network->communicator()).send(idx,idx,p_imp_corr_table);
-          }
+          for (it = p_imp_corr_table.begin(); it != p_imp_corr_table.end();
+              it++) ids.push_back(it->first);
         } else {
           p_imp_corr_table.clear();
-          static_cast<boost::mpi::communicator>(
-              p_network->communicator()).recv(0,me,p_imp_corr_table);
+        }
+        boost::mpi::broadcast(bcomm, ids, 0);
+        int itab;
+        for (itab=0; itab<static_cast<int>(ids.size()); itab++) {
+          if (me != 0) {
+            p_imp_corr_table[ids[itab]].reset(
+                new gridpack::component::DataCollection);
+          }
+          boost::mpi::broadcast(bcomm, *p_imp_corr_table[ids[itab]], 0);
         }
       }
-#endif
       p_network->broadcastNetworkData(0);
       p_network_data = p_network->getNetworkData();
       p_timer->stop(t_case);
diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index 955c6f5..0f86e64 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -317,22 +317,29 @@ class PTI34_parser : public BasePTIParser<_network>
         stables =  p_imp_corr_table.size();
       }
       ierr = MPI_Allreduce(&stables, &ntables, 1, MPI_INT, MPI_SUM, comm);
-#if 0
       if (ntables > 0) {
         // distribute tables
+        boost::mpi::communicator bcomm
+          = p_network->communicator().getCommunicator();
+        std::vector<int> ids;
+        std::map<int, boost::shared_ptr<gridpack::component::DataCollection>
+          >::iterator it;
         if (me == 0) {
-          int idx;
-          for (idx=1; idx<nprocs; idx++) {
-            static_cast<boost::mpi::communicator>(
-                p_network->communicator()).send(idx,idx,p_imp_corr_table);
-          }
+          for (it = p_imp_corr_table.begin(); it != p_imp_corr_table.end();
+              it++) ids.push_back(it->first);
         } else {
           p_imp_corr_table.clear();
-          static_cast<boost::mpi::communicator>(
-              p_network->communicator()).recv(0,me,p_imp_corr_table);
+        }
+        boost::mpi::broadcast(bcomm, ids, 0);
+        int itab;
+        for (itab=0; itab<static_cast<int>(ids.size()); itab++) {
+          if (me != 0) {
+            p_imp_corr_table[ids[itab]].reset(
+                new gridpack::component::DataCollection);
+          }
+          boost::mpi::broadcast(bcomm, *p_imp_corr_table[ids[itab]], 0);
         }
       }
-#endif
       p_network->broadcastNetworkData(0);
       p_network_data = p_network->getNetworkData();
       p_timer->stop(t_case);
diff --git a/src/parser/PTI35_parser.hpp b/src/parser/PTI35_parser.hpp
index 6421221..d61abf4 100644
--- a/src/parser/PTI35_parser.hpp
+++ b/src/parser/PTI35_parser.hpp
@@ -317,22 +317,29 @@ class PTI35_parser : public BasePTIParser<_network>
         stables =  p_imp_corr_table.size();
       }
       ierr = MPI_Allreduce(&stables, &ntables, 1, MPI_INT, MPI_SUM, comm);
-#if 0
       if (ntables > 0) {
         // distribute tables
+        boost::mpi::communicator bcomm
+          = p_network->communicator().getCommunicator();
+        std::vector<int> ids;
+        std::map<int, boost::shared_ptr<gridpack::component::DataCollection>
+          >::iterator it;
         if (me == 0) {
-          int idx;
-          for (idx=1; idx<nprocs; idx++) {
-            static_cast<boost::mpi::communicator>(
-                p_network->communicator()).send(idx,idx,p_imp_corr_table);
-          }
+          for (it = p_imp_corr_table.begin(); it != p_imp_corr_table.end();
+              it++) ids.push_back(it->first);
         } else {
           p_imp_corr_table.clear();
-          static_cast<boost::mpi::communicator>(
-              p_network->communicator()).recv(0,me,p_imp_corr_table);
+        }
+        boost::mpi::broadcast(bcomm, ids, 0);
+        int itab;
+        for (itab=0; itab<static_cast<int>(ids.size()); itab++) {
+          if (me != 0) {
+            p_imp_corr_table[ids[itab]].reset(
+                new gridpack::component::DataCollection);
+          }
+          boost::mpi::broadcast(bcomm, *p_imp_corr_table[ids[itab]], 0);
         }
       }
-#endif
       p_network->broadcastNetworkData(0);
       p_network_data = p_network->getNetworkData();
       p_timer->stop(t_case);
-- 
2.43.0


From 6292c8eb4b3f0491da7bf2986bb301fb9638e251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 075/138] fix: distributeBranchValues leaves old branch indices
 if there are no values

---
 src/parser/hash_distr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/hash_distr.hpp b/src/parser/hash_distr.hpp
index d661ecc..7705ef3 100644
--- a/src/parser/hash_distr.hpp
+++ b/src/parser/hash_distr.hpp
@@ -1018,6 +1018,7 @@ public:
     if (total_values == 0) {
       delete [] sizes;
       delete [] mapc;
+      branch_ids.clear();
       return;
     }
 
@@ -1439,6 +1440,7 @@ public:
     if (total_values == 0) {
       delete [] sizes;
       delete [] mapc;
+      branch_ids.clear();
       return;
     }
 
-- 
2.43.0


From 899ea07f1da7352088ae7412155b4303c6ced6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 076/138] fix: headers of bus tables are not terminated on
 other processes

---
 src/parser/bus_table.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index 1258003..ed1e2cf 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -168,7 +168,7 @@ public:
       MPI_Bcast(hsize,nheaders,MPI_INT,0,mpi_comm);
       for (i=0; i<nheaders; i++) {
         char *str;
-        str = new char[hsize[i]];
+        str = new char[hsize[i]+1];
         int j;
         if (me == 0) {
           for (j=0; j<hsize[i]; j++) {
@@ -177,6 +177,7 @@ public:
         }
         MPI_Bcast(str,hsize[i],MPI_CHAR,0,mpi_comm);
         if (me != 0) {
+          str[hsize[i]] = '\0';
           p_headers.push_back(str);
         }
         delete [] str;
-- 
2.43.0


From 35caa29d57815a77d0810ced0ba0d0d113a86f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:00 +0000
Subject: [PATCH 077/138] fix: bus table is in an undefined state after a file
 could not be read

---
 src/parser/bus_table.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index ed1e2cf..2bbee26 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -60,6 +60,8 @@ public:
   {
     p_comm = p_network->communicator();
     p_has_data = false;
+    p_nobjs = 0;
+    p_nvals = 0;
   }
 
   // Default destructor
@@ -72,6 +74,12 @@ public:
   bool readTable(std::string &filename)
   {
     if (p_has_data) GA_Destroy(p_GA_data);
+    p_has_data = false;
+    p_nobjs = 0;
+    p_nvals = 0;
+    p_local_idx.clear();
+    p_tags.clear();
+    p_order.clear();
     int me = p_comm.rank();
     MPI_Comm mpi_comm = static_cast<MPI_Comm>(p_comm);
     p_GAgrp = p_comm.getGroup();
-- 
2.43.0


From 9c6ae3165e2f32ed4826398f0915149bb75a2454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 078/138] fix: bus tables lose or misread rows

---
 src/parser/bus_table.hpp | 65 ++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 43 deletions(-)

diff --git a/src/parser/bus_table.hpp b/src/parser/bus_table.hpp
index 2bbee26..0b74319 100644
--- a/src/parser/bus_table.hpp
+++ b/src/parser/bus_table.hpp
@@ -88,46 +88,34 @@ public:
     int nline = 0;
     gridpack::utility::StringUtils util;
     p_headers.clear();
+    std::vector<std::string> rows;
     if (me == 0) {
-      // Cheesy hack to find out how many lines are in the file. Just open
-      // the file and read all lines, then close it and open it again.
       std::ifstream input;
       input.open(filename.c_str());
       if (!input.is_open()) {
         std::cout<<"File "<<filename<<" not found by readTable"<<std::endl;
         ifound = 0;
       } else {
+        // leading comment lines are headers, later ones and blank lines are ignored
         std::string line;
-        // Check to see if any lines are comments
-        if (!std::getline(input,line).eof()) {
+        while (std::getline(input,line)) {
           util.trim(line);
-          bool found = true;
-          while (line[0] == '#') {
-            // Line is a comment. Store as a string for use elsewhere after
-            // removing the comment character (#)
-            line[0] = ' ';
-            util.trim(line);
-            p_headers.push_back(line);
-            found = !std::getline(input,line).eof();
-          }
-          if (found) {
-            util.trim(line);
-            std::vector<std::string> split_line;
-            boost::split(split_line,line,boost::algorithm::is_any_of(" "),
-                boost::token_compress_on);
-            nval = split_line.size() - 2;
-            if (nval > 0) {
-              nline = 1;
-              while(!std::getline(input,line).eof()) {
-                nline++;
-              }
-            } else {
-              ifound = 0;
+          if (line.empty()) continue;
+          if (line[0] == '#') {
+            if (rows.empty()) {
+              line[0] = ' ';
+              util.trim(line);
+              p_headers.push_back(line);
             }
+          } else {
+            rows.push_back(line);
           }
-        } else {
-          ifound = 0;
         }
+        if (!rows.empty()) {
+          nval = util.blankTokenizer(rows[0]).size() - 2;
+          nline = rows.size();
+        }
+        if (nval <= 0) ifound = 0;
       }
       input.close();
       // At this point, process 0 knows whether any data has been found,
@@ -209,19 +197,14 @@ public:
         // allocate local buffer for values
         double *buf = new double[NUM_SLICES*nval];
         double *ptr = buf;
-        std::ifstream input;
-        input.open(filename.c_str());
         std::vector<std::string> split_line;
-        std::string line;
-        while(!std::getline(input,line).eof()) {
-          while (line[0] == '#') {
-            // Line is a comment. Store as a string for use elsewhere after
-            // removing the comment character (#)
-            std::getline(input,line);
+        int irow;
+        for (irow=0; irow<nline; irow++) {
+          split_line = util.blankTokenizer(rows[irow]);
+          if (static_cast<int>(split_line.size()) < nval+2) {
+            printf("Mismatch parsing data in table %s\n",filename.c_str());
+            split_line.resize(nval+2);
           }
-          util.trim(line);
-          boost::split(split_line,line,boost::algorithm::is_any_of(" "),
-              boost::token_compress_on);
           table_t data;
           data.order = ncnt;
           std::string tag = split_line[1];
@@ -242,14 +225,10 @@ public:
             lo = ncnt*nval;
           }
         }
-        if (ncnt != nline) {
-          printf("Mismatch parsing data in table %s\n",filename.c_str());
-        }
         if (ncnt%NUM_SLICES != 0) {
           hi = nline*nval-1;
           NGA_Put(p_GA_data,&lo,&hi,buf,&nval);
         }
-        input.close();
         delete [] buf;
       }
       // Synchronize across all processors so data is in a consistent state
-- 
2.43.0


From 01ac501b8d490fe4676b69158e1af6da9d285bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:06 +0000
Subject: [PATCH 079/138] fix: quoted device tags are cut in StatBlock

---
 src/analysis/stat_block.cpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index 0475bb3..925618b 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -143,13 +143,7 @@ void stb::addRowLabels(std::vector<int> indices, std::vector<std::string> tags)
     stb::index_set tag;
     tag.gidx = i+1;
     tag.idx1 = indices[i];
-    std::string ctk;
-    if (tags[i].size() > 1) {
-      ctk = tags[i].substr(0,2);
-    } else {
-      ctk = tags[i];
-    }
-    util.clean2Char(ctk);
+    std::string ctk = util.clean2Char(tags[i]);
     strncpy(tag.tag,ctk.c_str(),2);
     tag.tag[2] = '\0';
     tagvec.push_back(tag);
@@ -190,13 +184,7 @@ void stb::addRowLabels(std::vector<int> idx1, std::vector<int> idx2,
     tag.gidx = i+1;
     tag.idx1 = idx1[i];
     tag.idx2 = idx2[i];
-    std::string ctk;
-    if (tags[i].size() > 1) {
-      ctk = tags[i].substr(0,2);
-    } else {
-      ctk = tags[i];
-    }
-    util.clean2Char(ctk);
+    std::string ctk = util.clean2Char(tags[i]);
     strncpy(tag.tag,ctk.c_str(),2);
     tag.tag[2] = '\0';
     tagvec.push_back(tag);
@@ -209,13 +197,7 @@ void stb::addRowLabels(std::vector<int> idx1, std::vector<int> idx2,
     tag.gidx = i+1;
     tag.idx1 = idx1[i];
     tag.idx2 = idx2[i];
-    std::string ctk;
-    if (tags[i].size() > 1) {
-      ctk = tags[i].substr(0,2);
-    } else {
-      ctk = tags[i];
-    }
-    util.clean2Char(ctk);
+    std::string ctk = util.clean2Char(tags[i]);
     strncpy(tag.tag,ctk.c_str(),2);
     tag.tag[2] = '\0';
     tagvec.push_back(tag);
-- 
2.43.0


From 0accf02b3d92a0b9ac0935db7f1320109e229ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 080/138] fix: StatBlock minimum and maximum include a masked
 base value

---
 src/analysis/stat_block.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index 925618b..e7545b5 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -507,17 +507,19 @@ void stb::writeMinAndMax(std::string filename, int mval, bool flag)
         double max = val_buf[idx];
         int jmin = 0;
         int jmax = 0;
+        bool found = false;
         for (j=0; j<p_ncols; j++) {
           idx = i*p_ncols+j;
           if (mask_buf[idx] >= mval) {
-            if (val_buf[idx] > max) {
+            if (!found || val_buf[idx] > max) {
               max = val_buf[idx];
               jmax = j;
             }
-            if (val_buf[idx] < min) {
+            if (!found || val_buf[idx] < min) {
               min = val_buf[idx];
               jmin = j;
             }
+            found = true;
           }
         }
         vbase.push_back(base);
-- 
2.43.0


From 9320cf6fe0db4a8561c59866036c6cec30b4993f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 081/138] fix: StatBlock labels and bounds added on other
 processes than 0 are ignored

---
 src/analysis/stat_block.cpp | 21 +++++++++++++++++++++
 src/analysis/stat_block.hpp |  6 ++++++
 2 files changed, 27 insertions(+)

diff --git a/src/analysis/stat_block.cpp b/src/analysis/stat_block.cpp
index e7545b5..6fd36bf 100644
--- a/src/analysis/stat_block.cpp
+++ b/src/analysis/stat_block.cpp
@@ -248,6 +248,24 @@ void stb::addRowMaxValue(std::vector<double> max)
   p_max_bound = true;
 }
 
+/**
+ * Labels and bounds can be added on any process. Make it known on all
+ * processes which ones are available
+ */
+void stb::shareFlags()
+{
+  int flags[3];
+  flags[0] = p_branch_flag ? 1 : 0;
+  flags[1] = p_min_bound ? 1 : 0;
+  flags[2] = p_max_bound ? 1 : 0;
+  char plus[2];
+  strcpy(plus,"+");
+  GA_Pgroup_igop(p_GAgrp,flags,3,plus);
+  p_branch_flag = flags[0] > 0;
+  p_min_bound = flags[1] > 0;
+  p_max_bound = flags[2] > 0;
+}
+
 /**
  * Write out file containing mean value and RMS deviation for values in table
  * @param filename name of file containing results
@@ -257,6 +275,7 @@ void stb::addRowMaxValue(std::vector<double> max)
 void stb::writeMeanAndRMS(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  shareFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
@@ -442,6 +461,7 @@ void stb::writeMeanAndRMS(std::string filename, int mval, bool flag)
 void stb::writeMinAndMax(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  shareFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
@@ -650,6 +670,7 @@ void stb::writeMinAndMax(std::string filename, int mval, bool flag)
 void stb::writeMaskValueCount(std::string filename, int mval, bool flag)
 {
   GA_Pgroup_sync(p_GAgrp);
+  shareFlags();
   int zero = 0;
   int one = 1;
   int two = 2;
diff --git a/src/analysis/stat_block.hpp b/src/analysis/stat_block.hpp
index 2ee178a..995563c 100644
--- a/src/analysis/stat_block.hpp
+++ b/src/analysis/stat_block.hpp
@@ -134,6 +134,12 @@ private:
   bool p_max_bound;
   bool p_min_bound;
   bool p_branch_flag;
+
+  /**
+   * Labels and bounds can be added on any process. Make it known on all
+   * processes which ones are available
+   */
+  void shareFlags();
    
   int p_nrows;
   int p_ncols;
-- 
2.43.0


From 23b746372450d3aed1fc352501c8eba69e98a3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:40 +0000
Subject: [PATCH 082/138] fix: flow in a line leaves out the shunts connected
 to the line

---
 .../y_matrix/ymatrix_components.cpp           | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/applications/components/y_matrix/ymatrix_components.cpp b/src/applications/components/y_matrix/ymatrix_components.cpp
index 6a30681..5ca573f 100644
--- a/src/applications/components/y_matrix/ymatrix_components.cpp
+++ b/src/applications/components/y_matrix/ymatrix_components.cpp
@@ -690,6 +690,16 @@ void gridpack::ymatrix::YMBranch::getLineElements(const std::string tag,
       *Yij = yij;
       *Yii = -((*Yij)-0.5*bij);
     }
+    // shunts connected to the line at this end
+    if (p_shunt[idx]) {
+      if (!p_switched[idx]) {
+        *Yii += gridpack::ComplexType(p_shunt_admt_g1[idx],
+            p_shunt_admt_b1[idx]);
+      } else {
+        *Yii += gridpack::ComplexType(p_shunt_admt_g2[idx],
+            p_shunt_admt_b2[idx]);
+      }
+    }
   }
 }
 
@@ -740,6 +750,16 @@ void gridpack::ymatrix::YMBranch::getRvrsLineElements(const std::string tag,
       *Yij = yij;
       *Yii = -((*Yij)-0.5*bij);
     }
+    // shunts connected to the line at this end
+    if (p_shunt[idx]) {
+      if (p_switched[idx]) {
+        *Yii += gridpack::ComplexType(p_shunt_admt_g1[idx],
+            p_shunt_admt_b1[idx]);
+      } else {
+        *Yii += gridpack::ComplexType(p_shunt_admt_g2[idx],
+            p_shunt_admt_b2[idx]);
+      }
+    }
   }
 }
 
-- 
2.43.0


From 850e058d9aaf22a292532ece079c7049426b678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 083/138] fix: state estimation evaluates branch measurements
 with wrong element admittances

---
 .../components/se_matrix/se_components.cpp    | 601 ++++--------------
 .../components/se_matrix/se_components.hpp    |  10 +
 2 files changed, 122 insertions(+), 489 deletions(-)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index eff37d3..047a83e 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -1474,32 +1474,11 @@ bool gridpack::state_estimation::SEBranch::serialWrite(char *string,
           }
           double estimate;
           buf[0] = '\0';
-          if (meas_type == "PIJ") {
-            s = getComplexPower(p_meas[i].p_ckt);
-            estimate = real(s)/p_sbase;
+          double deriv[4];
+          if (evaluateFlow(p_meas[i],&estimate,deriv)) {
             sprintf(buf,"    %s  %8d  %8d   %s %16.5f  %16.5f   %16.5f    %8.4f\n",
-              type.c_str(),bus1->getOriginalIndex(),bus2->getOriginalIndex(),ckt.c_str(),
+              type.c_str(),p_meas[i].p_fbusid,p_meas[i].p_tbusid,ckt.c_str(),
               p_meas[i].p_value, estimate, estimate-p_meas[i].p_value,p_meas[i].p_deviation);
-          } else if (meas_type == "QIJ") {
-            s = getComplexPower(p_meas[i].p_ckt);
-            estimate = imag(s)/p_sbase;
-            sprintf(buf,"    %s  %8d  %8d   %s %16.5f  %16.5f   %16.5f    %8.4f\n",
-              type.c_str(),bus1->getOriginalIndex(),bus2->getOriginalIndex(),ckt.c_str(),
-              p_meas[i].p_value, estimate, estimate-p_meas[i].p_value,p_meas[i].p_deviation);
-          } else if (meas_type == "IIJ") {
-          } else if (meas_type == "PJI") {
-            s = getRvrsComplexPower(p_meas[i].p_ckt);
-            estimate = real(s)/p_sbase;
-            sprintf(buf,"    %s  %8d  %8d   %s %16.5f  %16.5f   %16.5f    %8.4f\n",
-              type.c_str(),bus1->getOriginalIndex(),bus2->getOriginalIndex(),ckt.c_str(),
-              p_meas[i].p_value, estimate, estimate-p_meas[i].p_value,p_meas[i].p_deviation);
-          } else if (meas_type == "QJI") {
-            s = getRvrsComplexPower(p_meas[i].p_ckt);
-            estimate = imag(s)/p_sbase;
-            sprintf(buf,"    %s  %8d  %8d   %s %16.5f  %16.5f   %16.5f    %8.4f\n",
-                type.c_str(),bus1->getOriginalIndex(),bus2->getOriginalIndex(),ckt.c_str(),
-                p_meas[i].p_value, estimate, estimate-p_meas[i].p_value,p_meas[i].p_deviation);
-          } else if (meas_type == "IJI") {
           }
           int buflen = strlen(buf);
           if (buflen + ilen < bufsize) {
@@ -1785,347 +1764,31 @@ void gridpack::state_estimation::SEBranch::matrixGetValues(ComplexType *values,
   if (p_mode == Jacobian_H) {
     int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
     int ncnt = 0;
-    int i, j, im, jm, nsize;
-    double v1, v2, theta;
-    double t,gij,bij,shifter; 
-    std::string ckt, type;
-
-    v1 = bus1->getVoltage();
-    v2 = bus2->getVoltage();
-    double gs1, bs1, gs2, bs2;
-    bus1->getShuntGsBs(&gs1,&bs1);
-    bus2->getShuntGsBs(&gs2,&bs2);
-    theta = bus1->getPhase() - bus2->getPhase();  
-    //    int ref = getRef(this);
-
+    int i, k, im, jm;
     for (i=0; i<nmeas; i++) {
       im = matrixGetRowIndex(i);
-      ckt = p_meas[i].p_ckt;
-      type = p_meas[i].p_type;
-      bool found = false;
-      if (type == "PIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*sin(theta+shifter)
-                    -bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(theta+shifter)
-                  +bij*sin(theta+shifter)) +2*(gij+gs1)*v1/(t*t),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*sin(theta+shifter)
-                    -bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(theta+shifter)
-                    +bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(theta+shifter)
-                    +bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "QIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*cos(theta+shifter)
-                     + bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij * sin(theta+shifter)
-                    - bij*cos(theta+shifter))-2/(t*t)*(bij+B)*v1,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij * sin(theta+shifter)
-                    - bij*cos(theta+shifter))-2/(t*t)*(bij+B)*v1,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*cos(theta+shifter)
-                    + bij*sin(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(theta+shifter)
-                    - bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(theta+shifter)
-                    - bij*cos(theta+shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "IIJ") {  // Need more work to support transformer 
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            double Iij = sqrt((gij*gij+bij*bij) *(v1*v1+v2*v2-2*v1*v2*cos(theta))); 
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dIIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v1-v2*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType(-(gij*gij
-                    +bij*bij)*v1*v2*sin(theta)/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dIIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              if (p_tap_ratio[j] != 0.0) {
-                gridpack::ComplexType a(cos(p_phase_shift[j]),sin(p_phase_shift[j]));
-                a = p_tap_ratio[j]*a;
-                ret = ret/(conj(a)*a);
-                gij=real(ret);
-                bij=imag(ret);
-              }
-              values[ncnt] = gridpack::ComplexType((gij*gij
-                    +bij*bij)*(v2-v1*cos(theta))/Iij,0.0);  
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "PJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*sin(-theta-shifter)
-                    -bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(-theta-shifter)
-                  +bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*cos(-theta-shifter)
-                  +bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*sin(-theta-shifter)
-                    -bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dPIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*cos(-theta-shifter)
-                    +bij*sin(-theta-shifter))+2*(gij+gs2)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
-        }
-      } else if (type == "QJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == ckt && p_active) {
-            found = true;
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            if (!bus1->getReferenceBus()) {
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(1.0/t*v1*v2*(gij*cos(-theta-shifter)
-                     + bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus1->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVI
-              jm = bus1->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v2*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-            if (!bus2->getReferenceBus()) {
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*v2*(gij*cos(-theta-shifter)
-                    + bij*sin(-theta-shifter)),0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-              jm = bus2->matrixGetColIndex(1);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter))-2*(bij+B)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            } else {  // reference bus, only for dQIJ/DVJ
-              jm = bus2->matrixGetColIndex(0);
-              values[ncnt] = gridpack::ComplexType(-1.0/t*v1*(gij*sin(-theta-shifter)
-                    - bij*cos(-theta-shifter))-2*(bij+B)*v2,0.0);
-              rows[ncnt] = im;
-              cols[ncnt] = jm;
-              ncnt++;
-            }
-          } 
+      // derivatives with respect to phase and magnitude of bus 1 and bus 2
+      double value, deriv[4];
+      bool found = evaluateFlow(p_meas[i],&value,deriv);
+      if (found) {
+        SEBus *bus = bus1;
+        for (k=0; k<2; k++) {
+          if (!bus->getReferenceBus()) {
+            jm = bus->matrixGetColIndex(0);
+            values[ncnt] = gridpack::ComplexType(deriv[2*k],0.0);
+            rows[ncnt] = im;
+            cols[ncnt] = jm;
+            ncnt++;
+            jm = bus->matrixGetColIndex(1);
+          } else {
+            jm = bus->matrixGetColIndex(0);
+          }
+          values[ncnt] = gridpack::ComplexType(deriv[2*k+1],0.0);
+          rows[ncnt] = im;
+          cols[ncnt] = jm;
+          ncnt++;
+          bus = bus2;
         }
-      } else if (type == "IJI") {  // TO DO
       }
       if (!found) {
         printf("No match found for branch measurement\n   type: %s\n"
@@ -2222,139 +1885,99 @@ void gridpack::state_estimation::SEBranch:: vectorGetElementValues(ComplexType *
     ok = ok && !bus2->isIsolated();
     if (ok) {
     int nmeas = p_meas.size(); // Suppose p_meas is the vector of all the measurements on this branch
-    int ncnt = 0;
-    int i, j, im, jm, nsize;
-    double ret1=0.0;
-    double ret2=0.0;
-    double ret3=0.0;
-    double v1=0.0;
-    double v2=0.0;
-    double theta=0.0;
+    int i;
     vectorGetElementIndices(idx);
-    v1 = bus1->getVoltage();
-    v2 = bus2->getVoltage();
-    theta = bus1->getPhase() - bus2->getPhase();  
     for (i=0; i<nmeas; i++) {
-      std::string type = p_meas[i].p_type;
-      int idx1, idx2;
-      double gij,bij,t,shifter;
-      idx1 = getBus1OriginalIndex();
-      idx2 = getBus2OriginalIndex();
-      gridpack::ComplexType a(1.0,0.0);
-//      printf("branch %d %d type: %s row: %d\n",idx1,idx2,type.c_str(),idx[i]);
-      if (type == "PIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret1 =  v1*v1*gij/(t*t) - 1.0/t*v1*v2*(gij*cos(theta+shifter) + bij*sin(theta+shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
-        ncnt++;
-      } else if (type == "QIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret2 = - v1*v1* (bij+B)/(t*t) - 1.0/t*v1*v2*(gij*sin(theta+shifter) - bij*cos(theta+shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
-        ncnt++;
-      } else if (type == "IIJ") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret1 =  v1*v1*gij/(t*t) - 1.0/t*v1*v2*(gij*cos(theta+shifter) + bij*sin(theta+shifter));
-            ret2 = - v1*v1* (bij+B)/(t*t) - 1.0/t*v1*v2*(gij*sin(theta+shifter) - bij*cos(theta+shifter));
-          }
-        }
-        ret3 = sqrt(ret1*ret1+ret2*ret2)/v1;
-        //         values[ncnt] = p_meas[i].p_value-ret;
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret3),0.0);
-        ncnt++;
-      } else if (type == "PJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret1 =  v2*v2*gij - 1.0/t*v1*v2*(gij*cos(-theta-shifter) + bij*sin(-theta-shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret1),0.0);
-        ncnt++;
-      } else if (type == "QJI") {
-        int nsize = p_tag.size();
-        for (j=0; j<nsize; j++) {
-          if (p_tag[j] == p_meas[i].p_ckt) {
-            gridpack::ComplexType ret(p_resistance[j],p_reactance[j]);
-            double B=0.5*p_charging[j];
-            ret = 1.0/ret;
-            gij=real(ret);
-            bij=imag(ret);
-            if (p_tap_ratio[j] != 0.0) {
-              shifter=p_phase_shift[j];
-              t = p_tap_ratio[j];
-            } else {
-              shifter=0.0;
-              t=1.0;
-            }
-            ret2 = - v2*v2* (bij+B) - 1.0/t*v1*v2*(gij*sin(-theta-shifter) - bij*cos(-theta-shifter));
-          }
-        }
-        values[ncnt] = gridpack::ComplexType(static_cast<double>(p_meas[i].p_value-ret2),0.0);
-        ncnt++;
-      } else if (type == "IJI") { //to do
-      }
-    } 
+      double value, deriv[4];
+      evaluateFlow(p_meas[i],&value,deriv);
+      values[i] = gridpack::ComplexType(p_meas[i].p_value-value,0.0);
+    }
     }
   } else if (p_mode == R_inv) {
   }
 }
+/**
+ * Evaluate the quantity that is measured on one line element, using the same
+ * line elements that go into the Y-matrix
+ * @param meas measurement on this branch
+ * @param value value of measured quantity for current voltages
+ * @param deriv derivatives of value with respect to phase angle and voltage
+ * magnitude on bus 1 and phase angle and voltage magnitude on bus 2
+ * @return false if measured quantity is not defined on this branch
+ */
+bool gridpack::state_estimation::SEBranch::evaluateFlow(
+    const gridpack::state_estimation::Measurement &meas, double *value,
+    double *deriv)
+{
+  int i;
+  *value = 0.0;
+  for (i=0; i<4; i++) deriv[i] = 0.0;
+  std::string type = meas.p_type;
+  std::string tag = meas.p_ckt;
+  bool from = (type == "PIJ" || type == "QIJ" || type == "IIJ");
+  if (!from && type != "PJI" && type != "QJI" && type != "IJI") return false;
+  int nsize = p_tag.size();
+  int elem = -1;
+  for (i=0; i<nsize && elem == -1; i++) {
+    if (p_tag[i] == tag) elem = i;
+  }
+  if (elem == -1) return false;
+  // No flow through elements that are out of service
+  if (!p_branch_status[elem]) return true;
+  // Buses in the measurement may be listed in the opposite order
+  if (meas.p_fbusid != getBus1OriginalIndex()) from = !from;
+
+  gridpack::state_estimation::SEBus *bus1 =
+    dynamic_cast<gridpack::state_estimation::SEBus*>(getBus1().get());
+  gridpack::state_estimation::SEBus *bus2 =
+    dynamic_cast<gridpack::state_estimation::SEBus*>(getBus2().get());
+  gridpack::ComplexType vi, vj, Yii, Yij;
+  double vmi, vmj;
+  if (from) {
+    getLineElements(tag,&Yii,&Yij);
+    vi = bus1->getComplexVoltage();
+    vj = bus2->getComplexVoltage();
+    vmi = bus1->getVoltage();
+    vmj = bus2->getVoltage();
+  } else {
+    getRvrsLineElements(tag,&Yii,&Yij);
+    vi = bus2->getComplexVoltage();
+    vj = bus1->getComplexVoltage();
+    vmi = bus2->getVoltage();
+    vmj = bus1->getVoltage();
+  }
+  gridpack::ComplexType jay(0.0,1.0);
+  // d contains derivatives with respect to phase and magnitude at near end and
+  // phase and magnitude at far end
+  double d[4];
+  if (type == "IIJ" || type == "IJI") {
+    gridpack::ComplexType current = Yii*vi+Yij*vj;
+    *value = abs(current);
+    if (*value == 0.0) return true;
+    gridpack::ComplexType unit = conj(current)/(*value);
+    d[0] = real(unit*jay*Yii*vi);
+    d[1] = real(unit*Yii*vi/vmi);
+    d[2] = real(unit*jay*Yij*vj);
+    d[3] = real(unit*Yij*vj/vmj);
+  } else {
+    gridpack::ComplexType sii = vi*conj(Yii*vi);
+    gridpack::ComplexType sij = vi*conj(Yij*vj);
+    gridpack::ComplexType ds[4];
+    ds[0] = jay*sij;
+    ds[1] = (2.0*sii+sij)/vmi;
+    ds[2] = -jay*sij;
+    ds[3] = sij/vmj;
+    bool active = (type == "PIJ" || type == "PJI");
+    *value = active ? real(sii+sij) : imag(sii+sij);
+    for (i=0; i<4; i++) d[i] = active ? real(ds[i]) : imag(ds[i]);
+  }
+  for (i=0; i<2; i++) {
+    deriv[i] = from ? d[i] : d[i+2];
+    deriv[i+2] = from ? d[i+2] : d[i];
+  }
+  return true;
+}
+
 /**
  * Return contribution to constraints
  * @param p: real part of constraint
diff --git a/src/applications/components/se_matrix/se_components.hpp b/src/applications/components/se_matrix/se_components.hpp
index 0646b1f..c1ed9a1 100644
--- a/src/applications/components/se_matrix/se_components.hpp
+++ b/src/applications/components/se_matrix/se_components.hpp
@@ -487,6 +487,16 @@ class SEBranch
      **/
     gridpack::ComplexType getRvrsComplexPower(std::string tag);
 
+    /**
+     * Evaluate the quantity that is measured on one line element
+     * @param meas measurement on this branch
+     * @param value value of measured quantity for current voltages
+     * @param deriv derivatives of value with respect to phase angle and voltage
+     * magnitude on bus 1 and phase angle and voltage magnitude on bus 2
+     * @return false if measured quantity is not defined on this branch
+     */
+    bool evaluateFlow(const Measurement &meas, double *value, double *deriv);
+
     /**
      * Add a measurement to the branch
      * @param measurement a measurement struct that will be used to assign
-- 
2.43.0


From 504c2e8d9d6f980dc90f4f51ca6eb82d5bbf226d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 084/138] fix: one character circuit names of branch
 measurements match no line

---
 .../modules/state_estimation/se_app_module.cpp       | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 75bb4aa..c371417 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -27,6 +27,7 @@
 #include "gridpack/mapper/gen_vector_map.hpp"
 #include "gridpack/mapper/bus_vector_map.hpp"
 #include "gridpack/math/math.hpp"
+#include "gridpack/utilities/string_utils.hpp"
 #include "se_app_module.hpp"
 
 // Calling program for state estimation application
@@ -72,6 +73,7 @@ std::vector<gridpack::state_estimation::Measurement>
         measurements[idx]->get("Bus", &busid);
         gridpack::state_estimation::Measurement measurement;
         strcpy(measurement.p_type,meas_type.c_str());
+        measurement.p_ckt[0] = '\0';
         measurement.p_busid = busid;
         measurement.p_value = meas_value;
         measurement.p_deviation = meas_deviation;
@@ -87,15 +89,15 @@ std::vector<gridpack::state_estimation::Measurement>
         measurements[idx]->get("ToBus", &tbusid);
         std::string ckt;
         measurements[idx]->get("CKT", &ckt);
-        // Fix up tag so that single character tags are right-justified
-        if (ckt.length() == 1) {
-          ckt.insert(0,1,' ');
-        }
+        // Fix up tag so that it has the same form as the tags in the network
+        gridpack::utility::StringUtils util;
+        ckt = util.clean2Char(ckt);
         gridpack::state_estimation::Measurement measurement;
         strcpy(measurement.p_type,meas_type.c_str());
         measurement.p_fbusid = fbusid;
         measurement.p_tbusid = tbusid;
-        strcpy(measurement.p_ckt,ckt.c_str());
+        strncpy(measurement.p_ckt,ckt.c_str(),2);
+        measurement.p_ckt[2] = '\0';
         measurement.p_value = meas_value;
         measurement.p_deviation = meas_deviation;
         //printf("%s %d %d %s %f %f\n", measurement.p_type.c_str(), measurement.p_fbusid,
-- 
2.43.0


From d56d0d85c4eccd1733446e2a9b964cb669f28f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 085/138] fix: state estimation on a sub-communicator reads
 measurements on the world communicator

---
 src/applications/modules/state_estimation/se_app_module.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index c371417..12beaf8 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -125,7 +125,6 @@ void gridpack::state_estimation::SEAppModule::readNetwork(
     boost::shared_ptr<SENetwork> &network,
     gridpack::utility::Configuration *config)
 {
-  gridpack::parallel::Communicator p_comm;
   p_network = network;
   p_config = config;
   p_comm = network->communicator();
@@ -199,7 +198,6 @@ void gridpack::state_estimation::SEAppModule::setNetwork(
     boost::shared_ptr<SENetwork> &network,
     gridpack::utility::Configuration *config)
 {
-  gridpack::parallel::Communicator p_comm;
   p_network = network;
   p_config = config;
   p_comm = network->communicator();
-- 
2.43.0


From 78a6e59077e114a86a0eea4954a0ef5bb65543ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 086/138] fix: branch measurements that name the buses in the
 opposite order are lost

---
 .../modules/state_estimation/se_factory_module.cpp          | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/applications/modules/state_estimation/se_factory_module.cpp b/src/applications/modules/state_estimation/se_factory_module.cpp
index a04cf5f..13e3045 100644
--- a/src/applications/modules/state_estimation/se_factory_module.cpp
+++ b/src/applications/modules/state_estimation/se_factory_module.cpp
@@ -93,6 +93,12 @@ void gridpack::state_estimation::SEFactoryModule::setMeasurements(
       idx2 = measurements[i].p_tbusid;
       key = std::pair<int,int>(idx1,idx2);
       branch_keys.push_back(key);
+      // branch may be defined with the buses in the opposite order
+      if (idx1 != idx2) {
+        branch_meas.push_back(measurements[i]);
+        key = std::pair<int,int>(idx2,idx1);
+        branch_keys.push_back(key);
+      }
     }
   }
   gridpack::hash_distr::HashDistribution<SENetwork,Measurement,Measurement>
-- 
2.43.0


From b3589040c34946221aad7d178cb9120ebe876304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 087/138] fix: measurements at isolated buses put undefined
 rows into the estimation

---
 .../modules/state_estimation/se_factory_module.cpp   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/applications/modules/state_estimation/se_factory_module.cpp b/src/applications/modules/state_estimation/se_factory_module.cpp
index 13e3045..96933f2 100644
--- a/src/applications/modules/state_estimation/se_factory_module.cpp
+++ b/src/applications/modules/state_estimation/se_factory_module.cpp
@@ -106,7 +106,10 @@ void gridpack::state_estimation::SEFactoryModule::setMeasurements(
   distr.distributeBusValues(bus_keys,bus_meas);
   int nsize = bus_keys.size();
   for (i=0; i<nsize; i++) {
-    p_network->getBus(bus_keys[i])->addMeasurement(bus_meas[i]);
+    // nothing can be measured at buses that are not part of the system
+    if (!p_network->getBus(bus_keys[i])->isIsolated()) {
+      p_network->getBus(bus_keys[i])->addMeasurement(bus_meas[i]);
+    }
   }
   bus_keys.clear();
   bus_meas.clear();
@@ -114,7 +117,12 @@ void gridpack::state_estimation::SEFactoryModule::setMeasurements(
   branch_keys.clear();
   nsize = branch_ids.size();
   for (i=0; i<nsize; i++) {
-    p_network->getBranch(branch_ids[i])->addMeasurement(branch_meas[i]);
+    SEBranch *branch = p_network->getBranch(branch_ids[i]).get();
+    SEBus *bus1 = dynamic_cast<SEBus*>(branch->getBus1().get());
+    SEBus *bus2 = dynamic_cast<SEBus*>(branch->getBus2().get());
+    if (!bus1->isIsolated() && !bus2->isIsolated()) {
+      branch->addMeasurement(branch_meas[i]);
+    }
   }
   branch_ids.clear();
   branch_meas.clear();
-- 
2.43.0


From da7ef33526bb659b7581b769e5ce694b679320f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:41 +0000
Subject: [PATCH 088/138] fix: phase angle measurements are missing in the
 comparison of measurements and estimates

---
 src/applications/components/se_matrix/se_components.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 047a83e..09d5441 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -489,6 +489,11 @@ bool gridpack::state_estimation::SEBus::serialWrite(char *string,
           sprintf(buf,"    %s %8d    %16.5f  %16.5f   %16.5f    %8.4f\n",
               type.c_str(),getOriginalIndex(),p_meas[i].p_value, estimate,
               estimate-p_meas[i].p_value,p_meas[i].p_deviation);
+        } else if (meas_type == "VA") {
+          estimate = p_a;
+          sprintf(buf,"    %s %8d    %16.5f  %16.5f   %16.5f    %8.4f\n",
+              type.c_str(),getOriginalIndex(),p_meas[i].p_value, estimate,
+              estimate-p_meas[i].p_value,p_meas[i].p_deviation);
         }
         int buflen = strlen(buf);
         if (buflen + ilen < bufsize) {
-- 
2.43.0


From 02445e399f083e0474cf2737f8d7b3341cbd88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:19 +0000
Subject: [PATCH 089/138] fix: measurements that do not fit into the output
 buffer are left out of the comparison

---
 .../modules/state_estimation/se_app_module.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/applications/modules/state_estimation/se_app_module.cpp b/src/applications/modules/state_estimation/se_app_module.cpp
index 12beaf8..f00debe 100644
--- a/src/applications/modules/state_estimation/se_app_module.cpp
+++ b/src/applications/modules/state_estimation/se_app_module.cpp
@@ -421,6 +421,24 @@ void gridpack::state_estimation::SEAppModule::write(void)
 //  p_branchIO->write();
 
 
+  // make sure that all measurements on a bus or branch fit into the IO buffers
+  int i;
+  int bufsize = 1024;
+  const int line = 128;
+  for (i=0; i<p_network->numBuses(); i++) {
+    int nsize = line*(p_network->getBus(i)->matrixNumRows()+1);
+    if (nsize > bufsize) bufsize = nsize;
+  }
+  for (i=0; i<p_network->numBranches(); i++) {
+    int nsize = line*(p_network->getBranch(i)->matrixNumRows()+1);
+    if (nsize > bufsize) bufsize = nsize;
+  }
+  p_comm.max(&bufsize,1);
+  if (bufsize > 1024) {
+    p_busIO.reset(new gridpack::serial_io::SerialBusIO<SENetwork>(bufsize, p_network));
+    p_branchIO.reset(new gridpack::serial_io::SerialBranchIO<SENetwork>(bufsize, p_network));
+  }
+
   p_busIO->header("\n   State Estimation Outputs\n");
   p_busIO->header("\n   Bus Number      Phase Angle      Voltage Magnitude\n");
   p_busIO->write();
-- 
2.43.0


From 49352a61e5eac465b7a733193be2073f2cbda11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 090/138] fix: injection measurements next to an isolated bus
 put undefined values into the estimation

---
 src/applications/components/se_matrix/se_components.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/applications/components/se_matrix/se_components.cpp b/src/applications/components/se_matrix/se_components.cpp
index 09d5441..efada95 100644
--- a/src/applications/components/se_matrix/se_components.cpp
+++ b/src/applications/components/se_matrix/se_components.cpp
@@ -594,6 +594,8 @@ void gridpack::state_estimation::SEBus::configureSE(void)
           = dynamic_cast<SEBranch*>(branch_nghbrs[j].get());
         SEBus *bus = dynamic_cast<SEBus*>(branch->getBus1().get());
         if (bus == this) bus = dynamic_cast<SEBus*>(branch->getBus2().get());
+        // isolated buses do not contribute
+        if (isIsolated() || bus->isIsolated()) continue;
         if (!bus->getReferenceBus()) {
           ncnt += 2;
         } else {
@@ -1080,6 +1082,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
             yfbusr = real (yfbus);
             yfbusi = imag (yfbus);
           }
+          if (dynamic_cast<SEBus*>(branch->getBus1().get())->isIsolated() ||
+              dynamic_cast<SEBus*>(branch->getBus2().get())->isIsolated()) continue;
            branch->getVTheta(this, &v, &theta);
            ret +=  v * (yfbusr*cos(theta) + yfbusi*sin(theta));
          }
@@ -1107,6 +1111,8 @@ void gridpack::state_estimation::SEBus:: vectorGetElementValues(ComplexType *val
             yfbusr = real (yfbus);
             yfbusi = imag (yfbus);
           }
+          if (dynamic_cast<SEBus*>(branch->getBus1().get())->isIsolated() ||
+              dynamic_cast<SEBus*>(branch->getBus2().get())->isIsolated()) continue;
            branch->getVTheta(this,&v,&theta);
            ret +=  v * (yfbusr*sin(theta) - yfbusi*cos(theta));
          }
-- 
2.43.0


From 0291890a6dd6368517145e470fa9eeaf4643debf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:16 +0000
Subject: [PATCH 091/138] fix: mappers abort if a process without buses or
 branches precedes one that has some

---
 src/mapper/full_map.hpp       | 2 --
 src/mapper/gen_matrix_map.hpp | 4 ----
 src/mapper/gen_slab_map.hpp   | 2 --
 src/mapper/gen_vector_map.hpp | 2 --
 4 files changed, 10 deletions(-)

diff --git a/src/mapper/full_map.hpp b/src/mapper/full_map.hpp
index 53318db..553bd5e 100644
--- a/src/mapper/full_map.hpp
+++ b/src/mapper/full_map.hpp
@@ -843,7 +843,6 @@ void setupOffsetArrays()
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(gaOffsetI);
 
   gaOffsetJ = GA_Create_handle();
   GA_Set_data(gaOffsetJ, one, &arrayDim, C_INT);
@@ -855,7 +854,6 @@ void setupOffsetArrays()
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(gaOffsetJ);
 
   // Evaluate offsets for this processor
   int *iOffsets = new int[nRows]; 
diff --git a/src/mapper/gen_matrix_map.hpp b/src/mapper/gen_matrix_map.hpp
index 000ade3..20d54b6 100644
--- a/src/mapper/gen_matrix_map.hpp
+++ b/src/mapper/gen_matrix_map.hpp
@@ -410,7 +410,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_bus_row_offsets);
 
   g_bus_column_offsets = GA_Create_handle();
   GA_Set_data(g_bus_column_offsets, one, &bus_dim, C_INT);
@@ -422,7 +421,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_bus_column_offsets);
 
   g_branch_row_offsets = GA_Create_handle();
   GA_Set_data(g_branch_row_offsets, one, &branch_dim, C_INT);
@@ -434,7 +432,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_branch_row_offsets);
 
   g_branch_column_offsets = GA_Create_handle();
   GA_Set_data(g_branch_column_offsets, one, &branch_dim, C_INT);
@@ -446,7 +443,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_branch_column_offsets);
 
   delete [] busMap;
   delete [] branchMap;
diff --git a/src/mapper/gen_slab_map.hpp b/src/mapper/gen_slab_map.hpp
index 7bfa9b8..28e18f7 100644
--- a/src/mapper/gen_slab_map.hpp
+++ b/src/mapper/gen_slab_map.hpp
@@ -484,7 +484,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_bus_offsets);
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &branch_dim, C_INT);
@@ -496,7 +495,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_branch_offsets);
 
   delete [] busMap;
   delete [] branchMap;
diff --git a/src/mapper/gen_vector_map.hpp b/src/mapper/gen_vector_map.hpp
index a9e5e33..efd36fa 100644
--- a/src/mapper/gen_vector_map.hpp
+++ b/src/mapper/gen_vector_map.hpp
@@ -366,7 +366,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_bus_offsets);
 
   g_branch_offsets = GA_Create_handle();
   GA_Set_data(g_branch_offsets, one, &branch_dim, C_INT);
@@ -378,7 +377,6 @@ void setOffsets(void)
     printf("%s",buf);
     throw gridpack::Exception(buf);
   }
-  GA_Zero(g_branch_offsets);
 
   delete [] busMap;
   delete [] branchMap;
-- 
2.43.0


From 524349fde2f41f0520495ba0a0a339e0b6d60bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 092/138] fix: branches connected to a bus are looked up with
 the wrong kind of index

---
 src/analysis/network_analytics.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/analysis/network_analytics.hpp b/src/analysis/network_analytics.hpp
index 4b6a735..6644689 100644
--- a/src/analysis/network_analytics.hpp
+++ b/src/analysis/network_analytics.hpp
@@ -251,9 +251,7 @@ template <class _network> class NetworkAnalytics {
     int lidx(p_localFromGlobalBusIndex(bus_idx));
 
     if (lidx >= 0) {
-      typename NetworkType::BusPtr thebus(p_network->getBus(lidx));
-      int oidx(thebus->getOriginalIndex());
-      std::vector<int> lbranchi(p_network->getConnectedBranches(oidx));
+      std::vector<int> lbranchi(p_network->getConnectedBranches(lidx));
       for (auto ibr : lbranchi) {
         result.push_back(p_network->getGlobalBranchIndex(ibr));
       }
-- 
2.43.0


From 4e88118488ce8482988a4b00ed3257ba29510c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 093/138] fix: end points of a branch are those of another
 branch or throw on some processes

---
 src/analysis/network_analytics.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/analysis/network_analytics.hpp b/src/analysis/network_analytics.hpp
index 6644689..05af11d 100644
--- a/src/analysis/network_analytics.hpp
+++ b/src/analysis/network_analytics.hpp
@@ -276,12 +276,12 @@ template <class _network> class NetworkAnalytics {
   void getBranchEndpoints(const int& idx, int *fbus, int *tbus) const
   {
     int fresult(0), tresult(0);
-    int lbranchidx = p_network->getOriginalBranchIndex(idx);
+    int lidx(p_localFromGlobalBranchIndex(idx));
 
-    if (lbranchidx >= 0) {
-      if (p_network->getActiveBranch(lbranchidx)) {
-        p_network->getOriginalBranchEndpoints(lbranchidx, &fresult, &tresult);
-      }
+    if (lidx >= 0) {
+      typename NetworkType::BranchPtr thebranch(p_network->getBranch(lidx));
+      fresult = thebranch->getBus1GlobalIndex();
+      tresult = thebranch->getBus2GlobalIndex();
     }
     p_network->communicator().sum(&fresult, 1);
     p_network->communicator().sum(&tresult, 1);
-- 
2.43.0


From d454ad997956304e1296e9eca3add611b46fafbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 094/138] fix: time series of generators are mapped to the
 wrong generators

---
 .../dsf_app_module.cpp                        | 42 +++++++------------
 1 file changed, 16 insertions(+), 26 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
index cbc3be8..0318678 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module.cpp
@@ -1701,33 +1701,23 @@ std::vector<int> gridpack::dynamic_simulation::DSFullApp::getTimeSeriesMap()
 {
   std::vector<int> ret;
   if (p_save_time_series) {
-    std::vector<int> orig_idx;
-    std::vector<std::string> tags;
-    int nbus = p_network->numBuses();
-    int i, j;
-    int icnt = 0;
-    gridpack::dynamic_simulation::DSFullBus *bus;
+    // The time series are stored in the order of p_gen_buses (see saveTimeStep)
+    int nbus = p_gen_buses.size();
+    int i;
     for (i=0; i<nbus; i++) {
-      if (p_network->getActiveBus(i)) {
-        bus = dynamic_cast<gridpack::dynamic_simulation::DSFullBus*>
-          (p_network->getBus(i).get());
-        std::vector<std::string> watched = bus->getWatchedGenerators();
-        for (j=0; j<watched.size(); j++) {
-          std::pair<int,std::string> gen
-            = std::pair<int,std::string>(bus->getOriginalIndex(),watched[j]);
-          std::map<std::pair<int,std::string>,int>::iterator it;
-          it = p_watch_list.find(gen);
-          if (it != p_watch_list.end()) {
-            ret.push_back(4*(it->second));
-            ret.push_back(4*(it->second)+1);
-            ret.push_back(4*(it->second)+2);
-            ret.push_back(4*(it->second)+3);
-          } else {
-            printf("Could not find generator %s on bus %d\n",
-                watched[j].c_str(),bus->getOriginalIndex());
-          }
-          icnt++;
-        }
+      int bus_id = p_network->getOriginalBusIndex(p_gen_buses[i]);
+      std::pair<int,std::string> gen
+        = std::pair<int,std::string>(bus_id,p_gen_ids[i]);
+      std::map<std::pair<int,std::string>,int>::iterator it;
+      it = p_watch_list.find(gen);
+      if (it != p_watch_list.end()) {
+        ret.push_back(4*(it->second));
+        ret.push_back(4*(it->second)+1);
+        ret.push_back(4*(it->second)+2);
+        ret.push_back(4*(it->second)+3);
+      } else {
+        printf("Could not find generator %s on bus %d\n",
+            p_gen_ids[i].c_str(),bus_id);
       }
     }
   }
-- 
2.43.0


From 6feaaae85712466b47a5a8d78cd60ba99ea36287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:57 +0000
Subject: [PATCH 095/138] fix: line status events crash processes that do not
 hold the line

---
 .../dynamic_simulation_full_y/dsf_app_module2.cpp     | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
index 09bc6cd..165925f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_app_module2.cpp
@@ -360,11 +360,14 @@ void gridpack::dynamic_simulation::DSFullApp::setLineStatus(int from_idx, int to
   vec_branchintidx = p_network->getLocalBranchIndices(from_idx,to_idx);
   int ibr, nbr;
   gridpack::dynamic_simulation::DSFullBranch *pbranch;	
+  // The branch may not be on this process
   nbr = vec_branchintidx.size();
-  pbranch = dynamic_cast<gridpack::dynamic_simulation::DSFullBranch*>
-    (p_network->getBranch(vec_branchintidx[0]).get());
-  if(pbranch) {
-    pbranch->setLineStatus(ckt_id,status);
+  for (ibr=0; ibr<nbr; ibr++) {
+    pbranch = dynamic_cast<gridpack::dynamic_simulation::DSFullBranch*>
+      (p_network->getBranch(vec_branchintidx[ibr]).get());
+    if(pbranch) {
+      pbranch->setLineStatus(ckt_id,status);
+    }
   }
 }
 
-- 
2.43.0


From 5349f58e7d51186c4837d03120788dd81e5cdfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:30 +0000
Subject: [PATCH 096/138] fix: line status events are applied again by later
 events on processes owning only one end

---
 .../dynamic_simulation_full_y/dsf_components.cpp    | 13 ++++++++-----
 .../dynamic_simulation_full_y/dsf_components.hpp    |  5 ++++-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 133ea6c..a857e9b 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -3213,7 +3213,8 @@ gridpack::dynamic_simulation::DSFullBranch::DSFullBranch(void)
   p_branchactiontripflag = false;
   p_bextendedloadbranch = -1;
 
-  p_line_status_change = false;
+  p_line_status_change_frwd = false;
+  p_line_status_change_rvrs = false;
 }
 
 /**
@@ -3269,8 +3270,9 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixForwardValues(ComplexType
 	
     return YMBranch::matrixForwardValues(values);
   } else if(p_mode == LINESTATUSCHANGE) {
-    if(p_line_status_change) {
+    if(p_line_status_change_frwd) {
       values[0] = p_yft;
+      p_line_status_change_frwd = false; // Clear line status change flag
       return true;
     } else return false;
   } else if (p_mode == posFY) {
@@ -3329,9 +3331,9 @@ bool gridpack::dynamic_simulation::DSFullBranch::matrixReverseValues(ComplexType
 	  
     return YMBranch::matrixReverseValues(values);
   } else if (p_mode == LINESTATUSCHANGE) {
-    if(p_line_status_change) {
+    if(p_line_status_change_rvrs) {
       values[0] = p_ytf;
-      p_line_status_change = false; // Clear line status change flag
+      p_line_status_change_rvrs = false; // Clear line status change flag
       return true;
     } else return false;
   } else if (p_mode == posFY) {
@@ -4189,7 +4191,8 @@ void gridpack::dynamic_simulation::DSFullBranch::setLineStatus(std::string id, i
       bus2->diagValuesInsertForLineStatusChange(yjj);
     }
 
-    p_line_status_change = true;
+    p_line_status_change_frwd = true;
+    p_line_status_change_rvrs = true;
 
     YMBranch::setLineStatus(ckt_id,status);
   }
diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
index 9cd3ecc..7cf0419 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.hpp
@@ -1104,7 +1104,10 @@ class DSFullBranch
 	gridpack::ComplexType p_branchfrombusvolt; //renke add
 	gridpack::ComplexType p_branchtobusvolt; //renke add
 
-  bool p_line_status_change; // Flag to indicate line status change
+  // Flags to indicate line status change. The two directions are used on the
+  // processes that own the respective bus
+  bool p_line_status_change_frwd;
+  bool p_line_status_change_rvrs;
   gridpack::ComplexType p_yft,p_ytf; // Ybus off-diagonal contributions from this line
     friend class boost::serialization::access;
 
-- 
2.43.0


From 07a6979f60ecb760bb7f53925f6777f9c8dffd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:11 +0000
Subject: [PATCH 097/138] fix: classical generators ignore the system base of
 the case

---
 .../dynamic_simulation_full_y/model_classes/classical.cpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
index a46770d..22bf7ee 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/classical.cpp
@@ -49,7 +49,7 @@ void gridpack::dynamic_simulation::ClassicalGenerator::load(
     boost::shared_ptr<gridpack::component::DataCollection>
     data, int idx)
 {
-  p_sbase = 100.0;
+  if (!data->getValue(CASE_SBASE, &p_sbase)) p_sbase = 100.0;
 
   int gstatus;
   double pg, qg, mva, r, dstr, dtr;
-- 
2.43.0


From 5b37b7711df5dcb84e16d0fd0d72915d282c1cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:34 +0000
Subject: [PATCH 098/138] fix: generator status events ignore generators
 without dynamic model

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index a857e9b..cb246f8 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -167,7 +167,14 @@ void gridpack::dynamic_simulation::DSFullBus::setGenStatus(std::string id, int s
   int gen_status = p_generators[gen_i]->getGenStatus();
 
   if(status != gen_status) {
-    p_ygen = p_generators[gen_i]->NortonImpedence();
+    if (p_gen_nodynmodel[gen_i]) {
+      // Generator without dynamic model is a constant admittance
+      p_ygen = gridpack::ComplexType(
+          -p_genpg_nodynmodel[gen_i]/(p_voltage*p_voltage),
+          p_genqg_nodynmodel[gen_i]/(p_voltage*p_voltage));
+    } else {
+      p_ygen = p_generators[gen_i]->NortonImpedence();
+    }
     if(!status) p_ygen = -p_ygen; // Negative sign here for removing the generator admittance in the Ybus
     p_gstatus[gen_i] = status;
     p_generators[gen_i]->SetGenServiceStatus((bool)status);
-- 
2.43.0


From 8564072e2c64d16abdd63c93cfd3710fefb0ed0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:10 +0000
Subject: [PATCH 099/138] fix: tripping a generator that is out of service
 removes its admittance

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index cb246f8..a5ef834 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -164,9 +164,11 @@ void gridpack::dynamic_simulation::DSFullBus::setGenStatus(std::string id, int s
   ckt_id = util.clean2Char(id);
 
   int gen_i = getGenNum(ckt_id);
+  if (gen_i < 0) return;
   int gen_status = p_generators[gen_i]->getGenStatus();
 
-  if(status != gen_status) {
+  // Generators that are out of service in the case do not contribute anything
+  if(status != gen_status && status != p_gstatus[gen_i]) {
     if (p_gen_nodynmodel[gen_i]) {
       // Generator without dynamic model is a constant admittance
       p_ygen = gridpack::ComplexType(
-- 
2.43.0


From 10fcd17f90a683c84bd0eb1c9ec1d4650274f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:07 +0000
Subject: [PATCH 100/138] fix: dynamic simulation crashes on buses where
 negative generation precedes a machine

---
 .../modules/dynamic_simulation_full_y/dsf_components.cpp      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index a5ef834..59ab333 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -1122,6 +1122,10 @@ void gridpack::dynamic_simulation::DSFullBus::load(
 	p_genqg_nodynmodel[i] = qg;
 	p_ngen_nodynmodel++;
       } else if (pg < 0.0) {
+        // Keep generators aligned with the list of machines on the bus
+        boost::shared_ptr<BaseGeneratorModel> basegen;
+        basegen.reset(new gridpack::dynamic_simulation::BaseGeneratorModel);
+        p_generators.push_back(basegen);
         p_negpg.push_back(pg);
         p_negqg.push_back(qg);
         p_negngen++;
-- 
2.43.0


From 4d6b90882fb846b997beb52addba47e81eff33bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:20 +0000
Subject: [PATCH 101/138] fix: negative generation is counted twice in dynamic
 simulations

---
 .../dynamic_simulation_full_y/dsf_components.cpp   | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index 59ab333..b51a02c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -169,11 +169,11 @@ void gridpack::dynamic_simulation::DSFullBus::setGenStatus(std::string id, int s
 
   // Generators that are out of service in the case do not contribute anything
   if(status != gen_status && status != p_gstatus[gen_i]) {
-    if (p_gen_nodynmodel[gen_i]) {
+    if (p_gen_nodynmodel[gen_i] || p_pg[gen_i] < 0.0) {
       // Generator without dynamic model is a constant admittance
       p_ygen = gridpack::ComplexType(
-          -p_genpg_nodynmodel[gen_i]/(p_voltage*p_voltage),
-          p_genqg_nodynmodel[gen_i]/(p_voltage*p_voltage));
+          -p_pg[gen_i]/(p_voltage*p_voltage),
+          p_qg[gen_i]/(p_voltage*p_voltage));
     } else {
       p_ygen = p_generators[gen_i]->NortonImpedence();
     }
@@ -248,14 +248,6 @@ bool gridpack::dynamic_simulation::DSFullBus::matrixDiagValues(ComplexType *valu
       gridpack::ComplexType u(p_ybusr, p_ybusi);
       values[0] = u;
     }
-    if (p_negngen > 0) {
-      for (int i = 0; i < p_negngen; i++) {
-        p_ybusr = p_ybusr+(-p_negpg[i])/(p_voltage*p_voltage);
-        p_ybusi = p_ybusi+p_negqg[i]/(p_voltage*p_voltage);
-        gridpack::ComplexType ret(p_ybusr, p_ybusi);
-        values[0] = ret;
-      }
-    }
     for (int i = 0; i < p_ngen; i++) {
       if(p_gen_nodynmodel[i]) {
 	p_ybusr = p_ybusr+(-p_genpg_nodynmodel[i])/(p_voltage*p_voltage);
-- 
2.43.0


From 5d75fbd08ffffac311f6c261bef365afc92aec47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:24 +0000
Subject: [PATCH 102/138] fix: generators tripped before a reset stay out of
 service

---
 .../dynamic_simulation_full_y/dsf_components.cpp       | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
index b51a02c..cacf7d6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dsf_components.cpp
@@ -849,6 +849,16 @@ void gridpack::dynamic_simulation::DSFullBus::load(
   // This function may be called more than once so clear all vectors
   p_pg.clear();
   p_qg.clear();
+  p_savePg.clear();
+  p_gpmin.clear();
+  p_gpmax.clear();
+  p_gstatus.clear();
+  p_previousFrequency.clear();
+  p_upIntervalStart.clear();
+  p_upStartedMonitoring.clear();
+  p_downIntervalStart.clear();
+  p_downStartedMonitoring.clear();
+  p_dynamic_loadid.clear();
   p_negpg.clear();
   p_negqg.clear();
   p_gen_nodynmodel.clear();
-- 
2.43.0


From bcced1dc206d735c2f3e3abe4b5099d78496429d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 103/138] fix: exported files contain the values of other
 devices where data is missing

---
 src/export/data_blocks/export_bus23.hpp  | 1 +
 src/export/data_blocks/export_bus33.hpp  | 1 +
 src/export/data_blocks/export_bus34.hpp  | 1 +
 src/export/data_blocks/export_gen23.hpp  | 1 +
 src/export/data_blocks/export_gen33.hpp  | 1 +
 src/export/data_blocks/export_gen34.hpp  | 1 +
 src/export/data_blocks/export_line33.hpp | 6 +++---
 src/export/data_blocks/export_line34.hpp | 4 ++--
 src/export/data_blocks/export_load33.hpp | 5 +++--
 9 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/export/data_blocks/export_bus23.hpp b/src/export/data_blocks/export_bus23.hpp
index 027e418..b1d965e 100644
--- a/src/export/data_blocks/export_bus23.hpp
+++ b/src/export/data_blocks/export_bus23.hpp
@@ -120,6 +120,7 @@ class ExportBus23
           }
           sprintf(ptr," %21.16f,",rval);
           ptr += strlen(ptr);
+          sval = "            ";
           data->getValue(BUS_NAME,&sval);
           if (sval.find_first_of('\'') != std::string::npos) {
             sprintf(ptr," %s,",sval.c_str());
diff --git a/src/export/data_blocks/export_bus33.hpp b/src/export/data_blocks/export_bus33.hpp
index b9c499c..b97a807 100644
--- a/src/export/data_blocks/export_bus33.hpp
+++ b/src/export/data_blocks/export_bus33.hpp
@@ -84,6 +84,7 @@ class ExportBus33
           data->getValue(BUS_NUMBER,&ival);
           sprintf(ptr,"%d,",ival);
           ptr += strlen(ptr);
+          sval = "            ";
           data->getValue(BUS_NAME,&sval);
           if (sval.find_first_of('\'') != std::string::npos) {
             sprintf(ptr," %s,",sval.c_str());
diff --git a/src/export/data_blocks/export_bus34.hpp b/src/export/data_blocks/export_bus34.hpp
index b691364..8a09b05 100644
--- a/src/export/data_blocks/export_bus34.hpp
+++ b/src/export/data_blocks/export_bus34.hpp
@@ -84,6 +84,7 @@ class ExportBus34
           data->getValue(BUS_NUMBER,&ival);
           sprintf(ptr,"%d,",ival);
           ptr += strlen(ptr);
+          sval = "            ";
           data->getValue(BUS_NAME,&sval);
           if (sval.find_first_of('\'') != std::string::npos) {
             sprintf(ptr," %s,",sval.c_str());
diff --git a/src/export/data_blocks/export_gen23.hpp b/src/export/data_blocks/export_gen23.hpp
index 2d00d0f..8305a7d 100644
--- a/src/export/data_blocks/export_gen23.hpp
+++ b/src/export/data_blocks/export_gen23.hpp
@@ -80,6 +80,7 @@ class ExportGen23
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 6da4fa0..7c5fa52 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -80,6 +80,7 @@ class ExportGen33
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index bdbc25d..2f72925 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -80,6 +80,7 @@ class ExportGen34
             data->getValue(GENERATOR_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(GENERATOR_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index f58978c..3bad929 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -96,11 +96,11 @@ class ExportLine33
               data->getValue(BRANCH_CKT,&sval,j);
               sprintf(ptr," \'%s\',",sval.c_str());
               ptr += strlen(ptr);
-              // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_R,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
-              // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_X,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
@@ -108,7 +108,7 @@ class ExportLine33
               data->getValue(BRANCH_B,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
-              // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_RATING_A,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index b62d935..086b5dc 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -96,11 +96,11 @@ class ExportLine34
               data->getValue(BRANCH_CKT,&sval,j);
               sprintf(ptr," \'%s\',",sval.c_str());
               ptr += strlen(ptr);
-              // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_R,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
-              // No default for this value
+              rval = 0.0;
               data->getValue(BRANCH_X,&rval,j);
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 08e8c52..6eeee91 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -80,6 +80,7 @@ class ExportLoad33
             data->getValue(LOAD_BUSNUMBER,&ival,j);
             sprintf(ptr,"%d,",ival);
             ptr += strlen(ptr);
+            sval = "1 ";
             data->getValue(LOAD_ID,&sval,j);
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
@@ -99,11 +100,11 @@ class ExportLoad33
             }
             sprintf(ptr," %d,",ival);
             ptr += strlen(ptr);
-            rval = 0.0;
+            pl = 0.0;
             data->getValue(LOAD_PL,&pl,j);
             sprintf(ptr," %f,",pl);
             ptr += strlen(ptr);
-            rval = 0.0;
+            ql = 0.0;
             data->getValue(LOAD_QL,&ql,j);
             sprintf(ptr," %f,",ql);
             ptr += strlen(ptr);
-- 
2.43.0


From 28a652b3220eaf97c9ebf3fba37fe22808680cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 104/138] fix: exported loads and lines are lost or moved to
 other devices

---
 src/export/data_blocks/export_line33.hpp  | 4 +++-
 src/export/data_blocks/export_line34.hpp  | 4 +++-
 src/export/data_blocks/export_load33.hpp  | 1 -
 src/export/data_blocks/export_xform33.hpp | 4 +++-
 src/export/data_blocks/export_xform34.hpp | 4 +++-
 5 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index 3bad929..a841015 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -76,6 +76,8 @@ class ExportLine33
           int nline = 0;
           double tap_ratio;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
+          // Number of records written for this branch
+          int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
@@ -172,7 +174,7 @@ class ExportLine33
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nrec++;
               text_data.push_back(text);
             }
           }
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index 086b5dc..c5fa39c 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -76,6 +76,8 @@ class ExportLine34
           int nline = 0;
           double tap_ratio;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
+          // Number of records written for this branch
+          int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
@@ -221,7 +223,7 @@ class ExportLine34
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nrec++;
               text_data.push_back(text);
             }
           }
diff --git a/src/export/data_blocks/export_load33.hpp b/src/export/data_blocks/export_load33.hpp
index 6eeee91..0d9f8a4 100644
--- a/src/export/data_blocks/export_load33.hpp
+++ b/src/export/data_blocks/export_load33.hpp
@@ -108,7 +108,6 @@ class ExportLoad33
             data->getValue(LOAD_QL,&ql,j);
             sprintf(ptr," %f,",ql);
             ptr += strlen(ptr);
-            if (pl == 0.0 && ql == 0.0) continue;
             rval = 0.0;
             data->getValue(LOAD_IP,&rval,j);
             sprintf(ptr," %f,",rval);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index e72be4c..8c16806 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -76,6 +76,8 @@ class ExportXform33
           int nline = 0;
           double tap_ratio;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
+          // Number of records written for this branch
+          int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
@@ -259,7 +261,7 @@ class ExportXform33
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nrec++;
               text_data.push_back(text);
             }
           }
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 164c3ff..1e445e8 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -76,6 +76,8 @@ class ExportXform34
           int nline = 0;
           double tap_ratio;
           data->getValue(BRANCH_NUM_ELEMENTS,&nline);
+          // Number of records written for this branch
+          int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
@@ -285,7 +287,7 @@ class ExportXform34
               text_line text;
               strcpy(text.text,buf);
               text.global_idx = p_network->getGlobalBranchIndex(i);
-              text.device_idx = j;
+              text.device_idx = nrec++;
               text_data.push_back(text);
             }
           }
-- 
2.43.0


From f7da1e49e977e0edf0f60812a426e14c905b3249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 105/138] fix: lines and transformers named from the other end
 are exported the wrong way round

---
 src/export/data_blocks/export_line23.hpp  | 6 +++---
 src/export/data_blocks/export_line33.hpp  | 6 +++---
 src/export/data_blocks/export_line34.hpp  | 6 +++---
 src/export/data_blocks/export_xform23.hpp | 6 +++---
 src/export/data_blocks/export_xform33.hpp | 6 +++---
 src/export/data_blocks/export_xform34.hpp | 6 +++---
 6 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/export/data_blocks/export_line23.hpp b/src/export/data_blocks/export_line23.hpp
index 8f7a517..3ee1cd0 100644
--- a/src/export/data_blocks/export_line23.hpp
+++ b/src/export/data_blocks/export_line23.hpp
@@ -83,10 +83,10 @@ class ExportLine23
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
             data->getValue(BRANCH_FROMBUS,&idx1);
             data->getValue(BRANCH_TOBUS,&idx2);
-            ival = 1;
-            data->getValue(BRANCH_SWITCHED,&ival,j);
+            bool switched = false;
+            data->getValue(BRANCH_SWITCHED,&switched,j);
             // I,J,CKT,R,X,B,RATEA,RATEB,RATEC,RATIO,ANGLE,GI,BI,GJ,BJ,ST
-            if (ival == 1) {
+            if (!switched) {
               sprintf(ptr,"%d, %d,",idx1,idx2);
             } else {
               sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index a841015..f8ea535 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -86,9 +86,9 @@ class ExportLine33
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index c5fa39c..937c934 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -86,9 +86,9 @@ class ExportLine34
             if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
-              if (ival == 1) {
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
+              if (!switched) {
                 sprintf(ptr,"%d, %d,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform23.hpp b/src/export/data_blocks/export_xform23.hpp
index d8ddc81..65d3571 100644
--- a/src/export/data_blocks/export_xform23.hpp
+++ b/src/export/data_blocks/export_xform23.hpp
@@ -84,10 +84,10 @@ class ExportXform23
             if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 8c16806..00181c8 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -89,10 +89,10 @@ class ExportXform33
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 1e445e8..9b2e8e7 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -89,10 +89,10 @@ class ExportXform34
               // the future
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
-              ival = 1;
-              data->getValue(BRANCH_SWITCHED,&ival,j);
+              bool switched = false;
+              data->getValue(BRANCH_SWITCHED,&switched,j);
               // First line
-              if (ival == 1) {
+              if (!switched) {
                 sprintf(ptr,"%d, %d, 0,",idx1,idx2);
               } else {
                 sprintf(ptr,"%d, %d, 0,",idx2,idx1);
-- 
2.43.0


From 4b6993cf989344e110c66337ca6850be68c15169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 106/138] fix: impedances of transformers are exported on the
 wrong base

---
 src/export/data_blocks/export_xform33.hpp | 10 ++++++----
 src/export/data_blocks/export_xform34.hpp | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 00181c8..9588318 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -105,11 +105,13 @@ class ExportXform33
               // Assume default value for CW
               sprintf(ptr," 1,");
               ptr += strlen(ptr);
-              // Assume default value for CZ
-              sprintf(ptr," 1,");
+              ival = 1;
+              data->getValue(TRANSFORMER_CZ,&ival,j);
+              sprintf(ptr," %d,",ival);
               ptr += strlen(ptr);
-              // Assume default value for CM
-              sprintf(ptr," 1,");
+              ival = 1;
+              data->getValue(TRANSFORMER_CM,&ival,j);
+              sprintf(ptr," %d,",ival);
               ptr += strlen(ptr);
               rval = 0.0;
               data->getValue(TRANSFORMER_MAG1,&rval,j);
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index 9b2e8e7..ec28375 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -105,11 +105,13 @@ class ExportXform34
               // Assume default value for CW
               sprintf(ptr," 1,");
               ptr += strlen(ptr);
-              // Assume default value for CZ
-              sprintf(ptr," 1,");
+              ival = 1;
+              data->getValue(TRANSFORMER_CZ,&ival,j);
+              sprintf(ptr," %d,",ival);
               ptr += strlen(ptr);
-              // Assume default value for CM
-              sprintf(ptr," 1,");
+              ival = 1;
+              data->getValue(TRANSFORMER_CM,&ival,j);
+              sprintf(ptr," %d,",ival);
               ptr += strlen(ptr);
               rval = 0.0;
               data->getValue(TRANSFORMER_MAG1,&rval,j);
-- 
2.43.0


From 936218d8a1df5aa9a1d95995dc2a2ff16df8b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 107/138] fix: phase shifts of three winding transformers are
 not exported

---
 src/export/data_blocks/export_line33.hpp  | 5 ++++-
 src/export/data_blocks/export_line34.hpp  | 5 ++++-
 src/export/data_blocks/export_xform33.hpp | 9 +++++++--
 src/export/data_blocks/export_xform34.hpp | 9 +++++++--
 4 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/export/data_blocks/export_line33.hpp b/src/export/data_blocks/export_line33.hpp
index f8ea535..6f76491 100644
--- a/src/export/data_blocks/export_line33.hpp
+++ b/src/export/data_blocks/export_line33.hpp
@@ -80,10 +80,13 @@ class ExportLine33
           int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
+            double shift = 0.0;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
+            data->getValue(BRANCH_SHIFT,&shift,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
-            if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
+            if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0) && shift == 0.0) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
               bool switched = false;
diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index 937c934..6bd4410 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -80,10 +80,13 @@ class ExportLine34
           int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
+            double shift = 0.0;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
+            data->getValue(BRANCH_SHIFT,&shift,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
-            if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0)) {
+            if (!is_xform && (tap_ratio == 0.0 || tap_ratio == 1.0) && shift == 0.0) {
               data->getValue(BRANCH_FROMBUS,&idx1);
               data->getValue(BRANCH_TOBUS,&idx2);
               bool switched = false;
diff --git a/src/export/data_blocks/export_xform33.hpp b/src/export/data_blocks/export_xform33.hpp
index 9588318..a4f52e1 100644
--- a/src/export/data_blocks/export_xform33.hpp
+++ b/src/export/data_blocks/export_xform33.hpp
@@ -80,10 +80,13 @@ class ExportXform33
           int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
+            double shift = 0.0;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
+            data->getValue(BRANCH_SHIFT,&shift,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
-            if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
+            if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0) || shift != 0.0) {
               // Note that three winding buses have already been converted to
               // regular lines and buses. May want to revisit this issue in
               // the future
@@ -189,7 +192,9 @@ class ExportXform33
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
-              data->getValue(TRANSFORMER_ANG1,&rval,j);
+              if (!data->getValue(TRANSFORMER_ANG1,&rval,j)) {
+                data->getValue(BRANCH_SHIFT,&rval,j);
+              }
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
diff --git a/src/export/data_blocks/export_xform34.hpp b/src/export/data_blocks/export_xform34.hpp
index ec28375..95ec0ff 100644
--- a/src/export/data_blocks/export_xform34.hpp
+++ b/src/export/data_blocks/export_xform34.hpp
@@ -80,10 +80,13 @@ class ExportXform34
           int nrec = 0;
           for (j=0; j<nline; j++) {
             ptr = buf;
+            double shift = 0.0;
+            tap_ratio = 0.0;
             data->getValue(BRANCH_TAP,&tap_ratio,j);
+            data->getValue(BRANCH_SHIFT,&shift,j);
             bool is_xform = data->getValue(TRANSFORMER_WINDV1,&rval,j);
             is_xform = is_xform && data->getValue(TRANSFORMER_WINDV2,&rval,j);
-            if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0)) {
+            if (is_xform || (tap_ratio != 0.0 && tap_ratio != 1.0) || shift != 0.0) {
               // Note that three winding buses have already been converted to
               // regular lines and buses. May want to revisit this issue in
               // the future
@@ -193,7 +196,9 @@ class ExportXform34
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
-              data->getValue(TRANSFORMER_ANG1,&rval,j);
+              if (!data->getValue(TRANSFORMER_ANG1,&rval,j)) {
+                data->getValue(BRANCH_SHIFT,&rval,j);
+              }
               sprintf(ptr," %f,",rval);
               ptr += strlen(ptr);
               rval = 0.0;
-- 
2.43.0


From c69cba07a751c38058d4d32d5f7d257e51bfbe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:51 +0000
Subject: [PATCH 108/138] fix: columns of exported version 34 lines are shifted

---
 src/export/data_blocks/export_line34.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/export/data_blocks/export_line34.hpp b/src/export/data_blocks/export_line34.hpp
index 6bd4410..6cfcc31 100644
--- a/src/export/data_blocks/export_line34.hpp
+++ b/src/export/data_blocks/export_line34.hpp
@@ -115,9 +115,9 @@ class ExportLine34
               ptr += strlen(ptr);
               // No default for this value
               if (data->getValue(BRANCH_NAME,&sval,j)) {
-                sprintf(ptr,"\'%s\'",sval.c_str());
+                sprintf(ptr," \'%s\',",sval.c_str());
               } else {
-                sprintf(ptr,"\' \'");
+                sprintf(ptr," \' \',");
               }
               ptr += strlen(ptr);
               rval = 0.0;
-- 
2.43.0


From 214d21e046032e09ce1bd486ef0188d12c161d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 109/138] fix: exported files contain the generation before the
 power flow calculation

---
 src/export/data_blocks/export_gen33.hpp | 16 +++++++++-------
 src/export/data_blocks/export_gen34.hpp | 16 +++++++++-------
 2 files changed, 18 insertions(+), 14 deletions(-)

diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index 7c5fa52..fa760c9 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -67,7 +67,9 @@ class ExportGen33
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
           data = p_network->getBusData(i).get();
-          double rval;
+          double rval, pfval;
+          double sbase = 100.0;
+          data->getValue(CASE_SBASE,&sbase);
           int ival;
           std::string sval;
           gridpack::ComplexType zval;
@@ -85,15 +87,15 @@ class ExportGen33
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
             rval = 0.0;
-            if (data->getValue(GENERATOR_PG,&rval,j)) {
-              data->getValue("GENERATOR_PF_PG",&rval,j);
-            }
+            data->getValue(GENERATOR_PG,&rval,j);
+            // Results of power flow calculations are in p.u.
+            if (data->getValue("GENERATOR_PF_PGEN",&pfval,j)) rval = pfval*sbase;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
-            if (data->getValue(GENERATOR_QG,&rval,j)) {
-              data->getValue("GENERATOR_PF_QG",&rval,j);
-            }
+            data->getValue(GENERATOR_QG,&rval,j);
+            // Results of power flow calculations are in p.u.
+            if (data->getValue("GENERATOR_PF_QGEN",&pfval,j)) rval = pfval*sbase;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 9999.0;
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index 2f72925..56761ff 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -67,7 +67,9 @@ class ExportGen34
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
           data = p_network->getBusData(i).get();
-          double rval;
+          double rval, pfval;
+          double sbase = 100.0;
+          data->getValue(CASE_SBASE,&sbase);
           int ival;
           std::string sval;
           gridpack::ComplexType zval;
@@ -85,15 +87,15 @@ class ExportGen34
             sprintf(ptr," \'%s\',",sval.c_str());
             ptr += strlen(ptr);
             rval = 0.0;
-            if (data->getValue(GENERATOR_PG,&rval,j)) {
-              data->getValue("GENERATOR_PF_PG",&rval,j);
-            }
+            data->getValue(GENERATOR_PG,&rval,j);
+            // Results of power flow calculations are in p.u.
+            if (data->getValue("GENERATOR_PF_PGEN",&pfval,j)) rval = pfval*sbase;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 0.0;
-            if (data->getValue(GENERATOR_QG,&rval,j)) {
-              data->getValue("GENERATOR_PF_QG",&rval,j);
-            }
+            data->getValue(GENERATOR_QG,&rval,j);
+            // Results of power flow calculations are in p.u.
+            if (data->getValue("GENERATOR_PF_QGEN",&pfval,j)) rval = pfval*sbase;
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
             rval = 9999.0;
-- 
2.43.0


From 68f16c39c20a7c2b280e376005bc53a3640cd93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:03 +0000
Subject: [PATCH 110/138] fix: step up transformers of generators are not
 exported

---
 src/export/data_blocks/export_gen33.hpp | 6 ++++--
 src/export/data_blocks/export_gen34.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/export/data_blocks/export_gen33.hpp b/src/export/data_blocks/export_gen33.hpp
index fa760c9..30eb723 100644
--- a/src/export/data_blocks/export_gen33.hpp
+++ b/src/export/data_blocks/export_gen33.hpp
@@ -124,11 +124,13 @@ class ExportGen33
             data->getValue(GENERATOR_ZSOURCE,&zval,j);
             sprintf(ptr," %f, %f,",real(zval),imag(zval),j);
             ptr += strlen(ptr);
-            rval = 0.0;
+            zval = ComplexType(0.0,0.0);
+            data->getValue(GENERATOR_XTRAN,&zval,j);
+            rval = real(zval);
             data->getValue(GENERATOR_RT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-            rval = 0.0;
+            rval = imag(zval);
             data->getValue(GENERATOR_XT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
diff --git a/src/export/data_blocks/export_gen34.hpp b/src/export/data_blocks/export_gen34.hpp
index 56761ff..28d095f 100644
--- a/src/export/data_blocks/export_gen34.hpp
+++ b/src/export/data_blocks/export_gen34.hpp
@@ -124,11 +124,13 @@ class ExportGen34
             data->getValue(GENERATOR_ZSOURCE,&zval,j);
             sprintf(ptr," %f, %f,",real(zval),imag(zval),j);
             ptr += strlen(ptr);
-            rval = 0.0;
+            zval = ComplexType(0.0,0.0);
+            data->getValue(GENERATOR_XTRAN,&zval,j);
+            rval = real(zval);
             data->getValue(GENERATOR_RT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-            rval = 0.0;
+            rval = imag(zval);
             data->getValue(GENERATOR_XT,&rval,j);
             sprintf(ptr," %f,",rval);
             ptr += strlen(ptr);
-- 
2.43.0


From 5bb9c850399679529ba7e46bc6319d8a9339ab6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:46 +0000
Subject: [PATCH 111/138] fix: system base is lost on export if the first
 process has no buses

---
 src/export/data_blocks/export_bus23.hpp | 5 ++++-
 src/export/data_blocks/export_bus33.hpp | 5 ++++-
 src/export/data_blocks/export_bus34.hpp | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/export/data_blocks/export_bus23.hpp b/src/export/data_blocks/export_bus23.hpp
index b1d965e..e627f44 100644
--- a/src/export/data_blocks/export_bus23.hpp
+++ b/src/export/data_blocks/export_bus23.hpp
@@ -66,13 +66,16 @@ class ExportBus23
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
         data->getValue(CASE_SBASE,&sbase);
         data->getValue(CASE_ID,&case_id);
       }
+      // The first process may not have any buses
+      p_comm.max(&sbase,1);
+      p_comm.max(&case_id,1);
 
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
diff --git a/src/export/data_blocks/export_bus33.hpp b/src/export/data_blocks/export_bus33.hpp
index b97a807..f00a824 100644
--- a/src/export/data_blocks/export_bus33.hpp
+++ b/src/export/data_blocks/export_bus33.hpp
@@ -66,13 +66,16 @@ class ExportBus33
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
         data->getValue(CASE_SBASE,&sbase);
         data->getValue(CASE_ID,&case_id);
       }
+      // The first process may not have any buses
+      p_comm.max(&sbase,1);
+      p_comm.max(&case_id,1);
 
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
diff --git a/src/export/data_blocks/export_bus34.hpp b/src/export/data_blocks/export_bus34.hpp
index 8a09b05..a05b0bc 100644
--- a/src/export/data_blocks/export_bus34.hpp
+++ b/src/export/data_blocks/export_bus34.hpp
@@ -66,13 +66,16 @@ class ExportBus34
       std::vector<text_line> text_data;
       // Find value of SBASE and CASE_ID
       double sbase = 0.0;
-      double case_id = 0;
+      int case_id = 0;
       if (nbus > 0) {
         data = p_network->getBusData(0).get();
         sbase = 100.0;
         data->getValue(CASE_SBASE,&sbase);
         data->getValue(CASE_ID,&case_id);
       }
+      // The first process may not have any buses
+      p_comm.max(&sbase,1);
+      p_comm.max(&case_id,1);
 
       for (i=0; i<nbus; i++) {
         if (p_network->getActiveBus(i)) {
-- 
2.43.0


From ced0ebe64b9eba1e75fc86d9fc2541ec0d52272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:47 +0000
Subject: [PATCH 112/138] fix: processes with different timing categories
 deadlock in the timing report

---
 src/timer/coarse_timer.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timer/coarse_timer.cpp b/src/timer/coarse_timer.cpp
index b26b0e4..049fd3f 100644
--- a/src/timer/coarse_timer.cpp
+++ b/src/timer/coarse_timer.cpp
@@ -100,8 +100,12 @@ void gridpack::utility::CoarseTimer::dump(void) const
     if (me == 0) {
       printf ("Different numbers of timing catagories on\n");
       printf ("different processors min: %d max: %d\n",size_min,size_max);
-      return;
     }
+    delete [] scheck;
+    delete [] rcheck;
+    delete [] stime;
+    delete [] rtime;
+    return;
   }
   for (i = 0; i<size; i++) {
     // statistics over all processors
-- 
2.43.0


From 01de5e234be31a6c366094d718e3d19d1152516a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 113/138] fix: success of contingencies is read from a cleared
 vector

---
 src/applications/contingency_analysis/ca_driver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/applications/contingency_analysis/ca_driver.cpp b/src/applications/contingency_analysis/ca_driver.cpp
index 9a53442..d31c371 100644
--- a/src/applications/contingency_analysis/ca_driver.cpp
+++ b/src/applications/contingency_analysis/ca_driver.cpp
@@ -757,7 +757,6 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
     contingency_violation.clear();
     for (i=0; i<ntasks; i++) contingency_idx.push_back(i);
     ca_success.getData(contingency_idx, contingency_success);
-    contingency_success.clear();
     ca_violation.getData(contingency_idx, contingency_violation);
     std::ofstream fout;
     fout.open("success.txt");
-- 
2.43.0


From 5c4bd03bee1610c4733291977eedb1b224371804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:08 +0000
Subject: [PATCH 114/138] fix: contingency analysis fails if the list of
 contingencies is empty

---
 src/applications/contingency_analysis/ca_driver.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/applications/contingency_analysis/ca_driver.cpp b/src/applications/contingency_analysis/ca_driver.cpp
index d31c371..948c627 100644
--- a/src/applications/contingency_analysis/ca_driver.cpp
+++ b/src/applications/contingency_analysis/ca_driver.cpp
@@ -748,16 +748,21 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
     ca_success.addElements(contingency_idx, contingency_success);
     ca_violation.addElements(contingency_idx, contingency_violation);
   }
-  ca_success.upload();
-  ca_violation.upload();
+  // There is nothing to upload or to retrieve if the list is empty
+  if (ntasks > 0) {
+    ca_success.upload();
+    ca_violation.upload();
+  }
   // Write out stats on successful calculations
   if (world.rank() == 0) {
     contingency_idx.clear();
     contingency_success.clear();
     contingency_violation.clear();
     for (i=0; i<ntasks; i++) contingency_idx.push_back(i);
-    ca_success.getData(contingency_idx, contingency_success);
-    ca_violation.getData(contingency_idx, contingency_violation);
+    if (ntasks > 0) {
+      ca_success.getData(contingency_idx, contingency_success);
+      ca_violation.getData(contingency_idx, contingency_violation);
+    }
     std::ofstream fout;
     fout.open("success.txt");
     for (i=0; i<ntasks; i++) {
-- 
2.43.0


From 11dcec6805f7d673984b3b461b1fcf0ce6ff0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:38 +0000
Subject: [PATCH 115/138] fix: buses changed from PV to PQ are never counted in
 the contingency analysis

---
 .../contingency_analysis/ca_driver.cpp            | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/applications/contingency_analysis/ca_driver.cpp b/src/applications/contingency_analysis/ca_driver.cpp
index 948c627..2593449 100644
--- a/src/applications/contingency_analysis/ca_driver.cpp
+++ b/src/applications/contingency_analysis/ca_driver.cpp
@@ -322,7 +322,12 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
     ids.push_back(atoi(tokens[0].c_str()));
     tags.push_back("1 ");
     vang.push_back(atof(tokens[1].c_str()));
-    mask.push_back(1);
+    // Use mask on all buses to keep track of PV buses that changed to PQ
+    if (atoi(tokens[4].c_str()) != 0) {
+      mask.push_back(2);
+    } else {
+      mask.push_back(1);
+    }
   }
   int nmags = vmag.size();
   world.max(&nmags,1);
@@ -566,7 +571,11 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
           }
         }
         vang.push_back(atof(tokens[1].c_str()));
-        mask.push_back(1);
+        if (atoi(tokens[4].c_str()) != 0) {
+          mask.push_back(2);
+        } else {
+          mask.push_back(1);
+        }
       }
 #endif
 #ifdef USE_STATBLOCK
@@ -791,7 +800,7 @@ void gridpack::contingency_analysis::CADriver::execute(int argc, char** argv)
   timer->start(t_stats);
   vmag_stats.writeMeanAndRMS("vmag.txt",1,false);
   vmag_stats.writeMinAndMax("vmag_mm.txt",1,false);
-  if (check_Qlim) vmag_stats.writeMaskValueCount("pq_change_cnt.txt",2,false);
+  if (check_Qlim) vang_stats.writeMaskValueCount("pq_change_cnt.txt",2,false);
   vang_stats.writeMeanAndRMS("vang.txt",1,false);
   vang_stats.writeMinAndMax("vang_mm.txt",1,false);
   pgen_stats.writeMeanAndRMS("pgen.txt",1);
-- 
2.43.0


From e0dbccc1922da60c1dc9a906213b4b56d45cd74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 116/138] fix: names without quotes are cut to one letter,
 names with quotes of the other kind are cut

---
 src/utilities/string_utils.hpp | 42 +++++++++++-----------------------
 1 file changed, 13 insertions(+), 29 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 771b94d..908de01 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -150,36 +150,20 @@ public:
   std::string trimQuotes(std::string &str)
   {
     std::string tag = str;
-    // Find and remove single or double quotes
-    int ntok1 = tag.find('\'',0);
-    bool sngl_qt = true;
-    bool no_qt = false;
-    // if no single quote found, then assume double quote or no quote
-    if (ntok1 == std::string::npos) {
-      ntok1 = tag.find('\"',0);
-      // if no double quote found then assume no quote
-      if (ntok1 == std::string::npos) {
-        ntok1 = tag.find_first_not_of(' ',0);
-        no_qt = true;
-      } else {
-        sngl_qt = false;
-      }
+    // Get rid of white space outside of quotes
+    trim(tag);
+    // Remove single or double quotes, if there are any
+    if (!tag.empty() && (tag[0] == '\'' || tag[0] == '\"')) {
+      char quote = tag[0];
+      std::string::size_type ntok1 = tag.find_first_not_of(quote,0);
+      if (ntok1 == std::string::npos) return std::string();
+      std::string::size_type ntok2 = tag.find(quote,ntok1);
+      if (ntok2 == std::string::npos) ntok2 = tag.length();
+      tag = tag.substr(ntok1,ntok2-ntok1);
+      //get rid of white space
+      trim(tag);
     }
-    int ntok2;
-    if (sngl_qt) {
-      ntok1 = tag.find_first_not_of('\'',ntok1);
-      ntok2 = tag.find('\'',ntok1);
-    } else if (no_qt) {
-      ntok2 = tag.find_last_not_of(' ',ntok1)+1;
-    } else {
-      ntok1 = tag.find_first_not_of('\"',ntok1);
-      ntok2 = tag.find('\"',ntok1);
-    }
-    if (ntok2 == std::string::npos) ntok2 = tag.length();
-    std::string clean_tag = tag.substr(ntok1,ntok2-ntok1);
-    //get rid of white space
-    trim(clean_tag);
-    return clean_tag;
+    return tag;
   }
 
   /**
-- 
2.43.0


From 0ad9eedf54283c9affa04e5bf16e99f59a7ee393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 117/138] fix: blank tags throw an exception, carriage returns
 stay in tags of two characters

---
 src/utilities/string_utils.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index 908de01..e0a5a68 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -97,6 +97,9 @@ public:
   std::string clean2Char(std::string &string)
   {
     std::string tag = string;
+    // Some systems put \r if the id is at the end of the line. Replace it by
+    // a blank
+    boost::replace_all(tag,"\r"," ");
     // Find and remove single or double quotes
     int ntok1 = tag.find('\'',0);
     bool sngl_qt = true;
@@ -122,10 +125,13 @@ public:
       ntok1 = tag.find_first_not_of('\"',ntok1);
       ntok2 = tag.find('\"',ntok1);
     }
+    // Tag is blank
+    if (ntok1 == std::string::npos) return std::string("  ");
     if (ntok2 == std::string::npos) ntok2 = tag.length();
     std::string clean_tag = tag.substr(ntok1,ntok2-ntok1);
     //get rid of white space
     ntok1 = clean_tag.find_first_not_of(' ',0);
+    if (ntok1 == std::string::npos) return std::string("  ");
     ntok2 = clean_tag.find(' ',ntok1);
     if (ntok2 == std::string::npos) ntok2 = clean_tag.length();
     tag = clean_tag.substr(ntok1,ntok2-ntok1);
@@ -135,10 +141,6 @@ public:
     } else {
       clean_tag = tag;
     }
-    // Some systems put \r if the id is at the end of the line. Remove
-    // it and put a space.
-    if (clean_tag.size() == 2 && clean_tag[clean_tag.size() - 1] == '\r')
-      clean_tag[1] = ' ';
     return clean_tag;
   }
 
-- 
2.43.0


From 29f5a8232db8621f281daad985d80d2937899f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 118/138] fix: strings are split wrongly if they are blank, a
 quote is not closed or one letter follows a quote

---
 src/utilities/string_utils.hpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index e0a5a68..fd33422 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -185,21 +185,9 @@ public:
     }
     int ntok1, ntok2;
     std::vector<std::string> ret;
-    ntok1 = strcpy.find_first_not_of(' ',0);
-    if (strcpy[ntok1] == '\'') {
-      ntok2 = strcpy.find('\'',ntok1+1);
-      ntok2++;
-    } else if (strcpy[ntok1] == '\"') {
-      ntok2 = strcpy.find('\"',ntok1+1);
-      ntok2++;
-    } else if (ntok1 != std::string::npos) {
-      ntok2 = strcpy.find(' ',ntok1);
-      if (ntok2 == std::string::npos) ntok2 = slen;
-    } else {
-      return ret;
-    }
-    ret.push_back(strcpy.substr(ntok1,ntok2-ntok1));
-    while (ntok2 < slen-1 && ntok1 != std::string::npos) {
+    ntok1 = 0;
+    ntok2 = 0;
+    while (ntok2 < slen && ntok1 != std::string::npos) {
       ntok1 = strcpy.find_first_not_of(' ',ntok2);
       if (ntok1 != std::string::npos) {
         if (strcpy[ntok1] == '\'') {
-- 
2.43.0


From 6d705383b5852fc18ec07f03acbb9e6be5069a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:14 +0000
Subject: [PATCH 119/138] fix: splitting a string with nothing between or after
 separators throws an exception

---
 src/utilities/string_utils.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/utilities/string_utils.hpp b/src/utilities/string_utils.hpp
index fd33422..826b4b4 100644
--- a/src/utilities/string_utils.hpp
+++ b/src/utilities/string_utils.hpp
@@ -232,14 +232,11 @@ public:
     int ntok1, ntok2;
     std::vector<std::string> ret;
     ntok1 = str.find_first_not_of(*sep,0);
-    ntok2 = str.find(*sep,ntok1);
-    if (ntok2 == std::string::npos) ntok2 = slen;
-    if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
-    while (ntok2 < slen-1 && ntok1 != std::string::npos) {
-      ntok1 = str.find_first_not_of(*sep,ntok2);
+    while (ntok1 != std::string::npos) {
       ntok2 = str.find(*sep,ntok1);
       if (ntok2 == std::string::npos) ntok2 = slen;
-      if (ntok1<=ntok2) ret.push_back(str.substr(ntok1,ntok2-ntok1));
+      ret.push_back(str.substr(ntok1,ntok2-ntok1));
+      ntok1 = str.find_first_not_of(*sep,ntok2);
     }
     return ret;
   }
-- 
2.43.0


From c1540aa503e5cb842df632643f54aadbc88c77a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 120/138] fix: fractions of induction motor and single phase
 motor parameters of loads are stored under wrong names

---
 src/parser/parser_classes/acmtblu1.hpp | 16 ++++++++--------
 src/parser/parser_classes/cim6bl.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/parser/parser_classes/acmtblu1.hpp b/src/parser/parser_classes/acmtblu1.hpp
index 863fc61..fbe3bcd 100644
--- a/src/parser/parser_classes/acmtblu1.hpp
+++ b/src/parser/parser_classes/acmtblu1.hpp
@@ -144,9 +144,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ1
       if (!data->getValue(LOAD_NQ1,&rval,l_id)) {
-        data->addValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->addValue(LOAD_NQ1, data_struct.nq1, l_id);
       } else {
-        data->setValue(LOAD_NQ1, data_struct.kq1, l_id);
+        data->setValue(LOAD_NQ1, data_struct.nq1, l_id);
       }
 
       // LOAD_KP2
@@ -172,9 +172,9 @@ template <class _data_struct> class Acmtblu1Parser
 
       // LOAD_NQ2
       if (!data->getValue(LOAD_NQ2,&rval,l_id)) {
-        data->addValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->addValue(LOAD_NQ2, data_struct.nq2, l_id);
       } else {
-        data->setValue(LOAD_NQ2, data_struct.kq2, l_id);
+        data->setValue(LOAD_NQ2, data_struct.nq2, l_id);
       }
 
       // LOAD_VBRK
@@ -626,12 +626,12 @@ template <class _data_struct> class Acmtblu1Parser
         }
       }
 
-      // LOAD_UVTR1
+      // LOAD_UVTR2
       if (nstr > 44) {
-        if (!data->getValue(LOAD_UVTR1,&rval,l_id)) {
-          data->addValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+        if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
+          data->addValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         } else {
-          data->setValue(LOAD_UVTR1, atof(split_line[44].c_str()), l_id);
+          data->setValue(LOAD_UVTR2, atof(split_line[44].c_str()), l_id);
         }
       }
 
diff --git a/src/parser/parser_classes/cim6bl.hpp b/src/parser/parser_classes/cim6bl.hpp
index cefec2d..fdb3535 100644
--- a/src/parser/parser_classes/cim6bl.hpp
+++ b/src/parser/parser_classes/cim6bl.hpp
@@ -88,9 +88,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_X1
       if (!data->getValue(LOAD_X1,&rval,l_id)) {
-        data->addValue(LOAD_X1, data_struct.r1, l_id);
+        data->addValue(LOAD_X1, data_struct.x1, l_id);
       } else {
-        data->setValue(LOAD_X1, data_struct.r1, l_id);
+        data->setValue(LOAD_X1, data_struct.x1, l_id);
       }
 
       // LOAD_R2
@@ -123,9 +123,9 @@ template <class _data_struct> class Cim6blParser
 
       // LOAD_E2
       if (!data->getValue(LOAD_E2,&rval,l_id)) {
-        data->addValue(LOAD_E2, data_struct.se2, l_id);
+        data->addValue(LOAD_E2, data_struct.e2, l_id);
       } else {
-        data->setValue(LOAD_E2, data_struct.se2, l_id);
+        data->setValue(LOAD_E2, data_struct.e2, l_id);
       }
 
       // LOAD_SE2
-- 
2.43.0


From 5b8c8537a8890e2764bd804c5195a8453c1cbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 121/138] fix: parameters of composite loads are overwritten by
 others or require one entry more

---
 src/parser/parser_classes/cmldblu1.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser_classes/cmldblu1.hpp b/src/parser/parser_classes/cmldblu1.hpp
index 76f9bd2..4ce4b08 100644
--- a/src/parser/parser_classes/cmldblu1.hpp
+++ b/src/parser/parser_classes/cmldblu1.hpp
@@ -963,16 +963,16 @@ template <class _data_struct> class Cmldblu1Parser
 
       // LOAD_TTR1
       if (!data->getValue(LOAD_TTR1,&rval,l_id)) {
-        data->addValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->addValue(LOAD_TTR1, data_struct.ttr1, l_id);
       } else {
-        data->setValue(LOAD_TTR1, data_struct.ttr2, l_id);
+        data->setValue(LOAD_TTR1, data_struct.ttr1, l_id);
       }
 
       // LOAD_UVTR2
       if (!data->getValue(LOAD_UVTR2,&rval,l_id)) {
         data->addValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       } else {
-        data->setValue(LOAD_VC2ON, data_struct.uvtr2, l_id);
+        data->setValue(LOAD_UVTR2, data_struct.uvtr2, l_id);
       }
 
       // LOAD_TTR2
@@ -1549,7 +1549,7 @@ template <class _data_struct> class Cmldblu1Parser
       }
 
       // LOAD_RSB
-      if (nstr > 71) {
+      if (nstr > 70) {
         if (!data->getValue(LOAD_RSB,&rval,l_id)) {
           data->addValue(LOAD_RSB, atof(split_line[70].c_str()), l_id);
         } else {
@@ -1558,7 +1558,7 @@ template <class _data_struct> class Cmldblu1Parser
       }
 
       // LOAD_LSB
-      if (nstr > 72) {
+      if (nstr > 71) {
         if (!data->getValue(LOAD_LSB,&rval,l_id)) {
           data->addValue(LOAD_LSB, atof(split_line[71].c_str()), l_id);
         } else {
-- 
2.43.0


From c177d51272a527f46ddc488b48d3aa98fb796899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 122/138] fix: time of zone 3 of distance relays is that of
 zone 2

---
 src/parser/parser_classes/distr1.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/parser_classes/distr1.hpp b/src/parser/parser_classes/distr1.hpp
index 007e325..7afc8ce 100644
--- a/src/parser/parser_classes/distr1.hpp
+++ b/src/parser/parser_classes/distr1.hpp
@@ -208,9 +208,9 @@ template <class _data_struct> class Distr1Parser
 
       // RELAY_ZONE3_TIME
       if (!data->getValue(RELAY_ZONE3_TIME,&rval,r_id)) {
-        data->addValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->addValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       } else {
-        data->setValue(RELAY_ZONE3_TIME, data_struct.zone2_time, r_id);
+        data->setValue(RELAY_ZONE3_TIME, data_struct.zone3_time, r_id);
       }
 
       // RELAY_ZONE3_REACH
-- 
2.43.0


From b78bfb379cd6a8cd97d9477fde78e14f36db1a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 123/138] fix: parameters of GENROU and GDFORM generators are
 mixed up

---
 src/parser/parser_classes/gdform.hpp | 5 +++--
 src/parser/parser_classes/genrou.hpp | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parser/parser_classes/gdform.hpp b/src/parser/parser_classes/gdform.hpp
index 6e83f1f..4c7f292 100644
--- a/src/parser/parser_classes/gdform.hpp
+++ b/src/parser/parser_classes/gdform.hpp
@@ -196,6 +196,7 @@ template <class _data_struct> class GdformParser
         gridpack::component::DataCollection *data, int g_id)
     {
       double rval;
+      int ival;
       int nstr = split_line.size();
       // GENERATOR_MODEL              "MODEL"                  string
       std::string stmp, model;
@@ -240,7 +241,7 @@ template <class _data_struct> class GdformParser
         if (!data->getValue(GENERATOR_MP,&rval,g_id)) {
           data->addValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_MP, atof(split_line[10].c_str()), g_id);
+          data->setValue(GENERATOR_MP, atof(split_line[6].c_str()), g_id);
         }
       } 
 
@@ -373,7 +374,7 @@ template <class _data_struct> class GdformParser
 
       // GENERATOR_VFLAG
       if (nstr > 21) {
-        if (!data->getValue(GENERATOR_VFLAG,&rval,g_id)) {
+        if (!data->getValue(GENERATOR_VFLAG,&ival,g_id)) {
           data->addValue(GENERATOR_VFLAG,
               atoi(split_line[21].c_str()), g_id);
         } else {
diff --git a/src/parser/parser_classes/genrou.hpp b/src/parser/parser_classes/genrou.hpp
index 3475803..370936b 100644
--- a/src/parser/parser_classes/genrou.hpp
+++ b/src/parser/parser_classes/genrou.hpp
@@ -66,9 +66,9 @@ template <class _data_struct> class GenrouParser
       // GENERATOR_TQOP
       if (!data->getValue(GENERATOR_TQOP,&rval,g_id)) {
         data->addValue(GENERATOR_TQOP,
-            data_struct.tqopp, g_id);
+            data_struct.tqop, g_id);
       } else {
-        data->setValue(GENERATOR_TQOP, data_struct.tqopp, g_id);
+        data->setValue(GENERATOR_TQOP, data_struct.tqop, g_id);
       }
 
       // GENERATOR_TQOPP
@@ -278,7 +278,7 @@ template <class _data_struct> class GenrouParser
               atof(split_line[10].c_str()), g_id);
         } else {
           data->setValue(GENERATOR_XQ,
-              atof(split_line[9].c_str()), g_id);
+              atof(split_line[10].c_str()), g_id);
         }
       } 
 
-- 
2.43.0


From d9045d70503778d565257d2972e9a405b6f7d243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 124/138] fix: block of WSIEG1 governors is not stored, other
 parameters are overwritten

---
 src/parser/parser_classes/wsieg1.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/parser_classes/wsieg1.hpp b/src/parser/parser_classes/wsieg1.hpp
index dc61689..9794fa8 100644
--- a/src/parser/parser_classes/wsieg1.hpp
+++ b/src/parser/parser_classes/wsieg1.hpp
@@ -95,7 +95,7 @@ template <class _data_struct> class Wsieg1Parser
 
       // GOVERNOR_T3
       if (!data->getValue(GOVERNOR_T3,&rval,g_id)) {
-        data->addValue(GOVERNOR_T3, data_struct.gv_t2, g_id);
+        data->addValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       } else {
         data->setValue(GOVERNOR_T3, data_struct.gv_t3, g_id);
       }
@@ -711,7 +711,7 @@ template <class _data_struct> class Wsieg1Parser
           data->addValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         } else {
-          data->setValue(GOVERNOR_GV4,
+          data->setValue(GOVERNOR_GV5,
               atof(split_line[36].c_str()), g_id);
         }
       } 
@@ -730,7 +730,7 @@ template <class _data_struct> class Wsieg1Parser
       // GOVERNOR_IBLOCK
       if (nstr > 38) {
         if (!data->getValue(GOVERNOR_IBLOCK,&ival,g_id)) {
-          data->addValue(GOVERNOR_PGV5,
+          data->addValue(GOVERNOR_IBLOCK,
               atoi(split_line[38].c_str()), g_id);
         } else {
           data->setValue(GOVERNOR_IBLOCK,
-- 
2.43.0


From af72fedca695af2bb507d7998d8e0b098a396826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 125/138] fix: parameters of REECA1 and REPCA1 models are
 overwritten by others

---
 src/parser/parser_classes/reeca1.hpp | 2 +-
 src/parser/parser_classes/repca1.hpp | 5 ++---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/parser_classes/reeca1.hpp b/src/parser/parser_classes/reeca1.hpp
index 1d517be..25ff3c8 100644
--- a/src/parser/parser_classes/reeca1.hpp
+++ b/src/parser/parser_classes/reeca1.hpp
@@ -644,7 +644,7 @@ template <class _data_struct> class Reeca1Parser
         if (!data->getValue(GENERATOR_REECA_TIQ,&rval,g_id)) {
           data->addValue(GENERATOR_REECA_TIQ, atof(split_line[ 31].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_REECA_TIQ, atof(split_line[ 32].c_str()), g_id);
+          data->setValue(GENERATOR_REECA_TIQ, atof(split_line[ 31].c_str()), g_id);
         }
       } 
 	  
diff --git a/src/parser/parser_classes/repca1.hpp b/src/parser/parser_classes/repca1.hpp
index 340c16d..296dbfe 100644
--- a/src/parser/parser_classes/repca1.hpp
+++ b/src/parser/parser_classes/repca1.hpp
@@ -334,8 +334,7 @@ template <class _data_struct> class Repca1Parser
         }
 		*/
 
-	    std::string idtmp = util.trimQuotes(split_line[6]);
-        util.toUpper(idtmp);
+	    std::string idtmp = util.clean2Char(split_line[6]);
         if (!data->getValue(GENERATOR_REPCA_BRCH_CKT, &stmp, g_id)) {
           data->addValue(GENERATOR_REPCA_BRCH_CKT, idtmp.c_str(), g_id);
         } else {
@@ -551,7 +550,7 @@ template <class _data_struct> class Repca1Parser
         if (!data->getValue(GENERATOR_REPCA_FEMIN,&rval,g_id)) {
           data->addValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 31].c_str()), g_id);
         } else {
-          data->setValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 32].c_str()), g_id);
+          data->setValue(GENERATOR_REPCA_FEMIN, atof(split_line[ 31].c_str()), g_id);
         }
       } 
 	  
-- 
2.43.0


From 1199d7a662106e743aa0da5f9d85e9750cabe96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 126/138] fix: inputs of PSSSIM stabilisers cannot be read as
 integers

---
 src/parser/parser_classes/psssim.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parser/parser_classes/psssim.hpp b/src/parser/parser_classes/psssim.hpp
index 43b4466..f019a41 100644
--- a/src/parser/parser_classes/psssim.hpp
+++ b/src/parser/parser_classes/psssim.hpp
@@ -201,10 +201,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 3) {
         if (!data->getValue(PSSSIM_INPUTTYPE,&ival,g_id)) {
           data->addValue(PSSSIM_INPUTTYPE,
-              atof(split_line[3].c_str()), g_id);
+              atoi(split_line[3].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_INPUTTYPE,
-              atof(split_line[3].c_str()), g_id);
+              atoi(split_line[3].c_str()), g_id);
         }
       } 
 
@@ -212,10 +212,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 4) {
         if (!data->getValue(PSSSIM_BUS1,&ival,g_id)) {
           data->addValue(PSSSIM_BUS1,
-              atof(split_line[4].c_str()), g_id);
+              atoi(split_line[4].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS1,
-              atof(split_line[4].c_str()), g_id);
+              atoi(split_line[4].c_str()), g_id);
         }
       } 
 
@@ -223,10 +223,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 5) {
         if (!data->getValue(PSSSIM_BUS2,&ival,g_id)) {
           data->addValue(PSSSIM_BUS2,
-              atof(split_line[5].c_str()), g_id);
+              atoi(split_line[5].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS2,
-              atof(split_line[5].c_str()), g_id);
+              atoi(split_line[5].c_str()), g_id);
         }
       } 
 
@@ -234,10 +234,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 6) {
         if (!data->getValue(PSSSIM_BUS3,&ival,g_id)) {
           data->addValue(PSSSIM_BUS3,
-              atof(split_line[6].c_str()), g_id);
+              atoi(split_line[6].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS3,
-              atof(split_line[6].c_str()), g_id);
+              atoi(split_line[6].c_str()), g_id);
         }
       } 
 
@@ -245,10 +245,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 7) {
         if (!data->getValue(PSSSIM_BUS4,&ival,g_id)) {
           data->addValue(PSSSIM_BUS4,
-              atof(split_line[7].c_str()), g_id);
+              atoi(split_line[7].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS4,
-              atof(split_line[7].c_str()), g_id);
+              atoi(split_line[7].c_str()), g_id);
         }
       } 
 
@@ -256,10 +256,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 8) {
         if (!data->getValue(PSSSIM_BUS5,&ival,g_id)) {
           data->addValue(PSSSIM_BUS5,
-              atof(split_line[8].c_str()), g_id);
+              atoi(split_line[8].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS5,
-              atof(split_line[8].c_str()), g_id);
+              atoi(split_line[8].c_str()), g_id);
         }
       } 
 
@@ -267,10 +267,10 @@ template <class _data_struct> class PsssimParser
       if (nstr > 9) {
         if (!data->getValue(PSSSIM_BUS6,&ival,g_id)) {
           data->addValue(PSSSIM_BUS6,
-              atof(split_line[9].c_str()), g_id);
+              atoi(split_line[9].c_str()), g_id);
         } else {
           data->setValue(PSSSIM_BUS6,
-              atof(split_line[9].c_str()), g_id);
+              atoi(split_line[9].c_str()), g_id);
         }
       }
 
-- 
2.43.0


From fabb9dc0a7f4f508edecce25580d6f152aaa5e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 127/138] fix: repeated IEELBL loads keep the first value of A1

---
 src/parser/parser_classes/ieelbl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/parser_classes/ieelbl.hpp b/src/parser/parser_classes/ieelbl.hpp
index 829f327..f8fb94c 100644
--- a/src/parser/parser_classes/ieelbl.hpp
+++ b/src/parser/parser_classes/ieelbl.hpp
@@ -177,7 +177,7 @@ template <class _data_struct> class IeelblParser
 
       // LOAD_A1
       if (nstr > 3) {
-        if (!data->getValue(LOAD_A1,&ival,l_id)) {
+        if (!data->getValue(LOAD_A1,&rval,l_id)) {
           data->addValue(LOAD_A1, atof(split_line[3].c_str()), l_id);
         } else {
           data->setValue(LOAD_A1, atof(split_line[3].c_str()), l_id);
-- 
2.43.0


From 6d3b63927c54ed8e9b4e33065037ff2af5da56b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 128/138] fix: reading device parameters crashes because bus
 and branch maps are not set

---
 src/parser/PTI33_parser.hpp | 2 ++
 src/parser/PTI34_parser.hpp | 2 ++
 src/parser/PTI35_parser.hpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/parser/PTI33_parser.hpp b/src/parser/PTI33_parser.hpp
index 80bd232..d575664 100644
--- a/src/parser/PTI33_parser.hpp
+++ b/src/parser/PTI33_parser.hpp
@@ -99,6 +99,7 @@ class PTI33_parser : public BasePTIParser<_network>
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else if (ext == "dyr") {
+        this->setMaps(&p_busMap, &p_branchMap);
         this->getDS(tmpstr);
       }
       p_timer->stop(t_total);
@@ -121,6 +122,7 @@ class PTI33_parser : public BasePTIParser<_network>
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else {
+        this->setMaps(&p_busMap, &p_branchMap);
         this->getDS(fileVec);
       }
       p_timer->stop(t_total);
diff --git a/src/parser/PTI34_parser.hpp b/src/parser/PTI34_parser.hpp
index 0f86e64..15291d7 100644
--- a/src/parser/PTI34_parser.hpp
+++ b/src/parser/PTI34_parser.hpp
@@ -101,6 +101,7 @@ class PTI34_parser : public BasePTIParser<_network>
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else if (ext == "dyr") {
+        this->setMaps(&p_busMap, &p_branchMap);
         this->getDS(tmpstr);
       }
       p_timer->stop(t_total);
@@ -123,6 +124,7 @@ class PTI34_parser : public BasePTIParser<_network>
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else {
+        this->setMaps(&p_busMap, &p_branchMap);
         this->getDS(fileVec);
       }
       p_timer->stop(t_total);
diff --git a/src/parser/PTI35_parser.hpp b/src/parser/PTI35_parser.hpp
index d61abf4..534bc2d 100644
--- a/src/parser/PTI35_parser.hpp
+++ b/src/parser/PTI35_parser.hpp
@@ -101,6 +101,7 @@ class PTI35_parser : public BasePTIParser<_network>
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else if (ext == "dyr") {
+        this->setMaps(&p_busMap, &p_branchMap);
         this->getDS(tmpstr);
       }
       p_timer->stop(t_total);
@@ -123,6 +124,7 @@ class PTI35_parser : public BasePTIParser<_network>
         getCase();
         this->createNetwork(p_busData,p_branchData);
       } else {
+        this->setMaps(&p_busMap, &p_branchMap);
         this->getDS(fileVec);
       }
       p_timer->stop(t_total);
-- 
2.43.0


From d5213da75f957628f7a657ae67b9028c5d924927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 129/138] fix: relays and devices are numbered differently on
 different processes

---
 src/parser/hash_distr.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/parser/hash_distr.hpp b/src/parser/hash_distr.hpp
index 7705ef3..1c3c7b4 100644
--- a/src/parser/hash_distr.hpp
+++ b/src/parser/hash_distr.hpp
@@ -203,7 +203,8 @@ public:
     values.clear();
     double delta = static_cast<double>(total_values)/static_cast<double>(nprocs);
     for (i = 0; i<nprocs; i++) {
-      idx = (i+me)%nprocs;
+      // Go through data in the same order on all processes
+      idx = i;
       lo = static_cast<int>(delta*static_cast<double>(idx));
       if (idx<nprocs-1) {
         hi = static_cast<int>(delta*static_cast<double>(idx+1))-1;
@@ -615,7 +616,8 @@ public:
     values.clear();
     double delta = static_cast<double>(total_values)/static_cast<double>(nprocs);
     for (i = 0; i<nprocs; i++) {
-      idx = (i+me)%nprocs;
+      // Go through data in the same order on all processes
+      idx = i;
       lo = static_cast<int>(delta*static_cast<double>(idx));
       if (idx<nprocs-1) {
         hi = static_cast<int>(delta*static_cast<double>(idx+1))-1;
@@ -1075,7 +1077,8 @@ public:
     values.clear();
     double delta = static_cast<double>(total_values)/static_cast<double>(nprocs);
     for (i = 0; i<nprocs; i++) {
-      idx = (i+me)%nprocs;
+      // Go through data in the same order on all processes
+      idx = i;
       lo = static_cast<int>(delta*static_cast<double>(idx));
       if (idx<nprocs-1) {
         hi = static_cast<int>(delta*static_cast<double>(idx+1))-1;
@@ -1505,7 +1508,8 @@ public:
     values.clear();
     double delta = static_cast<double>(total_values)/static_cast<double>(nprocs);
     for (i = 0; i<nprocs; i++) {
-      idx = (i+me)%nprocs;
+      // Go through data in the same order on all processes
+      idx = i;
       lo = static_cast<int>(delta*static_cast<double>(idx));
       if (idx<nprocs-1) {
         hi = static_cast<int>(delta*static_cast<double>(idx+1))-1;
-- 
2.43.0


From fb74310676cc046494d8674d8280a41c86cf3754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 130/138] fix: ESST4B exciters are ignored when parameters are
 read before partitioning

---
 src/parser/base_pti_parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index e7f134a..def2553 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1650,7 +1650,7 @@ class BasePTIParser : public BaseParser<_network>
             } else if (sval == "ESST1A") {
               Esst1aParser<gen_params> parser;
               parser.parse(split_line, data, g_id);
-            } else if (sval == "ESST4A") {
+            } else if (sval == "ESST4B") {
               Esst4bParser<gen_params> parser;
               parser.parse(split_line, data, g_id);
             } else if (sval == "GGOV1") {
-- 
2.43.0


From 0137cb43168e3e5395d46cddd34fbb6903b0a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 131/138] fix: distance relays are stored on a bus instead of
 their branch

---
 src/parser/base_pti_parser.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index def2553..1efd65c 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1776,6 +1776,8 @@ class BasePTIParser : public BaseParser<_network>
           } else {
             continue;
           }
+          data = dynamic_cast<gridpack::component::DataCollection*>
+            (p_network->getBranchData(l_idx).get());
           if (sval == "DISTR1") {
             Distr1Parser<gen_params> parser;
             parser.parse(split_line, data);
-- 
2.43.0


From 9ad2ca77765a961d1d4c6512f070ad9f47ea8b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 132/138] fix: values missing in records of device parameters
 are undefined

---
 src/parser/base_pti_parser.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index 1efd65c..cf068d8 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1823,7 +1823,7 @@ class BasePTIParser : public BaseParser<_network>
         util.toUpper(sval);
 
         if (onGenerator(sval)) {
-          gen_params data;
+          gen_params data = gen_params();
 
           // GENERATOR_BUSNUMBER               "I"                   integer
           int o_idx;
@@ -1929,14 +1929,14 @@ class BasePTIParser : public BaseParser<_network>
           // RELAY_BUSNUMBER               "I"                   integer
           int o_idx;
           if (sval == "LVSHBL") {
-            bus_relay_params data;
+            bus_relay_params data = bus_relay_params();
             o_idx = atoi(split_line[0].c_str());
             data.bus_id = o_idx;
             LvshblParser<bus_relay_params> parser;
             parser.store(split_line,data);
             bus_relay_vector->push_back(data);
           } else if (sval == "FRQTPAT") {
-            bus_relay_params data;
+            bus_relay_params data = bus_relay_params();
             o_idx = atoi(split_line[3].c_str());
             data.bus_id = o_idx;
             FrqtpatParser<bus_relay_params> parser;
@@ -1945,7 +1945,7 @@ class BasePTIParser : public BaseParser<_network>
           }
         } else if (onLoad(sval)) {
           // ID of bus that owns load
-          load_params data;
+          load_params data = load_params();
           int o_idx = atoi(split_line[0].c_str());
           data.bus_id = o_idx;
 
@@ -1971,7 +1971,7 @@ class BasePTIParser : public BaseParser<_network>
           }
           load_vector->push_back(data);
         } else if (onBranch(sval)) {
-          branch_relay_params data;
+          branch_relay_params data = branch_relay_params();
 
           int from_idx, to_idx;
           if (sval == "DISTR1") {
-- 
2.43.0


From 840e11e758bede594c21feef2d2f5c3cc1dda6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:12 +0000
Subject: [PATCH 133/138] fix: comments, line ends, short and unterminated
 records of device parameters crash or hang

---
 src/parser/base_pti_parser.hpp | 85 +++++++++++++++++++---------------
 1 file changed, 47 insertions(+), 38 deletions(-)

diff --git a/src/parser/base_pti_parser.hpp b/src/parser/base_pti_parser.hpp
index cf068d8..d1f8cb6 100644
--- a/src/parser/base_pti_parser.hpp
+++ b/src/parser/base_pti_parser.hpp
@@ -1536,27 +1536,54 @@ class BasePTIParser : public BaseParser<_network>
       return ret;
     }
 
-    void find_ds_par(std::istream & input)
+    /**
+     * Read next record from .dyr file. Blank lines and comments in front of
+     * the record are ignored, the record extends up to the first '/'
+     * @param input stream containing .dyr file
+     * @param split_line list of tokens in record
+     * @return false if there are no more records in the file
+     */
+    bool readDSRecord(std::istream & input, std::vector<std::string> &split_line)
     {
-      std::string          line;
-      gridpack::component::DataCollection *data;
-      while(std::getline(input,line)) {
-        // Check to see if line is blank
-        int idx = line.find_first_not_of(' ');
-        if (idx == std::string::npos) continue;
+      std::string line;
+      while (std::getline(input,line)) {
+        // Check to see if line is blank or a comment. Some systems use \r\n for
+        // line ends.
+        std::size_t idx = line.find_first_not_of(" \r");
+        if (idx == std::string::npos || line[idx] == '/') continue;
 
         std::string record = line;
-        idx = line.find('/');
-        while (idx == std::string::npos) {
-          std::getline(input,line);
-          idx = line.find('/');
+        while (line.find('/') == std::string::npos && std::getline(input,line)) {
+          // The end of a line also separates values
+          record.append(" ");
           record.append(line);
         }
         idx = record.find('/');
-        if (idx != std::string::npos) record.erase(idx,record.length()-idx);
-        std::vector<std::string>  split_line;
+        if (idx != std::string::npos) record.erase(idx);
+        idx = record.find('\r');
+        while (idx != std::string::npos) {
+          record[idx] = ' ';
+          idx = record.find('\r',idx);
+        }
         split_line = splitPSSELine(record);
+        // All records start with bus, model and device (or second bus). Some
+        // models need an additional value to identify the device
+        if (split_line.size() < 3) continue;
+        gridpack::utility::StringUtils util;
+        std::string sval = util.trimQuotes(split_line[1]);
+        util.toUpper(sval);
+        if (split_line.size() < 4 && (sval == "FRQTPAT" || sval == "USRLOD"))
+          continue;
+        return true;
+      }
+      return false;
+    }
 
+    void find_ds_par(std::istream & input)
+    {
+      std::vector<std::string>  split_line;
+      gridpack::component::DataCollection *data;
+      while(readDSRecord(input,split_line)) {
         std::string sval;
         // MODEL TYPE              "MODEL"                  string
         gridpack::utility::StringUtils util;
@@ -1748,6 +1775,8 @@ class BasePTIParser : public BaseParser<_network>
               }
             }
           }
+          // Check to see if parameters can be assigned to a load
+          if (l_id < 0) continue;
           if (sval == "CIM6BL") {
             Cim6blParser<load_params> parser;
             parser.parse(split_line, data, l_id);
@@ -1757,6 +1786,7 @@ class BasePTIParser : public BaseParser<_network>
           } else if (sval == "USRLOD") {
             std::string sdev;
             sdev = util.trimQuotes(split_line[3]);
+            util.toUpper(sdev);
             if (sdev == "ACMTBLU1") {
               Acmtblu1Parser<load_params> parser;
               parser.parse(split_line, data, l_id);
@@ -1792,31 +1822,9 @@ class BasePTIParser : public BaseParser<_network>
         std::vector<branch_relay_params> *branch_relay_vector,
         std::vector<load_params> *load_vector)
     {
-      std::string          line;
+      std::vector<std::string>  split_line;
       gen_vector->clear();
-      while(std::getline(input,line)) {
-        // Check to see if line is blank
-        int idx = line.find_first_not_of(' ');
-	int idx2 = line.find_first_not_of('\r'); // Some systems use \r\n for line ends.
-        if (idx == std::string::npos || idx2 == std::string::npos) continue;
-        // Check to see if line is a comment
-        if (line[idx] == '/') {
-          if (line.length() > idx+2 && line[idx+1] == '/') {
-            continue;
-          }
-        }
-
-        std::string record = line;
-        idx = line.find('/');
-        while (idx == std::string::npos) {
-          std::getline(input,line);
-          idx = line.find('/');
-          record.append(line);
-        }
-        idx = record.find('/');
-        if (idx != std::string::npos) record.erase(idx,record.length()-idx);
-        std::vector<std::string>  split_line;
-        split_line = splitPSSELine(record);
+      while(readDSRecord(input,split_line)) {
         std::string sval;
         gridpack::utility::StringUtils util;
         sval = util.trimQuotes(split_line[1]);
@@ -1961,6 +1969,7 @@ class BasePTIParser : public BaseParser<_network>
           } else if (sval == "USRLOD") {
             std::string sdev;
             sdev = util.trimQuotes(split_line[3]);
+            util.toUpper(sdev);
             if (sdev == "ACMTBLU1") {
               Acmtblu1Parser<load_params> parser;
               parser.store(split_line,data);
@@ -1976,7 +1985,7 @@ class BasePTIParser : public BaseParser<_network>
           int from_idx, to_idx;
           if (sval == "DISTR1") {
             from_idx = atoi(split_line[0].c_str());
-            to_idx = atoi(split_line[3].c_str());
+            to_idx = atoi(split_line[2].c_str());
             data.from_bus = from_idx;
             data.to_bus = to_idx;
             Distr1Parser<branch_relay_params> parser;
-- 
2.43.0


From b9e7ab78edb2322dc8211409ee8aa31151aba9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 134/138] fix: control blocks start again with old or undefined
 states

---
 .../modules/dynamic_simulation_full_y/cblock.cpp    | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/cblock.cpp b/src/applications/modules/dynamic_simulation_full_y/cblock.cpp
index a5d14e4..4efe5a6 100644
--- a/src/applications/modules/dynamic_simulation_full_y/cblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/cblock.cpp
@@ -142,12 +142,9 @@ double Cblock::getoutput(double u,double dt,IntegrationStage stage,bool dostateu
 
 void Cblock::init(double u, double y)
 {
-  double uout;
-  if(fabs(p_A[0]) < 1e-10) x[0] = y;
-  else {
-    uout = y/(p_D[0] - p_C[0]*p_B[0]/p_A[0]);
-    x[0] = -p_B[0]/p_A[0]*uout;
-  }
+  x[0] = (y - p_D[0]*u)/p_C[0];
+  p_xhat[0] = x[0];
+  p_current_stage = PREDICTOR;
 }
 
 double Cblock::init_given_u(double u)
@@ -163,6 +160,8 @@ double Cblock::init_given_u(double u)
     x[0] = -p_B[0]/p_A[0]*u;
     y    = p_C[0]*x[0] + p_D[0]*u;
   }
+  p_xhat[0] = x[0];
+  p_current_stage = PREDICTOR;
   return y;
 }
 
@@ -176,6 +175,8 @@ double Cblock::init_given_y(double y)
     u = y/(p_D[0] - p_C[0]*p_B[0]/p_A[0]);
     x[0] = -p_B[0]/p_A[0]*u;
   }
+  p_xhat[0] = x[0];
+  p_current_stage = PREDICTOR;
   return u;
 }
 
-- 
2.43.0


From 20d2c85029655a7b73f5ec61c47fd6413538beea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 135/138] fix: backlash moves down to the wrong value

---
 .../dynamic_simulation_full_y/model_classes/BackLashClass.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
index 8ec19f6..3e48bbe 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/BackLashClass.cpp
@@ -55,7 +55,7 @@ double gridpack::dynamic_simulation::BackLashClass::Output(double theInput)
     if (theInput > LastOutput + Db2)
       Result = theInput -Db2; // Going up -dB2
     else 
-      Result = theInput -Db2; // Going down -Db2    
+      Result = theInput +Db2; // Going down +Db2    
     LastOutput = Result;
   }
   return Result;
-- 
2.43.0


From 9955404a8ab69655ca3f3becae348491f15816d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 136/138] fix: deadband with hysteresis decides by an undefined
 value

---
 .../model_classes/DBIntClass.cpp                       | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
index 5629972..bda330f 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/DBIntClass.cpp
@@ -41,8 +41,8 @@ void gridpack::dynamic_simulation::DBIntClass::Initialize(double theDb1, double
 {
   InitialValue = theInit;
   State = 0;
-  Db1 = abs(theDb1); // Negatives not allowed
-  Eps = abs(theEps);
+  Db1 = std::abs(theDb1); // Negatives not allowed
+  Eps = std::abs(theEps);
   if (Eps > Db1) Eps = Db1; // Don't allow it to be larger
   //printf("theDb1 = %f, theEps = %f, theInit = %f\n", theDb1, theEps, theInit);
   //printf("Db1 = %f, Eps = %f, InitialValue = %f\n", Db1, Eps, InitialValue);
@@ -56,7 +56,7 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
   double Result;
   anInput = anInput - InitialValue; // InitialValue almost always zero
   // Most common situation when deadband resulting in no output
-  if (abs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
+  if (std::abs(anInput) <= Db1 && ((Eps == 0) || (State == 0))) 
     Result = 0;
   // No Hysteresis
   else if (Eps == 0) { // Must be eitehr > Db1 or < -Db1
@@ -89,14 +89,14 @@ double gridpack::dynamic_simulation::DBIntClass::Output(double anInput)
   // Do remaining case with Eps > 0 and Eps < Db1.
   // Note we covered the case with input < Db1 with State=0 above
   } else {
-    if (Result >= Db1) {
+    if (anInput >= Db1) {
       Result = anInput - Db1 + Eps;
       State = 1;
     } else if (anInput <= -Db1) {
       Result = anInput + Db1 - Eps;
       State = 2;
     } else { // Cover case of close to zero
-      if (abs(anInput) <= Db1 - Eps) {
+      if (std::abs(anInput) <= Db1 - Eps) {
         Result = 0;
         State = 0;
       } else if (anInput > 0) { // Between Db1-Eps and Db1
-- 
2.43.0


From d51ff310336b33594a1d687006f26b1572b53bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:04 +0000
Subject: [PATCH 137/138] fix: piecewise linear functions are undefined for
 decreasing inputs, outputs or flat pieces

---
 .../dynamic_simulation_full_y/dblock.cpp      | 26 +++++++++++++------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
index ba150ea..f3d151c 100644
--- a/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/dblock.cpp
@@ -143,9 +143,11 @@ PiecewiseSlope::PiecewiseSlope(void)
 
 void PiecewiseSlope::setparams(int n, double *uin, double *yin)
 {
-  double u[2],y[2],ya,yb;
+  double u[2],y[2];
   int    i;
 
+  p_n = 0;
+
   // Check the slope direction - increasing or decreasing
   if(uin[1] > uin[0]) p_increasing = true;
   else p_increasing = false;
@@ -158,7 +160,12 @@ void PiecewiseSlope::setparams(int n, double *uin, double *yin)
       p_y[p_n]   = yin[i];
       p_y[p_n+1] = yin[i+1];
 
-      p_slopes[p_n].setparams(p_u+p_n,p_y+p_n,p_y[p_n],p_y[p_n+1]);
+      // Points of a slope are given in increasing order
+      u[0] = std::min(uin[i],uin[i+1]);
+      u[1] = std::max(uin[i],uin[i+1]);
+      y[0] = p_increasing ? yin[i] : yin[i+1];
+      y[1] = p_increasing ? yin[i+1] : yin[i];
+      p_slopes[p_n].setparams(u,y,y[0],y[1]);
       p_n++;
     }
   }
@@ -175,7 +182,7 @@ double PiecewiseSlope::getoutput(double u)
   if(!p_increasing && u <= p_u[p_n]) yout = p_y[p_n];
 
   for(i=0; i < p_n; i++) {
-    if(p_u[i] <= u && u <= p_u[i+1]) {
+    if(std::min(p_u[i],p_u[i+1]) <= u && u <= std::max(p_u[i],p_u[i+1])) {
       yout = p_slopes[i].getoutput(u);
     }
   }
@@ -188,13 +195,16 @@ double PiecewiseSlope::init_given_y(double yout)
   int i;
   double u;
   
-  if(p_increasing  && yout <= p_y[0])   u = p_u[0];
-  if(p_increasing  && yout >= p_y[p_n]) u = p_u[p_n];
-  if(!p_increasing && yout >= p_y[0])   u = p_u[0];
-  if(!p_increasing && yout <= p_y[p_n]) u = p_u[p_n];
+  bool rising = p_y[0] <= p_y[p_n];
+  if(rising  && yout <= p_y[0])   u = p_u[0];
+  if(rising  && yout >= p_y[p_n]) u = p_u[p_n];
+  if(!rising && yout >= p_y[0])   u = p_u[0];
+  if(!rising && yout <= p_y[p_n]) u = p_u[p_n];
 
   for (i=0; i<p_n; i++) {
-    if (p_y[i] <= yout && yout <= p_y[i+1]) {
+    if (p_y[i] == p_y[i+1]) {
+      if (yout == p_y[i]) u = p_u[i];
+    } else if (std::min(p_y[i],p_y[i+1]) <= yout && yout <= std::max(p_y[i],p_y[i+1])) {
       u = p_u[i] + (p_u[i+1] - p_u[i]) / (p_y[i+1] - p_y[i]) * (yout - p_y[i]);
     }
   }
-- 
2.43.0


From 0a35a0b85e932635221ac6d226317ec8eb6a4b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:48 +0000
Subject: [PATCH 138/138] fix: ESST1A exciters without one of their time
 constants crash, their second lead-lag is skipped

---
 .../model_classes/esst1a.cpp                  | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
index 7913906..c3c7548 100644
--- a/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
+++ b/src/applications/modules/dynamic_simulation_full_y/model_classes/esst1a.cpp
@@ -129,8 +129,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
 
   HVGate_blk1.setparams(Vuel); // is UEL Vuel?
 
-  Leadlag_blkBC.setparams(Tc, Tb);
-  Leadlag_blkBC1.setparams(Tc1, Tb1);
+  if(!zero_TB) Leadlag_blkBC.setparams(Tc, Tb);
+  if(!zero_TB1) Leadlag_blkBC1.setparams(Tc1, Tb1);
 
   if(!zero_TA) {
     Regulator_blk.setparams(Ka,Ta,Vrmin,Vrmax,-1000.0,1000.0);
@@ -144,11 +144,12 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double a[2], b[2];
   a[0] = Tf; a[1] = 1.0;
   b[0] = Kf; b[1] = 0.0;
-  Feedback_blkF.setcoeffs(a, b);
+  if(!zero_TF) Feedback_blkF.setcoeffs(a, b);
   
   Vterm = mag;
   
-  Vf = Feedback_blkF.init_given_u(Efd);
+  if(!zero_TF) Vf = Feedback_blkF.init_given_u(Efd);
+  else Vf = 0.0;
   
   if (OptionToModifyLimitsForInitialStateLimitViolation) {
     if (Efd > (Vterm * Vrmax - Kc * LadIfd)) Vrmax = (Efd + Kc * LadIfd) / Vterm+0.21;
@@ -182,11 +183,13 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
     if (VA > Vamax) Vamax = VA+0.1;
     if (VA < Vamin) Vamin = VA-0.1;
   }
-  VLL1 = Regulator_blk.init_given_y(VA);
+  if(!zero_TA) VLL1 = Regulator_blk.init_given_y(VA);
+  else VLL1 = VA/Ka;
 
-
-  VLL = Leadlag_blkBC1.init_given_y(VLL1);
-  double u1 = Leadlag_blkBC.init_given_y(VLL);
+  if(!zero_TB1) VLL = Leadlag_blkBC1.init_given_y(VLL1);
+  else VLL = VLL1;
+  double u1 = VLL;
+  if(!zero_TB) u1 = Leadlag_blkBC.init_given_y(VLL);
 
   // HV Gate?
   // assume HV gate always take feedforward path during initialization, may need to adjust Vuel
@@ -202,7 +205,8 @@ void gridpack::dynamic_simulation::Esst1aModel::init(double mag, double ang, dou
   double Vop = 0.0;
   if (UEL == 1.0) Vop += Vuel;
   if (VOS == 1.0) Vop += Vothsg;
-  Vmeas = Filter_blkR.init_given_u(Vcomp);
+  if(!zero_TR) Vmeas = Filter_blkR.init_given_u(Vcomp);
+  else Vmeas = Vcomp;
   Vref = u1 + Vmeas - Vop + Vf;
 
 }
@@ -223,7 +227,8 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
   if (VOS == 1.0) Vop += Vothsg;
   double Verr = Vref - Vmeas + Vop;
 
-  Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  if(!zero_TF) Vf = Feedback_blkF.getoutput(Efd, t_inc, int_flag, true);
+  else Vf = 0.0;
 
   double leadlag_blk_in = Verr - Vf;
 
@@ -234,14 +239,16 @@ void gridpack::dynamic_simulation::Esst1aModel::computeModel(double t_inc,Integr
 
   if (UEL == 2.0) leadlag_blk_in = HVGate_blk1.getoutput(leadlag_blk_in);
 
-  VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  if(!zero_TB) VLL = Leadlag_blkBC.getoutput(leadlag_blk_in, t_inc, int_flag, true);
+  else VLL = leadlag_blk_in;
   
-  VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true); 
+  if(!zero_TB1) VLL1 = Leadlag_blkBC1.getoutput(VLL, t_inc, int_flag, true);
+  else VLL1 = VLL;
 
   if (zero_TA) {
     VA = Regulator_gain_blk.getoutput(VLL1);
   } else {
-    VA = Regulator_blk.getoutput(VLL, t_inc, int_flag, true);
+    VA = Regulator_blk.getoutput(VLL1, t_inc, int_flag, true);
   }
 
   double u1 = 0.0;
-- 
2.43.0

