From 74399e17cd6a4c4684c7f2bdebdfe215def31821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 1/4] fix: make repeated AssembledConnections::compress()
 independent of earlier graphs

The maximum vertex indices and the connection weights of the previously
compressed graph survived, so that a smaller or unweighted graph assembled
in the same object was wrongly rejected, had too many rows or kept stale
weights.
---
 opm/utility/graph/AssembledConnections.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 6747b21..29f511f 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -63,6 +63,9 @@ Opm::AssembledConnections::Connections::clear()
     WeightVector().swap(v_);
     EntityVector().swap(j_);
     EntityVector().swap(i_);
+
+    max_i_ = -1;
+    max_j_ = -1;
 }
 
 bool
@@ -149,6 +152,9 @@ CSR::create(const Connections& conns, const Offset numrows)
     if (conns.isWeighted()) {
         this->accumulateConnWeights(conns.v());
     }
+    else {
+        this->sa_.clear();
+    }
 
     const auto nRows = this->ia().size() - 1;
     if (nRows < numrows) {
-- 
2.43.0


From 577da448c2350b9b7e38a107d8ff1d3b68a3f7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 2/4] fix: restore stream format flags after printing
 connections

setf() only adds flags, so that the stream stayed in scientific notation;
moreover a stream in fixed notation printed weights as hexadecimal floats.
---
 opm/utility/graph/AssembledConnections.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/utility/graph/AssembledConnections.cpp b/opm/utility/graph/AssembledConnections.cpp
index 29f511f..9c875a4 100644
--- a/opm/utility/graph/AssembledConnections.cpp
+++ b/opm/utility/graph/AssembledConnections.cpp
@@ -474,7 +474,8 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 {
     // Set output stream format, store original settings.
     const auto oprec = os.precision(16);
-    const auto oflags = os.setf(std::ios_base::scientific);
+    const auto oflags = os.setf(std::ios_base::scientific,
+                                std::ios_base::floatfield);
 
     // Write connections cell-by-cell.
     const int num_cells = ac.numRows();
@@ -487,7 +488,7 @@ Opm::operator<<(std::ostream& os, const Opm::AssembledConnections& ac)
 
     // Restore original stream settings.
     os.precision(oprec);
-    os.setf(oflags);
+    os.flags(oflags);
 
     return os;
 }
-- 
2.43.0


From 622180dc00bd18ec496243de1b95d23e66d2093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:15 +0000
Subject: [PATCH 3/4] fix: reject negative cell indices in connectivity graph

---
 opm/flowdiagnostics/ConnectivityGraph.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opm/flowdiagnostics/ConnectivityGraph.cpp b/opm/flowdiagnostics/ConnectivityGraph.cpp
index 255f23f..a69bd74 100644
--- a/opm/flowdiagnostics/ConnectivityGraph.cpp
+++ b/opm/flowdiagnostics/ConnectivityGraph.cpp
@@ -44,10 +44,11 @@ ConnectivityGraph::ConnectivityGraph(const int        num_cells,
         throw std::logic_error("Neighbourship must be N-by-2");
     }
 
-    if ((! connCells_.empty()) &&
-        (*std::max_element(connCells_.begin(),
-                           connCells_.end())
-         >= num_cells))
+    if (! std::all_of(connCells_.begin(), connCells_.end(),
+                      [num_cells](const int cell)
+                      {
+                          return (cell >= 0) && (cell < num_cells);
+                      }))
     {
         throw std::logic_error("Cell indices must be in range");
     }
-- 
2.43.0


From 67c4876661f582b5b9bf1a811b14101795d7873f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:55 +0000
Subject: [PATCH 4/4] fix: throw when the topological ordering cannot be
 allocated

---
 opm/flowdiagnostics/TracerTofSolver.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opm/flowdiagnostics/TracerTofSolver.cpp b/opm/flowdiagnostics/TracerTofSolver.cpp
index e787d7f..1b52ec2 100644
--- a/opm/flowdiagnostics/TracerTofSolver.cpp
+++ b/opm/flowdiagnostics/TracerTofSolver.cpp
@@ -214,6 +214,10 @@ namespace FlowDiagnostics
         std::unique_ptr<TarjanSCCResult, Deleter>
             result(tarjan(num_cells, g_.startPointers().data(), g_.neighbourhood().data()));
 
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeOrdering()");
+        }
+
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
         if (!ok) {
@@ -254,10 +258,17 @@ namespace FlowDiagnostics
         {
             struct WorkspaceDeleter { void operator()(TarjanWorkSpace* x) { destroy_tarjan_workspace(x); } };
             std::unique_ptr<TarjanWorkSpace, WorkspaceDeleter> ws(create_tarjan_workspace(num_cells));
+            if (!ws) {
+                throw std::runtime_error("Failed to allocate work space in TracerTofSolver::computeLocalOrdering()");
+            }
             result.reset(tarjan_reachable_sccs(num_cells, g_.startPointers().data(), g_.neighbourhood().data(),
                                                startcells.size(), startcells.data(), ws.get()));
         }
 
+        if (!result) {
+            throw std::runtime_error("Failed to compute topological ordering in TracerTofSolver::computeLocalOrdering()");
+        }
+
         // Must reverse ordering, since Tarjan computes reverse ordering.
         const int ok = tarjan_reverse_sccresult(result.get());
         if (!ok) {
-- 
2.43.0

