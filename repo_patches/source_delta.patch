From 11e63ccd0b0b5719a1cb86d2aa2fd28766b4c24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 01/32] fix: cost cover uses the primal bound in the original
 objective, not the scaled one

SCIP divides an integral objective by the gcd of its coefficients and
SCIPgetUpperbound() returns the bound of that scaled problem. Comparing
unscaled path distances with it cut off optimal tours.
---
 src/cost_cover.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index a7998b4..b485001 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -77,7 +77,7 @@ SCIP_DECL_EVENTDELETE(CostCoverEventHandler::scip_delete) {
 }
 
 SCIP_DECL_EVENTEXEC(CostCoverEventHandler::scip_exec) {
-    CostNumberType cost_upper_bound = (CostNumberType) SCIPgetUpperbound(scip);
+    CostNumberType cost_upper_bound = (CostNumberType) SCIPround(scip, SCIPgetPrimalbound(scip));
     unsigned int nconss = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound);
     increaseNumConssAdded(nconss);
     return SCIP_OKAY;
-- 
2.43.0


From 3f2d058ca68f5e784df3d3c5902ca70febbb6871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 02/32] fix: report bounds of the original objective in the
 summary statistics

---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 37dc50f..bc914af 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -100,8 +100,8 @@ SummaryStats getSummaryStatsFromSCIP(SCIP* scip) {
 
     SummaryStats summary = {
         SCIPgetStatus(scip),
-        SCIPgetLowerbound(scip),
-        SCIPgetUpperbound(scip),
+        SCIPgetDualbound(scip),
+        SCIPgetPrimalbound(scip),
         num_cost_cover_disjoint_paths,
         num_cost_cover_shortest_paths,
         nconss_presolve_disjoint_paths,
-- 
2.43.0


From 632366c581ac3b6bb95a9d07c0b6961b50d40aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 03/32] fix: record node statistics and bounds in terms of the
 original objective

---
 src/event_handlers.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index b2ab5de..9ec0fdb 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -13,7 +13,7 @@ NodeStats newStatsForNode(SCIP* scip, SCIP_NODE* node) {
    unsigned int parent_id = 1;
    if (node_id > 1) parent_id = SCIPnodeGetNumber(SCIPnodeGetParent(node));
    NodeStats stats = {
-      SCIPnodeGetLowerbound(node),
+      SCIPretransformObj(scip, SCIPnodeGetLowerbound(node)),
       node_id,
       0,
       0,
@@ -21,7 +21,7 @@ NodeStats newStatsForNode(SCIP* scip, SCIP_NODE* node) {
       0,
       0,
       parent_id,
-      SCIPgetUpperbound(scip)
+      SCIPgetPrimalbound(scip)
    };
    return stats;
 }
@@ -150,8 +150,8 @@ SCIP_DECL_EVENTEXEC(BoundsEventHandler::scip_exec) {
     TimePointUTC start;
     start = getLastTimestamp();
     TimePointUTC end = time_point_cast<SubSeconds>(system_clock::now());
-    double lower_bound = SCIPgetLowerbound(scip);
-    double upper_bound = SCIPgetUpperbound(scip);
+    double lower_bound = SCIPgetDualbound(scip);
+    double upper_bound = SCIPgetPrimalbound(scip);
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     unsigned int node_id = SCIPnodeGetNumber(node);
     Bounds bounds = {start, end, lower_bound, upper_bound, node_id};
-- 
2.43.0


From 9253385007a2dd11d4a92f092913360c6324f175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 04/32] fix: compute the tailing-off gap from two bounds of the
 same (original) objective

---
 src/subtour_elimination.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index d50d156..7fb8e72 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -206,7 +206,7 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
     }
     else {
         SCIP_NODE* node = SCIPgetCurrentNode(scip);
-        double gap = SCIPcomputeGap(SCIPepsilon(scip), SCIPinfinity(scip), SCIPgetPrimalbound(scip), SCIPnodeGetLowerbound(node));
+        double gap = SCIPcomputeGap(SCIPepsilon(scip), SCIPinfinity(scip), SCIPgetPrimalbound(scip), SCIPretransformObj(scip, SCIPnodeGetLowerbound(node)));
         int node_id = SCIPnodeGetNumber(node);
         if (node_id >= node_rolling_lp_gap.size()) {
             auto new_size = node_id + 1;
-- 
2.43.0


From f3974fd25cc81570fad68f2d7a85f57788ee3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 05/32] fix: do not reset the cut counters of the most recently
 created node

---
 src/event_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index 9ec0fdb..e281ebd 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -90,7 +90,7 @@ SCIP_DECL_EVENTDELETE(NodeEventhdlr::scip_delete) {
 SCIP_DECL_EVENTEXEC(NodeEventhdlr::scip_exec) {
     SCIP_NODE* node = SCIPgetCurrentNode(scip);
     auto node_id = SCIPnodeGetNumber(node);
-    if (node_id >= node_stats_.size()) {
+    if (node_id > node_stats_.size() || node_stats_[node_id - 1].node_id != node_id) {
         addCurrentNode(scip);
     }
     return SCIP_OKAY;
-- 
2.43.0


From 1be137124f43d2ab60dd9a4a05433aa5ebbae7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 06/32] fix: read the summary statistics fields in the order
 the struct declares them

---
 src/stats.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index cc6395f..449ca92 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -31,8 +31,8 @@ SummaryStats readSummaryStatsFromYaml(std::filesystem::path& filename) {
         stats_yaml["lower_bound"].as<double>(),
         stats_yaml["upper_bound"].as<double>(),
         stats_yaml["num_cost_cover_disjoint_paths"].as<unsigned int>(),
-        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["num_cost_cover_shortest_paths"].as<unsigned int>(),
+        stats_yaml["nconss_presolve_disjoint_paths"].as<unsigned int>(),
         stats_yaml["nconss_presolve_shortest_paths"].as<unsigned int>(),
         stats_yaml["num_cycle_cover"].as<unsigned int>(),
         stats_yaml["num_nodes"].as<long long>(),
-- 
2.43.0


From 99aa271589a3e81d59049375c91d35f89eee586d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 07/32] fix: return an empty tour when the solve stops without
 a solution

After a limit, an interrupt or an error the status is not INFEASIBLE but there
may be no solution; SCIPgetSolVal(NULL) then reads the LP outside of solving.
---
 src/algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index bc914af..9330553 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -37,7 +37,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 ) {
     auto edge_var_map = modelPrizeCollectingTSP(scip, graph, heuristic_edges, cost_map, prize_map, quota, root_vertex, name);
     SCIPsolve(scip);
-    if (SCIPgetStatus(scip) != SCIP_STATUS_INFEASIBLE) {
+    if (SCIPgetNSols(scip) > 0) {
         SCIP_SOL* sol = SCIPgetBestSol(scip);
         auto solution_edges = getSolutionEdges(scip, graph, sol, edge_var_map);
         return getVertexPairVectorFromEdgeSubset(graph, solution_edges);
@@ -58,7 +58,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 ) {
     auto edge_var_map = modelPrizeCollectingTSP(scip, graph, edge_list, heuristic_edges, cost_dict, prize_dict, quota, root_vertex, name);
     SCIPsolve(scip);
-    if (SCIPgetStatus(scip) != SCIP_STATUS_INFEASIBLE) {
+    if (SCIPgetNSols(scip) > 0) {
         SCIP_SOL* sol = SCIPgetBestSol(scip);
         auto solution_edges = getSolutionEdges(scip, graph, sol, edge_var_map);
         return getVertexPairVectorFromEdgeSubset(graph, solution_edges);
-- 
2.43.0


From d75b2470f250747e7e946aee270496bf0441318d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 08/32] fix: a tailing-off node with an integral LP solution
 must not return DIDNOTRUN

DIDNOTRUN is not a valid result of LP enforcement, SCIP aborts the solve.
---
 src/subtour_elimination.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 7fb8e72..6837b83 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -217,7 +217,9 @@ SCIP_DECL_CONSENFOLP(PCTSPconshdlrSubtour::scip_enfolp) {
             && (SCIPgetLPSolstat(scip) == SCIP_LPSOLSTAT_UNBOUNDEDRAY || SCIPgetLPSolstat(scip) == SCIP_LPSOLSTAT_OPTIMAL)) {
             // resolve the infeasibility by branching
             BOOST_LOG_TRIVIAL(debug)<< "BRANCHING in enfolp: Node " << std::to_string(node_id) << " found to be tailing off. Gap is " << std::to_string(gap) << ". Threshold is " << std::to_string(sec_lp_gap_improvement_threshold) << std::endl;
-            SCIPbranchLP(scip, result);
+            SCIP_CALL(SCIPbranchLP(scip, result));
+            // there is no fractional variable to branch on if the LP solution is integral
+            if (*result == SCIP_DIDNOTRUN) *result = SCIP_INFEASIBLE;
         }
         else {
             // resolve the infeasibility by adding a subtour elimination constraint
-- 
2.43.0


From 5be1fd587a47112c1b3c093858b18b02f1b28377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:06 +0000
Subject: [PATCH 09/32] fix: close the solver log and tolerate that it cannot
 be opened

The statistics stayed in the stdio buffer and each solve leaked a descriptor;
a NULL stream made SCIP print the statistics to stdout.
---
 src/algorithms.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 9330553..0c19419 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -224,7 +224,10 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 
     // write the logs to txt
     FILE* log_file = fopen(scip_logs_txt.c_str(), "w");
-    SCIPprintStatistics(scip, log_file);
+    if (log_file != NULL) {
+        SCIPprintStatistics(scip, log_file);
+        fclose(log_file);
+    }
 
     // write the bounds CSV: NOTE this file can get very large
     // std::vector<Bounds> bounds_vector = bounds_handler->getBoundsVector();
-- 
2.43.0


From 33d5ff56603849f798bd4eb9c7046face7412163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 10/32] fix: write the summary statistics atomically

A crash or a failed write left an empty or truncated YAML file (destroying a
complete one from an earlier solve) and the error was not reported.
---
 src/stats.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/stats.cpp b/src/stats.cpp
index 449ca92..d20596f 100644
--- a/src/stats.cpp
+++ b/src/stats.cpp
@@ -1,4 +1,5 @@
 #include "pctsp/exception.hh"
+#include "pctsp/logger.hh"
 #include "pctsp/stats.hh"
 #include <yaml-cpp/yaml.h>
 
@@ -16,8 +17,19 @@ void writeSummaryStatsToYaml(SummaryStats& summary, std::filesystem::path& filen
         node["num_nodes"] = summary.num_nodes;
         node["num_sec_disjoint_tour"] = summary.num_sec_disjoint_tour;
         node["num_sec_maxflow_mincut"] = summary.num_sec_maxflow_mincut;
-        std::ofstream fout(filename.string());
+
+        // write a temporary file first so that a crash or a full disk never leaves half a record behind
+        std::filesystem::path temporary = filename;
+        temporary += ".tmp";
+        std::ofstream fout(temporary.string());
         fout << node;
+        fout.close();
+        std::error_code error;
+        if (fout) std::filesystem::rename(temporary, filename, error);
+        if (!fout || error) {
+            BOOST_LOG_TRIVIAL(error) << "Could not write summary stats to " << filename.string();
+            std::filesystem::remove(temporary, error);
+        }
     }
 }
 
-- 
2.43.0


From e86a44e76f54a00b4e70f28216da50365d1cf005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 11/32] fix: report a failed SCIP call instead of solving a
 partial model

Return codes of the modelling and separation calls were dropped. When one of
them fails (typically SCIP_NOMEMORY) the solve went on without a constraint, a
coefficient or a handler, and returned a wrong tour with status OPTIMAL or
crashed.
---
 include/pctsp/cost_cover.hh  |  7 ++++++
 include/pctsp/cycle_cover.hh |  2 +-
 include/pctsp/exception.hh   |  9 +++++++
 include/pctsp/sciputils.hh   |  5 ++++
 src/algorithms.cpp           | 49 ++++++++++++++++++------------------
 src/cost_cover.cpp           | 27 ++++++++++++++------
 src/sciputils.cpp            |  2 +-
 src/subtour_elimination.cpp  | 10 ++++----
 8 files changed, 72 insertions(+), 39 deletions(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 3de2913..9fd6d14 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -63,6 +63,13 @@ SCIP_RETCODE addCoverInequalityFromVertices(
 
 unsigned int separateThenAddCostCoverInequalities(SCIP* scip, std::vector<CostNumberType>& path_distances, CostNumberType& cost_upper_bound);
 
+SCIP_RETCODE separateThenAddCostCoverInequalities(
+    SCIP* scip,
+    std::vector<CostNumberType>& path_distances,
+    CostNumberType& cost_upper_bound,
+    unsigned int& num_conss_added
+);
+
 
 class CostCoverEventHandler : public scip::ObjEventhdlr
 {
diff --git a/include/pctsp/cycle_cover.hh b/include/pctsp/cycle_cover.hh
index b3a6fec..ac8ca53 100644
--- a/include/pctsp/cycle_cover.hh
+++ b/include/pctsp/cycle_cover.hh
@@ -135,7 +135,7 @@ SCIP_RETCODE separateCycleCover(
     if (! isPrizeFeasible(prize_map, quota, root_component)) {
         auto first = root_component.begin();
         auto last = root_component.end();
-        addCycleCover(scip, conshdlr, graph, first, last, edge_var_map, sol, result);
+        SCIP_CALL(addCycleCover(scip, conshdlr, graph, first, last, edge_var_map, sol, result));
     }
     return SCIP_OKAY;
 }
diff --git a/include/pctsp/exception.hh b/include/pctsp/exception.hh
index 3e5ecea..1835153 100644
--- a/include/pctsp/exception.hh
+++ b/include/pctsp/exception.hh
@@ -61,6 +61,15 @@ class VariableIsNullException : public std::exception {
         }
 };
 
+class ScipCallFailedException : public std::exception {
+    std::string message;
+
+public:
+    ScipCallFailedException(const int retcode) : message(std::string("A call to SCIP failed with return code ") + std::to_string(retcode)) {}
+
+    const char* what() const throw() { return message.c_str(); }
+};
+
 class StepSizeIsTooBig : public std::exception {
     private:
         const std::string message = "The step size given to the extension algorithm was larger than the tour that was given.";
diff --git a/include/pctsp/sciputils.hh b/include/pctsp/sciputils.hh
index 02b217d..89dd4cd 100644
--- a/include/pctsp/sciputils.hh
+++ b/include/pctsp/sciputils.hh
@@ -8,6 +8,11 @@
 
 typedef typename std::vector<SCIP_VAR*> VarVector;
 
+/** Outside of SCIP callbacks there is no caller to return a failed retcode to: throw it */
+inline void throwIfScipFails(SCIP_RETCODE retcode) {
+    if (retcode != SCIP_OKAY) throw ScipCallFailedException(retcode);
+}
+
 template<typename It>
 std::string joinVariableNames(It& variable_first_it, It& variable_last_it) {
     std::string joined_names = "";
diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index 0c19419..c574040 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -2,6 +2,7 @@
 
 #include "pctsp/algorithms.hh"
 #include "pctsp/node_selection.hh"
+#include "pctsp/sciputils.hh"
 #include "pctsp/separation.hh"
 
 struct SCIP_ProbData {
@@ -147,8 +148,8 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
 
     // add custom message handler
     SCIP_MESSAGEHDLR* handler;
-    SCIPcreateMessagehdlrDefault(&handler, false, scip_logs_txt.c_str(), true);
-    SCIPsetMessagehdlr(scip, handler);
+    throwIfScipFails(SCIPcreateMessagehdlrDefault(&handler, false, scip_logs_txt.c_str(), true));
+    throwIfScipFails(SCIPsetMessagehdlr(scip, handler));
 
     // add variables, constraints and the SEC cutting plane
     auto edge_var_map = modelPrizeCollectingTSP(
@@ -161,7 +162,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
     // NOTE we assume the heuristic solution is feasible (trust the user)
     auto cost_upper_bound = totalCost(heuristic_edges, cost_map);
     if (cost_cover_disjoint_paths) {
-        includeDisjointPathsCostCover(scip, disjoint_paths_distances);
+        throwIfScipFails(includeDisjointPathsCostCover(scip, disjoint_paths_distances));
         if (cost_upper_bound > 0) {
             CostCoverEventHandler* hdlr = getDisjointPathsCostCoverEventHandler(scip);
             auto path_distances = hdlr->getPathDistances();
@@ -170,7 +171,7 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
         }
     }
     if (cost_cover_shortest_path) {
-        includeShortestPathCostCover(scip, graph, cost_map, root_vertex);
+        throwIfScipFails(includeShortestPathCostCover(scip, graph, cost_map, root_vertex));
         if (cost_upper_bound > 0) {
             CostCoverEventHandler* hdlr = getShortestPathCostCoverEventHandler(scip);
             auto path_distances = hdlr->getPathDistances();
@@ -181,23 +182,23 @@ std::vector<std::pair<PCTSPvertex, PCTSPvertex>> solvePrizeCollectingTSP(
     // add cycle cover constraint
     auto cycle_cover_conshdlr = new CycleCoverConshdlr(scip);
     if (cycle_cover) {
-        SCIPincludeObjConshdlr(scip, cycle_cover_conshdlr, true);
+        throwIfScipFails(SCIPincludeObjConshdlr(scip, cycle_cover_conshdlr, true));
         SCIP_CONS* cycle_cover_cons;
-        createBasicCycleCoverCons(scip, &cycle_cover_cons);
-        SCIPaddCons(scip, cycle_cover_cons);
-        SCIPreleaseCons(scip, &cycle_cover_cons);
+        throwIfScipFails(createBasicCycleCoverCons(scip, &cycle_cover_cons));
+        throwIfScipFails(SCIPaddCons(scip, cycle_cover_cons));
+        throwIfScipFails(SCIPreleaseCons(scip, &cycle_cover_cons));
     }
     // add event handlers
     NodeEventhdlr* node_eventhdlr = new NodeEventhdlr(scip);
-    SCIPincludeObjEventhdlr(scip, node_eventhdlr, TRUE);
+    throwIfScipFails(SCIPincludeObjEventhdlr(scip, node_eventhdlr, TRUE));
     BoundsEventHandler* bounds_handler = new BoundsEventHandler(scip);
-    SCIPincludeObjEventhdlr(scip, bounds_handler, TRUE);
+    throwIfScipFails(SCIPincludeObjEventhdlr(scip, bounds_handler, TRUE));
 
     // set branching scheme
     setBranchingStrategy(scip, branching_strategy, branching_max_depth);
 
     // time limit
-    SCIPsetRealParam(scip, "limits/time", time_limit);
+    throwIfScipFails(SCIPsetRealParam(scip, "limits/time", time_limit));
 
     // set seed to obtain reproducible randomness
     // SCIPinitializeRandomSeed(scip, PCTSP_DEFAULT_SEED);
@@ -260,10 +261,10 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
         includeBranchRules(scip);
 
         // include constraint handlers
-        SCIPincludeConshdlrLinear(scip);
-        SCIPincludeConshdlrIntegral(scip);
-        SCIPincludeConshdlrKnapsack(scip);
-        SCIPincludeConshdlrVarbound(scip);
+        throwIfScipFails(SCIPincludeConshdlrLinear(scip));
+        throwIfScipFails(SCIPincludeConshdlrIntegral(scip));
+        throwIfScipFails(SCIPincludeConshdlrKnapsack(scip));
+        throwIfScipFails(SCIPincludeConshdlrVarbound(scip));
 
         // node selection rules
         includeNodeSelection(scip);
@@ -276,7 +277,7 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
     }
     else {
         // use the default branching rules
-        SCIPincludeDefaultPlugins(scip);
+        throwIfScipFails(SCIPincludeDefaultPlugins(scip));
     }
 
     // add self loops to graph - we assume the input graph is simple
@@ -290,9 +291,9 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
     putPrizeOntoEdgeWeights(graph, prize_map, weight_map);
     ProbDataPCTSP* objprobdata = new ProbDataPCTSP(&graph, &root_vertex, &edge_variable_map, &quota);
 
-    SCIPcreateObjProb(scip, name.c_str(), objprobdata, true);
+    throwIfScipFails(SCIPcreateObjProb(scip, name.c_str(), objprobdata, true));
 
-    PCTSPmodelWithoutSECs(scip, graph, cost_map, weight_map, quota, root_vertex, edge_variable_map);
+    throwIfScipFails(PCTSPmodelWithoutSECs(scip, graph, cost_map, weight_map, quota, root_vertex, edge_variable_map));
     auto conshdlr = new PCTSPconshdlrSubtour(
         scip,
         sec_disjoint_tour,
@@ -301,17 +302,17 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
         sec_max_tailing_off_iterations,
         sec_sepafreq
     );
-    SCIPincludeObjConshdlr(scip, conshdlr, TRUE);
+    throwIfScipFails(SCIPincludeObjConshdlr(scip, conshdlr, TRUE));
 
     // turn off presolving
-    SCIPsetIntParam(scip, "presolving/maxrounds", 0);
+    throwIfScipFails(SCIPsetIntParam(scip, "presolving/maxrounds", 0));
 
     // add the subtour elimination constraints as cutting planes
     SCIP_CONS* cons;
     std::string cons_name("subtour-constraint");
-    PCTSPcreateBasicConsSubtour(scip, &cons, cons_name, graph, root_vertex);
-    SCIPaddCons(scip, cons);
-    SCIPreleaseCons(scip, &cons);
+    throwIfScipFails(PCTSPcreateBasicConsSubtour(scip, &cons, cons_name, graph, root_vertex));
+    throwIfScipFails(SCIPaddCons(scip, cons));
+    throwIfScipFails(SCIPreleaseCons(scip, &cons));
 
     // add selected heuristics to reduce the upper bound on the optimal
     if (heuristic_edges.size() > 0) {
@@ -319,7 +320,7 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
         auto last = heuristic_edges.end();
         BOOST_LOG_TRIVIAL(info) << "Adding starting heuristic solution to solver.";
         SCIP_HEUR* heur = NULL;
-        addHeuristicEdgesToSolver(scip, graph, heur, edge_variable_map, first, last);
+        throwIfScipFails(addHeuristicEdgesToSolver(scip, graph, heur, edge_variable_map, first, last));
     }
     else {
         BOOST_LOG_TRIVIAL(info) << "No heuristic solution passed to solver.";
diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index b485001..e58f443 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -25,8 +25,8 @@ SCIP_RETCODE addCoverInequality(
     const char* cons_name = cons_name_str.c_str();
     SCIP_CALL( SCIPcreateConsLinear(scip, &cons, cons_name, nvars, vars, coefs, lhs, rhs,
          TRUE, TRUE, TRUE, TRUE, TRUE, FALSE, FALSE, FALSE, TRUE, FALSE) );
-    SCIPaddCons(scip, cons);
-    SCIPreleaseCons(scip, &cons);
+    SCIP_CALL(SCIPaddCons(scip, cons));
+    SCIP_CALL(SCIPreleaseCons(scip, &cons));
     return SCIP_OKAY;
 }
 
@@ -78,25 +78,36 @@ SCIP_DECL_EVENTDELETE(CostCoverEventHandler::scip_delete) {
 
 SCIP_DECL_EVENTEXEC(CostCoverEventHandler::scip_exec) {
     CostNumberType cost_upper_bound = (CostNumberType) SCIPround(scip, SCIPgetPrimalbound(scip));
-    unsigned int nconss = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound);
+    unsigned int nconss = 0;
+    SCIP_RETCODE code = separateThenAddCostCoverInequalities(scip, _path_distances, cost_upper_bound, nconss);
     increaseNumConssAdded(nconss);
-    return SCIP_OKAY;
+    return code;
 }
 
 unsigned int separateThenAddCostCoverInequalities(SCIP* scip, std::vector<CostNumberType>& path_distances, CostNumberType& cost_upper_bound) {
+    unsigned int num_conss_added = 0;
+    throwIfScipFails(separateThenAddCostCoverInequalities(scip, path_distances, cost_upper_bound, num_conss_added));
+    return num_conss_added;
+}
+
+SCIP_RETCODE separateThenAddCostCoverInequalities(
+    SCIP* scip,
+    std::vector<CostNumberType>& path_distances,
+    CostNumberType& cost_upper_bound,
+    unsigned int& num_conss_added
+) {
     ProbDataPCTSP* probdata = dynamic_cast<ProbDataPCTSP*>(SCIPgetObjProbData(scip));
     PCTSPgraph& graph = * probdata->getInputGraph();
     PCTSPvertex& root_vertex = *probdata->getRootVertex();
     PCTSPedgeVariableMap& edge_variable_map = *probdata->getEdgeVariableMap();
 
     auto violated_vertices = separateCostCoverPaths(graph, path_distances, cost_upper_bound);
-    unsigned int num_conss_added = 0;
     for (auto& vertex: violated_vertices) {
-        num_conss_added ++;
         std::vector<PCTSPvertex> cover_vertices = {root_vertex, vertex};
-        addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map);
+        SCIP_CALL(addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map));
+        num_conss_added ++;
     }
-    return num_conss_added;
+    return SCIP_OKAY;
 }
 
 SCIP_RETCODE includeCostCoverEventHandler(
diff --git a/src/sciputils.cpp b/src/sciputils.cpp
index 53ce7e8..42978c2 100644
--- a/src/sciputils.cpp
+++ b/src/sciputils.cpp
@@ -54,7 +54,7 @@ SCIP_RETCODE addRow(
 
     for (int i = 0; i < nvars; i++) {
         auto transvar = transvars[i];
-        SCIPaddVarToRow(scip, row, transvar, vals[i]);
+        SCIP_CALL(SCIPaddVarToRow(scip, row, transvar, vals[i]));
     }
     SCIP_CALL(SCIPflushRowExtensions(scip, row));
 
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index 6837b83..c31e76c 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -171,7 +171,7 @@ SCIP_DECL_CONSCHECK(PCTSPconshdlrSubtour::scip_check)
 {
     auto nvars = SCIPgetNVars(scip);
     SCIP_VAR* transvars[nvars];
-    SCIPgetTransformedVars(scip, nvars, SCIPgetVars(scip), transvars);
+    SCIP_CALL(SCIPgetTransformedVars(scip, nvars, SCIPgetVars(scip), transvars));
     auto nfixed = numFixedOrAggVars(transvars, nvars);
     BOOST_LOG_TRIVIAL(debug) << "scip_check: Checking for subtours. " << std::to_string(nfixed) << " fixed/agg vars out of " << std::to_string(nvars);
     BOOST_LOG_TRIVIAL(debug) << "LP objective value: " << std::to_string(SCIPgetLPObjval(scip)) << ". Solution value: " << std::to_string(SCIPgetPrimalbound(scip));
@@ -465,9 +465,9 @@ SCIP_RETCODE PCTSPseparateSubtour(
     if (sec_disjoint_tour) {
 
         int num_disjoint_tour_secs_added = 0;
-        PCTSPseparateDisjointTour(
+        SCIP_CALL(PCTSPseparateDisjointTour(
             scip, conshdlr, input_graph, edge_variable_map, root_vertex, component_vectors, sol, result, root_component_id, num_disjoint_tour_secs_added
-        );
+        ));
         if (node_eventhdlr_ready) node_eventhdlr->incrementNumSecDisjointTour(scip, num_disjoint_tour_secs_added);
     }
     if (sec_maxflow_mincut)
@@ -478,9 +478,9 @@ SCIP_RETCODE PCTSPseparateSubtour(
     
         // separate SEC using maxflow mincut
         int num_maxflow_mincut_secs_added = 0;
-        PCTSPseparateMaxflowMincut(
+        SCIP_CALL(PCTSPseparateMaxflowMincut(
             scip, conshdlr, input_graph, edge_variable_map, root_vertex, sol, result, root_component, num_maxflow_mincut_secs_added
-        );
+        ));
         if (node_eventhdlr_ready) node_eventhdlr->incrementNumSecMaxflowMincut(scip, num_maxflow_mincut_secs_added);
     }
     return SCIP_OKAY;
-- 
2.43.0


From 61b0bc76aedf7090715e6e722f1350fad050fc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:25 +0000
Subject: [PATCH 12/32] fix: do not hand an uninitialised consdata pointer to
 SCIP

---
 src/cycle_cover.cpp         | 2 +-
 src/subtour_elimination.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cycle_cover.cpp b/src/cycle_cover.cpp
index 5ae4ae7..c070ca1 100644
--- a/src/cycle_cover.cpp
+++ b/src/cycle_cover.cpp
@@ -38,7 +38,7 @@ SCIP_RETCODE createCycleCoverCons(
     SCIP_Bool removable
 ) {
     SCIP_CONSHDLR* conshdlr;
-    SCIP_CONSDATA* consdata;
+    SCIP_CONSDATA* consdata = NULL;
 
     /* find the subtour constraint handler */
     conshdlr = SCIPfindConshdlr(scip, CYCLE_COVER_NAME.c_str());
diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index c31e76c..dc5f33f 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -125,7 +125,7 @@ SCIP_RETCODE PCTSPcreateConsSubtour(
     SCIP_Bool             removable           /**< should the constraint be removed from the LP due to aging or cleanup? */
 ) {
     SCIP_CONSHDLR* conshdlr;
-    SCIP_CONSDATA* consdata;
+    SCIP_CONSDATA* consdata = NULL;
 
     /* find the subtour constraint handler */
     conshdlr = SCIPfindConshdlr(scip, SEC_CONSHDLR_NAME.c_str());
-- 
2.43.0


From 0502242c4c566369e6621dc2ce681ca0673dce66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 13/32] fix: write bound timestamps in UTC with zero-padded
 milliseconds

---
 src/event_handlers.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index e281ebd..8e25114 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -105,8 +105,9 @@ std::string timePointToString(TimePointUTC& time_stamp) {
     tm utc_tm = *gmtime(&tt);
     std::string time_zone_string = "Z";
     char mbstr[100];
-    std::strftime(mbstr, sizeof(mbstr), "%FT%T", std::localtime(&tt));
-    std::string all = std::string(mbstr) + "." + std::to_string(ms.count()) + time_zone_string;
+    std::strftime(mbstr, sizeof(mbstr), "%FT%T", &utc_tm);
+    std::string sub_seconds = std::to_string(ms.count());
+    std::string all = std::string(mbstr) + "." + std::string(3 - sub_seconds.size(), '0') + sub_seconds + time_zone_string;
     return all;
 }
 
-- 
2.43.0


From 736a6235f0ef68f6acb6e1c43a0fd0b08f30e8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:46 +0000
Subject: [PATCH 14/32] fix: write experiment and result files atomically

A kill, a full disk or a power loss while writing left an empty or truncated
experiment.json or result, also where a complete one had been before.
---
 pctsp/lab/lab.py        |  6 +++---
 pctsp/utils/__init__.py |  4 ++--
 pctsp/utils/utils.py    | 28 ++++++++++++++++++++++++++++
 pctsp/vial/result.py    |  4 +++-
 4 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index 940dae8..e36adbb 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -31,7 +31,7 @@ from ..vial import (
     DataConfig,
     Vial,
 )
-from ..utils import get_pctsp_logger
+from ..utils import get_pctsp_logger, open_atomically
 from .run_algorithm import run_algorithm, run_preprocessing
 
 EXPERIMENT_FILENAME = "experiment.json"
@@ -252,7 +252,7 @@ class Lab:
         else:
             filepath = self.get_experiment_dir(experiment.name) / EXPERIMENT_FILENAME
         self.logger.info("Writing experiment to %s", filepath)
-        with open(filepath, "w", encoding="utf-8") as json_file:
+        with open_atomically(filepath) as json_file:
             json.dump(json.loads(experiment.model_dump_json()), json_file, indent=4)
 
     def write_results_to_file(
@@ -263,7 +263,7 @@ class Lab:
         result_list = [
             json.loads(result_model.model_dump_json()) for result_model in results
         ]
-        with open(filepath, "w", encoding="utf-8") as json_file:
+        with open_atomically(filepath) as json_file:
             json.dump(result_list, json_file)
 
     def read_results_from_file(self, experiment: Experiment) -> List[Result]:
diff --git a/pctsp/utils/__init__.py b/pctsp/utils/__init__.py
index 8c1e18f..1589d30 100644
--- a/pctsp/utils/__init__.py
+++ b/pctsp/utils/__init__.py
@@ -1,5 +1,5 @@
 """Useful functions for the project"""
 
-from .utils import get_pctsp_logger, get_scip_log_filepath
+from .utils import get_pctsp_logger, get_scip_log_filepath, open_atomically
 
-__all__ = ["get_pctsp_logger", "get_scip_log_filepath"]
+__all__ = ["get_pctsp_logger", "get_scip_log_filepath", "open_atomically"]
diff --git a/pctsp/utils/utils.py b/pctsp/utils/utils.py
index b15071f..febc4da 100644
--- a/pctsp/utils/utils.py
+++ b/pctsp/utils/utils.py
@@ -1,7 +1,11 @@
 """Logging for pctsp"""
 
+from contextlib import contextmanager
 import logging
+import os
 from pathlib import Path
+from typing import Iterator, TextIO
+from uuid import uuid4
 import colorlog
 
 
@@ -42,3 +46,27 @@ def get_scip_log_filepath(
     """Get the path to the log file"""
     log_dir.mkdir(exist_ok=True, parents=False)
     return log_dir / (log_filename + "." + log_extension)
+
+
+@contextmanager
+def open_atomically(filepath: Path) -> Iterator[TextIO]:
+    """Open a text file for writing and replace the old file only once the new one is complete.
+
+    Args:
+        filepath: The file to write
+
+    Notes:
+        The text is written to a temporary file in the same directory and synced to disk
+        before it replaces the file. A reader sees either the old text or the new text,
+        even if writing fails or the process is killed.
+    """
+    temporary_path = filepath.with_name(f".{filepath.name}.{uuid4().hex}.tmp")
+    try:
+        with open(temporary_path, "w", encoding="utf-8") as text_file:
+            yield text_file
+            text_file.flush()
+            os.fsync(text_file.fileno())
+        os.replace(temporary_path, filepath)
+    except BaseException:
+        temporary_path.unlink(missing_ok=True)
+        raise
diff --git a/pctsp/vial/result.py b/pctsp/vial/result.py
index d4ba6db..4244bf4 100644
--- a/pctsp/vial/result.py
+++ b/pctsp/vial/result.py
@@ -7,6 +7,8 @@ from typing import Any, List, Tuple
 from uuid import UUID
 from pydantic import BaseModel
 
+from ..utils import open_atomically
+
 
 # pylint: disable=abstract-method
 class Result(BaseModel):
@@ -35,7 +37,7 @@ class Result(BaseModel):
             raise FileNotFoundError(f"{str(directory)} does not exist")
         filename = str(self.vial_uuid) + ".json"
         filepath = directory / filename
-        with open(filepath, "w", encoding="utf-8") as json_file:
+        with open_atomically(filepath) as json_file:
             json.dump(json.loads(self.model_dump_json()), json_file, indent=4)
         return filepath
 
-- 
2.43.0


From 32f475a8d1a564bb227e822933c50336a4cc0ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:46 +0000
Subject: [PATCH 15/32] fix: infeasible must tolerate a torn result like
 missing does

---
 pctsp/lab/lab.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index e36adbb..d5b162c 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -81,7 +81,7 @@ class Lab:
                 )
                 if result.prize < vial.data_config.quota:
                     infeasible.append(vial)
-            except FileNotFoundError:
+            except (FileNotFoundError, json.JSONDecodeError):
                 pass
         return infeasible
 
-- 
2.43.0


From a06bffa7b9ce5dc74c03a881dbffbf73db1824e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:46 +0000
Subject: [PATCH 16/32] fix: cap the Slurm wall time at two days in hours, not
 in seconds

---
 pctsp/apps/main_app.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 62993f8..4d78f7e 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -278,7 +278,7 @@ def slurm(
     output_filename = f"joboutput_{experiment_name.value}_%j.out"
     error_filename = f"joboutput_{experiment_name.value}_%j.err"
 
-    two_days_in_hours = 2 * 24 * 3600
+    two_days_in_hours = 2 * 24
     expected_cpu_time = math.ceil(float(batch_size) * (time_limit / 3600.0))
     slurm_time_limit_hours = min(expected_cpu_time + 1, two_days_in_hours)
 
-- 
2.43.0


From cb4b4563f742a2d4c3b19ee730c1c2433206161d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:46 +0000
Subject: [PATCH 17/32] fix: never add a cost cover inequality that cuts off
 the root vertex

The disjoint paths cost of the root (two cycles through the root) is no lower
bound on the cost of a tour, and the inequality made the model infeasible.
---
 src/cost_cover.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cost_cover.cpp b/src/cost_cover.cpp
index e58f443..891fd83 100644
--- a/src/cost_cover.cpp
+++ b/src/cost_cover.cpp
@@ -103,6 +103,9 @@ SCIP_RETCODE separateThenAddCostCoverInequalities(
 
     auto violated_vertices = separateCostCoverPaths(graph, path_distances, cost_upper_bound);
     for (auto& vertex: violated_vertices) {
+        if (vertex == root_vertex) {
+            continue; // every tour visits the root, whatever distance is given for it
+        }
         std::vector<PCTSPvertex> cover_vertices = {root_vertex, vertex};
         SCIP_CALL(addCoverInequalityFromVertices(scip, graph, cover_vertices, edge_variable_map));
         num_conss_added ++;
-- 
2.43.0


From 89669303b5f13348ddf81a894fe6fd12a8059c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:04 +0000
Subject: [PATCH 18/32] fix: self loops of the input graph must not add to the
 cost of a tour

A complete TSPLIB graph comes with self loops, which get a cost from some cost
functions. The solver then minimised another objective than the one reported.
---
 src/algorithms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithms.cpp b/src/algorithms.cpp
index c574040..71b1ebf 100644
--- a/src/algorithms.cpp
+++ b/src/algorithms.cpp
@@ -283,8 +283,8 @@ std::map<PCTSPedge, SCIP_VAR*> modelPrizeCollectingTSP(
     // add self loops to graph - we assume the input graph is simple
     if (hasSelfLoopsOnAllVertices(graph) == false) {
         addSelfLoopsToGraph(graph);
-        assignZeroCostToSelfLoops(graph, cost_map);
     }
+    assignZeroCostToSelfLoops(graph, cost_map);
 
     std::map<PCTSPedge, SCIP_VAR*> edge_variable_map;
     std::map<PCTSPedge, PrizeNumberType> weight_map;
-- 
2.43.0


From 32233a91883315d575465b88b1ba37bb263f1597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:57 +0000
Subject: [PATCH 19/32] fix: write the CSV tables also without results or with
 unreadable statistics

---
 pctsp/apps/csv_app.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pctsp/apps/csv_app.py b/pctsp/apps/csv_app.py
index 68ead24..35b65de 100644
--- a/pctsp/apps/csv_app.py
+++ b/pctsp/apps/csv_app.py
@@ -7,6 +7,7 @@ import yaml
 
 import numpy as np
 import pandas as pd
+from pydantic import ValidationError
 import typer
 
 from ..algorithms import SummaryStats
@@ -31,7 +32,9 @@ def experiment_summary_df(
 ) -> pd.DataFrame:
     """Get a dataframe summarizing the results of an experiment"""
     vial_df = dataframe_from_vial_list(experiment.vials)
-    result_df = pd.DataFrame(map(lambda x: x.dict(), results))
+    result_df = pd.DataFrame(
+        map(lambda x: x.dict(), results), columns=list(Result.model_fields)
+    )
     joined_df = vial_df.merge(result_df, left_on="uuid", right_on="vial_uuid")
     joined_df["duration"] = (joined_df["end_time"] - joined_df["start_time"]).apply(
         lambda x: x.total_seconds()
@@ -58,9 +61,11 @@ def summary_stats_df(root_dir: Path, ids: List[UUID]) -> pd.DataFrame:
             stats_dict = stats.dict()
             stats_dict["vial_uuid"] = vial_uuid
             stats_list.append(stats_dict)
-        except (FileNotFoundError, yaml.YAMLError):
+        except (FileNotFoundError, TypeError, ValidationError, yaml.YAMLError):
             pass
-    return pd.DataFrame.from_records(stats_list)
+    return pd.DataFrame.from_records(
+        stats_list, columns=list(SummaryStats.model_fields) + ["vial_uuid"]
+    )
 
 
 @csv_app.command(name="heuristics")
-- 
2.43.0


From fd56e6968efc3eca98e2320a9e7edc6af91f6e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 20/32] fix: an unreadable problem file fails its vial, not the
 whole batch

---
 pctsp/lab/lab.py | 131 ++++++++++++++++++++++++++---------------------
 1 file changed, 72 insertions(+), 59 deletions(-)

diff --git a/pctsp/lab/lab.py b/pctsp/lab/lab.py
index d5b162c..ddbdc36 100644
--- a/pctsp/lab/lab.py
+++ b/pctsp/lab/lab.py
@@ -105,6 +105,64 @@ class Lab:
         """Run an experiment in the lab"""
         return self.run_experiment_from_vial_list(experiment, experiment.vials)
 
+    def check_dataset_root(self, data_config: DataConfig) -> None:
+        """Raise an error if the root directory of the dataset does not exist"""
+        if data_config.dataset == DatasetName.tspwplib:
+            if (
+                not self.oplib_root
+                or not self.oplib_root.exists()
+                or not self.oplib_root.is_dir()
+            ):
+                raise FileNotFoundError(
+                    f"Could not find OPLib directory: {self.oplib_root}"
+                )
+        elif data_config.dataset == DatasetName.londonaq:
+            if not self.londonaq_root or not self.londonaq_root.exists():
+                raise FileNotFoundError(
+                    f"Could not find londonaq directory: {self.londonaq_root}"
+                )
+
+    def load_graph(self, data_config: DataConfig) -> nx.Graph:
+        """Load the problem from file and get its graph with costs and prizes"""
+        if data_config.dataset == DatasetName.tspwplib:
+            problem_path = build_path_to_oplib_instance(
+                self.oplib_root,
+                data_config.generation,
+                data_config.graph_name,
+            )
+            # load the problem from file
+            problem = ProfitsProblem().load(problem_path)
+            tsp = BaseTSP.from_tsplib95(problem)
+        elif data_config.dataset == DatasetName.londonaq:
+            problem_path = build_path_to_londonaq_yaml(
+                self.londonaq_root, data_config.graph_name
+            )
+            tsp = BaseTSP.from_yaml(problem_path)
+
+        # get the graph in networkx
+        graph = tsp.get_graph()
+        rename_edge_attributes(graph, {"weight": "cost"}, del_old_attr=True)
+        try:  # londonaq dataset
+            rename_node_attributes(graph, {"demand": "prize"}, del_old_attr=True)
+        except KeyError:  # tsplib dataset
+            nx.set_node_attributes(graph, problem.get_node_score(), name="prize")
+
+        # if removing edges
+        if data_config.kappa:
+            graph = sparsify_uid(graph, data_config.kappa)
+
+        # set a different cost function
+        if data_config.cost_function == EdgeWeightType.UNIFORM_RANDOM:
+            new_cost = uniform_random_cost(list(graph.edges()))
+            nx.set_edge_attributes(graph, new_cost, name="cost")
+        elif data_config.cost_function == EdgeWeightType.MST:
+            new_cost = mst_cost(graph, cost_attr="cost")
+            nx.set_edge_attributes(graph, new_cost, name="cost")
+        elif data_config.cost_function == EdgeWeightType.SEMI_MST:
+            new_cost = semi_mst_cost(graph, cost_attr="cost")
+            nx.set_edge_attributes(graph, new_cost, name="cost")
+        return graph
+
     def run_experiment_from_vial_list(
         self, experiment: Experiment, vial_list: List[Vial]
     ) -> List[Result]:
@@ -112,69 +170,24 @@ class Lab:
         result_list: List[Result] = []
 
         for vial in vial_list:
-            # load the problem from file
+            # an error that concerns the whole batch
             data_config: DataConfig = vial.data_config
-            if data_config.dataset == DatasetName.tspwplib:
-                if (
-                    not self.oplib_root
-                    or not self.oplib_root.exists()
-                    or not self.oplib_root.is_dir()
-                ):
-                    raise FileNotFoundError(
-                        f"Could not find OPLib directory: {self.oplib_root}"
-                    )
-                problem_path = build_path_to_oplib_instance(
-                    self.oplib_root,
-                    data_config.generation,
-                    data_config.graph_name,
-                )
+            self.check_dataset_root(data_config)
+
+            try:
                 # load the problem from file
-                problem = ProfitsProblem().load(problem_path)
-                tsp = BaseTSP.from_tsplib95(problem)
-            elif data_config.dataset == DatasetName.londonaq:
-                if not self.londonaq_root or not self.londonaq_root.exists():
-                    raise FileNotFoundError(
-                        f"Could not find londonaq directory: {self.londonaq_root}"
-                    )
-                problem_path = build_path_to_londonaq_yaml(
-                    self.londonaq_root, data_config.graph_name
+                graph = self.load_graph(data_config)
+
+                # logging
+                vial_dir = self.get_vial_dir(experiment.name, vial.uuid)
+                self.logger.info(
+                    "%s graph with %s vertices and %s edges with quota %s",
+                    vial.data_config.graph_name.value,
+                    graph.number_of_nodes(),
+                    graph.number_of_edges(),
+                    vial.data_config.quota,
                 )
-                tsp = BaseTSP.from_yaml(problem_path)
-
-            # get the graph in networkx
-            graph = tsp.get_graph()
-            rename_edge_attributes(graph, {"weight": "cost"}, del_old_attr=True)
-            try:  # londonaq dataset
-                rename_node_attributes(graph, {"demand": "prize"}, del_old_attr=True)
-            except KeyError:  # tsplib dataset
-                nx.set_node_attributes(graph, problem.get_node_score(), name="prize")
-
-            # if removing edges
-            if data_config.kappa:
-                graph = sparsify_uid(graph, data_config.kappa)
-
-            # set a different cost function
-            if data_config.cost_function == EdgeWeightType.UNIFORM_RANDOM:
-                new_cost = uniform_random_cost(list(graph.edges()))
-                nx.set_edge_attributes(graph, new_cost, name="cost")
-            elif data_config.cost_function == EdgeWeightType.MST:
-                new_cost = mst_cost(graph, cost_attr="cost")
-                nx.set_edge_attributes(graph, new_cost, name="cost")
-            elif data_config.cost_function == EdgeWeightType.SEMI_MST:
-                new_cost = semi_mst_cost(graph, cost_attr="cost")
-                nx.set_edge_attributes(graph, new_cost, name="cost")
-
-            # logging
-            vial_dir = self.get_vial_dir(experiment.name, vial.uuid)
-            self.logger.info(
-                "%s graph with %s vertices and %s edges with quota %s",
-                vial.data_config.graph_name.value,
-                graph.number_of_nodes(),
-                graph.number_of_edges(),
-                vial.data_config.quota,
-            )
 
-            try:
                 # preprocessing
                 self.logger.debug(
                     "%s vertices before preprocessing", graph.number_of_nodes()
-- 
2.43.0


From 6b2efaf1ccc264e96201f3a26baf62f8deee466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 21/32] fix: the Suurballe initial tour must be a simple cycle

The pair of paths from the root to itself could win and is no tour; the
heuristic then failed, and with it the vial.
---
 pctsp/algorithms/heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 5d11a1c..91488fe 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -88,7 +88,7 @@ def suurballes_tour_initialization(
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
         prize_of_tour = total_prize_of_tour(prize_map, tour)
-        if prize_of_tour > biggest_prize:
+        if prize_of_tour > biggest_prize and len(set(tour)) == len(tour) - 1:
             biggest_tour = tour
             biggest_prize = prize_of_tour
     return biggest_tour
-- 
2.43.0


From c75508af09e038279b1e1355a34e383115e024e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:05 +0000
Subject: [PATCH 22/32] fix: run a heuristic vial with its recorded collapse
 option

---
 pctsp/lab/run_algorithm.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pctsp/lab/run_algorithm.py b/pctsp/lab/run_algorithm.py
index c0ab4f0..8e7182c 100644
--- a/pctsp/lab/run_algorithm.py
+++ b/pctsp/lab/run_algorithm.py
@@ -183,6 +183,7 @@ def run_algorithm(
             vial.data_config.quota,
             vial.data_config.root,
             vial.model_params.algorithm,
+            collapse_shortest_paths=vial.model_params.collapse_paths,
             disjoint_paths_cost_map=cost_map,
             disjoint_paths_map=vertex_disjoint_paths_map,
             logger=logger,
-- 
2.43.0


From 89520b9949f695225805e36d747d35ccdc3f792f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:56 +0000
Subject: [PATCH 23/32] fix: record the path options asked for with every
 heuristic that uses them

---
 pctsp/apps/main_app.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 4d78f7e..6e9c815 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -552,9 +552,11 @@ def tsplib(
         model_params.sec_max_tailing_off_iterations = sec_max_tailing_off_iterations
         model_params.sec_sepafreq = 1
         model_params.time_limit = time_limit
-    if AlgorithmName.bfs_extension_collapse in (
-        model_params.algorithm,
-        model_params.heuristic,
+    heuristic_name = model_params.heuristic if is_exact else algorithm_name
+    if heuristic_name in (
+        AlgorithmName.bfs_extension_collapse,
+        AlgorithmName.bfs_path_extension_collapse,
+        AlgorithmName.suurballes_path_extension_collapse,
     ):
         model_params.collapse_paths = collapse_paths
         model_params.path_depth_limit = path_depth_limit
-- 
2.43.0


From d6e0916571ccd3f742714b4a78ba16d807212e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:05 +0000
Subject: [PATCH 24/32] fix: do not overflow the distance of an unreachable or
 far vertex in the shortest path cost cover

---
 include/pctsp/cost_cover.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pctsp/cost_cover.hh b/include/pctsp/cost_cover.hh
index 9fd6d14..8834170 100644
--- a/include/pctsp/cost_cover.hh
+++ b/include/pctsp/cost_cover.hh
@@ -1,6 +1,7 @@
 #ifndef __PCTSP_COST_COVER__
 #define __PCTSP_COST_COVER__
 
+#include <limits>
 #include <vector>
 
 #include <boost/graph/adjacency_list.hpp>
@@ -160,7 +161,9 @@ SCIP_RETCODE includeShortestPathCostCover(
     // multiply each of the distances by two:
     // when visiting a vertex, we must return to the root vertex
     for (int i = 0; i < distances.size(); i++) {
-        distances[i] = distances[i] * 2;
+        // a vertex that cannot be reached has the largest distance, which stays the largest
+        const int largest = std::numeric_limits<int>::max();
+        distances[i] = distances[i] > largest / 2 ? largest : distances[i] * 2;
     }
     return includeShortestPathCostCover(scip, distances);
 }
-- 
2.43.0


From d84d8e02d153653f6fef1152f75a7bfd8d462a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:56 +0000
Subject: [PATCH 25/32] fix: quote the directories written into the Slurm job
 script

---
 pctsp/apps/main_app.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pctsp/apps/main_app.py b/pctsp/apps/main_app.py
index 6e9c815..01d62ca 100644
--- a/pctsp/apps/main_app.py
+++ b/pctsp/apps/main_app.py
@@ -3,6 +3,7 @@
 from datetime import datetime
 import math
 from pathlib import Path
+import shlex
 from typing import Dict, Optional, Tuple
 from uuid import uuid4
 import typer
@@ -302,10 +303,10 @@ def slurm(
 ## Loop over each batch ##
 start=$(($SLURM_ARRAY_TASK_ID * {batch_size}))
 srun --ntasks=1 --nodes=1 pctsp batch {dataset.value} {experiment_name.value} $start {batch_size} \
-    --lab-dir {str(lab_dir)} \
+    --lab-dir {shlex.quote(str(lab_dir))} \
     --logging-level {logging_level} \
-    --londonaq-root {londonaq_root} \
-    --oplib-root {oplib_root} \
+    --londonaq-root {shlex.quote(str(londonaq_root))} \
+    --oplib-root {shlex.quote(str(oplib_root))} \
 """
     if only_missing_results:
         slurm_string += " --only-missing-results"
-- 
2.43.0


From fa5649ae586fc3ba9d0f4e2f4c5143e54f0ba328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:35 +0000
Subject: [PATCH 26/32] fix: use the capacity of the root component's own edges
 in the maximum-flow separation

---
 src/subtour_elimination.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/subtour_elimination.cpp b/src/subtour_elimination.cpp
index dc5f33f..7ed07a4 100644
--- a/src/subtour_elimination.cpp
+++ b/src/subtour_elimination.cpp
@@ -336,10 +336,13 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     // only get edges that are in the same connected components as the root
     VertexPairVector edge_vector = getVertexPairVectorFromEdgeSubset(input_graph, solution_edges);
     VertexPairVector root_edge_vector;
+    CapacityVector root_capacity_vector;    // the capacity of each edge in the root component
 
-    for (auto pair : edge_vector) {
+    for (int i = 0; i < edge_vector.size(); i++) {
+        auto pair = edge_vector[i];
         if (root_component.count(pair.first) >= 1 && root_component.count(pair.second) >= 1) {
             root_edge_vector.push_back(pair);
+            root_capacity_vector.push_back(capacity_vector[i]);
         }
     }
     // create mapping from input vertices to support vertices (they will be renamed)
@@ -353,7 +356,7 @@ SCIP_RETCODE PCTSPseparateMaxflowMincut(
     auto residual_capacity = boost::get(edge_residual_capacity, support_graph);
     for (int i = 0; i < support_edges.size(); i++) {
         auto pair = support_edges[i];
-        auto cap = capacity_vector[i];
+        auto cap = root_capacity_vector[i];
 
         // add edge in both directions since the graph is undirected
         auto edge1 = boost::add_edge(pair.first, pair.second, cap, support_graph);
-- 
2.43.0


From 6e1c5c5f49915ca7f7b44d05ee1dd14e7d5f20cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:36 +0000
Subject: [PATCH 27/32] fix: round flow capacities up so that a full cut is not
 mistaken for a violated one

---
 src/separation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/separation.cpp b/src/separation.cpp
index dd92fe5..7fb4174 100644
--- a/src/separation.cpp
+++ b/src/separation.cpp
@@ -3,6 +3,7 @@
 #include <boost/graph/stoer_wagner_min_cut.hpp>
 #include <boost/property_map/property_map.hpp>
 #include <boost/typeof/typeof.hpp>
+#include <cmath>
 #include <iostream>
 #include <scip/scipdefplugins.h>
 
@@ -91,7 +92,7 @@ CapacityVector getCapacityVectorFromSol(
         else if (SCIPisZero(scip, value - 2.0))
             int_value = FLOW_FLOAT_MULTIPLIER * 2;
         else
-            int_value = (CapacityType)(((double)FLOW_FLOAT_MULTIPLIER) * value);
+            int_value = (CapacityType)std::ceil(((double)FLOW_FLOAT_MULTIPLIER) * value);   // rounding down would leave every cut short of 2
         capacity.push_back(int_value);
     }
     return capacity;
-- 
2.43.0


From 71a715fc5e43b251e6c621bd8abbaf5ad0c27ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 28/32] fix: let each interval of the bounds trace start where
 the one before it ends

---
 src/event_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/event_handlers.cpp b/src/event_handlers.cpp
index 8e25114..0896b30 100644
--- a/src/event_handlers.cpp
+++ b/src/event_handlers.cpp
@@ -157,6 +157,6 @@ SCIP_DECL_EVENTEXEC(BoundsEventHandler::scip_exec) {
     unsigned int node_id = SCIPnodeGetNumber(node);
     Bounds bounds = {start, end, lower_bound, upper_bound, node_id};
     _bounds_vector.push_back(bounds);
-    _last_timestamp = time_point_cast<SubSeconds>(system_clock::now());
+    _last_timestamp = end;  // the next interval starts where this one ends, even if the clock has moved on since
     return SCIP_OKAY;
 }
-- 
2.43.0


From e005add6a8f6b50d5a8b6622cf19ee9e33f884a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 29/32] fix: the londonaq experiments over alpha asked the
 problem for a quota it cannot give

---
 pctsp/compare/product_of_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/compare/product_of_params.py b/pctsp/compare/product_of_params.py
index 8cd9e7c..c4acb28 100644
--- a/pctsp/compare/product_of_params.py
+++ b/pctsp/compare/product_of_params.py
@@ -108,7 +108,7 @@ def product_of_londonaq_data_config_from_alpha(
                 cost_function=problems[name].edge_weight_type,
                 dataset=DatasetName.londonaq,
                 graph_name=name,
-                quota=problems[name].get_quota(alpha),
+                quota=int(float(alpha * problems[name].get_total_prize()) / 100.0),
                 root=problems[name].get_root_vertex(),
                 alpha=alpha,
             )
-- 
2.43.0


From a96a98180ae6f50e5db62961f3188fc9eb769533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:25 +0000
Subject: [PATCH 30/32] fix: the largest disjoint path cost of a data set was
 computed with the wrong vertex offset

---
 pctsp/apps/dataset_app.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index ca4bf14..f3d62f2 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -144,7 +144,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         tree, biggest_vertex
     )
     biggest_prize = 0
-    biggest_vertex = None
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
         prize = (
@@ -155,7 +154,6 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
         )
         if prize > biggest_prize:
             biggest_prize = prize
-            biggest_vertex = u
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
     instance_stats["max_disjoint_paths_cost"] = max(
-- 
2.43.0


From 1b797212ababe50c344adad9312b1324775de90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:35 +0000
Subject: [PATCH 31/32] fix: leave the root's walk to a neighbor and back out
 of the disjoint path statistics of a data set

---
 pctsp/apps/dataset_app.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pctsp/apps/dataset_app.py b/pctsp/apps/dataset_app.py
index f3d62f2..7948730 100644
--- a/pctsp/apps/dataset_app.py
+++ b/pctsp/apps/dataset_app.py
@@ -143,6 +143,10 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
     vertex_disjoint_paths_map = undirected_vertex_disjoint_paths_map(
         tree, biggest_vertex
     )
+    # walking to a neighbor and back is not a pair of disjoint paths to the root
+    vertex_disjoint_paths_map.pop(root_vertex, None)
+    disjoint_paths_cost_map = vertex_disjoint_cost_map(tree, biggest_vertex)
+    disjoint_paths_cost_map.pop(root_vertex, None)
     biggest_prize = 0
     prize_map = nx.get_node_attributes(graph, "prize")
     for u, (path1, path2) in vertex_disjoint_paths_map.items():
@@ -156,9 +160,7 @@ def get_graph_stats(graph: nx.Graph, root_vertex: int) -> Dict[str, float]:
             biggest_prize = prize
     instance_stats["biggest_disjoint_prize"] = biggest_prize
     instance_stats["disjoint_prize_ratio"] = float(biggest_prize) / float(og_prize)
-    instance_stats["max_disjoint_paths_cost"] = max(
-        vertex_disjoint_cost_map(tree, biggest_vertex).values()
-    )
+    instance_stats["max_disjoint_paths_cost"] = max(disjoint_paths_cost_map.values())
 
     # preprocessing
     graph = remove_one_connected_components(graph, root_vertex)
-- 
2.43.0


From e02a264586d1471d01456060fb3a95e5e63a38cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:41 +0000
Subject: [PATCH 32/32] fix: start the heuristic from a tour without prize when
 no tour collects any

---
 pctsp/algorithms/heuristic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pctsp/algorithms/heuristic.py b/pctsp/algorithms/heuristic.py
index 91488fe..633efc2 100644
--- a/pctsp/algorithms/heuristic.py
+++ b/pctsp/algorithms/heuristic.py
@@ -83,7 +83,7 @@ def suurballes_tour_initialization(
         return tour
 
     # if no prize feasible tour is returned, then return the tour that maximizes the prize
-    biggest_prize = 0
+    biggest_prize = -1  # tours without any prize count too
     biggest_tour = []
     for disjoint_paths in vertex_disjoint_paths_map.values():
         tour = tour_from_vertex_disjoint_paths(disjoint_paths)
-- 
2.43.0

