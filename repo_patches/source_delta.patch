From fc67da4c478c7d8b3f33a3743493c9b81877bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:49 +0000
Subject: [PATCH 01/24] fix: drop the cached channel GCDs when a graph is
 modified

getFineGCD() caches the GCD of a channel's rates; reset_computation() forgot
it, so normalizing a graph again after changing rates used stale values.
---
 src/libkiter/models/Dataflow.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index 277a6b6..effab5d 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -311,7 +311,7 @@ public :
 	void set_normalize() {normalizationisdone = true;}
 	void set_repetition_vector() {repetitionvectorisdone = true;}
 
-	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; }
+	void reset_computation() {repetitionvectorisdone = false; normalizationisdone = false; readonly = false; channelGCDA.clear(); }
 
 	bool is_read_only() const {return readonly;}
 	bool is_normalized() const {return normalizationisdone ;}
-- 
2.43.0


From d212b3f245dca97f3aff1ae47f1c7aaa30af8f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:33:23 +0000
Subject: [PATCH 02/24] fix: compute the repetition vector before comparing
 throughputs

CSDF_KPeriodicScheduling requires it, so the bugfix command always aborted on a freshly loaded graph.
---
 src/libkiter/algorithms/transformation/bug_explorer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/transformation/bug_explorer.cpp b/src/libkiter/algorithms/transformation/bug_explorer.cpp
index a38d25e..97675fb 100644
--- a/src/libkiter/algorithms/transformation/bug_explorer.cpp
+++ b/src/libkiter/algorithms/transformation/bug_explorer.cpp
@@ -14,6 +14,7 @@
 
 
 TIME_UNIT runKiterThroughput(models::Dataflow* const  dataflow) {
+	VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
 	models::Scheduling  sched = algorithms::scheduling::CSDF_KPeriodicScheduling(dataflow);
 	return 1.0 / sched.getGraphPeriod();
 }
-- 
2.43.0


From 3de27ea49eb211a67e7c5d077b3a92d030826b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:13 +0000
Subject: [PATCH 03/24] fix: leave the graph unchanged when drawing it at debug
 verbosity

---
 src/libkiter/algorithms/software_noc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index 8bcd31c..c6fcc61 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -62,7 +62,8 @@ static void print_graph (models::Dataflow * to, std::string suffix = "none") {
 		std::string filename = sfilename + "_graph";
 		std::ofstream myfile;
 		myfile.open (filename  + ".dot");
-		myfile << printers::GenerateGraphDOT(to);
+		models::Dataflow copy (*to); // generating the drawing computes the repetition vector
+		myfile << printers::GenerateGraphDOT(&copy);
 		myfile.close();
 
 		std::string cmd = "dot " + filename + ".dot -Kneato -T pdf -o " + filename + ".pdf";
@@ -89,7 +90,6 @@ static void print_graph (models::Dataflow * to, std::string suffix = "none") {
 	}
 
 	printers::writeSDF3File(sfilename+ ".xml", to);
-	to->reset_computation();
 
 }
 
-- 
2.43.0


From c280d4554328f7412398e11c9c695ca2c89188c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:25 +0000
Subject: [PATCH 04/24] fix: end the run with a failure status on fatal errors
 in the NoC code

---
 src/libkiter/algorithms/software_noc.cpp | 6 +++---
 src/libkiter/models/NoCGraph.cpp         | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index c6fcc61..d6eb17e 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -1739,7 +1739,7 @@ bool resolveSrcConflicts(models::Dataflow* d, Vertex src, std::vector<ARRAY_INDE
 		else if( commons::findInVector (origV, d->getVertexId(next_node)))
 		{
 			std::cout << "src=" << d->getVertexName(src) << " still has outgoing edge to " << d->getVertexName(next_node) << "\n";
-			exit(0);
+			exit(EXIT_FAILURE);
 		}
 	}}
 
@@ -1864,7 +1864,7 @@ void getPrevAndNextVertex(ARRAY_INDEX vtx_id, models::Dataflow* to, ARRAY_INDEX&
 	}}
 	if(count > 1)
 	{
-		std::cout << "incoming edges more than 1\n"; exit(0);
+		std::cout << "incoming edges more than 1\n"; exit(EXIT_FAILURE);
 	}
 	std::cout << "===========================\n";
 	count = 0;
@@ -1876,7 +1876,7 @@ void getPrevAndNextVertex(ARRAY_INDEX vtx_id, models::Dataflow* to, ARRAY_INDEX&
 	}}
 	if(count > 1)
 	{
-		std::cout << "incoming edges more than 1\n"; exit(0);
+		std::cout << "incoming edges more than 1\n"; exit(EXIT_FAILURE);
 	}
 	std::cout << "===========================\n\n\n";
 }
diff --git a/src/libkiter/models/NoCGraph.cpp b/src/libkiter/models/NoCGraph.cpp
index 62adf05..ec76267 100644
--- a/src/libkiter/models/NoCGraph.cpp
+++ b/src/libkiter/models/NoCGraph.cpp
@@ -27,7 +27,7 @@ void NoCGraph::addEdge(int u, int v)
 	if(u < 0 || v < 0 || u > V*V || v > V*V)
 	{
 		std::cout << "u=" << u << ",v=" << v << "\n";
-		exit(0);
+		exit(EXIT_FAILURE);
 	}
 	adj[u].push_back(v); // Add v to u’s list.
 }
@@ -162,7 +162,7 @@ void NoCGraph::findLeastCostPath(int u, int d, bool visited[], int path[], int &
 	if(u > V*V)
 	{
 		std::cout << "u=" << u << ",d=" << d << ",pids=" << path_index << "\n";
-		exit(0);
+		exit(EXIT_FAILURE);
 	}
 
 	// Mark the current node and store it in path[]
-- 
2.43.0


From 837434e2f704508530b17f4f1a373b34e1453949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:26 +0000
Subject: [PATCH 05/24] fix: fail instead of running off the end of
 value-returning functions

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 1 +
 src/libkiter/models/NoC.h                            | 6 ++++++
 2 files changed, 7 insertions(+)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index a819f21..8edc933 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -120,6 +120,7 @@ models::Dataflow* algorithms::generate_scc(models::Dataflow* const dataflow,
       return scc; // return first SCC with start_id
     }
   }
+  FAILED("No strongly connected component contains the start actor.");
 }
 // make subgraph excluding all vertices less than a specified ID
 models::Dataflow* algorithms::generate_subgraph(models::Dataflow* const dataflow,
diff --git a/src/libkiter/models/NoC.h b/src/libkiter/models/NoC.h
index ee88992..9bc5aed 100644
--- a/src/libkiter/models/NoC.h
+++ b/src/libkiter/models/NoC.h
@@ -103,6 +103,7 @@ public:
 					return it;
 			}
 		}
+		FAILED("This node has no left neighbour in the NoC.");
 	};
 	const NetworkEdge& getRightNeighbour(node_id_t src) const {
 		for (const auto &it : this->_vedges){
@@ -111,6 +112,7 @@ public:
 					return it;
 			}
 		}
+		FAILED("This node has no right neighbour in the NoC.");
 	};
 	const NetworkEdge& getTopNeighbour(node_id_t src) const {
 		for (const auto &it : this->_vedges){
@@ -119,6 +121,7 @@ public:
 					return it;
 			}
 		}
+		FAILED("This node has no top neighbour in the NoC.");
 	};
 	const NetworkEdge& getBottomNeighbour(node_id_t src) const {
 		for (const auto &it : this->_vedges){
@@ -127,6 +130,7 @@ public:
 					return it;
 			}
 		}
+		FAILED("This node has no bottom neighbour in the NoC.");
 	};
 	const NetworkEdge& getSrcNeighbour(node_id_t src) const {
 		//Match associated router
@@ -135,6 +139,7 @@ public:
 					return it;
 			}
 		}
+		FAILED("This node has no outgoing link in the NoC.");
 	};
 	const NetworkEdge& getDstNeighbour(node_id_t dst) const {
 		//Match associated router
@@ -143,6 +148,7 @@ public:
 					return it;
 			}
 		}
+		FAILED("This node has no incoming link in the NoC.");
 	};
 
 
-- 
2.43.0


From 2c47b94f24713c7f2ca748b74263fa5291612d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:12 +0000
Subject: [PATCH 06/24] fix: give variables a value before they are read

---
 src/libkiter/algorithms/dse/buffer_sizing.cpp   |  2 +-
 .../algorithms/scheduling/TDMAScheduler.cpp     |  3 ++-
 .../algorithms/scheduling/TDMAScheduler.h       |  2 +-
 src/libkiter/algorithms/software_noc.cpp        |  8 ++++----
 src/libkiter/algorithms/throughput/so4_noc.cpp  |  3 ++-
 .../throughput/symbolic_execution.cpp           | 17 +++++++++--------
 .../algorithms/transformation/merging.cpp       |  2 +-
 src/libkiter/commons/commons.h                  |  2 +-
 8 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/libkiter/algorithms/dse/buffer_sizing.cpp b/src/libkiter/algorithms/dse/buffer_sizing.cpp
index aca9037..3d044b5 100644
--- a/src/libkiter/algorithms/dse/buffer_sizing.cpp
+++ b/src/libkiter/algorithms/dse/buffer_sizing.cpp
@@ -415,7 +415,7 @@ bool StorageDistributionSet::isSearchComplete(StorageDistributionSet checklist,
    (i.e. given SD is not maximal in set) */
 bool StorageDistributionSet::isInBackCone(StorageDistribution checkDist,
                                           std::map<Edge, TOKEN_UNIT> bufferLb) {
-  bool isMinimal;
+  bool isMinimal = false;
   std::vector<Edge> checkDistEdges = checkDist.getEdges();
   std::map<TOKEN_UNIT, std::vector<StorageDistribution>> reference_set(this->set);
 
diff --git a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
index 84ebc06..8337e27 100644
--- a/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
+++ b/src/libkiter/algorithms/scheduling/TDMAScheduler.cpp
@@ -39,7 +39,7 @@ void algorithms::scheduling::TDMAScheduler::write_tdma_schedule (std::string slo
 		std::ifstream f2;
 		f2.open(taskmap_filename);
 		bool flag = false;
-		long hyperperiod;
+		long hyperperiod = 0;
 		while(f2 >> l2)
 		{
 			std::stringstream ss(l2);
@@ -57,6 +57,7 @@ void algorithms::scheduling::TDMAScheduler::write_tdma_schedule (std::string slo
 			}
 		}
 		f2.close();
+		VERBOSE_ASSERT(flag, "No hyperperiod found in " << taskmap_filename);
 		//taskmap filename end
 
 		std::string l;
diff --git a/src/libkiter/algorithms/scheduling/TDMAScheduler.h b/src/libkiter/algorithms/scheduling/TDMAScheduler.h
index f1829dc..f15b93e 100644
--- a/src/libkiter/algorithms/scheduling/TDMAScheduler.h
+++ b/src/libkiter/algorithms/scheduling/TDMAScheduler.h
@@ -72,7 +72,7 @@ class TDMAScheduler {
 	//typedef std::map<int, int> int_map;
 	//int_map slot_table, /*isPktDone,*/ slotlock;
 
-	long OFFSET;
+	long OFFSET = 0;
 	std::vector<long> isPktDone, slotlock, slot_table;
 
 	long get_slot_table_index(long s, long d)
diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index d6eb17e..276c368 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -1553,8 +1553,8 @@ static bool mergeConfigNodesInit(models::Dataflow* to, std::string name , std::v
 		Vertex v2;
 		std::vector<TOKEN_UNIT> myin, myout;
 		std::vector<TOKEN_UNIT> myiin, myiout;
-		TOKEN_UNIT preload_v1, preload_v2;
-		EDGE_TYPE e_v1, e_v2;
+		TOKEN_UNIT preload_v1 = 0, preload_v2 = 0;
+		EDGE_TYPE e_v1 = EDGE_TYPE::BUFFERLESS_EDGE, e_v2 = EDGE_TYPE::BUFFERLESS_EDGE;
 
 
 		//getEdgesPhaseVector(to, v1, cfgVtx, v2, myin, myout, preload_v1, preload_v2, e_v1, e_v2);
@@ -1679,8 +1679,8 @@ bool mergeConfigNodes(models::Dataflow* d, std::string name , std::vector< ARRAY
 		Vertex v1;
 		Vertex v2;
 		std::vector<TOKEN_UNIT> myin, myout;
-		TOKEN_UNIT preload_v1, preload_v2;
-		EDGE_TYPE e_v1, e_v2;
+		TOKEN_UNIT preload_v1 = 0, preload_v2 = 0;
+		EDGE_TYPE e_v1 = EDGE_TYPE::BUFFERLESS_EDGE, e_v2 = EDGE_TYPE::BUFFERLESS_EDGE;
 		getEdgesPhaseVector(d, v1, cfgVtx, v2, myin, myout, preload_v1, preload_v2, e_v1, e_v2);
 
 		auto new_edge = d->addEdge(v1, middle);
diff --git a/src/libkiter/algorithms/throughput/so4_noc.cpp b/src/libkiter/algorithms/throughput/so4_noc.cpp
index 6757738..218f3f5 100644
--- a/src/libkiter/algorithms/throughput/so4_noc.cpp
+++ b/src/libkiter/algorithms/throughput/so4_noc.cpp
@@ -25,12 +25,13 @@ std::tuple<std::map<ARRAY_INDEX, long>, long> generateConditions(models::Dataflo
   if (file.extension() == ".xml"){
     std::map<edge_id_t, long> condition_param; //noc edge id : slot
     xmlDocPtr doc =  xmlParseFile(filename.c_str()); //TODO: error handling and shift into separate function
-    xmlNodePtr tdma_node;
+    xmlNodePtr tdma_node = NULL;
     for (xmlNodePtr cur_node = doc->children; cur_node; cur_node = cur_node->next) {
       if (cur_node->type == XML_ELEMENT_NODE) {
         if (std::string((const char*)cur_node->name) == std::string("tdma")) tdma_node = cur_node;
       }
     }
+    VERBOSE_ASSERT(tdma_node && tdma_node->properties && tdma_node->properties->children, "No slot count found in " << filename);
     const char* temp = (const char*) tdma_node->properties->children->content;
     slots = atoi(temp); //TODO: change to strtol
     for (xmlNodePtr cur_node = tdma_node->children; cur_node; cur_node = cur_node->next) {
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 894e3af..13c51eb 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -6,6 +6,7 @@
  */
 
 #include <algorithm>
+#include <limits>
 #include <map>
 #include <vector>
 #include <commons/verbose.h>
@@ -68,8 +69,8 @@ TIME_UNIT algorithms::compute_asap_throughput(models::Dataflow* const dataflow,
         /* NOTE this is a workaround from ignoring reentrancy edges --- if this
            condition is met, we assume that we have a single actor with
            re-entrancy, which should therefore have a throughput of 1 */
-        ARRAY_INDEX standaloneId;
-        EXEC_COUNT standaloneRepFactor;
+        ARRAY_INDEX standaloneId = 0;
+        EXEC_COUNT standaloneRepFactor = 0;
         {ForEachVertex(g, v) { // FIXME this probably won't be necessary once the getFirstVertex() bug is fixed
             standaloneId = g->getVertexId(v);
             standaloneRepFactor = g->getPhasesQuantity(v);
@@ -209,8 +210,8 @@ TIME_UNIT algorithms::computeComponentThroughput(models::Dataflow* const dataflo
   VERBOSE_ASSERT(dataflow,TXT_NEVER_HAPPEND);
   VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
   StateList visitedStates;
-  EXEC_COUNT minRepFactor = INT_MAX; // EXEC_COUNT is of type long int, and LONG_MAX has same max value
-  ARRAY_INDEX minRepActorId;
+  EXEC_COUNT minRepFactor = std::numeric_limits<EXEC_COUNT>::max();
+  ARRAY_INDEX minRepActorId = 0;
   TOKEN_UNIT minRepActorExecCount = 0;
   TIME_UNIT timeStep;
 
@@ -307,8 +308,8 @@ kperiodic_result_t algorithms::computeComponentThroughputCycles(models::Dataflow
   VERBOSE_ASSERT(dataflow,TXT_NEVER_HAPPEND);
   VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
   StateList visitedStates;
-  EXEC_COUNT minRepFactor = INT_MAX; // EXEC_COUNT is of type long int, and LONG_MAX has same max value
-  ARRAY_INDEX minRepActorId;
+  EXEC_COUNT minRepFactor = std::numeric_limits<EXEC_COUNT>::max();
+  ARRAY_INDEX minRepActorId = 0;
   TOKEN_UNIT minRepActorExecCount = 0;
   TIME_UNIT timeStep;
   kperiodic_result_t result;
@@ -578,8 +579,8 @@ std::pair<TIME_UNIT, scheduling_t> algorithms::computeComponentThroughputSchedul
   VERBOSE_ASSERT(dataflow,TXT_NEVER_HAPPEND);
   VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
   StateList visitedStates;
-  EXEC_COUNT minRepFactor = INT_MAX; // EXEC_COUNT is of type long int, and LONG_MAX has same max value
-  ARRAY_INDEX minRepActorId;
+  EXEC_COUNT minRepFactor = std::numeric_limits<EXEC_COUNT>::max();
+  ARRAY_INDEX minRepActorId = 0;
   TOKEN_UNIT minRepActorExecCount = 0;
   TIME_UNIT timeStep;
 
diff --git a/src/libkiter/algorithms/transformation/merging.cpp b/src/libkiter/algorithms/transformation/merging.cpp
index 1e883e1..d74cb24 100644
--- a/src/libkiter/algorithms/transformation/merging.cpp
+++ b/src/libkiter/algorithms/transformation/merging.cpp
@@ -483,7 +483,7 @@ bool algorithms::transformation::mergeCSDFFromSchedule (models::Dataflow* to, st
 	std::vector<task_execution_t> periodic_sequence (execution_sequence.begin() + init_phase_count , execution_sequence.end() );
 	std::vector<task_execution_t> init_sequence (execution_sequence.begin() , execution_sequence.begin() + init_phase_count  );
 
-	EXEC_COUNT new_init_end;
+	EXEC_COUNT new_init_end = init_phase_count;
 	for (ARRAY_INDEX init_end = init_phase_count ;init_end >= 0; init_end -= periodic_sequence.size()) {
 		VERBOSE_DEBUG("test new init_end = " << init_end);
 		std::vector<task_execution_t> maybe_periodic_sequence (execution_sequence.begin() + init_end,  execution_sequence.begin() + init_end + periodic_sequence.size()  );
diff --git a/src/libkiter/commons/commons.h b/src/libkiter/commons/commons.h
index f5e88ec..154d630 100644
--- a/src/libkiter/commons/commons.h
+++ b/src/libkiter/commons/commons.h
@@ -321,7 +321,7 @@ template<class T>
     T fromString(const std::string& s)
 {
      std::istringstream stream (s);
-     T t;
+     T t = T();
      stream >> t;
      return t;
 }
-- 
2.43.0


From 01860de556a4cb3919141e846f032bc58b024ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:24 +0000
Subject: [PATCH 07/24] fix: write the route id instead of through an
 uninitialised pointer

---
 src/libkiter/algorithms/mapping/generateTDMA.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/generateTDMA.cpp b/src/libkiter/algorithms/mapping/generateTDMA.cpp
index 9386d3c..c24fcce 100644
--- a/src/libkiter/algorithms/mapping/generateTDMA.cpp
+++ b/src/libkiter/algorithms/mapping/generateTDMA.cpp
@@ -20,11 +20,9 @@ void algorithms::mapping::generateTDMA (models::Dataflow* const  dataflow, param
     xmlDocSetRootElement(doc,root);
 
     {ForEachEdge(dataflow,e){
-        long* r;
-        (*r) = dataflow->getRoute(e)[0];
-        const unsigned char* rid = (unsigned char*)r;
+        const std::string rid = std::to_string(dataflow->getRoute(e)[0]);
         xmlNodePtr rule = xmlNewNode(NULL,BAD_CAST"rule");
-        xmlNewProp(rule,BAD_CAST"id",rid);
+        xmlNewProp(rule,BAD_CAST"id",BAD_CAST rid.c_str());
         xmlNewProp(rule,BAD_CAST"slot",BAD_CAST"0");
     }}
 
-- 
2.43.0


From 9f320548289d17f1ce257f02fcee20ebac1fe9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:51 +0000
Subject: [PATCH 08/24] fix: sum rates, durations and execution counts in their
 own type

---
 .../algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp   | 4 ++--
 src/libkiter/models/Dataflow.h                              | 6 +++---
 src/libkiter/models/Scheduling.cpp                          | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
index 2075db0..3cfd36b 100644
--- a/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
+++ b/src/libkiter/algorithms/scheduling/CSDF_KPeriodicScheduling_LP.cpp
@@ -115,8 +115,8 @@ bool add_precedences_constraints (commons::GLPSol &g, commons::idx_t OMEGA_COL,
 
 		// These are defined Page 59 of the B.Bodin 2013 (PhD Thesis).
 
-		TOKEN_UNIT NoKPeriodic_O_a_tpkp_1 = std::accumulate(dataflow->getEdgeOutVector(c).begin(), dataflow->getEdgeOutVector(c).begin() + phase_j , 0) ;
-		TOKEN_UNIT NoKPeriodic_I_a_tk_1   = std::accumulate(dataflow->getEdgeInVector(c).begin(),  dataflow->getEdgeInVector(c).begin()  + phase_i , 0) ;
+		TOKEN_UNIT NoKPeriodic_O_a_tpkp_1 = std::accumulate(dataflow->getEdgeOutVector(c).begin(), dataflow->getEdgeOutVector(c).begin() + phase_j , (TOKEN_UNIT) 0) ;
+		TOKEN_UNIT NoKPeriodic_I_a_tk_1   = std::accumulate(dataflow->getEdgeInVector(c).begin(),  dataflow->getEdgeInVector(c).begin()  + phase_i , (TOKEN_UNIT) 0) ;
 
 		TOKEN_UNIT O_a_tpkp_1 = NoKPeriodic_O_a_tpkp_1 + (period_j - 1) * NoKPeriodic_o_a ; // sum of consumption up to k
 		TOKEN_UNIT I_a_tk_1 = NoKPeriodic_I_a_tk_1 + (period_i - 1) * NoKPeriodic_i_a ; // sum of production up to k
diff --git a/src/libkiter/models/Dataflow.h b/src/libkiter/models/Dataflow.h
index effab5d..0ddf78d 100644
--- a/src/libkiter/models/Dataflow.h
+++ b/src/libkiter/models/Dataflow.h
@@ -740,7 +740,7 @@ public :
     	reset_computation();
         VERBOSE_DATAFLOW_DEBUG(" - Add outputs for " << this->getEdgeName(c) << " coded " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
     	boost::put(boost::edge_outputs, this->getG(), c.e, l);
-    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+    	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
     	boost::put(boost::edge_total_output, this->getG(), c.e, total);
     	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeTarget(c));
     	VERBOSE_DATAFLOW_DEBUG("   -   Edge from " << this->getVertexName(this->getEdgeSource(c)) << " to " << this->getVertexName(this->getEdgeTarget(c)));
@@ -793,7 +793,7 @@ public :
        	reset_computation();
            VERBOSE_DATAFLOW_DEBUG(" - Add inputs for " << c << " = " << l.size() << " states = " <<  commons::join(l.begin(),l.end(),std::string(",")));
        	boost::put(boost::edge_inputs, this->getG(), c.e, l);
-       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),0);
+       	TOKEN_UNIT total =std::accumulate(l.begin(),l.end(),(TOKEN_UNIT) 0);
        	boost::put(boost::edge_total_input, this->getG(), c.e, total);
        	EXEC_COUNT q = this->getPhasesQuantity(this->getEdgeSource(c));
        	VERBOSE_DATAFLOW_DEBUG(" - EdgeSource is " << this->getVertexName(this->getEdgeSource(c)) << " with " << q << " states");
@@ -868,7 +868,7 @@ public :
       inline  TIME_UNIT          getVertexTotalDuration    (const Vertex t)  const   {
     	  VERBOSE_ASSERT(boost::get(get(boost::vertex_phaseduration, this->getG()), t.v).size() > 0, "I take too much coffee, and this task " << getVertexName(t) <<  " - " << getVertexId(t) <<  " has no duration.");
     	  auto phasesDurations =  boost::get(get(boost::vertex_phaseduration, this->getG()), t.v);
-    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), 0);
+    	  return std::accumulate(phasesDurations.begin(), phasesDurations.end(), (TIME_UNIT) 0);
       }
 
 
diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index dadf50f..9392a73 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -369,7 +369,7 @@ bool models::Scheduling::is_valid_schedule () const{
 	VERBOSE_INFO("INIT TASK ID: " << next_task.first << " | EXEC TIME: " << next_task.second);
 	// ###
 
-	while(std::accumulate(exec_left.begin(), exec_left.end(), 0) != 0){
+	while(std::accumulate(exec_left.begin(), exec_left.end(), (EXEC_COUNT) 0) != 0){
 
 		// Finding all tasks that completed execution before next_task is consumed
 
-- 
2.43.0


From ced08ed55e26a1a0e58912c8e5e300a644bb9337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:03 +0000
Subject: [PATCH 09/24] fix: keep times and token counts at full width

---
 src/libkiter/algorithms/buffersizing/periodic_fixed.cpp | 4 ++--
 src/libkiter/algorithms/software_noc.cpp                | 4 ++--
 src/libkiter/algorithms/throughput/actor.cpp            | 2 +-
 src/libkiter/algorithms/throughput/kperiodic.cpp        | 2 +-
 src/libkiter/commons/commons.cpp                        | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 0e757bb..60e2891 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -116,7 +116,7 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
 
         VERBOSE_ASSERT(computeRepetitionVector(dataflow),"inconsistent graph");
         TIME_UNIT period    = commons::get_parameter<TIME_UNIT>(params, "PERIOD", 0.0) ; // assumes period is available in param list
-        int multiplier = commons::get_parameter<TIME_UNIT>(params, "MUL", 1.0); // multiplier for buffer size
+        TIME_UNIT multiplier = commons::get_parameter<TIME_UNIT>(params, "MUL", 1.0); // multiplier for buffer size
         VERBOSE_ASSERT (period > 0, "The period must be defined");
         VERBOSE_ASSERT (period != std::numeric_limits<TIME_UNIT>::infinity(), "The period must be defined");
         bool      solve_ilp = commons::get_parameter<bool>(params, "ILP", false) ;
@@ -134,7 +134,7 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
             Edge e = dataflow->getEdgeById(id);
             long buf_size = buf_res.get_edge_size(dataflow->getEdgeId(e));
             Edge v_e = dataflow->addEdge(dataflow->getEdgeTarget(e), dataflow->getEdgeSource(e), "vir_" + dataflow->getEdgeName(e) );
-            dataflow->setPreload(v_e, (buf_size*multiplier)-dataflow->getPreload(e)); // TODO: useful tokens from preload
+            dataflow->setPreload(v_e, ((TOKEN_UNIT) std::ceil((TIME_UNIT) buf_size * multiplier))-dataflow->getPreload(e)); // TODO: useful tokens from preload
             std::vector<TOKEN_UNIT> inphase;
             for (PHASE_INDEX ip = 1; ip <= dataflow->getEdgeOutPhasesCount(e); ip++){
                 inphase.push_back(dataflow->getEdgeOutPhase(e, ip));
diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index 276c368..cbd57a2 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -1342,7 +1342,7 @@ bool resolveDestConflicts(models::Dataflow* d, Vertex dst, std::vector<ARRAY_IND
 	{
 		for(int j = 0; j < (int)dstedges.size(); j++)
 		{
-			for(int vi = 0; vi < (int)d->getEdgeOut(dstedges[i])/mygcd; vi++)
+			for(TOKEN_UNIT vi = 0; vi < d->getEdgeOut(dstedges[i])/mygcd; vi++)
 			{
 				if (i == j)
 					token_vec[j].push_back(1);
@@ -1766,7 +1766,7 @@ bool resolveSrcConflicts(models::Dataflow* d, Vertex src, std::vector<ARRAY_INDE
 	{
 		for(int j = 0; j < (int)srcedges.size(); j++)
 		{
-			for(int vi = 0; vi < (int)d->getEdgeIn(srcedges[i])/mygcd; vi++)
+			for(TOKEN_UNIT vi = 0; vi < d->getEdgeIn(srcedges[i])/mygcd; vi++)
 			{
 				if (i == j)
 					token_vec[j].push_back(1);
diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 10906d0..3f35132 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -212,7 +212,7 @@ void Actor::execEndWithMod(models::Dataflow* const dataflow, State &s, std::dequ
   {ForOutputEdges(dataflow, this->actor, e) {
       currentPhase = s.getRemExecTime(this->actor).front().second;
       TIME_UNIT end_time;
-      long end_t_mod = (int) step % slots;
+      long end_t_mod = (long) std::floor(step) % slots;
       long correct_slot = condition[dataflow->getEdgeId(e)];
       if (dataflow->getEdgeType(e) == VIRTUAL_EDGE){ // virtual buffer
         end_time = step;
diff --git a/src/libkiter/algorithms/throughput/kperiodic.cpp b/src/libkiter/algorithms/throughput/kperiodic.cpp
index 043becb..174644e 100644
--- a/src/libkiter/algorithms/throughput/kperiodic.cpp
+++ b/src/libkiter/algorithms/throughput/kperiodic.cpp
@@ -827,7 +827,7 @@ void print_kiter_throughput_header () {
 
 }
 
-void print_kiter_throughput_iteration (models::Dataflow* const dataflow, models::EventGraph* eg, kperiodic_result_t & result, int iteration_count, double gduration, double hduration) {
+void print_kiter_throughput_iteration (models::Dataflow* const dataflow, models::EventGraph* eg, kperiodic_result_t & result, EXEC_COUNT iteration_count, double gduration, double hduration) {
 
 	EXEC_COUNT sumNi = sum_Ni (dataflow);
 	EXEC_COUNT sumNiNj = sum_NiNj (dataflow);
diff --git a/src/libkiter/commons/commons.cpp b/src/libkiter/commons/commons.cpp
index f072a73..e90459c 100644
--- a/src/libkiter/commons/commons.cpp
+++ b/src/libkiter/commons/commons.cpp
@@ -181,7 +181,7 @@ bool is_readable( const std::string & file )
 
 	 std::string sendme = com;
 	 if (max_time > 0)
-		 sendme = "timeout " + commons::toString<unsigned int>((unsigned int)max_time) + " " + sendme + " 2>/dev/null";
+		 sendme = "timeout " + commons::toString<unsigned long>((unsigned long) std::ceil(max_time)) + " " + sendme + " 2>/dev/null";
 
 	 VERBOSE_INFO("launch command : " << sendme );
 
-- 
2.43.0


From 11225ee7c6a8ab42df5f655d5e0e9e84b3e8b4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:11 +0000
Subject: [PATCH 10/24] fix: return event graph weights with their fraction

---
 src/libkiter/models/EventGraph.cpp | 6 +++---
 src/libkiter/models/EventGraph.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libkiter/models/EventGraph.cpp b/src/libkiter/models/EventGraph.cpp
index 1a6f140..7f644f9 100644
--- a/src/libkiter/models/EventGraph.cpp
+++ b/src/libkiter/models/EventGraph.cpp
@@ -229,7 +229,7 @@ namespace models {
 
 
 
-    TOKEN_UNIT EventGraph::getWeight(SchedulingEvent se1 ,SchedulingEvent se2 )    {
+    TIME_UNIT EventGraph::getWeight(SchedulingEvent se1 ,SchedulingEvent se2 )    {
 
     	/* compute source and target */
     	EventGraphVertex source = NULL_EventGraphVertex;
@@ -241,12 +241,12 @@ namespace models {
     	}}
     	VERBOSE_ASSERT(source != NULL_EventGraphVertex,"source event not found !");
 
-    	TOKEN_UNIT weight = std::numeric_limits<TOKEN_UNIT>::min();
+    	TIME_UNIT weight = std::numeric_limits<TIME_UNIT>::lowest();
     	bool found = false;
     	  {ForEachOutputs(this,source,c) {
     		  EventGraphVertex current_target = this->getTarget(c);
     		  if ((this->getTaskId(current_target) == se2.getTaskId()) && (this->getExecution(current_target) == se2.getTaskOc())) {
-    			  weight = (TOKEN_UNIT) this->getWeight(c); // FIXME : les poids sont stockés en double pour le moment
+    			  weight = this->getWeight(c);
 
             	  VERBOSE_ASSERT(!found, "already exist");
             	  found = true;
diff --git a/src/libkiter/models/EventGraph.h b/src/libkiter/models/EventGraph.h
index 49942fe..39f27e7 100644
--- a/src/libkiter/models/EventGraph.h
+++ b/src/libkiter/models/EventGraph.h
@@ -356,7 +356,7 @@ public :
 
     ~EventGraph() {};
 
-    TOKEN_UNIT getWeight(SchedulingEvent se1 ,SchedulingEvent se2 )  ;
+    TIME_UNIT getWeight(SchedulingEvent se1 ,SchedulingEvent se2 )  ;
     struct EdgeProperties {
         int weight;
     };
-- 
2.43.0


From e939418543d5e78602adae15cba64e942f7b1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:55 +0000
Subject: [PATCH 11/24] fix: cycle counting and software NoC start from empty
 working sets

find_simple_cycles kept the cycles of earlier runs in simple_cycles, and
graphProcessing kept those of earlier graphs in cycles, cycid_per_vtxid and
cyclen_per_vtxid, so a second run in the same process answered for both.
---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 2 ++
 src/libkiter/algorithms/software_noc.cpp             | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index 8edc933..74d729b 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -46,6 +46,8 @@ void algorithms::cycle_detection       (models::Dataflow* const  dataflow, param
 }
 
 void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameters_list_t) {
+  simple_cycles.clear();
+  dfs_stack.clear();
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index cbd57a2..5ea1818 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -1189,6 +1189,10 @@ std::map<int, route_t> graphProcessing(const models::Dataflow* dataflow, NoCGrap
 	Vertex top;
 	std::map<int, route_t> routes;
 
+	cycles.clear();
+	cycid_per_vtxid.clear();
+	cyclen_per_vtxid.clear();
+
 	auto start = to->addVertex();
 	to->setVertexName(start, "start");
 	{ForEachVertex(to,t) {
-- 
2.43.0


From 5301afac01877939b033288654e57b1a7cb9c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:20 +0000
Subject: [PATCH 12/24] fix: PeriodicScheduling2DOT scales each drawing with
 its own yscale

The heights were static locals, so every later drawing kept the scale of the first.
---
 src/libkiter/printers/stdout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/printers/stdout.cpp b/src/libkiter/printers/stdout.cpp
index 94428d7..624a4b8 100644
--- a/src/libkiter/printers/stdout.cpp
+++ b/src/libkiter/printers/stdout.cpp
@@ -24,9 +24,9 @@ std::string printers::PeriodicScheduling2DOT    (models::Dataflow* const  datafl
   std::ostringstream returnStream;
   scheduling_t scheduling = sched.getTaskSchedule();
   static double label_node_width  =   0.5;
-  static double label_node_height = yscale *  0.10;
+  double label_node_height = yscale *  0.10;
 
-  static double node_height = yscale * 0.05;
+  double node_height = yscale * 0.05;
   static double pixel_start =  (-(72/2) - 1);
   static double line_width =  0.1;
   static double fontsize = 4;
-- 
2.43.0


From 11cc7b0446eacfcbea7ef1881cade075dd4861a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 13/24] fix: an unbounded linear program is not reported as
 solved

---
 src/libkiter/lp/glpsol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/lp/glpsol.cpp b/src/libkiter/lp/glpsol.cpp
index 062e610..048f2a4 100644
--- a/src/libkiter/lp/glpsol.cpp
+++ b/src/libkiter/lp/glpsol.cpp
@@ -309,7 +309,7 @@ bool GLPSol::solve(const GLPParameters& params) {
 	case GLP_INFEAS   : printer(NULL,"solution is infeasible");printTraces();return false;break;
 	case GLP_NOFEAS   : printer(NULL,"no feasible solution exists");printTraces();return false;break;
 	case GLP_OPT      : printer(NULL,"solution is optimal");break;
-	case GLP_UNBND    : printer(NULL,"solution is unbounded");break;
+	case GLP_UNBND    : printer(NULL,"solution is unbounded");printTraces();return false;break;
 	default : printTraces();return false;
 	}
 
@@ -356,7 +356,7 @@ bool GLPSol::solve(const GLPParameters& params) {
 		case GLP_INFEAS   : printer(NULL,"solution is infeasible");printTraces();return false;break;
 		case GLP_NOFEAS   : printer(NULL,"no feasible solution exists");printTraces();return false;break;
 		case GLP_OPT      : printer(NULL,"solution is optimal");break;
-		case GLP_UNBND    : printer(NULL,"solution is unbounded");break;
+		case GLP_UNBND    : printer(NULL,"solution is unbounded");printTraces();return false;break;
 		default : printTraces();return false;
 		}
 	}
-- 
2.43.0


From 029a23f35ee73415bc30153869f17a9901b9d219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:29 +0000
Subject: [PATCH 14/24] fix: a buffer sizing that failed is reported as such,
 not as size 0

BufferSizingResult(false) and 'return 0' made a valid result of size zero, and the
strictly periodic and fixed offset commands printed sizes without looking at the
verdicts of the offset generation and of the sizing.
---
 .../algorithms/buffersizing/periodic.cpp      |  4 +--
 .../buffersizing/periodic_fixed.cpp           | 29 +++++++++++++------
 src/libkiter/algorithms/dse/periodic.cpp      | 12 ++++----
 3 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/libkiter/algorithms/buffersizing/periodic.cpp b/src/libkiter/algorithms/buffersizing/periodic.cpp
index 853fcbb..258515e 100644
--- a/src/libkiter/algorithms/buffersizing/periodic.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic.cpp
@@ -284,7 +284,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 	// bool sol = g.solve(ilp_params);
 	if (gen_only)  {
 		g.writeMPSProblem();
-		return BufferSizingResult(false);
+		return BufferSizingResult();
 	}
 	bool sol = g.solveWith();
 
@@ -388,7 +388,7 @@ BufferSizingResult algorithms::periodic_memory_sizing_csdf   (models::Dataflow*
 		return total_buffer_size;
 	} else {
 		VERBOSE_ERROR("No feasible solution");
-		return 0;
+		return BufferSizingResult();
 	}
 
 
diff --git a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
index 60e2891..36d88d9 100644
--- a/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
+++ b/src/libkiter/algorithms/buffersizing/periodic_fixed.cpp
@@ -101,9 +101,14 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         VERBOSE_ASSERT (period > 0, "The period must be defined");
         VERBOSE_ASSERT (period != std::numeric_limits<TIME_UNIT>::infinity(), "The period must be defined");
 
-        generateStrictlyPeriodicOffsets(dataflow,period,offsets);
+        VERBOSE_ASSERT(generateStrictlyPeriodicOffsets(dataflow,period,offsets), "No strictly periodic offsets for this period");
         checkOffsets(dataflow,period,offsets);
-        auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+        BufferSizingResult sizing_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+        if (!sizing_res.is_valid()) {
+            std::cout << "No solution" << std::endl;
+            return;
+        }
+        auto total_buffer_size = sizing_res.total_size();
         std::cout << "Total buffer size : " << total_buffer_size
                     << " + 2 * " << dataflow->getVerticesCount() << " = "
                     << total_buffer_size + 2 * dataflow->getVerticesCount() << std::endl ;
@@ -121,9 +126,10 @@ void algorithms::compute_strictly_periodic_memory (models::Dataflow* const dataf
         VERBOSE_ASSERT (period != std::numeric_limits<TIME_UNIT>::infinity(), "The period must be defined");
         bool      solve_ilp = commons::get_parameter<bool>(params, "ILP", false) ;
         bool      gen_only  = commons::get_parameter<bool>(params, "GENONLY", false) ;
-        generateStrictlyPeriodicOffsets(dataflow,period,offsets);
+        VERBOSE_ASSERT(generateStrictlyPeriodicOffsets(dataflow,period,offsets), "No strictly periodic offsets for this period");
         checkOffsets(dataflow,period,offsets);
         BufferSizingResult buf_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+        VERBOSE_ASSERT(buf_res.is_valid(), "No buffer sizes for this period");
         dataflow->reset_computation();
 
         std::vector<ARRAY_INDEX> id_list; // no known way of getting a static edge list
@@ -170,23 +176,28 @@ void algorithms::compute_fixed_offset_buffer_sizing (models::Dataflow* const dat
 
         if (offset_type == "BURST"){
             mem = "Burst";
-            generateBurstOffsets(dataflow, offsets);
+            VERBOSE_ASSERT(generateBurstOffsets(dataflow, offsets), "No offsets for this period");
         } else if (offset_type == "AVERAGE"){
             mem = "Average";
-            generateAverageOffsets(dataflow, period, offsets);
+            VERBOSE_ASSERT(generateAverageOffsets(dataflow, period, offsets), "No offsets for this period");
         } else if (offset_type == "MINMAX"){
             mem = "MinMax";
-            generateMinMaxOffsets(dataflow, period, offsets);
+            VERBOSE_ASSERT(generateMinMaxOffsets(dataflow, period, offsets), "No offsets for this period");
         } else if (offset_type == "WIGGERS"){
             mem = "Wiggers";
-            generateWiggersOffsets(dataflow, period, offsets);
+            VERBOSE_ASSERT(generateWiggersOffsets(dataflow, period, offsets), "No offsets for this period");
         } else {
             VERBOSE_ASSERT(false, "Invalid Schedule Paradigm Defined")
         };
     }
 
     checkOffsets(dataflow,period,offsets);
-    auto total_buffer_size = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only).total_size();
+    BufferSizingResult sizing_res = compute_periodic_fixed_memory(dataflow, offsets,period, solve_ilp, gen_only);
+    if (!sizing_res.is_valid()) {
+        std::cout << "No solution" << std::endl;
+        return;
+    }
+    auto total_buffer_size = sizing_res.total_size();
 
     std::cout << "Total buffer size : " << total_buffer_size
                 << " + 2 * " << dataflow->getVerticesCount() << " = "
@@ -944,7 +955,7 @@ bool algorithms::generateMinMaxOffsets(models::Dataflow * dataflow, TIME_UNIT OM
 
        if (gen_only)  {
        	g.writeMPSProblem();
-       	return 0;
+       	return BufferSizingResult();
        }
 
 
diff --git a/src/libkiter/algorithms/dse/periodic.cpp b/src/libkiter/algorithms/dse/periodic.cpp
index de95702..972c376 100644
--- a/src/libkiter/algorithms/dse/periodic.cpp
+++ b/src/libkiter/algorithms/dse/periodic.cpp
@@ -149,11 +149,13 @@ void algorithms::compute_csdf_dse_from_function   (models::Dataflow* const  data
     	    std::chrono::duration<double, std::milli> execTime = endTime - startTime; // duration in ms
     	    cumulativeTime += execTime;
             std::string colDelim = ";";
-    	    dseLog << space[freq_left] << colDelim
-                   << freq_left << colDelim
-                   <<"" << colDelim
-                   << execTime.count() << colDelim
-                   << cumulativeTime.count() << std::endl;
+    	    if (space[freq_left] > 0) {
+    	    	dseLog << space[freq_left] << colDelim
+                       << freq_left << colDelim
+                       <<"" << colDelim
+                       << execTime.count() << colDelim
+                       << cumulativeTime.count() << std::endl;
+    	    }
 
     	}
     	if (not space.count(freq_right)){
-- 
2.43.0


From 199cd5dd796e086d5cdb4a8c22d6609e8673b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:57 +0000
Subject: [PATCH 15/24] fix: removeAllEdgesVertex does not iterate over the
 channels it removes

---
 src/libkiter/algorithms/software_noc.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index 5ea1818..81233ff 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -1268,12 +1268,12 @@ void addDependency(models::Dataflow* d, const Vertex vi, const Vertex vj, EXEC_C
 //Function to remove all the edges that connect a particular vertex
 void removeAllEdgesVertex(models::Dataflow* d, Vertex vtx)
 {
-	{ForInputEdges(d, vtx, E)	{
-		d->removeEdge(E);
-	}}
-	{ForOutputEdges(d, vtx, E)	{
-		d->removeEdge(E);
-	}}
+	while (d->getVertexInDegree(vtx)) {
+		d->removeEdge(it2Edge(d->getInputEdges(vtx).first));
+	}
+	while (d->getVertexOutDegree(vtx)) {
+		d->removeEdge(it2Edge(d->getOutputEdges(vtx).first));
+	}
 	// d->removeVertex(vtx);
 }
 
-- 
2.43.0


From 3f0d637b8fb07b189a222d079244221819a15fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:02 +0000
Subject: [PATCH 16/24] fix: the order of the mapping queue is a strict order

---
 .../algorithms/mapping/bufferless_utils/GraphMapper.h      | 7 ++-----
 src/libkiter/algorithms/software_noc.cpp                   | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
index f33f8ed..8da2849 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
@@ -41,11 +41,8 @@ public :
 				return cyclen_per_vtxid[a.index][i] < cyclen_per_vtxid[b.index][i];
 		}
 
-		if(alen == 0)
-			return true;
-		if(blen == 0)
-			return false;
-		return false;
+		// A shorter list comes first. (Strict: equal lists are not ordered.)
+		return alen < blen;
 	}
 };
 
diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index 81233ff..c6006a2 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -108,11 +108,8 @@ bool operator<(const node& a, const node& b) {
 			return cyclen_per_vtxid[a.index][i] < cyclen_per_vtxid[b.index][i];
 	}
 
-	if (alen == 0)
-		return true;
-	if (blen == 0)
-		return false;
-	return false;
+	// A shorter list comes first. (Strict: equal lists are not ordered.)
+	return alen < blen;
 }
 
 
-- 
2.43.0


From 5f616270c631c10c6ea5e2a0e8218c53d39fcf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:47 +0000
Subject: [PATCH 17/24] fix: is_valid_schedule sizes its per-task vectors by
 the task ids

---
 src/libkiter/models/Scheduling.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libkiter/models/Scheduling.cpp b/src/libkiter/models/Scheduling.cpp
index 9392a73..49b5ef3 100644
--- a/src/libkiter/models/Scheduling.cpp
+++ b/src/libkiter/models/Scheduling.cpp
@@ -304,7 +304,7 @@ bool models::Scheduling::is_valid_schedule () const{
 
 	// Creating one centralized schedule vector for each task
 
-	std::vector<EXEC_COUNT> exec_left (g->getMaxEdgeId());
+	std::vector<EXEC_COUNT> exec_left (g->getMaxVertexId());
 
 	for (std::pair<const ARRAY_INDEX, task_schedule_t> task : s){
 
@@ -355,7 +355,7 @@ bool models::Scheduling::is_valid_schedule () const{
 	std::pair<ARRAY_INDEX, TIME_UNIT> next_task;
 
 	// Tracking most recent next tasks of each task
-	std::vector<TIME_UNIT> task_history (g->getMaxEdgeId()); 
+	std::vector<TIME_UNIT> task_history (g->getMaxVertexId()); 
 	
 	// Initializing next task
 	for (std::pair<const ARRAY_INDEX, task_catalog> task : task_log){
-- 
2.43.0


From bb336d8189993a596637a987a423f0186df8cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:55 +0000
Subject: [PATCH 18/24] fix: vectors indexed by task ids have room for every
 task id

---
 .../mapping/BufferlessNoCMapAndRoute.cpp          |  3 +--
 .../mapping/bufferless_utils/GraphMapper.h        |  2 +-
 .../mapping/bufferless_utils/SCCFinder.h          | 10 +++++-----
 src/libkiter/algorithms/software_noc.cpp          | 15 +++++++--------
 4 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
index c1c6923..f9b25dd 100644
--- a/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
+++ b/src/libkiter/algorithms/mapping/BufferlessNoCMapAndRoute.cpp
@@ -143,8 +143,7 @@ void DFSUtil_PgmOrder (Vertex v, std::vector<bool>& visited, models::Dataflow* t
 
 //Remove the cyclic edges
 static Vertex removeCycleEdges (models::Dataflow* to, const std::vector<ARRAY_INDEX>& prog_order, const std::vector< std::vector<unsigned int> > &cyclen_per_vtxid) {
-	ARRAY_INDEX origV = to->getVerticesCount();
-	std::vector<bool> visited(origV, false);
+	std::vector<bool> visited(to->getMaxVertexId(), false);
 	std::vector<ARRAY_INDEX> removeEdgeId;
 	std::vector<ARRAY_INDEX> vertexId;
 
diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
index 8da2849..0555332 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/GraphMapper.h
@@ -64,7 +64,7 @@ public:
 	//remove the current edge between nodes add intermediate nodes based on the path between them
 	std::map<int, route_t> taskAndNoCMapping(const models::Dataflow* input, models::Dataflow* to, Vertex start,  NoCGraph * noc) {
 		std::map<int, route_t> routes;
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId() - 1;
 		//std::priority_queue<node> pq;
 		std::function<bool(node, node)> comparator([&](node a, node b) { NodeComparator comp (cyclen_per_vtxid); return comp.lessthan(a,b); });
 
diff --git a/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h b/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h
index 59a8bdb..806a133 100644
--- a/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h
+++ b/src/libkiter/algorithms/mapping/bufferless_utils/SCCFinder.h
@@ -19,7 +19,7 @@ class SCCFinder {
 
 public :
 	SCCFinder (const models::Dataflow* to) {
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId() - 1;
 		for(ARRAY_INDEX i = 0; i < V+1; i++)
 		{
 			std::set<unsigned int> temp;
@@ -33,7 +33,7 @@ public :
 	// The main function that finds and prints all strongly connected components
 		void printSCCs(const models::Dataflow* to, Vertex start)
 		{
-			ARRAY_INDEX V = to->getVerticesCount();
+			ARRAY_INDEX V = to->getMaxVertexId() - 1;
 			std::stack<Vertex> Stack;
 
 			// Mark all the vertices as not visited (For first DFS)
@@ -125,7 +125,7 @@ private :
 
 	void updateAncestorsCycle(Vertex vtx, std::set<unsigned int>& myset, const models::Dataflow* to)
 	{
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId() - 1;
 		std::vector<bool> visited(V+1, false);
 		updateAncestorsHelper(vtx, to, myset, visited);
 	}
@@ -134,7 +134,7 @@ private :
 	// DFS traversal of the vertices reachable from v. It uses recursive DFSUtil()
 	void DFS(const models::Dataflow* to, Vertex v)
 	{
-		ARRAY_INDEX V = to->getVerticesCount();
+		ARRAY_INDEX V = to->getMaxVertexId() - 1;
 		// Mark all the vertices as not visited
 		std::vector<bool> visited(V+1, false);
 
@@ -194,7 +194,7 @@ private :
 
 	std::set<unsigned int> my_dfs_wrapper(const models::Dataflow* adj, Vertex start)
 	{
-		ARRAY_INDEX V = adj->getVerticesCount();
+		ARRAY_INDEX V = adj->getMaxVertexId() - 1;
 		std::vector<bool> visited(V+1, false);
 		std::vector<unsigned int> path;
 
diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index c6006a2..8b7f0d9 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -275,7 +275,7 @@ void updateAncestorsHelper(Vertex vtx, models::Dataflow* to, std::set<unsigned i
 
 void updateAncestorsCycle(Vertex vtx, std::set<unsigned int>& myset, models::Dataflow* to)
 {
-	ARRAY_INDEX V = to->getVerticesCount();
+	ARRAY_INDEX V = to->getMaxVertexId() - 1;
 	std::vector<bool> visited(V+1, false);
 	updateAncestorsHelper(vtx, to, myset, visited);
 }
@@ -284,7 +284,7 @@ void updateAncestorsCycle(Vertex vtx, std::set<unsigned int>& myset, models::Dat
 // DFS traversal of the vertices reachable from v. It uses recursive DFSUtil()
 void DFS(models::Dataflow* to, Vertex v)
 {
-	ARRAY_INDEX V = to->getVerticesCount();
+	ARRAY_INDEX V = to->getMaxVertexId() - 1;
 	// Mark all the vertices as not visited
 	std::vector<bool> visited(V+1, false);
 
@@ -344,7 +344,7 @@ void my_dfs (models::Dataflow* adj, Vertex node, std::vector<bool> visited, Vert
 
 std::set<unsigned int> my_dfs_wrapper(models::Dataflow* adj, Vertex start)
 {
-	ARRAY_INDEX V = adj->getVerticesCount();
+	ARRAY_INDEX V = adj->getMaxVertexId() - 1;
 	std::vector<bool> visited(V+1, false);
 	std::vector<unsigned int> path;
 
@@ -399,7 +399,7 @@ void fillOrder(Vertex vtx, std::vector<bool>& visited, std::stack<Vertex> &Stack
 // The main function that finds and prints all strongly connected components
 void printSCCs(models::Dataflow* to, Vertex start)
 {
-	ARRAY_INDEX V = to->getVerticesCount();
+	ARRAY_INDEX V = to->getMaxVertexId() - 1;
 	std::stack<Vertex> Stack;
 
 	// Mark all the vertices as not visited (For first DFS)
@@ -913,7 +913,7 @@ void mapping(Vertex vtx, std::vector<int>& core_mapping, NoCGraph* noc, models::
 //remove the current edge between nodes add intermediate nodes based on the path between them
 void taskAndNoCMapping(const models::Dataflow* input, models::Dataflow* to, Vertex start, NoCGraph* noc, std::map<int, route_t>& routes/*, std::vector<ARRAY_INDEX>& prog_order*/)
 {
-	ARRAY_INDEX V = to->getVerticesCount();
+	ARRAY_INDEX V = to->getMaxVertexId() - 1;
 	std::priority_queue<node> pq;
 	std::vector<bool> visited(V+1, false);
 	std::vector<int> core_mapping(V+1, -1);
@@ -1130,8 +1130,7 @@ std::vector<Vertex> addPathNode(models::Dataflow* d, Edge c, route_t list, confl
 
 //Remove the cyclic edges
 Vertex removeCycleEdges(models::Dataflow* to, std::vector<ARRAY_INDEX>& prog_order) {
-	auto origV = to->getVerticesCount();
-	std::vector<bool> visited(origV, false);
+	std::vector<bool> visited(to->getMaxVertexId(), false);
 	std::vector<ARRAY_INDEX> removeEdgeId;
 	std::vector<ARRAY_INDEX> vertexId;
 
@@ -1214,7 +1213,7 @@ std::map<int, route_t> graphProcessing(const models::Dataflow* dataflow, NoCGrap
 	if(!myflag)
 		to->addEdge(start, top);
 
-	ARRAY_INDEX V = to->getVerticesCount();
+	ARRAY_INDEX V = to->getMaxVertexId() - 1;
 	for(ARRAY_INDEX i = 0; i < V+1; i++)
 	{
 		std::set<unsigned int> temp;
-- 
2.43.0


From 59529e2d469809694aa28c81538b3ae65af9ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:24 +0000
Subject: [PATCH 19/24] fix: the enumeration of cycles reaches tasks whose id
 is above the number of tasks

---
 src/libkiter/algorithms/analysis/cycle_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/analysis/cycle_detection.cpp b/src/libkiter/algorithms/analysis/cycle_detection.cpp
index 74d729b..629931b 100644
--- a/src/libkiter/algorithms/analysis/cycle_detection.cpp
+++ b/src/libkiter/algorithms/analysis/cycle_detection.cpp
@@ -51,7 +51,7 @@ void algorithms::find_simple_cycles(models::Dataflow* const  dataflow, parameter
   ARRAY_INDEX start_id = 1; // NOTE probably better to check first vertex in dataflow graph rather than assume value of start ID (dataflow->getFirstVertex()?)
   VERBOSE_DEBUG("original graph:" << std::endl);
   VERBOSE_DEBUG(print_status(dataflow) << std::endl);
-  while (start_id <= dataflow->getVerticesCount()) {
+  while (start_id < dataflow->getMaxVertexId()) {
     models::Dataflow* subgraph = generate_subgraph(dataflow, start_id); // subgraph excludes all vertices less than the specified starting ID
     std::map<int, std::vector<ARRAY_INDEX>> scc_map = algorithms::computeSCCKosaraju(subgraph);
     // find the SCC that contains the vertex with the smallest ID
-- 
2.43.0


From 5a4140bd85b8911f5286a2177adde48c34424786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:19 +0000
Subject: [PATCH 20/24] fix: write task durations to SDF3 files with all their
 digits

---
 src/libkiter/printers/SDF3Wrapper.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libkiter/printers/SDF3Wrapper.cpp b/src/libkiter/printers/SDF3Wrapper.cpp
index 4dd1997..5487b20 100644
--- a/src/libkiter/printers/SDF3Wrapper.cpp
+++ b/src/libkiter/printers/SDF3Wrapper.cpp
@@ -20,6 +20,8 @@
 #include <iostream>
 #include <cstring>
 #include <fstream>
+#include <iomanip>
+#include <limits>
 
 using std::vector;
 
@@ -50,7 +52,8 @@ std::string vectorAsStr(const std::vector<TIME_UNIT>& t)
 			if ((std::floor(v)==std::ceil(v))) {
 				s << (unsigned long) (v) ;
 			} else {
-				s << commons::toString(v);
+				// enough digits to read back the same value
+				s << std::setprecision(std::numeric_limits<TIME_UNIT>::max_digits10) << v;
 			}
 		}
 		return s.str();
-- 
2.43.0


From 8c157e3dfdece3570cfc5b37b199095f4691435d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 21/24] fix: symbolic execution uses the consumption rate of a
 self-loop for its input side

---
 src/libkiter/algorithms/throughput/actor.cpp  | 39 +++++++++++++------
 src/libkiter/algorithms/throughput/actor.h    |  4 ++
 .../throughput/symbolic_execution.cpp         |  4 +-
 3 files changed, 34 insertions(+), 13 deletions(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 3f35132..690151e 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -113,6 +113,23 @@ TOKEN_UNIT Actor::getExecRate(Edge e, PHASE_INDEX p) {
   }
 }
 
+// a channel from an actor to itself is both an input and an output: its two rates may differ
+TOKEN_UNIT Actor::getConsRate(Edge e) {
+  return this->getConsRate(e, this->getPhase(e));
+}
+
+TOKEN_UNIT Actor::getConsRate(Edge e, PHASE_INDEX p) {
+  return this->consExecRate.at(e).at(p);
+}
+
+TOKEN_UNIT Actor::getProdRate(Edge e) {
+  return this->getProdRate(e, this->getPhase(e));
+}
+
+TOKEN_UNIT Actor::getProdRate(Edge e, PHASE_INDEX p) {
+  return this->prodExecRate.at(e).at(p);
+}
+
 EXEC_COUNT Actor::getNumExecutions() {
   return this->numExecs;
 }
@@ -127,7 +144,7 @@ bool Actor::isReadyForExec(State s) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
                   << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
                   << std::endl);
-    if (s.getTokens(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+    if (s.getTokens(e.first) < this->getConsRate(e.first) || this->isExecuting) {
       isExecutable = false;
     }
   }
@@ -137,7 +154,7 @@ bool Actor::isReadyForExec(State s) {
                     << s.getBufferSpace(e.first) << "/" << this->getExecRate(e.first)
                     << std::endl);
       // if (s.getBufferSize(e.first) - s.getTokens(e.first) < this->getExecRate(e.first)) {
-      if (s.getBufferSpace(e.first) < this->getExecRate(e.first) || this->isExecuting) {
+      if (s.getBufferSpace(e.first) < this->getProdRate(e.first) || this->isExecuting) {
         isExecutable = false;
       }
     }
@@ -163,14 +180,14 @@ bool Actor::isReadyToEndExec(State s) {
 // Begin actor's execution, consuming tokens from input channels
 void Actor::execStart(models::Dataflow* const dataflow, State &s) {
   {ForInputEdges(dataflow, this->actor, e) {
-      s.setTokens(e, s.getTokens(e) - this->getExecRate(e));
+      s.setTokens(e, s.getTokens(e) - this->getConsRate(e));
     }}
   if (s.hasBoundedBuffers()) { // for bounded buffers, need to 'reserve' space for tokens about to be produced
     {ForOutputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Consuming space in Channel " << dataflow->getEdgeId(e)
                       << ": " << s.getBufferSpace(e) << "-" << this->getExecRate(e)
-                      << "=" << s.getBufferSpace(e) - this->getExecRate(e));
-        s.setBufferSpace(e, s.getBufferSpace(e) - this->getExecRate(e));
+                      << "=" << s.getBufferSpace(e) - this->getProdRate(e));
+        s.setBufferSpace(e, s.getBufferSpace(e) - this->getProdRate(e));
       }}
   }
   std::pair<TIME_UNIT, PHASE_INDEX> newExec(dataflow->getVertexDuration(this->actor,
@@ -190,14 +207,14 @@ void Actor::execEnd(models::Dataflow* const dataflow, State &s) {
       VERBOSE_INFO("ending execution for phase "
                 << currentPhase << ", producing "
                 << this->getExecRate(e, currentPhase) << " tokens");
-      s.setTokens(e, s.getTokens(e) + this->getExecRate(e, currentPhase));
+      s.setTokens(e, s.getTokens(e) + this->getProdRate(e, currentPhase));
     }}
   if (s.hasBoundedBuffers()) { // free up spaces after tokens that have been consumed
     {ForInputEdges(dataflow, this->actor, e) {
         VERBOSE_DEBUG("Producing space in Channel " << dataflow->getEdgeId(e)
                       << ": " << s.getBufferSpace(e) << "+" << this->getExecRate(e, currentPhase)
-                      << "=" << s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
-        s.setBufferSpace(e, s.getBufferSpace(e) + this->getExecRate(e, currentPhase));
+                      << "=" << s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
+        s.setBufferSpace(e, s.getBufferSpace(e) + this->getConsRate(e, currentPhase));
       }}
   }
   s.removeFrontExec(this->actor);
@@ -227,7 +244,7 @@ void Actor::execEndWithMod(models::Dataflow* const dataflow, State &s, std::dequ
       // for (int i = 0; i < this->getExecRate(e, currentPhase); i++){
       // (*buffer).push_back({end_time+(correct_slot*i), {dataflow->getEdgeId(e), 1}});
       // }
-      (*buffer).push_back({end_time, {dataflow->getEdgeId(e), this->getExecRate(e, currentPhase)}});
+      (*buffer).push_back({end_time, {dataflow->getEdgeId(e), this->getProdRate(e, currentPhase)}});
     }}
   s.removeFrontExec(this->actor);
   this->isExecuting = false;
@@ -245,7 +262,7 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\t " << prevState.getTokens(e.first) << " tokens available previously, "
                   << this->getExecRate(e.first) << " required (p "
                   << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getTokens(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getTokens(e.first) < this->getConsRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                     << sourceId << std::endl);
       absDepGraph.addCausalDep(targetId, sourceId);
@@ -261,7 +278,7 @@ void Actor::computeCausalDeps(models::Dataflow* const dataflow, State &prevState
     VERBOSE_DEBUG("\t\t " << prevState.getBufferSpace(e.first)
                   << " spaces available previously, " << this->getExecRate(e.first)
                   << " required (p " << this->getPhase(e.first) << ")" << std::endl);
-    if (prevState.getBufferSpace(e.first) < this->getExecRate(e.first)) {
+    if (prevState.getBufferSpace(e.first) < this->getProdRate(e.first)) {
       VERBOSE_DEBUG("\t\t\tCausal dep between " << sourceId << " and "
                     << targetId << std::endl);
       absDepGraph.addCausalDep(sourceId, targetId);
diff --git a/src/libkiter/algorithms/throughput/actor.h b/src/libkiter/algorithms/throughput/actor.h
index a8cdba6..8f5ba30 100644
--- a/src/libkiter/algorithms/throughput/actor.h
+++ b/src/libkiter/algorithms/throughput/actor.h
@@ -31,6 +31,10 @@ class Actor {
   void setId(ARRAY_INDEX newId);
   TOKEN_UNIT getExecRate(Edge e);
   TOKEN_UNIT getExecRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getConsRate(Edge e); // tokens taken from an input channel by the current phase
+  TOKEN_UNIT getConsRate(Edge e, PHASE_INDEX p);
+  TOKEN_UNIT getProdRate(Edge e); // tokens put into an output channel by the current phase
+  TOKEN_UNIT getProdRate(Edge e, PHASE_INDEX p);
   EXEC_COUNT getNumExecutions();
   bool isReadyForExec(State s);
   bool isReadyToEndExec(State s);
diff --git a/src/libkiter/algorithms/throughput/symbolic_execution.cpp b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
index 13c51eb..6ddc5ac 100644
--- a/src/libkiter/algorithms/throughput/symbolic_execution.cpp
+++ b/src/libkiter/algorithms/throughput/symbolic_execution.cpp
@@ -534,13 +534,13 @@ std::set<Edge> algorithms::computeDeadlockStorageDeps(models::Dataflow* const da
       VERBOSE_DEBUG("\t\t " << s.getBufferSpace(e) << " spaces available, "
                     << actorMap[sourceId].getExecRate(e) << " required (p "
                     << actorMap[sourceId].getPhase(e) << ")" << std::endl);
-      if (s.getTokens(e) < actorMap[targetId].getExecRate(e)) {
+      if (s.getTokens(e) < actorMap[targetId].getConsRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << targetId << " and "
                       << sourceId << std::endl);
         absDepGraph.addCausalDep(targetId, sourceId);
       }
 
-      if (s.getBufferSpace(e) < actorMap[sourceId].getExecRate(e)) {
+      if (s.getBufferSpace(e) < actorMap[sourceId].getProdRate(e)) {
         VERBOSE_DEBUG("\t\t\tCausal dep between " << sourceId << " and "
                       << targetId << std::endl);
         absDepGraph.addCausalDep(sourceId, targetId);
-- 
2.43.0


From 5c4045c5ff9002aa82fbcb9afb1e74f2b3948163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:36 +0000
Subject: [PATCH 22/24] fix: an actor without input channels is not ready while
 it executes

---
 src/libkiter/algorithms/throughput/actor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libkiter/algorithms/throughput/actor.cpp b/src/libkiter/algorithms/throughput/actor.cpp
index 690151e..6c055d3 100644
--- a/src/libkiter/algorithms/throughput/actor.cpp
+++ b/src/libkiter/algorithms/throughput/actor.cpp
@@ -139,7 +139,7 @@ bool Actor::isReadyForExec(State s) {
   // Execution conditions (for given phase):
   // (1) enough room in output channel, (2) enough tokens in input channel, (3) not currently executing
   VERBOSE_DEBUG("Is Actor " << this->getId() << " ready to execute?" << std::endl);
-  bool isExecutable = true;
+  bool isExecutable = !this->isExecuting;
   for (auto const &e : this->consPhaseCount) {
     VERBOSE_DEBUG("\tTokens in channel (current/required): "
                   << s.getTokens(e.first) << "/" << this->getExecRate(e.first)
-- 
2.43.0


From 0cb3f068edd396c6a6047202fb74e86e2979b3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:13 +0000
Subject: [PATCH 23/24] fix: the hyper-period is computed from ratios of
 repetition counts in full precision

---
 src/libkiter/algorithms/software_noc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libkiter/algorithms/software_noc.cpp b/src/libkiter/algorithms/software_noc.cpp
index 8b7f0d9..000f9a5 100644
--- a/src/libkiter/algorithms/software_noc.cpp
+++ b/src/libkiter/algorithms/software_noc.cpp
@@ -2005,15 +2005,15 @@ void printTasks(models::Dataflow* to)
 void findHP(models::Dataflow* orig, models::Dataflow* to, scheduling_t& persched, TIME_UNIT* HP, EXEC_COUNT* LCM)
 {
 	//fins ratio between orig and new graph for the nodes
-	float ratio = -1;
-	std::map<ARRAY_INDEX, float> ratio_arr;
+	TIME_UNIT ratio = -1;
+	std::map<ARRAY_INDEX, TIME_UNIT> ratio_arr;
 	std::map<ARRAY_INDEX, TIME_UNIT> delays;
 	VERBOSE_ASSERT(computeRepetitionVector(orig),"inconsistent graph");
 	VERBOSE_ASSERT(computeRepetitionVector(to),"inconsistent graph");
 	{ForEachVertex(orig,orig_v) {
 		auto orig_vid = orig->getVertexId(orig_v);
 		auto to_v = to->getVertexById(orig_vid);
-		float new_ratio = (float) to->getNi(to_v) / (float)orig->getNi(orig_v);
+		TIME_UNIT new_ratio = (TIME_UNIT) to->getNi(to_v) / (TIME_UNIT) orig->getNi(orig_v);
 		if(ratio != -1 && ratio != new_ratio)
 			std::cout << "NODE " << to->getVertexName(to_v) << ",ni=" <<  to->getNi(to_v) << " failed\n";
 		ratio = new_ratio;
@@ -2044,14 +2044,14 @@ void findHP(models::Dataflow* orig, models::Dataflow* to, scheduling_t& persched
 		auto task = key.first;
 		auto task_vtx = to->getVertexById(key.first);
 
-		float new_ratio = ratio_arr[key.first];
+		TIME_UNIT new_ratio = ratio_arr[key.first];
 		auto period = persched[task].periodic_starts.first;
 		auto starts = persched[task].periodic_starts.second;
 		std::stringstream ss;
 		for(int i = 0; i < (int)starts.size(); i++)
 			ss << std::setprecision(13) << starts[i] << " ";
 
-		*HP =    ( period * to->getNi(task_vtx) ) / (new_ratio * ((float)starts.size())) ;
+		*HP =    ( period * to->getNi(task_vtx) ) / (new_ratio * ((TIME_UNIT)starts.size())) ;
 		auto delay = delays[key.first];
 		VERBOSE_INFO ( "Task " <<  to->getVertexName(task_vtx) <<  " : "
 				<< " duration=[ " << commons::toString(to->getVertexPhaseDuration(task_vtx)) <<  "]"
-- 
2.43.0


From 4b33c7cbe3d21d6b15a355a00000bdf0c2025a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:07 +0000
Subject: [PATCH 24/24] fix: a TDMA file that cannot be read is reported
 instead of being dereferenced as null

---
 src/libkiter/algorithms/throughput/so4_noc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libkiter/algorithms/throughput/so4_noc.cpp b/src/libkiter/algorithms/throughput/so4_noc.cpp
index 218f3f5..88749d2 100644
--- a/src/libkiter/algorithms/throughput/so4_noc.cpp
+++ b/src/libkiter/algorithms/throughput/so4_noc.cpp
@@ -25,6 +25,7 @@ std::tuple<std::map<ARRAY_INDEX, long>, long> generateConditions(models::Dataflo
   if (file.extension() == ".xml"){
     std::map<edge_id_t, long> condition_param; //noc edge id : slot
     xmlDocPtr doc =  xmlParseFile(filename.c_str()); //TODO: error handling and shift into separate function
+    VERBOSE_ASSERT(doc, "Could not read the TDMA file " << filename);
     xmlNodePtr tdma_node = NULL;
     for (xmlNodePtr cur_node = doc->children; cur_node; cur_node = cur_node->next) {
       if (cur_node->type == XML_ELEMENT_NODE) {
-- 
2.43.0

