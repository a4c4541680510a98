From 04a36edfef3637174425502c6b3374844a96b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 01/27] fix: force mandatory edges into the Prim 1-tree
 whatever the scale of the weights

The mandatory edges were given weight -|V|, but edge weights shifted by the
dual multipliers can be lower than that when the instance is not scaled to the
unit square; mandatory edges could then be left out of the 1-tree and the
search could close subproblems that held the optimum.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 16e27ff..43ff047 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -590,9 +590,9 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 
         if(src != candidateId && dest != candidateId) {
 
-            graph_copy.edges_matrix[src][dest].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges_matrix[dest][src].weight = -((double) problem->graph.num_nodes);
-            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -((double) problem->graph.num_nodes);
+            graph_copy.edges_matrix[src][dest].weight = -INFINITE;
+            graph_copy.edges_matrix[dest][src].weight = -INFINITE;
+            graph_copy.edges[graph->edges_matrix[src][dest].positionInGraph].weight = -INFINITE;
         }
     }
 
-- 
2.43.0


From b2e64ccd6012ce306fee1996bbc80514764fd02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:10 +0000
Subject: [PATCH 02/27] fix: restrict constraint inference and variable fixing
 to the nodes of the graph

With fewer nodes than MAX_VERTEX_NUM (the documented maximum) variable_fixing
walked past the edges of the 1-tree, reading uninitialised node ids and going
out of bounds, and infer_constraints inferred constraints for absent nodes.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 43ff047..38df9ba 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -185,15 +185,16 @@ void initialize_matrix(SubProblem *subProblem) {
 bool infer_constraints(SubProblem * subProblem){
 
     bool valid = true;
+    short num_nodes = (short) problem->graph.num_nodes;
 
-    for (short i = 0; i < MAX_VERTEX_NUM && valid; i++) {
+    for (short i = 0; i < num_nodes && valid; i++) {
 
         short num_nothing_node = 0;
         short num_mandatory_node = 0;
         short num_forbidden_node = 0;
         short nothing_nodes[MAX_VERTEX_NUM];
 
-        for (short j = 0; j < MAX_VERTEX_NUM; j++) {
+        for (short j = 0; j < num_nodes; j++) {
             if (subProblem->constraints[i][j] == NOTHING) {
                 nothing_nodes[num_nothing_node] = j;
                 num_nothing_node++;
@@ -211,9 +212,9 @@ bool infer_constraints(SubProblem * subProblem){
                 subProblem->num_forbidden_edges++;
                 problem->num_fixed_edges++;
             }
-        } else if (num_mandatory_node > 2 || (MAX_VERTEX_NUM - num_forbidden_node < 2)) {
+        } else if (num_mandatory_node > 2 || (num_nodes - num_forbidden_node < 2)) {
             valid = false;
-        } else if (MAX_VERTEX_NUM - num_forbidden_node == 2) {
+        } else if (num_nodes - num_forbidden_node == 2) {
 
             if (num_nothing_node + num_mandatory_node == 2) {
                 for (short j = 0; j < num_nothing_node; j++) {
@@ -469,7 +470,7 @@ int variable_fixing(SubProblem *currentSubProb){
     }
 
 
-    for (int i = 0; i < MAX_VERTEX_NUM; i++){
+    for (int i = 0; i < currentSubProb->oneTree.num_edges; i++){
         Edge edge_1tree = currentSubProb->oneTree.edges[i];
         double edge_1tree_weight = problem->graph.edges_matrix[edge_1tree.src][edge_1tree.dest].weight;
 
-- 
2.43.0


From 3cce40794a6a2af7b2fe881a2a71cb62558315d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 03/27] fix: build the initial tour only from edges of the
 graph

On graphs without all the edges the nearest neighbour walks closed themselves
with absent edges (weight 0), so that a tour that does not exist was reported
as the optimum; dead ends also wrote past the neighbour arrays. Such walks are
now discarded, and the incumbent starts from an infinite cost.
---
 .../main/algorithms/branch_and_bound.c        | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 38df9ba..6064ec6 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -842,6 +842,16 @@ bool time_limit_reached(void) {
 }
 
 
+static bool are_neighbours(unsigned short src, unsigned short dest) {
+    for (unsigned short i = 0; i < problem->graph.nodes[src].num_neighbours; i++) {
+        if (problem->graph.nodes[src].neighbours[i] == dest) {
+            return true;
+        }
+    }
+    return false;
+}
+
+
 void nearest_prob_neighbour(unsigned short start_node) {
     SubProblem nn_subProblem;
     nn_subProblem.num_forbidden_edges = 0;
@@ -851,11 +861,16 @@ void nearest_prob_neighbour(unsigned short start_node) {
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
     bool visited[MAX_VERTEX_NUM] = {false};
+    bool complete = true; // false if an absent edge stops the walk
     ConstrainedEdge cycleEdge;
 
     for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
         if (visited_count == problem->graph.num_nodes - 1) {
+            if (!are_neighbours(current_node, start_node)) {
+                complete = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
             cycleEdge.src = current_node;
             cycleEdge.dest = start_node;
@@ -873,6 +888,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                     best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                 }
             }
+            if (best_neighbour == current_node) {
+                complete = false;
+                break;
+            }
             add_edge(&nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
             cycleEdge.src = current_node;
             cycleEdge.dest = best_neighbour;
@@ -882,7 +901,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
             current_node = best_neighbour;
         }
     }
-    nn_subProblem.value = nn_subProblem.oneTree.cost;
+    nn_subProblem.value = complete ? nn_subProblem.oneTree.cost : INFINITE;
     nn_subProblem.oneTree.isValid = true;
     nn_subProblem.type = CLOSED_NN;
     nn_subProblem.prob = nn_subProblem.oneTree.prob;
@@ -894,11 +913,16 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_edges_in_cycle = 0;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
+        bool prob_complete = true; // false if an absent edge stops the walk
         current_node = start_node;
 
         for (unsigned short visited_count = 0; visited_count < problem->graph.num_nodes; visited_count++) {
 
             if (visited_count == problem->graph.num_nodes - 1) {
+                if (!are_neighbours(current_node, start_node)) {
+                    prob_complete = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][start_node]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = start_node;
@@ -916,6 +940,10 @@ void nearest_prob_neighbour(unsigned short start_node) {
                         best_neighbour = problem->graph.nodes[current_node].neighbours[i];
                     }
                 }
+                if (best_neighbour == current_node) {
+                    prob_complete = false;
+                    break;
+                }
                 add_edge(&prob_nn_subProblem.oneTree, &problem->graph.edges_matrix[current_node][best_neighbour]);
                 cycleEdge.src = current_node;
                 cycleEdge.dest = best_neighbour;
@@ -925,7 +953,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
                 current_node = best_neighbour;
             }
         }
-        prob_nn_subProblem.value = prob_nn_subProblem.oneTree.cost;
+        prob_nn_subProblem.value = prob_complete ? prob_nn_subProblem.oneTree.cost : INFINITE;
         prob_nn_subProblem.oneTree.isValid = true;
         prob_nn_subProblem.type = CLOSED_NN_HYBRID;
         prob_nn_subProblem.prob = prob_nn_subProblem.oneTree.prob;
@@ -1018,6 +1046,8 @@ void branch_and_bound(Problem *current_problem) {
 
         problem->start = clock();
         problem->bestValue = INFINITE;
+        problem->bestSolution.value = INFINITE;
+        problem->bestSolution.num_edges_in_cycle = 0;
         problem->candidateNodeId = find_candidate_node();
         problem->bestSolution.id = 0;
         problem->bestSolution.treeLevel = 0;
-- 
2.43.0


From 184fb6f9fcad56d9de322f2753412265d48dae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 04/27] fix: leave room for every mandatory edge of a
 subproblem

Inferred and fixed edges can make more than |V| edges mandatory in a
subproblem that is not feasible; the array was overrun into the constraint
matrix before the subproblem was discarded.
---
 src/HybridSolver/main/data_structures/b_and_b_data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.h b/src/HybridSolver/main/data_structures/b_and_b_data.h
index f76eda6..6cf7370 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.h
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.h
@@ -53,7 +53,7 @@ typedef struct SubProblem{
     unsigned short num_forbidden_edges; ///< The number of forbidden edges in the SubProblem.
     unsigned short num_mandatory_edges; ///< The number of mandatory edges in the SubProblem.
     int edge_to_branch; ///< The id of the edge to branch in the SubProblem.
-    ConstrainedEdge mandatoryEdges [MAX_VERTEX_NUM]; ///< The mandatory edges in the SubProblem.
+    ConstrainedEdge mandatoryEdges [MAX_EDGES_NUM + 1]; ///< The mandatory edges in the SubProblem, more than |V| when it is not feasible.
     ConstraintType constraints [MAX_VERTEX_NUM][MAX_VERTEX_NUM]; ///< The constraints of the edges in the SubProblem.
 }SubProblem;
 
-- 
2.43.0


From 7336ee85f4dd4d99cb2d769813bfb38c64436166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:05 +0000
Subject: [PATCH 05/27] fix: do not overrun the candidate's edges when a third
 one is mandatory

mst_to_one_tree stores the third mandatory edge of the candidate node before
it closes the subproblem as infeasible.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 6064ec6..7a47926 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -88,8 +88,8 @@ bool check_hamiltonian(SubProblem *subProblem) {
 BBNodeType mst_to_one_tree(SubProblem *currentSubproblem, Graph *graph) {
 
     Node candidate = graph->nodes[problem->candidateNodeId];
-    int bestEdgesPos[2];
-    double bestEdgesWeight[2];
+    int bestEdgesPos[3];
+    double bestEdgesWeight[3];
     unsigned short src = candidate.positionInGraph;
     unsigned short others [candidate.num_neighbours];
     unsigned short num_others = 0;
-- 
2.43.0


From 83a5872928ce9386e24cf77d0632199cfd47f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 06/27] fix: free the subgradient's subproblems when bound()
 returns early

Every subproblem closed during the dual ascent leaked the list of 1-trees
generated so far, each of them as large as the constraint matrix.
---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 7a47926..789e95e 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -737,6 +737,7 @@ void bound(SubProblem *currentSubProb) {
                     if(analyzedSubProblem.type != OPEN){
                         if(iter == 1 || (analyzedSubProblem.type == CLOSED_SUBGRADIENT)) {
                             currentSubProb->type = analyzedSubProblem.type;
+                            delete_SubProblemList(&generatedSubProblems);
                             return;
                         }
                     }
@@ -780,10 +781,12 @@ void bound(SubProblem *currentSubProb) {
 
                 else{
                     currentSubProb->type = CLOSED_UNFEASIBLE;
+                    delete_SubProblemList(&generatedSubProblems);
                     return;
                 }
             } else {
                 currentSubProb->type = CLOSED_UNFEASIBLE;
+                delete_SubProblemList(&generatedSubProblems);
                 return;
             }
 
-- 
2.43.0


From cbb864b90b1a90f4dca895f97f9a94997ffa85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:03 +0000
Subject: [PATCH 07/27] fix: keep both ends of the lists right when adding or
 deleting at the end

Inserting at index == size left the tail on the previous element, so that the
next element added at the bottom dropped it; deleting the only element from the
bottom dereferenced NULL.
---
 src/HybridSolver/main/data_structures/b_and_b_data.c       | 1 +
 .../data_structures/doubly_linked_list/list_functions.c    | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/b_and_b_data.c b/src/HybridSolver/main/data_structures/b_and_b_data.c
index e9cf1dc..f120683 100644
--- a/src/HybridSolver/main/data_structures/b_and_b_data.c
+++ b/src/HybridSolver/main/data_structures/b_and_b_data.c
@@ -99,6 +99,7 @@ void add_elem_SubProblemList_index(SubProblemsList *list, SubProblem *element, s
         if (supp == NULL) {
             e = build_list_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_list_elem(element, supp, supp->prev);
             e->next->prev = e;
diff --git a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
index 9f2be7e..22c083f 100644
--- a/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
+++ b/src/HybridSolver/main/data_structures/doubly_linked_list/list_functions.c
@@ -110,6 +110,7 @@ void add_elem_list_index(List *list, void *element, size_t index) {
         if (supp == NULL) {
             e = build_dll_elem(element, NULL, list->tail);
             list->tail->next = e;
+            list->tail = e;
         } else {
             e = build_dll_elem(element, supp, supp->prev);
             e->next->prev = e;
@@ -133,7 +134,11 @@ void delete_list_elem_bottom(List *list) {
     DllElem *oldTail = list->tail;
 
     list->tail = oldTail->prev;
-    list->tail->next = NULL;
+    if (list->tail == NULL) {
+        list->head = NULL;
+    } else {
+        list->tail->next = NULL;
+    }
 
     free(oldTail);
     list->size--;
-- 
2.43.0


From 6b22b465af09c614a3306721b1cfb0227bce3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:33 +0000
Subject: [PATCH 08/27] fix: initialise the reported time and branching edge of
 the initial tours

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 789e95e..3b1b01f 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -860,6 +860,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
     nn_subProblem.num_forbidden_edges = 0;
     nn_subProblem.num_mandatory_edges = 0;
     nn_subProblem.num_edges_in_cycle = 0;
+    nn_subProblem.edge_to_branch = -1;
     nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
     create_mst(&nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
     unsigned short current_node = start_node;
@@ -914,6 +915,8 @@ void nearest_prob_neighbour(unsigned short start_node) {
         prob_nn_subProblem.num_forbidden_edges = 0;
         prob_nn_subProblem.num_mandatory_edges = 0;
         prob_nn_subProblem.num_edges_in_cycle = 0;
+        prob_nn_subProblem.edge_to_branch = -1;
+        prob_nn_subProblem.timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;
         create_mst(&prob_nn_subProblem.oneTree, problem->graph.nodes, problem->graph.num_nodes);
         bool prob_visited[MAX_VERTEX_NUM] = {false};
         bool prob_complete = true; // false if an absent edge stops the walk
-- 
2.43.0


From cb63095584d61d68b89de9cbccbcc487e17cf425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 09/27] fix: let the probability decide between exactly equal
 bounds

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 3b1b01f..18f4114 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -648,7 +648,7 @@ void constrained_prim(Graph * graph, SubProblem * subProblem, unsigned short can
 bool compare_subproblems(const SubProblem *a, const SubProblem *b) {
     if (HYBRID) {
         return (b->value - a->value) > EPSILON ||
-                ( (b->value > a->value) && (a->prob - b->prob) >= BETTER_PROB);
+                ( (b->value >= a->value) && (a->prob - b->prob) >= BETTER_PROB);
     } else {
         return (b->value - a->value) > EPSILON;
     }
@@ -986,7 +986,7 @@ void nearest_prob_neighbour(unsigned short start_node) {
 bool compare_candidate_node(SubProblem * a, SubProblem * b){
     if (HYBRID) {
         return (a->value - b->value) > EPSILON ||
-            ((a->value > b->value) && (a->prob - b->prob) >= BETTER_PROB);
+            ((a->value >= b->value) && (a->prob - b->prob) >= BETTER_PROB);
     } else {
         return (a->value - b->value) >= EPSILON;
     }
-- 
2.43.0


From fda663d9f51690cbb8d6b0b363546b22bbe47e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 10/27] fix: leave room for the terminator when printing the
 edges of a graph or MST

---
 src/HybridSolver/main/data_structures/graph.c | 2 +-
 src/HybridSolver/main/data_structures/mst.c   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/data_structures/graph.c b/src/HybridSolver/main/data_structures/graph.c
index 26da3df..4a733bf 100644
--- a/src/HybridSolver/main/data_structures/graph.c
+++ b/src/HybridSolver/main/data_structures/graph.c
@@ -116,7 +116,7 @@ void print_graph(const Graph *G) {
     double dim = (log(G->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short j = 0; j < G->num_edges; j++) {
         char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print_dest [(int) (dim-7)/2 + 1] ;
         Edge curr = G->edges[j];
         sprintf(edge_print, "%i", curr.src);
         strcat(edge_print, " <--> ");
diff --git a/src/HybridSolver/main/data_structures/mst.c b/src/HybridSolver/main/data_structures/mst.c
index 3e71278..e640ea0 100644
--- a/src/HybridSolver/main/data_structures/mst.c
+++ b/src/HybridSolver/main/data_structures/mst.c
@@ -73,7 +73,7 @@ void print_mst(const MST * tree){
     double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
         char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print_dest [(int) (dim-7)/2 + 1] ;
         const Edge * curr = &tree->edges[i];
         sprintf(edge_print, "%i", curr->src);
         strcat(edge_print, " <--> ");
@@ -95,7 +95,7 @@ void print_mst_original_weight(const MST * tree, const Graph * graph){
     double dim = (log(tree->num_nodes) / log(10) + 1) * 2 + 7;
     for (unsigned short i = 0; i < tree->num_edges; i++) {
         char edge_print [(int) dim] ;
-        char edge_print_dest [(int) (dim-7)/2] ;
+        char edge_print_dest [(int) (dim-7)/2 + 1] ;
         const Edge * curr = &tree->edges[i];
         sprintf(edge_print, "%i", curr->src);
         strcat(edge_print, " <--> ");
-- 
2.43.0


From b2fbc11d82c0c5fdff7e978b57933687677c6702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 11/27] fix: size the degree table of the Fibonacci heap by the
 golden ratio bound

---
 src/HybridSolver/main/data_structures/fibonacci_heap.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/data_structures/fibonacci_heap.c b/src/HybridSolver/main/data_structures/fibonacci_heap.c
index 49a9a9b..bc6a2ed 100644
--- a/src/HybridSolver/main/data_structures/fibonacci_heap.c
+++ b/src/HybridSolver/main/data_structures/fibonacci_heap.c
@@ -113,7 +113,8 @@ void swap_roots(FibonacciHeap * heap, OrdTreeNode * node1, OrdTreeNode * node2){
 
 void consolidate(FibonacciHeap * heap){
 
-    int dimension = ((int) ceil(log(heap->num_nodes) / log(2))) + 2;
+    // the degree of a tree is bounded by the logarithm in base phi (> 1.6) of its number of nodes
+    int dimension = ((int) ceil(log(heap->num_nodes) / log(1.6))) + 2;
     OrdTreeNode * degree_list [dimension] ;
 
     for (int i = 0; i < dimension; i++) {
-- 
2.43.0


From b479fdb69f8a8735334b7f8be6842732e9be1d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 12/27] fix: do not sort the edges of a graph without edges

---
 src/HybridSolver/main/algorithms/kruskal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/algorithms/kruskal.c b/src/HybridSolver/main/algorithms/kruskal.c
index 69aa710..fa7338b 100644
--- a/src/HybridSolver/main/algorithms/kruskal.c
+++ b/src/HybridSolver/main/algorithms/kruskal.c
@@ -123,7 +123,9 @@ static void quick_sort(Graph * graph, unsigned short first, unsigned short last)
 void wrap_quick_sort(Graph * graph) {
     if (!graph->orderedEdges) {
         graph->orderedEdges = true;
-        quick_sort(graph, 0, graph->num_edges - 1);
+        if (graph->num_edges > 0) {
+            quick_sort(graph, 0, graph->num_edges - 1);
+        }
     }
 }
 
-- 
2.43.0


From f3bacf5818bcf3f80033163b281a00c2eea68cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:16 +0000
Subject: [PATCH 13/27] fix: reject TSPLIB files that are not EUC_2D

---
 src/HybridSolver/main/tsp_instance_reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index 99c940b..a72026c 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -28,7 +28,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
     bool check_euc_2d = false;
     while (getline(&line, &len, fp) != -1 &&
            strstr(line, "NODE_COORD_SECTION") == NULL) {
-        if (strstr(line, "EDGE_WEIGHT_TYPE : EUC_2D") == NULL) {
+        if (strstr(line, "EDGE_WEIGHT_TYPE") != NULL && strstr(line, "EUC_2D") != NULL) {
             check_euc_2d = true;
         }
     }
-- 
2.43.0


From c111d9f8d3c4b2accb1aa353fa7895002ac3b0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:36 +0000
Subject: [PATCH 14/27] fix: reject instance files with more nodes, rows or
 columns than there is room for

---
 src/HybridSolver/main/tsp_instance_reader.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/main/tsp_instance_reader.c b/src/HybridSolver/main/tsp_instance_reader.c
index a72026c..b3c3ca0 100644
--- a/src/HybridSolver/main/tsp_instance_reader.c
+++ b/src/HybridSolver/main/tsp_instance_reader.c
@@ -51,7 +51,7 @@ void read_tsp_lib_file(Graph *graph, char *filename) {
             float y;
 
             int result = sscanf(line, "%hu %f %f", &id, &x, &y);
-            if (result != 3) {
+            if (result != 3 || i >= MAX_VERTEX_NUM) {
                 perror("Error while reading the file.\n");
                 printf("\nFile: %s\n", filename);
                 exit(1);
@@ -93,16 +93,16 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
     char *line = NULL;
     size_t len = 0;
     bool first = true;
+    unsigned short node_num = 0;
     while (getline(&line, &len, fp) != -1) {
         if (first) {
             first = false;
 
             char *token = strtok(line, ";");
-            unsigned short node_num = 0;
             while (token != NULL && strcmp(token, "\n") != 0) {
                 double x = 0, y = 0;
                 int result = sscanf(token, "(%lf, %lf)", &x, &y);
-                if (result != 2) {
+                if (result != 2 || node_num >= MAX_VERTEX_NUM) {
                     perror("Error while reading the file.\n");
                     printf("\nFile: %s\n", filename);
                     exit(1);
@@ -124,7 +124,7 @@ void read_tsp_csv_file(Graph *graph, char *filename) {
                 double weight = 0, prob = 0;
 
                 int result = sscanf(token, "(%lf, %lf)", &weight, &prob);
-                if (result != 2) {
+                if (result != 2 || i >= node_num || j >= node_num) {
                     perror("Error while reading the file.\n");
                     printf("\nFile: %s\n", filename);
                     exit(1);
-- 
2.43.0


From e2d525a32931d3eee5485b157fc57e069f77445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:15 +0000
Subject: [PATCH 15/27] fix: HybridSolver.py: import errno, needed when another
 run creates a folder first

---
 src/HybridSolver/main/HybridSolver.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/HybridSolver/main/HybridSolver.py b/src/HybridSolver/main/HybridSolver.py
index 8351373..ab5e93f 100644
--- a/src/HybridSolver/main/HybridSolver.py
+++ b/src/HybridSolver/main/HybridSolver.py
@@ -11,6 +11,7 @@
 
     Repo: https://github.com/LorenzoSciandra/GraphConvolutionalBranchandBound
 """
+import errno
 import subprocess
 import argparse
 import pprint as pp
-- 
2.43.0


From f010d7ff10e7688f5f981668cb36206532ee896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 16/27] fix: GoogleTSPReader: keep the last node of tours on
 lines without a trailing space

---
 .../main/graph-convnet-tsp/utils/google_tsp_reader.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py b/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
index bf2343f..df1e298 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/google_tsp_reader.py
@@ -80,7 +80,7 @@ class GoogleTSPReader(object):
             
             # Convert tour nodes to required format
             # Don't add final connection for tour/cycle
-            tour_nodes = [int(node) - 1 for node in line[line.index('output') + 1:-1]][:-1]
+            tour_nodes = [int(node) - 1 for node in line[line.index('output') + 1:] if node.strip()][:-1]
             
             # Compute node and edge representation of tour + tour_len
             tour_len = 0
-- 
2.43.0


From 676c519a8939c2305d9f8ced76ff6ff1ea285645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 17/27] fix: mean_tour_len_nodes: close the tour at its first
 node, not at node 0

---
 src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py b/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
index 552daa3..4a534fd 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/utils/graph_utils.py
@@ -88,7 +88,7 @@ def mean_tour_len_nodes(x_edges_values, bs_nodes):
             i = y[batch_idx][y_idx]
             j = y[batch_idx][y_idx + 1]
             running_tour_len += W_val[batch_idx][i][j]
-        running_tour_len += W_val[batch_idx][j][0]  # Add final connection to tour/cycle
+        running_tour_len += W_val[batch_idx][j][y[batch_idx][0]]  # Add final connection to tour/cycle
     return running_tour_len / y.shape[0]
 
 
-- 
2.43.0


From f83b3d644c0a35b2079d2c94a30da15fbe5e552a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 18/27] fix: main.py: reduce too large instances to the size of
 the model in use

---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index 89da50f..d85a32c 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -359,7 +359,7 @@ def main(filepath, num_nodes, model_size):
         add_dummy_cities(num_nodes, model_size)
     elif num_nodes > model_size:
         graph = get_instance(num_nodes)
-        kmedoids_labels = fix_instance_size(graph, num_nodes)
+        kmedoids_labels = fix_instance_size(graph, num_nodes, model_size)
 
     config_path = "./logs/tsp" + str(model_size) + "/config.json"
     config = get_config(config_path)
-- 
2.43.0


From 43bd7bb75f62aa888372660548133227be285cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 19/27] fix: write_adjacency_matrix: compare probabilities as
 numbers, map every dummy to its city

---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index d85a32c..a31b91b 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -148,9 +148,10 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
                 final_arr.append(arr_combined[i * model_size + j])
 
             for j in range(num_nodes, model_size):
-                if i != j-num_nodes:
-                    if arr_combined[i * model_size + j][1] > final_arr[i * num_nodes + j - num_nodes][1]:
-                        final_arr[i * num_nodes + j - num_nodes][1] = arr_combined[i * model_size + j][1]
+                city = j % num_nodes
+                if i != city:
+                    if float(arr_combined[i * model_size + j][1]) > float(final_arr[i * num_nodes + city][1]):
+                        final_arr[i * num_nodes + city][1] = arr_combined[i * model_size + j][1]
 
         arr_combined = np.array(final_arr)
 
-- 
2.43.0


From 7c144551ae14ca54457b46e72015a06a80aa0450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:27 +0000
Subject: [PATCH 20/27] fix: write_adjacency_matrix: keep the order of the
 cities when the instance exceeds the model

---
 src/HybridSolver/main/graph-convnet-tsp/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/HybridSolver/main/graph-convnet-tsp/main.py b/src/HybridSolver/main/graph-convnet-tsp/main.py
index a31b91b..ddc5529 100644
--- a/src/HybridSolver/main/graph-convnet-tsp/main.py
+++ b/src/HybridSolver/main/graph-convnet-tsp/main.py
@@ -177,6 +177,10 @@ def write_adjacency_matrix(graph, y_probs, x_edges_values, nodes_coord, filepath
 
             j += 1
 
+        # back to the order of the instance, which the results refer to
+        order = [nodes_coord.index(node) for node in graph]
+        arr_combined = [[arr_combined[i][j] for j in order] for i in order]
+        nodes_coord = graph
         arr_combined = np.array(arr_combined).flatten().tolist()
         arr_combined = [[arr_combined[i], arr_combined[i + 1]] for i in range(0, len(arr_combined), 2)]
         nodes_coord = np.array(nodes_coord).flatten().tolist()
-- 
2.43.0


From c55601062473cce3b5434c5a48b0af2ee661d5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 21/27] fix: print_subProblem: name solutions of type
 CLOSED_1TREE, which the analyzer counts

---
 src/HybridSolver/main/algorithms/branch_and_bound.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/HybridSolver/main/algorithms/branch_and_bound.c b/src/HybridSolver/main/algorithms/branch_and_bound.c
index 18f4114..b0fed4a 100644
--- a/src/HybridSolver/main/algorithms/branch_and_bound.c
+++ b/src/HybridSolver/main/algorithms/branch_and_bound.c
@@ -1120,6 +1120,8 @@ void print_subProblem(const SubProblem *subProblem) {
         type = "CLOSED_NEAREST_NEIGHBOR";
     } else if (subProblem->type == CLOSED_NN_HYBRID) {
         type = "CLOSED_NEAREST_NEIGHBOR_HYBRID";
+    } else if (subProblem->type == CLOSED_1TREE) {
+        type = "CLOSED_1TREE";
     } else {
         type = "CLOSED_SUBGRADIENT";
     }
-- 
2.43.0


From 3a277bd40dbf2e00025f2a8e044e018235cc60f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 22/27] fix: analyzer: escape \textbf in the tables (a TAB was
 written)

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index ddccab2..86b8bf0 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -403,7 +403,7 @@ def modify_string(old_tab, line, name, j):
         if p_val < 0.05:
             old_tab = old_tab.replace(name + "_" + str(j),  "\\underline{\\textbf{" + str(cla_m) + "}}")
         else:
-            old_tab = old_tab.replace(name + "_" + str(j),  "\textbf{" + str(cla_m) + "}")
+            old_tab = old_tab.replace(name + "_" + str(j),  "\\textbf{" + str(cla_m) + "}")
 
         old_tab = old_tab.replace("std_" + name + "_" + str(j + 1), "\stdf{" + str(hyb_std) + "}")
         old_tab = old_tab.replace(name + "_" + str(j + 1),  str(hyb_m))
-- 
2.43.0


From 33515e356c30c58311f3f4f6da830b85284a911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 23/27] fix: analyzer: decide significance on the p-value
 itself, not on its rounding

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 86b8bf0..7c3731d 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -388,7 +388,7 @@ def modify_string(old_tab, line, name, j):
     hyb_std = round(float(line.split()[2]), 2)
     cla_m = round(float(line.split()[3]), 2)
     cla_std = round(float(line.split()[4]), 2)
-    p_val = round(float(line.split()[5]), 2)
+    p_val = float(line.split()[5])
     #print(hyb_m, cla_m, name)
     if hyb_m < cla_m:
         old_tab = old_tab.replace("std_" + name + "_" + str(j), "\stdf{" + str(cla_std) + "}")
-- 
2.43.0


From feb4b70aefa61c162fc80530c42cfe65cee39d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 24/27] fix: analyzer: instances neither mode has solved yet
 are not better in classic mode

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 7c3731d..2d11e05 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -64,7 +64,7 @@ def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
             if not abs(sol_one[key] - sol_two[key]) < ub:
                 if sol_one[key] < sol_two[key]:
                     one_count += 1
-                else:
+                elif sol_two[key] < sol_one[key]:
                     two_count += 1
 
         points_one.append(one_count / len(sol_one))
-- 
2.43.0


From 9d3895040f17b74d3e05608284c86e058a4c9a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 25/27] fix: analyzer: compare the modes on the instances both
 have results for

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index 2d11e05..c4c68fa 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -22,6 +22,11 @@ import pandas as pd
 
 
 def improvement_profile(hyb_solutions, cla_solutions, num_nodes, profiles_path):
+
+    same_ids = set(hyb_solutions.keys()).intersection(set(cla_solutions.keys()))
+    hyb_solutions = {key: value for key, value in hyb_solutions.items() if key in same_ids}
+    cla_solutions = {key: value for key, value in cla_solutions.items() if key in same_ids}
+
     # take all the times of the partial solutions
     times = set()
 
-- 
2.43.0


From 5127aa107464861d63d1095d35098c3e6b621f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:14 +0000
Subject: [PATCH 26/27] fix: analyzer: no division by zero when every instance
 was interrupted

---
 src/HybridSolver/results/AdjacencyMatrix/analyzer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
index c4c68fa..0c6900e 100644
--- a/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
+++ b/src/HybridSolver/results/AdjacencyMatrix/analyzer.py
@@ -260,10 +260,10 @@ def read_values(path):
             partial_solutions[inst_id] = (current_resolved, solutions)
 
     all_stats["resolved"] = str(round((resolved / (resolved + len(not_resolved_list)))* 100, 2)) + "%"
-    all_stats["num_closed_nn"] = str(round((num_closed_nn / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / resolved) * 100, 2)) + "%"
-    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / resolved) * 100, 2)) + "%"
+    all_stats["num_closed_nn"] = str(round((num_closed_nn / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_nnHybrid"] = str(round((num_closed_nnHybrid / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_1Tree"] = str(round((num_closed_1Tree / max(resolved, 1)) * 100, 2)) + "%"
+    all_stats["num_closed_subgradient"] = str(round((num_closed_subgradient / max(resolved, 1)) * 100, 2)) + "%"
 
     all_stats["total_time"] = dict(sorted(total_time.items()))
     all_stats["time_bb"] = dict(sorted(time_bb.items()))
-- 
2.43.0


From 1f9fb16bb98f74ef00d0b1d7c0391325694c5744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:55 +0000
Subject: [PATCH 27/27] fix: convert a TSPLIB problem with a single node

np.squeeze turned its 1x1 distance matrix into a scalar, of which len() cannot be taken.
---
 src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py b/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
index 233c6ef..3d84ee9 100644
--- a/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
+++ b/src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py
@@ -32,7 +32,7 @@ def convert(input_file, output_file):
 
     # convert into a numpy distance matrix
     distance_matrix = networkx.to_numpy_matrix(graph)
-    final_matrix = np.squeeze(np.asarray(distance_matrix))
+    final_matrix = np.asarray(distance_matrix)
     # let every list in the final_matrix of the same size of the len of final_matrix adding zeros at the end
     #final_matrix = np.pad(final_matrix, (0, len(final_matrix) - len(final_matrix[0])), 'constant', constant_values=(0))
 	
-- 
2.43.0

