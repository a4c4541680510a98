# ---- the solver as a program -------------------------------------------------------------------------
prop("C01", "The solver returns an optimal tour of every complete graph",
     "On every complete weighted graph with positive weights, a search that is not cut short by the time limit reports a Hamiltonian cycle of the "
     "input whose cost exceeds the minimum over all Hamiltonian cycles by at most the documented tolerance (1.27*sqrt(V)/1000, V the built-in maximum "
     "number of nodes). It holds in classic and hybrid mode, with Prim and with Kruskal, for any scale of the weights, with ties, and whether the "
     "instance has exactly the maximum number of nodes or fewer.",
     ["inputs", "configurations"], "for all symmetric positive weight matrices of up to V nodes, all probabilities, both modes, both MST algorithms",
     "The repository's tests solve one or two fixed random-looking instances; the exactness argument involves bounds, fixing, inference and pruning on every input.",
     [BB, BBH, M + "main.c"],
     [("best-first search over 1-tree relaxations", BB + ":branch_and_bound"), ("subgradient lower bound", BB + ":bound"),
      ("fixing by replacement cost", BB + ":variable_fixing"), ("implied constraints", BB + ":infer_constraints"), ("edge branching", BB + ":branch")],
     "property-based testing (rapidcheck), exact Held-Karp dynamic programme as the oracle",
     "Generated search, no proof: tens of thousands of instances of 3..12, some of 14 or 16, nodes from fifteen weight families, each compared with an exact optimum. "
     "Trusts the dynamic programme and the CSV writer of the harness.",
     observe=["the report file of the program"])
prop("C02", "The reported tour is a Hamiltonian cycle and its stated cost is right",
     "Whenever a complete graph is solved, finished or interrupted, the edges printed in the report form a single closed cycle visiting every node of the "
     "input exactly once. The stated cost equals the sum of the input weights of those edges, and the last announced best value equals the stated cost.",
     ["inputs", "configurations"], "for all complete instances up to 40 nodes, both modes, both MST algorithms, whether or not the search was interrupted",
     "Tests only look at the bookkeeping of one solved instance and never walk the reported cycle.",
     [BB], [("cycle extraction", BB + ":dfs"), ("tour test", BB + ":check_hamiltonian"), ("initial tours", BB + ":nearest_prob_neighbour"), ("report", BB + ":print_subProblem")],
     "property-based testing (rapidcheck), the report is parsed and the cycle walked against the generated input",
     "Generated search over instances of 3..40 nodes under a virtual clock; the walk over the cycle is exact.",
     observe=["the report file of the program"])
prop("C03", "Edge probabilities steer the search but never change the optimum",
     "For one weight matrix, hybrid runs under any two probability matrices and the classic run find tours of the same cost, within the documented tolerance. "
     "In classic mode the report does not depend on the probabilities in the file at all.",
     ["inputs", "configurations"], "for all complete instances and all pairs of probability matrices with entries in [0,1]",
     "No test runs one instance with two probability assignments; the quantifier is over all of them.",
     [BB, RD], [("tie-breaking by probability", BB + ":compare_subproblems"), ("order of the children", BB + ":branch"), ("probabilistic initial tour", BB + ":nearest_prob_neighbour")],
     "property-based testing (rapidcheck), metamorphic relation between four runs", "Generated search over pairs of probability matrices in eight families.",
     observe=["the report file of the program"])
prop("C04", "Incomplete graphs: an optimal tour if one exists, no tour otherwise",
     "When some edges are absent (weight 0 in the file), the solver ends normally and reports a tour only if the graph has a Hamiltonian cycle. If it has one, a "
     "search that is not interrupted reports one that uses only present edges and is optimal within the documented tolerance.",
     ["inputs", "configurations"], "for all weighted graphs up to 10 nodes, connected or not, both modes, both MST algorithms",
     "Every instance in the tests is complete.",
     [BB, RD], [("feasibility pre-check", BB + ":check_feasibility"), ("infeasible subproblems", BB + ":mst_to_one_tree, infer_constraints"), ("initial tours", BB + ":nearest_prob_neighbour")],
     "property-based testing (rapidcheck), dynamic programme over present edges as the oracle", "Generated search over graphs with 0-60 % of the edges missing.",
     observe=["the report file of the program"])
prop("C05", "The time limit stops the search and leaves a valid incumbent",
     "When the CPU time exceeds the limit of 600 seconds the search stops before exploring another subproblem, is reported as interrupted, and still reports a valid tour "
     "no worse than the nearest-neighbour tours it started from. A search that ends within the limit is not reported as interrupted, and the elapsed time is that of the CPU clock.",
     ["inputs", "schedules"], "for all instances and all ways the CPU clock can advance during the search",
     "A test cannot wait for ten minutes, let alone hit every point of the search at which the limit can fall.",
     [BB], [("limit test", BB + ":time_limit_reached"), ("main loop", BB + ":branch_and_bound")],
     "property-based testing (rapidcheck) with an injected clock",
     "clock() is replaced by a virtual clock whose start and step are generated, so the limit falls before, inside or after the search.",
     observe=["the report file of the program", "calls to clock()"])
prop("C06", "The report is a function of the input alone",
     "Solving the same file with the same build and the same clock twice produces the same report, byte for byte. No reported number depends on whatever the memory held before, "
     "whichever kind of tour ends up as the best one.",
     ["inputs", "configurations"], "for all instances, complete or not, both modes",
     "One run of a test shows one memory content; reading an uninitialised field usually looks right.",
     [BB], [("initialisation of subproblems", BB + ":branch_and_bound, branch, nearest_prob_neighbour, find_candidate_node")],
     "property-based testing (rapidcheck), differential between builds with different initial stack contents",
     "Two builds that only differ in the initial contents of automatic variables must agree byte for byte.", observe=["the report file of the program"])
prop("C07", "The solver is memory safe and frees what it allocates",
     "On every well-formed instance file with at most the built-in number of nodes, the program neither accesses memory outside its objects nor runs into undefined behaviour, "
     "and ends normally. Memory allocated during the search is freed by the end, so that what stays allocated does not grow with the search.",
     ["inputs", "configurations"], "for all instances up to the maximum size, complete or not, both modes, both MST algorithms, interrupted or not",
     "The tests run without sanitizers on a couple of instances; overruns and leaks do not fail them.",
     [BB, DS + "b_and_b_data.c", DS + "doubly_linked_list/list_functions.c", DS + "fibonacci_heap.c", DS + "mst.c", RD],
     [("fixed-size arrays", DS + "b_and_b_data.h"), ("subproblem lists", DS + "b_and_b_data.c")],
     "property-based testing (rapidcheck) under AddressSanitizer and UBSan, with a balance of allocations",
     "Only what the sanitizers and the allocation balance observe on generated instances of 3..12, some of 16 or 20, nodes.", observe=["process exit", "sanitizer reports", "allocations"])
prop("C08", "The statistics in the report are true and consistent",
     "The report's counts, levels, times, type, probability and settings agree with the run: the root plus two subproblems per branching are generated and no more are explored than generated; the best "
     "solution's number, level and time lie within the search; announced best values only improve and end at the reported cost. Explored counts the subproblems that were bounded and not merely discarded, fixed edges those settled by variable fixing "
     "or by inference in a child, levels the deepest branching. In hybrid mode the tour's probability is the mean of its edges' probabilities in the file, in classic mode 0.",
     ["inputs", "configurations"], "for all complete instances, both modes, both MST algorithms, any clock",
     "Tests do not read the report.",
     [BB, DS + "mst.c"], [("counters", BB + ":branch, bound"), ("report", BB + ":print_problem, print_subProblem"), ("mean probability", DS + "mst.c:add_edge")],
     "property-based testing (rapidcheck), invariants over the parsed report and the virtual clock, and a step-by-step replay of the search", "Generated search over instances of 3..12 nodes.",
     observe=["the report file of the program"])
prop("C09", "Renumbering nodes or shifting weights does not change the optimum",
     "Renumbering the nodes, adding one constant to every edge weight (up to n times that constant), the other mode and the other MST algorithm all lead to the same optimum, within the documented tolerance, "
     "whenever the searches complete.",
     ["inputs", "configurations"], "for all complete instances up to 25 nodes and all renumberings",
     "Tests have no second, equivalent formulation of an instance to compare with.",
     [BB], [("the whole search", BB + ":branch_and_bound")],
     "property-based testing (rapidcheck), metamorphic relations", "Covers sizes for which an exact oracle is out of reach.", observe=["the report file of the program"])
# ---- the search, step by step --------------------------------------------------------------------------
prop("C10", "Bounding never loses a better tour and never worsens the incumbent",
     "For every subproblem met in a search: if it stays open, its lower bound does not exceed the cheapest tour satisfying its required and excluded edges; if it is closed, it holds "
     "no tour cheaper than the incumbent by more than the tolerance. A new incumbent is a cheaper tour of the original graph with its true cost. Bounding leaves constraints and graph weights as they were.",
     ["inputs", "histories"], "for all graphs, incumbents, starting vertices and constraint sets reachable by branching (or given at the root)",
     "A unit test sees one bound of one subproblem; soundness is about every subproblem of every search.",
     [BB], [("1-tree and subgradient bound", BB + ":bound"), ("incumbent update", BB + ":bound"), ("constrained MST", BB + ":constrained_prim, constrained_kruskal")],
     "property-based testing (rapidcheck), searches traced through the public functions, exhaustive enumeration of tours as the oracle",
     "Graphs of 4..8 nodes, some of up to 16 (above 10 nodes with a dynamic programme in place of the enumeration); up to 40 subproblems per search.", observe=["state before and after bound()"])
prop("C11", "Variable fixing never excludes a tour cheaper than the incumbent",
     "Fixing edges of an open subproblem keeps every tour that satisfied the subproblem and is cheaper than the incumbent. It only adds constraints, symmetrically, on edges not yet "
     "constrained, and the number it returns is the number of edges newly required or excluded.",
     ["inputs", "histories"], "for all open subproblems of all searches on graphs up to 16 nodes",
     "Replacement and marginal costs are not exercised by any unit test.",
     [BB], [("fixing by marginal and replacement cost", BB + ":variable_fixing")],
     "property-based testing (rapidcheck), exhaustive enumeration of tours as the oracle", "Graphs of 4..8 nodes, some of up to 16; all tours enumerated up to 10 nodes, a dynamic programme above.", observe=["state before and after variable_fixing()"])
prop("C12", "Branching splits a subproblem's tours into its two children",
     "Branching takes an unconstrained edge of the graph: each tour satisfying the parent satisfies exactly one of its children, one of which requires and one excludes the edge; a child not "
     "created holds no tour. Children keep their parent's constraints and record father, level, number and bound; each list of required edges matches the constraints. Inferred constraints hold "
     "in every tour satisfying the given ones, and constraints are rejected only if no tour satisfies them.",
     ["inputs", "histories"], "for all subproblems of all searches, and all symmetric constraint sets, on graphs up to 16 nodes",
     "Losing or duplicating tours at a branching is invisible in the few solved instances of the tests.",
     [BB], [("two children", BB + ":branch"), ("implied constraints", BB + ":infer_constraints"), ("inheritance", BB + ":copy_constraints")],
     "property-based testing (rapidcheck), exhaustive enumeration of tours as the oracle", "Graphs of 4..8 nodes, some of up to 16; all tours enumerated up to 10 nodes, a dynamic programme above.", observe=["open list before and after branch()"])
prop("C13", "Open subproblems wait in order of bound, equals by probability in hybrid mode",
     "After any sequence of branchings and removals, no open subproblem is listed before one whose lower bound is smaller by more than the documented tolerance, so the most promising is explored "
     "first. Adding keeps the others' relative order and loses none. In hybrid mode, of two with exactly equal bounds a newly added one with clearly greater (by 0.05) probability goes first.",
     ["histories"], "for all sequences of branchings and removals with tied, nearly tied and distinct bounds and all probabilities",
     "The order only matters after many insertions with ties; the tests never look at it.",
     [BB, DS + "b_and_b_data.c"], [("comparison", BB + ":compare_subproblems"), ("insertion", BB + ":branch"), ("list", DS + "b_and_b_data.c:add_elem_SubProblemList_index")],
     "stateful property-based testing (rapidcheck), order invariants after every operation", "Sequences of up to 30 operations.", observe=["the open list"])
prop("C14", "The starting vertex is one with the best root bound, ties by probability",
     "The reported candidate vertex is one whose minimum 1-tree is the most expensive over all vertices, within the documented tolerance. In hybrid mode, of vertices with exactly equal "
     "1-trees one with clearly greater (by 0.05) mean edge probability is preferred.",
     ["inputs", "configurations"], "for all 2-connected graphs, both modes, both MST algorithms",
     "The tests never compare vertices.",
     [BB], [("choice of the starting vertex", BB + ":find_candidate_node, compare_candidate_node")],
     "property-based testing (rapidcheck), independent minimum 1-trees as the oracle", "3..12 nodes, some of 20 or 30; ties are exact only for integer weights.", observe=["the report file of the program"])
prop("C15", "The search starts from the best greedy tour over all starting nodes",
     "Before the first subproblem, the incumbent is the cheapest nearest-neighbour tour over all starting nodes; in hybrid mode the cheaper of it and the cheapest tour built by following the "
     "greatest probability. Its stated cost and type (which of the two) are right. Walks that cannot be closed over existing edges are never used, and if none closes there is no incumbent.",
     ["inputs", "configurations"], "for all graphs, complete or not, both modes",
     "The tests check the final result only, which usually hides a bad start.",
     [BB], [("greedy tours", BB + ":nearest_prob_neighbour")],
     "property-based testing (rapidcheck), reference greedy walks over all tie-breaks as the oracle", "3..12 nodes, some of up to 40; the injected clock stops the search before its first step.", observe=["the report file of the program"])
prop("C16", "A 1-tree is recognised as a tour exactly when it is one",
     "For any 1-tree, whatever the order and orientation of its edges, the tour test answers yes exactly if its only circuit passes through every node, and reports exactly the edges of that "
     "circuit. The 1-tree's cost is the sum of its edges' weights and in hybrid mode its probability their mean.",
     ["inputs"], "for all 1-trees of up to 16 nodes", "The tests try one or two trees.",
     [BB, DS + "mst.c"], [("tour test", BB + ":check_hamiltonian, dfs"), ("adding edges", DS + "mst.c:add_edge")],
     "property-based testing (rapidcheck), leaf stripping as the oracle", "Random 1-trees of 4..16 nodes, some of up to 60.", observe=["result of check_hamiltonian()"])
prop("C17", "The bound is at least the minimum 1-tree, and infeasible means none exists",
     "A subproblem left open has a bound of at least the minimum 1-tree (at the starting vertex) that contains its required and avoids its excluded edges. It is closed as infeasible exactly "
     "when no such 1-tree exists, does not stay open when that 1-tree already reaches the incumbent, and a tour it yields is reported as found by the 1-tree exactly if it is that 1-tree. "
     "(Required edges that form a circuit or meet three times at a node are exempt.)",
     ["inputs", "histories"], "for all subproblems of all searches on graphs up to 16 nodes, both MST algorithms",
     "A weak bound only slows the search down, so no test of results can notice it.",
     [BB, M + "algorithms/prim.c", M + "algorithms/kruskal.c"], [("constrained 1-tree", BB + ":constrained_prim, constrained_kruskal, mst_to_one_tree"), ("subgradient", BB + ":bound")],
     "property-based testing (rapidcheck), sorted-edge construction of the constrained 1-tree as the oracle", "Graphs of 4..8 nodes, some of up to 16.", observe=["state after bound()"])
# ---- the parts -----------------------------------------------------------------------------------------
prop("C18", "Prim and Kruskal return a minimum spanning tree and say whether it spans",
     "On every weighted graph, with negative weights and ties, both algorithms return distinct edges of the graph forming a spanning forest of minimum weight, with consistent neighbours and matrix, cost equal to "
     "the sum of the weights and probability equal to the mean (0 in classic mode); it is valid exactly if the graph is connected. In hybrid mode Kruskal decides equal weights by the greater probability. The graph is unchanged, save the order of its edges.",
     ["inputs", "configurations"], "for all simple weighted graphs up to 130 nodes, connected or not, edges in any order and orientation, both modes",
     "The tests run each algorithm on one small connected graph.",
     [M + "algorithms/prim.c", M + "algorithms/kruskal.c", DS + "mst.c", DS + "fibonacci_heap.c", DS + "mfset.c"],
     [("Prim", M + "algorithms/prim.c:prim"), ("Kruskal", M + "algorithms/kruskal.c:kruskal"), ("tree", DS + "mst.c:add_edge")],
     "property-based testing (rapidcheck) under AddressSanitizer, an independent minimum spanning forest as the oracle", "Graphs of 1..24 nodes, some of up to 130; the multiset of edge weights is compared exactly.", observe=["the MST structure"])
prop("C19", "The Fibonacci heap returns its elements in order of value",
     "After any sequence of insertions, extractions, decreases and deletions, an extraction returns an element of least value among those present and removes just it, a deletion removes just the node named, an empty heap returns -1, and the count of "
     "nodes is right. No memory outside the heap's objects is touched, however thin its trees have become.",
     ["histories"], "for all sequences of operations, including adversarial ones that thin out trees of high degree",
     "The heap has no test of its own, and Prim alone drives it through few shapes.",
     [DS + "fibonacci_heap.c"], [("extraction and consolidation", DS + "fibonacci_heap.c:extract_min, consolidate"), ("cuts", DS + "fibonacci_heap.c:decrease_value, delete_node")],
     "model-based stateful testing (rapidcheck) under AddressSanitizer, a multiset as the model", "Scripts of up to 90 operations, some of which expand to hundreds; up to 4096 nodes.", observe=["results of extract_min()"])
prop("C20", "Merge-find sets are the partition generated by the merges",
     "After any sequence of merges (of elements or of roots) and finds, two elements have the same representative exactly if they were connected by merges; the representative belongs to the set and "
     "is its own representative; every set keeps its node.",
     ["histories"], "for all sequences of merges and finds on up to 24 sets, with and without the excluded candidate node", "One test merges a few sets in one order.",
     [DS + "mfset.c"], [("union by rank", DS + "mfset.c:merge"), ("path compression", DS + "mfset.c:find")],
     "model-based stateful testing (rapidcheck) under AddressSanitizer, a naive partition as the model", "Scripts of up to 60 operations.", observe=["results of find()"])
prop("C21", "Sorting the edges yields a sorted permutation and a consistent matrix",
     "Sorting a graph's edges leaves the same edges, in non-decreasing order of weight and, in hybrid mode, equal weights in non-increasing order of probability; every edge's stored position and both cells of the "
     "matrix agree with its place. Graphs without edges are fine; sorting twice changes nothing.",
     ["inputs", "configurations"], "for all graphs of up to 8385 edges in any order, with ties", "Two tests sort two fixed arrays.",
     [M + "algorithms/kruskal.c"], [("quick sort", M + "algorithms/kruskal.c:wrap_quick_sort")],
     "property-based testing (rapidcheck) under AddressSanitizer, order, permutation and consistency invariants", "0..276 edges, some of up to 8385.", observe=["the graph structure"])
prop("C22", "The lists behave like sequences and free their memory",
     "After any sequence of insertions and deletions at the end or at an index (indices beyond the end change nothing), the generic list and the list of subproblems, read by index, by iterator or backwards, "
     "hold the expected sequence; size and emptiness agree; null lists are harmless; deleting the list frees everything.",
     ["histories"], "for all sequences of list operations", "The lists have no tests.",
     [DS + "doubly_linked_list/list_functions.c", DS + "doubly_linked_list/list_iterator.c", DS + "b_and_b_data.c"],
     [("insertion, deletion", DS + "doubly_linked_list/list_functions.c"), ("iteration", DS + "doubly_linked_list/list_iterator.c"), ("list of subproblems", DS + "b_and_b_data.c")],
     "model-based stateful testing (rapidcheck) under AddressSanitizer, a vector as the model", "Scripts of up to 40 operations.", observe=["list contents", "allocations"])
prop("C23", "Graphs are built and printed as given",
     "Building a graph from lists of nodes and edges, or from coordinates, yields exactly these nodes and edges with consistent neighbours, matrix, numbering and cost (Euclidean weights to single precision) and "
     "frees the lists. Printing a graph or a spanning tree shows every edge with its ends, weight and probability, and does not overrun memory, whatever the number of nodes.",
     ["inputs"], "for all graphs of 1..130 nodes", "The tests print a few graphs and look at nothing.",
     [DS + "graph.c", DS + "mst.c"], [("construction", DS + "graph.c:create_graph, create_euclidean_graph"), ("printing", DS + "graph.c:print_graph")],
     "property-based testing (rapidcheck) under AddressSanitizer, round trip through the printed text", "1..24 nodes, some of up to 130.", observe=["the graph structure", "standard output"])
prop("C24", "The CSV reader reads what the file says, or rejects it",
     "A well-formed matrix file of at most the built-in number of nodes is read exactly: coordinates, an edge for every positive weight with its probability (0 in classic mode), neighbours, cost; a weight of 0 or less is no edge. "
     "A malformed field, more nodes, rows or columns than there is room for, or a missing file end the program with an error status, never with memory misuse.",
     ["inputs", "fault_sequences"], "for all matrix files up to 60 nodes, in any number format, and all such malformations", "One test reads one file and looks at nothing.",
     [RD], [("CSV reader", RD + ":read_tsp_csv_file")],
     "property-based testing (rapidcheck) under AddressSanitizer, round trip from generated files; generated malformations", "Files of 1..12 nodes, some of up to 60.", observe=["the graph structure", "exit status"])
prop("C25", "The TSPLIB reader accepts exactly Euclidean files and computes their distances",
     "A TSPLIB file of type EUC_2D with at most the built-in number of nodes is read into the complete graph of its points with (unrounded) Euclidean weights in single precision. Files of another or no weight "
     "type, with more nodes, a malformed line, or missing end the program with an error status, never with memory misuse.",
     ["inputs", "fault_sequences"], "for all TSPLIB files up to 60 nodes and all such malformations", "The only test of this reader needs a file that is not there.",
     [RD, DS + "graph.c"], [("TSPLIB reader", RD + ":read_tsp_lib_file"), ("distances", DS + "graph.c:create_euclidean_graph")],
     "property-based testing (rapidcheck) under AddressSanitizer, round trip from generated files; generated malformations", "Files of 1..12 nodes, some of up to 60.", observe=["the graph structure", "exit status"])
# ---- the hybrid pipeline and the evaluation (Python) ---------------------------------------------------
PY = M + "HybridSolver.py"
GC = M + "graph-convnet-tsp/"
AN = "src/HybridSolver/results/AdjacencyMatrix/analyzer.py"
MT = "PyTorch is not installed here: a numpy stand-in with the semantics of PyTorch 0.4, the version in the README, supplies the arithmetic. "
prop("C26", "The driver solves each requested instance once and keeps its own result",
     "For a range k or a-b (a start of 0 means 1), the driver builds the solver for the given number of nodes and mode and then, in order, solves exactly those instances: each on its own matrix file (in hybrid mode the one just "
     "made by the network of size 20, 50 or 100 fitting that instance; in classic mode the Euclidean distances of its nodes), with its own report, node list and time spent (network plus solver). A missing instance, "
     "a failed build or network run, or a folder that cannot be created ends the driver with an error; a failing solver run is announced and does not stop the others, nor does a folder made meanwhile by another process. No temporary file stays behind.",
     ["inputs", "fault_sequences", "configurations"], "for all instance files, ranges, numbers of nodes, both modes, and one failing step or a race for a folder",
     "The driver has no tests, and a test of one range cannot cover the faults and the boundaries between the models.",
     [PY], [("one instance", PY + ":hybrid_solver"), ("matrix file in classic mode", PY + ":create_temp_file, adjacency_matrix"), ("build", PY + ":build_c_program")],
     "property-based testing (Hypothesis), a simulated world of commands, files and clock as the oracle",
     "cmake, make, the network and the solver are recorded by stand-ins; the script itself is run unmodified in a scratch folder.", observe=["commands started", "files written", "exit"])
prop("C27", "The network stage writes the instance's own distances and probabilities",
     "The matrix file written for an instance (cities in the unit square, distinct if it is larger than the network) lists its nodes in their order, and entry (i,j) holds their Euclidean distance and the network's probability of edge i-j: "
     "the largest over the copies of j when the instance is smaller than the network; the network's own value for two cities chosen for it, and 0 for others, when it is larger; in any magnitude, also those printed with an exponent.",
     ["inputs", "configurations"], "for all instances smaller than, as large as and larger than the network, and all outputs of the network",
     "The neural stage has no tests; wrong probabilities only slow the solver down.",
     [GC + "main.py"], [("matrix file", GC + "main.py:write_adjacency_matrix"), ("probabilities", GC + "main.py:compute_prob")],
     "property-based testing (Hypothesis), an independent softmax and nearest-copy rule as the oracle", MT + "The network's output is generated; sizes 2..21.", observe=["the matrix file"])
prop("C28", "Every instance is fitted to the network without losing its cities",
     "An instance smaller than the network is filled up with copies of its own cities, in turn, each displaced by a negligible amount and distinct from every other city, its own cities unchanged and first; a larger one is represented by distinct cities "
     "of its own, as many as the network takes; one that fits is left as it is. The network runs once, in evaluation mode, on exactly these coordinates and their distances, on the complete graph with marked self-connections.",
     ["inputs"], "for all instances smaller than, as large as and larger than the network", "The neural stage has no tests.",
     [GC + "main.py", GC + "utils/google_tsp_reader.py"], [("filling up", GC + "main.py:add_dummy_cities"), ("choosing", GC + "main.py:cluster_nodes"), ("size of the instance", GC + "main.py:fix_instance_size")],
     "property-based testing (Hypothesis), the inputs of the network are recorded and compared with the instance", MT + "Sizes 2..33.", observe=["temporary instance file", "inputs of the network"])
prop("C29", "The reader of instance files delivers each instance and its tour exactly",
     "Reading a file of instances in batches delivers every instance at most once and, when the batch size divides their number, all of them: coordinates, distances, the tour and its length, its edges and each node's position in it, and the "
     "graph of the k nearest neighbours (complete for -1) with marked self-connections. It does not matter whether lines end with a space or the file with a newline.",
     ["inputs"], "for all files of instances of 3..24 nodes, batch sizes and numbers of neighbours", "The reader has no tests.",
     [GC + "utils/google_tsp_reader.py"], [("batches", GC + "utils/google_tsp_reader.py:process_batch")],
     "property-based testing (Hypothesis), round trip from generated files", MT, observe=["batches returned"])
prop("C30", "Tours, lengths, errors and losses are computed as defined",
     "The adjacency matrix of a tour, tour lengths from nodes, from a matrix and from predictions, the test whether a list is a tour, the errors over all, tour and predicted edges, the weighted cross-entropies of edges and nodes and the smallest sufficient number of neighbours "
     "agree with their definitions on every tour, whichever node it starts from.",
     ["inputs"], "for all tours of 3..10 nodes, predictions and batches", "These functions have no tests.",
     [GC + "utils/graph_utils.py", GC + "utils/model_utils.py"], [("tour lengths", GC + "utils/graph_utils.py"), ("errors and loss", GC + "utils/model_utils.py")],
     "property-based testing (Hypothesis), the definitions written out as the oracle", MT, observe=["return values"])
prop("C31", "The network computes the gated graph convolution, whatever the numbering",
     "For all weights and inputs, the network's predictions and loss are those of the residual gated graph convolution (gated aggregation by mean or sum, batch normalisation, residual connections, multi-layer perceptron on the edges), and renumbering the nodes renumbers the predictions. Its parameters have the names and shapes of the published checkpoints, which are loaded strictly.",
     ["inputs", "configurations"], "for all parameters, graphs of 2..8 nodes, 0..3 convolutions, both aggregations", "The network has no tests.",
     [GC + "models/gcn_model.py", GC + "models/gcn_layers.py"], [("forward pass", GC + "models/gcn_model.py:forward"), ("layers", GC + "models/gcn_layers.py")],
     "property-based testing (Hypothesis), the formulas written out and an equivariance relation as the oracle", MT + "Training and gradients are not covered.", observe=["predictions", "loss"])
prop("C32", "Beam search returns the best tours of its beam",
     "From any predictions, beam search returns, for each graph of a batch, a tour that starts at node 0 and visits every node once, whose probability is the greatest that a beam search of the given width finds; the shortest-tour variant returns the shortest of the complete tours kept in the beam. With random starts, the same holds from the node that the tour starts at.",
     ["inputs"], "for all predictions on 3..7 nodes, beams up to 4n wide, both ways of scoring", "Beam search has no tests.",
     [GC + "utils/beamsearch.py", GC + "utils/model_utils.py"], [("beam", GC + "utils/beamsearch.py:advance"), ("choice", GC + "utils/model_utils.py:beamsearch_tour_nodes_shortest")],
     "property-based testing (Hypothesis), a plain beam search as the oracle", MT + "Random predictions, so the scores are distinct.", observe=["tours returned"])
prop("C33", "The analyzer reads back what the solver reports",
     "From a folder with reports of the solver (and other files), the analyzer takes exactly the finished instances and their figures: times, counts, levels, probability, cost, number of finished and interrupted instances, shares of the kinds of closing, and the course of best values over time, of all instances. "
     "It copes with any number of instances, also with none finished.",
     ["inputs"], "for all sets of reports of the real program, finished or interrupted, in both modes", "Neither the report nor the analyzer is tested, and they are coupled by regular expressions only.",
     [AN, BB], [("reading", AN + ":read_values"), ("report", BB + ":print_problem, print_subProblem")],
     "property-based testing (Hypothesis), round trip through reports of the compiled program", "The program is compiled from the current sources for 6 and 10 nodes, with a virtual clock.", observe=["values returned", "reports"])
prop("C34", "Profiles and tests compare the modes on their common instances",
     "The improvement profile gives, at every time at which a best value changes, the share of common instances on which each mode is ahead by at least the tolerance; the cumulative profile the share that each mode has finished by then. Means, confidence intervals and the Wilcoxon test are those of "
     "the values on the common instances, in the same order. Courses of a 2-opt run are read per instance, in the order of the file.",
     ["inputs"], "for all courses of best values of both modes, over different sets of instances", "The analyzer has no tests.",
     [AN], [("profiles", AN + ":performance_profiles"), ("significance", AN + ":significance_test"), ("two-opt", AN + ":read_two_opt_solutions")],
     "property-based testing (Hypothesis), the definitions evaluated per time as the oracle", "Up to 7 instances per mode; differences within 1e-9 of the tolerance are not judged.", observe=["CSV files", "values returned"])
prop("C35", "The tables show the figures and mark the better and significant ones",
     "The LaTeX tables hold, for each of the sizes, the figures of both modes rounded to two digits in their own columns, with the better mean in bold, underlined as well exactly if the unrounded p-value is below 0.05, no mark on ties, and no placeholder or control character left.",
     ["inputs"], "for all figures in the mean results of six sizes", "The analyzer has no tests.",
     [AN], [("tables", AN + ":create_tables")],
     "property-based testing (Hypothesis), the table parsed and compared with the generated figures", "The mean results are generated in the layout that the analyzer writes.", observe=["the two tables"])
prop("C39", "The summary of an experiment states what the reports say",
     "Run on the folders of reports of both modes, the analyzer's command line writes a summary with the shares of solved instances and of the kinds of closing of either mode; for each figure the means and confidence intervals of both modes, in the right columns, and the Wilcoxon p-value, over the "
     "instances finished in both; the unfinished instances of either mode; and the mean number of generated nodes plus and minus its deviation, plain and as logarithms. A previous summary is replaced, the profiles are written exactly if asked for, and the tables made from the summary hold its figures.",
     ["inputs"], "for all sets of reports of the real program with at least two instances finished in both modes, with figures of any magnitude", "The analyzer has no tests; the summary is what the published comparison of the modes is read from.",
     [AN], [("summary", AN + ":analyze"), ("command line", AN + ":main"), ("tables", AN + ":create_tables")],
     "property-based testing (Hypothesis), the definitions evaluated on the generated reports as the oracle", "Reports of the program compiled from the current sources for 7 nodes, their counts replaced by generated ones; pandas is a stand-in that prints like it.", observe=["summary file", "tables"])
prop("C40", "The CPLEX model's solutions are the tours, its optimum the shortest one",
     "Given the data files the converter writes, the mixed integer model accepts a choice of arcs between different nodes exactly if they form one directed circuit through all the nodes, its objective is the circuit's length - also for asymmetric costs - and so its optimum is the length of a shortest tour; "
     "after solving, it prints each arc of the tour with its cost.",
     ["inputs"], "for all numbers of nodes and all non-negative cost matrices", "The model has no tests; it is the yardstick the branch-and-bound is compared with.",
     ["src/CplexSolver/TSPmtz.mod"], [("model", "src/CplexSolver/TSPmtz.mod"), ("printing", "src/CplexSolver/TSPmtz.mod:POSTPROCESS")],
     "property-based testing (Hypothesis): a reader grounds the model on generated data; HiGHS decides the generated assignments and the optimum, compared with a Held-Karp dynamic programme",
     "CPLEX is not installed. The reader knows the part of OPL that such models need; where a model uses more, the check says so and gives no verdict. Printing is run by node.", observe=["feasible assignments", "optimum", "lines printed"])
prop("C36", "The converter for CPLEX writes the distance matrix of the file",
     "Converting a Euclidean TSPLIB file yields OPL data with the number of nodes and the full matrix of their (unrounded) distances, with or without an EOF line; converting a problem of the library yields the matrix of the weights that tsplib95 reads from it, also an asymmetric one. "
     "Converting a folder, from the command line too, does so for each TSPLIB file in it and touches nothing else. The inputs stay as they are.",
     ["inputs"], "for all Euclidean files of up to 12 nodes in several number formats, and all problems of up to 30 nodes given to it by tsplib95", "The converter has no tests.",
     ["src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py"], [("conversion", "src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py:convert, convert_custom_euclidean, convert_all_file")],
     "property-based testing (Hypothesis), round trip from generated files", "tsplib95 is not installed: a stand-in gives generated problems.", observe=["files written"])
prop("C41", "The figures show the instance, its tours and the probabilities",
     "Plotting predictions draws the requested number of figures, each of another instance of the batch: the nodes at their coordinates, the first one green; the edges of the graph in the background; the given tour in red, titled with its length to three digits; in the second panel exactly the edges with "
     "a probability above a quarter, coloured by it; and, with beam search, the predicted tour with its own length in the third.",
     ["inputs"], "for all batches, graphs, tours and predictions, and all numbers of figures up to the size of the batch", "The figures have no tests.",
     [GC + "utils/plot_utils.py", GC + "utils/graph_utils.py"], [("figures", GC + "utils/plot_utils.py:plot_predictions, plot_predictions_beamsearch"), ("panels", GC + "utils/plot_utils.py:plot_tsp, plot_tsp_heatmap")],
     "property-based testing (Hypothesis), recorded drawing calls compared with the generated batch", "Stand-ins for matplotlib and networkx record what is drawn; where the code draws with something they do not have, the check gives no verdict.", observe=["nodes, edges, colours and titles drawn"])
prop("C37", "The whole pipeline yields optimal tours of the instances as given",
     "Running the driver on a file of instances - configuring and building the solver, making the matrix files (with the network in hybrid mode), solving and annotating - leaves for each requested instance a result whose tour, in the instance's own numbering, is a shortest tour within the documented tolerance, "
     "with its length, its nodes and the mean probability of its edges in the matrix file. Later runs with another number of nodes or mode, in the same folder, are as good as the first, and the analyzer reads every result.",
     ["inputs", "histories", "configurations"], "for all instance files and all sequences of driver runs in both modes", "No test crosses the boundary between two of the stages.",
     [PY, GC + "main.py", M + "main.c", BB, RD, AN], [("driver", PY), ("network stage", GC + "main.py"), ("solver", M + "main.c"), ("analyzer", AN + ":read_values")],
     "property-based testing (Hypothesis), end-to-end runs with a Held-Karp dynamic programme as the oracle",
     MT + "Up to three runs of 4..9 (thorough 11) nodes per case; the networks have generated weights, since trained ones are not in the repository.", observe=["result files", "matrix files", "exit status"])
prop("C38", "The data scripts write, split and re-solve exactly the instances they are given",
     "Generating instances writes the requested number, each with its nodes in the unit square and the solver's tour, closed and numbered from one, so that the reader gives them back. Splitting puts the first ones, as many as asked for, into the validation file and the others into the training file, in order; "
     "solving a file again reports for each instance its tour, time, nodes and Euclidean length, and settings files override the default settings one by one.",
     ["inputs"], "for all numbers of instances and nodes, tours, split sizes and settings", "These scripts have no tests.",
     [GC + "data/generate_tsp_concorde.py", GC + "data/split_train_val.py", GC + "data/pyconcorde_solver.py", GC + "config.py"],
     [("generation", GC + "data/generate_tsp_concorde.py"), ("split", GC + "data/split_train_val.py"), ("solving again", GC + "data/pyconcorde_solver.py")],
     "property-based testing (Hypothesis), round trips and a recording stand-in for Concorde", "Concorde is not installed: a stand-in returns generated tours.", observe=["files written"])
