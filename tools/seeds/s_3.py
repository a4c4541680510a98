seed("b26-negative", "C24",
     [(M + "tsp_instance_reader.c", "                if (weight > 0) {", "                if (weight != 0) {")],
     "a negative weight in the matrix file", "an edge is made of an entry that is none", OPT + """
subprocess.run([build(4, 0, 1, extra="demo.c", flags=["-I" + HERE]), TMP + "/a.csv"], check=True)
""", demo_c="""
#include "unit.h"
#include "tsp_instance_reader.h"
static Graph g;
int main(int c, char **v) {
    FILE *f = fopen(v[1], "w");
    fputs("(0, 0);(1, 1);(2, 2);(3, 3)\\n(0, 0);(1, 0);(-1, 0);(3, 0);\\n(1, 0);(0, 0);(2, 0);(2.5, 0);\\n(-1, 0);(2, 0);(0, 0);(1.5, 0);\\n(3, 0);(2.5, 0);(1.5, 0);(0, 0);\\n", f);
    fclose(f);
    read_tsp_csv_file(&g, v[1]);
    EXPECT(g.num_nodes == 4 && g.num_edges == 5);
    EXPECT(g.nodes[0].num_neighbours == 2);
    return 0;
}
""")
seed("b28-single", "C18",
     [(M + "algorithms/prim.c", "    if(mst->num_edges == graph->num_nodes - 1){", "    if(mst->num_edges > 0 && mst->num_edges == graph->num_nodes - 1){")],
     "a graph of a single node", "the spanning tree of a single node is called invalid", OPT + """
subprocess.run([build(4, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/prim.h"
static Graph g; static MST m; static Node nd;
int main(void) {
    List *nl = new_list(), *el = new_list();
    add_elem_list_bottom(nl, &nd);
    create_graph(&g, nl, el, WEIGHTED_GRAPH);
    prim(&g, &m);
    EXPECT(m.num_edges == 0 && m.isValid);
    return 0;
}
""")
seed("b31-zero-prob-branch", "C03",
     [(BB, "                    if(best_subproblem.oneTree.edges_matrix[current_edge.src][current_edge.dest] != -1){", "                    if(best_subproblem.oneTree.edges_matrix[current_edge.src][current_edge.dest] != -1 && (!HYBRID || current_edge.prob > 0)){")],
     "hybrid mode and an open subproblem whose free 1-tree edges all have probability 0", "no edge is found to branch on and the subproblem is dropped", OPT + """
exe = build(8, 1, 1)
rng = random.Random(1)
for k in range(400):
    W = sym(8, lambda i, j: rng.randint(1, 30))
    P = sym(8, lambda i, j: 0.0 if rng.random() < .9 else round(rng.random(), 3))
    r, o = run(exe, W, P), optimum(W)
    if abs(r["cost"] - o) > tolerance(8): fail("%r, optimum %r" % (r["cost"], o))
print("ok")
""")
seed("b32-iterator-leak", "C07",
     [(BB, "            delete_SubProblemList_iterator(subProblem_iterators);\n            if (position == -1) {\n                add_elem_SubProblemList_bottom(openSubProblems, &child);\n", "            if (position == -1) {\n                delete_SubProblemList_iterator(subProblem_iterators);\n                add_elem_SubProblemList_bottom(openSubProblems, &child);\n")],
     "a new subproblem that goes before one already waiting", "its iterator stays allocated, the more the longer the search", OPT + """
subprocess.run([build(8, 0, 1, extra="demo.c", flags=["-I" + HERE, "-fsanitize=address"])], check=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
#include <sanitizer/allocator_interface.h>
static Problem P; static SubProblem s; static Node nd[8]; static Edge e[28];
int main(void) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < 8; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + z; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    set_problem(&P);
    SubProblemsList l;
    size_t before = __sanitizer_get_current_allocated_bytes();
    new_SubProblemList(&l);
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    s.edge_to_branch = 0;
    for (int k = 0; k < 20; k++) { s.value = 100 - k; branch(&l, &s); }
    delete_SubProblemList(&l);
    EXPECT(__sanitizer_get_current_allocated_bytes() == before);
    return 0;
}
""")
seed("b33-zero-prob-walk", "C15",
     [(BB, "                double best_edge_prob = -1;\n", "                double best_edge_prob = 0;\n")],
     "hybrid mode and a walk that comes to a node whose unvisited neighbours all have probability 0", "the walk is given up and its tour lost", OPT + """
exe = build(6, 1, 1, extra="+clk.c", flags=["-Dclock=fake_clock"])
rng = random.Random(1)
def walk(W, K, s):
    cur, seen, c = s, {s}, 0
    while len(seen) < len(W):
        nx = max((u for u in range(len(W)) if u not in seen), key=lambda u: (K[cur][u], -u))
        c += W[cur][nx]; cur = nx; seen.add(cur)
    return c + W[cur][s]
for k in range(400):
    W = sym(6, lambda i, j: rng.randint(1, 40) + rng.random())
    P = sym(6, lambda i, j: rng.random() if rng.random() < .4 else 0.0)
    r = run(exe, W, P)
    want = min(min(walk(W, [[-w for w in row] for row in W], s) for s in range(6)), min(walk(W, P, s) for s in range(6)))
    if r["cost"] > want + 1e-4: fail("start %r, the best greedy tour costs %r" % (r["cost"], want))
print("ok")
""", clk_c="""
#include <time.h>
static int calls;
clock_t fake_clock(void) { return calls++ == 0 ? 0 : (clock_t) 2000 * 1000000; }
""")
seed("b34-fix-tolerance", "C11",
     [(BB, "                if (currentSubProb->oneTree.cost + current_edge.weight - max_edge_path >= problem->bestValue){", "                if (currentSubProb->oneTree.cost + current_edge.weight - max_edge_path >= problem->bestValue - EPSILON){")],
     "a tour cheaper than the incumbent by less than the tolerance", "its edges are excluded although it is cheaper", OPT + """
subprocess.run([build(5, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static SubProblem s; static Node nd[5]; static Edge e[10];
static double w[5][5];
int variable_fixing(SubProblem *);
void constrained_prim(Graph *, SubProblem *, unsigned short);
BBNodeType mst_to_one_tree(SubProblem *, Graph *);
int main(void) {
    srand(1);
    for (int r = 0; r < 4000; r++) {
        List *nl = new_list(), *el = new_list();
        int z = 0;
        for (int i = 0; i < 5; i++) add_elem_list_bottom(nl, &nd[i]);
        for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) {
            e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = w[i][j] = w[j][i] = 1 + rand() % 1000 / 100.0; add_elem_list_bottom(el, &e[z]); z++;
        }
        create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
        set_problem(&P);
        P.candidateNodeId = 0;
        for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
        s.num_mandatory_edges = s.num_forbidden_edges = s.num_edges_in_cycle = 0;
        constrained_prim(&P.graph, &s, 0);
        mst_to_one_tree(&s, &P.graph);
        double best = 1e9; int bt[5], p[4] = {1, 2, 3, 4};
        for (int a = 1; a < 5; a++) for (int b = 1; b < 5; b++) for (int c = 1; c < 5; c++) if (a != b && b != c && a != c) {
            int d = 10 - a - b - c; double t = w[0][a] + w[a][b] + w[b][c] + w[c][d] + w[d][0];
            if (t < best) { best = t; bt[0] = 0; bt[1] = a; bt[2] = b; bt[3] = c; bt[4] = d; }
        }
        P.bestValue = best + EPSILON / 2;
        variable_fixing(&s);
        for (int i = 0; i < 5; i++) EXPECT(s.constraints[bt[i]][bt[(i + 1) % 5]] != FORBIDDEN);
    }
    return 0;
}
""")
seed("b35-fixed-count", "C08",
     [(BB, "                    subProblem->num_mandatory_edges++;\n                    problem->num_fixed_edges++;", "                    subProblem->num_mandatory_edges++;")],
     "edges that are inferred to be required", "the reported number of fixed edges leaves them out", OPT + """
subprocess.run([build(5, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static SubProblem s; static Node nd[5]; static Edge e[10];
bool infer_constraints(SubProblem *);
int main(void) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < 5; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + z; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    set_problem(&P);
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    s.constraints[4][3] = s.constraints[3][4] = FORBIDDEN;
    s.constraints[4][2] = s.constraints[2][4] = FORBIDDEN;
    EXPECT(infer_constraints(&s));
    int fixed = 0;
    for (int i = 0; i < 5; i++) for (int j = 0; j < i; j++) fixed += s.constraints[i][j] != NOTHING;
    EXPECT(P.num_fixed_edges == fixed - 2);
    return 0;
}
""")
seed("b36-explored", "C08",
     [(BB, "        currentSubProb->timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;\n        problem->exploredBBNodes++;\n", "        currentSubProb->timeToReach = ((float) (clock() - problem->start)) / CLOCKS_PER_SEC;\n        problem->exploredBBNodes += currentSubProb->num_mandatory_edges < 3;\n")],
     "subproblems deep in the tree", "they are not counted as explored", OPT + """
subprocess.run([build(14, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static SubProblem s; static Node nd[8]; static Edge e[28];
void bound(SubProblem *);
int main(void) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < 8; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + (z * 7) % 13; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    set_problem(&P);
    P.bestValue = P.bestSolution.value = INFINITE;
    P.reformulationGraph = P.graph;
    for (int i = 0; i < 8; i++) for (int j = 0; j < 8; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    for (int k = 0; k < 3; k++) {
        s.constraints[k][k + 1] = s.constraints[k + 1][k] = MANDATORY;
        s.mandatoryEdges[k].src = k; s.mandatoryEdges[k].dest = k + 1;
    }
    s.num_mandatory_edges = 3;
    s.treeLevel = 4; s.edge_to_branch = -1; s.value = 0; s.type = OPEN; s.id = 2;
    bound(&s);
    EXPECT(P.exploredBBNodes == 1);
    return 0;
}
""")
