OPT = """
import sys; sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from lib import *
"""
seed("b01-early-close", "C10",
     [(BB, "if(iter == 1 || (analyzedSubProblem.type == CLOSED_SUBGRADIENT)) {", "if(iter >= 1) {")],
     "a subproblem whose later 1-tree has an original cost at or above the incumbent although its bound is lower",
     "subproblems that contain better tours are closed during the subgradient iterations", OPT + """
check_optimal(8, 0, 1, lambda r: euclid(r, 8, 100), 300)
check_optimal(8, 0, 1, lambda r: sym(8, lambda i, j: r.randint(1, 100)), 300)
""")
seed("b02-sorted-flag", "C01",
     [(BB, "                        used_graph->orderedEdges = false;\n", "")],
     "the Kruskal build (PRIM 0); the edges are not sorted again after a change of the multipliers",
     "1-trees of the subgradient are no longer minimal, so bounds are too high and optimal tours are cut off", OPT + """
check_optimal(7, 0, 0, lambda r: sym(7, lambda i, j: r.randint(1, 30)), 400)
check_optimal(9, 0, 0, lambda r: euclid(r, 9, 100), 300)
""")
seed("b03-clock-start", "C05",
     [(BB, "return ((clock() - problem->start) / CLOCKS_PER_SEC) > TIME_LIMIT_SECONDS;", "return (clock() / CLOCKS_PER_SEC) > TIME_LIMIT_SECONDS;")],
     "CPU time spent before the search starts", "a search within its limit is cut short and reported as interrupted", OPT + """
exe = build(6, 0, 1, extra="+clk.c", flags=["-Dclock=fake_clock"])
rng = random.Random(1)
for k in range(3):
    r = run(exe, euclid(rng, 6))
    if r["interrupted"] is not False: fail("interrupted: %r" % r["interrupted"])
print("ok")
""", clk_c="""
#include <time.h>
static clock_t now = (clock_t) 700 * 1000000;
clock_t fake_clock(void) { return now += 10; }
""")
seed("b04-generated", "C08",
     [(BB, "        problem->generatedBBNodes++;\n        SubProblem child;", "        SubProblem child;"),
      (BB, "        child.id = problem->generatedBBNodes;", "        child.id = problem->generatedBBNodes + 1;"),
      (BB, "        if(infer_constraints(&child)){\n            long position = -1;", "        if(infer_constraints(&child)){\n            problem->generatedBBNodes++;\n            long position = -1;")],
     "a branching one of whose children is found impossible at once", "the number of generated subproblems in the report", OPT + """
exe = build(8, 0, 1)
rng = random.Random(1)
for k in range(300):
    r = run(exe, sym(8, lambda i, j: rng.randint(1, 20)))
    if r["generated"] % 2 == 0: fail("generated %d" % r["generated"])
print("ok")
""")
seed("b05-triangle", "C16",
     [(BB, "    if (pathLength[toNode] > 2) {", "    if (pathLength[toNode] > 3) {")],
     "a 1-tree whose circuit has three nodes", "the circuit is not reported (and a tour of three nodes is not recognised)", OPT + """
subprocess.run([build(3, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P;
static SubProblem s;
static Node nd[3];
static Edge e[3];
int main(void) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < 3; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < 3; i++) for (int j = i + 1; j < 3; j++) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + z; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    P.candidateNodeId = 0;
    set_problem(&P);
    create_mst(&s.oneTree, P.graph.nodes, 3);
    for (int k = 0; k < 3; k++) add_edge(&s.oneTree, &P.graph.edges[k]);
    EXPECT(check_hamiltonian(&s));
    EXPECT(s.num_edges_in_cycle == 3);
    return 0;
}
""")
seed("b06-no-cascade", "C19",
     [(M + "data_structures/fibonacci_heap.c", "            cut(heap, node, parent);\n            cascading_cut(heap, parent);\n        }", "            cut(heap, node, parent);\n            node->marked = true;\n        }")],
     "sequences of decreases that thin out trees of high degree at several levels, then an extraction",
     "the degree of a tree is no longer logarithmic, the table of degrees is overrun", OPT + """
exe = build(8, 0, 1, extra="demo.c", flags=["-I" + HERE, "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
subprocess.run([exe], check=True, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
""", demo_c="""
#include "unit.h"
#include "data_structures/fibonacci_heap.h"
#define K 14
#define N ((1 << K) + 1)
static OrdTreeNode t[N];
static char kept[N];
static OrdTreeNode *a[64], *b[64], *c[64];
static int children(OrdTreeNode *n, OrdTreeNode **out) { OrdTreeNode *x = n->head_child_list; for (int i = 0; i < n->num_children; i++, x = x->right_sibling) out[i] = x; return n->num_children; }
static void keep(OrdTreeNode *n) { kept[n->key] = 1; OrdTreeNode *x = n->head_child_list; for (int i = 0; i < n->num_children; i++, x = x->right_sibling) keep(x); }
int main(void) {
    FibonacciHeap h;
    create_fibonacci_heap(&h);
    for (int i = 0; i < N; i++) create_insert_node(&h, &t[i], i, i);
    EXPECT(extract_min(&h) == 0);
    OrdTreeNode *root = h.min_root;
    double low = -1;
    int na = children(root, a);
    for (int i = 0; i < na; i++) {
        int nb = children(a[i], b);
        for (int j = 0; j < nb; j++) {      /* cut b[j] from a[i] indirectly: by cutting two of its children */
            int nc = children(b[j], c), done = 0;
            for (int k = 0; k < nc && done < 2 && b[j]->parent; k++, done++) decrease_value(&h, c[k], low--);
        }
    }
    keep(root);
    int rest = 0, total = 0;
    for (int i = 1; i < N; i++) if (!kept[i]) { decrease_value(&h, &t[i], low--); rest++; }
    total = N - 1;
    double last = 2 * low;
    while (total > 0) {
        int m = extract_min(&h);
        EXPECT(m > 0 && t[m].value >= last);
        last = t[m].value;
        total--;
    }
    EXPECT(extract_min(&h) == -1);
    return 0;
}
""")
seed("b07-merge-member", "C20",
     [(M + "data_structures/mfset.c", "            set1_root->parentSet = set2_root;\n        } else {", "            set1->parentSet = set2_root;\n        } else {")],
     "a merge called with an element that is not the root of a set of lower rank", "part of that set is not merged", OPT + """
subprocess.run([build(8, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "data_structures/mfset.h"
static Forest f;
static Node nd[8];
int main(void) {
    for (int i = 0; i < 8; i++) nd[i].positionInGraph = i;
    create_forest(&f, nd, 8);
    merge(&f.sets[0], &f.sets[1]);
    merge(&f.sets[2], &f.sets[3]); merge(&f.sets[4], &f.sets[5]); merge(&f.sets[2], &f.sets[4]);
    merge(&f.sets[1], &f.sets[5]);
    for (int i = 1; i < 6; i++) EXPECT(find(&f.sets[i]) == find(&f.sets[0]));
    EXPECT(find(&f.sets[6]) != find(&f.sets[0]));
    return 0;
}
""")
LF = M + "data_structures/doubly_linked_list/list_functions.c"
seed("b08-stale-prev", "C22",
     [(LF, "            e->next->prev = e;\n            e->prev->next = e;", "            e->prev->next = e;")],
     "an insertion in the middle, followed by deletions at the end", "the backward link skips the inserted element, which is lost with its successor", OPT + """
subprocess.run([build(8, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "data_structures/doubly_linked_list/list_functions.h"
int main(void) {
    int a[3];
    List *l = new_list();
    add_elem_list_bottom(l, &a[0]); add_elem_list_bottom(l, &a[2]); add_elem_list_index(l, &a[1], 1);
    EXPECT(get_list_elem_index(l, 1) == &a[1]);
    delete_list_elem_bottom(l);
    EXPECT(get_list_size(l) == 2);
    EXPECT(l->head->next != NULL && l->head->next->value == &a[1]);
    del_list(l);
    return 0;
}
""")
seed("b09-tiny-weight", "C24",
     [(M + "tsp_instance_reader.c", "                if (weight > 0) {", "                if (weight > EPSILON2) {")],
     "weights below a ten-thousandth of the scale of the unit square", "short edges are taken for absent ones", OPT + """
exe = build(5, 0, 1)
rng = random.Random(1)
for k in range(20):
    W = sym(5, lambda i, j: rng.choice([1e-5, 2e-5, 0.5, 0.7]))
    r = run(exe, W)
    if not is_tour(r["edges"], 5, W): fail("no tour of a complete graph: %s" % W)
print("ok")
""")
seed("b10-file-ids", "C25",
     [(M + "tsp_instance_reader.c", "            nodes[i].positionInGraph = i;\n            nodes[i].x = x;", "            nodes[i].positionInGraph = id - 1;\n            nodes[i].x = x;")],
     "a TSPLIB file whose nodes are not numbered 1, 2, 3, ... in this order", "distances are stored at the wrong nodes", OPT + """
subprocess.run([build(4, 0, 1, extra="demo.c", flags=["-I" + HERE]), TMP + "/a.tsp"], check=True)
""", demo_c="""
#include "unit.h"
#include "tsp_instance_reader.h"
static Graph g;
int main(int c, char **v) {
    FILE *f = fopen(v[1], "w");
    fputs("NAME: x\\nEDGE_WEIGHT_TYPE: EUC_2D\\nNODE_COORD_SECTION\\n2 0 0\\n4 3 4\\n1 6 8\\n3 30 40\\nEOF\\n", f);
    fclose(f);
    read_tsp_lib_file(&g, v[1]);
    EXPECT(g.num_nodes == 4 && g.num_edges == 6);
    for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) if (i != j) {
        double dx = g.nodes[i].x - g.nodes[j].x, dy = g.nodes[i].y - g.nodes[j].y, d = g.edges_matrix[i][j].weight;
        EXPECT(d * d > dx * dx + dy * dy - 1e-3 && d * d < dx * dx + dy * dy + 1e-3);
    }
    return 0;
}
""")
seed("b11-prim-stops", "C18",
     [(M + "algorithms/prim.c", "            in_heap[min_pos] = false;\n", "            if (min_pos != 0 && fathers[min_pos] == -1) {\n                break; // the rest cannot be reached\n            }\n            in_heap[min_pos] = false;\n")],
     "a disconnected graph with an edge outside the first component", "the result is not a spanning forest of minimum weight", OPT + """
subprocess.run([build(6, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/prim.h"
static Graph g; static MST m; static Node nd[5]; static Edge e[3] = {{0, 1, 1, 2, 0, 0}, {2, 3, 2, 3, 0, 1}, {3, 4, 3, 4, 0, 2}};
int main(void) {
    List *nl = new_list(), *el = new_list();
    for (int i = 0; i < 5; i++) add_elem_list_bottom(nl, &nd[i]);
    unsigned short ends[3][2] = {{0, 1}, {2, 3}, {3, 4}};
    for (int i = 0; i < 3; i++) { e[i].src = ends[i][0]; e[i].dest = ends[i][1]; e[i].weight = i + 2; e[i].symbol = i + 1; add_elem_list_bottom(el, &e[i]); }
    create_graph(&g, nl, el, WEIGHTED_GRAPH);
    prim(&g, &m);
    EXPECT(!m.isValid);
    EXPECT(m.num_edges == 3 && m.cost == 9);
    return 0;
}
""")
seed("b12-tie-partition", "C21",
     [(M + "algorithms/kruskal.c", "(HYBRID && (pivot_weight > i_edge.weight || (pivot_weight == i_edge.weight && pivot_prob <= i_edge.prob)))", "(HYBRID && pivot_weight >= i_edge.weight)")],
     "hybrid mode and several edges of equal weight with different probabilities", "edges of equal weight are not in order of probability", OPT + """
subprocess.run([build(12, 1, 0, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/kruskal.h"
static Graph g; static Node nd[12]; static Edge e[66];
int main(void) {
    srand(1);
    for (int r = 0; r < 300; r++) {
        List *nl = new_list(), *el = new_list();
        int z = 0;
        for (int i = 0; i < 12; i++) add_elem_list_bottom(nl, &nd[i]);
        for (int i = 0; i < 12; i++) for (int j = i + 1; j < 12; j++) {
            e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + rand() % 3; e[z].prob = rand() % 1000 / 1000.0; add_elem_list_bottom(el, &e[z]); z++;
        }
        create_graph(&g, nl, el, WEIGHTED_GRAPH);
        wrap_quick_sort(&g);
        for (int i = 0; i + 1 < z; i++) {
            EXPECT(g.edges[i].weight <= g.edges[i + 1].weight);
            EXPECT(g.edges[i].weight < g.edges[i + 1].weight || g.edges[i].prob >= g.edges[i + 1].prob);
        }
    }
    return 0;
}
""")
seed("b13-edge-counter", "C23",
     [(M + "data_structures/graph.c", "    unsigned short z = 0;\n    Edge edges [MAX_EDGES_NUM];", "    unsigned char z = 0;\n    Edge edges [MAX_EDGES_NUM];")],
     "a graph of 24 nodes or more (276 edges)", "the edges beyond the 256th overwrite the first ones", OPT + """
subprocess.run([build(24, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "data_structures/graph.h"
static Graph g; static Node nd[24];
int main(void) {
    List *nl = new_list();
    for (int i = 0; i < 24; i++) { nd[i].positionInGraph = i; nd[i].x = i; nd[i].y = 2 * i; add_elem_list_bottom(nl, &nd[i]); }
    create_euclidean_graph(&g, nl);
    EXPECT(g.num_edges == 276);
    for (int i = 0; i < 24; i++) EXPECT(g.nodes[i].num_neighbours == 23);
    return 0;
}
""")
seed("b14-candidate-prob", "C14",
     [(BB, "            best_subProblem.value = currentCandidate.value;\n            best_subProblem.prob = currentCandidate.prob;\n", "            best_subProblem.value = currentCandidate.value;\n")],
     "hybrid mode and vertices with exactly equal 1-tree costs, the more probable one first", "the less probable vertex is chosen", OPT + """
exe = build(5, 1, 1)
rng = random.Random(1)
import itertools
def one_tree_probs(n, P):
    return None
n = 5
for k in range(200):
    W = sym(n, lambda i, j: 1.0)
    # a spanning star of high probability around each of few nodes
    hub = rng.randrange(n)
    W = sym(n, lambda i, j: 1.0 if hub in (i, j) else 9.0)
    P = sym(n, lambda i, j: rng.choice([0.0, 1.0]) if hub in (i, j) else rng.choice([0.0, 0.5, 1.0]))
    # from vertex v != hub: the star of the other nodes (cost n-2) plus v-hub (1) and the edge of v of weight 9 (any), all equal in cost
    r = run(exe, W, P)
    c = r["candidate"]
    def probs(v):
        # the least and greatest mean over the choices of the edge of weight 9; hub: any tree of weight 9 edges
        star = sum(P[hub][u] for u in range(n) if u != hub)
        ninth = [P[v][u] for u in range(n) if u not in (v, hub)]
        return (star + min(ninth)) / n, (star + max(ninth)) / n
    # the hub as candidate: tree of n-2 edges of weight 9 + 2 edges of weight 1, cost 9(n-2)+2, greater: always preferred
    if c != hub: fail("candidate %d, hub %d" % (c, hub))
# equal weights: every 1-tree costs n; v's 1-tree is determined up to ties, so use a ring with unique 1-trees
for k in range(200):
    n = 5
    W = sym(n, lambda i, j: 1.0 if (j - i) % n in (1, n - 1) else 5.0)
    P = sym(n, lambda i, j: rng.random())
    # without v the tree is the path of the others (n-2 ring edges), v is joined by its two ring edges: the ring for every v, one probability
    r = run(exe, W, P)
    if abs(r["cost"] - n) > 1e-6: fail("cost")
# a wheel: the tree without v is unique, the second edge of v is not in the ring
n = 4
exe = build(4, 1, 1)
bad = 0
for k in range(4000):
    W = sym(n, lambda i, j: float(rng.randint(1, 3)))
    P = sym(n, lambda i, j: rng.choice([0.0, 0.3, 0.6, 1.0]))
    best = {}
    for v in range(n):
        o = [u for u in range(n) if u != v]
        es = sorted((W[a][b], a, b) for a, b in itertools.combinations(o, 2))
        ce = sorted((W[v][u], v, u) for u in o)
        if es[1][0] == es[2][0] or ce[1][0] == ce[2][0]: break
        t = es[:2] + ce[:2]
        best[v] = (sum(x[0] for x in t), sum(P[a][b] for _, a, b in t) / n)
    if len(best) < n: continue
    top = max(x[0] for x in best.values())
    tied = [v for v in best if best[v][0] == top]
    if len(tied) < 2: continue
    bad += 1
    c = run(exe, W, P)["candidate"]
    if any(best[v][1] >= best[c][1] + 0.11 for v in tied) or c not in tied: fail("candidate %d of %s" % (c, best))
    if bad > 400: break
print("ok", bad)
""")
seed("b15-float-nearest", "C15",
     [(BB, "            double best_edge_value = INFINITE;\n            unsigned short best_neighbour = current_node;\n            for", "            float best_edge_value = FLT_MAX;\n            unsigned short best_neighbour = current_node;\n            for")],
     "two edges whose weights differ by less than single precision", "the walk does not follow the nearest neighbour", OPT + """
exe = build(5, 0, 1, extra="+clk.c", flags=["-Dclock=fake_clock"])
rng = random.Random(1)
def nn(W, s):
    cur, seen, c = s, {s}, 0
    while len(seen) < len(W):
        nx = min((u for u in range(len(W)) if u not in seen), key=lambda u: W[cur][u])
        c += W[cur][nx]; cur = nx; seen.add(cur)
    return c + W[cur][s]
for k in range(300):
    vals = [2.0 ** 24 + d for d in range(20)] + [2.0 ** 25 + 1000 * d for d in range(5)]
    rng.shuffle(vals)
    it = iter(vals)
    W = sym(5, lambda i, j: next(it))
    r = run(exe, W)
    want = min(nn(W, s) for s in range(5))
    if abs(r["cost"] - want) > 1e-3: fail("start %r, best nearest neighbour tour %r" % (r["cost"], want))
print("ok")
""", clk_c="""
#include <time.h>
static int calls;
clock_t fake_clock(void) { return calls++ == 0 ? 0 : (clock_t) 2000 * 1000000; }
""")
seed("b16-one-sided", "C12",
     [(BB, "                    subProblem->constraints[nothing_nodes[j]][i] = MANDATORY;\n", "")],
     "an edge forced because only two remain at a node, seen from its higher-numbered end", "the constraint is stored in one cell of the matrix only", OPT + """
subprocess.run([build(5, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static SubProblem s; static Node nd[5]; static Edge e[10];
bool infer_constraints(SubProblem *);
int main(void) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < 5; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < 5; i++) for (int j = i + 1; j < 5; j++) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + z; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    set_problem(&P);
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    s.constraints[4][3] = s.constraints[3][4] = FORBIDDEN;
    s.constraints[4][2] = s.constraints[2][4] = FORBIDDEN;
    EXPECT(infer_constraints(&s));
    for (int i = 0; i < 5; i++) for (int j = 0; j < 5; j++) EXPECT(s.constraints[i][j] == s.constraints[j][i]);
    EXPECT(s.constraints[4][0] == MANDATORY && s.constraints[4][1] == MANDATORY);
    return 0;
}
""")
seed("b17-last-tree", "C11",
     [(BB, "        *currentSubProb = *get_SubProblemList_elem_index(&generatedSubProblems,0);", "        *currentSubProb = *get_SubProblemList_elem_index(&generatedSubProblems, generatedSubProblems.size - 1);")],
     "a subgradient that ends on a 1-tree whose original cost is above the minimum", "edges are fixed by replacement costs in a 1-tree that is not minimal", OPT + """
check_optimal(7, 0, 1, lambda r: sym(7, lambda i, j: r.randint(1, 30)), 600)
check_optimal(8, 0, 1, lambda r: euclid(r, 8, 100), 600)
check_optimal(9, 0, 1, lambda r: sym(9, lambda i, j: r.randint(1, 100)), 300)
""")
seed("b18-almost-tour", "C02",
     [(BB, "    return subProblem->num_edges_in_cycle == subProblem->oneTree.num_edges;", "    return subProblem->num_edges_in_cycle >= subProblem->oneTree.num_nodes - 1;")],
     "a 1-tree whose circuit passes through all nodes but one", "a circuit that misses a node is reported as the tour", OPT + """
check_optimal(6, 0, 1, lambda r: sym(6, lambda i, j: r.randint(1, 30)), 200)
""")
seed("b19-one-choice", "C07",
     [(BB, "    if (toAdd > 2 || (toAdd + num_others) < 2) {", "    if (toAdd > 2 || (toAdd < 2 && num_others == 0)) {")],
     "an incomplete graph in which exclusions leave the starting vertex a single edge", "an edge that does not exist is put into the 1-tree", OPT + """
def inc(n, p):
    def f(r):
        while True:
            W = sym(n, lambda i, j: 0.0 if r.random() < p else float(r.randint(1, 50)))
            if all(sum(x > 0 for x in row) >= 2 for row in W): return W
    return f
exe = build(8, 0, 1, flags=["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"])
os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
rng = random.Random(1)
f = inc(8, .5)
for k in range(600):
    r = run(exe, f(rng))
    if r["rc"]: fail("exit %d %s" % (r["rc"], r["err"][-300:]))
print("ok")
""")
seed("b20-position-byte", "C13",
     [(BB, "            long position = -1;", "            signed char position = -1;"), (BB, "                    position = (long) j;", "                    position = j;")],
     "more than 128 open subproblems, and a new one that belongs beyond the 128th", "the new subproblem is lost (with all its tours)", OPT + """
subprocess.run([build(20, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static SubProblem s; static Node nd[20]; static Edge e[190];
int main(void) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < 20; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < 20; i++) for (int j = i + 1; j < 20; j++) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = 1 + z; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    set_problem(&P);
    SubProblemsList l;
    new_SubProblemList(&l);
    for (int i = 0; i < 20; i++) for (int j = 0; j < 20; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    s.edge_to_branch = 0;
    for (int k = 0; k < 150; k++) {
        s.value = k % 2 ? 1000 - k : k;
        branch(&l, &s);
        EXPECT(get_SubProblemList_size(&l) == 2 * (size_t) (k + 1));
    }
    double last = -1;
    for (size_t k = 0; k < l.size; k++) { double v = get_SubProblemList_elem_index(&l, k)->value; EXPECT(v >= last); last = v; }
    return 0;
}
""")
seed("b21-loose-hybrid", "C03",
     [(BB, "                    if (problem->bestValue - analyzedSubProblem.value <= EPSILON) {", "                    if (problem->bestValue - analyzedSubProblem.value <= (HYBRID ? BETTER_PROB : EPSILON)) {")],
     "hybrid mode and an incumbent within 0.05 of a better tour", "the hybrid search gives up tours that are better by up to 0.05", OPT + """
check_optimal(8, 1, 1, lambda r: euclid(r, 8), 400, probs=True)
""")
seed("b22-branch-edge-left", "C06",
     [(BB, "        child.edge_to_branch = -1;\n", "")],
     "the best tour is found at the first 1-tree of a subproblem other than the root", "the report shows whatever the memory held before", OPT + """
a = build(8, 0, 1, flags=["-ftrivial-auto-var-init=zero"])
b = build(8, 0, 1, flags=["-ftrivial-auto-var-init=pattern"])
rng = random.Random(1)
for k in range(150):
    W = sym(8, lambda i, j: rng.randint(1, 60))
    x, y = run(a, W), run(b, W)
    if x["etb"] != y["etb"]: fail("edge to branch %r / %r" % (x["etb"], y["etb"]))
print("ok")
""")
seed("b23-leak-closed", "C07",
     [(BB, "        delete_SubProblemList_iterator(subProblem_iterators);\n        delete_SubProblemList(&generatedSubProblems);\n        //printf",
       "        //printf"),
      (BB, "        if(currentSubProb->type == OPEN) {\n            double best_prob_branch", "        if(currentSubProb->type == OPEN) {\n            delete_SubProblemList_iterator(subProblem_iterators);\n            delete_SubProblemList(&generatedSubProblems);\n            double best_prob_branch")],
     "a subproblem that the subgradient closes by its bound", "all its 1-trees stay allocated", OPT + """
exe = build(8, 0, 1, extra="+count.c", flags=["-Dmalloc=c_malloc", "-Dcalloc=c_calloc", "-Dfree=c_free"])
rng = random.Random(1)
for k in range(200):
    r = run(exe, sym(8, lambda i, j: rng.randint(1, 60)))
    left = int(r["err"].split("LEFT")[1])
    if left > 8: fail("%d blocks left" % left)
print("ok")
""", count_c="""
#undef malloc
#undef calloc
#undef free
#include <stdio.h>
#include <stdlib.h>
static long live;
void *c_malloc(size_t n) { live++; return malloc(n); }
void *c_calloc(size_t a, size_t b) { live++; return calloc(a, b); }
void c_free(void *p) { if (p) live--; free(p); }
__attribute__((destructor)) static void end(void) { fprintf(stderr, "LEFT %ld\\n", live); }
""")
seed("b24-large-weights", "C01",
     [(BB, "        double bestFoundWeight = INFINITE;", "        double bestFoundWeight = 1000000;")],
     "weights above a million (the distance of far apart TSPLIB points), with one required edge at the starting vertex", "no second edge is found for the starting vertex", OPT + """
check_optimal(7, 0, 1, lambda r: sym(7, lambda i, j: r.randint(1000000, 3000000)), 300)
""")
seed("b25-no-multipliers", "C10",
     [(BB, "                    double current_lb = analyzedSubProblem.oneTree.cost - (2 * total_pi);", "                    double current_lb = analyzedSubProblem.oneTree.cost;")],
     "multipliers that do not add up to zero", "the bound is too high by twice the sum of the multipliers", OPT + """
check_optimal(8, 0, 1, lambda r: sym(8, lambda i, j: r.randint(1, 30)), 1500)
check_optimal(9, 0, 1, lambda r: euclid(r, 9, 100), 800)
""")
