GRAPH_C = """
#include "unit.h"
#include "algorithms/branch_and_bound.h"
static Problem P; static SubProblem s; static Node nd[MAX_VERTEX_NUM]; static Edge e[MAX_EDGES_NUM];
void constrained_prim(Graph *, SubProblem *, unsigned short);
void constrained_kruskal(Graph *, SubProblem *, unsigned short);
BBNodeType mst_to_one_tree(SubProblem *, Graph *);
static void graph(int n, double (*w)(int, int)) {
    List *nl = new_list(), *el = new_list();
    int z = 0;
    for (int i = 0; i < n; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (w(i, j) > 0) {
        e[z].src = i; e[z].dest = j; e[z].symbol = z + 1; e[z].weight = w(i, j); e[z].prob = 0; add_elem_list_bottom(el, &e[z]); z++;
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    P.candidateNodeId = 0;
    set_problem(&P);
    for (int i = 0; i < MAX_VERTEX_NUM; i++) for (int j = 0; j < MAX_VERTEX_NUM; j++) s.constraints[i][j] = i == j ? FORBIDDEN : NOTHING;
    s.num_forbidden_edges = s.num_mandatory_edges = 0;
}
static void mandatory(int a, int b) {
    s.constraints[a][b] = s.constraints[b][a] = MANDATORY;
    s.mandatoryEdges[s.num_mandatory_edges].src = a; s.mandatoryEdges[s.num_mandatory_edges].dest = b; s.num_mandatory_edges++;
}
static void forbid(int a, int b) { s.constraints[a][b] = s.constraints[b][a] = FORBIDDEN; s.num_forbidden_edges++; }
"""
UNIT = OPT + """
subprocess.run([build(%s, extra="demo.c", flags=["-I" + HERE]), TMP + "/x"], check=True)
"""
seed("b37-first-exclusion", "C17",
     [(BB, "            if (subProblem->num_forbidden_edges == 0 || subProblem->constraints[src][dest] != FORBIDDEN) {\n\n                Set",
       "            if (subProblem->num_forbidden_edges <= graph->num_nodes + 1 || subProblem->constraints[src][dest] != FORBIDDEN) {\n\n                Set")],
     "Kruskal's variant and a subproblem that excludes a single edge", "the excluded edge stays in the 1-tree, the bound is too low", UNIT % "8, 0, 0",
     demo_c=GRAPH_C + """
static double w(int i, int j) { return j == i + 1 ? 1 : 10 + i + j; }
int main(void) {
    graph(8, w);
    forbid(3, 4);
    for (int i = 0; i < 8; i++) s.num_forbidden_edges++;
    constrained_kruskal(&P.graph, &s, 0);
    EXPECT(s.oneTree.isValid && s.oneTree.edges_matrix[3][4] == -1);
    return 0;
}
""")
seed("b38-last-neighbour", "C17",
     [(BB, "    if (toAdd > 2 || (toAdd + num_others) < 2) {", "    if (toAdd > 2 || (toAdd == 0 && num_others < 2)) {"),
      (BB, "        add_edge(&currentSubproblem->oneTree, &graph->edges[bestFoundPos]);", "        add_edge(&currentSubproblem->oneTree, &graph->edges[bestFoundPos == -1 ? bestEdgesPos[0] : bestFoundPos]);")],
     "an incomplete graph whose starting vertex keeps one mandatory edge and no other", "the mandatory edge is counted twice instead of closing the subproblem", UNIT % "6, 0, 1",
     demo_c=GRAPH_C + """
static double w(int i, int j) { return i == 0 && j > 2 ? 0 : 1 + i + j; }
int main(void) {
    graph(6, w);
    mandatory(0, 1);
    forbid(0, 2);
    constrained_prim(&P.graph, &s, 0);
    EXPECT(s.oneTree.isValid);
    EXPECT(mst_to_one_tree(&s, &P.graph) == CLOSED_UNFEASIBLE);
    return 0;
}
""")
seed("b39-replacement-side", "C09",
     [(BB, "            if(current_edge.src == problem->candidateNodeId || current_edge.dest == problem->candidateNodeId){", "            if(current_edge.src == problem->candidateNodeId){")],
     "a starting vertex that is not the smallest node number", "its edges are made mandatory although a tour without them is cheaper", OPT + """
exe = build(9, 0, 1)
rng = random.Random(1)
for k in range(1500):
    W = sym(9, lambda i, j: rng.randint(1, 40))
    p = list(range(9))
    a = run(exe, W)["cost"]
    for r in range(3):
        rng.shuffle(p)
        b = run(exe, sym(9, lambda i, j: W[p[i]][p[j]]))["cost"]
        if abs(a - b) > tolerance(9): fail("%r and, renumbered by %r, %r" % (a, p, b))
    if k > 250: break
print("ok")
""")
seed("b40-delete-min", "C19",
     [(M + "data_structures/fibonacci_heap.c", "    decrease_value(heap, node, -FLT_MAX);", "    decrease_value(heap, node, heap->min_root->value);")],
     "a deletion of an element that is not the least", "the least element is taken out instead", UNIT % "5, 0, 1", demo_c="""
#include "unit.h"
#include "data_structures/fibonacci_heap.h"
void delete_node(FibonacciHeap *, OrdTreeNode *);
int main(void) {
    FibonacciHeap h;
    OrdTreeNode n[6];
    create_fibonacci_heap(&h);
    for (int i = 0; i < 6; i++) create_insert_node(&h, &n[i], i, 10 + i);
    delete_node(&h, &n[4]);
    int want[] = {0, 1, 2, 3, 5};
    for (int i = 0; i < 5; i++) EXPECT(extract_min(&h) == want[i]);
    return 0;
}
""")
seed("b41-forced-twice", "C17",
     [(BB, "                    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].dest = nothing_nodes[j];", "                    subProblem->mandatoryEdges[subProblem->num_mandatory_edges].dest = nothing_nodes[0];")],
     "a node both of whose last two edges get forced at once", "the second forced edge does not enter the 1-tree, the bound is too low", UNIT % "6, 0, 1",
     demo_c=GRAPH_C + """
static double w(int i, int j) { return i == 5 || j == 5 ? 50 + 10 * (i + j) : 1 + i + j; }
int main(void) {
    SubProblemsList l;
    graph(6, w);
    new_SubProblemList(&l);
    forbid(5, 1); forbid(5, 0);
    s.edge_to_branch = P.graph.edges_matrix[5][2].positionInGraph; s.type = OPEN; s.value = 1; s.treeLevel = 1;
    branch(&l, &s);
    int seen = 0;
    for (SubProblemElem *q = l.head; q; q = q->next) {
        SubProblem *c = &q->subProblem;
        if (c->constraints[5][2] != FORBIDDEN) continue;
        seen = 1;
        EXPECT(c->constraints[5][3] == MANDATORY && c->constraints[5][4] == MANDATORY);
        constrained_prim(&P.graph, c, 0);
        EXPECT(c->oneTree.edges_matrix[5][3] != -1 && c->oneTree.edges_matrix[5][4] != -1);
    }
    EXPECT(seen);
    return 0;
}
""")
seed("b42-fix-cost", "C11",
     [(BB, "        currentSubProb->oneTree.cost = currentSubProb->value; // mi serve valore originale per variabile fixing\n", ""),
      (BB, "        currentSubProb->type = best_subproblem.type;\n", "        currentSubProb->type = best_subproblem.type;\n        currentSubProb->oneTree.cost = best_subproblem.value;\n")],
     "a subproblem one of whose later 1-trees costs more than its first", "the exchange costs are added to the cost of another 1-tree and edges of cheaper tours are fixed", OPT + """
subprocess.run([build(8, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c=GRAPH_C + """
static double m[8][8];
static double w(int i, int j) { return m[i][j]; }
void bound(SubProblem *); int variable_fixing(SubProblem *);
static double best; static int perm[8];
static void tours(int k, double c) {
    if (k == 8) {
        c += m[perm[7]][perm[0]];
        if (c > P.bestValue - 1e-6) return;
        for (int i = 0; i < 8; i++) EXPECT(s.constraints[perm[i]][perm[(i + 1) % 8]] != FORBIDDEN);
        for (int a = 0; a < 8; a++) for (int b = 0; b < a; b++) if (s.constraints[a][b] == MANDATORY) {
            int in = 0;
            for (int i = 0; i < 8; i++) { int x = perm[i], y = perm[(i + 1) % 8]; if ((x == a && y == b) || (x == b && y == a)) in = 1; }
            EXPECT(in);
        }
        return;
    }
    for (int i = k; i < 8; i++) {
        int t = perm[k]; perm[k] = perm[i]; perm[i] = t;
        tours(k + 1, c + m[perm[k - 1]][perm[k]]);
        t = perm[k]; perm[k] = perm[i]; perm[i] = t;
    }
}
int main(void) {
    srand(1);
    for (int r = 0; r < 4000; r++) {
        for (int i = 0; i < 8; i++) for (int j = i + 1; j < 8; j++) m[i][j] = m[j][i] = 1 + rand() % 1000 / 100.0;
        graph(8, w);
        P.bestValue = 1e9; P.start = 0;
        double b = 0;
        for (int i = 0; i < 8; i++) b += m[i][(i + 1) % 8];
        for (int i = 0; i < 8; i++) perm[i] = i;
        /* a fair incumbent: the best of some random tours */
        for (int q = 0; q < 400; q++) {
            for (int i = 7; i; i--) { int j = rand() % (i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
            double c = 0;
            for (int i = 0; i < 8; i++) c += m[perm[i]][perm[(i + 1) % 8]];
            if (c < b) b = c;
        }
        P.bestValue = P.bestSolution.value = b;
        s.treeLevel = 2; s.type = OPEN; s.value = 0; s.num_edges_in_cycle = 0; s.edge_to_branch = -1;
        bound(&s);
        if (s.type != OPEN) continue;
        variable_fixing(&s);
        for (int i = 0; i < 8; i++) perm[i] = i;
        tours(1, 0);
    }
    return 0;
}
""")
ANA_PANDAS = """
class Table:
    made = []
    def __init__(self, data=None, columns=None):
        self.cols, self.rows, self.index, self.loc = list(columns or data), [], [], self
        Table.made.append(self)
    def __setitem__(self, k, v): self.index.append(k); self.rows.append(v)
    def rename(self, index): self.index = [index.get(i, i) for i in self.index]; return self
    def to_string(self): return "\\n".join(" ".join(map(str, [i] + list(r))) for i, r in zip(self.index, self.rows))
    def to_csv(self, *a, **k): pass
a = analyzer()
a.pd.DataFrame = Table
REPORT = ("Updated best value: 3.5, at time: 0.1\\nOptimal tour found with candidate node = 0, elapsed time = {t:.6f}s and interrupted = {i}\\n"
    "B-&-B tree with generated BBNodes = {g},  explored BBNodes = {e} and max tree level = {l}\\n"
    "SUBPROBLEM with cost = {c:.6f}, type = CLOSED_1TREE, level of the BB tree = {b}, prob_tour = {p:.6f}, BBNode number = {k} and time to obtain = {o:.6f}s, edge to branch = -1\\n"
    "Time taken: {x:.6f}s\\n")
def folder(mode, reports):
    os.makedirs("tsp_20_nodes_" + mode)
    for q, r in reports.items():
        open("tsp_20_nodes_%s/result_%d.txt" % (mode, q), "w").write(REPORT.format(**r))
def report(rng, scale, i="FALSE"):
    f = rng.random
    return dict(t=f(), i=i, g=rng.randint(20, 20 * scale), e=rng.randint(5, 19), l=rng.randint(2, 9), c=3 + f(), b=rng.randint(1, 9), p=f(), k=rng.randint(1, 20), o=f(), x=1 + f())
"""
seed("p18-other-spread", "C39",
     [(ANA, """                                           np.mean(list(all_stats_cla["generate_bbnodes"].values())) - np.std(list(all_stats_cla["generate_bbnodes"].values()))]

    curve_pts = curve_pts.rename(index={len(curve_pts.index) - 1: "Original values"})""",
       """                                           np.mean(list(all_stats_cla["generate_bbnodes"].values())) - np.std(list(all_stats_hyb["generate_bbnodes"].values()))]

    curve_pts = curve_pts.rename(index={len(curve_pts.index) - 1: "Original values"})""")],
     "modes whose numbers of subproblems spread differently", "the lower classic curve point takes the spread of the hybrid runs", PY + ANA_PANDAS + """
rng = random.Random(1)
H, C = {q: report(rng, 3) for q in range(1, 12)}, {q: report(rng, 30) for q in range(1, 12)}
folder("hybrid", H)
folder("classic", C)
a.analyze(20, False)
row = dict(zip(Table.made[-1].index, Table.made[-1].rows))["Original values"]
g = [r["g"] for r in C.values()]
if abs(row[5] - (np.mean(g) - np.std(g))) > 1e-6: fail(row)
print("ok")
""")
seed("p19-mild-mask", "C32",
     [(NET + "utils/beamsearch.py", "            self.mask[self.mask == 0] = 1e20", "            self.mask[self.mask == 0] = 1e4")],
     "a beam whose score is close to 0, from a network that is nearly certain", "a node already in the tour is visited again", PY + """
from utils.beamsearch import Beamsearch
import torch
n = 6
for conf in (0.5, 0.9, 0.999, 0.999999):
    p = np.full((n, n), 0.01)
    for i in range(n):
        for j in range(n):
            if i // 3 == j // 3: p[i, j] = conf
    lp = torch.FloatTensor(np.log(p)[None].tolist())
    b = Beamsearch(2, 1, n, torch.FloatTensor, torch.LongTensor, "logits", False)
    t = lp.gather(1, b.get_current_state())
    for s in range(n - 1):
        b.advance(t)
        t = lp.gather(1, b.get_current_state())
    h = b.get_hypothesis(torch.zeros(1, 1).type(torch.LongTensor))
    if sorted(int(x) for x in h[0]) != list(range(n)): fail((conf, h))
print("ok")
""")
seed("b43-heaviest", "C04",
     [(BB, "    while (num_edges_inG < graph->num_edges && num_edges_inMST < graph->num_nodes - 2) {", "    while (num_edges_inG + 1 < graph->num_edges && num_edges_inMST < graph->num_nodes - 2) {")],
     "Kruskal's variant and an incomplete graph whose every tour needs the dearest edge", "a tour exists but none is found, or a dearer one", OPT + """
exe = build(7, 0, 0)
rng = random.Random(1)
for k in range(300):
    p = list(range(7))
    rng.shuffle(p)
    ring = {frozenset((p[i], p[(i + 1) % 7])) for i in range(7)}
    W = sym(7, lambda i, j: rng.randint(1, 40) if frozenset((i, j)) in ring or rng.random() < .2 else 0)
    r, o = run(exe, W), optimum(W)
    if r["cost"] is None or abs(r["cost"] - o) > tolerance(7): fail("%r, optimum %r" % (r["cost"], o))
print("ok")
""")
