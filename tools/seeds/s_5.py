MOD = "src/CplexSolver/TSPmtz.mod"
CONV = "src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py"
OPLDEMO = PY + """
from opl import *
r = Reader(open(os.path.join(ROOT, "src", "CplexSolver", "TSPmtz.mod")).read())
def ground(C): return Grounded(r, dict(n=len(C), Cost=C))
def fix(g, n, arcs): return {g.index["x", i + 1, j + 1]: float((i, j) in arcs) for i in range(n) for j in range(n)}
def ring(t): return set(zip(t, t[1:] + t[:1]))
"""
seed("b44-cand-stale", "C14",
     [(BB, "            best_subProblem.value = currentCandidate.value;\n            best_subProblem.prob = currentCandidate.prob;",
       "            best_subProblem.prob = best_subProblem.value == currentCandidate.value ? best_subProblem.prob : currentCandidate.prob;\n            best_subProblem.value = currentCandidate.value;")],
     "hybrid mode and three starting vertices of exactly equal cost, the most probable before the second most", "a less probable starting vertex is chosen", OPT + """
import itertools
n = 6
exe = build(6, 1, 1)
seen = 0
def tree(es, P):
    comp, cost, prob, k = {}, 0, 0, 0
    f = lambda x: x if comp.get(x, x) == x else f(comp[x])
    for w, a, b in sorted(es):
        if f(a) != f(b): comp[f(a)] = f(b); cost += w; prob += P[a][b]
    return cost, prob
for k in range(60000):
    es = list(itertools.combinations(range(n), 2))
    w = list(range(1, 16)); rng.shuffle(w)
    Wd = dict(zip(es, map(float, w)))
    W = sym(n, lambda i, j: Wd[min(i, j), max(i, j)])
    def trees(P):
        best = {}
        for v in range(n):
            c, p = tree([(W[a][b], a, b) for a, b in es if v not in (a, b)], P)
            t = sorted((W[v][u], u) for u in range(n) if u != v)[:2]
            best[v] = (c + t[0][0] + t[1][0], (p + P[v][t[0][1]] + P[v][t[1][1]]) / n)
        top = max(x[0] for x in best.values())
        return best, [v for v in best if best[v][0] == top]
    if len(trees(W)[1]) < 3: continue
    for _ in range(60):
        P = sym(n, lambda i, j: rng.choice([0.01, 0.25, 0.5, 0.75, 0.99]))
        best, tied = trees(P)
        ps = [best[v][1] for v in tied]
        if ps[0] + 0.06 < ps[-1] < max(ps) - 0.06: break      # the last is better than the first, but not the best
    else: continue
    seen += 1
    c = run(exe, W, P)["candidate"]
    if c not in tied or any(best[v][1] >= best[c][1] + 0.06 for v in tied): fail("candidate %d of %s" % (c, best))
    if seen > 40: break
print("ok", seen)
""".replace("\nimport itertools", "\nrng = random.Random(1)\nimport itertools", 1))
seed("p20-thousand", "C26",
     [(DRV, "        end_instance = int(instances[1])\n", "        end_instance = int(instances[1][:3])\n")],
     "an instance with a number of four digits", "the driver ends normally without solving it", PY + """
ls = [line([(0, 0), (0, 1), (1, i / 1e4)]) for i in range(1002)]
root, log = drive(ls, 3, ["--range_instances", "1000-1001", "--num_nodes", "3"], solver='echo "$1" >>$LOG; cp "$1" "$2"')
if len(log.split()) != 2: fail("solved: %s" % log.split())
print("ok")
""")
seed("p21-late-neighbour", "C30",
     [(NET + "utils/graph_utils.py", "    for _ in range(max_iter):", "    for _ in range(min(max_iter, 3)):")],
     "a data set whose fourth or later pass has the farthest neighbour", "the largest k of the data set is too small", PY + """
from utils.graph_utils import get_max_k
class DS:
    num_nodes, count = 4, 0
    def __iter__(self):
        self.count += 1
        b = types.SimpleNamespace()
        b.edges = np.ones((1, 4, 4), int)
        b.edges_values = np.array([[[0, 1, 2, 3], [1, 0, 1, 2], [2, 1, 0, 1], [3, 2, 1, 0.]]])
        b.edges_target = np.zeros((1, 4, 4), int)
        b.edges_target[0, 0, 3 if self.count == 6 else 1] = 1
        return iter([b])
if get_max_k(DS(), 8) != 3: fail("the largest k is 3")
print("ok")
""")
seed("p22-deep-head", "C31",
     [(NET + "models/gcn_layers.py", "            Ux = F.relu(Ux)  # B x H", "            Ux = F.relu(Ux) if U_i is not self.U[-1] or self.L < 4 else Ux")],
     "a network whose classifier has four or more layers", "its last hidden layer has no ReLU", PY + """
from models.gcn_layers import MLP
m = MLP(2, 2, 4)
for k, p in m.named_parameters():
    p.a[...] = 0 if "bias" in k else (-np.eye(2) if "U.2." in k else np.eye(2))
y = mt.raw(m(mt.Tensor(np.array([[[[1.0, 2.0]]]]))))
if np.abs(y).max() > 1e-6: fail("the last ReLU lets %s through" % y)
print("ok")
""")
seed("p23-short-labels", "C40",
     [(MOD, "dvar float+ u[cities];", "dvar float+ u[cities] in 0..9;")],
     "more than eleven nodes", "no tour satisfies the model", OPLDEMO + """
n = 13
C = [[float(abs(i - j)) for j in range(n)] for i in range(n)]
g = ground(C)
if not g.feasible(fix(g, n, ring(list(range(n))))): fail("a tour of 13 cities is no solution")
print("ok")
""")
seed("p24-free-pair", "C40",
     [(MOD, "forall (i in cities : i >=2) forall(j in cities: j >=2 && j!=i)", "forall (i in cities : i >=2) forall(j in cities: j > i)")],
     "costs for which two separate circuits are cheaper than any tour", "the order is checked in one direction only, so that circuits without the first city pass", OPLDEMO + """
rng = random.Random(1)
for n in (5, 6, 7):
    for k in range(40):
        t = list(range(n)); rng.shuffle(t)
        a = rng.randint(2, n - 2)
        g = ground([[1.0] * n for _ in range(n)])
        if g.feasible(fix(g, n, ring(t[:a]) | ring(t[a:]))): fail("two circuits %s, %s" % (t[:a], t[a:]))
print("ok")
""")
seed("p25-figure-tour", "C41",
     [(NET + "utils/plot_utils.py", "        W_bs = tour_nodes_to_W(bs_nodes[idx].cpu().numpy())", "        W_bs = tour_nodes_to_W(bs_nodes[f_idx].cpu().numpy())")],
     "more than one instance in the batch, plotted with beam search", "the tour of another instance is drawn and measured", PY + """
import utils.plot_utils as pu
titles = []
pu.plot_tsp = lambda p, x, W, V, T, title="": titles.append((V, T))
pu.plot_tsp_heatmap = lambda *a, **k: None
B, n = 4, 5
r = np.random.RandomState(1)
X = r.rand(B, n, 2)
D = np.sqrt(((X[:, :, None] - X[:, None]) ** 2).sum(3))
T = [list(r.permutation(n)) for _ in range(B)]
F_ = torch.FloatTensor
np.random.seed(3)
pu.plot_predictions_beamsearch(F_(X), torch.LongTensor(np.ones((B, n, n), int)), F_(D), torch.LongTensor(np.zeros((B, n, n), int)), F_(r.rand(B, n, n, 2)), torch.LongTensor(np.array(T)), 4)
for V, W in titles[1::2]:
    b = min(range(B), key=lambda b: np.abs(D[b] - V).max())
    want = np.zeros((n, n))
    for i, j in zip(T[b], T[b][1:] + T[b][:1]): want[i, j] = want[j, i] = 1
    if np.abs(W - want).max() > 0: fail("instance %d shown with another tour" % b)
print("ok", len(titles))
""")
seed("p26-last-comma", "C36",
     [(CONV, "    graph = problem.get_graph()\n", "    graph = problem.get_graph().to_undirected()\n")],
     "an asymmetric problem of the library", "the matrix has one direction's weights in both", PY + """
import networkx
if not hasattr(networkx, "to_numpy_matrix"): networkx.to_numpy_matrix = lambda *a, **k: np.asmatrix(networkx.to_numpy_array(*a, **k))
lib = types.ModuleType("tsplib95")
class P:
    def get_graph(self):
        g = networkx.DiGraph()
        for i in range(3):
            for j in range(3): g.add_edge(i, j, weight=(10 * i + j) * (i != j))
        return g
lib.load = lambda f: P()
sys.modules["tsplib95"] = lib
open("a.tsp", "w").write("x")
m = module(os.path.join(ROOT, "src", "CplexSolver", "Data", "TSPLIB", "converter_tsp_to_dat.py"))
m.convert("a.tsp", "a.dat")
t = [float(x) for x in __import__("re").findall(r"[\\d.]+", open("a.dat").read().split("[", 1)[1])]
if t != [0, 1, 2, 10, 0, 12, 20, 21, 0]: fail(t)
print("ok")
""")
BD = M + "data_structures/b_and_b_data.h"
seed("b45-wide-offset", "C01",
     [(BD, "    double bestValue;", "    float bestValue;")],
     "weights with nine significant digits that matter", "the incumbent's value is rounded, subproblems with the optimum are discarded", OPT + """
exe = build(7, 0, 1)
rng = random.Random(5)
for k in range(400):
    W = sym(7, lambda i, j: 1e8 + rng.randint(1, 60))
    r, o = run(exe, W), optimum(W)
    if r["rc"] or not is_tour(r["edges"], 7, W): fail("instance %d: no tour" % k)
    if abs(sum(W[a][b] for a, b in r["edges"]) - o) > 0.5: fail("instance %d: optimum %r, tour of %r\\n%r" % (k, o, sum(W[a][b] for a, b in r["edges"]), W))
print("ok")
""")
seed("b46-many-nodes", "C23",
     [(M + "data_structures/graph.h", "    unsigned short neighbours [MAX", "    unsigned char neighbours [MAX")],
     "a graph of more than 256 nodes", "a node lists wrong neighbours", OPT + """
subprocess.run([build(270, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "data_structures/graph.h"
static Graph g;
static Node nd[270];
static Edge e[269];
int main(void) {
    List *nl = new_list(), *el = new_list();
    for (int i = 0; i < 270; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 1; i < 270; i++) {
        e[i - 1].src = 0; e[i - 1].dest = i; e[i - 1].symbol = i; e[i - 1].weight = i;
        add_elem_list_bottom(el, &e[i - 1]);
    }
    create_graph(&g, nl, el, WEIGHTED_GRAPH);
    EXPECT(g.nodes[0].num_neighbours == 269);
    for (int i = 0; i < 269; i++) EXPECT(g.nodes[0].neighbours[i] == i + 1);
    return 0;
}
""")
seed("b47-long-circuit", "C16",
     [(BD, "    unsigned short num_edges_in_cycle;", "    unsigned char num_edges_in_cycle;")],
     "a tour of more than 255 nodes", "it is not recognised as one, and reported without its edges", OPT + """
subprocess.run([build(300, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "algorithms/branch_and_bound.h"
#define N 300
static Problem P;
static SubProblem s;
static Node nd[N];
static Edge e[N];
int main(void) {
    List *nl = new_list(), *el = new_list();
    for (int i = 0; i < N; i++) add_elem_list_bottom(nl, &nd[i]);
    for (int i = 0; i < N; i++) {
        e[i].src = i; e[i].dest = (i + 1) % N; e[i].symbol = i + 1; e[i].weight = 1 + i % 3; add_elem_list_bottom(el, &e[i]);
    }
    create_graph(&P.graph, nl, el, WEIGHTED_GRAPH);
    P.candidateNodeId = 0;
    set_problem(&P);
    create_mst(&s.oneTree, P.graph.nodes, N);
    for (int k = 0; k < N; k++) add_edge(&s.oneTree, &P.graph.edges[k]);
    EXPECT(check_hamiltonian(&s));
    EXPECT(s.num_edges_in_cycle == N);
    return 0;
}
""")
seed("b48-high-edge", "C01",
     [(BD, "    int edge_to_branch;", "    signed char edge_to_branch;")],
     "a branching on an edge whose number is above 127 (17 nodes or more)", "the search branches on something else and ends with a worse tour, or crashes", OPT + """
exe = build(20, 0, 1)
rng = random.Random(5)
n = 20
for k in range(150):
    p = list(range(n)); rng.shuffle(p)
    at = {v: q for q, v in enumerate(p)}
    pi = [rng.random() * 0.2 for _ in range(n)]
    # along the ring p a weight of 1 to 2, elsewhere at least 2; the same shift for every tour
    W = sym(n, lambda i, j: pi[i] + pi[j] + (1 + rng.random() if abs(at[i] - at[j]) in (1, n - 1) else 2 + rng.random() * 0.2))
    o = sum(W[a][b] for a, b in zip(p, p[1:] + p[:1]))
    try: r = run(exe, W, timeout=60)
    except subprocess.TimeoutExpired: continue
    if r["rc"]: fail("instance %d: exit %d" % (k, r["rc"]))
    if not is_tour(r["edges"], n, W) or sum(W[a][b] for a, b in r["edges"]) > o + tolerance(n): fail("instance %d: not the optimum %r" % (k, o))
print("ok")
""")
seed("b49-long-list", "C22",
     [(M + "data_structures/doubly_linked_list/linked_list.h", "    size_t size; ///< The current size of the List.", "    unsigned short size; ///< The current size of the List.")],
     "a list of 65536 elements or more", "its size is wrong", OPT + """
subprocess.run([build(4, 0, 1, extra="demo.c", flags=["-I" + HERE])], check=True)
""", demo_c="""
#include "unit.h"
#include "data_structures/doubly_linked_list/list_functions.h"
int main(void) {
    static int v;
    List *l = new_list();
    for (int i = 0; i < 66000; i++) add_elem_list_bottom(l, &v);
    EXPECT(get_list_size(l) == 66000);
    EXPECT(get_list_elem_index(l, 65990) == &v);
    return 0;
}
""")
