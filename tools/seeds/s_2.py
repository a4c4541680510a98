PY = """
import os, sys; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pylib import *
"""
DRV = M + "HybridSolver.py"
NET = M + "graph-convnet-tsp/"
ANA = "src/HybridSolver/results/AdjacencyMatrix/analyzer.py"
seed("p01-fifty", "C26",
     [(DRV, "elif num_nodes <= 50:", "elif num_nodes < 50:")],
     "instances of exactly 50 nodes in hybrid mode", "the network of size 100 is used for instances that fit the one of size 50", PY + """
r = random.Random(1)
root, log = drive([line([(r.random(), r.random()) for _ in range(50)])], 50, ["--range_instances", "1-1", "--num_nodes", "50", "--hybrid"],
                  network='echo "$4" >>$LOG; echo net >"$2"')
if log.split() != ["50"]: fail("network of size %s for 50 nodes" % log.split())
print("ok")
""")
seed("p02-cumulative-time", "C26",
     [(DRV, "    for i in range(start_instance, end_instance + 1):\n        start_time = time.time()\n", "    start_time = time.time()\n    for i in range(start_instance, end_instance + 1):\n")],
     "a range of more than one instance", "the time written for an instance includes the ones before it", PY + """
import re
r = random.Random(1)
root, log = drive([line([(r.random(), r.random()) for _ in range(4)]) for _ in range(2)], 4, ["--range_instances", "1-2", "--num_nodes", "4"], solver='cp "$1" "$2"; sleep 2')
t = [float(re.search("Time taken: ([0-9.]+)s", open(root + "/results/AdjacencyMatrix/tsp_4_nodes_classic/tsp_result_%d.txt" % i).read())[1]) for i in (1, 2)]
if t[1] > t[0] + 1.5: fail("times %s" % t)
print("ok")
""")
seed("p03-stale-temp", "C26",
     [(DRV, "    with open(filepath, 'w+') as file:\n        file.writelines(str_grap)\n        file.flush()\n        os.fsync(file.fileno())\n\n\ndef get_nodes",
       "    if not os.path.exists(filepath):\n        with open(filepath, 'w+') as file:\n            file.writelines(str_grap)\n            file.flush()\n            os.fsync(file.fileno())\n\n\ndef get_nodes"),
      (DRV, "        if hyb_mode:\n            os.remove(", "        if hyb_mode and i == end_instance:\n            os.remove(")],
     "hybrid mode on more than one instance", "the network gets the first instance for all of them", PY + """
r = random.Random(1)
ls = [line([(r.random(), r.random()) for _ in range(4)]) for _ in range(2)]
root, log = drive(ls, 4, ["--range_instances", "1-2", "--num_nodes", "4", "--hybrid"], network='cat data/hyb_tsp/test_4_nodes_temp.txt >>$LOG; echo net >"$2"')
if log != "".join(ls): fail("the network got\\n" + log)
print("ok")
""")
seed("p04-twelve-characters", "C27",
     [(NET + "main.py", ".astype('U')", ".astype('U12')")],
     "a probability printed with an exponent", "the exponent is cut off, tiny probabilities become large", PY + """
import main
n = 4
r = np.random.RandomState(1)
p = (10.0 ** -r.uniform(5, 9, (1, n, n))).astype(np.float32)
pts = [(r.rand(), r.rand()) for _ in range(n)]
D = np.array([[[math.dist(a, b) for a in pts] for b in pts]], dtype=np.float32)
main.write_adjacency_matrix(None, mt.Tensor(p), mt.Tensor(D), [c for q in pts for c in q], "out.csv", n)
rows = [[tuple(map(float, c.strip("() ").split(","))) for c in l.strip().strip(";").split(";")] for l in open("out.csv").read().split("\\n")[1:] if l.strip()]
for i in range(n):
    for j in range(n):
        if abs(rows[i][j][1] - p[0, i, j]) > 1e-5: fail("probability %r written for %r" % (rows[i][j][1], p[0, i, j]))
print("ok")
""")
seed("p05-rounded-medoids", "C27",
     [(NET + "main.py", 'f"{x} {y}" for x, y in medoids', 'f"{x:.6f} {y:.6f}" for x, y in medoids')],
     "an instance larger than the network", "the medoids are no longer recognised as cities of the instance", PY + """
import main
r = random.Random(1)
pts = [[r.random(), r.random()] for _ in range(9)]
mt.KMEDOIDS[0] = lambda x, k: r.sample(range(len(x)), k)
s, labels = main.cluster_nodes(pts, 5)
v = [float(x) for x in s.split()]
for q in zip(v[::2], v[1::2]):
    if list(q) not in pts: fail("%r is no city" % (q,))
print("ok")
""")
seed("p06-dummy-turn", "C28",
     [(NET + "main.py", "rr_index = (rr_index + 1) % num_nodes", "rr_index = (rr_index + 1) % (num_nodes - 1)")],
     "an instance at most half as large as the network", "the last city is never copied, others too often", PY + """
import main
r = random.Random(1)
os.makedirs("data/hyb_tsp")
n, m = 4, 11
pts = [(r.random(), r.random()) for _ in range(n)]
open("data/hyb_tsp/test_4_nodes_temp.txt", "w").write(line(pts))
main.add_dummy_cities(n, m)
v = [float(x) for x in open("data/hyb_tsp/test_4_nodes_temp.txt").read().split(" output")[0].split()]
q = list(zip(v[::2], v[1::2]))
for k in range(m):
    if math.dist(q[k], pts[k % n]) > 1e-12: fail("copy %d of the wrong city" % k)
print("ok")
""")
seed("p07-one-neighbour-less", "C29",
     [(NET + "utils/google_tsp_reader.py", "axis=-1)[:, self.num_neighbors::-1]", "axis=-1)[:, self.num_neighbors - 1::-1]")],
     "a number of neighbours other than -1", "the graph has one neighbour less per node", PY + """
from utils.google_tsp_reader import GoogleTSPReader
r = random.Random(1)
open("t.txt", "w").write(line([(r.random(), r.random()) for _ in range(8)]))
for k in (1, 2, 3, 5):
    b = next(iter(GoogleTSPReader(8, k, 1, "t.txt")))
    if not (np.asarray(b.edges)[0] == 1).sum(axis=1).tolist() == [k] * 8: fail("%d neighbours: %s" % (k, b.edges))
print("ok")
""")
seed("p08-valid-tour", "C30",
     [(NET + "utils/graph_utils.py", "return sorted(nodes) == [i for i in range(num_nodes)]", "return set(nodes) == set(range(num_nodes))")],
     "a list that visits a node twice", "a list with a repeated node passes for a tour", PY + """
from utils.graph_utils import is_valid_tour
if is_valid_tour([0, 1, 2, 1, 3], 4): fail("[0, 1, 2, 1, 3] is no tour")
if not is_valid_tour([2, 0, 1], 3): fail("[2, 0, 1] is a tour")
print("ok")
""")
seed("p09-gate-dimension", "C31",
     [(NET + "models/gcn_layers.py", "torch.sum(gateVx, dim=2) / (1e-20 + torch.sum(edge_gate, dim=2))", "torch.sum(gateVx, dim=2) / (1e-20 + torch.sum(edge_gate, dim=1))")],
     "aggregation by mean over a graph whose edges are not the same in both directions (k nearest neighbours)", "the gates are normalised over the wrong nodes", PY + """
from models.gcn_layers import NodeFeatures
r = np.random.RandomState(1)
l = NodeFeatures(3, "mean")
for _, p in l.named_parameters(): p.a[...] = r.uniform(-1, 1, p.a.shape)
x, g = r.rand(1, 4, 3), r.rand(1, 4, 4, 3)
y = mt.raw(l(mt.Tensor(x), mt.Tensor(g)))
P = dict((k, p.a) for k, p in l.named_parameters())
U, V = x @ P["U.weight"].T + P["U.bias"], x @ P["V.weight"].T + P["V.bias"]
z = U + (g * V[:, None]).sum(axis=2) / g.sum(axis=2)
if np.abs(y - z).max() > 1e-4: fail("node features %s, expected %s" % (y, z))
print("ok")
""")
seed("p10-mask-order", "C32",
     [(NET + "utils/beamsearch.py", "        self.mask = self.mask.gather(1, perm_mask)\n", "")],
     "a beam wider than one in which hypotheses change their places", "tours of the beam visit nodes twice", PY + """
from utils.model_utils import beamsearch_tour_nodes
r = np.random.RandomState(1)
for k in range(60):
    n = 5
    t = mt.raw(beamsearch_tour_nodes(mt.Tensor(r.normal(0, 2, (1, n, n, 2)).astype(np.float32)), 6, 1, n, mt.FloatTensor, mt.LongTensor))
    if sorted(t[0].tolist()) != list(range(n)): fail("no tour: %s" % t)
print("ok")
""")
REPORT = '''
FINAL BRANCH-AND-BOUND STATISTICS
Final cycle
SUBPROBLEM with cost = %(cost)s, type = CLOSED_NEAREST_NEIGHBOR, level of the BB tree = 0, prob_tour = 0.5, BBNode number = 1 and time to obtain = 0.100000s, edge to branch = -1
B-&-B tree with generated BBNodes = 3, explored BBNodes = 3 and max tree level = 2
First subproblem found, candidate node = 1, elapsed time = 0.200000s and interrupted = FALSE
Time taken: 1.5s
'''
seed("p11-long-ids", "C33",
     [(ANA, "inst_id = int(filename.split('result_')[1])", "inst_id = int(filename.split('result_')[1][:3])")],
     "instances numbered 1000 and above", "results of different instances are merged", PY + "REPORT = %r" % REPORT + """
a = analyzer()
os.makedirs("res")
for i in (7, 100, 1000, 1007): open("res/tsp_result_%d.txt" % i, "w").write(REPORT % dict(cost="%d.500000" % i))
s = a.read_values("res")
if s["best_value"] != {7: 7.5, 100: 100.5, 1000: 1000.5, 1007: 1007.5}: fail(s["best_value"])
print("ok")
""")
seed("p12-strictly-before", "C34",
     [(ANA, "            for solution in cla_solutions[key][1]:\n                if solution[1] <= time:", "            for solution in cla_solutions[key][1]:\n                if solution[1] < time:")],
     "an improvement of the classic mode at one of the times of the profile", "improvements of the classic mode count too late", PY + """
a = analyzer()
a.improvement_profile({1: (1, [(5.0, 2.0)])}, {1: (1, [(4.0, 1.0)])}, 4, TMP)
d = [x for x in Frame.made if x][-1]
if d["Classic"] != [1.0, 1.0] or d["Hybrid"] != [0.0, 0.0]: fail(d)
print("ok")
""")
seed("p13-mean-of-all", "C34",
     [(ANA, '"cla_mean": np.mean(values_cla),', '"cla_mean": np.mean(list(stats_cla.values())),')],
     "instances that only the classic mode has finished", "the mean of the classic mode covers instances that the other mode lacks", PY + """
a = analyzer()
r = random.Random(1)
h = {i: r.random() for i in range(12)}
c = {i: r.random() for i in range(12)}
c[50] = 1e6
s = a.significance_test(h, c)
if s["cla_mean"] > 1: fail(s)
print("ok")
""")
seed("p14-appended-report", "C37",
     [(M + "main.c", 'freopen(output_file, "w+", stdout);', 'freopen(output_file, "a+", stdout);')],
     "a second run on the same instance", "the report of the earlier run stays in front", OPT + """
exe = build(5)
rng = random.Random(1)
out = os.path.join(TMP, "o.txt")
for k in range(2):
    subprocess.run([exe, write(euclid(rng, 5)), out], check=True, cwd=TMP)
if open(out).read().count("interrupted = ") != 1: fail("two reports in one file")
print("ok")
""")
seed("p15-first-tour-node", "C38",
     [(NET + "data/generate_tsp_concorde.py", "str(solution.tour[0]+1)", "str(1)")],
     "a tour that does not start at the first node", "the tour is not closed", PY + """
import runpy
from importlib import import_module
c, t = types.ModuleType("concorde"), types.ModuleType("concorde.tsp")
class S: tour = np.array([2, 0, 1])
class TSPSolver:
    from_data = classmethod(lambda cls, *a, **k: cls())
    def solve(self, *a, **k): return S()
t.TSPSolver = TSPSolver
c.tsp = t
sys.modules["concorde"], sys.modules["concorde.tsp"] = c, t
sys.argv = ["g", "--num_samples", "3", "--num_nodes", "3", "--filename", "o.txt"]
sys.modules.setdefault("pandas", types.ModuleType("pandas"))
runpy.run_path(os.path.join(GCN, "data", "generate_tsp_concorde.py"), run_name="__main__")
for l in open("o.txt"):
    if l.split("output")[1].split() != ["3", "1", "2", "3"]: fail(l)
print("ok")
""")
seed("p16-blank-line", "C36",
     [("src/CplexSolver/Data/TSPLIB/converter_tsp_to_dat.py", "                if len(values) == 3:", "                if len(values) == 3 and int(values[0]) == len(nodes_coord) + 1 and values[1].isdigit() == values[2].isdigit():")],
     "a node one of whose coordinates is whole and the other is not", "the node is left out", PY + """
m = module(os.path.join(ROOT, "src", "CplexSolver", "Data", "TSPLIB", "converter_tsp_to_dat.py"))
open("a.tsp", "w").write("NAME: a\\nTYPE: TSP\\nDIMENSION: 3\\nEDGE_WEIGHT_TYPE: EUC_2D\\nNODE_COORD_SECTION\\n1 0 0\\n2 3 4.5\\n3 1 1\\nEOF\\n")
m.convert_custom_euclidean("a.tsp", "a.dat")
if not open("a.dat").read().startswith("n=3;"): fail(open("a.dat").read())
print("ok")
""")
seed("p17-table-column", "C35",
     [(ANA, '                    table = modify_string(table, line, "bbnbb", perc_id)', '                    table = modify_string(table, line, "bbnbb", j)')],
     "the second and third sizes of a table", "figures end up in the columns of another size", PY + """
a = analyzer()
sizes = [20, 50, 100, 35, 75, 150]
keys = ["total_time", "time_bb", "time_to_best", "generate_bbnodes", "explored_bbnodes", "bbnodes_before_best", "total_tree_level", "best_level", "prob_best", "best_value"]
for q, s in enumerate(sizes):
    d = "mean_results/%d_nodes" % s
    os.makedirs(d)
    with open(d + "/mean_results.txt", "w") as f:
        f.write("Resolved Instances 99.0% 0 98.0% 0 -\\nClosed NN 1.0% 0 2.0% 0 -\\nClosed NN Hybrid 3.0% 0 0.0% 0 -\\n")
        for k, key in enumerate(keys): f.write("%s %d.25 0.5 %d.75 0.5 0.5\\n" % (key, 1000 * q + k, 1000 * q + k + 500))
a.create_tables()
for f in ("exact_table.tex", "heur_table.tex"):
    t = open("mean_results/" + f).read()
    for l in t.split("\\n"):
        if "before best" in l and "bbnbb" in l: fail(l)
print("ok")
""")
