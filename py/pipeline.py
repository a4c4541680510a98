"""C37: the whole pipeline - driver, CMake build, network stage, solver, analyzer - on generated instance files."""
import itertools
import json
import math
import os
import random
import re
import shutil
import subprocess
import sys

import common
from common import Check, HarnessError, SRC, Violation, called, need, scratch, st
import results

HERE = os.path.dirname(os.path.abspath(__file__))


def optimum(d):
    n = len(d)
    best = {(1 << k, k): d[0][k] for k in range(1, n)}
    for size in range(2, n):
        nxt = {}
        for (mask, k), v in best.items():
            for j in range(1, n):
                if not mask >> j & 1:
                    key = (mask | 1 << j, j)
                    if v + d[k][j] < nxt.get(key, math.inf):
                        nxt[key] = v + d[k][j]
        best = nxt
    return min(v + d[k][0] for (m, k), v in best.items())


def coords(n, seed, style):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        if style == 0:
            p = [r.random(), r.random()]
        elif style == 1:
            p = [round(r.random(), 2), round(r.random(), 2)]
        elif style == 2:
            p = [r.choice([0.0, 0.25, 0.5, 1.0]), r.choice([0.0, 0.5, 0.75, 1.0])]
        else:
            p = [r.random() * 10 ** r.randint(-7, 0), r.random() * 10 ** r.randint(-7, 0)]
        if p not in out:
            out.append(p)
    return out


class Pipeline(Check):
    cases = (6, 90)
    rule = "at least one instance of at least five nodes was solved in hybrid mode"

    def prepare(self):
        self.an = results.load(results.ANALYZER, "analyzer")

    def strategy(self, tier):
        run = st.fixed_dictionaries(dict(again=st.integers(0, 3), n=st.integers(4, 9 if tier == "quick" else 11), hybrid=st.sampled_from([True, True, False]), lo=st.integers(0, 3), more=st.integers(0, 3)))
        return st.fixed_dictionaries(dict(runs=st.lists(run, min_size=1, max_size=3), seed=st.integers(0, 10 ** 6), style=st.integers(0, 3), tail=st.booleans()))

    def run(self, case):
        with scratch() as root:
            for part in ("CMakeLists.txt", "test", "main"):
                src = os.path.join(SRC, part)
                if os.path.isdir(src):
                    shutil.copytree(src, os.path.join(root, part), ignore=shutil.ignore_patterns("data", "__pycache__", "*.csv", "cmake-build*"))
                else:
                    shutil.copy(src, root)
            # the ignore pattern must not lose sources
            main = os.path.join(root, "main")
            gcn = os.path.join(main, "graph-convnet-tsp")
            hyb = os.path.join(gcn, "data", "hyb_tsp")
            os.makedirs(hyb)
            cfg = json.load(open(os.path.join(common.GCN, "configs", "tsp20.json")))
            os.makedirs(os.path.join(gcn, "logs", "tsp20"))
            json.dump(dict(cfg, hidden_dim=4, num_layers=2, mlp_layers=2), open(os.path.join(gcn, "logs", "tsp20", "config.json"), "w"))
            os.makedirs(os.path.join(root, "bin"))
            py = os.path.join(root, "bin", "python3")
            open(py, "w").write('#!/bin/sh\nexec python3-vt "%s" "$@"\n' % os.path.join(HERE, "netmain.py"))
            os.chmod(py, 0o755)
            env = dict(os.environ, PATH=os.path.join(root, "bin") + ":" + os.environ["PATH"], VF_NET_SEED=str(case["seed"]), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            nontrivial, labels = False, []
            made = {}
            for k, r in enumerate(case["runs"]):
                if k and r["again"]:           # the same kind of run on other instances: its files are there already
                    r = dict(r, n=case["runs"][0]["n"], hybrid=case["runs"][0]["hybrid"] ^ (r["again"] == 3))
                n, lo = r["n"], r["lo"]
                hi = max(1, lo) + r["more"]
                pts = {i: coords(n, case["seed"] * 10000 + 1000 * k + 10 * n + i, case["style"]) for i in range(1, 8)}
                with open(os.path.join(hyb, "test_%d_nodes.txt" % n), "w") as f:
                    for i in sorted(pts):
                        t = list(range(1, n + 1))
                        f.write(" ".join("%r %r" % tuple(p) for p in pts[i]) + (" output " + " ".join(map(str, t + [1])) if case["tail"] or r["hybrid"] else "") + "\n")
                cmd = ["python3-vt", "HybridSolver.py", "--range_instances", "%d-%d" % (lo, hi), "--num_nodes", str(n)] + (["--hybrid"] if r["hybrid"] else [])
                what = "run %d (%s)" % (k + 1, " ".join(cmd[1:]))
                try:
                    p = subprocess.run(cmd, cwd=main, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=240)
                except subprocess.TimeoutExpired:
                    raise Violation("%s did not end within 240 s" % what)
                if "Unsupported" in p.stdout and "stand-in" in p.stdout:
                    raise HarnessError(p.stdout[-1500:])
                need(p.returncode == 0, "%s ended with status %d:\n%s" % (what, p.returncode, p.stdout[-1500:]))
                mode = "hybrid" if r["hybrid"] else "classic"
                folder = os.path.join(root, "results", "AdjacencyMatrix", "tsp_%d_nodes_%s" % (n, mode))
                made.setdefault(folder, set()).update(range(max(1, lo), hi + 1))
                for i in range(max(1, lo), hi + 1):
                    f = os.path.join(folder, "tsp_result_%d.txt" % i)
                    need(os.path.exists(f), "%s: no result for instance %d" % (what, i))
                    self.check_result(what, n, r["hybrid"], i, pts[i], open(f).read(),
                                      open(os.path.join(root, "data", "AdjacencyMatrix", "tsp_%d_nodes" % n, "tsp_test_%d.csv" % i)).read())
                nontrivial |= r["hybrid"] and n >= 5
                labels += [mode, "n=%d" % n]
            for folder, ids in made.items():
                got = called("read_values", self.an.read_values, folder)
                need(sorted(got["total_time"]) == sorted(ids), "the analyzer reads the instances %s of %s" % (sorted(got["total_time"]), sorted(ids)))
            return nontrivial, labels + ["runs: %d" % len(case["runs"])]

    def check_result(self, what, n, hybrid, i, pts, text, csv):
        where = "%s, instance %d" % (what, i)
        d = [[math.dist(a, b) for b in pts] for a in pts]
        need(text.count("interrupted = ") == 1, where + ": %d reports in one file" % text.count("interrupted = "))
        need("interrupted = FALSE" in text, where + ": the search did not finish:\n" + text[:600])
        m = re.search(r"with cost = ([0-9.eE+-]+)", text)
        need(m, where + ": no cost in the report")
        cost = float(m[1])
        m = re.search(r"Cycle with (\d+) edges:([^\n]*)", text)
        need(m and int(m[1]) == n, where + ": no tour of %d edges in the report" % n)
        edges = [tuple(int(v) for v in e.split("<->")) for e in m[2].split(",") if e.strip()]
        need(len(edges) == n, where + ": %d edges are listed" % len(edges))
        adj = {v: [] for v in range(n)}
        for a, b in edges:
            need(a in adj and b in adj and a != b, where + ": edge %d-%d" % (a, b))
            adj[a].append(b)
            adj[b].append(a)
        need(all(len(v) == 2 for v in adj.values()), where + ": not a tour: %s" % edges)
        seen, at, prev = 1, adj[0][0], 0
        while at != 0:
            prev, at = at, [x for x in adj[at] if x != prev][0] if adj[at][0] != adj[at][1] else prev
            seen += 1
            if seen > n:
                break
        need(seen == n, where + ": not one tour: %s" % edges)
        length = sum(d[a][b] for a, b in edges)
        need(abs(length - cost) <= 2e-6 * n + 1e-6 * length, where + ": the tour %s of the instance's nodes has length %.9f, the report says %.9f" % (edges, length, cost))
        opt = optimum(d)
        tol = 1.27 * math.sqrt(n) / 1000
        need(length <= opt + tol + 1e-5, where + ": the tour has length %.9f, the shortest one %.9f" % (length, opt))
        listed = [(int(a), float(b), float(c)) for a, b, c in re.findall(r"(?m)^\s*(\d+) : (\S+) (\S+)\s*$", text.split("Nodes:")[-1])]
        need(listed == [(k, p[0], p[1]) for k, p in enumerate(pts)], where + ": the nodes listed are not the instance's")
        rows = [l for l in csv.split("\n") if l.strip()][1:]
        probs = [[float(f.strip("() ").split(",")[1]) for f in l.split(";") if f.strip()] for l in rows]
        m = re.search(r"prob_tour = ([0-9.eE+-]+)", text)
        lo = sum(min(probs[a][b], probs[b][a]) for a, b in edges) / n
        hi = sum(max(probs[a][b], probs[b][a]) for a, b in edges) / n
        if not hybrid:
            lo = hi = 0
        need(m and lo - 2e-6 <= float(m[1]) <= hi + 2e-6, where + ": prob_tour = %s, the mean probability of the tour's edges is %.9f" % (m and m[1], hi))
        m = re.search(r"Time taken: ([0-9.]+)s", text)
        bb = float(re.search(r"elapsed time = ([0-9.]+)s", text)[1])
        need(m and float(m[1]) + 0.05 >= 0.5 * bb, where + ": time taken %s, the search alone took %s" % (m and m[1], bb))


if __name__ == "__main__":
    common.main({"C37": Pipeline})
