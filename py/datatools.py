"""C38: the scripts that make and split the instance files (with a stand-in for Concorde), and the settings."""
import json
import math
import os
import random
import runpy
import sys
import types

import numpy as np

import common
from common import Check, GCN, Violation, bounded, called, need, quiet, scratch, st
import minitorch as mt

mt.install()
DATA = os.path.join(GCN, "data")


class Solution:
    pass


class FakeConcorde:
    """concorde.tsp and concorde.concorde: returns a tour chosen by the check and remembers what it was given."""

    def __init__(self):
        self.seen, self.rng = [], random.Random(0)

    def answer(self, xs, ys):
        xs, ys = [float(x) for x in xs], [float(y) for y in ys]
        t = list(range(len(xs)))
        self.rng.shuffle(t)
        s = Solution()
        s.tour, s.found_tour, s.success, s.optimal_value = np.array(t), True, True, 0.0
        s.running_time, s.bb_nodes = self.rng.randint(0, 1000) / 8, self.rng.randint(1, 99)
        self.seen.append((xs, ys, t, s.running_time, s.bb_nodes))
        return s

    def install(self):
        world = self

        class TSPSolver:
            @classmethod
            def from_data(cls, xs=None, ys=None, norm="GEO", name=None):
                o = cls()
                o.d = (list(xs), list(ys))
                return o

            def solve(self, *a, **k):
                return world.answer(*self.d)

        class Problem:
            @classmethod
            def from_coordinates(cls, xs, ys, norm="GEO", name=None):
                o = cls()
                o.d = (list(xs), list(ys))
                return o

        class Concorde:
            def solve(self, problem, **k):
                return world.answer(*problem.d)
        c, a, b, e = (types.ModuleType(n) for n in ("concorde", "concorde.tsp", "concorde.problem", "concorde.concorde"))
        a.TSPSolver, b.Problem, e.Concorde = TSPSolver, Problem, Concorde
        c.tsp, c.problem, c.concorde = a, b, e
        sys.modules.update({"concorde": c, "concorde.tsp": a, "concorde.problem": b, "concorde.concorde": e})


def script(name, args, what):
    old = sys.argv
    sys.argv = [name] + [str(a) for a in args]
    try:
        called(what, runpy.run_path, os.path.join(DATA, name), run_name="__main__")
    finally:
        sys.argv = old


class DataTools(Check):
    cases = (800, 8000)
    rule = "at least two instances on both sides of the split"

    def prepare(self):
        sys.modules.setdefault("pandas", types.ModuleType("pandas"))
        sys.path.insert(0, GCN)
        import config
        from utils.google_tsp_reader import GoogleTSPReader
        self.config, self.reader = config, GoogleTSPReader

    def strategy(self, tier):
        key = st.sampled_from(["expt_name", "num_nodes", "hidden_dim", "batch_size", "beam_size", "num_layers", "aggregation", "new_key"])
        val = st.one_of(st.integers(-1, 10 ** 6), st.sampled_from(["mean", "sum", "tsp50", ""]), st.floats(0, 1))
        return st.fixed_dictionaries(dict(n=st.integers(3, 12), samples=st.integers(1, 12), val=st.integers(0, 14), seed=st.integers(0, 10 ** 6), named=st.booleans(),
                                          conf=st.dictionaries(key, val, max_size=6), setk=key, setv=val))

    def run(self, case):
        n, S, V = case["n"], case["samples"], case["val"]
        world = FakeConcorde()
        world.rng.seed(case["seed"])
        world.install()
        np.random.seed(case["seed"] % (2 ** 31))
        mt.SHUFFLE.seed(case["seed"])
        with scratch():
            f = "all.txt" if case["named"] else "tsp%d_concorde.txt" % n
            extra = ["--filename", f] if case["named"] else []
            script("generate_tsp_concorde.py", ["--num_samples", S, "--num_nodes", n] + extra, "generate_tsp_concorde.py")
            made = list(world.seen)
            need(len(made) == S, "%d instances were solved, %d were asked for" % (len(made), S))
            need(os.path.exists(f), "the instances are not in %s" % f)
            lines = open(f).read().split("\n")
            need(lines[-1] == "" and len(lines) == S + 1, "%d lines for %d instances" % (len(lines) - 1, S))
            for (xs, ys, t, _, _), l in zip(made, lines):
                left, _, right = l.partition(" output ")
                need([float(x) for x in left.split(" ")] == [c for p in zip(xs, ys) for c in p], "the nodes in the file are not those that were solved")
                need(len(xs) == n and all(0 <= c < 1 for c in xs + ys), "nodes outside the unit square")
                need([int(x) for x in right.split()] == [k + 1 for k in t + t[:1]], "tour %s was written as %s" % (t, right))
            # read back
            b = called("reading the file", lambda: list(iter(self.reader(n, -1, 1, f))))
            need(len(b) == S, "%d of %d instances read back" % (len(b), S))
            for x in b:
                k = [k for k, m in enumerate(made) if list(m[0]) == x.nodes_coord[0][:, 0].tolist()]
                need(len(k) == 1 and x.tour_nodes[0].tolist() == made[k[0]][2], "an instance is not read back as it was made")
            # split
            before = open(f).read()
            script("split_train_val.py", ["--num_nodes", n, "--val_size", V] + extra, "split_train_val.py")
            val, train = open("tsp%d_val_concorde.txt" % n).read(), open("tsp%d_train_concorde.txt" % n).read()
            need(open(f).read() == before, "the split changed its input")
            need(val + train == before and val.count("\n") == min(V, S), "%d instances split at %d: %d for validation and %d for training" % (S, V, val.count("\n"), train.count("\n")))
            # solve again
            world.seen.clear()
            script("pyconcorde_solver.py", [f], "pyconcorde_solver.py")
            need([s[:2] for s in world.seen] == [m[:2] for m in made], "Concorde was given other nodes than the file holds")
            out = open("results.txt").read().split("\n")
            need(len(out) == S + 1, "%d results for %d instances" % (len(out) - 1, S))
            for k, (xs, ys, t, sec, nodes) in enumerate(world.seen):
                head, _, body = out[k].partition(": ")
                need(head == "Result of instance %d" % k, "line %d of the results is %r" % (k, out[k][:80]))
                nums = [float(x) for x in body.replace("np.float64(", "").replace("array(", "").replace(")", "").replace("[", " ").replace("]", " ").replace(",", " ").split()]
                d = sum(math.dist((xs[a], ys[a]), (xs[c], ys[c])) for a, c in zip(t, t[1:] + t[:1]))
                need(nums[:n] == t and nums[n:n + 2] == [sec, nodes] and abs(nums[n + 2] - d) <= 1e-9, "result %d is %r; tour %s, %s s, %s nodes, length %r" % (k, body, t, sec, nodes, d))
            # settings
            os.makedirs("configs")
            default = json.load(open(os.path.join(GCN, "configs", "default.json")))
            json.dump(default, open("configs/default.json", "w"))
            json.dump(case["conf"], open("c.json", "w"))
            c = called("get_config", self.config.get_config, "c.json")
            want = dict(default, **case["conf"])
            need(dict(c) == want and all(getattr(c, k) == want[k] for k in want), "the settings are %s, expected %s" % (dict(c), want))
            setattr(c, case["setk"], case["setv"])
            need(c[case["setk"]] == case["setv"] and getattr(c, case["setk"]) == case["setv"], "a setting that was set has another value")
            need(dict(called("get_default_config", self.config.get_default_config)) == default, "the default settings changed")
        return S > V > 1 and S - V > 1, ["split inside" if 0 < V < S else "split at an end", "own file name" if case["named"] else "default file name"]


if __name__ == "__main__":
    common.main({"C38": DataTools})
