"""C27-C31: the neural stage (main.py, reader, utilities, network, beam search) on a numpy stand-in for PyTorch."""
import itertools
import json
import math
import os
import random
import re
import sys

import numpy as np

import common
from common import Check, GCN, HarnessError, Violation, called, need, scratch, st
import minitorch as mt

torch = mt.install()
common.SEEDS.extend([mt.RNG.seed, mt.SHUFFLE.seed])


def load():
    sys.path.insert(0, GCN)
    for k in list(sys.modules):
        if k in ("main", "config") or k.split(".")[0] in ("utils", "models"):
            del sys.modules[k]


def points(n, seed, style, distinct=False):
    r = random.Random(seed)
    out = []
    while len(out) < n:
        if style == 0:
            p = [r.random(), r.random()]
        elif style == 1:
            p = [round(r.random(), r.choice([1, 2, 6, 12])), round(r.random(), r.choice([1, 2, 6, 12]))]
        elif style == 2:
            p = [r.choice([0.0, 1.0, 0.5, r.random()]), r.choice([0.0, 1.0, 0.25, r.random()])]
        else:
            p = [r.random() * 10 ** r.randint(-6, 0), r.random() * 10 ** r.randint(-6, 0)]
        if distinct and p in out:
            continue
        out.append(p)
    return out


def instance_line(pts, tour, tail, newline):
    s = " ".join("%r %r" % (x, y) for x, y in pts)
    return s + " output " + " ".join(str(t + 1) for t in tour + tour[:1]) + (" " if tail else "") + ("\n" if newline else "")


def some_tour(n, seed):
    t = list(range(n))
    random.Random(seed).shuffle(t)
    return t


def number(what, f, *a):
    """Calls the code under test for a number."""
    v = called(what, f, *a)
    try:
        return float(mt.raw(v))
    except (TypeError, ValueError):
        raise Violation("%s returned %r instead of a number" % (what, v)) from None


class Stage(Check):
    """main(filepath, num_nodes, model_size) with a recorded network: what the network gets, what the file holds."""
    cases = (800, 10000)

    def prepare(self):
        load()
        import main
        import models.gcn_model as gm
        self.main = main
        self.net = gm.ResidualGatedGCNModel

    def strategy(self, tier):
        size = st.one_of(st.integers(3, 9), st.sampled_from([20, 20, 21]) if tier == "thorough" else st.sampled_from([12]))
        return st.fixed_dictionaries(dict(
            size=size, rel=st.sampled_from(["less", "less", "equal", "more", "more"]), delta=st.integers(1, 12), seed=st.integers(0, 10 ** 6),
            style=st.integers(0, 3), tail=st.booleans(), newline=st.booleans(), logits=st.integers(0, 4), rows=st.integers(1, 3)))

    def sizes(self, case):
        m = case["size"]
        if case["rel"] == "less":
            return m, max(2, m - case["delta"])
        if case["rel"] == "more":
            return m, m + case["delta"]
        return m, m

    def go(self, case):
        m, n = self.sizes(case)
        pts = points(n, case["seed"], case["style"], distinct=n > m)
        r = random.Random(case["seed"] + 1)
        k = case["logits"]
        if k == 0:
            z = [[[r.gauss(0, 1), r.gauss(0, 1)] for _ in range(m)] for _ in range(m)]
        elif k == 1:
            z = [[[r.gauss(0, 12), r.gauss(0, 12)] for _ in range(m)] for _ in range(m)]
        elif k == 2:                          # probabilities near 0, of all magnitudes
            z = [[[r.uniform(0, 30), 0.0] for _ in range(m)] for _ in range(m)]
        elif k == 3:
            z = [[[r.choice([0.0, 1.0, 5.0]), r.choice([0.0, 1.0, 10.0])] for _ in range(m)] for _ in range(m)]
        else:
            z = [[[0.0, r.uniform(0, 30)] for _ in range(m)] for _ in range(m)]
        z = np.array(z, dtype=np.float32)
        rec = {}
        np.random.seed(case["seed"] % (2 ** 31))
        mt.SHUFFLE.seed(case["seed"])
        med = random.Random(case["seed"] + 2)
        mt.KMEDOIDS[0] = lambda x, kk: med.sample(range(len(x)), kk)
        temp = os.path.join("data", "hyb_tsp", "test_%d_nodes_temp.txt" % n)

        def forward(net, x_edges, x_edges_values, x_nodes, x_nodes_coord, y_edges, edge_cw):
            if "coord" in rec:
                raise Violation("the network was run twice on one instance")
            rec.update(edges=mt.raw(x_edges).copy(), values=mt.raw(x_edges_values).copy(), nodes=mt.raw(x_nodes).copy(), coord=mt.raw(x_nodes_coord).copy(),
                       temp=open(temp).read(), training=net.training, targets=mt.raw(y_edges).copy())
            return mt.Tensor(z[None].copy()), mt.Tensor(np.float32(0))
        with scratch():
            os.makedirs("data/hyb_tsp")
            os.makedirs("configs")
            os.makedirs("logs/tsp%d" % m)
            json.dump(json.load(open(os.path.join(GCN, "configs", "default.json"))), open("configs/default.json", "w"))
            default = json.load(open(os.path.join(GCN, "configs", "tsp20.json")))
            json.dump(dict(default, expt_name="tsp%d" % m, num_nodes=m, hidden_dim=4, num_layers=1, mlp_layers=2), open("logs/tsp%d/config.json" % m, "w"))
            line = instance_line(pts, some_tour(n, case["seed"]), case["tail"], case["newline"])
            open(temp, "w").write(line)
            old = self.net.forward
            self.net.forward = forward
            net = mt.DataParallel(self.net(_cfg(default, m), mt.FloatTensor, mt.LongTensor))
            mt.CHECKPOINT.clear()
            mt.CHECKPOINT["logs/tsp%d/best_val_checkpoint.tar" % m] = {"model_state_dict": {k: mt.Tensor(np.zeros_like(p.a)) for k, p in net.named_parameters()}}
            try:
                called("main.py on %d nodes with the model of size %d" % (n, m), self.main.main, os.path.abspath("out.csv"), n, m)
            finally:
                self.net.forward = old
            need("coord" in rec, "the network was never run")
            need(os.path.exists("out.csv"), "no matrix file was written")
            text = open("out.csv").read()
        p = np.exp(z - z.max(axis=2, keepdims=True))
        return m, n, pts, line, rec, text, (p / p.sum(axis=2, keepdims=True))[:, :, 1]


def _cfg(default, m):
    import config
    c = config.Settings(dict(default))
    c.update(num_nodes=m, hidden_dim=4, num_layers=1, mlp_layers=2)
    return c


def parse(text, n):
    lines = text.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    head = [f for f in lines[0].split(";") if f.strip()]
    need(all(re.fullmatch(r"\([^(),]+, ?[^(),]+\)", f.strip()) for f in head), "malformed node in the first line: %r" % lines[0][:200])
    nodes = [[float(x) for x in f.strip()[1:-1].split(",")] for f in head]
    need(len(nodes) == n, "the file lists %d nodes, the instance has %d" % (len(nodes), n))
    need(len(lines) == n + 1, "the matrix has %d rows, the instance %d nodes" % (len(lines) - 1, n))
    mat = []
    for i, l in enumerate(lines[1:]):
        row = [f for f in l.split(";") if f.strip()]
        need(len(row) == n, "row %d has %d entries, the instance %d nodes" % (i, len(row), n))
        for f in row:
            need(re.fullmatch(r"\([^(),]+, [^(),]+\)", f), "malformed entry %r in row %d" % (f, i))
        mat.append([[float(x) for x in f[1:-1].split(",")] for f in row])
    return nodes, mat


class MatrixFile(Stage):
    rule = "the instance does not have the size of the network, or some probability is written in exponent notation"

    def run(self, case):
        m, n, pts, _, rec, text, P = self.go(case)
        nodes, mat = parse(text, n)
        need(nodes == pts, "the nodes in the file are not those of the instance in their order: %s, expected %s" % (nodes[:6], pts[:6]))
        if n > m:
            seen = [[float(c) for c in l.split()] for l in [rec["temp"].split(" output")[0]]][0]
            seen = [seen[k:k + 2] for k in range(0, len(seen), 2)]
            where = [None] * n
            for k, c in enumerate(seen):       # the city that the network's k-th node stands for
                where[min(range(n), key=lambda i: math.dist(c, pts[i]))] = k
        for i in range(n):
            for j in range(n):
                d, p = mat[i][j]
                e = math.dist(pts[i], pts[j])
                need(abs(d - e) <= 3e-7 * e + 1e-12, "distance %d-%d is written as %r, it is %r" % (i, j, d, e))
                if i == j:
                    continue
                need(0 <= p <= 1, "probability %d-%d is %r" % (i, j, p))
                if n <= m:
                    want = max(float(P[i, k]) for k in range(j, m, n))
                    why = "the greatest over the copies %s of node %d" % (list(range(j, m, n)), j)
                elif where[i] is None or where[j] is None:
                    want, why = 0.0, "one of them was not seen by the network"
                else:
                    want, why = float(P[where[i], where[j]]), "the network's"
                need(abs(p - want) <= 2e-6 * want + 1e-30, "nodes %d, %d of %d (model %d): probability %r in the file, expected %r (%s)" % (i, j, n, m, p, want, why))
        exponent = bool(re.search(r", [0-9.]+e-", text))
        return n != m or exponent, [case["rel"], "exponent notation" if exponent else "plain notation", "copies: %d" % (m // n) if n < m else "no copies"]


class Fitting(Stage):
    rule = "the instance does not have the size of the network"

    def run(self, case):
        m, n, pts, line, rec, _, _ = self.go(case)
        body, _, tail = rec["temp"].partition(" output ")
        got = [float(c) for c in body.split()]
        got = [got[k:k + 2] for k in range(0, len(got), 2)]
        need(len(got) == m, "the network's instance has %d nodes, the network is made for %d" % (len(got), m))
        tour = [int(t) for t in tail.split()]
        need(sorted(tour[:-1]) == list(range(1, m + 1)) and tour[0] == tour[-1], "the tour written for the network is not one of %d nodes: %s" % (m, tour))
        if n == m:
            need(rec["temp"] == line, "an instance that fits was changed")
        elif n < m:
            need(got[:n] == pts, "the instance's own nodes were changed: %s, expected %s" % (got[:n], pts))
            for k in range(n, m):
                c = pts[k % n]
                need(abs(got[k][0] - c[0]) <= 2e-14 and abs(got[k][1] - c[1]) <= 2e-14, "dummy node %d is not next to node %d: %s, %s" % (k, k % n, got[k], c))
                need(got.count(got[k]) == 1, "dummy node %d coincides with another node" % k)
        else:
            need(len({tuple(g) for g in got}) == m and all(g in pts for g in got), "the nodes chosen for the network are not %d distinct nodes of the instance" % m)
        need(rec["coord"].shape == (1, m, 2), "the network got coordinates of shape %r" % (rec["coord"].shape,))
        need(np.array_equal(rec["coord"][0], np.array(got, dtype=np.float32)), "the network got other coordinates than the instance's")
        d = np.array([[math.dist(a, b) for b in got] for a in got])
        need(rec["values"].shape == (1, m, m) and np.abs(rec["values"][0] - d).max() <= 1e-6, "the network got wrong distances")
        e = np.ones((m, m))
        np.fill_diagonal(e, 2)
        need(np.array_equal(rec["edges"][0], e), "the network got other connections than a complete graph with marked self-loops")
        need(not rec["training"], "the network was run in training mode")
        t = np.zeros((m, m))
        for a, b in zip(tour, tour[1:]):
            t[a - 1][b - 1] = t[b - 1][a - 1] = 1
        need(np.array_equal(rec["targets"][0], t), "the targets given with the instance are not the edges of its tour %s" % tour)
        return n != m, [case["rel"], "copies: %d" % (m // n) if n < m else "no copies"]


class Reader(Check):
    cases = (3000, 30000)
    rule = "at least two instances, or a limited number of neighbours"

    def prepare(self):
        load()
        from utils.google_tsp_reader import GoogleTSPReader
        self.cls = GoogleTSPReader

    def strategy(self, tier):
        return st.integers(3, 24 if tier == "thorough" else 14).flatmap(lambda n: st.fixed_dictionaries(dict(
            n=st.just(n), lines=st.integers(1, 9), batch=st.integers(1, 5), k=st.one_of(st.just(-1), st.integers(1, n - 1)), seed=st.integers(0, 10 ** 6),
            style=st.integers(0, 3), tails=st.lists(st.booleans(), min_size=1, max_size=4), last_newline=st.booleans())))

    def run(self, case):
        n, L, B, k = case["n"], case["lines"], case["batch"], case["k"]
        inst = []
        for i in range(L):
            inst.append((points(n, case["seed"] * 10 + i, case["style"], distinct=True), some_tour(n, case["seed"] + i)))
        mt.SHUFFLE.seed(case["seed"])
        with scratch():
            with open("f.txt", "w") as f:
                for i, (p, t) in enumerate(inst):
                    f.write(instance_line(p, t, case["tails"][i % len(case["tails"])], i + 1 < L or case["last_newline"]))
            batches = called("reading the file", lambda: list(iter(self.cls(n, k, B, "f.txt"))))
        need(len(batches) == L // B, "%d instances in batches of %d: %d batches" % (L, B, len(batches)))
        index = {repr(p): i for i, (p, _) in enumerate(inst)}
        seen = []
        for b in batches:
            called("using a batch", lambda: [getattr(b, k) for k in ("edges", "edges_values", "edges_target", "nodes", "nodes_target", "nodes_coord", "tour_nodes", "tour_len")])
            for key, shape in (("edges", (B, n, n)), ("edges_values", (B, n, n)), ("edges_target", (B, n, n)), ("nodes", (B, n)), ("nodes_target", (B, n)),
                               ("nodes_coord", (B, n, 2)), ("tour_nodes", (B, n)), ("tour_len", (B,))):
                need(np.asarray(getattr(b, key)).shape == shape, "%s has shape %r, expected %r" % (key, np.asarray(getattr(b, key)).shape, shape))
            for x in range(B):
                i = index.get(repr(b.nodes_coord[x].tolist()))
                need(i is not None, "a batch holds an instance that is not in the file")
                seen.append(i)
                p, t = inst[i]
                d = np.array([[math.dist(u, v) for v in p] for u in p])
                need(np.abs(b.edges_values[x] - d).max() <= 1e-12, "wrong distances")
                need(b.tour_nodes[x].tolist() == t, "tour %s was read as %s" % (t, b.tour_nodes[x].tolist()))
                e = np.zeros((n, n))
                for u, v in zip(t, t[1:] + t[:1]):
                    e[u][v] = e[v][u] = 1
                need(np.array_equal(b.edges_target[x], e), "the edge targets are not the edges of the tour %s" % t)
                pos = np.zeros(n)
                for q, u in enumerate(t):
                    pos[u] = q
                need(np.array_equal(b.nodes_target[x], pos), "the node targets are not the positions in the tour")
                length = sum(d[u][v] for u, v in zip(t, t[1:] + t[:1]))
                need(abs(b.tour_len[x] - length) <= 1e-9, "tour length %r, expected %r" % (b.tour_len[x], length))
                need(np.all(b.nodes[x] == 1), "node signals")
                W = b.edges[x]
                need(np.all(np.diag(W) == 2), "self-connections are not marked by 2")
                off = W[~np.eye(n, dtype=bool)]
                need(np.isin(off, (0, 1)).all(), "connections other than 0 and 1")
                if k == -1:
                    need(np.all(off == 1), "the graph is not complete")
                else:
                    for u in range(n):
                        near = [v for v in range(n) if v != u and W[u][v] == 1]
                        far = [v for v in range(n) if v != u and W[u][v] == 0]
                        need(len(near) == k, "node %d has %d neighbours instead of %d" % (u, len(near), k))
                        need(not far or max(d[u][v] for v in near) <= min(d[u][v] for v in far) + 1e-15, "the neighbours of node %d are not the nearest ones" % u)
        need(len(set(seen)) == len(seen), "an instance was returned twice in one pass")
        return L > 1 or k != -1, ["neighbours: all" if k == -1 else "neighbours: k", "batches: %d" % min(len(batches), 3), "trailing space" if all(case["tails"]) else "no trailing space"]


class Measures(Check):
    """Tours, lengths and errors computed by utils/graph_utils.py and utils/model_utils.py."""
    cases = (3000, 30000)
    rule = "more than three nodes"

    def prepare(self):
        load()
        import utils.graph_utils as g
        import utils.model_utils as m
        self.g, self.m = g, m

    def strategy(self, tier):
        return st.integers(3, 10).flatmap(lambda n: st.fixed_dictionaries(dict(
            n=st.just(n), seed=st.integers(0, 10 ** 6), batch=st.integers(1, 4), mut=st.integers(0, 4), start0=st.booleans(), k=st.integers(1, n - 1), batches=st.sampled_from([1] * 12 + [2, 2, 2, 7, 7, 1000]))))

    def run(self, case):
        n, B = case["n"], case["batch"]
        r = random.Random(case["seed"])
        D, T = [], []
        for _ in range(B):
            p = points(n, r.random(), 0)
            D.append([[math.dist(u, v) for v in p] for u in p])
            t = list(range(n))
            r.shuffle(t)
            if case["start0"]:
                t.remove(0)
                t.insert(0, 0)
            T.append(t)
        D = np.array(D)
        mt.FLOAT[0] = np.float64
        g = self.g
        W, lens = [], []
        for d, t in zip(D, T):
            w = np.asarray(called("tour_nodes_to_W", g.tour_nodes_to_W, np.array(t)))
            want = np.zeros((n, n))
            for u, v in zip(t, t[1:] + t[:1]):
                want[u][v] = want[v][u] = 1
            need(np.array_equal(w, want), "tour_nodes_to_W(%s) is not the tour's adjacency matrix" % t)
            W.append(want)
            length = sum(d[u][v] for u, v in zip(t, t[1:] + t[:1]))
            lens.append(length)
            a = number("tour_nodes_to_tour_len", g.tour_nodes_to_tour_len, np.array(t), d)
            b = number("W_to_tour_len", g.W_to_tour_len, want, d)
            need(abs(a - length) < 1e-9, "tour_nodes_to_tour_len: %r, expected %r" % (a, length))
            need(abs(b - length) < 1e-9, "W_to_tour_len: %r, expected %r" % (b, length))
        t = list(T[0])
        if case["mut"] == 1:
            t[r.randrange(n)] = r.randrange(n)
        elif case["mut"] == 2:
            t = t[:-1]
        elif case["mut"] == 3:
            t.append(r.randrange(n + 1))
        elif case["mut"] == 4:
            t[r.randrange(n)] = r.choice([-1, n])
        valid = len(t) == n and set(t) == set(range(n))
        need(bool(called("is_valid_tour", g.is_valid_tour, t, n)) == valid, "is_valid_tour(%s, %d) is %s" % (t, n, not valid))
        a = number("mean_tour_len_nodes", g.mean_tour_len_nodes, mt.Tensor(D), mt.Tensor(np.array(T)))
        need(abs(a - np.mean(lens)) < 1e-9, "mean_tour_len_nodes of the tours %s is %r, expected %r" % (T, a, np.mean(lens)))
        z = np.zeros((B, n, n, 2))
        for x in range(B):
            for u in range(n):
                for v in range(n):
                    s = r.uniform(0.01, 4)
                    z[x, u, v] = (0, s) if W[x][u][v] else (s, 0)
        a = number("mean_tour_len_edges", g.mean_tour_len_edges, mt.Tensor(D), mt.Tensor(z))
        need(abs(a - np.mean(lens)) < 1e-9, "mean_tour_len_edges of exact predictions is %r, expected %r" % (a, np.mean(lens)))
        # errors of perturbed predictions
        y = np.array(W).astype(np.int64)
        pred = y.copy()
        for x in range(B):
            for _ in range(r.randint(0, 3)):
                u, v = r.sample(range(n), 2)
                pred[x, u, v] ^= 1
        z = np.stack([1.0 - pred, pred + 0.0], axis=3)
        z = z * np.array([r.uniform(0.5, 3) for _ in range(B * n * n)]).reshape(B, n, n, 1)
        edges = np.ones((B, n, n), dtype=np.int64)
        ee = called("edge_error", self.m.edge_error, mt.Tensor(z), mt.Tensor(y), mt.Tensor(edges))
        same = pred == y

        def err(mask):
            return 100 * (1 - np.mean([(same[x] & (mask[x] > 0)).sum() / (mask[x] > 0).sum() for x in range(B)]))
        for got, mask, what in ((ee[0], edges, "all edges"), (ee[1], y, "tour edges"), (ee[2], y + pred, "tour and predicted edges")):
            need(abs(float(got) - err(mask)) < 1e-9, "the error over %s is %r, expected %r" % (what, got, err(mask)))
        for got, mask in ((ee[3], y), (ee[4], y + pred)):
            want = [bool(((~same[x]) & (mask[x] > 0)).any()) for x in range(B)]
            need([bool(q) for q in mt.raw(got)] == want, "instances with errors: %s, expected %s" % (mt.raw(got), want))
        cw = np.array([r.uniform(0.1, 2), r.uniform(0.1, 8)])
        got = number("loss_edges", self.m.loss_edges, mt.Tensor(z), mt.Tensor(y), mt.Tensor(cw))
        lp = z - np.log(np.exp(z).sum(axis=3, keepdims=True))
        num = sum(-lp[x, u, v, y[x, u, v]] * cw[y[x, u, v]] for x in range(B) for u in range(n) for v in range(n))
        den = cw[y].sum()
        need(abs(got - num / den) < 1e-9, "weighted cross-entropy %r, expected %r" % (got, num / den))
        zn = np.array([[[r.uniform(-3, 3) for _ in range(n)] for _ in range(n)] for _ in range(B)])
        cn = np.array([r.uniform(0.1, 2) for _ in range(n)])
        T = np.array(T)
        got = number("loss_nodes", self.m.loss_nodes, mt.Tensor(zn), mt.Tensor(T), mt.Tensor(cn))
        lp = zn - np.log(np.exp(zn).sum(axis=2, keepdims=True))
        num = sum(-lp[x, u, T[x, u]] * cn[T[x, u]] for x in range(B) for u in range(n))
        need(abs(got - num / cn[T].sum()) < 1e-9, "weighted cross-entropy of the nodes %r, expected %r" % (got, num / cn[T].sum()))

        # a data set whose passes start with other batches; only pass `late` has the tours, the others one edge to a nearest node
        late = r.randrange(case["batches"])
        passes = [0]

        class DS:
            num_nodes = n

            def __iter__(self):
                b = type("B", (), {})()
                b.edges, b.edges_target, b.edges_values = edges, np.array(W), D
                if passes[0] != late:
                    b.edges, b.edges_target, b.edges_values = edges[:1], np.zeros((1, n, n), dtype=np.int64), np.array(D)[:1]
                    if n > 2:
                        b.edges_target[0, 0, int(np.argsort(np.asarray(D)[0, 0])[1])] = 1
                passes[0] += 1
                return iter([b])
        k = int(called("get_max_k", g.get_max_k, DS(), *([] if case["batches"] == 1000 else [case["batches"]])))
        want = max(sum(D[x][u][q] < D[x][u][v] for q in range(n)) for x in range(B) for u in range(n) for v in range(n) if W[x][u][v] == 1)
        need(k == want, "get_max_k is %d, the farthest tour neighbour is number %d" % (k, want))
        mt.FLOAT[0] = np.float32
        return n > 3, ["start at 0" if case["start0"] else "any start", "valid" if valid else "invalid tour"]


class Network(Check):
    cases = (2400, 20000)
    rule = "at least one graph convolution and three nodes"

    def prepare(self):
        load()
        import config
        import models.gcn_model as gm
        self.cfg, self.cls = config.Settings, gm.ResidualGatedGCNModel

    def strategy(self, tier):
        return st.fixed_dictionaries(dict(n=st.integers(2, 8), hidden=st.sampled_from([2, 4, 6]), layers=st.sampled_from([0, 1, 1, 2, 2, 3, 3, 5]), mlp=st.sampled_from([1, 1, 2, 2, 3, 3, 4, 6]), agg=st.sampled_from(["mean", "mean", "sum"]),
                                          batch=st.integers(1, 2), seed=st.integers(0, 10 ** 6), k=st.integers(-1, 3), scale=st.sampled_from([0.3, 1.0, 2.0])))

    def run(self, case):
        n, H, L, B = case["n"], case["hidden"], case["layers"], case["batch"]
        mt.FLOAT[0] = np.float64
        r = np.random.RandomState(case["seed"])
        mt.RNG.seed(case["seed"])
        c = self.cfg(dict(num_nodes=n, node_dim=2, voc_nodes_in=2, voc_nodes_out=2, voc_edges_in=3, voc_edges_out=2, hidden_dim=H, num_layers=L, mlp_layers=case["mlp"], aggregation=case["agg"]))
        net = called("building the network", self.cls, c, mt.FloatTensor, mt.LongTensor)
        for p in net.parameters():
            p.a *= case["scale"]
        net.eval()
        coord = r.rand(B, n, 2)
        D = np.sqrt(((coord[:, :, None] - coord[:, None]) ** 2).sum(-1))
        W = np.ones((B, n, n), dtype=np.int64) if case["k"] < 0 else r.randint(0, 2, (B, n, n))
        for b in range(B):
            np.fill_diagonal(W[b], 2)
        y = r.randint(0, 2, (B, n, n))
        cw = np.array([0.6, 2.5])

        def fwd(coord, D, W, y):
            T = mt.Tensor
            out, loss = called("the forward pass", net.forward, T(W), T(D), T(np.ones(coord.shape[:2], dtype=np.int64)), T(coord), T(y), cw)
            return mt.raw(out), float(mt.raw(loss))
        out, loss = fwd(coord, D, W, y)
        need(out.shape == (B, n, n, 2), "the output has shape %r" % (out.shape,))
        need(np.isfinite(out).all(), "the output is not finite")
        # the parameters of the published checkpoints, which are loaded strictly
        P = {k: p.a for k, p in net.named_parameters()}
        want = {"nodes_coord_embedding.weight": (H, 2), "edges_values_embedding.weight": (H // 2, 1), "edges_embedding.weight": (3, H // 2)}
        linear = ["gcn_layers.%d.%s.%s" % (l, f, w) for l in range(L) for f in ("node_feat", "edge_feat") for w in "UV"] + ["mlp_edges.U.%d" % k for k in range(case["mlp"] - 1)]
        for f in linear:
            want.update({f + ".weight": (H, H), f + ".bias": (H,)})
        for l in range(L):
            for f in ("bn_node", "bn_edge"):
                want.update({"gcn_layers.%d.%s.batch_norm.%s" % (l, f, w): (H,) for w in ("weight", "bias")})
        want.update({"mlp_edges.V.weight": (2, H), "mlp_edges.V.bias": (2,)})
        have = {k: v.shape for k, v in P.items()}
        need(have == want, "the network's parameters are not those of the published checkpoints: %s" % sorted(set(have.items()) ^ set(want.items()))[:6])
        # the published formulas, written out

        def lin(name, v):
            w = v @ P[name + ".weight"].T
            return w + P[name + ".bias"] if name + ".bias" in P else w

        def bn(name, v):
            f = v.reshape(-1, v.shape[-1])
            return (v - f.mean(0)) / np.sqrt(f.var(0) + 1e-5) * P[name + ".batch_norm.weight"] + P[name + ".batch_norm.bias"]
        x = lin("nodes_coord_embedding", coord)
        e = np.concatenate([lin("edges_values_embedding", D[..., None]), P["edges_embedding.weight"][W]], axis=3)
        for l in range(L):
            q = "gcn_layers.%d." % l
            v = lin(q + "edge_feat.V", x)
            t = lin(q + "edge_feat.U", e) + v[:, :, None] + v[:, None]
            gate = 1 / (1 + np.exp(-t))
            s = np.einsum("bijh,bjh->bih", gate, lin(q + "node_feat.V", x))
            if case["agg"] == "mean":
                s = s / (1e-20 + gate.sum(axis=2))
            xn = lin(q + "node_feat.U", x) + s
            e = e + np.maximum(bn(q + "bn_edge", t), 0)
            x = x + np.maximum(bn(q + "bn_node", xn), 0)
        o = e
        for k in range(case["mlp"] - 1):
            o = np.maximum(lin("mlp_edges.U.%d" % k, o), 0)
        o = lin("mlp_edges.V", o)
        tol = 1e-6 * (1 + np.abs(o).max())
        need(np.abs(out - o).max() <= tol, "the output differs from the residual gated graph convolution by %g" % np.abs(out - o).max())
        lp = o - o.max(axis=3, keepdims=True)
        lp = lp - np.log(np.exp(lp).sum(axis=3, keepdims=True))
        w = cw[y]
        want = -(np.take_along_axis(lp, y[..., None], 3)[..., 0] * w).sum() / w.sum()
        need(abs(loss - want) <= 1e-6 * (1 + abs(want)), "loss %r, expected %r" % (loss, want))
        # relabelling the nodes relabels the predictions
        perm = r.permutation(n)
        out2, loss2 = fwd(coord[:, perm], D[:, perm][:, :, perm], W[:, perm][:, :, perm], y[:, perm][:, :, perm])
        need(np.abs(out2 - out[:, perm][:, :, perm]).max() <= tol, "renumbering the nodes by %s changes the predictions" % perm.tolist())
        need(abs(loss - loss2) <= 1e-6 * (1 + abs(loss)), "renumbering the nodes changes the loss")
        mt.FLOAT[0] = np.float32
        return L > 0 and n > 2, ["layers: %d" % L, case["agg"], "batch of %d" % B]


def beams(y, B, kind, start):
    """Plain beam search over one probability matrix: the best B partial paths at every step."""
    n = len(y)
    cur = [(1.0 if kind == "raw" else 0.0, [start])]
    for _ in range(n - 1):
        nxt = []
        for s, path in cur:
            for j in range(n):
                if j not in path:
                    p = float(y[path[-1]][j])
                    nxt.append((s * p if kind == "raw" else s + p, path + [j]))
        nxt.sort(key=lambda q: -q[0])
        cur = nxt[:B]
    return cur


class Beam(Check):
    cases = (3000, 30000)
    rule = "a beam of at least two and four nodes"

    def prepare(self):
        load()
        import utils.model_utils as m
        import utils.beamsearch as b
        self.m, self.b = m, b

    def strategy(self, tier):
        return st.fixed_dictionaries(dict(n=st.integers(3, 7), batch=st.integers(1, 3), beam=st.one_of(st.integers(1, 5), st.integers(6, 40)), kind=st.sampled_from(["raw", "logits"]),
                                          seed=st.integers(0, 10 ** 6), spread=st.sampled_from([0.5, 2.0, 5.0]), sym=st.booleans()))

    def run(self, case):
        n, B, k, kind = case["n"], case["batch"], case["beam"], case["kind"]
        k = min(k, 4 * n)
        mt.FLOAT[0] = np.float64
        r = np.random.RandomState(case["seed"])
        z = r.randn(B, n, n, 2) * case["spread"]
        if case["sym"]:
            z = (z + z.transpose(0, 2, 1, 3)) / 2
        pts = r.rand(B, n, 2)
        D = np.sqrt(((pts[:, :, None] - pts[:, None]) ** 2).sum(-1))
        lp = z[..., 1] - np.log(np.exp(z).sum(axis=3))
        y = np.exp(lp) if kind == "raw" else lp
        # the code gathers column "state" of dimension 1, i.e. row = current node
        k_eff = min(k, n * k)
        got = mt.raw(called("beamsearch_tour_nodes", self.m.beamsearch_tour_nodes, mt.Tensor(z.copy()), k_eff, B, n, mt.FloatTensor, mt.LongTensor, kind))
        short = mt.raw(called("beamsearch_tour_nodes_shortest", self.m.beamsearch_tour_nodes_shortest, mt.Tensor(z.copy()), mt.Tensor(D), k_eff, B, n, mt.FloatTensor, mt.LongTensor, kind))
        anywhere = mt.raw(called("beamsearch_tour_nodes from random nodes", self.m.beamsearch_tour_nodes, mt.Tensor(z.copy()), k_eff, B, n, mt.FloatTensor, mt.LongTensor, kind, True))
        mt.FLOAT[0] = np.float32
        need(anywhere.shape == (B, n), "shape %r" % (anywhere.shape,))
        need(got.shape == (B, n) and short.shape == (B, n), "shapes %r, %r" % (got.shape, short.shape))
        for x in range(B):
            ref = beams(y[x], k_eff, kind, 0)
            t = [int(q) for q in got[x]]
            need(sorted(t) == list(range(n)), "the most probable hypothesis %s is not a tour" % t)
            need(t[0] == 0, "the tour %s does not start at node 0" % t)

            def score(p):
                s = [float(y[x][a][b]) for a, b in zip(p, p[1:])]
                return math.prod(s) if kind == "raw" else sum(s)
            best = ref[0][0]
            need(score(t) >= best - 1e-9 * abs(best), "beam %d: the tour %s has score %r, beam search finds %s with %r" % (k_eff, t, score(t), ref[0][1], best))

            t = [int(q) for q in anywhere[x]]
            need(sorted(t) == list(range(n)), "the most probable hypothesis %s from a random node is not a tour" % t)
            best = beams(y[x], k_eff, kind, t[0])[0]
            need(score(t) >= best[0] - 1e-9 * abs(best[0]), "beam %d: the tour %s from a random node has score %r, beam search finds %s with %r" % (k_eff, t, score(t), best[1], best[0]))

            def length(p):
                return sum(D[x][a][b] for a, b in zip(p, p[1:] + p[:1]))
            s = [int(q) for q in short[x]]
            need(sorted(s) == list(range(n)), "the shortest hypothesis %s is not a tour" % s)
            want = min(length(p) for _, p in ref)
            need(abs(length(s) - want) <= 1e-9, "beam %d: the shortest of the kept tours has length %r, got %s of length %r" % (k_eff, want, s, length(s)))
        return k_eff > 1 and n > 3, [kind, "beam 1" if k_eff == 1 else "beam 2-5" if k_eff < 6 else "wide beam"]


if __name__ == "__main__":
    common.main({"C27": MatrixFile, "C28": Fitting, "C29": Reader, "C30": Measures, "C31": Network, "C32": Beam})
