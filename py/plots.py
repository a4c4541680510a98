"""C41: the figures of the network's predictions, drawn on stand-ins for matplotlib and networkx that record what is drawn where."""
import random
import re
import sys
import types

import numpy as np

import common
from common import Check, Violation, called, need, st
import minitorch as mt
import neural
from neural import load, points, some_tour

torch = neural.torch


class NoVerdict(BaseException):
    """The code draws with something that the stand-ins do not have."""


class Panel:
    def __init__(self, fig, where):
        self.fig, self.where, self.title, self.drawn = fig, where, "", []

    def set_title(self, t, *a, **k):
        self.title = str(t)

    def set(self, **k):
        self.title = str(k.get("title", self.title))

    def get_title(self, *a):
        return self.title

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        if k in ("scatter", "plot", "imshow", "add_collection", "annotate", "text", "arrow", "pcolormesh"):
            raise NoVerdict("axes." + k)
        return lambda *a, **kw: None


class Figure:
    def __init__(self, num):
        self.num, self.panels = num, []

    def add_subplot(self, *a, **k):
        a = a[0] if len(a) == 1 else tuple(a)
        if isinstance(a, int):
            a = (a // 100, a // 10 % 10, a % 10)
        p = Panel(self, a)
        self.panels.append(p)
        REC.current = p
        return p

    def subplots(self, nrows=1, ncols=1, **k):
        ps = [self.add_subplot(nrows, ncols, i + 1) for i in range(nrows * ncols)]
        REC.current = ps[-1]
        return ps[0] if len(ps) == 1 else np.array(ps, dtype=object) if 1 in (nrows, ncols) else np.array(ps, dtype=object).reshape(nrows, ncols)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return lambda *a, **kw: None


class Recorder:
    def __init__(self):
        self.clear()

    def clear(self):
        self.figures, self.current, self.shown = [], None, 0

    def fig(self):
        if not self.figures:
            self.figure()
        return self.figures[-1]

    def figure(self, num=None, *a, **k):
        self.figures.append(Figure(num))
        return self.figures[-1]

    def axes(self, ax):
        p = ax if ax is not None else self.current
        if not isinstance(p, Panel):
            p = self.fig().add_subplot(111)
        return p


REC = Recorder()


class Graph:
    def __init__(self, n=0):
        self.n = n
        self.nodes = list(range(n))

    def __len__(self):
        return self.n

    def number_of_nodes(self):
        return self.n

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise NoVerdict("Graph." + k)


def module(name, **k):
    m = types.ModuleType(name)
    for a, b in k.items():
        setattr(m, a, b)

    def missing(a):
        if a.startswith("__"):
            raise AttributeError(a)
        raise NoVerdict("%s.%s" % (name, a))
    m.__getattr__ = missing
    return m


def draw_nodes(G, pos, nodelist=None, node_size=300, node_color="b", ax=None, **k):
    nodes = list(G.nodes) if nodelist is None else [int(i) for i in nodelist]
    col = [node_color] * len(nodes) if isinstance(node_color, str) else list(node_color)
    if len(col) != len(nodes):
        raise ValueError("%d colours for %d nodes" % (len(col), len(nodes)))
    REC.axes(ax).drawn.append(("nodes", [(i, tuple(np.asarray(pos[i], float)), c) for i, c in zip(nodes, col)]))


def draw_edges(G, pos, edgelist=None, width=1.0, edge_color="k", style="solid", alpha=None, edge_cmap=None, ax=None, **k):
    if edgelist is None:
        raise NoVerdict("all edges of the graph")
    e = [(int(a), int(b)) for a, b in edgelist]
    col = [edge_color] * len(e) if isinstance(edge_color, str) else [c if isinstance(c, str) else float(c) for c in np.asarray(edge_color, dtype=object).ravel()]
    if len(col) != len(e):
        raise ValueError("%d colours for %d edges" % (len(col), len(e)))
    REC.axes(ax).drawn.append(("edges", [(x, c, tuple(np.asarray(pos[x[0]], float)), tuple(np.asarray(pos[x[1]], float))) for x, c in zip(e, col)]))


def install():
    def subplot(*a, **k):
        return REC.fig().add_subplot(*a, **k)

    def subplots(nrows=1, ncols=1, **k):
        f = REC.figure()
        return f, f.subplots(nrows, ncols)

    def show(*a, **k):
        REC.shown += 1

    def sca(p):
        REC.current = p
    nothing = lambda *a, **k: None
    cm = types.SimpleNamespace(Reds="Reds", get_cmap=lambda n: n)
    plt = module("matplotlib.pyplot", figure=REC.figure, subplot=subplot, subplots=subplots, show=show, sca=sca, gca=lambda: REC.axes(None),
                 gcf=REC.fig, cm=cm, get_cmap=lambda n: n, tight_layout=nothing, close=nothing, clf=nothing, title=lambda t, *a, **k: REC.axes(None).set_title(t),
                 axis=nothing, savefig=nothing, ion=nothing, ioff=nothing, suptitle=nothing, rcParams={})
    mpl = module("matplotlib", pyplot=plt, cm=cm, use=nothing, rcParams={}, colormaps={"Reds": "Reds"})
    mk = lambda a, *r, **k: Graph(len(np.asarray(a)))

    def draw(G, pos, **k):
        e = {x: k.pop(x) for x in ("edgelist", "edge_color", "width", "style", "edge_cmap") if x in k}
        draw_nodes(G, pos, **k)
        if e.get("edgelist") is not None:
            draw_edges(G, pos, ax=k.get("ax"), **e)
    nx = module("networkx", Graph=Graph, DiGraph=Graph, from_numpy_matrix=mk, from_numpy_array=mk, complete_graph=lambda n, *a: Graph(n), empty_graph=lambda n=0, *a: Graph(n),
                draw_networkx_nodes=draw_nodes, draw_networkx_edges=draw_edges, draw_networkx=draw, draw=draw)
    sys.modules.update({"matplotlib": mpl, "matplotlib.pyplot": plt, "networkx": nx})


GREEN, RED = ("g", "green", "#008000", "#00ff00"), ("r", "red", "#ff0000", "tab:red")


def sym(pairs):
    return {(min(a, b), max(a, b)) for a, b in pairs}


class Figures(Check):
    cases = (1500, 15000)
    rule = "at least two figures of a batch, with edges on both sides of the heat map's threshold"

    def prepare(self):
        install()
        load()
        import utils.plot_utils as pu
        self.pu = pu

    def strategy(self, tier):
        return st.fixed_dictionaries(dict(n=st.integers(3, 10), batch=st.integers(1, 5), figures=st.integers(1, 5), seed=st.integers(0, 10 ** 6), beam=st.booleans(),
                                          logits=st.sampled_from([0, 1, 2]), neighbours=st.integers(1, 10), default=st.booleans()))

    def run(self, case):
        n, B, r = case["n"], case["batch"], random.Random(case["seed"])
        num = 3 if case["default"] and B >= 3 else min(case["figures"], B)
        X = np.array([points(n, case["seed"] + i, 0, distinct=True) for i in range(B)])
        D = np.sqrt(((X[:, :, None] - X[:, None]) ** 2).sum(3))
        W = np.zeros((B, n, n), dtype=np.int64)
        for b in range(B):
            for i in range(n):
                W[b, i, np.argsort(D[b, i])[1:1 + case["neighbours"]]] = 1
                W[b, i, i] = 2
        tours = [some_tour(n, case["seed"] + 7 * i) for i in range(B)]
        beams = [some_tour(n, case["seed"] + 7 * i + 3) for i in range(B)]

        def matrix(t):
            m = np.zeros((n, n), dtype=np.int64)
            for a, b in zip(t, t[1:] + t[:1]):
                m[a, b] = m[b, a] = 1
            return m
        Y = np.array([matrix(t) for t in tours])
        z = np.array([[[[0.0, {0: r.gauss(-1, 1.5), 1: r.gauss(-4, 6), 2: r.choice([-30.0, -1.0986, -1.09, 0.0, 3.0])}[case["logits"]]] for _ in range(n)] for _ in range(n)]
                      for _ in range(B)], dtype=np.float32)
        P = 1 / (1 + np.exp(-z[..., 1].astype(float)))
        T = lambda a, f=torch.FloatTensor: f(a)
        args = [T(X.astype(np.float32)), T(W, torch.LongTensor), T(D.astype(np.float32)), T(Y, torch.LongTensor), T(z)]
        f = self.pu.plot_predictions
        if case["beam"]:
            f = self.pu.plot_predictions_beamsearch
            args.append(T(np.array(beams), torch.LongTensor))
        REC.clear()
        k = {} if num == 3 and case["default"] else dict(num_plots=num)
        try:
            called(f.__name__, f, *args, **k)
        except NoVerdict as e:
            return False, ["not understood: %s" % e]
        figs = [g for g in REC.figures if g.panels]
        need(len(figs) == num, "%d figures for num_plots = %d" % (len(figs), num))
        seen, both = [], False
        for g in figs:
            need(len(g.panels) == 2 + case["beam"], "%d panels in a figure" % len(g.panels))
            ids = [self.instance(p, X) for p in g.panels]
            need(len(set(ids)) == 1, "a figure shows the instances %s" % ids)
            b = ids[0]
            seen.append(b)
            ordered = sorted(g.panels, key=lambda p: p.where[2] if isinstance(p.where, tuple) and len(p.where) == 3 and isinstance(p.where[2], int) else 0)
            self.tour(ordered[0], b, W[b], Y[b], D[b], tours[b], "ground truth")
            both |= self.heat(ordered[1], b, P[b])
            if case["beam"]:
                self.tour(ordered[2], b, W[b], matrix(beams[b]), D[b], beams[b], "beam search")
        need(len(set(seen)) == len(seen), "the same instance is shown twice: %s" % seen)
        return num >= 2 and both, ["beam" if case["beam"] else "plain", "figures:%d" % num]

    def instance(self, p, X):
        """The instance whose nodes the panel shows; node 0 is green and no other."""
        nodes = [x for kind, l in p.drawn if kind == "nodes" for x in l]
        at = {}
        for i, xy, c in nodes:
            at.setdefault(i, []).append((xy, c))
        need(sorted(at) == list(range(X.shape[1])), "nodes %s drawn" % sorted(at))
        pos = np.array([at[i][-1][0] for i in range(X.shape[1])])
        near = [b for b in range(len(X)) if np.allclose(pos, X[b], atol=1e-5)]
        need(near, "the nodes are not where an instance has them")
        for kind, l in p.drawn:
            if kind == "edges":
                for (a, b), _, x, y in l:
                    need(np.allclose(x, pos[a], atol=1e-5) and np.allclose(y, pos[b], atol=1e-5), "edge %s is not between its nodes" % ((a, b),))
        green = {i for i in at if isinstance(at[i][-1][1], str) and at[i][-1][1].lower() in GREEN}
        need(green == {0}, "nodes %s are green" % sorted(green))
        return near[0]

    def tour(self, p, b, W, Y, D, tour, what):
        edges = [(e, c) for kind, l in p.drawn if kind == "edges" for e, c, _, _ in l]
        red = sym(e for e, c in edges if isinstance(c, str) and c.lower() in RED)
        other = sym(e for e, c in edges if not (isinstance(c, str) and c.lower() in RED))
        n = len(D)
        want = sym((i, j) for i in range(n) for j in range(n) if Y[i, j] == 1)
        need(red == want, "%s: edges %s in red for the tour %s" % (what, sorted(red), tour))
        graph = sym((i, j) for i in range(n) for j in range(n) if W[i, j] == 1)
        need(other == graph, "%s: the background has the edges %s, the graph %s" % (what, sorted(other), sorted(graph)))
        length = sum(D[i, j] for i, j in zip(tour, tour[1:] + tour[:1]))
        m = re.findall(r"\d+\.\d+", p.title)
        need(len(m) == 1 and abs(float(m[0]) - length) <= 0.0005 + 1e-5 * (1 + length) and len(m[0].split(".")[1]) == 3,
             "%s: title %r, the tour has length %.6f" % (what, p.title, length))

    def heat(self, p, b, P):
        got = {}
        for kind, l in p.drawn:
            if kind == "edges":
                for e, c, _, _ in l:
                    need(not isinstance(c, str), "heat map: edge %s has no probability as colour" % (e,))
                    got[e] = c
        sure = {(i, j) for i in range(len(P)) for j in range(len(P)) if P[i, j] > 0.25 + 1e-5}
        never = {(i, j) for i in range(len(P)) for j in range(len(P)) if P[i, j] < 0.25 - 1e-5}
        need(sure <= set(got) and not never & set(got), "heat map: missing %s, without reason %s" % (sorted(sure - set(got)), sorted(never & set(got))))
        for (i, j), c in got.items():
            need(abs(c - P[i, j]) <= 1e-4, "heat map: edge (%d, %d) of probability %.5f has the colour %.5f" % (i, j, P[i, j], c))
        return bool(sure) and bool(never)


if __name__ == "__main__":
    common.main({"C41": Figures})
