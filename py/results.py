"""C33-C35: the analyzer of the results, fed with reports of the real solver; C36: the converter for CPLEX."""
import csv
import glob
import importlib.util
import math
import os
import random
import re
import runpy
import subprocess
import sys
import types

import numpy as np
from scipy import stats

import common
from common import Check, HarnessError, REPO, SCRATCH, SRC, Violation, called, inside, need, scratch, st
import minitorch

ANALYZER = os.path.join(SRC, "results", "AdjacencyMatrix", "analyzer.py")
CONVERTER = os.path.join(REPO, "src", "CplexSolver", "Data", "TSPLIB", "converter_tsp_to_dat.py")


class Frame:
    """The little of pandas.DataFrame that the analyzer uses."""

    def __init__(self, data=None, columns=None):
        self.cols = list(data) if data is not None else list(columns)
        self.rows, self.idx = [], []
        if data and any(len(data[c]) for c in self.cols):
            self.rows = [list(r) for r in zip(*[data[c] for c in self.cols])]
            self.idx = list(range(len(self.rows)))
        self.loc = self

    @property
    def index(self):
        return self.idx

    def __len__(self):
        return len(self.rows)

    def __setitem__(self, k, v):
        if k in self.idx:
            self.rows[self.idx.index(k)] = list(v)
        else:
            self.idx.append(k)
            self.rows.append(list(v))

    def rename(self, index=None, columns=None):
        f = Frame(columns=self.cols)
        f.rows, f.idx = [list(r) for r in self.rows], [(index or {}).get(i, i) for i in self.idx]
        return f

    def to_csv(self, path, index=True):
        with open(path, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow(self.cols)
            w.writerows([[repr(float(x)) for x in r] for r in self.rows])

    def to_string(self):
        return table(self.cols, self.idx, self.rows)


def cell(x):
    return x if isinstance(x, str) else "%.6f" % x if isinstance(x, (float, np.floating)) else str(x)


def table(cols, idx, rows):
    w = max([len(str(i)) for i in idx] + [0])
    body = [[cell(x) for x in r] for r in rows]
    ws = [max([len(c)] + [len(b[k]) for b in body]) for k, c in enumerate(cols)]
    out = [" " * w + "  " + "  ".join(c.rjust(n) for c, n in zip(cols, ws))]
    for i, b in zip(idx, body):
        out.append(str(i).ljust(w) + "  " + "  ".join(x.rjust(n) for x, n in zip(b, ws)))
    return "\n".join(out)


def load(path, name):
    minitorch.install()
    pd = types.ModuleType("pandas")
    pd.DataFrame = Frame
    sys.modules["pandas"] = pd
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        spec.loader.exec_module(m)
    return m


CLOCK = "#include <stdlib.h>\nlong vf_clock(void){static long now;const char*s=getenv(\"VF_STEP\");now+=s?atol(s):1000;return now;}\n"


def programs(worker, sizes):
    """The real program for some sizes, in both modes, with a virtual CPU clock."""
    d = os.path.join(SCRATCH, "prog%d_%d" % (worker, os.getpid()))
    os.makedirs(d)
    open(os.path.join(d, "clock.c"), "w").write(CLOCK)
    files = glob.glob(os.path.join(SRC, "main", "**", "*.c"), recursive=True)
    jobs = []
    for n in sizes:
        for h in (0, 1):
            exe = os.path.join(d, "p_%d_%d" % (n, h))
            jobs.append((n, h, exe, subprocess.Popen(["gcc", "-w", "-O1", "-DMAX_VERTEX_NUM=%d" % n, "-DHYBRID=%d" % h, "-Dclock=vf_clock"] + files +
                                                     [os.path.join(d, "clock.c"), "-o", exe, "-lm"], stderr=subprocess.PIPE, text=True)))
    out = {}
    for n, h, exe, p in jobs:
        err = p.communicate()[1]
        if p.returncode:
            raise HarnessError("the solver does not compile: " + err[-2000:])
        out[n, h] = exe
    return out


def solve(exe, n, seed, style, step, out):
    r = random.Random(seed)
    if style == 0:
        pts = [(r.random(), r.random()) for _ in range(n)]
    elif style == 1:
        pts = [(r.randint(0, 4), r.randint(0, 4)) for _ in range(n)]
    else:
        pts = [(r.random() * 1000, r.random() * 1000) for _ in range(n)]
    with open(out + ".csv", "w") as f:
        f.write(";".join("(%r, %r)" % p for p in pts) + "\n")
        prob = [[round(r.random(), 3) for _ in range(n)] for _ in range(n)]
        for i in range(n):
            f.write("".join("(%r, %r);" % (max(math.dist(pts[i], pts[j]), 1e-6 if i != j else 0.0), prob[min(i, j)][max(i, j)]) for j in range(n)) + "\n")
    try:
        p = subprocess.run([exe, out + ".csv", out], env=dict(os.environ, VF_STEP=str(step)), timeout=60, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    except subprocess.TimeoutExpired:
        raise Violation("the solver did not end within 60 s on %d nodes" % n)
    os.unlink(out + ".csv")
    need(p.returncode == 0, "the solver ended with status %d" % p.returncode)
    return pts


def after(text, key, end, cast=float, nth=0):
    """The value printed after a key, by splitting, not by the analyzer's patterns."""
    parts = text.split(key)
    if len(parts) < nth + 2:
        raise HarnessError("no %r in the report:\n%s" % (key, text[:1500]))
    return cast(parts[nth + 1].split(end)[0].strip())


class Reading(Check):
    cases = (500, 4000)
    rule = "at least two reports, of which one finished and one was interrupted or came from another kind of solution"

    def prepare(self):
        self.mod = load(ANALYZER, "analyzer")
        self.exe = programs(self.worker, [6, 10])

    def strategy(self, tier):
        inst = st.fixed_dictionaries(dict(seed=st.integers(0, 10 ** 6), style=st.integers(0, 2), step=st.sampled_from([1, 1000, 50000, 2000000, 90000000, 400000000]),
                                          over=st.integers(0, 10 ** 6)))
        return st.fixed_dictionaries(dict(n=st.sampled_from([6, 10]), h=st.integers(0, 1), ids=st.lists(st.integers(1, 1200), min_size=1, max_size=6, unique=True),
                                          inst=st.lists(inst, min_size=6, max_size=6), noise=st.booleans()))

    def run(self, case):
        n, h = case["n"], case["h"]
        exp = {}
        with scratch() as d:
            os.makedirs("res")
            for k, i in enumerate(case["ids"]):
                c = case["inst"][k]
                f = os.path.join(d, "res", "tsp_result_%d.txt" % i)
                pts = solve(self.exe[n, h], n, c["seed"], c["style"], c["step"], f)
                text = open(f).read()
                bb = after(text, "elapsed time = ", "s")
                taken = bb + c["over"] / 7919.0 + 0.25
                text += "\nNodes: \n" + "".join("\t%d : %s %s\n" % (q, p[0], p[1]) for q, p in enumerate(pts)) + "\nTime taken: " + str(taken) + "s\n"
                open(f, "w").write(text)
                ups = [(float(l.split("value: ")[1].split(",")[0]), float(l.split("time: ")[1])) for l in text.split("\n") if l.startswith("Updated best value")]
                exp[i] = dict(done=after(text, "interrupted = ", "\n", str) == "FALSE", total_time=taken, time_bb=bb, time_to_best=after(text, "time to obtain = ", "s"),
                              generate_bbnodes=after(text, "generated BBNodes = ", ",", int), explored_bbnodes=after(text, "explored BBNodes = ", "and", int),
                              total_tree_level=after(text, "max tree level = ", "\n", int), best_level=after(text, "level of the BB tree = ", ",", int),
                              prob_best=after(text, "prob_tour = ", ","), bbnodes_before_best=after(text, "BBNode number = ", "and", int),
                              best_value=after(text, "with cost = ", ","), type=after(text, "type = ", ",", str), ups=ups)
            if case["noise"]:
                open("res/mean_results.txt", "w").write("nothing to read here\n")
                open("res/plot.pdf", "w").write("x")
            got = called("read_values", self.mod.read_values, "res")
        done = sorted(i for i in exp if exp[i]["done"])
        need(got["not_resolved"] == sorted(set(exp) - set(done)), "interrupted instances: %s, expected %s" % (got["not_resolved"], sorted(set(exp) - set(done))))
        for key in ("total_time", "time_bb", "time_to_best", "generate_bbnodes", "explored_bbnodes", "total_tree_level", "best_level", "prob_best", "bbnodes_before_best", "best_value"):
            want = {i: exp[i][key] for i in done}
            need(got[key] == want and list(got[key]) == done, "%s was read as %s, the reports say %s" % (key, got[key], want))
        for i, e in exp.items():
            need(i in got["partial_solutions"], "no partial solutions for instance %d" % i)
            flag, sols = got["partial_solutions"][i]
            need(flag == int(e["done"]), "instance %d: finished = %r" % (i, flag))
            over = e["total_time"] - e["time_bb"]
            want = [(v, over + t) for v, t in e["ups"]] or [(e["best_value"], over + e["time_to_best"])]
            need(len(sols) == len(want) and all(abs(a[0] - b[0]) < 1e-9 and abs(a[1] - b[1]) < 1e-9 for a, b in zip(sols, want)),
                 "partial solutions of instance %d: %s, expected %s" % (i, sols, want))
        kinds = {"num_closed_nn": "CLOSED_NEAREST_NEIGHBOR", "num_closed_nnHybrid": "CLOSED_NEAREST_NEIGHBOR_HYBRID", "num_closed_1Tree": "CLOSED_1TREE", "num_closed_subgradient": "CLOSED_SUBGRADIENT"}
        pc = lambda s: float(s.rstrip("%"))
        need(abs(pc(got["resolved"]) - 100 * len(done) / len(exp)) <= 0.006, "resolved %s of %d/%d" % (got["resolved"], len(done), len(exp)))
        for key, t in kinds.items():
            want = 100 * sum(exp[i]["type"] == t for i in done) / max(1, len(done))
            need(abs(pc(got[key]) - want) <= 0.006, "%s is %s, expected %.2f%% of %s" % (key, got[key], want, [exp[i]["type"] for i in done]))
        types_ = {e["type"] for e in exp.values()}
        return len(exp) > 1 and bool(done) and (len(done) < len(exp) or len(types_) > 1), ["type " + t for t in types_] + ["all interrupted" if not done else "all finished" if len(done) == len(exp) else "mixed"]


class Profiles(Check):
    cases = (1800, 15000)
    rule = "both modes have results for at least two common instances"

    def prepare(self):
        self.mod = load(ANALYZER, "analyzer")

    def strategy(self, tier):
        sol = st.fixed_dictionaries(dict(done=st.integers(0, 1), vals=st.lists(st.integers(0, 60), min_size=1, max_size=5), times=st.lists(st.integers(0, 40), min_size=5, max_size=5)))
        side = st.dictionaries(st.integers(1, 9).map(str), sol, min_size=1, max_size=7)
        return st.fixed_dictionaries(dict(n=st.sampled_from([20, 50, 100]), hyb=side, cla=side, unit=st.sampled_from([0.001, 0.01, 1.0])))

    def run(self, case):
        n = case["n"]
        tol = math.sqrt(n) * 0.00127

        def side(s):
            out = {}
            for k, v in s.items():
                vals = sorted(v["vals"], reverse=True)
                times = sorted(v["times"])[:len(vals)]
                out[int(k)] = (v["done"], [(3 + x * case["unit"], t / 4) for x, t in zip(vals, times)])
            return out
        H, C = side(case["hyb"]), side(case["cla"])
        ids = sorted(set(H) & set(C))
        if not ids:
            return False, ["nothing in common"]
        with scratch() as d:
            called("performance_profiles", self.mod.performance_profiles, dict(H), dict(C), n, d)
            imp = [[float(x) for x in r] for r in list(csv.reader(open("performance_profile.csv")))[1:]]
            cum = [[float(x) for x in r] for r in list(csv.reader(open("cumulative_profile.csv")))[1:]]

        def at(s, t):
            best = math.inf
            for v, q in s[1]:
                if q <= t:
                    best = v
            return best
        want = {t for s in (H, C) for i in ids for _, t in s[i][1]}
        need(want <= {r[0] for r in imp}, "the improvement profile misses the times %s" % sorted(want - {r[0] for r in imp})[:5])
        need([r[0] for r in imp] == sorted({r[0] for r in imp}), "the times of the improvement profile are not increasing")
        skip = 0
        for t, a, b in imp:
            ha = ca = 0
            close = False
            for i in ids:
                x, y = at(H[i], t), at(C[i], t)
                if x == y:
                    continue
                close |= abs(abs(x - y) - tol) < 1e-9
                ha += x < y and y - x >= tol
                ca += y < x and x - y >= tol
            skip += close
            need(close or (abs(a - ha / len(ids)) < 1e-12 and abs(b - ca / len(ids)) < 1e-12),
                 "improvement profile at %g: hybrid %g, classic %g; better on %d and %d of %d instances" % (t, a, b, ha, ca, len(ids)))
        want = {s[i][1][-1][1] for s in (H, C) for i in ids if s[i][0] == 1}
        need([r[0] for r in cum] == sorted(want), "the cumulative profile has the times %s, expected %s" % ([r[0] for r in cum], sorted(want)))
        for t, a, b in cum:
            ha = sum(H[i][0] == 1 and H[i][1][-1][1] <= t for i in ids)
            ca = sum(C[i][0] == 1 and C[i][1][-1][1] <= t for i in ids)
            need(abs(a - ha / len(ids)) < 1e-12 and abs(b - ca / len(ids)) < 1e-12, "cumulative profile at %g: %g, %g; solved %d and %d of %d" % (t, a, b, ha, ca, len(ids)))
        courses = [s[1] for s in list(H.values()) + list(C.values())]
        with scratch():
            with open("tsp_%d_nodes_2Opt.txt" % n, "w") as f:
                f.writelines("[" + ", ".join("(%.6f, %.6f)" % q for q in c) + "]\n" for c in courses)
            got = called("read_two_opt_solutions", self.mod.read_two_opt_solutions, n)
        want = {i + 1: [(round(v, 6), round(t, 6)) for v, t in c] for i, c in enumerate(courses)}
        need(got == want, "the courses of 2-opt %s were read as %s" % (want, got))
        if len(ids) > 1:
            a = {i: 1.0 + H[i][1][0][0] * (i + 1) for i in H}
            b = {i: 1.5 + C[i][1][0][0] * (i + 2) for i in C}
            import warnings
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = called("significance_test", self.mod.significance_test, a, b)
                xa, xb = np.array([a[i] for i in ids]), np.array([b[i] for i in ids])
                p = stats.wilcoxon(xa, xb)[1]
            z = 1.96 / math.sqrt(len(ids))
            for key, want in (("hyb_mean", xa.mean()), ("cla_mean", xb.mean()), ("hyb_conf_int", xa.std() * z), ("cla_conf_int", xb.std() * z), ("p_val", p)):
                need(abs(got[key] - want) <= 1e-9 * (1 + abs(want)), "%s is %r, expected %r over the common instances" % (key, got[key], want))
        return len(ids) > 1, ["other instances on one side" if set(H) != set(C) else "same instances", "undecidable times: %s" % (skip > 0)]


ROWS = [("total_time", "Total time"), ("time_bb", "BB time"), ("time_to_best", "Time to Best"), ("generate_bbnodes", "Generated BB nodes"), ("explored_bbnodes", "Explored BB nodes"),
        ("bbnodes_before_best", "BB nodes before best"), ("total_tree_level", "BB tree depth"), ("best_level", "Depth of the best"), ("prob_best", None), ("best_value", None)]


def check_tables(texts, sizes, data):
    """The two tables against the figures; returns what was marked."""
    labels, diff = set(), 0
    for name, ns in (("exact", sizes[:3]), ("heur", sizes[3:])):
        text = texts[name]
        bad = re.search(r"[\x00-\x09\x0b-\x1f]", text)
        need(not bad, "%s table: control character in %r" % (name, bad and text[max(0, bad.start() - 20):bad.start() + 30]))
        left = re.findall(r"(?:std_|perc_|numn_)?[a-z]+_\d", text)
        need(not left, "%s table: placeholders left: %s" % (name, left[:5]))
        lines = {l.split("&")[0].strip(): [c.strip() for c in l.replace("\\\\", "").split("&")[1:]] for l in text.split("\n") if "&" in l and "multicolumn" not in l}
        need([int(x) for x in re.findall(r"\$n=(\d+)\$", text)] == ns, "%s table: columns for n = %s" % (name, re.findall(r"\$n=(\d+)\$", text)))

        def row(label):
            m = [v for k, v in lines.items() if k.startswith(label)]
            need(len(m) == 1, "%s table: %d rows %s" % (name, len(m), label))
            return m[0]
        for label, k in (("Instances solved", 0), ("$\\qquad$ with NN", 1)):
            got = [c for c in row(label) if c]
            want = []
            for n in ns:
                want += [data[n][0][2 * k + 1], data[n][0][2 * k]]
            need([g.replace("\\%", "%") for g in got] == want, "%s table, %s: %s, expected %s" % (name, label, got, want))
        got = [c for c in row("$\\qquad$ with PNN") if c and c != "-"]
        want = [data[n][0][4] for n in ns]
        need([g.replace("\\%", "%") for g in got] == want, "%s table, with PNN: %s, expected %s" % (name, got, want))
        for key, label in ROWS:
            if not label:
                continue
            got = row(label)
            want = []
            for n in ns:
                h, hs, c, cs, p = data[n][1][key]
                h2, c2 = round(h, 2), round(c, 2)
                mark = "\\underline{\\textbf{%s}}" if p < 0.05 else "\\textbf{%s}"
                want += [(mark if c2 < h2 else "%s") % c2, "\\stdf{%s}" % round(cs, 2), (mark if h2 < c2 else "%s") % h2, "\\stdf{%s}" % round(hs, 2)]
                diff += h2 != c2
                labels.add("tie" if h2 == c2 else ("hybrid" if h2 < c2 else "classic") + (" better, significant" if p < 0.05 else " better"))
            need(got == want, "%s table, %s: %s, expected %s" % (name, label, got, want))
        got = [c for c in row("$\\frac{O_{T") if c and c != "-"]
        want = []
        for n in ns:
            want += [str(round(data[n][1]["prob_best"][0], 2)), "\\stdf{%s}" % round(data[n][1]["prob_best"][1], 2)]
        need(got == want, "%s table, probability: %s, expected %s" % (name, got, want))
    return diff, labels


class Tables(Check):
    cases = (400, 4000)
    rule = "at least one figure differs between the modes"

    def prepare(self):
        self.mod = load(ANALYZER, "analyzer")

    def strategy(self, tier):
        num = st.one_of(st.integers(0, 10 ** 7), st.integers(0, 3 * 10 ** 6), st.integers(0, 1400))
        row = st.fixed_dictionaries(dict(h=num, hs=num, c=num, cs=num, same=st.booleans(), p=st.one_of(st.integers(0, 10 ** 6), st.integers(0, 60000))))
        one = st.fixed_dictionaries(dict(rows=st.lists(row, min_size=len(ROWS), max_size=len(ROWS)), pc=st.lists(st.integers(0, 10000), min_size=10, max_size=10)))
        return st.lists(one, min_size=6, max_size=6)

    def run(self, case):
        sizes = [20, 50, 100, 35, 75, 150]
        cols = ["Hybrid Mean", "Hybrid Int", "Classic Mean", "Classic Int", "P-val for Wilcoxon signed-rank test"]
        data = {}
        with scratch():
            for n, one in zip(sizes, case):
                pc = ["%s%%" % round(x / 100, 2) for x in one["pc"]]
                idx = ["Resolved Instances", "Closed NN", "Closed NN Hybrid", "Closed 1Tree", "Closed Subgradient"]
                rows = [[pc[2 * k], 0.0, pc[2 * k + 1], 0.0, "-"] for k in range(5)]
                figs = {}
                for (key, _), r in zip(ROWS, one["rows"]):
                    v = [r["h"] / 1e6, r["hs"] / 1e6, (r["h"] if r["same"] else r["c"]) / 1e6, r["cs"] / 1e6, r["p"] / 1e6]
                    idx.append(key)
                    rows.append(v)
                    figs[key] = v
                os.makedirs("mean_results/%d_nodes" % n)
                pts = table(["H_mean_generated", "H_mean_+_std"], ["Log values", "Original values"], [[0.5, 1.5], [3.0, 30.0]])
                open("mean_results/%d_nodes/mean_results.txt" % n, "w").write(
                    table(cols, idx, rows) + "\n\nNot resolved 0 instances for hybrid: []\n\nNot resolved 1 instances for classic: [17]\n\n" + pts)
                data[n] = pc, figs
            called("create_tables", self.mod.create_tables)
            texts = {"exact": open("mean_results/exact_table.tex").read(), "heur": open("mean_results/heur_table.tex").read()}
        diff, labels = check_tables(texts, sizes, data)
        return diff > 0, sorted(labels)


PCS = ["Resolved Instances", "Closed NN", "Closed NN Hybrid", "Closed 1Tree", "Closed Subgradient"]
KINDS = [None, "CLOSED_NEAREST_NEIGHBOR", "CLOSED_NEAREST_NEIGHBOR_HYBRID", "CLOSED_1TREE", None]
NUMBERS = ["generated BBNodes", "explored BBNodes", "max tree level", "level of the BB tree", "BBNode number"]


def cells(text):
    """The rows of a printed table: name -> fields, by the two or more blanks between them."""
    out = {}
    for l in text.split("\n")[1:]:
        f = re.split(r"\s{2,}", l.strip())
        need(f[0] not in out, "two rows named %r" % f[0])
        out[f[0]] = f[1:]
    return out


class Summary(Check):
    """analyze() and the command line of the analyzer: from two folders of reports to the summary, the profiles and the tables."""
    cases = (700, 6000)
    rule = "at least two instances finished in both modes, and one not"

    def prepare(self):
        self.mod = load(ANALYZER, "analyzer")
        exe = programs(self.worker, [7])
        self.pool = {}
        for h in (0, 1):
            self.pool[h] = []
            with scratch() as d:
                for k in range(48):
                    f = os.path.join(d, "r.txt")
                    solve(exe[7, h], 7, 1000 * h + k, k % 3, [1, 1000, 50000, 2000000, 90000000, 400000000][k % 6], f)
                    self.pool[h].append(open(f).read())

    def strategy(self, tier):
        num = st.one_of(st.integers(1, 9), st.integers(1, 10 ** 6), st.integers(1, 300))
        rep = st.fixed_dictionaries(dict(pick=st.integers(0, 47), nums=st.lists(num, min_size=5, max_size=5), keep=st.booleans(), over=st.integers(0, 10 ** 6)))
        side = st.dictionaries(st.one_of(st.integers(1, 9), st.integers(1, 1200)).map(str), rep, min_size=1, max_size=9)
        return st.fixed_dictionaries(dict(n=st.sampled_from([20, 35, 50, 75, 100, 150, 7]), hyb=side, cla=side, twin=st.integers(0, 3), perf=st.booleans(), tab=st.booleans(), old=st.booleans()))

    def run(self, case):
        n = case["n"]
        sides = [dict(case["hyb"]), dict(case["cla"])]
        for k, i in enumerate(sorted(sides[0])):      # instances in common
            if k % 4 < case["twin"]:
                sides[1].setdefault(i, dict(sides[0][i], pick=(sides[0][i]["pick"] * 7 + 5) % 48, over=sides[0][i]["over"] // 2))
        exp = [{}, {}]
        tab = case["tab"] and n != 7
        with scratch():
            for h, name in ((1, "hybrid"), (0, "classic")):
                d = "tsp_%d_nodes_%s" % (n, name)
                os.makedirs(d)
                for i, r in sides[1 - h].items():
                    text = self.pool[h][r["pick"]]
                    if not r["keep"]:
                        for key, v in zip(NUMBERS, r["nums"]):
                            text = re.sub(re.escape(key) + r" = \d+", "%s = %d" % (key, v), text)
                    bb = after(text, "elapsed time = ", "s")
                    taken = round(bb + r["over"] / 7919.0 + 0.25, 6)
                    text += "\nNodes: \n\t0 : 0.5 0.5\n\nTime taken: %rs\n" % taken
                    open(os.path.join(d, "tsp_result_%s.txt" % i), "w").write(text)
                    exp[1 - h][int(i)] = dict(done=after(text, "interrupted = ", "\n", str) == "FALSE", type=after(text, "type = ", ",", str), total_time=taken, time_bb=bb,
                                              time_to_best=after(text, "time to obtain = ", "s"), generate_bbnodes=after(text, "generated BBNodes = ", ",", int),
                                              explored_bbnodes=after(text, "explored BBNodes = ", "and", int), total_tree_level=after(text, "max tree level = ", "\n", int),
                                              best_level=after(text, "level of the BB tree = ", ",", int), prob_best=after(text, "prob_tour = ", ","),
                                              bbnodes_before_best=after(text, "BBNode number = ", "and", int), best_value=after(text, "with cost = ", ","))
            done = [{i for i in e if e[i]["done"]} for e in exp]
            ids = sorted(done[0] & done[1])
            if len(ids) < 2:                           # no test is possible
                return False, ["fewer than two in common"]
            out = "mean_results/%d_nodes" % n
            if case["old"]:
                os.makedirs(out)
                open(out + "/mean_results.txt", "w").write("the previous summary, which is longer than the new one\n" * 90)
            if tab:
                for m in (20, 50, 100, 35, 75, 150):
                    if m != n:
                        os.makedirs("mean_results/%d_nodes" % m)
                        v = [["50.0%", 0, "25.0%", 0, "-"]] * 5 + [[1.5, 0.5, 2.5, 0.25, 0.5]] * 10
                        open("mean_results/%d_nodes/mean_results.txt" % m, "w").write(table(["Hybrid Mean", "Hybrid Int", "Classic Mean", "Classic Int", "P"], PCS + [k for k, _ in ROWS], v) + "\n")
            argv = sys.argv
            sys.argv = ["analyzer.py", "--num_nodes", str(n)] + ["--perf_prof"] * case["perf"] + ["--tab"] * tab
            import warnings
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    called("analyzer.py", runpy.run_path, ANALYZER, None, "__main__")
            finally:
                sys.argv = argv
            need(os.path.exists(out + "/mean_results.txt"), "no summary was written")
            text = open(out + "/mean_results.txt").read()
            files = {f for f in os.listdir(out) if f.endswith(".csv")}
            need(files == ({"performance_profile.csv", "cumulative_profile.csv"} if case["perf"] else set()), "profiles written: %s" % sorted(files))
            texts = {k: open("mean_results/%s_table.tex" % k).read() for k in ("exact", "heur")} if tab else {}
        parts = text.split("\n\n")
        need(len(parts) == 4, "the summary has %d parts" % len(parts))
        rows = cells(parts[0])
        need(set(rows) == set(PCS) | {k for k, _ in ROWS}, "rows of the summary: %s" % sorted(rows))
        pc, figs = [], {}
        for name, kind in zip(PCS, KINDS):
            f = rows[name]
            need(len(f) == 5, "row %s: %s" % (name, f))
            for k in (0, 1):
                fin = [e for e in exp[k].values() if e["done"]]
                if name == PCS[0]:
                    want = 100 * len(fin) / len(exp[k])
                elif kind:
                    want = 100 * sum(e["type"] == kind for e in fin) / len(fin)
                else:
                    want = 100 * sum(e["type"] not in KINDS for e in fin) / len(fin)
                need(abs(float(f[2 * k].rstrip("%")) - want) <= 0.006, "%s: %s, expected %.2f%% (%s)" % (name, f[2 * k], want, ("hybrid", "classic")[k]))
                pc.append(f[2 * k])
        import warnings
        for key, _ in ROWS:
            need(len(rows[key]) == 5, "row %s: %s" % (key, rows[key]))
            got = [float(x) for x in rows[key]]
            figs[key] = got
            x, y = (np.array([e[i][key] for i in ids], dtype=float) for e in exp)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                p = stats.wilcoxon(x, y)[1]
            z = 1.96 / math.sqrt(len(ids))
            want = [x.mean(), x.std() * z, y.mean(), y.std() * z, p]
            need(all(abs(a - b) <= 6e-7 + 1e-9 * abs(b) or (a != a and b != b) for a, b in zip(got, want)),
                 "%s: %s, expected %s over the common instances %s" % (key, got, want, ids))
        for k, name in ((0, "hybrid"), (1, "classic")):
            left = sorted(set(exp[k]) - done[k])
            want = "Not resolved %d instances for %s: %s" % (len(left), name, left)
            need(" ".join(parts[1 + k].split()) == " ".join(want.split()), "%r, expected %r" % (parts[1 + k], want))
        pts = cells(parts[3])
        need(set(pts) == {"Log values", "Original values"}, "rows of the curve: %s" % sorted(pts))
        want = []
        for k in (0, 1):
            g = np.array([exp[k][i]["generate_bbnodes"] for i in sorted(done[k])], dtype=float)
            want += [g.mean(), g.mean() + g.std(), g.mean() - g.std()]
        got = [float(x) for x in pts["Original values"]]
        need(len(got) == 6 and all(abs(a - b) <= 6e-7 + 1e-9 * abs(b) for a, b in zip(got, want)), "curve: %s, expected %s" % (got, want))
        got = [float(x) for x in pts["Log values"]]
        need(len(got) == 6, "curve: %s" % got)
        for a, b in zip(got, want):
            if abs(b) > 1e-6:                         # mean = deviation: -inf or the logarithm of a rounding error
                b = math.log10(b) if b > 0 else 0.0
                need(abs(a - b) <= 6e-7, "curve, logarithms: %s, expected those of %s" % (got, want))
        if tab:
            sizes = [20, 50, 100, 35, 75, 150]
            other = ["50.0%", "25.0%"] * 5, {k: [1.5, 0.5, 2.5, 0.25, 0.5] for k, _ in ROWS}
            check_tables(texts, sizes, {m: (pc, figs) if m == n else other for m in sizes})
        full = len(done[0]) < len(exp[0]) or len(done[1]) < len(exp[1])
        return full, ["common: %s" % ("2-4" if len(ids) < 5 else "5+"), "tables" if tab else "no tables", "profiles" if case["perf"] else "no profiles"]


class Problem:
    """What tsplib95 gives for a file: the weights of the generated problem it holds."""

    def __init__(self, w, first):
        self.w, self.dimension = w, len(w)
        self.nodes = list(range(first, first + len(w)))
        self.symmetric = all(w[i][j] == w[j][i] for i in range(len(w)) for j in range(i))
        self.type = "TSP" if self.symmetric else "ATSP"

    def get_nodes(self):
        return iter(self.nodes)

    def get_edges(self):
        return iter([(i, j) for i in self.nodes for j in self.nodes])

    def get_weight(self, i, j):
        return self.w[i - self.nodes[0]][j - self.nodes[0]]

    def get_graph(self, normalize=False):
        import networkx
        g = networkx.Graph() if self.symmetric else networkx.DiGraph()
        o = 0 if not normalize else -self.nodes[0]
        g.add_nodes_from(i + o for i in self.nodes)
        for i, j in self.get_edges():
            g.add_edge(i + o, j + o, weight=self.get_weight(i, j), is_fixed=False)
        return g

    def is_symmetric(self):
        return self.symmetric


class Converter(Check):
    cases = (1800, 15000)
    rule = "at least two nodes"

    def prepare(self):
        import networkx
        self.problems = {}
        lib = types.ModuleType("tsplib95")

        def read(path, *a, **k):
            name = os.path.basename(str(path))
            if name not in self.problems:
                raise FileNotFoundError(2, "No such file or directory", str(path))
            return self.problems[name]
        lib.load = lib.load_problem = read

        def missing(k):
            if k.startswith("__"):
                raise AttributeError(k)
            raise HarnessError("the stand-in for tsplib95 has no " + k)
        lib.__getattr__ = missing
        sys.modules["tsplib95"] = lib
        if not hasattr(networkx, "to_numpy_matrix"):       # the releases this is written for have both
            networkx.to_numpy_matrix = lambda *a, **k: np.asmatrix(networkx.to_numpy_array(*a, **k))
        self.mod = load(CONVERTER, "converter")

    def strategy(self, tier):
        c = st.one_of(st.integers(-1000, 1000).map(float), st.floats(-1e5, 1e5, allow_nan=False).map(lambda x: round(x, 7)), st.sampled_from([0.0, 0.5, 1e-7, 1e6, 6734.0]))
        own = st.fixed_dictionaries(dict(pts=st.lists(st.tuples(c, c).map(list), min_size=1, max_size=12), fmt=st.sampled_from(["%r %r %r", "%d %.1f %.1f", "  %d\t%r   %r", "%d %.6e %.6e", "mixed"]),
                                         eof=st.booleans(), head=st.integers(0, 3), blank=st.booleans(), other=st.sampled_from(["", "", "folder", "folder", "command"]), sp=st.booleans()))
        lib = st.fixed_dictionaries(dict(files=st.lists(st.fixed_dictionaries(dict(n=st.integers(1, 30), kind=st.integers(0, 3), asym=st.booleans(), first=st.integers(0, 1), seed=st.integers(0, 10 ** 6))),
                                                        min_size=1, max_size=3), how=st.sampled_from(["file", "folder", "command"])))
        return st.one_of(own, own, own, lib)

    def run(self, case):
        return self.library(case) if "files" in case else self.euclidean(case)

    def command(self, *args):
        old, sys.argv = sys.argv, [CONVERTER] + list(args)
        try:
            called("converter_tsp_to_dat.py", runpy.run_path, CONVERTER, None, "__main__")
        finally:
            sys.argv = old

    def library(self, case):
        """Problems of the library: the weights are those that tsplib95 gives."""
        texts, want = {}, {}
        self.problems.clear()
        for k, f in enumerate(case["files"]):
            r, n = random.Random(f["seed"]), f["n"]
            one = [lambda: r.randint(1, 999), lambda: r.choice([0, 1, 2]), lambda: r.randint(0, 10 ** 7), lambda: r.randint(1, 40) / 4.0][f["kind"]]
            w = [[one() for _ in range(n)] for _ in range(n)]
            for i in range(n):
                w[i][i] = 0
                for j in range(i):
                    if not f["asym"]:
                        w[i][j] = w[j][i]
            name = "p%d.tsp" % k
            self.problems[name], want[name] = Problem(w, f["first"]), w
            texts[name] = ("NAME: p%d\nTYPE: %s\nDIMENSION: %d\nEDGE_WEIGHT_TYPE: EXPLICIT\nEDGE_WEIGHT_FORMAT: FULL_MATRIX\nEDGE_WEIGHT_SECTION\n" % (k, self.problems[name].type, n)
                           + "".join(" ".join(str(x) for x in row) + "\n" for row in w) + "EOF\n")
        with scratch():
            for name, t in texts.items():
                open(name, "w").write(t)
            open("notes.txt", "w").write("x")
            if case["how"] == "file":
                for name in texts:
                    called("convert", self.mod.convert, name, name[:-4] + ".dat")
            elif case["how"] == "folder":
                called("convert_all_file", self.mod.convert_all_file, False)
            else:
                self.command()
            need(sorted(os.listdir(".")) == sorted(["notes.txt"] + list(texts) + [t[:-4] + ".dat" for t in texts]), "files after the conversion: %s" % sorted(os.listdir(".")))
            for name, t in texts.items():
                need(open(name).read() == t, "the input was changed")
                self.compare(open(name[:-4] + ".dat").read(), want[name])
        return any(f["n"] > 1 for f in case["files"]), ["tsplib95: " + case["how"]] + ["asymmetric"] * any(f["asym"] and f["n"] > 1 for f in case["files"])

    def euclidean(self, case):
        if case["fmt"] == "mixed":         # whole numbers without a point, the others with one
            rows = ["%d %s %s" % (i + 1, *("%d" % x if x == int(x) else repr(x) for x in p)) for i, p in enumerate(case["pts"])]
        else:
            rows = [case["fmt"] % (i + 1, p[0], p[1]) for i, p in enumerate(case["pts"])]
        pts = [[float(x) for x in r.split()[1:]] for r in rows]
        head = ["NAME : test", "TYPE : TSP", "COMMENT : 3 words here", "DIMENSION : %d" % len(pts)][:case["head"]] + ["EDGE_WEIGHT_TYPE : EUC_2D", "NODE_COORD_SECTION" + (" " if case["sp"] else "")]
        text = "\n".join(head + rows + (["EOF"] if case["eof"] else [])) + ("\n\n" if case["blank"] else "\n")
        self.problems.clear()
        with scratch():
            open("a.tsp", "w").write(text)
            if case["other"]:
                open("b.tsp", "w").write(text)
                open("notes.txt", "w").write("x")
                if case["other"] == "command":
                    self.command("euclidean")
                else:
                    called("convert_all_file", self.mod.convert_all_file, True)
                need(sorted(os.listdir(".")) == ["a.dat", "a.tsp", "b.dat", "b.tsp", "notes.txt"], "files after the conversion: %s" % sorted(os.listdir(".")))
                need(open("b.dat").read() == open("a.dat").read(), "two equal inputs give different outputs")
            else:
                called("convert_custom_euclidean", self.mod.convert_custom_euclidean, "a.tsp", "a.dat")
            need(open("a.tsp").read() == text, "the input was changed")
            out = open("a.dat").read()
        self.compare(out, [[math.dist(p, q) for q in pts] for p in pts])
        return len(pts) > 1, ["Euclidean: " + (case["other"] or "file"), "EOF line" if case["eof"] else "no EOF line"]

    def compare(self, out, want):
        """The OPL data hold the number of nodes and the matrix."""
        m = re.fullmatch(r"\s*n\s*=\s*(\d+)\s*;\s*Cost\s*=\s*\[(.*)\]\s*;\s*", out, re.S)
        need(m, "not OPL data: %r" % out[:300])
        need(int(m[1]) == len(want), "n = %s for %d nodes" % (m[1], len(want)))
        body = m[2].strip()
        mats = re.findall(r"\[([^\[\]]*)\]", body)
        need(re.fullmatch(r"(\s*,?\s*\[[^\[\]]*\]\s*)*", body), "malformed matrix: %r" % body[:300])
        need(len(mats) == len(want), "%d rows for %d nodes" % (len(mats), len(want)))
        for i, r in enumerate(mats):
            v = [float(x) for x in re.split(r"[,\s]+", r.strip())]
            need(len(v) == len(want), "row %d has %d entries" % (i, len(v)))
            for j, x in enumerate(v):
                e = want[i][j]
                need(abs(x - e) <= 1e-12 + 1e-9 * e, "entry %d,%d is %r, the distance is %r" % (i, j, x, e))


if __name__ == "__main__":
    common.main({"C33": Reading, "C34": Profiles, "C35": Tables, "C36": Converter, "C39": Summary})
