"""C40: the model for CPLEX. A small reader of OPL (opl.py) grounds TSPmtz.mod on generated data into a mixed integer programme;
which assignments satisfy it, and its optimum (HiGHS), are compared with the Hamiltonian cycles of the matrix."""
import json
import os
import random
import re
import subprocess

import common
from common import Check, HarnessError, REPO, Violation, need, st
from opl import Grounded, Reader, Unsupported, Wrong, parse_dat

MODEL = os.path.join(REPO, "src", "CplexSolver", "TSPmtz.mod")


def held_karp(C):
    n = len(C)
    best = {(1 << i, i): C[0][i] for i in range(1, n)}
    full = (1 << n) - 2
    for s in range(2, full + 1, 2):
        for j in range(1, n):
            if s >> j & 1 and s != 1 << j:
                best[s, j] = min(best[s ^ 1 << j, k] + C[k][j] for k in range(1, n) if k != j and s >> k & 1)
    return min(best[full, j] + C[j][0] for j in range(1, n))


def is_cycle(arcs, n):
    """Whether the set of arcs (without loops) is one directed cycle through all n cities."""
    nxt = dict(arcs)
    if len(arcs) != n or len(nxt) != n:
        return False
    k, seen = 0, set()
    while k not in seen:
        seen.add(k)
        k = nxt.get(k, k)
    return len(seen) == n and k == 0


SHIM = r"""
const d = JSON.parse(require('fs').readFileSync(0, 'utf8'));
const out = [];
for (const c of d.cases) {
  const g = c.globals, lines = [];
  const write = (...a) => { if (!lines.length) lines.push(''); lines[lines.length - 1] += a.join(''); };
  const writeln = (...a) => { write(...a); lines.push(''); };
  const names = Object.keys(g);
  try { new Function(...names, 'write', 'writeln', c.script)(...names.map(k => g[k]), write, writeln); out.push({lines}); }
  catch (e) { out.push({error: String(e), kind: e.name}); }
}
console.log(JSON.stringify(out));
"""


class Mtz(Check):
    cases = (160, 1500)
    rule = "at least four cities, and both tours and several kinds of non-tours tried"

    def prepare(self):
        self.model, self.why = None, None
        try:
            self.model = Reader(open(MODEL, encoding="utf-8").read())
        except Unsupported as e:
            self.why = str(e)
            print("the model uses %s, which this check cannot read: no verdict" % e)

    def strategy(self, tier):
        return st.fixed_dictionaries(dict(n=st.sampled_from([4, 5, 6, 7] * 8 + [2, 3] * 3 + [8, 9] * (4 if tier == "thorough" else 0) + [12, 25, 45]
                                                              + [80] * (tier == "thorough")), seed=st.integers(0, 10 ** 6), symmetric=st.booleans(),
                                          kind=st.sampled_from(["euclid", "small", "large", "real", "spread", "ties"]), diagonal=st.booleans()))

    def costs(self, case, r):
        n = case["n"]
        pts = [(r.random() * 100, r.random() * 100) for _ in range(n)]
        f = {"euclid": lambda i, j: ((pts[i][0] - pts[j][0]) ** 2 + (pts[i][1] - pts[j][1]) ** 2) ** .5, "small": lambda i, j: r.randint(1, 9),
             "large": lambda i, j: r.randint(10 ** 3, 10 ** 5), "real": lambda i, j: r.random(), "spread": lambda i, j: 10 ** r.uniform(-1, 3),
             "ties": lambda i, j: r.choice([1, 2])}[case["kind"]]
        C = [[0.0] * n for _ in range(n)]
        for i in range(n):
            for j in range(i + 1, n):
                C[i][j] = float(f(i, j))
                C[j][i] = C[i][j] if case["symmetric"] or case["kind"] == "euclid" else float(f(j, i))
        if case["diagonal"]:
            for i in range(n):
                C[i][i] = float(r.randint(1, 50))      # a distance from a city to itself must not matter
        return C

    def run(self, case):
        if not self.model:
            return False, ["not understood"]
        n, r = case["n"], random.Random(case["seed"])
        C = self.costs(case, r)
        dat = "n=%d;\nCost=[" % n + "".join("[" + ", ".join(str(x) for x in row) + "]\n" for row in C) + "];"
        try:
            g = Grounded(self.model, parse_dat(dat))
        except Unsupported:
            return False, ["not understood"]
        except Wrong as e:
            raise Violation(str(e)) from None
        arcs = [b for b in g.booleans if len(b[1][0]) == n]
        if len(arcs) != 1:
            return False, ["not understood"]
        name, sets = arcs[0]
        var = lambda i, j: g.index[(name, sets[0][i], sets[1][j])]
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]

        def fix(chosen):
            return {var(i, j): 1.0 if (i, j) in chosen else 0.0 for i in range(n) for j in range(n)}
        # optimum
        if n <= 9:
            opt = held_karp(C)
            value, x = g.solve()
            need(value is not None, "no solution for %d cities" % n)
            chosen = {(i, j) for i, j in pairs if x[var(i, j)] > 0.5}
            need(is_cycle(chosen, n), "the optimal solution %s is no tour" % sorted(chosen))
            need(abs(value - opt) <= 1e-6 * (1 + abs(opt)), "the optimum is %r, the shortest tour has length %r" % (value, opt))
        # tours are solutions, and the objective is their length
        for _ in range(3):
            t = list(range(n))
            r.shuffle(t)
            tour = set(zip(t, t[1:] + t[:1]))
            f = fix(tour)
            need(g.feasible(f), "the tour %s is no solution" % t)
            o = g.objective
            length = sum(C[i][j] for i, j in tour)
            if all(k in f for k, v in o.v.items() if v):
                got = o.c + sum(v * f[k] for k, v in o.v.items() if v)
                need(abs(got - length) <= 1e-9 * (1 + length), "the tour %s of length %r has the objective %r" % (t, length, got))
        # what is no tour is no solution
        kinds = set()
        for k in range(6):
            t = list(range(n))
            r.shuffle(t)
            tour = set(zip(t, t[1:] + t[:1]))
            how = r.choice(["two circuits", "two circuits", "two circuits", "arc missing", "arc more", "arc moved"])
            bad = set(tour)
            if how == "two circuits":
                if n < 4:
                    continue
                a = r.randint(2, n - 2)
                bad = set(zip(t[:a], t[1:a] + t[:1])) | set(zip(t[a:], t[a + 1:] + t[a:a + 1]))
            elif how == "arc missing":
                bad.discard(r.choice(sorted(bad)))
            elif how == "arc more":
                more = [p for p in pairs if p not in bad]
                if not more:
                    continue
                bad.add(r.choice(more))
            else:
                a = r.choice(sorted(bad))
                more = [(i, j) for i, j in pairs if i == a[0] and j != a[1]]
                if not more:
                    continue
                bad.discard(a)
                bad.add(r.choice(more))
            if is_cycle(bad, n):
                continue
            kinds.add(how)
            need(not g.feasible(fix(bad)), "the arcs %s (%s) are a solution and no tour" % (sorted(bad), how))
        labels = sorted(kinds) + ["n:%d" % n]
        if r.random() < 0.15 and self.model.scripts:
            labels += self.printed(n, name, sets, C, r)
        return n >= 4 and len(kinds) > 1, labels

    def printed(self, n, name, sets, C, r):
        """The script after solving, run by node on a tour, prints its arcs with their costs."""
        if any(re.search(r"\]\s*\.|\bOpl|\bcplex\b|\bthisOplModel\b|\b(%s|%s)\s*\." % (name, "|".join(d[1] for d in self.model.decls)), s) for s in self.model.scripts):
            return ["script not run"]      # methods of OPL's objects, which node does not have
        t = list(range(n))
        r.shuffle(t)
        nxt = dict(zip(t, t[1:] + t[:1]))
        x = {a: {b: int(nxt[i] == j) for j, b in enumerate(sets[1])} for i, a in enumerate(sets[0])}
        G = {name: x, "Cost": {a: {b: C[i][j] for j, b in enumerate(sets[1])} for i, a in enumerate(sets[0])}, "n": n}
        for d in self.model.decls:
            if d[0] == "range":
                G[d[1]] = {a: 1 for a in sets[0]}
        p = subprocess.run(["node", "-e", SHIM], input=json.dumps(dict(cases=[dict(globals=G, script=s) for s in self.model.scripts])),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        if p.returncode:
            raise HarnessError("node: " + p.stderr[-300:])
        out = json.loads(p.stdout)
        if any("error" in o for o in out):
            return ["script not run"]
        got = sorted(tuple(float(v) for v in re.findall(r"-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", l)) for o in out for l in o["lines"] if l.strip())
        want = sorted((float(sets[0][i]), float(sets[1][j]), C[i][j]) for i, j in nxt.items())
        same = len(got) == len(want) and all(len(a) == 3 and a[:2] == b[:2] and abs(a[2] - b[2]) <= 1e-9 * (1 + b[2]) for a, b in zip(got, want))
        need(same, "printed %s for the arcs %s" % (got, want))
        return ["printed"]


if __name__ == "__main__":
    common.main({"C40": Mtz})
