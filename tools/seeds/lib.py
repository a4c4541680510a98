"""Shared by the demonstrations: builds the solver from the current directory (the repository), runs it on an instance."""
import atexit, os, random, re, shutil, subprocess, sys, tempfile
ROOT = os.getcwd()
SRC = os.path.join(ROOT, "src", "HybridSolver")
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
HERE = os.path.dirname(os.path.abspath(__file__))


def sources(prim=1):
    d = os.path.join(TMP, "src%d" % prim)
    if not os.path.exists(d):
        for s in ("main", "test"):
            shutil.copytree(os.path.join(SRC, s), os.path.join(d, s), ignore=shutil.ignore_patterns("graph-convnet-tsp"))
        p = os.path.join(d, "main", "problem_settings.h")
        t = re.sub(r"(?m)^(\s*#\s*define\s+PRIM\s+)\d+", r"\g<1>%d" % prim, open(p, encoding="utf-8").read())
        open(p, "w", encoding="utf-8").write(t)
    return d


def build(n, hybrid=0, prim=1, extra=None, flags=()):
    """The whole program, or with extra= a C file (beside this one) instead of main.c."""
    d = sources(prim)
    exe = tempfile.mktemp(dir=TMP)
    fs = []
    for r, _, names in os.walk(os.path.join(d, "main")):
        fs += [os.path.join(r, f) for f in sorted(names) if f.endswith(".c") and (f != "main.c" or not extra or extra.startswith("+"))]
    if extra:
        fs.append(os.path.join(HERE, extra.lstrip("+")))
    subprocess.run(["clang", "-std=gnu99", "-O1", "-g", "-w", "-DMAX_VERTEX_NUM=%d" % n, "-DHYBRID=%d" % hybrid, "-I" + os.path.join(d, "main"),
                    *flags, *fs, "-o", exe, "-lm"], check=True)
    return exe


def write(W, P=None, path=None):
    n = len(W)
    path = path or os.path.join(TMP, "in.csv")
    with open(path, "w") as f:
        f.write(";".join("(0.0, %d.0)" % i for i in range(n)) + ";\n")
        for i in range(n):
            f.write(";".join("(%r, %r)" % (W[i][j], P[i][j] if P else 0) for j in range(n)) + ";\n")
    return path


def run(exe, W, P=None, timeout=20):
    out = os.path.join(TMP, "out.txt")
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run([exe, write(W, P), out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=TMP)
    text = open(out).read() if os.path.exists(out) else ""
    m = re.search(r"SUBPROBLEM with cost = (\S+), type = (\w+), level of the BB tree = (\d+), prob_tour = (\S+), BBNode number = (\d+) and time to obtain = (\S+)s, edge to branch = (-?\d+)", text)
    g = re.search(r"generated BBNodes = (\d+),\s+explored BBNodes = (\d+)", text)
    c = re.search(r"candidate node = (\d+), elapsed time = (\S+)s and interrupted = (\w+)", text)
    return dict(rc=p.returncode, text=text, err=p.stderr.decode(errors="replace"), cost=float(m[1]) if m else None, type=m[2] if m else None,
                prob=float(m[4]) if m else None, etb=int(m[7]) if m else None,
                edges=[(int(a), int(b)) for a, b in re.findall(r"(\d+) <-> (\d+)", text)],
                generated=int(g[1]) if g else None, explored=int(g[2]) if g else None,
                candidate=int(c[1]) if c else None, interrupted=c[3] == "TRUE" if c else None)


def optimum(W):
    """Held-Karp; weight 0 is no edge; None if there is no tour."""
    n = len(W)
    inf = float("inf")
    w = lambda a, b: W[a][b] if W[a][b] > 0 else inf
    best = {(1 << i, i): w(0, i) for i in range(1, n)}
    full = (1 << n) - 2
    for s in range(2, full + 1, 2):
        for j in range(1, n):
            if s >> j & 1 and s != 1 << j:
                best[s, j] = min(best.get((s ^ 1 << j, k), inf) + w(k, j) for k in range(1, n) if k != j and s >> k & 1)
    r = min(best[full, j] + w(j, 0) for j in range(1, n))
    return r if r < inf else None


def sym(n, f):
    W = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1, n):
            W[i][j] = W[j][i] = f(i, j)
    return W


def euclid(rng, n, scale=1.0):
    pts = [(rng.random() * scale, rng.random() * scale) for _ in range(n)]
    return sym(n, lambda i, j: ((pts[i][0] - pts[j][0]) ** 2 + (pts[i][1] - pts[j][1]) ** 2) ** .5)


def tolerance(n):
    return 1.27 * n ** .5 / 1000 + 2e-6


def is_tour(edges, n, W):
    deg = [0] * n
    adj = [[] for _ in range(n)]
    for a, b in edges:
        if a == b or not W[a][b] > 0:
            return False
        adj[a].append(b)
        adj[b].append(a)
    if len(edges) != n or any(len(x) != 2 for x in adj):
        return False
    prev, cur, k = -1, 0, 0
    while True:
        nxt = adj[cur][0] if adj[cur][0] != prev else adj[cur][1]
        prev, cur, k = cur, nxt, k + 1
        if cur == 0:
            return k == n


def fail(msg):
    print("DEMO FAILED:", msg)
    sys.exit(1)


def check_optimal(n, hybrid, prim, make, count, seed=1, probs=False):
    exe = build(n, hybrid, prim)
    rng = random.Random(seed)
    for k in range(count):
        W = make(rng)
        P = sym(len(W), lambda i, j: round(rng.random(), 3)) if probs else None
        r = run(exe, W, P)
        o = optimum(W)
        if r["rc"] != 0:
            fail("instance %d: exit %d" % (k, r["rc"]))
        if o is None:
            if r["edges"]:
                fail("instance %d: a tour where there is none: %s" % (k, r["edges"]))
        elif r["cost"] is None or abs(r["cost"] - o) > tolerance(n) + 1e-6 * o:
            fail("instance %d: %r, optimum %r\n%r" % (k, r["cost"], o, W))
        elif not is_tour(r["edges"], len(W), W):
            fail("instance %d: not a tour: %s" % (k, r["edges"]))
    print("ok:", count, "instances")
