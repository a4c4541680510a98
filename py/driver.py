"""C26: the driver script HybridSolver.py, with the commands it starts replaced by recording stand-ins."""
import math
import os
import random
import re
import runpy
import shlex
import shutil
import subprocess
import sys
import time

import common
from common import Check, HarnessError, SRC, Violation, bounded, need, quiet, scratch, st

import numpy  # noqa: F401  (loaded once, not per case)

SCRIPT = os.path.join(SRC, "main", "HybridSolver.py")


def make_points(n, seed, style):
    r = random.Random(seed)
    pts = []
    for _ in range(n):
        if style == 0:
            pts.append((r.random(), r.random()))
        elif style == 1:
            pts.append((round(r.random(), 12), round(r.random(), 12)))
        elif style == 2:
            pts.append((float(r.randint(0, 3)), float(r.randint(0, 3))))
        else:
            pts.append((r.choice([0.0, 1.0, 1e-7, 2.5e-9, r.random()]), r.choice([-0.5, 1e-12, r.random(), 12345.678])))
    return pts


def line_of(pts, tail, seed):
    r = random.Random(seed)
    s = " ".join("%r %r" % p for p in pts)
    if tail:
        t = list(range(1, len(pts) + 1))
        r.shuffle(t)
        if tail == 3:
            return s + "  "
        s += " output " + " ".join(map(str, t + t[:1])) + (" " if tail == 2 else "")
    return s


class World:
    """What the stand-ins see and do."""

    def __init__(self, case, root):
        self.case, self.root = case, root
        self.n, self.hyb = case["n"], case["hybrid"]
        self.main = os.path.join(root, "main")
        self.now = 1000.0
        self.configured = self.built = False
        self.build_dir = None
        self.solved, self.networks = [], []
        self.problem = None
        self.times = {}
        self.net_for = None
        self.cost = 0.0

    def fault(self, kind, i=None):
        f = self.case["fault"]
        return f and f[0] == kind and (i is None or f[1] == i)

    def complain(self, msg):
        if self.problem is None:
            self.problem = msg

    def points(self, i):
        return [tuple(p) for p in make_points(self.n, self.case["seed"] * 100 + i, self.case["style"])]

    def instance_of(self, path, what):
        m = re.fullmatch(r".*/data/AdjacencyMatrix/tsp_(\d+)_nodes/tsp_test_(\d+)\.csv", path)
        if not m or int(m[1]) != self.n:
            self.complain("%s was given the matrix file %s" % (what, path))
            return None
        if os.path.realpath(path) != os.path.realpath(os.path.join(self.root, "data", "AdjacencyMatrix", "tsp_%d_nodes" % self.n, os.path.basename(path))):
            self.complain("%s was given a file outside the data folder: %s" % (what, path))
        return int(m[2])

    def execute(self, argv, cwd):
        name = os.path.basename(argv[0])
        at = os.path.realpath(cwd or os.getcwd())
        if name == "cmake" and "--build" not in argv:
            return self.cmake(argv, at)
        if name in ("make", "gmake", "ninja") or name == "cmake":
            return self.make(argv, at)
        if name.startswith("python"):
            return self.network(argv, at)
        if name == "BranchAndBound1Tree":
            return self.solver(argv, at)
        raise FileNotFoundError(2, "No such file or directory", argv[0])

    def option(self, argv, flag, at, default):
        for k, a in enumerate(argv):
            if a == flag and k + 1 < len(argv):
                return os.path.realpath(os.path.join(at, argv[k + 1]))
            if a.startswith(flag) and len(a) > len(flag):
                return os.path.realpath(os.path.join(at, a[len(flag):].lstrip("=")))
        return default

    def cmake(self, argv, at):
        self.now += 3.0
        if self.fault("cmake"):
            return 1
        src = self.option(argv, "-S", at, None)
        if src != os.path.realpath(self.root):
            self.complain("cmake was pointed at the sources in %s" % src)
        self.build_dir = self.option(argv, "-B", at, at)
        defs = {}
        for a in argv:
            m = re.match(r"-D\s*(\w+)(?::\w+)?=(.*)", a)
            if m:
                defs[m[1]] = m[2]
        if defs.get("MAX_VERTEX_NUM") != str(self.n):
            self.complain("%d nodes per instance, but the program was configured for MAX_VERTEX_NUM=%s" % (self.n, defs.get("MAX_VERTEX_NUM")))
        if defs.get("HYBRID") not in (("1", "ON", "TRUE") if self.hyb else ("0",)):
            self.complain("mode %s, but the program was configured with HYBRID=%s" % ("hybrid" if self.hyb else "classic", defs.get("HYBRID")))
        self.configured = True
        return 0

    def make(self, argv, at):
        self.now += 5.0
        if not self.configured:
            self.complain("the program was built before it was configured")
        if self.fault("make"):
            return 2
        d = self.option(argv, "-C", at, at) if "--build" not in argv else self.option(argv, "--build", at, at)
        if d != self.build_dir:
            self.complain("make ran in %s, not in the build directory %s" % (d, self.build_dir))
        self.built = True
        return 0

    def network(self, argv, at):
        if not self.hyb:
            self.complain("the neural network was started in classic mode")
        script = [k for k, a in enumerate(argv) if a.endswith("main.py")]
        folder = os.path.realpath(os.path.join(self.main, "graph-convnet-tsp"))
        if not script or os.path.dirname(os.path.realpath(os.path.join(at, argv[script[0]]))) != folder or at != folder:
            self.complain("the network was started as %r in %s" % (argv, at))
            return 1
        args = argv[script[0] + 1:]
        if len(args) != 3:
            self.complain("the network was started with arguments %r" % args)
            return 1
        path, n, size = args
        i = self.instance_of(os.path.join(at, path), "the network")
        if i is None:
            return 1
        if self.fault("network", i):
            return 1
        if int(n) != self.n:
            self.complain("the network was told that instance %d has %s nodes, not %d" % (i, n, self.n))
        want = 20 if self.n <= 20 else 50 if self.n <= 50 else 100
        if int(size) != want:
            self.complain("%d nodes: model of size %s instead of %d" % (self.n, size, want))
        temp = os.path.join(folder, "data", "hyb_tsp", "test_%d_nodes_temp.txt" % self.n)
        if not os.path.exists(temp):
            self.complain("no temporary file for the network at instance %d" % i)
            return 1
        lines = open(temp).read().split("\n")
        got = [float(x) for x in lines[0].split(" output")[0].split()]
        if got != [c for p in self.points(i) for c in p]:
            self.complain("the temporary file for the network does not hold instance %d" % i)
        if not os.path.isdir(os.path.dirname(path)):
            self.complain("the folder for %s does not exist when the network is started" % path)
            return 1
        t = random.Random(self.case["seed"] + i).randint(1, 400) / 8
        self.now += t
        self.times[i] = self.times.get(i, 0) + t
        open(path, "w").write("network %d\n" % i)
        open(temp, "w").write("changed by the network\n")       # as add_dummy_cities does
        self.networks.append(i)
        self.net_for = i
        return 0

    def solver(self, argv, at):
        exe = os.path.realpath(os.path.join(at, argv[0]))
        if not self.built:
            self.complain("the solver was started before it was built")
        if os.path.dirname(exe) != self.build_dir:
            self.complain("the solver %s is not the one just built in %s" % (exe, self.build_dir))
        if len(argv) != 3:
            self.complain("the solver was started with %d arguments" % (len(argv) - 1))
            return 1
        i = self.instance_of(os.path.join(at, argv[1]), "the solver")
        if i is None:
            return 1
        out = os.path.realpath(os.path.join(at, argv[2]))
        want = os.path.realpath(os.path.join(self.root, "results", "AdjacencyMatrix", "tsp_%d_nodes_%s" % (self.n, "hybrid" if self.hyb else "classic"),
                                             "tsp_result_%d.txt" % i))
        if out != want:
            self.complain("the results of instance %d go to %s" % (i, out))
            return 1
        if not os.path.isdir(os.path.dirname(out)):
            self.complain("the results folder does not exist when the solver is started")
            return 1
        if not os.path.exists(argv[1]):
            self.complain("the matrix file of instance %d does not exist when the solver is started" % i)
            return 1
        text = open(argv[1]).read()
        if self.hyb:
            if text != "network %d\n" % i or self.net_for != i:
                self.complain("the solver was started on instance %d without the network's matrix for it" % i)
        else:
            self.check_csv(i, text)
        t = random.Random(self.case["seed"] - i).randint(1, 400) / 8
        self.now += t
        self.times[i] = self.times.get(i, 0) + t
        open(out, "w").write("report %d\n" % i)
        self.solved.append(i)
        return 7 if self.fault("solver", i) else 0

    def check_csv(self, i, text):
        pts = self.points(i)
        lines = [l for l in text.split("\n") if l.strip()]
        got = [tuple(float(x) for x in f.strip().strip("()").split(",")) for f in lines[0].rstrip(";").split(";")]
        if got != pts:
            self.complain("the first line of the matrix file of instance %d does not hold its nodes: %s" % (i, lines[0][:200]))
            return
        if len(lines) != self.n + 1:
            self.complain("the matrix file of instance %d has %d rows instead of %d" % (i, len(lines) - 1, self.n))
            return
        for a, l in enumerate(lines[1:]):
            row = [f for f in l.split(";") if f.strip()]
            if len(row) != self.n:
                self.complain("row %d of instance %d has %d fields" % (a, i, len(row)))
                return
            for b, f in enumerate(row):
                if not re.fullmatch(r"\s*\([^(),]+,[^(),]+\)\s*", f):
                    self.complain("field %d,%d of instance %d is %r" % (a, b, i, f))
                    return
                d, p = (float(x) for x in f.strip().strip("()").split(","))
                e = math.dist(pts[a], pts[b])
                if abs(d - e) > 1e-9 * max(1e-300, e) or p != 0:
                    self.complain("field %d,%d of instance %d is %r; the distance is %r" % (a, b, i, f, e))
                    return


def fake_popen(world):
    class P:
        def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False,
                     cwd=None, env=None, **kw):
            argv = shlex.split(args) if isinstance(args, str) else [os.fspath(a) for a in args]
            self.args, self.pid, self.stdin, self.stdout, self.stderr = args, 4242, None, None, None
            self._out = "" if kw.get("text") or kw.get("universal_newlines") or kw.get("encoding") else b""
            self.returncode = world.execute(argv, cwd)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            return None

        def communicate(self, *a, **k):
            return self._out, self._out

        def wait(self, *a, **k):
            return self.returncode

        poll = wait

        def kill(self):
            pass

        terminate = kill
    return P


class Driver(Check):
    cases = (800, 20000)
    rule = "at least one instance was solved, or a fault was injected"

    def strategy(self, tier):
        n = st.one_of(st.integers(2, 9), st.sampled_from([1, 19, 20, 21, 22, 35, 49, 50, 51, 52, 75, 99, 100, 101, 120]))
        fault = st.one_of(st.none(), st.none(), st.tuples(st.sampled_from(["cmake", "make", "network", "solver", "solver"]), st.integers(1, 5)).map(list))
        return st.fixed_dictionaries(dict(
            n=n, hybrid=st.booleans(), seed=st.integers(0, 10 ** 6), style=st.integers(0, 3), lines=st.integers(1, 12),
            tails=st.lists(st.integers(0, 3), min_size=1, max_size=4), last_newline=st.booleans(),
            spec=st.one_of(st.tuples(st.just("k"), st.integers(1, 5), st.just(0)), st.tuples(st.just("ab"), st.integers(0, 12), st.integers(0, 4))).map(list),
            dirs=st.lists(st.sampled_from(["missing", "exists", "race", "denied"]), min_size=2, max_size=2), stale=st.booleans(), fault=fault,
            far=st.sampled_from([0] * 14 + [95, 995]), built=st.booleans()))

    def run(self, case):
        n, hyb = case["n"], case["hybrid"]
        kind, a, b = case["spec"]
        far = case["far"] if kind == "ab" and n <= 9 else 0        # instances whose numbers have several digits
        case = dict(case, lines=case["lines"] + far, fault=case["fault"] and [case["fault"][0], case["fault"][1] + far])
        a += far
        spec, lo, hi = (str(a), 1, a) if kind == "k" else ("%d-%d" % (a, a + b), max(a, 1), a + b)
        with scratch() as root:
            w = World(case, root)
            hyb_dir = os.path.join(w.main, "graph-convnet-tsp", "data", "hyb_tsp")
            os.makedirs(hyb_dir)
            shutil.copy(SCRIPT, w.main)
            open(os.path.join(w.main, "graph-convnet-tsp", "main.py"), "w").close()
            open(os.path.join(root, "CMakeLists.txt"), "w").close()
            if case["built"]:            # an earlier run, for another size or mode, left its build
                old = os.path.join(root, "cmake-build", "CMakeFiles", "BranchAndBound1Tree.dir")
                os.makedirs(old)
                for f in ("CMakeCache.txt", "Makefile", "BranchAndBound1Tree"):
                    open(os.path.join(old, f), "w").write("old\n")
            inst = os.path.join(hyb_dir, "test_%d_nodes.txt" % n)
            text = "\n".join(line_of(w.points(i), case["tails"][i % len(case["tails"])], i) for i in range(1, case["lines"] + 1))
            open(inst, "w").write(text + ("\n" if case["last_newline"] else ""))
            data = os.path.join(root, "data", "AdjacencyMatrix", "tsp_%d_nodes" % n)
            res = os.path.join(root, "results", "AdjacencyMatrix", "tsp_%d_nodes_%s" % (n, "hybrid" if hyb else "classic"))
            modes = {os.path.realpath(data): case["dirs"][0], os.path.realpath(res): case["dirs"][1]}
            for d, m in modes.items():
                if m == "exists":
                    os.makedirs(d)
            if case["stale"] and case["dirs"] == ["exists", "exists"]:
                for i in range(1 + far, 14 + far):
                    open(os.path.join(data, "tsp_test_%d.csv" % i), "w").write("(9.0, 9.0);" * 40 + "\n" + "(3, 0);" * 200 + "\n")
                    open(os.path.join(res, "tsp_result_%d.txt" % i), "w").write("old report\n")
            real_makedirs, real_mkdir = os.makedirs, os.mkdir
            denied = []

            def racing(name, *args, **kw):
                m = modes.get(os.path.realpath(name))
                if m == "race":                     # another process creates the folder just before
                    real_makedirs(name, exist_ok=True)
                if m == "denied":
                    denied.append(name)
                    raise PermissionError(13, "Permission denied", str(name))
                return real_makedirs(name, *args, **kw)

            saved = (subprocess.Popen, time.time, time.perf_counter, time.monotonic, sys.argv, os.system)
            error = None
            with common.inside(w.main):
                subprocess.Popen = fake_popen(w)
                time.time = time.perf_counter = time.monotonic = lambda: w.now
                os.makedirs = racing
                os.system = lambda c: w.execute(shlex.split(c), None) << 8
                sys.argv = ["HybridSolver.py", "--range_instances", spec, "--num_nodes", str(n)] + (["--hybrid"] if hyb else [])
                try:
                    with bounded("HybridSolver.py"), quiet() as said:
                        runpy.run_path(os.path.join(w.main, "HybridSolver.py"), run_name="__main__")
                except Violation:
                    raise
                except SystemExit as e:
                    error = e if e.code else None
                except Exception as e:
                    error = e
                finally:
                    subprocess.Popen, time.time, time.perf_counter, time.monotonic, sys.argv, os.system = saved
                    os.makedirs = real_makedirs
            need(w.problem is None, w.problem)
            wanted = list(range(lo, hi + 1))
            # what must have stopped the run, and before which instance
            stop, why = None, None
            f = case["fault"]
            if hyb and n <= 1:
                stop, why = 0, "one node in hybrid mode"
            elif f and f[0] in ("cmake", "make"):
                stop, why = 0, "the build failed"
            else:
                for i in wanted:
                    if i > case["lines"]:
                        stop, why = i, "instance %d does not exist" % i
                    elif case["dirs"][0] == "denied" or case["dirs"][1] == "denied":
                        stop, why = i, "a folder cannot be created"
                    elif hyb and f and f[0] == "network" and f[1] == i:
                        stop, why = i, "the network failed on instance %d" % i
                    if stop is not None:
                        break
            expect = [i for i in wanted if stop is None or i < stop]
            if isinstance(error, NameError):
                raise Violation("the driver broke: NameError: %s" % error)
            need(w.solved == expect, "range %s: instances %s were solved, expected %s%s%s" %
                 (spec, w.solved, expect, " (%s)" % why if why else "", ", error %r" % error if error else ""))
            if stop is None:
                need(error is None, "the driver ended with %r" % error)
            else:
                need(error is not None, "the driver ended normally although %s" % why)
            if hyb and stop is None:
                need(w.networks == expect, "the network ran for %s, expected %s" % (w.networks, expect))
                left = [x for x in os.listdir(hyb_dir) if x != os.path.basename(inst)]
                need(not left, "temporary files left behind: %s" % left)
            for i in expect:
                text = open(os.path.join(res, "tsp_result_%d.txt" % i)).read()
                ended = [l for l in said.getvalue().splitlines() if re.search(r"Branch.*\binstance %d\b" % i, l)]
                failed = bool(f and f[0] == "solver" and f[1] == i)
                need(len(ended) == 1 and ("fail" in ended[0].lower()) == failed and ("success" in ended[0].lower()) != failed,
                     "the solver %s instance %d, but the driver says %s" % ("failed on" if failed else "solved", i, ended))
                ended = [l for l in said.getvalue().splitlines() if re.search(r"Network.*\binstance %d\b" % i, l)]
                need(len(ended) == (1 if hyb else 0) and not any("fail" in l.lower() for l in ended), "the network ran on instance %d, but the driver says %s" % (i, ended))
                need(text.startswith("report %d\n" % i), "the report of instance %d was not kept" % i)
                need(text.count("report") == 1 and text.count("Time taken") == 1, "the result file of instance %d is not exactly one report" % i)
                got = [(int(x), float(y), float(z)) for x, y, z in re.findall(r"(?m)^\s*(\d+) : (\S+) (\S+)\s*$", text)]
                need(got == [(k,) + p for k, p in enumerate(w.points(i))], "the result file of instance %d does not list its nodes" % i)
                m = re.findall(r"Time taken: ([0-9.]+)s", text)
                need(len(m) == 1 and abs(float(m[0]) - w.times[i]) < 1e-6,
                     "instance %d took %r s, the result file says %s" % (i, w.times[i], re.findall("Time taken.*", text)))
            labels = ["hybrid" if hyb else "classic", "spec " + kind, "model boundary" if n in (20, 21, 50, 51, 100, 101) else "other size"]
            if far and expect:
                labels.append("three or four digits")
            if why:
                labels.append("stopped: " + re.sub(r"\d+", "#", why))
            if "race" in case["dirs"] and expect:
                labels.append("race for a folder")
            if f and f[0] == "solver" and f[1] in expect:
                labels.append("solver failed")
            return bool(expect) or f is not None, labels


if __name__ == "__main__":
    common.main({"C26": Driver})
