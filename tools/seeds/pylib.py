"""Shared by the Python demonstrations: stand-ins for what is not installed, and the repository's modules."""
import atexit, importlib.util, math, os, random, shutil, subprocess, sys, tempfile, types, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
ROOT = os.getcwd()
SRC = os.path.join(ROOT, "src", "HybridSolver")
GCN = os.path.join(SRC, "main", "graph-convnet-tsp")
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
import minitorch as mt
torch = mt.install()
import numpy as np
sys.path.insert(0, GCN)
os.chdir(TMP)


def fail(msg):
    print("DEMO FAILED:", msg)
    sys.exit(1)


class Frame:
    """Remembers what the analyzer puts into a pandas.DataFrame."""
    made = []

    def __init__(self, data=None, columns=None):
        self.data = data
        Frame.made.append(data)

    def to_csv(self, *a, **k):
        pass


def analyzer():
    pd = types.ModuleType("pandas")
    pd.DataFrame = Frame
    sys.modules["pandas"] = pd
    return module(os.path.join(SRC, "results", "AdjacencyMatrix", "analyzer.py"))


def module(path):
    spec = importlib.util.spec_from_file_location("under_test", path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def line(pts, tour=None):
    tour = tour or list(range(len(pts)))
    return " ".join("%r %r" % tuple(p) for p in pts) + " output " + " ".join(str(t + 1) for t in tour + tour[:1]) + "\n"


def drive(lines, n, args, network="", solver="", keep=None):
    """Runs HybridSolver.py in a copy, with shell scripts instead of cmake, make, the network and the solver."""
    root = os.path.join(TMP, "drive")
    shutil.rmtree(root, True)
    main = os.path.join(root, "main")
    os.makedirs(os.path.join(main, "graph-convnet-tsp", "data", "hyb_tsp"))
    shutil.copy(os.path.join(SRC, "main", "HybridSolver.py"), main)
    open(os.path.join(main, "graph-convnet-tsp", "main.py"), "w").write("")
    open(os.path.join(main, "graph-convnet-tsp", "data", "hyb_tsp", "test_%d_nodes.txt" % n), "w").writelines(lines)
    bin = os.path.join(root, "bin")
    os.makedirs(bin)
    build = os.path.join(root, "cmake-build", "CMakeFiles", "BranchAndBound1Tree.dir")
    for name, text in (("cmake", 'mkdir -p %s && cp %s/solver %s/BranchAndBound1Tree' % (build, bin, build)), ("make", "true"),
                       ("python3", network or 'echo net >"$2"'), ("solver", solver or 'cp "$1" "$2"')):
        p = os.path.join(bin, name)
        open(p, "w").write('#!/bin/bash\nexport LOG=%s/log\n%s\n' % (root, text))
        os.chmod(p, 0o755)
    p = subprocess.run([sys.executable, "-B", "HybridSolver.py"] + args, cwd=main, env=dict(os.environ, PATH=bin + ":" + os.environ["PATH"]),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        fail("the driver ended with status %d\n%s" % (p.returncode, p.stdout[-800:]))
    log = os.path.join(root, "log")
    return root, open(log).read() if os.path.exists(log) else ""
