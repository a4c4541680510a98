#!/usr/bin/env python3
"""Driver of every check: builds the variants of the code under test and the harness, runs the generated-input
search on all cores, replays a failure, writes evidence/<id>.json.   usage: run.py <id> [quick|thorough]"""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src", "HybridSolver")
sys.path.insert(0, VERIF)
import registry  # noqa: E402

WORKERS = int(os.environ.get("VF_WORKERS", "8"))


def die(msg):
    print("CHECK ERROR: " + msg, file=sys.stderr)
    sys.exit(3)


class Build:
    def __init__(self, d):
        self.d = d
        self.pool = cf.ThreadPoolExecutor(WORKERS)
        self.copies = {}

    def sh(self, cmd, **kw):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
        if p.returncode:
            raise RuntimeError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))

    def source_copy(self, prim):
        """A scratch copy of the solver's sources; prim=0 selects the Kruskal variant in problem_settings.h."""
        if prim in self.copies:
            return self.copies[prim]
        dst = os.path.join(self.d, "src_p%d" % prim)
        os.makedirs(dst)
        shutil.copytree(os.path.join(SRC, "main"), os.path.join(dst, "main"),
                        ignore=shutil.ignore_patterns("graph-convnet-tsp", "*.pyc", "*.csv"))
        shutil.copytree(os.path.join(SRC, "test"), os.path.join(dst, "test"))
        ps = os.path.join(dst, "main", "problem_settings.h")
        text = open(ps, encoding="utf-8").read()
        text, k = re.subn(r"(?m)^(\s*#\s*define\s+PRIM\s+)\d+", r"\g<1>%d" % prim, text)
        if prim == 0 and k != 1:
            raise RuntimeError("cannot select Kruskal: no '#define PRIM' in problem_settings.h")
        open(ps, "w", encoding="utf-8").write(text)
        self.copies[prim] = dst
        return dst

    def variant(self, spec):
        """spec: kind_n{n}_h{h}_p{p}[_flavour] -> {libs}/{spec}.so"""
        m = re.fullmatch(r"([a-z]+)_n(\d+)_h([01])_p([01])(?:_([a-z]+))?", spec)
        kind, n, h, p, fl = m[1], m[2], m[3], int(m[4]), m[5] or ""
        src = self.copies[p]
        files = sorted(glob.glob(os.path.join(src, "main", "**", "*.c"), recursive=True))
        extra = registry.ADAPTERS[kind]
        if kind != "m":
            files = [f for f in files if os.path.basename(f) != "main.c"]
        flags = ["-std=gnu99", "-g1", "-O1", "-fPIC", "-shared", "-w", "-DMAX_VERTEX_NUM=" + n, "-DHYBRID=" + h,
                 "-Dmain=vf_main", "-Dclock=vf_clock", "-fno-omit-frame-pointer", "-I" + os.path.join(src, "main")]
        flags += registry.FLAVOURS[fl]
        files += [os.path.join(VERIF, "adapters", a) for a in extra]
        out = os.path.join(self.d, "libs", spec + ".so")
        self.sh(["clang"] + flags + files + ["-o", out, "-lm", "-Wl,-Bsymbolic"])

    def harness(self, ck):
        exe = os.path.join(self.d, "harness")
        cpps = ["core.cpp"] + ck["cpp"]
        flags = ["-std=c++17", "-O1"]
        link = ["-fsanitize=address,undefined"] if ck.get("asan") else []     # the harness itself only needs the runtime
        objs, futs = [], []
        for c in cpps:
            o = os.path.join(self.d, c + ".o")
            objs.append(o)
            futs.append(self.pool.submit(self.sh, ["clang++"] + flags + ["-c", os.path.join(VERIF, "harness", c), "-o", o]))
        return exe, objs, futs, link

    def all(self, ck, tier):
        os.makedirs(os.path.join(self.d, "libs"))
        libs = ck["libs"](tier)
        for p in sorted({int(re.search(r"_p([01])", s)[1]) for s in libs}):
            self.source_copy(p)
        exe, objs, futs, flags = self.harness(ck)
        futs += [self.pool.submit(self.variant, s) for s in libs]
        for f in futs:
            f.result()
        self.sh(["clang++"] + flags + objs + ["-o", exe, "-lrapidcheck", "-ldl"])
        return exe


def run_c(cid, ck, tier, seed, d):
    b = Build(d)
    try:
        exe = b.all(ck, tier)
    except RuntimeError as e:
        die(str(e))
    libs = os.path.join(d, "libs")
    env = dict(os.environ)
    env.update(ck.get("env", {}))
    base = [exe, "--check", cid, "--libs", libs, "--tier", str(int(tier == "thorough"))]
    rule = subprocess.run(base + ["--info", "1"], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
    budget = ck.get("budget", {}).get(tier, 420 if tier == "quick" else 3000)
    scale = os.environ.get("VF_SCALE", "1")
    procs = []
    for w in range(WORKERS):
        out = os.path.join(d, "w%d.json" % w)
        log = open(os.path.join(d, "w%d.log" % w), "w")
        procs.append((out, subprocess.Popen(
            base + ["--seed", str(seed), "--worker", str(w), "--out", out, "--budget", str(budget), "--scale", scale],
            stdout=log, stderr=log, env=env, start_new_session=True)))
    stats, errors = [], []
    for w, (out, p) in enumerate(procs):
        rc = p.wait()
        if rc or not os.path.exists(out):
            errors.append("worker %d ended with %s: %s" % (w, rc, open(os.path.join(d, "w%d.log" % w)).read()[-2000:]))
        else:
            stats.append(json.load(open(out)))
    failures = [s for s in stats if s["failed"]]
    failures.sort(key=lambda s: len(s["case"]))
    violation = None
    for k, s in enumerate(failures[:4]):
        rp = os.path.join(VERIF, "replays", "%s.case" % cid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        with open(rp, "w") as f:
            f.write("# check %s, seed %d, %s\n# replay: VERIF_SEED=%d python3 /verif/run.py %s --replay %s\n" % (cid, seed, tier, seed, cid, rp))
            f.write("".join("# %s\n" % l for l in s["msg"].splitlines()) + s["case"])
        again = [subprocess.run(base + ["--replay", rp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env)
                 for _ in range(3)]
        hits = [a for a in again if a.returncode == 1]
        if hits:
            violation = (rp, s["msg"], len(hits))
            break
        print("note: a failure did not reproduce in 3 replays and is not reported: " + s["msg"][:300])
        os.unlink(rp)
    if errors and not violation:
        die("\n".join(errors))
    keys = set()
    for s in stats:
        keys.update(s["keys"])
    labels = {}
    for s in stats:
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    cov = {
        "evaluations": sum(s["evaluations"] for s in stats),
        "distinct_nontrivial": len(keys),
        "rule": rule,
        "samples": sum([s["samples"] for s in stats], [])[:5],
        "classification": labels,
        "workers_stopped_by_wall_budget": sum(1 for s in stats if s["cut"]),
    }
    return violation, cov


def run_py(cid, ck, tier, seed, d):
    """A Hypothesis check: py/<module>.py, run by WORKERS processes under python3-vt."""
    mod = os.path.join(VERIF, "py", ck["py"])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VF_REPO=REPO, VF_SCRATCH=d, PYTHONHASHSEED="0")
    if ck.get("libs"):
        b = Build(d)
        try:
            os.makedirs(os.path.join(d, "libs"))
            libs = ck["libs"](tier)
            for p in sorted({int(re.search(r"_p([01])", s)[1]) for s in libs}):
                b.source_copy(p)
            for f in [b.pool.submit(b.variant, s) for s in libs]:
                f.result()
        except RuntimeError as e:
            die(str(e))
        env["VF_LIBS"] = os.path.join(d, "libs")
    procs = []
    nw = ck.get("workers", WORKERS)
    for w in range(nw):
        out = os.path.join(d, "w%d.json" % w)
        log = open(os.path.join(d, "w%d.log" % w), "w")
        procs.append((out, subprocess.Popen(
            ["python3-vt", mod, "--check", cid, "--seed", str(seed), "--worker", str(w), "--workers", str(nw), "--tier", tier, "--out", out],
            stdout=log, stderr=log, env=env, start_new_session=True, cwd=d)))
    stats, errors = [], []
    for w, (out, p) in enumerate(procs):
        rc = p.wait()
        if rc or not os.path.exists(out):
            errors.append("worker %d ended with %s: %s" % (w, rc, open(os.path.join(d, "w%d.log" % w)).read()[-3000:]))
        else:
            stats.append(json.load(open(out)))
    violation = None
    failures = [s for s in stats if s["failed"]]
    failures.sort(key=lambda s: len(s["case"]))
    for s in failures[:4]:
        rp = os.path.join(VERIF, "replays", "%s.json" % cid)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        open(rp, "w").write(json.dumps({"check": cid, "msg": s["msg"], "case": json.loads(s["case"])}, indent=1))
        hits = 0
        for _ in range(3):
            a = subprocess.run(["python3-vt", mod, "--check", cid, "--replay", rp, "--tier", tier], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, env=env, cwd=d)
            hits += a.returncode == 1
        if hits:
            violation = (rp, s["msg"], hits)
            break
        print("note: a failure did not reproduce in 3 replays and is not reported: " + s["msg"][:300])
        os.unlink(rp)
    if errors and not violation:
        die("\n".join(errors))
    keys, labels = set(), {}
    for s in stats:
        keys.update(s["keys"])
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    cov = {"evaluations": sum(s["evaluations"] for s in stats), "distinct_nontrivial": len(keys),
           "rule": stats[0]["rule"] if stats else "", "samples": sum([s["samples"] for s in stats], [])[:5],
           "classification": labels}
    return violation, cov


def known(cid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("KNOWN-FINDING: property=%s " % cid):
                out.append(l.strip())
    return out


def main():
    cid = sys.argv[1]
    if cid not in registry.CHECKS:
        die("no such check: " + cid)
    ck = registry.CHECKS[cid]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    for i, a in enumerate(sys.argv[2:], 2):
        if a in ("quick", "thorough"):
            tier = a
        if a == "--replay":
            replay = os.path.abspath(sys.argv[i + 1])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "_build"), exist_ok=True)
    d = tempfile.mkdtemp(prefix=cid + ".", dir=os.path.join(VERIF, "_build"))
    code = 0
    try:
        if replay:
            if ck.get("py"):
                env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VF_REPO=REPO, VF_SCRATCH=d, PYTHONHASHSEED="0")
                sys.exit(subprocess.run(["python3-vt", os.path.join(VERIF, "py", ck["py"]), "--check", cid, "--replay", replay, "--tier", tier], env=env, cwd=d).returncode)
            exe = Build(d).all(ck, tier)
            sys.exit(subprocess.run([exe, "--check", cid, "--libs", os.path.join(d, "libs"), "--tier",
                                     str(int(tier == "thorough")), "--replay", replay], env=dict(os.environ, **ck.get("env", {}))).returncode)
        for l in known(cid):
            print(l)
        violation, cov = (run_py if ck.get("py") else run_c)(cid, ck, tier, seed, d)
        ev = {"property": cid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
              "assumptions": ck.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if violation else 0}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", cid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (cid, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
        if violation:
            print("  " + violation[1].replace("\n", "\n  ")[:3000])
            print("VIOLATION property=%s replay=%s" % (cid, violation[0]))
            code = 1
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
