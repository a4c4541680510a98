#!/usr/bin/env python3
"""Writes seeded/<id>/ for the changes below and tries them:  make.py [id...]   (build, stable tests, demonstration, check)"""
import json, os, re, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get("SEED_REPO", "/repo")      # a copy of /repo, with SEED_VP a copy of /opt/vp made to point to it
VP = os.environ.get("SEED_VP", "/opt/vp")
M = "src/HybridSolver/main/"
BB = M + "algorithms/branch_and_bound.c"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **files):
    SEEDS.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, files=files))


for f in sorted(os.listdir(HERE)):
    if f.startswith("s_") and f.endswith(".py"):
        exec(open(os.path.join(HERE, f), encoding="utf-8").read())


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def clean():
    subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."], check=True)


def write(s):
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    clean()
    for path, old, new in s["edits"]:
        p = os.path.join(REPO, path)
        t = open(p, encoding="utf-8", newline="").read()
        if "\r\n" in t:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        if t.count(old) != 1:
            sys.exit("%s: %d matches in %s for %r" % (s["id"], t.count(old), path, old))
        open(p, "w", encoding="utf-8", newline="").write(t.replace(old, new))
    diff = subprocess.run(["git", "-C", REPO, "diff"], stdout=subprocess.PIPE).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    clean()
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    if "pylib" in s["demo"]:
        shutil.copy(os.path.join(HERE, "pylib.py"), d)
        shutil.copy(os.path.join(VERIF, "py", "minitorch.py"), d)
        if "from opl" in s["demo"]:
            shutil.copy(os.path.join(VERIF, "py", "opl.py"), d)
    elif "run(" in s["demo"] or "lib" in s["demo"]:
        shutil.copy(os.path.join(HERE, "lib.py"), d)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip())
    for n, t in s["files"].items():
        open(os.path.join(d, n.replace("_c", ".c")), "w").write(t.lstrip())
        if '"unit.h"' in t:
            shutil.copy(os.path.join(HERE, "unit.h"), d)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec %s -B "$(dirname "$0")/demo.py"\n' % ("python3-vt" if "pylib" in s["demo"] else "/usr/bin/python3"))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    return d


def demo(d):
    try:
        p = sh(["bash", os.path.join(d, "demo.sh")], cwd=REPO, timeout=290)
        return p.returncode, p.stdout[-300:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def tests():
    sh(["bash", VP + "/test.sh", "/tmp/seed_tests.json"])
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    got = set(json.load(open("/tmp/seed_tests.json"))["passed"])
    return sorted(set(stable) - got)


todo = [s for s in SEEDS if not sys.argv[1:] or s["id"] in sys.argv[1:]]
for s in todo:
    d = write(s)
    rc0, o0 = demo(d)
    subprocess.run(["git", "-C", REPO, "apply", os.path.join(d, "patch.diff")], check=True)
    try:
        b = sh(["bash", VP + "/build.sh"])
        missing = tests()
        rc1, o1 = demo(d)
        line = "%s %s: build %d, lost tests %s, demo %d -> %d" % (s["id"], s["prop"], b.returncode, missing, rc0, rc1)
        ok = b.returncode == 0 and not missing and rc0 == 0 and rc1 not in (0,)
        print(("ok   " if ok else "BAD  ") + line, "" if ok else "\n" + o0 + "\n" + o1 + b.stdout[-500:] * (b.returncode != 0), flush=True)
        if os.environ.get("CHECK") and ok:
            for c in os.environ.get("CHECKS", s["prop"]).split(","):
                p = sh(["python3", os.path.join(VERIF, "run.py"), c, "quick"], env=dict(os.environ, VF_REPO=REPO, VERIF_SEED=os.environ.get("VERIF_SEED", "1")))
                print("   ", c, "exit", p.returncode, " ".join(l for l in p.stdout.splitlines() if "VIOLATION" in l)[:200], p.stdout[-300:] if p.returncode not in (0, 1) else "", flush=True)
    finally:
        clean()
sh(["bash", VP + "/build.sh"])
