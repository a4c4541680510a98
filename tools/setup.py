#!/usr/bin/env python3
"""Checks that what the checks need is installed; the checks themselves build from /repo on every run."""
import shutil
import subprocess
import sys

bad = [t for t in ("clang", "clang++", "python3", "python3-vt") if not shutil.which(t)]
src = "#include <rapidcheck.h>\nint main(){ return rc::check([]{ RC_ASSERT(1); }) ? 0 : 1; }\n"
if not bad:
    p = subprocess.run(["clang++", "-std=c++17", "-fsyntax-only", "-x", "c++", "-"], input=src, text=True)
    q = subprocess.run(["python3-vt", "-c", "import hypothesis, numpy"])
    if p.returncode or q.returncode:
        bad.append("rapidcheck/hypothesis")
print("missing: " + ", ".join(bad) if bad else "setup: ok")
sys.exit(1 if bad else 0)
